"""Large values: deep, long, wide, with long texts; drawn from few choices, so they stay cheap to generate and shrink."""
from decimal import Decimal

from vf import gens
from vf.engine import Discard

KINDS = ('deep', 'long', 'keys', 'wide', 'tuple', 'text', 'deep', 'long', 'unique')


def amount(d, top=400):
    """Sizes near the powers of two and ten among others, shrinking to small ones."""
    mode = d.draw(3)
    if mode == 0:
        return d.int(1, 40)
    if mode == 1:
        return d.choice((7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130))
    if mode == 2:
        return d.int(1, 300)
    return d.choice((255, 256, 257, 260, 300, 399, top, top))


def some(d, spec, n, make):
    """n values of the specification, repeating a handful."""
    few = [make(spec) for _ in range(d.int(1, 4))]
    out = [few[i % len(few)] for i in range(n)]
    for _ in range(d.draw(2)):
        out[d.draw(n - 1)] = make(spec)
    return out


def large(d, opts, make, kinds=KINDS, names=None, top=400, layers=40, depth=1):
    """(specification, value); make(spec) gives a value of a small specification."""
    kind = d.choice([k for k in kinds if k in ('text', 'deep') or {'long': 'sequence', 'unique': 'sequence', 'keys': 'map', 'wide': 'structure',
        'tuple': 'tuple'}[k] in opts.structural])
    plain = opts.but(placeholders=None)
    names = names or [n for n in opts.names if n] or ['a']

    def small(depth):
        if depth and d.bool(0.5):
            return gens.structural_spec(d, d.choice(opts.structural), plain, 1)
        return gens.scalar_spec(d, d.choice(opts.scalars), plain)

    if kind == 'text':
        t = d.choice([t for t in ('text', 'text', 'binary', 'field') if t in opts.scalars])
        piece = gens.any_text(d, 1, 12, opts.text)
        n = d.choice((20, 100, 101, 500, 1000, 5000, 20000)) // len(piece) + d.int(0, 3)
        spec = {'t': t}
        if t == 'text' and d.bool(0.5):
            spec['strip'] = False
        value = piece * n
        if t == 'text' and spec.get('strip', True):
            value = d.choice(('', '', ' ', '\n')) + value.strip() + d.choice(('', '', ' ', '\t '))
        if t == 'binary':
            value = value.encode('utf-8', 'replace')
        for _ in range(d.draw(2)):
            spec, value = wrapped(d, spec, value, 1, opts, names)
        return spec, value, kind
    if kind == 'deep':
        spec = small(depth)
        return wrapped(d, spec, make(spec), d.choice((5, 8, 9, 10, 12, 16, 20, 33, layers)), opts, names) + (kind,)
    n = amount(d, top)
    if kind == 'long':
        item = small(depth)
        if item['t'] in gens.SCALARS and top >= 400 and d.bool(0.2):
            n *= 8
        spec = {'t': 'sequence', 'item': item}
        value = some(d, item, n, make)
        if d.bool(0.3):
            spec[d.choice(('min_length', 'max_length'))] = n + d.choice((0, 0, 1, -1))
    elif kind == 'unique':
        spec, value = distinct(d, n, opts)
    elif kind == 'keys':
        item = small(depth)
        spec = {'t': 'map', 'value': item}
        value = dict(('k%d' % i, v) for i, v in enumerate(some(d, item, n, make)))
        if d.bool(0.3):
            spec['required_keys'] = ['k%d' % (i * 3) for i in range(n // 2)]
    elif kind == 'wide':
        n = min(n, 130)
        few = [small(depth) for _ in range(d.int(1, 4))]
        keys = ['k%d' % i for i in range(n)]
        spec = {'t': 'structure', 'structure': dict((k, few[i % len(few)]) for i, k in enumerate(keys))}
        if opts.key_order and d.bool(0.3):
            spec['key_order'] = keys[::-1] if d.bool() else keys[n // 2:]
        pools = [[make(s) for _ in range(3)] for s in few]
        value = dict((k, pools[i % len(few)][i % 3]) for i, k in enumerate(keys))
        if d.bool(0.4):
            step = d.int(2, 9)
            value = dict((k, v) for i, (k, v) in enumerate(sorted(value.items())) if i % step)
    else:
        n = min(n, 130)
        few = [small(depth) for _ in range(d.int(1, 4))]
        spec = {'t': 'tuple', 'values': [few[i % len(few)] for i in range(n)]}
        pools = [[make(s) for _ in range(3)] for s in few]
        value = tuple(pools[i % len(few)][i % 3] for i in range(n))
    if d.bool(0.2):
        spec, value = wrapped(d, spec, value, d.int(1, 3), opts, names)
    return spec, value, kind


def distinct(d, n, opts):
    """A sequence of unique values, perhaps with one of them twice."""
    t = d.choice([t for t in ('integer', 'text', 'field') if t in opts.scalars])
    shape = d.choice(('item', 'item', 'structure', 'sequence', 'tuple', 'map'))
    if shape not in opts.structural:
        shape = 'item'
    step = d.choice((1, 1, 2, 64, 1000))
    values = [i * step if t == 'integer' else 'v%d' % (i * step) for i in range(n)]
    if d.bool():
        values.reverse()
    if n > 1 and d.bool(0.4):
        i = d.draw(n - 1)
        values[d.choice((0, n - 1, i))] = values[d.draw(n - 1)]
    item = {'t': t}
    k = next(x for x in opts.names if x)
    shapes = {'item': (item, lambda v: v), 'structure': ({'t': 'structure', 'structure': {k: item}}, lambda v: {k: v}),
        'sequence': ({'t': 'sequence', 'item': item}, lambda v: [v]), 'tuple': ({'t': 'tuple', 'values': [item]}, lambda v: (v,)),
        'map': ({'t': 'map', 'value': item}, lambda v: {k: v})}
    item, make = shapes[shape]
    return {'t': 'sequence', 'item': item, 'unique': True}, [make(v) for v in values]


def wrapped(d, spec, value, layers, opts, names):
    pattern = [d.choice([t for t in opts.structural if t != 'union']) for _ in range(d.int(1, 3))]
    name = [d.choice(names) for _ in range(2)]
    flag = d.choice(('nonnull', 'required', None))
    for i in range(layers):
        kind = pattern[i % len(pattern)]
        inner = spec
        if kind == 'structure':
            if 'name' in inner:
                inner = dict((k, v) for k, v in inner.items() if k != 'name')
            spec, value = {'t': kind, 'structure': {name[i % 2]: inner}}, {name[i % 2]: value}
        elif kind == 'map':
            spec, value = {'t': kind, 'value': inner}, {name[i % 2]: value}
        elif kind == 'sequence':
            spec, value = {'t': kind, 'item': inner}, [value]
        else:
            spec, value = {'t': kind, 'values': [inner]}, (value,)
        if flag and i % 2:
            spec[flag] = True
    return spec, value


def unshared(spec):
    """The same specification, with every field a dictionary of its own."""
    out = dict(spec)
    for k in ('structure', 'common'):
        if k in out and 'polymorphic_on' in out and k == 'structure':
            out[k] = dict((i, dict((n, unshared(s)) for n, s in f.items())) for i, f in out[k].items())
        elif k in out:
            out[k] = dict((n, unshared(s)) for n, s in out[k].items())
    for k in ('item', 'value', 'key', 'polymorphic_on'):
        if isinstance(out.get(k), dict):
            out[k] = unshared(out[k])
    if out['t'] == 'tuple':
        out['values'] = [unshared(s) for s in out['values']]
    if out['t'] == 'union':
        out['fields'] = [unshared(s) for s in out['fields']]
    return out


def valid(d, opts, **params):
    def make(spec):
        return gens.valid(d, spec, opts)
    spec, value, kind = large(d, opts, make, **params)
    return spec, value


def candidate(d, opts, phase, serialized, bad, **params):
    def make(spec):
        return gens.candidate(d, spec, phase, serialized, bad, opts)
    spec, value, kind = large(d, opts, make, **params)
    return spec, value


def scalar(d):
    """(specification, native values near what it allows) of large scalars."""
    t = d.choice(('text', 'binary', 'email', 'email', 'enumeration', 'integer', 'decimal', 'token', 'field', 'text', 'integer'))
    n = amount(d, 1000)
    if t in ('text', 'binary', 'email') and d.bool(0.3):
        n *= d.choice((4, 16))
    spec = {'t': t}
    values = []
    near = [n - 1, n, n + 1]
    if t in ('text', 'binary'):
        for k in d.subset(('min_length', 'max_length'), 0.6):
            spec[k] = n
        piece = gens.any_text(d, 1, 12)
        if t == 'text' and d.bool():
            spec['strip'] = False
        elif t == 'text':
            piece = piece.strip() or 'a'
            if d.bool(0.3):
                piece, spec['pattern'] = d.choice('abc'), r'[a-c]+\Z'
        for m in near:
            v = (piece * m)[:m]
            if t == 'text' and 'strip' not in spec:
                v = v.rstrip()
                v = d.choice(('', ' ')) + v + 'a' * (m - len(v)) + d.choice(('', '\n', '  '))
            values.append(v if t == 'text' else bytes(bytearray((ord(c) * 7 + i) % 256 for i, c in enumerate(v))))
    elif t == 'email' and d.bool():
        spec['multiple'] = True
        few = [gens.an_address(d) for _ in range(4)]
        for m in near:
            values.append(','.join(few[i % 4] for i in range(m)))
        bad = [few[i % 4] for i in range(n)]
        bad[d.choice((0, n - 1, d.draw(n - 1)))] = d.choice(('a', 'a@b', 'a@@b.co'))
        values.append(','.join(bad))
    elif t == 'email':
        if d.bool(0.7):
            spec[d.choice(('min_length', 'max_length'))] = n
        values = [('ab' * m)[:m - 5] + '@b.co' for m in near if m > 6] + ['a@' + ('b.' * m)[:2 * (m // 2)] + 'co' for m in near if m > 3]
    elif t == 'enumeration':
        members = ['m%d' % i for i in range(n)] if d.bool() else list(range(n))
        spec['enumeration'] = members
        if isinstance(members[0], str) and d.bool():
            spec['enumeration'] = ' '.join(members)
        values = [members[0], members[-1], members[n // 2], 'm%d' % n, 'm', n, -1, 'm0 m1']
    elif t == 'integer':
        m = d.choice((2 ** min(n, 2000), 10 ** min(n, 500), 7 ** min(n, 300)))
        sign = d.choice((1, -1))
        for k in d.subset(('minimum', 'maximum'), 0.6):
            spec[k] = m * sign
        values = [m * sign + i for i in (-1, 0, 1)] + [-m * sign]
    elif t == 'decimal':
        digits = d.choice(('3', '9', '10', '123456789'))
        text = '%s%s.%s' % (d.choice(('', '-')), (digits * n)[:n], d.choice(('', '0', '5', digits * (n // 3 + 1))) or '1')
        for k in d.subset(('minimum', 'maximum'), 0.6):
            spec[k] = Decimal(text) if d.bool() else text
        values = [Decimal(text), Decimal(text + '1'), Decimal(text[:-1] + '0'), Decimal('%sE%d' % (text[:3].rstrip('.-') or '1', n))]
    elif t == 'token':
        if d.bool(0.7):
            spec['segments'] = n
        segment = gens.a_segment(d) * d.choice((1, 1, 50))
        values = [':'.join([segment] * m) for m in near if m] + [':'.join([segment] * n) + ':', segment * n]
    else:
        v = gens.native(d, gens.DEFAULT, 1)
        for _ in range(min(n, 60)):
            v = [v] if d.bool() else {'k': v}
        values = [v, [v] * 3, dict(('k%d' % i, i) for i in range(n)), list(range(n))]
    return spec, values
