"""C25: placeholders behave, once defined, as the field written in their place."""
import re

from scheme import Field, Structure, Undefined
from scheme.exceptions import StructuralError, UndefinedFieldError

from vf import gens, model, oracle
from vf.build import build, children, contains, walk
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import fail, require, require_same
from vf.prop import Section
from vf.same import difference

RULE = ('Up to three placeholders are used anywhere (keys, also of variants, items, map values, tuple positions, union members) in random '
    'schemas, and in the very schemas which define them. A random history builds the schemas, clones them, builds the definitions, '
    'defines the placeholders and processes values, in any order, in all four modes. Each outcome is compared with an independent '
    'model which follows the definitions made so far and says whether an undefined placeholder is reached. Extraction, '
    'interpolation, instantiation and description are compared with the schema written out. A second section puts a failure '
    'at a random depth, down to 40 levels, of a recursive schema. Non-trivial: a value reaches a placeholder.')
ASSUMPTIONS = ('Definitions always lead to a container before they lead to themselves.', 'Known finding: schemas which contain '
    'themselves cannot be cloned or described, so they are not.', 'A placeholder is defined once.')

REFS = ('u', 'v', 'w')


# --- following definitions -------------------------------------------------------------------------

def rebuilt(spec, f):
    """The specification with every directly nested one replaced."""
    out = dict(spec)
    t = spec['t']
    if t == 'structure':
        if 'polymorphic_on' in spec:
            out['structure'] = dict((i, dict((k, f(s)) for k, s in fields.items())) for i, fields in spec['structure'].items())
            if 'common' in spec:
                out['common'] = dict((k, f(s)) for k, s in spec['common'].items())
        else:
            out['structure'] = dict((k, f(s)) for k, s in spec['structure'].items())
    elif t == 'sequence':
        out['item'] = f(spec['item'])
    elif t == 'map':
        out['value'] = f(spec['value'])
    elif t in ('tuple', 'union'):
        name = 'values' if t == 'tuple' else 'fields'
        out[name] = [f(s) for s in spec[name]]
    return out


def linked(spec, defs, defined):
    """The specification as a graph in which the placeholders defined are replaced by what defines them."""
    memo = {}

    def link(s):
        if s['t'] != 'undefined':
            return rebuilt(s, link)
        ref = s['ref']
        if ref not in defined:
            return s
        if ref not in memo:
            memo[ref] = {}
            memo[ref].update(rebuilt(defs[ref], link))
        return memo[ref]
    return link(spec)


class TooLarge(Exception):
    pass


def expanded(spec, defs, depth, limit=300):
    """The specification written out, down to so many definitions inside one another."""
    count = [0]

    def expand(s, left):
        count[0] += 1
        if count[0] > limit:
            raise TooLarge()
        if s['t'] == 'undefined':
            if not left:
                return s
            return expand(defs[s['ref']], left - 1)
        return rebuilt(s, lambda c: expand(c, left))
    return expand(spec, depth)


def reachable(spec, defs, defined):
    """The placeholders the specification leads to by way of those defined, and whether it leads back to one."""
    seen, cyclic = [], [False]

    def visit(s, trail):
        for x in walk(s):
            if x['t'] == 'undefined':
                ref = x['ref']
                if ref in trail:
                    cyclic[0] = True
                elif ref in defined:
                    seen.append(ref)
                    visit(defs[ref], trail + (ref,))
                else:
                    seen.append(ref)
    visit(spec, ())
    return set(seen), cyclic[0]


def founded(defs):
    """Whether no definition leads to itself by way of unions alone."""
    def direct(s):
        if s['t'] == 'undefined':
            return [s['ref']]
        if s['t'] == 'union':
            return [r for x in s['fields'] for r in direct(x)]
        return []
    edges = dict((ref, direct(s)) for ref, s in defs.items())

    def visit(ref, trail):
        return ref not in trail and all(visit(x, trail + (ref,)) for x in edges[ref])
    return all(visit(ref, ()) for ref in defs)


# --- histories -------------------------------------------------------------------------------------

def gen(d):
    refs = REFS[:d.int(1, 3)]
    opts = gens.Opts(placeholders=list(refs), placeholder_chance=d.choice((0.2, 0.35, 0.5)), depth=d.choice((1, 2, 2)), width=3)
    defs = {}
    for ref in refs:
        if d.bool(0.25):
            spec = gens.scalar_spec(d, d.choice(opts.scalars), opts)
        else:
            spec = gens.structural_spec(d, d.choice(('structure', 'structure', 'sequence', 'map', 'tuple', 'union')), opts, opts.depth)
        if d.bool(0.6):
            spec['name'] = 'def_' + ref
        defs[ref] = spec
    if not founded(defs):
        raise Discard()
    roots = []
    for i in range(d.int(1, 2)):
        spec = gens.structural_spec(d, d.choice(opts.structural), opts, opts.depth)
        if d.bool(0.7):
            spec['name'] = 'root_%d' % i
        if contains(spec, ('undefined',)) or d.bool(0.1):
            roots.append(spec)
    if not roots:
        raise Discard()

    ops, pool, made, defined = [], [], [], []
    todo = ['root %d' % i for i in range(len(roots))] + ['make ' + r for r in refs] + ['define ' + r for r in refs]
    left = d.choice(refs) if d.bool(0.12) else None

    def process(n):
        kind, key = pool[n]
        spec = roots[key] if kind == 'root' else defs[key]
        plain = None
        for depth in (3, 2, 1):
            try:
                plain = expanded(spec, defs, depth)
                break
            except TooLarge:
                pass
        if plain is None:
            return
        phase = d.choice((IN, OUT))
        serialized = d.bool(0.5)
        try:
            value = gens.candidate(d, plain, phase, serialized, d.choice((0.0, 0.0, 0.15, 0.4)), opts)
        except model.Reached:
            return
        op = ['process', n, value, phase, serialized]
        if spec['t'] == 'structure' and d.bool(0.1):
            op.append(True)
        ops.append(op)

    while todo:
        mode = d.draw(9)
        if pool and mode in (0, 1):
            process(d.draw(len(pool) - 1))
        elif pool and mode == 2:
            n = d.draw(len(pool) - 1)
            kind, key = pool[n]
            if len(pool) < 6 and not reachable(roots[key] if kind == 'root' else defs[key], defs, defined)[1]:
                ops.append(['clone', n])
                pool.append(pool[n])
        else:
            ready = [x for x in todo if not (x.startswith('define ') and x[7:] not in made)]
            op = d.choice(ready)
            todo.remove(op)
            verb, key = op.split(' ')
            if verb == 'root':
                pool.append(('root', int(key)))
                ops.append(['root', int(key)])
            elif verb == 'make':
                made.append(key)
                pool.append(('def', key))
                ops.append(['make', key])
            elif key != left:
                defined.append(key)
                ops.append(['define', key])
    for n in range(len(pool)):
        for _ in range(d.int(1, 2)):
            process(n)
    return {'defs': defs, 'roots': roots, 'ops': ops}


def check(case):
    defs, roots = case['defs'], case['roots']
    placeholders = dict((ref, Undefined()) for ref in defs)
    hooks = {'undefined': placeholders.__getitem__}
    pool, fields, defined, labels = [], {}, set(), []
    trivial = True
    for op in case['ops']:
        verb = op[0]
        if verb == 'root':
            pool.append((build(roots[op[1]], hooks), roots[op[1]]))
        elif verb == 'make':
            fields[op[1]] = build(defs[op[1]], hooks)
            pool.append((fields[op[1]], defs[op[1]]))
        elif verb == 'define':
            placeholders[op[1]].define(fields[op[1]])
            defined.add(op[1])
        elif verb == 'clone':
            field, spec = pool[op[1]]
            if reachable(spec, defs, defined)[1]:
                raise Discard()
            pool.append((field.clone(), spec))
            labels.append('cloned')
        else:
            field, spec = pool[op[1]]
            found = processing(field, spec, defs, defined, *op[2:])
            labels.extend(found)
            if found == ['undefined reached'] and len(op) == 5:
                labels.extend(undefined_uses(field, spec, defs, defined, op[2]))
            if op[2] is not None and contains(spec, ('undefined',)):
                trivial = False
            if op[4] is False and op[3] == IN and len(op) == 5 and 'accepted' in found:
                labels.extend(other_uses(field, spec, defs, defined, op[2]))
    for field, spec in pool:
        members_named(field, {})
    for field, spec in pool:
        refs, cyclic = reachable(spec, defs, defined)
        if refs and not cyclic and refs <= defined:
            same_description(field, spec, defs)
            labels.append('described')
        if cyclic:
            labels.append('recursive')
    if trivial:
        labels.append('trivial')
    return labels


def members_named(field, seen):
    """Every member of a structure has a name, whenever it was defined."""
    if not isinstance(field, Field) or id(field) in seen:
        return
    seen[id(field)] = field
    parts = list(getattr(field, 'values' if field.type == 'tuple' else 'fields', None) or ())
    parts += [field.item, field.value]
    if field.type == 'structure':
        for part in field.structure.values():
            for k, member in (part.items() if field.polymorphic_on else [(None, part)]):
                parts.append(member)
                require(not isinstance(member, Field) or member.name, 'a member of %s has no name', field.guaranteed_name)
    for part in parts:
        members_named(part, seen)


def processing(field, spec, defs, defined, value, phase, serialized, partial=False):
    graph = linked(spec, defs, defined)
    params = {'partial': True} if partial else {}
    try:
        want = model.process(graph, value, phase, serialized, None, partial)
    except model.Reached:
        try:
            result = field.process(value, phase, serialized, **params)
        except UndefinedFieldError:
            return ['undefined reached']
        except StructuralError as error:
            fail('processing %r reaches an undefined field and was rejected with %r', value, error.serialize(True))
        fail('processing %r reaches an undefined field and returned %r', value, result)
    except model.Rejected:
        pass
    got = oracle.run(field.process, value, phase, serialized, **params)
    path = spec.get('name') or field.guaranteed_name    # nameless fields are named after the first key they are given to
    want = oracle.agree(graph, value, phase, serialized, got, partial, path=path)
    return ['accepted' if want[0] == 'ok' else 'rejected']


def outcome(f, *args, **params):
    try:
        return 'ok', f(*args, **params)
    except Exception as error:
        return 'error', type(error).__name__


def other_uses(field, spec, defs, defined, value):
    if not contains(spec, ('undefined',)):
        return []
    visible = dict((ref, defs[ref] if ref in defined else {'t': 'undefined', 'ref': ref}) for ref in defs)
    for depth in (5, 4, 3):
        try:
            plain = expanded(spec, visible, depth)
            break
        except TooLarge:
            pass
    else:
        return []
    inline = build(plain, {'undefined': lambda ref: Undefined()})
    labels = []
    for name, args in (('extract', (value,)), ('extract', (value, False)), ('interpolate', (value, {})), ('instantiate', (value,))):
        want = outcome(getattr(inline, name), *args)
        if want == ('error', 'UndefinedFieldError'):
            continue
        got = outcome(getattr(field, name), *args)
        found = difference(want, got, name)
        if found:
            fail('%s of %r: the schema written out gives %r, with placeholders %r', name, value, want, got)
        labels.append(name)
    return labels


class Open(Exception):
    pass


def reaches(spec, value):
    """Whether the value has something in the place of an undefined placeholder; open where any part is left to a union."""
    t = spec['t']
    if t == 'union':
        raise Open()
    if value is None:
        return False
    if t == 'undefined':
        return True
    if t in gens.SCALARS:
        return False
    if t == 'structure':
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            definition = model.definition_of(spec, value[model.discriminator(spec)['name']])
        parts = [(s, value.get(k)) for k, s in definition.items()]
    elif t == 'map':
        parts = [(spec['value'], v) for v in value.values()]
    elif t == 'sequence':
        parts = [(spec['item'], v) for v in value]
    else:
        parts = list(zip(spec['values'], value))
    return any([reaches(s, v) for s, v in parts])


def undefined_uses(field, spec, defs, defined, value):
    try:
        value = model.process(linked(spec, defs, list(defs)), value, IN, False)
        if not reaches(linked(spec, defs, defined), value):
            return []
    except (model.Rejected, Open, KeyError, TypeError, AttributeError, RecursionError):
        return []
    for name, args in (('extract', (value,)), ('extract', (value, False)), ('interpolate', (value, {})), ('instantiate', (value,))):
        got = outcome(getattr(field, name), *args)
        if name == 'interpolate' and (re.search(r'\$\{|\{[{%#]', repr(value)) or got == ('error', 'TemplateSyntaxError')):
            # a text which is no literal may fail before the placeholder is reached
            continue
        require(got == ('error', 'UndefinedFieldError'), '%s of %r reaches an undefined field and gave %r', name, value, got)
    return ['undefined elsewhere']


def nameless(v):
    if isinstance(v, dict):
        out = dict((k, nameless(x)) for k, x in v.items())
        if 'fieldtype' in v:
            for key in ('name', 'representation', 'timezone'):  # what clones acquire
                out.pop(key, None)
        return out
    if isinstance(v, (list, tuple)):
        return [nameless(x) for x in v]
    return v


def same_description(field, spec, defs):
    try:
        plain = expanded(spec, defs, 4)
    except TooLarge:
        return
    inline = build(plain)
    want, got = outcome(inline.describe), outcome(field.describe)
    require_same(nameless(want), nameless(got), 'description')


# --- depth -----------------------------------------------------------------------------------------

def gen_deep(d):
    """A definition with one or several ways back to it, and a value which takes them many times."""
    ways = {}
    for i in range(d.int(1, 3)):
        ways['k%d' % i] = [d.choice(('sequence', 'map', 'tuple', 'union', 'structure', 'variant')) for _ in range(d.size(0, 3))]
    depth = d.choice((1, 2, 3, 5, 8, 13, 21, 40))
    trail = [d.choice(sorted(ways)) for _ in range(depth)]
    bad = [d.choice((0, 0, 1)) if d.bool(0.15) else 0 for _ in range(depth + 1)]
    case = {'ways': ways, 'trail': trail, 'bad': bad, 'phase': d.choice((IN, OUT)), 'serialized': d.bool(0.5),
        'early': sorted(ways)[:d.int(0, len(ways))], 'name': d.choice((None, 'rec'))}
    return case


def way_spec(steps):
    spec = {'t': 'undefined', 'ref': 'u'}
    for step in reversed(steps):
        spec = {'sequence': lambda: {'t': 'sequence', 'item': spec},
            'map': lambda: {'t': 'map', 'value': spec},
            'tuple': lambda: {'t': 'tuple', 'values': [{'t': 'date'}, spec]},
            'union': lambda: {'t': 'union', 'fields': [{'t': 'integer'}, spec, {'t': 'text'}]},
            'structure': lambda: {'t': 'structure', 'structure': {'in': spec}},
            'variant': lambda: {'t': 'structure', 'polymorphic_on': 'kind', 'structure': {'a': {'in': spec}, 'b': {}}}}[step]()
    return spec


def way_value(steps, value, serialized):
    import datetime
    for step in reversed(steps):
        value = {'sequence': lambda: [value],
            'map': lambda: {'key': value},
            'tuple': lambda: ('2001-02-03' if serialized else datetime.date(2001, 2, 3), value),
            'union': lambda: value,
            'structure': lambda: {'in': value},
            'variant': lambda: {'kind': 'a', 'in': value}}[step]()
    return value


def check_deep(case):
    structure = dict((k, way_spec(steps)) for k, steps in case['ways'].items())
    structure['n'] = {'t': 'integer', 'minimum': 0}
    spec = {'t': 'structure', 'structure': structure}
    if case['name']:
        spec['name'] = case['name']
    undefined = Undefined()
    field = build(spec, {'undefined': lambda ref: undefined})
    reading = case['serialized'] and case['phase'] == IN
    graph = linked({'t': 'undefined', 'ref': 'u'}, {'u': spec}, ('u',))
    value = {'n': case['bad'][-1] * -1}
    for way, bad in zip(reversed(case['trail']), reversed(case['bad'][:-1])):
        value = {'n': 'x' if bad else 1, way: way_value(case['ways'][way], value, reading)}
    undefined.define(field)
    got = oracle.run(field.process, value, case['phase'], case['serialized'])
    want = oracle.agree(graph, value, case['phase'], case['serialized'], got, path=field.guaranteed_name)
    return ['depth %d' % len(case['trail']), 'accepted' if want[0] == 'ok' else 'rejected']


SECTIONS = [Section('histories', gen, check, 10000), Section('deep', gen_deep, check_deep, 4000)]
