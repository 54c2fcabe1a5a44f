"""What the description of a specification must contain, independently of the code."""
from vf import model
from vf.build import walk

SKIP = ('t', 'pre', 'inst', 'ext', 'errors', 'structure', 'common', 'item', 'value', 'key', 'values', 'fields',
    'polymorphic_on', 'aspects', 'extra', 'nonempty')
NONNATIVE = ('date', 'time', 'datetime', 'decimal', 'binary')


def native_only(spec):
    return not any(s['t'] in NONNATIVE for s in walk(spec))


def strip_unnatural(spec, structural=False):
    """Remove what a description cannot carry: defaults and constants holding non-native values; optionally
    not the defaults of structural fields, which are described in serialized form."""
    for s in walk(spec):
        if not native_only(s):
            if structural and s['t'] in model.STRUCTURAL and not any(x['t'] in ('binary', 'union', 'field') for x in walk(s)):
                continue
            s.pop('default', None)
            s.pop('constant', None)
    return spec


def expected(spec, name=None):
    t = spec['t']
    out = {'fieldtype': t}
    for k, v in dict(spec.get('aspects', {}), **spec.get('extra', {})).items():
        out[k] = v
    if spec.get('name') or name:
        out['name'] = spec.get('name') or name
    for k, v in spec.items():
        if k in SKIP or k == 'name' or v is None:
            continue
        if k in ('minimum', 'maximum') and t in NONNATIVE:
            if not isinstance(v, str):
                v = model.WRITE[t](spec, v)
        elif k in ('enumeration', 'ignored_values', 'key_order', 'required_keys') and isinstance(v, str):
            v = v.split(' ')
        elif k == 'default' and t == 'union':
            continue
        elif k == 'default' and t in model.STRUCTURAL:
            v = model.process(dict(spec, nonnull=False, pre='same'), v, model.OUT, True)
        out[k] = v
    if spec.get('nonempty'):
        out['nonnull'] = out['required'] = True
        if t in ('text', 'binary', 'email') and spec.get('min_length') is None:
            out['min_length'] = 1
    if t == 'structure':
        if 'polymorphic_on' in spec:
            on = model.discriminator(spec)
            out['polymorphic_on'] = dict(expected(on), required=True)
            out['structure'] = {}
            for identity in spec['structure']:
                fields = dict(spec['structure'][identity])
                fields.update(spec.get('common', {}))
                variant = dict((k, expected(s, k)) for k, s in fields.items())
                variant[on['name']] = dict(expected(on), constant=identity, required=True)
                out['structure'][identity] = variant
        else:
            out['structure'] = dict((k, expected(s, k)) for k, s in spec['structure'].items())
    elif t == 'sequence':
        out['item'] = expected(spec['item'])
    elif t == 'map':
        out['value'] = expected(spec['value'])
        if spec.get('key'):
            out['key'] = expected(spec['key'])
    elif t == 'tuple':
        out['values'] = [expected(s) for s in spec['values']]
    elif t == 'union':
        out['fields'] = [expected(s) for s in spec['fields']]
    return out


def missing(want, got, path='description'):
    """None, or what `want` contains and `got` does not."""
    if not isinstance(got, dict):
        return '%s is %r' % (path, got)
    for k, v in want.items():
        here = '%s[%r]' % (path, k)
        if k not in got:
            return '%s is missing, expected %r' % (here, v)
        found = None
        if k == 'structure':
            if set(v) != set(got[k]):
                return '%s has keys %r, expected %r' % (here, sorted(map(repr, got[k])), sorted(map(repr, v)))
            for name in v:
                if 'polymorphic_on' in want:
                    if set(v[name]) != set(got[k][name]):
                        return '%s[%r] has keys %r' % (here, name, sorted(map(repr, got[k][name])))
                    for n in v[name]:
                        found = found or missing(v[name][n], got[k][name][n], '%s[%r][%r]' % (here, name, n))
                else:
                    found = found or missing(v[name], got[k][name], '%s[%r]' % (here, name))
        elif k in ('item', 'value', 'key', 'polymorphic_on') and isinstance(v, dict) and 'fieldtype' in v:
            found = missing(v, got[k], here)
        elif k in ('values', 'fields') and isinstance(v, list) and v and isinstance(v[0], dict) and 'fieldtype' in v[0]:
            if len(v) != len(got[k]):
                return '%s has %d members, expected %d' % (here, len(got[k]), len(v))
            for i, (x, y) in enumerate(zip(v, got[k])):
                found = found or missing(x, y, '%s[%d]' % (here, i))
        elif not equivalent(v, got[k]):
            return '%s is %r, expected %r' % (here, got[k], v)
        if found:
            return found
    return None


def equivalent(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equivalent(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equivalent(a[k], b[k]) for k in a)
    return type(a) is type(b) and (a == b or a != a)


def normal(description):
    """A description without the aspect clones of enumerations acquire, nor the class
    attribute verbose descriptions mention; tuples as lists."""
    if isinstance(description, dict):
        out = dict((k, normal(v)) for k, v in description.items())
        if out.get('fieldtype') == 'enumeration' and isinstance(out.get('representation'), str):
            del out['representation']
        if 'fieldtype' in out and isinstance(out.get('structural'), bool):
            del out['structural']
        return out
    if isinstance(description, (list, tuple)):
        return [normal(v) for v in description]
    return description


def plain(v):
    """Whether v consists of natively serializable values only."""
    if isinstance(v, dict):
        return all(plain(k) and plain(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(plain(x) for x in v)
    return v is None or type(v) in (bool, int, float, str)
