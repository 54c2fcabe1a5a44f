"""C16: instantiation and schema-based objects mirror the value exactly."""
from scheme import Element, Field, Structure, Text, Union
from scheme.field import INBOUND

from vf import gens, large, model, oracle
from vf.build import REFUSALS, build, children, walk
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import require, require_same
from vf.prop import Finding, Section
from vf.same import difference

RULE = ('Instantiation: a random schema whose fields have recording instantiators instantiates a valid value; the recorded calls '
    '(field, value received, key), their multiplicity and nesting order, and the result are compared with a model. Objects: random '
    'families of schema-based classes (plain, polymorphic with and without registered variants, scalar, nested inside sequences, '
    'maps, tuples and structures, with key attributes) are built from values and by constructor and sent through every suitable '
    'format; class and attributes are compared with a model. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: something is instantiated and not null.')
ASSUMPTIONS = ('Known finding: unions cannot be instantiated, so schemas with unions are left out.', 'Objects do not tell an '
    'explicit null from an absent key, so nulls inside structures are not sent through objects.')

OPTS = gens.Opts(depth=3, structural=('structure', 'sequence', 'map', 'tuple'), defaults=False)

LOG, FAILING = [], []


class Made(object):
    def __init__(self, nid, value):
        self.nid, self.value = nid, value

    def __repr__(self):
        return 'Made(%r, %r)' % (self.nid, self.value)


def maker(nid):
    def instantiate(field, value, key):
        LOG.append((nid, field, value, key))
        if FAILING and len(LOG) == FAILING[0]:
            raise FAILING[1]
        return Made(nid, value)
    if nid % 3 == 1:
        holder = type('Holder', (object,), {'__instantiate__': staticmethod(instantiate)})
        return holder
    return instantiate


def gen_calls(d):
    spec = gens.a_spec(d, OPTS, 3) if d.bool(0.2) else gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 3)
    p = d.choice((0.1, 0.4, 1.0))
    for nid, s in enumerate(walk(spec)):
        s['aspects'] = {'nid': nid}
        if d.bool(p):
            s['inst'] = nid
    value = gens.valid(d, spec, OPTS, 0.02)
    return {'spec': spec, 'value': value, 'failing': d.draw(255)}


def gen_large_calls(d):
    spec, value = large.valid(d, OPTS, kinds=('deep', 'wide', 'tuple', 'keys', 'long'), top=130)
    spec = large.unshared(spec)
    chosen = d.choice((1, 3, 10))
    for nid, s in enumerate(walk(spec)):
        s['aspects'] = {'nid': nid}
        if nid % chosen == 0:
            s['inst'] = nid
    return {'spec': spec, 'value': value, 'failing': d.draw(5000)}


def expected_calls(spec, value, key, log):
    if value is None:
        return None
    t = spec['t']
    if t == 'structure':
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            definition = model.definition_of(spec, value[model.discriminator(spec)['name']])
        value = dict((k, expected_calls(definition[k], v, k, log)) for k, v in value.items())
    elif t == 'map':
        value = dict((k, expected_calls(spec['value'], v, k, log)) for k, v in value.items())
    elif t == 'sequence':
        value = [expected_calls(spec['item'], v, None, log) for v in value]
    elif t == 'tuple':
        value = tuple(expected_calls(s, v, None, log) for s, v in zip(spec['values'], value))
    if 'inst' in spec:
        log.append((spec['inst'], value, key))
        return Made(spec['inst'], value)
    return value


def plain(v):
    """Values with what was made spelled out."""
    if isinstance(v, Made):
        return {'$made': v.nid, 'value': plain(v.value)}
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def check_calls(case):
    spec = case['spec']
    field = build(spec, {'inst': maker})
    try:
        value = model.process(spec, case['value'], IN, False)
    except model.Rejected:
        raise Discard()
    want_log = []
    want = expected_calls(spec, value, None, want_log)
    before = plain(value)
    del LOG[:]
    got = field.instantiate(value)
    log = list(LOG)
    require_same(before, plain(value), 'the value after instantiation')
    require_same(plain(want), plain(got), 'instantiated value')
    for nid, given, _, _ in log:
        require(given.aspects.get('nid') == nid, 'the instantiator of field %r was called with %r', nid, given)
    # every call, with its value and key, as often as expected
    left = [(nid, plain(v), k) for nid, _, v, k in log]
    for nid, v, k in want_log:
        for i, (n, x, y) in enumerate(left):
            if n == nid and y == k and type(y) is type(k) and difference(plain(v), x) is None:
                del left[i]
                break
        else:
            require(False, 'no call of instantiator %r with %r, key %r: calls were %r', nid, v, k, log)
    require(not left, 'unexpected calls %r', left)
    if log:
        # what an instantiator raises reaches the caller as it is
        raised = REFUSALS[case.get('failing', 0) % len(REFUSALS)]('instantiator refused')
        del LOG[:]
        FAILING[:] = [case.get('failing', 0) % len(log) + 1, raised]
        try:
            result = field.instantiate(value)
        except Exception as error:
            if error is not raised:
                raise
            require(len(LOG) == FAILING[0], 'instantiators were called after one had refused')
        else:
            require(False, 'an instantiator raised %r, but the result is %r', raised, result)
        finally:
            del FAILING[:]
        require_same(before, plain(value), 'the value after a failed instantiation')
    labels = [spec['t'], '%d calls' % min(len(log), 6)]
    if not log:
        labels.append('trivial')
    return labels


# --- schema-based objects -----------------------------------------------------------------

OBJECT = gens.Opts(depth=2, structural=('structure', 'sequence', 'map', 'tuple'), names=gens.IDENTIFIERS, pre=False,
    scalars=tuple(t for t in gens.SCALARS if t not in ('binary',)), map_keys=('text', 'token'), nan=False, field_values='scalar',
    text='xml', poly=False, nulls=False, ignored=False)


def gen_objects(d):
    """An outer schema over identifiers; some structures (and scalars) below it are classes of their own."""
    opts = OBJECT
    kind = d.weighted((5, 'structure'), (3, 'poly'), (1, 'scalar'))
    if kind == 'structure':
        spec = gens.structural_spec(d, 'structure', opts, 3)
    elif kind == 'poly':
        spec = gens.poly_spec(d, opts, 2)
        spec['registered'] = [i for i in sorted(spec['structure'], key=repr) if d.bool(0.6)]
    else:
        spec = gens.scalar_spec(d, d.choice(opts.scalars), opts)
        spec['name'] = d.choice(('value', 'item', 'x1'))
    spec.pop('default', None)
    spec.pop('nonempty', None)
    spec.pop('strict', None)
    spec['class'] = 'root'
    n = 0
    for s in walk(spec):
        if s is spec:
            continue
        if s['t'] == 'structure' and d.bool(0.5):
            s.pop('default', None)
            s['class'] = 'c%d' % n
        elif s['t'] in gens.SCALARS and d.bool(0.1) and 'class' not in s:
            s['class'] = 'c%d' % n
            s.setdefault('name', 'value')
            s.pop('default', None)
            s.pop('constant', None)
        n += 1
        if 'class' in s and d.bool(0.4):
            s['key_attr'] = 'the_key'
    for s in walk(spec):
        if 'class' in s and d.bool(0.15):
            s['hollow'] = True
    if d.bool(0.3):
        spec['ancestor'] = d.choice(('plain', 'polymorphic'))
    for s in walk(spec):
        if s['t'] not in gens.SCALARS or 'class' in s:
            s.pop('default', None)
    if kind != 'scalar' and any('constant' in s and 'default' in s for s in walk(spec)):
        raise Discard()
    raw = gens.valid(d, spec, opts)
    case = {'spec': spec, 'value': strip_nulls(spec, raw), 'drop': d.int(0, 3)}
    if d.bool(0.3):
        case['raw'] = raw
    if d.bool(0.4):
        case['null'] = d.int(0, 3)
    return case


def strip_nulls(spec, value):
    if value is None:
        return None
    t = spec['t']
    if t == 'structure':
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            definition = model.definition_of(spec, value[model.discriminator(spec)['name']])
        if any(v is None and model.required(definition[k]) for k, v in value.items() if k in definition):
            raise Discard()
        return dict((k, strip_nulls(definition[k], v)) for k, v in value.items() if v is not None and k in definition)
    if t == 'map':
        return dict((k, strip_nulls(spec['value'], v)) for k, v in value.items())
    if t == 'sequence':
        return [strip_nulls(spec['item'], v) for v in value]
    if t == 'tuple':
        return tuple(strip_nulls(s, v) for s, v in zip(spec['values'], value))
    return value


def bare(spec):
    """Without what is for this module only."""
    out = dict((k, v) for k, v in spec.items() if k not in ('class', 'key_attr', 'registered', 'hollow', 'ancestor'))
    if 'structure' in out:
        if 'polymorphic_on' in out:
            out['structure'] = dict((i, dict((k, bare(s)) for k, s in f.items())) for i, f in out['structure'].items())
            if 'common' in out:
                out['common'] = dict((k, bare(s)) for k, s in out['common'].items())
        else:
            out['structure'] = dict((k, bare(s)) for k, s in out['structure'].items())
    for k in ('item', 'value', 'key'):
        if isinstance(out.get(k), dict) and 't' in out[k]:
            out[k] = bare(out[k])
    if spec['t'] == 'tuple':
        out['values'] = [bare(s) for s in out['values']]
    return out


def declare(spec, field, classes):
    """Declare the classes of the specification, innermost first."""
    if spec['t'] == 'structure' and 'polymorphic_on' not in spec:
        for k, s in spec['structure'].items():
            declare(s, field.structure[k], classes)
    elif spec['t'] == 'structure':
        for i, fields in spec['structure'].items():
            for k, s in fields.items():
                declare(s, field.structure[i][k], classes)
        identities = sorted(spec['structure'], key=repr)
        for k, s in spec.get('common', {}).items():
            declare(s, field.structure[identities[0]][k], classes)
    elif spec['t'] == 'sequence':
        declare(spec['item'], field.item, classes)
    elif spec['t'] == 'map':
        declare(spec['value'], field.value, classes)
    elif spec['t'] == 'tuple':
        for s, f in zip(spec['values'], field.values):
            declare(s, f, classes)
    if 'class' in spec:
        namespace = {'schema': field}
        if spec.get('key_attr'):
            namespace['key_attr'] = spec['key_attr']
        if spec.get('hollow'):
            namespace['__len__'] = lambda self: 0
        parent = ancestor(spec) if spec.get('ancestor') else Element
        base = type(Element)('Class_' + spec['class'], (parent,), namespace)
        classes[spec['class']] = base
        for identity in spec.get('registered', ()):
            classes[spec['class'], identity] = type(Element)(base.__name__ if len(spec['structure']) % 2 else 'Variant', (base,),
                {'polymorphic_identity': identity})


def ancestor(spec):
    """A class with a schema of its own, and variants for the identities of the specification too."""
    if spec['ancestor'] == 'plain':
        return type(Element)('Ancestor', (Element,), {'schema': Structure({'inherited': Text(default='x')})})
    identities = sorted(spec['structure'], key=repr) if 'polymorphic_on' in spec else ['alpha', 'beta']
    schema = Structure(dict((i, {'inherited': Text()}) for i in identities), polymorphic_on=Field(name='sort'))
    parent = type(Element)('Ancestor', (Element,), {'schema': schema})
    for i in identities:
        type(Element)('Ancient', (parent,), {'polymorphic_identity': i})
    return parent


def generated(definition):
    out = {}
    for k, s in definition.items():
        out[k] = s.get('default') if s.get('default') is not None else s.get('constant')
    return out


def same_object(spec, value, got, classes, where, key=None):
    """Whether the object tree mirrors the value; raises Violation."""
    if value is None:
        require(got is None, '%s is %r, expected null', where, got)
        return
    t = spec['t']
    definition = None
    if t == 'structure':
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            identity = value[model.discriminator(spec)['name']]
            definition = model.definition_of(spec, identity)
    if 'class' in spec:
        cls = classes[spec['class']]
        if 'polymorphic_on' in spec:
            cls = classes.get((spec['class'], value[model.discriminator(spec)['name']]), cls)
        require(type(got) is cls, '%s is a %s, expected %s', where, type(got).__name__, cls)
        attributes = dict(vars(got))
        shown = ', '.join('%s=%r' % (k, attributes[k]) for k in ('id', 'name', 'title') if attributes.get(k) is not None)
        require_same('%s(%s)' % (cls.__name__, shown), repr(got), '%s shown' % where)
        if key is not None and spec.get('key_attr'):
            require(attributes.pop(spec['key_attr'], None) == key, '%s has no key attribute %r', where, key)
        if t == 'structure':
            full = dict(generated(definition))
            require(set(attributes) == set(definition), '%s has attributes %r, expected %r', where, sorted(attributes), sorted(definition))
            for k, s in definition.items():
                if k in value:
                    same_object(s, value[k], attributes[k], classes, '%s.%s' % (where, k), k)
                else:
                    require_same(full[k], attributes[k], '%s.%s' % (where, k))
        else:
            name = spec.get('name')
            require(list(attributes) == [name], '%s has attributes %r, expected %r', where, sorted(attributes), name)
            require_same(value, attributes[name], '%s.%s' % (where, name))
        return
    if t == 'structure' or t == 'map':
        require(isinstance(got, dict) and set(got) == set(value), '%s is %r, expected the keys of %r', where, got, value)
        for k, v in value.items():
            same_object(definition[k] if t == 'structure' else spec['value'], v, got[k], classes, '%s[%r]' % (where, k), k)
    elif t == 'sequence' or t == 'tuple':
        require(type(got) is type(value) and len(got) == len(value), '%s is %r, expected %r', where, got, value)
        for i, v in enumerate(value):
            same_object(spec['item'] if t == 'sequence' else spec['values'][i], v, got[i], classes, '%s[%d]' % (where, i))
    else:
        require_same(value, got, where)


def check_objects(case):
    spec = case['spec']
    pure = bare(spec)
    try:
        value = model.process(pure, case['value'], IN, False)
        serialized = model.process(pure, value, OUT, True)
        # what the object holds: the value completed with generated defaults
        full = complete(spec, value)
        model.process(pure, full, OUT, True)
    except model.Rejected:
        raise Discard()
    classes = {}
    declare(spec, build(pure), classes)
    root = classes['root']
    labels = [spec['t']] + (['polymorphic'] if 'polymorphic_on' in spec else []) + (
        ['derived'] if 'ancestor' in spec else []) + ['%d classes' % min(len(classes), 5)]
    obj = root.unserialize(serialized)
    same_object(spec, value, obj, classes, 'object')
    # through every format
    for format in (None, 'json', 'yaml'):
        text = obj.serialize(format)
        again = root.unserialize(text, format)
        same_object(spec, full, again, classes, 'object through %s' % format)
        twice = again.serialize(format)
        require_same(text, twice, 'second serialization to %s' % format)
    # explicit nulls stay null, whatever the defaults
    if 'raw' in case:
        raw = model.process(pure, case['raw'], IN, False)
        obj = root.unserialize(model.process(pure, case['raw'], OUT, True))
        same_object(spec, raw, obj, classes, 'object with nulls')
        labels.append('nulls kept')
    # by constructor
    if spec['t'] == 'structure':
        cls = root
        definition, on = spec['structure'], None
        if 'polymorphic_on' in spec:
            on = model.discriminator(spec)['name']
            definition = model.definition_of(spec, value[on])
            cls = classes.get(('root', value[on]), root)
        params = dict((k, v) for i, (k, v) in enumerate(sorted(value.items())) if k == on or (i + case['drop']) % 4)
        if 'null' in case:
            for i, k in enumerate(sorted(definition)):
                if k != on and i % 4 == case['null']:
                    params[k] = None
                    labels.append('nulls by constructor')
        built = cls(**params)
        require(set(vars(built)) == set(definition), 'constructed object has attributes %r', sorted(vars(built)))
        defaults = generated(definition)
        for k in definition:
            require_same(params[k] if k in params else defaults[k], getattr(built, k), 'constructed object: %s' % k)
        if len(params) < len(definition):
            labels.append('defaults by constructor')
    return labels


def complete(spec, value):
    """The value with the generated defaults of the classes it goes through."""
    if value is None:
        return None
    t = spec['t']
    if t == 'structure':
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            definition = model.definition_of(spec, value[model.discriminator(spec)['name']])
        out = dict((k, complete(definition[k], v)) for k, v in value.items())
        if 'class' in spec:
            for k, v in generated(definition).items():
                if k not in out and v is not None:
                    out[k] = v
        return out
    if t == 'map':
        return dict((k, complete(spec['value'], v)) for k, v in value.items())
    if t == 'sequence':
        return [complete(spec['item'], v) for v in value]
    if t == 'tuple':
        return tuple(complete(s, v) for s, v in zip(spec['values'], value))
    return value


def union():
    try:
        return Union([Text()]).instantiate('a') != 'a'
    except NotImplementedError:
        return True


FINDINGS = [Finding('unions-not-instantiated', 'instantiating a value of a union raises NotImplementedError', union)]

SECTIONS = [Section('calls', gen_calls, check_calls, 19000), Section('large', gen_large_calls, check_calls, 800), Section('objects', gen_objects, check_objects, 10000)]
