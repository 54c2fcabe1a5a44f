"""C15: extraction takes exactly what the schema names from its subject."""
from scheme.exceptions import CannotExtractError, FieldExcludedError

from vf import gens, large, model
from vf.build import REFUSALS, build, children, walk
from vf.engine import Discard
from vf.oracle import fail, require, require_same
from vf.prop import Section
from vf.props.c14 import attribute

RULE = ('A random schema, some of whose fields have extractors or screening aspects, extracts from a subject shaped like it (keys '
    'missing, null or undeclared, wrong shapes, mappings or objects with attributes), strictly or not, with or without screening '
    'attributes. The result or the kind of refusal is compared with an independent model, and the subject must be unchanged. '
    'Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the schema is nested and the subject is not null.')
ASSUMPTIONS = ('A union whose member is screened out while the union itself is not is left unspecified.',)

OPTS = gens.Opts(depth=3, width=5, nulls=False, defaults=False, constants=False, pre=False, key_order=False)


class Bag(object):
    """An object with attributes."""

    def __init__(self, params):
        self.__dict__.update(params)

    def __eq__(self, other):
        return type(other) is Bag and self.__dict__ == other.__dict__

    def __repr__(self):
        return 'Bag(%r)' % self.__dict__


class Attributed(dict):
    """A mapping which has attributes as well."""

    def __init__(self, *args):
        super(Attributed, self).__init__(*args)
        self.a, self.extra = 'attribute', None


def refuse(field, subject):
    raise REFUSALS[len(repr(subject)) % len(REFUSALS)]('refused')


class ByAttribute(object):
    @staticmethod
    def __extract__(field, subject):
        return ('extracted', subject)


EXT = {
    'pair': lambda field, subject: ('extracted', subject),
    'type': lambda field, subject: type(field).__name__,
    'null': lambda field, subject: None,
    'raise': refuse,
    'attribute': ByAttribute,
    'dotted': 'vf.props.c15.dotted',
    'inner': lambda field, subject: subject['inner'],
    'empty dict': lambda field, subject: {},
    'empty list': lambda field, subject: [],
}
TABLE = {'ext': lambda name: EXT[name]}


def dotted(field, subject):
    return ('extracted', subject)


SCALAR_EXT = ('pair', 'pair', 'type', 'null', 'raise', 'attribute', 'dotted')
STRUCT_EXT = ('inner', 'inner', 'empty dict', 'empty list', 'raise')


def apply(name, spec, subject):
    if name in ('pair', 'attribute', 'dotted'):
        return ('extracted', subject)
    if name == 'type':
        from vf.build import TYPES
        return TYPES[spec['t']].__name__
    if name == 'null':
        return None
    if name == 'inner':
        try:
            return subject['inner']
        except Exception:
            raise Cannot()
    if name == 'empty dict':
        return {}
    if name == 'empty list':
        return []
    raise Cannot()


class Cannot(Exception):
    pass


class Excluded(Exception):
    pass


def extract(spec, subject, strict, params):
    for name, value in params.items():
        if value is not None:
            found = attribute(spec, name)
            if found != value:
                raise Excluded()
    if subject is None:
        return None
    t = spec['t']
    if 'ext' in spec:
        subject = apply(spec['ext'], spec, subject)
    if t in gens.SCALARS:
        return subject
    if t == 'structure':
        if isinstance(subject, dict):
            get = lambda name: subject.get(name)
        elif not strict:
            get = lambda name: getattr(subject, name, None)
        else:
            raise Cannot()
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            identity = get(model.discriminator(spec)['name'])
            try:
                definition = model.definition_of(spec, identity)
            except (KeyError, TypeError):
                raise Cannot()
        result = {}
        for name, child in definition.items():
            value = get(name)
            if value is not None:
                try:
                    result[name] = extract(child, value, strict, params)
                except Excluded:
                    pass
        return result
    if t == 'map':
        if not isinstance(subject, dict):
            raise Cannot()
        result = {}
        for name, value in subject.items():
            try:
                result[name] = extract(spec['value'], value, strict, params)
            except Excluded:
                pass
        return result
    if t == 'union':
        for member in spec['fields']:
            try:
                return extract(member, subject, strict, params)
            except Cannot:
                pass
            except Excluded:
                raise Discard()
        raise Cannot()
    if not isinstance(subject, (list, tuple)):
        raise Cannot()
    if t == 'tuple' and len(subject) < len(spec['values']):
        raise Cannot()
    pairs = zip(spec['values'], subject) if t == 'tuple' else [(spec['item'], x) for x in subject]
    result = []
    for child, value in pairs:
        try:
            result.append(extract(child, value, strict, params))
        except Excluded:
            pass
    return tuple(result) if t == 'tuple' else result


def gen(d):
    spec = gens.structural_spec(d, d.choice(OPTS.structural), OPTS, d.choice((1, 2, 3))) if d.bool(0.95) else \
        gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)
    params = {}
    if d.bool(0.4):
        params = dict((n, d.choice((True, False, None) + (('x', 1) if n != 'required' else ()))) for n in d.shuffled(('level', 'public', 'required'))[:d.int(1, 2)])
    hook = d.choice((0.0, 0.15, 0.3))
    for s in walk(spec):
        if d.bool(hook):
            s['ext'] = d.choice(SCALAR_EXT if s['t'] in gens.SCALARS else STRUCT_EXT)
        if params:
            s['aspects'] = dict((n, v if d.bool(0.92) else d.choice((True, 'x'))) for n, v in params.items() if n != 'required' and
                v is not None)
            if params.get('required') is not None and 'nonempty' not in s:
                s['required'] = params['required']
    strict = d.choice((True, True, False))
    case = {'spec': spec, 'params': params, 'subject': subject(d, spec, d.choice((0.0, 0.02, 0.1)), not strict and d.bool(0.7))}
    if not strict or d.bool(0.2):
        case['strict'] = strict
    return case


def gen_large(d):
    spec, value = large.valid(d, OPTS, kinds=('deep', 'wide', 'tuple', 'keys', 'long'))
    spec = large.unshared(spec)
    params = {'level': 1} if d.bool(0.5) else {}
    if params:
        n, out = 0, d.choice((3, 10, 97))
        for s in walk(spec):
            n += 1
            if n % out:
                s['aspects'] = {'level': 1}
    return {'spec': spec, 'params': params, 'subject': value}


def subject(d, spec, bad, objects):
    t = spec['t']
    if d.bool(bad):
        return d.choice((None, 5, 'text', [], {}, [1], {'a': 1}, (), {'$obj': {}}, {'$obj': {'a': 1}}, True))
    if t in gens.SCALARS:
        return d.choice((0, '', 'text', 1.5, False, [], {}, [1, {'a': None}], {'$obj': {'a': 1}}, None, -7, 'x' * 20))
    if 'ext' in spec and spec['ext'] == 'inner' and d.bool(0.95):
        return {'inner': subject(d, dict((k, v) for k, v in spec.items() if k != 'ext'), bad, objects)}
    if t == 'structure':
        value = {}
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            identity = d.choice(sorted(definition, key=repr))
            definition = model.definition_of(spec, identity)
            name = model.discriminator(spec)['name']
            if not d.bool(bad):
                value[name] = identity
            elif d.bool():
                value[name] = d.choice(('nope', None, [], 99))
            definition = dict((k, v) for k, v in definition.items() if k != name)
        for k, child in definition.items():
            if d.bool(0.75):
                value[k] = subject(d, child, bad, objects)
        for k in d.subset(('undeclared', 'zz', 'x'), 0.2):
            if k not in definition:
                value[k] = d.choice((1, None, 'v'))
        return {'$obj': value} if objects and d.bool(0.7) else value
    if t == 'map':
        return dict((d.choice(gens.NAMES + (1, (1, 2))), subject(d, spec['value'], bad, objects)) for _ in range(d.size(0, 3)))
    if t == 'union':
        return subject(d, d.choice(spec['fields']), bad, objects)
    if t == 'tuple':
        items = [subject(d, s, bad, objects) for s in spec['values']]
        if d.bool(bad):
            items = items[:-1]
    else:
        items = [subject(d, spec['item'], bad, objects) for _ in range(d.size(0, 4))]
    return tuple(items) if d.bool(0.3) else items


def materialise(v):
    if isinstance(v, dict):
        if len(v) == 1 and '$obj' in v:
            return Bag(dict((k, materialise(x)) for k, x in v['$obj'].items()))
        if len(v) % 3 == 2:
            return Attributed((k, materialise(x)) for k, x in v.items())
        return dict((k, materialise(x)) for k, x in v.items())
    if isinstance(v, list):
        return [materialise(x) for x in v]
    if isinstance(v, tuple):
        return tuple(materialise(x) for x in v)
    return v


def check(case):
    spec, params, strict = case['spec'], case['params'], case.get('strict', True)
    field = build(spec, TABLE)
    given, kept = materialise(case['subject']), materialise(case['subject'])
    labels = [spec['t'], 'strict' if strict else 'loose'] + (['screened'] if params else [])
    try:
        want = 'ok', extract(spec, kept, strict, params)
    except Cannot:
        want = 'cannot', None
    except Excluded:
        want = 'excluded', None
    arguments = dict(params)
    if 'strict' in case:
        arguments['strict'] = strict
    try:
        got = 'ok', field.extract(given, **arguments)
    except CannotExtractError as error:
        got = 'cannot', error
    except FieldExcludedError as error:
        got = 'excluded', error
    require(given == kept, 'extraction changed the subject %r into %r', kept, given)
    what = 'extract(%r, strict=%r, %r)' % (kept, strict, params)
    require(got[0] == want[0], '%s: %r, expected %r', what, got, want)
    if want[0] == 'ok':
        require_same(want[1], got[1], what)
    labels.append(want[0])
    if params:
        matched = all(v is None or attribute(spec, n) == v for n, v in params.items())
        require(bool(field.screen(**params)) == matched, 'screen(%r) is %r', params, field.screen(**params))
    if kept is None or not list(children(spec)):
        labels.append('trivial')
    if any('ext' in s for s in walk(spec)):
        labels.append('extractors')
    return labels


SECTIONS = [Section('extraction', gen, check, 38000), Section('large', gen_large, check, 1500)]
