"""C26: surrogates keep their type, version and content."""
import copy
import json

from scheme import Surrogate
from scheme.exceptions import CannotExtractError, CannotInterpolateError, UndefinedParameterError, InvalidTypeError, StructuralError, ValidationError
from scheme.surrogate import surrogate

from vf import family, gens, model, oracle
from vf.build import build, contains
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import fail, require, require_same
from vf.prop import Section
from vf.props import c17
from vf.props.c15 import Cannot, extract, materialise, subject
from vf.props.formats import has_nonfinite, text_keys, uncertain
from vf.same import difference

RULE = ('Random surrogates of a family of classes (plain, derived, with one to three random schemas, the newest or an older version, with '
    'a dynamic random schema) and random content are serialized and unserialized, by the class, by another class, by a surrogate '
    'field and through JSON; class, version, content, schema and the form serialized again are compared with a model, content '
    'being processed by the model of the schema of its version. Damaged content, versions out of range, unknown and wrong '
    'types, restricted fields. Construction from mappings and objects, with additions, is compared with a model of extraction, and interpolation of '
    'templates of their content, of references to them and of surrogates themselves with the model of interpolation. '
    'Non-trivial: the content is not empty.')
ASSUMPTIONS = ("Content does not use the keys the serialized form reserves ('_', '__version__', '__schema__').",
    'Dynamic schemas are describable: no preprocessors, patterns or defaults.')

NAMES = tuple(n for n in gens.NAMES if n != '_')
OPTS = gens.Opts(depth=2, names=NAMES, width=4)
DYNAMIC = OPTS.but(pre=False, patterns=False, defaults=False, constants=False)
CLASSES = {'Plain': family.Plain, 'Derived': family.Derived, 'Versioned': family.Versioned, 'Other': family.Other,
    'Late': family.Late, 'Counting': family.Counting, 'surrogate': surrogate}


def path_of(name):
    return 'scheme.surrogate.surrogate' if name == 'surrogate' else 'vf.family.' + name


def root(d, opts):
    spec = gens.structural_spec(d, 'structure', opts, 2)
    spec.pop('nonnull', None)
    if d.bool(0.5):
        spec['name'] = d.choice(gens.IDENTIFIERS)
    return spec


def a_schema(d, case):
    kind = case['kind']
    if kind == 'plain':
        case['cls'] = d.choice(('Plain', 'Derived', 'surrogate'))
        return None
    if kind == 'dynamic':
        case['cls'] = d.choice(('Plain', 'Derived', 'surrogate', 'surrogate', 'Versioned'))
        case['specs'] = [root(d, DYNAMIC)]
        case['version'] = None
        return case['specs'][0]
    case['cls'] = d.choice(('Versioned', 'Other', 'Late', 'Counting'))
    case['specs'] = [root(d, OPTS) for _ in range(d.int(1, 3))]
    case['version'] = d.int(1, len(case['specs']))
    return case['specs'][case['version'] - 1]


def gen(d):
    case = {'kind': d.choice(('plain', 'versioned', 'versioned', 'dynamic'))}
    spec = a_schema(d, case)
    if spec is None:
        case['value'] = dict((k, gens.native(d, gens.DEFAULT)) for k in d.subset(NAMES[:12], 0.3))
    else:
        case['value'] = gens.candidate(d, spec, OUT, True, d.choice((0.0, 0.0, 0.1)), OPTS)
    case['default version'] = case.get('version') is not None and case['version'] == len(case['specs']) and d.bool(0.3)
    case['valid'] = d.choice((None, None, 'own', 'all', 'other', 'text'))
    case['field'] = d.choice(gens.IDENTIFIERS)
    return case


def prepare(case):
    """(class, schema of the case, its specification)"""
    cls = CLASSES[case['cls']]
    if case['kind'] == 'versioned':
        cls.schemas = tuple(build(s) for s in case['specs'])
        return cls, None, case['specs'][case['version'] - 1]
    if case['kind'] == 'dynamic':
        if case['cls'] == 'Versioned':
            cls.schemas = ()
        return cls, build(case['specs'][0]), case['specs'][0]
    return cls, None, None


def valid_list(case):
    own = path_of(case['cls'])
    others = [path_of(n) for n in sorted(CLASSES) if path_of(n) != own]
    return {None: None, 'own': [own], 'all': others[:2] + [own], 'other': others[:2], 'text': ' '.join(others[:1] + [own])}[case['valid']]


def check(case):
    value = case['value']
    if not isinstance(value, dict):
        raise Discard()
    cls, schema, spec = prepare(case)
    labels = [case['kind']] + (['trivial'] if not value else [])
    version = case.get('version')
    made = cls(value, schema, version if not case['default version'] else None)
    kept = dict(value)
    require(made.version == version, 'a surrogate of version %r has version %r', version, made.version)
    valid = valid_list(case)
    field = Surrogate(name=case['field'], **({'valid_surrogates': valid} if valid else {}))
    admitted = not valid or case['valid'] != 'other'

    # native
    for phase in (IN, OUT):
        got = oracle.run(field.process, made, phase)
        admission(got, admitted, 'process(surrogate)')
        if admitted:
            require(got[1] is made, 'processing a surrogate returned %r', got[1])
    if not admitted:
        for phase in (IN, OUT):
            admission(oracle.run(field.process, made, phase, True), False, 'process(surrogate)')
        labels.append('not admitted')

    # serializing
    reserved = {'_': path_of(case['cls'])}
    if case['kind'] == 'versioned' and version > 1:
        reserved['__version__'] = version
        labels.append('later version' if version == len(case['specs']) else 'old version')
    if schema:
        reserved['__schema__'] = build(spec).describe()
    got = oracle.run(made.serialize)
    if spec is None:
        want = 'ok', dict(value)
        require(got[0] == 'ok', 'serializing %r failed', value)
    else:
        want = oracle.expected(spec, value, OUT, True)
    if want[0] != 'ok':
        oracle.agree(spec, value, OUT, True, got)
        through = oracle.run(field.process, made, OUT, True)
        require(through[0] == 'error', 'the field serialized what the surrogate cannot: %r', through[1])
        return labels + ['rejected']
    require(got[0] == 'ok', 'serializing %r failed: %s', value, got[1])
    text = got[1]
    require_same(dict(want[1], **reserved), text if type(text) is dict else dict(text), 'serialized form')
    require_same(kept, dict(made), 'the surrogate after serializing')
    if admitted:
        require_same(dict(text), dict(field.process(made, OUT, True)), 'serialized by the field')
        require_same(dict(text), dict(field.serialize(made)), 'serialized by the field')

    # and back
    readers = [('surrogate.unserialize', surrogate.unserialize), ('%s.unserialize' % case['cls'], cls.unserialize)]
    if admitted:
        readers += [('field.process', lambda v: field.process(v, IN, True)), ('field.unserialize', field.unserialize)]
    if spec is not None and uncertain(spec, want[1]):
        return labels + ['uncertain']
    for name, reader in readers:
        labels.extend(arrives(case, spec, want[1], reserved, dict(text), reader, name))
    if not admitted:
        read = oracle.run(field.process, dict(text), IN, True)
        if spec is None or oracle.expected(spec, want[1], IN, True)[0] == 'ok':
            admission(read, False, 'unserialize')
        else:
            require(read[0] == 'error', 'read as %r', read[1])
    elif not has_nonfinite(text) and case['kind'] != 'plain' and not contains(spec, ('binary', 'field')):
        try:
            carried = text_keys(want[1])
        except Exception:
            return labels
        if uncertain(spec, carried):
            return labels
        form = field.serialize(made, 'json')
        require_same(json.loads(json.dumps(text)), json.loads(form), 'JSON')
        arrives(case, spec, carried, reserved, form, lambda v: field.unserialize(v, 'json'), 'from JSON')
        labels.append('json')
    return labels


def admission(got, admitted, what):
    if admitted:
        if got[0] != 'ok' and any(e.get('token') == 'invalid-surrogate' for e in got[1].errors):
            fail('%s: refused, though among those listed', what)
    else:
        require(got[0] == 'error' and type(got[1]) is ValidationError and [e['token'] for e in got[1].errors] == ['invalid-surrogate'],
            '%s: not refused as not among those listed: %r', what, got[1])


def arrives(case, spec, content, reserved, text, reader, name):
    """content: what the schema is to read."""
    kept = json.dumps(text, default=repr, sort_keys=False) if isinstance(text, dict) else text
    got = oracle.run(reader, text)
    if isinstance(text, dict):
        require(json.dumps(text, default=repr, sort_keys=False) == kept, '%s changed the serialized form', name)
    if spec is None:
        require(got[0] == 'ok', '%s failed on %r', name, text)
        want = 'ok', content
    else:
        want = oracle.expected(spec, content, IN, True)
        require(want[0] == got[0], '%s of %r: %r, expected %r', name, text, got, want)
        if want[0] == 'error':
            return ['not read back']
    back = got[1]
    require(type(back) is CLASSES[case['cls']], '%s of %r is a %s', name, text, type(back).__name__)
    require(back.surrogate == path_of(case['cls']), '%s: type is named %r', name, back.surrogate)
    require(back.version == case.get('version') and type(back.version) is type(case.get('version')), '%s: version %r, was %r', name,
        back.version, case.get('version'))
    require_same(want[1], dict(back) if type(want[1]) is dict else type(want[1])(back), name)
    if case['kind'] == 'dynamic':
        require_same(reserved['__schema__'], back.schema.describe(), 'the schema read back')
    else:
        require(back.schema is None, '%s: schema %r', name, back.schema)
    again = oracle.run(back.serialize)
    if spec is None:
        expected = 'ok', dict(want[1])
    else:
        expected = oracle.expected(spec, want[1], OUT, True)
    require(again[0] == expected[0], 'serializing what %s gave: %r, expected %r', name, again, expected)
    if again[0] == 'ok':
        require_same(dict(expected[1], **reserved), dict(again[1]), 'serialized again')
    if spec is not None and difference(content, expected[1]) is None:
        return ['identical form']
    return []


# --- reading ------------------------------------------------------------------------------------

def gen_read(d):
    case = {'kind': d.choice(('plain', 'versioned', 'versioned', 'dynamic'))}
    spec = a_schema(d, case)
    if spec is None:
        case['value'] = dict((k, gens.native(d, gens.DEFAULT)) for k in d.subset(NAMES[:12], 0.3))
    else:
        case['value'] = gens.candidate(d, spec, IN, True, d.choice((0.0, 0.15, 0.4, 0.8)), OPTS)
    case['field'] = d.choice(gens.IDENTIFIERS)
    mode = d.draw(9)
    if mode == 0:
        case['claimed'] = d.choice((0, -1, -2, 4, 99, 'x', None, [], 1.5, ''))
    elif mode == 1:
        case['token'] = d.choice((5, '', [], 'vf.family.NotASurrogate', 'vf.family', 'os.path', {}))
    elif mode == 2 and case['kind'] == 'dynamic':
        case['schema'] = d.choice((None, {}, [], 'text', {'fieldtype': 'nope'}, {'fieldtype': 'structure'}, 5))
    return case


def check_read(case):
    value = case['value']
    if not isinstance(value, dict):
        raise Discard()
    cls, schema, spec = prepare(case)
    text = dict(value)
    text['_'] = case.get('token', path_of(case['cls']))
    if case['kind'] == 'versioned' and case['version'] > 1:
        text['__version__'] = case['version']
    if schema:
        text['__schema__'] = schema.describe()
    field = Surrogate(name=case['field'])
    labels = [case['kind']] + (['trivial'] if not value else [])
    wrong = None
    if 'claimed' in case and case['kind'] == 'versioned':
        text['__version__'] = case['claimed']
        wrong = 'version %r' % (case['claimed'],)
    elif 'token' in case:
        text['_'] = case['token']
        wrong = 'type %r' % (case['token'],)
    elif 'schema' in case:
        text['__schema__'] = case['schema']
        wrong = 'schema %r' % (case['schema'],)
    got = oracle.run(field.process, text, IN, True)
    if wrong and got[0] == 'ok' and 'token' in case:
        # types which are not known here are read as surrogates of no particular type
        require(type(got[1]) is surrogate, '%s was read as a %s', wrong, type(got[1]).__name__)
        return labels + ['unknown type']
    if wrong:
        require(got[0] == 'error', '%s was read as %r', wrong, got[1])
        if got[1].errors and 'token' not in case:
            require(type(got[1]) is InvalidTypeError and got[1].errors[0]['token'] == 'invalid', '%s: %r', wrong, got[1].errors)
        return labels + ['wrong ' + wrong.split()[0]]
    if spec is None:
        require(got[0] == 'ok', 'reading %r failed: %s', text, got[1])
        require_same(value, dict(got[1]), 'content')
        return labels
    want = oracle.expected(spec, value, IN, True, case['field'])
    if want[0] == 'ok':
        require(got[0] == 'ok', 'reading %r failed: %s, expected %r', text, got[1], want[1])
        require(type(got[1]) is cls, 'read as %s', type(got[1]).__name__)
        require_same(want[1], dict(got[1]) if type(want[1]) is dict else type(want[1])(got[1]), 'content')
        return labels + ['accepted']
    require(got[0] == 'error', 'reading %r gave %r, expected it to be rejected: %s', text, got[1], want[1])
    found = oracle.error_difference(want[1], got[1], 'error of reading %r' % (text,))
    require(not found, found or '')
    return labels + ['rejected']


# --- construction ---------------------------------------------------------------------------------

def gen_construct(d):
    opts = OPTS.but(nulls=False, defaults=False, constants=False, pre=False, key_order=False)
    case = {'kind': d.choice(('plain', 'versioned', 'versioned', 'dynamic'))}
    kind = case['kind']
    case['cls'] = d.choice({'plain': ('Plain', 'Derived'), 'versioned': ('Versioned', 'Other', 'Late'), 'dynamic': ('Plain', 'Derived')}[kind])
    case['specs'] = [gens.structural_spec(d, 'structure', opts, 2) for _ in range(0 if kind == 'plain' else d.int(1, 3) if
        kind == 'versioned' else 1)]
    case['version'] = d.choice((None, 1, len(case['specs']), 1, 0, 9, -1)) if kind == 'versioned' else None
    spec = chosen(case)
    case['subject'] = subject(d, spec, d.choice((0.0, 0.02)), d.bool(0.4)) if spec else dict((k, 1) for k in d.subset(NAMES[:8], 0.3))
    case['extra'] = dict((k, d.choice((1, None, 'v'))) for k in d.subset(('a', 'b', 'added', 'c'), 0.25))
    case['way'] = d.choice(('class', 'path', 'surrogate', 'acquire')) if case['cls'] == 'Late' else d.choice(('class', 'path', 'surrogate'))
    return case


def chosen(case):
    if not case['specs']:
        return None
    if case['kind'] == 'dynamic' or case['version'] is None:
        return case['specs'][-1]
    if 1 <= case['version'] <= len(case['specs']):
        return case['specs'][case['version'] - 1]
    return None


def check_construct(case):
    cls = CLASSES[case['cls']]
    spec = chosen(case)
    schema = None
    if case['kind'] == 'versioned':
        cls.schemas = tuple(build(s) for s in case['specs'])
    elif case['kind'] == 'dynamic':
        schema = build(spec)
    given, kept = materialise(case['subject']), materialise(case['subject'])
    if given is None:
        raise Discard()
    params = dict(case['extra'])
    if case['version'] is not None:
        params['version'] = case['version']
    if schema:
        params['schema'] = schema
    labels = [case['kind'], case['way']]
    try:
        if case['way'] == 'class':
            got = cls.construct(value=given, **params)
        elif case['way'] == 'path':
            got = surrogate.construct(path_of(case['cls']), given, **params)
        elif case['way'] == 'acquire':
            got = surrogate.acquire(cls, case['version'], content=given)
        else:
            got = surrogate.construct(cls, given, **params)
    except CannotExtractError:
        got = 'cannot'
    except Exception as error:
        if case['version'] is not None and spec is None:
            require(not isinstance(error, (TypeError, AttributeError, KeyError)), 'version %r: %r', case['version'], error)
            return labels + ['wrong version']
        raise
    require(given == kept, 'construction changed %r into %r', kept, given)
    if spec is None:
        if case['kind'] == 'versioned':
            fail('version %r of %d was constructed: %r', case['version'], len(case['specs']), got)
        want = dict(kept)
    else:
        try:
            want = extract(spec, kept, isinstance(kept, dict), {})
        except Cannot:
            require(got == 'cannot', 'constructed %r from %r, which has not what the schema names', got, kept)
            return labels + ['cannot']
    require(got != 'cannot', 'constructing from %r failed', kept)
    if case['way'] != 'acquire':
        want = dict(want, **case['extra'])
    version = case['version'] or (len(case['specs']) if case['kind'] == 'versioned' else None)
    if case['cls'] == 'Late':
        want['contributed'] = [version]
    require(type(got) is cls, 'constructed a %s', type(got).__name__)
    require_same(want, dict(got), 'constructed content')
    require(got.version == version, 'constructed version %r, expected %r', got.version, version)
    require(got.schema is schema, 'constructed with schema %r', got.schema)
    if case['cls'] == 'Late':
        labels.append('contribution')
    return labels + (['object'] if not isinstance(kept, dict) else [])


# --- interpolation --------------------------------------------------------------------------------

def gen_interpolation(d):
    kind = d.choice(('plain', 'versioned', 'versioned', 'versioned', 'dynamic', 'dynamic'))
    case = {'kind': kind, 'globals': None}
    case['cls'] = d.choice({'plain': ('Plain', 'surrogate'), 'versioned': ('Versioned', 'Other', 'Late'),
        'dynamic': ('Plain', 'Derived', 'surrogate', 'Versioned')}[kind])
    opts = c17.OPTS.but(depth=2, names=NAMES, preprocessors=False)
    case['specs'] = [gens.structural_spec(d, 'structure', opts.but(patterns=False) if kind == 'dynamic' else opts, 2)
        for _ in range(d.int(1, 3) if kind == 'versioned' else 1)]
    n = len(case['specs'])
    case['version'] = d.choice((None, 1, n, d.int(1, n), None, d.choice((0, n + 1, -1)))) if kind == 'versioned' else None
    spec = chosen(case) or case['specs'][0]
    value = gens.valid(d, spec, opts, 0.05)
    if value is None:
        raise Discard()
    maker = c17.Maker(d, d.choice((0.0, 0.4, 1.0)), False)
    case['template'] = maker.inside(spec, value)
    case['way'] = d.choice(('content', 'content', 'content', 'reference', 'surrogate', 'referenced surrogate', 'null', 'missing', 'other'))
    case['params'] = maker.params
    case['refs'] = maker.refs
    return case


def check_interpolation(case):
    cls, spec = CLASSES[case['cls']], chosen(case)
    if case['kind'] == 'versioned':
        cls.schemas = tuple(build(s) for s in case['specs'])
    elif case['cls'] == 'Versioned':
        cls.schemas = ()
    field = Surrogate(name='f')
    content = dict(case['template'], _=path_of(case['cls']))
    if case['version'] is not None:
        content['__version__'] = case['version']
    if case['kind'] == 'dynamic':
        content['__schema__'] = build(spec).describe()
    scope, way, held = dict(case['params']), case['way'], None
    if way in ('surrogate', 'referenced surrogate'):
        held = cls(case['template'], build(spec) if case['kind'] == 'dynamic' else None)
    subject = {'content': content, 'reference': '${the_subject}', 'surrogate': held, 'referenced surrogate': ' ${the_subject}', 'null': None,
        'missing': '${missing}', 'other': 5}[way]
    scope['the_subject'] = held if held is not None else content
    kept = copy.deepcopy(content), copy.deepcopy(case['params'])
    labels = [way, case['kind']] + ([] if case['refs'] or way != 'content' else ['trivial'])
    try:
        got = 'ok', field.interpolate(subject, scope)
    except UndefinedParameterError:
        got = 'undefined', None
    except CannotInterpolateError:
        got = 'cannot', None
    except (ValueError, TypeError, ArithmeticError) as error:
        got = 'bad', error
    require_same(kept, (content, case['params']), 'template and parameters after interpolation')
    if way in ('null', 'surrogate', 'referenced surrogate'):
        require(got[0] == 'ok' and got[1] is held, 'interpolating %r gave %r', subject, got)
        return labels
    if way in ('missing', 'other'):
        require(got[0] == ('undefined' if way == 'missing' else 'bad'), 'interpolating %r gave %r', subject, got)
        return labels
    if case['kind'] == 'plain' or spec is None:
        require(got[0] == 'bad', 'interpolating %r, for which there is no schema, gave %r', content, got)
        return labels + ['no schema']
    try:
        want = 'ok', c17.interpolate(spec, case['template'], scope)
    except c17.Undefined:
        want = 'undefined', None
    except c17.Cannot:
        want = 'cannot', None
    except c17.Bad:
        want = 'bad', None
    require(want[0] == got[0], 'interpolation of %r with %r: %r, expected %r', content, case['params'], got, want)
    if want[0] != 'ok':
        return labels + [want[0]]
    made, version = got[1], None
    if case['kind'] == 'versioned':
        version = case['version'] or len(case['specs'])
    expected = dict(want[1])
    if case['cls'] == 'Late':
        expected['contributed'] = [version]
    require(type(made) is cls, 'interpolated to a %s', type(made).__name__)
    require_same(expected, dict(made), 'interpolated content')
    require(made.version == version, 'interpolated to version %r, expected %r', made.version, version)
    if case['kind'] == 'dynamic':
        require_same(content['__schema__'], made.schema.describe(), 'schema of what was interpolated')
    else:
        require(made.schema is None, 'interpolated with schema %r', made.schema)
    return labels + ['ok']


SECTIONS = [Section('interpolation', gen_interpolation, check_interpolation, 8000),
    Section('round trip', gen, check, 12000), Section('reading', gen_read, check_read, 8000),
    Section('construction', gen_construct, check_construct, 10000)]
