"""C35: a field is what its declaration says, and nothing else."""
import copy
import datetime as dt
import re
import decimal

from scheme import *      # noqa
from scheme.exceptions import StructuralError
from scheme.field import Field, FieldError, INBOUND, OUTBOUND
from scheme.timezone import UTC as utc

from vf import gens, model, oracle
from vf.build import TYPES, build, walk
from vf.model import IN, OUT
from vf.oracle import fail, identity_of, require, require_same
from vf.prop import Section
from vf.same import difference, same
from vf.snap import snap

RULE = ('Every field type is declared with random combinations of arguments, each of a kind its documentation allows or of another. With '
    'one of another kind the declaration must be refused; otherwise every attribute must be what was given, or its default, '
    'the arguments must be as they were, and a second declaration from the very same arguments must not change '
    'the first. Schemas declared from shared parts (keys used by several variants or structures, aspects) are compared, before and '
    'after edits of one of them, with a model and with schemas declared from parts of their own. Errors of random nested schemas with custom '
    'errors are compared with those of the schema without. Element classes with and without legal schemas are declared. '
    'Non-trivial: an argument is given, a part is shared, a custom error is reported.')
ASSUMPTIONS = ('Booleans in the place of integers, datetimes in the place of dates and fields shared under several names are not generated.',
    'Refusing is raising any exception.')


def hook(*args):
    return args[-1]


class Hooked(object):
    @staticmethod
    def __instantiate__(field, value, key=None):
        return value

    @staticmethod
    def __extract__(field, subject):
        return subject


class Skip(object):
    """An attribute about which nothing is said."""


BAD = 'refused'
SAME = 'as given'


def ok(*values):
    return [(lambda v=v: copy.deepcopy(v), SAME) for v in values]


def bad(*values):
    return [(lambda v=v: v, BAD) for v in values]


def gives(value, expected):
    return [(lambda v=value: copy.deepcopy(v), lambda given, e=expected: e)]


def makes(maker, expected=SAME):
    return [(maker, expected)]


LENGTH = ok(None, 0, 1, 7, 2 ** 70) + bad(-1, '5', 1.5, [], '', -2 ** 70, decimal.Decimal(1))
D, T = dt.date(2001, 2, 3), dt.time(4, 5, 6)
DT = dt.datetime(2001, 2, 3, 4, 5, 6)
DATES = ok(None, D, dt.date.min, dt.date.max) + gives('2001-02-03', D) + bad('x', '2001-02-30', '2001', 5, T, [], '', '2001-02-03T04:05:06Z', 0, False)
TIMES = ok(None, T, dt.time.min, dt.time.max) + gives('04:05:06', T) + bad('x', '25:00:00', 5, D, [], '', 0, False)
AWARE = DT.replace(tzinfo=utc)
INSTANTS = ok(None) + gives(DT, AWARE) + gives(AWARE, AWARE) + gives('2001-02-03T04:05:06Z', AWARE) + \
    gives(DT.replace(tzinfo=dt.timezone(dt.timedelta(hours=3))), AWARE - dt.timedelta(hours=3)) + bad('x', 5, D, '2001-02-03', '', [], 0, False)
FIELDS = makes(lambda: Integer()) + makes(lambda: Structure({'a': Text()})) + makes(lambda: Sequence(Text(), name='n')) + \
    makes(lambda: Union([Integer(), Text()]))
NOTFIELDS = bad('x', 5, Integer, {}, [], ())
SEVERAL = makes(lambda: [Integer()], lambda g: tuple(g)) + makes(lambda: (Integer(), Text(name='t')), lambda g: g) + \
    makes(lambda: [Map(Integer()), Sequence(Text()), Field()], lambda g: tuple(g)) + \
    bad([], (), None, 'x', 5, {}) + makes(lambda: [5], BAD) + makes(lambda: [Integer(), 'x'], BAD) + makes(lambda: [Integer], BAD) + \
    makes(lambda: (Text(), None), BAD) + makes(lambda: {'a': Integer()}, BAD) + makes(lambda: set([Integer()]), BAD)
FLAG = ok(True, False)


def words(*extra):
    return gives('a b', ['a', 'b']) + gives('a', ['a']) + ok(['a'], ['a', 'b']) + list(extra)


DEFAULTS = {'min_length': None, 'max_length': None, 'minimum': None, 'maximum': None, 'pattern': None, 'strip': True, 'multiple': False,
    'extended': False, 'ignored_values': None, 'key': None, 'required_keys': None, 'unique': False, 'strict': True, 'key_order': None,
    'utc': False, 'valid_fields': None, 'valid_surrogates': None, 'segments': None, 'name': None, 'title': None, 'description': None, 'notes': None,
    'required': False, 'nonnull': False, 'ignore_null': False, 'default': None, 'constant': None, 'instantiator': None, 'extractor': None}

COMMON = {
    'name': ok(None, 'f', u'\xe9 t'), 'title': ok(None, 'A title'), 'description': ok(None, 'x y'), 'notes': ok(None, 'n'),
    'required': FLAG, 'nonnull': FLAG, 'ignore_null': FLAG, 'nonempty': FLAG,
    'default': ok(None, 0, 'x', False, [1], {'a': 1}), 'constant': ok(None, 0, 'x', True),
    'aspects': ok(None, {}, {'unit': 'm'}, {'unit': 'm', 'level': [1]}),
    'instantiator': makes(lambda: None) + makes(lambda: hook) + makes(lambda: 'vf.props.c35.hook', lambda g: hook) +
        makes(lambda: Hooked, lambda g: Hooked.__instantiate__) + makes(lambda: 'vf.props.c35.Hooked', lambda g: Hooked.__instantiate__) +
        makes(lambda: 'vf.props.c35.nothing', BAD) + makes(lambda: 'no.such.module', BAD),
    'extractor': makes(lambda: None) + makes(lambda: hook) + makes(lambda: 'vf.props.c35.hook', lambda g: hook) +
        makes(lambda: Hooked, lambda g: Hooked.__extract__) + makes(lambda: 'vf.props.c35.Hooked', lambda g: Hooked.__extract__) +
        makes(lambda: 'vf.props.c35.nothing', BAD) + makes(lambda: 'no.such.module', BAD),
    'extra': ok({}, {'unit': 's'}, {'rank': 0, 'flag': False}, {'_hidden': 1}, {'nothing': None}, {'level': [2], 'unit': {'u': 1}}),
}

STRUCTURES = ok({}) + makes(lambda: {'a': Integer()}) + makes(lambda: {'a': Text(name='other'), 'b': Map(Field()), 'c': Integer(default=1)}) + \
    bad(None, [], 'x', 5, ()) + makes(lambda: {'a': 5}, BAD) + makes(lambda: {'a': Integer(), 'b': Integer}, BAD) + \
    makes(lambda: {'a': None}, BAD) + makes(lambda: [Integer()], BAD) + makes(lambda: {'a': {}}, BAD)
VARIANTS = makes(lambda: {'x': {}, 'y': {}}) + makes(lambda: {'x': {'a': Integer()}, 'y': {'b': Text(), 'a': Text()}}) + \
    makes(lambda: {'x': {'a': Integer()}, 'y': {}, '*': {'c': Boolean()}}) + \
    bad(None, [], 'x') + makes(lambda: {'x': 5, 'y': {}}, BAD) + makes(lambda: {'x': {'a': 5}, 'y': {}}, BAD) + \
    makes(lambda: {'x': {}, 'y': None}, BAD) + makes(lambda: {'x': {}, 'y': Text()}, BAD) + makes(lambda: {'x': {}, 'y': {}, '*': {'a': 5}}, BAD) + \
    makes(lambda: {'x': {}, 'y': None, '*': {'a': Text()}}, BAD)
KEYORDER = words() + gives('', None) + gives([], None) + gives((), None) + ok(None) + bad(('a',), 5, set(['a']), {'a': 1}, 1.5)

TABLE = {
    'text': {'pattern': ok(None) + gives('^a$', re.compile('^a$')) + gives(re.compile('b'), re.compile('b')), 'min_length': LENGTH, 'max_length': LENGTH,
        'strip': FLAG},
    'binary': {'min_length': LENGTH, 'max_length': LENGTH},
    'date': {'minimum': DATES, 'maximum': DATES},
    'time': {'minimum': TIMES, 'maximum': TIMES},
    'datetime': {'minimum': INSTANTS, 'maximum': INSTANTS, 'utc': FLAG},
    'decimal': dict((k, ok(None, decimal.Decimal('1.5'), decimal.Decimal(0)) + gives('1.5', decimal.Decimal('1.5')) + gives('-3', decimal.Decimal(-3)) +
        bad(5, 1.5, 'x', '', [], 0, False, '1,5')) for k in ('minimum', 'maximum')),
    'float': dict((k, ok(None, 1.5, -0.0, 0.0, float('inf')) + bad(5, '1.5', decimal.Decimal('1.5'), 0, [], False, '')) for k in ('minimum', 'maximum')),
    'integer': dict((k, ok(None, 5, -3, 0, 2 ** 80) + bad('5', 1.5, decimal.Decimal(5), [], '', 0.0)) for k in ('minimum', 'maximum')),
    'email': {'multiple': FLAG, 'extended': FLAG},
    'enumeration': {'enumeration': words() + ok([1, None, True, 'x', 1.5], ('a', 'b'), []) + bad(5, None) +
        makes(lambda: ['a', object()], BAD) + makes(lambda: [D], BAD) + makes(lambda: (1, set()), BAD),
        'ignored_values': words() + ok(None, ['x', 1], []) + bad(('x',), 5, set(['x'])) + makes(lambda: ['a', object()], BAD) + makes(lambda: [D], BAD)},
    'map': {'value': FIELDS + NOTFIELDS + bad(None), 'key': FIELDS + ok(None) + NOTFIELDS,
        'required_keys': words() + ok(None, ('a', 'b'), []) + bad(5, set(['a']), {'a': 1}, 1.5)},
    'sequence': {'item': FIELDS + NOTFIELDS + bad(None), 'min_length': LENGTH, 'max_length': LENGTH, 'unique': FLAG},
    'tuple': {'values': SEVERAL},
    'union': {'fields': SEVERAL},
    'structure': {'structure': STRUCTURES, 'strict': FLAG, 'key_order': KEYORDER, 'generate_default': ok(False, True) + bad('x', 5, [1])},
    'variants': {'structure': VARIANTS, 'strict': FLAG, 'key_order': KEYORDER, 'polymorphic_on': makes(lambda: 'kind') +
        makes(lambda: Text(name='kind')) + makes(lambda: Enumeration('x y', name='kind', title='t')) + makes(lambda: Text(name='kind', nonempty=True)) +
        bad(5, Text, ['kind'], {'a': 1}), 'generate_default': ok(False, 'x', 'y') + bad('z', True, 5, 'kind')},
    'definition': {'valid_fields': gives('integer text', ('integer', 'text')) + gives(['integer'], ('integer',)) + ok(('text',), None) +
        gives([], None) + bad('nope', ['integer', 'nope'], 5, {'integer': 1}, 'integer  text', [Integer])},
    'surrogate': {'valid_surrogates': gives('a b', ('a', 'b')) + gives(['a'], ('a',)) + ok(('a',), None)},
    'token': {'segments': ok(None, 1, 3)},
    'boolean': {}, 'uuid': {}, 'field': {}, 'error': {},
}
NEEDED = {'enumeration': ('enumeration',), 'map': ('value',), 'sequence': ('item',), 'tuple': ('values',), 'union': ('fields',),
    'structure': ('structure',), 'variants': ('structure', 'polymorphic_on')}


def options_of(t, name):
    return TABLE[t].get(name) or COMMON[name]


def gen_arguments(d):
    t = d.choice(sorted(TABLE))
    names = [n for n in sorted(TABLE[t]) if n in NEEDED.get(t, ()) or d.bool(0.5)] + [n for n in sorted(COMMON) if d.bool(0.15)]
    wrong = d.bool(0.4)
    case = {'t': t, 'args': {}}
    for n in d.shuffled(names):
        options = options_of(t, n)
        good = [i for i, o in enumerate(options) if o[1] != BAD]
        case['args'][n] = d.choice(good)
        faults = [i for i, o in enumerate(options) if o[1] == BAD]
        if wrong and faults:
            case['args'][n] = d.choice(faults)
            wrong = d.bool(0.3)
    if t == 'variants' and case['args'].get('generate_default') is not None and 'default' in case['args']:
        del case['args']['default']
    if t == 'structure' and 'generate_default' in case['args']:
        case['args'].pop('default', None)
    return case


def frozen(v):
    """What can be compared later: containers by their content, everything else as it is."""
    if type(v) is dict:
        return dict((k, frozen(x)) for k, x in v.items())
    if type(v) in (list, tuple):
        return type(v)(frozen(x) for x in v)
    return v


def alike(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is dict:
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (Field, type)) or callable(a):
        return a is b
    return a == b and repr(a) == repr(b)


def expectations(t, args, given):
    """{attribute: expected value}"""
    want = {}
    for n in list(TABLE[t]) + list(COMMON):
        if n in ('nonempty', 'aspects', 'extra', 'structure', 'polymorphic_on', 'generate_default'):
            continue
        if n in args:
            rule = options_of(t, n)[args[n]][1]
            want[n] = frozen(given[n]) if rule is SAME else rule(given[n])
        else:
            want[n] = DEFAULTS[n]
    if given.get('nonempty'):
        want['required'] = want['nonnull'] = True
        if t in ('text', 'binary') and want['min_length'] is None:
            want['min_length'] = 1
        if t in ('email', 'token') and args.get('min_length') is None:
            want['min_length'] = Skip
    aspects = dict(given.get('aspects') or {})
    for k, v in (given.get('extra') or {}).items():
        if v is not None and not k.startswith('_'):
            aspects[k] = v
    want['aspects'] = frozen(aspects)
    return want


def verify(field, t, want, given, what):
    for n, expected in want.items():
        if expected is Skip:
            continue
        actual = getattr(field, n)
        if n == 'aspects' and t == 'enumeration':
            actual = dict((k, v) for k, v in actual.items() if k != 'representation')
        if n in ('minimum', 'maximum') and t == 'datetime' and expected is not None:
            require(isinstance(actual, dt.datetime) and actual.utcoffset() is not None and actual == expected, '%s: %s of %s is %r, expected %r',
                what, n, t, actual, expected)
            continue
        if n == 'default' and t in ('structure', 'variants') and given.get('generate_default'):
            continue
        require(alike(expected, actual), '%s: %s of %s is %r, expected %r', what, n, t, actual, expected)
    for n in given.get('extra') or {}:
        if n in want['aspects']:
            require(alike(want['aspects'][n], getattr(field, n)), '%s: aspect %s is %r', what, n, getattr(field, n))
    require(field.preprocessor is None or t == 'email', '%s: preprocessor %r', what, field.preprocessor)
    if t == 'structure':
        require(list(field.structure) == list(given['structure']) and all(field.structure[k] is v for k, v in given['structure'].items()),
            '%s: structure %r, given %r', what, field.structure, given['structure'])
        require(not field.polymorphic and field.polymorphic_on is None, '%s: polymorphic', what)
        require(all(f.name for f in field.structure.values()), '%s: a key without a name', what)
        if given.get('generate_default'):
            require_same(dict((k, f.default) for k, f in given['structure'].items() if f.default is not None), field.default, what)
    if t == 'variants':
        on = field.polymorphic_on
        require(isinstance(on, Field) and on.name == 'kind' and on.required and field.polymorphic, '%s: discriminator %r', what, on)
        common = given['structure'].get('*', {})
        identities = [k for k in given['structure'] if k != '*']
        require(sorted(field.structure) == sorted(identities), '%s: variants %r, expected %r', what, sorted(field.structure), identities)
        for i in identities:
            keys = set(given['structure'][i]) | set(common) | set(['kind'])
            require(set(field.structure[i]) == keys, '%s: keys of %s are %r, expected %r', what, i, sorted(field.structure[i]), sorted(keys))
            require(field.structure[i]['kind'].constant == i, '%s: the variant %s is recognized by %r', what, i, field.structure[i]['kind'].constant)
        if given.get('generate_default'):
            require(field.default == {'kind': given['generate_default']}, '%s: generated default %r', what, field.default)
    repr(field)


def declare(t, given):
    params = dict((k, v) for k, v in given.items() if k != 'extra')
    params.update(given.get('extra') or {})
    return TYPES['structure' if t == 'variants' else t](**params)


def fields_in(v, seen):
    if isinstance(v, Field):
        if id(v) not in seen:
            seen[id(v)] = v, dict((k, frozen(x)) for k, x in v.__dict__.items())
            fields_in(v.__dict__, seen)
    elif isinstance(v, dict):
        for x in v.values():
            fields_in(x, seen)
    elif isinstance(v, (list, tuple)):
        for x in v:
            fields_in(x, seen)
    return seen


def check_arguments(case):
    t, args = case['t'], case['args']
    given = dict((n, options_of(t, n)[i][0]()) for n, i in args.items())
    wrong = sorted(n for n, i in args.items() if options_of(t, n)[i][1] == BAD)
    if t == 'email' and given.get('multiple') and given.get('extended'):
        wrong.append('multiple and extended')
    kept, parts = frozen(given), fields_in(given, {})
    try:
        field = declare(t, given)
    except Exception as error:
        require(wrong, '%s was refused: %r\n  given %r', t, error, kept)
        return [t + ' refused', 'refused']
    require(not wrong, '%s was declared with %s: %r', t, ', '.join(wrong), dict((n, kept.get(n)) for n in wrong))
    require(alike(kept, given), 'declaring %s turned the arguments %r into %r', t, kept, given)
    want = expectations(t, args, given)
    verify(field, t, want, kept, 'first')

    # another field from the same arguments
    again = dict(given, extra=dict(given.get('extra') or {}, again=2))
    other = declare(t, again)
    require(alike(kept, given), 'declaring %s twice turned the arguments %r into %r', t, kept, given)
    verify(field, t, want, kept, 'first, after declaring another')
    verify(other, t, expectations(t, args, dict(given, extra=again['extra'])), dict(kept, extra=again['extra']), 'second')
    for part, state in parts.values():
        now = dict(part.__dict__)
        if t in ('structure', 'variants') and part is not given.get('polymorphic_on'):
            now['name'] = state['name'] # keys give their fields their names
        require(alike(state, now), '%s turned a field it was given, %r, into %r', t, state, now)
    return [t, 'trivial' if not args else 'accepted']


# --- shared parts -----------------------------------------------------------------------------------

SHARED = gens.Opts(depth=1, text='plain', names=('a', 'b', 'c', 'kind_of', 'x-y'), pre=False)


def gen_shared(d):
    parts = []
    for _ in range(d.int(1, 3)):
        parts.append(dict((k, gens.a_spec(d, SHARED)) for k in d.subset(('a', 'b', 'c', 'e'), 0.5)))
    for part in parts:
        for k, s in part.items():
            s['name'] = k
    schemas = []
    for i in range(d.int(1, 3)):
        if d.bool(0.6):
            schema = {'variants': dict((k, d.draw(len(parts) - 1)) for k in ('x', 'y', 'z')[:d.int(1, 3)]), 'on': d.choice(('kind', 'sort'))}
            if d.bool(0.3):
                schema['common'] = d.draw(len(parts) - 1)
            schema['dict'] = d.draw(1)
        else:
            schema = {'part': d.draw(len(parts) - 1)}
        schemas.append(schema)
    edits = []
    for _ in range(d.int(0, 4)):
        n = d.draw(len(schemas) - 1)
        if 'part' in schemas[n]:
            edits.append([n, d.choice(('insert', 'remove')), d.choice(('a', 'b', 'c', 'new'))])
    values = []
    specs = [spec_of(s, parts) for s in schemas]
    for n, verb, key in edits:
        specs[n] = edited(specs[n], verb, key)
    for _ in range(d.int(1, 5)):
        n = d.draw(len(schemas) - 1)
        phase, serialized = d.choice((IN, OUT)), d.bool(0.5)
        values.append([n, gens.candidate(d, specs[n], phase, serialized, d.choice((0.0, 0.0, 0.3)), SHARED), phase, serialized])
    return {'parts': parts, 'schemas': schemas, 'edits': edits, 'values': values}


def edited(spec, verb, key):
    spec = dict(spec, structure=dict(spec['structure']))
    if verb == 'insert':
        spec['structure'][key] = {'t': 'integer', 'name': key}
    else:
        spec['structure'].pop(key, None)
    return spec


def spec_of(schema, parts):
    if 'part' in schema:
        return {'t': 'structure', 'name': 's', 'structure': parts[schema['part']]}
    spec = {'t': 'structure', 'name': 's', 'polymorphic_on': schema['on'], 'structure': dict((k, parts[i]) for k, i in schema['variants'].items())}
    if 'common' in schema:
        spec['common'] = parts[schema['common']]
    return spec


def check_shared(case):
    parts, schemas = case['parts'], case['schemas']
    made = [dict((k, build(s)) for k, s in part.items()) for part in parts]
    kept = [dict(p) for p in made]
    dicts, fields = {}, []
    for schema in schemas:
        if 'part' in schema:
            fields.append(Structure(made[schema['part']], name='s'))
            continue
        key = repr(sorted(schema['variants'].items())) + repr(schema.get('common'))
        if schema['dict'] and key in dicts:
            argument = dicts[key]
        else:
            argument = dict((k, made[i]) for k, i in schema['variants'].items())
            if 'common' in schema:
                argument['*'] = made[schema['common']]
            dicts[key] = argument
        was = dict(argument)
        fields.append(Structure(argument, polymorphic_on=schema['on'], name='s'))
        require(list(was) == list(argument) and all(was[k] is argument[k] for k in was), 'a declaration changed %r into %r', was, argument)
    for before, after in zip(kept, made):
        require(list(before) == list(after) and all(before[k] is after[k] for k in before), 'declaring changed the keys %r into %r', before, after)
    specs = [spec_of(s, parts) for s in schemas]
    labels = set(['shared'])
    for n, spec in enumerate(specs):
        same_descriptions(build(spec), fields[n], 'schema %d' % n)
    for n, verb, key in case['edits']:
        if verb == 'insert':
            fields[n].insert(Integer(name=key), True)
        else:
            fields[n].remove(key)
        specs[n] = edited(specs[n], verb, key)
        labels.add('edited')
        for m, other in enumerate(specs):
            same_descriptions(build(other), fields[m], 'schema %d after an edit of schema %d' % (m, n))
    if case['edits']:
        for before, after in zip(kept, made):
            require(list(before) == list(after) and all(before[k] is after[k] for k in before), 'an edit changed the keys %r into %r', before, after)
    for n, value, phase, serialized in case['values']:
        got = oracle.run(fields[n].process, value, phase, serialized)
        want = oracle.agree(specs[n], value, phase, serialized, got)
        labels.add('accepted' if want[0] == 'ok' else 'rejected')
    if len(schemas) == 1 and 'part' in schemas[0]:
        labels.add('trivial')
    return sorted(labels)


def same_descriptions(want, got, what):
    try:
        expected = want.describe()
    except Exception:
        return
    require_same(expected, got.describe(), what)


# --- custom errors ------------------------------------------------------------------------------------

CUSTOM = gens.Opts(depth=2, text='plain', scalars=gens.SCALARS + ('email', 'email'))


def gen_errors(d):
    spec = gens.a_spec(d, CUSTOM)
    tables = {}
    for i, s in enumerate(walk(spec)):
        s['notes'] = str(i)
        if d.bool(0.85):
            tables[str(i)] = sorted(d.subset(sorted(TYPES[s['t']].errors), 0.8))
    phase, serialized = d.choice((IN, OUT)), d.bool(0.6)
    return {'spec': spec, 'custom': tables, 'phase': phase, 'serialized': serialized, 'show': [d.bool(0.5), d.bool(0.5)],
        'value': gens.candidate(d, spec, phase, serialized, d.choice((0.7, 1.0)), CUSTOM)}


def customized(spec, tables, show):
    spec = copy.deepcopy(spec)
    for s in walk(spec):
        tokens = tables.get(s['notes'])
        if tokens:
            s['errors'] = [[t, 'custom ' + t, TYPES[s['t']].errors[t].message + ' [custom %s]' % s['notes']] + list(show) for t in tokens]
            if s['t'] == 'email' and 'pattern' in tokens:
                original = (Email.multiple_errors if s.get('multiple') else Email.single_errors)[0].message
                for e in s['errors']:
                    if e[0] == 'pattern':
                        e[2] = original + ' [custom %s]' % s['notes']
    return spec


def tree(error, tables=None, seen=None):
    if error.structure is None:
        out = []
        for e in error.errors:
            e = dict(e)
            note = error.field.notes
            if tables is not None and e['token'] in tables.get(note, ()):
                e['title'] = 'custom ' + e['token']
                e['message'] += ' [custom %s]' % note
                seen.add(e['token'])
            out.append(e)
        return [identity_of(error), out]
    items = error.structure.items() if isinstance(error.structure, dict) else enumerate(error.structure)
    return [identity_of(error), dict((repr(k), tree(v, tables, seen)) for k, v in items if isinstance(v, StructuralError))]


def check_errors(case):
    spec, tables = case['spec'], case['custom']
    ordinary = oracle.run(build(spec).process, copy.deepcopy(case['value']), case['phase'], case['serialized'])
    field = build(customized(spec, tables, case['show']))
    for what, used in (('custom', field), ('cloned', field.clone())):
        got = oracle.run(used.process, copy.deepcopy(case['value']), case['phase'], case['serialized'])
        require(got[0] == ordinary[0], 'with %s errors %r, without %r', what, got, ordinary)
        if ordinary[0] == 'ok':
            require_same(ordinary[1], got[1], what)
            return ['trivial']
        seen = set()
        require_same(tree(ordinary[1], tables, seen), tree(got[1]), '%s errors' % what)
    return sorted(seen) + ['customized'] if seen else ['trivial']


# --- elements ---------------------------------------------------------------------------------------------

BASE = Element
SCHEMAS = {
    'none': (lambda: None, True), 'structure': (lambda: Structure({'a': Integer(default=1), 'id': Text()}), True),
    'polymorphic': (lambda: Structure({'x': {'a': Integer()}, 'y': {}, 0: {'b': Text()}}, polymorphic_on=Field(name='kind')), True),
    'named': (lambda: Integer(name='n', default=3), True), 'sequence': (lambda: Sequence(Integer(), name='s'), True),
    'nameless': (lambda: Integer(), False), 'nameless map': (lambda: Map(Text()), False), 'empty name': (lambda: Text(name=''), False),
    'text': (lambda: 'schema', False), 'class': (lambda: Integer, False), 'dict': (lambda: {'a': Integer()}, False), 'zero': (lambda: 0, False),
    'false': (lambda: False, False), 'empty': (lambda: {}, False),
}


def gen_elements(d):
    case = {'schema': d.choice(sorted(SCHEMAS)), 'children': []}
    for i in range(d.int(0, 3)):
        case['children'].append([d.int(-1, i - 1) if i else -1, d.choice(('x', 'y', 0, '', False, 'z'))])
    return case


def check_elements(case):
    maker, legal = SCHEMAS[case['schema']]
    schema = maker()
    try:
        base = type(BASE)('Base', (BASE,), {'schema': schema})
    except Exception as error:
        require(not legal, 'an element with %s for its schema was refused: %r', case['schema'], error)
        require(isinstance(error, (TypeError, ValueError)), 'refused with %r', error)
        return ['refused', case['schema']]
    require(legal, 'an element was declared with %r for its schema', schema)
    classes = []
    labels = [case['schema']]
    for n, (parent, identity) in enumerate(case['children']):
        bases = (classes[parent] if parent >= 0 and classes[parent] is not None else base,)
        inherits = bases[0] is not base
        name = 'Child%d' % n
        try:
            child = type(BASE)(name, bases, {'polymorphic_identity': identity})
        except ValueError:
            require(case['schema'] != 'polymorphic', 'a child of a polymorphic element was refused')
            classes.append(None)
            labels.append('child refused')
            continue
        require(case['schema'] == 'polymorphic', 'a child of an element with the schema %s was declared as %r', case['schema'], identity)
        classes.append(child)
        require(base.__polymorphic_impl__.get(identity) is child, 'the child declared as %r is not known to its base', identity)
        require(child.schema is schema, 'the child has the schema %r', child.schema)
        labels.append('child')
    require(BASE.schema is None and BASE.polymorphic_identity is None, 'declaring elements changed the base of all')
    return labels


SECTIONS = [Section('arguments', gen_arguments, check_arguments, 40000), Section('shared', gen_shared, check_shared, 7000),
    Section('custom errors', gen_errors, check_errors, 16000), Section('elements', gen_elements, check_elements, 3000)]
