"""C07: a validation error reports every failure, at the right place, once."""
import json
import re

from scheme.common import Errors
from scheme.exceptions import InvalidTypeError, StructuralError, ValidationError
from scheme.field import Field
from scheme.fields import Boolean, Date, Definition, Error, Integer, Map, Object, Sequence, Structure, Surrogate, Text, Tuple

from vf import family, gens, large, model, oracle
from vf.build import build
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import require, require_same
from vf.prop import Finding, Section
from vf.props.common import root_spec
from vf.same import same

RULE = ('A random nested schema processes values damaged in many places. The error tree, its printed form (each failure once, '
    'numbered, with path, title, message and the value refused), its serialized form (same failures, same positions, nothing for valid ones), that '
    'form after a JSON trip and the result of passing it through an error field are each compared with the failures an '
    'independent model finds. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Errors put together by callers (constructed, appended, merged, attached) are serialized, '
    'rebuilt, merged and printed as a model says. Containers of field definitions, objects, errors and surrogates with content '
    'of their own schemas report the failures of all of these in place. Non-trivial: the value is rejected; the share with several failures is counted.')
ASSUMPTIONS = ('Known finding: error fields hold only null or values they refuse, where other values fail too.', 'Keys in printed paths contain no line breaks.', 'The JSON trip is made when all keys are text.')

OPTS = gens.Opts(datetimes=True, depth=3, text='plain', map_keys=('integer', 'token', 'date', 'uuid'), width=5, pre=False)
LARGE = OPTS.but(structural=('structure', 'sequence', 'map', 'tuple'))


def gen(d):
    spec = root_spec(d, d.choice(('structure', 'structure', 'map', 'sequence', 'tuple', 'union')), OPTS) if d.bool(0.92) \
        else gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)
    phase = d.choice((IN, OUT))
    serialized = d.bool(0.5)
    value = gens.candidate(d, spec, phase, serialized, d.choice((0.4, 0.7, 1.0)), OPTS)
    return {'spec': spec, 'phase': phase, 'serialized': serialized, 'value': value}


def gen_large(d):
    phase, serialized = d.choice((IN, OUT)), d.bool(0.5)
    spec, value = large.candidate(d, LARGE, phase, serialized, d.choice((0.2, 0.5, 1.0)), kinds=('deep', 'long', 'keys', 'wide',
        'tuple', 'long'))
    if d.bool(0.4):
        spec['name'] = d.choice(gens.IDENTIFIERS)
    if gens.gray_deep(spec, value, phase, serialized):
        raise Discard()
    return {'spec': spec, 'phase': phase, 'serialized': serialized, 'value': value}


def expected_entries(error):
    """title, path and message of every leaf of an actual error tree already compared with the model"""
    if error.structure is None:
        return ['%s error at %s: %s' % (e['title'].capitalize(), oracle.identity_of(error), e['message'])
            for e in error.errors]
    items = error.structure.values() if isinstance(error.structure, dict) else error.structure
    found = []
    for item in items:
        if isinstance(item, StructuralError):
            found.extend(expected_entries(item))
    return found


def expected_form(error):
    if error.structure is None:
        return [dict(e) for e in error.errors]
    return structure_form(error.structure)


def structure_form(structure):
    if isinstance(structure, dict):
        return dict((k, expected_form(v)) for k, v in structure.items() if isinstance(v, StructuralError))
    return [expected_form(v) if isinstance(v, StructuralError) else None for v in structure]


VALUELESS = ('nonnull', 'required', 'unknown')


def carried(error, where='value'):
    """Every failure names its field and, unless nothing was there, carries the value refused; those which print it."""
    if error.structure is None:
        token = error.errors[0]['token']
        require(isinstance(error.field, Field), 'the failure %s at %s carries the field %r', token, where, error.field)
        if token in VALUELESS:
            return []
        require(error.value is not None, 'the failure %s at %s carries no value', token, where)
        return ['Value: %r' % (error.value,)] if error.field.errors[token].show_value else []
    require(isinstance(error.field, Field), 'the failures in %s carry the field %r', where, error.field)
    require(error.value is not None, 'the failures in %s do not carry the value they were found in', where)
    items = error.structure.items() if isinstance(error.structure, dict) else enumerate(error.structure)
    return sum((carried(item, '%s[%r]' % (where, k)) for k, item in items if isinstance(item, StructuralError)), [])


NOTHING = object()


def refused_values(error, value, where='value'):
    """Failures inside a container carry the container as given; failures of type, the very value of the wrong type."""
    if error.structure is None:
        if type(error) is InvalidTypeError and value is not NOTHING and not isinstance(value, dict) and error.field.constant is None:
            require(same(error.value, value), '%s was refused as %r, it is %r', where, error.value, value)
        return
    if value is NOTHING:
        return
    require(same(error.value, value), 'the failures in %s carry %r, it is %r', where, error.value, value)
    for k, item in error.structure.items() if isinstance(error.structure, dict) else enumerate(error.structure):
        if isinstance(item, StructuralError):
            inner = value.get(k, NOTHING) if isinstance(value, dict) else value[k]
            refused_values(item, inner, '%s[%r]' % (where, k))


def check(case):
    spec = case['spec']
    field = build(spec)
    got = oracle.run(field.process, case['value'], case['phase'], case['serialized'])
    want = oracle.agree(spec, case['value'], case['phase'], case['serialized'], got)
    if want[0] == 'ok':
        return ['trivial']
    refused_values(got[1], case['value'])
    return reported_forms(got[1], want[1])


def reported_forms(error, wanted):
    """Every form of an error found to agree with the model's."""
    count = len(oracle.leaves(wanted))
    labels = ['%d failures' % min(count, 5) if count < 50 else '50+ failures']

    shown = carried(error)

    # the printed form
    entries = expected_entries(error)
    require(len(entries) == count, 'expected %d failures, found %r', count, entries)
    if not any(re.search(u'[\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]', e) for e in entries):
        whole = str(error)
        lines = whole.split('\n')
        require(lines[0] == 'validation failed', 'printed form starts with %r', lines[0])
        printed = [l for l in lines[1:] if l.startswith('[')]
        numbers = [re.match(r'\[(\d+)\] (.*)\Z', l) for l in printed]
        require(all(numbers), 'unnumbered failure in %r', printed)
        require([int(m.group(1)) for m in numbers] == list(range(1, count + 1)), 'expected the numbers 1..%d in %r',
            count, printed)
        require(sorted(m.group(2) for m in numbers) == sorted(entries), 'printed failures %r, expected %r', printed, entries)
        for text in set(shown):
            require(whole.count(text) >= shown.count(text), 'printed %r, expected %d times %r', lines, shown.count(text), text)
    else:
        labels.append('unprintable path')

    # the serialized form
    if error.structure is None:
        expected = ([dict(e) for e in error.errors], None)
    else:
        expected = (None, structure_form(error.structure))
    form = error.serialize()
    require_same(expected, form, 'serialized error')
    require_same(expected, error.serialize(), 'error serialized again')
    through = Error().process(error, OUT, True)
    require_same(expected, through, 'error serialized by an error field')
    back = Error().process(form, IN, True)
    require(isinstance(back, StructuralError), 'error field gave %r', back)
    require_same(expected, plain(back.serialize(), form), 'error rebuilt by an error field')
    require_same(expected, Errors.process(form, OUT, True), 'serialized error processed by the schema of errors')
    if text_keys(form):
        text = json.dumps(form)
        again = json.loads(text)
        rebuilt = Error().process(again, IN, True)
        require_same(again, json.loads(json.dumps(rebuilt.serialize())), 'error rebuilt from JSON')
        listed = Errors.unserialize(text, 'json')
        require(isinstance(listed, tuple), 'the schema of errors read %r', listed)
        require_same(again, list(listed), 'error read by the schema of errors')
        labels.append('json')
    return labels


def plain(value, like):
    return value


def text_keys(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) and text_keys(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(text_keys(x) for x in v)
    return True


# --- errors put together by callers -------------------------------------------------------------

KINDS = {'StructuralError': StructuralError, 'ValidationError': ValidationError, 'InvalidTypeError': InvalidTypeError}
HOLDERS = {'integer': Integer, 'text': Text, 'sequence': lambda **p: Sequence(Integer(), **p), 'date': Date, 'boolean': Boolean}


def an_error(d):
    if d.bool(0.2):
        return d.choice(('plain text', '', u'\xe9 %s'))
    error = {'token': d.choice(('invalid', 'odd'))}
    if d.bool(0.7):
        error['message'] = d.choice(('a message', '', u'm\xe9'))
    if d.bool(0.4):
        error['title'] = 'a title'
    if d.bool(0.2):
        error['extra'] = d.choice((1, None, [1], {'a': 1}))
    return error


def a_node(d, depth, top=False):
    node = {'kind': d.choice(('StructuralError', 'ValidationError', 'InvalidTypeError')), 'start': [], 'steps': [], 'structure': None}
    nested = depth and d.bool(0.5)
    if not nested or top and d.bool(0.4):
        node['start'] = [an_error(d) for _ in range(d.int(0, 2))]
        if d.bool(0.2):
            node['params'] = {'token': 'given', 'message': 'in parameters', 'level': 1}
        for _ in range(d.int(0, 3)):
            node['steps'].append(d.choice((lambda: ['append', an_error(d)], lambda: ['merge', [an_error(d) for _ in range(d.int(0, 2))]],
                lambda: ['construct', d.draw(9)]))())
    if nested:
        def item():
            return a_node(d, depth - 1) if d.bool(0.7) else {'plain': d.choice((None, None, 5, 'x'))}
        if d.bool(0.5):
            node['structure'] = [item() for _ in range(d.int(0, 4))]
        else:
            node['structure'] = dict((k, item()) for k in d.subset(('a', 'b', 'message', 'token', u'\xe9'), 0.4))
            if all('plain' in x for x in node['structure'].values()):
                node['structure'] = {}
        node['attach'] = d.bool(0.5)
    node['field'] = d.choice(sorted(HOLDERS))
    node['name'] = d.choice((None, 'named'))
    return node


def assemble(node):
    """(error, serialized errors, serialized structure), by the actual methods and by the model"""
    if 'plain' in node:
        return node['plain'], None, None
    field = HOLDERS[node['field']](name=node['name'])
    structure = shape = None
    if node['structure'] is not None:
        if isinstance(node['structure'], list):
            parts = [assemble(x) for x in node['structure']]
            structure = [p[0] for p in parts]
            shape = [form_of(x, p) for x, p in zip(node['structure'], parts)]
        else:
            parts = dict((k, assemble(x)) for k, x in node['structure'].items())
            structure = dict((k, p[0]) for k, p in parts.items())
            shape = dict((k, form_of(x, parts[k])) for k, x in node['structure'].items() if 'plain' not in x)
    params = dict(node.get('params') or {})
    if structure is not None and not node['attach']:
        params['structure'] = structure
    error = KINDS[node['kind']](*node['start'], field=field, value=7, **params)
    if structure is not None and node['attach']:
        require(error.attach(structure) is error, 'attach gives another error')
    errors = [e if isinstance(e, dict) else {'message': e} for e in node['start']]
    if node.get('params'):
        errors.append(dict(node['params']))
    for verb, what in node['steps']:
        if verb == 'append':
            require(error.append(what) is error, 'append gives another error')
            errors.append(what if isinstance(what, dict) else {'message': what})
        elif verb == 'merge':
            require(error.merge(StructuralError(*what)) is error, 'merge gives another error')
            errors.extend(e if isinstance(e, dict) else {'message': e} for e in what)
        elif node['kind'] != 'StructuralError':
            token = sorted(field.errors)[what % len(field.errors)]
            declared = field.errors[token]
            given = dict((n, 3) for n in re.findall(r'%\((\w+)\)', declared.message) if n != 'field')
            require(error.construct(token, **given) is error, 'construct gives another error')
            errors.append({'token': token, 'title': declared.title,
                'message': declared.message % dict(given, field=node['name'] or 'unknown-field')})
    require(error.field is field and error.value == 7, 'the error lost its field or its value')
    require(bool(error.substantive) == bool(errors or structure), 'substantive is %r with %r and %r', error.substantive, errors, structure)
    return error, errors, shape


def form_of(node, part):
    if 'plain' in node:
        return None
    return part[2] if node['structure'] is not None else part[1]


def gen_assembled(d):
    return {'node': a_node(d, d.int(0, 3), True), 'later': [an_error(d) for _ in range(d.int(0, 2))]}


def check_assembled(case):
    error, errors, shape = assemble(case['node'])
    expected = (list(errors) or None, shape or None)
    require_same(expected, error.serialize(), 'serialized')
    require_same(expected, error.serialize(), 'serialized again')
    back = StructuralError.unserialize(expected)
    require_same(expected, back.serialize(), 'serialized, unserialized and serialized')
    require(bool(back.substantive) == bool(expected[0] or expected[1]), 'rebuilt error substantive: %r', back.substantive)
    through = Error().process(Error().process(error, OUT, True), IN, True)
    require_same(expected, through.serialize(), 'through an error field')
    for e in case['later']:
        error.append(e)
        errors.append(e if isinstance(e, dict) else {'message': e})
    require_same((errors or None, shape or None), error.serialize(True), 'serialized by force, after later errors')
    back.merge(error)
    require_same(((expected[0] or []) + errors or None, shape or None), back.serialize(True), 'merged')
    return ['nested' if shape else 'flat', 'both' if shape and errors else 'one'] + ([] if errors or shape else ['trivial'])


def a_report(d, depth):
    """What a caller reports: failures of one place, or places inside it."""
    if depth and d.bool(0.6):
        if d.bool():
            return [a_report(d, depth - 1) if d.bool(0.7) else None for _ in range(d.int(1, 4))]
        return dict((k, a_report(d, depth - 1) if d.bool(0.7) else None) for k in d.subset(('a', 'b', 'c', 'd e', ''), 0.6))
    return {'errors': [d.draw(50) for _ in range(d.int(1, 3))], 'field': d.choice(sorted(HOLDERS)), 'kind': d.choice(sorted(KINDS)[:2]),
        'value': d.choice((None, 7, 0, 'x'))}


def gen_printed(d):
    return {'report': a_report(d, d.int(0, 3)), 'name': d.choice(('root', None)), 'own': [d.draw(50) for _ in range(d.int(0, 2))]}


def reported(report, path, lines):
    """The error for the report; adds the lines it prints."""
    if report is None:
        return 5
    if isinstance(report, dict) and 'errors' in report:
        field = HOLDERS[report['field']]()
        error = {'ValidationError': ValidationError, 'InvalidTypeError': InvalidTypeError}.get(report['kind'], ValidationError)(
            identity=path, field=field, value=report['value'])
        raise_all(error, field, report['errors'], path, lines)
        return error
    field = Sequence(Integer())
    if isinstance(report, list):
        structure = [reported(x, path + ['[%d]' % i], lines) for i, x in enumerate(report)]
    else:
        structure = dict((k, reported(x, path + ['.' + k], lines)) for k, x in report.items())
    return ValidationError(identity=path, field=field, structure=structure)


def raise_all(error, field, picks, path, lines):
    for pick in picks:
        token = sorted(field.errors)[pick % len(field.errors)]
        declared = field.errors[token]
        given = dict((n, 3) for n in re.findall(r'%\((\w+)\)', declared.message) if n != 'field')
        error.construct(token, **given)
        lines.append('%s error at %s: %s' % (declared.title.capitalize(), ''.join(path), declared.message % dict(given, field='unknown-field')))


def check_printed(case):
    path = [case['name'] or '(field)']
    report = case['report']
    inner, outer = [], []
    error = reported(report, path, inner)
    if not isinstance(error, StructuralError):
        raise Discard()
    if error.structure is not None:
        raise_all(error, error.field, case['own'], path, outer)
    lines = outer + inner
    wanted = ['[%02d] %s' % (i + 1, line) for i, line in enumerate(lines)]
    got = [line for text in error.format_errors() for line in [text.split('\n')[0]]]
    require_same(wanted, got, 'printed failures')
    require(len(error.format_errors()) == len(lines), 'printed %d failures of %d', len(error.format_errors()), len(lines))
    text = str(error)
    for line in wanted:
        require(text.count(line + '\n') + text.endswith(line) == 1, '%r is not printed once in %r', line, text)
    return ['trivial' if not lines else 'several' if len(lines) > 1 else 'one']


# --- fields, surrogates, objects and errors as values -------------------------------------------

REFUSED = {'type': ('type', 'invalid'), 'invalid': ('invalid', 'invalid')}
PLAIN = 'vf.family.Plain'
VALUES = {
    # kind -> serialized -> the values and how each is refused
    'definition': {True: [({'fieldtype': 'text'}, None), ({'fieldtype': 'map', 'value': {'fieldtype': 'date'}}, None), (None, None),
        ({'fieldtype': 'integer'}, ('invalid', 'invalidfield')), (5, REFUSED['invalid']), ({'fieldtype': 'nope'}, REFUSED['invalid']),
        ([], REFUSED['invalid']), ({'fieldtype': 'map'}, REFUSED['invalid']), ('nope', REFUSED['invalid'])],
        False: [(Text(), None), (Integer(), ('invalid', 'invalidfield')), (5, REFUSED['type']), ({'fieldtype': 'text'}, REFUSED['type']),
            (Text, REFUSED['type'])]},
    'object': {True: [('json', None), ('vf.family.Plain', None), (5, None), ('vf.broken.missing', ('invalid', 'import')),
        ('there_is_no_such_module.x', ('invalid', 'import')), ('vf.broken.raising', ('invalid', 'import')), ('json.nope', ('invalid', 'import'))],
        False: [(5, None), ('json', None)]},
    'surrogate': {True: [({'_': PLAIN, 'a': 1}, None), (None, None), (5, REFUSED['type']), ('x', REFUSED['type']), ([], REFUSED['type']),
        ({'_': PLAIN, '__schema__': {'fieldtype': 'nope'}}, REFUSED['type']), ({'_': PLAIN, '__schema__': None}, REFUSED['type']),
        ({'_': 'vf.family.Versioned', '__version__': 99}, REFUSED['type']),
        ({'_': 'vf.family.Derived', 'a': 1}, ('invalid', 'invalid-surrogate'))],
        False: [(family.Plain({'a': 1}), None), (5, REFUSED['type']), ({'_': PLAIN}, REFUSED['type']), (family.Derived({}),
            ('invalid', 'invalid-surrogate'))]},
    'error': {True: [(None, None)] + [(v, REFUSED['type']) for v in (5, 'x', {}, [1, 2], [None], [None, 5], [None, None, None])],
        False: [(None, None), (5, REFUSED['type']), ([None, None], REFUSED['type']), (ValueError('x'), REFUSED['type'])]},
    'integer': {True: [('5', None), ('x', REFUSED['type'])], False: [(5, None), ('x', REFUSED['type'])]},
}
MAKERS = {'definition': lambda: Definition(valid_fields=['text', 'map']), 'object': Object, 'error': Error, 'integer': Integer,
    'surrogate': lambda: Surrogate(valid_surrogates=[PLAIN]), 'content': lambda: Surrogate(valid_surrogates='vf.family.Versioned')}
INSIDE = gens.Opts(depth=2, text='plain', map_keys=('token',), width=3, pre=False)


def a_held(d, case, kind, depth):
    """A value for the kind of field: an index, several in a container, or the content of a surrogate."""
    if isinstance(kind, list):
        many = {'structure': d.subset(('a', 'b', 'c d', 'keys'), 0.5), 'map': d.subset(('a', 'b', 'x.y', ''), 0.5)}.get(kind[0])
        if kind[0] == 'tuple':
            return [a_held(d, case, k, depth - 1) for k in kind[1]]
        if kind[0] == 'structure':
            return dict((name, a_held(d, case, k, depth - 1)) for name, k in kind[1].items() if d.bool(0.85))
        if kind[0] == 'map':
            return dict((name, a_held(d, case, kind[1], depth - 1)) for name in many)
        return [a_held(d, case, kind[1], depth - 1) for _ in range(d.int(0, 3))]
    if kind == 'content':
        version = d.int(1, len(case['specs']))
        content = gens.candidate(d, case['specs'][version - 1], IN, True, d.choice((0.2, 0.5, 1.0)), INSIDE)
        if not isinstance(content, dict) or any(isinstance(k, str) and k.startswith('_') for k in content):
            return None
        return [version, content]
    return d.draw(60)


def a_kind(d, depth, serialized):
    if not depth or d.bool(0.2):
        return d.choice(('definition', 'object', 'surrogate', 'error', 'integer') + (('content', 'content', 'content') if serialized else ()))
    t = d.choice(('structure', 'structure', 'map', 'sequence', 'tuple'))
    if t == 'structure':
        return [t, dict((n, a_kind(d, depth - 1, serialized)) for n in (d.subset(('a', 'b', 'c d', 'keys', 'e'), 0.5) or ['a']))]
    if t == 'tuple':
        return [t, [a_kind(d, depth - 1, serialized) for _ in range(d.int(1, 3))]]
    return [t, a_kind(d, depth - 1, serialized)]


def gen_held(d):
    serialized = d.bool(0.7)
    specs = []
    for _ in range(d.int(1, 3)):
        spec = gens.structural_spec(d, 'structure', INSIDE, 2)
        spec.pop('nonnull', None)
        specs.append(spec)
    case = {'serialized': serialized, 'specs': specs, 'kind': a_kind(d, d.int(0, 3), serialized), 'name': d.choice((None, 'root'))}
    case['held'] = a_held(d, case, case['kind'], 3)
    return case


def holder(kind, name=None):
    if not isinstance(kind, list):
        field = MAKERS[kind]()
    elif kind[0] == 'structure':
        field = Structure(dict((n, holder(k)) for n, k in kind[1].items()))
    elif kind[0] == 'tuple':
        field = Tuple(tuple(holder(k) for k in kind[1]))
    else:
        field = (Map if kind[0] == 'map' else Sequence)(holder(kind[1]))
    if name:
        field.name = name
    return field


def held(case, kind, value, path):
    """(the value to process, how it is refused or None)"""
    if isinstance(kind, list):
        if kind[0] == 'structure':
            parts = dict((n, held(case, kind[1][n], v, path + '.' + n)) for n, v in value.items())
        elif kind[0] == 'map':
            parts = dict((n, held(case, kind[1], v, path + '[%s]' % n)) for n, v in value.items())
        else:
            kinds = kind[1] if kind[0] == 'tuple' else [kind[1]] * len(value)
            parts = [held(case, k, v, path + '[%d]' % i) for i, (k, v) in enumerate(zip(kinds, value))]
        pairs = parts.items() if isinstance(parts, dict) else list(enumerate(parts))
        given = dict((k, p[0]) for k, p in pairs) if isinstance(parts, dict) else [p[0] for p in parts]
        if not any(p[1] for _, p in pairs):
            return given, None
        places = dict((k, p[1]) for k, p in pairs)
        return given, model.Rejected('invalid', None, path, places if isinstance(parts, dict) else [p[1] for p in parts])
    if kind == 'content':
        if value is None:
            return None, None
        version, content = value
        got = oracle.expected(case['specs'][version - 1], content, IN, True, path)
        return dict(content, _='vf.family.Versioned', __version__=version), got[1] if got[0] == 'error' else None
    given, refusal = VALUES[kind][case['serialized']][value % len(VALUES[kind][case['serialized']])]
    return given, model.Rejected(refusal[0], refusal[1], path) if refusal else None


def same_places(want, got, where='error'):
    """Like oracle.error_difference, for values which only their own fields can compare."""
    if want.structure is None or want.token:
        return oracle.error_difference(want, got, where)
    if type(got) is not ValidationError or got.errors or oracle.identity_of(got) != want.path:
        return '%s: expected failures inside %s, got %r at %s: %r' % (where, want.path, type(got), oracle.identity_of(got), got.serialize(True))
    if not isinstance(got.structure, type(want.structure)) or len(got.structure) != len(want.structure):
        return '%s: expected %d places, got %r' % (where, len(want.structure), got.structure)
    for k, w in (want.structure.items() if isinstance(want.structure, dict) else enumerate(want.structure)):
        g = got.structure[k]
        if isinstance(w, model.Rejected):
            found = same_places(w, g, '%s[%r]' % (where, k)) if isinstance(g, StructuralError) else '%s[%r]: accepted as %r' % (where, k, g)
        else:
            found = '%s[%r]: unexpected %r' % (where, k, g.serialize(True)) if isinstance(g, StructuralError) else None
        if found:
            return found
    return None


def check_held(case):
    family.Versioned.schemas = tuple(build(s) for s in case['specs'])
    field = holder(case['kind'], case['name'])
    kind = case['kind']
    outer = kind[0] if isinstance(kind, list) else kind
    path = case['name'] or '(%s)' % ('surrogate' if outer == 'content' else outer)
    given, want = held(case, kind, case['held'], path)
    got = oracle.run(field.process, given, IN, case['serialized'])
    if want is None:
        require(got[0] == 'ok', '%r was refused: %r', given, got[1])
        return ['trivial']
    require(got[0] == 'error', '%r was accepted as %r', given, got[1])
    found = same_places(inner_places(want), got[1])
    require(not found, '%s', found)
    return reported_forms(got[1], want) + ['beside others']


def inner_places(want):
    """Valid values stand for themselves in what the model says of contents; only the failures count here."""
    if want.structure is None:
        return want
    pick = lambda w: inner_places(w) if isinstance(w, model.Rejected) else None
    structure = dict((k, pick(w)) for k, w in want.structure.items()) if isinstance(want.structure, dict) else [pick(w) for w in want.structure]
    return model.Rejected(want.kind, want.token, want.path, structure)


SECTIONS = [Section('printed', gen_printed, check_printed, 4000),
    Section('assembled', gen_assembled, check_assembled, 8000), Section('errors', gen, check, 40000), Section('large', gen_large, check, 3000),
    Section('held', gen_held, check_held, 8000)]


def valid_error():
    """A valid value of an error field beside a failure counts as a failure."""
    value = StructuralError({'token': 'x', 'title': 'x', 'message': 'x'})
    try:
        Structure({'e': Error(), 'i': Integer()}).process({'e': value, 'i': 'x'}, IN)
    except ValidationError as error:
        return 'e' in error.serialize()[1]


FINDINGS = [Finding('error-values', 'a valid value of an error field beside a failure is reported as a failure', valid_error)]
