"""C08: processing is total and never changes its input or the schema."""
import copy

from scheme.exceptions import StructuralError

from vf import codec, gens, oracle
from vf.build import build
from vf.codec import IntSub, StrSub
from vf.model import IN, OUT
from vf.oracle import require
from vf.prop import Section
from vf.same import difference
from vf.snap import snap

RULE = ('A random schema (any field type, including object, definition, error and surrogate fields) processes, in all four '
    'modes, values meant for it but damaged, and arbitrary python values of any type and nesting. Each call must return or '
    'raise a scheme validation error; the value and the schema must be identical afterwards and a second call must give the '
    'same outcome. Non-trivial: some value is not null. Long texts made of pieces of what a textual field accepts, followed by what '
    'spoils them, are processed in a process of its own, which must end within its CPU limit.')
ASSUMPTIONS = ('Values whose own operators raise are not generated.', 'Paths of objects have up to 200 repeated pieces: python itself takes '
    'long to look for a module nested more deeply.')

OPTS = gens.Opts(depth=3)
SPECIAL = ('object', 'definition', 'error', 'surrogate')


def weird(d, depth=3):
    mode = d.draw(11 if depth > 0 else 6)
    if mode == 0:
        return None
    if mode <= 2:
        return d.choice(gens.WRONG)
    if mode == 3:
        return gens.any_text(d, 0, 8, 'surrogates')
    if mode == 4:
        return d.choice((float('nan'), float('inf'), -float('inf'), 10 ** 40, -10 ** 400, 1e308, -0.0, complex(1, 2),
            bytearray(b'ab'), StrSub('abc'), IntSub(5), u'\ud800', '9' * 400, '1e999999', '1' * 5000, 'x' * 3000))
    if mode == 5:
        return d.choice((gens.a_datetime(d), gens.a_naive(d), gens.a_date(d), gens.a_time(d, True), gens.a_decimal(d, True),
            gens.a_naive(d).time().replace(tzinfo=gens.UTC0)))
    if mode == 6:
        from vf.codec import ODD_TAGS, odd
        return odd(d.choice(ODD_TAGS))
    if mode <= 8:
        return dict((hashable(d), weird(d, depth - 1)) for _ in range(d.size(0, 4)))
    if mode == 9:
        items = [weird(d, depth - 1) for _ in range(d.size(0, 4))]
        return items if d.bool(0.7) else tuple(items)
    if mode == 10:
        return d.choice((set, frozenset))(d.choice((1, 'a', None, (1, 2), 2.5)) for _ in range(d.size(0, 3)))
    value = weird(d, depth - 1)
    for _ in range(d.choice((1, 5, 40))):
        value = [value] if d.bool() else {'a': value}
    return value


def hashable(d):
    return d.choice(('a', 'b', 'id', '', '*', 'fieldtype', '_', '__schema__', 1, 0, True, None, 2.5, (), (1, 'a'), b'k',
        u'\xe9', 'x.y', '%s', '%(field)s', '{0}'))


def a_description(d):
    return d.choice(({'fieldtype': 'text'}, {'fieldtype': 'nope'}, {'fieldtype': []}, {'fieldtype': 'integer', 'minimum': 'x'},
        {'fieldtype': 'structure', 'structure': {'a': {'fieldtype': 'text'}}}, {'fieldtype': 'structure', 'structure': 5},
        {'fieldtype': 'sequence'}, {'fieldtype': 'enumeration', 'enumeration': [1, 2]}, {}, {'fieldtype': 'text', 'bogus': 1},
        'text', 5, [], {'fieldtype': 'structure', 'structure': {'a': {'fieldtype': 'nope'}}}))


def special_value(d, t):
    if t == 'object':
        return d.choice(('os', 'os.path', 'os.path.join', 'os.nope', 'nope', 'a.b.c', '', '.', '..', 'os.', '.os', 'os:path',
            'os:path.join', 'os:', ':', ':os', 'os:nope', 'a:b:c', 'os path', u'\xe9.\xe9', 'a\nb', 'os..path', '%s', '0', 'x' * 200))
    if t == 'definition':
        return a_description(d)
    if t == 'error':
        return d.choice(([None, None], [[{'message': 'x'}], None], [['a'], None], [None, {'a': ['b']}], [None, [None, [{}]]],
            [5, None], ['ab', None], [None, 5], [None, 'ab'], [{}, {}], [[None], None], [[1, 2], [3]], [], [1], [1, 2, 3],
            (None, None), [[[]], None], [None, [[[[]]]]], [None, {'a': None}], [[{'token': 'x', 'title': 't', 'message': 'm'}], {}]))
    value = {}
    if d.bool(0.6):
        value['_'] = d.choice(('os.path', 'scheme.surrogate.surrogate', 'nope.nope', '', None, [], 5, 'vf.codec.Odd', 'vf.codec.odd',
            'collections.OrderedDict', 'scheme.fields.Text', 'vf.props.c08.Versioned', 'vf.props.c08.Versioned'))
    if d.bool(0.4):
        value['__schema__'] = a_description(d)
    if d.bool(0.4):
        value['__version__'] = d.choice((0, 1, 2, 3, -1, -5, 'x', None, 1.5, []))
    for k in d.subset(('a', 'b', 'c'), 0.4):
        value[k] = weird(d, 1)
    return value


def gen(d):
    if d.bool(0.15):
        spec = {'t': d.choice(SPECIAL)}
        if spec['t'] == 'definition' and d.bool(0.4):
            spec['valid_fields'] = ['text', 'structure']
        if spec['t'] == 'surrogate' and d.bool(0.3):
            spec['valid_surrogates'] = ['vf.props.c08.Versioned']
        if d.bool(0.3):
            spec['nonnull'] = True
        if d.bool(0.4):
            spec = d.choice((lambda s: {'t': 'structure', 'structure': {'a': s}}, lambda s: {'t': 'sequence', 'item': s},
                lambda s: {'t': 'map', 'value': s}, lambda s: {'t': 'union', 'fields': [s, {'t': 'text'}]}))(spec)
    else:
        spec = gens.a_spec(d, OPTS)
    values = []
    for _ in range(d.int(1, 3)):
        if d.bool(0.5):
            value = weird(d)
        else:
            value = loose(d, spec)
        values.append(value)
    return {'spec': spec, 'values': values}


def loose(d, spec):
    """Shaped like the specification, with arbitrary leaves."""
    t = spec['t']
    if d.bool(0.12):
        return weird(d, 2)
    if t in SPECIAL:
        return special_value(d, t)
    if t in gens.SCALARS:
        mode = d.draw(3)
        if mode == 0:
            return weird(d, 1)
        reading = d.bool()
        if mode == 1 and t in ('date', 'time', 'datetime', 'integer', 'float', 'decimal', 'binary'):
            return gens.malformed(d, t)
        return gens.scalar_candidate(d, spec, IN, reading, 0.5, OPTS)
    if t == 'structure':
        if 'polymorphic_on' in spec:
            from vf import model
            on = model.discriminator(spec)
            identity = d.choice(sorted(spec['structure'], key=repr))
            definition = dict(spec['structure'][identity], **dict(spec.get('common', {})))
            value = {on['name']: identity if d.bool(0.8) else weird(d, 1)}
        else:
            definition, value = spec['structure'], {}
        for k, s in definition.items():
            if d.bool(0.85):
                value[k] = loose(d, s)
        if d.bool(0.15):
            value[hashable(d)] = weird(d, 1)
        return value
    if t == 'sequence':
        items = [loose(d, spec['item']) for _ in range(d.size(0, 4))]
        if items and d.bool(0.3):
            items.append(copy.deepcopy(d.choice(items)))
        return items
    if t == 'tuple':
        items = [loose(d, s) for s in spec['values']]
        return items if d.bool() else tuple(items)
    if t == 'map':
        value = {}
        for _ in range(d.size(0, 3)):
            k = loose(d, spec['key']) if spec.get('key') and d.bool(0.7) else hashable(d)
            if not gens._hashable(k):
                k = 'k'
            value[k] = loose(d, spec['value'])
        return value
    return loose(d, d.choice(spec['fields']))


def outcome(field, value, phase, serialized):
    try:
        return 'ok', field.process(value, phase, serialized)
    except StructuralError as error:
        str(error)
        return 'error', error


def same_outcome(a, b):
    if a[0] != b[0]:
        return '%s, then %s' % (a[0], b[0])
    if a[0] == 'ok':
        return loosely(a[1], b[1])
    if type(a[1]) is not type(b[1]):
        return 'different errors %r and %r' % (a[1], b[1])
    if str(a[1]).split('Captured tracebacks')[0] != str(b[1]).split('Captured tracebacks')[0]:
        return 'different reports %s and %s' % (a[1], b[1])
    return None


def loosely(a, b):
    if type(a) is not type(b):
        return '%r then %r' % (a, b)
    from scheme.field import Field
    if isinstance(a, Field):
        return None if snap(a) == snap(b) else 'different fields'
    if isinstance(a, StructuralError):
        return None
    if isinstance(a, dict):
        if list(a) != list(b):
            return 'keys %r then %r' % (list(a), list(b))
        for x, y in zip(a.values(), b.values()):
            found = loosely(x, y)
            if found:
                return found
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%r then %r' % (a, b)
        for x, y in zip(a, b):
            found = loosely(x, y)
            if found:
                return found
        return None
    if a is b:
        return None
    return None if repr(a) == repr(b) else '%r then %r' % (a, b)


def check(case):
    spec = case['spec']
    field = build(spec)
    before = snap(field)
    labels = [spec['t']]
    for value in case['values']:
        text = codec.dumps(value)
        for phase in (IN, OUT):
            for serialized in (False, True):
                first = outcome(field, value, phase, serialized)
                require(codec.dumps(value) == text, 'processing (%s, serialized=%r) changed its input %s into %r', phase,
                    serialized, text, value)
                require(snap(field) == before, 'processing %r (%s, serialized=%r) changed the schema', value, phase, serialized)
                second = outcome(field, value, phase, serialized)
                found = same_outcome(first, second)
                require(not found, 'processing %r twice (%s, serialized=%r): %s', value, phase, serialized, found)
                labels.append(first[0])
        if value is None:
            labels.append('null')
    if all(v is None for v in case['values']):
        labels.append('trivial')
    return labels


def _versioned():
    import scheme

    class Versioned(scheme.surrogate):
        schemas = (scheme.Structure({'a': scheme.Text()}), scheme.Structure({'a': scheme.Text(), 'b': scheme.Integer()}))
    Versioned.surrogate = 'vf.props.c08.Versioned'
    return Versioned


Versioned = _versioned()

PIECES = ('a', 'A', '0', '9', '-', '.', ':', '_', '+', '@', ' ', ',', 'a.', 'a-', 'a:', 'a_', '1.', '1e', '1,', '-1', '+a', 'a@', 'a@b.',
    'a@b.co ', 'a@b.co,', '12:', '00:00', '2001-', 'T', 'Z', '\n', '\t', '"', '\\', '%', '=', 'AA==', 'a.b', 'a:b', 'ab-', '/', '(', '[', '{',
    u'\xe9', u'\u0661', "'", '<a', 'e', 'E', 'true', 'x ')
TEXTUAL = ({'t': 'token'}, {'t': 'token', 'segments': 1}, {'t': 'token', 'segments': 3}, {'t': 'uuid'}, {'t': 'email'}, {'t': 'email', 'multiple': True},
    {'t': 'email', 'extended': True}, {'t': 'date'}, {'t': 'time'}, {'t': 'datetime'},
    {'t': 'datetime', 'utc': True}, {'t': 'decimal'}, {'t': 'integer'}, {'t': 'float'}, {'t': 'boolean'}, {'t': 'binary'}, {'t': 'object'},
    {'t': 'text', 'strip': True}, {'t': 'enumeration', 'enumeration': ['a', 'b']})
MEANT = {'token': ('a:b', 'a.b-c:1'), 'uuid': ('9c2b0a0e-6f6e-4a55-8a0f-0d6c5c6c0a11',), 'email': ('a.b@c.co', 'A <a@b.co>'), 'date': ('2001-01-01',),
    'time': ('12:34:56.789',), 'datetime': ('2001-01-01T12:34:56.789Z', '2001-01-01T12:34:56'), 'decimal': ('1.25', '-1e5'), 'integer': ('12',),
    'float': ('1.5e3',), 'boolean': ('true',), 'binary': ('YWJj',), 'object': ('os.path',), 'text': (' a ',), 'enumeration': ('a',)}
CHILD_CPU = 8


def gen_lengthy(d):
    items = []
    for _ in range(d.int(1, 6)):
        spec = d.choice(TEXTUAL)
        meant = d.choice(MEANT[spec['t']])
        mode = d.draw(2)
        if mode == 0:
            piece = d.choice(PIECES)
        elif mode == 1:
            start = d.int(0, len(meant) - 1)
            piece = meant[start:d.int(start, len(meant)) + 1]
        else:
            piece = d.choice(PIECES) + d.choice(PIECES)
        items.append({'spec': spec, 'before': d.choice(('', '', 'a', meant, d.choice(PIECES), meant[:len(meant) // 2])), 'piece': piece,
            'count': d.choice((30, 40, 60, 200) if spec['t'] == 'object' else (30, 40, 60, 200, 1000, 4000)), 'after': d.choice(('', '!', '!', '\n', d.choice(PIECES), meant, meant + '!', u'\u2028'))})
    return {'items': items}


def process_all(items):
    for item in items:
        field = build(item['spec'])
        text = item['before'] + item['piece'] * item['count'] + item['after']
        for phase in (IN, OUT):
            for serialized in (False, True):
                try:
                    field.process(text, phase, serialized)
                except StructuralError as error:
                    str(error)


def check_lengthy(case):
    """The regular expression engine cannot be interrupted, hence the process of its own."""
    import os
    import resource
    import signal
    from vf.engine import Violation
    child = os.fork()
    if child == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (CHILD_CPU, CHILD_CPU + 2))
            process_all(case['items'])
            code = 0
        finally:
            os._exit(code)
    status = os.waitpid(child, 0)[1]
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGXCPU:
            raise Violation('processing did not terminate within %d CPU seconds' % CHILD_CPU)
    elif os.WEXITSTATUS(status):
        process_all(case['items'])
        raise Violation('processing failed once and worked the second time')
    return sorted(set(item['spec']['t'] for item in case['items']))


SECTIONS = [Section('total', gen, check, 30000), Section('lengthy', gen_lengthy, check_lengthy, 2400)]
