"""C27: references to python objects and definitions of fields resolve exactly."""
import importlib
import json
import sys
import types

from scheme import Definition, Map, Object, Sequence, Structure, Text
from scheme.exceptions import InvalidTypeError, ValidationError
from scheme.field import Field

from vf import codec, gens, model, oracle
from vf.build import build, walk
from vf.describe import expected, missing, normal, strip_unnatural
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import fail, require, require_same
from vf.prop import Section
from vf.props.c10 import text_keys
from vf.props.common import root_spec
from vf.snap import snap

RULE = ('Objects: every module, class and function of some fifty modules which an independent resolver finds under its own name, in '
    'dotted and colon form, alone and inside sequences, maps and structures, is serialized to a path that resolver leads back to '
    'it, and read back as the very same object; paths damaged in every segment, broken modules and attributes are refused as '
    'import errors exactly when the resolver fails; other objects are refused; in scratch modules whose functions and classes come, are '
    'exchanged and go, paths lead at every step to what is there by then. Definitions: a random field is turned into its '
    'description and back up to four times, also through JSON and containers; each field must describe itself as an independent '
    'description says and treat values as the model of the specification; damaged descriptions, restricted types. '
    'Non-trivial: an object, or a field with an attribute.')
ASSUMPTIONS = ('Paths have no blank segments; blanks around segments are not generated.',
    'Defaults and constants which are not natively serializable, and compiled patterns, are documented as not described.')

MODULES = ('os os.path json json.decoder json.encoder collections collections.abc datetime decimal re xml.etree.ElementTree xml.dom.minidom '
    'email.mime.text email.utils logging logging.handlers scheme scheme.field scheme.fields scheme.fields.text scheme.fields.structure '
    'scheme.util scheme.format scheme.formats.json scheme.surrogate scheme.exceptions urllib.parse urllib.request string textwrap uuid '
    'calendar itertools functools math operator inspect tokenize csv base64 copy fractions heapq bisect io codecs time vf.family '
    'vf.broken vf.model vf.gens').split()
KINDS = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)


def resolve(path):
    """The object at the path; independent of the code under test."""
    if ':' in path:
        name, _, attrs = path.partition(':')
        target = importlib.import_module(name)
        attrs = attrs.split('.')
    else:
        parts = path.split('.')
        for n in range(len(parts), 0, -1):
            try:
                target = importlib.import_module('.'.join(parts[:n]))
            except ImportError as error:
                if n == 1 or not isinstance(error, ModuleNotFoundError):
                    raise
                continue
            attrs = parts[n:]
            break
    for attr in attrs:
        target = getattr(target, attr)
    return target


def own_path(obj):
    """The path under which the object is known to its module, or None."""
    if isinstance(obj, types.ModuleType):
        return obj.__name__ if sys.modules.get(obj.__name__) is obj else None
    module = sys.modules.get(getattr(obj, '__module__', None) or '')
    if module is None:
        return None
    name = getattr(obj, '__name__', '')
    if module.__dict__.get(name) is obj:
        return '%s.%s' % (module.__name__, name)
    if isinstance(obj, types.FunctionType):
        for name, value in module.__dict__.items():
            if value is obj:
                return '%s.%s' % (module.__name__, name)
    return None


_POOL = []


def pool():
    if not _POOL:
        found = set()
        for name in MODULES:
            module = importlib.import_module(name)
            found.add(name)
            for attr in sorted(module.__dict__):
                obj = module.__dict__[attr]
                if isinstance(obj, KINDS):
                    path = own_path(obj)
                    if path:
                        try:
                            if resolve(path) is obj:
                                found.add('%s:%s' % (name, attr))
                        except Exception:
                            pass
        _POOL.extend(sorted(found))
    return _POOL


def refused(got, token):
    return got[0] == 'error' and [e['token'] for e in got[1].errors] == [token]


def place(error, kinds):
    """Where the only failure, so many containers deep, says it is."""
    for kind in reversed(kinds):
        error = error.structure[0 if kind == 'sequence' else 'k' if kind == 'map' else 'a']
    return oracle.identity_of(error)


def misplaced(make, kinds, value, phase, serialized):
    """None, or how the refusal of the value inside containers is not where any other field's would be."""
    places = []
    for field, refused_value in ((make(), value), (Text(name='d', pattern='^x$'), 'y')):
        outer, (given,) = wrap(kinds, field, [refused_value])
        got = oracle.run(outer.process, given, phase, serialized)
        if got[0] != 'error':
            return 'inside %r accepted as %r' % (kinds, got[1])
        places.append(place(got[1], kinds))
    return None if places[0] == places[1] else 'inside %r refused at %r, expected %r' % (kinds, places[0], places[1])


DAMAGE = ('nope', 'zz9', 'Json', u'\xe9t\xe9', 'not-an-identifier', '0', '__nope__')
OTHER = ('vf.broken.raising', 'vf.broken.missing', 'vf.broken.syntax', 'vf.broken.name', 'vf.broken.raising.x', 'vf.broken:missing',
    'vf.broken.missing:x', 'there_is_no_such_module', 'there_is_no_such_module.x', 'there.is:no', 'vf.broken.Thing.Inner',
    'vf.broken:Thing.method', 'vf.broken.Thing.method', 'vf.broken.Thing.nope', 'vf.broken:Thing.nope', 'vf.broken.value',
    'vf.broken.value.keys', 'vf.broken.text', 'vf.family.instance', 'vf.broken.Alias', 'vf.broken:Alias', 'scheme.fields.text.Text.errors')


def gen_object(d):
    path = d.choice(pool())
    case = {'path': path, 'name': d.choice(gens.IDENTIFIERS)}
    mode = d.draw(9)
    if mode < 3:
        parts = path.replace(':', '.').split('.')
        colon = ':' in path
        n = d.draw(len(parts))
        if n < len(parts) and d.bool(0.7):
            parts[n] = d.choice(DAMAGE) if d.bool(0.6) else parts[n] + d.choice('xZ_9')
        else:
            parts.insert(n, d.choice(DAMAGE))
        if colon and len(parts) > 1 and d.bool():
            case['damaged'] = '.'.join(parts[:-1]) + ':' + parts[-1]
        else:
            case['damaged'] = '.'.join(parts)
    elif mode == 3:
        case['damaged'] = d.choice(OTHER)
    elif mode == 4:
        case['refused'] = gens.native(d, gens.DEFAULT) if d.bool(0.5) else codec.odd('plain')
        if isinstance(case['refused'], str):
            del case['refused']
    case['around'] = [d.choice(('sequence', 'map', 'structure')) for _ in range(d.size(0, 2))]
    return case


def wrap(kinds, field, values):
    """A field around the field, and the value around each of the values."""
    for kind in kinds:
        if kind == 'sequence':
            field, values = Sequence(field), [[v] for v in values]
        elif kind == 'map':
            field, values = Map(field), [{'k': v} for v in values]
        else:
            field, values = Structure({'a': field}), [{'a': v} for v in values]
    return field, values


def peel(kinds, value):
    for kind in reversed(kinds):
        value = value[0] if kind == 'sequence' else value['k' if kind == 'map' else 'a']
    return value


def check_object(case):
    obj = resolve(case['path'])
    labels = [type(obj).__name__]
    plain = Object(name=case['name'])
    around = case['around']
    field, (value,) = wrap(around, plain, [obj])

    text = plain.process(obj, OUT, True)
    require(isinstance(text, str), '%r was serialized as %r', obj, text)
    require(resolve(text) is obj, '%r was serialized as %r, which is %r', obj, text, resolve(text))
    require(text == plain.process(text, OUT, True), 'serializing the path %r gave something else', text)
    require(plain.process(text, IN, True) is obj, '%r was read as %r, expected %r', text, plain.process(text, IN, True), obj)
    require(plain.process(obj, IN, True) is obj and plain.process(obj, IN) is obj and plain.process(obj, OUT) is obj,
        'processing %r changed it', obj)
    if isinstance(obj, types.ModuleType):
        require(text == obj.__name__, '%r was serialized as %r', obj, text)
    else:
        require(text.rpartition('.')[0] == obj.__module__, '%r was serialized as %r', obj, text)
        colon = '%s:%s' % tuple(text.rsplit('.', 1))
        require(plain.process(colon, IN, True) is obj, '%r was not read as %r', colon, obj)
    again = field.process(value, OUT, True)
    require(peel(around, again) == text, 'inside containers %r was serialized as %r', obj, again)
    back = field.process(again, IN, True)
    require(peel(around, back) is obj, 'inside containers %r was read as %r', again, back)
    require(peel(around, field.unserialize(field.serialize(value, 'json'), 'json')) is obj, 'through JSON')

    if 'damaged' in case:
        path = case['damaged']
        try:
            target = resolve(path)
        except Exception:
            target = fail
        got = oracle.run(plain.process, path, IN, True)
        if target is fail:
            require(refused(got, 'import'), 'the path %r resolves to nothing, got %r', path, got)
            require(type(got[1]) is ValidationError and oracle.identity_of(got[1]) == case['name'], 'refused %r as %r', path, got[1])
            inside = oracle.run(field.process, wrap(around, plain, [path])[1][0], IN, True)
            require(inside[0] == 'error', 'inside containers the path %r was read as %r', path, inside[1])
            wrong = misplaced(lambda: Object(name='d'), around, path, IN, True)
            require(not wrong, 'the path %r: %s', path, wrong)
            labels.append('import error')
        else:
            require(got[0] == 'ok' and (got[1] is target or isinstance(target, types.MethodType) and got[1] == target or
                got[1] == target and callable(target)), 'the path %r gave %r, expected %r', path, got, target)
            labels.append('other path')
    if 'refused' in case and case['refused'] is not None:
        got = oracle.run(plain.process, case['refused'], OUT, True)
        require(refused(got, 'invalid') and type(got[1]) is InvalidTypeError, 'serializing %r gave %r', case['refused'], got)
        labels.append('refused')
    return labels


# --- modules which change -----------------------------------------------------------------------------

NAMES = ('a', 'b', 'Outer', 'Outer.inner', 'sub', 'sub.a', 'sub.Outer', 'sub.Outer.inner', '')
COUNT = [0]


def gen_changing(d):
    steps = []
    for _ in range(d.int(2, 4) + d.size(0, 5)):
        step = {'op': d.choice(('define', 'define', 'define', 'remove', 'nothing')), 'name': d.choice(('a', 'b', 'Outer')),
            'in': d.choice(('', '', 'sub')), 'kind': d.choice(('function', 'class'))}
        step['ask'] = [[d.choice(NAMES), d.choice('.:')] for _ in range(d.int(1, 4))]
        steps.append(step)
    return {'steps': steps}


def check_changing(case):
    COUNT[0] += 1
    root = 'vfchanging%d' % COUNT[0]
    plain = Object(name='o')
    labels = []
    try:
        for number, step in enumerate(case['steps']):
            path = root + ('.sub' if step['in'] else '')
            if step['op'] != 'nothing':
                for name in (root, path):
                    if step['op'] == 'define' and name not in sys.modules:
                        sys.modules[name] = types.ModuleType(name)
                        sys.modules[name].__path__ = []
                        if name != root:
                            sys.modules[root].sub = sys.modules[name]
            module = sys.modules.get(path)
            if step['op'] == 'define':
                setattr(module, step['name'], made(path, step['name'], step['kind']))
            elif step['op'] == 'remove' and module is not None:
                if step['name'] in module.__dict__:
                    delattr(module, step['name'])
                elif step['in']:
                    del sys.modules[path]
                    del sys.modules[root].sub
            for name, mark in step['ask']:
                path = '%s%s%s' % (root, mark if name else '', name)
                try:
                    target = resolve(path)
                except Exception:
                    target = fail
                got = oracle.run(plain.process, path, IN, True)
                if target is fail:
                    require(refused(got, 'import'), 'step %d: the path %r resolves to nothing, got %r', number, path, got)
                    labels.append('unresolved')
                else:
                    require(got[0] == 'ok' and got[1] is target, 'step %d: the path %r gave %r, expected %r', number, path, got, target)
                    labels.append('resolved')
                    if not isinstance(target, types.FunctionType) and own_path(target):
                        text = plain.process(target, OUT, True)
                        require(resolve(text) is target, 'step %d: %r was serialized as %r', number, target, text)
    finally:
        for name in (root, root + '.sub'):
            sys.modules.pop(name, None)
    if 'resolved' not in labels or 'unresolved' not in labels:
        labels.append('trivial')
    return labels


def made(module, name, kind):
    if kind == 'function' and name != 'Outer':
        def thing():
            pass
        thing.__name__, thing.__module__ = name, module
        return thing
    thing = type(name, (object,), {'__module__': module})
    thing.inner = type('inner', (object,), {'__module__': module})
    return thing


# --- definitions --------------------------------------------------------------------------------------

OPTS = gens.Opts(depth=2, pre=False, meta=True, patterns=False)
TYPES = ('text', 'integer', 'structure', 'sequence', 'map', 'tuple', 'union', 'date', 'binary', 'boolean', 'enumeration', 'object', 'definition',
    'datetime', 'datetime', 'time', 'float', 'decimal', 'uuid', 'email', 'token', 'field', 'surrogate', 'error')


def gen_definition(d):
    spec = root_spec(d, d.choice(OPTS.structural), OPTS) if d.bool(0.6) else gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)
    if d.bool(0.06):
        spec = d.choice(({'t': 'definition', 'valid_fields': ['text', 'map'], 'required': True}, {'t': 'object', 'nonnull': True},
            {'t': 'surrogate', 'valid_surrogates': ['a.b']}, {'t': 'definition'}, {'t': 'error', 'title': 'x'}))
    strip_unnatural(spec)
    phase, serialized = d.choice((IN, OUT)), d.bool()
    values = []
    if spec['t'] in gens.SCALARS or spec['t'] in OPTS.structural:
        values = [gens.candidate(d, spec, phase, serialized, d.choice((0.0, 0.3, 0.8)), OPTS) for _ in range(2)]
    case = {'spec': spec, 'phase': phase, 'serialized': serialized, 'values': values, 'times': d.int(1, 4), 'json': d.bool(0.3),
        'around': [d.choice(('sequence', 'map', 'structure')) for _ in range(d.size(0, 2))]}
    if d.bool(0.4):
        case['valid'] = d.subset(TYPES, 0.2) or ['text']
        if spec['t'] in ('date', 'time') and d.bool(0.3):
            case['valid'] = ['datetime'] + [n for n in case['valid'] if n != spec['t']]
        if d.bool(0.3):
            case['valid'] = ' '.join(case['valid'])
    if d.bool(0.25):
        case['damage'] = d.choice(('fieldtype', 'no fieldtype', 'number', 'list', 'text', 'argument', 'nested', 'nothing'))
    if d.bool(0.1):
        case['other'] = d.choice((5, 'text', [], {}, {'a': 1}, True, 1.5, codec.odd('class')))
    return case


def check_definition(case):
    spec = case['spec']
    field = build(spec)
    before = snap(field)
    valid = case.get('valid')
    plain = Definition(valid_fields=valid, name='d') if valid else Definition(name='d')
    names = valid.split(' ') if isinstance(valid, str) else valid
    labels = [spec['t']] + (['trivial'] if len(spec) == 1 else [])

    if names and spec['t'] not in names:
        description = field.describe()
        text = codec.dumps(description)
        for args in ((field, IN), (field, OUT), (field, OUT, True), (description, IN, True)):
            got = oracle.run(plain.process, *args)
            require(refused(got, 'invalidfield') and type(got[1]) is ValidationError, 'a %s is not among %r, got %r', spec['t'], names, got)
        wrong = misplaced(lambda: Definition(valid_fields=valid, name='d'), case['around'], field, case['phase'], False)
        require(not wrong, 'a %s which is not among %r: %s', spec['t'], names, wrong)
        require(codec.dumps(description) == text and snap(field) == before, 'refusing a field changed it')
        return labels + ['not admitted']

    around = case['around']
    container, (value,) = wrap(around, plain, [field])
    require(plain.process(field, IN) is field and plain.process(field, OUT) is field, 'processing a field changed it')
    first = None
    current = value
    for n in range(case['times']):
        description = container.process(current, OUT, True)
        found = missing(expected(spec), peel(around, description))
        require(not found, 'description %d: %s', n, found)
        if first is None:
            first = peel(around, description)
        require_same(normal(first), normal(peel(around, description)), 'description %d' % n)
        text = codec.dumps(description)
        carried = description
        if case['json'] and all(text_keys(s.get('default')) for s in walk(spec)):
            carried = json.loads(json.dumps(description))
        current = container.process(carried, IN, True)
        require(codec.dumps(description) == text, 'rebuilding changed the description %s', text)
        rebuilt = peel(around, current)
        require(type(rebuilt) is type(field), 'rebuilt as a %s', type(rebuilt).__name__)
    require(snap(field) == before, 'describing the field changed it')
    for value in case['values']:
        got = oracle.run(peel(around, current).process, value, case['phase'], case['serialized'])
        want = oracle.agree(spec, value, case['phase'], case['serialized'], got)
        labels.append('accepted' if want[0] == 'ok' else 'rejected')
    if 'damage' in case:
        damaged = damage(case['damage'], json.loads(json.dumps(first, default=repr)))
        if damaged is not None:
            kept = json.dumps(damaged)
            got = oracle.run(plain.process, damaged, IN, True)
            require(got[0] == 'error' and got[1].errors[0]['token'] == 'invalid', 'the description %s was read as %r', kept, got[1])
            require(json.dumps(damaged) == kept, 'refusing changed the description %s', kept)
            wrong = misplaced(lambda: Definition(name='d'), around, damaged, IN, True)
            require(not wrong, 'the description %s: %s', kept, wrong)
            labels.append('damaged')
    if 'other' in case:
        for phase, serialized in ((IN, False), (OUT, False), (OUT, True)):
            got = oracle.run(plain.process, case['other'], phase, serialized)
            require(refused(got, 'invalid') and type(got[1]) is InvalidTypeError, '%r was taken for a field: %r', case['other'], got)
            wrong = misplaced(lambda: Definition(name='d'), around, case['other'], phase, serialized)
            require(not wrong, '%r in place of a field: %s', case['other'], wrong)
        labels.append('not a field')
    return labels


def damage(kind, description):
    if kind == 'fieldtype':
        return dict(description, fieldtype='nope')
    if kind == 'no fieldtype':
        return dict((k, v) for k, v in description.items() if k != 'fieldtype')
    if kind == 'number':
        return 5
    if kind == 'list':
        return [description]
    if kind == 'text':
        return 'nope'
    if kind == 'nothing':
        return {}
    if kind == 'argument':
        return {'fieldtype': 'text', 'min_length': 'x'}
    for key in ('structure', 'item', 'value', 'values', 'fields'):
        if key in description and description[key]:
            inner = description[key]
            if key == 'structure':
                if 'polymorphic_on' in description:
                    return None
                name = sorted(inner)[0]
                return dict(description, structure=dict(inner, **{name: {'fieldtype': 'nope'}}))
            if key in ('values', 'fields'):
                return dict(description, **{key: [{'fieldtype': 'nope'}] + list(inner)[1:]})
            return dict(description, **{key: {'fieldtype': 'nope'}})
    return None


SECTIONS = [Section('changing', gen_changing, check_changing, 2000), Section('objects', gen_object, check_object, 16000),
    Section('definitions', gen_definition, check_definition, 12000)]
