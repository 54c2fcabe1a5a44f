"""C33: custom field types and formats take the place they declare."""
import json
import os
import shutil
import tempfile

from scheme import Date, Field, Format, Integer, Json, Map, Sequence, Structure, Text, Tuple
from scheme.exceptions import InvalidTypeError, StructuralError, ValidationError
from scheme.field import FieldError, INBOUND, OUTBOUND

from vf import codec, gens, model, oracle
from vf.build import build
from vf.oracle import fail, require, require_same
from vf.prop import Section
from vf.same import same

RULE = ('A random family of up to four field types is derived from built in types and from each other (also from two of them), '
    'declaring errors and parameters, and refusing, changing, wrapping and unwrapping values. After every declaration the registry, errors and '
    'parameters of all of them and of the built in types are compared with a model; then instances, with errors and '
    'parameters of their own, process values alone and inside other fields in every phase, are described, rebuilt and cloned. '
    'A second section declares random formats and reads and writes files through them. Non-trivial: a type is derived from another '
    'or a value is refused by a custom error; a custom format is used.')
ASSUMPTIONS = ('Custom types do not declare class attributes in the place of parameters.',
    'What declaring a type under the name of another leaves of the earlier type is not specified, except that later '
    'descriptions are rebuilt with the newer.')

BASES = {'text': Text, 'integer': Integer, 'date': Date, 'field': Field}
NAMES = ('VfAlpha', 'VfBeta', 'VfGamma', 'VfDelta')
TOKENS = ('invalid', 'nonnull', 'minimum', 'min_length', 'refused', 'odd', 'other')
PARAMETERS = ('level', 'unit', 'tag')
DEFAULTS = (None, 0, 1, 'x', False, True, '')


def an_error(d):
    return [d.choice(TOKENS), d.choice(('a title', 'other title', 'Title')), d.choice(('%(field)s is bad', 'plainly bad', '%(field)s: 100%% bad')),
        d.bool(0.5), d.bool(0.5)]


def gen(d):
    base = d.choice(tuple(BASES))
    # parameters are taken by constructors in all of the classes, or in none, for both to have the same defaults
    classes, constructor = [], d.bool(0.4)
    for i in range(d.int(1, 4)):
        if i == 0 or d.bool(0.35):
            bases = [-1]
        else:
            bases = [d.int(0, i - 1)]
            if i > 1 and d.bool(0.6):
                other = d.int(0, i - 1)
                if classes[other]['bases'] == [-1] and classes[bases[0]]['bases'] == [-1] and other != bases[0]:
                    bases.append(other)
        classes.append({'name': NAMES[i] if d.bool(0.9) or not i else NAMES[d.int(0, i - 1)], 'bases': bases,
            'errors': [an_error(d) for _ in range(d.int(0, 3))] if d.bool(0.8) else None,
            'parameters': dict((p, d.choice(DEFAULTS)) for p in d.subset(PARAMETERS, 0.4)) if d.bool(0.7) else None,
            'hooks': [h for h in ('refuse', 'change', 'wrap') if d.bool(0.4)], 'constructor': constructor,
            'token': d.choice(('refused', 'invalid', 'odd')), 'type error': d.bool(0.5)})
    for c in classes:
        if 'refuse' in c['hooks'] and c['token'] != 'invalid' and not any(e[0] == c['token'] for e in c['errors'] or ()):
            c['errors'] = (c['errors'] or []) + [[c['token']] + an_error(d)[1:]]
    uses = []
    spec = {'t': base}
    if base == 'text':
        spec['min_length'] = 2
    if base == 'integer':
        spec['minimum'] = 1
    for _ in range(d.int(1, 3)):
        use = {'class': d.int(0, len(classes) - 1), 'name': d.choice((None, None, 'named')), 'nonnull': d.bool(0.3),
            'parameters': dict((p, d.choice((1, 0, True, 'x', 'y', '', [1], None, False))) for p in d.subset(PARAMETERS, 0.4)),
            'errors': [an_error(d) for _ in range(d.int(0, 2))], 'errors as': d.choice((list, tuple, dict)).__name__,
            'inside': d.choice(('none', 'none', 'structure', 'sequence', 'map', 'tuple')),
            'phase': d.choice((INBOUND, OUTBOUND)), 'serialized': d.bool(0.5), 'values': []}
        for _ in range(d.int(1, 4)):
            use['values'].append(d.choice((None, 'bad', 7, 3, 'abc', 'a', 0, -1, gens.a_date(d), '2001-02-03', [1], u'\xe9\xe9')))
        uses.append(use)
    return {'base': base, 'spec': spec, 'classes': classes, 'uses': uses}


def refuses(value):
    return value in ('bad', 7) if isinstance(value, (str, int)) else False


def changed(value):
    if type(value) is str:
        return value + '!'
    if type(value) is int:
        return value + 100
    return None


def declare(c, bases):
    namespace = {}
    if c['errors'] is not None:
        namespace['errors'] = [FieldError(*e) for e in c['errors']]
    if c['parameters'] is not None:
        namespace['parameters'] = dict(c['parameters'])
    holder = []
    if c['constructor'] and c['parameters']:
        def __init__(self, **params):
            own = dict((p, params.pop(p, default)) for p, default in c['parameters'].items())
            super(holder[0], self).__init__(**params)
            for p, value in own.items():
                setattr(self, p, value)
        namespace['__init__'] = __init__
    if 'refuse' in c['hooks'] or 'change' in c['hooks']:
        def _validate_value(self, value, ancestry):
            candidate = super(holder[0], self)._validate_value(value, ancestry)
            if candidate is not None:
                value = candidate
            if 'refuse' in c['hooks'] and refuses(value):
                kind = InvalidTypeError if c['type error'] else ValidationError
                raise kind(identity=ancestry, field=self, value=value).construct(c['token'])
            if 'change' in c['hooks']:
                return changed(value)
            return value
        namespace['_validate_value'] = _validate_value
    if 'wrap' in c['hooks']:
        def _serialize_value(self, value):
            return {'wrapped': super(holder[0], self)._serialize_value(value)}

        def _unserialize_value(self, value, ancestry):
            if not isinstance(value, dict) or list(value) != ['wrapped']:
                raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
            return super(holder[0], self)._unserialize_value(value['wrapped'], ancestry)
        namespace['_serialize_value'] = _serialize_value
        namespace['_unserialize_value'] = _unserialize_value
    holder.append(type(bases[0])(c['name'], tuple(bases), namespace))
    return holder[0]


def told(e):
    return (e.token, e.title, e.message, e.show_field, e.show_value)


def table(errors):
    return dict((k, told(e)) for k, e in errors.items())


def order(classes, i):
    """The classes behind class i, nearest first."""
    bases = classes[i]['bases']
    out = [i]
    for b in bases:
        if b >= 0:
            out.extend(x for x in order(classes, b) if x not in out)
    return out


class Refusal(Exception):
    def __init__(self, kind, token):
        self.kind, self.token = kind, token


def predict(case, i, value, phase, serialized, nonnull):
    """The result, or a Refusal."""
    classes, spec = case['classes'], case['spec']
    if value is None:
        if nonnull:
            raise Refusal(ValidationError, 'nonnull')
        return None
    chain = order(classes, i)
    if serialized and phase == INBOUND:
        for j in chain:
            if 'wrap' in classes[j]['hooks']:
                if not isinstance(value, dict) or list(value) != ['wrapped']:
                    raise Refusal(InvalidTypeError, 'invalid')
                value = value['wrapped']
        if value is None:
            # unwrapped to nothing, which types refuse and untyped fields keep
            if case['base'] != 'field':
                raise Refusal(InvalidTypeError, 'invalid')
    try:
        if value is not None:
            value = model.process(spec, value, phase, serialized and phase == INBOUND)
    except model.Rejected as r:
        raise Refusal(InvalidTypeError if r.kind == 'type' else ValidationError, r.token)
    for j in reversed(chain):
        hooks = classes[j]['hooks']
        if 'refuse' in hooks and refuses(value):
            raise Refusal(InvalidTypeError if classes[j]['type error'] else ValidationError, classes[j]['token'])
        if 'change' in hooks and changed(value) is not None:
            value = changed(value)
    if serialized and phase == OUTBOUND:
        value = model.WRITE[case['base']](spec, value) if case['base'] == 'date' else value
        for j in reversed(chain):
            if 'wrap' in classes[j]['hooks']:
                value = {'wrapped': value}
    return value


def check(case):
    kept_types, kept_formats = dict(Field.types), dict(Format.formats)
    try:
        return family(case)
    finally:
        for registry, kept in ((Field.types, kept_types), (Format.formats, kept_formats)):
            registry.clear()
            registry.update(kept)


def family(case):
    classes = case['classes']
    made, errors, parameters, names = [], [], [], {}
    base = BASES[case['base']]
    builtin = dict((n, (c, table(c.errors), dict(c.parameters))) for n, c in Field.types.items())
    labels = set()
    for i, c in enumerate(classes):
        bases = [made[b] if b >= 0 else base for b in c['bases']]
        made.append(declare(c, bases))
        names[c['name'].lower()] = i
        merged, params = {}, {}
        for b in reversed(c['bases']):
            merged.update(errors[b] if b >= 0 else table(base.errors))
            params.update(parameters[b] if b >= 0 else base.parameters)
        for e in c['errors'] or ():
            merged[e[0]] = tuple(e)
        params.update(c['parameters'] or {})
        errors.append(merged)
        parameters.append(params)
        labels.add('two bases' if len(bases) > 1 else 'derived' if c['bases'][0] >= 0 else 'from a built in type')
        # everything declared so far is as it was declared
        for n, (cls, e, p) in builtin.items():
            require(Field.types.get(n) is cls and table(cls.errors) == e and cls.parameters == p, 'declaring %s changed %s', c['name'], n)
        for j in range(i + 1):
            require_same(errors[j], table(made[j].errors), 'errors of %s after declaring %s' % (classes[j]['name'], c['name']))
            require_same(parameters[j], dict(made[j].parameters), 'parameters of %s after declaring %s' % (classes[j]['name'], c['name']))
            require(made[j].type == classes[j]['name'].lower(), '%s has the type %r', classes[j]['name'], made[j].type)
        for n, j in names.items():
            require(Field.types.get(n) is made[j], '%s is not registered', n)
    for use in case['uses']:
        labels.update(used(case, use, made, errors, names))
    if not labels & {'derived', 'two bases', 'custom error'}:
        labels.add('trivial')
    return sorted(labels)


def used(case, use, made, errors, names):
    labels = set()
    i = use['class']
    c = case['classes'][i]
    own = [FieldError(*e) for e in use['errors']]
    if use['errors as'] == 'dict':
        own = dict((e.token, e) for e in own)
    elif use['errors as'] == 'tuple':
        own = tuple(own)
    params = dict((k, v) for k, v in case['spec'].items() if k != 't')
    field = made[i](name=use['name'], nonnull=use['nonnull'], errors=own, **dict(params, **use['parameters']))
    told_errors = dict(errors[i])
    for e in use['errors']:
        told_errors[e[0]] = tuple(e)

    values, defaults = {}, {}
    for j in reversed(order(case['classes'], i)):
        cj = case['classes'][j]
        defaults.update(cj['parameters'] or {})
        if cj['constructor'] and cj['parameters']:
            values.update(cj['parameters'])
            labels.add('constructor')
    owned = set(values)
    values.update(use['parameters'])
    description, verbose = field.describe(), field.describe(verbose=True)
    require(description['fieldtype'] == c['name'].lower(), 'described as %r', description['fieldtype'])
    for p in PARAMETERS:
        value = values.get(p)
        require_same(value, getattr(field, p), 'the parameter %s' % p)
        require((p in verbose) == (value is not None), 'the verbose description %s %s', 'has' if p in verbose else 'does not have', p)
        default = p in owned and p in defaults and same(value, defaults[p])
        if not default:
            require((p in description) == (value is not None), 'the description %s %s', 'has' if p in description else 'does not have', p)
        elif p not in use['parameters']:
            require(p not in description, 'the description has %s, which has its default', p)
        for told in (description, verbose):
            if p in told:
                require_same(value, told[p], 'described %s' % p)
    copies = [('field', field), ('clone', field.clone())]
    if names[c['name'].lower()] == i:
        rebuilt = Field.reconstruct(json.loads(json.dumps(description)))
        require(type(rebuilt) is made[i], 'rebuilt as %r', type(rebuilt))
        require_same(description, rebuilt.describe(), 'description of the rebuilt field')
        by_name = Field.reconstruct(c['name'].lower(), **dict(params, **use['parameters']))
        require(type(by_name) is made[i] and all(getattr(by_name, p) == v for p, v in use['parameters'].items()),
            'constructed by name as %r', by_name)
        copies.append(('rebuilt field', rebuilt))
        copies.append(('field constructed by name', by_name))
        labels.add('rebuilt')
    require(type(copies[1][1]) is made[i], 'cloned as %r', type(copies[1][1]))
    for what, f in copies:
        expect = told_errors if what in ('field', 'clone') else errors[i]
        require_same(expect, table(f.errors), 'errors of the ' + what)
        labels.update(processed(case, use, f, what, expect, use['nonnull'] and what != 'field constructed by name'))
    require_same(errors[i], table(made[i].errors), 'errors of the type of an instance with errors of its own')
    return labels


def processed(case, use, field, what, told_errors, nonnull):
    labels = set()
    phase, serialized, inside = use['phase'], use['serialized'], use['inside']
    values = [codec.loads(codec.dumps(v)) for v in use['values']]
    if serialized and phase == INBOUND and inside != 'none':
        values = [{'wrapped': v} if k % 2 else {'wrapped': {'wrapped': v}} for k, v in enumerate(values)] + values
    if serialized and phase == INBOUND and inside == 'none':
        values = values[:1] + [{'wrapped': v} for v in values]
    expect = []
    for v in values:
        try:
            expect.append(('ok', predict(case, use['class'], v, phase, serialized, nonnull)))
        except Refusal as r:
            expect.append(('error', r))
    if inside == 'none':
        for v, (kind, want) in zip(values, expect):
            got = oracle.run(field.process, v, phase, serialized)
            label = 'the %s processing %r (%s, %s)' % (what, v, phase, serialized)
            require(got[0] == kind, '%s gave %r, expected %r', label, got, want)
            if kind == 'ok':
                require_same(want, got[1], label)
            else:
                labels.update(refused(want, got[1], field, told_errors, field.guaranteed_name, v, label))
        return labels
    name = field.name or 'unknown-field'
    if inside == 'sequence':
        outer, value, keys = Sequence(field), values, ['[%d]' % k for k in range(len(values))]
    elif inside == 'tuple':
        outer, value, keys = Tuple([field] * len(values)), tuple(values), ['[%d]' % k for k in range(len(values))]
    elif inside == 'map':
        outer, value = Map(field), dict(('k%d' % k, v) for k, v in enumerate(values))
        keys = ['[k%d]' % k for k in range(len(values))]
    else:
        outer = Structure(dict(('k%d' % k, field.clone(name=None)) for k in range(len(values))))
        value = dict(('k%d' % k, v) for k, v in enumerate(values))
        keys = ['.k%d' % k for k in range(len(values))]
    got = oracle.run(outer.process, value, phase, serialized)
    label = '%s inside a %s processing %r (%s, %s)' % (what, inside, value, phase, serialized)
    names = list(value) if isinstance(value, dict) else range(len(values))
    if all(kind == 'ok' for kind, _ in expect):
        require(got[0] == 'ok', '%s was refused: %r', label, got[1])
        result = [w for _, w in expect]
        result = dict(zip(names, result)) if isinstance(value, dict) else tuple(result) if inside == 'tuple' else result
        require_same(result, got[1], label)
        return labels | {'inside'}
    require(got[0] == 'error', '%s gave %r', label, got[1])
    structure = got[1].structure
    for k, key, (kind, want) in zip(names, keys, expect):
        if isinstance(structure, dict):
            found = structure.get(k)
        else:
            found = structure[k]
        if kind == 'ok':
            require(not isinstance(found, StructuralError), '%s refused the item at %s: %r', label, key, found)
        else:
            require(isinstance(found, StructuralError), '%s: the item at %s gave %r', label, key, found)
            f = outer.structure[k] if inside == 'structure' else field
            labels.update(refused(want, found, f, told_errors, outer.guaranteed_name + key, values[keys.index(key)], label))
    return labels | {'inside'}


def refused(want, got, field, told_errors, path, value, label):
    require(type(got) is want.kind, '%s raised %s, expected %s', label, type(got).__name__, want.kind.__name__)
    token, title, message, show_field, show_value = told_errors[want.token]
    require(len(got.errors) == 1 and got.errors[0]['token'] == token, '%s refused with %r, expected %s', label, got.errors, token)
    require(got.errors[0]['title'] == title, '%s has the title %r, expected %r', label, got.errors[0]['title'], title)
    require(oracle.identity_of(got) == path, '%s is at %s, expected %s', label, oracle.identity_of(got), path)
    labels = set()
    if token in ('refused', 'odd') or '%(field)s is bad' in message or 'plainly bad' in message:
        text = message % {'field': field.name or 'unknown-field'}
        require(got.errors[0]['message'] == text, '%s says %r, expected %r', label, got.errors[0]['message'], text)
        labels.add('custom error')
    printed = str(got)
    require('%s error at %s: %s' % (title.capitalize(), path, got.errors[0]['message']) in printed, '%s is printed as %r', label, printed)
    require(('Field: ' in printed) == bool(show_field), '%s is printed as %r', label, printed)
    require(('Value: ' in printed) == bool(show_value and got.value is not None), '%s is printed as %r', label, printed)
    require_same(([{'token': token, 'title': title, 'message': got.errors[0]['message']}], None), got.serialize(), label + ': serialized')
    return labels


# --- formats -----------------------------------------------------------------------

EXTENSIONS = ('.vf1', '.vf2', 'vf3', '.Vf4', '.json', '.vf5')


def gen_formats(d):
    formats = []
    for i in range(d.int(1, 4)):
        formats.append({'name': d.choice(('vfa', 'vfb', 'vfc', None, 'json')), 'mimetype': d.choice((None, 'text/vfa', 'text/vfb', 'application/json')),
            'extensions': d.choice((None, 'list')) and d.subset(EXTENSIONS, 0.4), 'base': d.int(-1, i - 1), 'mark': 'm%d:' % i})
    files = d.shuffled(('a.vf1', 'A.VF1', 'b.vf2', 'c.vf3', 'd.vf4', 'e.json', 'plain'))[:2]
    ops = [{'op': d.choice(('write', 'write', 'read', 'read', 'serialize')), 'format': d.draw(len(formats)), 'how': d.choice(('name', 'mimetype', 'class', 'extension', 'dotted')),
        'value': d.choice(('x', 'some text', '', u'\xe9')), 'file': d.choice(files),
        'param': d.choice((None, None, '<'))} for _ in range(d.int(2, 8))]
    return {'formats': formats, 'ops': ops}


def make_format(f, base):
    mark = f['mark']

    def serialize(cls, value, schema=None, before=''):
        require(schema is None or isinstance(schema, Field), 'serialized with the schema %r', schema)
        return mark + before + value

    def unserialize(cls, value, schema=None, before=''):
        require(schema is None or isinstance(schema, Field), 'unserialized with the schema %r', schema)
        if not value.startswith(mark + before):
            raise ValueError(value)
        return value[len(mark + before):]
    return type(base)('VfFormat', (base,), {'name': f['name'], 'mimetype': f['mimetype'], 'extensions': f['extensions'],
        'serialize': classmethod(serialize), 'unserialize': classmethod(unserialize)})


def check_formats(case):
    kept = dict(Format.formats)
    folder = tempfile.mkdtemp(prefix='vf-c33-')
    try:
        return formats(case, folder)
    finally:
        Format.formats.clear()
        Format.formats.update(kept)
        shutil.rmtree(folder)


def formats(case, folder):
    made, registry, labels = [], dict(Format.formats), set()
    for f in case['formats']:
        cls = make_format(f, made[f['base']] if f['base'] >= 0 else Format)
        made.append(cls)
        if f['name']:
            registry.update((e, cls) for e in f['extensions'] or () if e.startswith('.'))
            registry[f['name']] = cls
            if f['mimetype']:
                registry[f['mimetype']] = cls
            registry[cls] = cls
        require(set(Format.formats) == set(registry) and all(Format.formats[k] is registry[k] for k in registry),
            'declaring %r leaves the formats %r', f, sorted(map(str, Format.formats)))
    marks = dict((cls, f['mark']) for cls, f in zip(made, case['formats']))
    schema = Text(nonempty=False)
    files = {}
    for step in case['ops']:
        f, cls = case['formats'][min(step['format'], len(made) - 1)], made[min(step['format'], len(made) - 1)]
        how = step['how']
        given = {'name': f['name'], 'mimetype': f['mimetype'], 'class': cls, 'dotted': (f['extensions'] or [None])[0]}.get(how)
        if how != 'extension' and given is None:
            continue
        path = os.path.join(folder, step['file'])
        extension = os.path.splitext(path)[1].lower()
        target = registry.get(extension if how == 'extension' else given)
        params = {'before': step['param']} if step['param'] and target in marks else {}
        if target is None:
            for run in (lambda: Format.write(path, step['value'], given), lambda: schema.write(path, step['value'], given)):
                try:
                    fail('writing as %r gave %r', given or extension, run())
                except ValueError:
                    pass
            require(os.path.exists(path) == (step['file'] in files), 'a file was written as %r', given or extension)
            labels.add('unknown')
            continue
        if step['op'] == 'serialize':
            if how == 'extension':
                continue
            text = marks[target] + (step['param'] or '') + step['value'] if target in marks else json.dumps(step['value'])
            if target in marks or target is Json:
                require_same(text, schema.serialize(step['value'], given, **params) if step['value'] else text, 'serialized as %r' % (given,))
                require_same(text, Format.serialize(step['value'], given, schema, **params), 'serialized as %r' % (given,))
                require_same(step['value'], Format.unserialize(text, given, schema, **params), 'unserialized as %r' % (given,))
                require_same(step['value'], schema.unserialize(text, given, **params), 'unserialized as %r' % (given,))
                labels.add('serialized')
        elif step['op'] == 'write':
            Format.write(path, step['value'], given, schema, **params)
            files[step['file']] = (target, step['value'], step['param'] if params else None)
            labels.add('written')
        elif step['file'] in files:
            target, value, param = files[step['file']]
            params = {'before': param} if param else {}
            if target in marks:
                with open(path, 'rb') as handle:
                    require_same(marks[target] + (param or '') + value, handle.read().decode('utf-8'), 'content written as %r' % target.name)
            require_same(value, Format.read(path, target, schema, **params), 'read as %r' % target.name)
            require_same(value, schema.read(path, target, **params), 'read as %r' % target.name)
            if registry.get(extension) is target:
                require_same(value, schema.read(path, **params), 'read by extension')
                labels.add('by extension')
            labels.add('read')
    if not labels & {'read', 'written', 'serialized'}:
        labels.add('trivial')
    return sorted(labels)


SECTIONS = [Section('fields', gen, check, 8000), Section('formats', gen_formats, check_formats, 8000)]
