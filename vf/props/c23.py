"""C23: files written through a schema read back, in the format asked for."""
import os
import shutil
import tempfile

from scheme import Csv, Format, Json, Sequence, StructuredText, Structure, Text, UrlEncoded, Xml, Yaml

from vf import gens, model, oracle
from vf.build import build
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import fail, require, require_same
from vf.prop import Finding, Section
from vf.props import c19, c20, c21, c22
from vf.props.formats import Unrepresentable, text_keys, uncertain

RULE = ('In a scratch directory, a random history of writes and reads through one of two random schemas (rows or records), through '
    'Format and through format classes, picks the format by name, mimetype, class or extension in any letter case, with format '
    'parameters, over several files, with missing files, unknown formats and extensions, invalid and unsuitable values. After '
    'every step the content of every file is compared with what serializing gives, and every value read with a model of the '
    'format. In a second section the formats are given schemas and values they cannot carry, and must refuse. Non-trivial: something is written and read back.')
ASSUMPTIONS = ('Known finding: files are opened in text mode, so carriage returns do not survive CSV and structured text files; text '
    'has none.',)

OPTS = gens.Opts(depth=1, scalars=tuple(t for t in gens.SCALARS if t != 'binary'), text='plain', field_values='text', poly=False,
    names=gens.XML_NAMES, key_order=False, structural=('structure', 'sequence', 'map', 'tuple'), map_keys=('text', 'token'))
OPTS.enum_text = True

FORMATS = {'json': Json, 'yaml': Yaml, 'xml': Xml, 'csv': Csv, 'structuredtext': StructuredText, 'urlencoded': UrlEncoded}
MIMETYPES = {'json': 'application/json', 'yaml': 'application/x-yaml', 'xml': 'application/xml', 'csv': 'application/csv',
    'structuredtext': 'text/plain', 'urlencoded': 'application/x-www-form-urlencoded'}
NAMES = ('a.json', 'B.JSON', 'b.yaml', 'c.yml', 'C.YML', 'd.Yaml', 'e.xml', 'E.Xml', 'f.csv', 'F.CSV', 'plain', 'g.txt', 'json',
    'h.json.bak', '.json', 'dir.json/plain', 'dir.json/i.tar.yml')
EXTENSIONS = {'.json': 'json', '.yaml': 'yaml', '.yml': 'yaml', '.xml': 'xml', '.csv': 'csv'}


def by_extension(name):
    base = name.rsplit('/', 1)[-1]
    if '.' not in base[1:]:
        return None
    return EXTENSIONS.get('.' + base.rsplit('.', 1)[1].lower())


HOW = ('name', 'mimetype', 'class', 'dotted')
DOTTED = {'json': '.json', 'yaml': '.yml', 'xml': '.xml', 'csv': '.csv'}


def spelling(format, how):
    if how == 'mimetype':
        return MIMETYPES[format]
    if how == 'class':
        return FORMATS[format]
    if how == 'dotted':
        return DOTTED.get(format, format)
    return format


def gen(d):
    schemas = []
    for kind in ('rows', 'record'):
        structure = dict((n, gens.scalar_spec(d, d.choice(OPTS.scalars), OPTS)) for n in d.shuffled(gens.XML_NAMES)[:d.int(1, 4)])
        spec = {'t': 'structure', 'structure': structure}
        if kind == 'rows':
            spec = {'t': 'sequence', 'item': spec}
        elif d.bool(0.4):
            structure['nested'] = gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 1)
        if d.bool(0.4):
            spec['name'] = d.choice(gens.XML_NAMES)
        schemas.append(spec)
    names = [d.choice(NAMES) for _ in range(d.int(1, 3))]
    ops = []
    for _ in range(d.int(2, 10)):
        op = d.weighted((5, 'write'), (5, 'read'), (1, 'write invalid'), (1, 'unknown'), (2, 'native'), (1, 'missing'))
        step = {'op': op, 'name': d.choice(names)}
        if op in ('write', 'native'):
            step['schema'] = d.draw(1)
            step['value'] = gens.valid(d, schemas[step['schema']], OPTS)
        if op in ('write invalid', 'unknown'):
            step['schema'] = d.draw(1)
            step['value'] = d.choice((5, 'text', {'zz': 1}, [5], True, [{'zz': 1}]))
        step['format'] = d.choice(('json', 'yaml', 'xml', 'csv', 'structuredtext', 'urlencoded'))
        step['how'] = d.choice(HOW)
        step['extension'] = d.bool(0.5)
        step['quiet'] = d.bool(0.3)
        step['by class'] = d.bool(0.3)
        step['param'] = d.bool(0.3)
        ops.append(step)
        if op in ('write', 'native') and d.bool(0.08):
            step['times'] = d.choice((50, 1000, 20000))
    return {'schemas': schemas, 'ops': ops}


def carried(spec, serialized, format):
    """What the format delivers for a serialized value."""
    if format == 'json':
        return text_keys(serialized)
    if format == 'yaml':
        return c19.carried(serialized)
    if format == 'xml':
        c20.tree(spec, serialized, 'root')
        return c20.tuples(spec, serialized)
    if format == 'csv':
        if spec['t'] != 'sequence':
            raise Refused()
        for r in serialized:
            if r is None:
                raise Unrepresentable()
        return [dict((k, v) for k, v in r.items() if v is not None and v != '') for r in serialized]
    if format == 'urlencoded':
        if not isinstance(serialized, dict):
            raise Refused()
        return dict((k, c22.deliver(v, False)) for k, v in serialized.items())
    return c22.deliver(serialized, False)


def enlarged(value, times):
    """Longer texts and more rows, beyond the buffers of files."""
    if isinstance(value, list):
        return value * max(2, times // 20)
    if isinstance(value, dict):
        return dict((k, v * times if type(v) is str else v) for k, v in value.items())
    return value


class Refused(Exception):
    """The format does not take such values."""


def content_of(path):
    if not os.path.isfile(path):
        return None
    with open(path, 'rb') as handle:
        return handle.read().decode('utf-8')


def expect_error(run, what, *kinds):
    try:
        got = run()
    except kinds:
        return
    fail('%s returned %r', what, got)


def check(case):
    folder = tempfile.mkdtemp(prefix='vf-c23-')
    try:
        os.mkdir(os.path.join(folder, 'dir.json'))
        return history(case, folder)
    finally:
        shutil.rmtree(folder)


def history(case, folder):
    fields = [build(s) for s in case['schemas']]
    files = {}      # name -> (content, format, schema index or None, what reading delivers)
    labels = set()
    for n, step in enumerate(case['ops']):
        op, name = step['op'], step['name']
        path = os.path.join(folder, name)
        what = 'step %d, %s of %s' % (n, op, name)
        natural = by_extension(name)
        if op in ('write', 'native'):
            index = step['schema']
            spec, field, value = case['schemas'][index], fields[index], step['value']
            if 'times' in step:
                value = enlarged(value, step['times'])
            if step['extension'] and natural:
                format, given = natural, None
                labels.add('by extension')
            else:
                format, given = step['format'], spelling(step['format'], step['how'])
            try:
                model.process(spec, value, IN, False)
                serialized = model.process(spec, value, OUT, True)
            except model.Rejected:
                continue
            params = {}
            if format == 'xml' and step['param']:
                params['preamble'] = False
            try:
                delivered = carried(spec, serialized, format)
            except Unrepresentable:
                continue
            except Refused:
                expect_error(lambda: field.write(path, value, given), what, ValueError, TypeError)
                labels.add('unsuitable')
            else:
                if op == 'write':
                    require_same(None, field.write(path, value, given, **params), what)
                elif step['by class']:
                    FORMATS[format].write(path, serialized, schema=field, **params)
                    labels.add('by class')
                else:
                    Format.write(path, serialized, given, field, **params)
                text = field.serialize(value, format, **params)
                require_same(text, content_of(path), 'content of the file after ' + what)
                files[name] = (text, format, index, delivered)
                labels.add('written')
        elif op == 'write invalid':
            field = fields[step['schema']]
            try:
                model.process(case['schemas'][step['schema']], step['value'], OUT, True)
            except model.Rejected:
                pass
            else:
                continue
            got = oracle.run(field.write, path, step['value'], spelling(step['format'], step['how']))
            require(got[0] != 'ok', '%s accepted %r', what, step['value'])
            labels.add('invalid')
        elif op == 'unknown':
            if step['extension'] and natural is None:
                expect_error(lambda: Format.write(path, {'a': 'b'}), what + ' with an unknown extension', ValueError)
                if name in files:
                    expect_error(lambda: Format.read(path), what + ' with an unknown extension', ValueError)
                    expect_error(lambda: fields[0].read(path), what + ' with an unknown extension', ValueError)
            else:
                expect_error(lambda: Format.write(path, {'a': 'b'}, 'nonesuch'), what + ' with an unknown format', ValueError)
                if name in files:
                    expect_error(lambda: Format.read(path, 'nonesuch'), what + ' with an unknown format', ValueError)
            labels.add('unknown')
        elif name not in files or op == 'missing':
            if name in files:
                path += '.missing'
            given = spelling(step['format'], step['how']) if not step['extension'] else None
            if step['quiet']:
                got = Format.read(path, given, quiet=True)
                require(got is False, '%s, quietly, returned %r', what, got)
                require(Json.read(path, quiet=True) is False, '%s, quietly, by class', what)
            else:
                expect_error(lambda: Format.read(path, given), what, ValueError)
                expect_error(lambda: fields[0].read(path, given), what, ValueError)
                expect_error(lambda: Json.read(path), what, ValueError)
            labels.add('missing')
        else:
            text, format, index, delivered = files[name]
            spec, field = case['schemas'][index], fields[index]
            if uncertain(spec, delivered):
                continue
            if step['extension'] and natural == format:
                given = None
                labels.add('by extension')
            else:
                given = spelling(format, step['how'])
                labels.add('by %s' % step['how'])
            quiet = {'quiet': True} if step['quiet'] else {}
            got = oracle.run(field.read, path, given, **quiet)
            oracle.agree(spec, delivered, IN, True, got)
            if step['by class']:
                require_same(delivered, FORMATS[format].read(path, schema=field, **quiet), what + ' by class')
            else:
                require_same(delivered, Format.read(path, given, field, **quiet), what)
            labels.add('read')
        for other, entry in files.items():
            require_same(entry[0], content_of(os.path.join(folder, other)), 'content of %s after %s' % (other, what))
        for _, _, left in os.walk(folder):
            require(all(any(f == x.rsplit('/', 1)[-1] for x in files) for f in left), 'unexpected files %r after %s', left, what)
    if 'read' not in labels:
        labels.add('trivial')
    return sorted(labels)


def carriage_return():
    folder = tempfile.mkdtemp(prefix='vf-c23-')
    try:
        path = os.path.join(folder, 'a.csv')
        schema = Sequence(Structure({'a': Text()}))
        schema.write(path, [{'a': 'x\ry'}])
        return schema.read(path) != [{'a': 'x\ry'}]
    finally:
        shutil.rmtree(folder)


FINDINGS = [Finding('carriage-returns', 'carriage returns in text read back from CSV and structured text files as line feeds',
    carriage_return)]

# --- what formats cannot carry ----------------------------------------------------------------

CONTENT = gens.Opts(depth=2, scalars=('integer', 'text', 'boolean'), text='plain', names=gens.XML_NAMES, poly=False, pre=False, constants=False,
    defaults=False, nulls=False, key_order=False, patterns=False)


def gen_refusal(d):
    case = {'kind': d.choice(('csv schema', 'csv value', 'csv path', 'csv column', 'csv read schema', 'text', 'form', 'form text', 'xml schema',
        'xml union', 'no format', 'known'))}
    kind = case['kind']
    if kind in ('csv schema', 'csv read schema'):
        spec = gens.a_spec(d, CONTENT)
        if spec['t'] == 'sequence' and spec['item']['t'] == 'structure':
            raise Discard()
        case['spec'] = spec
        case['none'] = d.bool(0.1)
        case['value'] = d.choice(([], [{'a': 1}], [{}]))
    elif kind in ('csv value', 'csv path', 'csv column', 'known'):
        fields = dict((k, gens.a_spec(d, CONTENT)) for k in d.subset(gens.XML_NAMES[:6], 0.5))
        fields['a'] = {'t': 'integer'}
        fields['nested'] = {'t': 'sequence', 'item': {'t': 'integer'}}
        case['fields'] = fields
        case['value'] = d.choice(('text', {'a': 1}, 5, None, {}, set)) if kind == 'csv value' else [{'a': 5}]
        if case['value'] is set:
            case['value'] = {'~set': 1}
        case['path'] = d.choice(('b', 'a.b', 'x', 'a.x', 'x.a', '.', 'nested.a.b'))
        case['column'] = d.choice(('nested', 'unknown', '', 'A', ' a'))
        case['text'] = d.choice(('1', '', 'true'))
    elif kind in ('form', 'form text', 'text'):
        case['value'] = d.choice((5, None, [], ['a'], True, 1.5, 'a=b' if kind == 'form' else {'a': 1}, () if kind == 'form' else {}))
    elif kind == 'xml union':
        case['spec'] = {'t': 'union', 'fields': [gens.a_spec(d, CONTENT, 0), {'t': 'text'}]}
        case['inside'] = d.choice((None, 'sequence', 'map', 'structure'))
        case['value'] = 'x'
    elif kind == 'xml schema':
        case['value'] = d.choice((1, 'x', {'a': 1}))
        case['schema'] = d.choice((None, 'structure', 5))
    else:
        case['format'] = d.choice(('jsonx', '', None, 'text/html', '.jsn', 'JSON', 5))
    return case


def refused(call, what):
    try:
        result = call()
    except Exception:
        return
    fail('%s gave %r', what, result)


def check_refusal(case):
    kind = case['kind']
    if kind == 'csv schema':
        schema = None if case['none'] else build(case['spec'])
        refused(lambda: Csv.serialize(case['value'], schema), 'CSV of %r with the schema %r' % (case['value'], schema))
    elif kind == 'csv read schema':
        schema = None if case['none'] else build(case['spec'])
        refused(lambda: Csv.unserialize('"a"\r\n"1"\r\n', schema), 'CSV read with the schema %r' % (schema,))
    elif kind in ('csv value', 'csv path', 'csv column', 'known'):
        rows = Sequence(Structure(dict((k, build(s)) for k, s in case['fields'].items())))
        if kind == 'csv value':
            value = set(['x']) if case['value'] == {'~set': 1} else case['value']
            refused(lambda: Csv.serialize(value, rows), 'CSV of %r' % (value,))
        elif kind == 'csv path':
            whole = Structure({'a': Structure({'b': rows, 'c': Text()}), 'd': rows})
            value = {'a': {'b': case['value'], 'c': 'x'}}
            if case['path'] == 'a.b':
                want = Csv.serialize(case['value'], rows)
                require_same(want, Csv.serialize(value, whole, path='a.b'), 'CSV of what is at a.b')
            else:
                refused(lambda: Csv.serialize(value, whole, path=case['path']), 'CSV of what is at %r' % case['path'])
                refused(lambda: Csv.serialize(value, whole, path='d'), 'CSV of what is missing')
        elif kind == 'csv column':
            text = '"a","%s"\r\n"5","%s"\r\n' % (case['column'], case['text'])
            refused(lambda: Csv.unserialize(text, rows), 'reading %r' % text)
        else:
            require_same([{'a': 5}], Csv.unserialize('"a"\r\n"5"\r\n', rows), 'reading one column')
    elif kind == 'text':
        refused(lambda: StructuredText.unserialize(case['value']), 'reading %r as structured text' % (case['value'],))
    elif kind == 'form':
        refused(lambda: UrlEncoded.serialize(case['value']), 'a form of %r' % (case['value'],))
    elif kind == 'form text':
        refused(lambda: UrlEncoded.unserialize(case['value']), 'reading %r as a form' % (case['value'],))
    elif kind == 'xml union':
        spec, value, text = case['spec'], case['value'], '<root>x</root>'
        if case['inside']:
            spec = {'t': case['inside'], 'item' if case['inside'] == 'sequence' else 'value': spec} if case['inside'] != 'structure' else \
                {'t': 'structure', 'structure': {'a': spec}}
            value = ['x'] if case['inside'] == 'sequence' else {'a': 'x'}
            text = '<root><a>x</a></root>'
        schema = build(spec)
        refused(lambda: Xml.serialize(value, schema), 'XML of %r' % (value,))
        refused(lambda: Xml.unserialize(text, schema), 'reading %r' % text)
    elif kind == 'xml schema':
        refused(lambda: Xml.serialize(case['value'], case['schema']), 'XML with the schema %r' % (case['schema'],))
        refused(lambda: Xml.unserialize('<root>1</root>', case['schema']), 'reading XML with the schema %r' % (case['schema'],))
    else:
        f = case['format']
        refused(lambda: Format.serialize({}, f), 'serializing as %r' % (f,))
        refused(lambda: Format.unserialize('{}', f), 'unserializing as %r' % (f,))
        if f:
            refused(lambda: Text().serialize('x', f), 'serializing as %r' % (f,))
            refused(lambda: Text().unserialize('"x"', f), 'unserializing as %r' % (f,))
    return [kind]


SECTIONS = [Section('history', gen, check, 6000), Section('refusals', gen_refusal, check_refusal, 3000)]
