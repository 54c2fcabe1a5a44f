"""C21: CSV content round-trips rows of scalar columns."""
import random

from scheme import Binary, Csv, Sequence, Structure

from vf import gens, model, oracle
from vf.build import build
from vf.engine import Discard
from vf.model import IN
from vf.oracle import require, require_same
from vf.prop import Finding, Section
from vf.props.formats import arrives, forms, independent, uncertain

RULE = ('Random rows of a random structure (scalar columns of any type but binary, structural columns, awkward names, records with '
    'keys missing, null, empty, zero or false, text with quotes, commas and line breaks), possibly inside a larger structure '
    'reached by a path, are serialized to CSV with and without requested columns. The text is parsed by an independent reader and '
    'compared with the cells the model expects; unserializing it, and the same cells written by an independent writer (minimal '
    'quotes, other line ends), is compared with the model. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: there is at least one row.')
ASSUMPTIONS = ('Opaque fields hold text and enumerations are of text; text has no NUL, which the csv module refuses.',
    'The structure is not polymorphic and has at least one scalar column among those written.',
    'Known finding: binary content serializes to bytes.')

OPTS = gens.Opts(depth=2, scalars=tuple(t for t in gens.SCALARS if t != 'binary'), text='csv', field_values='text', poly=False,
    names=gens.NAMES + ('a,b', 'a"b', 'a\nb', '\'', ' x', 'true'), width=6, key_order=False)
OPTS.enum_text = True


def cell(value):
    if value is None:
        return ''
    if value is True or value is False:
        return 'true' if value else 'false'
    if isinstance(value, str):
        return value
    if isinstance(value, (int, float)):
        return repr(value)
    raise Discard()


def parse(text):
    """Rows of cells, by the usual grammar."""
    rows, row, i = [], [], 0
    if not text:
        return rows
    while True:
        if i < len(text) and text[i] == '"':
            i += 1
            out = []
            while True:
                require(i < len(text), 'unterminated quotes in %r', text)
                if text[i] == '"':
                    if text[i + 1:i + 2] == '"':
                        out.append('"')
                        i += 2
                        continue
                    i += 1
                    break
                out.append(text[i])
                i += 1
            row.append(''.join(out))
        else:
            j = i
            while j < len(text) and text[j] not in ',\r\n':
                j += 1
            row.append(text[i:j])
            i = j
        if i >= len(text):
            rows.append(row)
            return rows
        if text[i] == ',':
            i += 1
            continue
        require(text[i] in '\r\n', 'junk after quotes in %r', text)
        rows.append(row)
        row = []
        i += 2 if text[i:i + 2] == '\r\n' else 1
        if i >= len(text):
            return rows


def write(rows, rng):
    end = rng.choice(('\r\n', '\n', '\r\n'))
    lines = []
    for row in rows:
        cells = []
        for c in row:
            needs = any(x in c for x in '",\r\n') or not c and len(row) == 1
            if needs or rng.randrange(3) == 0:
                c = '"%s"' % c.replace('"', '""')
            cells.append(c)
        lines.append(','.join(cells))
    return end.join(lines) + rng.choice(('', end, end + end))


def gen(d):
    names = d.shuffled(OPTS.names)[:d.int(1, 6)]
    structure = {}
    for n in names:
        if d.bool(0.15):
            structure[n] = gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 1)
        else:
            structure[n] = gens.scalar_spec(d, d.choice(OPTS.scalars), OPTS)
        if d.bool(0.5):
            structure[n].pop('required', None)
    row = {'t': 'structure', 'structure': structure}
    if d.bool(0.3):
        row['strict'] = False
    spec = {'t': 'sequence', 'item': row}
    value = gens.valid(d, spec, OPTS)
    if any(r is None for r in value):
        raise Discard()
    value = [dict((k, v) for k, v in r.items() if not d.bool(0.1) or model.required(structure.get(k, {'t': 'text'})))
        if d.bool(0.4) else r for r in value]
    case = {'spec': spec, 'value': value, 'style': d.draw(1 << 20)}
    if d.bool(0.4):
        wanted = d.shuffled(sorted(structure))[:d.int(1, len(names))]
        if d.bool(0.4) and not any(',' in n for n in wanted) and wanted != ['']:
            wanted = ','.join(wanted)
        case['columns'] = wanted
    if d.bool(0.25):
        case['path'] = [d.choice(('a', 'b', 'rows', 'x y')) for _ in range(d.int(1, 3))]
    return case


def gen_large(d):
    n = d.choice((1, 8, 10, 12, 33, 100, 130))
    few = [gens.scalar_spec(d, d.choice(OPTS.scalars), OPTS) for _ in range(d.int(1, 4))]
    for s in few:
        s.pop('required', None)
    structure = dict(('k%d' % i, few[i % len(few)]) for i in range(n))
    pools = [[gens.valid(d, s, OPTS) for _ in range(3)] for s in few]
    if d.bool(0.3):
        few.append({'t': 'text'})
        structure['text'] = few[-1]
        pools.append([gens.any_text(d, 1, 12, 'csv').strip().replace('\0', '') * d.choice((20, 100, 200)) for _ in range(3)])
    rows = []
    for j in range(max(1, d.choice((1, 10, 20) if 'text' in structure else (1, 10, 200, 1001)) // n)):
        row = dict((k, pools[few.index(s)][(j + i // len(few)) % 3]) for i, (k, s) in enumerate(structure.items()))
        for k in list(row)[j % 7::d.choice((3, 5, 11))]:
            del row[k]
        rows.append(row)
    case = {'spec': {'t': 'sequence', 'item': {'t': 'structure', 'structure': structure}}, 'value': rows, 'style': d.draw(1 << 20)}
    if d.bool(0.3):
        case['columns'] = sorted(structure, reverse=True)[::d.int(1, 3)]
    return case


def check(case):
    spec, value = case['spec'], case['value']
    structure = spec['item']['structure']
    processed, serialized = forms(spec, value)
    if any(r is None for r in serialized):
        raise Discard()
    columns = case.get('columns') or sorted(structure)
    if isinstance(columns, str):
        columns = columns.split(',')
    columns = [c for c in columns if structure[c]['t'] in gens.SCALARS]
    if not columns:
        raise Discard()
    cells = [[cell(r.get(c)) for c in columns] for r in serialized]
    if any('\0' in c for row in cells for c in row):
        raise Discard()
    params = {}
    if 'columns' in case:
        params['columns'] = case['columns']
    field = build(spec)
    labels = ['%d columns' % min(len(columns), 4)]
    if 'path' in case:
        outer, inner = {'t': 'structure', 'structure': {case['path'][-1]: spec, 'other': {'t': 'integer'}}}, {case['path'][-1]: value}
        if case['style'] % 2:
            inner['other'] = 5
        for name in reversed(case['path'][:-1]):
            outer, inner = {'t': 'structure', 'structure': {name: outer, 'more': {'t': 'sequence', 'item': {'t': 'text'}}}}, {name: inner}
        text = build(outer).serialize(inner, 'csv', path='.'.join(case['path']), **params)
        labels.append('path')
    else:
        text = field.serialize(value, 'csv', **params)
        require_same(text, field.serialize(value, Csv, **params), 'serialization by format class')
    require(type(text) is str, 'serialization is %r', text)
    require_same([columns] + cells, parse(text), 'cells of %r' % text)
    delivered = []
    for r in serialized:
        got = {}
        for c in columns:
            v = r.get(c)
            if v is not None and v != '':
                got[c] = v
        delivered.append(got)
    if uncertain(spec, delivered):
        raise Discard()
    what = 'unserialization of %r' % text
    labels += arrives(spec, field, text, 'csv', delivered, processed, what)
    independent(lambda: Csv.unserialize(text, field), delivered, 'records of %r' % text)
    other = write([columns] + cells, random.Random(case['style']))
    require_same(delivered, Csv.unserialize(other, field), 'records of %r' % other)
    if not value:
        labels.append('trivial')
    if 'columns' in case:
        labels.append('columns requested')
    return labels


def binary():
    schema = Sequence(Structure({'a': Binary()}))
    try:
        return schema.unserialize(schema.serialize([{'a': b'ab'}], 'csv'), 'csv') != [{'a': b'ab'}]
    except Exception:
        return True


FINDINGS = [Finding('binary', 'binary values do not survive CSV: their serialized form is bytes', binary)]

SECTIONS = [Section('rows', gen, check, 19000), Section('large', gen_large, check, 800)]
