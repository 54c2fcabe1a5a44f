"""C22: structured text and urlencoded forms round-trip."""
import random

from scheme import StructuredText, UrlEncoded

from vf import gens
from vf.build import build
from vf.engine import Discard
from vf.oracle import require, require_same
from vf.prop import Finding, Section
from vf.props.formats import Unrepresentable, arrives, independent, large_case, through

RULE = ('Random nested mappings, lists, booleans, nulls, numbers and texts (with braces, brackets, colons and any unicode) are '
    'written as structured text and as urlencoded pairs, and valid values of random schemas through their schema. The text is read '
    'by an independent reader and by unserialize, with and without number parsing, and compared with what a model of the format '
    'delivers; the same content by an independent writer (key order, case of words, percent encoding of everything) is read too. '
    'Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the value is a container or has a special character.')
ASSUMPTIONS = ('Known finding: commas, backslashes, the words true, false and null, the empty text alone in a list and texts like '
    '||0|| do not survive inside containers, nor do the words outside of them; they are left out.',
    'With number parsing, text which reads as a number becomes one, so it is left out, and floats written with an exponent but '
    'without a point stay text.', 'Keys have no colons, commas, braces, brackets or backslashes.')

OPTS = gens.Opts(depth=3, width=4, scalars=tuple(t for t in gens.SCALARS if t != 'binary'), text='st', key_order=False)
WORDS = ('true', 'false', 'null')


def number(text):
    """The number the text reads as, or None."""
    if '.' in text:
        try:
            return float(text)
        except ValueError:
            pass
    try:
        return int(text)
    except ValueError:
        return None


def deliver(value, parse, nested=False):
    """What reading the written value gives."""
    if isinstance(value, dict):
        out = {}
        for k, v in value.items():
            if not isinstance(k, str) or any(c in k for c in ':,{}[]\\') or token(k):
                raise Unrepresentable()
            out[k] = deliver(v, parse, True)
        return out
    if isinstance(value, (list, tuple)):
        if len(value) == 1 and value[0] == '':
            raise Unrepresentable()
        return [deliver(v, parse, True) for v in value]
    if value is None or value is True or value is False:
        return value
    if isinstance(value, (int, float)):
        text = repr(value)
        if parse:
            found = number(text)
            return text if found is None else found
        return text
    if not isinstance(value, str) or value.lower() in WORDS:
        raise Unrepresentable()
    if nested and (',' in value or '\\' in value or token(value)):
        raise Unrepresentable()
    if parse and number(value) is not None:
        raise Unrepresentable()
    return value


def token(text):
    return text.startswith('||') and text.endswith('||')


def read(text, parse):
    """An independent reader."""
    if text[:1] in ('{', '['):
        value, end = container(text, 0, parse)
        require(end == len(text), 'text after the end in %r', text)
        return value
    return simple(text, parse)


def container(text, i, parse):
    mapping = text[i] == '{'
    close = '}' if mapping else ']'
    result = {} if mapping else []
    i += 1
    if text[i:i + 1] == close:
        return result, i + 1
    while True:
        if mapping:
            j = text.find(':', i)
            require(j >= 0, 'no colon after %d in %r', i, text)
            key, i = text[i:j], j + 1
        if text[i:i + 1] in ('{', '['):
            value, i = container(text, i, parse)
        else:
            j = i
            while j < len(text) and text[j] not in ',}]':
                j += 2 if text[j] == '\\' else 1
            value, i = simple(text[i:j], parse), j
        if mapping:
            require(key not in result, 'key %r twice in %r', key, text)
            result[key] = value
        else:
            result.append(value)
        require(i < len(text) and text[i] in (',', close), 'malformed %r at %d', text, i)
        if text[i] == close:
            return result, i + 1
        i += 1


def simple(text, parse):
    if text.lower() in WORDS:
        return {'true': True, 'false': False, 'null': None}[text.lower()]
    if parse:
        found = number(text)
        if found is not None:
            return found
    out, i = [], 0
    while i < len(text):
        if text[i] == '\\' and text[i + 1:i + 2] in ('{', '}', '[', ']') and i + 1 < len(text):
            i += 1
        out.append(text[i])
        i += 1
    return ''.join(out)


def write(value, rng):
    """Structured text in another style."""
    if isinstance(value, dict):
        items = list(value.items())
        rng.shuffle(items)
        return '{%s}' % ','.join('%s:%s' % (k, write(v, rng)) for k, v in items)
    if isinstance(value, (list, tuple)):
        return '[%s]' % ','.join(write(v, rng) for v in value)
    if value is None or value is True or value is False:
        word = {True: 'true', False: 'false', None: 'null'}[value]
        return rng.choice((word, word.upper(), word.capitalize()))
    if isinstance(value, str):
        return ''.join('\\' + c if c in '{}[]' else c for c in value)
    return repr(value)


def percent(text, rng):
    out = []
    for c in text:
        if c.isascii() and c.isalnum() and rng.randrange(4):
            out.append(c)
        elif c == ' ' and rng.randrange(2):
            out.append('+')
        else:
            out.append(''.join(rng.choice(('%%%02x', '%%%02X')) % b for b in bytearray(c.encode('utf-8'))))
    return ''.join(out)


def unpercent(text):
    out = bytearray()
    i = 0
    while i < len(text):
        if text[i] == '%':
            out.append(int(text[i + 1:i + 3], 16))
            i += 3
        else:
            require(text[i].isascii(), '%r is not ascii', text)
            out.append(32 if text[i] == '+' else ord(text[i]))
            i += 1
    return out.decode('utf-8')


def native(d, depth, root=True):
    mode = d.draw(9 if depth > 0 else 5)
    if mode == 0:
        return d.choice((None, True, False))
    if mode == 1:
        return gens.an_integer(d)
    if mode == 2:
        return gens.a_float(d, True)
    if mode <= 5:
        return gens.any_text(d, 0, 12, 'any' if root and d.bool(0.5) else 'st')
    if mode <= 7:
        return [native(d, depth - 1, False) for _ in range(d.size(0, 4))]
    return dict((a_key(d), native(d, depth - 1, False)) for _ in range(d.size(0, 4)))


def a_key(d):
    return d.choice(gens.NAMES) if d.bool(0.6) else ''.join(c for c in gens.any_text(d, 0, 6, 'st') if c not in ':{}[]')


def gen_text(d):
    return {'value': native(d, d.int(0, 4)), 'style': d.draw(1 << 20)}


def check_text(case):
    value = case['value']
    labels = [type(value).__name__]
    text = StructuredText.serialize(value)
    require(type(text) is str, 'serialization of %r is %r', value, text)
    other = write(value, random.Random(case['style']))
    n = 0
    for parse in (False, True):
        try:
            want = deliver(value, parse)
        except Unrepresentable:
            continue
        n += 1
        what = 'structured text %r of %r, parse_numbers=%r' % (text, value, parse)
        require_same(want, read(text, parse), what + ', by an independent reader')
        independent(lambda: StructuredText.unserialize(text, parse_numbers=parse), want, what)
        require_same(want, StructuredText.unserialize(other, parse_numbers=parse), 'structured text %r, parse_numbers=%r' % (other, parse))
        labels.append('numbers parsed' if parse else 'numbers as text')
    if not n:
        raise Discard()
    if not value or not isinstance(value, (dict, list)) and str(value).isalnum():
        labels.append('trivial')
    return labels


def gen_url(d):
    entries = {}
    for _ in range(d.size(0, 5)):
        entries[gens.any_text(d, 0, 8)] = native(d, d.int(0, 2))
    return {'value': entries, 'style': d.draw(1 << 20)}


def check_url(case):
    value = case['value']
    try:
        want = dict((k, deliver(v, False)) for k, v in value.items())
    except Unrepresentable:
        raise Discard()
    text = UrlEncoded.serialize(value)
    pairs = [tuple(unpercent(part) for part in pair.split('=', 1)) for pair in text.split('&')] if text else []
    require(all(len(p) == 2 for p in pairs) and [p[0] for p in pairs] == list(value), 'the names in %r of %r', text, value)
    require_same(want, dict((k, read(v, False)) for k, v in pairs), 'pairs of %r' % text)
    independent(lambda: UrlEncoded.unserialize(text), want, 'urlencoded %r of %r' % (text, value))
    rng = random.Random(case['style'])
    other = '&'.join('%s=%s' % (percent(k, rng), percent(write(v, rng), rng)) for k, v in value.items())
    require_same(want, UrlEncoded.unserialize(other), 'urlencoded %r' % other)
    labels = ['%d entries' % len(value)]
    if not value:
        labels.append('trivial')
    return labels


def gen_schema(d):
    format = d.choice(('structuredtext', 'urlencoded'))
    if format == 'urlencoded':
        spec = gens.structural_spec(d, d.choice(('structure', 'structure', 'map')), OPTS, 2)
    else:
        spec = gens.a_spec(d, OPTS, 3) if d.bool(0.3) else gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 3)
    case = {'spec': spec, 'value': gens.valid(d, spec, OPTS), 'format': format}
    if format == 'structuredtext' and d.bool(0.3):
        case['parse'] = True
    return case


def check_schema(case):
    spec, value, format = case['spec'], case['value'], case['format']
    parse = case.get('parse', False)

    def carried(serialized):
        if format == 'urlencoded':
            if not isinstance(serialized, dict):
                raise Unrepresentable()
            return dict((k if isinstance(k, str) else str(k), deliver(v, False)) for k, v in serialized.items())
        return deliver(serialized, False)
    field, text, serialized, labels = through(spec, value, format, carried)
    if parse:
        try:
            parsed = deliver(serialized, True)
        except Unrepresentable:
            pass
        else:
            from vf.props.formats import uncertain
            if not uncertain(spec, parsed):
                labels += arrives(spec, field, text, format, parsed, None, 'numbers parsed', parse_numbers=True)
    if format == 'structuredtext':
        require_same(text, field.serialize(value, 'text/plain'), 'serialization by mimetype')
    labels.append(format)
    if not value and not isinstance(value, (int, float)):
        labels.append('trivial')
    return labels


gen_large_structured = large_case(OPTS, lambda d: dict([('format', 'structuredtext')] + [('parse', True)] * d.draw(1)), top=130, layers=20)
gen_large_urlencoded = large_case(OPTS.but(structural=('structure', 'map')), lambda d: {'format': 'urlencoded'}, kinds=('deep', 'keys', 'wide'), top=130, layers=20)


def gen_large(d):
    return d.choice((gen_large_structured, gen_large_structured, gen_large_urlencoded))(d)


def lossy(value, **params):
    def probe():
        try:
            return StructuredText.unserialize(StructuredText.serialize(value), **params) != value
        except Exception:
            return True
    return probe


FINDINGS = [
    Finding('comma-in-container', 'a comma inside text inside a container splits it', lossy({'a': 'x,y'})),
    Finding('backslash-in-container', 'text with a backslash inside a container cannot be read back', lossy(['a\\b'])),
    Finding('reserved-words', 'the texts true, false and null come back as values', lossy(['true'])),
    Finding('single-empty-text', 'a list of a single empty text comes back empty', lossy([''])),
    Finding('placeholder-text', 'text like ||0|| inside a container is taken for a nested container', lossy([['a'], '||0||'])),
    Finding('exponents', 'floats written with an exponent and no point are not parsed as numbers', lossy(1e16, parse_numbers=True)),
]

SECTIONS = [Section('text', gen_text, check_text, 16000), Section('url', gen_url, check_url, 10000),
    Section('schema', gen_schema, check_schema, 10000), Section('large', gen_large, check_schema, 800)]
