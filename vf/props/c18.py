"""C18: JSON content round-trips through any JSON-representable schema."""
import json
import random

from scheme import Binary, Json, formats
from scheme.format import Format

from vf import gens
from vf.engine import Discard
from vf.oracle import require, require_same
from vf.prop import Finding, Section
from vf.props.formats import Unrepresentable, arrives, has_nonfinite, independent, large_case, text_keys, through

RULE = ('A random valid value of a random schema (all fields but binary; structures, polymorphic too, maps keyed by any scalar, '
    'sequences, tuples, unions, nested) is serialized to JSON; the text is parsed by the strict reader of the standard library and '
    'compared with the serialized form the model expects, and unserializing the text, and the same content written by an '
    'independent writer with other spacing, key order, escapes and number forms, is compared with the model. Without a schema: any '
    'native value. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the value is not null.')
ASSUMPTIONS = ('Known finding: binary content serializes to bytes, which JSON cannot carry; binary fields are left out.',
    'NaN and infinities have no standard JSON form: for them only the round trip is checked.')

OPTS = gens.Opts(depth=3, width=5, scalars=tuple(t for t in gens.SCALARS if t != 'binary'), text='surrogates')


def write(value, rng):
    """JSON text in another style."""
    gap = lambda: rng.choice(('', '', ' ', '\n', '\t ', '\r\n'))
    if isinstance(value, dict):
        items = list(value.items())
        rng.shuffle(items)
        inner = (',').join('%s%s%s:%s%s%s' % (gap(), string(k, rng), gap(), gap(), write(v, rng), gap()) for k, v in items)
        return '{%s%s}' % (inner, gap())
    if isinstance(value, list):
        return '[%s%s]' % (','.join(gap() + write(v, rng) + gap() for v in value), gap())
    if isinstance(value, str):
        return string(value, rng)
    if isinstance(value, float) and not has_nonfinite(value):
        text = repr(value)
        if 'e' in text:
            return rng.choice((text, text.replace('e', 'E')))
        return rng.choice((text, text + '0', text + 'e0', text + 'E+00'))
    if value is None:
        return 'null'
    if value is True or value is False:
        return 'true' if value else 'false'
    return json.dumps(value)


def string(s, rng):
    out = ['"']
    for c in s:
        n = ord(c)
        style = rng.randrange(4)
        if c in '"\\' or n < 32:
            short = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}.get(c)
            out.append(short if short and style else '\\u%04x' % n)
        elif style == 0 or 0xd800 <= n < 0xe000:
            if n > 0xffff:
                n -= 0x10000
                out.append('\\u%04X\\u%04x' % (0xd800 + (n >> 10), 0xdc00 + (n & 0x3ff)))
            else:
                out.append(rng.choice(('\\u%04x', '\\u%04X')) % n)
        elif c == '/' and style == 1:
            out.append('\\/')
        else:
            out.append(c)
    out.append('"')
    return ''.join(out)


def constant(text):
    raise ValueError('%s is not JSON' % text)


def strict(text, what):
    try:
        return json.loads(text, parse_constant=constant)
    except ValueError as error:
        require(False, '%s is not standard JSON: %s', what, error)


def gen_schema(d):
    spec = gens.a_spec(d, OPTS, 3) if d.bool(0.3) else gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 3)
    return {'spec': spec, 'value': gens.valid(d, spec, OPTS, 0.05), 'style': d.draw(1 << 20)}


def check_schema(case):
    spec, value = case['spec'], case['value']
    field, text, serialized, labels = through(spec, value, 'json', text_keys)
    delivered = text_keys(serialized)
    if has_nonfinite(delivered):
        labels.append('not finite')
    else:
        require_same(delivered, strict(text, text), 'content of the JSON text')
    other = write(delivered, random.Random(case['style']))
    arrives(spec, field, other, 'json', delivered, None, 'another writer')
    require_same(text, field.serialize(value, Json), 'serialization by format class')
    require_same(text, field.serialize(value, 'application/json'), 'serialization by mimetype')
    if value is None:
        labels.append('trivial')
    return labels


def gen_native(d):
    return {'value': gens.native(d, OPTS, 4), 'style': d.draw(1 << 20)}


def check_native(case):
    value = case['value']
    try:
        delivered = text_keys(value)
    except Unrepresentable:
        raise Discard()
    text = Json.serialize(value)
    if has_nonfinite(value):
        pass
    else:
        require_same(delivered, strict(text, text), 'content of the JSON text')
    independent(lambda: Json.unserialize(text), delivered, 'round trip of %r' % (value,))
    other = write(delivered, random.Random(case['style']))
    independent(lambda: Json.unserialize(other), delivered, 'content by another writer')
    require_same(text, Format.serialize(value, 'json'), 'serialization through Format')
    independent(lambda: Format.unserialize(text, 'json'), delivered, 'unserialization through Format')
    labels = [type(value).__name__]
    if not value:
        labels.append('trivial')
    return labels


def binary():
    try:
        Binary().serialize(b'a', 'json')
    except TypeError:
        return True
    return False


FINDINGS = [Finding('binary', 'binary values cannot be serialized to JSON: their serialized form is bytes', binary)]

SECTIONS = [Section('schema', gen_schema, check_schema, 16000), Section('native', gen_native, check_native, 8000),
    Section('large', large_case(OPTS), check_schema, 1500)]
