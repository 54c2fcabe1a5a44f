"""C02: scalar values survive serialization and unserialization."""
from vf import gens, large, model, oracle
from vf.build import build
from vf.engine import Discard
from vf.model import IN, OUT
from vf.prop import Section

RULE = ('round trip: a random scalar field serializes a random valid value; the serialized form is compared with the '
    'independent canonical form, unserializing it and unserializing the native value are compared with the normalised value, '
    'and serializing that again with the first serialization. text: text near the canonical grammars of dates, times, '
    'datetimes, numbers and base64 is unserialized and compared with an independent reader. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the type has its own '
    'serialized form, or the text contains a digit.')
ASSUMPTIONS = ('Times and datetimes are generated to the second, the resolution of the serialized form.',
    'Text whose leniency nothing fixes (padding, single-digit months, underscores) is left out.')

OPTS = gens.Opts(structural=(), depth=0, pre=False, nulls=False)
TYPES = ('date', 'time', 'datetime', 'decimal', 'binary', 'integer', 'float', 'text', 'boolean', 'token', 'uuid',
    'email', 'enumeration', 'field')


def gen(d):
    t = d.choice(TYPES[:5]) if d.bool(0.6) else d.choice(TYPES)
    spec = gens.scalar_spec(d, t, OPTS)
    return {'spec': spec, 'value': gens.valid(d, spec, OPTS)}


def gen_large(d):
    spec, values = large.scalar(d)
    return {'spec': spec, 'value': d.choice(values or [None])}


def check(case):
    spec, value = case['spec'], case['value']
    if not model.accepts(spec, value, IN, False):
        raise Discard()
    field = build(spec)
    serialized = oracle.run(field.serialize, value)
    oracle.agree(spec, value, OUT, True, serialized)
    normal = model.process(spec, value, IN, False)
    back = oracle.run(field.unserialize, serialized[1])
    oracle.require(back[0] == 'ok', 'the serialized form %r of %r is rejected: %r', serialized[1], value,
        back[1].errors if back[0] == 'error' else None)
    oracle.require_same(normal, back[1], 'round trip of %r through %r' % (value, serialized[1]))
    direct = oracle.run(field.unserialize, value)
    if spec['t'] != 'binary' and not gens.gray(spec, value, IN, True):
        oracle.require(direct[0] == 'ok', 'unserializing the native %r is rejected', value)
        oracle.require_same(normal, direct[1], 'unserialize(%r)' % (value,))
    again = oracle.run(field.serialize, back[1])
    oracle.require_same(serialized[1], again[1], 'second serialization of %r' % (value,))
    labels = [spec['t']]
    if spec['t'] not in model.WRITE:
        labels.append('trivial')
    if spec['t'] in ('date', 'datetime') and value.year < 1000:
        labels.append('year below 1000')
    return labels


DIGITS = '0123456789'


def canonical(d, t):
    if t == 'date':
        return model._write_date({}, gens.a_date(d))
    if t == 'time':
        return model._write_time({}, gens.a_time(d))
    if t == 'datetime':
        return model._write_datetime({}, gens.a_datetime(d))
    if t == 'integer':
        return str(gens.an_integer(d))
    if t == 'float':
        return repr(gens.a_float(d))
    return str(gens.a_decimal(d))


def text_gen(d):
    t = d.choice(('date', 'time', 'datetime', 'integer', 'float', 'decimal', 'binary'))
    texts = []
    for _ in range(d.int(1, 6)):
        if t == 'binary':
            n = d.size(0, 9)
            text = bytes(bytearray(d.choice(b'AZaz09-_=+/') for _ in range(n)))
        else:
            text = canonical(d, t)
            for _ in range(d.int(0, 3)):
                mode = d.draw(4)
                i = d.draw(len(text)) if text else 0
                c = d.choice(DIGITS + DIGITS + '-:TZ+. eEx,/')
                if mode == 0:
                    text = text[:i] + c + text[i + 1:]
                elif mode == 1:
                    text = text[:i] + d.choice(DIGITS) + text[i + 1:]
                elif mode == 2:
                    text = text[:i] + c + text[i:]
                elif mode == 3:
                    text = text[:i] + text[i + 1:]
                else:
                    text = text + d.choice(('\n', 'Z', 'x', ' ', '0', '+00:00', '.5'))
        if not gens.gray({'t': t}, text, IN, True):
            texts.append(text)
    return {'t': t, 'texts': texts}


def text_check(case):
    spec = {'t': case['t']}
    field = build(spec)
    labels = [case['t']]
    for text in case['texts']:
        got = oracle.run(field.unserialize, text)
        want = oracle.agree(spec, text, IN, True, got)
        labels.append(want[0])
    if not case['texts']:
        labels.append('trivial')
    return labels


SECTIONS = [Section('round trip', gen, check, 58000), Section('large', gen_large, check, 3000), Section('text', text_gen, text_check, 40000)]
