"""Generators of specifications and of candidate values for them."""
from collections import OrderedDict
from datetime import date, datetime, time, timedelta
from decimal import Decimal

from vf import model
from vf.codec import IntSub, Off, StrSub, UTC0, odd, ODD_TAGS
from vf.engine import Discard
from vf.model import IN, OUT

SCALARS = ('text', 'integer', 'float', 'decimal', 'boolean', 'date', 'time', 'datetime',
    'token', 'uuid', 'email', 'enumeration', 'binary', 'field')
TEXTLIKE = ('text', 'token', 'uuid', 'email')

NAMES = ('a', 'b', 'c', 'd', 'id', 'name', 'type', 'default', 'structure', 'required', 'items',
    'keys', 'values', 'value', 'fields', 'get', 'filter', 'constant', 'x', 'x-y', 'x.y', 'a b',
    u'\xe9', '_', '0', 'A', 'title', 'notes', 'self', 'nonnull')
IDENTIFIERS = ('a', 'b', 'c', 'd', 'id', 'name', 'kind_', 'value', 'item', 'x1', 'title',
    'some_key', 'notes', 'q')
XML_NAMES = ('a', 'b', 'c', 'd', 'id', 'name', 'value', 'item', 'x1', 'some-key', 'n.m', '_u')


class Opts(object):
    """What a specification may contain."""

    def __init__(self, scalars=SCALARS, structural=('structure', 'sequence', 'map', 'tuple',
            'union'), depth=2, names=NAMES, pre=True, constants=True, defaults=True,
            nulls=True, poly=True, key_order=True, map_keys=('text', 'integer', 'token',
            'date', 'enumeration', 'uuid', 'boolean', 'decimal'), loose=True, patterns=True,
            text='any', field_values='native', binary_default=False, meta=False, width=4,
            partial=False, ignored=True, union_members=None, nan=True, poly_kinds=('auto',
            'enumeration', 'text', 'integer'), placeholders=None, placeholder_chance=0.3,
            datetimes=False):
        self.__dict__.update(locals())

    def but(self, **params):
        other = Opts.__new__(Opts)
        other.__dict__.update(self.__dict__)
        other.__dict__.update(params)
        return other


# --- text ------------------------------------------------------------------------

PLAIN = 'abcxyz'
RICH = u'aAbz09 _-.,:;!?#%&*@\'"\\/|<>=+~`^$(){}[]\xe9\xdf\u0130\u03c3\u4e2d\u2028\x85\xa0\u200b\ufeff\U0001f600'
CONTROL = u'\n\r\t\x00\x07\x1b\x7f'
SURROGATE = u'\ud800\udfff'
XMLSAFE = u'aAbz09 _-.,:;!?#%&*@\'"\\/|<>=+~`^$(){}[]\xe9\xdf\u4e2d\u2028\x85\xa0\U0001f600\n\t'
STSAFE = u''.join(c for c in RICH if c not in u',\\') + u'\n\r\t\x00'
SPECIAL_TEXT = ('null', 'true', 'false', 'yes', 'no', 'on', 'off', 'Null', '~', '0', '1', '-1', '1.5', '1e3',
    '.5', '0x10', '0o7', '1_000', '12:30:00', '12:30', '1:20:30', '12:3', '+1', '+.5', '.NaN', '-.INF', '2001-01-01 10:00:00', '2001-1-1', 'y', 'n', '0b1', '1e+3', '00', '1,5', '1.', '!!str', '%YAML', '2015-01-02', '2015-01-02T03:04:05Z', '.inf', 'nan', '<<', '=',
    '- a', '? a', 'a: b', 'a #b', '#a', '&a', '*a', '!a', '|', '>', '%a', '@a', '`a', '{a}', '[a]',
    "'", '"', "''", '---', '...', 'a:', ':a', 'None', '{}', '[]', '\\n', '${x}', '{{x}}', '{% x %}')


def text_of(d, alphabet, lo, hi):
    n = d.size(lo, hi)
    return u''.join(d.choice(alphabet) for _ in range(n))


def any_text(d, lo=0, hi=12, kind='any'):
    """Text without bias towards validity of anything."""
    if kind == 'plain':
        return text_of(d, PLAIN, lo, hi)
    if kind == 'xml':
        alphabets = ((6, PLAIN), (3, XMLSAFE))
    elif kind == 'st':
        alphabets = ((4, PLAIN), (3, STSAFE), (1, u'{}[]ab:|'))
    elif kind == 'csv':
        alphabets = ((5, PLAIN), (3, RICH), (2, u'\n\r\t"\',\x0b'))
    elif kind == 'surrogates':
        alphabets = ((5, PLAIN), (3, RICH), (2, CONTROL + ' ab'), (1, SURROGATE + 'ab'))
    else:
        alphabets = ((5, PLAIN), (3, RICH), (2, CONTROL + ' ab'))
    mode = d.draw(19)
    if mode >= 17 and kind not in ('plain',):
        special = d.choice(SPECIAL_TEXT)
        if lo <= len(special) <= hi:
            return special
    return text_of(d, d.weighted(*alphabets), lo, hi)


def strip_text(d, lo, hi, kind, strip):
    """Text of a length within lo..hi, counted after stripping, itself already stripped."""
    if lo > hi:
        raise Discard()
    text = any_text(d, lo, hi, kind)
    if strip and text.strip() != text:
        core = text.strip()
        text = core + 'a' * (len(text) - len(core))
    return text


PATTERNS = (
    (r'[a-c]+\Z', lambda d, n: ''.join(d.choice('abc') for _ in range(max(1, n)))),
    (r'a', lambda d, n: 'a' + ''.join(d.choice('xyz') for _ in range(max(0, n - 1)))),
    (r'\d{2,4}\Z', lambda d, n: ''.join(d.choice('0123456789') for _ in range(min(4, max(2, n))))),
    (r'(foo|bar)x*\Z', lambda d, n: d.choice(('foo', 'bar')) + 'x' * max(0, n - 3)),
)


def literal_pattern(d):
    """A pattern of plain letters, unlike those of other cases."""
    return ''.join(d.choice('abcxyzABCXYZ') for _ in range(d.int(1, 4))) + d.choice(('', r'\Z'))


# --- scalar bounds and valid native values ----------------------------------------

def a_date(d):
    mode = d.draw(5)
    if mode <= 2:
        return date(2000, 1, 1) + timedelta(d.int(-40, 40))
    if mode == 3:
        return date(d.int(1, 9999), d.int(1, 12), d.int(1, 28))
    return d.choice((date(1970, 1, 1), date(2016, 2, 29), date(1, 1, 1), date(9999, 12, 31),
        date(999, 12, 31), date(1900, 1, 1), date(1899, 12, 31)))


def a_time(d, micro=False):
    t = time(d.int(0, 23), d.choice((0, 0, 1, 30, 59, d.int(0, 59))),
        d.choice((0, 0, 1, 59, d.int(0, 59))))
    if micro and d.bool(0.3):
        t = t.replace(microsecond=d.choice((1, 999999, 500000)))
    return t


def a_naive(d):
    mode = d.draw(5)
    if mode <= 2:
        return datetime(2000, 1, 1) + timedelta(days=d.int(-40, 40), seconds=d.choice(
            (0, 0, 1, 3600, 86399, d.int(0, 86399))))
    if mode == 3:
        return datetime(d.int(2, 9998), d.int(1, 12), d.int(1, 28), d.int(0, 23), d.int(0, 59),
            d.int(0, 59))
    return d.choice((datetime(1970, 1, 1), datetime(2016, 2, 29, 23, 59, 59),
        datetime(999, 12, 31, 23, 59, 59), datetime(1899, 12, 31), datetime(2, 1, 1)))


def a_zone(d):
    return d.choice((UTC0, UTC0, Off(60), Off(-300), Off(330), Off(840), Off(-720), Off(1)))


def a_datetime(d, zones=True):
    value = a_naive(d).replace(tzinfo=UTC0)
    if zones and d.bool(0.5):
        value = value.astimezone(a_zone(d))
    return value


def an_integer(d):
    mode = d.draw(5)
    if mode <= 3:
        return d.int(-12, 12)
    if mode == 4:
        return d.int(-100000, 100000)
    return d.choice((2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 63, -2 ** 63 - 1, 10 ** 25, -10 ** 30, 999999999))


def a_float(d, nan=False):
    mode = d.draw(6)
    if mode <= 3:
        return d.int(-24, 24) / d.choice((1.0, 2.0, 8.0, 10.0, 3.0))
    if mode == 4:
        return d.choice((1e16, 1e-7, 1.5e300, -1e22, 5e-324, 0.1, -0.0, 1e100, 123456789.123456789,
            2.0 ** 53))
    if mode == 5:
        return d.int(-10 ** 9, 10 ** 9) / 1000.0
    if nan:
        return d.choice((float('inf'), float('-inf'), float('nan')))
    return float(d.int(-5, 5))


def a_decimal(d, nan=False):
    mode = d.draw(6)
    if mode <= 3:
        return Decimal(d.int(-30, 30)).scaleb(-d.int(0, 3))
    if mode == 4:
        return Decimal(d.choice(('0', '0.00', '-0', '1E+3', '1E-10', '123456789012345678901234567890.123',
            '1.10', '0E+2', '-1.50', '1E+400')))
    if mode == 5 or not nan:
        return Decimal(d.int(-10 ** 6, 10 ** 6)) / Decimal(100)
    return Decimal(d.choice(('NaN', 'Infinity', '-Infinity')))


WORD = 'abcxyz019_'


def a_segment(d):
    n = d.size(1, 6)
    s = d.choice(WORD)
    for i in range(n - 1):
        s += d.choice(WORD + '-+.')
    return s if s[-1] in WORD else s + 'a'


def a_token(d, segments=None):
    n = segments if segments is not None else d.size(1, 4)
    return ':'.join(a_segment(d) for _ in range(n))


def slightly_off(d, base, alphabet):
    """``base`` with a character left out, repeated, replaced or added anywhere."""
    if not base:
        return d.choice(alphabet)
    at = d.draw(len(base) - 1)
    mode = d.draw(3)
    if mode == 0:
        return base[:at] + base[at + 1:]
    if mode == 1:
        return base[:at] + base[at] + base[at:]
    if mode == 2:
        return base[:at] + d.choice(alphabet) + base[at + 1:]
    return base[:at] + d.choice(alphabet) + base[at:]


def a_uuid(d):
    digits = ''.join(d.choice('0123456789abcdef') for _ in range(4))
    digits = (digits * 8)
    return '-'.join((digits[:8], digits[8:12], digits[12:16], digits[16:20], digits[20:32]))


LOCALS = ('a', 'joe', 'first.last', 'a+b', "o'neil", 'x_y', 'n1.n2.n3', '!#$%', 'a-b')
DOMAINS = ('b.co', 'example.com', 'mail.example.org', 'x-y.net', '1.museum', 'a.b.c.d.info')


def an_address(d):
    return d.choice(LOCALS) + '@' + d.choice(DOMAINS)


BAD_ADDRESSES = ('a', 'a@b', '@b.co', 'a@.co', 'a@b.c', 'a@b.abcdefg', 'a b@c.co', 'a..b@c.co', '.a@b.co',
    'a.@b.co', 'a@@b.co', 'a@b@c.co', 'a@b..co', 'a@b.co.', 'a@b.c0', 'a(b)@c.co', 'a@b_c.co', 'a@b.co>',
    '<a@b.co>', 'a@b.co x', 'a@b.\u00e9co', '\u00e9@b.co')


ENUM_POOLS = (
    ('alpha', 'beta', 'gamma', 'delta'),
    ('a', 'A', 'b', ' c', '', 'null', '0'),
    (1, 2, 3, 10, -5),
    (0, 7, 8),
    (True, False),
    (1.5, 2.5, 0.25),
    ('1', 1, 'x'),
    ('a', None, 'b'),
    ('short', 17, 2.5, True),
)


def scalar_spec(d, t, opts):
    spec = {'t': t}
    if t in ('text', 'binary', 'email'):
        mode = d.draw(7)
        if mode in (4, 6):
            spec['min_length'] = d.choice((0, 1, 1, 2, 3, 5))
        if mode in (5, 6):
            spec['max_length'] = spec.get('min_length', 0) + d.choice((0, 1, 2, 4, 8))
            if t == 'email':
                spec['max_length'] = spec.get('min_length', 0) + d.choice((0, 6, 12, 20))
        if mode == 7:
            spec['nonempty'] = True
    if t == 'text':
        if d.bool(0.3):
            spec['strip'] = False
        if opts.patterns and d.bool(0.15):
            spec['pattern'] = d.choice(PATTERNS)[0] if d.bool(0.7) else literal_pattern(d)
    elif t in ('integer', 'float', 'decimal', 'date', 'time', 'datetime'):
        if t == 'integer':
            make = lambda: d.choice((0, 0, 1, -1, an_integer(d)))
        elif t == 'float':
            make = lambda: d.choice((0.0, 1.0, a_float(d)))
        elif t == 'decimal':
            make = lambda: d.choice((Decimal(0), Decimal('1.0'), a_decimal(d)))
        elif t == 'date':
            make = lambda: a_date(d)
        elif t == 'time':
            make = lambda: d.choice((time(0, 0), a_time(d)))
        else:
            make = lambda: a_datetime(d)
        mode = d.draw(4)
        bounds = [make(), make()] if mode >= 2 else []
        bounds.sort()
        if mode in (2, 4):
            spec['minimum'] = bounds[0]
        if mode in (3, 4):
            spec['maximum'] = bounds[1]
        if t in ('date', 'time', 'datetime', 'decimal') and bounds and d.bool(0.4):
            for k in ('minimum', 'maximum'):
                if k in spec:
                    write = model.WRITE[t]
                    spec[k] = write({}, spec[k])
        if t == 'datetime' and d.bool(0.4):
            spec['utc'] = True
    elif t == 'token':
        if d.bool(0.35):
            spec['segments'] = d.int(1, 3)
    elif t == 'email':
        mode = d.draw(3)
        if mode == 2:
            spec['multiple'] = True
        elif mode == 3:
            spec['extended'] = True
    elif t == 'enumeration':
        pool = d.choice(ENUM_POOLS)
        if getattr(opts, 'enum_text', False):
            pool = d.choice(ENUM_POOLS[:1] + (('a', 'A', 'b', 'c9'),))
        members = d.shuffled(pool)[:d.int(1, len(pool))]
        spec['enumeration'] = members
        if all(isinstance(m, str) and m and ' ' not in m for m in members) and d.bool(0.4):
            spec['enumeration'] = ' '.join(members)
        if opts.ignored and d.bool(0.2):
            spec['ignored_values'] = d.choice((['zz', 0], 'zz yy', ['zz'], ['']))
    if opts.pre and d.bool(0.08):
        pre = {'text': ('upper', 'trimx', 'raise', 'same'), 'integer': ('inc', 'neg', 'raise'),
            'float': ('neg', 'inc', 'raise'), 'decimal': ('neg', 'raise'), 'token': ('trimx', 'raise'),
            'field': ('raise', 'same'), 'boolean': ('raise', 'same'), 'binary': ('reverse', 'raise'),
            'date': ('raise', 'same'), 'enumeration': ('same', 'raise')}.get(t)
        if pre:
            spec['pre'] = d.choice(pre)
    common_params(d, spec, opts)
    if opts.constants and 'pre' not in spec and d.bool(0.06) and t not in ('datetime', 'binary', 'field', 'email'):
        constant = try_valid(d, spec, opts)
        if constant is not None and constant == constant and not (t == 'text' and constant != constant.strip()):
            spec['constant'] = constant
    if opts.defaults and d.bool(0.22) and (t != 'binary' or opts.binary_default):
        add_default(d, spec, opts)
    return spec


def common_params(d, spec, opts):
    if opts.nulls:
        if d.bool(0.15):
            spec['nonnull'] = True
        if d.bool(0.1):
            spec['ignore_null'] = True
    if d.bool(0.3):
        spec['required'] = True
    if opts.meta:
        if d.bool(0.25):
            spec['title'] = d.choice(('Title', '', 'T2', u'\xe9'))
        if d.bool(0.25):
            spec['description'] = d.choice(('desc', 'other', 'x' * 30))
        if d.bool(0.15):
            spec['notes'] = d.choice(('n1', 'n2'))
        if d.bool(0.3):
            spec['aspects'] = dict((k, d.choice(META_VALUES)) for k in d.subset(META_KEYS, 0.4))
        if d.bool(0.2):
            spec['extra'] = dict((k, d.choice(META_VALUES)) for k in d.subset(META_KEYS, 0.3))


META_KEYS = ('level', 'public', 'tag', 'readonly')
META_VALUES = (True, False, 0, 1, 'x', '', [], [1, 'a'], {'k': 'v'}, 2.5, ('t', 1))


def add_default(d, spec, opts):
    if spec['t'] not in SCALARS and any(s['t'] in ('binary',) for s in _walk(spec)) \
            and not opts.binary_default:
        return
    value = try_valid(d, spec, opts)
    if value is not None and not _gray_unions(spec, value):
        spec['default'] = value


def _gray_unions(spec, value):
    """Whether a union inside would read the default, taken for a serialized value, in an unspecified way."""
    t = spec['t']
    if value is None or t in SCALARS:
        return False
    if t == 'union':
        return gray_deep(spec, value, IN, True)
    if t == 'structure':
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            definition = model.definition_of(spec, value[model.discriminator(spec)['name']])
        return any(k in definition and _gray_unions(definition[k], v) for k, v in value.items())
    if t == 'map':
        return any(_gray_unions(spec['value'], v) for v in value.values())
    if t == 'sequence':
        return any(_gray_unions(spec['item'], v) for v in value)
    return any(_gray_unions(s, v) for s, v in zip(spec['values'], value))


def _walk(spec):
    from vf.build import walk
    return walk(spec)


def try_valid(d, spec, opts):
    try:
        return valid(d, spec, opts)
    except Discard:
        if len(d.record) >= d.limit:
            raise
        return None


def within(d, spec, make, reader=lambda b: b, step=None):
    lo, hi = spec.get('minimum'), spec.get('maximum')
    lo = reader(lo) if lo is not None else None
    hi = reader(hi) if hi is not None else None
    options = [v for v in (lo, hi) if v is not None]
    if step is not None:
        for v in list(options):
            for other in (-1, 1):
                try:
                    options.append(step(v, other))
                except (OverflowError, ValueError):
                    pass
    if options and d.bool(0.5):
        value = d.choice(options)
    else:
        value = make()
    if (lo is not None and not value >= lo) or (hi is not None and not value <= hi):
        value = lo if lo is not None else hi
    return value


def time_step(value, n):
    moved = datetime(2000, 1, 1, value.hour, value.minute, value.second) + timedelta(seconds=n)
    return moved.time()


def valid(d, spec, opts=None, null=0.0):
    """A native value the specification accepts."""
    opts = opts or DEFAULT
    t = spec['t']
    if t == 'undefined':
        return None
    if null and not model.nonnull(spec) and d.bool(null):
        return None
    if spec.get('constant') is not None and t in SCALARS:
        return spec['constant']
    value = VALID[t](d, spec, opts)
    if t in SCALARS and 'pre' in spec:
        # not every value survives the preprocessor
        if not model.accepts(spec, value, IN, False):
            raise Discard()
    return value


def _valid_text(d, spec, opts):
    lo = spec.get('min_length') or (1 if spec.get('nonempty') and spec.get('min_length') is None else 0)
    hi = spec.get('max_length')
    if spec.get('pattern'):
        for pattern, make in PATTERNS:
            if pattern == spec['pattern']:
                value = make(d, d.int(lo, lo + 3))
                break
        else:
            value = spec['pattern'].replace('\\Z', '')
            if value == spec['pattern']:
                value += 'z' * max(0, lo - len(value))
        if len(value) < lo or (hi is not None and len(value) > hi):
            raise Discard()
        return value
    if hi is None:
        hi = max(lo, 12)
    value = strip_text(d, lo, hi, opts.text, spec.get('strip', True))
    return value


def _valid_binary(d, spec, opts):
    lo = spec.get('min_length') or (1 if spec.get('nonempty') and spec.get('min_length') is None else 0)
    hi = spec.get('max_length')
    n = d.size(lo, hi if hi is not None else lo + 9)
    return bytes(bytearray(d.choice((0, 97, 251, 255, 254, 62, 63, d.draw(255))) for _ in range(n)))


def _valid_email(d, spec, opts):
    if spec.get('min_length') is None and not spec.get('nonempty') and d.bool(0.1):
        return ''
    address = an_address(d)
    if spec.get('multiple'):
        value = ','.join([address] + [an_address(d) for _ in range(d.size(0, 3))])
    elif spec.get('extended'):
        value = d.choice((address, 'Joe Doe <%s>' % address, '"J. Doe"  <%s>' % address, address.upper()))
    else:
        value = address
    lo, hi = spec.get('min_length') or 0, spec.get('max_length')
    if len(value) < lo or (hi is not None and len(value) > hi):
        raise Discard()
    return value


def _valid_enumeration(d, spec, opts):
    members = spec['enumeration']
    if isinstance(members, str):
        members = members.split(' ')
    ignored = spec.get('ignored_values') or ()
    if isinstance(ignored, str):
        ignored = ignored.split(' ')
    members = [m for m in members if m is not None and m not in ignored]
    if not members:
        raise Discard()
    return d.choice(members)


def _valid_datetime(d, spec, opts):
    value = within(d, spec, lambda: a_datetime(d), lambda b: model.aware(spec, model._read_datetime({}, b, '')),
        lambda v, n: v + timedelta(seconds=n))
    return value


def native(d, opts, depth=2, keys=None):
    """A natively serializable value, for opaque fields."""
    mode = d.draw(9 if depth > 0 else 6)
    if mode == 0:
        return None
    if mode == 1:
        return d.bool()
    if mode == 2:
        return an_integer(d)
    if mode == 3:
        return a_float(d)
    if mode <= 6:
        return any_text(d, 0, 12, opts.text)
    if mode <= 8 and mode == 7:
        return [native(d, opts, depth - 1) for _ in range(d.size(0, 4))]
    return dict((any_text(d, 0, 6, opts.text), native(d, opts, depth - 1)) for _ in range(d.size(0, 3)))


def _valid_field(d, spec, opts):
    if opts.field_values == 'scalar':
        return d.choice((True, False, an_integer(d), a_float(d), any_text(d, 0, 8, opts.text)))
    if opts.field_values == 'text':
        return any_text(d, 0, 8, opts.text)
    value = native(d, opts)
    return 0 if value is None else value


def _valid_structure(d, spec, opts):
    value = {}
    if 'polymorphic_on' in spec:
        identity = d.choice(sorted(spec['structure'], key=repr))
        definition = model.definition_of(spec, identity)
        name = model.discriminator(spec)['name']
        value[name] = identity
    else:
        definition, name = spec['structure'], None
    for k, child in definition.items():
        if k == name:
            continue
        if not model.required(child) and d.bool(0.3):
            continue
        try:
            value[k] = valid(d, child, opts, 0.0 if child.get('ignore_null') else 0.08)
        except Discard:
            if len(d.record) >= d.limit or model.required(child):
                raise
    if not spec.get('strict', True) and d.bool(0.2):
        value['undeclared'] = 1
    return value


def _valid_sequence(d, spec, opts):
    lo, hi = spec.get('min_length') or 0, spec.get('max_length')
    n = d.size(lo, hi if hi is not None else lo + 4)
    items = []
    for i in range(n if not spec.get('unique') else 3 * n + 3):
        if len(items) >= n:
            break
        try:
            item = valid(d, spec['item'], opts, 0.05)
        except Discard:
            if len(d.record) >= d.limit:
                raise
            break
        if spec.get('unique'):
            done = model_out(spec['item'], items + [item])
            if done is None or any(done[-1] == x for x in done[:-1]) or item != item:
                continue
        items.append(item)
    if len(items) < lo:
        raise Discard()
    return items


def model_out(item, values):
    try:
        return [(model.process(item, v, IN, False), model.process(item, v, OUT, True)) for v in values]
    except model.Rejected:
        return None


def _valid_map(d, spec, opts):
    value = {}
    if spec.get('key'):
        make = lambda: valid(d, spec['key'], opts)
    else:
        make = lambda: d.choice(opts.names) if d.bool(0.6) else any_text(d, 1, 6, opts.text) \
            if opts.names is NAMES else d.choice(opts.names)
    keys = spec.get('required_keys') or ()
    if isinstance(keys, str):
        keys = keys.split(' ')
    for k in keys:
        value[k] = valid(d, spec['value'], opts, 0.05)
    for _ in range(d.size(0, 4)):
        try:
            k = make()
            v = valid(d, spec['value'], opts, 0.05)
        except Discard:
            if len(d.record) >= d.limit:
                raise
            break
        if k is None or not _hashable(k):
            continue
        if any(k == o and type(k) is not type(o) for o in value):
            continue
        value[k] = v
    if _colliding(spec, value):
        raise Discard()
    return value


def _hashable(k):
    try:
        hash(k)
        return True
    except TypeError:
        return False


def _colliding(spec, value):
    if not spec.get('key'):
        return False
    for phase, ser in ((IN, False), (OUT, True)):
        seen = set()
        for k in value:
            try:
                k = model.process(spec['key'], k, phase, ser)
            except model.Rejected:
                continue
            if k in seen:
                return True
            seen.add(k)
    return False


def _valid_tuple(d, spec, opts):
    return tuple(valid(d, s, opts, 0.05) for s in spec['values'])


def _valid_union(d, spec, opts):
    member = d.choice(spec['fields'])
    value = valid(d, member, opts)
    if gray_deep(spec, value, IN, False) or gray_deep(spec, value, OUT, True):
        raise Discard()
    if not (model.accepts(spec, value, OUT, True) and model.accepts(spec, value, IN, False)):
        raise Discard()
    return value


VALID = {
    'text': _valid_text,
    'integer': lambda d, s, o: within(d, s, lambda: an_integer(d), step=lambda v, n: v + n),
    'float': lambda d, s, o: within(d, s, lambda: a_float(d, o.nan and 'minimum' not in s and 'maximum' not in s)),
    'decimal': lambda d, s, o: within(d, s, lambda: a_decimal(d, False), Decimal),
    'boolean': lambda d, s, o: d.bool(),
    'date': lambda d, s, o: within(d, s, lambda: a_date(d), model._bound_reader(model._read_date),
        lambda v, n: v + timedelta(days=n)),
    'time': lambda d, s, o: within(d, s, lambda: a_time(d), model._bound_reader(model._read_time), time_step),
    'datetime': _valid_datetime,
    'token': lambda d, s, o: a_token(d, s.get('segments')),
    'uuid': lambda d, s, o: a_uuid(d),
    'email': _valid_email,
    'enumeration': _valid_enumeration,
    'binary': _valid_binary,
    'field': _valid_field,
    'structure': _valid_structure,
    'sequence': _valid_sequence,
    'map': _valid_map,
    'tuple': _valid_tuple,
    'union': _valid_union,
}


# --- structural specifications ------------------------------------------------------

def a_spec(d, opts, depth=None):
    depth = opts.depth if depth is None else depth
    if opts.placeholders and d.bool(opts.placeholder_chance):
        return {'t': 'undefined', 'ref': d.choice(opts.placeholders)}
    if depth > 0 and opts.structural and d.bool(0.45):
        return structural_spec(d, d.choice(opts.structural), opts, depth)
    return scalar_spec(d, d.choice(opts.scalars), opts)


def structural_spec(d, t, opts, depth):
    if t == 'structure' and opts.poly and d.bool(0.2):
        spec = poly_spec(d, opts, depth)
    elif t == 'structure':
        names = d.shuffled(opts.names)[:d.size(0, opts.width)]
        spec = {'t': t, 'structure': dict((n, a_spec(d, opts, depth - 1)) for n in names)}
        if opts.key_order and names and d.bool(0.15):
            spec['key_order'] = some_order(d, names)
            if not any(' ' in n or not n for n in names) and d.bool(0.3):
                spec['key_order'] = ' '.join(spec['key_order'])
    elif t == 'sequence':
        spec = {'t': t, 'item': a_spec(d, opts, depth - 1)}
        mode = d.draw(5)
        if mode in (3, 5):
            spec['min_length'] = d.choice((0, 1, 2, 3))
        if mode in (4, 5):
            spec['max_length'] = spec.get('min_length', 0) + d.choice((0, 1, 2, 3))
        if d.bool(0.3):
            spec['unique'] = True
    elif t == 'map':
        spec = {'t': t, 'value': a_spec(d, opts, depth - 1)}
        if opts.map_keys and d.bool(0.5):
            spec['key'] = scalar_spec(d, d.choice(opts.map_keys), opts.but(pre=False, defaults=False,
                constants=False, ignored=False, nan=False, nulls=False))
        if d.bool(0.35):
            if spec.get('key'):
                keys = []
                for _ in range(d.int(1, 2)):
                    k = try_valid(d, spec['key'], opts)
                    if k is not None and k not in keys and model.WRITE.get(spec['key']['t']) is None:
                        keys.append(k)
                if keys:
                    spec['required_keys'] = keys
            else:
                spec['required_keys'] = d.shuffled(opts.names)[:d.int(1, 2)]
                if not any(' ' in k for k in spec['required_keys']) and d.bool(0.3):
                    spec['required_keys'] = ' '.join(spec['required_keys'])
    elif t == 'tuple':
        spec = {'t': t, 'values': [a_spec(d, opts, depth - 1) for _ in range(d.size(1, 4))]}
    else:
        make = opts.union_members
        if make:
            spec = {'t': t, 'fields': make(d, opts, depth)}
        else:
            spec = {'t': t, 'fields': [a_spec(d, opts, depth - 1) for _ in range(d.int(1, 3))]}
    if t == 'structure' and opts.loose and d.bool(0.3):
        spec['strict'] = False
    if opts.pre and t != 'union' and d.bool(0.06):
        spec['pre'] = d.choice({'structure': ('copydict', 'raise', 'dropx', 'adda'), 'map': ('copydict', 'raise', 'dropx',
            'adda'), 'sequence': ('copylist', 'raise', 'reverse', 'again'), 'tuple': ('copylist', 'raise')}[t])
    common_params(d, spec, opts)
    if opts.defaults and d.bool(0.15) and not (opts.placeholders and any(s['t'] == 'undefined' for s in _walk(spec))):
        add_default(d, spec, opts)
    return spec


def poly_spec(d, opts, depth):
    kind = d.choice(opts.poly_kinds)
    identities = [0, 10, 20] if kind == 'integer' else ['alpha', 'beta', 'gamma']
    identities = identities[:d.int(1, 3)]
    on_name = d.choice([n for n in ('kind', 'type', 'id', 'a') if n in opts.names or n == 'kind'])
    pool = [n for n in opts.names if n != on_name]
    names = d.shuffled(pool)[:6]
    structure = {}
    for i, identity in enumerate(identities):
        chosen = names[:d.int(0, 2)] if d.bool(0.5) else names[i:i + d.int(0, 2)]
        structure[identity] = dict((n, a_spec(d, opts, depth - 1)) for n in chosen)
    spec = {'t': 'structure', 'structure': structure}
    if kind == 'auto':
        spec['polymorphic_on'] = on_name
    elif kind == 'enumeration':
        spec['polymorphic_on'] = {'t': 'enumeration', 'enumeration': sorted(identities) + ['zeta'],
            'name': on_name, 'nonnull': True}
    elif kind == 'text':
        spec['polymorphic_on'] = {'t': 'text', 'name': on_name}
    else:
        spec['polymorphic_on'] = {'t': 'integer', 'name': on_name, 'required': True}
    if d.bool(0.3):
        used = set(n for fields in structure.values() for n in fields)
        rest = [n for n in pool if n not in used][:2]
        spec['common'] = dict((n, a_spec(d, opts, depth - 1)) for n in rest[:d.int(1, 2)])
    if opts.key_order and d.bool(0.15):
        every = set(n for fields in structure.values() for n in fields) | set(spec.get('common', ()))
        spec['key_order'] = some_order(d, every | set([on_name]), False)
    return spec


def some_order(d, names, partial=True):
    order = d.shuffled(sorted(names))
    if partial and d.bool(0.35):
        order = order[:d.int(1, len(order))]
    if partial and d.bool(0.1):
        order.insert(d.int(0, len(order)), 'nokey')
    return order


# --- candidate values ------------------------------------------------------------------

WRONG = (0, 1, -7, 1.5, True, False, 'abc', '', 'zz', [], {}, (), ['a'], {'a': 1}, b'ab', Decimal('1.5'),
    date(2000, 1, 1), time(1, 2, 3), datetime(2000, 1, 1, 1, 2, 3, tzinfo=UTC0), odd('plain'), odd('class'))


def mutate_text(d, value):
    mode = d.draw(5)
    if mode == 0:
        return ' ' + value + d.choice((' ', '\n', '\t '))
    if mode == 1:
        return value + '\n'
    if mode == 2 and value:
        i = d.draw(len(value) - 1)
        return value[:i] + value[i + 1:]
    if mode == 3:
        i = d.draw(len(value))
        return value[:i] + d.choice(u'aZ0 :-.@,\n\xe9') + value[i:]
    if mode == 4:
        return value.upper()
    return value + value


def candidate(d, spec, phase, serialized, bad=0.3, opts=None):
    """Something to process: mostly near the boundary of what is valid."""
    opts = opts or DEFAULT
    t = spec['t']
    if t == 'undefined' or d.bool(0.06 if bad else 0.0):
        return None
    if t in SCALARS:
        for _ in range(4):
            value = scalar_candidate(d, spec, phase, serialized, bad, opts)
            if not gray(spec, value, phase, serialized) or opts.datetimes and t == 'date' and type(value) is datetime:
                return value
        return None
    if d.bool(bad * 0.15):
        return wrong_for(d, spec, phase, serialized)
    return CANDIDATE[t](d, spec, phase, serialized, bad, opts)


def wrong_for(d, spec, phase, serialized):
    for _ in range(4):
        value = d.choice(WRONG)
        if not gray_deep(spec, value, phase, serialized):
            return value
    return None


def gray_deep(spec, value, phase, serialized):
    if spec['t'] == 'union':
        return any(gray_deep(s, value, phase, serialized) for s in spec['fields'])
    if spec['t'] in SCALARS:
        return gray(spec, value, phase, serialized)
    if spec['t'] == 'structure' and isinstance(value, dict):
        if 'polymorphic_on' in spec:
            return bool(value)
        return any(k in value and gray_deep(s, value[k], phase, serialized) for k, s in spec['structure'].items())
    if spec['t'] == 'map' and isinstance(value, dict):
        return any(gray_deep(spec['value'], v, phase, serialized) for v in value.values()) or (
            bool(spec.get('key')) and any(gray(spec['key'], k, phase, serialized) for k in value))
    if spec['t'] == 'sequence' and isinstance(value, list):
        return any(gray_deep(spec['item'], v, phase, serialized) for v in value)
    if spec['t'] == 'tuple' and isinstance(value, (list, tuple)):
        return any(gray_deep(s, v, phase, serialized) for s, v in zip(spec['values'], value))
    return False


def gray(spec, value, phase, serialized):
    """True where the property does not say what happens."""
    t = spec['t']
    reading = serialized and phase == IN
    tv = type(value)
    if tv in (StrSub, IntSub):
        return True
    if t == 'integer':
        if reading:
            if tv is float:
                return value == value and abs(value) != float('inf')
            if tv is str:
                return bool(INT_GRAY(value))
            return tv in (Decimal, bytes)
    elif t == 'float':
        if reading:
            if tv is bool or tv is bytes or tv is Decimal:
                return True
            if tv is str:
                return FLOAT_GRAY(value)
            if tv is int:
                return abs(value) > 2 ** 53
    elif t == 'decimal':
        if reading:
            if tv in (float, list, tuple, bool):
                return True
            if tv is str:
                return FLOAT_GRAY(value)
        if tv is Decimal and value.is_snan():
            return True
    elif t == 'date':
        if tv is datetime:
            return True
        if reading and tv is str:
            return DATE_GRAY(value)
    elif t == 'datetime':
        if tv is datetime and (value.year in (1, 9999)):
            return True
        if reading and tv is str:
            return DATE_GRAY(value)
        if tv is datetime and spec.get('constant') is not None and value.tzinfo is None:
            return True
    elif t == 'time':
        if tv is time and value.tzinfo is not None:
            return True
        if reading and tv is str:
            return DATE_GRAY(value)
    elif t == 'binary':
        if reading and tv is bytes:
            return not canonical_or_unpadded(value)
        if tv is bytearray:
            return True
    elif t == 'enumeration':
        members = spec['enumeration']
        if isinstance(members, str):
            members = members.split(' ')
        members = list(members)
        ignored = spec.get('ignored_values') or []
        if isinstance(ignored, str):
            ignored = ignored.split(' ')
        if tv is odd('plain').__class__:
            return False
        for m in members + list(ignored):
            if m == value and type(m) is not tv:
                return True
    elif t == 'email':
        if tv is str:
            return '"' in value and not spec.get('extended') or '\\' in value or (
                bool(spec.get('extended')) and ('"' in value and value.count('"') != 2))
    if spec.get('constant') is not None:
        constant = spec['constant']
        if t == 'text' and tv is str and value != constant and value.strip() == constant:
            return True
        try:
            if value == constant and tv is not type(constant) and t not in ('integer', 'float', 'boolean'):
                return True
        except Exception:
            return True
    return False


def INT_GRAY(value):
    import re
    if re.match(r'[-+]?[0-9]+\Z', value):
        return False
    try:
        int(value)
        return True
    except ValueError:
        return False


def FLOAT_GRAY(value):
    import re
    if re.match(r'[-+]?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?\Z', value):
        return False
    try:
        float(value)
        return True
    except ValueError:
        pass
    try:
        Decimal(value)
        return True
    except Exception:
        return False


def DATE_GRAY(value):
    """Text that a lenient reader might take for a date or time."""
    import re
    if model.DATE_EXPR.match(value) or model.TIME_EXPR.match(value) or model.DATETIME_EXPR.match(value):
        return False
    if not re.search(r'[0-9]', value) or not re.search(r'[-:tT]', value):
        return False
    # everything of the right overall shape but not exactly of the canonical form
    if re.search(r'\s', value):
        value = re.sub(r'\s', '', value)
        if model.DATE_EXPR.match(value) or model.TIME_EXPR.match(value) or model.DATETIME_EXPR.match(value):
            return True
    return bool(re.match(r'\s*[0-9]+\s*[-:]\s*[0-9]+\s*[-:]\s*[0-9]+', value)) and not value.isascii() \
        or bool(re.match(r'\s*[0-9]{1,4}-[0-9]{1,2}-[0-9]{1,2}\s*\Z', value)) \
        or bool(re.match(r'\s*[0-9]{1,2}:[0-9]{1,2}:[0-9]{1,2}\s*\Z', value)) \
        or bool(re.match(r'\s*[0-9]{1,4}-[0-9]{1,2}-[0-9]{1,2}\s*[tT]\s*[0-9]{1,2}:[0-9]{1,2}:[0-9]{1,2}\s*[zZ]\s*\Z', value))


B64 = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_')


def canonical_or_unpadded(value):
    body = value.rstrip(b'=')
    if not all(c in B64 for c in body):
        return False
    if len(value) % 4 == 0:
        import base64
        try:
            return base64.urlsafe_b64encode(base64.b64decode(value, altchars=b'-_')) == value
        except Exception:
            return len(body) % 4 == 1
    return len(body) == len(value)          # padding missing altogether: not base64


def scalar_candidate(d, spec, phase, serialized, bad, opts):
    t = spec['t']
    reading = serialized and phase == IN
    mode = d.draw(99)
    if mode < 100 - int(bad * 100):
        try:
            value = valid(d, spec, opts)
        except Discard:
            if len(d.record) >= d.limit:
                raise
            value = None
        return present(d, spec, value, reading, opts)
    kind = d.draw(3)
    if kind == 0:
        return d.choice(WRONG)
    if kind == 1 and reading and t in ('date', 'time', 'datetime', 'integer', 'float', 'decimal', 'binary'):
        return malformed(d, t)
    return present(d, spec, near(d, spec, opts), reading, opts)


def present(d, spec, value, reading, opts=None):
    """Serialized form (usually) when reading, a cosmetic variant otherwise."""
    t = spec['t']
    if value is None:
        return None
    if t == 'text' and type(value) is str and spec.get('strip', True) and 'constant' not in spec \
            and d.bool(0.15):
        return d.choice((' ', '\n', '\t', u'\xa0 ')) + value + d.choice(('', ' ', '\n'))
    if t == 'email' and type(value) is str and not spec.get('extended') and d.bool(0.3):
        if spec.get('multiple'):
            value = value.replace(',', d.choice((', ', ' ', ';', ' ;; ', '\n', ':')))
        if d.bool(0.5):
            value = value.upper()
        return d.choice(('', ' ', ', ', ';')) + value + d.choice(('', ' ', ',', '\n'))
    if t == 'datetime' and type(value) is datetime and value.tzinfo is not None and d.bool(0.3) \
            and 2 < value.year < 9998:
        return value.astimezone(UTC0).replace(tzinfo=None) if d.bool(0.5) else value.astimezone(a_zone(d))
    if opts is not None and opts.datetimes and t == 'date' and type(value) is date and 'constant' not in spec and d.bool(0.12):
        return datetime(value.year, value.month, value.day, d.choice((0, 0, 23, 12)), d.choice((0, 59)), d.choice((0, 59)),
            tzinfo=a_zone(d) if d.bool(0.3) else None)
    if reading and d.bool(0.8):
        if t in model.WRITE:
            try:
                return model.WRITE[t](spec, value)
            except Exception:
                return value
        if t == 'integer' and type(value) is int and d.bool(0.5):
            return d.choice(('%d', '+%d' if value >= 0 else '%d', '0%d' if value >= 0 else '%d')) % value
        if t == 'float' and type(value) is float and value == value and d.bool(0.4):
            return repr(value)
    return value


def malformed(d, t):
    if t == 'date':
        return d.choice(('2015-13-01', '2015-02-30', '2015-00-10', '', 'abc', '2015', '20150101x', '2015-01-01T00:00:00Z',
            '2015/01/01', '01-02-2015', '2015-01-32', '12:00:00', '2015-01-01x', '0000-01-01', '2100-02-29'))
    if t == 'time':
        return d.choice(('24:00:00', '12:60:00', '12:00:61', '', 'abc', '12:00', '12', '2015-01-01', '12-00-00', '12:00:00x'))
    if t == 'datetime':
        return d.choice(('2015-01-01', '2015-01-01T00:00:00', '2015-13-01T00:00:00Z', '2015-01-01T24:00:00Z',
            '2015-02-29T00:00:00Z', '', 'abc', '2015-01-01T00:00:00+00:00', '2015-01-01T00:00Z', '12:00:00',
            '2015-01-01 00:00:00Z', '2015-01-01T00:00:00.5Z'))
    if t == 'binary':
        return d.choice((b'a', b'abc', b'abcde', b'YQ=', u'YQ==', b'YWI', b'YWJjZA'))
    if t == 'integer':
        return d.choice(('', 'abc', '1.5', '1e3', '0x1', '--1', '1-', 'one', float('nan'), float('inf'), [], {}, '1,000'))
    if t == 'float':
        return d.choice(('', 'abc', '1.5.2', '--1', 'one', '1,5', [], {}, '0x1p3x', '1e'))
    return d.choice(('', 'abc', '1.5.2', '--1', 'one', '1,5', {}, '1e', '0x1'))


def near(d, spec, opts):
    """Just outside (or on) a constraint."""
    t = spec['t']
    if t in ('text', 'email', 'binary'):
        lo, hi = spec.get('min_length'), spec.get('max_length')
        if lo is None and spec.get('nonempty'):
            lo = 1
        sizes = []
        if lo is not None:
            sizes += [lo - 1, lo]
        if hi is not None:
            sizes += [hi, hi + 1]
        if t == 'email':
            if d.bool(0.5):
                bad = d.choice(BAD_ADDRESSES)
                if spec.get('multiple') and d.bool(0.5):
                    return 'a@b.co,' + bad
                return bad
            if sizes:
                # local part padded to the exact length
                n = d.choice(sizes)
                if n >= 6:
                    return 'a' * (n - 5) + '@b.co'
            return d.choice(('', 'a@b.co', 'a@b.co,c@d.org', 'a@b.co,', 'Joe <a@b.co>', 'Joe<a@b.co>'))
        if sizes and d.bool(0.8):
            n = max(0, d.choice(sizes))
            if t == 'binary':
                return b'\xff' * n
            return text_of(d, PLAIN, n, n)
        if t == 'binary':
            return u'text'
        if spec.get('pattern'):
            if d.bool() and not any(spec['pattern'] == p for p, _ in PATTERNS):
                literal = spec['pattern'].replace('\\Z', '')
                return d.choice((literal[:-1], literal.swapcase(), literal + 'x', 'x' + literal, literal + '\n', ' ' + literal, literal * 2))
            base = d.choice(('abc', 'cab', 'a', '12', '123', '12345', 'foo', 'barxx', 'fooy', 'xa', 'zabc', '', 'abc\n', 'x12'))
            return base
        return any_text(d, 0, 6, opts.text)
    if t in ('integer', 'float', 'decimal', 'date', 'time', 'datetime'):
        bounds = [spec[k] for k in ('minimum', 'maximum') if spec.get(k) is not None]
        if not bounds:
            if t == 'float':
                return a_float(d, True)
            if t == 'decimal':
                return a_decimal(d, True)
            return VALID[t](d, {'t': t}, opts)
        bound = d.choice(bounds)
        if t == 'integer':
            return bound + d.choice((-1, 0, 1, -100, 100))
        if t == 'float':
            if d.bool(0.2):
                return d.choice((float('nan'), float('inf'), float('-inf')))
            step = max(abs(bound) * 1e-9, 1e-9)
            return bound + d.choice((0.0, -step, step, -1.0, 1.0))
        if t == 'decimal':
            if d.bool(0.2):
                return Decimal(d.choice(('NaN', 'Infinity', '-Infinity')))
            return Decimal(bound) + d.choice((Decimal(0), Decimal('0.001'), Decimal('-0.001'), Decimal(1)))
        try:
            if t == 'date':
                return model._read_date({}, bound, '') + timedelta(d.choice((0, 1, -1, 400, -400)))
            if t == 'datetime':
                return model.aware({}, model._read_datetime({}, bound, '')) + timedelta(
                    seconds=d.choice((0, 1, -1, 86400, -86400)))
        except OverflowError:
            return bound
        return time_step(model._read_time({}, bound, ''), d.choice((0, 1, -1, 3600, -3600)))
    if t == 'token':
        base = a_token(d, d.int(1, 4))
        mode = d.draw(9)
        if mode == 0:
            return base
        if mode < 4:
            return slightly_off(d, base, ('a', 'Z', '0', '_', '-', '+', '.', ':', '/', ' ', '\n', u'\xe9', u'\u0661'))
        return d.choice((base + ':', ':' + base, base + '-', '-' + base, base + '\n', ' ' + base, base + '::a', '',
            base + ' b', base + '.', '+' + base, base + '/x', u'\xe9' + base, base + ':.a', base + 'a.-+b'))
    if t == 'uuid':
        base = a_uuid(d)
        if d.bool(0.4):
            return slightly_off(d, base, ('0', 'a', 'f', 'g', 'A', '-', '_', ' ', '\n', u'\u0661'))
        return d.choice((base.upper() if base.upper() != base else 'X' + base, base + '\n', base[:-1], base + 'a', base.replace('-', ''),
            'g' + base[1:], '{' + base + '}', base[:8] + base[9:], ' ' + base, base.replace('-', '_'), ''))
    if t == 'enumeration':
        return d.choice(('zz', 'alpha', 'Alpha', 'alph', 'alphaa', 1, 2, 9, 0, 'a', 'A', 'b', '', 1.5, True, False, None,
            'yy', 'alpha beta', 3.5, ' c', 'c', '1', [], 17, 'beta '))
    if t == 'boolean':
        return d.choice((0, 1, 'true', 'false', '', None, [], 1.0))
    return native(d, opts)


def _cand_structure(d, spec, phase, serialized, bad, opts):
    value = {}
    if 'polymorphic_on' in spec:
        on = model.discriminator(spec)
        identity = d.choice(sorted(spec['structure'], key=repr))
        definition = model.definition_of(spec, identity)
        mode = d.draw(99)
        if mode < 100 - int(bad * 25):
            value[on['name']] = str(identity) if (on['t'] == 'integer' and serialized and phase == IN
                and d.bool(0.3)) else identity
        elif d.bool(0.5):
            value[on['name']] = d.choice((None, 'zeta', 'nope', 99, '', [], 'alpha ', True, 10.5))
            if gray_deep(on, value[on['name']], phase, serialized) or gray_deep(
                    dict(on, constant=identity), value[on['name']], phase, serialized):
                value[on['name']] = None
        names = [n for n in definition if n != on['name']]
    else:
        definition = spec['structure']
        names = list(definition)
    order = d.shuffled(names) if d.bool(0.3) else names
    for k in order:
        child = definition[k]
        if d.bool(0.25 if not model.required(child) else 0.25 * bad):
            continue
        value[k] = candidate(d, child, phase, serialized, bad, opts)
    if d.bool(0.25 if not spec.get('strict', True) else 0.2 * bad):
        for _ in range(d.int(1, 2)):
            k = d.choice(('undeclared', 'zz', 'extra', 'x', 'A', 5))
            if k not in definition:
                value[k] = d.choice((None, 1, 'v', [], {}))
    if spec.get('key_order') and d.bool(0.3):
        value = OrderedDict((k, value[k]) for k in d.shuffled(list(value)))
    return value


def _cand_sequence(d, spec, phase, serialized, bad, opts):
    lo, hi = spec.get('min_length'), spec.get('max_length')
    sizes = [n for n in (lo, hi, lo and lo - 1, hi is not None and hi + 1) if n is not None and n is not False]
    if sizes and d.bool(0.3 + 0.3 * bad):
        n = d.choice(sizes)
        if not bad:
            n = max(n, lo or 0)
            n = min(n, hi) if hi is not None else n
    else:
        n = d.size(lo or 0, hi if hi is not None else (lo or 0) + 4)
    items = []
    for _ in range(n):
        if items and spec.get('unique') and d.bool(0.25 * bad):
            items.append(d.choice(items))
        else:
            items.append(candidate(d, spec['item'], phase, serialized, bad, opts))
    if spec.get('unique') and _gray_unique(spec, items, phase, serialized):
        return []
    return items


def _gray_unique(spec, items, phase, serialized):
    """Items whose equality python itself leaves open (NaN; 1 and True in opaque values)."""
    try:
        done = [model.process(spec['item'], v, phase, serialized) for v in items]
    except model.Rejected:
        return False
    from vf.same import same
    for i in range(len(done)):
        try:
            if done[i] != done[i]:
                return True
        except Exception:
            return True
        if _has_nan(done[i]):
            return True
        for j in range(i):
            if done[i] == done[j] and not same(done[i], done[j]):
                return True
    return False


def _has_nan(v):
    if isinstance(v, float):
        return v != v
    if isinstance(v, Decimal):
        return v.is_nan()
    if isinstance(v, (list, tuple)):
        return any(_has_nan(x) for x in v)
    if isinstance(v, dict):
        return any(_has_nan(x) for x in v.values())
    return False


def _cand_map(d, spec, phase, serialized, bad, opts):
    value = {}
    reading = serialized and phase == IN
    keys = spec.get('required_keys') or ()
    if isinstance(keys, str):
        keys = keys.split(' ')
    for k in keys:
        if not d.bool(0.25 * bad):
            if spec.get('key'):
                k = present(d, spec['key'], k, reading)
            value[k] = candidate(d, spec['value'], phase, serialized, bad, opts)
    for _ in range(d.size(0, 4)):
        if spec.get('key'):
            if d.bool(1 - bad * 0.15):
                try:
                    k = valid(d, spec['key'], opts)
                except Discard:
                    if len(d.record) >= d.limit:
                        raise
                    continue
                k = present(d, spec['key'], k, reading)
            else:
                k = near(d, spec['key'], opts) if d.bool(0.5) else d.choice(WRONG)
                if gray(spec['key'], k, phase, serialized):
                    continue
        else:
            k = d.choice(NAMES) if d.bool(1 - bad * 0.1) else d.choice((1, None, True, (1, 2), 2.5))
        if not _hashable(k):
            continue
        if any(k == o and type(k) is not type(o) for o in value):
            continue
        value[k] = candidate(d, spec['value'], phase, serialized, bad, opts)
    if spec.get('key'):
        seen = set()
        for k in list(value):
            try:
                done = model.process(spec['key'], k, phase, serialized)
            except model.Rejected:
                continue
            if done in seen:
                del value[k]
            seen.add(done)
    return value


def _cand_tuple(d, spec, phase, serialized, bad, opts):
    items = [candidate(d, s, phase, serialized, bad, opts) for s in spec['values']]
    if d.bool(0.15 * bad):
        items = items[:-1] if d.bool(0.5) else items + [None]
    return tuple(items) if d.bool(0.5) else items


def _cand_union(d, spec, phase, serialized, bad, opts):
    for _ in range(5):
        if bad and d.bool(0.1):
            value = d.choice(WRONG)
        else:
            value = candidate(d, d.choice(spec['fields']), phase, serialized, bad, opts)
        if not gray_deep(spec, value, phase, serialized):
            return value
    return None


CANDIDATE = {'structure': _cand_structure, 'sequence': _cand_sequence, 'map': _cand_map,
    'tuple': _cand_tuple, 'union': _cand_union}

DEFAULT = Opts()
