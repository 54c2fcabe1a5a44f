"""An independent reference model of processing.

process(spec, value, phase, serialized) returns the expected value or raises
Rejected, a tree describing the expected error.
"""
import base64
import re
from collections import OrderedDict
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal

from vf.build import PRE
from vf.codec import Off, UTC0

IN, OUT = 'inbound', 'outbound'


class Rejected(Exception):
    """kind: 'type' or 'invalid'; token or structure."""

    def __init__(self, kind, token, path, structure=None):
        Exception.__init__(self, '%s %s at %s' % (kind, token, path))
        self.kind = kind
        self.token = token
        self.path = path
        self.structure = structure


class Reached(Exception):
    """Processing reached a placeholder which is not defined."""


def type_error(path, token='invalid'):
    return Rejected('type', token, path)


def invalid(path, token):
    return Rejected('invalid', token, path)


def root_path(spec):
    return spec.get('name') or '(%s)' % spec['t']


def nonnull(spec):
    return bool(spec.get('nonnull') or spec.get('nonempty'))


def required(spec):
    return bool(spec.get('required') or spec.get('nonempty'))


def process(spec, value, phase, serialized, path=None, partial=False):
    path = path or root_path(spec)
    t = spec['t']
    if t == 'undefined':
        raise Reached(path)
    if t == 'enumeration' and value is not None:
        ignored = spec.get('ignored_values')
        if isinstance(ignored, str):
            ignored = ignored.split(' ')
        if ignored and value in ignored:
            value = None
    if value is None:
        if nonnull(spec):
            raise invalid(path, 'nonnull')
        return None
    if t in STRUCTURAL:
        if t == 'structure':
            return _structure(spec, value, phase, serialized, path, partial)
        return STRUCTURAL[t](spec, value, phase, serialized, path)
    if serialized and phase == IN:
        value = READ.get(t, _read_same)(spec, value, path)
    if 'pre' in spec:
        try:
            value = PRE[spec['pre']](value)
        except Exception:
            raise type_error(path)
    elif t == 'email' and not spec.get('extended'):
        if not isinstance(value, str):
            raise type_error(path)
        value = _email_clean(spec, value)
    if spec.get('constant') is not None and value != spec['constant']:
        raise type_error(path)
    value = CHECK[t](spec, value, path)
    if serialized and phase == OUT:
        value = WRITE.get(t, _write_same)(spec, value)
    return value


# --- reading serialized scalars ------------------------------------------------

def _read_same(spec, value, path):
    return value


def _read_integer(spec, value, path):
    if isinstance(value, bool):
        raise type_error(path)
    if isinstance(value, int):
        return value
    if isinstance(value, str) and re.match(r'[-+]?[0-9]+\Z', value):
        return int(value)
    if isinstance(value, float) and value == value and abs(value) != float('inf'):
        return int(value)
    raise type_error(path)


def _read_float(spec, value, path):
    if isinstance(value, (float, int)):
        try:
            return float(value)
        except OverflowError:
            raise type_error(path)
    if isinstance(value, str):
        try:
            return float(value)
        except ValueError:
            pass
    raise type_error(path)


def _read_decimal(spec, value, path):
    if isinstance(value, Decimal):
        return value
    if isinstance(value, (str, int)) and not isinstance(value, bool):
        try:
            return Decimal(value)
        except Exception:
            pass
    raise type_error(path)


DATE_EXPR = re.compile(r'([0-9]{4})-([0-9]{2})-([0-9]{2})\Z')
TIME_EXPR = re.compile(r'([0-9]{2}):([0-9]{2}):([0-9]{2})\Z')
DATETIME_EXPR = re.compile(
    r'([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})Z\Z')


def _read_date(spec, value, path):
    if isinstance(value, date):
        return value
    match = isinstance(value, str) and DATE_EXPR.match(value)
    if match:
        try:
            return date(*[int(g) for g in match.groups()])
        except ValueError:
            pass
    raise type_error(path)


def _read_time(spec, value, path):
    if isinstance(value, time):
        return value
    match = isinstance(value, str) and TIME_EXPR.match(value)
    if match:
        try:
            return time(*[int(g) for g in match.groups()])
        except ValueError:
            pass
    raise type_error(path)


def _read_datetime(spec, value, path):
    if isinstance(value, datetime):
        return value
    match = isinstance(value, str) and DATETIME_EXPR.match(value)
    if match:
        try:
            return datetime(*[int(g) for g in match.groups()], tzinfo=UTC0)
        except ValueError:
            pass
    raise type_error(path)


def _read_binary(spec, value, path):
    if not isinstance(value, bytes):
        raise type_error(path)
    try:
        return base64.b64decode(value, altchars=b'-_')
    except Exception:
        raise type_error(path)


READ = {
    'integer': _read_integer, 'float': _read_float, 'decimal': _read_decimal,
    'date': _read_date, 'time': _read_time, 'datetime': _read_datetime, 'binary': _read_binary,
}


# --- checking native scalars ---------------------------------------------------

def _length(spec, value, path):
    minimum = spec.get('min_length')
    if minimum is None and spec.get('nonempty'):
        minimum = 1
    if minimum is not None and len(value) < minimum:
        raise invalid(path, 'min_length')
    if spec.get('max_length') is not None and len(value) > spec['max_length']:
        raise invalid(path, 'max_length')


def _check_text(spec, value, path):
    if not isinstance(value, str):
        raise type_error(path)
    if spec.get('strip', True):
        value = value.strip()
    _length(spec, value, path)
    if spec.get('pattern') and not re.match(spec['pattern'], value):
        raise invalid(path, 'pattern')
    return value


def _bounds(spec, value, path, reader=lambda b: b):
    minimum, maximum = spec.get('minimum'), spec.get('maximum')
    if minimum is not None and not value >= reader(minimum):
        raise invalid(path, 'minimum')
    if maximum is not None and not value <= reader(maximum):
        raise invalid(path, 'maximum')
    return value


def _check_integer(spec, value, path):
    if isinstance(value, bool) or not isinstance(value, int):
        raise type_error(path)
    return _bounds(spec, value, path)


def _check_float(spec, value, path):
    if not isinstance(value, float):
        raise type_error(path)
    return _bounds(spec, value, path)


def _check_decimal(spec, value, path):
    if not isinstance(value, Decimal):
        raise type_error(path)
    if value.is_nan():
        if spec.get('minimum') is not None:
            raise invalid(path, 'minimum')
        if spec.get('maximum') is not None:
            raise invalid(path, 'maximum')
        return value
    return _bounds(spec, value, path, Decimal)


def _check_boolean(spec, value, path):
    if value is True or value is False:
        return value
    raise type_error(path)


def _bound_reader(read):
    return lambda b: read({}, b, '')


def _check_date(spec, value, path):
    if not isinstance(value, date):
        raise type_error(path)
    _bounds(spec, value.date() if isinstance(value, datetime) else value, path, _bound_reader(_read_date))
    return value


def _check_time(spec, value, path):
    if not isinstance(value, time):
        raise type_error(path)
    return _bounds(spec, value, path, _bound_reader(_read_time))


def aware(spec, value):
    """The instant a native value denotes, in the field's zone (the process runs in UTC)."""
    if value.tzinfo is None:
        return value.replace(tzinfo=UTC0)
    return value.astimezone(UTC0)


def _check_datetime(spec, value, path):
    if not isinstance(value, datetime):
        raise type_error(path)
    try:
        value = aware(spec, value)
    except OverflowError:
        raise invalid(path, 'overflow')
    return _bounds(spec, value, path, lambda b: aware(spec, _read_datetime({}, b, '')))


def is_token(value):
    if not isinstance(value, str) or not value:
        return False
    for segment in value.split(':'):
        if not segment:
            return False
        word = [c.isalnum() or c == '_' for c in segment]
        if not (word[0] and word[-1]):
            return False
        if not all(w or c in '-+.' for w, c in zip(word, segment)):
            return False
    return True


def _check_token(spec, value, path):
    if not is_token(value):
        raise type_error(path)
    if spec.get('segments') is not None and len(value.split(':')) != spec['segments']:
        raise invalid(path, 'invalid')
    return value


def _check_uuid(spec, value, path):
    if isinstance(value, str):
        parts = value.split('-')
        if [len(p) for p in parts] == [8, 4, 4, 4, 12]:
            if all(c in '0123456789abcdef' for p in parts for c in p):
                return value
    raise type_error(path)


EMAIL_ATEXT = set("-!#$%&'*+/=?^_`{}|~0123456789abcdefghijklmnopqrstuvwxyz"
    "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
EMAIL_LABEL = set('-0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
EMAIL_TLD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
SEPARATORS = ' \t\n\r\x0b\x0c,;:'


def _email_clean(spec, value):
    value = value.strip(SEPARATORS).lower()
    if spec.get('multiple'):
        value = ','.join(p for p in re.split(r'[\s,;:]+', value))
    return value


def is_address(value):
    """A dot-atom address (quoted local parts are outside the generated domain)."""
    if value.count('@') != 1:
        return False
    local, domain = value.split('@')
    if not all(part and set(part) <= EMAIL_ATEXT for part in local.split('.')):
        return False
    labels = domain.split('.')
    if len(labels) < 2:
        return False
    tld = labels.pop()
    if not (2 <= len(tld) <= 6 and set(tld) <= EMAIL_TLD):
        return False
    return all(label and set(label) <= EMAIL_LABEL for label in labels)


def is_extended_address(value):
    if is_address(value):
        return True
    if not value.endswith('>') or '<' not in value:
        return False
    name, address = value[:-1].split('<', 1)
    return bool(is_address(address) and name.endswith(' ') and name[:-1])


def _check_email(spec, value, path):
    if not isinstance(value, str):
        raise type_error(path)
    _length(spec, value, path)
    if value:
        if spec.get('multiple'):
            good = all(is_address(v) for v in value.split(','))
        elif spec.get('extended'):
            good = is_extended_address(value)
        else:
            good = is_address(value)
        if not good:
            raise invalid(path, 'pattern')
    return value


def _check_enumeration(spec, value, path):
    members = spec['enumeration']
    if isinstance(members, str):
        members = members.split(' ')
    if not any(value is m or value == m for m in members):
        raise type_error(path)
    return value


def _check_binary(spec, value, path):
    if not isinstance(value, bytes):
        raise type_error(path)
    _length(spec, value, path)
    return value


def _check_field(spec, value, path):
    return value


CHECK = {
    'text': _check_text, 'integer': _check_integer, 'float': _check_float,
    'decimal': _check_decimal, 'boolean': _check_boolean, 'date': _check_date,
    'time': _check_time, 'datetime': _check_datetime, 'token': _check_token,
    'uuid': _check_uuid, 'email': _check_email, 'enumeration': _check_enumeration,
    'binary': _check_binary, 'field': _check_field,
}


# --- writing -------------------------------------------------------------------

def _write_same(spec, value):
    return value


def _write_date(spec, value):
    return '%04d-%02d-%02d' % (value.year, value.month, value.day)


def _write_time(spec, value):
    return '%02d:%02d:%02d' % (value.hour, value.minute, value.second)


def _write_datetime(spec, value):
    value = value.astimezone(UTC0)
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (value.year, value.month, value.day,
        value.hour, value.minute, value.second)


def _write_binary(spec, value):
    return base64.b64encode(value, altchars=b'-_')


def _write_decimal(spec, value):
    return str(value)


WRITE = {'date': _write_date, 'time': _write_time, 'datetime': _write_datetime,
    'binary': _write_binary, 'decimal': _write_decimal}


# --- structural ----------------------------------------------------------------

def _pre(spec, value, path):
    if 'pre' in spec:
        try:
            return PRE[spec['pre']](value)
        except Exception:
            raise type_error(path)
    return value


def discriminator(spec):
    on = spec['polymorphic_on']
    if isinstance(on, str):
        return {'t': 'enumeration', 'enumeration': sorted(spec['structure']), 'name': on,
            'nonempty': True}
    return on


def definition_of(spec, identity):
    """The keys of one variant, the discriminator included."""
    on = discriminator(spec)
    definition = dict(spec['structure'][identity])
    definition.update(spec.get('common', {}))
    constant = dict(on, constant=identity, required=True)
    definition[on['name']] = constant
    return definition


def _structure(spec, value, phase, serialized, path, partial=False):
    if not isinstance(value, dict):
        raise type_error(path)
    value = _pre(spec, value, path)
    if 'polymorphic_on' in spec:
        on = discriminator(spec)
        identity = value.get(on['name'])
        if identity is None:
            raise invalid(path, 'required')
        identity = process(on, identity, phase, serialized, path + '.' + on['name'])
        if identity not in spec['structure']:
            raise invalid(path, 'unrecognized')
        definition = definition_of(spec, identity)
    else:
        definition = spec['structure']

    order = spec.get('key_order')
    if isinstance(order, str):
        order = order.split(' ')
    result = OrderedDict() if order else {}
    failed = False
    if order:
        order = [name for name in order if name in definition] + [name for name in definition if name not in order]
    for name in (order or list(definition)):
        child = definition[name]
        if name in value:
            candidate = value[name]
        elif partial:
            continue
        elif child['t'] == 'undefined':
            raise Reached(path)
        elif phase == IN and child.get('default') is not None:
            candidate = child['default']
        elif required(child):
            failed = True
            result[name] = invalid(path, 'required')
            continue
        else:
            continue
        if candidate is None and child.get('ignore_null'):
            continue
        try:
            result[name] = process(child, candidate, phase, serialized, path + '.' + name)
        except Rejected as r:
            failed = True
            result[name] = r
    if spec.get('strict', True):
        for name in value:
            if name not in definition:
                failed = True
                result[name] = invalid(path, 'unknown')
    if failed:
        raise Rejected('invalid', None, path, result)
    return result


def _map(spec, value, phase, serialized, path):
    if not isinstance(value, dict):
        raise type_error(path)
    value = _pre(spec, value, path)
    result, failed = {}, False
    for key, item in value.items():
        if spec.get('key'):
            try:
                key = process(spec['key'], key, phase, serialized, path + '[%s]' % (key,))
            except Rejected:
                raise invalid(path, 'invalidkeys')
        elif not isinstance(key, str):
            raise invalid(path, 'invalidkeys')
        try:
            result[key] = process(spec['value'], item, phase, serialized, path + '[%s]' % (key,))
        except Rejected as r:
            failed = True
            result[key] = r
    keys = spec.get('required_keys')
    if isinstance(keys, str):
        keys = keys.split(' ')
    for key in keys or ():
        if key not in result:
            failed = True
            result[key] = invalid(path, 'required')
    if failed:
        raise Rejected('invalid', None, path, result)
    return result


def _sequence(spec, value, phase, serialized, path):
    if not isinstance(value, list):
        raise type_error(path)
    value = _pre(spec, value, path)
    if spec.get('min_length') is not None and len(value) < spec['min_length']:
        raise invalid(path, 'min_length')
    if spec.get('max_length') is not None and len(value) > spec['max_length']:
        raise invalid(path, 'max_length')
    result, failed = [], False
    for i, item in enumerate(value):
        try:
            result.append(process(spec['item'], item, phase, serialized, path + '[%d]' % i))
        except Rejected as r:
            failed = True
            result.append(r)
    if failed:
        raise Rejected('invalid', None, path, result)
    if spec.get('unique'):
        for i in range(len(result)):
            if any(result[i] == other for other in result[:i]):
                raise invalid(path, 'duplicate')
    return result


def _tuple(spec, value, phase, serialized, path):
    if not isinstance(value, (list, tuple)):
        raise type_error(path)
    value = _pre(spec, value, path)
    if len(value) != len(spec['values']):
        raise invalid(path, 'length')
    result, failed = [], False
    for i, (child, item) in enumerate(zip(spec['values'], value)):
        try:
            result.append(process(child, item, phase, serialized, path + '[%d]' % i))
        except Rejected as r:
            failed = True
            result.append(r)
    if failed:
        raise Rejected('invalid', None, path, result)
    return tuple(result)


def _union(spec, value, phase, serialized, path):
    for member in spec['fields']:
        try:
            return process(member, value, phase, serialized, path)
        except Rejected as r:
            if r.kind != 'type':
                raise
    raise type_error(path)


STRUCTURAL = {'structure': _structure, 'map': _map, 'sequence': _sequence, 'tuple': _tuple,
    'union': _union}


def accepts(spec, value, phase, serialized):
    try:
        process(spec, value, phase, serialized)
        return True
    except Rejected:
        return False
