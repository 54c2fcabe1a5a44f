"""Cases as tagged JSON, for replay files, samples and distinctness."""
import datetime as _dt
import json
from collections import OrderedDict
from decimal import Decimal


class Off(_dt.tzinfo):
    """A fixed offset in minutes, independent of the code under test."""

    def __init__(self, minutes=0):
        self.minutes = minutes

    def utcoffset(self, value):
        return _dt.timedelta(minutes=self.minutes)

    def dst(self, value):
        return _dt.timedelta(0)

    def tzname(self, value):
        return 'off%+d' % self.minutes

    def __repr__(self):
        return 'Off(%d)' % self.minutes

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (Off, (self.minutes,))


UTC0 = Off(0)


class Odd(object):
    """An arbitrary object no field expects."""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Odd(%r)' % self.tag

    def __deepcopy__(self, memo):
        return self


class StrSub(str):
    """A subclass of str."""


class IntSub(int):
    """A subclass of int."""


_ODD = {}


def odd(tag):
    if tag not in _ODD:
        if tag == 'class':
            _ODD[tag] = Odd
        elif tag == 'function':
            _ODD[tag] = odd
        elif tag == 'ellipsis':
            _ODD[tag] = Ellipsis
        elif tag == 'module':
            _ODD[tag] = json
        else:
            _ODD[tag] = Odd(tag)
    return _ODD[tag]


ODD_TAGS = ('plain', 'class', 'function', 'ellipsis', 'module')


def encode(v):
    if v is None or v is True or v is False:
        return v
    t = type(v)
    if t is int or t is str:
        return v
    if t is float:
        return {'~f': repr(v)}
    if t is list:
        return [encode(x) for x in v]
    if t is dict:
        if all(type(k) is str and not k.startswith('~') for k in v):
            return dict((k, encode(x)) for k, x in v.items())
        return {'~D': [[encode(k), encode(x)] for k, x in v.items()]}
    if t is tuple:
        return {'~t': [encode(x) for x in v]}
    if t is OrderedDict:
        return {'~O': [[encode(k), encode(x)] for k, x in v.items()]}
    if t is Decimal:
        return {'~d': str(v)}
    if t is bytes:
        return {'~b': v.hex()}
    if t is bytearray:
        return {'~ba': bytes(v).hex()}
    if t is _dt.datetime:
        tz = v.tzinfo.minutes if v.tzinfo is not None else None
        return {'~dt': [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, tz]}
    if t is _dt.date:
        return {'~date': [v.year, v.month, v.day]}
    if t is _dt.time:
        tz = v.tzinfo.minutes if v.tzinfo is not None else None
        return {'~time': [v.hour, v.minute, v.second, v.microsecond, tz]}
    if t is set:
        return {'~s': sorted((encode(x) for x in v), key=repr)}
    if t is frozenset:
        return {'~fs': sorted((encode(x) for x in v), key=repr)}
    if t is complex:
        return {'~c': [repr(v.real), repr(v.imag)]}
    if t is StrSub:
        return {'~ss': str(v)}
    if t is IntSub:
        return {'~is': int(v)}
    for tag in ODD_TAGS:
        if v is odd(tag):
            return {'~obj': tag}
    raise TypeError('cannot encode %r' % (v,))


def decode(v):
    if isinstance(v, list):
        return [decode(x) for x in v]
    if isinstance(v, dict):
        if len(v) == 1:
            (k, x), = v.items()
            if k[:1] == '~':
                return _decode_tagged(k, x)
        return dict((k, decode(x)) for k, x in v.items())
    return v


def _off(tz):
    return None if tz is None else Off(tz)


def _decode_tagged(k, x):
    if k == '~f':
        return float(x)
    if k == '~D':
        return dict((decode(a), decode(b)) for a, b in x)
    if k == '~O':
        return OrderedDict((decode(a), decode(b)) for a, b in x)
    if k == '~t':
        return tuple(decode(y) for y in x)
    if k == '~d':
        return Decimal(x)
    if k == '~b':
        return bytes.fromhex(x)
    if k == '~ba':
        return bytearray(bytes.fromhex(x))
    if k == '~dt':
        return _dt.datetime(*x[:7], tzinfo=_off(x[7]))
    if k == '~date':
        return _dt.date(*x)
    if k == '~time':
        return _dt.time(*x[:4], tzinfo=_off(x[4]))
    if k == '~s':
        return set(decode(y) for y in x)
    if k == '~fs':
        return frozenset(decode(y) for y in x)
    if k == '~c':
        return complex(float(x[0]), float(x[1]))
    if k == '~ss':
        return StrSub(x)
    if k == '~is':
        return IntSub(x)
    if k == '~obj':
        return odd(x)
    raise ValueError(k)


def dumps(v):
    return json.dumps(encode(v), sort_keys=True)


def loads(text):
    return decode(json.loads(text))
