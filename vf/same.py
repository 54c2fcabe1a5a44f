"""Type-aware comparison of values."""
import datetime as _dt
from collections import OrderedDict
from decimal import Decimal


def same(a, b):
    """Equal, of the same type, all the way down."""
    return difference(a, b) is None


def difference(a, b, path='value'):
    """None, or where and how b (actual) differs from a (expected)."""
    ta, tb = type(a), type(b)
    if ta is not tb:
        return '%s: expected %s %r, got %s %r' % (path, ta.__name__, a, tb.__name__, b)
    if ta is dict or ta is OrderedDict:
        if ta is OrderedDict:
            if list(a) != list(b):
                return '%s: expected keys %r in that order, got %r' % (path, list(a), list(b))
        for k in a:
            if k not in b:
                return '%s: key %r is missing' % (path, k)
        for k in b:
            if k not in a:
                return '%s: unexpected key %r' % (path, k)
        bkeys = dict((k, k) for k in b)
        for k in a:
            found = difference(k, bkeys[k], '%s key' % path)
            if found is None:
                found = difference(a[k], b[k], '%s[%r]' % (path, k))
            if found:
                return found
        return None
    if ta is list or ta is tuple:
        if len(a) != len(b):
            return '%s: expected %d items, got %d' % (path, len(a), len(b))
        for i in range(len(a)):
            found = difference(a[i], b[i], '%s[%d]' % (path, i))
            if found:
                return found
        return None
    if ta is float:
        equal = repr(a) == repr(b)
    elif ta is Decimal:
        equal = a.as_tuple() == b.as_tuple()
    elif ta is _dt.datetime:
        equal = (a.utcoffset() is None) == (b.utcoffset() is None)
        if equal:
            equal = a == b and a.utcoffset() == b.utcoffset()
    elif ta is _dt.time:
        equal = (a.replace(tzinfo=None) == b.replace(tzinfo=None)
                 and a.utcoffset() == b.utcoffset())
    else:
        equal = (a is b) or bool(a == b)
    if not equal:
        return '%s: expected %r, got %r' % (path, a, b)
    return None
