"""Comparing fields attribute by attribute."""
from vf.oracle import fail
from vf.snap import snap

INTERNAL = {'Enumeration': 'representation', 'DateTime': 'timezone'}


def view(field):
    """The snapshot, without the aspects clones acquire."""
    return clean(snap(field))


def clean(v):
    if isinstance(v, dict) and '~field' in v:
        out = dict(v, **{'~attributes': dict((k, clean(x)) for k, x in v['~attributes'].items())})
        internal = INTERNAL.get(v['~field'])
        aspects = out['~attributes'].get('aspects')
        if internal and aspects:
            out['~attributes']['aspects'] = [aspects[0], [p for p in aspects[1] if p[0] != repr(internal)]]
        return out
    if isinstance(v, dict):
        return dict((k, clean(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    return v


def require_view(want, got, what):
    if want != got:
        fail('%s: %s', what, diff(want, got))


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), path + '.%s' % k)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + '[%d]' % i)
    return '%s was %r, is %r' % (path, a, b)
