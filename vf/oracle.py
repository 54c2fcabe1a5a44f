"""Comparing what the code under test does with what the model says."""
from scheme.exceptions import InvalidTypeError, StructuralError, ValidationError

from vf import model
from vf.engine import Violation
from vf.same import difference


def fail(message, *params):
    raise Violation(message % params if params else message)


def require(condition, message, *params):
    if not condition:
        fail(message, *params)


def require_same(expected, actual, what):
    found = difference(expected, actual, what)
    if found:
        fail(found)


def run(function, *args, **params):
    """('ok', result) or ('error', validation error); any other exception propagates."""
    try:
        return 'ok', function(*args, **params)
    except ValidationError as error:
        return 'error', error


def expected(spec, value, phase, serialized, path=None, partial=False):
    try:
        return 'ok', model.process(spec, value, phase, serialized, path, partial)
    except model.Rejected as r:
        return 'error', r


def identity_of(error):
    identity = error.identity
    return identity if isinstance(identity, str) else ''.join(identity)


def error_difference(want, got, where='error'):
    """None, or how the error `got` differs from the Rejected `want`."""
    if not isinstance(got, StructuralError):
        return '%s: expected %s, got the value %r' % (where, want, got)
    if type(got) not in (InvalidTypeError, ValidationError):
        return '%s: raised as %s' % (where, type(got).__name__)
    if (type(got) is InvalidTypeError) != (want.kind == 'type'):
        return '%s: expected a%s error (%s), got %s %r' % (where, ' type' if want.kind == 'type'
            else ' plain validation', want, type(got).__name__, got.errors or got.structure)
    if want.structure is None:
        if got.structure:
            return '%s: expected %s, got errors at %r' % (where, want, got.structure)
        if len(got.errors) != 1:
            return '%s: expected one error (%s), got %r' % (where, want, got.errors)
        error = got.errors[0]
        if error.get('token') != want.token:
            return '%s: expected token %s, got %r' % (where, want.token, error)
        if not (isinstance(error.get('message'), str) and error['message'] and
                isinstance(error.get('title'), str) and error['title']):
            return '%s: incomplete error %r' % (where, error)
        if identity_of(got) != want.path:
            return '%s: expected path %r, got %r' % (where, want.path, identity_of(got))
        return None
    if got.errors:
        return '%s: expected errors of nested values, got %r' % (where, got.errors)
    if identity_of(got) != want.path:
        return '%s: expected path %r, got %r' % (where, want.path, identity_of(got))
    return structure_difference(want.structure, got.structure, where)


def structure_difference(want, got, where):
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s: expected a mapping of errors, got %r' % (where, got)
        if set(want) != set(got):
            return '%s: expected entries %r, got %r' % (where, sorted(map(repr, want)), sorted(map(repr, got)))
        pairs = [(k, want[k], got[k]) for k in want]
    else:
        if type(got) is not list or len(want) != len(got):
            return '%s: expected %d positions, got %r' % (where, len(want), got)
        pairs = [(i, w, g) for i, (w, g) in enumerate(zip(want, got))]
    for k, w, g in pairs:
        here = '%s[%r]' % (where, k)
        if isinstance(w, model.Rejected):
            found = error_difference(w, g, here)
        elif isinstance(g, StructuralError):
            found = '%s: unexpected %r' % (here, g)
        else:
            found = difference(w, g, here)
        if found:
            return found
    return None


def agree(spec, value, phase, serialized, got, partial=False, path=None):
    """got: the outcome of run().  Returns the expected outcome."""
    want = expected(spec, value, phase, serialized, path, partial)
    what = 'process(%r, %s, serialized=%r)' % (value, phase, serialized)
    if want[0] == 'ok':
        if got[0] != 'ok':
            fail('%s was rejected with %s: %r, expected %r', what, type(got[1]).__name__,
                got[1].errors or got[1].serialize(True), want[1])
        require_same(want[1], got[1], what)
    else:
        if got[0] == 'ok':
            fail('%s returned %r, expected it to be rejected: %s', what, got[1], want[1])
        found = error_difference(want[1], got[1], 'error of ' + what)
        if found:
            fail(found)
    return want


def rejection_labels(r, prefix='rejected'):
    if r.structure is None:
        return ['%s:%s' % (prefix, r.token)]
    return ['%s:nested' % prefix]


def leaves(r):
    """Every single failure of a Rejected tree."""
    if r.structure is None:
        return [r]
    items = r.structure.values() if isinstance(r.structure, dict) else r.structure
    found = []
    for item in items:
        if isinstance(item, model.Rejected):
            found.extend(leaves(item))
    return found
