"""Snapshots of fields: every documented attribute, all the way down."""
from collections import OrderedDict

from scheme.field import Field, Undefined

ATTRIBUTES = ('aspects', 'constant', 'default', 'description', 'ignore_null', 'name', 'notes', 'nonnull', 'required', 'title',
    'structure', 'strict', 'polymorphic_on', 'key_order', 'item', 'min_length', 'max_length', 'unique', 'key', 'value',
    'required_keys', 'values', 'fields', 'enumeration', 'ignored_values', 'pattern', 'strip', 'minimum', 'maximum', 'utc',
    'segments', 'multiple', 'extended', 'valid_fields', 'valid_surrogates', 'nonempty')


def snap(v, seen=None):
    seen = seen or ()
    if any(v is s for s in seen):
        return '<recursion>'
    if isinstance(v, Field):
        inner = seen + (v,)
        attributes = dict((a, snap(v.__dict__[a], inner)) for a in ATTRIBUTES if a in v.__dict__)
        callables = [repr(v.__dict__.get(a)) for a in ('instantiator', 'extractor', 'preprocessor')]
        return {'~field': type(v).__name__, '~attributes': attributes, '~callables': callables}
    if isinstance(v, Undefined):
        return {'~undefined': snap(v.field, seen + (v,))}
    if isinstance(v, dict):
        return [type(v).__name__, sorted(((repr(k), snap(x, seen)) for k, x in v.items()), key=lambda p: p[0])]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [snap(x, seen) for x in v]
    if isinstance(v, (set, frozenset)):
        return [type(v).__name__, sorted(repr(x) for x in v)]
    return '%s:%r' % (type(v).__name__, v)
