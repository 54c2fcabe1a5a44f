"""Plain-data specifications -> fields of the code under test."""
import scheme
from scheme import *          # noqa
from scheme.field import INBOUND, OUTBOUND, Field, FieldError, Undefined  # noqa
import copy


class Refusal(Exception):
    pass


REFUSALS = (ValueError, Refusal, KeyError, RuntimeError, ZeroDivisionError, AttributeError, AssertionError, OSError,
    NotImplementedError, TypeError, UnicodeError, EOFError, Exception)


def _raise(value):
    raise REFUSALS[len(repr(value)) % len(REFUSALS)]('preprocessor refused')


# Preprocessors, by the name a specification gives them.
PRE = {
    'upper': lambda v: v.upper(),
    'trimx': lambda v: v.replace('x', ''),
    'inc': lambda v: v + 1,
    'neg': lambda v: -v,
    'same': lambda v: v,
    'raise': _raise,
    'copylist': lambda v: list(v),
    'reverse': lambda v: v[::-1],
    'copydict': lambda v: dict(v),
    'adda': lambda v: dict(v, a=v.get('a', [])),
    'again': lambda v: v + v[:1],
    'dropx': lambda v: dict((k, x) for k, x in v.items() if k != 'x'),
}

TYPES = {
    'text': Text, 'integer': Integer, 'float': Float, 'decimal': Decimal, 'boolean': Boolean,
    'date': Date, 'datetime': DateTime, 'time': Time, 'token': Token, 'uuid': UUID,
    'email': Email, 'enumeration': Enumeration, 'binary': Binary, 'field': Field,
    'structure': Structure, 'map': Map, 'sequence': Sequence, 'tuple': Tuple, 'union': Union,
    'object': Object, 'definition': Definition, 'surrogate': Surrogate, 'error': Error,
}

CHILDREN = ('structure', 'common', 'item', 'value', 'key', 'values', 'fields', 'polymorphic_on')


def build(spec, hooks=None):
    """hooks: {'inst': {...}, 'ext': {...}} tables for instantiators and extractors."""
    params = {}
    for k, v in spec.items():
        if k == 't' or k in CHILDREN:
            continue
        if k == 'pre':
            params['preprocessor'] = PRE[v]
        elif k == 'inst':
            params['instantiator'] = hooks['inst'](v)
        elif k == 'ext':
            params['extractor'] = hooks['ext'](v)
        elif k == 'aspects':
            params['aspects'] = copy.deepcopy(v)
        elif k == 'extra':
            params.update(copy.deepcopy(v))
        elif k == 'errors':
            params['errors'] = [FieldError(*e) for e in v]
        else:
            params[k] = copy.deepcopy(v)
    t = spec['t']
    if t == 'undefined':
        return hooks['undefined'](spec['ref'])
    if t == 'structure':
        if 'polymorphic_on' in spec:
            structure = {}
            for identity, fields in spec['structure'].items():
                structure[identity] = dict((k, build(v, hooks)) for k, v in fields.items())
            if 'common' in spec:
                structure['*'] = dict((k, build(v, hooks)) for k, v in spec['common'].items())
            on = spec['polymorphic_on']
            params['polymorphic_on'] = on if isinstance(on, str) else build(on, hooks)
        else:
            structure = dict((k, build(v, hooks)) for k, v in spec['structure'].items())
        return Structure(structure, **params)
    if t == 'sequence':
        return Sequence(build(spec['item'], hooks), **params)
    if t == 'map':
        key = build(spec['key'], hooks) if spec.get('key') else None
        return Map(build(spec['value'], hooks), key=key, **params)
    if t == 'tuple':
        return Tuple([build(s, hooks) for s in spec['values']], **params)
    if t == 'union':
        return Union([build(s, hooks) for s in spec['fields']], **params)
    return TYPES[t](**params)


def children(spec):
    """(kind, key, child spec) of every directly nested specification."""
    t = spec['t']
    if t == 'structure':
        if 'polymorphic_on' in spec:
            for identity, fields in spec['structure'].items():
                for k, s in fields.items():
                    yield (identity, k), s
            for k, s in spec.get('common', {}).items():
                yield ('*', k), s
        else:
            for k, s in spec['structure'].items():
                yield k, s
    elif t == 'sequence':
        yield 'item', spec['item']
    elif t == 'map':
        yield 'value', spec['value']
        if spec.get('key'):
            yield 'key', spec['key']
    elif t == 'tuple':
        for i, s in enumerate(spec['values']):
            yield i, s
    elif t == 'union':
        for i, s in enumerate(spec['fields']):
            yield i, s


def walk(spec):
    yield spec
    for _, s in children(spec):
        for x in walk(s):
            yield x


def contains(spec, types):
    return any(s['t'] in types for s in walk(spec))
