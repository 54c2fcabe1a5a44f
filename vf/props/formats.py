"""Shared by the properties about formats."""
from vf import gens, large, model, oracle
from vf.build import build, walk
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import fail, require, require_same
from vf.same import difference


class Unrepresentable(Exception):
    """The format cannot carry the value."""


def forms(spec, value):
    """(processed value, serialized value) by the model."""
    try:
        processed = model.process(spec, value, IN, False)
        serialized = model.process(spec, value, OUT, True)
    except model.Rejected:
        raise Discard()
    return processed, serialized


def through(spec, value, format, carried, **params):
    """Send a value through a format with its schema; the text and labels.

    carried: function from the serialized value to what the format delivers, by an independent model of the format.
    """
    processed, serialized = forms(spec, value)
    try:
        delivered = carried(serialized)
    except Unrepresentable:
        raise Discard()
    if uncertain(spec, delivered):
        raise Discard()
    field = build(spec)
    text = field.serialize(value, format, **params)
    require(type(text) is str, 'serialize(%r, %r) returned %r', value, format, text)
    labels = arrives(spec, field, text, format, delivered, processed, 'unserialize(%r, %r)' % (text, format))
    return field, text, serialized, labels


def arrives(spec, field, text, format, delivered, processed, what, **params):
    got = oracle.run(field.unserialize, text, format, **params)
    want = oracle.agree(spec, delivered, IN, True, got)
    if want[0] == 'ok' and difference(processed, want[1]) is None:
        return ['round trip', spec['t']]
    return ['ambiguous', spec['t']]


def independent(read, want, what):
    """The reader gives the value wanted, whatever happens to what it gave before."""
    first = read()
    require_same(want, first, what)
    wreck(first)
    require_same(want, read(), what + ', again')


def wreck(value):
    if isinstance(value, dict):
        for v in list(value.values()):
            wreck(v)
        value.clear()
        value['wrecked'] = True
    elif isinstance(value, list):
        for v in value:
            wreck(v)
        value[:] = ['wrecked']


def large_case(opts, extra=lambda d: {}, **params):
    """A generator of cases with large values for checks of single values."""
    def gen(d):
        spec, value = large.valid(d, opts, **params)
        case = {'spec': spec, 'value': value, 'style': d.draw(1 << 20)}
        case.update(extra(d))
        return case
    return gen


def uncertain(spec, value):
    """Whether reading the serialized value depends on leniency nothing fixes (or on what members of unions make of each other)."""
    t = spec['t']
    if value is None:
        return False
    if t == 'union':
        return any(uncertain(s, value) for s in spec['fields'])
    if t in gens.SCALARS:
        return gens.gray(spec, value, IN, True)
    if t == 'structure' and isinstance(value, dict):
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            on = model.discriminator(spec)
            try:
                definition = model.definition_of(spec, model.process(on, value.get(on['name']), IN, True))
            except (model.Rejected, KeyError, TypeError):
                return True
        return any(k in value and uncertain(s, value[k]) for k, s in definition.items())
    if t == 'map' and isinstance(value, dict):
        return any(uncertain(spec['value'], v) for v in value.values()) or (
            bool(spec.get('key')) and any(gens.gray(spec['key'], k, IN, True) for k in value))
    if t == 'sequence' and isinstance(value, list):
        return any(uncertain(spec['item'], v) for v in value)
    if t == 'tuple' and isinstance(value, (list, tuple)):
        return any(uncertain(s, v) for s, v in zip(spec['values'], value))
    return False


def key_text(k):
    """The text JSON has for a key."""
    if isinstance(k, str):
        return k
    if k is True or k is False:
        return 'true' if k else 'false'
    if k is None:
        return 'null'
    if isinstance(k, (int, float)):
        return repr(k)
    raise Unrepresentable()


def text_keys(value, key=key_text):
    """Tuples as lists, keys as text."""
    if isinstance(value, dict):
        out = dict((key(k), text_keys(v, key)) for k, v in value.items())
        if len(out) != len(value):
            raise Unrepresentable()
        return out
    if isinstance(value, (list, tuple)):
        return [text_keys(v, key) for v in value]
    if value is not None and not isinstance(value, (bool, int, float, str)):
        raise Unrepresentable()
    return value


def has_nonfinite(value):
    if isinstance(value, dict):
        return any(has_nonfinite(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return any(has_nonfinite(v) for v in value)
    return isinstance(value, float) and (value != value or value in (float('inf'), float('-inf')))
