"""C09: whole-value round trip and fixed point through any schema."""
from vf import codec, gens, large, model, oracle
from vf.build import build, walk
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import require, require_same
from vf.prop import Section
from vf.same import same

RULE = ('A value generated for a random schema (any nesting, defaults, null handling, normalisation) is processed, processed '
    'again, serialized, unserialized and serialized again. Processing must be idempotent in both phases and the round trip '
    'must give back the processed value and the identical serialized form. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: accepted, not null, and the schema has '
    'more than one field.')
ASSUMPTIONS = ('Preprocessors are idempotent.', 'Cases whose union an independent model shows to be ambiguous (an earlier '
    'member reads the serialized form of a later one) and null-ignoring fields which are required or have a default are left out, as no round trip is '
    'promised there.', 'Known finding excluded: a binary default below a structure is not put through unserialization.')

OPTS = gens.Opts(depth=3)


def gen(d):
    spec = gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 3) if d.bool(0.85) else gens.a_spec(d, OPTS, 0)
    tame(spec)
    value = gens.candidate(d, spec, IN, False, d.choice((0.0, 0.0, 0.05)), OPTS)
    return {'spec': spec, 'value': value}


def tame(spec):
    for s in walk(spec):
        if s.get('ignore_null'):
            s.pop('default', None)
            s.pop('required', None)
            s.pop('nonempty', None)
            s.pop('ignored_values', None)
        if s.get('pre') in ('inc', 'neg', 'reverse', 'dropx', 'adda', 'again'):
            del s['pre']


def gen_large(d):
    spec, value = large.candidate(d, OPTS, IN, False, 0.0)
    before = codec.dumps(spec)
    tame(spec)
    if codec.dumps(spec) != before or gens.gray_deep(spec, value, IN, False):
        raise Discard()
    return {'spec': spec, 'value': value}


def ambiguous(spec):
    return any(s['t'] in ('union', 'field') for s in walk(spec))


def check(case):
    spec, value = case['spec'], case['value']
    try:
        normal = model.process(spec, value, IN, False)
    except model.Rejected:
        return ['trivial', 'rejected']
    field = build(spec)
    labels = [spec['t']]
    got = oracle.run(field.process, value, IN, False)
    oracle.agree(spec, value, IN, False, got)
    require_same(normal, got[1], 'process(%r)' % (value,))
    has_union = any(s['t'] == 'union' for s in walk(spec))
    # idempotence
    if not (has_union and not idempotent(spec, normal, IN)):
        again = oracle.run(field.process, got[1], IN, False)
        require(again[0] == 'ok', 'the processed value %r of %r is rejected: %s', got[1], value, again[1])
        require_same(normal, again[1], 'processing %r again' % (value,))
    else:
        labels.append('ambiguous union')
    if not (has_union and not idempotent(spec, normal, OUT)):
        native = oracle.run(field.process, got[1], OUT, False)
        require(native[0] == 'ok', 'the processed value %r is rejected outbound: %s', got[1], native[1])
        twice = oracle.run(field.process, native[1], OUT, False)
        require(twice[0] == 'ok', 'the outbound value %r is rejected outbound: %s', native[1], twice[1])
        require_same(native[1], twice[1], 'processing %r outbound again' % (got[1],))
    # round trip
    try:
        written = model.process(spec, normal, OUT, True)
        if has_union and (gens.gray_deep(spec, written, IN, True) or gens.gray_deep(spec, normal, OUT, True)):
            return labels + ['ambiguous union', 'trivial']
        if has_union and not same(model.process(spec, written, IN, True), normal):
            return labels + ['ambiguous union', 'trivial']
    except model.Rejected:
        if has_union:
            return labels + ['ambiguous union', 'trivial']
        raise
    serialized = oracle.run(field.serialize, got[1])
    require(serialized[0] == 'ok', 'the processed value %r cannot be serialized: %s', got[1], serialized[1])
    require_same(written, serialized[1], 'serialize(%r)' % (got[1],))
    back = oracle.run(field.unserialize, serialized[1])
    require(back[0] == 'ok', 'the serialized form %r of %r is rejected: %s', serialized[1], value, back[1])
    require_same(normal, back[1], 'round trip of %r through %r' % (value, serialized[1]))
    final = oracle.run(field.serialize, back[1])
    require(final[0] == 'ok', 'the value %r cannot be serialized again', back[1])
    require_same(serialized[1], final[1], 'second serialization of %r' % (value,))
    if not same(normal, value):
        labels.append('normalised')
    if not same(serialized[1], normal):
        labels.append('serialized differently')
    count = len(list(walk(spec)))
    if value is None or count == 1:
        labels.append('trivial')
    labels.append('%s fields' % ('1' if count == 1 else '2-5' if count < 6 else '6+'))
    return labels


def idempotent(spec, normal, phase):
    try:
        once = model.process(spec, normal, phase, False)
        return phase == OUT and same(model.process(spec, once, phase, False), once) or phase == IN and same(once, normal)
    except model.Rejected:
        return False


SECTIONS = [Section('round trip', gen, check, 40000), Section('large', gen_large, check, 3000)]
