"""C01: scalar fields accept exactly the values their declaration allows."""
from vf import gens, large, oracle
from vf.build import build
from vf.decoy import decoys, use
from vf.model import IN, OUT
from vf.prop import Section

RULE = ('A scalar field of a random type with random constraints (bounds, lengths, pattern, segments, members, constant, '
    'null handling, preprocessor) processes candidate values, in either phase, natively or serialized; candidates are drawn '
    'valid, on and just outside each constraint, malformed, or of other types. The outcome (value, or error kind, token and '
    'path) is compared with an independent model. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Some fields live beside lookalikes, declared and used before and after them, which differ in a '
    'parameter or two. Non-trivial: the value is not null.')
ASSUMPTIONS = ('Inputs whose treatment neither the documentation nor the property fixes (for instance numeric text with '
    'underscores or padding, bool for a float, datetime for a date) are left out.',)

OPTS = gens.Opts(datetimes=True, structural=(), depth=0)


def gen(d):
    t = d.choice(gens.SCALARS)
    spec = gens.scalar_spec(d, t, OPTS)
    if d.bool(0.5):
        spec['name'] = d.choice(gens.IDENTIFIERS)
    phase = d.choice((IN, OUT))
    serialized = d.bool(0.5)
    bad = d.choice((0.25, 0.6, 0.9))
    values = [gens.candidate(d, spec, phase, serialized, bad, OPTS) for _ in range(d.int(1, 4))]
    case = {'spec': spec, 'phase': phase, 'serialized': serialized, 'values': values}
    others = decoys(d, spec, 0.2)
    if others:
        case['decoys'] = others
    return case


def gen_large(d):
    spec, values = large.scalar(d)
    phase, serialized = d.choice((IN, OUT)), d.bool()
    reading = serialized and phase == IN
    values = [gens.present(d, spec, v, reading) for v in values]
    return {'spec': spec, 'phase': phase, 'serialized': serialized,
        'values': [v for v in values if not gens.gray(spec, v, phase, serialized)]}


def check(case):
    spec = case['spec']
    labels = [spec['t']]
    others = case.get('decoys', ())
    if others:
        use(others[:1], case['values'])
        labels.append('beside others')
    field = build(spec)
    use(others[1:], case['values'])
    trivial = True
    for value in case['values']:
        got = oracle.run(field.process, value, case['phase'], case['serialized'])
        want = oracle.agree(spec, value, case['phase'], case['serialized'], got)
        if value is not None:
            trivial = False
        if want[0] == 'ok':
            labels.append('accepted')
        else:
            labels.append(want[1].kind)
            labels.extend(oracle.rejection_labels(want[1]))
    labels.append('%s/%s' % (case['phase'], 'serialized' if case['serialized'] else 'native'))
    if trivial:
        labels.append('trivial')
    return labels


SECTIONS = [Section('accept', gen, check, 110000), Section('large', gen_large, check, 3000)]
