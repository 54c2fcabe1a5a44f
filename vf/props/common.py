"""Sections shared by the properties about processing."""
from vf import gens, large, model, oracle
from vf.build import build
from vf.decoy import decoys, use
from vf.engine import Discard
from vf.model import IN, OUT
from vf.same import same


def root_spec(d, t, opts):
    spec = gens.structural_spec(d, t, opts, opts.depth)
    if d.bool(0.4):
        spec['name'] = d.choice(gens.IDENTIFIERS)
    return spec


def process_gen(types, opts, partial=False):
    def gen(d):
        spec = root_spec(d, d.choice(types), opts)
        phase = d.choice((IN, OUT))
        serialized = d.bool(0.5)
        bad = d.choice((0.0, 0.15, 0.4, 0.8))
        values = [gens.candidate(d, spec, phase, serialized, bad, opts) for _ in range(d.int(1, 3))]
        case = {'spec': spec, 'phase': phase, 'serialized': serialized, 'values': values}
        if partial and d.bool(0.25):
            case['partial'] = True
        others = decoys(d, spec, 0.15)
        if others:
            case['decoys'] = others
        return case
    return gen


def large_gen(opts, kinds=large.KINDS):
    def gen(d):
        phase, serialized = d.choice((IN, OUT)), d.bool(0.5)
        spec, value = large.candidate(d, opts, phase, serialized, d.choice((0.0, 0.0, 0.1, 0.5)), kinds=kinds)
        if gens.gray_deep(spec, value, phase, serialized):
            raise Discard()
        return {'spec': spec, 'phase': phase, 'serialized': serialized, 'values': [value]}
    return gen


def process_labels(spec, case, value, want):
    labels = []
    if value is None:
        return ['null']
    labels.append('nontrivial')
    if want[0] == 'ok':
        labels.append('accepted')
        if not same(value, want[1]):
            labels.append('changed')
        if not want[1]:
            labels.append('empty')
    else:
        labels.extend(oracle.rejection_labels(want[1]))
        found = model_leaves(want[1])
        for leaf in found:
            labels.append('leaf:%s' % leaf.token)
        if len(found) > 1:
            labels.append('several failures')
    return labels


def model_leaves(r):
    return oracle.leaves(r)


def process_check(extra=None):
    def check(case):
        spec = case['spec']
        others = case.get('decoys', ())
        use(others[:1], case['values'])
        field = build(spec)
        use(others[1:], case['values'])
        labels = ['%s/%s' % (case['phase'], 'serialized' if case['serialized'] else 'native'), spec['t']]
        if others:
            labels.append('beside others')
        for value in case['values']:
            if case.get('partial'):
                got = oracle.run(field.process, value, case['phase'], case['serialized'], partial=True)
                labels.append('partial')
            else:
                got = oracle.run(field.process, value, case['phase'], case['serialized'])
            want = oracle.agree(spec, value, case['phase'], case['serialized'], got, case.get('partial', False))
            labels.extend(process_labels(spec, case, value, want))
            if extra:
                labels.extend(extra(spec, case, value, want))
        if 'nontrivial' not in labels:
            labels.append('trivial')
        return labels
    return check
