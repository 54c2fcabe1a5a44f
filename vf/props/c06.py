"""C06: a union is decided by its first member whose type matches."""
from vf import gens, large, model
from vf.engine import Discard
from vf.model import IN, OUT
from vf.prop import Section
from vf.props.common import process_check, process_gen

RULE = ('A random union of one to three members (scalars, structures, sequences, maps, tuples, unions) processes values meant '
    'for any of its members or for none, in either phase, natively or serialized; the outcome is compared with an independent '
    'model, which takes the first member that does not reject the type. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: some value is not null.')
ASSUMPTIONS = ()

OPTS = gens.Opts(depth=2, constants=True)


def extra(spec, case, value, want):
    labels = []
    if value is not None:
        for i, member in enumerate(spec['fields']):
            try:
                model.process(member, value, case['phase'], case['serialized'])
            except model.Rejected as r:
                if r.kind == 'type':
                    continue
                labels.append('failed by member')
            labels.append('decided by member %d' % i)
            break
        else:
            labels.append('no member')
    return labels


def gen_large(d):
    phase, serialized = d.choice((IN, OUT)), d.bool(0.5)
    spec, value = large.candidate(d, OPTS, phase, serialized, d.choice((0.0, 0.0, 0.1, 0.5)))
    fields = [gens.a_spec(d, OPTS, 1) for _ in range(d.draw(3))]
    fields.insert(d.draw(len(fields)), spec)
    spec = {'t': 'union', 'fields': fields}
    if gens.gray_deep(spec, value, phase, serialized):
        raise Discard()
    return {'spec': spec, 'phase': phase, 'serialized': serialized, 'values': [value]}


SECTIONS = [Section('process', process_gen(('union',), OPTS), process_check(extra), 50000),
    Section('large', gen_large, process_check(extra), 3000)]
