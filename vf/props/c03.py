"""C03: structures keep, default, require and reject keys as declared."""
from vf import gens
from vf.prop import Section
from vf.props.common import large_gen, process_check, process_gen

RULE = ('A random structure (strict or not, plain or polymorphic, with defaults, required and null-ignoring keys, key orders, '
    'awkward key names, nested to depth 3) processes up to three mappings with keys missing, added, null, defaulted, reordered '
    'or invalid, in either phase, natively or serialized, fully or partially. The result, or the whole error tree with its '
    'valid siblings, is compared with an independent model. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: some value is not null.')
ASSUMPTIONS = ('A declared key order names every key of the structure.',)

OPTS = gens.Opts(datetimes=True, depth=3)


def extra(spec, case, value, want):
    labels = []
    if 'polymorphic_on' in spec:
        labels.append('polymorphic')
    elif isinstance(value, dict) and want[0] == 'ok':
        if set(want[1]) - set(value):
            labels.append('defaulted')
        if set(value) - set(want[1]):
            labels.append('dropped')
    if spec.get('key_order'):
        labels.append('ordered')
    return labels


SECTIONS = [Section('process', process_gen(('structure',), OPTS, True), process_check(extra), 40000),
    Section('large', large_gen(OPTS, ('wide', 'deep')), process_check(extra), 3000)]
