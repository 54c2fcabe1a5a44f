"""C04: maps validate every key and value and require the required keys."""
from vf import gens
from vf.prop import Section
from vf.props.common import large_gen, process_check, process_gen

RULE = ('A random map (with or without a key field of any scalar type, required keys, any value field nested to depth 2) '
    'processes up to three mappings with valid, invalid, missing and surplus entries, in either phase, natively or serialized; '
    'result or error tree compared with an independent model. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: some value is not null.')
ASSUMPTIONS = ('Mappings whose keys become equal when processed (1 and "1" for an integer key) are left out.',)

OPTS = gens.Opts(depth=2)


def extra(spec, case, value, want):
    return (['keyed'] if spec.get('key') else ['plain keys']) + (['required keys'] if spec.get('required_keys') else [])


base = process_gen(('map',), OPTS)


def gen(d):
    """Sometimes a required key is spelled as it is before key processing, or as another key is after it."""
    case = base(d)
    spec = case['spec']
    if spec.get('key') and 'default' not in spec and d.bool(0.15):
        keys = [k for v in case['values'] for k in (v if isinstance(v, dict) else ())]
        kinds = (str,) if spec['key']['t'] not in ('integer', 'float', 'boolean') else (str, int, float)
        keys = [k for k in keys if type(k) in kinds and k == k]
        if keys:
            spec['required_keys'] = [d.choice(keys)] + [k for k in spec.get('required_keys') or () if d.bool()]
    return case


SECTIONS = [Section('process', gen, process_check(extra), 50000),
    Section('large', large_gen(OPTS, ('keys', 'deep')), process_check(extra), 3000)]
