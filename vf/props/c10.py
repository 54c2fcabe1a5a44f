"""C10: a described schema can be rebuilt and behaves the same."""
import copy
import json

from scheme.field import Field

from vf import codec, gens, large, model, oracle
from vf.build import build, children, walk
from vf.describe import expected, missing, native_only, normal, plain, strip_unnatural
from vf.edit import an_edit, edit_field, edit_spec, field_at
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import require, require_same
from vf.prop import Finding, Section
from vf.props.common import root_spec

RULE = ('A random schema with every kind of attribute (titles, notes, aspects, falsy values, bounds, defaults, key orders, '
    'variants) is described. The description must be plain, contain what an independent description of the same specification '
    'contains, its parts must be what the nested fields say of themselves, plain and verbose, and it must stay as it is while fields are rebuilt from it twice, directly, verbosely and through JSON. Each rebuilt '
    'field must describe itself identically and treat values (valid, near-valid, wrong) in all four modes as an independent '
    'model of the original specification says. Once the described field is edited, its descriptions must follow. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the schema has an attribute or a nested field.')
ASSUMPTIONS = ('Defaults and constants holding values which are not natively serializable, and compiled patterns, are documented as '
    'not described.',
    'Clones of enumerations carry an extra descriptive attribute, which is ignored in comparisons.')

OPTS = gens.Opts(depth=2, pre=False, meta=True, patterns=False)


def gen(d):
    spec = root_spec(d, d.choice(OPTS.structural), OPTS) if d.bool(0.7) else gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)
    dated = d.bool(0.25)
    strip_unnatural(spec, dated)
    if dated:
        for s in walk(spec):
            if s['t'] in model.STRUCTURAL and not native_only(s) and d.bool(0.5) and not any(
                    x['t'] in ('binary', 'union', 'field') for x in walk(s)):
                gens.add_default(d, s, OPTS)
    phase, serialized = (IN, True) if dated else (d.choice((IN, OUT)), d.bool())
    values = [gens.candidate(d, spec, phase, serialized, d.choice((0.0, 0.3, 0.8)), OPTS) for _ in range(3)]
    case = {'spec': spec, 'phase': phase, 'serialized': serialized, 'values': values}
    # What no longer fits the schema once it is edited cannot be described.
    if not any(s['t'] in model.STRUCTURAL and ('default' in s or 'required_keys' in s) for s in walk(spec)) and d.bool(0.5):
        work = copy.deepcopy(spec)
        case['edits'] = []
        for _ in range(d.int(1, 2)):
            edit = an_edit(d, work, variants=False)
            for new in [edit['spec']] if 'spec' in edit else edit.get('specs', {}).values():
                strip_unnatural(new)
            case['edits'].append(edit)
            edit_spec(work, edit)
        case['later'] = [gens.candidate(d, work, phase, serialized, d.choice((0.0, 0.3)), OPTS) for _ in range(2)]
    return case


def gen_large(d):
    phase, serialized = d.choice((IN, OUT)), d.bool()
    spec, value = large.candidate(d, OPTS, phase, serialized, d.choice((0.0, 0.1)), kinds=('deep', 'wide', 'tuple', 'keys'), top=130)
    strip_unnatural(spec)
    if gens.gray_deep(spec, value, phase, serialized):
        raise Discard()
    return {'spec': spec, 'phase': phase, 'serialized': serialized, 'values': [value]}


# every field has it, no description states it unless asked
FURTHER = {'basetype': None}


def check(case):
    spec = case['spec']
    field = build(spec)
    description = field.describe()
    require(plain(description), 'the description %r is not natively serializable', description)
    found = missing(expected(spec), description)
    require(not found, '%s', found)
    text = codec.dumps(description)
    rebuilt = Field.reconstruct(description)
    again = Field.reconstruct(description)
    verbose = field.describe(verbose=True)
    found = missing(expected(spec), verbose)
    require(not found, 'verbose: %s', found)
    further = field.describe(FURTHER)
    require(further.get('basetype') == field.basetype, 'a further parameter is not described: %r', further)
    for key, child in children(spec):
        if isinstance(key, tuple) and (key[0] == '*' or key[1] == model.discriminator(spec)['name']):
            continue
        nested = field_at(field, [key])
        require_same(nested.describe(), part(description, key), 'the part of %r' % (key,))
        require_same(nested.describe(verbose=True), part(verbose, key), 'the verbose part of %r' % (key,))
        require_same(nested.describe(FURTHER), part(further, key), 'the part of %r with a further parameter' % (key,))
    from_verbose = Field.reconstruct(verbose)
    fields = [('rebuilt', rebuilt), ('rebuilt again', again), ('rebuilt from verbose', from_verbose)]
    labels = [spec['t']]
    if all(text_keys(s.get('default')) for s in walk(spec)):
        # JSON turns other keys of a default into text
        fields.append(('rebuilt from JSON', Field.reconstruct(json.loads(json.dumps(description)))))
    dated = any('default' in s and not native_only(s) for s in walk(spec))
    if not dated:
        fields.append(('rebuilt from its own description', Field.reconstruct(rebuilt.describe())))
    require(codec.dumps(description) == text, 'rebuilding changed the description %s into %r', text, description)
    for what, other in fields:
        require(type(other) is type(field), '%s: a %s, expected a %s', what, type(other).__name__, type(field).__name__)
        if not dated:       # known finding: the rebuilt default is text
            require_same(normal(description), normal(other.describe()), 'description when ' + what)
    for what, other in fields[:1] + fields[2:3] + [f for f in fields if f[0] == 'rebuilt from JSON']:
        for value in case['values']:
            got = oracle.run(other.process, value, case['phase'], case['serialized'])
            try:
                want = oracle.agree(spec, value, case['phase'], case['serialized'], got)
            except Exception as error:
                error.args = ('%s: %s' % (what, error.args[0] if error.args else error),)
                raise
            labels.append('accepted' if want[0] == 'ok' else 'rejected')
    if case.get('edits'):
        spec = copy.deepcopy(spec)
        for edit in case['edits']:
            edit_field(field, edit)
            edit_spec(spec, edit)
        for s in walk(spec):
            for flag in ('required', 'nonnull', 'ignore_null'):
                if s.get(flag) is False:
                    del s[flag]         # as if not declared
        for description in (field.describe(), field.describe(verbose=True)):
            found = missing(expected(spec), description)
            require(not found, 'edited: %s', found)
            other = Field.reconstruct(description)
            for value in case['later']:
                if not gens.gray_deep(spec, value, case['phase'], case['serialized']):
                    oracle.agree(spec, value, case['phase'], case['serialized'],
                        oracle.run(other.process, value, case['phase'], case['serialized']))
        labels.append('edited')
    if dated:
        labels.append('dated defaults')
    if len(spec) == 1:
        labels.append('trivial')
    return labels


def part(description, key):
    t = description['fieldtype']
    if isinstance(key, tuple):
        return description['structure'][key[0]][key[1]]
    return description[{'tuple': 'values', 'union': 'fields', 'structure': 'structure'}[t]][key] \
        if t in ('tuple', 'union', 'structure') else description[key]


def text_keys(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) and text_keys(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(text_keys(x) for x in v)
    return True


def date_default():
    from datetime import date
    from scheme import Date, Structure
    field = Structure({'a': Structure({'b': Date()}, default={'b': date(2000, 1, 1)})})
    other = Field.reconstruct(field.describe())
    try:
        return other.process({}) != field.process({})
    except Exception:
        return True


def fieldtype_key():
    from scheme import Structure, Text
    try:
        Field.reconstruct(Structure({'fieldtype': Text()}).describe())
        return False
    except Exception:
        return True


def recursive():
    from scheme import Sequence, Structure, Undefined
    undefined = Undefined()
    field = Structure({'a': Sequence(undefined)}, name='s')
    undefined.define(field)
    try:
        field.describe()
        return False
    except RecursionError:
        return True


FINDINGS = [
    Finding('structural-default-dates', 'a structural default holding dates, times or decimals is described in serialized '
        'form and rebuilt as that text, so native processing rejects the rebuilt default', date_default),
    Finding('key-named-fieldtype', "a structure with a key named 'fieldtype' cannot be rebuilt from its description",
        fieldtype_key),
    Finding('recursive-schemas-undescribable', 'describing a schema which contains itself never terminates '
        '(RecursionError)', recursive),
]

SECTIONS = [Section('rebuild', gen, check, 22000), Section('large', gen_large, check, 600)]
