"""C11: a cloned field behaves the same and is independent."""
import copy

from vf import gens, model, oracle
from vf.build import build, children
from vf.edit import an_edit, edit_field, edit_spec
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import require
from vf.prop import Section
from vf.views import require_view, view

RULE = ('A random schema (all attributes, custom errors, hooks and preprocessors, polymorphic and ordered structures) is cloned, '
    'directly, by copying, and again from the clone. The clone must have the type and every attribute of the original and treat '
    'values in all four modes as an independent model of the specification says; a clone with overrides must differ in exactly '
    'those. Then a random history of edits at any depth is carried out on one of the two: the other must stay as it was, and each '
    'must behave as the model of its own (edited) specification. Non-trivial: the schema has an attribute or a nested field.')
ASSUMPTIONS = ('Clones of enumerations and datetimes mention internal attributes (representation, timezone) among their aspects; '
    'these are ignored.', 'Defaults are shared between a field and its clones.')

OPTS = gens.Opts(depth=2, meta=True)
ERRORS = (('invalid', 'custom title', 'custom %(field)s'), ('nonnull', 'no nulls', 'no nulls in %(field)s'),
    ('extra', 'extra', 'extra message'))


def gen(d):
    spec = gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 2) if d.bool(0.75) else \
        gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)
    if d.bool(0.5):
        spec['name'] = d.choice(gens.IDENTIFIERS)
    spec = hooks(d, spec)
    case = {'spec': spec, 'phase': d.choice((IN, OUT)), 'serialized': d.bool()}
    changes = overrides(d, spec) if d.bool(0.6) else {}
    if changes:
        case['overrides'] = changes
    work = copy.deepcopy(spec)
    edits = []
    for _ in range(d.size(0, 4)):
        edit = an_edit(d, work)
        edits.append(edit)
        edit_spec(work, edit)
    case['edits'] = edits
    case['edit clone'] = d.bool()
    case['values'] = [gens.candidate(d, s, case['phase'], case['serialized'], d.choice((0.0, 0.3, 0.8)), OPTS)
        for s in (spec, work, work)]
    return case


def hooks(d, spec):
    if d.bool(0.15):
        spec['errors'] = d.subset(ERRORS, 0.5)
    if d.bool(0.1):
        spec['inst'] = 'called'
    if d.bool(0.1):
        spec['ext'] = 'called'
    for _, child in children(spec):
        hooks(d, child)
    return spec


def called(*args):
    return args


TABLE = {'inst': lambda name: called, 'ext': lambda name: called}


def overrides(d, spec):
    """Keyword overrides as a partial specification."""
    t = spec['t']
    options = [('title', d.choice(('New', ''))), ('description', 'new words'), ('required', d.bool()), ('nonnull', d.bool()),
        ('ignore_null', d.bool()), ('notes', 'new notes'), ('name', 'renamed'), ('level', d.choice((3, 'x', False)))]
    if t in ('text', 'binary', 'email'):
        options += [('min_length', d.choice((1, 2, 3))), ('max_length', d.choice((4, 5)))] * 2
    elif t == 'integer':
        options += [('minimum', d.choice((None, 0, -3))), ('maximum', d.choice((None, 0, 7)))] * 2
    elif t == 'enumeration':
        options += [('enumeration', d.choice((['a', 'b'], [1, 2], ['zz'])))] * 3
    elif t == 'token':
        options += [('segments', d.choice((None, 1, 2)))] * 2
    elif t == 'structure':
        options += [('strict', d.bool())] * 2
        if 'polymorphic_on' not in spec:
            options += [('structure', dict((n, gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)) for n in d.subset('abc', 0.5)))] * 2
    elif t == 'sequence':
        options += [('min_length', d.choice((None, 0, 1))), ('max_length', d.choice((None, 2, 3))), ('unique', d.bool()),
            ('item', gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS))]
    elif t == 'map':
        options += [('value', gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)), ('required_keys', d.choice((None, ['a'], ['a', 'b'])))] * 2
    elif t == 'tuple':
        options += [('values', [gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS) for _ in range(d.int(1, 2))])] * 2
    elif t == 'union':
        options += [('fields', [gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS) for _ in range(d.int(1, 2))])] * 2
    chosen = dict(d.choice(options) for _ in range(d.int(1, 3)))
    if spec.get('nonempty'):
        chosen.pop('required', None)
        chosen.pop('nonnull', None)
    if 'structure' in chosen or 'values' in chosen or 'fields' in chosen or 'item' in chosen or 'value' in chosen:
        if spec.get('default') is not None:
            chosen['default'] = None
    return chosen


def override_params(changes):
    params = {}
    for k, v in changes.items():
        if k == 'structure':
            v = dict((n, build(s)) for n, s in v.items())
        elif k in ('values', 'fields'):
            v = [build(s) for s in v]
        elif k in ('item', 'value'):
            v = build(v)
        params[k] = v
    return params


def overridden(spec, changes):
    spec = copy.deepcopy(spec)
    for k, v in changes.items():
        if k == 'level':
            spec['extra'] = dict(spec.get('extra', {}), level=v)
        else:
            spec[k] = copy.deepcopy(v)
    if spec['t'] == 'structure' and 'structure' in changes:
        pass
    return spec


def behaves(spec, field, case, what, labels=None):
    for value in case['values']:
        if gens.gray_deep(spec, value, case['phase'], case['serialized']):
            continue
        got = oracle.run(field.process, value, case['phase'], case['serialized'])
        try:
            want = oracle.agree(spec, value, case['phase'], case['serialized'], got)
        except Exception as error:
            error.args = ('%s: %s' % (what, error.args[0] if error.args else error),)
            raise
        if labels is not None:
            labels.append('accepted' if want[0] == 'ok' else 'rejected')


def errors_of(field):
    return dict((k, (e.token, e.title, e.message)) for k, e in field.errors.items())


def check(case):
    spec = case['spec']
    field = build(spec, TABLE)
    before = view(field)
    clones = [('clone', field.clone()), ('copy', copy.deepcopy(field))]
    clones.append(('clone of the clone', clones[0][1].clone()))
    labels = [spec['t']] + [e['kind'] for e in case['edits']]
    for what, other in clones:
        require(other is not field and type(other) is type(field), '%s is %r', what, other)
        require_view(before, view(other), what)
        require(errors_of(other) == errors_of(field), '%s: errors %r, expected %r', what, errors_of(other), errors_of(field))
        behaves(spec, other, case, what, labels if what == 'clone' else None)
    require_view(before, view(field), 'the original after cloning')

    if case.get('overrides'):
        changed = overridden(spec, case['overrides'])
        other = field.clone(**override_params(case['overrides']))
        labels.append('overridden')
        require_view(before, view(field), 'the original after cloning with overrides')
        reference = view(build(changed, TABLE))
        require_view(reference, view(other), 'clone with %r' % sorted(case['overrides']))
        behaves(changed, other, case, 'clone with %r' % sorted(case['overrides']))

    edited, kept = clones[0][1], field
    if not case['edit clone']:
        edited, kept = kept, edited
    work = copy.deepcopy(spec)
    for edit in case['edits']:
        edit_field(edited, edit)
        edit_spec(work, edit)
        require_view(before, view(kept), 'the %s after %s of the other' % ('original' if kept is field else 'clone', edit['kind']))
    if case['edits']:
        behaves(work, edited, case, 'edited')
        behaves(spec, kept, case, 'unedited')
        again = edited.clone()
        require_view(view(edited), view(again), 'clone of the edited field')
        behaves(work, again, case, 'clone of the edited field')
    if len(spec) == 1:
        labels.append('trivial')
    return labels


def recursive():
    from scheme import Sequence, Structure, Undefined
    undefined = Undefined()
    field = Structure({'a': Sequence(undefined)}, name='s')
    undefined.define(field)
    try:
        field.clone()
        return False
    except RecursionError:
        return True


from vf.prop import Finding  # noqa
FINDINGS = [Finding('recursive-schemas-uncloneable', 'cloning a schema which contains itself never terminates '
    '(RecursionError)', recursive)]

SECTIONS = [Section('clones', gen, check, 12000)]
