"""C36: a schema answers for what it is now, whatever it was asked or was before."""
import copy

from scheme.exceptions import StructuralError
from scheme.field import Field

from vf import gens
from vf.build import build, walk
from vf.describe import normal
from vf.edit import an_edit, edit_field, edit_spec
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import fail
from vf.prop import Section
from vf.props.c11 import hooks
from vf.same import difference

RULE = ('Random schemas live through histories of up to ten steps. In a step the schema is edited anywhere in its depth (keys inserted, '
    'merged, removed, enumerations redefined, attributes and aspects assigned) or exchanged for its clone, or left as it is, and is '
    'then asked up to four things: for its description, plain and verbose, to process values in every mode, to extract, instantiate, '
    'interpolate, filter, screen and transform, for its required keys and defaults; some questions are repeated at every step. Every '
    'answer, results, failures and error reports alike, must be the one a field gives which is built afresh from what the schema '
    'is by then and is asked nothing else. Non-trivial: some question was asked before and after an edit.')
ASSUMPTIONS = ('The internal aspects clones of enumerations and datetimes mention are left out of descriptions.',
    'Generated defaults are worked out when the schema is declared, so schemas asking for them are left out.')

OPTS = gens.Opts(depth=2, meta=True)


def called(*args):
    return 'called', [a for a in args if not isinstance(a, Field)]


TABLE = {'inst': lambda name: called, 'ext': lambda name: called}
ASKS = ('process', 'process', 'process', 'describe', 'describe', 'verbose', 'extract', 'instantiate', 'interpolate', 'filter',
    'screen', 'transform', 'required', 'defaults', 'all defaults', 'clone', 'serialize', 'unserialize')


def an_ask(d, spec):
    kind = d.choice(ASKS)
    ask = {'kind': kind}
    if kind == 'process':
        ask['phase'], ask['serialized'] = d.choice((IN, OUT)), d.bool()
        ask['value'] = gens.candidate(d, spec, ask['phase'], ask['serialized'], d.choice((0.0, 0.2, 0.6)), OPTS)
    elif kind in ('serialize', 'unserialize'):
        ask['format'] = d.choice((None, 'json', 'structuredtext'))
        value = gens.candidate(d, spec, OUT if kind == 'serialize' else IN, kind == 'unserialize', d.choice((0.0, 0.3)), OPTS)
        ask['value'] = value
        if kind == 'unserialize':
            ask['format'] = None
    elif kind in ('extract', 'instantiate', 'interpolate'):
        ask['value'] = gens.candidate(d, spec, OUT, False, d.choice((0.0, 0.2)), OPTS)
        if kind == 'interpolate':
            ask['value'] = placeholders(d, ask['value'])
    elif kind in ('filter', 'screen'):
        ask['all'] = d.bool(0.3)
        ask['params'] = dict((k, d.choice((True, False, None, 'x', 3))) for k in
            d.subset(('required', 'nonnull', 'title') + gens.META_KEYS, 0.3))
    elif kind == 'transform':
        ask['type'] = d.choice(('text', 'integer', 'structure', 'sequence', 'enumeration', 'date'))
        ask['drop'] = d.bool(0.3)
    return ask


def placeholders(d, v):
    if isinstance(v, dict):
        return dict((k, placeholders(d, x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v)(placeholders(d, x) for x in v)
    if isinstance(v, str) and d.bool(0.5):
        return '${%s}' % d.choice(('a', 'b', 'missing'))
    return v


def gen(d):
    spec = gens.structural_spec(d, d.choice(OPTS.structural + ('structure',) * 3), OPTS, d.choice((1, 2, 2))) if d.bool(0.9) else \
        gens.scalar_spec(d, d.choice(gens.SCALARS + ('enumeration', 'enumeration')), OPTS)
    if d.bool(0.5):
        spec['name'] = d.choice(gens.IDENTIFIERS)
    if d.bool(0.3):
        spec = hooks(d, spec)
    if any('generate_default' in s for s in walk(spec)):
        raise Discard()
    work = copy.deepcopy(spec)
    lasting = [an_ask(d, work) for _ in range(d.int(0, 2))]
    steps = []
    for _ in range(d.int(1, 4) + d.size(0, 6)):
        kind = d.choice(('edit', 'edit', 'edit', 'edit', 'keep', 'clone'))
        step = {'kind': kind}
        if kind == 'edit':
            step['edits'] = []
            for _ in range(d.int(1, 2)):
                edit = an_edit(d, work, variants=False, keys=d.bool(0.6))
                step['edits'].append(edit)
                edit_spec(work, edit)
        step['asks'] = lasting + [an_ask(d, work) for _ in range(d.int(0, 2))]
        steps.append(step)
    return {'spec': spec, 'first': lasting, 'steps': steps}


def report(error):
    try:
        shown = error.serialize()
    except Exception as e:
        shown = type(e).__name__
    # The text shows fields, whose keys come in any order.
    return type(error).__name__, shown, ''.join(sorted(str(error))), getattr(error, 'identity', None)


def described(field):
    found = normal(field.describe())
    return without_zone(found)


def without_zone(v):
    if isinstance(v, dict):
        out = dict((k, without_zone(x)) for k, x in v.items())
        if out.get('fieldtype') == 'datetime':
            out.pop('timezone', None)
        return out
    if isinstance(v, (list, tuple)):
        return [without_zone(x) for x in v]
    return v


def answer(field, ask):
    """The outcome of asking, in comparable form."""
    kind = ask['kind']
    value = copy.deepcopy(ask.get('value'))
    try:
        if kind == 'process':
            got = field.process(value, ask['phase'], ask['serialized'])
        elif kind == 'serialize':
            got = field.serialize(value, ask['format'])
        elif kind == 'unserialize':
            got = field.unserialize(value, ask['format'])
        elif kind == 'describe':
            got = described(field)
        elif kind == 'verbose':
            got = without_zone(normal(field.describe(verbose=True)))
        elif kind == 'extract':
            got = field.extract(value)
        elif kind == 'instantiate':
            got = field.instantiate(value)
        elif kind == 'interpolate':
            got = field.interpolate(value, {'a': 1, 'b': 'text'})
        elif kind == 'filter':
            got = field.filter(ask['all'], **ask['params'])
        elif kind == 'screen':
            got = bool(field.screen(**ask['params']))
        elif kind == 'transform':
            got = field.transform(transformer(ask))
        elif kind == 'required':
            got = field.has_required_fields if field.type == 'structure' else None
        elif kind == 'defaults':
            got = field.generate_defaults() if field.type == 'structure' else None
        elif kind == 'all defaults':
            got = field.generate_defaults(sparse=False) if field.type == 'structure' else None
        else:
            got = field.clone()
    except StructuralError as error:
        return ['error'] + list(report(error))
    except Exception as error:
        return ['exception', type(error).__name__]
    if isinstance(got, Field):
        try:
            got = described(got)
        except Exception as error:
            got = 'undescribed: %s' % type(error).__name__
    if kind == 'serialize' and ask['format'] and isinstance(got, str):
        got = ''.join(sorted(got))      # keys come in any order
    return ['answer', got]


def transformer(ask):
    def transform(field):
        if field.type != ask['type']:
            return True
        return False if ask['drop'] else field.clone(title='changed')
    return transform


def show(ask):
    return ', '.join('%s=%r' % (k, v) for k, v in sorted(ask.items()))


def check(case):
    spec = copy.deepcopy(case['spec'])
    field = build(spec, TABLE)
    labels = []
    asked = set()
    changed = set()
    for number, step in enumerate([{'kind': 'keep', 'asks': case['first']}] + case['steps']):
        if step['kind'] == 'edit':
            for edit in step['edits']:
                edit_field(field, edit)
                edit_spec(spec, edit)
                labels.append(edit['kind'])
            changed = set(asked)
        elif step['kind'] == 'clone':
            field = field.clone()
        for ask in step['asks']:
            got = answer(field, ask)
            want = answer(build(copy.deepcopy(spec), TABLE), ask)
            found = difference(want, got, 'the answer')
            if found:
                fail('after %d steps, asked for %s: %s', number, show(ask), found)
            labels.append('%s: %s' % (ask['kind'], want[0]))
            if ask['kind'] in changed:
                labels.append('asked before and after')
            asked.add(ask['kind'])
    if 'asked before and after' not in labels:
        labels.append('trivial')
    return labels


SECTIONS = [Section('histories', gen, check, 10000)]
