"""C13: transforming a schema replaces exactly the chosen fields."""
import copy

from vf import gens, large, model, oracle
from vf.build import build, children, walk
from vf.model import IN, OUT
from vf.oracle import require
from vf.prop import Section
from vf.props.c10 import recursive
from vf.views import require_view, view

RULE = ('Every field of a random schema is numbered; a random transformer descends, keeps (false), returns the field itself, or '
    'returns another field, by number. The numbers it is offered must be exactly those the specification says, each field after '
    'the one containing it; the result must equal, attribute by attribute, and behave as the specification with the replacements '
    'made; the original must be untouched, and the very same object must come back when nothing was replaced. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the '
    'schema is nested.')
ASSUMPTIONS = ('Discriminators of polymorphic structures are not replaced.',)

OPTS = gens.Opts(depth=3)


def number(spec, counter):
    spec['aspects'] = {'nid': counter[0]}
    counter[0] += 1
    if spec['t'] == 'structure' and isinstance(spec.get('polymorphic_on'), dict):
        spec['polymorphic_on']['aspects'] = {'nid': 'on'}
    for _, child in children(spec):
        number(child, counter)
    return counter[0]


def gen(d):
    spec = gens.structural_spec(d, d.choice(OPTS.structural), OPTS, d.choice((1, 2, 3)))
    count = number(spec, [0])
    actions = {}
    p = d.choice((0.0, 0.1, 0.25, 0.5))
    for i in range(count):
        if d.bool(p):
            kind = d.choice(('replace', 'replace', 'false', 'same', 'clone'))
            action = {'kind': kind}
            if kind == 'replace':
                action['spec'] = gens.a_spec(d, OPTS, d.choice((0, 0, 1)))
            actions[str(i)] = action
    replaced = [i for i in sorted(actions) if actions[i]['kind'] == 'replace']
    if len(replaced) > 1 and d.bool(0.4):
        # several fields are replaced by the very same one, which has a name of its own
        shared = dict(actions[replaced[0]]['spec'], name='shared')
        for i in replaced[:d.int(2, len(replaced))]:
            actions[i] = {'kind': 'replace', 'spec': shared, 'shared': True}
    case = {'spec': spec, 'actions': actions, 'phase': d.choice((IN, OUT)), 'serialized': d.bool()}
    result, _, replaced = transformed(spec, actions)
    if replaced:
        # a default meant for what was replaced may not fit any more
        for s in walk(result):
            s.pop('default', None)
        spec = strip_defaults(spec)
        case['spec'] = spec
        result = transformed(spec, actions)[0]
    case['values'] = [gens.candidate(d, s, case['phase'], case['serialized'], d.choice((0.0, 0.3)), OPTS)
        for s in (result, result, spec)]
    return case


def gen_large(d):
    phase, serialized = d.choice((IN, OUT)), d.bool()
    spec, value = large.candidate(d, OPTS, phase, serialized, d.choice((0.0, 0.1)), kinds=('deep', 'wide', 'tuple'), top=130)
    spec = large.unshared(spec)
    count = number(spec, [0])
    actions = {}
    for _ in range(d.draw(2)):
        kind = d.choice(('replace', 'false', 'same', 'clone'))
        actions[str(d.draw(count - 1))] = dict([('kind', kind)] + [('spec', gens.a_spec(d, OPTS, 0))] * (kind == 'replace'))
    case = {'spec': spec, 'actions': actions, 'phase': phase, 'serialized': serialized, 'values': []}
    if transformed(spec, actions)[2]:
        case['spec'] = strip_defaults(spec)
    elif not gens.gray_deep(spec, value, phase, serialized):
        case['values'] = [value]
    return case


def strip_defaults(spec):
    spec = copy.deepcopy(spec)
    for s in walk(spec):
        s.pop('default', None)
    return spec


def transformed(spec, actions):
    """(specification after, numbers offered in some order, whether anything was replaced)."""
    nid = spec['aspects']['nid']
    action = actions.get(str(nid))
    offered = [(nid, None)]
    if action and action['kind'] == 'replace':
        return copy.deepcopy(action['spec']), offered, True
    if action and action['kind'] == 'clone':
        return spec, offered, True
    if action:
        return spec, offered, False
    t = spec['t']
    replaced = [False]

    def visit(child, times=1):
        after, numbers, changed = transformed(child, actions)
        offered.extend((n, nid if parent is None else parent) for n, parent in numbers * times)
        replaced[0] = replaced[0] or changed
        return after

    out = dict(spec)
    if t == 'structure' and 'polymorphic_on' in spec:
        on = model.discriminator(spec)
        common = spec.get('common', {})
        out['structure'] = dict((i, dict((k, visit(s)) for k, s in fields.items() if k not in common and k != on['name']))
            for i, fields in spec['structure'].items())
        if common:
            out['common'] = dict((k, visit(s, len(spec['structure']))) for k, s in common.items())
        offered.extend([('on' if isinstance(spec['polymorphic_on'], dict) else None, nid)] * len(spec['structure']))
    elif t == 'structure':
        out['structure'] = dict((k, visit(s)) for k, s in spec['structure'].items())
    elif t == 'sequence':
        out['item'] = visit(spec['item'])
    elif t == 'map':
        out['value'] = visit(spec['value'])
    elif t == 'tuple':
        out['values'] = [visit(s) for s in spec['values']]
    elif t == 'union':
        out['fields'] = [visit(s) for s in spec['fields']]
    return out, offered, replaced[0]


def check(case):
    spec, actions = case['spec'], case['actions']
    want, offered, replaced = transformed(spec, actions)
    field = build(spec)
    before = view(field)
    seen, shared = [], []

    def transformer(candidate):
        nid = candidate.aspects.get('nid')
        seen.append(nid)
        action = actions.get(str(nid))
        if action is None:
            return None
        if action['kind'] == 'false':
            return False
        if action['kind'] == 'same':
            return candidate
        if action['kind'] == 'clone':
            return candidate.clone()
        if action.get('shared'):
            if not shared:
                shared.append(build(action['spec']))
            return shared[0]
        return build(action['spec'])

    result = field.transform(transformer)
    expected = [n for n, _ in offered]
    require(sorted(map(repr, seen)) == sorted(map(repr, expected)), 'the transformer was offered %r, expected %r', seen, expected)
    for nid, parent in offered:
        if parent is not None and nid not in (None, 'on'):
            require(seen.index(parent) < seen.index(nid), 'field %r was offered before field %r which contains it: %r', nid, parent, seen)
    require_view(before, view(field), 'the original')
    labels = [spec['t'], 'replaced' if replaced else 'nothing replaced'] + [a['kind'] for a in actions.values()]
    if not replaced:
        require(result is field, 'nothing was replaced, but the result is another object')
    else:
        require(result is not field, 'fields were replaced, but the very same field was returned')
        require_view(view(build(want)), view(result), 'the result')
    if shared:
        labels.append('shared')
    if not list(children(spec)):
        labels.append('trivial')
    for value in case['values']:
        if gens.gray_deep(want, value, case['phase'], case['serialized']):
            continue
        got = oracle.run(result.process, value, case['phase'], case['serialized'])
        outcome = oracle.agree(want, value, case['phase'], case['serialized'], got)
        labels.append('accepted' if outcome[0] == 'ok' else 'rejected')
    return labels


SECTIONS = [Section('transformations', gen, check, 15000), Section('large', gen_large, check, 800)]
