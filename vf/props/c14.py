"""C14: filtering a schema keeps exactly the matching fields."""
import copy

from scheme.exceptions import CannotFilterError

from vf import gens, model, oracle
from vf.build import build, children, walk
from vf.model import IN, OUT
from vf.oracle import fail, require
from vf.prop import Section
from vf.views import require_view, view

RULE = ('A random schema whose fields carry random aspects and attributes is filtered by one to three attributes, demanding any or '
    'all. The outcome (refused, dropped, the very same field, or a field equal attribute by attribute to the specification with '
    'exactly the matching fields) is computed independently; the result must process values as the model of that specification and '
    'the original must be untouched. Non-trivial: the schema is nested and something is asked for.')
ASSUMPTIONS = ('Defaults of structures, which may mention dropped keys, are left out.',)

OPTS = gens.Opts(depth=3, width=5)
ATTRIBUTES = {'level': (1, 2, 'x', None), 'public': (True, False, 1), 'tag': ('x', 'y', ''), 'required': (True, False),
    'nonnull': (True, False), 'ignore_null': (True, False), 'title': ('x', 'y')}
ASPECTS = ('level', 'public', 'tag')


def gen(d):
    spec = gens.structural_spec(d, d.choice(OPTS.structural + ('structure',) * 4), OPTS, d.choice((1, 2, 3)))
    containers, leaves = d.choice(((0.3, 0.3), (0.98, 0.6), (0.98, 0.6), (0.98, 0.95)))
    params = dict((n, d.choice(ATTRIBUTES[n])) for n in d.shuffled(sorted(ATTRIBUTES))[:d.weighted((6, 1), (3, 2), (2, 3), (1, 0))])
    for s in walk(spec):
        dress(d, s, params, leaves if s['t'] in gens.SCALARS else containers)
        if s['t'] not in gens.SCALARS:
            s.pop('default', None)
    case = {'spec': spec, 'params': params, 'phase': d.choice((IN, OUT)), 'serialized': d.bool()}
    all_ = d.choice((None, False, True, True))
    if all_ is not None:
        case['all'] = all_
    case['values'] = [gens.candidate(d, spec, case['phase'], case['serialized'], d.choice((0.0, 0.3)), OPTS) for _ in range(2)]
    return case


def dress(d, s, params, bias):
    aspects = {}
    for name in ASPECTS:
        if name in params and d.bool(bias):
            if params[name] is not None and d.bool(0.98):
                aspects[name] = params[name]
        elif d.bool(0.5):
            aspects[name] = d.choice(ATTRIBUTES[name])
    if aspects:
        s['aspects'] = aspects
    for name in ('required', 'nonnull', 'ignore_null', 'title'):
        if name in params and d.bool(bias) and 'nonempty' not in s:
            s[name] = params[name]


def attribute(spec, name):
    if name in ('required', 'nonnull') and spec.get('nonempty'):
        return True
    if name == 'required' and spec.get('required'):
        return True
    if name in spec and name not in spec.get('aspects', {}):
        return spec[name]
    return spec.get('aspects', {}).get(name)


def matches(spec, params, all_):
    results = []
    for name, value in params.items():
        found = attribute(spec, name)
        results.append((False if found is None else found) == value)
    return not params or (all(results) if all_ else any(results))


class Refused(Exception):
    pass


def filtered(spec, params, all_):
    """The specification after filtering or None; sets `changed`."""
    if not matches(spec, params, all_):
        return None
    t = spec['t']
    out = dict(spec)
    if t == 'structure' and 'polymorphic_on' in spec:
        out['structure'] = dict((i, keep(fields, params, all_)) for i, fields in spec['structure'].items())
        if 'common' in spec:
            out['common'] = keep(spec['common'], params, all_)
    elif t == 'structure':
        out['structure'] = keep(spec['structure'], params, all_)
    elif t == 'sequence':
        out['item'] = must(spec['item'], params, all_)
    elif t == 'map':
        out['value'] = must(spec['value'], params, all_)
    elif t == 'tuple':
        out['values'] = [must(s, params, all_) for s in spec['values']]
    return out


def keep(fields, params, all_):
    out = {}
    for name, child in fields.items():
        after = filtered(child, params, all_)
        if after is not None:
            out[name] = after
    return out


def must(child, params, all_):
    after = filtered(child, params, all_)
    if after is None:
        raise Refused()
    return after


def bare(spec):
    """A polymorphic structure's own discriminators are filtered and put back, which may copy it."""
    return any('polymorphic_on' in s for s in walk(spec))


def check(case):
    spec, params = case['spec'], case['params']
    field = build(spec)
    before = view(field)
    labels = [spec['t'], 'all' if case.get('all') else 'any']
    try:
        want, refused = filtered(spec, params, case.get('all', False)), False
    except Refused:
        want, refused = None, True
    given = dict(params)
    if 'all' in case:
        given['all'] = case['all']
    try:
        result = field.filter(**given)
    except CannotFilterError:
        require(refused, 'filtering was refused, expected %r', want)
        result = None
        labels.append('refused')
    else:
        require(not refused, 'filtering gave %r, expected it to be refused', result)
    require_view(before, view(field), 'the original')
    if refused:
        return labels
    if want is None:
        require(result is None, 'filtering gave %r, expected nothing', result)
        return labels + ['dropped']
    require(result is not None, 'filtering dropped the field, expected %r', want)
    if want == spec:
        if not bare(spec) or not params:
            require(result is field, 'nothing was filtered, but the result is another object')
        labels.append('kept whole')
    else:
        labels.append('filtered')
    require_view(view(build(want)), view(result), 'the result')
    for value in case['values']:
        if gens.gray_deep(want, value, case['phase'], case['serialized']):
            continue
        got = oracle.run(result.process, value, case['phase'], case['serialized'])
        oracle.agree(want, value, case['phase'], case['serialized'], got)
    if not params or not list(children(spec)):
        labels.append('trivial')
    return labels


SECTIONS = [Section('filters', gen, check, 24000)]
