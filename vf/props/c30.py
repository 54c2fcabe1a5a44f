"""C30: helpers for nested values read, write and merge exactly one place."""
import ast
import copy

from scheme.util import format_structure, recursive_merge, set_nested_value, traverse_to_key

from vf import codec, gens
from vf.oracle import fail, require, require_same
from vf.prop import Section

RULE = ('Histories of up to twelve reads, writes and merges of random nested mappings (dotted paths through existing, missing and '
    'non-mapping places; additions which partly mirror the mapping) are carried out step by step on the mapping and on a reference '
    'which copies; the results, failures and every state must agree. Random nested structures are formatted with random masks, '
    'indents and levels; the text, read as a python literal, must be the structure with every masked value, and nothing else, hidden. '
    'Non-trivial: some step changed something, or the structure has nested content.')
ASSUMPTIONS = ('Mappings taken over from an addition become part of the merged mapping.',
    'Keys which differ only in type are not formatted together; abbreviation is not covered.')

KEYS = ('a', 'b', 'c', 'd', 'name', '', 'x y', u'\xe9', '0', 'items', 'password', 'secret')


def a_value(d, depth):
    mode = d.draw(9)
    if mode < 5 and depth:
        return dict((d.choice(KEYS), a_value(d, depth - 1)) for _ in range(d.size(0, 4)))
    if mode == 5 and depth:
        return [a_value(d, depth - 1) for _ in range(d.size(0, 3))]
    if mode == 6 and depth:
        return tuple(a_value(d, depth - 1) for _ in range(d.size(0, 3)))
    return d.choice((None, True, False, 0, 1, -5, 2.5, '', 'text', gens.any_text(d, 0, 8), gens.any_text(d, 0, 8), 10 ** 20))


def paths(value, prefix=()):
    yield prefix
    if isinstance(value, dict):
        for k, v in value.items():
            for p in paths(v, prefix + (k,)):
                yield p


def a_path(d, value):
    path = list(d.choice(sorted(paths(value))))
    mode = d.draw(4)
    if mode == 0 and path:
        path[d.draw(len(path) - 1)] = d.choice(KEYS)
    elif mode == 1 or not path:
        path += [d.choice(KEYS) for _ in range(d.size(1, 3))]
    return '.'.join(path)


def like(d, value, depth):
    """An addition partly mirroring value."""
    out = {}
    for k, v in value.items():
        if d.bool():
            out[k] = like(d, v, depth - 1) if isinstance(v, dict) and d.bool(0.8) else a_value(d, 1)
    for _ in range(d.size(0, 2)):
        out[d.choice(KEYS)] = a_value(d, 2)
    return out


def start(d):
    return dict((d.choice(KEYS), a_value(d, 3)) for _ in range(d.size(1, 5)))


def gen_history(d):
    value = start(d)
    current = copy.deepcopy(value)
    steps = []
    for _ in range(d.size(1, 12)):
        kind = d.choice(('get', 'set', 'set', 'merge'))
        if kind == 'get':
            steps.append(['get', a_path(d, current)])
        elif kind == 'set':
            step = ['set', a_path(d, current), a_value(d, 2)]
            steps.append(step)
            reference_set(current, step[1].split('.'), copy.deepcopy(step[2]))
        else:
            step = ['merge', like(d, current, 3)]
            steps.append(step)
            current = merged(current, step[1])
    return {'value': value, 'steps': steps}


def reference_get(value, path):
    if not path:
        return 'ok', value
    if not isinstance(value, dict):
        return 'type', None
    if path[0] not in value:
        return 'key', None
    return reference_get(value[path[0]], path[1:])


def reference_set(value, path, new):
    found, inner = reference_get(value, path[:-1])
    if found == 'ok' and not isinstance(inner, dict):
        found = 'type'
    if found == 'ok':
        inner[path[-1]] = new
    return found


def merged(a, b):
    if not (isinstance(a, dict) and isinstance(b, dict)):
        return copy.deepcopy(b)
    out = copy.deepcopy(a)
    for k in b:
        out[k] = merged(a[k], b[k]) if k in a else copy.deepcopy(b[k])
    return out


def attempt(function, *args):
    try:
        return 'ok', function(*args)
    except KeyError:
        return 'key', None
    except TypeError:
        return 'type', None


def check_history(case):
    actual = copy.deepcopy(case['value'])
    current = copy.deepcopy(case['value'])
    labels = []
    for step in case['steps']:
        before = current
        if step[0] == 'get':
            want = reference_get(current, step[1].split('.'))
            got = attempt(traverse_to_key, actual, step[1])
            require(got[0] == want[0], 'reading %r gave %r, expected %r', step[1], got, want)
            require_same(want[1], got[1], 'reading %r' % step[1])
            labels.append('read ' + want[0])
        elif step[0] == 'set':
            current = copy.deepcopy(current)
            want = reference_set(current, step[1].split('.'), copy.deepcopy(step[2]))
            new = copy.deepcopy(step[2])
            got = attempt(set_nested_value, actual, step[1], new)
            require(got[0] == want, 'setting %r gave %r, expected %r', step[1], got, want)
            if want == 'ok':
                require(traverse_to_key(actual, step[1]) is new, 'the value read at %r is not the one set', step[1])
            require_same(step[2], new, 'the value set')
            labels.append('set ' + want)
        else:
            current = merged(current, step[1])
            addition = copy.deepcopy(step[1])
            got = recursive_merge(actual, addition)
            require(got is actual, 'the merged original is not returned')
            require_same(step[1], addition, 'the addition')
            labels.append('merged')
        if codec.dumps(before) != codec.dumps(current):
            labels.append('changed')
        require_same(current, actual, 'after %r' % (step,))
    if 'changed' not in labels:
        labels.append('trivial')
    return labels


# --- formatting ---------------------------------------------------------------------------------------

def gen_format(d):
    value = start(d) if d.bool(0.85) else a_value(d, 3)
    if isinstance(value, dict) and d.bool(0.2):
        for k in (5, None, True, -1.5):
            if d.bool(0.5):
                value[k] = a_value(d, 1)
    case = {'value': value, 'masks': d.subset(KEYS + ('5', 'None'), 0.15) if d.bool(0.7) else None}
    case['indent'] = d.choice((4, 4, 0, 1, 2, 8))
    case['level'] = d.choice((0, 0, 0, 1, 3))
    return case


def shown(value, masks):
    if isinstance(value, dict):
        return dict((str(k), '~masked' if str(k) in masks else shown(v, masks)) for k, v in value.items())
    if isinstance(value, tuple):
        if len(value) == 1:             # a tuple of one is shown in parentheses, with or without a comma
            return shown(value[0], masks)
        return tuple(shown(v, masks) for v in value)
    if isinstance(value, list):
        return [shown(v, masks) for v in value]
    return value


def check_format(case):
    before = codec.dumps(case['value'])
    masks = case['masks']
    text = format_structure(case['value'], masks=masks, indent=case['indent'], level=case['level'])
    require(isinstance(text, str), 'formatted as %r', text)
    require(codec.dumps(case['value']) == before, 'formatting changed the structure')
    if not masks:
        require(text == format_structure(case['value'], masks=[], indent=case['indent'], level=case['level']), 'no masks')
    masks = masks or []
    want = shown(case['value'], masks)
    hidden = text.replace('***MASKED***', "'~masked'")
    try:
        got = ast.literal_eval(hidden)
    except (SyntaxError, ValueError):
        fail('formatted as text which is not a literal:\n%s', text)
    require_same(want, shown(got, ()), 'read from\n%s\n' % text)
    if case['indent'] and isinstance(case['value'], dict):
        lines = text.split('\n')
        require(lines[0] == '{' and lines[-1] == '}', 'the first and last lines of\n%s', text)
        require(all(l.startswith(' ' * case['indent'] * (case['level'] + 1)) for l in lines[1:-1]), 'indentation of\n%s', text)
    labels = [] if isinstance(case['value'], (dict, list, tuple)) and case['value'] else ['trivial']
    if '***MASKED***' in text:
        labels.append('masked')
    if isinstance(case['value'], dict) and any(isinstance(v, (dict, list, tuple)) for v in case['value'].values()):
        labels.append('nested')
    return labels


SECTIONS = [Section('history', gen_history, check_history, 28000), Section('format', gen_format, check_format, 30000)]
