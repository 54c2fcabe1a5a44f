"""Fields much like the one under test, declared and used beside it: nothing of them may show."""
import copy

from vf import oracle
from vf.build import build, walk
from vf.model import IN, OUT

LOOKALIKES = {True: (1, '1', 'True'), False: (0, '', '0'), 1: (True, '1', 1.0), 0: (False, '', 0.0), None: ('', 0, 'None')}


def lookalike(d, v):
    if isinstance(v, str):
        return d.choice((v + ' ', ' ' + v, v.upper(), v.lower(), v[:-1], v + v))
    if v is None or type(v) in (bool, int):
        return d.choice(LOOKALIKES.get(v, (float(v or 0), str(v), (v or 0) + 1)))
    if type(v) is float:
        return v + 1
    return v


def decoy(d, spec):
    """A specification which differs from spec in a few parameters somewhere."""
    spec = copy.deepcopy(spec)
    for _ in range(d.int(1, 3)):
        node = d.choice(list(walk(spec)))
        mode = d.draw(5)
        own = sorted(k for k in node if k not in ('t', 'structure', 'common', 'item', 'value', 'key', 'values', 'fields',
            'polymorphic_on', 'aspects', 'extra', 'errors', 'inst', 'ext', 'pre', 'generate_default'))
        if mode < 4 and own:
            k = d.choice(own)
            v = node[k]
            if d.bool(0.15):
                del node[k]
            elif isinstance(v, list) and v:
                v = list(v)
                if d.bool(0.3):
                    v.reverse()
                else:
                    n = d.draw(len(v) - 1)
                    v[n] = lookalike(d, v[n])
                node[k] = v
            elif type(v) is bool:
                node[k] = not v
            elif isinstance(v, dict) and v:
                v = dict(v)
                v.pop(sorted(v, key=repr)[0])
                node[k] = v
            else:
                node[k] = lookalike(d, v)
        elif mode == 4 and node['t'] in ('tuple', 'union'):
            node['values' if node['t'] == 'tuple' else 'fields'].reverse()
        elif mode == 4 and node['t'] == 'structure' and 'polymorphic_on' not in node and node['structure']:
            name = d.choice(sorted(node['structure']))
            child = node['structure'].pop(name)
            if d.bool():
                node['structure'][name + d.choice('_x ')] = child
        else:
            k = d.choice(('required', 'nonnull', 'ignore_null', 'strip', 'utc', 'strict', 'unique', 'name'))
            if k == 'name':
                node[k] = 'decoy'
            elif k in ('required', 'nonnull', 'ignore_null') or (k, node['t']) in (('strip', 'text'), ('utc', 'datetime'),
                    ('strict', 'structure'), ('unique', 'sequence')):
                node[k] = not node.get(k, k in ('strip', 'strict'))
    return spec


def decoys(d, spec, chance=0.25):
    return [decoy(d, spec) for _ in range(d.int(1, 2))] if d.bool(chance) else []


def use(specs, values):
    """Declare the decoys and let them process the values, whatever comes of it."""
    for spec in specs:
        try:
            field = build(spec)
        except Exception:
            continue
        for value in values:
            for phase in (IN, OUT):
                for serialized in (True, False):
                    try:
                        oracle.run(field.process, copy.deepcopy(value), phase, serialized)
                    except Exception:
                        pass
