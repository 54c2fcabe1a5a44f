"""C05: sequences and tuples keep every item in place and check lengths."""
from decimal import Decimal

from vf import gens
from vf.model import IN, OUT
from vf.prop import Section
from vf.props.common import large_gen, process_check, process_gen

RULE = ('A random sequence (length limits including zero, unique or not, any item field) or tuple processes up to three lists '
    'at, inside and outside its limits, with duplicates and invalid items at random positions, in either phase, natively or '
    'serialized; result or error compared with an independent model. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks, as do unique sequences of opaque values and maps in which an item is repeated in another spelling (keys '
    'in another order, 1 as 1.0). Non-trivial: some value is not null.')
ASSUMPTIONS = ('Items whose equality python leaves open (NaN, or 1 and True under an opaque field) are not offered to '
    'unique sequences.',)

OPTS = gens.Opts(datetimes=True, depth=2)


def extra(spec, case, value, want):
    return ['unique'] if spec.get('unique') else []


def plain(d, depth=2):
    r = d.draw(5 if depth else 2)
    if r == 0:
        return d.choice((0, 1, 2, 1.0, 2.0, 0.5, Decimal(1), Decimal('0.5'), Decimal('2.00')))
    if r <= 2:
        return d.choice(('a', 'b', '', '1', 'A', None))
    if r == 3:
        return [plain(d, depth - 1) for _ in range(d.size(0, 3))]
    if r == 4:
        return tuple(plain(d, depth - 1) for _ in range(d.size(0, 3)))
    return dict((k, plain(d, depth - 1)) for k in d.subset(('a', 'b', 'c', 'd'), 0.5))


def respelled(d, v):
    """An equal value which is written differently."""
    if isinstance(v, dict):
        return dict((k, respelled(d, v[k])) for k in d.shuffled(list(v)))
    if isinstance(v, (list, tuple)):
        return type(v)(respelled(d, x) for x in v)
    if isinstance(v, (int, float, Decimal)) and d.bool():
        return d.choice((Decimal(v), float(v), int(v) if v == int(v) else v))
    return v


def equal_gen(d):
    if d.bool(0.5):
        item = {'t': 'field'}
        values = [plain(d) for _ in range(d.size(1, 6))]
    else:
        item = {'t': 'map', 'value': {'t': 'field'}}
        values = [dict((k, plain(d, 1)) for k in d.subset(('a', 'b', 'c', 'd', 'e'), 0.5)) for _ in range(d.size(1, 6))]
    if d.bool(0.6):
        values.insert(d.int(0, len(values)), respelled(d, d.choice(values)))
    return {'spec': {'t': 'sequence', 'item': item, 'unique': True}, 'phase': d.choice((IN, OUT)), 'serialized': d.bool(),
        'values': [values]}


SECTIONS = [Section('equal', equal_gen, process_check(extra), 4000), Section('process', process_gen(('sequence', 'sequence', 'tuple'), OPTS), process_check(extra), 50000),
    Section('large', large_gen(OPTS, ('long', 'tuple', 'unique', 'deep')), process_check(extra), 3000)]
