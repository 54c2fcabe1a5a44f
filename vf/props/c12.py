"""C12: schema edits act exactly on the named keys, in any order."""
from scheme import Enumeration, Structure, Text
from scheme.field import Field

from vf import gens, oracle
from vf.build import build
from vf.model import IN, OUT
from vf.oracle import fail, require, require_same
from vf.prop import Section
from vf.same import same

RULE = ('A random history of insertions, merges, removals, extensions, replacements and clones is carried out on a pool of '
    'structures (the products of extending, replacing and cloning join the pool) and on plain mappings. After every step every '
    'structure of the pool must have exactly the keys of its mapping, each with the intended field (tagged) under the right name, '
    'the one edited must describe its keys, and process values as an independent model of its keys says; at the end each does. A second section redefines enumerations. '
    'Non-trivial: at least two edits.')
ASSUMPTIONS = ('Edits are made to plain structures; a polymorphic structure has no single set of keys to edit.',)

SMALL = gens.Opts(depth=1, pre=False, width=2, patterns=False)
POOL = ('a', 'b', 'c', 'd', 'e', 'structure', 'x y')
KINDS = ('insert', 'insert', 'merge', 'merge', 'remove', 'remove', 'extend', 'replace', 'clone', 'bad')


def gen_history(d):
    names = d.shuffled(POOL)[:d.size(0, 4)]
    spec = {'t': 'structure', 'structure': dict((n, gens.a_spec(d, SMALL, 1)) for n in names)}
    if d.bool(0.3):
        spec['strict'] = False
    if d.bool(0.25):
        spec['key_order'] = d.shuffled(POOL)[:d.int(1, 7)]
    gens.common_params(d, spec, SMALL)
    ops = []
    for _ in range(d.int(0, 3) + d.int(0, 9)):
        kind = d.choice(KINDS)
        op = {'kind': kind, 'on': d.draw(5)}
        if kind == 'insert':
            op['name'] = d.choice(POOL)
            op['spec'] = gens.a_spec(d, SMALL, 1)
            op['overwrite'] = d.bool()
        elif kind == 'remove':
            op['names'] = d.subset(POOL, 0.3)
        elif kind in ('merge', 'extend', 'replace'):
            op['specs'] = dict((n, gens.a_spec(d, SMALL, 0)) for n in d.shuffled(POOL)[:d.int(0, 3)])
            op['named'] = d.choice(('none', 'right', 'other'))
            if kind == 'merge':
                op['prefer'] = d.bool()
        elif kind == 'bad':
            op['what'] = d.choice(('insert value', 'insert nameless', 'merge value', 'extend value', 'replace value'))
            op['name'] = d.choice(POOL)
        ops.append(op)
    case = {'spec': spec, 'ops': ops, 'phase': d.choice((IN, OUT)), 'serialized': d.bool()}
    values = []
    for _ in range(3):
        value = {}
        for n in d.subset(POOL, 0.5):
            value[n] = d.choice((None, 1, 'a', 0, True, [], {}, 'x'))
        values.append(value)
    case['values'] = values
    return case


class Entry(object):
    def __init__(self, field, spec, tags, objects):
        self.field, self.spec, self.tags, self.objects = field, spec, tags, objects

    def fork(self, field):
        spec = dict(self.spec, structure=dict(self.spec['structure']))
        return Entry(field, spec, dict(self.tags), {})

    def put(self, name, spec, tag, obj=None):
        self.spec['structure'][name] = spec
        self.tags[name] = tag
        self.objects.pop(name, None)
        if obj is not None:
            self.objects[name] = obj


def tagged(spec, tag, **params):
    return build(dict(spec, aspects=dict(spec.get('aspects', {}), vftag=tag), **params))


def raises(error, function, *args):
    try:
        function(*args)
    except error:
        return
    fail('%s%r did not raise %s', function.__name__, args, error.__name__)


def carry_out(pool, op, step, labels):
    entry = pool[op['on'] % len(pool)]
    field, kind = entry.field, op['kind']
    labels.append(kind)
    if kind == 'insert':
        new = tagged(op['spec'], step, name=op['name'])
        present = op['name'] in entry.spec['structure']
        field.insert(new, op['overwrite']) if op['overwrite'] else field.insert(new)
        if op['overwrite'] or not present:
            entry.put(op['name'], op['spec'], step, new)
        if present:
            labels.append('insert over')
    elif kind == 'remove':
        field.remove(*op['names'])
        for name in op['names']:
            if entry.spec['structure'].pop(name, None) is not None:
                del entry.tags[name]
                entry.objects.pop(name, None)
                labels.append('removed')
    elif kind in ('merge', 'extend', 'replace'):
        given = {}
        for i, (name, spec) in enumerate(op['specs'].items()):
            params = {'none': {}, 'right': {'name': name}, 'other': {'name': 'elsewhere'}}[op['named']]
            given[name] = tagged(spec, '%d.%d' % (step, i), **params)
        before = dict(given)
        if kind == 'merge':
            names = dict((n, f.name) for n, f in given.items())
            field.merge(given, op['prefer']) if op['prefer'] else field.merge(given)
            require(names == dict((n, f.name) for n, f in given.items()), 'merging renamed the given fields')
            target = entry
        elif kind == 'extend':
            result = field.extend(given)
            require(isinstance(result, Structure) and result is not field, 'extending returned %r', result)
            target = entry.fork(result)
        else:
            result = field.replace(given)
            if not any(n in entry.spec['structure'] for n in given):
                require(result is field, 'replacing nothing returned %r', result)
                labels.append('nothing replaced')
                return
            require(isinstance(result, Structure) and result is not field, 'replacing returned %r', result)
            target = entry.fork(result)
        require(given == before, '%s changed the mapping it was given', kind)
        for i, (name, spec) in enumerate(op['specs'].items()):
            present = name in target.spec['structure']
            if kind == 'extend' or (kind == 'merge' and (op['prefer'] or not present)) or (kind == 'replace' and present):
                target.put(name, spec, '%d.%d' % (step, i))
                if present:
                    labels.append('%s over' % kind)
        if target is not entry and len(pool) < 6:
            pool.append(target)
        elif target is not entry:
            verify(target, 'step %d' % step)
    elif kind == 'clone':
        if len(pool) < 6:
            pool.append(entry.fork(field.clone()))
    elif kind == 'bad':
        what = op['what']
        if what == 'insert value':
            raises(TypeError, field.insert, 'text')
        elif what == 'insert nameless':
            raises(ValueError, field.insert, Text())
        elif what == 'merge value':
            raises(TypeError, field.merge, {op['name']: 5})
        elif what == 'extend value':
            raises(TypeError, field.extend, {op['name']: 5})
        elif op['name'] in entry.spec['structure']:
            raises(TypeError, field.replace, {op['name']: 5})


def verify(entry, when):
    structure = entry.field.structure
    require(set(structure) == set(entry.tags), '%s: the keys are %r, expected %r', when, sorted(structure), sorted(entry.tags))
    for name, tag in entry.tags.items():
        field = structure[name]
        require(isinstance(field, Field) and field.vftag == tag, '%s: key %r has the field tagged %r, expected %r', when, name,
            getattr(field, 'vftag', None), tag)
        require(field.name == name, '%s: the field of key %r is named %r', when, name, field.name)
        require(entry.field.get(name) is field, '%s: get(%r) gives another field', when, name)
    for name in ('missing', 'also missing'):
        require(entry.field.get(name, 'none') == 'none', '%s: get(%r) gives %r', when, name, entry.field.get(name, 'none'))
    for name, obj in entry.objects.items():
        require(structure[name] is obj, '%s: the field inserted as %r was exchanged', when, name)


def behaves(entry, value, case, labels):
    if gens.gray_deep(entry.spec, value, case['phase'], case['serialized']):
        return
    got = oracle.run(entry.field.process, value, case['phase'], case['serialized'])
    key_order = case['spec'].get('key_order')
    bare = dict((k, v) for k, v in entry.spec.items() if k != 'key_order')
    if got[0] == 'ok' and key_order and got[1] is not None:
        order = [k for k in key_order if k in got[1]]
        require([k for k in got[1] if k in order] == order, 'keys come as %r, declared %r', list(got[1]), key_order)
        got = 'ok', dict(got[1])
    elif got[0] == 'error' and got[1].structure is not None:
        got[1].structure = dict(got[1].structure)
    want = oracle.agree(bare, value, case['phase'], case['serialized'], got)
    labels.append('accepted' if want[0] == 'ok' else 'rejected')


def answers(entry, case, step, labels):
    """What the edited structure says of its keys."""
    behaves(entry, case['values'][step % len(case['values'])], case, labels)
    field, specs = entry.field, entry.spec['structure']
    description = field.describe()['structure']
    require(dict((k, (v['fieldtype'], v.get('vftag'))) for k, v in description.items()) ==
        dict((k, (s['t'], entry.tags[k])) for k, s in specs.items()), 'step %d: the keys are described as %r', step, description)
    require(field.has_required_fields is any(bool(s.get('required') or s.get('nonempty')) and s.get('default') is None
        for s in specs.values()), 'step %d: has_required_fields is %r', step, field.has_required_fields)
    require(set(field.generate_defaults(sparse=False)) == set(specs), 'step %d: the defaults are %r', step,
        field.generate_defaults(sparse=False))


def check_history(case):
    spec = case['spec']
    initial = dict((n, dict(s, aspects={'vftag': 'first'})) for n, s in spec['structure'].items())
    field = build(dict(spec, structure=initial))
    pool = [Entry(field, dict(spec, structure=dict(spec['structure'])), dict((n, 'first') for n in initial),
        dict(field.structure))]
    labels = ['ordered'] if spec.get('key_order') else []
    verify(pool[0], 'at first')
    for step, op in enumerate(case['ops']):
        carry_out(pool, op, step, labels)
        for i, entry in enumerate(pool):
            verify(entry, 'after %s at step %d, structure %d' % (op['kind'], step, i))
        answers(pool[op['on'] % len(pool)], case, step, labels)
    for entry in pool:
        for value in case['values']:
            behaves(entry, value, case, labels)
    labels.append('%d structures' % len(pool))
    if len(case['ops']) < 2:
        labels.append('trivial')
    return labels


VALUES = ('alpha', 'beta', 'gamma', 'a', '', 1, 2, 0, 2.5, -3, 'A')


def gen_redefine(d):
    spec = {'t': 'enumeration', 'enumeration': d.shuffled(VALUES)[:d.int(1, 4)]}
    if d.bool(0.3):
        spec['enumeration'] = ' '.join(d.shuffled(VALUES[:4])[:d.int(1, 3)])
    gens.common_params(d, spec, SMALL)
    ops = []
    for _ in range(d.int(1, 5)):
        values = d.shuffled(VALUES)[:d.int(0, 4)]
        if d.bool(0.3):
            values = ' '.join(d.shuffled(VALUES[:4])[:d.int(1, 3)])
        ops.append({'values': values, 'strategy': d.choice(('append', 'append', 'replace', 'default', 'bogus')), 'clone': d.bool(0.2)})
    return {'spec': spec, 'ops': ops}


def listed(values):
    return values.split(' ') if isinstance(values, str) else list(values)


def verify_enumeration(field, current, when):
    got = list(field.enumeration)
    require(len(got) == len(current) and all(any(same(x, y) for y in current) for x in got), '%s: the values are %r, expected %r',
        when, got, current)
    for value in VALUES:
        for phase in (IN, OUT):
            outcome = oracle.run(field.process, value, phase, False)
            accepted = any(same(value, c) for c in current)
            require((outcome[0] == 'ok') == accepted, '%s: %r is %s', when, value, outcome)
            if accepted:
                require(same(outcome[1], value), '%s: %r became %r', when, value, outcome[1])
            else:
                message = outcome[1].errors[0]['message']
                for c in current:
                    require(repr(c) in message, '%s: the error %r does not mention %r', when, message, c)


def check_redefine(case):
    current = listed(case['spec']['enumeration'])
    labels, twin = [], None
    if isinstance(case['spec']['enumeration'], str):
        field = build(case['spec'])
    else:
        # one list declares two fields, of which one is redefined
        declared = list(case['spec']['enumeration'])
        field, twin = Enumeration(declared), Enumeration(declared)
        labels.append('a list of both')
    first = list(current)
    verify_enumeration(field, current, 'at first')
    kept = []
    for op in case['ops']:
        if op['clone']:
            kept.append((field.clone(), list(current)))
        strategy = op['strategy']
        labels.append(strategy)
        given = op['values'] if isinstance(op['values'], str) else list(op['values'])
        if strategy == 'bogus':
            raises(ValueError, field.redefine, given, 'bogus')
        else:
            if strategy == 'default':
                field.redefine(given)
            else:
                field.redefine(given, strategy)
            require(given == op['values'], 'redefining changed the given values')
            base = [] if strategy == 'replace' else current
            current = list(base)
            for v in listed(op['values']):
                if v not in current:
                    current.append(v)
        verify_enumeration(field, current, 'after %s' % strategy)
        if twin is not None:
            require_same(first, declared, 'the list the enumeration was declared with, after %s' % strategy)
            verify_enumeration(twin, first, 'another enumeration declared with the same list, after %s' % strategy)
        for other, values in kept:
            verify_enumeration(other, values, 'clone taken before %s' % strategy)
    if len(case['ops']) < 2:
        labels.append('trivial')
    return labels


SECTIONS = [Section('histories', gen_history, check_history, 16000), Section('redefine', gen_redefine, check_redefine, 8000)]
