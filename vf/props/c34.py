"""C34: one schema serves several callers at once."""
import copy
import os
import sys
import threading

import scheme
from scheme.exceptions import SchemeError, StructuralError

from vf import build as builder
from vf import codec, gens
from vf.build import build, walk
from vf.model import IN, OUT
from vf.oracle import fail, identity_of, require
from vf.prop import Section
from vf.same import difference
from vf.snap import snap

RULE = ('Two or three threads work on one schema built once: they process, serialize and unserialize (also as JSON, YAML and XML), '
    'extract, instantiate, interpolate, describe, clone, filter and show it. A tracer lets one thread run at a time and '
    'hands over after a generated number of lines of scheme, so the case fixes the whole schedule. In a second section a '
    'preprocessor somewhere inside the schema uses the whole schema again in the middle of a call. Every '
    'outcome (value, or error with all its places) is compared with that of the same call made alone on a schema of its own, and '
    'the shared schema must be as before. Non-trivial: a call was interrupted by another.')
ASSUMPTIONS = ('Edits of a schema (inserting, removing, redefining, defining placeholders) while others use it are not covered.',
    'Hand-overs happen between lines of scheme, not inside the libraries it calls; templates count as scheme.')

OPTS = gens.Opts(depth=3, text='plain', nan=False)
TEMPLATE = gens.Opts(depth=2, text='plain')
ROOT = os.path.dirname(os.path.abspath(scheme.__file__)) + os.sep
FORMATS = ('json', 'yaml', 'xml', 'structuredtext')


# --- calls --------------------------------------------------------------------------

def gen_call(d, spec):
    kind = d.weighted((8, 'process'), (2, 'format'), (2, 'extract'), (2, 'instantiate'), (2, 'interpolate'), (1, 'describe'), (1, 'clone'),
        (1, 'filter'), (1, 'repr'), (1, 'defaults'))
    call = {'kind': kind}
    if kind == 'process':
        call['phase'], call['serialized'] = d.choice((IN, OUT)), d.bool(0.6)
        call['value'] = gens.candidate(d, spec, call['phase'], call['serialized'], d.choice((0.0, 0.0, 0.3, 0.8)), OPTS)
    elif kind in ('format', 'extract', 'instantiate'):
        call['value'] = gens.valid(d, spec, OPTS)
        call['format'] = d.choice(FORMATS)
    elif kind == 'interpolate':
        call['value'] = templated(d, gens.valid(d, spec, OPTS))
        call['scope'] = scope(d)
    elif kind == 'filter':
        call['params'] = d.choice(({'required': True}, {'nonnull': True}, {'name': 'a'}))
    return call


TEMPLATES = ('${a}', '${b.c}', 'x ${a} y', 'x ${b.c} y ${a}', '${a}${a}', '${missing}', '${only} ${a}', '{% for i in (1, 2) %}${i}${a}{% endfor %}',
    '{% set a = 5 %}${a} ${b.c}')


def scope(d):
    found = {'a': d.choice((1, 2, 'x', 'z', [1, 2], '3')), 'b': {'c': d.choice((2.5, 'y', 4, None))}}
    if d.bool(0.3):
        found['only'] = d.choice(('o', 7))
    return found


def templated(d, value, chance=0.4):
    if isinstance(value, dict):
        return dict((k, templated(d, v, chance)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return type(value)(templated(d, v, chance) for v in value)
    return d.choice(TEMPLATES) if d.bool(chance) else value


def perform(field, call):
    """The outcome of one call, as plain data."""
    kind = call['kind']
    value = copy.deepcopy(call.get('value'))
    try:
        if kind == 'process':
            return ['ok', field.process(value, call['phase'], call['serialized'])]
        if kind == 'format':
            text = field.serialize(value, call['format'])
            return ['ok', text, field.unserialize(text, call['format'])]
        if kind == 'extract':
            return ['ok', field.extract(value)]
        if kind == 'instantiate':
            return ['ok', field.instantiate(value)]
        if kind == 'interpolate':
            return ['ok', field.interpolate(value, call['scope'])]
        if kind == 'describe':
            return ['ok', field.describe()]
        if kind == 'clone':
            return ['ok', field.clone(name='clone').describe()]
        if kind == 'filter':
            found = field.filter(**call['params'])
            return ['ok', found.describe() if found else found]
        if kind == 'repr':
            return ['ok', repr(field)]
        return ['ok', field.generate_defaults() if hasattr(type(field), 'generate_defaults') else field.default]
    except StructuralError as error:
        return ['refused', type(error).__name__, tree(error), str(error) if not error.tracebacks else '']
    except SchemeError as error:
        return ['refused', type(error).__name__]
    except Exception as error:
        return ['raised', type(error).__name__]


def tree(error):
    if isinstance(error.structure, dict):
        return [identity_of(error), error.errors, dict((k, tree(v) if isinstance(v, StructuralError) else v) for k, v in error.structure.items())]
    if isinstance(error.structure, list):
        return [identity_of(error), error.errors, [tree(v) if isinstance(v, StructuralError) else v for v in error.structure]]
    return [identity_of(error), error.errors, None]


# --- schedules ----------------------------------------------------------------------

class Schedule(object):
    """Runs functions in threads of their own, one at a time, handing over after given numbers of lines."""

    PATIENCE = 300

    def __init__(self, turns):
        self.turns = turns          # [(lines, whom)], used in turn
        self.turn = 0
        self.left = turns[0][0]
        self.switches = 0

    def run(self, functions):
        self.gates = [threading.Semaphore(0) for _ in functions]
        self.done = threading.Semaphore(0)
        self.live = list(range(len(functions)))
        self.results = [None] * len(functions)
        threads = [threading.Thread(target=self.thread, args=(i, f)) for i, f in enumerate(functions)]
        for t in threads:
            t.daemon = True
            t.start()
        self.gates[0].release()
        if not self.done.acquire(timeout=self.PATIENCE):
            fail('the calls did not finish')
        for t in threads:
            t.join()
        return self.results

    def thread(self, i, function):
        self.gates[i].acquire()
        local = self.tracer(i)

        def calls(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT) or frame.f_code.co_filename == '<template>':
                return local
        sys.settrace(calls)
        try:
            self.results[i] = function()
        except BaseException as error:
            self.results[i] = ['escaped', repr(error)]
        finally:
            sys.settrace(None)
            self.live.remove(i)
            if self.live:
                self.gates[self.live[0]].release()
            else:
                self.done.release()

    def tracer(self, i):
        def local(frame, event, arg):
            if event == 'line':
                self.left -= 1
                if self.left <= 0:
                    self.hand_over(i)
            return local
        return local

    def hand_over(self, i):
        self.turn = (self.turn + 1) % len(self.turns)
        self.left, whom = self.turns[self.turn]
        others = [j for j in self.live if j != i]
        if others:
            self.switches += 1
            self.gates[others[whom % len(others)]].release()
            self.gates[i].acquire()


def gen(d):
    spec = gens.a_spec(d, OPTS)
    if d.bool(0.3):
        spec['name'] = d.choice(gens.IDENTIFIERS)
    callers = [[gen_call(d, spec) for _ in range(d.int(1, 3))] for _ in range(d.choice((2, 2, 3)))]
    if d.bool(0.4):
        # the same call everywhere, apart from the values
        kind = d.choice((IN, OUT)), d.bool(0.5)
        callers = [[{'kind': 'process', 'phase': kind[0], 'serialized': kind[1],
            'value': gens.candidate(d, spec, kind[0], kind[1], d.choice((0.0, 0.3, 0.6)), OPTS)} for _ in range(d.int(1, 2))] for _ in callers]
    elif d.bool(0.35):
        # templates everywhere, with parameters of the same names
        callers = [[{'kind': 'interpolate', 'value': templated(d, gens.valid(d, spec, OPTS), 0.9), 'scope': scope(d)} for _ in range(d.int(1, 2))]
            for _ in callers]
    scale = d.choice((3, 10, 40))
    turns = [[d.int(1, scale), d.draw(1)] for _ in range(d.int(1, 24))]
    return {'spec': spec, 'callers': callers, 'turns': turns}


def check(case):
    expected = [[perform(build(case['spec']), call) for call in calls] for calls in case['callers']]
    field = build(case['spec'])
    before = snap(field)
    schedule = Schedule(case['turns'])

    def caller(calls):
        return lambda: [perform(field, call) for call in calls]
    results = schedule.run([caller(calls) for calls in case['callers']])
    labels = set()
    for i, (calls, want, got) in enumerate(zip(case['callers'], expected, results)):
        require(isinstance(got, list) and got[:1] != ['escaped'], 'caller %d: %r', i, got)
        for n, (call, w, g) in enumerate(zip(calls, want, got)):
            found = difference(w, g, 'call %d of caller %d (%s %r)' % (n, i, call['kind'], call.get('value')))
            require(not found, '%s, while others used the schema', found)
            labels.add(call['kind'])
            labels.add('%s %s' % (call['kind'], w[0]) if call['kind'] == 'process' else w[0])
    require(snap(field) == before, 'the schema is not as it was')
    labels.add('interrupted' if schedule.switches else 'trivial')
    if schedule.switches > 20:
        labels.add('often')
    return sorted(labels)


# --- reentry ------------------------------------------------------------------------

AGAIN = []


def again(value):
    if AGAIN:
        use = AGAIN.pop()
        kept, AGAIN[:] = list(AGAIN), []
        try:
            use()
        finally:
            AGAIN[:] = kept
    return value


builder.PRE['again'] = again


def gen_reentry(d):
    spec = gens.a_spec(d, OPTS)
    nodes = [s for s in walk(spec) if 'pre' not in s]
    for s in nodes:
        if d.bool(0.5):
            s['pre'] = 'again'
    call = gen_call(d, spec)
    if call['kind'] in ('describe', 'clone', 'filter', 'repr', 'defaults', 'extract', 'instantiate', 'interpolate'):
        call = gen_call(d, spec)
    return {'spec': spec, 'call': call, 'inner': [gen_call(d, spec) for _ in range(d.int(1, 4))]}


def check_reentry(case):
    del AGAIN[:]
    want = perform(build(case['spec']), case['call'])
    wants = [perform(build(case['spec']), call) for call in case['inner']]
    field = build(case['spec'])
    before = snap(field)
    results = {}

    def use(n):
        return lambda: results.__setitem__(n, perform(field, case['inner'][n]))
    AGAIN[:] = [use(n) for n in range(len(case['inner']))]
    try:
        got = perform(field, case['call'])
    finally:
        del AGAIN[:]
    found = difference(want, got, 'the call (%s)' % case['call']['kind'])
    require(not found, '%s, when the schema is used in the middle of it', found)
    for n, outcome in results.items():
        found = difference(wants[n], outcome, 'the call in the middle (%s)' % case['inner'][n]['kind'])
        require(not found, '%s', found)
    require(snap(field) == before, 'the schema is not as it was')
    return [want[0], case['call']['kind']] + (['interrupted'] if results else ['trivial'])


SECTIONS = [Section('threads', gen, check, 6000), Section('reentry', gen_reentry, check_reentry, 14000)]
