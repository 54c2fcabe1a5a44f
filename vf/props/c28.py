"""C28: generated defaults are exactly the defaults of the keys, and missing requirements are known beforehand."""
import copy

from scheme import Sequence, Structure
from scheme.exceptions import ValidationError

from vf import codec, gens, model, oracle
from vf.build import build, children, walk
from vf.engine import Discard
from vf.model import IN, OUT
from vf.oracle import fail, require, require_same
from vf.prop import Section
from vf.props.c25 import rebuilt
from vf.props.common import root_spec
from vf.snap import snap

RULE = ('Random structures, plain and polymorphic (also with a discriminator which has a default of its own), two levels of which may ask '
    'for a generated default, with many defaults, falsy ones included, constants, nulls and requirements. The sparse and the full '
    'defaults, of every identity and of all of them, are compared with those read off the specification; unknown identities must be '
    'refused. The field, alone, under a key, in a sequence, cloned, and with its generated default, processes values as the model does '
    'with the default written out. has_required_fields is compared with whether processing an empty structure misses anything. The '
    'field must not change, and changes to the defaults it gave must not show. Non-trivial: some key has a default or a constant.')
ASSUMPTIONS = ('An explicit default which is falsy and is combined with generate_default is unspecified.',
    'Defaults whose own mutable contents are shared with the field are not changed in place, only the generated mapping is.')

OPTS = gens.Opts(depth=2, pre=False, width=4)
FALSY = {'text': '', 'integer': 0, 'float': 0.0, 'boolean': False, 'sequence': [], 'map': {}, 'field': 0}


def more_defaults(d, spec, chance):
    """Give many of the keys a default, sometimes a falsy one."""
    for _, child in children(spec):
        if d.bool(chance) and 'default' not in child and child['t'] != 'union':
            t = child['t']
            if t in FALSY and d.bool(0.4) and model.accepts(child, FALSY[t], IN, False) and 'constant' not in child:
                child['default'] = copy.deepcopy(FALSY[t])
            elif t != 'binary':
                gens.add_default(d, child, OPTS)
        if child['t'] == 'structure':
            more_defaults(d, child, chance)


def mark(d, spec, chance):
    """Let structures generate their default."""
    for s in walk(spec):
        if s['t'] == 'structure' and d.bool(chance):
            if 'default' in s and not s['default']:
                del s['default']
            if 'polymorphic_on' in s:
                identity = d.choice(sorted(s['structure'], key=repr))
                if identity:
                    s['generate_default'] = identity
            else:
                s['generate_default'] = True


def definition(spec, identity=None):
    return model.definition_of(spec, identity) if 'polymorphic_on' in spec else spec['structure']


def defaults_of(fields, sparse):
    out = {}
    for name, child in fields.items():
        value = child.get('constant')
        if value is None:
            value = child.get('default')
        if value is not None or not sparse:
            out[name] = value
    return out


def resolved(spec):
    """The specification with the generated defaults written out."""
    spec = rebuilt(spec, resolved)
    if 'generate_default' in spec:
        identity = spec.pop('generate_default')
        if not spec.get('default'):
            spec['default'] = defaults_of(definition(spec, identity if 'polymorphic_on' in spec else None), True)
    return spec


def gen(d):
    spec = root_spec(d, 'structure', OPTS)
    spec.pop('default', None)
    if 'polymorphic_on' in spec and d.bool(0.5):
        on = dict(model.discriminator(spec))
        on['default'] = d.choice(sorted(spec['structure'], key=repr))
        spec['polymorphic_on'] = on
    more_defaults(d, spec, d.choice((0.2, 0.6, 0.9)))
    if d.bool(0.3):
        gens.add_default(d, spec, OPTS)
    mark(d, spec, d.choice((0.0, 0.5, 1.0)))
    plain = resolved(spec)
    for s in walk(plain):
        if s['t'] == 'structure' and 'default' in s and gens._gray_unions(s, s['default']):
            raise Discard()
    phase, serialized = d.choice((IN, IN, IN, OUT)), d.bool()
    values = [gens.candidate(d, plain, phase, serialized, d.choice((0.0, 0.2, 0.5)), OPTS) for _ in range(2)]
    around = d.choice(('structure', 'sequence', None))
    if around:
        spec['name'] = 's'
    edits = []
    for _ in range(d.size(0, 3)):
        edits.append([d.choice(sorted(spec['structure'], key=repr) + ['new', 'other']),
            dict(gens.scalar_spec(d, d.choice(('text', 'integer', 'boolean')), OPTS), required=d.bool()) if d.bool(0.6) else None])
        if edits[-1][1]:
            more_defaults(d, {'t': 'sequence', 'item': edits[-1][1]}, 0.5)
    return {'edits': edits if 'polymorphic_on' not in spec else [],
        'spec': spec, 'phase': phase, 'serialized': serialized, 'values': values, 'around': around,
        'clone': d.bool(0.3), 'wrong': d.choice((True, False, 'nope', 'zeta', 99, '', None))}


def refused(function, *args):
    try:
        return 'returned %r' % (function(*args),)
    except ValueError:
        return None


def check(case):
    spec = case['spec']
    plain = resolved(spec)
    field = build(spec)
    before = snap(field)
    labels = ['poly' if 'polymorphic_on' in spec else 'plain']
    identities = sorted(spec['structure'], key=repr) if 'polymorphic_on' in spec else [None]

    every = {}
    for sparse in (True, False):
        for identity in identities:
            want = defaults_of(definition(plain, identity), sparse)
            args = () if identity is None else (identity,)
            for got in (field.generate_defaults(*args, sparse=sparse), field.generate_defaults(*args + (None,) * (1 - len(args)) + (sparse,))):
                require(type(got) is dict, 'generate_defaults returned %r', got)
                require_same(want, got, 'generate_defaults(%r, sparse=%r)' % (identity, sparse))
            got['added'] = got[sorted(got)[0]] = 'changed'
            require_same(want, field.generate_defaults(*args, sparse=sparse), 'generate_defaults once more')
            every[identity] = want
            if sparse and len(want) > (identity is not None):
                labels.append('defaults')
                if any(not v for v in want.values()):
                    labels.append('falsy')
        if identities != [None]:
            require_same(every, field.generate_defaults(sparse=sparse), 'generate_defaults(sparse=%r)' % sparse)
    require_same(field.generate_defaults(), field.generate_defaults(None, True), 'generate_defaults()')
    if 'defaults' not in labels:
        labels.append('trivial')
    wrong = case['wrong']
    if wrong is not None and wrong not in identities:
        found = refused(field.generate_defaults, wrong)
        require(not found, 'generate_defaults(%r) %s', wrong, found)
        if wrong and 'generate_default' not in spec and not spec.get('default') and not (identities == [None] and wrong is True):
            found = refused(build, dict(spec, generate_default=wrong))
            require(not found, 'generate_default=%r was accepted', wrong)

    if 'generate_default' in spec:
        labels.append('generated')
    require_same(plain.get('default'), field.default, 'default')
    for s in walk(plain):
        if s['t'] == 'structure' and 'default' in s:
            labels.append('nested' if s is not plain else 'root')

    got = oracle.run(field.process, {}, IN)
    missing = set()
    if got[0] == 'error':
        if got[1].structure is None:
            missing.add('identity')
        else:
            missing.update(n for n, e in got[1].structure.items() if isinstance(e, ValidationError) and
                any(x['token'] == 'required' and x.get('message') and oracle.identity_of(e) == field.guaranteed_name for x in e.errors))
    require(field.has_required_fields is bool(missing), 'has_required_fields is %r, processing nothing misses %r',
        field.has_required_fields, sorted(missing))
    if missing:
        labels.append('requires')

    subject = field.clone() if case['clone'] else field
    require_same(plain.get('default'), subject.default, 'default of the clone')
    root, root_spec_ = subject, plain
    empty = None
    if case['around'] == 'structure':
        root, root_spec_ = Structure({'s': subject}), {'t': 'structure', 'structure': {'s': plain}}
        empty = {}
    elif case['around'] == 'sequence':
        root, root_spec_ = Sequence(Structure({'s': subject})), {'t': 'sequence', 'item': {'t': 'structure', 'structure': {'s': plain}}}
        empty = [{}, {}]
    values = list(case['values'])
    if case['around']:
        values = [{'s': v} if case['around'] == 'structure' else [{'s': v}, {}] for v in values] + [empty]
    for value in values:
        got = oracle.run(root.process, value, case['phase'], case['serialized'])
        want = oracle.agree(root_spec_, value, case['phase'], case['serialized'], got)
        labels.append('accepted' if want[0] == 'ok' else 'rejected')
    require(snap(field) == before, 'the field changed')
    fields = dict(plain['structure'])
    for name, child in case['edits']:
        if child:
            field.insert(build(dict(child, name=name)), True)
            fields[name] = child
        else:
            field.remove(name)
            fields.pop(name, None)
        for sparse in (True, False):
            require_same(defaults_of(fields, sparse), field.generate_defaults(sparse=sparse), 'generate_defaults after editing %r' % name)
        wanting = sorted(n for n, s in fields.items() if (s.get('required') or s.get('nonempty')) and s.get('default') is None)
        require(field.has_required_fields is bool(wanting), 'has_required_fields is %r after editing %r, required are %r',
            field.has_required_fields, name, wanting)
        labels.append('edited')
    return labels


SECTIONS = [Section('defaults', gen, check, 16000)]
