"""C29: visiting a description reaches every directly nested field once."""
import json

from scheme.field import Field

from vf import codec, gens, large
from vf.build import CHILDREN, build, walk
from vf.describe import normal, strip_unnatural
from vf.oracle import fail, require, require_same
from vf.prop import Section
from vf.props.c10 import text_keys
from vf.props.common import root_spec
from vf import model

RULE = ('Random schemas up to four levels deep are described (also verbosely, and also carried through JSON) and visited with callbacks '
    'which record the very descriptions they are given, return all kinds of results, recurse (optionally collecting the fields, or '
    'rebuilding the description from the results), or raise at a random call. The calls and results are compared with '
    'the nested fields the specification names. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the field has at least one nested field.')
ASSUMPTIONS = ('The discriminator of a polymorphic structure is visited as a key of each variant, not as a parameter.',
    'The order of calls is not specified.')

OPTS = gens.Opts(depth=3, pre=False, meta=True, patterns=False)


class Halt(Exception):
    pass


def gen(d):
    spec = root_spec(d, d.choice(OPTS.structural), OPTS) if d.bool(0.9) else gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)
    strip_unnatural(spec)
    return {'spec': spec, 'verbose': d.bool(0.2), 'json': d.bool(0.4), 'returns': d.choice(('index', 'none', 'same', 'falsy', 'field')),
        'halt': d.draw(6)}


def gen_large(d):
    spec, _ = large.valid(d, OPTS, kinds=('deep', 'wide', 'tuple'), top=130)
    strip_unnatural(spec)
    return {'spec': spec, 'verbose': d.bool(0.2), 'json': d.bool(0.4), 'returns': d.choice(('index', 'none', 'same', 'falsy', 'field')),
        'halt': d.draw(100)}


def nested(spec, description):
    """The directly nested (spec, description) pairs in the shape of the results."""
    t = spec['t']
    if t == 'structure':
        if 'polymorphic_on' in spec:
            out = {}
            on = model.discriminator(spec)
            for identity in spec['structure']:
                # identities are described in serialized form
                key = [k for k in description['structure'] if str(k) == str(identity)]
                require(len(key) == 1, 'the description has no variant %r', identity)
                definition = model.definition_of(spec, identity)
                fields = description['structure'][key[0]]
                require(set(fields) == set(definition), 'described %r, expected the keys %r', sorted(fields), sorted(definition))
                out[key[0]] = dict((n, (definition[n], fields[n])) for n in fields)
            return {'structure': out}
        fields = description['structure']
        require(set(fields) == set(spec['structure']), 'described %r, expected the keys %r', sorted(fields), sorted(spec['structure']))
        return {'structure': dict((n, (spec['structure'][n], fields[n])) for n in fields)}
    if t == 'sequence':
        return {'item': (spec['item'], description['item'])}
    if t == 'map':
        out = {'value': (spec['value'], description['value'])}
        if spec.get('key'):
            out['key'] = (spec['key'], description['key'])
        return out
    if t in ('tuple', 'union'):
        name = 'values' if t == 'tuple' else 'fields'
        return {name: tuple(zip(spec[name], description[name]))}
    return {}


def shaped(x, f):
    """The same shape with f(spec, description) in the place of each pair."""
    if isinstance(x, dict):
        return dict((k, shaped(v, f)) for k, v in x.items())
    if len(x) == 2 and isinstance(x[0], dict) and 't' in x[0]:
        return f(*x)
    return tuple(shaped(v, f) for v in x)


def check(case):
    spec = case['spec']
    description = build(spec).describe(verbose=case['verbose'])
    if case['json'] and all(text_keys(s.get('default')) for s in walk(spec)):
        description = json.loads(json.dumps(description))
    before = codec.dumps(description)
    total = [0]

    def compare(s, desc, path):
        require(desc['fieldtype'] == s['t'], '%s is a %s, described as a %s', path, s['t'], desc['fieldtype'])
        want = nested(s, desc)
        calls = []

        def callback(inner):
            calls.append(inner)
            return result(case['returns'], inner, len(calls))

        got = Field.visit(desc, callback)
        pairs = []
        shaped(want, lambda cs, cd: pairs.append(cd))
        require(len(calls) == len(pairs), 'visiting %s made %d calls, expected %d', path, len(calls), len(pairs))
        for cd in pairs:
            require(sum(1 for c in calls if c is cd) == sum(1 for c in pairs if c is cd), 'visiting %s did not reach %r once', path, cd)
        index = [id(c) for c in calls]
        require_same(shaped(want, lambda cs, cd: result(case['returns'], cd, 1 + index.index(id(cd)))), got, 'visiting %s' % path)
        total[0] += len(pairs)
        if pairs:
            stop = case['halt'] % len(pairs)
            made = []

            def halting(inner):
                made.append(inner)
                if len(made) == stop + 1:
                    raise Halt(stop)
                return 1
            try:
                fail('visiting %s went on after an exception: %r', path, Field.visit(desc, halting))
            except Halt:
                require(len(made) == stop + 1, 'visiting %s made %d calls, the exception was at %d', path, len(made), stop + 1)
        shaped(want, lambda cs, cd: compare(cs, cd, path + '/' + cs['t']))

    compare(spec, description, spec['t'])

    # recursing through the results gives the whole again
    reached = []

    def rebuild(desc):
        reached.append(desc)
        return dict(desc, **Field.visit(desc, rebuild))
    again = rebuild(description)
    require_same(normal(description), normal(again), 'the description put together again')
    require(len(reached) == total[0] + 1, 'recursing reached %d fields, expected %d', len(reached), total[0] + 1)
    require(codec.dumps(description) == before, 'visiting changed the description')
    return [spec['t'], 'depth %d' % depth(spec)] + (['trivial'] if not total[0] else []) + (['many'] if total[0] > 8 else [])


def depth(spec):
    from vf.build import children
    return 1 + max([depth(s) for _, s in children(spec)] or [0])


def result(kind, inner, n):
    if kind == 'index':
        return n
    if kind == 'none':
        return None
    if kind == 'same':
        return inner
    if kind == 'falsy':
        return ([], {}, 0, '', False)[n % 5]
    return inner['fieldtype']


SECTIONS = [Section('visit', gen, check, 15000), Section('large', gen_large, check, 600)]
