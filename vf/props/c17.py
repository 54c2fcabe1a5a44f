"""C17: interpolation resolves variables at every depth and nothing else."""
import copy
import re
from decimal import Decimal

from scheme.exceptions import CannotInterpolateError, UndefinedParameterError
from scheme.interpolation import Interpolator, interpolate_parameters

from vf import gens, model
from vf.build import build
from vf.engine import Discard
from vf.oracle import fail, require, require_same
from vf.prop import Finding, Section

RULE = ('A valid value of a random schema is turned into a template: parts of it, at any depth and including whole containers, are '
    'replaced by references to parameters (names, attributes, items, with and without blanks, some undefined, some from a custom '
    'interpolator), text gets references inside it, some parts are malformed. The result or the kind of refusal of interpolate is '
    'compared with an independent evaluator and the template and the parameters must be unchanged. Non-trivial: the template '
    'refers to at least one variable.')
ASSUMPTIONS = ('Only references (names, attributes, items, one filter) are generated, not arbitrary template expressions.',
    'Known finding: carriage returns in literal text become line feeds, so templates have none.')

OPTS = gens.Opts(depth=3, width=4, pre=False, key_order=False, defaults=False, constants=False, nulls=False)

REF = re.compile(r'\$\{([^}]*)\}')
SIMPLE = re.compile(r'\A\s*\$\{([^}]+)\}\s*\Z')
STEP = re.compile(r"\.(\w+)|\['([^']*)'\]|\[(\d+)\]")
MISSING = ('missing', 'missing.x', "p0['no such']", 'missing[0]')


class Undefined(Exception):
    pass


class Cannot(Exception):
    pass


class Bad(Exception):
    """Refused in a way which is left open."""


# --- the model ------------------------------------------------------------------------------

class Blank(object):
    """What a reference to something undefined stands for."""


def resolve(expression, scope):
    """The value, or Blank for what is undefined; Undefined when reaching into what is undefined."""
    expression = expression.strip()
    wrap = expression.endswith('|wrap')
    if wrap:
        expression = expression[:-5].strip()
    m = re.match(r'\w+', expression)
    value = scope.get(m.group(0), Blank)
    rest = expression[m.end():]
    while rest:
        m = STEP.match(rest)
        rest = rest[m.end():]
        if value is Blank:
            raise Undefined()
        name, key, index = m.groups()
        try:
            if index is not None:
                value = value[int(index)]
            else:
                value = value[key if key is not None else name]
        except (TypeError, KeyError, IndexError):
            value = Blank
    if wrap:
        return '<%s>' % ('' if value is Blank else text(value))
    return value


def text(value):
    return str(value)


def render(template, scope):
    out, at = [], 0
    for m in REF.finditer(template):
        out.append(template[at:m.start()])
        value = resolve(m.group(1), scope)
        out.append('' if value is Blank else text(value))
        at = m.end()
    out.append(template[at:])
    return ''.join(out)


def simple(template, scope):
    if not isinstance(template, str):
        raise Bad()
    m = SIMPLE.match(template)
    if not m:
        return template
    value = resolve(m.group(1), scope)
    if value is Blank:
        raise Undefined()
    return value


def interpolate(spec, subject, scope):
    if subject is None:
        return None
    t = spec['t']
    if t in ('text', 'email', 'token'):
        if not isinstance(subject, str):
            raise Bad()
        return render(subject, scope)
    if t in ('integer', 'float', 'decimal'):
        if t == 'decimal':
            if not isinstance(subject, Decimal):
                subject = simple(subject, scope)
        elif not isinstance(subject, (int, float)):
            subject = simple(subject, scope)
        try:
            return {'integer': int, 'float': float, 'decimal': Decimal}[t](subject)
        except (ValueError, TypeError, ArithmeticError):
            raise Bad()
    if t == 'uuid':
        return simple(subject, scope)
    if t == 'enumeration':
        values = spec['enumeration']
        if isinstance(values, str):
            values = values.split(' ')
        if subject in values:
            return subject
        value = simple(subject, scope)
        if value in values:
            return value
        raise Cannot()
    if t == 'field':
        return simple(subject, scope) if isinstance(subject, str) else subject
    if t in gens.SCALARS:
        if isinstance(subject, NATIVE[t]):
            return subject
        return simple(subject, scope)
    if isinstance(subject, str):
        subject = simple(subject, scope)
    if t == 'union':
        for member in spec['fields']:
            try:
                return interpolate(member, subject, scope)
            except (Cannot, Bad):
                pass
        raise Cannot()
    if t in ('structure', 'map'):
        if not isinstance(subject, dict):
            raise Cannot()
        if t == 'map':
            definition = dict((k, spec['value']) for k in subject)
        else:
            definition = spec['structure']
            if 'polymorphic_on' in spec:
                try:
                    definition = model.definition_of(spec, subject.get(model.discriminator(spec)['name']))
                except (KeyError, TypeError):
                    raise Cannot()
        out = {}
        for k, s in definition.items():
            if k in subject:
                try:
                    out[k] = interpolate(s, subject[k], scope)
                except Undefined:
                    pass
        return out
    if not isinstance(subject, (list, tuple)):
        raise Cannot()
    if t == 'sequence':
        return [interpolate(spec['item'], v, scope) for v in subject]
    if len(subject) < len(spec['values']):
        raise Cannot()
    return tuple(interpolate(s, v, scope) for s, v in zip(spec['values'], subject))


def _native():
    from datetime import date, datetime, time
    return {'date': date, 'datetime': datetime, 'time': time, 'boolean': bool, 'binary': bytes}


NATIVE = _native()


# --- templates -------------------------------------------------------------------------------

class Maker(object):
    def __init__(self, d, p, custom):
        self.d, self.p, self.custom = d, p, custom
        self.params, self.globals, self.refs = {}, {}, 0
        self.standard = custom and d.bool(0.4)

    def literal(self, s):
        if '${' in s or '{%' in s or '{#' in s or '\r' in s:
            raise Discard()
        return s

    def clean(self, v):
        if isinstance(v, str):
            self.literal(v)
        elif isinstance(v, dict):
            for k, x in v.items():
                self.clean(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                self.clean(x)
        return v

    def reference(self, value):
        d = self.d
        self.refs += 1
        name = 'p%d' % d.int(0, 5)
        where = self.params
        if self.custom and d.bool(0.2):
            name, where = 'g%d' % d.int(0, 2), self.globals
        elif self.standard and d.bool(0.1):
            return self.around('shout')
        n = d.weighted((5, 0), (3, 1), (1, 2))
        if name in where:
            old = where[name]
            if n and isinstance(old, dict) and 'k0' not in old and old.get('') is True:
                old['k0'] = value
                path = d.choice(('.k0', "['k0']"))
                return self.around(name + path)
            name = '%s_%d' % (name, self.refs)
        path = ''
        for i in range(n):
            kind = d.draw(3)
            if kind == 0:
                value, path = [None, value], '[1]' + path
            elif kind == 1:
                value, path = {'k y': value}, "['k y']" + path
            elif kind == 2:
                value, path = {'k1': value, '': True}, '.k1' + path
            else:
                value, path = (value,), '[0]' + path
        where[name] = value
        return self.around(name + path)

    def around(self, expression):
        d = self.d
        if not re.match(r'\w+\Z', expression) and d.bool(0.15):
            self.params[expression] = 'DECOY'
        if d.bool(0.3):
            expression = d.choice((' %s ', '%s ', '  %s')) % expression
        reference = '${%s}' % expression
        return reference

    def whole(self, value):
        reference = self.reference(value)
        if self.d.bool(0.2):
            reference = self.d.choice((' %s', '%s ', '\t%s\n')) % reference
        return reference

    def missing(self):
        self.refs += 1
        expression = self.d.choice(MISSING)
        if expression.startswith('p0'):
            self.params.setdefault('p0', 'zero')
        return self.around(expression)

    def template(self, spec, value):
        d, t = self.d, spec['t']
        if value is None:
            return None
        r = d.draw(999) / 1000.0
        if r > 1 - self.p * 0.12:
            return self.missing()
        if r > 1 - self.p * 0.16:
            return d.choice((5, 'x', [], {}, True, 1.5, (), [1], {'a': 1}))
        if t in ('text', 'email', 'token') and r > 1 - self.p:
            value = self.clean(value)
            parts = []
            for i in range(d.int(1, 3)):
                parts.append(self.literal(gens.any_text(d, 0, 4, 'xml')) if d.bool(0.6) else '')
                inner = value if d.bool(0.5) else d.choice((5, 1.5, True, None, 'x', '', u'\xe9', [1, 'a'], {'k': 1}))
                parts.append(self.missing() if d.bool(0.12) else self.reference(inner))
                if self.custom and d.bool(0.2):
                    parts[-1] = parts[-1].rstrip('}').rstrip() + '|wrap}'
            parts.append(self.literal(gens.any_text(d, 0, 4, 'xml')) if d.bool(0.5) else '')
            return self.literal_parts(parts)
        if t in gens.SCALARS:
            value = self.clean(value)
            if r > 1 - self.p:
                if t in ('integer', 'float', 'decimal') and d.bool(0.3):
                    value = str(value)
                return self.whole(value)
            return value
        if r > 1 - self.p * 0.4:
            inner = Maker.template(self, spec, value) if d.bool(0.4) else self.inside(spec, value)
            if inner is None:
                return inner
            return self.whole(inner)
        return self.inside(spec, value)

    def literal_parts(self, parts):
        whole = ''.join(parts)
        for piece in REF.split(whole)[::2]:
            self.literal(piece)
        return whole

    def inside(self, spec, value):
        t = spec['t']
        if t == 'union':
            member = accepting(spec, value)
            if member is None:
                raise Discard()
            return self.template(member, value)
        if t == 'structure':
            definition, on = spec['structure'], None
            if 'polymorphic_on' in spec:
                on = model.discriminator(spec)['name']
                definition = model.definition_of(spec, value[on])
            return dict((k, v if k == on and not self.d.bool(0.05) else self.template(definition[k], v))
                for k, v in value.items() if k in definition)
        if t == 'map':
            return dict((k, self.template(spec['value'], v)) for k, v in value.items())
        if t == 'sequence':
            return [self.template(spec['item'], v) for v in value]
        return tuple(self.template(s, v) for s, v in zip(spec['values'], value))


def accepting(spec, value):
    for member in spec['fields']:
        try:
            model.process(member, value, model.IN, False)
            return member
        except model.Rejected:
            pass


def gen_schema(d):
    spec = gens.a_spec(d, OPTS, 3) if d.bool(0.25) else gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 3)
    value = gens.valid(d, spec, OPTS, 0.05)
    custom = d.bool(0.4)
    maker = Maker(d, d.choice((0.3, 0.6, 1.0)), custom)
    template = maker.template(spec, value)
    return {'spec': spec, 'template': template, 'params': maker.params, 'globals': maker.globals if custom else None, 'refs': maker.refs,
        'standard': maker.standard}


def wrap(value):
    return '<%s>' % value


def shout(value=None):
    return value


class Standard(Interpolator):
    standard_filters = [wrap]
    standard_globals = [shout]


def interpolator_of(case):
    if case['globals'] is None:
        return None
    if case.get('standard'):
        return Standard(globals=case['globals'])
    return Interpolator(filters={'wrap': lambda v: '<%s>' % v}, globals=case['globals'])


def judge(run, want_run, case, what):
    """Compare an outcome with that of the model; labels."""
    before = copy.deepcopy((case['template'], case['params'], case['globals']))
    try:
        want = ('ok', want_run())
    except Undefined:
        want = ('undefined', None)
    except Cannot:
        want = ('cannot', None)
    except Bad:
        want = ('bad', None)
    try:
        got = ('ok', run())
    except UndefinedParameterError:
        got = ('undefined', None)
    except CannotInterpolateError:
        got = ('cannot', None)
    except (ValueError, TypeError, ArithmeticError) as error:
        got = ('bad', error)
    if want[0] != got[0]:
        fail('%s of %r with %r: %r, expected %r', what, case['template'], case['params'], got, want)
    if want[0] == 'ok':
        require_same(want[1], got[1], '%s of %r with %r' % (what, case['template'], case['params']))
    require_same(before, (case['template'], case['params'], case['globals']), 'template and parameters after interpolation')
    return [want[0]]


def scope_of(case):
    scope = dict(case['globals'] or {})
    if case.get('standard'):
        scope['shout'] = shout
    scope.update(case['params'])
    return scope


def alone(case):
    """What an interpolator is given stays with it."""
    if case['globals'] is not None:
        for name in sorted(case['globals']) + ['shout']:
            try:
                found = interpolate_parameters('${%s}' % name, {}, True)
            except UndefinedParameterError:
                continue
            fail('%s of another interpolator is %r', name, found)


def check_schema(case):
    spec = case['spec']
    field = build(spec)
    interpolator, scope = interpolator_of(case), scope_of(case)
    labels = judge(lambda: field.interpolate(case['template'], case['params'], interpolator),
        lambda: interpolate(spec, case['template'], scope), case, 'interpolation')
    labels.append(spec['t'])
    labels.append('%d references' % min(case['refs'], 6))
    if interpolator:
        labels.append('custom interpolator')
        alone(case)
    if not case['refs']:
        labels.append('trivial')
    return labels


def gen_text(d):
    custom = d.bool(0.4)
    maker = Maker(d, 1.0, custom)
    if d.bool(0.3):
        template = maker.whole(gens.native(d, OPTS, 2)) if d.bool(0.8) else maker.missing()
    else:
        template = maker.template({'t': 'text'}, maker.literal(gens.any_text(d)))
    if d.bool(0.1):
        template = maker.literal(gens.any_text(d))
    return {'template': template, 'params': maker.params, 'globals': maker.globals if custom else None, 'simple': d.bool(0.4),
        'refs': maker.refs, 'standard': maker.standard}


def check_text(case):
    interpolator, scope = interpolator_of(case), scope_of(case)
    template = case['template']

    def want():
        if not isinstance(template, str):
            raise Bad()
        return simple(template, scope) if case['simple'] else render(template, scope)
    labels = judge(lambda: interpolate_parameters(template, case['params'], case['simple'], interpolator), want, case, 'interpolation')
    labels.append('simple' if case['simple'] else 'template')
    alone(case)
    if not case['refs']:
        labels.append('trivial')
    return labels


def carriage_return():
    return interpolate_parameters('a\rb', {}) != 'a\rb'


FINDINGS = [Finding('carriage-returns', "carriage returns in literal text of templates become line feeds", carriage_return)]

SECTIONS = [Section('text', gen_text, check_text, 6000), Section('schema', gen_schema, check_schema, 16000)]
