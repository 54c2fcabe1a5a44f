"""C19: YAML content reads back as exactly the value written."""
import datetime
from collections import OrderedDict

import yaml

from scheme import Enumeration, Integer, Map, Yaml

from vf import gens
from vf.engine import Discard
from vf.oracle import require, require_same
from vf.prop import Finding, Section
from vf.props.formats import Unrepresentable, arrives, independent, large_case, through

RULE = ('Random native values (texts resembling every other YAML type or syntax, multi-line, long, padded, with any unicode; '
    'nested mappings, ordered or not, lists, numbers, dates) and valid values of random schemas are written as YAML. The text is '
    'composed and constructed by the safe loader of PyYAML: value, types and order of keys are compared with what was written, and '
    'unserialize with the same (or with what the model makes of it, through a schema). PyYAML dumps in several styles are read '
    'back too. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the value contains something.')
ASSUMPTIONS = ('Keys are shorter than the 1024 characters YAML allows.', 'Lone surrogates are not text YAML can carry when PyYAML '
    'reads it, so they are left out.', 'Known finding: maps whose serialized keys cannot be sorted, left out.')

OPTS = gens.Opts(depth=3, width=5, scalars=tuple(t for t in gens.SCALARS if t != 'binary'))
JOINS = (' ', ' ', ' ', '  ', '\n', '\n', '\n\n', ' \n', '\n ', '\n  ', '\t', ': ', ' #', '# ', ':', ' - ', '- ', "'", '"', "' ",
    ', ', ' | ', '\\', '\r\n', '\r', u'\x85', u'\u2028', u'\xa0', '%', '---\n', '...\n', '}', '? ', '&', '*', '!', '\n---\n', u'\ufeff')
WORDS = ('a', 'word', 'another', 'x1', '12', 'null', 'true', u'\xe9t\xe9', u'\u4e2d\u6587', u'\U0001f600', '', '-', 'y', 'n',
    'somewhat-longer-word', '1.5', "it's", '"q"')


def a_text(d):
    if d.bool(0.55):
        return gens.any_text(d, 0, 16)
    n = d.weighted((4, d.int(0, 5)), (3, d.int(5, 40)))
    joins = [d.choice(JOINS) for _ in range(d.int(1, 2))] if d.bool(0.6) else JOINS
    return ''.join(d.choice(WORDS) + d.choice(joins) for _ in range(n)) + (d.choice(WORDS) if d.bool(0.8) else '')


def a_value(d, depth):
    mode = d.draw(11 if depth > 0 else 7)
    if mode == 0:
        return None
    if mode == 1:
        return d.bool()
    if mode == 2:
        return gens.an_integer(d)
    if mode == 3:
        return gens.a_float(d, True)
    if mode == 4 and d.bool(0.4):
        return gens.a_date(d) if d.bool() else gens.a_naive(d)
    if mode <= 7:
        return a_text(d)
    if mode <= 8:
        return [a_value(d, depth - 1) for _ in range(d.size(0, 4))]
    if mode == 9 and d.bool(0.2):
        return tuple(a_value(d, depth - 1) for _ in range(d.size(0, 3)))
    items = [(a_text(d)[:200], a_value(d, depth - 1)) for _ in range(d.size(0, 4))]
    return OrderedDict(items) if d.bool(0.3) else dict(items)


def plain(value):
    """What a YAML reader gives for the value."""
    if isinstance(value, dict):
        if not all(isinstance(k, (bool, int, float, str)) for k in value):
            raise Unrepresentable()
        return dict((k, plain(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if value is not None and not isinstance(value, (bool, int, float, str, datetime.date)) or (
            isinstance(value, datetime.datetime) and (value.tzinfo or value.microsecond)):
        raise Unrepresentable()
    return value


def read(text, what):
    try:
        return yaml.compose(text, Loader=yaml.SafeLoader), yaml.load(text, Loader=yaml.SafeLoader)
    except yaml.YAMLError as error:
        require(False, '%s is not YAML: %s\n%s', what, error, text)


def check_order(value, node, where='value'):
    """The keys of mappings are in the order declared, or sorted."""
    if isinstance(value, dict) and value:
        require(isinstance(node, yaml.MappingNode), '%s is not a mapping', where)
        loader = yaml.SafeLoader('')
        keys = [loader.construct_object(k, True) for k, _ in node.value]
        wanted = list(value) if isinstance(value, OrderedDict) else sorted(value)
        require_same(wanted, keys, 'order of the keys of %s' % where)
        for k, (_, v) in zip(keys, node.value):
            check_order(value[k], v, '%s[%r]' % (where, k))
    elif isinstance(value, (list, tuple)) and value:
        require(isinstance(node, yaml.SequenceNode), '%s is not a sequence', where)
        for i, (x, v) in enumerate(zip(value, node.value)):
            check_order(x, v, '%s[%d]' % (where, i))


def gen_native(d):
    return {'value': a_value(d, d.int(0, 4)), 'style': (d.choice((None, True, False)), d.choice((20, 80, 1000)), d.bool(),
        d.choice((2, 4)), d.choice((None, None, "'", '"', '|', '>')))}


def check_native(case):
    value = case['value']
    want = plain(value)
    text = Yaml.serialize(value)
    require(type(text) is str, 'serialization of %r is %r', value, text)
    node, got = read(text, 'serialization of %r' % (value,))
    require_same(want, got, 'what PyYAML reads of\n%s\n' % text)
    check_order(value, node)
    independent(lambda: Yaml.unserialize(text), want, 'round trip of %r' % (value,))
    flow, width, unicode, indent, quotes = case['style']
    other = yaml.safe_dump(want, default_flow_style=flow, width=width, allow_unicode=unicode, indent=indent, default_style=quotes)
    try:
        reference = yaml.load(other, Loader=yaml.SafeLoader)
    except yaml.YAMLError:
        reference = None
    if reference is not None:
        require_same(reference, Yaml.unserialize(other), 'unserialization of\n%s\n' % other)
    labels = [type(value).__name__]
    if '\n' in text:
        labels.append('lines')
    if value in (None, '', [], {}, (), True, False):
        labels.append('trivial')
    return labels


def gen_schema(d):
    spec = gens.a_spec(d, OPTS, 3) if d.bool(0.3) else gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 3)
    return {'spec': spec, 'value': gens.valid(d, spec, OPTS, 0.05)}


def sortable(value):
    if isinstance(value, dict):
        try:
            sorted(value)
        except TypeError:
            return isinstance(value, OrderedDict)
        return all(sortable(v) for v in value.values())
    if isinstance(value, (list, tuple)):
        return all(sortable(v) for v in value)
    return True


def carried(value):
    if not sortable(value):
        raise Unrepresentable()
    return plain(value)


def check_schema(case):
    spec, value = case['spec'], case['value']
    field, text, serialized, labels = through(spec, value, 'yaml', carried)
    node, got = read(text, 'serialization of %r' % (value,))
    require_same(plain(serialized), got, 'what PyYAML reads of\n%s\n' % text)
    check_order(serialized, node)
    require_same(text, field.serialize(value, Yaml), 'serialization by format class')
    other = yaml.safe_dump(plain(serialized))
    if plain(serialized) == yaml.safe_load(other):
        arrives(spec, field, other, 'application/x-yaml', plain(serialized), None, 'unserialization of\n%s\n' % other)
    if value is None:
        labels.append('trivial')
    return labels


def unsortable():
    try:
        Map(Integer(), key=Enumeration(['a', 1])).serialize({'a': 1, 1: 2}, 'yaml')
    except TypeError:
        return True
    return False


FINDINGS = [Finding('unsortable-keys', 'maps whose keys serialize to values of different types, which cannot be sorted, cannot be '
    'serialized to YAML', unsortable)]

SECTIONS = [Section('native', gen_native, check_native, 14000), Section('schema', gen_schema, check_schema, 6000),
    Section('large', large_case(OPTS, top=130), check_schema, 500)]
