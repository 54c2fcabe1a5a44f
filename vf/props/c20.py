"""C20: XML content round-trips through any XML-representable schema."""
import random
from xml.dom import minidom
from xml.sax.saxutils import escape

from scheme import Binary, Integer, Text, Union, Xml

from vf import gens, model
from vf.build import walk
from vf.engine import Discard
from vf.oracle import require, require_same
from vf.prop import Finding, Section
from vf.props.formats import large_case, Unrepresentable, arrives, through

RULE = ('A random valid value of a random schema without unions (structures, polymorphic too, maps, sequences and tuples nested to '
    'depth three, named and unnamed, every scalar but binary, text with markup and any unicode XML can carry) is serialized to XML '
    'with or without preamble. The document is parsed by a DOM parser and compared, element by element, with the tree the model '
    'expects; unserializing it, and the same document written by an independent writer (indentation, CDATA, references, comments), '
    'is compared with the model. Large values (nested to 40 levels, hundreds of items or keys, long texts) '
    'go through the same checks. Non-trivial: the value is not null.')
ASSUMPTIONS = ('Keys and names are XML names, opaque fields hold text and enumerations are of text: other schemas have no XML form.',
    'Unions are not supported by the format, which says so.', 'Known finding: binary content serializes to bytes.')

OPTS = gens.Opts(depth=3, width=5, structural=('structure', 'sequence', 'map', 'tuple'), names=gens.XML_NAMES, text='xml',
    scalars=tuple(t for t in gens.SCALARS if t != 'binary'), map_keys=('text', 'token'), field_values='text')
OPTS.enum_text = True
BAD = set(chr(n) for n in list(range(9)) + [11, 12, 13] + list(range(14, 32)) + [0xfffe, 0xffff])


def is_name(k):
    return isinstance(k, str) and k != '' and (k[0].isalpha() or k[0] == '_') and all(c.isalnum() or c in '_-.' for c in k) and k.isascii()


def tree(spec, value, name):
    """(name, null, text, children) of the element for a serialized value."""
    t = spec['t']
    if value is None:
        return (name, True, '', [])
    if t == 'structure':
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            definition = model.definition_of(spec, value[model.discriminator(spec)['name']])
        children = [tree(definition[k], v, k) for k, v in sorted(value.items())]
    elif t == 'map':
        if not all(is_name(k) for k in value):
            raise Unrepresentable()
        children = [tree(spec['value'], v, k) for k, v in sorted(value.items())]
    elif t == 'sequence':
        children = [tree(spec['item'], v, spec['item'].get('name') or 'item') for v in value]
    elif t == 'tuple':
        children = [tree(s, v, s.get('name') or 'value') for s, v in zip(spec['values'], value)]
    else:
        if t == 'boolean':
            text = 'true' if value else 'false'
        elif t in ('integer', 'float'):
            if isinstance(value, bool):
                raise Unrepresentable()
            text = repr(value)
        elif isinstance(value, str):
            text = value
        else:
            raise Unrepresentable()
        if BAD & set(text) or any(0xd800 <= ord(c) < 0xe000 for c in text):
            raise Unrepresentable()
        return (name, False, text, [])
    return (name, False, None, children)


def tuples(spec, value):
    """What the format delivers: positions of tuples as tuples."""
    if value is None:
        return None
    t = spec['t']
    if t == 'structure':
        definition = spec['structure']
        if 'polymorphic_on' in spec:
            definition = model.definition_of(spec, value[model.discriminator(spec)['name']])
        return dict((k, tuples(definition[k], v)) for k, v in value.items())
    if t == 'map':
        return dict((k, tuples(spec['value'], v)) for k, v in value.items())
    if t == 'sequence':
        return [tuples(spec['item'], v) for v in value]
    if t == 'tuple':
        return tuple(tuples(s, v) for s, v in zip(spec['values'], value))
    return value


def seen(node):
    """The same of a DOM element."""
    children = [seen(n) for n in node.childNodes if n.nodeType == n.ELEMENT_NODE]
    text = ''.join(n.data for n in node.childNodes if n.nodeType in (n.TEXT_NODE, n.CDATA_SECTION_NODE))
    return (node.tagName, node.getAttribute('null') == 'true', text, children)


def matches(want, got, where):
    require(want[0] == got[0], '%s is named %r, expected %r', where, got[0], want[0])
    require(want[1] == got[1], '%s null: %r, expected %r', where, got[1], want[1])
    if want[2] is not None:
        require(want[2] == got[2] and not got[3], '%s has text %r, expected %r', where, got[2:], want[2])
    else:
        require(len(want[3]) == len(got[3]) and not got[2].strip(), '%s has children %r, expected %r', where, got[3], want[3])
        for w, g in zip(want[3], got[3]):
            matches(w, g, '%s/%s' % (where, w[0]))


def write(element, rng, level=0):
    """XML text in another style."""
    name, null, text, children = element
    attributes = rng.choice(('', ' other="1"', " a='<'".replace('<', '&lt;')))
    if null:
        attributes += rng.choice((' null="true"', " null='true'"))
        return rng.choice(('<%s%s/>', '<%s%s />')) % (name, attributes)
    if text is not None:
        style = rng.randrange(4)
        if style == 0 and text and ']]>' not in text:
            inner = '<![CDATA[%s]]>' % text
        elif style == 1:
            inner = ''.join(rng.choice(('&#%d;', '&#x%x;')) % ord(c) for c in text)
        else:
            inner = escape(text, {'"': '&quot;', "'": '&apos;'})
        return '<%s%s>%s</%s%s>' % (name, attributes, inner, name, rng.choice(('', ' ')))
    if not children and rng.randrange(2):
        return '<%s%s/>' % (name, attributes)
    pad = rng.choice(('', '\n' + '  ' * level, ' '))
    inner = pad.join([''] + [write(c, rng, level + 1) + rng.choice(('', '', '<!-- note -->')) for c in children])
    return '<%s%s>%s%s</%s>' % (name, attributes, inner, pad, name)


def gen(d):
    spec = gens.a_spec(d, OPTS, 3) if d.bool(0.15) else gens.structural_spec(d, d.choice(OPTS.structural), OPTS, 3)
    for s in walk(spec):
        if d.bool(0.3) and 'name' not in s:
            s['name'] = d.choice(gens.XML_NAMES)
    case = {'spec': spec, 'value': gens.valid(d, spec, OPTS, 0.06), 'style': d.draw(1 << 20)}
    if d.bool(0.3):
        case['preamble'] = d.bool()
    return case


def check(case):
    spec, value = case['spec'], case['value']
    root = spec.get('name') or 'root'

    def carried(serialized):
        tree(spec, serialized, root)
        return tuples(spec, serialized)
    params = dict((k, case[k]) for k in ('preamble',) if k in case)
    field, text, serialized, labels = through(spec, value, 'xml', carried, **params)
    start = '<?xml version="1.0"?>'
    if case.get('preamble', True):
        require(text.startswith(start), '%r does not start with the preamble', text)
    else:
        require(text.startswith('<%s' % root), '%r does not start with the root', text)
    want = tree(spec, serialized, root)
    try:
        document = minidom.parseString(text.encode('utf-8'))
    except Exception as error:
        require(False, '%r is not well-formed: %s', text, error)
    matches(want, seen(document.documentElement), root)
    other = write(want, random.Random(case['style']))
    arrives(spec, field, other, 'application/xml', tuples(spec, serialized), None, 'unserialization of %r' % other)
    require_same(text, field.serialize(value, Xml, **params), 'serialization by format class')
    if value is None:
        labels.append('trivial')
    if 'polymorphic_on' in spec:
        labels.append('polymorphic')
    return labels


def binary():
    return Binary().unserialize(Binary().serialize(b'ab', 'xml'), 'xml') != b'ab'


def binary_probe():
    try:
        return binary()
    except Exception:
        return True


FINDINGS = [Finding('binary', 'binary values do not survive XML: their serialized form is bytes', binary_probe)]

SECTIONS = [Section('schema', gen, check, 15000), Section('large', large_case(OPTS, names=gens.XML_NAMES), check, 800)]
