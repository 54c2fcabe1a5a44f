"""C31: generated documentation states every field of a description where it is."""
import ast
import re

from scheme.doc.generator import DocumentationGenerator, directive

from vf import codec, gens, large, model, sphinxless
from vf.build import build, walk
from vf.describe import strip_unnatural
from vf.oracle import require, require_same
from vf.prop import Section
from vf.props.common import root_spec
from vf.sphinxless import load

RULE = ('Random schemas up to four levels deep, with descriptions, titles, flags, bounds, constants and defaults, are described '
    'and documented, for several roles. The blocks of the documentation, and the text they render to (parsed by its indentation), '
    'are compared with the tree of fields, flags and constraints which the specification names. Random trees of directives '
    'with long texts and values of several lines are rendered and parsed the same way. Non-trivial: the documentation has '
    'more than one block, or states more than a type.')
ASSUMPTIONS = ('The order of the blocks of a structure, and of the words of values and constraints, is not specified; nor how '
    'constraints are separated and quoted.',
    'The sphinx domain which reads the directives is run over stand-ins for docutils and sphinx, which are not installed here; it '
    'has no option for notes, which the documentation states.')

OPTS = gens.Opts(depth=3, pre=False, meta=True, patterns=False)


def gen(d):
    spec = root_spec(d, d.choice(OPTS.structural), OPTS) if d.bool(0.85) else gens.scalar_spec(d, d.choice(gens.SCALARS), OPTS)
    strip_unnatural(spec)
    for s in walk(spec):
        if s.get('title') == '':
            del s['title']
        if d.bool(0.15):
            s['description'] = ' '.join(gens.any_text(d, 1, 8, 'plain') for _ in range(d.int(1, 30)))
        if d.bool(0.1):
            s['title'] = d.choice(('A title', 'two\nlines', '0', 'a\n\nb'))
        if d.bool(0.1):
            s['notes'] = d.choice(('note this', 'one\ntwo\nthree'))
    return {'spec': spec, 'name': d.choice(gens.NAMES + ('', 'body')), 'role': d.choice((None, 'schema', 'request')),
        'sectional': d.bool(0.2), 'verbose': d.bool(0.2)}


def gen_large(d):
    spec, _ = large.valid(d, OPTS, kinds=('deep', 'wide', 'tuple'), top=130)
    strip_unnatural(spec)
    for s in walk(spec):
        if s.get('title') == '':
            del s['title']
    return {'spec': spec, 'name': 'body', 'role': d.choice((None, 'schema')), 'sectional': False, 'verbose': False}


def bounds(spec, names, native):
    out = []
    for aspect, label in names:
        v = spec.get(aspect)
        if v is not None:
            if spec['t'] in native and not isinstance(v, str):
                v = model.WRITE[spec['t']](spec, v)
            out.append('%s=%s' % (label, v))
    return sorted(out)


def words(text):
    return sorted(w.replace("'", '') for w in re.split(r',\s*|\s+', text) if w)


SPAN = (('minimum', 'min'), ('maximum', 'max'))
LENGTHS = (('min_length', 'min'), ('max_length', 'max'))
TEXT = (('min_length', 'min_length'), ('max_length', 'max_length'))
NATIVE = ('date', 'time', 'datetime', 'decimal')


def expected(name, spec, role, description, key=None, sectional=False, constant=None):
    """The block a field should have: [name, {parameter: value}, ordered, children]."""
    t = spec['t']
    params = {'type': '%s: %s' % (key, t) if key else t}
    if sectional:
        params['sectional'] = ''
    for attr in ('description', 'notes', 'title'):
        if spec.get(attr):
            params[attr] = spec[attr]
    for flag in ('nonnull', 'ignore_null', 'required'):
        on = spec.get(flag) or (spec.get('nonempty') and flag != 'ignore_null')
        if on and not (flag == 'required' and role == 'schema'):
            params[flag] = ''
    if spec.get('constant') is not None:
        params['constant'] = repr(description['constant'])
    if description.get('default') is not None:
        require(spec.get('default') is not None, '%r is described with a default', name)
        params['default'] = repr(description['default'])
    elif spec.get('default') is not None:
        require(t == 'union', 'the default of %r is not described', name)
    constraints, ordered, below = [], True, []
    if t in ('integer', 'float') + NATIVE:
        constraints = bounds(spec, SPAN, NATIVE)
        if t == 'datetime' and spec.get('utc'):
            constraints.append('utc=True')
    elif t == 'text':
        least = dict(spec)
        if spec.get('nonempty') and spec.get('min_length') is None:
            least['min_length'] = 1
        constraints = bounds(least, TEXT, ())
        if spec.get('strip') is False:
            constraints.append('strip=false')
    elif t == 'sequence':
        constraints = bounds(spec, LENGTHS, ())
        if spec.get('unique'):
            params['unique'] = ''
        below.append(expected('', spec['item'], role, description['item']))
    elif t == 'enumeration':
        if spec.get('constant') is None:
            allowed = spec['enumeration']
            params['values'] = sorted(' '.join(str(v) for v in allowed).split() if not isinstance(allowed, str) else allowed.split())
    elif t == 'map':
        k = spec['key']['t'] if spec.get('key') else 'text'
        if spec.get('required_keys'):
            names = spec['required_keys']
            params['required_keys'] = sorted(repr(x) for x in (names.split(' ') if isinstance(names, str) else names))
        if spec['value']['t'] in model.STRUCTURAL or spec['value'].get('description'):
            below.append(expected('', spec['value'], role, description['value'], key=k))
        else:
            params['subtype'] = '%s: %s' % (k, spec['value']['t'])
    elif t in ('tuple', 'union'):
        attr = 'values' if t == 'tuple' else 'fields'
        below = [expected('', s, role, description[attr][i]) for i, s in enumerate(spec[attr])]
    elif t == 'structure':
        ordered = False
        if 'polymorphic_on' in spec:
            if spec['structure']:
                params['polymorphic'] = ''
            on = model.discriminator(spec)['name']
            for identity in spec['structure']:
                described = [k for k in description['structure'] if str(k) == str(identity)]
                require(len(described) == 1, 'the description has no variant %r', identity)
                fields = dict(spec['structure'][identity])
                fields.update(spec.get('common', {}))
                fields.pop(on, None)
                below.append(['%s=%r' % (on, described[0]), {'polymorphic_discriminator': ''}, False,
                    [expected(n, s, role, description['structure'][described[0]][n]) for n, s in fields.items()]])
        else:
            below = [expected(n, s, role, description['structure'][n]) for n, s in spec['structure'].items()]
    if constraints:
        params['constraints'] = sorted(constraints)
    return [name, params, ordered, below]


CHECKED = ('type', 'sectional', 'description', 'notes', 'title', 'nonnull', 'ignore_null', 'required', 'constant', 'default',
    'constraints', 'unique', 'values', 'required_keys', 'subtype', 'polymorphic', 'polymorphic_discriminator')


def normal(key, value):
    if key == 'constraints':
        return words(value)
    if key == 'values':
        return sorted(value.split())
    if key == 'required_keys':
        return sorted(repr(x) for x in ast.literal_eval(value))
    return value


def compare(want, got, path):
    """`got` is [name, {parameter: value}, children]."""
    require(want[0] == got[0], '%s is a block for %r, expected %r', path, got[0], want[0])
    path = '%s/%s' % (path, want[0])
    for k in CHECKED:
        require((k in want[1]) == (k in got[1]), '%s %s %r, expected %r', path, 'states' if k in got[1] else 'does not state', k,
            want[1].get(k))
        if k in want[1]:
            found = normal(k, got[1][k])
            if k == 'constraints':
                found = sorted(found)
                expect = sorted(w.replace("'", '') for w in want[1][k])
            else:
                expect = want[1][k]
            require(found == expect, '%s has %s %r, expected %r', path, k, found, expect)
    require(len(want[3]) == len(got[2]), '%s has blocks for %r, expected %r', path, [b[0] for b in got[2]], [b[0] for b in want[3]])
    if want[2]:
        pairs = list(zip(want[3], got[2]))
    else:
        pairs = list(zip(sorted(want[3], key=lambda b: b[0]), sorted(got[2], key=lambda b: b[0])))
    for w, g in pairs:
        compare(w, g, path)


def structure_of(block):
    params = {}
    for name, value in block.params:
        require(name not in params, 'parameter %r is stated twice', name)
        params[name] = str(value)
    return [' '.join(str(a) for a in block.args), params, [structure_of(b) for b in block.content]]


DIRECTIVE = re.compile(r'^( *)\.\. field::(?: (.*))?$')
PARAM = re.compile(r'^( *):([a-z_]+):(?: (.*))?$')


def parse(text):
    """The blocks of rendered text, by indentation alone."""
    root = [None, {}, []]
    stack = [(-4, root)]
    current = None
    texts = {}
    for line in text.split('\n'):
        if not line.strip(' '):
            if current and line.startswith(' ' * (stack[-1][0] + 8)):
                stack[-1][1][1][current] += '\n' + line[stack[-1][0] + 8:]
            elif not line:
                current = None
            continue
        found = DIRECTIVE.match(line)
        if found:
            indent = len(found.group(1))
            while stack[-1][0] >= indent:
                stack.pop()
            require(stack[-1][0] == indent - 4, 'the block %r is indented by %d below one indented by %d', line, indent, stack[-1][0])
            block = [found.group(2) or '', {}, []]
            stack[-1][1][2].append(block)
            stack.append((indent, block))
            current = None
            continue
        indent, block = stack[-1]
        found = PARAM.match(line)
        if found and len(found.group(1)) == indent + 4 and not block[2]:
            current = found.group(2)
            require(current not in block[1], 'parameter %r is stated twice', current)
            block[1][current] = found.group(3) or ''
            continue
        if current and line.startswith(' ' * (indent + 8)):
            block[1][current] += '\n' + line[indent + 8:]
            continue
        # text belongs to the block whose content is indented as the text is
        depth = len(line) - len(line.lstrip(' '))
        owner = [b for i, b in stack if i + 4 == depth]
        require(len(owner) == 1, 'the line %r belongs to no block', line)
        while stack[-1][1] is not owner[0]:
            stack.pop()
        texts.setdefault(id(owner[0]), []).append(line[depth:])
        current = None
    return root[2], texts


def check(case):
    spec, role = case['spec'], case['role']
    description = build(spec).describe(verbose=case['verbose'])
    before = codec.dumps(description)
    block = DocumentationGenerator()._document_field(case['name'], description, role, case['sectional'])
    want = expected(case['name'], spec, role, description, sectional=case['sectional'])
    compare(want, structure_of(block), '')
    text = block.render()
    require(text == block.render(), 'rendering twice gives different texts')
    require(codec.dumps(description) == before, 'documenting changed the description')
    if all(simple(b) for b in blocks(want)):
        got, _ = parse(text)
        require(len(got) == 1, 'the text has %d outermost blocks', len(got))
        compare(want, got[0], 'rendered:')
    n = len(list(blocks(want)))
    return [spec['t'], 'role %s' % role] + (['trivial'] if n < 2 and len(want[1]) < 2 else []) + (['many'] if n > 8 else [])


def blocks(want):
    yield want
    for b in want[3]:
        for x in blocks(b):
            yield x


def simple(block):
    """Whether the text a block renders to can be read back."""
    return block[0] == block[0].strip() and block[0] == ''.join(block[0].splitlines()) and not any(
        isinstance(v, str) and re.search('[\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]', v) for v in block[1].values())


# --- directives --------------------------------------------------------------------

def gen_directive(d):
    def one(depth):
        return {'args': [d.choice(gens.NAMES) for _ in range(d.int(0, 2))],
            'params': [[n, d.choice(('', 'x', 'some words', '0', 'a\nb', 'a\n  b\nc', u'\xe9', 7, True, None))]
                for n in d.subset(('type', 'notes', 'default', 'a_b'), 0.5)],
            'content': [one(depth - 1) if depth and d.bool(0.6) else
                ' '.join(gens.text_of(d, 'abcxyz.,', 1, 14) for _ in range(d.int(1, 40))) for _ in range(d.int(0, 3))],
            'extend': d.bool(0.5)}
    return {'tree': one(d.int(0, 3)), 'indent': d.choice((0, 0, 0, 1, 3))}


def make(tree):
    block = directive('field', *tree['args'][:1])
    for a in tree['args'][1:]:
        require(block.add(a) is block, 'add() does not return the directive')
    for n, v in tree['params']:
        require(block.set(n, v) is block, 'set() does not return the directive')
    inner = [x if isinstance(x, str) else make(x) for x in tree['content']]
    if tree['extend']:
        require(block.extend(inner) is block, 'extend() does not return the directive')
    else:
        for x in inner:
            require(block.append(x) is block, 'append() does not return the directive')
    return block


def check_directive(case):
    text = make(case['tree']).render(case['indent'])
    pad = '    ' * case['indent']
    lines = []
    for line in text.split('\n'):
        require(not line.strip() or line.startswith(pad), '%r is not indented', line)
        require(len(line) <= 80 or ':' in line, 'a text is wrapped to %d columns', len(line))
        lines.append(line[len(pad):])
    got, texts = parse('\n'.join(lines))
    require(len(got) == 1, 'the text has %d outermost blocks', len(got))
    count = [0]

    def compare_tree(tree, block, path):
        count[0] += 1
        require(block[0] == ' '.join(tree['args']), '%s has the arguments %r, expected %r', path, block[0], tree['args'])
        require_same(dict((n, str(v)) for n, v in tree['params']), block[1], '%s: parameters' % path)
        inner = [x for x in tree['content'] if not isinstance(x, str)]
        require(len(inner) == len(block[2]), '%s has %d blocks, expected %d', path, len(block[2]), len(inner))
        words = [w for x in tree['content'] if isinstance(x, str) for w in x.split()]
        require(words == ' '.join(texts.get(id(block), [])).split(), '%s has the text %r', path, texts.get(id(block)))
        for i, (x, b) in enumerate(zip(inner, block[2])):
            compare_tree(x, b, '%s/%d' % (path, i))

    compare_tree(case['tree'], got[0], 'directive')
    return ['directive', 'nontrivial'] + (['nested'] if count[0] > 1 else [])


# --- the sphinx domain --------------------------------------------------------------

DOMAIN = load()
FLAGS = ('required', 'nonnull', 'ignore_null', 'polymorphic', 'unique')
BLOCKS = ('pattern', 'values', 'required_keys')


class State(object):
    """Runs the directives of a content; the content is the blocks themselves."""

    def nested_parse(self, content, offset, node):
        for block in content:
            node += present(block)


def present(block):
    name, params, content = block
    options, kind = {}, DOMAIN.FieldDefinition
    for k, v in params.items():
        if k != 'notes':
            # the domain has no such option
            require(k in kind.option_spec, 'the option %r is not known to the directive', k)
            options[k] = kind.option_spec[k](v)
    require(content == [] or kind.has_content, 'the directive has no content')
    return kind([name] if name else [], options, content, State()).run()


def own_texts(node):
    """(texts with the classes they have, nested definitions) of a definition."""
    texts, nested = [], []

    def visit(n, classes):
        if isinstance(n, sphinxless.Text):
            texts.append((n.data, classes))
            return
        for child in n.children:
            inner = getattr(child, 'attributes', {}).get('classes', [])
            if 'field' in inner:
                nested.append(child)
            else:
                visit(child, classes + tuple(inner))
                if type(child).__name__ in ('paragraph', 'block_quote', 'container'):
                    texts.append(('\n', ()))
    visit(node, ())
    return texts, nested


def gen_presented(d):
    case = gen(d)
    case['patterns'] = d.bool(0.3)
    return case


def check_presented(case):
    spec, role = case['spec'], case['role']
    description = build(spec).describe(verbose=case['verbose'])
    block = structure_of(DocumentationGenerator()._document_field(case['name'], description, role, case['sectional']))
    if case['patterns']:
        block[1]['pattern'] = '[a-z]+'
    result = present(block)
    require(len(result) == 1 and isinstance(result[0], sphinxless.Element), 'the directive gives %r', result)
    count = [0]

    def compare_node(node, block, path):
        count[0] += 1
        name, params, content = block
        path = '%s/%s' % (path, name)
        texts, nested = own_texts(node)
        joined = ''.join(t for t, _ in texts)
        expect = []
        require('field' in node['classes'] and ('sectional' in node['classes']) == ('sectional' in params), '%s has the classes %r',
            path, node['classes'])
        named = [t for t, c in texts if 'field-name' in c]
        if name:
            require(len(named) == 1 and named[0].rstrip(':.') == name.rstrip(':.'), '%s is named %r', path, named)
            classes = [c for _, c in texts if 'field-name' in c][0]
            require(('required' in classes) == ('required' in params), '%s has the classes %r', path, classes)
            expect.append(named[0])
        else:
            require(not named, '%s has no name, but is named %r', path, named)
        for k in ('constant', 'default'):
            if k in params and not (k == 'default' and 'constant' in params):
                expect.append('%s=%s' % (k, params[k]))
        for k in ('description', 'constraints', 'pattern', 'values', 'required_keys'):
            if params.get(k):
                expect.append(params[k])
        if params.get('title'):
            expect.append('"%s"' % params['title'])
        if 'subtype' in params:
            expect.append('<%s>' % params['subtype'])
        if 'type' in params:
            expect.append(params['type'])
        expect.extend(f for f in FLAGS if f in params)
        expect.extend(k + ':' for k in BLOCKS if params.get(k))
        left = joined
        for text in sorted(expect, key=len, reverse=True):
            require(text in left, '%s does not state %r: %r', path, text, joined)
            left = left.replace(text, ' ', 1)
        require(not left.strip(), '%s states %r besides: %r', path, left.strip(), joined)
        require(len(nested) == len(content), '%s has %d nested definitions, expected %d', path, len(nested), len(content))
        for inner, b in zip(nested, content):
            compare_node(inner, b, path)

    compare_node(result[0], block, '')
    whole = DOMAIN.StructureDefinition([case['name']], {}, [block], State()).run()
    require(len(whole) == 2 and case['name'] in ''.join(t for t, _ in own_texts(whole[0])[0]), 'the structure is presented as %r', whole)
    require(len(own_texts(whole[1])[1]) == 1, 'the structure does not have its content')
    empty = DOMAIN.StructureDefinition([case['name']], {}, [], State()).run()
    require(len(empty) == 1, 'an empty structure is presented as %r', empty)
    return [spec['t'], '%d nodes' % min(count[0], 9)] + (['trivial'] if count[0] < 2 else [])


SECTIONS = [Section('documentation', gen, check, 12000), Section('directives', gen_directive, check_directive, 6000),
    Section('presented', gen_presented, check_presented, 6000), Section('large', gen_large, check, 400)]
