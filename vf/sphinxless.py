"""The little of docutils and sphinx which scheme.doc.domain needs, for it to be run where neither is installed."""
import sys
import types


class Node(object):
    def __bool__(self):
        return True


class Text(Node):
    def __init__(self, data, rawsource=''):
        self.data = data

    def texts(self):
        return [self.data]


class Element(Node):
    def __init__(self, rawsource='', *children, **attributes):
        self.children = []
        self.attributes = {'ids': [], 'classes': [], 'names': []}
        for name, value in attributes.items():
            self.attributes[name] = list(value) if isinstance(value, (list, tuple)) else value
        self.extend(children)

    def __getitem__(self, name):
        return self.attributes[name] if isinstance(name, str) else self.children[name]

    def __setitem__(self, name, value):
        if isinstance(name, str):
            self.attributes[name] = value
        else:
            self.children[name] = value

    def __contains__(self, name):
        return name in self.attributes if isinstance(name, str) else name in self.children

    def __len__(self):
        return len(self.children)

    def get(self, name, default=None):
        return self.attributes.get(name, default)

    def setdefault(self, name, default=None):
        return self.attributes.setdefault(name, default)

    def update(self, attributes):
        self.attributes.update(attributes)

    def insert(self, index, child):
        if not isinstance(child, Node):
            raise TypeError(child)
        self.children.insert(index, child)

    def append(self, child):
        if not isinstance(child, Node):
            raise TypeError(child)
        self.children.append(child)

    def extend(self, children):
        for child in children:
            self.append(child)

    def __iadd__(self, other):
        if isinstance(other, Node):
            self.append(other)
        elif other is not None:
            self.extend(other)
        return self


class TextElement(Element):
    def __init__(self, rawsource='', text='', *children, **attributes):
        if text:
            children = (Text(text),) + children
        Element.__init__(self, rawsource, *children, **attributes)


class Directive(object):
    has_content = False
    required_arguments = optional_arguments = 0
    final_argument_whitespace = False
    option_spec = None

    def __init__(self, arguments, options, content, state):
        self.name, self.arguments, self.options, self.content = 'field', arguments, options, content
        self.content_offset, self.lineno, self.state, self.state_machine, self.block_text = 0, 0, state, None, ''


def unchanged(argument):
    return argument if argument is not None else ''


def flag(argument):
    if argument and argument.strip():
        raise ValueError('no argument is allowed; "%s" supplied' % argument)


def stand_ins():
    nodes = types.ModuleType('docutils.nodes')
    nodes.Node, nodes.Text, nodes.Element, nodes.TextElement = Node, Text, Element, TextElement
    for name in ('container', 'block_quote', 'section', 'field_list', 'field', 'field_body', 'bullet_list', 'list_item'):
        setattr(nodes, name, type(name, (Element,), {}))
    for name in ('paragraph', 'emphasis', 'inline', 'literal', 'strong', 'title', 'field_name'):
        setattr(nodes, name, type(name, (TextElement,), {}))
    nodes.__getattr__ = lambda name: missing(nodes, name)
    directives = types.ModuleType('docutils.parsers.rst.directives')
    directives.unchanged, directives.unchanged_required, directives.flag = unchanged, unchanged, flag
    rst = types.ModuleType('docutils.parsers.rst')
    rst.directives, rst.Directive = directives, Directive
    modules = {'docutils': types.ModuleType('docutils'), 'docutils.nodes': nodes, 'docutils.parsers': types.ModuleType('docutils.parsers'),
        'docutils.parsers.rst': rst, 'docutils.parsers.rst.directives': directives}
    modules['docutils'].nodes = nodes
    modules['docutils.parsers'].rst = rst
    for name, members in (('sphinx', ()), ('sphinx.addnodes', ()), ('sphinx.roles', ('XRefRole',)), ('sphinx.directives', ('ObjectDescription',)),
            ('sphinx.domains', ('Domain', 'Index', 'ObjType')), ('sphinx.util', ()), ('sphinx.util.compat', ('Directive',)),
            ('sphinx.util.nodes', ('make_refnode',)), ('sphinx.util.docfields', ('Field', 'GroupedField', 'TypedField'))):
        modules[name] = types.ModuleType(name)
        for member in members:
            setattr(modules[name], member, Directive if member == 'Directive' else type(member, (object,), {}))
        if '.' in name:
            parent, own = name.rsplit('.', 1)
            setattr(modules[parent], own, modules[name])
    return modules


def missing(nodes, name):
    """Any other kind of node."""
    if name.startswith('__'):
        raise AttributeError(name)
    kind = type(name, (TextElement,), {})
    setattr(nodes, name, kind)
    return kind


def load():
    """scheme.doc.domain, over stand-ins which are gone afterwards."""
    modules = stand_ins()
    kept = dict((name, sys.modules.get(name)) for name in modules)
    sys.modules.update(modules)
    try:
        from scheme.doc import domain
    finally:
        for name, module in kept.items():
            if module is None:
                del sys.modules[name]
            else:
                sys.modules[name] = module
    return domain
