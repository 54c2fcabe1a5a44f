"""C32: text helpers keep the text they arrange."""
import re

from scheme.util import abbreviate_string, format_structure, indent, minimize_string, pluralize

from vf import codec, gens
from vf.oracle import require, require_same
from vf.prop import Section

RULE = ('Random texts of up to 60 characters (line breaks of every kind, blanks, letters, symbols, other scripts) are indented by '
    'numbers and by prefixes, minimized, and abbreviated to random lengths, alone and as values of nested structures; words, '
    'with the endings which have a plural of their own more likely, are pluralized for random quantities. '
    'Non-trivial: the text is changed.')
ASSUMPTIONS = ('Abbreviations keep at least one character and the dots, whatever length is asked for.',)

BLANK = u' \t\n\r\x0b\x0c\xa0\u2003\u3000\x85\u2028'
ENDINGS = ('ife', 'eau', 'lf', 's', 'x', 'z', 'h', 'ch', 'gh', 'th', 'y', 'ay', 'quy', 'ly', 'f', 'fe', 'o', 'e', 'ifes', 'eaus', '')


def gen_text(d):
    alphabet = d.choice((gens.PLAIN, gens.PLAIN + BLANK, BLANK + 'ab', gens.RICH, u'-. a', u'-.'))
    text = gens.text_of(d, alphabet, 0, 60)
    return {'text': text, 'by': d.choice((0, 1, 4, 5, '', '> ', '\t')), 'first': d.bool(0.5), 'max': d.int(0, 64),
        'lines': d.bool(0.5)}


def check_text(case):
    text, by = case['text'], case['by']
    labels = []
    prefix = ' ' * by if isinstance(by, int) else by
    got = indent(text, by, case['first'])
    lines, out = text.split('\n'), got.split('\n')
    require(len(lines) == len(out), 'indenting %r gave %r', text, got)
    for i, (a, b) in enumerate(zip(lines, out)):
        require(b == (a if i == 0 and not case['first'] else prefix + a), 'line %d of %r indented by %r is %r', i, text, by, b)
    if case['first']:
        require(indent(text, by) == got, 'the first line is not indented unless asked for')
    small = minimize_string(text)
    require(' '.join(text.split()) == ' '.join(small.split()), 'minimizing %r gave the words %r', text, small.split())
    require(not re.search(r'\s\s', small) and not re.search(r'[^\S ]', small), 'minimizing %r gave %r', text, small)
    require(small == small.strip(' '), 'minimizing %r gave %r', text, small)
    require(minimize_string(small) == small, 'minimizing %r again gave %r', small, minimize_string(small))
    for limit in (case['max'], 0):
        short = abbreviate_string(text, *([limit] if limit else []))
        limit = max(limit, 5)
        if len(text) <= limit:
            require(short == text, '%r abbreviated to %d is %r', text, limit, short)
            continue
        labels.append('abbreviated')
        require(len(short) <= limit, '%r abbreviated to %d is %r', text, limit, short)
        ends = [(short[:m.start()], short[m.start() + 3:]) for m in re.finditer(r'(?=\.\.\.)', short)]
        require(any(text.startswith(l) and text.endswith(r) for l, r in ends), '%r abbreviated to %d is %r', text, limit, short)
        half = (limit - 3) // 2
        if text[half - 1].isalnum() and text[-half].isalnum():
            labels.append('cut in words')
            require(any(len(l) == half and len(r) == half and text.startswith(l) and text.endswith(r) for l, r in ends),
                '%r abbreviated to %d is %r', text, limit, short)
    return labels + (['changed'] if got != text or small != text else ['trivial'])


def gen_abbreviated(d):
    def value(depth):
        kind = d.draw(6) if depth else d.draw(3)
        if kind <= 1:
            return gens.text_of(d, d.choice((gens.PLAIN, u'ab -.', gens.PLAIN)), 0, 14)
        if kind == 2:
            return d.choice((1, 2.5, None, True, -3))
        if kind == 3:
            return [value(depth - 1) for _ in range(d.int(0, 3))]
        if kind == 4:
            return tuple(value(depth - 1) for _ in range(d.int(0, 3)))
        return dict((k, value(depth - 1)) for k in d.subset(('a', 'b', 'long-key-name', 'd e'), 0.5))
    return {'value': value(3), 'indent': d.choice((4, 4, 2, 0))}


def check_abbreviated(case):
    value = case['value']
    before = codec.dumps(value)
    count = [0]

    def short(x):
        if isinstance(x, str):
            count[0] += len(x) > 5
            return abbreviate_string(x)
        if isinstance(x, dict):
            return dict((k, short(v)) for k, v in x.items())
        if isinstance(x, (list, tuple)):
            return type(x)(short(v) for v in x)
        return x
    text = format_structure(value, abbreviate=True, indent=case['indent'])
    require(codec.dumps(value) == before, 'formatting changed the value')
    try:
        found = eval(text, {'__builtins__': {}}, {'None': None, 'True': True})
    except SyntaxError:
        found = text
    require_same(single(short(value)), single(found), 'the abbreviated structure')
    return ['structure'] + (['abbreviated'] if count[0] else ['trivial'])


def single(x):
    """A tuple of one item is shown as the item in parentheses."""
    if isinstance(x, dict):
        return dict((k, single(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        items = [single(v) for v in x]
        return items if isinstance(x, list) else items[0] if len(items) == 1 else tuple(items)
    return x


def gen_word(d):
    return {'word': gens.text_of(d, 'aeioustkcgqlfnz', 0, 6) + d.choice(ENDINGS), 'quantity': d.choice((None, 0, 1, 2, 1, 1.0, 21, -1))}


def check_word(case):
    word = case['word']
    got = pluralize(word, case['quantity'])
    if case['quantity'] == 1:
        require(got == word, 'one %r is %r', word, got)
        return ['single']
    require(got == plural(word), '%r in the plural is %r, expected %r', word, got, plural(word))
    require(pluralize(word) == got, '%r without a quantity is %r', word, pluralize(word))
    return ['plural', word[-1:]]


def plural(word):
    if word.endswith('ife'):
        return word[:-3] + 'ives'
    if word.endswith('eau'):
        return word + 'x'
    if word.endswith('lf'):
        return word[:-1] + 'ves'
    if word[-1:] and word[-1:] in 'sxz':
        return word + 'es'
    if word.endswith('h') and len(word) > 1 and word[-2] not in 'aeioudgkprt':
        return word + 'es'
    if word.endswith('y') and len(word) > 1 and (word[-2] not in 'aeiou' or word.endswith('quy')):
        return word[:-1] + 'ies'
    return word + 's'


SECTIONS = [Section('texts', gen_text, check_text, 40000), Section('structures', gen_abbreviated, check_abbreviated, 12000),
    Section('words', gen_word, check_word, 15000)]
