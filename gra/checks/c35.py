"""C35: whitespace between block elements does not show."""
import itertools

from ..docs import *

TITLE = 'Pretty-printing does not change the output'
EXPLAIN = ('Relational abstract interpretation: documents of every nesting of block elements in a catalogue are rendered with symbolic texts, once as they are and once with '
           'whitespace between the tags; the lines must be the same.')
MIN_CASES = 60

WS = {'line breaks': lambda d: '\n', 'indented': lambda d: '\n' + '  ' * d, 'tabs': lambda d: '\n' + '\t' * d, 'CRLF': lambda d: '\r\n', 'blank lines': lambda d: '\n\n', 'blanks': lambda d: '  '}


class N:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return T(W('w%d' % self.n))


def build(spec, ws, depth, n):
    """spec: 'w' (words) or (tag, child, …); ws None: no whitespace between tags"""
    if spec == 'w':
        return [n()]
    if spec == 'in':
        return [T(mkstr([W('i%d' % n.n), ' ']))] + el('em', n()) + [T(Const(' '))] + el('code', n())
    tag, kids = spec[0], spec[1:]
    if any(k in ('w', 'in') for k in kids):
        # text: white space is not added between inline content, only before and after
        if ws is not None and tag in ('li', 'dd', 'dt') and len(kids) > 1:
            inner = []
            for i, k in enumerate(kids):
                inner += ([T(Const(ws(depth + 1)))] if k not in ('w', 'in') else []) + build(k, ws, depth + 1, n)
            inner += [T(Const(ws(depth)))] if kids[-1] not in ('w', 'in') else []
        else:
            inner = [x for k in kids for x in build(k, ws, depth + 1, n)]
        if ws is not None and tag != 'pre' and WRAP_TEXT and kids[-1] in ('w', 'in'):
            inner = [T(Const(ws(depth + 1)))] + inner + [T(Const(ws(depth)))]
        return el(tag, *inner)
    inner = []
    for k in kids:
        inner += ([T(Const(ws(depth + 1)))] if ws is not None else []) + build(k, ws, depth + 1, n)
    return el(tag, *(inner + ([T(Const(ws(depth)))] if ws is not None and kids else [])))


WRAP_TEXT = False


def doc(specs, ws, ends):
    n, d = N(), []
    for i, s in enumerate(specs):
        d += ([T(Const(ws(0)))] if ws is not None and (i or ends) else []) + build(s, ws, 0, n)
    return d + ([T(Const(ws(0)))] if ws is not None and ends else [])


def quote(l):
    """The depth of a line with nothing but quotation marks."""
    if not all(isinstance(x, tuple) or isinstance(x, str) and not x.strip('> ') for x in l):
        return None
    return sum(x.count('>') for x in l if isinstance(x, str))


def depth(l):
    n = 0
    for x in l:
        if isinstance(x, str) and x.startswith('>'):
            n += len(x) - len(x.lstrip('> ')) and x[:len(x) - len(x.lstrip('> '))].count('>')
        elif not isinstance(x, tuple):
            break
    return n


def without_ends(ls):
    """Leave out the blank lines at the end of quotations."""
    r = []
    for l in reversed(ls):
        if l and quote(l) and quote(l) > (depth(r[-1]) if r else 0):
            continue
        r.append(l)
    return r[::-1]


def same(h, specs, ws, ctor, pre='', ends=False, text=False):
    global WRAP_TEXT
    WRAP_TEXT = text
    r = []
    for w in (None, WS[ws]):
        outs = list(dict.fromkeys(out(o) for o in render(h, doc(specs, w, ends), ctor, pre=pre)))
        if len(outs) != 1:
            raise Undecided('rendering depends on more than the scenario fixes')
        ls = [trim(l) for l in lines(outs[0])]
        while ls and not ls[-1]:
            ls.pop()
        while ls and not ls[0]:
            ls.pop(0)
        r.append((without_ends(ls), outs[0]))
    if r[0][0] != r[1][0]:
        yield 'shown as %s, with whitespace between the tags as %s' % (show(r[0][1])[:500], show(r[1][1])[:500])


li, p = ('li', 'w'), ('p', 'w')
DOCS = {
    'ul': [('ul', li, li, li)], 'ol': [('ol', li, li)], 'dl': [('dl', ('dt', 'w'), ('dd', 'w'), ('dt', 'w'), ('dd', 'w'))], 'quote': [('blockquote', p)], 'quote of two': [('blockquote', p, p)],
    'quote of three': [('blockquote', p, p, p)], 'paragraphs': [p, p, p], 'headers': [('h1', 'w'), p, ('h2', 'w'), p, ('h3', 'w')], 'pre': [p, ('pre', 'w'), p],
    'item of paragraphs': [('ul', ('li', p), ('li', p, p))], 'nested list': [('ul', ('li', 'w', ('ul', li, li)), li)], 'nested ordered': [('ol', li, ('li', 'w', ('ol', li, li)), li)],
    'list in paragraph item': [('ul', ('li', p, ('ul', li)), li)], 'three deep': [('ul', ('li', 'w', ('ol', ('li', 'w', ('ul', li, li)), li)), li)],
    'list only in item': [('ul', ('li', ('ul', li, li)))], 'ordered only in item': [('ol', ('li', ('ol', li)), li)],
    'list in definition': [('dl', ('dt', 'w'), ('dd', 'w', ('ul', li, li)))], 'paragraph in definition': [('dl', ('dt', 'w'), ('dd', p, p), ('dd', 'w'))],
    'quote of a list': [('blockquote', ('ul', li, li))], 'quote of text and list': [('blockquote', p, ('ul', li, li), p)], 'quote in a quote': [('blockquote', ('blockquote', p, p))],
    'quote in a quote after text': [('blockquote', p, ('blockquote', p), p)], 'quote in an item': [('ul', ('li', 'w', ('blockquote', p)), li)], 'pre in an item': [('ul', ('li', p, ('pre', 'w')), li)],
    'header in an item': [('ul', ('li', ('h3', 'w'), p))], 'header in a quote': [('blockquote', ('h2', 'w'), p)], 'pre in a quote': [('blockquote', p, ('pre', 'w'))],
    'lists': [('ul', li), ('ol', li, li), ('dl', ('dt', 'w'), ('dd', 'w'))], 'list after paragraph': [p, ('ul', li, li), p], 'div of paragraphs': [('div', p, p)], 'div of lists': [('div', ('ul', li, li), p)],
    'div of a quote': [('div', ('blockquote', p), p)], 'definition list in an item': [('ul', ('li', 'w', ('dl', ('dt', 'w'), ('dd', 'w'))), li)], 'inline': [('ul', ('li', 'in'), ('li', 'in')), ('p', 'in')],
    'page': [('h1', 'w'), p, ('ul', ('li', 'w', ('ol', li, li)), li), ('blockquote', p, p), ('pre', 'w'), ('dl', ('dt', 'w'), ('dd', 'w')), p],
    'empty items': [('ul', ('li',), li, ('li',), li)], 'empty list': [p, ('ul',), p], 'empty quote': [p, ('blockquote',), p],
}
CTORS = {'': 'optimise=False', 'gophermap': "optimise=False, output_format='gophermap', gopher_host='h'", 'narrow': 'optimise=False, width=20',
         'page margins': 'optimise=False, box=Box(width=60, margin=[1, 2, 3, 4])', 'optimised': ''}
SETS = {
    'boxed items': "R = {'li': (ListItemRenderer, dict(margin=[1, 0, 0, 1], padding=[0, 1, 0, 1], border=['-', '|', '=', '|']))}\n",
    'boxed paragraphs': "R = {'p': (ParagraphRenderer, dict(margin=[1, 0, 1, 0], padding=[1, 1, 0, 1], border=['-', '', '=', '|']))}\n",
    'templates': "R = {'ul > li': (ListItemRenderer, dict(line_template='+ {}')), 'p': (ParagraphRenderer, dict(line_template='= {}')), 'em': (EmRenderer, dict(template='<{}>'))}\n",
    'margins': "R = {'li': (ListItemRenderer, dict(margin=[1, 0, 1, 2])), 'p': (ParagraphRenderer, dict(margin=[1, 0, 2, 1]))}\n",
    'indents': "R = {'p': (ParagraphRenderer, dict(initial_indent=2, subsequent_indent=1)), 'li': (ListItemRenderer, dict(initial_indent=3, subsequent_indent=2))}\n",
    'structural': "R = {'p:first-child': (ParagraphRenderer, dict(line_template='1 {}')), 'p:last-child': (ParagraphRenderer, dict(line_template='9 {}')), 'p + p': (ParagraphRenderer, dict(line_template='2 {}')), "
                  "'li:last-child': (None, dict(line_template='9 {}')), 'dt + dd': (None, dict(line_template='2 {}')), 'h1 + p': (ParagraphRenderer, dict(initial_indent=4)), 'li:nth-child(2)': (None, dict(initial_indent=1))}\n",
    'aligned': "R = {'p': (ParagraphRenderer, dict(justification='right'))}\n",
}


def cases(h, tier):
    deep = tier != 'quick'
    for nm, specs in DOCS.items():
        for ws in WS:
            for cn, c in CTORS.items() if deep or ws == 'indented' else [('', 'optimise=False')]:
                for ends in (False, True):
                    yield Case('documents', '%s, %s%s%s' % (nm, ws, ' also around it' if ends else '', ', ' + cn if cn else ''), same, specs, ws, c, '', ends)
        for sn, s in SETS.items():
            for ws in WS if deep else ('indented',):
                yield Case('settings', '%s, %s, %s' % (nm, ws, sn), same, specs, ws, 'optimise=False, renderers=R', s)
        for ws in WS if deep else ('indented', 'line breaks'):
            yield Case('around-texts', '%s, %s' % (nm, ws), same, specs, ws, 'optimise=False', '', False, True)
