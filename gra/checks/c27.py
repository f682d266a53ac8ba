"""C27: optimised output."""
import itertools

from ..docs import *
from .c35 import DOCS as BLOCKDOCS, doc as blockdoc

TITLE = 'Optimised output lacks only the blanks at the ends of lines'
EXPLAIN = ('Relational abstract interpretation: documents with symbolic texts are rendered twice, with optimise on (also by default) and off; every line of the one must be '
           'the line of the other without the whitespace at its end.')
MIN_CASES = 100

TWICE = """
p = GopherHTMLParser(%s)
p.feed(DOC)
p.close()
OUT = p.parsed
q = GopherHTMLParser(optimise=False%s)
q.feed(DOC)
q.close()
WANT = q.parsed
"""


def cut(line):
    t = toks(line)
    while t:
        if isinstance(t[-1], tuple):
            t.pop()
        elif isinstance(t[-1], str):
            s = t[-1].rstrip()
            if s == t[-1]:
                break
            t.pop()
            if s:
                t.append(s)
                break
        else:
            break
    return t


def same(h, d, ctor='', pre='', on=''):
    for o in render(h, d, src=TWICE % (on + ctor if on else ctor.lstrip(', '), ctor), pre=pre):
        a, b = lines(out(o)), lines(out(o, 'WANT'))
        if len(a) != len(b):
            yield '%d lines instead of %d: %s instead of %s' % (len(a), len(b), show(out(o))[:300], show(out(o, 'WANT'))[:300])
            return
        for x, y in zip(a, b):
            if toks(x) != cut(y):
                yield 'the line %s is optimised to %s' % (show(y)[:300], show(x)[:300])
                return


R = lambda **k: 'R = {%s}\n' % ', '.join("'%s': (%s, dict(%s))" % (s, c, a) for s, (c, a) in k.items())
SETS = {
    'bordered': R(p=('ParagraphRenderer', "border=['-', '|', '=', '|'], padding=[1, 1, 1, 1]"), li=('ListItemRenderer', "border=['', '', '', '|']"), h2=('MarkdownHeaderRenderer', "border=['~', '', '~', '']")),
    'blank borders': R(p=('ParagraphRenderer', "border=[' ', ' ', ' ', ' '], padding=[1, 2, 1, 2], margin=[2, 1, 2, 3]"), blockquote=('BlockQuoteRenderer', "line_template='> {} '")),
    'templates': R(p=('ParagraphRenderer', "line_template='{}  '"), li=('ListItemRenderer', "line_template='*\\t{}'"), em=('EmRenderer', "template=' {} '"), a=('LinkRenderer', "template='{}\\t'")),
    'aligned': R(p=('ParagraphRenderer', "justification='right'"), li=('ListItemRenderer', "justification='full'"), h2=('HeaderRenderer', "centered=True, underlined=True, underline_char=' '"), dt=('HeaderRenderer', "centered=True")),
    'styles': R(em=('AnsiEscapeCodeRenderer', "bold=True, template='{} '"), p=('ParagraphRenderer', "margin=[1, 0, 3, 0]"), code=('AnsiEscapeCodeRenderer', "background_colour='red', template=' {} '")),
}
CTORS = {
    '': '', 'gophermap': ", output_format='gophermap', gopher_host='h', image_placement='footer'", 'after block': ", link_placement='after_block', image_placement='after_block'",
    'gophermap after block': ", output_format='gophermap', gopher_host='h', link_placement='after_block'", 'page margins': ', box=Box(width=60, margin=[1, 2, 3, 4])', 'inline': ", link_placement='inline'",
}
ENDS = [' ', '\t', '  \t ', '\xa0', '\u3000 ', '\x0b', '\x0c', '\x1f', '\u2003', '.', '-', '\u200b', '\x00']


def docs():
    for nm, s in BLOCKDOCS.items():
        yield nm, blockdoc(s, None, False)
        yield nm + ', with line breaks', blockdoc(s, lambda d: '\n' + '  ' * d, True)
    yield 'probe', probe()
    yield 'empty', []
    yield 'blank', [T(Const('  '))]
    yield 'empty elements', [x for t in ('p', 'div', 'ul', 'pre', 'h2', 'blockquote', 'em') for x in el(t)]
    for nm, d in histories().items():
        yield nm, d
    yield 'image without text', el('p', T(W('A')), IMG('/i.gif', Const('a '))) + IMG('/j.gif', Const(' '))
    yield 'links', el('p', A('/x', T(W('A')), title=Const('t ')), T(W('B'))) + el('td', A('/y', T(mkstr([W('C'), ' ']))))
    yield 'breaks', el('p', T(mkstr([W('A'), ' '])), S('br'), T(mkstr([' ', W('B'), ' '])), S('br'), S('br'), T(W('C'))) + [S('br'), T(W('D')), S('br')]


def cases(h, tier):
    deep = tier != 'quick'
    for nm, d in docs():
        for cn, c in CTORS.items():
            if deep or not cn or nm.split(',')[0] in ('probe', 'page', 'links', 'breaks', 'empty elements', 'blank'):
                yield Case('documents', '%s, %s' % (nm, cn) if cn else nm, same, d, c)
        for sn, s in SETS.items():
            if deep or nm in ('probe', 'page', 'breaks', 'inline', 'quote of two', 'list in definition', 'headers', 'empty items', 'pre'):
                for cn in ('', 'gophermap') if deep else ('',):
                    yield Case('settings', '%s, %s%s' % (nm, sn, ', ' + cn if cn else ''), same, d, ', renderers=R' + CTORS[cn], s)
    for v in ('True', '1', '"yes"'):
        for nm, d in (('probe', probe()), ('pre', el('pre', T(mkstr([W('A'), '  \n\n  ', W('B'), ' \t\n']))))):
            yield Case('value', 'optimise=%s, %s' % (v, nm), same, d, '', '', 'optimise=%s' % v)
    for e in ENDS:
        for pl, f in (('pre', lambda *k: el('pre', *k)), ('pre code', lambda *k: el('pre', el('code', *k))), ('p', lambda *k: el('p', *k)), ('li', lambda *k: el('ul', el('li', *k))), ('quote', lambda *k: el('blockquote', *k)),
                      ('quoted pre', lambda *k: el('blockquote', el('pre', *k))), ('nothing', lambda *k: list(k)), ('h2', lambda *k: el('h2', *k))):
            for cn in CTORS if deep else ('', 'gophermap') if pl in ('pre', 'p') else ('',):
                if '\t' in e and cn.startswith('gophermap'):
                    continue                    # (tabs are expanded there)
                yield Case('line ends', '%r in %s%s' % (e, pl, ', ' + cn if cn else ''), same, f(T(mkstr([W('A'), e, '\n', W('B'), e, e, '\n\n', e, '\n', W('C'), e]))) + el('p', T(W('D'))), CTORS[cn])
                yield Case('line ends', '%r at the end of %s%s' % (e, pl, ', ' + cn if cn else ''), same, f(T(mkstr([W('A'), e]))), CTORS[cn])
