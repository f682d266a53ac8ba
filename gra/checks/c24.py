"""C24: blanks collapse outside preformatted text and stay within it."""
import itertools

from ..docs import *

TITLE = 'Blanks collapse outside preformatted text and stay within it'
EXPLAIN = ('Abstract interpretation of parsing and rendering with symbolic words around each kind of whitespace: a document must render as the same document '
           'with single blanks; preformatted lines must appear as they are; and after every short sequence of tags the treatment must follow '
           'from the elements that are open.')
MIN_CASES = 60

WS = {'two blanks': '  ', 'tab': '\t', 'line break': '\n', 'CRLF': '\r\n', 'blanks and line break': '  \n   ', 'tabs and line breaks': '\t\n\n\t', 'blank lines': '\n\n\n',
      'indented line': '\n        ', 'mixed': ' \t \n\t \n  \t', 'many': ' ' * 40, 'CRLF lines': ' \r\n\r\n\t'}
A_, B_, C_, D_ = W('A'), W('B'), W('C'), W('D')

PLACE = {
    'root': lambda *x: list(x), 'h1': lambda *x: el('h1', *x), 'h4': lambda *x: el('h4', *x), 'p': lambda *x: el('p', *x), 'div': lambda *x: el('div', *x),
    'span': lambda *x: el('span', *x), 'em in p': lambda *x: el('p', el('em', *x)), 'strong': lambda *x: el('strong', *x), 'code': lambda *x: el('code', *x),
    'li': lambda *x: el('ul', el('li', *x)), 'ol li': lambda *x: el('ol', el('li', *x)), 'dd': lambda *x: el('dl', el('dd', *x)), 'dt': lambda *x: el('dl', el('dt', *x)),
    'blockquote': lambda *x: el('blockquote', *x), 'blockquote p': lambda *x: el('blockquote', el('p', *x)), 'ul': lambda *x: el('ul', *x), 'custom': lambda *x: el('x-y', *x),
    'td': lambda *x: el('table', el('tr', el('td', *x))), 'link': lambda *x: el('p', el('a', *x, attrs=[('href', '/x')])), 'textarea': lambda *x: el('textarea', *x),
    'after pre': lambda *x: el('pre', T(D_)) + el('div', *x), 'after pre in it': lambda *x: el('div', el('pre', T(D_)), *x), 'after an empty pre': lambda *x: el('pre') + list(x),
    'after nested pre': lambda *x: el('pre', el('pre', T(D_)), T(D_)) + list(x), 'after code in pre': lambda *x: el('pre', el('code', T(D_))) + el('h2', *x),
    'with a class': lambda *x: el('div', *x, attrs=[('class', 'pre')]), 'after br': lambda *x: [S('br')] + list(x), 'after an image': lambda *x: IMG() + list(x),
}


def same(h, place, a, b, ctor):
    """Both texts render the same."""
    va = [out(o) for o in render(h, PLACE[place](*a), ctor)]
    vb = [out(o) for o in render(h, PLACE[place](*b), ctor)]
    va, vb = list(dict.fromkeys(va)), list(dict.fromkeys(vb))
    if len(va) == len(vb) == 1:
        expect([toks(l) for l in lines(va[0])] == [toks(l) for l in lines(vb[0])], 'shown as %s, with single blanks as %s' % (show(va[0])[:400], show(vb[0])[:400]))
    else:
        expect(set(va) == set(vb), 'shown as %s, with single blanks as %s' % (', '.join(show(v)[:200] for v in va), ', '.join(show(v)[:200] for v in vb)))


# ------------------------------------------------------------------ within pre
LINES = [mkstr([A_, '   ', B_]), mkstr(['\t', C_]), Const(''), mkstr(['      ', A_, ' \t ', D_]), mkstr([B_, ',  ', C_])]
TEXT_ = mkstr([x for i, l in enumerate(LINES) for x in (['\n'] if i else []) + list(parts_of(l))])
PRE = {
    'pre': (lambda *x: el('pre', *x), ''), 'code in pre': (lambda *x: el('pre', el('code', *x)), ''), 'span in pre': (lambda *x: el('pre', el('span', *x)), ''),
    'spans in code in pre': (lambda *x: el('pre', el('code', el('span', *x))), ''), 'pre in div': (lambda *x: el('div', el('pre', *x)), ''),
    'unclosed pre': (lambda *x: [S('pre')] + list(x), ''), 'unclosed code in pre': (lambda *x: [S('pre'), S('code')] + list(x), ''),
    'pre in blockquote': (lambda *x: el('blockquote', el('pre', *x)), '> '), 'code in pre in blockquote': (lambda *x: el('blockquote', el('pre', el('code', *x))), '> '),
    'pre after text': (lambda *x: el('div', T(mkstr([W('Q'), ' ']))) + el('pre', *x), None), 'after code in pre': (lambda *x: el('pre', el('code', T(W('Q'))), T(Const('\n')), *x), None),
    'after br in pre': (lambda *x: el('pre', T(W('Q')), S('br'), *x), None), 'after an end tag in pre': (lambda *x: [S('pre'), T(W('Q')), E('p'), T(Const('\n'))] + list(x) + [E('pre')], None),
    'pre with a class': (lambda *x: el('pre', *x, attrs=[('class', 'a b'), ('id', 'i')]), ''), 'custom in pre': (lambda *x: el('pre', el('x-y', *x)), ''),
    'second pre': (lambda *x: el('pre', T(W('Q'))) + el('pre', *x), None),
    'pre in article': (lambda *x: el('article', el('section', el('pre', *x))), ''),
}


def verbatim(h, name, ctor, split):
    doc, pf = PRE[name]
    data = [T(TEXT_)]
    if split:
        # the same text as several pieces
        data = []
        for i, l in enumerate(LINES):
            if i:
                data.append(T(Const('\n')))
            data += el('span', T(l)) if i % 2 and l != Const('') else [T(l)] if l != Const('') else []
    for o in render(h, doc(*data), ctor):
        ls = [trim(l) for l in lines(out(o))]
        want = []
        for l in LINES:
            w = mkstr([(pf or '') + '    '] + list(parts_of(l)))
            want.append(trim(w))
        n = len(want)
        if not any(ls[i:i + n] == want for i in range(len(ls))):
            yield 'the lines are not kept: %s' % '\n'.join(show(l)[:150] for l in lines(out(o)))


# ------------------------------------------------------------------ by the open elements
def sequences(h, seqs):
    t_ = T(mkstr([A_, '  ', B_]))
    for seq in seqs:
        stack, doc = [], []
        for x in seq:
            if x[0] == '/':
                doc.append(E(x[1:]))
                if stack and stack[-1] == x[1:] and x != '/br':
                    stack.pop()
            else:
                doc.append(S(x))
                if x not in ('br', 'img'):
                    stack.append(x)
        keep = 'pre' in stack
        for o in render(h, doc + [t_], 'optimise=False'):
            tk = [x for l in lines(out(o)) for x in toks(l) + ['\n']]
            i = tk.index(A_) if A_ in tk else None
            if i is None:
                raise Undecided('text not found: %s' % show(out(o))[:300])
            gap = tk[i + 1]
            want = ('sp', Const(2 if keep else 1))
            if gap != want or tk[i + 2] != B_:
                yield 'after %s two blanks are shown as %s, expected %d' % (''.join('<%s>' % x for x in seq), gap[1].v if isinstance(gap, tuple) else repr(gap), want[1].v)
    return


def cases(h, tier):
    deep = tier == 'thorough'
    for pl in PLACE:
        for w, s in WS.items():
            for ctor in (('optimise=False', '', "output_format='gophermap', gopher_host='h'", 'optimise=False, width=20') if deep else ('optimise=False',)):
                for shape, a, b in [('between words', [T(mkstr([A_, s, B_]))], [T(mkstr([A_, ' ', B_]))]),
                                    ('between several', [T(mkstr([A_, s, B_, ' ', C_, s, D_]))], [T(mkstr([A_, ' ', B_, ' ', C_, ' ', D_]))]),
                                    ('before an element', [T(mkstr([A_, s]))] + el('em', T(B_)), [T(mkstr([A_, ' ']))] + el('em', T(B_))),
                                    ('after an element', el('em', T(A_)) + [T(mkstr([s, B_]))], el('em', T(A_)) + [T(mkstr([' ', B_]))]),
                                    ('between elements', el('em', T(A_)) + [T(Const(s))] + el('em', T(B_)), el('em', T(A_)) + [T(Const(' '))] + el('em', T(B_)))]:
                    if not deep and shape in ('between several', 'after an element') and w not in ('mixed', 'line break'):
                        continue
                    yield Case('collapse', '%s, %s %s%s' % (pl, w, shape, ', ' + ctor if ctor != 'optimise=False' else ''), same, pl, a, b, ctor)
    for name in PRE:
        for ctor in ('optimise=False', '', 'optimise=False, width=10', "optimise=False, link_placement='after_block'"):
            for split in (False, True):
                yield Case('verbatim', '%s, %s%s' % (name, ctor, ', in pieces' if split else ''), verbatim, name, ctor, split)
    tags = ['pre', '/pre', 'p', '/p', 'code', '/code', 'br', 'div', '/div']
    for n in (1, 2, 3) + ((4,) if deep else ()):
        byfirst = {}
        for s in itertools.product(tags, repeat=n):
            byfirst.setdefault(s[:2] if n > 2 else s[:1], []).append(s)
        for k, v in byfirst.items():
            yield Case('open-elements', '%d tags from %s' % (n, ' '.join(k)), sequences, v)
