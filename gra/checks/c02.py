"""C02: page width and box margins govern the layout."""
from ..docs import *

TITLE = 'Page width and box margins govern the layout'
EXPLAIN = ('Abstract interpretation of whole renderings with symbolic width, margins and words: the linear visible length of '
           'every output line, its left indentation and the leading/trailing line breaks are compared with the page box.')
MIN_CASES = 20
ASSUMPTIONS = ['every word fits on a line of the available width (no word is broken)', 'the page body is at least 40 columns wide']

DOCS = {
    'p': lambda: el('p', t('A', 'B', 'C')),
    'div-p': lambda: el('div', el('p', t('A', 'B'))),
    'h2': lambda: el('h2', t('A', 'B')),
    'ul': lambda: el('ul', el('li', t('A', 'B')), el('li', t('C'))),
    'ol': lambda: el('ol', el('li', t('A', 'B')), el('li', t('C'))),
    'dl': lambda: el('dl', el('dt', t('A')), el('dd', t('B', 'C'))),
    'quote': lambda: el('blockquote', el('p', t('A', 'B'))),
    'pre': lambda: el('pre', T(mkstr([W('A'), '\n', W('B')]))),
    'two': lambda: el('h1', t('A')) + el('p', t('B', 'C')),
}


def body_lines(v):
    ls = lines(v)
    return [l for l in ls if trim(l)]


def width(h, name, ctor, env, want, words, left=None):
    v = render1(h, DOCS[name](), 'optimise=False' + ctor, words, env)
    bl = body_lines(v)
    expect(bl, 'no output')
    for l in bl:
        got = vis(l)
        if not same_int(got, want):
            yield 'line %s is %s columns wide, expected %s' % (L(l), L(got), L(want))
        if left is not None:
            tk = toks(l)
            lead = tk[0][1] if tk and isinstance(tk[0], tuple) else ZERO
            d = ladd(lead, left, -1)
            c, k = as_lin(d)
            # blank lines and inner indentation start with at least the margin
            if any(a == m for a in c for m in walk(left)) or (not c and k < 0):
                yield 'line %s does not start with the left margin %s' % (L(l), L(left))


def margins(h, top, bottom, trees, lm=None, rm=None):
    lm, rm = lm or sym('LEFT', 'int', FLAG_NONNEG), rm or sym('RIGHT', 'int', FLAG_NONNEG)
    body = ladd(sym('BODY', 'int', FLAG_POS), Const(40))
    w = ladd(ladd(body, lm), rm)
    env = dict(M=[Const(top), rm, Const(bottom), lm], WIDTH=w)
    with_box = render1(h, DOCS[trees](), 'optimise=False, box=Box(width=WIDTH, margin=M)', 0, env)
    inner = render1(h, DOCS[trees](), 'optimise=False, width=V', 0, dict(V=body))
    a, b = lines(with_box), lines(inner)
    # blank lines carry no text, so whether the page indents them is not observable
    ind = []
    for l in b:
        ind.append(l if l == Const('') else mkstr([mkrep(Const(' '), lm), l]))
    # the last piece is what follows the final line break
    want = [Const('')] * top + ind + [Const('')] * bottom
    ta, tb = [tuple(trim(x)) for x in a], [tuple(trim(x)) for x in want]
    if ta != tb:
        yield 'with margins top=%d bottom=%d left=%s right=%s the page is\n%s\nexpected\n%s' % (
            top, bottom, show(lm), show(rm), '\n'.join(map(L, a)), '\n'.join(map(L, want)))


def wrapw(h, ctor, env, want):
    for o in render(h, DOCS['p'](), 'optimise=False' + ctor, 1, env):
        ws = [e for e in o.st.ev if e[0] == 'wrap']
        expect(ws, 'the paragraph is not wrapped')
        for e in ws:
            if not h.I.surely(o.st, '==', e[2], want):
                yield 'paragraph wrapped to %s columns at %s, expected %s' % (L(e[2]), e[5], L(want))


def cases(h, tier):
    lm, rm, body = sym('LEFT', 'int', FLAG_NONNEG), sym('RIGHT', 'int', FLAG_NONNEG), ladd(sym('BODY', 'int', FLAG_POS), Const(40))
    inner = body
    w = ladd(ladd(body, lm), rm)
    cfgs = [
        ('default', '', {}, Const(67), None, Const(67)),
        ('width', ', width=WIDTH', dict(WIDTH=w), w, None, w),
        ('box', ', box=Box(width=WIDTH)', dict(WIDTH=w), w, None, w),
        ('box-default', ', box=Box()', {}, Const(67), None, Const(67)),
        ('box-over-width', ', width=40, box=Box(width=WIDTH)', dict(WIDTH=w), w, None, w),
        ('box-margins', ', box=Box(width=WIDTH, margin=[0, RIGHT, 0, LEFT])', dict(WIDTH=w, LEFT=lm, RIGHT=rm),
         ladd(w, rm, -1), lm, inner),
        ('box-left', ', box=Box(width=WIDTH, margin=[0, 0, 0, LEFT])', dict(WIDTH=w, LEFT=lm), w, lm, ladd(body, rm)),
    ]
    for nm, c, e, want, left, ww in cfgs:
        for d in DOCS:
            for k in (0, 1):
                yield Case('line-width', '%s %s %s' % (nm, d, k or 'all'), width, d, c, e, want, k, left)
        yield Case('wrap-width', nm, wrapw, c, e, ww)
    for top in (0, 1, 3):
        for bottom in (0, 2):
            for d in DOCS:
                yield Case('page-margins', 'top=%d bottom=%d %s' % (top, bottom, d), margins, top, bottom, d)
    for m in ((1, 2, 3, 4), (4, 3, 2, 1), (0, 1, 2, 3), (2, 0, 0, 5), (0, 0, 4, 0), (0, 7, 0, 0)):
        for d in DOCS:
            yield Case('page-margins', 'all of %s %s' % (list(m), d), margins, m[0], m[2], d, Const(m[3]), Const(m[1]))
