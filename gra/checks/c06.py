"""C06: which selector's renderer and settings apply to an element."""
from ..docs import *

TITLE = 'The most specific matching selector decides; ties go to the later one'
EXPLAIN = ('Abstract interpretation of renderings with two or three user selectors that all match (or not) an element: for every ordered '
           'pair of selector forms, the renderer class and each setting applied must be those of the CSS cascade (specificity, then order), '
           'with settings of less specific selectors kept when they are not overridden.')
MIN_CASES = 300

# selector -> specificity when it matches <x id=i class="k l" title=v> as the first child of <p class=o> in <body>; None: no match
SELS = {
    'x': (0, 0, 1), '*': (0, 0, 0), '.k': (0, 1, 0), '.l': (0, 1, 0), '#i': (1, 0, 0), '[title]': (0, 1, 0), '[title="v"]': (0, 1, 0),
    'p x': (0, 0, 2), 'p > x': (0, 0, 2), 'body p x': (0, 0, 3), 'x.k': (0, 1, 1), '.k.l': (0, 2, 0), 'p .k': (0, 1, 1),
    'x:first-child': (0, 1, 1), 'x:nth-child(1)': (0, 1, 1), ':first-child': (0, 1, 0), '#i.k': (1, 1, 0), 'x#i': (1, 0, 1),
    'x:not(.zz)': (0, 1, 1), '.o > x': (0, 1, 1), '.o .k': (0, 2, 0), 'x.k.l[title]': (0, 3, 1),
    'x, .k': (0, 1, 0), '.k, x': (0, 1, 0), 'q#i, x': (0, 0, 1), 'x, q.zz': (0, 0, 1), '#zz': None, 'p > .zz': None, 'q, .zz': None, 'x.zz': None,
    'x + x': None, 'x:last-child.zz': None,
}
FEW = ['x', '*', '.k', '[title]', '#i', 'p > x', 'body p x', 'x.k', '.k.l', 'x:first-child', '#i.k', 'x, .k', 'q#i, x', '#zz', '.o > x']

DOC = lambda: ([S('body'), S('p', ('class', 'o')), S('x', ('id', 'i'), ('class', 'k l'), ('title', 'v')), T(W('T')), E('x'), E('p'), E('body')])


def around(h, pre, doc=None, extra=''):
    v = render1(h, doc or DOC(), 'optimise=False, renderers=R' + extra, pre=pre)
    ps = list(parts_of(v))
    i = [j for j, p in enumerate(ps) if not isinstance(p, str) and not (isinstance(p, Fn) and p.op == 'rep') and any(q == W('T') for q in walk(p))]
    if len(i) != 1:
        raise Fail('the element\'s text does not appear exactly once in %s' % show(v))
    i = i[0]
    before = ps[i - 1] if i and isinstance(ps[i - 1], str) else ''
    after = ps[i + 1] if i + 1 < len(ps) and isinstance(ps[i + 1], str) else ''
    return before, ps[i], after, v


def order(sels):
    """indices of the matching selectors, weakest first"""
    m = [(SELS[s], i) for i, s in enumerate(sels) if SELS[s] is not None]
    return [i for _, i in sorted(m)]


def entry(sel, body):
    return "'%s': %s" % (sel, body)


def pair(h, sels, none=()):
    """All selectors give the same setting: the last in the cascade wins, also if it names no renderer."""
    pre = 'R = {%s}\n' % ', '.join(entry(s, "(%s, dict(template='%d{}%d'))" % ('None' if j in none else 'InlineRenderer', j + 1, j + 1)) for j, s in enumerate(sels))
    b, _, a, v = around(h, pre)
    o = order(sels)
    want = str(o[-1] + 1) if o else ''
    got = b[-1:] if b[-1:].isdigit() else ''
    if got != want:
        yield 'selectors %s, in this order, with specificities %s: the settings of %s apply instead of those of %s' % (
            sels, [SELS[s] for s in sels], sels[int(got) - 1] if got else 'none', sels[o[-1]] if o else 'none')
    elif want and a[:1] != want:
        yield 'mixed result %s' % show(v)


def renderer(h, sels):
    """Renderer classes: the last in the cascade that names one wins, (None, ..) never does."""
    pre = ''.join("class K%d(InlineRenderer):\n  settings = dict(template='%d{}')\n" % (j, j + 1) for j in range(len(sels)))
    for nones in range(2 ** len(sels)):
        none = [bool(nones >> j & 1) for j in range(len(sels))]
        src = pre + 'R = {%s}\n' % ', '.join(entry(s, '(None, dict(capitalized=False))' if none[j] else 'K%d' % j if j % 2 else '(K%d, None)' % j) for j, s in enumerate(sels))
        b, _, _, v = around(h, src)
        o = [j for j in order(sels) if not none[j]]
        want = str(o[-1] + 1) if o else ''
        got = b[-1:] if b[-1:].isdigit() else ''
        if got != want:
            yield 'selectors %s (specificities %s; without a renderer: %s): the renderer of %s applies instead of that of %s' % (
                sels, [SELS[s] for s in sels], [sels[j] for j in range(len(sels)) if none[j]] or 'none',
                sels[int(got) - 1] if got else 'none', sels[o[-1]] if o else 'none')


def merge(h, sels):
    """Different settings: all of the matching ones apply."""
    pre = "R = {%s, %s}\n" % (entry(sels[0], "(InlineRenderer, dict(template='<{}>'))"), entry(sels[1], "(InlineRenderer, dict(capitalized=True))"))
    b, x, a, v = around(h, pre)
    m0, m1 = SELS[sels[0]] is not None, SELS[sels[1]] is not None
    if (b[-1:] == '<') != m0:
        yield 'selectors %s: the settings of %s %s' % (sels, sels[0], 'are lost' if m0 else 'apply although it does not match')
    if (x != W('T')) != m1:
        yield 'selectors %s: the settings of %s %s' % (sels, sels[1], 'are lost' if m1 else 'apply although it does not match')


def override(h, sel, kind):
    """A user entry for a built-in selector replaces that entry only."""
    if kind == 'p':
        doc = el('p', t('T')) + el('h2', t('U'))
        v = render1(h, doc, 'optimise=False, renderers=R', pre="R = {'%s': (ParagraphRenderer, dict(line_template='#{}'))}\n" % sel)
        ref = render1(h, doc, 'optimise=False')
        want = []
        for l in lines(ref):
            want.append(mkstr(['#', l]) if any(q == W('T') for q in walk(l)) else l)
        if norm(v) != norm(mkstr([x for i, l in enumerate(want) for x in (['\n'] if i else []) + list(parts_of(l))])):
            yield 'overriding %s renders\n%s' % (sel, '\n'.join(map(show, lines(v))))


def default_entry(h, how):
    """'' names the renderer of elements no selector matches."""
    doc = [S('zz'), T(W('T')), E('zz'), S('em'), T(W('U')), E('em')]
    v = render1(h, doc, 'optimise=False, renderers=R', pre="R = {'': %s}\n" % how)
    ps = show(v)
    u = mkstr(['_', W('U'), '_'])
    want = {"(InlineRenderer, dict(template='<{}>'))": mkstr(['<', W('T'), '>', u]), 'EmRenderer': mkstr(['_', W('T'), '_', u]),
            'NonRenderer': u, 'Renderer': mkstr([W('T'), u]), '(Renderer, None)': mkstr([W('T'), u])}[how]
    if v != want:
        yield "with '' mapped to %s, <zz>T</zz><em>U</em> renders as %s instead of %s" % (how, ps, show(want))


def caller_order(h, sels, split):
    """Built-in selectors lose ties against user selectors."""
    pre = "R = {'em': (InlineRenderer, dict(template='1{}'))}\n"
    v = render1(h, [S('em'), T(W('T')), E('em')], 'optimise=False, renderers=R', pre=pre)
    if v != mkstr(['1', W('T')]):
        yield 'overriding em renders %s' % show(v)
    pre = "R = {'body em': (None, dict(template='2{}'))}\n"
    v = render1(h, [S('body'), S('em'), T(W('T')), E('em'), E('body')], 'optimise=False, renderers=R', pre=pre)
    if v != mkstr(['2', W('T')]):
        yield 'a more specific selector than the built-in em renders %s' % show(v)
    pre = "R = {'*': (InlineRenderer, dict(template='3{}'))}\n"
    v = render1(h, [S('em'), T(W('T')), E('em')], 'optimise=False, renderers=R', pre=pre)
    # the class of the type selector, the template of the only selector that gives one
    if v != mkstr(['3', W('T')]):
        yield 'a universal selector with settings renders %s' % show(v)


def cases(h, tier):
    names = list(SELS) if tier != 'quick' else FEW
    for s in SELS:
        yield Case('cascade', s, pair, [s])
    for a in names:
        for b in names:
            if a != b:
                yield Case('cascade', '%s | %s' % (a, b), pair, [a, b])
                for i, x in ((0, b), (1, a)):
                    if SELS[x] is not None:
                        yield Case('settings-only', '%s | %s, %s without a renderer' % (a, b, ('the first', 'the second')[i]), pair, [a, b], (i,))
                if tier != 'quick' or FEW.index(a) % 2 == FEW.index(b) % 2 or SELS[a] == SELS[b]:
                    yield Case('merge', '%s | %s' % (a, b), merge, [a, b])
    import itertools
    tri = ['x', '.k', '#i', 'p > x', '.k.l', '[title]'] if tier == 'quick' else FEW
    for c in itertools.permutations(tri, 3):
        if tier == 'quick' or sum(map(len, c)) % 3 == 0:
            yield Case('cascade', ' | '.join(c), pair, list(c))
            for i in range(3):
                yield Case('settings-only', '%s, only %s with a renderer' % (' | '.join(c), c[i]), pair, list(c), tuple({0, 1, 2} - {i}))
    for c in itertools.permutations(['x', '.k', '#i', 'p > x', '*', '#zz', 'x, .k'], 2):
        yield Case('renderer', ' | '.join(c), renderer, list(c))
    for c in itertools.permutations(['x', '.k', '#i'], 3):
        yield Case('renderer', ' | '.join(c), renderer, list(c))
    yield Case('override', 'p', override, 'p', 'p')
    for how in ("(InlineRenderer, dict(template='<{}>'))", 'EmRenderer', 'NonRenderer', 'Renderer', '(Renderer, None)'):
        yield Case('unmatched', how, default_entry, how)
    yield Case('override', 'built-in', caller_order, None, None)
