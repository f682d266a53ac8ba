"""C20: text fills the available width, line by line."""
from ..wrapped import *

TITLE = 'Text fills the available width'
EXPLAIN = ('Abstract interpretation of rendering, word wrapping included, with words and page widths of any length: on every path each line of '
           'a text is shown to be at most as wide as the room left by the page, the enclosing elements and indents, to be broken only where the '
           'next word does not fit, and to split only words longer than a line.')
MIN_CASES = 40

A_, B_, C_, D_ = map(word, 'ABCD')
WD = sym('WIDTH', 'int', FLAG_POS)
W2 = ladd(WD, WD)
num = lambda n: Const(n)
C3 = mkstr([A_, ' ', B_, ' ', C_])
C4 = mkstr([A_, ' ', B_, ' ', C_, ' ', D_])
C2 = mkstr([A_, ' ', B_])


def sp(n):
    return Const(' ' * n)


def one(h, d, ctor, content, lim, prefixes=(0, 0), wid=(0, 0), pre='', breaking=True, width=WD, env=None, opts=None):
    """width: what is left after everything common; wid: what the first/other lines lose more"""
    fix = lambda wid, pf: (tuple(ladd(width, num(-w)) for w in wid), tuple(sp(p) if isinstance(p, int) else Const(p) for p in pf))
    ws, pf = fix(wid, prefixes)
    if isinstance(content, list):
        content = [(c[0],) + fix(c[1], c[2]) if isinstance(c, tuple) else c for c in content]
    seen = set()
    e = dict(env or {}, DOC=d, WIDTH=WD)
    for o in paths(h, pre + RENDER % ctor, e, lim, [A_, B_, C_, D_], opts):
        ls = [l for l in lines(out(o)) if not any(strip_prefix(trim(plain(l)), q) == [] for q in pf + (Const(''),))]
        for m in filled(Sure(h, o), ls, content, ws, pf, breaking):
            m = '%s\n(%s)' % (m, ', '.join('%s: %s' % (show(k), ''.join(sorted(map(str, v)))) for k, v in o.st.sign.items() if 'WIDTH' in show(k)))
            if m not in seen:
                seen.add(m)
                yield m


KEYS = {'li': 'ul > li:first-child', 'ol__li': 'ol > li:first-child', 'quoted': 'blockquote > p:last-child:first-child'}
RENDERERS = dict(ul='ListRenderer', ol='ListRenderer', dl='DefinitionListRenderer', blockquote='BlockQuoteRenderer')


def R(**kw):
    return 'R = {%s}\n' % ', '.join('%r: (%s)' % (KEYS.get(k, k), v) for k, v in kw.items())


def cases(h, tier):
    deep = tier == 'thorough'
    lims = [('short words', WD), ('long words', W2)]

    def case(name, group, d, ctor, content=C3, **kw):
        for ln, lim in lims:
            if not deep and ln == 'long words' and kw.get('once'):
                continue
            k = {a: b for a, b in kw.items() if a != 'once'}
            yield Case(group, '%s, %s' % (name, ln), lambda h, k=k, lim=lim: one(h, d, 'optimise=False, ' + ctor, content, lim, **k))

    p = el('p', T(C3))
    li = el('li', T(C3))
    plus = lambda n: 'width=WIDTH + %d' % n
    yield from case('p', 'elements', p, 'width=WIDTH')
    if deep:
        yield from case('p of four words', 'elements', el('p', T(C4)), 'width=WIDTH', C4)
    yield from case('li', 'elements', el('ul', li), plus(2), prefixes=('* ', 2))
    yield from case('lone li', 'elements', li, plus(2), prefixes=('* ', 2))
    yield from case('ol li', 'elements', el('ol', li), plus(3), prefixes=('1. ', 3))
    for n in (9, 10, 99, 100):
        yield from case('ol li %d' % n, 'elements', el('ol', li), plus(2 + len(str(n))) + ', renderers=R', prefixes=('%d. ' % n, 2 + len(str(n))),
                        pre=R(ol__li='OrderedListItemRenderer, dict(start_index=%d)' % n), once=n != 10)
    yield from case('dd', 'elements', el('dl', el('dd', T(C3))), plus(2), prefixes=(': ', 2))
    yield from case('blockquote p', 'elements', el('blockquote', p), plus(2), prefixes=('> ', '> '))
    yield from case('blockquote li', 'elements', el('blockquote', el('ul', li)), plus(4), prefixes=('> * ', '>   '))
    yield from case('two blockquotes', 'elements', el('blockquote', el('blockquote', p)), plus(4), prefixes=('> > ', '> > '), once=1)
    yield from case('blockquote dd', 'elements', el('blockquote', el('dl', el('dd', T(C3)))), plus(4), prefixes=('> : ', '>   '), once=1)
    for w in ('div', 'article', 'span', 'custom'):
        yield from case('p in %s' % w, 'elements', el(w, p), 'width=WIDTH', once=1)
    # inline elements belong to the text
    yield from case('p with em', 'inline', el('p', T(mkstr([A_, ' '])), el('em', T(B_)), T(mkstr([' ', C_]))), 'width=WIDTH', mkstr([A_, ' _', B_, '_ ', C_]))
    yield from case('p with strong within a word', 'inline', el('p', T(A_), el('strong', T(B_)), T(mkstr([' ', C_]))), 'width=WIDTH', mkstr([A_, '**', B_, '** ', C_]), once=1)
    yield from case('p with code and span', 'inline', el('p', el('code', T(A_)), T(Const(' ')), el('span', T(mkstr([B_, ' ', C_])))), 'width=WIDTH',
                    mkstr(['`', A_, '` ', B_, ' ', C_]), once=1)
    for tag, l, r in [('code', '`', '`'), ('em', '_', '_'), ('span', '', ''), ('tt', '', '')]:
        yield from case('p with one word of %s' % tag, 'inline', el('p', T(mkstr([A_, ' '])), el(tag, T(B_)), T(mkstr([' ', C_]))), 'width=WIDTH', mkstr([A_, ' ' + l, B_, r + ' ', C_]), once=1)
        yield from case('p ending in %s' % tag, 'inline', el('p', T(mkstr([A_, ' '])), el(tag, T(mkstr([B_, ' ', C_])))), 'width=WIDTH', mkstr([A_, ' ' + l, B_, ' ', C_, r]), once=1)
        if tag != 'code':
            yield from case('p of only %s' % tag, 'inline', el('p', el(tag, T(C3))), 'width=WIDTH', mkstr([l, C3, r]), once=1)
        yield from case('p of two %s' % tag, 'inline', el('p', el(tag, T(A_)), T(Const(' ')), el(tag, T(mkstr([B_, ' ', C_])))), 'width=WIDTH', mkstr([l, A_, r + ' ' + l, B_, ' ', C_, r]), once=1)
        yield from case('p of %s in em' % tag, 'inline', el('p', el('em', el(tag, T(C3)))), 'width=WIDTH', mkstr(['_' + l, C3, r + '_']), once=1)
    yield from case('li of code', 'inline', el('ul', el('li', el('code', T(C3)))), plus(2), mkstr(['`', C3, '`']), prefixes=('* ', 2), once=1)
    yield from case('dd of code', 'inline', el('dl', el('dd', el('code', T(C3)))), plus(2), mkstr(['`', C3, '`']), prefixes=(': ', 2), once=1)
    yield from case('p of code, not skipped', 'inline', el('p', el('code', T(C3))), 'width=WIDTH, renderers=R', mkstr(['`', C3, '`']),
                    pre=R(p='ParagraphRenderer, dict(skip_for_code_or_pre=False)'), once=1)
    yield from case('p with an inline link', 'inline', el('p', T(mkstr([A_, ' '])), A(Const('/u'), T(B_)), T(mkstr([' ', C_]))), "width=WIDTH, link_placement='inline'",
                    mkstr([A_, ' [', B_, '](/u) ', C_]), once=1)
    yield from case('li with u', 'inline', el('ul', el('li', T(A_), T(Const(' ')), el('u', T(mkstr([B_, ' ', C_]))))), plus(2), mkstr([A_, ' _', B_, ' ', C_, '_']),
                    prefixes=('* ', 2), once=1)
    # hard line breaks
    yield from case('p with br', 'breaks', el('p', T(C2), S('br'), T(C_)), 'width=WIDTH', [C2, C_])
    yield from case('p with two br', 'breaks', el('p', T(A_), S('br'), T(B_), S('br'), T(C_)), 'width=WIDTH', [A_, B_, C_], once=1)
    yield from case('indented p with br', 'breaks', el('p', T(C2), S('br'), T(C_)), plus(1) + ', renderers=R', [C2, C_], prefixes=(1, 0), wid=(0, -1),
                    pre=R(p='ParagraphRenderer, dict(initial_indent=1)'), once=1)
    yield from case('quoted p with br', 'breaks', el('blockquote', el('p', T(C2), S('br'), T(C_))), plus(2), [C2, C_], prefixes=('> ', '> '), once=1)
    # settings
    for tag, rend, d, pf in [('p', 'ParagraphRenderer', p, ('', '')), ('li', 'ListItemRenderer', el('ul', li), ('* ', '  ')),
                             ('dd', 'DefinitionListItemRenderer', el('dl', el('dd', T(C3))), (': ', '  '))]:
        n = len(pf[0])
        for ini, sub in [(2, 0), (0, 3), (4, 2)]:
            m = max(ini, sub)
            yield from case('%s indented %d, then %d' % (tag, ini, sub), 'settings', d, plus(n + m) + ', renderers=R',
                            prefixes=(pf[0] + ' ' * ini, pf[1] + ' ' * sub), wid=(ini - m, sub - m),
                            pre=R(**{tag: '%s, dict(initial_indent=%d, subsequent_indent=%d)' % (rend, ini, sub)}), once=(ini, sub) != (4, 2))
        yield from case('%s without splitting words' % tag, 'settings', d, plus(n) + ', renderers=R', prefixes=pf, breaking=False,
                        pre=R(**{tag: rend + ', dict(break_long_words=False)'}))
        yield from case('%s with margins' % tag, 'settings', d, plus(n + 7) + ', renderers=R', prefixes=('   ' + pf[0], '   ' + pf[1]),
                        pre=R(**{tag: rend + ', dict(margin=[0, 4, 0, 3])'}), once=1)
        yield from case('%s with padding' % tag, 'settings', d, plus(n + 7) + ', renderers=R', prefixes=('   ' + pf[0], '   ' + pf[1]),
                        pre=R(**{tag: rend + ', dict(padding=[0, 4, 0, 3])'}), once=1)
        yield from case('%s with a left border' % tag, 'settings', d, plus(n + 3) + ', renderers=R', prefixes=('||' + pf[0], '||' + pf[1]),
                        pre=R(**{tag: rend + ", dict(border=['', ' ', '', '||'])"}), once=1)
        yield from case('%s with all' % tag, 'settings', d, plus(n + 10) + ', renderers=R', prefixes=(' |' + '   ' + pf[0], ' |' + '   ' + pf[1]),
                        pre=R(**{tag: rend + ", dict(border=['', ' ', '', '|'], margin=[0, 1, 0, 1], padding=[0, 3, 0, 3])"}))
    yield from case('p with a line template', 'settings', p, plus(3) + ', renderers=R', prefixes=('## ', '## '),
                    pre=R(p="ParagraphRenderer, dict(line_template='## {}')"))
    yield from case('p with a line template and end', 'settings', p, plus(3) + ', renderers=R', prefixes=('#', '#'), wid=(0, 0),
                    pre=R(p="ParagraphRenderer, dict(line_template='#{}  ')"), once=1)
    yield from case('li with a line template', 'settings', el('ul', li), plus(4) + ', renderers=R', prefixes=('--> ', 4),
                    pre=R(li="ListItemRenderer, dict(line_template='--> {}')"), once=1)
    yield from case('dd with a line template', 'settings', el('dl', el('dd', T(C3))), plus(1) + ', renderers=R', prefixes=('=', 1),
                    pre=R(dd="DefinitionListItemRenderer, dict(line_template='={}')"), once=1)
    yield from case('blockquote with a line template', 'settings', el('blockquote', p), plus(3) + ', renderers=R', prefixes=('>> ', '>> '),
                    pre=R(blockquote="BlockQuoteRenderer, dict(line_template='>> {}')"), once=1)
    # enclosing elements
    for kind, sets, l, x in [('margin', 'margin=[0, 2, 0, 3]', '   ', 5), ('padding', 'padding=[0, 2, 0, 3]', '   ', 5),
                             ('border', "border=['', '  ', '', '|']", '|', 3),
                             ('margin, padding and border', "margin=[0, 1, 0, 2], border=['', ' ', '', '!'], padding=[0, 1, 0, 1]", '  ! ', 7)]:
        for tag, d, pf in [('ul', el('ul', li), ('* ', '  ')), ('dl', el('dl', el('dd', T(C3))), (': ', '  ')),
                                 ('blockquote', el('blockquote', p), ('> ', '> ')), ('blockquote', el('blockquote', el('ul', li)), ('> * ', '>   ')),
                                 ('ol', el('ol', li), ('1. ', '   '))]:
            yield from case('%s in %s with %s' % (pf[0].strip(), tag, kind), 'enclosing', d, plus(x + len(pf[0])) + ', renderers=R',
                            prefixes=(l + pf[0], l + pf[1]), pre=R(**{tag: '%s, dict(%s)' % (RENDERERS[tag], sets)}), once=1)
    # everything everywhere: page, enclosing elements, the element itself
    box = lambda k: "margin=[0, %d, 0, %d], border=['', '%s', '', '%s'], padding=[0, %d, 0, %d]" % (k, k + 1, ' ' * (k + 2), '!' * (k + 1), k + 1, k + 2)
    loss = lambda k: 6 * k + 7
    left = lambda k: ' ' * (k + 1) + '!' * (k + 1) + ' ' * (k + 2)
    for page in (0, 1):
        bx = 'box=Box(width=WIDTH + %%d%s)' % (', margin=[0, 2, 0, 1], padding=[0, 1, 0, 3], border=[0, 4, 0, 2]' if page else '')
        px, pl = (13, ' ') if page else (0, '')
        for nm, r, d, pf in [('p in blockquote', dict(blockquote=('BlockQuoteRenderer', 0), quoted=('ParagraphRenderer', 1)), el('blockquote', p), [('> ', '> '), ('', '')]),
                             ('li in ul', dict(ul=('ListRenderer', 1), li=('ListItemRenderer', 2)), el('ul', li), [('', ''), ('* ', '  ')]),
                             ('dd in dl', dict(dl=('DefinitionListRenderer', 2), dd=('DefinitionListItemRenderer', 0)), el('dl', el('dd', T(C3))), [('', ''), (': ', '  ')]),
                             ('li in ul in blockquote', dict(blockquote=('BlockQuoteRenderer', 1), ul=('ListRenderer', 0), li=('ListItemRenderer', 2)), el('blockquote', el('ul', li)),
                              [('> ', '> '), ('', ''), ('* ', '  ')])]:
            ks = [k for _, k in r.values()]
            x = px + sum(loss(k) for k in ks) + sum(len(a) for a, b in pf)
            fx = [pl + ''.join(left(k) + a[i] for k, a in zip(ks, pf)) for i in (0, 1)]
            yield from case('%s%s, boxes in boxes' % (nm, ' on a page with a box' if page else ''), 'enclosing', d, (bx % x) + ', renderers=R', prefixes=fx,
                            pre=R(**{k: '%s, dict(%s)' % (c, box(n)) for k, (c, n) in r.items()}), once=1)
    # elements within a list item
    ul = lambda *x: el('ul', *[el('li', *i) for i in x])
    sub = lambda c, n, k: (c, (n, n), (' ' * k + '* ', ' ' * k + '  '))
    yield from case('list in an item', 'nested', ul((T(A_), ul((T(mkstr([B_, ' ', C_])),)))), plus(4), [sub(A_, -2, 0), sub(mkstr([B_, ' ', C_]), 0, 2)])
    yield from case('list in an item with more text', 'nested', ul((T(C2), ul((T(C_),)))), plus(4), [sub(C2, -2, 0), sub(C_, 0, 2)], once=1)
    yield from case('two items in an item', 'nested', ul((T(A_), ul((T(B_),), (T(C_),)))), plus(4), [sub(A_, -2, 0), sub(B_, 0, 2), sub(C_, 0, 2)], once=1)
    yield from case('list in a list in a list', 'nested', ul((T(A_), ul((T(B_), ul((T(C_),)))))), plus(6), [sub(A_, -4, 0), sub(B_, -2, 2), sub(C_, 0, 4)], once=1)
    yield from case('item after a list in an item', 'nested', ul((T(A_), ul((T(B_),))), (T(C_),)), plus(4), [sub(A_, -2, 0), sub(B_, 0, 2), sub(C_, -2, 0)], once=1)
    bq = lambda c, n, a: (c, (n, n), (a, '  > '))
    for item, nest, l in [('li', lambda *x: el('ul', el('li', *x)), '* '), ('dd', lambda *x: el('dl', el('dd', *x)), ': '), ('ol li', lambda *x: el('ol', el('li', *x)), '1. ')]:
        k = ' ' * len(l)
        yield from case('quotation in %s' % item, 'nested', nest(T(A_), el('blockquote', el('p', T(mkstr([B_, ' ', C_]))))), plus(2 + len(l)),
                        [(A_, (-2, -2), (l, k)), (mkstr([B_, ' ', C_]), (0, 0), (k + '> ', k + '> '))], once=1)
        yield from case('paragraphs in %s' % item, 'nested', nest(el('p', T(C2)), el('p', T(C_))), plus(len(l)), [(C2, (0, 0), (l, k)), (C_, (0, 0), (k, k))], once=1)
        yield from case('br in %s' % item, 'nested', nest(T(C2), S('br'), T(C_)), plus(len(l)), [(C2, (0, 0), (l, k)), (C_, (0, 0), (k, k))], once=1)
        yield from case('definition in %s' % item, 'nested', nest(T(A_), el('dl', el('dd', T(mkstr([B_, ' ', C_]))))), plus(2 + len(l)),
                        [(A_, (-2, -2), (l, k)), (mkstr([B_, ' ', C_]), (0, 0), (k + ': ', k + '  '))], once=1)
    for kind, b, l, x in [('margins', 'margin=[0, 2, 0, 3]', 3, 5), ('padding', 'padding=[0, 2, 0, 3]', 0, 5), ('border', 'border=[0, 1, 0, 2]', 0, 3)]:
        for nm, d, pf in [('p', p, ('', '')), ('li', el('ul', li), ('* ', '  ')), ('quoted p', el('blockquote', p), ('> ', '> '))]:
            yield from case('%s on a page with %s' % (nm, kind), 'page', d, 'box=Box(width=WIDTH + %d, %s)' % (x + len(pf[0]), b),
                            prefixes=(' ' * l + pf[0], ' ' * l + pf[1]), once=1)

