"""C26: justified text is aligned with the edges of its room."""
from ..wrapped import *
from .c20 import R, RENDERERS, KEYS

TITLE = 'Justified text is aligned with the edges of its room'
EXPLAIN = ('Abstract interpretation of rendering, word wrapping and justification included, with words and page widths of any length: on every '
           'path the columns in which each line starts and ends and the gaps between its words are compared with the room, by linear facts about '
           'the lengths; without the added blanks the lines must be those of greedy filling.')
MIN_CASES = 40

A_, B_, C_, D_ = map(word, 'ABCD')
WD = sym('WIDTH', 'int', FLAG_POS)
W2 = ladd(WD, WD)
num = lambda n: Const(n)
C3 = mkstr([A_, ' ', B_, ' ', C_])
C4 = mkstr([A_, ' ', B_, ' ', C_, ' ', D_])


def untok(tk):
    return mkstr([Fn('rep', (Const(' '), x[1]), 'str') if isinstance(x, tuple) and not isinstance(x[1], Const) else ' ' * x[1].v if isinstance(x, tuple) else x for x in tk])


def one(h, d, ctor, content, lim, how, prefixes=('', ''), after='', pre='', opts=None, loss=0, room=0, ends=()):
    """how: justification; content: pieces; ends: what follows the text on each line (borders)"""
    pieces = content if isinstance(content, list) else [content]
    room_ = ladd(WD, num(room))
    width = ladd(room_, num(loss))
    e = dict(DOC=d, WIDTH=WD)
    seen = set()
    for o in paths(h, pre + RENDER % ('optimise=False, width=WIDTH + %d%s' % (room + loss, ctor)), e, lim, [A_, B_, C_, D_], opts):
        for m in aligned(Sure(h, o), out(o), pieces, room_, how, prefixes, after):
            if m not in seen:
                seen.add(m)
                yield m


def aligned(sure, v, pieces, room, how, prefixes, after):
    ls = [l for l in lines(v) if not all(isinstance(x, tuple) for x in toks(plain(l)))]
    shown = '\n'.join(show(l)[:200] for l in ls)
    left, body = [], []
    for i, l in enumerate(ls):
        tk = strip_prefix(trim(plain(l)), Const(prefixes[0] if i == 0 else prefixes[1]))
        if tk is not None and after:
            from .c21 import strip_suffix
            tk = strip_suffix(tk, after)
            while tk and isinstance(tk[-1], tuple):
                tk.pop()
        if not tk:
            yield 'line %d does not show %r at its start or %r at its end:\n%s' % (i + 1, prefixes[min(i, 1)], after, shown)
            return
        ind = ZERO
        if isinstance(tk[0], tuple):
            ind, tk = tk[0][1], tk[1:]
        left.append(ind)
        body.append(tk)
    # the breaks are those of the greedily filled text
    flat = [[('sp', ONE) if isinstance(x, tuple) else x for x in tk] for tk in body] if how == 'full' else body
    for m in filled(sure, [untok(tk) for tk in flat], pieces, (room, room), (Const(''), Const(''))):
        yield m
        return
    # the last line of each piece
    last, k, rest = set(), 0, None
    for i, tk in enumerate(flat):
        if not rest:
            rest = toks(pieces[k])
            k += 1
        rest = consume(rest, tk)
        if rest is None:
            return
        if rest and isinstance(rest[0], tuple):
            rest = rest[1:]
        if not rest:
            last.add(i)
    for i, (ind, tk) in enumerate(zip(left, body)):
        n = tlen(tk)
        right = ladd(ladd(room, ind, -1), n, -1)

        def bad(m):
            return 'line %d %s (%s columns before, %s after it):\n%s' % (i + 1, m, show(ind), show(right), shown)
        if how == 'right':
            if not sure('==', right):
                yield bad('does not end at the right edge')
        elif how == 'center':
            dif = ladd(ind, right, -1)
            if not (sure('<=', dif, ONE) and sure('>=', dif, num(-1))):
                yield bad('is not in the middle')
        elif how in ('left', 'full', 'none'):
            if not sure('==', ind):
                yield bad('does not start at the left edge')
        if how == 'full':
            gaps = [x[1] for x in tk if isinstance(x, tuple)]
            if i in last:
                if any(not sure('==', g, ONE) for g in gaps):
                    yield bad('is the last one and stretched')
                continue
            if gaps and not sure('==', right):
                yield bad('does not end at the right edge')
            for a in gaps:
                for b in gaps:
                    if not sure('<=', a, ladd(b, ONE)):
                        yield bad('has uneven gaps')
                        return
        if not sure('>=', right):
            yield bad('is too long')


def cases(h, tier):
    deep = tier == 'thorough'
    # tag: document, prefixes, renderer
    el_ = {
        'p': (lambda c: el('p', *c), ('', ''), 'ParagraphRenderer'),
        'li': (lambda c: el('ul', el('li', *c)), ('* ', '  '), 'ListItemRenderer'),
        'dd': (lambda c: el('dl', el('dd', *c)), (': ', '  '), 'DefinitionListItemRenderer'),
        'ol__li': (lambda c: el('ol', el('li', *c)), ('1. ', '   '), 'OrderedListItemRenderer'),
    }
    for how in ('right', 'center', 'full', 'left'):
        for tag, (d, pf, rend) in el_.items():
            def case(name, c, content, pfx=pf, after='', more='', lim=WD, extra=None, loss=0, doc=None, room=0, group=how):
                r = {tag: "%s, dict(justification=%r%s)" % (rend, how, ', ' + more if more else '')}
                r.update(extra or {})
                return Case(group, '%s, %s' % (tag.replace('__', ' '), name), one, (doc or d)(c), ', renderers=R', content, lim, how, pfx, after, R(**r), None,
                            len(pfx[0]) + len(after) + loss, room)
            yield case('three words', [T(C3)], C3)
            if deep or tag == 'p':
                yield case('long words', [T(C3)], C3, lim=W2)
                yield case('four words', [T(C4)], C4)
            yield case('style', [T(mkstr([A_, ' ']))] + el('em', T(B_)) + [T(mkstr([' ', C_]))], mkstr([A_, ' _', B_, '_ ', C_]))
            yield case('escape codes', [T(mkstr([A_, ' ']))] + el('span', T(mkstr([B_, ' ', C_]))), C3,
                       extra={'span': "AnsiEscapeCodeRenderer, dict(bold=True, foreground_colour='red')"})
            yield case('blanks', [T(mkstr([' ', A_, '  \n ', B_, '\t', C_, ' ']))] if tag == 'p' else [T(mkstr([A_, '  \n ', B_, '\t', C_, ' ']))], C3)
            yield case('line break', [T(mkstr([A_, ' ', B_])), S('br'), T(C_)], [mkstr([A_, ' ', B_]), C_])
            yield case('right border', [T(C3)], C3, after='|', more="border=['', '|', '', '']")
            yield case('box', [T(C3)], C3, pfx=('  !' + pf[0], '  !' + pf[1]), after=' |', more="border=['', '|', '', '!'], padding=[0, 1, 0, 0], margin=[1, 2, 0, 2]", loss=2)
            if tag == 'p':
                yield case('line template', [T(C3)], C3, pfx=('<', '<'), after='>', more="line_template='<{}>'")
                yield case('quoted', [T(C3)], C3, pfx=('> ', '> '), doc=lambda c: el('blockquote', el('p', *c)))
                yield case('in a box', [T(C3)], C3, pfx=(' || ', ' || '), doc=lambda c: el('div', el('p', *c)), more='margin=[0, 0, 0, 0]',
                           extra={'div': "BlockRenderer, dict(margin=[0, 1, 0, 1], border=['', '', '', '||'], padding=[0, 2, 0, 1])"}, loss=3)
    # indents: full justification keeps them
    for tag, (d, pf, rend) in el_.items():
        for ini, sub in ((2, 0), (0, 3)):
            yield Case('indents', '%s, %d, %d' % (tag, ini, sub), indented, d([T(C3)]), R(**{tag: "%s, dict(justification='full', initial_indent=%d, subsequent_indent=%d)" % (rend, ini, sub)}), pf, ini, sub)


def indented(h, d, pre, pf, ini, sub):
    m = max(ini, sub)
    room = ladd(WD, num(m))
    e = dict(DOC=d, WIDTH=WD)
    seen = set()
    for o in paths(h, pre + RENDER % ('optimise=False, width=WIDTH + %d, renderers=R' % (m + len(pf[0]))), e, WD, [A_, B_, C_]):
        sure = Sure(h, o)
        ls = [l for l in lines(out(o)) if not all(isinstance(x, tuple) for x in toks(plain(l)))]
        shown = '\n'.join(show(l)[:200] for l in ls)
        for i, l in enumerate(ls):
            tk = strip_prefix(trim(plain(l)), Const((pf[0] + ' ' * ini) if i == 0 else (pf[1] + ' ' * sub)))
            w = ladd(room, num(-(sub if i else ini)))
            msg = None
            if not tk or isinstance(tk[0], tuple):
                msg = 'line %d is not indented by %d:\n%s' % (i + 1, sub if i else ini, shown)
            elif i < len(ls) - 1 and any(isinstance(x, tuple) for x in tk) and not sure('==', tlen(tk), w):
                msg = 'line %d does not end at the right edge:\n%s' % (i + 1, shown)
            elif not sure('<=', tlen(tk), w):
                msg = 'line %d is too long:\n%s' % (i + 1, shown)
            if msg and msg not in seen:
                seen.add(msg)
                yield msg
