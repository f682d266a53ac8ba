"""C21: borders enclose blocks in rectangles."""
import copy

from ..wrapped import *

TITLE = 'Borders enclose blocks in rectangles'
EXPLAIN = ('Abstract interpretation of rendering, word wrapping included, with words and page widths of any length: on every path the lines of each '
           'bordered block are peeled level by level; margins, borders and padding must stand where the settings put them, with the right border '
           'of every line in the last column that the enclosing elements leave.')
MIN_CASES = 60

A_, B_, C_ = map(word, 'ABC')
WD = sym('WIDTH', 'int', FLAG_POS)
W2 = ladd(WD, WD)
C3 = mkstr([A_, ' ', B_, ' ', C_])
num = lambda n: Const(n)
blank = lambda tk: all(isinstance(x, tuple) for x in tk)


class Level:
    """margin, border, padding: top, right, bottom, left; first, other: what the line template puts before the lines;
    squeezed: the element drops blank lines of its content"""
    def __init__(self, margin=(0, 0, 0, 0), border=('', '', '', ''), padding=(0, 0, 0, 0), first='', other=None, after='', squeezed=False, quote=False):
        self.quote = quote
        self.m, self.b, self.p = margin, border, padding
        self.first, self.other, self.after, self.squeezed = first, first if other is None else other, after, squeezed
        self.side = sum(margin[1::2]) + sum(len(x) for x in border[1::2])
        self.loss = self.side + sum(padding[1::2]) + len(self.first) + len(after)


def strip_suffix(tk, suffix):
    """tokens before the suffix, or None"""
    tk = list(tk)
    for p in reversed(toks(Const(suffix))):
        if not tk:
            return None
        q = tk[-1]
        if isinstance(p, tuple):
            if not isinstance(q, tuple):
                return None
            rest = ladd(q[1], p[1], -1)
            tk.pop()
            if rest != ZERO:
                tk.append(('sp', rest))
        elif isinstance(q, str) and q.endswith(p):
            tk.pop()
            if q[:-len(p)]:
                tk.append(q[:-len(p)])
        else:
            return None
    return tk


def norm_tk(tk):
    while tk and isinstance(tk[-1], tuple):
        tk = tk[:-1]
    return tk


class Bad(Exception):
    pass


def rect(sure, ls, levels, width, text):
    """ls: lines as tokens; raises Bad"""
    if not levels:
        return
    l, rest = levels[0], levels[1:]
    bw = ladd(width, num(-l.m[1] - l.m[3]))                             # with the border
    pw = ladd(bw, num(-len(l.b[1]) - len(l.b[3])))                      # within the border

    def bad(i, m):
        raise Bad('%s (line %d of\n%s\n)' % (m, i + 1, text))
    n0, n1 = l.m[0] + len(l.b[0]) + l.p[0], l.p[2] + len(l.b[2]) + l.m[2]
    if len(ls) <= n0 + n1:
        bad(0, 'only %d lines' % len(ls))
    inner = []
    for i, tk in enumerate(ls):
        j = len(ls) - 1 - i
        if i < l.m[0] or j < l.m[2]:
            if not blank(tk):
                bad(i, 'expected a line of the margin')
            continue
        tk = strip_prefix(tk, Const(' ' * l.m[3]))
        if tk is None:
            bad(i, 'the left margin of %d is missing' % l.m[3])
        edge = l.b[0][i - l.m[0]] if i < l.m[0] + len(l.b[0]) else l.b[2][len(l.b[2]) - 1 - (j - l.m[2])] if j < l.m[2] + len(l.b[2]) else None
        if edge is not None:
            if edge == ' ':
                ok = blank(tk)
            else:
                ok = len(tk) == 1 and isinstance(tk[0], Fn) and tk[0].op == 'rep' and tk[0].args[0] == Const(edge) and sure('==', tk[0].args[1], bw)
            if not ok:
                bad(i, 'expected a border of %s times %r' % (show(bw), edge))
            continue
        if l.b[1]:
            if not sure('==', tlen(tk), bw):
                bad(i, 'the line ends in column %s after the margin, the border belongs to column %s' % (show(tlen(tk)), show(bw)))
            tk = strip_suffix(tk, l.b[1])
            if tk is None:
                bad(i, 'the right border %r is missing' % l.b[1])
        if l.b[3]:
            tk = strip_prefix(tk, Const(l.b[3]))
            if tk is None:
                bad(i, 'the left border %r is missing' % l.b[3])
        if i < n0 or j < n1:
            if not blank(tk):
                bad(i, 'expected a line of padding')
            continue
        tk = strip_prefix(tk, Const(' ' * l.p[3]))
        if tk is None:
            bad(i, 'the left padding of %d is missing' % l.p[3])
        tk = norm_tk(tk)
        if not sure('<=', ladd(tlen(tk), num(l.p[1] + l.p[3])), pw):
            bad(i, 'the line may reach into the right padding of %d' % l.p[1])
        pf = l.other if inner else l.first
        s = strip_prefix(tk, Const(pf))
        if s is None:
            s = strip_prefix(tk, Const(pf.rstrip())) if not pf.strip() or strip_prefix(tk, Const(pf.rstrip())) == [] else None
        if s is None:
            bad(i, 'the line template %r is missing' % pf)
        if l.after and s:
            s = strip_suffix(s, l.after)
            if s is None:
                bad(i, 'the end of the line template %r is missing' % l.after)
        inner.append(s)
    if l.squeezed and any(blank(x) for x in inner):
        bad(0, 'blank line in the content')
    w = ladd(width, num(-l.loss))
    try:
        rect(sure, inner, rest, w, text)
    except Bad:
        # a quotation has no blank line at its end
        if not (l.quote and rest and rest[0].m[2]):
            raise
        r = copy.copy(rest[0])
        r.m = r.m[:2] + (r.m[2] - 1,) + r.m[3:]
        rect(sure, inner, [r] + rest[1:], w, text)


def one(h, d, levels, ctor, lim, pre='', env=None, words_=(A_, B_, C_), opts=None, page=None, room=0):
    levels = ([page] if page else []) + levels
    k = sum(l.loss for l in levels) + room
    width = ladd(WD, num(k))
    seen = set()
    e = dict(env or {}, DOC=d, WIDTH=WD)
    px = ''
    if page:
        px = ', box=Box(width=WIDTH + %d, margin=%r, padding=%r, border=%r)' % (k, list(page.m), list(page.p), [len(x) for x in page.b])
    else:
        px = ', width=WIDTH + %d' % k
    for o in paths(h, pre + RENDER % ('optimise=False' + px + ctor), e, lim, words_, opts):
        ls = [toks(plain(l)) for l in lines(out(o))]
        text = '\n'.join(show(l)[:160] for l in lines(out(o)))
        try:
            lv = levels
            if page:
                off = page.m[3]
                ls = [strip_prefix(tk, Const(' ' * off)) if not blank(tk) else tk for tk in ls]
                if any(x is None for x in ls):
                    raise Bad('the left margin of the page is missing:\n' + text)
                lv = levels[1:]
            rect(Sure(h, o), ls, lv, ladd(width, num(-(page.loss if page else 0))), text)
        except Bad as x:
            if str(x) not in seen:
                seen.add(str(x))
                yield str(x)


# key of the renderers, its renderer, the prefixes of its lines
KIND = {
    'p': ('p', 'ParagraphRenderer', '', ''), 'li': ('ul > li:first-child', 'ListItemRenderer', '* ', '  '), 'dd': ('dd', 'DefinitionListItemRenderer', ': ', '  '),
    'oli': ('ol > li:first-child', 'OrderedListItemRenderer', '1. ', '   '), 'blockquote': ('blockquote', 'BlockQuoteRenderer', '> ', '> '),
    'ul': ('ul', 'ListRenderer', '', ''), 'ol': ('ol', 'ListRenderer', '', ''), 'dl': ('dl', 'DefinitionListRenderer', '', ''),
    'div': ('div', 'BlockRenderer', '', ''), 'h2': ('h2', 'HeaderRenderer', '', ''), 'h3': ('h3', 'MarkdownHeaderRenderer', '### ', '', ' ###'),
    'pre': ('pre', 'PreRenderer', '    ', '    '), 'section': ('section', 'BlockRenderer', '', ''), 'dt': ('dl > dt:first-child', 'BlockRenderer', '', ''),
}
KEYS = {('blockquote', 'p'): 'blockquote > p:last-child:first-child'}
SQUEEZES = ('li', 'oli', 'dd')
PLAINBOX = dict(m=(0, 0, 0, 0), b=('', '', '', ''), p=(0, 0, 0, 0))
BOXES = {
    'full': dict(m=(0, 0, 0, 0), b=('-', '|', '=', '!'), p=(0, 0, 0, 0)),
    'wide': dict(m=(0, 0, 0, 0), b=('+-*', '||', '=_.', ' :'), p=(0, 0, 4, 0)),
    'padded': dict(m=(0, 0, 0, 0), b=('-', '|', '-', '|'), p=(1, 2, 2, 1)),
    'margins': dict(m=(2, 2, 4, 3), b=('-', '|', '-', '|'), p=(0, 0, 0, 0)),
    'all': dict(m=(1, 3, 1, 2), b=('~', ' |', '=-', '!'), p=(2, 1, 1, 3)),
    'sides': dict(m=(0, 1, 0, 1), b=('', '|', '', '|'), p=(0, 1, 0, 1)),
    'right': dict(m=(0, 0, 0, 2), b=('', '|', '', ''), p=(0, 0, 0, 2)),
    'left': dict(m=(0, 2, 0, 0), b=('', '', '', '|'), p=(0, 2, 0, 0)),
    'top and bottom': dict(m=(0, 1, 0, 2), b=('-', '', '=', ''), p=(0, 0, 0, 0)),
    'top': dict(m=(1, 0, 0, 1), b=('^', '', '', ''), p=(5, 1, 1, 1)),
}


def level(kind, box, **kw):
    b = dict(BOXES.get(box, PLAINBOX))
    first, other, *after = KIND[kind][2:]
    a = dict(margin=b['m'], border=b['b'], padding=b['p'], first=first, other=other, after=''.join(after), squeezed=kind in SQUEEZES, quote=kind == 'blockquote')
    a.update(kw)
    return Level(**a)


def setting(kind, box, more='', parent=None):
    b = BOXES.get(box, PLAINBOX)
    return '%r: (%s, dict(margin=%r, border=%r, padding=%r%s))' % (KEYS.get((parent, kind), KIND[kind][0]), KIND[kind][1], list(b['m']), list(b['b']), list(b['p']), ', ' + more if more else '')


def nest(kinds, content):
    d = content
    for k in reversed(kinds):
        t_ = {'oli': 'li'}.get(k, k)
        d = el(t_, *([d] if isinstance(d, list) else [T(d)]))
    return d


HOLD = {'li': 'ul', 'dd': 'dl', 'oli': 'ol', 'dt': 'dl'}


def cases(h, tier):
    deep = tier == 'thorough'

    def case(group, name, kinds, boxes, content=C3, lim=WD, more=None, over=None, page=None, ctor='', env=None, words_=(A_, B_, C_), room=0):
        ks, bs = [], []
        for i, (k, b) in enumerate(zip(kinds, boxes)):
            if k in HOLD and (i == 0 or kinds[i - 1] != HOLD[k]):
                ks.append(HOLD[k])
                bs.append('')
            ks.append(k)
            bs.append(b)
        more = more or {}
        lv = [level(k, b, **(over or {}).get(k, {})) for k, b in zip(ks, bs)]
        # within elements that drop blank lines the margins of their content are dropped, too
        for i in range(len(lv)):
            if any(l.squeezed and not any(x.first.strip() or x.b[1] or x.b[3] for x in lv[j + 1:i]) for j, l in enumerate(lv[:i])):
                lv[i].m = (0, lv[i].m[1], 0, lv[i].m[3])
        pre = 'R = {%s}\n' % ', '.join(dict.fromkeys(setting(k, b, more.get(k, ''), p) for k, b, p in zip(ks, bs, [None] + ks)))
        return Case(group, name, one, nest(ks, content), lv, ', renderers=R' + ctor, lim, pre, env, words_, None, page, room)

    wrapping = ['p', 'li', 'dd', 'oli']
    for b in BOXES:
        for k in wrapping:
            yield case('single', '%s, %s' % (k, b), [k], [b])
            if deep or b == 'all' and k == 'p':
                yield case('single', '%s, %s, long words' % (k, b), [k], [b], lim=W2)
        for k in ('blockquote', 'ul', 'ol', 'dl', 'div'):
            c = {'ul': 'li', 'ol': 'oli', 'dl': 'dd'}.get(k, 'p')
            yield case('single', '%s, %s' % (k, b), [k, c], [b, ''])
        for k in ('h2', 'h3', 'pre', 'dt'):
            yield case('single', '%s, %s' % (k, b), [k], [b], content=A_)
    inner = ['all', 'sides', 'top and bottom'] if not deep else list(BOXES)
    for outer in (['full', 'all', 'right'] if not deep else list(BOXES)):
        for b in inner:
            for ks in (['blockquote', 'p'], ['ul', 'li'], ['ol', 'oli'], ['dl', 'dd'], ['div', 'p']):
                yield case('nested', '%s in %s, %s in %s' % (ks[1], ks[0], b, outer), ks, [outer, b])
            for ks in (['blockquote', 'pre'], ['blockquote', 'h2'], ['div', 'h3'], ['li', 'h3'], ['dd', 'h2'], ['li', 'pre'], ['oli', 'pre'], ['div', 'h2'], ['dl', 'dt'], ['dd', 'pre']):
                yield case('nested', '%s in %s, %s in %s' % (ks[1], ks[0], b, outer), ks, [outer, b], content=A_)
            if deep or b == 'all':
                for ks in (['blockquote', 'blockquote', 'p'], ['blockquote', 'ul', 'li'], ['section', 'div', 'p'], ['section', 'dl', 'dd']):
                    bs = [outer] + ['sides'] * (len(ks) - 2) + [b]
                    if ks[0] == ks[1]:
                        bs[0] = bs[1]
                    yield case('nested', '%s, %s in %s' % (' '.join(ks), b, outer), ks, bs)
                for ks in (['li', 'p'], ['dd', 'p'], ['oli', 'p'], ['li', 'blockquote', 'p'], ['dd', 'ul', 'li']):
                    bs = [outer] + ['sides'] * (len(ks) - 2) + [b]
                    yield case('nested', '%s, %s in %s' % (' '.join(ks), b, outer), ks, bs)
    # with other settings that affect the lines
    for b in ('all', 'full'):
        for k in ('p', 'li', 'dd'):
            f = KIND[k][2]
            for n in (1, 4):
                yield case('settings', '%s, %s, indented %d' % (k, b, n), [k], [b], more={k: 'initial_indent=%d' % n}, room=n)
            for j in ('right', 'center', 'full'):
                yield case('settings', '%s, %s, justified %s' % (k, b, j), [k], [b], more={k: 'justification=%r' % j})
        yield case('settings', 'p, %s, line template' % b, ['p'], [b], more={'p': "line_template='<{}>>'"}, over={'p': dict(first='<', other='<', after='>>')})
        yield case('settings', 'blockquote, %s, line template' % b, ['blockquote', 'p'], [b, 'sides'], more={'blockquote': "line_template='#{}'"}, over={'blockquote': dict(first='#', other='#')})
        yield case('settings', 'pre, %s, line template' % b, ['pre'], [b], more={'pre': "line_template='#{};', indent=1"}, over={'pre': dict(first=' #', other=' #', after=';')}, content=A_)
        yield case('settings', 'pre, %s, several lines' % b, ['pre'], [b], more={'pre': "indent=2"}, over={'pre': dict(first='  ', other='  ')}, content=mkstr([A_, '\n', B_, '\n\n', C_]))
        yield case('settings', 'p, %s, line break' % b, ['p'], [b], content=[T(A_), S('br'), T(B_)])
        c = case('settings', 'p, %s, styles' % b, ['p'], [b], content=[T(mkstr([A_, ' ']))] + el('span', T(mkstr([B_, ' ', C_]))))
        c.args = c.args[:4] + (c.args[4] + "R['span'] = (AnsiEscapeCodeRenderer, dict(bold=True, foreground_colour='red'))\n",) + c.args[5:]
        yield c
        for st, kw in [('centered=True', {}), ('underlined=True', {}), ('underlined=True, centered=True', {}), ('underlined=True, underline_full=True', {}), ("template='[{}]'", dict(first='[', other='[', after=']'))]:
            yield case('settings', 'h2, %s, %s' % (b, st), ['h2'], [b], content=A_, more={'h2': st}, over={'h2': kw})
    # pages with margins, paddings and borders
    for nm, pg in [('margin', Level(margin=(0, 2, 0, 3))), ('padding', Level(padding=(0, 2, 0, 3))), ('border', Level(border=('', 'x', '', 'xx'))),
                   ('all', Level(margin=(0, 1, 0, 2), padding=(0, 3, 0, 1), border=('', 'x', '', 'xx')))]:
        for k in wrapping + ['blockquote', 'ul']:
            yield case('page', '%s on a page with %s' % (k, nm), [k] + {'blockquote': ['p'], 'ul': ['li']}.get(k, []), ['all'] + [''] * (k in ('blockquote', 'ul')), page=pg)
