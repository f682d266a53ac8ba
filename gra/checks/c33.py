"""C33: headers show their text as their settings say."""
import itertools
import re

from ..wrapped import *
from .c21 import strip_suffix

TITLE = 'Headers show their text as their settings say'
EXPLAIN = ('Abstract interpretation of rendering headers with texts and page widths of any length, for combinations of their settings and places; '
           'the text, its column, and the length and column of the underline are decided by linear facts about the lengths.')
MIN_CASES = 60

A_, B_ = map(word, 'AB')
WD = sym('WIDTH', 'int', FLAG_POS)
num = lambda n: Const(n)
AB = mkstr([A_, ' ', B_])

# places: document around the header, other renderers, prefix of its lines, lost columns left and right of it
PLACES = {
    'page': (lambda d: d, {}, '', 0),
    'li': (lambda d: el('ul', el('li', d)), {}, '* ', 0),
    'ol li': (lambda d: el('ol', el('li', d)), {}, '1. ', 0),
    'dd': (lambda d: el('dl', el('dd', d)), {}, ': ', 0),
    'blockquote': (lambda d: el('blockquote', d), {}, '> ', 0),
    'two blockquotes': (lambda d: el('blockquote', el('blockquote', d)), {}, '> > ', 0),
    'blockquote li': (lambda d: el('blockquote', el('ul', el('li', d))), {}, '> * ', 0),
    'div': (lambda d: el('div', d), {}, '', 0),
    'boxed div': (lambda d: el('div', d), {'div': "(BlockRenderer, dict(margin=[0, 1, 0, 2], padding=[0, 3, 0, 1], border=['', '', '', '||']))"}, '  || ', 4),
    'boxed blockquote': (lambda d: el('blockquote', d), {'blockquote': "(BlockQuoteRenderer, dict(margin=[0, 2, 0, 1], padding=[0, 1, 0, 2]))"}, '   > ', 3),
}
BOXES = {'': ('', '', 0), 'margin': ('margin=[1, 2, 1, 3]', '   ', 2), 'padding': ('padding=[1, 2, 1, 3]', '   ', 2),
         'left border': ("border=['', '', '', '|:'], padding=[0, 1, 0, 1]", '|: ', 1)}


def one(h, place, tag, rend, sets, box, content, lit, styled=False):
    """sets: template, capitalized, spread, spread_char, centered, underlined, underline_char, underline_full"""
    doc, others, pf, right = PLACES[place]
    bs, bp, br = BOXES[box]
    inner = el('h1' if tag == 'h' else tag, *([T(content)] if not styled else el('span', T(content))))
    if tag in ('dt',):
        inner = el('dl', inner)
    d = doc(inner)
    if place in ('li', 'ol li', 'blockquote li') and bs.startswith('margin'):
        bs = bs.replace('[1, 2, 1, 3]', '[0, 2, 0, 3]')
    key = {'dt': 'dl > dt:first-child'}.get(tag, tag)
    kw = ', '.join('%s=%r' % (k, v) for k, v in sets.items())
    r = dict(others)
    r[key] = '(%s, dict(%s))' % (rend, ', '.join(x for x in (kw, bs) if x))
    if styled:
        r['span'] = "(AnsiEscapeCodeRenderer, dict(bold=True, foreground_colour='red'))"
    loss = len(pf) + len(bp) + right + br
    room = ladd(ladd(WD, WD), num(40))
    md = rend == 'MarkdownHeaderRenderer'
    tpl = '%s {} %s' % ('#' * int(tag[1]), '#' * int(tag[1])) if md else sets.get('template', '{}')
    a, b = tpl.split('{}')
    src = RENDER % ('optimise=False, renderers={%s}, width=2 * WIDTH + %d' % (', '.join('%r: %s' % x for x in r.items()), 40 + loss))
    src += "TXT = TEXT\n" + ('TXT = TXT.upper()\n' if sets.get('capitalized') else '')
    if sets.get('spread'):
        src += "TXT = %r.join(TXT)\n" % (sets.get('spread_char', ' ') * sets['spread'])
    seen = set()
    for o in paths(h, src, dict(DOC=d, WIDTH=WD, TEXT=content), WD, () if lit else (A_, B_)):
        exp = mkstr([a, o.get('TXT'), b]) if not isinstance(o.get('TXT'), Const) else Const(a + o.get('TXT').v + b)
        for m in shown(Sure(h, o), out(o), exp, sets, room, pf + bp, place):
            if m not in seen:
                seen.add(m)
                yield m


def shown(sure, v, exp, sets, room, pf, place):
    ls = [trim(plain(l)) for l in lines(v)]
    text_ = '\n'.join(show(l)[:200] for l in lines(v))
    rest = []
    first = True
    for tk in ls:
        if not tk or strip_prefix(tk, Const(pf)) == [] or strip_prefix(tk, Const(pf.rstrip())) == [] and pf.strip():
            continue
        p = pf if first else re.sub(r'[*:]|\d\.', lambda m: ' ' * len(m.group()), pf) if 'border' not in place and '|' not in pf else pf
        s = strip_prefix(tk, Const(p))
        if s == []:
            continue
        if s is None:
            yield 'a line does not start with %r:\n%s' % (p, text_)
            return
        rest.append(s)
        first = False
    want = toks(exp)
    n = strs.slen(exp)
    if len(rest) != (2 if sets.get('underlined') else 1):
        yield '%d lines instead of %d:\n%s' % (len(rest), 2 if sets.get('underlined') else 1, text_)
        return
    for i, tk in enumerate(rest):
        ind = ZERO
        lead = want[0][1] if want and isinstance(want[0], tuple) and i == 0 else ZERO
        if isinstance(tk[0], tuple):
            ind, tk = ladd(tk[0][1], lead, -1), tk[1:]
        if i == 0:
            w = [x for j, x in enumerate(want) if not (j == 0 and isinstance(x, tuple))]
            while w and isinstance(w[-1], tuple):
                w.pop()
            if tk != w:
                yield 'the text is %s instead of %s:\n%s' % ([show(x) if isinstance(x, Term) else x for x in tk][:6], [show(x) if isinstance(x, Term) else x for x in w][:6], text_)
                return
            m = n
        else:
            m = room if sets.get('underline_full') else n
            c = sets.get('underline_char', '=')
            got = tk[0] if len(tk) == 1 else None
            if isinstance(got, str) and set(got) == {c}:
                k = num(len(got))
            elif isinstance(got, Fn) and got.op == 'rep' and got.args[0] == Const(c):
                k = got.args[1]
            else:
                yield 'the underline is %s:\n%s' % ([show(x) if isinstance(x, Term) else x for x in tk][:6], text_)
                return
            if not sure('==', k, m):
                yield 'the underline has %s characters instead of %s:\n%s' % (show(k), show(m), text_)
                return
        after = ladd(ladd(room, ind, -1), m, -1)
        if sets.get('centered'):
            dif = ladd(ind, after, -1)
            if not (sure('<=', dif, ONE) and sure('>=', dif, num(-1))):
                yield 'line %d is not in the middle (%s columns before, %s after it):\n%s' % (i + 1, show(ind), show(after), text_)
        elif not sure('==', ind):
            yield 'line %d is indented by %s:\n%s' % (i + 1, show(ind), text_)


def combos():
    """All combinations of on/off settings, with variations of the others."""
    n = 0
    for cap, cen, und, full in itertools.product((0, 1), repeat=4):
        if full and not und:
            continue
        for tpl in (None, '<{}>', '== {} =='):
            s = {}
            if tpl:
                s['template'] = tpl
            if cap:
                s['capitalized'] = True
            if cen:
                s['centered'] = True
            if und:
                s['underlined'] = True
            if full:
                s['underline_full'] = True
            if und and n % 2:
                s['underline_char'] = '~'
            n += 1
            yield s


def cases(h, tier):
    deep = tier == 'thorough'
    nm = lambda s: ', '.join('%s=%s' % x for x in s.items()) or 'defaults'
    every = list(combos())
    for i, s in enumerate(every):
        for j, pl in enumerate(PLACES):
            if not deep and pl != 'page' and (i + j) % 3:
                continue
            for bx in BOXES:
                if bx and not deep and (pl != 'page' or i % 3 != 1):
                    continue
                if bx and pl not in ('page', 'div', 'blockquote'):
                    continue
                yield Case('header', '%s in %s%s' % (nm(s), pl, ', ' + bx if bx else ''), one, pl, 'h2', 'HeaderRenderer', s, bx, AB, False)
    # spread letters
    for i, s in enumerate(every):
        for sp, c in ((1, ' '), (2, '.'), (3, ' '), (1, '-.'), (2, '. ')):
            for cn, c_, lit in (('literal', Const('aB cd'), True), ('one letter', Const('x'), True), ('any word', A_, False)):
                if not lit and (sp > 1 or c == ' ') and not deep or not deep and (i + sp) % 2:
                    continue
                t_ = dict(s, spread=sp, spread_char=c)
                if not lit:
                    continue
                for pl in (PLACES if deep else ('page', 'boxed div')):
                    if pl in ('li', 'ol li', 'dd', 'blockquote li') and c == ' ':
                        continue
                    yield Case('spread', '%s of %s in %s' % (nm(t_), cn, pl), one, pl, 'h3', 'HeaderRenderer', t_, '', c_, lit)
                yield Case('spread', '%s of styled %s' % (nm(t_), cn), one, 'page', 'h3', 'HeaderRenderer', t_, '', c_, lit, True)
    # markdown headers
    for n in range(1, 7):
        for pl in PLACES:
            yield Case('markdown', 'h%d in %s' % (n, pl), one, pl, 'h%d' % n, 'MarkdownHeaderRenderer', {}, '', AB, False)
            if pl in ('page', 'li', 'blockquote') or deep:
                yield Case('markdown', 'h%d underlined in %s' % (n, pl), one, pl, 'h%d' % n, 'MarkdownHeaderRenderer', dict(underlined=True, centered=True), '', AB, False)
                yield Case('markdown', 'h%d capitalised in %s' % (n, pl), one, pl, 'h%d' % n, 'MarkdownHeaderRenderer', dict(capitalized=True, underlined=True, underline_full=True), '', AB, False)
        yield Case('defaults', 'h%d' % n, default, n)
    # definition terms, styles
    for s in every[::2]:
        yield Case('term', nm(s), one, 'page', 'dt', 'DefinitionListTermHeaderRenderer', s, '', AB, False)
        yield Case('term', '%s in blockquote' % nm(s), one, 'blockquote', 'dt', 'DefinitionListTermHeaderRenderer', s, '', AB, False)
    for s in every:
        yield Case('styled', nm(s), one, 'page', 'h2', 'HeaderRenderer', s, '', AB, False, True)


def default(h, n):
    """The renderers that headers get without any settings."""
    for o in paths(h, RENDER % 'width=2 * WIDTH + 40', dict(DOC=el('h%d' % n, T(AB)) + el('p', T(Const('x'))), WIDTH=WD), WD, (A_, B_)):
        ls = [l for l in lines(out(o)) if trim(l)]
        want = mkstr(['#' * n + ' ', A_, ' ', B_, ' ' + '#' * n])
        if not ls or trim(ls[0]) != toks(want):
            yield 'h%d is shown as %s' % (n, show(ls[0] if ls else out(o)))
