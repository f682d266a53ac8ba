"""C17: ANSI styles do not change the layout."""
from ..wrapped import *

TITLE = 'ANSI styles do not change the layout'
EXPLAIN = ('Each document is rendered abstractly twice in one state, once with and once without ANSI styles on its inline elements, with words and '
           'page widths of any length and the word wrapper interpreted: on every path the styled output without its escape codes must be the '
           'unstyled output.')
MIN_CASES = 60

A_, B_, C_ = map(word, 'ABC')
WD = sym('WIDTH', 'int', FLAG_POS)
W2 = ladd(WD, WD)
STYLES = {
    'bold': 'bold=True', 'colours': "foreground_colour='red', background_colour='#102030'", 'many': "bold=True, italic=True, underline=True, crossed_out=True, font=3, foreground_colour=17",
    'normalised': "invert=True, foreground_colour='bright_blue', normalise=True",
}
TWICE = """
def go(K):
    R = {}
    R.update(BASE)
    R.update({'span': K, 'em': K, 'strong': InlineRenderer})
    p = GopherHTMLParser(renderers=R, extracted_link_renderers=XR, %s)
    p.feed(DOC)
    p.close()
    return p.parsed
PLAIN = go((InlineRenderer, {}))
OUT = go((AnsiEscapeCodeRenderer, dict(%s)))
"""


def one(h, d, base, ctor, style, lim, xr='{}', opts=None, env=None):
    src = 'BASE = %s\nXR = %s\n' % (base, xr) + TWICE % (ctor, style)
    e = dict(env or {}, DOC=d, WIDTH=WD)
    if lim is None:
        outs = render(h, d, src=src, words=(opts or {}).get('words', 0), env=e)
    else:
        outs = paths(h, src, e, lim, [A_, B_, C_], opts)
    seen = set()
    for o in outs:
        a, b = out(o, 'PLAIN'), out(o, 'OUT')
        m = differ(a, b)
        if m and m not in seen:
            seen.add(m)
            yield m


def deep_plain(v):
    """Without the escape codes in any part (words of a line that are joined, ...)."""
    if isinstance(v, Fn) and v.op == 'stripansi':
        return deep_plain(v.args[0])
    if isinstance(v, Str):
        return mkstr([x for p in parts_of(plain(v)) for x in parts_of(deep_plain(Const(p) if isinstance(p, str) else p))])
    if isinstance(v, Const):
        return plain(v) if isinstance(v.v, str) else v
    if isinstance(v, Fn):
        return Fn(v.op, tuple(deep_plain(x) if isinstance(x, Term) else x for x in v.args), kind(v))
    if isinstance(v, (Sym, Lin, Ref, Func, Builtin, ExtPy)):
        return v
    k = tuple(deep_plain(x) if isinstance(x, Term) else tuple(deep_plain(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x for x in v.k)
    t = v.__class__.__new__(v.__class__)
    t.k = k
    t.h = hash((type(v).__name__, k))
    return t


def differ(a, b):
    la, lb = lines(a), [plain(l) for l in lines(b)]
    for x, y in zip(la, lb):
        if toks(x) != toks(y) and toks(deep_plain(x)) != toks(deep_plain(y)):
            return 'a line is %s with the style and %s without' % (show(y)[:300], show(x)[:300])
    if len(la) != len(lb):
        return '%d lines with the style, %d without:\n%s\n--\n%s' % (len(lb), len(la), '\n'.join(show(x)[:100] for x in lb), '\n'.join(show(x)[:100] for x in la))


CONTENT = {
    'word': lambda: [T(mkstr([A_, ' ']))] + el('span', T(B_)) + [T(mkstr([' ', C_]))],
    'words': lambda: el('span', T(mkstr([A_, ' ', B_, ' ', C_]))),
    'part of a word': lambda: [T(A_)] + el('span', T(B_)) + [T(mkstr([' ', C_]))],
    'several': lambda: el('span', T(A_)) + [T(Const(' '))] + el('em', T(mkstr([B_, ' ', C_]))),
    'nested': lambda: [T(mkstr([A_, ' ']))] + el('span', T(mkstr([B_, ' '])), el('em', T(C_))),
    'blanks': lambda: [T(A_)] + el('span', T(Const(' '))) + [T(B_)] + el('em', T(mkstr([' ', C_, ' ']))),
    'leading blank': lambda: el('span', T(mkstr([' ', A_, ' ']))) + [T(mkstr([B_, ' ']))] + el('em', T(C_)),
    'nothing': lambda: [T(mkstr([A_, ' ']))] + el('span') + [T(mkstr([B_, ' ', C_]))],
    'br': lambda: [T(A_)] + el('span', T(mkstr([' ', B_])), S('br'), T(C_)),
}
WRAPPED = {
    'p': lambda c: el('p', *c), 'li': lambda c: el('ul', el('li', *c)), 'dd': lambda c: el('dl', el('dd', *c)), 'blockquote p': lambda c: el('blockquote', el('p', *c)),
    'div p': lambda c: el('div', el('p', *c)), 'ol li': lambda c: el('ol', el('li', *c)), 'li li': lambda c: el('ul', el('li', T(Const('z')), el('ul', el('li', *c)))),
}
OTHERS = {
    'pre': lambda c: el('pre', *c), 'code': lambda c: el('code', *c), 'div': lambda c: el('div', *c), 'bare': lambda c: c, 'dt': lambda c: el('dl', el('dt', *c)),
    'h1': lambda c: el('h1', *c), 'h4': lambda c: el('h4', *c), 'td': lambda c: el('td', *c), 'blockquote': lambda c: el('blockquote', *c),
}
SETS = {
    'p': 'ParagraphRenderer', 'li': 'ListItemRenderer', 'dd': 'DefinitionListItemRenderer',
}
SETTINGS = ["justification='right'", "justification='center'", "justification='full'", "capitalized=True", "initial_indent=3, subsequent_indent=1", "break_long_words=False",
            "border=['-', '|', '=', '!'], padding=[1, 2, 1, 2]", "line_template='# {}'", "margin=[2, 3, 1, 2]"]
HEAD = ["underlined=True", "underlined=True, underline_full=True", "centered=True", "centered=True, underlined=True", "capitalized=True", "spread=1", "spread=2, spread_char='.'",
        "spread=1, underlined=True, centered=True", "border=['-', '|', '-', '|']", "template='<{}>'"]


def cases(h, tier):
    deep = tier == 'thorough'
    w = 'optimise=False, width=WIDTH + 12'
    for en, e in WRAPPED.items():
        for cn, c in CONTENT.items():
            for sn, s in STYLES.items():
                if not deep and (sn != 'many' and en not in ('p', 'li') or sn in ('colours', 'normalised') and cn not in ('word', 'words')):
                    continue
                yield Case('wrapped', '%s, %s, %s' % (en, cn, sn), one, e(c()), '{}', w, s, WD)
                if deep or en == 'p' and sn == 'many' and cn in ('word', 'nested'):
                    yield Case('wrapped', '%s, %s, %s, long words' % (en, cn, sn), one, e(c()), '{}', 'optimise=False, width=WIDTH + 4', s, W2)
    # words longer than a line, of known letters
    long = 'abcdefghijklmnopqrstuvwxyz'
    for en, e in WRAPPED.items():
        for cn, c in (('long word first', lambda: el('span', T(Const(long + ' abc def')))), ('long word last', lambda: el('span', T(Const('abc def ' + long)))),
                      ('long words', lambda: [T(Const('ab '))] + el('span', T(Const(long + ' ' + long))) + [T(Const(' cd'))]), ('part of a long word', lambda: [T(Const(long[:5]))] + el('span', T(Const(long))) + [T(Const(long))]),
                      ('start of a long word', lambda: el('span', T(Const(long[:3]))) + [T(Const(long))]), ('end of a long word', lambda: [T(Const(long + ' ' + long))] + el('em', T(Const('xyz')))),
                      ('letters of a long word', lambda: [x for i, k in enumerate(long) for x in (el('em', T(Const(k))) if i % 5 == 1 else [T(Const(k))])])):
            for sn, s in STYLES.items():
                for n in (12, 13, 19, 26) if deep else (12, 19):
                    if deep or en in ('p', 'li') or sn == 'many':
                        yield Case('long words', '%s, %s, %s, %d' % (en, cn, sn, n), one, e(c()), '{}', 'optimise=False, width=%d' % n, s, None)
    for en, e in OTHERS.items():
        for cn, c in CONTENT.items():
            for sn, s in STYLES.items():
                if deep or sn == 'many':
                    yield Case('other-elements', '%s, %s, %s' % (en, cn, sn), one, e(c()), '{}', w, s, None)
    for tag, r in SETS.items():
        for st in SETTINGS:
            for cn, c in CONTENT.items():
                if not deep and cn not in ('word', 'part of a word', 'words', 'several'):
                    continue
                d = WRAPPED[tag](c())
                yield Case('settings', '%s(%s), %s' % (r, st, cn), one, d, "{'%s': (%s, dict(%s))}" % ({'li': 'ul > li'}.get(tag, tag), r, st), w, STYLES['many'], WD)
    box = "border=['-', '|', '=', '!'], padding=[1, 2, 0, 1], margin=[1, 1, 0, 2]"
    for nm, f, rs in [('blockquote p', lambda c: el('blockquote', el('p', *c)), dict(blockquote='BlockQuoteRenderer')), ('ul', lambda c: el('ul', el('li', *c), el('li', *c)), dict(ul='ListRenderer')),
                      ('dl', lambda c: el('dl', el('dt', T(Const('t'))), el('dd', *c)), dict(dl='DefinitionListRenderer')), ('div p', lambda c: el('div', el('p', *c)), dict(div='BlockRenderer')),
                      ('li p', lambda c: el('ul', el('li', el('p', *c))), dict(li='ListItemRenderer'))]:
        for cn, c in CONTENT.items():
            if deep or cn in ('word', 'words', 'nested'):
                yield Case('bordered', '%s, %s' % (nm, cn), one, f(c()), '{%s}' % ', '.join("%r: (%s, dict(%s))" % (k, v, box) for k, v in rs.items()), 'optimise=False, width=WIDTH + 20', STYLES['many'], WD)
    for nm, f, r in [('pre', lambda c: el('pre', *c), 'PreRenderer'), ('div', lambda c: el('div', *c), 'BlockRenderer'), ('blockquote', lambda c: el('blockquote', *c), 'BlockQuoteRenderer'), ('h3', lambda c: el('h3', *c), 'MarkdownHeaderRenderer')]:
        for cn, c in CONTENT.items():
            if cn != 'br' and (deep or cn in ('word', 'words', 'nested', 'nothing')):
                yield Case('bordered', '%s, %s' % (nm, cn), one, f(c()), "{%r: (%s, dict(%s))}" % (nm, r, box), 'optimise=False, width=WIDTH + 20', STYLES['many'], None)
    for pl in ('footer', 'after_block', 'inline'):
        for gm in (False, True):
            for nm, c in LINKS.items():
                if gm and pl == 'inline' or pl == 'after_block' and nm == 'styled link':
                    continue
                for en in ('p', 'li', 'div'):
                    ct = "optimise=False, link_placement='%s', image_placement='footer'%s" % (pl, ", output_format='gophermap', gopher_host='h'" if gm else '')
                    e = {'p': lambda x: el('p', *x), 'li': lambda x: el('ul', el('li', *x)), 'div': lambda x: el('div', *x)}[en]
                    yield Case('links', '%s in %s, %s%s' % (nm, en, pl, ', gophermap' if gm else ''), one, e(c()), '{}', ct, STYLES['many'], None)
    for st in HEAD:
        for cn, c in CONTENT.items():
            if cn == 'br' or 'spread' in st:
                continue
            yield Case('headers', '%s, %s' % (st, cn), one, el('h2', *c()), "{'h2': (HeaderRenderer, dict(%s))}" % st, w, STYLES['many'], None)
        for cn, c in HCONTENT.items():
            yield Case('headers', '%s, %s' % (st, cn), one, el('h2', *c()), "{'h2': (HeaderRenderer, dict(%s))}" % st, w, STYLES['many'], None)


LINKS = {
    'styled link': lambda: el('span', A('/x', T(Const('one'))), A('/y.txt', T(Const('a long description')))),
    'style in a link': lambda: A('/x', T(Const('one ')), el('span', T(Const('two'))), title='t') + A('/y', el('em', T(Const('a long description')))),
    'style at the cut': lambda: A('/x', T(Const('12345')), el('span', T(Const('67890'))), T(Const('1'))) + A('/x', T(Const('12345')), el('span', T(Const('678'))), el('em', T(Const('90')))),
    'style over the cut': lambda: A('/x', T(Const('12345678')), el('span', T(Const('901'))), T(Const('2'))),
    'styled words': lambda: [T(mkstr([W('V'), ' ']))] + A('/x', el('span', T(W('U')))) + el('em', T(mkstr([' ', W('Z')]))),
    'styled image': lambda: el('span', IMG('/i.gif', Const('a picture of it')), T(Const('x'))),
    'empty style in a link': lambda: A('/x', el('span')) + A('/y', el('span'), T(Const('y'))),
}
HCONTENT = {
    'letters': lambda: [T(Const('ab '))] + el('span', T(Const('cd'))) + [T(Const(' ef'))],
    'all letters': lambda: el('span', T(Const('ab cd'))), 'half a word': lambda: [T(Const('ab'))] + el('span', T(Const('cd'))),
    'empty': lambda: el('span'), 'empty in letters': lambda: [T(Const('ab'))] + el('span') + [T(Const('cd'))],
}
