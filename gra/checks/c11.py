"""C11: document text is data, never a template or a pattern."""
from ..wrapped import *

TITLE = 'Document text is never interpreted as a template or code'
EXPLAIN = ('Taint analysis of whole renderings: text, attribute values and titles that may contain any character (braces, percent signs, '
           'backslashes, escape codes) are fed through every renderer, setting and placement; they must never reach the template position of '
           'str.format, the pattern position of a regular expression, or eval/exec/open/import.')
MIN_CASES = 100

D = lambda n: Sym(n, 'str', (FLAG_DOC, FLAG_WORD, FLAG_BRACE))       # one word of any characters, braces included
TAGS = BLOCKS + HEADERS + INLINES + OTHER + ['a', 'img', 'br']


def doc(tag):
    at = {'a': [('href', mkstr(['/', D('HREF'), '.txt'])), ('title', D('TITLE'))], 'img': [('src', mkstr(['/', D('SRC'), '.gif'])), ('alt', D('ALT'))]}.get(tag, [('id', D('ID')), ('class', D('CLASS')), ('title', D('TITLE'))])
    if tag in ('br', 'img'):
        return el('p', T(D('A')), [S(tag, *at)], T(D('B')))
    return [S(tag, *at), T(D('A')), S('span'), T(D('B')), E('span'), E(tag)]


SINKS = ('eval', 'exec', 'compile', 'open', '__import__', 'getattr', 'setattr')


def tainted(t):
    return [q.name for q in walk(t) if isinstance(q, Sym) and FLAG_DOC in q.flags] if isinstance(t, Term) else []


def scan(o):
    for e in o.st.ev:
        if e[0] == 'format':
            src = tainted(e[1])
            yield 'the text %s is used as a format template%s' % (', '.join(sorted(set(src))) or show(e[1])[:200], where(e[3:]))
        elif e[0] == 'pattern' and tainted(e[1]):
            yield 'the text %s is used as a pattern at %s' % (', '.join(sorted(set(tainted(e[1])))), e[-1])
        elif e[0] == 'call' and isinstance(e[1], Fn) and e[1].op == 'ext' and e[1].args[-1] == Const('Template') and any(tainted(a) for a in e[2]):
            yield 'the text %s is used as a template at %s' % (', '.join(sorted(set(q for a in e[2] for q in tainted(a)))), e[-1])
        elif e[0] == 'call' and isinstance(e[1], Builtin):
            n = e[1].name
            if n in SINKS and any(tainted(a) for a in e[2][:1]):
                yield 'the text %s is passed to %s at %s' % (', '.join(tainted(e[2][0])), n, e[-1])


def where(x):
    return ' at ' + ' called from '.join(str(w) for w in x if w)


def one(h, d, ctor, pre, env):
    n = 0
    outs = h.run(pre + RENDER % ctor, dict(dict(DOC=d), **env), opts=dict(words=0))
    seen = set()
    for o in outs:
        n += 1
        for m in scan(o):
            if m not in seen:
                seen.add(m)
                yield m
    if not n:
        raise Undecided('no outcome')


def cases(h, tier):
    cf = ['default', 'inline links', 'after block', 'image footer', 'gophermap'] if tier == 'quick' else [c for c in CONFIGS if c != 'optimised']
    for tag in TAGS:
        for c in cf:
            if tag in ('a', 'img') or c in ('default', 'gophermap') or tier != 'quick':
                yield Case('default-renderers', '%s %s' % (tag, c), one, doc(tag), CONFIGS[c], '', {})
    from .c05 import EQUIV, XEQUIV
    for sel, cls, sett, _ in EQUIV:
        tag = sel.split()[-1]
        for c in cf[:1] if tag not in ('a', 'img') else cf:
            yield Case('settings', '%s(%s) %s' % (cls, sett, c), one, (doc(tag) if sel != 'ol > li' else el('ol', doc('li'))), CONFIGS[c] + ', renderers=R',
                       "R = {'%s': (%s, dict(%s))}\n" % (sel, cls, sett), {})
    for sel, cls, sett, _ in XEQUIV:
        for c in ('image footer', 'after block', 'gophermap all'):
            yield Case('settings', '%s(%s) %s' % (cls, sett, c), one, doc(sel), CONFIGS[c] + ', extracted_link_renderers=R', "R = {'%s': (%s, dict(%s))}\n" % (sel, cls, sett), {})
    for o in ('blockquote', 'li', 'div', 'p', 'dd', 'pre', 'h1', 'em', 'a'):
        for i in ('p', 'em', 'code', 'a', 'ul', 'h2'):
            yield Case('nested', '%s in %s' % (i, o), one, [S(o)] + doc(i) + [E(o)], CONFIGS['default'], '', {})
    # texts of several lines
    X_, Y_, Z_ = (Sym(n, 'str', (FLAG_DOC, FLAG_WORD, FLAG_BRACE, LACK)) for n in 'XYZ')
    x3 = T(mkstr([X_, ' ', Y_, ' ', Z_]))
    ds = {'p': el('p', x3), 'li': el('ul', el('li', x3)), 'oli': el('ol', el('li', x3)), 'dd': el('dl', el('dd', x3)), 'quoted': el('blockquote', el('p', x3)),
          'p with br': el('p', T(X_), S('br'), T(mkstr([Y_, ' ', Z_]))), 'li with br': el('ul', el('li', T(X_), S('br'), T(mkstr([Y_, ' ', Z_])))), 'oli with br': el('ol', el('li', T(X_), S('br'), T(Y_))),
          'p in li': el('ul', el('li', el('p', x3))), 'list in li': el('ul', el('li', T(X_), el('ul', el('li', T(mkstr([Y_, ' ', Z_])))))),
          'list in oli': el('ol', el('li', T(X_), el('ol', el('li', T(mkstr([Y_, ' ', Z_])))))), 'p in dd': el('dl', el('dd', el('p', T(X_)), el('p', T(Y_)))), 'quoted li': el('blockquote', el('ul', el('li', x3))),
          'pre': el('pre', T(mkstr([X_, '\n', Y_, '\n', Z_]))), 'pre in li': el('ul', el('li', el('pre', T(mkstr([X_, '\n', Y_, '\n', Z_]))))), 'code': el('pre', el('code', T(mkstr([X_, '\n', Y_])))),
          'lone code': el('code', T(mkstr([X_, '\n', Y_]))), 'p with em': el('p', T(X_), el('em', T(mkstr([' ', Y_, ' ', Z_])))), 'div': el('div', x3), 'h2': el('h2', x3)}
    sets = {'p': 'ParagraphRenderer', 'li': 'ListItemRenderer', 'dd': 'DefinitionListItemRenderer'}
    for nm, d in ds.items():
        yield Case('several-lines', nm, wrapped_one, d, '', '', W2 if tier != 'quick' else WD)
    for tag, c in sets.items():
        for s in ("justification='right'", "justification='center'", "justification='full'", 'initial_indent=2, subsequent_indent=4', "line_template='<{}>'", "border=['-', '|', '-', '|'], padding=[1, 1, 1, 1], margin=[1, 2, 1, 2]",
                  'break_long_words=False', 'capitalized=True'):
            yield Case('several-lines', '%s, %s' % (tag, s), wrapped_one, ds[tag], ', renderers=R', 'R = {%r: (%s, dict(%s))}\n' % (tag, c, s), WD)


WD = sym('WIDTH', 'int', FLAG_POS)
W2 = ladd(WD, WD)


def wrapped_one(h, d, ctor, pre, lim):
    seen = set()
    for o in paths(h, pre + RENDER % ('optimise=False, width=WIDTH + 8' + ctor), dict(DOC=d, WIDTH=WD), lim, [Sym(n, 'str', (FLAG_DOC, FLAG_WORD, FLAG_BRACE, LACK)) for n in 'XYZ']):
        for m in scan(o):
            if m not in seen:
                seen.add(m)
                yield m
