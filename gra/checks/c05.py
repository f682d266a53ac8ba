"""C05: settings cascade from base classes to subclasses to selectors."""
from ..docs import *

TITLE = 'Renderer settings cascade from base class to subclass to selector'
EXPLAIN = ('Abstract interpretation of renderer construction: for class hierarchies declared by the client (chains, classes without '
           'settings, diamonds, values equal to an ancestor\'s) with symbolic setting values, every setting of the instance must be the '
           'one of the most derived class that declares it, overridden by the selector settings; and renderings that declare a setting '
           'in a subclass or in a selector must agree with each other.')
MIN_CASES = 60

V = lambda n: Sym(n, 'str', ())

HIER = {
    # name: (class declarations, class to build, expected)
    'chain': ('class A(Renderer):\n  settings = dict(x=V1, y=V2)\nclass B(A):\n  settings = dict(y=V3, z=V4)\nclass K(B):\n  settings = dict(z=V5)\n',
              dict(x='V1', y='V3', z='V5')),
    'no settings between': ('class A(Renderer):\n  settings = dict(x=V1, y=V2)\nclass B(A):\n  pass\nclass K(B):\n  settings = dict(y=V3)\n',
                            dict(x='V1', y='V3')),
    'no settings at the end': ('class A(Renderer):\n  settings = dict(x=V1, y=V2)\nclass B(A):\n  settings = dict(x=V3)\nclass K(B):\n  pass\n',
                               dict(x='V3', y='V2')),
    'same value as the base': ('class A(Renderer):\n  settings = dict(x=V1)\nclass B(A):\n  settings = dict(x=V2)\nclass K(B):\n  settings = dict(x=V1)\n',
                               dict(x='V1')),
    'same settings as the base': ("class A(Renderer):\n  settings = dict(x=1)\nclass B(A):\n  settings = dict(x=2)\nclass K(B):\n  settings = dict(x=1)\n",
                                  dict(x=1)),
    'empty settings': ('class A(Renderer):\n  settings = dict(x=V1)\nclass K(A):\n  settings = dict()\n', dict(x='V1')),
    'diamond': ('class A(Renderer):\n  settings = dict(x=V1, y=V1)\nclass B(A):\n  settings = dict(x=V2)\nclass C(A):\n  settings = dict(x=V3, y=V4)\n'
                'class K(B, C):\n  pass\n', dict(x='V2', y='V4')),
    'mixin': ('class M(Renderer):\n  settings = dict(x=V1)\nclass B(Renderer):\n  settings = dict(x=V2, y=V3)\nclass K(M, B):\n  settings = dict(w=V4)\n',
              dict(x='V1', y='V3', w='V4')),
    'plain mixin': ('class M:\n  def extra(self):\n    return 1\nclass B(Renderer):\n  settings = dict(x=V2, y=V3)\nclass K(M, B):\n  settings = dict(y=V4)\n',
                    dict(x='V2', y='V4')),
    'deep': (''.join('class A%d(%s):\n  settings = dict(x%d=V%d, s=V%d)\n' % (i, 'A%d' % (i - 1) if i else 'Renderer', i, i + 1, i + 1) for i in range(5))
             + 'class K(A4):\n  settings = dict(x2=V7)\n', dict(x0='V1', x1='V2', x2='V7', x3='V4', x4='V5', s='V5')),
    'falsy values': ("class A(Renderer):\n  settings = dict(x=V1, y=V2, z=V3, w=V4, v=V5)\nclass K(A):\n  settings = dict(x=None, y=0, z='', w=False)\n",
                     dict(x=None, y=0, z='', w=False, v='V5')),
    'block': ("class K(ParagraphRenderer):\n  settings = dict(margin=[0, 0, 0, 0], initial_indent=7)\n",
              dict(margin=[0, 0, 0, 0], initial_indent=7, subsequent_indent=0, border=['', '', '', ''], justification='left')),
    'block same as BlockRenderer': ("class K(PreRenderer):\n  settings = dict(border=['', '', '', ''], margin=[0, 0, 0, 0], padding=[0, 0, 0, 0])\n",
                                    dict(margin=[0, 0, 0, 0], indent=4, line_template='{}')),
    'list item': ("class K(ListItemRenderer):\n  settings = dict(line_template='- {}')\n", dict(line_template='- {}', margin=[1, 0, 0, 0], capitalized=False)),
    'inline': ("class K(EmRenderer):\n  settings = dict(capitalized=True)\n", dict(template='_{}_', capitalized=True)),
}
# selectors' settings (third level) on top of the class
SEL = {
    'none': (None, {}),
    'empty': ('{}', {}),
    'one': ('dict(x=S1)', dict(x='S1')),
    'new': ('dict(fresh=S1)', dict(fresh='S1')),
    'falsy': ("dict(x=None, y='', q=0)", dict(x=None, y='', q=0)),
    'block': ('dict(margin=[9, 8, 7, 6], template=S1)', dict(margin=[9, 8, 7, 6], template='S1')),
}

SRC = """
%s
t = _parser.TagParser('span', TREE, [])
a = %s
S = a.settings
b = Renderer(t)
BASE = b.settings
"""


def value(o, v):
    v = o.st.resolve(v) if isinstance(v, Term) else v
    x = o.st.obj(v)
    if x is not None and getattr(x, 'segs', None) is not None:
        return [value(o, s) for s in x.segs]
    return v


def wanted(w):
    if isinstance(w, list):
        return [Const(x) for x in w]
    return V(w) if isinstance(w, str) and w[:1] in 'VS' and w[1:].isdigit() else Const(w)


def settings_of(o, name='S'):
    x = o.obj(name)
    d = getattr(x, 'data', x)
    if not isinstance(d, DictO):
        raise Undecided('settings are not a dictionary: %r' % x)
    return {k.v: v for k, v in d.d.items() if isinstance(k, Const)}


ENV = lambda: {k: V(k) for k in ['V%d' % i for i in range(1, 9)] + ['S1', 'S2']}


def cascade(h, hier, sel):
    decl, want = HIER[hier]
    how, over = SEL[sel]
    want = dict(want)
    want.update(over)
    call = 'K(t%s)' % (', settings=' + how if how else '')
    env = dict(ENV(), TREE=Const(None))
    outs = h.run(SRC % (decl, call), env)
    for o in outs:
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        got = settings_of(o)
        for k, w in want.items():
            if k not in got:
                yield 'setting %s is missing' % k
            elif value(o, got[k]) != wanted(w):
                yield 'setting %s is %s instead of %s' % (k, show_v(value(o, got[k])), w)
        base = settings_of(o, 'BASE')
        for k in base:
            if k in want:
                yield 'the setting %s of a subclass shows up in its base class' % k


def show_v(v):
    return '[%s]' % ', '.join(map(show, v)) if isinstance(v, list) else show(v)


def graphs(n):
    """All ways to derive n classes, each from earlier ones (0: Renderer), that have a method resolution order."""
    import itertools

    def grow(done):
        i = len(done) + 1
        if i > n:
            yield done
            return
        for k in (1, 2) if i < n else (1, 2, 3):
            for bs in itertools.permutations(range(1, i), k) if i > 1 else ():
                yield from grow(done + [bs])
        yield from grow(done + [(0,)])
    for g in grow([]):
        base = type('R', (), {})
        made = [base]
        try:
            for i, bs in enumerate(g, 1):
                made.append(type('C%d' % i, tuple(made[b] for b in bs), {}))
        except TypeError:
            continue
        mro = [made.index(c) for c in made[-1].__mro__[:-1]]
        if len(mro) == n + 1:
            yield g, mro[:-1]


def graph(h, g, mro):
    """Every two classes share a setting, so that every part of the order shows."""
    src = ''
    n = len(g)
    for i, bs in enumerate(g, 1):
        sets = ['x%d_%d=%d' % (min(i, j), max(i, j), i) for j in range(1, n + 1)]
        src += 'class C%d(%s):\n  settings = dict(%s)\n' % (i, ', '.join('C%d' % b if b else 'Renderer' for b in bs), ', '.join(sets))
    src += "t = _parser.TagParser('span', TREE, [])\na = C%d(t)\nS = a.settings\n" % n
    for o in h.run(src, dict(TREE=Const(None))):
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        got = settings_of(o)
        for a in mro:
            for b in mro[mro.index(a):]:
                k = 'x%d_%d' % (min(a, b), max(a, b))
                v = value(o, got[k]) if k in got else None
                if v != Const(a):
                    yield 'with the method resolution order %s, a setting that C%d and C%d give is %s' % (', '.join('C%d' % c for c in mro), a, b, 'that of C%s' % v.v if isinstance(v, Const) else 'missing')
                    return


def siblings(h, order):
    """Two classes with a common base: each only sees its own settings."""
    src = ("class A(Renderer):\n  settings = dict(x=V1)\nclass B(A):\n  settings = dict(x=V2)\nclass C(A):\n  settings = dict(y=V3)\n"
           "t = _parser.TagParser('span', TREE, [])\n" + ''.join('%s = %s(t)\n' % (x.lower(), x) for x in order)
           + 'SA = a.settings\nSB = b.settings\nSC = c.settings\n')
    for o in h.run(src, dict(ENV(), TREE=Const(None))):
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        for n, w in (('SA', dict(x='V1', y=None)), ('SB', dict(x='V2', y=None)), ('SC', dict(x='V1', y='V3'))):
            got = settings_of(o, n)
            for k, e in w.items():
                g = value(o, got[k]) if k in got else None
                if g != (wanted(e) if e else None):
                    yield 'setting %s of class %s is %s' % (k, n[1], show(g) if g is not None else 'missing')


def instances(h, how):
    """Settings changed on one instance stay there."""
    src = ("class A(Renderer):\n  settings = dict(x=V1)\nclass K(A):\n  settings = dict(y=V2)\nt = _parser.TagParser('span', TREE, [])\na = K(t)\n"
           + how + '\nb = K(t)\nS = b.settings\n')
    for o in h.run(src, dict(ENV(), TREE=Const(None))):
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        got = settings_of(o)
        for k, e in (('x', 'V1'), ('y', 'V2')):
            if k not in got or value(o, got[k]) != wanted(e):
                yield 'setting %s of a new instance is %s after another instance was changed' % (k, show(got[k]) if k in got else 'missing')
        for k in got:
            if k not in ('x', 'y'):
                yield 'a new instance has the setting %s of another one' % k


# (tag selector, renderer class, settings, document)
EQUIV = [
    ('p', 'ParagraphRenderer', "margin=[2, 1, 1, 3]", lambda: el('p', t('A', 'B')) + el('p', t('C'))),
    ('p', 'ParagraphRenderer', "padding=[1, 2, 0, 1]", lambda: el('p', t('A', 'B'))),
    ('p', 'ParagraphRenderer', "initial_indent=3, subsequent_indent=1", lambda: el('p', t('A', 'B', 'C'))),
    ('p', 'ParagraphRenderer', "justification='right'", lambda: el('p', t('A', 'B'))),
    ('p', 'ParagraphRenderer', "justification='center'", lambda: el('p', T(Const('Aa bb')))),
    ('p', 'ParagraphRenderer', "capitalized=True", lambda: el('p', t('A', 'B'))),
    ('p', 'ParagraphRenderer', "line_template='|{}|'", lambda: el('p', t('A', 'B'))),
    ('p', 'ParagraphRenderer', "border=['=', '|', '-', '!']", lambda: el('p', t('A', 'B'))),
    ('p', 'ParagraphRenderer', "skip_for_code_or_pre=False", lambda: el('p', el('code', t('A', 'B')))),
    ('p', 'ParagraphRenderer', "drop_whitespace=False", lambda: el('p', t('A', 'B'))),
    ('p', 'ParagraphRenderer', "fix_sentence_endings=False", lambda: el('p', T(Const('Aa bb. Cc dd.')))),
    ('p', 'HeaderRenderer', "underlined=True, underline_char='~'", lambda: el('p', t('A'))),
    ('p', 'HeaderRenderer', "underlined=True, underline_full=True, centered=True", lambda: el('p', T(Const('Aa')))),
    ('h1', 'HeaderRenderer', "template='<{}>', capitalized=True", lambda: el('h1', t('A'))),
    ('h2', 'MarkdownHeaderRenderer', "centered=True", lambda: el('h2', T(Const('Aa')))),
    ('h2', 'MarkdownHeaderRenderer', "margin=[3, 0, 2, 1]", lambda: el('h2', t('A'))),
    ('h2', 'MarkdownHeaderRenderer', "underlined=True", lambda: el('h2', t('A'))),
    ('div', 'BlockRenderer', "margin=[1, 0, 1, 4]", lambda: el('div', el('p', t('A')))),
    ('div', 'BlockRenderer', "border=['', '|', '', '|'], padding=[0, 1, 0, 1]", lambda: el('div', el('p', t('A')))),
    ('blockquote', 'BlockQuoteRenderer', "line_template=': {}'", lambda: el('blockquote', el('p', t('A')))),
    ('blockquote', 'BlockQuoteRenderer', "margin=[2, 0, 0, 5]", lambda: el('blockquote', el('p', t('A')), el('p', t('B')))),
    ('pre', 'PreRenderer', "indent=2", lambda: el('pre', t('A'))),
    ('pre', 'PreRenderer', "line_template='$ {}'", lambda: el('pre', t('A'))),
    ('li', 'ListItemRenderer', "line_template='+ {}'", lambda: el('ul', el('li', t('A')), el('li', t('B')))),
    ('li', 'ListItemRenderer', "justification='right'", lambda: el('ul', el('li', t('A')))),
    ('li', 'ListItemRenderer', "initial_indent=2, capitalized=True", lambda: el('ul', el('li', t('A')))),
    ('li', 'ListItemRenderer', "padding=[0, 0, 0, 2]", lambda: el('ul', el('li', t('A')), el('li', t('B')))),
    ('ol > li', 'OrderedListItemRenderer', "start_index=7", lambda: el('ol', el('li', t('A')), el('li', t('B')))),
    ('ol > li', 'OrderedListItemRenderer', "step=5", lambda: el('ol', el('li', t('A')), el('li', t('B')))),
    ('ol > li', 'OrderedListItemRenderer', "line_template='({0}) {1}'", lambda: el('ol', el('li', t('A')), el('li', t('B')))),
    ('ol > li', 'OrderedListItemRenderer', "line_template='o {}'", lambda: el('ol', el('li', t('A')), el('li', t('B')))),
    ('ul', 'ListRenderer', "margin=[2, 0, 2, 6]", lambda: el('ul', el('li', t('A')))),
    ('dl', 'DefinitionListRenderer', "padding=[1, 0, 1, 2]", lambda: el('dl', el('dt', t('A')), el('dd', t('B')))),
    ('dt', 'DefinitionListTermHeaderRenderer', "underlined=True, spread=1", lambda: el('dl', el('dt', T(Const('Aa'))), el('dd', t('B')))),
    ('dd', 'DefinitionListItemRenderer', "line_template='~ {}', initial_indent=1", lambda: el('dl', el('dt', t('A')), el('dd', t('B')))),
    ('dd', 'DefinitionListItemRenderer', "justification='right'", lambda: el('dl', el('dt', t('A')), el('dd', t('B')))),
    ('em', 'EmRenderer', "template='/{}/'", lambda: el('p', t('A'), el('em', t('B')))),
    ('em', 'EmRenderer', "capitalized=True", lambda: el('p', t('A'), el('em', t('B')))),
    ('strong', 'StrongRenderer', "template='!{}!'", lambda: el('p', el('strong', t('B')))),
    ('u', 'UnderlineRenderer', "template='u{}u'", lambda: el('p', el('u', t('B')))),
    ('s', 'StrikethroughRenderer', "template='x{}x'", lambda: el('p', el('s', t('B')))),
    ('code', 'CodeRenderer', "inline_template='<{}>'", lambda: el('p', t('A'), T(Const(' ')), el('code', t('B')))),
    ('br', 'BreakRenderer', "template='~{}'", lambda: el('p', t('A'), S('br'), t('B'))),
    ('a', 'LinkRenderer', "templates={'reference': '<{content}|{link_reference}>', 'inline': ['<{content}>', '<{content}>']}",
     lambda: el('p', A('/x.txt', T(Const('k'))))),
    ('a', 'LinkRenderer', "capitalized=True", lambda: el('p', A('/x.txt', T(Const('k'))))),
    ('img', 'ImageRenderer', "templates={'reference': '<{title}|{link_reference}>', 'inline': '<{title}>'}",
     lambda: el('p', t('A'), IMG('/i', Const('k')))),
    ('span', 'AnsiEscapeCodeRenderer', "bold=True, foreground_colour='red'", lambda: el('p', t('A'), el('span', t('B')))),
    ('span', 'AnsiEscapeCodeRenderer', "background_colour=17, normalise=True", lambda: el('p', t('A'), el('span', t('B')))),
    ('span', 'InlineRenderer', "template='({})'", lambda: el('p', t('A'), el('span', t('B')))),
]
XEQUIV = [
    ('a', 'ExtractedLinkRenderer', "max_link_description=3", lambda: el('p', A('/x.txt', T(Const('abcdef'))))),
    ('a', 'ExtractedLinkRenderer', "templates=['<{link_reference}|{description}|{href}>', '<{title}>']", lambda: el('p', A('/x.txt', T(Const('abcdef'))))),
    ('a', 'ExtractedLinkRenderer', "margin=[1, 0, 1, 3]", lambda: el('p', A('/x.txt', T(Const('abcdef'))))),
    ('img', 'ExtractedImageLinkRenderer', "max_link_description=2", lambda: el('p', IMG('/i', Const('abcdef')))),
    ('img', 'ExtractedImageLinkRenderer', "templates=['<{link_reference}|{description}|{href}>', '<{title}>']", lambda: el('p', IMG('/i', Const('ab')))),
]


def equiv(h, sel, cls, sett, d, extra, cfg, x):
    """subclass settings == selector settings == settings merged from a second selector"""
    kw = 'extracted_link_renderers' if x else 'renderers'
    forms = {
        'in a subclass': "class K(%s):\n  settings = dict(%s)\nR = {'%s': K}\n" % (cls, sett, sel),
        'in a subclass of a subclass': "class J(%s):\n  settings = dict(%s)\nclass K(J):\n  pass\nR = {'%s': K}\n" % (cls, sett, sel),
        'in the selector': "R = {'%s': (%s, dict(%s))}\n" % (sel, cls, sett),
        'in the selector over a subclass': "class K(%s):\n  pass\nR = {'%s': (K, dict(%s))}\n" % (cls, sel, sett),
        'in a more specific selector': "R = {'%s': %s, 'body %s': (None, dict(%s))}\n" % (sel, cls, sel, sett),
    }
    vals = {}
    for nm, pre in forms.items():
        c = CONFIGS[cfg]
        vals[nm] = render1(h, [S('body')] + d() + [E('body')], (c + ', ' if c else '') + '%s=R' % kw, pre=pre, env=extra)
    ref = vals['in the selector']
    for nm, v in vals.items():
        if v != ref:
            yield nm, 'settings %s of %s given %s render\n%s\nbut given in the selector\n%s' % (
                sett, cls, nm, '\n'.join(map(show, lines(v))), '\n'.join(map(show, lines(ref))))
    base = render1(h, [S('body')] + d() + [E('body')], (CONFIGS[cfg] + ', ' if CONFIGS[cfg] else '') + '%s=R' % kw, pre="R = {'%s': %s}\n" % (sel, cls))
    if base == ref and sett not in NOEFFECT:
        yield 'no effect', 'settings %s of %s have no effect' % (sett, cls)


NOEFFECT = ("skip_for_code_or_pre=False", "drop_whitespace=False", "margin=[3, 0, 2, 1]")


def cases(h, tier):
    for hn in HIER:
        for sn in SEL:
            if hn in ('block', 'block same as BlockRenderer', 'list item', 'inline') and sn == 'falsy':
                continue
            yield Case('cascade', '%s + %s' % (hn, sn), cascade, hn, sn)
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for g, mro in graphs(n):
            yield Case('resolution-order', ' '.join('C%d(%s)' % (i, ', '.join('C%d' % b if b else 'Renderer' for b in bs)) for i, bs in enumerate(g, 1)), graph, g, mro)
    for o in ('ABC', 'CBA', 'BAC', 'BCA'):
        yield Case('siblings', o, siblings, o)
    for how in ('a.settings.x = V8', "a.settings['z'] = V8", 'a.settings.update(dict(y=V8))', 'a.settings = dict(x=V8)', "K(t, settings=dict(x=V8, z=V7))"):
        yield Case('instances', how, instances, how)
    for i, (s, c, st, d) in enumerate(EQUIV):
        for cfg in ['default'] if tier == 'quick' else ['default', 'narrow', 'box', 'gophermap']:
            yield Case('same-setting-same-rendering', '%s %s(%s) %s' % (cfg, c, st, s), equiv, s, c, st, d, {}, cfg, False)
    for i, (s, c, st, d) in enumerate(XEQUIV):
        cf = 'image footer' if s == 'img' else 'default'
        yield Case('same-setting-same-rendering', 'extracted %s(%s) %s' % (c, st, s), equiv, s, c, st, d, {}, cf, True)
