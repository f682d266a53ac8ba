"""C10: text is neither lost, duplicated nor reordered."""
from ..docs import *

TITLE = 'All document text is rendered exactly once and in document order'
EXPLAIN = ('Abstract interpretation of documents with symbolic text before, inside and after every pair of nested elements, in every '
           'configuration and with settings of every kind: the symbolic text runs of the rendering must be those of the document, in '
           'order, each once (link lists at the end repeat shortened link text and are set apart).')
MIN_CASES = 300
ASSUMPTIONS = ['a wrapped text has the words of the text in order, each once (guarantee of the standard library wrapper, see C29)']

ALL = BLOCKS + INLINES + OTHER


def flow(h, d, ctor, want, words=0, pre='', env=None):
    for o in render(h, d, ctor, words, env=env, pre=pre):
        v = plain(out(o))
        got = text_atoms(v)
        if got != [W(x) if isinstance(x, str) else x for x in want]:
            yield 'text %s renders as %s:\n%s' % (' '.join(map(str, want)), ' '.join(show(g) if not isinstance(g, tuple) else '%s(%s)' % (g[0], show(g[1])) for g in got) or 'nothing',
                                                  '\n'.join(map(show, lines(v))))


def nest(h, o, i, ctor, gaps):
    sp = {'none': ('', ''), 'blank': (' ', ' '), 'newline': ('\n', '\n  ')}[gaps]
    d = ([T(mkstr([W('A'), sp[0]])), S(o), T(mkstr([sp[1], W('B'), sp[0]])), S(i), T(mkstr([sp[0], W('C'), sp[1]])), E(i),
          T(mkstr([sp[1], W('D'), sp[0]])), E(o), T(mkstr([sp[1], W('E')]))])
    yield from flow(h, d, ctor, 'ABCDE')


def bare(h, o, i, ctor):
    """Nested elements with nothing but each other."""
    yield from flow(h, [S(o), S(i), T(W('A')), E(i), S(i), T(W('B')), E(i), E(o), S(o), S(i), E(i), T(W('C')), E(o)], ctor, 'ABC')


def source_lines(h, tag, ctor, shape):
    """Text over several source lines, also with the same words on several of them."""
    d, want = [S(tag)] if tag else [], []
    parts = []
    for c in shape:
        if c.isalpha():
            parts.append(W(c))
            want.append(c)
        else:
            parts.append({'/': '\n', '~': '\n   ', '_': ' ', '|': '  \n\t', '.': '\n\n'}[c])
    d.append(T(mkstr(parts)))
    if tag:
        d.append(E(tag))
    yield from flow(h, d, ctor, want)


SHAPES = ['A/B/C', 'A~B~C~D~E', 'A/A', 'A~B~B~C', 'A_B/A_B/C', 'A.A.B', 'A|B|B|A', '/A/', '~A~A~', 'A_A_A', '.A_B.B_A.', 'A/B/C/B/A', '_A_']


def deep(h, tags, ctor):
    d, want = [], []
    for k, x in enumerate(tags):
        d += [S(x), T(W('A%d' % k))]
        want.append('A%d' % k)
    for k, x in reversed(list(enumerate(tags))):
        d += [T(W('B%d' % k)), E(x)]
        want.append('B%d' % k)
    yield from flow(h, d, ctor, want)


def settings(h, sel, cls, sett, doc, want, words):
    yield from flow(h, doc, 'optimise=False, renderers=R', want, words, pre="R = {'%s': (%s, dict(%s))}\n" % (sel, cls, sett))


def links(h, ctor, o, kind):
    """The text of a link stays in the flow; listed links add their descriptions at the end."""
    if kind == 'text':
        d = [S(o), T(W('A')), S('a', ('href', '/x.txt')), T(W('L')), E('a'), T(W('B')), E(o), T(W('C'))]
        want = 'ALBC'
    elif kind == 'formatted':
        d = [S(o), T(W('A')), S('a', ('href', '/x.txt')), S('em'), T(W('L')), E('em'), T(W('M')), E('a'), T(W('B')), E(o)]
        want = 'ALMB'
    elif kind == 'image':
        d = [S(o), T(W('A')), S('img', ('src', '/i.gif'), ('alt', W('L'))), T(W('B')), E(o), T(W('C'))]
        want = 'ALBC'
    else:
        d = [S(o), T(W('A')), S('a', ('href', '/x.txt')), S('img', ('src', '/i.gif'), ('alt', W('L'))), T(W('M')), E('a'), T(W('B')), E(o)]
        want = 'ALMB'
    for o_ in render(h, d, ctor, 0):
        got = [a for a in text_atoms(plain(out(o_)))]
        # shortened descriptions in a list after the block or the page
        main = [a for a in got if not isinstance(a, tuple)]
        first = []
        for a in got:
            a = a[1] if isinstance(a, tuple) else a
            if a not in first:
                first.append(a)
        if first != [W(x) for x in want]:
            yield 'text %s renders in the order %s' % (want, ' '.join(map(show, first)))
        for x in want:
            n = sum(1 for a in main if a == W(x))
            if n < 1:
                yield 'the text %s is cut or lost' % x
            if x not in 'LM' and n != 1:
                yield 'the text %s appears %d times' % (x, n)


def cases(h, tier):
    ctors = {'default': 'optimise=False', 'box': 'optimise=False, box=Box(width=60, margin=[1, 2, 1, 3])', 'optimised': '', 'narrow': 'optimise=False, width=30',
             'gophermap': CONFIGS['gophermap'], 'inline links': CONFIGS['inline links'], 'after block': CONFIGS['after block']}
    few = ['default'] if tier == 'quick' else list(ctors)
    for o in ALL:
        for i in ALL:
            for c in few:
                for g in (['blank'] if tier == 'quick' else ['none', 'blank', 'newline']):
                    yield Case('nesting', '%s in %s %s %s' % (i, o, c, g), nest, o, i, ctors[c], g)
                yield Case('bare', '%s in %s %s' % (i, o, c), bare, o, i, ctors[c])
    for tag in (['', 'p', 'li', 'dd', 'em', 'h2', 'pre', 'blockquote', 'code', 'div'] if tier == 'quick' else [''] + ALL):
        for sh in SHAPES:
            for c in (['default'] if tier == 'quick' else ['default', 'narrow', 'gophermap']):
                yield Case('source-lines', '%s %s %s' % (tag or 'no element', sh, c), source_lines, tag, ctors[c], sh)
    for c in ctors:
        for tags in (['div', 'ul', 'li', 'p', 'em', 'strong'], ['blockquote', 'ol', 'li', 'ul', 'li', 'p', 'code'], ['dl', 'dd', 'blockquote', 'p', 'span', 'u'],
                     ['div', 'div', 'pre', 'code', 'span'], ['ol', 'li', 'blockquote', 'p', 's', 'b', 'i'], ['article', 'custom', 'h2', 'del', 'ins'],
                     ['blockquote', 'blockquote', 'blockquote', 'p']):
            yield Case('deep', '%s %s' % ('>'.join(tags), c), deep, tags, ctors[c])
        for o in (['p', 'li', 'h2', 'blockquote', 'em', 'div', 'dd', 'pre'] if tier == 'quick' else ALL):
            for k in ('text', 'formatted', 'image', 'both'):
                if c in ('default', 'gophermap', 'inline links', 'after block') or tier != 'quick':
                    yield Case('links', '%s in %s %s' % (k, o, c), links, ctors[c], o, k)
    p = lambda: el('p', T(W('A')), T(Const(' ')), T(words('B', 'C', 'D')), el('em', T(W('E'))), S('br'), T(words('F', 'G')))
    for words_ in (0, 1, 2):
        for sett in ("justification='right'", "justification='center'", "justification='full'", "justification='none'", 'capitalized=True', "line_template='> {} <'",
                     'initial_indent=4, subsequent_indent=2', "border=['-', '|', '-', '|'], padding=[1, 2, 1, 2]", 'margin=[2, 3, 2, 4]', 'break_long_words=False',
                     'drop_whitespace=False', 'skip_for_code_or_pre=False'):
            if words_ == 2 and 'full' in sett:
                continue
            yield Case('settings', 'p %s %s' % (sett, words_), settings, 'p', 'ParagraphRenderer', sett, p(), 'ABCDEFG', words_)
        for sett in ("line_template='+ {}'", "justification='right'", "justification='center'", 'capitalized=True', 'initial_indent=3',
                     "border=['', '|', '', '|'], padding=[0, 1, 0, 1]"):
            yield Case('settings', 'li %s %s' % (sett, words_), settings, 'li', 'ListItemRenderer', sett,
                       el('ul', el('li', t('A', 'B', 'C')), el('li', t('D'), el('ol', el('li', t('E')))), el('li', t('F'))), 'ABCDEF', words_)
            yield Case('settings', 'dd %s %s' % (sett, words_), settings, 'dd', 'DefinitionListItemRenderer', sett,
                       el('dl', el('dt', t('A')), el('dd', t('B', 'C')), el('dt', t('D')), el('dd', t('E'))), 'ABCDE', words_)
    for sett in ('centered=True', 'capitalized=True', 'spread=1', 'spread=2, spread_char="."', 'underlined=True', 'underlined=True, underline_full=True, centered=True',
                 "template='<< {} >>'", "border=['=', '|', '=', '|']", 'padding=[1, 1, 1, 1]'):
        for cl in ('HeaderRenderer', 'MarkdownHeaderRenderer', 'DefinitionListTermHeaderRenderer'):
            if cl == 'MarkdownHeaderRenderer' and 'template' in sett:
                continue
            yield Case('settings', '%s %s' % (cl, sett), settings, 'h2', cl, sett, el('h2', t('A', 'B')) + el('p', t('C')), 'ABC', 0)
    for sett in ('indent=0', 'indent=9', "line_template='| {}'", "border=['=', '|', '=', '|']", 'padding=[1, 1, 1, 1]'):
        yield Case('settings', 'pre %s' % sett, settings, 'pre', 'PreRenderer', sett, el('pre', T(mkstr([W('A'), '\n\n  ', W('B'), '\n'])), el('code', T(W('C')))), 'ABC', 0)
    for sett in ("block_template='[{}]'", "inline_template='<{}>'", 'capitalized=True', "template='{}'"):
        yield Case('settings', 'code %s' % sett, settings, 'code', 'CodeRenderer', sett, el('p', t('A'), el('code', t('B')), t('C')) + el('code', T(mkstr([W('D'), '\n', W('E')]))), 'ABCDE', 0)
    for sett in ("bold=True", "foreground_colour='red', background_colour='blue'", 'normalise=True, underline=True', 'capitalized=True, bold=True'):
        yield Case('settings', 'ansi %s' % sett, settings, 'em', 'AnsiEscapeCodeRenderer', sett, el('p', t('A'), el('em', t('B')), t('C')) + el('em', t('D')), 'ABCD', 0)
