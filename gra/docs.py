"""Abstract documents and ways of rendering them."""
from .dom import *
from .harness import S, E, T, el, sym, text
from .flat import *
from .check import Case, Fail, Undecided

RENDER = "p = GopherHTMLParser(%s)\np.feed(DOC)\np.close()\nOUT = p.parsed\n"


def render(h, doc, ctor='optimise=False', words=0, env=None, opts=None, pre='', src=None):
    """All outcomes of rendering doc; an exception on any path is a failure."""
    e = dict(DOC=doc)
    e.update(env or {})
    o = dict(words=words)
    o.update(opts or {})
    outs = h.run(pre + (src or RENDER % ctor), e, opts=o)
    if not outs:
        raise Undecided('no outcome')
    for x in outs:
        if x.kind == 'exc':
            raise Fail('rendering raises %s' % x.describe())
    return outs


def render1(h, doc, ctor='optimise=False', words=0, env=None, opts=None, pre='', src=None):
    """The text of a document whose rendering follows a single path."""
    outs = render(h, doc, ctor, words, env, opts, pre, src)
    vals = []
    for o in outs:
        v = out(o)
        if v not in vals:
            vals.append(v)
    if len(vals) != 1:
        raise Undecided('rendering depends on more than the scenario fixes: %d results' % len(vals))
    return vals[0]


def t(*names):
    return T(words(*names))


BLOCKS = ['p', 'div', 'blockquote', 'pre', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'h1', 'h3']
INLINES = ['em', 'strong', 'i', 'b', 'u', 'ins', 's', 'del', 'span', 'code']
OTHER = ['article', 'custom']
HEADERS = ['h1', 'h2', 'h3', 'h4', 'h5', 'h6']


def expect(cond, msg, key=None):
    if not cond:
        raise Fail(msg, key)


def L(v):
    return show(v)


def ok_paths(outs):
    return [o for o in outs if o.kind == 'ok']


# ---------------------------------------------------------------- catalogue
def A(href='/x.txt', *kids, title=None):
    at = [('href', href)] + ([('title', title)] if title is not None else [])
    return el('a', *kids, attrs=at)


def IMG(src='/i.gif', alt=None):
    return [S('img', ('src', src), *([('alt', alt)] if alt is not None else []))]


def probe(pfx='Q'):
    """A document that exercises every part of the default configuration."""
    n = lambda k: W(pfx + k)
    return (el('h2', T(n('1')))
            + el('p', T(mkstr([n('2'), ' '])), el('em', T(n('3'))), T(mkstr(['  ', n('4'), '\n ', n('5'), ' '])),
                 A('/a.txt', T(Const('k' + pfx))), IMG('/i.gif', Const('i' + pfx)), S('br'), T(n('8')))
            + el('ul', el('li', T(n('9'))), el('li', T(n('10')), el('ol', el('li', T(n('6'))), el('li', T(n('7'))))))
            + el('blockquote', el('p', T(n('13'))), el('p', T(n('14')), A('http://h/', T(Const('l' + pfx)))))
            + el('pre', el('code', T(mkstr([n('16'), '\n  ', n('17')]))))
            + el('dl', el('dt', T(n('18'))), el('dd', T(n('19')))))


def histories():
    """Things a parser may have been used for before."""
    out = {}
    for b in BLOCKS + INLINES + OTHER:
        out['<%s>..</%s>' % (b, b)] = el(b, t('H1', 'H2'))
        out['unclosed <%s>' % b] = [S(b), t('H1')]
    out['empty'] = []
    out['text only'] = [t('H1')]
    out['link'] = el('p', A('/h.txt', t('H1')))
    out['root link'] = A('/h.txt', t('H1'))
    out['unclosed link'] = [S('p'), S('a', ('href', '/h')), t('H1')]
    out['image'] = el('p', IMG('/h.gif', W('H1')))
    out['root image'] = IMG('/h.gif')
    out['stray end tag'] = [E('p'), t('H1'), E('em')]
    out['nested unclosed'] = [S('div'), S('ul'), S('li'), S('pre'), S('code'), t('H1')]
    out['closed in unclosed'] = [S('div')] + el('p', t('H1')) + [S('blockquote')] + el('p', A('/h', t('H2')))
    out['pre then unclosed pre'] = el('pre', t('H1')) + [S('pre'), t('H2')]
    out['lists'] = el('ol', el('li', t('H1')), el('li', el('ol', el('li', t('H2')))))
    out['many links'] = el('p', A('/1', t('H1')), A('/2', t('H2')), IMG('/3'))
    return out


CONFIGS = {
    'default': 'optimise=False',
    'optimised': '',
    'inline links': "optimise=False, link_placement='inline'",
    'after block': "optimise=False, link_placement='after_block', image_placement='after_block'",
    'image footer': "optimise=False, image_placement='footer'",
    'gophermap': "optimise=False, output_format='gophermap', gopher_host='host', gopher_port=7070",
    'gophermap all': "optimise=False, output_format='gophermap', gopher_host='host', image_placement='footer'",
    'box': "optimise=False, box=Box(width=50, margin=[1, 2, 1, 3])",
    'narrow': 'optimise=False, width=20',
}


# custom configurations that touch every kind of renderer and setting; the
# values are written so that any leak into later renderings is visible
CUSTOM = {
    'p justified': ("{'p': (ParagraphRenderer, dict(margin=M, padding=PD, initial_indent=2, justification='right', line_template='|{}'))}",
                    lambda: el('p', t('H1', 'H2')) + el('p', t('H3'))),
    'p border': ("{'p': (None, dict(border=BD, padding=PD))}", lambda: el('p', t('H1', 'H2'))),
    'quote': ("{'blockquote': (BlockQuoteRenderer, dict(line_template='% {}', margin=M)), 'blockquote > p': (None, dict(margin=M))}",
              lambda: el('blockquote', el('p', t('H1')), el('p', t('H2')))),
    'ol': ("{'ol > li': (OrderedListItemRenderer, dict(start_index=5, step=3, margin=M)), 'ol': (None, dict(margin=M, padding=PD))}",
           lambda: el('ol', el('li', t('H1')), el('li', t('H2')))),
    'ul': ("{'li': (ListItemRenderer, dict(line_template='- {}', capitalized=True)), 'ul': (None, dict(border=BD))}",
           lambda: el('ul', el('li', t('H1')), el('li', t('H2')))),
    'headers': ("{'h1': (HeaderRenderer, dict(template='<{}>', underlined=True, spread=1, centered=True)), 'h2': (None, dict(margin=M))}",
                lambda: el('h1', t('H1')) + el('h2', t('H2'))),
    'pre': ("{'pre': (PreRenderer, dict(indent=7, line_template='# {}', border=BD))}", lambda: el('pre', t('H1'))),
    'dl': ("{'dt': (None, dict(template='@{}')), 'dd': (None, dict(line_template='= {}', margin=M))}",
           lambda: el('dl', el('dt', t('H1')), el('dd', t('H2')))),
    'inline': ("{'em': (EmRenderer, dict(template='/{}/', capitalized=True)), 'code': (CodeRenderer, dict(inline_template='{}')),"
               " 'span': (AnsiEscapeCodeRenderer, dict(bold=True, foreground_colour='red'))}",
               lambda: el('p', el('em', t('H1')), el('code', t('H2')), el('span', t('H3')))),
    'links': ("{'a': (LinkRenderer, dict(templates=TPL)), 'img': (ImageRenderer, dict(templates=TPI))}",
              lambda: el('p', A('/h', T(Const('hh'))), IMG('/i', Const('ii')))),
}
CUSTOM_ENV = lambda: dict(
    M=[Const(2), Const(1), Const(1), Const(3)], PD=[Const(1), Const(2), Const(0), Const(1)], BD=['=', '|', '-', '|'],
    TPL={'reference': '({content}|{link_reference})', 'inline': ['<{content}>', '<{content}>']},
    TPI={'reference': '({title}|{link_reference})', 'inline': '<{title}>'})


GLOBAL_ATTRS = ['class', 'id', 'style', 'lang', 'dir', 'hidden', 'accesskey', 'tabindex', 'role', 'aria-label', 'data-x', 'name', 'align', 'width', 'height',
                'start', 'value', 'type', 'reversed', 'compact', 'cite', 'datetime', 'rel', 'target', 'download', 'hreflang', 'clear', 'usemap', 'ismap',
                'srcset', 'loading', 'longdesc', 'colspan', 'rowspan', 'title', 'href', 'src', 'alt']


def attr_names(h):
    """The attributes of HTML, and everything in the source that may be the name of one."""
    import ast
    import glob
    import os
    import re
    names = list(GLOBAL_ATTRS)
    for f in sorted(glob.glob(os.path.join(h.root, 'gopher_render', '*.py'))):
        with open(f) as fh:
            for n in ast.walk(ast.parse(fh.read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch('[a-z][a-z-]{1,20}', n.value) and n.value not in names:
                    names.append(n.value)
    return names
