"""C30: end tags, void elements and what is not content."""
import itertools

from ..docs import *

TITLE = 'Stray end tags, void elements and unclosed elements do no harm'
EXPLAIN = ('Relational abstract interpretation: every short sequence of start tags, end tags, void elements and texts is rendered as it is and in the form the check gives '
           'it (end tags without a matching innermost element left out, void elements closed, elements left open closed at the end); the outputs must be the same.')
MIN_CASES = 200

VOID = ('area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr')


def proper(tokens):
    """The document with only the end tags that close something, and all elements closed."""
    res, open_ = [], []
    for x in tokens:
        if x[0] == 'start':
            res.append(x)
            if x[1] not in VOID:
                open_.append(x[1])
        elif x[0] == 'end':
            if x[1] not in VOID and open_ and open_[-1] == x[1]:
                open_.pop()
                res.append(x)
        elif x[0] == 'data':
            res.append(x)
    return res + [E(t) for t in reversed(open_)]


TWICE = """
p = GopherHTMLParser(%s)
p.feed(DOC)
p.close()
OUT = p.parsed
q = GopherHTMLParser(%s)
q.feed(PROPER)
q.close()
WANT = q.parsed
"""


def same(h, d, ctor):
    for o in render(h, d, src=TWICE % (ctor, ctor), env=dict(PROPER=proper(d))):
        a, b = norm(out(o)), norm(out(o, 'WANT'))
        if a != b:
            yield 'renders as\n%s\ninstead of\n%s' % ('\n'.join(map(show, lines(out(o)))), '\n'.join(map(show, lines(out(o, 'WANT')))))
            return


def void(h, tag, build, ctor, attrs=()):
    """A void element shows nothing of its own and keeps the elements after it where they are."""
    d = build([S(tag, *attrs)])
    q = build([S(tag, *attrs), E(tag)])
    bare = build([])
    src = TWICE % (ctor, ctor) + "r = GopherHTMLParser(%s)\nr.feed(BARE)\nr.close()\nBAREOUT = r.parsed\n" % ctor
    for o in render(h, d, src=src, env=dict(PROPER=q, BARE=bare)):
        a, b, c = norm(out(o)), norm(out(o, 'WANT')), norm(out(o, 'BAREOUT'))
        if a != b:
            yield '<%s> renders differently from <%s/>' % (tag, tag)
        if tag not in ('br', 'img') and a != c:
            yield 'with <%s> renders as\n%s\ninstead of\n%s' % (tag, '\n'.join(map(show, lines(out(o)))), '\n'.join(map(show, lines(out(o, 'BAREOUT')))))


def name(d):
    return ''.join(('<%s>' if x[0] == 'start' else '</%s>') % x[1] if x[0] != 'data' else 'x' for x in d)


PLACES = {
    'p': lambda v: el('p', T(W('A')), v, T(W('B'))) + el('p', T(W('C'))),
    'bare': lambda v: [T(W('A'))] + v + [T(W('B'))] + el('p', T(W('C'))),
    'between': lambda v: el('p', T(W('A'))) + v + el('p', T(W('C'))),
    'li': lambda v: el('ul', el('li', T(W('A')), v, T(W('B'))), el('li', T(W('C')))) + el('p', T(W('D'))),
    'em': lambda v: el('p', el('em', T(W('A')), v, T(W('B'))), T(W('C'))) + el('h2', T(W('D'))),
    'quote': lambda v: el('blockquote', el('p', T(W('A')), v, T(W('B')))) + el('p', T(W('C'))),
    'dd': lambda v: el('dl', el('dt', T(W('A')), v), el('dd', T(W('B')), v, T(W('C')))) + el('p', T(W('D'))),
    'td': lambda v: el('td', T(W('A')), v, T(W('B'))) + el('p', T(W('C'))),
    'link': lambda v: el('p', A('/x', T(W('A')), v, T(W('B'))), T(W('C'))) + el('p', T(W('D'))),
    'pre': lambda v: el('pre', T(W('A')), v, T(W('B'))) + el('p', T(W('C'))),
    'twice': lambda v: el('div', v, el('p', v, T(W('A')), v, v, T(W('B'))), v, el('p', T(W('C'))), v),
    'end': lambda v: el('p', T(W('A')), v) + el('p', T(W('B')), v),
}


def cases(h, tier):
    deep = tier == 'thorough'
    ctors = {'default': 'optimise=False', 'gophermap': "optimise=False, output_format='gophermap', gopher_host='h', image_placement='footer'",
             'after block': "optimise=False, link_placement='after_block', image_placement='after_block'", 'inline': "optimise=False, link_placement='inline'"}
    # every sequence of tags, with a word after each
    tags = ['p', 'em', 'li', 'ul', 'blockquote'] + (['pre', 'div', 'h2', 'a'] if deep else [])
    alphabet = [S(t, ('href', '/x')) if t == 'a' else S(t) for t in tags] + [E(t) for t in tags]
    for n in (1, 2, 3):
        for seq in itertools.product(alphabet, repeat=n):
            if n == 3 and not deep and not (seq[0][0] == 'start' and any(x[0] == 'end' for x in seq[1:])):
                continue
            if proper(list(seq)) == list(seq):
                continue
            d = [T(W('A'))]
            for i, x in enumerate(seq):
                d += [x, T(W('BCDE'[i]))]
            yield Case('sequence', name(d), same, d, ctors['default'])
    # stray end tags in a well-formed document
    stray = ['p', 'em', 'li', 'ul', 'ol', 'blockquote', 'pre', 'div', 'h1', 'a', 'span', 'td', 'br', 'img', 'hr', 'dd', 'code', 'body']
    docs = {
        'p': lambda v: el('p', T(W('A')), v, T(W('B'))) + el('p', T(W('C'))), 'em in p': lambda v: el('p', T(W('A')), el('em', v, T(W('B'))), v, T(W('C'))) + v,
        'ul': lambda v: el('ul', v, el('li', T(W('A')), v), v, el('li', v, T(W('B')))) + el('p', T(W('C'))), 'ol': lambda v: el('ol', el('li', T(W('A')), el('ol', el('li', T(W('B')), v)), v), el('li', T(W('C')))),
        'quote': lambda v: el('blockquote', el('p', T(W('A')), v), v, el('p', T(W('B')))) + v + el('p', T(W('C'))), 'start': lambda v: v + el('p', T(W('A'))),
        'end': lambda v: el('p', T(W('A'))) + v + [T(W('B'))], 'link': lambda v: el('p', A('/x', T(Const('link')), v), v, T(W('A'))) + el('p', IMG('/i.gif', 'im'), v),
        'pre': lambda v: el('pre', T(mkstr([W('A'), '\n  '])), v, T(mkstr([W('B'), '\n']))) + el('p', T(W('C'))), 'h1': lambda v: el('h1', T(W('A')), v, T(W('B'))) + el('p', T(W('C')), v),
        'dl': lambda v: el('dl', el('dt', T(W('A')), v), v, el('dd', T(W('B')), v)) + el('p', T(W('C'))),
    }
    for nm, f in docs.items():
        for s in stray:
            d = f([E(s)])
            for cn, c in ctors.items():
                if deep or cn in ('default', 'after block') and nm in ('link', 'p') or cn == 'default':
                    yield Case('stray', '</%s> in %s, %s' % (s, nm, cn), same, d, c)
    # elements left open
    for o in ('p', 'em', 'li', 'blockquote', 'pre', 'div', 'h2', 'ul', 'a', 'dd', 'code', 'td'):
        for i in ('p', 'em', 'li', 'blockquote', 'pre', 'a', 'ul', 'h3'):
            if o == 'a' and i not in ('em', 'a'):
                continue                       # (blocks within a link)
            at = lambda t: [('href', '/%s' % t)] if t == 'a' else []
            d = el('p', T(W('A'))) + [S(o, *at(o)), T(W('B')), S(i, *at(i)), T(W('C'))]
            for cn, c in ctors.items():
                if cn == 'after block' and 'a' in (o, i):
                    continue
                if deep or cn == 'default':
                    yield Case('unclosed', '<%s><%s>, %s' % (o, i, cn), same, d, c)
                    yield Case('unclosed', '<%s><%s></%s>, %s' % (o, i, i, cn), same, d + [E(i), T(W('D'))], c)
                    yield Case('unclosed', '<%s><%s></%s>, %s' % (o, i, o, cn), same, d + [E(o), T(W('D'))], c)
    # opened at the end, and empty
    for o in ('p', 'em', 'li', 'blockquote', 'pre', 'div', 'h2', 'ul', 'ol', 'dl', 'dt', 'dd', 'code', 'td', 'span'):
        for cn, c in ctors.items():
            if deep or cn == 'default':
                yield Case('unclosed', '<%s> at the end, %s' % (o, cn), same, el('p', T(W('A'))) + [S(o)], c)
                for i in ('p', 'ul', 'blockquote', 'dl', 'div', 'ol'):
                    yield Case('unclosed', '<%s> at the end of <%s>, %s' % (o, i, cn), same, [S(i), T(W('A')), S(o)], c)
                    yield Case('unclosed', '<%s> at the start of <%s>, %s' % (o, i, cn), same, [S(i), S(o)], c)
    for v in VOID:
        for nm, f in PLACES.items():
            if v in ('br', 'img') and nm not in ('p', 'em', 'bare'):
                continue
            for cn, c in ctors.items():
                if deep or cn == 'default' or v in ('hr', 'wbr') and cn == 'gophermap':
                    yield Case('void', '<%s> in %s, %s' % (v, nm, cn), void, v, f, c)
        if v not in ('br', 'img'):
            yield Case('void', '<%s> with attributes' % v, void, v, PLACES['p'], ctors['default'], [('src', '/x.gif'), ('href', '/y'), ('alt', Const('alt')), ('title', Const('t')), ('content', Const('c'))])
