"""C15: no document makes the renderer raise."""
import itertools

from ..docs import *

TITLE = 'No document makes rendering fail'
EXPLAIN = ('Abstract interpretation of whole renderings with exceptions as outcomes: no path of any catalogue document (every element alone and in '
           'every other, attributes missing, without value, empty or arbitrary, any text, every short sequence of start tags, end tags and text '
           'including stray and missing end tags), in any configuration and page width, may end in an exception.')
MIN_CASES = 400

VOID = ['br', 'img', 'hr', 'input']
UNKNOWN = ['article', 'table', 'tr', 'td', 'section', 'x-y', 'h7', 'h', 'script', 'body', 'html']
PLAIN = BLOCKS + ['h2', 'h4', 'h5', 'h6'] + INLINES
ALL = PLAIN + ['a', 'img', 'br'] + UNKNOWN
ANY = lambda n: Sym(n, 'str', (FLAG_DOC,))
WIDTH = lambda: sym('WIDTH', 'int')
WCTOR = {'': 'optimise=False, width=WIDTH', 'gophermap ': "output_format='gophermap', gopher_host='host', width=WIDTH, image_placement='footer'"}


def ok(h, d, ctor, words=0, env=None, pre='', opts=None, src=None):
    outs = render(h, d, ctor, words, env=env, pre=pre, src=src, opts=dict(dict(wrap_errors=True), **(opts or {})))
    for o in outs:
        v = o.get('OUT')
        if not is_str(v):
            yield 'the result is %s, not text' % show(v)[:200]
            return


def one(tag, *kids, attrs=()):
    if tag in ('br', 'img'):
        return [S(tag, *attrs)] + [x for k in kids for x in (k if isinstance(k, list) else [k])]
    return el(tag, *kids, attrs=attrs)


ATTRS = {
    'none': [], 'class without value': [('class', None)], 'class empty': [('class', '')], 'class blank': [('class', ' ')], 'class any': [('class', ANY('V'))],
    'id without value': [('id', None)], 'id any': [('id', ANY('V'))], 'unknown without value': [('data-x', None)],
    'twice': [('id', 'a'), ('id', ANY('V')), ('class', 'b'), ('class', None)],
    'title without value': [('title', None)], 'title empty': [('title', '')], 'title any': [('title', ANY('V'))],
    'href without value': [('href', None)], 'href empty': [('href', '')], 'href any': [('href', ANY('V'))], 'href any title any': [('href', ANY('V')), ('title', ANY('U'))],
    'src without value': [('src', None)], 'src empty': [('src', '')], 'src any': [('src', ANY('V'))],
    'alt without value': [('alt', None)], 'alt empty': [('alt', '')], 'alt any': [('alt', ANY('V'))], 'src any alt any': [('src', ANY('V')), ('alt', ANY('U'))],
    'bad port': [('href', 'gopher://h:x/'), ('src', 'gopher://h:99999/')], 'bad host': [('href', 'http://[x'), ('src', 'http://[x')],
}
CONTENT = {
    'empty': lambda: [], 'empty text': lambda: [T(Const(''))], 'blank': lambda: [T(Const(' '))], 'newlines': lambda: [T(Const('\n \n\n'))], 'word': lambda: [t('C')],
    'lines': lambda: [T(mkstr([W('C'), '\n\n  ', W('D'), '\n']))], 'text and element': lambda: [t('C')] + el('em', t('D')) + [t('F')],
    'break': lambda: [S('br')], 'breaks': lambda: [S('br'), S('br'), t('C'), S('br')],
}
SELS = "{'[title=x]': (None, {}), '[class~=x]': (None, {}), '.x': (None, {}), '#x': (None, {}), '[href^=x]': (None, {}), '[alt$=x]': (None, {})," \
       " '[src*=x]': (None, {}), '[id|=x]': (None, {}), '[data-x]': (None, {}), 'li:nth-child(2)': (None, {}), ':not(p) + * > *': (None, {})," \
       " ':first-child ~ :last-child': (None, {}), 'x *:nth-last-child(1)': (None, {})}"
TOKENS = {'<p>': S('p'), '<li>': S('li'), '<pre>': S('pre'), '<a>': S('a', ('href', '/x')), '<img>': S('img'), '<br>': S('br'), '<ol>': S('ol'),
          '</p>': E('p'), '</li>': E('li'), '</a>': E('a'), '</br>': E('br'), '</img>': E('img'), '</pre>': E('pre'), '</x>': E('x'), 'text': None, 'blank': T(Const(' '))}


def seq(names):
    return [t('W%d' % i) if n == 'text' else TOKENS[n] for i, n in enumerate(names)]


def cases(h, tier):
    deep = tier != 'quick'
    for tag in ALL:
        for cn, c in CONTENT.items():
            yield Case('element', '%s %s' % (tag, cn), ok, one(tag, *c()), WCTOR[''], 0, dict(WIDTH=WIDTH()))
            yield Case('element', '%s %s gophermap' % (tag, cn), ok, one(tag, *c()), WCTOR['gophermap '], 0, dict(WIDTH=WIDTH()))
        if tag not in ('a', 'img', 'br'):
            yield Case('any-text', tag, ok, el(tag, T(ANY('C'))), WCTOR[''], None, dict(WIDTH=WIDTH()))
            yield Case('any-text', tag + ' gophermap', ok, el(tag, T(ANY('C'))), WCTOR['gophermap '], None, dict(WIDTH=WIDTH()))
        for c in CONFIGS:
            yield Case('configuration', '%s %s' % (tag, c), ok, one(tag, t('C', 'D'), attrs=[('href', '/x')]), CONFIGS[c])
    for an, at in ATTRS.items():
        for tag in ('p', 'a', 'img', 'x-y', 'li', 'br') if not deep else ALL:
            if tag == 'a' and 'src' in an or tag == 'img' and 'href' in an or tag not in ('a', 'img') and an.split()[0] in ('href', 'src', 'alt', 'bad'):
                continue
            for c in (('default', 'gophermap all', 'inline links') if tag in ('a', 'img') else ('default',)) if not deep else CONFIGS:
                cf = CONFIGS[c]
                if tag in ('a', 'img') and c == 'inline links':
                    cf += ', image_placement="inline"'
                yield Case('attributes', '%s %s %s' % (tag, an, c), ok, one(tag, t('C'), attrs=at), cf, 0 if tag not in ('a', 'img') else None, {}, '', dict(url_errors=True))
            if 'any' in an and tag != 'p':
                continue
            yield Case('attribute-selectors', '%s %s' % (tag, an), ok, el('div', one(tag, t('C'), attrs=at), el('p')), 'optimise=False, renderers=R', 0, {}, 'R = %s\n' % SELS)
    names = attr_names(h)
    for tag in ALL:
        for vn, v in (('without values', lambda n: None), ('empty', lambda n: ''), ('with any values', lambda n: ANY('V' + n))):
            link = ('href', 'src', 'title', 'alt') if vn == 'with any values' else ()
            at = [(n, v(n)) for n in names if n not in link]
            yield Case('attributes', 'all %s on %s' % (vn, tag), ok, el('ol', one(tag, t('C'), attrs=at)), CONFIGS['default'], 0, {}, '', dict(url_errors=True))
            if tag in ('a', 'img', 'li', 'p') or deep:
                yield Case('attributes', 'all %s on %s gophermap' % (vn, tag), ok, one(tag, t('C'), attrs=at), CONFIGS['gophermap all'], 0, {}, '', dict(url_errors=True))
    for a in ALL:
        for b in ALL:
            if a in ('br', 'img') or not deep and a in UNKNOWN[1:] and b in UNKNOWN[1:]:
                continue
            yield Case('pair', '%s in %s' % (b, a), ok, el(a, one(b, t('C')), t('D')), WCTOR[''], 0, dict(WIDTH=WIDTH()))
            if deep:
                yield Case('pair', '%s in %s gophermap' % (b, a), ok, el(a, one(b, t('C')), t('D')), WCTOR['gophermap '], 0, dict(WIDTH=WIDTH()))
    for ns in deep_chains(deep):
        d = [t('C')]
        for x in reversed(ns):
            d = el(x, *d)
        yield Case('chain', '>'.join(ns), ok, d, WCTOR[''], 0, dict(WIDTH=WIDTH()))
    names = list(TOKENS)
    for n in (1, 2, 3) if deep else (1, 2):
        for s in itertools.product(names, repeat=n):
            yield Case('tokens', ' '.join(s), ok, seq(s), CONFIGS['default'])
            if n < 3:
                yield Case('tokens', ' '.join(s) + ' after block', ok, [S('div')] + seq(s), CONFIGS['after block'])
                yield Case('tokens', ' '.join(s) + ' gophermap', ok, seq(s), CONFIGS['gophermap all'])
    few = ['<p>', '<a>', '<br>', '<li>', '</p>', '</a>', '</li>', 'text']
    if not deep:
        for s in itertools.product(few, repeat=3):
            yield Case('tokens', ' '.join(s), ok, seq(s), CONFIGS['default'])
    yield Case('tokens', 'no tokens', ok, [], CONFIGS['default'])
    yield Case('tokens', 'no tokens gophermap', ok, [], CONFIGS['gophermap all'])
    yield Case('calls', 'close without feed', ok, [], '', 0, {}, '', {}, "p = GopherHTMLParser()\np.close()\nOUT = p.parsed\n")
    yield Case('calls', 'not closed', ok, [t('C')], '', 0, {}, '', {}, "p = GopherHTMLParser()\np.feed(DOC)\nOUT = p.parsed\n")
    yield Case('calls', 'reset before use', ok, [t('C')], '', 0, {}, '', {}, "p = GopherHTMLParser()\np.reset()\np.feed(DOC)\np.close()\nOUT = p.parsed\n")
    from .c05 import EQUIV, XEQUIV
    for sel, cls, sett, _ in EQUIV:
        tag = sel.split()[-1]
        for cn in CONTENT:
            if deep or cn in ('empty', 'blank', 'word', 'breaks'):
                d = one(tag, *CONTENT[cn]())
                yield Case('settings', '%s(%s) %s' % (cls, sett, cn), ok, el('ol', d) if sel == 'ol > li' else d, WCTOR[''] + ', renderers=R', 0, dict(WIDTH=WIDTH()), "R = {'%s': (%s, dict(%s))}\n" % (sel, cls, sett))
    for sel, cls, sett, _ in XEQUIV:
        for c in ('image footer', 'after block', 'gophermap all'):
            for an, at in ATTRS.items():
                if an in ('none', 'title empty', 'alt empty', 'href without value', 'src without value'):
                    yield Case('settings', '%s(%s) %s %s' % (cls, sett, an, c), ok, el('p', one(sel, attrs=at)), CONFIGS[c] + ', extracted_link_renderers=R', 0, {}, "R = {'%s': (%s, dict(%s))}\n" % (sel, cls, sett))


def deep_chains(deep):
    b = ['blockquote', 'ul', 'ol', 'li', 'p', 'div', 'dl', 'dd', 'pre', 'a', 'em', 'h1', 'x-y', 'code']
    out = [('ul', 'li') * 6, ('blockquote', 'p') * 5, ('em',) * 8, ('ol', 'li', 'blockquote', 'pre', 'code'), ('dl', 'dd', 'ul', 'li', 'a', 'strong'),
           ('li',) * 6, ('a',) * 5, ('p', 'a', 'ul', 'li', 'p', 'a'), ('pre',) * 5, ('h1', 'h2', 'h3', 'h4')]
    if deep:
        out += list(itertools.product(b, repeat=3))
    return out
