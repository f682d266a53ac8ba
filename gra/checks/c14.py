"""C14: the gopher item a link becomes."""
from ..docs import *

TITLE = 'Link targets become the right gopher items'
EXPLAIN = ('Abstract interpretation of gophermap renderings of one link or image whose target has a given shape (scheme, host, port, '
           'directories, extension) with symbolic names: type, selector, host and port of the listed item must be those the shape calls for.')
MIN_CASES = 100

URLCH = '/.?#:@[]&;%\\!$,=+~ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def N(n):
    """an arbitrary name without characters that are special in URLs"""
    return Sym(n, 'str', (FLAG_DOC, FLAG_WORD, 'lack:' + URLCH))


def M(*p):
    return mkstr(list(p))


EXT = {'': 1, 'html': 'h', 'htm': 'h', 'gif': 'g', 'jpg': 'I', 'jpeg': 'I', 'png': 'I', 'bmp': 'I', 'tiff': 'I', 'txt': 0, 'csv': 0, 'tsv': 0, 'md': 0,
       'zip': 9, 'exe': 9, 'gz': 9, 'pdf': 9, 'mp3': 9, 'xhtml': 9, 'tx': 9, 'p': 9}
PATHS = {
    'file': lambda e: M(N('A'), *(['.', e] if e else [])),
    'absolute': lambda e: M('/', N('A'), *(['.', e] if e else [])),
    'in directories': lambda e: M('/', N('D'), '/', N('E'), '/', N('A'), *(['.', e] if e else [])),
    'dotted directory': lambda e: M('/', N('D'), '.', N('E'), '/', N('A'), *(['.', e] if e else [])),
    'parent directory': lambda e: M('../', N('A'), *(['.', e] if e else [])),
    'here': lambda e: M('./', N('D'), '/', N('A'), *(['.', e] if e else [])),
    'two extensions': lambda e: M('/', N('A'), '.', N('B'), *(['.', e] if e else ['.zip'])),
}
DIRS = {'directory': M('/', N('D'), '/'), 'root': M('/'), 'dotted directory': M('/', N('D'), '.', N('E'), '/'), 'nested directory': M(N('D'), '/', N('E'), '/'),
        'parent': M('../'), 'bare parent': M('..'), 'empty': Const('')}
WEB = {'http': M('http://', N('H'), '/', N('A'), '.txt'), 'https': M('https://', N('H'), '.', N('I'), '/'), 'http host': M('http://', N('H')),
       'http query': M('http://', N('H'), '/', N('A'), '?', N('Q'), '=', N('R'), '#', N('F')), 'http port': M('http://', N('H'), ':8080/', N('A'), '.gif'),
       'https anything': M('https://', Sym('X', 'str', (FLAG_DOC, FLAG_WORD, 'lack:[]'))), 'HTTP': M('HTTP://', N('H'), '/'), 'Https': M('Https://', N('H'), '/', N('A'), '.md')}
OTHER_S = {'mailto': M('mailto:', N('A'), '@', N('H'), '.', N('I')), 'ftp': M('ftp://', N('H'), '/', N('A'), '.txt'), 'telnet': M('telnet://', N('H')),
           'tel': M('tel:', N('A')), 'news': M('news:', N('A')), 'gemini': M('gemini://', N('H'), '/', N('A'), '.gif'), 'gophers': M('gophers://', N('H'), '/', N('A')),
           'javascript': M('javascript:', N('A')), 'httpx': M('httpx://', N('H'), '/', N('A'), '.txt')}
BAD = {'open bracket': 'http://[x/a.txt', 'close bracket': 'http://x]/a.txt', 'gopher bracket': 'gopher://[x/a.txt', 'gopher port': 'gopher://h:port/a.txt',
       'gopher big port': 'gopher://h:99999/a.txt', 'gopher negative port': 'gopher://h:-1/a', 'bracket': '//[x/a.txt', 'http port': 'http://h:x/'}


# extensions that only look like the known ones
NEAR = sorted({f(e) for e in EXT if e for f in (lambda e: e + 'x', lambda e: 'x' + e, lambda e: e[:-1], lambda e: e[1:], str.upper, str.capitalize, lambda e: e + 'l', lambda e: e[0] + 'x' + e[1:],
                                          lambda e: e + e, lambda e: e[::-1], lambda e: e + '~', lambda e: e + '2', lambda e: e[:2])} - set(EXT) - {''})


def item(v, tag):
    """The fields of the one listed item."""
    found = []
    for l in lines(v):
        bits = [p for p in parts_of(l)]
        if any(isinstance(p, str) and '\t' in p for p in bits):
            found.append(l)
    if len(found) != 1:
        raise Fail('%d lines with tabs instead of one item:\n%s' % (len(found), '\n'.join(map(show, lines(v)))))
    f = lines(found[0], '\t')
    if len(f) != 4:
        raise Fail('the item has %d fields: %s' % (len(f), show(found[0])))
    return f


def one(h, href, want, tag, host, port):
    """want: (type, selector, host or None, port or None)"""
    env = dict(HOST=sym('HOST', 'str', FLAG_NONEMPTY, FLAG_WORD), PORT=sym('PORT', 'int', FLAG_NONNEG))
    at = [('href', href)] if tag == 'a' else [('src', href)]
    d = el('p', T(W('w')), [S(tag, *at)] + ([T(Const('k')), E('a')] if tag == 'a' else []))
    ctor = "optimise=False, output_format='gophermap', gopher_host=HOST, gopher_port=PORT, image_placement='footer'"
    for o in render(h, d, ctor, 0, env=env, opts=dict(url_errors=True)):
        f = item(out(o), tag)
        name = 'k' if tag == 'a' else 'Image'
        first = mkstr([str(want[0]), '[1] ', name])
        exp = [first, want[1], env['HOST'] if want[2] is None else want[2], mkstr([Fn('int->str', (env['PORT'],), 'str')]) if want[3] is None else want[3]]
        for nm, a, b in zip(('type and description', 'selector', 'host', 'port'), f, exp):
            if a != b:
                yield 'the %s of <%s %s> %s instead of %s' % (nm, tag, show(href), 'is ' + show(a), show(b))


def cases(h, tier):
    for tag in ('a', 'img'):
        def c(rule, nm, href, want):
            return Case(rule, '%s %s' % (tag, nm), one, href, want, tag, None, None)
        for e, ty in EXT.items():
            for pn, pf in PATHS.items():
                if tier == 'quick' and tag == 'img' and pn not in ('absolute', 'parent directory'):
                    continue
                want = 9 if pn == 'two extensions' and not e else ty
                path = pf(e)
                yield c('relative', '%s .%s' % (pn, e), path, (want, path, None, None))
                if pn in ('absolute', 'in directories', 'dotted directory', 'two extensions'):
                    yield c('gopher-url', '%s .%s' % (pn, e), mkstr(['gopher://', N('H')] + list(parts_of(path))), (want, path, N('H'), Const('70')))
        for e in NEAR:
            path = M('/', N('A'), '.', e)
            yield c('relative', 'near .' + e, path, (9, path, None, None))
            if tier != 'quick':
                yield c('gopher-url', 'near .' + e, mkstr(['gopher://', N('H')] + list(parts_of(path))), (9, path, N('H'), Const('70')))
        for e in EXT:
            if e:
                path = M('/', N('D'), '.', e, '/', N('A'))
                yield c('relative', 'directory named .' + e, path, (1, path, None, None))
                path = M('/', e)
                yield c('relative', 'file named ' + e, path, (1, path, None, None))
                path = M('/', N('A'), '.', e, '.', N('B'), '.zip')
                yield c('relative', 'inner .' + e, path, (9, path, None, None))
        for nm, p in DIRS.items():
            yield c('relative', nm, p, (1, p, None, None))
            if nm in ('directory', 'root', 'dotted directory', 'empty'):
                yield c('gopher-url', nm, mkstr(['gopher://', N('H'), '.', N('I')] + list(parts_of(p))), (1, p, M(N('H'), '.', N('I')), Const('70')))
        for e, ty in (('txt', 0), ('html', 'h'), ('', 1), ('xyz', 9)):
            path = M('/', N('D'), '/', N('A'), '.' + e if e else '')
            for qn, q in (('fragment', ['#', N('Q')]), ('query', ['?', N('Q'), '=', N('V')]), ('query and fragment', ['?', N('Q'), '.gif#', N('V'), '.htm']), ('empty fragment', ['#']), ('empty query', ['?'])):
                yield c('relative', '.%s and %s' % (e, qn), mkstr(list(parts_of(path)) + q), (ty, path, None, None))
                yield c('gopher-url', '.%s and %s' % (e, qn), mkstr(['gopher://', N('H')] + list(parts_of(path)) + q), (ty, path, N('H'), Const('70')))
        yield c('relative', 'network path', M('//', N('H'), '/', N('A'), '.txt'), (0, M('/', N('A'), '.txt'), None, None))
        for nm, u in list(WEB.items()) + list(OTHER_S.items()):
            yield c('url-item', nm, u, ('h', mkstr(['URL:'] + list(parts_of(u))), None, None))
        for nm, u in BAD.items():
            yield c('malformed', nm, Const(u), ('h', Const('URL:' + u), None, None) if nm != 'bad' else None)
        pn_ = sym('P', 'int', FLAG_NONNEG)
        for pt, wp in (('7070', Const('7070')), ('0', Const('0')), ('', Const('70')), ('70', Const('70'))):
            yield c('gopher-port', pt or 'empty', M('gopher://', N('H'), ':' + pt, '/', N('A'), '.txt'), (0, M('/', N('A'), '.txt'), N('H'), wp))
        yield c('gopher-port', 'no host', M('gopher:///', N('A'), '.txt'), (0, M('/', N('A'), '.txt'), None, Const('70')))
        yield c('gopher-port', 'port without host', M('gopher://:7070/', N('A'), '.txt'), (0, M('/', N('A'), '.txt'), None, Const('7070')))
        yield c('gopher-port', 'user', M('gopher://', N('U'), '@', N('H'), ':71/', N('A'), '.gif'), ('g', M('/', N('A'), '.gif'), N('H'), Const('71')))
