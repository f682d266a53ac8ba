"""C13: gophermap link items are well-formed lines."""
from ..docs import *
from .. import strs

TITLE = 'Gophermap links are single, well-formed lines'
EXPLAIN = ('Abstract interpretation of gophermap renderings whose link texts, titles, image descriptions and targets may contain any '
           'characters: every listed link must be one line, starting at the first column, of four fields separated by exactly three tabs; '
           'no field may contain a tab or line break, no other line a tab; descriptions are the title or the (shortened) text.')
MIN_CASES = 60

ANY = lambda n: Sym(n, 'str', (FLAG_DOC,))
BR = '\t\n\r'
TA = dict(TA={'reference': '@{link_reference}', 'inline': ['@', '@']}, TI={'reference': '@{link_reference}', 'inline': '@'})
REFS = "R = {'a': (LinkRenderer, dict(templates=TA)), 'img': (ImageRenderer, dict(templates=TI))}\n"
GM = "optimise=%s, output_format='gophermap', gopher_host=HOST, gopher_port=PORT, renderers=R"
ENV = lambda: dict(TA, HOST=Sym('HOST', 'str', (FLAG_NONEMPTY, FLAG_WORD)), PORT=sym('PORT', 'int', FLAG_NONNEG))


def split_lines(v):
    """Lines of the output as part lists; an atom that may break a line is a violation."""
    ls, cur = [], []
    for p in parts_of(v):
        if isinstance(p, str):
            bits = p.split('\n')
            cur.append(bits[0])
            for b in bits[1:]:
                ls.append(cur)
                cur = [b]
        else:
            cur.append(p)
    ls.append(cur)
    return [[p for p in l if p != ''] for l in ls]


def check_lines(v, nlinks):
    items = 0
    for l in split_lines(v):
        tabs = sum(p.count('\t') for p in l if isinstance(p, str))
        line = mkstr(l)
        raw = [p for p in l if not isinstance(p, str) and not strs.atom_lacks(p, '\t')]
        brk = [p for p in l if not isinstance(p, str) and not strs.atom_lacks(p, '\n\r')]
        cr = [p for p in l if isinstance(p, str) and '\r' in p]
        if tabs == 0:
            if raw:
                yield 'text that may contain a tab in a line that is not a link: %s' % show(line)[:300]
            continue
        items += 1
        if tabs != 3:
            yield 'a link line with %d tabs: %s' % (tabs, show(line)[:300])
        for p in raw:
            yield 'a field may contain a tab (%s): %s' % (show(p)[:100], show(line)[:300])
        for p in brk or cr:
            yield 'a field may contain a line break (%s): %s' % (show(p)[:100] if not isinstance(p, str) else repr(p), show(line)[:300])
        if not (l and isinstance(l[0], str) and l[0][:1] in '019hgI' and l[0][1:2] == '['):
            yield 'a link line does not start with its item type: %s' % show(line)[:300]
    if items != nlinks:
        yield '%d link lines instead of %d:\n%s' % (items, nlinks, '\n'.join(show(mkstr(l)) for l in split_lines(v))[:900])


def one(h, d, ctor, pre, nlinks, key=None, opts=None):
    seen = set()
    for o in render(h, d, ctor, 0, env=ENV(), pre=pre, opts=dict(opts or {})):
        for m in check_lines(out(o), nlinks):
            if m not in seen:
                seen.add(m)
                yield (key, m) if key else m


def no_tabs(h, d, key):
    for o in render(h, d, GM % 'False', None, env=ENV(), pre=REFS):
        for p in parts_of(out(o)):
            if ('\t' in p) if isinstance(p, str) else not strs.atom_lacks(p, '\t'):
                yield key, 'a line that is not a link may contain a tab: %s' % (repr(p) if isinstance(p, str) else show(p)[:300])
                break


LINKS = {
    'any text': (lambda: A('/x.txt', T(ANY('C'))), 1),
    'any title': (lambda: A('/x.txt', T(Const('k')), title=ANY('T')), 1),
    'any text and title': (lambda: A('/x.txt', T(ANY('C')), title=ANY('T')), 1),
    'any relative target': (lambda: A(mkstr(['/', Sym('X', 'str', (FLAG_DOC, 'lack:/.?#:@[];')), '.txt']), T(Const('k'))), 1),
    'any web target': (lambda: A(mkstr(['http://h/', ANY('X')]), T(Const('k'))), 1),
    'any mail target': (lambda: A(mkstr(['mailto:', ANY('X')]), T(Const('k'))), 1),
    'any gopher target': (lambda: A(mkstr(['gopher://h:71/', Sym('X', 'str', (FLAG_DOC, 'lack:/.?#:@[];')), '.gif']), T(Const('k'))), 1),
    'any gopher host': (lambda: A(mkstr(['gopher://', Sym('X', 'str', (FLAG_DOC, 'lack:/.?#:@[];')), '/a.txt']), T(Const('k'))), 1),
    'broken target': (lambda: A(mkstr(['http://[', ANY('X')]), T(Const('k'))), 1),
    'formatted text': (lambda: A('/x.txt', el('em', T(ANY('C'))), S('br'), el('code', T(ANY('D')))), 1),
    'blocks in a link': (lambda: A('/x.txt', el('p', t('C', 'D')), el('ul', el('li', t('E')), el('li', t('F')))), 1),
    'pre in a link': (lambda: A('/x.txt', el('pre', T(ANY('C')))), 1),
    'no text': (lambda: A('/x.txt'), 1),
    'no target': (lambda: [S('a'), T(Const('k')), E('a')], 1),
    'image': (lambda: IMG('/i.gif', ANY('C')), 1),
    'image with any target': (lambda: IMG(mkstr(['http://h/', ANY('X')]), Const('k')), 1),
    'image without description': (lambda: IMG('/i.gif'), 1),
    'image in a link': (lambda: A('/x.txt', IMG('/i.gif', ANY('C')), title=ANY('T')), 2),
    'two links': (lambda: A('/x.txt', T(ANY('C'))) + A('/y', T(Const('k')), title=ANY('T')), 2),
}
XS = ["margin=[0, 0, 0, 3]", "padding=[0, 0, 0, 2]", "border=['', '', '', '|']", "border=['-', '|', '-', '|'], padding=[0, 1, 0, 1], margin=[0, 0, 0, 1]",
      "max_link_description=3", "max_link_description=300"]
TEXTS = BLOCKS + HEADERS + INLINES + OTHER
AB_BLOCKS = ['p', 'div', 'blockquote', 'pre', 'li', 'ul', 'dl', 'dt', 'dd', 'h1', 'h3', 'em', 'span', 'article']


def desc(h, kind, content, title, want, sett=''):
    """What a description shows."""
    d = el('p', T(W('w')), A('/x.txt', *([T(content)] if content is not None else []), title=title) if kind == 'a' else IMG('/x.txt', content))
    got = set()
    x = "X = {'a': (ExtractedLinkRenderer, dict(%s)), 'img': (ExtractedImageLinkRenderer, dict(%s))}\n" % (sett, sett)
    for o in render(h, d, (GM % 'False') + ", image_placement='footer', extracted_link_renderers=X", 0, env=ENV(), pre=REFS + x):
        l = [x for x in split_lines(out(o)) if any(isinstance(p, str) and '\t' in p for p in x)]
        expect(len(l) == 1, '%d items' % len(l))
        f = lines(mkstr(l[0]), '\t')
        got.add(skel(f[0]))
    got = {x.replace(':part⟩\t', '⟩\t').replace(':part⟩#', '⟩#') for x in (g + '#' for g in got)}
    w = {'0[1] ' + x + '#' for x in want}
    if got != w:
        yield 'the description is %s instead of %s' % (' or '.join(sorted(got)), ' or '.join(sorted(w)))


def cases(h, tier):
    base = REFS
    boxes = {'': '', ' left margin': ', box=Box(width=60, margin=[1, 2, 1, 4])'}
    for nm, (f, n) in LINKS.items():
        for bn, b in boxes.items():
            for opt in ('False', 'True') if tier != 'quick' or nm in ('any text', 'any title') else ('False',):
                yield Case('items', '%s%s%s' % (nm, bn, ' optimised' if opt == 'True' else ''), one, el('p', T(W('w')), f()), (GM % opt) + ", image_placement='footer'" + b, base, n)
        yield Case('items', nm + ' at the root', one, f() + [T(W('w'))], (GM % 'False') + ", image_placement='footer'", base, n)
    for s in XS:
        for bn, b in boxes.items():
            for nm in ('any text', 'any title', 'image', 'two links'):
                f, n = LINKS[nm]
                yield Case('items-with-settings', '%s %s%s' % (nm, s, bn), one, el('p', T(W('w')), f()),
                           (GM % 'False') + ", image_placement='footer', extracted_link_renderers=X" + b,
                           base + "X = {'a': (ExtractedLinkRenderer, dict(%s)), 'img': (ExtractedImageLinkRenderer, dict(%s))}\n" % (s, s), n)
    for tag in TEXTS:
        yield Case('text-lines', tag, no_tabs, [S(tag), T(ANY('C')), E(tag)], tag)
        if tier != 'quick' or tag in ('div', 'li', 'em', 'pre'):
            for t2 in ('p', 'pre', 'code', 'h2'):
                yield Case('text-lines', '%s in %s' % (t2, tag), no_tabs, [S(tag), T(ANY('B') if tag != 'li' else W('b')), S(t2), T(ANY('C')), E(t2), T(ANY('D') if tag != 'li' else W('d')), E(tag)], t2)
    yield Case('text-lines', 'outside any element', no_tabs, [T(ANY('C'))], 'root')
    for tag in AB_BLOCKS:
        yield Case('after-block', tag, one, el(tag, T(W('w')), A('/x.txt', T(Const('k')))), (GM % 'False') + ", link_placement='after_block'", base, 1, tag)
    for pl in ('footer', 'after_block'):
        yield Case('after-block', 'root %s' % pl, one, A('/x.txt', T(Const('k'))) + el('p', T(W('w'))), (GM % 'False') + ", link_placement='%s', box=Box(width=60, margin=[0, 0, 0, 3])" % pl, base, 1, 'root')
    w = W('C')
    yield Case('description', 'text', desc, 'a', w, None, ['⟨C⟩', '⟨C:part⟩...'])
    yield Case('description', 'short text', desc, 'a', Const('abcdefghij'), None, ['abcdefghij'])
    yield Case('description', 'long text', desc, 'a', Const('abcdefghijk'), None, ['abcdefghij...'])
    yield Case('description', 'title', desc, 'a', w, W('T'), ['⟨T⟩'])
    yield Case('description', 'long title', desc, 'a', w, Const('a title of more than ten characters'), ['a title of more than ten characters'])
    yield Case('description', 'image', desc, 'img', w, None, ['⟨C⟩', '⟨C:part⟩...'])
    yield Case('description', 'long image description', desc, 'img', Const('abcdefghijk'), None, ['abcdefghij...'])
    yield Case('description', 'image without description', desc, 'img', None, None, ['Image'])
    # every length about the limit
    for k in ('a', 'img'):
        for m in (10, 3, 0, 1) if tier == 'quick' else range(13):
            for n in sorted({1, m - 1, m, m + 1, m + 3, 2 * m}):
                if n > 0:
                    text = 'abcdefghijklmnopqrstuvwxyz'[:n]
                    yield Case('description', '%s of %d characters, at most %d' % (k, n, m), desc, k, Const(text), None, [text[:m] + ('...' if n > m else '')], 'max_link_description=%d' % m if m != 10 else '')
    for n in (9, 10, 11, 30):
        title = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefgh'[:n]
        yield Case('description', 'title of %d characters' % n, desc, 'a', Const('text of more than ten'), Const(title), [title])
