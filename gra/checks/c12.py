"""C12: numbering and listing of links and images."""
import re
from ..docs import *

TITLE = 'Every placed link is numbered, referenced once and listed once'
EXPLAIN = ('Abstract interpretation of documents with links and images in every kind of element under every combination of placements; the '
           'sequence of words, references, numbers and list entries of the rendering is compared with that of an independent model of the '
           'document (numbers in document order, lists at the end of the page or of the containing element).')
MIN_CASES = 60

TPL = dict(
    TA={'reference': '«{content}#{link_reference}»', 'inline': ['‹{content}|{href}›', '‹{content}|{href}|{title}›']},
    TI={'reference': '«{title}#{link_reference}»', 'inline': '‹{title}|{href}›'},
    TX=['\n⟪{link_reference}|{href}⟫', '\n⟪{link_reference}|{href}|{title}⟫'],
    TY=['\n⟪{link_reference}|{href}⟫', '\n⟪{link_reference}|{href}⟫'])
CUSTOM_SRC = ("R = {'a': (LinkRenderer, dict(templates=TA)), 'img': (ImageRenderer, dict(templates=TI))}\n"
              "X = {'a': (ExtractedLinkRenderer, dict(templates=TX, gophermap_template='\\n⟪{link_reference}|{selector}⟫')),"
              " 'img': (ExtractedImageLinkRenderer, dict(templates=TY, gophermap_template='\\n⟪{link_reference}|{selector}⟫'))}\n")


class Doc:
    """spec: nested tuples ('tag', kid...); '.' a word, ' ' blank; a / A (with title) / a? (no href) / img / i- (no alt);
    a trailing '!' leaves the element unclosed."""

    def __init__(self, spec):
        self.n = self.w = 0
        self.root = [self.node(s) for s in spec]

    def node(self, s):
        if s in ('.', ' '):
            if s == ' ':
                return ('blank',)
            self.w += 1
            return ('word', 'w%d' % self.w)
        if isinstance(s, str):
            s = (s,)
        tag = s[0]
        open_ = tag.endswith('!')
        tag = tag.rstrip('!')
        if tag in ('a', 'A', 'a?', 'img', 'i-', 'a=', 'img='):
            self.n += 1
            n = self.n if not tag.endswith('=') else 0
            me = dict(kind='img' if tag[0] == 'i' else 'a', n=n, title='t%d' % n if tag == 'A' else None,
                      href=None if tag == 'a?' else 'h%d' % n, alt=None if tag == 'i-' else 'k%d' % n, open=open_)
            me['kids'] = [self.node(x) for x in s[1:]]
            return ('link', me)
        return ('el', tag, [self.node(x) for x in s[1:]], open_)

    def toks(self):
        out_ = []
        for x in self.root:
            self._toks(x, out_)
        return out_

    def _toks(self, x, o):
        if x[0] == 'word':
            o.append(T(W(x[1])))
        elif x[0] == 'blank':
            o.append(T(Const(' ')))
        elif x[0] == 'el':
            o.append(S(x[1]))
            for k in x[2]:
                self._toks(k, o)
            if not x[3] and x[1] != 'br':
                o.append(E(x[1]))
        else:
            m = x[1]
            href = Const('/%s.txt' % m['href']) if m['href'] else None
            if m['kind'] == 'a':
                at = ([('href', href)] if href is not None else []) + ([('title', W(m['title']))] if m['title'] else [])
                o.append(S('a', *at))
                for k in m['kids']:
                    self._toks(k, o)
                if not m['open']:
                    o.append(E('a'))
            else:
                o.append(S('img', ('src', href), *([('alt', Const(m['alt']))] if m['alt'] else [])))

    def model(self, place):
        """expected sequence; place: kind -> placement"""
        self.num, self.footer = {}, []
        order = []

        def scan(x):
            if x[0] == 'link':
                order.append(x[1])
                for k in x[1]['kids']:
                    scan(k)
            elif x[0] == 'el':
                for k in x[2]:
                    scan(k)
        for x in self.root:
            scan(x)
        n = 0
        for m in order:
            if place[m['kind']] != 'inline':
                n += 1
                self.num[id(m)] = n
        seq = []
        for x in self.root:
            seq += self._seq(x, place, None)
        pend = [m for m in order if place[m['kind']] == 'footer' or (place[m['kind']] == 'after_block' and any(x[0] == 'link' and x[1] is m for x in self.root))]
        for m in pend:
            seq.append(self.entry(m))
        return seq

    def entry(self, m):
        return 'entry %d %s%s' % (self.num[id(m)], '/%s.txt' % m['href'] if m['href'] else '', '|⟨%s⟩' % m['title'] if m['title'] else '')

    def _seq(self, x, place, parent):
        if x[0] == 'word':
            return [x[1]]
        if x[0] == 'blank':
            return []
        if x[0] == 'el':
            r = []
            for k in x[2]:
                r += self._seq(k, place, x)
            return r + self.pending(x[2], place)
        m = x[1]
        if m['kind'] == 'img':
            txt = [m['alt'] or 'Image']
        else:
            txt = []
            for k in m['kids']:
                txt += self._seq(k, place, x)
            txt += self.pending(m['kids'], place)
        if place[m['kind']] == 'inline':
            return ['(inline'] + txt + ['inline %s%s)' % ('/%s.txt' % m['href'] if m['href'] else '', '|⟨%s⟩' % m['title'] if m['title'] else '')]
        return ['(ref'] + txt + ['ref %d)' % self.num[id(m)]]

    def pending(self, kids, place):
        return [self.entry(k[1]) for k in kids if k[0] == 'link' and place[k[1]['kind']] == 'after_block']


TOK = re.compile(r'«|#(\d+)»|‹|\|([^‹›«»⟪⟫\n]*)›|⟪(\d+)\|([^⟫]*)⟫|⟨(w\d+)⟩|\b(k\d+)\b|(Image)')


def observed(s):
    r = []
    for m in TOK.finditer(s):
        g = m.group(0)
        if g == '«':
            r.append('(ref')
        elif g == '‹':
            r.append('(inline')
        elif m.group(1):
            r.append('ref %s)' % m.group(1))
        elif g.endswith('›'):
            r.append('inline %s)' % m.group(2))
        elif m.group(3):
            r.append('entry %s %s' % (m.group(3), m.group(4)))
        else:
            r.append(m.group(5) or m.group(6) or m.group(7))
    return r


PL = ('footer', 'inline', 'after_block')


def one(h, spec, fmt, la, li):
    d = Doc(spec)
    want = d.model({'a': la, 'img': li})
    ctor = "optimise=False, width=200, renderers=R, extracted_link_renderers=X, link_placement='%s', image_placement='%s'" % (la, li)
    if fmt == 'gophermap':
        ctor += ", output_format='gophermap', gopher_host='host'"
        want = [re.sub(r'\|⟨t\d+⟩$', '', x) if x.startswith('entry') else x for x in want]
    for o in render(h, d.toks(), ctor, 0, env=TPL, pre=CUSTOM_SRC):
        got = observed(skel(out(o)))
        if got != want:
            yield 'with links %s and images %s the words, references and entries are\n  %s\nexpected\n  %s' % (la, li, ' '.join(got), ' '.join(want))


def default_list(h, kind, n, titled):
    """The default list: a blank line, then one entry per line."""
    d, want, refs = [S('p'), T(W('w'))], [], []
    for i in range(1, n + 1):
        t_ = W('T%d' % i) if titled else None
        if kind == 'a':
            d += [T(Const(' '))] + A(Const('/h%d.txt' % i), T(Const('k%d' % i)), title=t_)
        else:
            d += [T(Const(' '))] + IMG(Const('/h%d.gif' % i), Const('k%d' % i))
        refs.append('[k%d][%d]' % (i, i))
        want += ['[%d] k%d: /h%d.%s%s' % (i, i, i, 'txt' if kind == 'a' else 'gif', ' "⟨T%d⟩"' % i if titled else '')]
    d += [E('p')]
    for o in render(h, d, "optimise=False, width=200, image_placement='footer'", 0):
        s = [l.rstrip() for l in skel(out(o)).split('\n')]
        txt = [l for l in s if '⟨w⟩' in l]
        if len(txt) != 1 or txt[0].split() != ['⟨w⟩'] + refs:
            yield 'the text shows %s instead of the references %s' % (txt, refs)
            continue
        tail = s[s.index(txt[0]) + 1:]
        if tail[0]:
            yield 'no blank line between the text and the list:\n%s' % '\n'.join(s)
        tail = [l for l in tail if l]
        if tail != want:
            yield 'the list is\n%s\nexpected\n%s' % ('\n'.join(tail), '\n'.join(want))


def inline_default(h, kind, title):
    href = Const('/h.txt')
    if kind == 'a':
        d = el('p', T(W('w')), A(href, T(W('c')), title=title))
        want = {None: '⟨w⟩[⟨c⟩](/h.txt)', '': '⟨w⟩[⟨c⟩](/h.txt)'}.get(title.v if isinstance(title, Const) else title if title is None else 0, '⟨w⟩[⟨c⟩](/h.txt "⟨T⟩")')
    else:
        d = el('p', T(W('w')), [S('img', ('src', href), *([('alt', title)] if title is not None else []))])
        want = '⟨w⟩![%s](/h.txt)' % ('⟨T⟩' if isinstance(title, Sym) else 'Image')
    for o in render(h, d, "optimise=False, width=200, link_placement='inline'", 0):
        got = ''.join(skel(out(o)).split())
        if got != want.replace(' ', ''):
            yield 'an inline %s renders as %s instead of %s' % (kind, skel(out(o)).strip(), want)


SPECS = {
    'three in a paragraph': (('p', '.', ('a', '.'), '.', ('A', '.'), ('a', '.')),),
    'images in a paragraph': (('p', '.', 'img', '.', 'i-', 'img'),),
    'mixed in a paragraph': (('p', ('a', '.'), 'img', ('A', '.'), '.', 'i-', ('a', '.')),),
    'over blocks': (('p', ('a', '.')), ('ul', ('li', '.', ('a', '.')), ('li', 'img')), ('h2', ('a', '.')), ('p', '.', 'img')),
    'quotes and lists': (('blockquote', ('p', '.', ('a', '.')), ('p', 'img')), ('ol', ('li', ('a', '.')), ('li', ('ul', ('li', ('a', '.'), 'img')))), ('p', ('a', '.'))),
    'pre, dl, div': (('pre', ('a', '.'), 'img'), ('dl', ('dt', ('a', '.')), ('dd', ('a', '.'), '.')), ('div', ('p', 'img'), ('a', '.'))),
    'outside any element': (('a', '.'), '.', 'img', ('p', '.', ('a', '.')), ('a', '.')),
    'only outside': (('a', '.'), ('A', '.'), 'img', 'i-'),
    'in inline elements': (('p', ('em', '.', ('a', '.'), ('strong', 'img', ('a', '.'))), ('code', ('a', '.')), ('span', 'img')),),
    'image in link': (('p', '.', ('a', 'img'), ('A', '.', 'img', '.', 'i-'), '.'), ('a', 'img')),
    'formatted link': (('p', ('a', ('em', '.'), '.', ('strong', '.', 'img'))),),
    'link in link': (('p', ('a', '.', ('a', '.'), '.'), ('a', '.')),),
    'without target': (('p', ('a?', '.'), ('a', '.'), ('a?',), '.'),),
    'identical': (('p', ('a=', '.'), '.', ('a=', '.'), 'img=', 'img='),),
    'unclosed link': (('p', '.'), ('a!', '.', ('p', ('a', '.'), 'img'))),
    'unclosed paragraph': (('p', ('a', '.')), ('p!', '.', ('a', '.'), 'img')),
    'many': (('p',) + (('a', '.'), 'img') * 6,),
    'image first': ('img', ('p', ('a', '.')), ('h1', 'img'), ('h3', ('a', '.'))),
    'deep': (('div', ('div', ('ul', ('li', ('p', '.', ('a', '.')), ('blockquote', 'img', ('p', ('a', '.')))))), ('a', '.')), ('p', ('a', '.'))),
    'custom elements': (('article', ('x', '.', ('a', '.')), 'img'), ('a', '.')),
    'unnumbered only': (('p', '.'),),
}


def cases(h, tier):
    for nm, sp in SPECS.items():
        for la in PL:
            for li in PL:
                yield Case('sequence', '%s, links %s, images %s' % (nm, la, li), one, sp, 'text', la, li)
                if la != 'inline' and (tier != 'quick' or la == li or nm == 'mixed in a paragraph'):
                    yield Case('sequence-gophermap', '%s, links %s, images %s' % (nm, la, li), one, sp, 'gophermap', la, li)
    for k in ('a', 'img'):
        for n in (1, 2, 3, 11):
            for t_ in (False, True):
                if not (k == 'img' and t_):
                    yield Case('default-list', '%d %s%s' % (n, k, ' with titles' if t_ else ''), default_list, k, n, t_)
        for nm, t_ in (('no title', None), ('empty title', Const('')), ('title', W('T'))):
            yield Case('default-inline', '%s %s' % (k, nm), inline_default, k, t_)
