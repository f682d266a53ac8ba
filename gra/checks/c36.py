"""C36: vertical margins."""
import itertools

from ..docs import *

TITLE = 'Vertical margins and padding separate blocks'
EXPLAIN = ('Abstract interpretation of sequences and nestings of blocks with symbolic texts and vertical margins and padding of any combination: the number of line breaks '
           'between the texts must be the sum the check computes from them.')
MIN_CASES = 200

CLS = {'p': 'ParagraphRenderer', 'li': 'ListItemRenderer', 'dd': 'DefinitionListItemRenderer', 'blockquote': 'BlockQuoteRenderer', 'pre': 'PreRenderer', 'div': 'BlockRenderer',
       'ul': 'ListRenderer', 'ol': 'ListRenderer', 'dl': 'DefinitionListRenderer', 'h2': 'MarkdownHeaderRenderer', 'dt': 'DefinitionListTermHeaderRenderer', 'section': 'BlockRenderer'}
DEFAULT = {'p': (1, 1), 'h1': (1, 1), 'h2': (1, 1), 'h6': (1, 1), 'pre': (1, 1), 'blockquote': (1, 1), 'ul': (1, 1), 'ol': (1, 1), 'dl': (1, 1), 'div': (0, 0), 'li': (1, 0), 'dt': (2, 0), 'dd': (1, 0)}


class B:
    def __init__(self, tag, *kids, m=None, p=(0, 0)):
        self.tag, self.kids, self.m, self.p = tag, kids, m, p


class Doc:
    def __init__(self, roots):
        self.n, self.rules, self.words, self.within = 0, [], [], []
        self.toks, self.want = [], ''
        for i, b in enumerate(roots):
            t, w = self.block(b, None, i, len(roots))
            self.toks += t
            self.want += w

    def block(self, b, parent, i, n):
        at = []
        if b.m is not None:
            k = 'k%d' % len(self.rules)
            cls = 'OrderedListItemRenderer' if b.tag == 'li' and parent.tag == 'ol' else CLS[b.tag]
            self.rules.append("'%s#%s': (%s, dict(margin=[%d, 0, %d, 0], padding=[%d, 0, %d, 0]))" % (b.tag, k, cls, b.m[0], b.m[1], b.p[0], b.p[1]))
            at = [('id', Const(k))]
            top, bottom = b.m
        elif b.tag not in DEFAULT:
            top = bottom = None
        else:
            top, bottom = DEFAULT[b.tag]
            if b.tag == 'p' and parent is not None and parent.tag == 'blockquote':
                top, bottom = 0 if i == 0 else top, 0 if i == n - 1 else bottom
            if b.tag in ('li', 'dt') and i == 0:
                top = 1 if b.tag == 'li' and self.within[-2:-1] == ['li'] else 0
        toks, inner = [], ''
        self.within.append(b.tag)
        kids = [x for x in b.kids]
        for j, k in enumerate(kids):
            if isinstance(k, B):
                t, w = self.block(k, b, j, len(kids))
            else:
                t, w = [], ''
                for q in range(k):
                    self.n += 1
                    nm = 'W%d' % self.n
                    self.words.append(nm)
                    t += ([S('br')] if q else []) + [T(W(nm))]
                    w += ('\n' if q else '') + '⟨%s⟩' % nm
            toks += t
            inner += w
        self.within.pop()
        toks = el(b.tag, *toks, attrs=at)
        if top is None:
            return toks, inner
        if b.tag in ('li', 'dd'):
            inner = '\n'.join(l for l in inner.split('\n') if l.strip())
        elif b.tag in ('blockquote', 'pre'):
            inner = '\n'.join(('>' if b.tag == 'blockquote' else ' ') + l for l in inner.splitlines())
        pad = (b.p if b.m is not None else (0, 0))
        ls = [' '] * pad[0] + [l + ' ' for l in inner.split('\n')] + [' '] * pad[1]
        return toks, '\n' * top + '\n'.join(ls) + '\n' * bottom




def separated(h, roots, ctor=''):
    d = Doc(roots())
    R = 'R = {%s}\n' % ', '.join(d.rules)
    want = skeleton(d.want)
    for o in render(h, d.toks, 'optimise=False, renderers=R' + ctor, 0, pre=R):
        names, got, n = set(d.words), [], 0
        for i, l in enumerate(lines(out(o))):
            n += 1 if i else 0
            for x in toks(l):
                for y in (walk(x) if isinstance(x, Term) else ()):
                    if isinstance(y, Sym) and y.name in names:
                        got.append((n, y.name))
                        n = 0
        got = (got, n)
        if got != want:
            yield 'line breaks and texts are %s instead of %s: %s' % (fmt(got), fmt(want), show(out(o))[:300])
            return


def skeleton(s):
    res, n, i = [], 0, 0
    while i < len(s):
        if s[i] == '\n':
            n += 1
        elif s[i] == '⟨':
            j = s.index('⟩', i)
            res.append((n, s[i + 1:j]))
            n, i = 0, j
        i += 1
    return res, n


def fmt(g):
    return ' '.join('%d %s' % x for x in g[0]) + ' %d' % g[1]


def cases(h, tier):
    deep = tier == 'thorough'
    flat = ['p', 'h1', 'h2', 'h6', 'pre', 'blockquote', 'div', 'ul', 'ol', 'dl', 'section']

    def simple(t, **k):
        if t in ('ul', 'ol'):
            return B(t, B('li', 1), B('li', 1), **k)
        if t == 'dl':
            return B(t, B('dt', 1), B('dd', 1), B('dt', 1), B('dd', 1), B('dd', 1), **k)
        if t == 'blockquote':
            return B(t, B('p', 1), B('p', 1), **k)
        return B(t, 1, **k)
    ctors = {'': '', 'gophermap': ", output_format='gophermap', gopher_host='h'"}

    def C(rule, name, f):
        for cn, c in ctors.items():
            if deep or not cn or rule == 'default' and cn == 'gophermap':
                yield Case(rule, name + (', ' + cn if cn else ''), separated, f, c)
    for a in flat:
        yield from C('default', a, lambda a=a: [simple(a)])
        for b in flat:
            yield from C('default', '%s, %s' % (a, b), lambda a=a, b=b: [simple(a), simple(b)])
            if a == 'div' or a == 'section':
                yield from C('default', '%s of %s' % (a, b), lambda a=a, b=b: [B('p', 1), B(a, simple(b), simple(b)), B(a, simple(b)), B('p', 1)])
                yield from C('default', '%s of text and %s' % (a, b), lambda a=a, b=b: [B('p', 1), B(a, 1, simple(b), 1), B('p', 1)])
            if a in ('ul', 'ol', 'dl', 'blockquote'):
                i = {'dl': 'dd', 'blockquote': 'blockquote'}.get(a, 'li')
                one = (lambda i: lambda *k: B(i, *k))(i)
                w = (lambda a: lambda *k: [B(a, *k)] if a != 'blockquote' else list(k))(a)
                yield from C('default', '%s in %s' % (b, i), lambda b=b, w=w, one=one: [B('p', 1)] + w(one(simple(b)), one(B('p', 1), simple(b)), *([one(simple(b), simple(b))] if b not in ('div', 'section') else [])) + [B('p', 1)])
    # margins of every combination, in sequence
    vals = [(0, 1), (1, 0), (1, 1), (2, 0), (0, 3), (3, 2), (0, 0)]
    for a in ('p', 'h2', 'pre', 'div', 'ul', 'blockquote', 'section', 'dl'):
        for m in vals:
            for pd in [(0, 0), (1, 0), (0, 1), (2, 3)]:
                if not deep and pd == (1, 0):
                    continue
                yield from C('margins', '%s %s, padding %s' % (a, m, pd), lambda a=a, m=m, pd=pd: [B('p', 1), simple(a, m=m, p=pd), B('h2', 1, m=(1, 1)), simple(a, m=m, p=pd)])
                if deep or pd in ((0, 0), (2, 3)):
                    for o in ('div', 'blockquote'):
                        yield from C('margins', '%s %s, padding %s in %s' % (a, m, pd, o), lambda a=a, m=m, pd=pd, o=o: [B('p', 1), B(o, simple(a, m=m, p=pd), B('p', 1, m=(1, 1)), simple(a, m=m, p=pd)), B('p', 1)])
                        yield from C('margins', '%s in %s %s, padding %s' % (a, o, m, pd), lambda a=a, m=m, pd=pd, o=o: [B('p', 1), B(o, B('p', 1, m=(1, 1)), simple(a), m=m, p=pd), B('p', 1)])
                    yield from C('margins', '%s %s, padding %s in li' % (a, m, pd), lambda a=a, m=m, pd=pd: [B('ul', B('li', simple(a, m=m, p=pd), B('p', 1, m=(1, 0))), B('li', B('p', 1), simple(a, m=(1, m[1]), p=pd)))])
    for i, l in (('li', 'ul'), ('li', 'ol'), ('dd', 'dl'), ('dt', 'dl')):
        for m in vals:
            for pd in [(0, 0), (0, 1), (2, 1)]:
                m1 = (max(1, m[0]), m[1])
                yield from C('margins', '%s %s in %s, padding %s' % (i, m, l, pd), lambda i=i, l=l, m=m, m1=m1, pd=pd: [B('p', 1), B(l, B(i, 1, m=m, p=pd), B(i, 1, m=m1, p=pd), B(i, 2 if i != 'dt' else 1, m=m1, p=pd)), B('p', 1)])
                if i != 'dt':
                    yield from C('margins', '%s %s in %s, padding %s, with blocks' % (i, m, l, pd), lambda i=i, l=l, m=m, m1=m1, pd=pd: [
                        B(l, B(i, B('p', 1), B('pre', 1), m=m, p=pd), B(i, 1, B('ul', B('li', 1), B('li', 1)), m=m1, p=pd)), B('p', 1)])
                    yield from C('margins', '%s %s in %s in li, padding %s' % (i, m, l, pd), lambda i=i, l=l, m=m, m1=m1, pd=pd: [
                        B('ul', B('li', 1, B(l, B(i, 1, m=m1, p=pd), B(i, 1, m=m1, p=pd))), B('li', 1, B('p', 1))), B('p', 1)])
    # empty blocks, line breaks
    for a in ('div', 'section', 'ul', 'dl'):
        for m in vals:
            yield from C('empty', '%s %s' % (a, m), lambda a=a, m=m: [B('p', 1), B(a, m=m), B('p', 1), B(a, m=m)])
    for a in flat[:7]:
        yield from C('breaks', a, lambda a=a: [B('p', 1), B(a, 2) if a[0] != 'h' else B(a, 1), B('p', 3)])
    for a, b, c in itertools.product(('div', 'blockquote', 'section'), repeat=3):
        for m in (None, (1, 2), (0, 1)):
            yield from C('nested', '%s in %s in %s %s' % (c, b, a, m), lambda a=a, b=b, c=c, m=m: [B('p', 1), B(a, B('p', 1), B(b, B('p', 1), B(c, B('p', 1), B('p', 1), m=m), B('p', 1), m=m), B('p', 1), m=m), B('p', 1)])
