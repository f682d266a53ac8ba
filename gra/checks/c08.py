"""C08: which elements structural selectors match."""
from ..docs import *

TITLE = 'Combinators, structural pseudo-classes and negation match as in CSS'
EXPLAIN = ('Abstract interpretation of renderings of structured documents (with text, blank text, void elements, links and images '
           'between the elements) under one user selector: the set of elements that get its renderer must be the one CSS defines, '
           'for every element position in the document and every combination of simple selectors on both sides of each combinator.')
MIN_CASES = 100


class N:
    def __init__(self, tag, parent, cls, id_):
        self.tag, self.parent, self.kids, self.cls, self.id = tag, parent, [], cls, id_
        self.name = None

    @property
    def sibs(self):
        return self.parent.kids

    @property
    def pos(self):
        return self.parent.kids.index(self)

    def anc(self):
        p = self.parent
        while p.tag is not None:
            yield p
            p = p.parent


def tree(spec):
    """'x.k(y z#i(u) "" y)' -> tokens and nodes.  Every element starts with a
    distinct symbolic word; "" is blank text, '"' other text."""
    root = N(None, None, [], None)
    toks_, nodes = [], []
    pos = 0
    cur = root
    n = 0
    import re
    for m in re.finditer(r'([a-z]+)((?:[.#][a-z]+)*)|\(|\)|~|"', spec):
        s = m.group(0)
        if s == '(':
            stack = None
            cur = last
        elif s == ')':
            close(toks_, cur)
            toks_.append(E(cur.tag))
            cur.open = False
            last = cur
            cur = cur.parent
        elif s == '~':
            close(toks_, cur)
            toks_.append(T(Const('\n  ')))
        elif s == '"':
            close(toks_, cur)
            toks_.append(T(W('T%d' % len(toks_))))
        else:
            close(toks_, cur)
            tag, rest = m.group(1), m.group(2) or ''
            cls = re.findall(r'\.([a-z]+)', rest)
            ids = re.findall(r'#([a-z]+)', rest)
            last = N(tag, cur, cls, ids[0] if ids else None)
            last.name = 'N%d' % len(nodes)
            last.open = tag not in ('br', 'img')
            cur.kids.append(last)
            nodes.append(last)
            at = ([('class', ' '.join(cls))] if cls else []) + ([('id', ids[0])] if ids else [])
            toks_.append(S(tag, *at))
            if tag not in ('br', 'img'):
                toks_.append(T(W(last.name)))
    close(toks_, root)
    return toks_, nodes


def close(tk, cur):
    """Close the last element under cur if it is still open."""
    if cur.kids and getattr(cur.kids[-1], 'open', False):
        tk.append(E(cur.kids[-1].tag))
        cur.kids[-1].open = False


TREES = {
    'flat': 'x(y y z y) z',
    'roots': 'x y x z',
    'text between': 'x("y ~ y " z ~) ~ y " x',
    'voids': 'x(br y img y br z)',
    'links': 'x(a y a(z) img.k y)',
    'deep': 'x(x(y(z(y))) y(x(z)))',
    'classes': 'x.k(y.l y.k.l z#i(y.k) z.k) y#j',
    'only': 'x(y) z(x(y.k))',
    'nested lists': 'o(l l(o(l l)) l) o(l)',
    'siblings': 'x y.k y z y.l x z.k y y',
    'repeat': 'x(y z) x(z y) y(x z) z(y x)',
    'unlike': 'x(y(y(y)) y(y) y)',
}

SIMPLE = {
    'x': lambda n: n.tag == 'x', 'y': lambda n: n.tag == 'y', 'z': lambda n: n.tag == 'z', '*': lambda n: True,
    '.k': lambda n: 'k' in n.cls, 'y.l': lambda n: n.tag == 'y' and 'l' in n.cls, '#i': lambda n: n.id == 'i',
    'q': lambda n: False, 'a': lambda n: n.tag == 'a', 'l': lambda n: n.tag == 'l', 'o': lambda n: n.tag == 'o', 'z.k': lambda n: n.tag == 'z' and 'k' in n.cls,
    'y#j': lambda n: n.tag == 'y' and n.id == 'j', '.k.l': lambda n: 'k' in n.cls and 'l' in n.cls, 'img': lambda n: n.tag == 'img', 'br': lambda n: n.tag == 'br',
}
PSEUDO = {
    ':first-child': lambda n: n.pos == 0, ':last-child': lambda n: n.pos == len(n.sibs) - 1,
    ':nth-child(1)': lambda n: n.pos == 0, ':nth-child(2)': lambda n: n.pos == 1, ':nth-child(3)': lambda n: n.pos == 2, ':nth-child(9)': lambda n: n.pos == 8,
    ':nth-child(0)': lambda n: False, ':nth-child(99)': lambda n: False,
    ':nth-last-child(1)': lambda n: n.pos == len(n.sibs) - 1, ':nth-last-child(2)': lambda n: n.pos == len(n.sibs) - 2,
    ':nth-last-child(4)': lambda n: n.pos == len(n.sibs) - 4, ':nth-last-child(0)': lambda n: False, ':nth-last-child(99)': lambda n: False,
    ':first-child:last-child': lambda n: len(n.sibs) == 1,
    ':not(.k)': lambda n: 'k' not in n.cls, ':not(y)': lambda n: n.tag != 'y', ':not(:first-child)': lambda n: n.pos > 0,
    ':not(:last-child)': lambda n: n.pos < len(n.sibs) - 1, ':not(#i)': lambda n: n.id != 'i', ':not(*)': lambda n: False,
    ':not(.l)': lambda n: 'l' not in n.cls,
    ':not(:nth-child(2))': lambda n: n.pos != 1,
}
COMB = {
    ' ': lambda a, b: lambda n: b(n) and any(a(p) for p in n.anc()),
    '>': lambda a, b: lambda n: b(n) and n.parent.tag is not None and a(n.parent),
    '+': lambda a, b: lambda n: b(n) and n.pos > 0 and a(n.sibs[n.pos - 1]),
    '~': lambda a, b: lambda n: b(n) and any(a(s) for s in n.sibs[:n.pos]),
}


def sels():
    """name -> (predicate, group)"""
    out_ = {}
    for s, p in SIMPLE.items():
        out_[s] = (p, 'simple')
        for q, f in PSEUDO.items():
            if s == '*':
                out_[q] = (f, 'pseudo')
            elif s in ('x', 'y', '.k', 'l', '#i', 'img'):
                out_[s + q] = ((lambda p, f: lambda n: p(n) and f(n))(p, f), 'pseudo')
    for c, mk in COMB.items():
        for a in ('x', 'y', '*', '.k', 'q', 'z', 'x:first-child', 'y:last-child', 'o', 'y:not(.l)'):
            for b in ('x', 'y', '*', 'y.l', 'z', 'y:first-child', 'z:last-child', 'y:nth-child(2)', 'l', '#i', 'x:not(.k)'):
                out_['%s %s %s' % (a, c, b) if c != ' ' else '%s %s' % (a, b)] = (mk(pred(a), pred(b)), 'combinator')
    chains = [('x', '>', 'y', ' ', 'z'), ('x', ' ', 'y', '>', 'z'), ('x', '+', 'y', '+', 'z'), ('x', '~', 'y', '+', 'y'), ('x', '+', 'y', '~', 'y'),
              ('x', ' ', 'y', '+', 'z'), ('x', '>', 'y', '~', 'z'), ('y', '+', 'z', '>', 'y'), ('y', '~', 'z', ' ', 'y'), ('x', ' ', 'x', ' ', 'y'),
              ('x', '>', 'x', '>', 'y'), ('x', '>', 'y:first-child', '+', 'y'), ('o', ' ', 'o', '>', 'l'), ('o', '>', 'l', '>', 'o'), ('*', '>', '*', '>', '*'),
              ('*', ' ', '*', ' ', '*'), ('y', '~', 'y', '~', 'y'), ('y', '+', 'y', '+', 'y'), ('x', '~', 'y', ' ', 'z'), ('x', ' ', '*', '>', 'y'), ('y', ' ', '*', ' ', 'y')]
    for ch in chains:
        f, s = pred(ch[0]), ch[0]
        for c, b in zip(ch[1::2], ch[2::2]):
            f = COMB[c](f, pred(b))
            s += ' %s %s' % (c, b) if c != ' ' else ' ' + b
        out_[s] = (f, 'combinator')
    for a, b in (('x', 'y.l'), ('q', 'z'), ('y:first-child', '#i'), ('x > y', 'y + z'), ('q', 'z.k'), ('x', 'x')):
        fa, fb = pred(a), pred(b)
        out_['%s, %s' % (a, b)] = ((lambda fa, fb: lambda n: fa(n) or fb(n))(fa, fb), 'group')
    return out_


def pred(s):
    if ' ' in s:
        a, c, b = s.split(' ')
        return COMB[c](pred(a), pred(b))
    if ':' in s:
        i = s.index(':')
        p, f = SIMPLE[s[:i]], PSEUDO[s[i:]]
        return lambda n: p(n) and f(n)
    return SIMPLE[s]


# every element reports which of the selectors applied to it
MARK = """
class Mark(Renderer):
    settings = dict(%s)
    def render(self, content):
        out = '@'
        for i in range(%d):
            if self.settings['k%%d' %% i]:
                out = out + str(i) + ','
        return out + ';' + content
R = {'': Mark, '*': Mark, %s %s}
"""
CFG = "optimise=False, link_placement='inline', renderers=R"


def run_many(h, tk, nodes, names_):
    n = len(names_)
    over = ''.join("'%s': Mark, " % t for t in ('a', 'img', 'br'))
    pre = MARK % (', '.join('k%d=0' % i for i in range(n)), n, over,
                  ', '.join("' %s': (None, dict(k%d=1))" % (s, i) for i, s in enumerate(names_)))
    v = render1(h, tk, CFG, pre=pre)
    res = []
    import re
    for p in parts_of(v):
        if isinstance(p, str):
            res += [set(map(int, filter(None, m.split(',')))) for m in re.findall(r'@([0-9,]*);', p)]
    if len(res) != len(nodes):
        raise Undecided('not every element can be located in %s' % show(v)[:300])
    return res


def one(h, tname, sl):
    tk, nodes = tree(TREES[tname])
    all_ = sels()
    res = run_many(h, tk, nodes, sl)
    for i, sel in enumerate(sl):
        f = all_[sel][0]
        want = {n.name for n in nodes if f(n)}
        got = {n.name for n, r in zip(nodes, res) if i in r}
        if got != want:
            yield '%s in %s' % (sel, tname), 'selector %s in the tree %s matches %s instead of %s' % (
                sel, TREES[tname], names(got, nodes), names(want, nodes))


def hash_(s):
    return sum((i + 1) * ord(c) for i, c in enumerate(s))


def names(s, nodes):
    return '[%s]' % ', '.join('%s(element %d)' % (n.tag, i + 1) for i, n in enumerate(nodes) if n.name in s) if s else 'nothing'


def cases(h, tier):
    per = 40
    groups = {}
    for nm, (_, g) in sels().items():
        groups.setdefault(g, []).append(nm)
    for tn in TREES:
        for g, l in groups.items():
            for i in range(0, len(l), per):
                part = l[i:i + per]
                if tier == 'quick' and g == 'combinator' and i + per < len(l):
                    part = part[hash_(tn) % 3::3]
                yield Case(g, '%s %s..' % (tn, part[0]), one, tn, part)
