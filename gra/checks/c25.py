"""C25: ordered list items are numbered in order."""
import itertools

from ..docs import *

TITLE = 'Ordered list items are numbered in order'
EXPLAIN = ('Abstract interpretation of rendering lists of every short sequence of items and other contents, nested ones included, with symbolic texts, '
           'start indexes and steps; the number at the start of each item and the indent of its further lines are compared with a count of the items before it.')
MIN_CASES = 60

START, STEP = sym('START', 'int'), sym('STEP', 'int', FLAG_POS)


class Doc:
    def __init__(self):
        self.n, self.want = 0, []

    def words(self):
        self.n += 1
        return W('A%d' % self.n), W('B%d' % self.n)


def build(spec, d, pad, tag, num_):
    """spec: nested list of items; returns tokens of the children of a list; pad: what the enclosing items put before each line"""
    toks_, k = [], 0
    for x in spec:
        if x == 'li' or isinstance(x, tuple):
            a, b = d.words()
            first = (pad, num_(tag, k), a)
            d.want.append((first, b))
            kids = [T(a), S('br'), T(b)]
            if isinstance(x, tuple):
                lst, sub = x
                cont = ('after', first)
                kids += el(lst, build(sub, d, cont, lst, num_))
            toks_ += el({'ol': 'li', 'ul': 'li', 'dl': 'dd'}[tag], *kids)
            k += 1
        elif x == 'text':
            toks_.append(T(Const('\n  ')))
        elif x == 'words':
            toks_.append(T(Const('zz')))
        elif x == 'br':
            toks_.append(S('br'))
        elif x == 'img':
            toks_ += IMG()
        else:
            toks_ += el(x, T(Const('yy')))
    return toks_


def one(h, spec, tag, rset, ctor, form, numbers, pre='', wrap=lambda d: d, lead=''):
    """numbers: client expression of the k-th number; form: (line template before, between number and text); None: bullets"""
    d = Doc()
    doc = wrap(el(tag, build(spec, d, lead, tag, lambda t, k: k if t == tag else None)))
    # the expected lines, computed by the client
    src = pre + RENDER % ctor + 'WANT = []\n'
    env = dict(DOC=doc, S=START, P=STEP)
    names = {}

    def expr(first):
        pad, k, a = first
        own = "%r.format(%s)" % (form[0] + '{}' + form[1], numbers.replace('K', str(k))) if k is not None else "'* '"
        before = repr(pad) if isinstance(pad, str) else "' ' * len(%s)" % names[pad[1]]
        return before, own
    for i, (first, b) in enumerate(d.want):
        before, own = expr(first)
        names[first] = 'L%d' % i
        src += 'L%d = %s + %s\n' % (i, before, own)
        env['A_%d' % i], env['B_%d' % i] = first[2], b
        src += 'WANT.append(L%d + A_%d)\nWANT.append(" " * len(L%d) + B_%d)\n' % (i, i, i, i) if not lead.strip() else \
               'WANT.append(L%d + A_%d)\nWANT.append(%r + " " * (len(L%d) - %d) + B_%d)\n' % (i, i, lead, i, len(lead), i)
    for o in render(h, None, src=src, env=env):
        ls = [trim(l) for l in lines(out(o)) if trim(l)]
        st = o.st
        want = [trim(x) for x in st.get(o.get('WANT').a).segs]
        ls = [l for l in ls if any(isinstance(x, Sym) and x.name[1:].isdigit() for x in l)]
        ls = [l[:len(w)] for l, w in zip(ls, want)] + ls[len(want):]
        if ls != want:
            i = next((i for i, (x, y) in enumerate(zip(ls + [None] * 99, want)) if x != y), len(want))
            f = lambda l: show(mkstr([(' ' * x[1].v if isinstance(x[1], Const) else x[1]) if isinstance(x, tuple) else x for x in l])) if l is not None else 'nothing'
            yield 'line %d is %s instead of %s:\n%s' % (i + 1, f(ls[i]) if i < len(ls) else 'missing', f(want[i]) if i < len(want) else 'nothing', show(out(o))[:600])


def cases(h, tier):
    deep = tier == 'thorough'
    kinds = ['li', 'text', 'p', 'br']
    seqs = [s for n in (1, 2, 3, 4) for s in itertools.product(kinds, repeat=n) if 'li' in s and s[-1] == 'li' and (n < 4 or deep or len(set(s)) == 2 and s[0] == 'li' or len(set(s)) == 3 and s[0] == 'text')]
    base = 'optimise=False'
    for s in seqs:
        yield Case('items', ' '.join(s), one, list(s), 'ol', None, base, ('', '. '), 'K + 1')
    many = ['li'] * 12
    yield Case('items', 'twelve', one, many, 'ol', None, base, ('', '. '), 'K + 1')
    yield Case('items', 'a hundred and one' if deep else 'twenty', one, ['li', 'text'] * (101 if deep else 20), 'ol', None, base, ('', '. '), 'K + 1')
    for x in ('img', 'div', 'span', 'ul', 'dl', 'h3', 'custom', 'pre', 'blockquote', 'em'):
        yield Case('items', 'li %s li %s li' % (x, x), one, ['li', x, 'li', x, 'li'], 'ol', None, base, ('', '. '), 'K + 1')
        yield Case('items', '%s li li' % x, one, [x, 'li', 'li'], 'ol', None, base, ('', '. '), 'K + 1')
    # nested lists are numbered on their own
    nested = {
        'ol in an item': ['li', ('ol', ['li', 'li']), 'li'], 'ol in the first': [('ol', ['li', 'text', 'li']), 'li'], 'ol in every item': [('ol', ['li']), ('ol', ['li', 'li']), ('ol', ['li'])],
        'three deep': ['li', ('ol', ['li', ('ol', ['li', 'li']), 'li']), 'li'], 'ul in an item': ['li', ('ul', ['li', 'li']), 'li'], 'ol in ul in ol': [('ul', ['li', ('ol', ['li', 'li'])]), 'li'],
        'text around': ['text', ('ol', ['text', 'li', 'text', 'li', 'text']), 'text', 'li', 'text'],
    }
    rs = {
        'default': (base, '', ('', '. '), 'K + 1'),
        'start': (base + ', renderers=R', "R = {'ol > li': (OrderedListItemRenderer, dict(start_index=S))}\n", ('', '. '), 'S + K'),
        'step': (base + ', renderers=R', "R = {'ol > li, x-z > li': (None, dict(step=P))}\n", ('', '. '), '1 + K * P'),
        'start and step': (base + ', renderers=R', "R = {'ol > li': (OrderedListItemRenderer, dict(start_index=S, step=P))}\n", ('', '. '), 'S + K * P'),
        'from zero': (base + ', renderers=R', "R = {'ol > li, x-z > li': (None, dict(start_index=0))}\n", ('', '. '), 'K'),
        'backwards': (base + ', renderers=R', "R = {'ol > li, x-z > li': (None, dict(start_index=10, step=-3))}\n", ('', '. '), '10 - 3 * K'),
        'same number': (base + ', renderers=R', "R = {'ol > li, x-z > li': (None, dict(step=0))}\n", ('', '. '), '1'),
        'template': (base + ', renderers=R', "R = {'ol > li, x-z > li': (None, dict(line_template='({0}) -> {1}'))}\n", ('(', ') -> '), 'K + 1'),
        'tight template': (base + ', renderers=R', "R = {'ol > li, x-z > li': (None, dict(line_template='{0}{1}', start_index=S))}\n", ('', ''), 'S + K'),
        'template and start': (base + ', renderers=R', "R = {'ol > li, x-z > li': (None, dict(line_template='No. {0}: {1}', start_index=S, step=10))}\n", ('No. ', ': '), 'S + 10 * K'),
        'start 98': (base + ', renderers=R', "R = {'ol > li': (OrderedListItemRenderer, dict(start_index=98))}\n", ('', '. '), '98 + K'),
        'step 5 from 5, template': (base + ', renderers=R', "R = {'ol > li': (OrderedListItemRenderer, dict(start_index=5, step=5, line_template='[{0}] {1}'))}\n", ('[', '] '), '5 + 5 * K'),
        'subclass': (base + ', renderers=R', "class X(OrderedListItemRenderer):\n    settings = dict(start_index=7, step=2)\nR = {'ol > li': X}\n", ('', '. '), '7 + 2 * K'),
    }
    for rn, (ctor, pre, form, numbers) in rs.items():
        for nn, s in nested.items():
            if 'S' in numbers + pre or 'P' in numbers:
                continue
            yield Case('nested', '%s, %s' % (nn, rn), one, s, 'ol', None, ctor, form, numbers, pre)
        for s in seqs if deep else [['li', 'li', 'li'], ['text', 'li', 'text', 'li', 'text', 'li'], ['p', 'li', 'br', 'li'], ['li'] * 5]:
            yield Case('settings', '%s, %s' % (rn, ' '.join(s)), one, list(s), 'ol', None, ctor, form, numbers, pre)
        for w, lead in (('blockquote', '> '), ('div', ''), ('article', '')):
            yield Case('places', '%s in %s' % (rn, w), one, ['li', 'text', 'li', 'li'], 'ol', None, ctor, form, numbers, pre, (lambda w: lambda d: el(w, d))(w), lead)
        yield Case('places', '%s after another list' % rn, one, ['li', 'li'], 'ol', None, ctor, form, numbers, pre, lambda d: el('ol', el('li', T(Const('x'))), el('li', T(Const('x')))) + d)
    # other elements with the renderer
    for tag, key in (('ul', 'ul > li'), ('dl', 'dl > dd')):
        for s in (['li', 'li'], ['text', 'li', 'p', 'li', 'text', 'li'], ['li', 'dt', 'li']):
            yield Case('others', '%s, %s' % (key, ' '.join(s)), one, s, tag, None, base + ', renderers=R', ('', '. '), 'S + K',
                       "R = {%r: (OrderedListItemRenderer, dict(start_index=S))}\n" % key)
