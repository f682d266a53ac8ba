"""C31: every line of a block carries the decorations of the blocks around it."""
import itertools

from ..wrapped import *

TITLE = 'Every line of a block carries its decorations'
EXPLAIN = ('Abstract interpretation of nested blocks with line templates and indents, with symbolic texts broken into lines by line breaks and, for words and page widths of '
           'any length, by the word wrapper: what stands before and after the text of each line must be what the check composes from the templates and indents of the '
           'enclosing blocks; lines without text within a quotation must carry its mark.')
MIN_CASES = 100

WD = sym('WIDTH', 'int', FLAG_POS)
CLS = {'p': 'ParagraphRenderer', 'li': 'ListItemRenderer', 'dd': 'DefinitionListItemRenderer', 'blockquote': 'BlockQuoteRenderer', 'pre': 'PreRenderer', 'div': 'BlockRenderer',
       'ul': 'ListRenderer', 'ol': 'ListRenderer', 'dl': 'DefinitionListRenderer'}
TEMPLATE = {'p': '{}', 'li': '* {}', 'dd': ': {}', 'blockquote': '> {}', 'pre': '{}'}
FIRST = ('li', 'dd')


class B:
    """A block: children are lists of lines of words, or blocks."""
    def __init__(self, tag, *kids, **st):
        self.tag, self.kids, self.st = tag, kids, st
        self.seen = False

    def sides(self, first, chunk):
        """what the block puts before and after a line of its content"""
        a, z = '', ''
        m, p = self.st.get('margin', (0, 0, 0, 0)), self.st.get('padding', (0, 0, 0, 0))
        a += ' ' * (m[3] + p[3])
        if self.tag in TEMPLATE or self.num:
            t = self.st.get('line_template', TEMPLATE.get(self.tag)) if not self.num or 'line_template' in self.st else '%d. {}' % self.num
            l, _, r = t.partition('{}')
            if self.tag == 'pre':
                a += ' ' * self.st.get('indent', 4)
            if self.tag in FIRST and not first:
                a += ' ' * len(l + r)
            else:
                a, z = a + l, r + z
        if self.tag in ('p', 'li', 'dd'):
            # a paragraph starts again after each line break
            start = chunk if self.tag == 'p' else first
            a += ' ' * (self.st.get('initial_indent', 0) if start else self.st.get('subsequent_indent', 0))
        return a, z

    num = 0


class Doc:
    def __init__(self, roots):
        self.roots = roots
        self.of = {}          # word -> (path of blocks, chunk words, index in chunk)
        self.n = 0
        self.order = []
        self.rules = []

    def build(self):
        return [x for b in self.roots for x in self.block(b, [])]

    def block(self, b, path):
        at = []
        if b.st:
            k = 'k%d' % len(self.rules)
            cls = 'OrderedListItemRenderer' if b.num else CLS[b.tag]
            self.rules.append("'%s#%s': (%s, dict(%s))" % (b.tag, k, cls, ', '.join('%s=%r' % x for x in b.st.items())))
            at = [('id', Const(k))]
        b.seen = False
        path = path + [b]
        out_ = []
        for i, k in enumerate(b.kids):
            if isinstance(k, B):
                if b.tag == 'ol' and k.tag == 'li':
                    k.num = sum(1 for x in b.kids[:i] if isinstance(x, B) and x.tag == 'li') + 1
                out_ += self.block(k, path)
                continue
            # lines of words
            for j, n in enumerate(k):
                chunk = []
                for q in range(n):
                    self.n += 1
                    w = 'W%d' % self.n
                    chunk.append(w)
                    self.order.append(w)
                    self.of[w] = (path, chunk, q)
                if j:
                    out_.append(T(Const('\n')) if b.tag == 'pre' else S('br'))
                ps = []
                for w in chunk:
                    ps += [' ', word(w)] if ps else [word(w)]
                if ps:
                    out_.append(T(mkstr(ps)))
        return el(b.tag, *out_, attrs=at)


def check_lines(ls, doc):
    """the lines of an output, each a token list"""
    names = set(doc.order)
    for w in doc.of.values():
        for b in w[0]:
            b.seen = False
    where, got = [], []
    for i, l in enumerate(ls):
        ws = [x.name for x in parts_of_line(l) if isinstance(x, Sym) and x.name in names]
        if ws:
            where.append((i, ws))
            got += ws
    if got != doc.order:
        return 'the words shown are %s' % ' '.join(got)
    for i, ws in where:
        path, chunk, q = doc.of[ws[0]]
        a = z = ''
        for b in path:
            x, y = b.sides(not b.seen, q == 0)
            a, z = a + x, y + z
        for b in path:
            b.seen = True
        ps = [a]
        for w in ws:
            if doc.of[w][1] is not chunk:
                return 'the words %s and %s are on one line' % (ws[0], w)
            ps += [' ', word(w)] if len(ps) > 1 else [word(w)]
        # blanks may fill the line before what follows the text
        want, rest = trim(mkstr(ps)), list(toks(ls[i]))
        n = len(want)
        tail = ''.join(x for x in rest[n:] if isinstance(x, str))
        if rest[:n] != want and not (n and isinstance(want[-1], Term) and rest[:n] == want) or any(isinstance(x, Term) for x in rest[n:]) or tail != z.replace(' ', ''):
            return 'the line %s should be %s' % (show(ls[i]), show(mkstr(ps + [z])))
    for (i, us), (j, vs) in zip(where, where[1:]):
        if j == i + 1:
            continue
        pu, pv = doc.of[us[0]][0], doc.of[vs[0]][0]
        common = [b for b, c in zip(pu, pv) if b is c]
        if pu[-1] is pv[-1] and pu[-1].tag == 'pre':
            a = z = ''
            for b in common:
                x, y = b.sides(False, False)
                a, z = a + x, y + z
            for k in range(i + 1, j):
                if ''.join(x for x in toks(ls[k]) if isinstance(x, str)) != (a + z).replace(' ', ''):
                    return 'the line without text between %s and %s is %s instead of %s' % (us[-1], vs[0], show(ls[k]), a + z)
                lead = lambda t: t[0][1] if t and isinstance(t[0], tuple) else None
                x, y = trim(ls[k]), trim(mkstr([a, z]))
                if a.strip() and x and lead(x) != lead(y):
                    return 'the line without text between %s and %s is %s instead of %s' % (us[-1], vs[0], show(ls[k]), a + z)
            continue
        if not any(b.tag == 'blockquote' for b in common):
            continue
        a = z = ''
        for b in common:
            x, y = b.sides(False, False)
            a, z = a + x, y + z
        for k in range(i + 1, j):
            tk = [x for x in toks(ls[k]) if not isinstance(x, tuple)]
            full = trim(mkstr([a, z]))
            # deeper quotations may start or end here
            if ''.join(tk) != ''.join(x for x in full if not isinstance(x, tuple)) and not (
                    all(isinstance(x, str) for x in tk) and ''.join(tk).startswith(''.join(x for x in full if not isinstance(x, tuple)).rstrip()) and any(
                        b.tag == 'blockquote' for b in pu[len(common):] + pv[len(common):])):
                return 'the line between %s and %s in a quotation is %s instead of %s' % (us[-1], vs[0], show(ls[k]), a + z)


def parts_of_line(l):
    for p in parts_of(l):
        if isinstance(p, Sym):
            yield p
        elif isinstance(p, Fn) and not is_space(p):
            for q in walk(p):
                if isinstance(q, Sym) and FLAG_DOC in q.flags:
                    yield q


def broken(h, roots, ctor):
    d = Doc(roots())
    toks_ = d.build()
    R = 'R = {%s}\n' % ', '.join(d.rules)
    for o in render(h, toks_, 'optimise=False, renderers=R' + ctor, 0, pre=R):
        m = check_lines(lines(plain(out(o))), d)
        if m:
            yield m
            return


def wrapped(h, roots, room):
    d = Doc(roots())
    toks_ = d.build()
    R = 'R = {%s}\n' % ', '.join(d.rules)
    seen = set()
    for o in paths(h, R + RENDER % ('optimise=False, renderers=R, width=WIDTH + %d' % room), dict(DOC=toks_, WIDTH=WD), WD, [word(w) for w in d.order]):
        m = check_lines(lines(plain(out(o))), d)
        if m and m not in seen:
            seen.add(m)
            yield m


TPLS = ['- {}', '* {} ', '{}', '{} |', '# {} #', '>>{}', '  {}', '1{}', '| {}']
IND = [(0, 0), (3, 0), (0, 2), (2, 4)]


def shapes(two, one):
    """name -> function giving the blocks; two, one: texts of two lines and of one"""
    P = lambda *k, **s: B('p', *k, **s)
    return {
        'p': lambda s: [P(two, **s.get('p', {}))],
        'p, p': lambda s: [P(two, **s.get('p', {})), P(one)],
        'li': lambda s: [B('ul', B('li', two, **s.get('li', {})), B('li', one))],
        'ol li': lambda s: [B('ol', B('li', two), B('li', two, **s.get('li', {})))],
        'dd': lambda s: [B('dl', B('dd', two, **s.get('dd', {})), B('dd', two))],
        'blockquote': lambda s: [B('blockquote', two, **s.get('blockquote', {}))],
        'blockquote p': lambda s: [B('blockquote', P(two, **s.get('p', {})), P(two), **s.get('blockquote', {}))],
        'blockquote p p p': lambda s: [B('blockquote', P(one), P(one), P(one, **s.get('p', {})), **s.get('blockquote', {}))],
        'blockquote blockquote p': lambda s: [B('blockquote', B('blockquote', P(two, **s.get('p', {})), P(one)), P(one), **s.get('blockquote', {}))],
        'blockquote p blockquote': lambda s: [B('blockquote', P(one), B('blockquote', P(one), **s.get('blockquote', {})), P(one, **s.get('p', {})))],
        'blockquote ul': lambda s: [B('blockquote', P(one), B('ul', B('li', two, **s.get('li', {})), B('li', two)), P(one), **s.get('blockquote', {}))],
        'blockquote dl': lambda s: [B('blockquote', B('dl', B('dd', two, **s.get('dd', {})), B('dd', one)), **s.get('blockquote', {}))],
        'blockquote pre': lambda s: [B('blockquote', P(one), B('pre', two, **s.get('pre', {})), **s.get('blockquote', {}))],
        'li p': lambda s: [B('ul', B('li', P(two, **s.get('p', {})), P(two), **s.get('li', {})))],
        'li li': lambda s: [B('ul', B('li', one, B('ul', B('li', two, **s.get('li', {})), B('li', two))), B('li', one))],
        'li ol li': lambda s: [B('ul', B('li', two, B('ol', B('li', two), B('li', two)), **s.get('li', {})))],
        'li blockquote': lambda s: [B('ul', B('li', B('blockquote', P(two), **s.get('blockquote', {})), **s.get('li', {})), B('li', one))],
        'li pre': lambda s: [B('ul', B('li', one, B('pre', two, **s.get('pre', {})), **s.get('li', {})))],
        'dd p': lambda s: [B('dl', B('dd', P(two, **s.get('p', {})), P(one), **s.get('dd', {})))],
        'dd ul': lambda s: [B('dl', B('dd', two, B('ul', B('li', two, **s.get('li', {}))), **s.get('dd', {})))],
        'pre': lambda s: [B('pre', two, **s.get('pre', {}))],
        'pre of blank lines': lambda s: [B('pre', [1, 0, 2, 0, 0, 1], **s.get('pre', {}))],
        'blockquote pre of blank lines': lambda s: [B('blockquote', P(one), B('pre', [1, 0, 1, 0, 0, 1], **s.get('pre', {})), **s.get('blockquote', {}))],
        'pre, p': lambda s: [B('pre', two, **s.get('pre', {})), P(one, **s.get('p', {}))],
        'div p': lambda s: [B('div', P(two, **s.get('p', {})), P(one))],
    }


def needs(nm):
    return [t for t in CLS if t in nm.replace(',', ' ').split() and t in TEMPLATE]


def cases(h, tier):
    deep = tier == 'thorough'
    br = shapes([1, 2, 1], [2])
    for nm, f in br.items():
        for ctn, ct in [('default', ''), ('gophermap', ", output_format='gophermap', gopher_host='h'"), ('wide margin', ', box=Box(width=200)')]:
            if deep or ctn != 'wide margin':
                yield Case('default', '%s, %s' % (nm, ctn), broken, (lambda f=f: f({})), ct)
        for t in needs(nm):
            for tp in TPLS:
                yield Case('template', '%s %s, %s' % (t, tp, nm), broken, (lambda f=f, t=t, tp=tp: f({t: dict(line_template=tp)})), '')
            if t in ('p', 'li', 'dd'):
                for i, s in IND[1:]:
                    for tp in (None, '- {}', '{} |'):
                        st = dict(initial_indent=i, subsequent_indent=s, **({'line_template': tp} if tp else {}))
                        if deep or tp != '{} |':
                            yield Case('indent', '%s %d %d %s, %s' % (t, i, s, tp or '', nm), broken, (lambda f=f, t=t, st=st: f({t: st})), '')
            if t == 'pre':
                for i in (0, 1, 7):
                    for tp in ('{}', '| {}', '{} |'):
                        yield Case('indent', 'pre %d %s, %s' % (i, tp, nm), broken, (lambda f=f, i=i, tp=tp: f({'pre': dict(indent=i, line_template=tp)})), '')
            st = dict(line_template='= {}', margin=[1, 0, 1, 3], padding=[0, 0, 0, 2])
            yield Case('margin', '%s, %s' % (t, nm), broken, (lambda f=f, t=t, st=st: f({t: st})), '')
        all_ = needs(nm)
        if len(all_) > 1:
            for x, y in itertools.permutations(TPLS[:4] if not deep else TPLS, 2):
                yield Case('together', '%s: %s and %s' % (nm, x, y), broken, (lambda f=f, x=x, y=y, all_=all_: f({t: dict(line_template=(x, y)[i % 2]) for i, t in enumerate(all_)})), '')
    wr = shapes([3], [1])
    for nm, f in wr.items():
        if 'pre' in nm or nm in ('blockquote',):
            continue
        room = 24
        if nm in ('p', 'li', 'dd', 'blockquote p') or deep and nm in ('div p', 'p, p', 'dd p', 'blockquote p p p', 'ol li'):
            yield Case('wrapped', '%s, default' % nm, wrapped, (lambda f=f: f({})), room)
            for t in needs(nm):
                for tp in TPLS if deep else ('- {}', '# {} #'):
                    yield Case('wrapped', '%s %s, %s' % (t, tp, nm), wrapped, (lambda f=f, t=t, tp=tp: f({t: dict(line_template=tp)})), room)
                if t in ('p', 'li', 'dd'):
                    for i, s in IND[1:] if deep else IND[3:]:
                        yield Case('wrapped', '%s %d %d, %s' % (t, i, s, nm), wrapped, (lambda f=f, t=t, i=i, s=s: f({t: dict(initial_indent=i, subsequent_indent=s, line_template='- {}')})), room)
