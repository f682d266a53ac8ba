"""Deciding how a text was broken into lines (with real widths)."""
from . import poly
from .docs import *

LACK = 'lack:-.!?'


def word(n):
    """One word of any length; punctuation that the wrapper treats specially is left out."""
    return Sym(n, 'str', (FLAG_DOC, FLAG_WORD, LACK))


def paths(h, src, env, lim=None, words_=(), opts=None):
    """Outcomes of src (words at most lim long), every line break decided by comparing lengths."""
    pre = ''
    e = dict(env)
    if lim is not None:
        e.update(LIMITED=list(words_), LIM=lim)
        pre = 'for x in LIMITED:\n    if len(x) > LIM:\n        raise KeyError\nLIMITED = 0\n'
    outs = h.run(pre + src, e, opts=dict(dict(exact=True, nomerge=True), **(opts or {})))
    res = []
    for o in outs:
        if o.kind == 'exc':
            if o.exc_name == 'KeyError' and lim is not None and o.st.get(o.mod).ns.get('LIMITED') is not ZERO and '<client>' in o.describe():
                continue
            raise Fail('rendering raises %s' % o.describe())
        res.append(o)
    if not res:
        raise Undecided('no outcome')
    return res


class Sure:
    """Comparisons that hold on a path: entailed by the linear facts collected on it (a convex polyhedron; projection by elimination)."""
    def __init__(self, h, o):
        self.h, self.st = h, o.st
        self.base = None

    def __call__(self, op, a, b=ZERO):
        if self.h.I.surely(self.st, op, a, b):
            return True
        d = self.h.I.subst_eq(self.st, ladd(a, b, -1))
        l = as_lin(d)
        if l is None:
            return False
        if op == '==':
            return self('>=', d) and self('<=', d)
        neg = {'>=': [(d, -1, -1)], '>': [(d, -1, 0)], '<=': [(d, 1, -1)], '<': [(d, 1, 0)]}[op]    # the negation: k*d + c >= 0
        return self.empty(neg)

    def empty(self, more):
        if self.base is None:
            self.base = poly.facts(self.h.I, self.st)
        return poly.empty(self.h.I, self.st, more, self.base)


def strip_prefix(tk, prefix):
    """tokens after the prefix, or None"""
    tk = list(tk)
    for p in toks(prefix):
        if not tk:
            return tk if isinstance(p, tuple) else None
        q = tk[0]
        if isinstance(p, tuple):
            if not isinstance(q, tuple):
                return None
            rest = ladd(q[1], p[1], -1)
            tk.pop(0)
            if rest != ZERO:
                tk.insert(0, ('sp', rest))
        elif isinstance(p, str):
            if not isinstance(q, str) or not q.startswith(p):
                return None
            tk.pop(0)
            if q[len(p):]:
                tk.insert(0, q[len(p):])
        elif p != q:
            return None
        else:
            tk.pop(0)
    return tk


def tlen(tk):
    n = ZERO
    for x in tk:
        n = ladd(n, x[1] if isinstance(x, tuple) else strs.slen(Const(x) if isinstance(x, str) else x))
    return n


def chunk_len(content):
    """Length of the word that content starts with."""
    n = ZERO
    for x in content:
        if isinstance(x, tuple):
            break
        n = ladd(n, strs.slen(Const(x) if isinstance(x, str) else x))
    return n


def consume(content, line):
    """What is left of content after the tokens of a line, or None if the line shows something else."""
    content = list(content)
    for x in line:
        if not content:
            return None
        y = content[0]
        lead = None
        if isinstance(x, Fn) and x.op == 'take':
            inner = x.args[0]
            lead = inner.v if isinstance(inner, Const) else None
            if isinstance(inner, Fn) and inner.op == 'drop' and isinstance(inner.args[0], Const) and isinstance(y, Fn) and inner == y:
                lead = None
        if x == y:
            content.pop(0)
        elif isinstance(x, str) and isinstance(y, str) and y.startswith(x):
            content[0] = y[len(x):]
        elif lead is not None and isinstance(y, str) and y.startswith(lead):
            content[0:1] = [Fn('drop', (x.args[0], x.args[1]), 'str')] + ([y[len(lead):]] if y[len(lead):] else [])
        elif isinstance(x, Fn) and x.op == 'take' and x.args[0] == y:
            content[0] = Fn('drop', (y, x.args[1]), 'str')
        elif isinstance(x, Fn) and x.op == 'drop' and isinstance(x.args[0], Fn) and x.args[0].op == 'take' and isinstance(y, Fn) and y.op == 'drop' \
                and x.args[0].args[0] == y.args[0] and x.args[1] == y.args[1]:
            content[0] = Fn('drop', (y.args[0], x.args[0].args[1]), 'str')
        elif isinstance(x, Fn) and x.op == 'take' and isinstance(x.args[0], Fn) and x.args[0].op == 'drop' and x.args[0] == y:
            content[0] = Fn('drop', (y.args[0], ladd(y.args[1], x.args[1])), 'str')
        else:
            return None
    return content


def filled(sure, ls, content, widths, prefixes, breaking=True):
    """Check that the lines ls show content broken greedily; widths/prefixes = (first line, others); content may be a list of
    pieces, each of which starts a new (first) line and may come with widths and prefixes of its own."""
    pieces = [c if isinstance(c, tuple) else (c, widths, prefixes) for c in (content if isinstance(content, list) else [content])]
    shown = '\n'.join(show(l)[:150] for l in ls)
    rest, first = None, True
    for i, l in enumerate(ls):
        if not rest:
            if not pieces:
                yield 'line %d shows something more: %s\n%s' % (i + 1, show(l)[:200], shown)
                return
            rest, widths, prefixes = pieces.pop(0)
            rest, first = toks(rest), True
        w, pf = (widths[0], prefixes[0]) if first else (widths[1], prefixes[1])
        tk = strip_prefix(trim(plain(l)), pf)
        if tk is None:
            yield 'line %d does not start with %s:\n%s' % (i + 1, show(pf), shown)
            return
        n = tlen(tk)
        new = consume(rest, tk)
        if new is None or not tk:
            yield 'line %d is %s, but %s comes next:\n%s' % (i + 1, show(l)[:200], [show(x) if isinstance(x, Term) else x for x in rest[:3]], shown)
            return
        single = not any(isinstance(x, tuple) for x in tk)
        if not sure('<=', n, w) and not (single and not breaking):
            yield 'line %d may be longer (%s) than the %s columns available:\n%s' % (i + 1, show(n), show(w), shown)
            return
        if new and isinstance(new[0], tuple):
            b, new = new[0][1], new[1:]
            nx = chunk_len(new)
            if not sure('>', ladd(ladd(n, b), nx), w):
                yield 'line %d is broken although the next word (%s) may fit (%s of %s columns used):\n%s' % (i + 1, show(nx), show(n), show(w), shown)
                return
        elif new:
            if not breaking:
                yield 'line %d ends within a word:\n%s' % (i + 1, shown)
                return
            # a word is only split where the line is full, and if it is longer than a line
            if not sure('==', n, w):
                yield 'line %d ends within a word but is not full (%s of %s columns):\n%s' % (i + 1, show(n), show(w), shown)
                return
            total = ladd(chunk_len(list(reversed(tk))), chunk_len(new))
            if not sure('>', total, w):
                yield 'line %d ends within a word that may fit on a line (%s of %s columns):\n%s' % (i + 1, show(total), show(w), shown)
                return
        rest, first = new, False
    if rest or pieces:
        yield 'not shown: %s\n%s' % ([show(x) if isinstance(x, Term) else x for x in (rest or toks(pieces[0][0]))[:4]], shown)
