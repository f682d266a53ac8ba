"""Queries over abstract output strings: lines, visible text, visible lengths."""
from .dom import *
from . import strs
from .check import Undecided, Fail


def settle(st, v):
    """Substitute the equalities of the path into a term."""
    for _ in range(4):
        w = v
        for a, b in st.eq.items():
            if isinstance(a, Term):
                w = subst(w, a, b)
        if w == v:
            return renorm(w)
        v = w
    return renorm(v)


def renorm(v):
    return mkstr(list(parts_of(v))) if isinstance(v, Str) else v


def out(o, name='OUT'):
    v = o.get(name)
    if not is_str(v):
        raise Undecided('%s is not text: %s' % (name, show(v)[:200]))
    return settle(o.st, v)


def lines(v, sep='\n'):
    """Split at every line break; all pieces must be free of them."""
    res, cur = [], []
    for p in parts_of(v):
        if isinstance(p, str):
            bits = p.split(sep)
            cur.append(bits[0])
            for b in bits[1:]:
                res.append(mkstr(cur))
                cur = [b]
        else:
            if not strs.atom_lacks(p, sep):
                raise Undecided('may contain a line break: %s' % show(p)[:300])
            cur.append(p)
    res.append(mkstr(cur))
    return res


def is_space(p):
    return isinstance(p, Fn) and p.op == 'rep' and isinstance(p.args[0], Const) and p.args[0].v and not p.args[0].v.strip(' ')


def space_len(p):
    return lmul(p.args[1], Const(len(p.args[0].v)))


def toks(line):
    """A line as a list of literal characters runs, atoms and ('sp', n) runs."""
    res = []

    def sp(n):
        n = ladd(n, ZERO)
        if n == ZERO:
            return
        if res and isinstance(res[-1], tuple):
            res[-1] = ('sp', ladd(res[-1][1], n))
            if res[-1][1] == ZERO:
                res.pop()
        else:
            res.append(('sp', n))
    for p in parts_of(line):
        if isinstance(p, str):
            import re
            for b in re.split('( +)', p):
                if not b:
                    continue
                if b[0] == ' ':
                    sp(Const(len(b)))
                elif res and isinstance(res[-1], str):
                    res[-1] += b
                else:
                    res.append(b)
        elif is_space(p):
            sp(space_len(p))
        else:
            res.append(p)
    return res


def trim(line):
    """The line without trailing blanks (as tokens)."""
    t = toks(line)
    while t and isinstance(t[-1], tuple):
        t.pop()
    return t


def same_line(a, b, trailing=False):
    return (toks(a) == toks(b)) if trailing else (trim(a) == trim(b))


def norm(v):
    """Comparable form of a text: trimmed token lines."""
    return [tuple(trim(l)) for l in lines(v)]


def same_int(a, b):
    return ladd(a, b, -1) == ZERO


def vis(line):
    return strs.vlen(line)


def plain(v):
    """Without ANSI escape sequences."""
    return renorm(strs.strip_ansi(v))


def no_case(v):
    return v


def text_atoms(v, into=None):
    """The symbolic text runs of v, left to right, looking through operations
    that keep the text (case mapping, spreading, whole-range joins).
    ('partial', atom) marks a truncated run."""
    res = []
    for p in parts_of(v):
        if isinstance(p, str):
            continue
        res += _atoms(p)
    return res


def _atoms(p):
    if isinstance(p, Sym):
        return [p]
    if isinstance(p, Const):
        return []
    if isinstance(p, Str):
        return text_atoms(p)
    if isinstance(p, Fn):
        op = p.op
        if op in ('upper', 'lower', 'swapcase', 'title', 'capitalize', 'casefold', 'stripansi', 'expandtabs', 'urlclean'):
            return text_atoms(p.args[0])
        if op in ('strip', 'lstrip', 'rstrip'):
            return text_atoms(p.args[0])
        if op in ('int->str', 'nl?', 'none->str'):
            return []
        if op == 'rep':
            inner = text_atoms(p.args[0])
            if inner:
                return [('repeated', a) for a in inner]
            return []
        if op == 'slice':
            return [('partial', a) if not isinstance(a, tuple) else a for a in text_atoms(p.args[0])]
        if op == 'replace':
            return text_atoms(p.args[0])
        if op == 're.sub':
            return text_atoms(p.args[2])
        if op in ('center', 'ljust', 'rjust'):
            return text_atoms(p.args[0])
        if op == 'join':
            res = []
            for s in p.args[1].items:
                if isinstance(s, Many):
                    res += _many(s)
                else:
                    res += text_atoms(s)
            return res
    raise Undecided('cannot tell which text is in %s' % show(p)[:300])


def _many(s):
    src = s.src
    if not isinstance(src, Fn) or src.op not in ('chars', 'split', 'wssplit', 'splitlines'):
        raise Undecided('cannot tell which text is in %s' % show(s)[:300])
    if s.lo is not None or s.hi is not None or len(s.alts) != 1:
        return [('partial', a) for a in text_atoms(src.args[0])]
    n = 0
    for x in s.alts[0]:
        for q in walk(x):
            if isinstance(q, Fn) and q.op == 'elem' and q.args[0] == src:
                n += 1
    if n != 1:
        # lengths of the element may be mentioned in padding; count text uses only
        n = sum(_uses(x, src) for x in s.alts[0])
    a = text_atoms(src.args[0])
    if n == 1:
        return a
    return [('dropped' if n == 0 else 'repeated', x) for x in a]


def _uses(x, src):
    n = 0
    for p in parts_of(x):
        if isinstance(p, Fn):
            if p.op == 'elem' and p.args[0] == src:
                n += 1
            elif p.op in ('upper', 'lower', 'stripansi', 'strip', 'rstrip', 'lstrip', 'center', 'ljust', 'rjust'):
                n += _uses(p.args[0], src)
            elif p.op == 'rep':
                continue
            elif any(isinstance(q, Fn) and q.op == 'elem' and q.args[0] == src for q in walk(p)):
                raise Undecided('cannot tell how often text is used in %s' % show(p)[:300])
    return n


def words(*names, sep=' '):
    out_ = []
    for i, n in enumerate(names):
        if i:
            out_.append(sep)
        out_.append(Sym(n, 'str', (FLAG_DOC, FLAG_WORD)) if isinstance(n, str) else n)
    return mkstr(out_)


def W(n):
    return Sym(n, 'str', (FLAG_DOC, FLAG_WORD))


def skel(v):
    """A readable flattening: symbolic runs as ⟨name⟩ (⟨name:part⟩ when cut or
    changed), runs of blanks of unknown length as one blank."""
    res = []
    for p in parts_of(v):
        if isinstance(p, str):
            res.append(p)
        else:
            res.append(_skel(p))
    return ''.join(res)


def _skel(p):
    if isinstance(p, Sym):
        return '⟨%s⟩' % p.name
    if isinstance(p, Const):
        return p.v if isinstance(p.v, str) else str(p.v)
    if isinstance(p, Str):
        return skel(p)
    if isinstance(p, Fn):
        if is_space(p):
            return ' '
        if p.op == 'rep' and isinstance(p.args[0], Const):
            return p.args[0].v[:1]
        if p.op in ('strip', 'lstrip', 'rstrip') and isinstance(p.args[0], Sym):
            return _skel(p.args[0])
        names = []
        for q in walk(p):
            if isinstance(q, Sym) and FLAG_DOC in q.flags and q.name not in names:
                names.append(q.name)
        if p.op in ('int->str', 'nl?', 'none->str'):
            return '⟨%s⟩' % show(p) if p.op == 'int->str' else ''
        return '⟨%s:part⟩' % '+'.join(names) if names else '⟨%s⟩' % show(p)
    return '⟨%s⟩' % show(p)
