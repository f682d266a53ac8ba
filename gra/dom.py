"""Abstract domain: immutable value terms and the abstract heap.

Value terms are provenance expressions: a string is a sequence of literal
pieces, symbolic atoms and applications of library string functions; an int is
a linear expression over atoms; everything mutable lives in the abstract heap.
"""
import re

FLAG_NONL, FLAG_NOANSI, FLAG_NOBRACE, FLAG_DOC = 'nonl', 'noansi', 'nobrace', 'doc'
FLAG_BRACE = 'brace'            # may contain braces all the same
FLAG_WORD = 'word'              # non-empty, no whitespace, ESC or braces
FLAG_NONNEG, FLAG_NONEMPTY, FLAG_OPT, FLAG_POS = 'nonneg', 'nonempty', 'opt', 'pos'


class Term:
    __slots__ = ('k', 'h', 'r')

    def __init__(self, *k):
        self.k = k
        self.h = hash((type(self).__name__, k))
        self.r = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.h == o.h and self.k == o.k)

    def __repr__(self):
        return show(self)


class Const(Term):
    """A known immutable Python constant."""
    def __init__(self, v):
        super().__init__(v.__class__.__name__, v)

    @property
    def v(self):
        return self.k[1]


class Tup(Term):
    def __init__(self, items):
        super().__init__(tuple(items))

    @property
    def items(self):
        return self.k[0]


class Lin(Term):
    """c0 + sum(c_i * atom_i) ; atoms are int-valued terms."""
    @property
    def coef(self):
        return self.k[0]

    @property
    def c(self):
        return self.k[1]


class Str(Term):
    """Concatenation: parts are python str (literal) or str-kind terms."""
    @property
    def parts(self):
        return self.k[0]


class Sym(Term):
    def __init__(self, name, kind, flags=()):
        super().__init__(name, kind, frozenset(flags))

    name = property(lambda s: s.k[0])
    kind = property(lambda s: s.k[1])
    flags = property(lambda s: s.k[2])


class Fn(Term):
    """Uninterpreted application of a library function (op) to terms."""
    def __init__(self, op, args, kind='any'):
        super().__init__(op, tuple(args), kind)

    op = property(lambda s: s.k[0])
    args = property(lambda s: s.k[1])
    kind = property(lambda s: s.k[2])


class Many(Term):
    """Zero or more list elements: for each element of `src` (positions lo..hi)
    the values of one of `alts` (a tuple of alternatives; each a tuple)."""
    def __init__(self, alts, src=None, lo=None, hi=None):
        super().__init__(tuple(alts), src, lo, hi)

    alts = property(lambda s: s.k[0])
    src = property(lambda s: s.k[1])
    lo = property(lambda s: s.k[2])
    hi = property(lambda s: s.k[3])


class Union(Term):
    """One of a finite set of values (result of a join)."""
    def __init__(self, vals):
        super().__init__(tuple(vals))

    vals = property(lambda s: s.k[0])


class Ref(Term):
    def __init__(self, a):
        super().__init__(a)

    a = property(lambda s: s.k[0])


class Func(Term):
    """A function of the analysed program; uid indexes interp.funcs."""
    def __init__(self, uid):
        super().__init__(uid)

    uid = property(lambda s: s.k[0])


class Bound(Term):
    def __init__(self, fn, self_):
        super().__init__(fn, self_)

    fn = property(lambda s: s.k[0])
    self_ = property(lambda s: s.k[1])


class Builtin(Term):
    def __init__(self, name):
        super().__init__(name)

    name = property(lambda s: s.k[0])


class Method(Term):
    """Method `name` of a value of builtin type."""
    def __init__(self, self_, name):
        super().__init__(self_, name)

    self_ = property(lambda s: s.k[0])
    name = property(lambda s: s.k[1])


class Super(Term):
    def __init__(self, cls, self_):
        super().__init__(cls, self_)

    cls = property(lambda s: s.k[0])
    self_ = property(lambda s: s.k[1])


class Prop(Term):
    def __init__(self, fget, fset=None, fdel=None):
        super().__init__(fget, fset, fdel)

    fget = property(lambda s: s.k[0])
    fset = property(lambda s: s.k[1])
    fdel = property(lambda s: s.k[2])


class StaticM(Term):
    pass


class ClassM(Term):
    pass


class ExtPy(Term):
    """A third-party library object (parsed CSS selector), used as a model."""
    def __init__(self, obj):
        self.k = (id(obj),)
        self.h = hash(('ExtPy', id(obj)))
        EXT[id(obj)] = obj

    obj = property(lambda s: EXT[s.k[0]])


EXT = {}

NONE, TRUE, FALSE = Const(None), Const(True), Const(False)
ZERO, ONE = Const(0), Const(1)
NONESTR = Fn('none->str', (), 'str')      # the text "None" made from a None value
OPTNL = Fn('nl?', (), 'str')              # line terminator kept by splitlines(keepends)


# ---------------------------------------------------------------- ints
def lin(coef, c):
    coef = {a: k for a, k in coef.items() if k}
    if not coef:
        return Const(c)
    return Lin(tuple(sorted(coef.items(), key=lambda p: repr(p[0]))), c)


def as_lin(v):
    """(dict, const) of an int-kind term, or None."""
    if isinstance(v, Const):
        if isinstance(v.v, (bool, int)):
            return {}, int(v.v)
        return None
    if isinstance(v, Lin):
        return dict(v.coef), v.c
    if kind(v) in ('int', 'any', 'bool'):
        return {v: 1}, 0
    return None


def ladd(a, b, sign=1):
    la, lb = as_lin(a), as_lin(b)
    if la is None or lb is None:
        return None
    d = dict(la[0])
    for k, v in lb[0].items():
        d[k] = d.get(k, 0) + sign * v
    return lin(d, la[1] + sign * lb[1])


def lmul(a, b):
    la, lb = as_lin(a), as_lin(b)
    if la is None or lb is None:
        return None
    if not la[0]:
        return lin({k: v * la[1] for k, v in lb[0].items()}, lb[1] * la[1])
    if not lb[0]:
        return lmul(b, a)
    # bilinear product: distribute, canonical product atoms
    d = {}
    c = la[1] * lb[1]
    for k, v in la[0].items():
        d[k] = d.get(k, 0) + v * lb[1]
    for k, v in lb[0].items():
        d[k] = d.get(k, 0) + v * la[1]
    for k1, v1 in la[0].items():
        for k2, v2 in lb[0].items():
            p = Fn('*', tuple(sorted((k1, k2), key=repr)), 'int')
            d[p] = d.get(p, 0) + v1 * v2
    return lin(d, c)


# ---------------------------------------------------------------- kinds
def kind(v):
    if isinstance(v, Const):
        t = v.k[0]
        return {'NoneType': 'none'}.get(t, t)
    if isinstance(v, Lin):
        return 'int'
    if isinstance(v, Str):
        return 'str'
    if isinstance(v, (Sym, Fn)):
        return v.kind
    if isinstance(v, Tup):
        return 'tuple'
    if isinstance(v, (Func, Bound, Builtin, Method)):
        return 'func'
    if isinstance(v, Ref):
        return 'ref'
    return 'any'


def is_str(v):
    return kind(v) == 'str'


def is_int(v):
    return kind(v) in ('int', 'bool')


# ---------------------------------------------------------------- strings
def parts_of(v):
    if isinstance(v, Const):
        if v.v == '' and isinstance(v.v, str):
            return ()
        return (v.v,)
    if isinstance(v, Str):
        return v.parts
    return (v,)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Const):
            p = p.v
        if isinstance(p, Str):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '':
                    out.append(q)
            continue
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return Const('')
    if len(out) == 1:
        return Const(out[0]) if isinstance(out[0], str) else out[0]
    t = Str()
    t.k = (tuple(out),)
    t.h = hash(('Str', t.k))
    return t


def mkrep(s, n):
    """s * n for a string s and int n."""
    if isinstance(n, Const):
        if isinstance(s, Const):
            return Const(s.v * int(n.v))
        return mkstr([s] * max(0, int(n.v)))
    if isinstance(s, Const) and s.v == '':
        return s
    return Fn('rep', (s, n), 'str')


def mkjoin(sep, segs):
    """sep.join(segs); exact when there is no Many segment."""
    segs = tuple(segs)
    if not any(isinstance(s, Many) for s in segs):
        out = []
        for i, s in enumerate(segs):
            if i:
                out.append(sep)
            out.append(s)
        return mkstr(out)
    if isinstance(sep, Const) and sep.v == '':
        out = []
        for s in segs:
            if isinstance(s, Many):
                out.append(Fn('join', (sep, Tup((s,))), 'str'))
            else:
                out.append(s)
        return mkstr(out)
    return Fn('join', (sep, Tup(segs)), 'str')


ANSI = re.compile('\x1b\\[[;0-9]*m')


# ---------------------------------------------------------------- heap objects
class O:
    __slots__ = ()

    def clone(self):
        raise NotImplementedError


class ListO(O):
    __slots__ = ('segs', 'cls')

    def __init__(self, segs=(), cls='list'):
        self.segs = tuple(segs)
        self.cls = cls

    def clone(self):
        return ListO(self.segs, self.cls)

    def content(self):
        return ('list', self.cls, self.segs)


class DictO(O):
    __slots__ = ('d', 'rest')

    def __init__(self, d=None, rest=None):
        self.d = dict(d or {})
        self.rest = rest

    def clone(self):
        return DictO(self.d, self.rest)

    def content(self):
        return ('dict', tuple(self.d.items()), self.rest)


class InstO(O):
    __slots__ = ('cls', 'attrs', 'data')

    def __init__(self, cls, attrs=None, data=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.data = data          # ListO / DictO payload for list/dict subclasses, or ext payload

    def clone(self):
        return InstO(self.cls, self.attrs, self.data.clone() if isinstance(self.data, O) else self.data)

    def content(self):
        return ('inst', self.cls, tuple(sorted(self.attrs.items())),
                self.data.content() if isinstance(self.data, O) else self.data)


class ClassO(O):
    __slots__ = ('name', 'bases', 'mro', 'ns', 'meta', 'qual', 'ext')

    def __init__(self, name, bases=(), ns=None, meta=None, qual=None, ext=None):
        self.name, self.bases, self.ns, self.meta = name, tuple(bases), dict(ns or {}), meta
        self.mro = ()
        self.qual = qual or name
        self.ext = ext

    def clone(self):
        c = ClassO(self.name, self.bases, self.ns, self.meta, self.qual, self.ext)
        c.mro = self.mro
        return c

    def content(self):
        return ('class', self.name, self.bases, tuple(sorted(self.ns.items())))


class ModO(O):
    __slots__ = ('name', 'ns', 'ext')

    def __init__(self, name, ns=None, ext=False):
        self.name, self.ns, self.ext = name, dict(ns or {}), ext

    def clone(self):
        return ModO(self.name, self.ns, self.ext)

    def content(self):
        return ('mod', self.name, tuple(sorted(self.ns.items())))


class FrameO(O):
    __slots__ = ('vars', 'parent', 'mod', 'fn', 'captured', 'glob', 'nonl', 'is_class')

    def __init__(self, mod, parent=None, fn=None, is_class=False):
        self.vars, self.parent, self.mod, self.fn = {}, parent, mod, fn
        self.captured = False
        self.glob = frozenset()
        self.nonl = frozenset()
        self.is_class = is_class

    def clone(self):
        f = FrameO(self.mod, self.parent, self.fn, self.is_class)
        f.vars = dict(self.vars)
        f.captured, f.glob, f.nonl = self.captured, self.glob, self.nonl
        return f

    def content(self):
        return ('frame', tuple(sorted(self.vars.items())))


def show(v, depth=0):
    if depth > 12:
        return '...'
    d = depth + 1
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Tup):
        return '(' + ', '.join(show(x, d) for x in v.items) + ')'
    if isinstance(v, Lin):
        s = []
        for a, k in v.coef:
            s.append(('%+d*' % k if k not in (1, -1) else ('+' if k == 1 else '-')) + show(a, d))
        if v.c:
            s.append('%+d' % v.c)
        return '(' + ''.join(s).lstrip('+') + ')'
    if isinstance(v, Str):
        return '{' + ' . '.join(show(p, d) for p in v.parts) + '}'
    if isinstance(v, Sym):
        return str(v.name)
    if isinstance(v, Fn):
        return '%s(%s)' % (v.op, ', '.join(show(a, d) for a in v.args))
    if isinstance(v, Many):
        return 'each[%s:%s] of %s -> %s' % (
            '' if v.lo is None else show(v.lo, d), '' if v.hi is None else show(v.hi, d),
            show(v.src, d) if v.src is not None else '?',
            ' | '.join('[' + ', '.join(show(x, d) for x in a) + ']' for a in v.alts))
    if isinstance(v, Union):
        return 'either(' + ', '.join(show(x, d) for x in v.vals) + ')'
    if isinstance(v, Ref):
        return '@%s' % v.a
    if isinstance(v, Func):
        return 'fn#%s' % (v.uid,)
    if isinstance(v, Term):
        return type(v).__name__ + repr(v.k)
    return repr(v)


def refs_of(v):
    """The heap references among the sub-terms of a term, in order."""
    if isinstance(v, ExtPy):
        return ()
    if isinstance(v, Term):
        if v.r is None:
            v.r = (v,) if isinstance(v, Ref) else refs_of(v.k)
        return v.r
    if isinstance(v, tuple):
        return tuple(r for x in v for r in refs_of(x))
    return ()


def walk(v):
    """All sub-terms of a term."""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            yield x
            for k in x.k:
                if isinstance(x, ExtPy):
                    break
                stack.append(k)
        elif isinstance(x, tuple):
            stack.extend(x)


def subst(v, old, new, memo=None):
    if memo is None:
        memo = {}
    if v == old:
        return new
    if isinstance(v, (Const, Ref, Func, Builtin, ExtPy, Sym)):
        return v
    if isinstance(v, Term):
        r = memo.get(v)
        if r is None:
            r = memo[v] = _subst(v, old, new, memo)
        return r
    if isinstance(v, tuple):
        return tuple(subst(x, old, new, memo) for x in v)
    return v


def _subst(v, old, new, memo):
    k = tuple(subst(x, old, new, memo) for x in v.k)
    if k == v.k:
        return v
    if isinstance(v, Lin):
        r = Const(v.c)
        for a, n in v.coef:
            r = ladd(r, lmul(subst(a, old, new, memo), Const(n)))
        return r
    t = v.__class__.__new__(v.__class__)
    t.k = k
    t.h = hash((type(v).__name__, k))
    t.r = None
    if isinstance(v, Fn) and v.kind == 'int' and len(t.args) == 2 and all(isinstance(x, Const) and type(x.v) is int for x in t.args):
        a, b = t.args[0].v, t.args[1].v
        if t.op == 'BitAnd':
            return Const(a & b)
        if b and t.op in ('//', '%'):
            return Const(a // b if t.op == '//' else a % b)
    return t
