"""Disjunctive abstract interpreter over the syntax tree of the analysed package.

Every statement maps a set of abstract states to a set of abstract states.
Unknown conditions split the state and record a branch fact; states that agree
are merged again at control-flow joins; loops over sequences of unknown length
are solved by fixpoint iteration with widening.  Nothing of the analysed
program is imported or executed, and no path condition goes to a solver.
"""
import ast
import builtins as pybuiltins
import os

from . import poly
from .dom import *
from .state import State, bisim, changed, fingerprint, is_opt, fresh_addr

REC_LIMIT = 14
STATE_CAP = 3000


class Gap(Exception):
    """The analysis cannot proceed (not a verdict)."""


class FuncInfo:
    __slots__ = ('node', 'closure', 'defaults', 'kwdefaults', 'qual', 'mod', 'clsframe', 'clsname', 'isgen', 'file', 'locals')


EXC_TREE = {
    'BaseException': 'object', 'Exception': 'BaseException', 'SystemExit': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'GeneratorExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'EOFError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'OSError': 'Exception',
    'FileNotFoundError': 'OSError', 'RuntimeError': 'Exception', 'RecursionError': 'RuntimeError',
    'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception', 'TypeError': 'Exception',
    'ValueError': 'Exception', 'UnicodeError': 'ValueError', 'Warning': 'Exception', 'UserWarning': 'Warning',
    'DeprecationWarning': 'Warning',
}
EXC_ALIASES = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}


class Interp:
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.st0 = State()
        self.mods = {}             # dotted name -> Ref
        self.trees = {}
        self.funcs = {}
        self.cls_of_frame = {}
        self.coll = [[]]
        self.cur = None            # (file, node) most recent statement
        self.visited = set()       # function quals interpreted
        self.stmts = set()         # statements interpreted (file, line)
        self.calls = 0
        self.gaps = []             # imprecision notes
        self.mark = None           # addresses <= mark are "external" for mutation events
        self.client_n = 0
        self.opts = {}
        from . import lib
        self.lib = lib
        self.classes = {}
        self._mk_builtins()

    # ------------------------------------------------------------ set-up
    def _mk_builtins(self):
        st = self.st0
        self.builtins = {}

        def mk(name, bases, ns=None, meta=None):
            r = st.alloc(ClassO(name, bases, ns, meta, ext=name))
            st.get(r.a).mro = self._c3(st, r)
            self.classes[name] = r
            self.builtins[name] = r
            return r
        obj = mk('object', (), {m: Builtin('object.' + m) for m in (
            '__new__', '__init__', '__getattribute__', '__setattr__', '__delattr__', '__eq__', '__ne__',
            '__hash__', '__repr__', '__str__', '__init_subclass__', '__format__', '__dir__')})
        mk('type', (obj,), {'__new__': Builtin('type.__new__'), '__init__': Builtin('type.__init__'),
                            '__call__': Builtin('type.__call__')})
        for b in ('int', 'float', 'str', 'bytes', 'list', 'dict', 'tuple', 'set', 'frozenset', 'slice', 'complex'):
            mk(b, (obj,), {'__init__': Builtin(b + '.__init__'), '__new__': Builtin(b + '.__new__')})
        mk('bool', (self.classes['int'],))
        for e, p in EXC_TREE.items():
            mk(e, (self.classes[p],), {'__init__': Builtin('exc.__init__'), '__str__': Builtin('exc.__str__')} if e == 'BaseException' else {})
        for a, e in EXC_ALIASES.items():
            self.builtins[a] = self.classes[e]
        for n in self.lib.BUILTIN_FUNCS:
            self.builtins[n] = Builtin(n)
        self.builtins['NotImplemented'] = Sym('NotImplemented', 'any')
        self.builtins['Ellipsis'] = Const(Ellipsis)
        self.builtins['__name__'] = Const('builtins')
        self.lib.setup(self, mk)

    def _c3(self, st, r):
        o = st.get(r.a)
        seqs = [list(st.get(b.a).mro) for b in o.bases if isinstance(st.obj(b), ClassO)]
        seqs.append([b for b in o.bases if isinstance(st.obj(b), ClassO)])
        out = [r]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Gap('inconsistent MRO for %s' % o.name)
            out.append(c)
            seqs = [[x for x in s if x != c] for s in seqs]
            seqs = [s for s in seqs if s]
        return tuple(out)

    def mod_path(self, name):
        rel = name.split('.')
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name, st=None):
        """Abstractly evaluate a module of the analysed package (once)."""
        if name in self.mods:
            return self.mods[name]
        st = self.st0 if st is None else st
        stub = self.opts.get('stubs', {}).get(name)
        if stub is not None:
            # a stand-in for a library, interpreted like the program
            return self._exec_module(name, ast.parse(stub, name), '<%s>' % name, st, True)
        path, ispkg = self.mod_path(name)
        if path is None:
            m = self.lib.ext_module(self, st, name)
            self.mods[name] = m
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0], st)
            if name in self.mods:
                return self.mods[name]
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        self.trees[name] = (path, tree)
        return self._exec_module(name, tree, path, st, ispkg)

    def _exec_module(self, name, tree, path, st, ispkg):
        m = st.alloc(ModO(name, {'__name__': Const(name), '__file__': Const(path)}))
        self.mods[name] = m
        pk = name if ispkg else name.rpartition('.')[0]
        st.get(m.a).ns['__package__'] = Const(pk)
        fr = st.alloc(FrameO(m.a, None, ('<module>', path)))
        saved = st.frame
        st.frame = fr.a
        n0 = len(self.coll[-1])
        outs = self.ex(tree.body, st)
        outs = [o for o in outs if o[0] == 'next']
        if len(outs) != 1 or len(self.coll[-1]) != n0:
            errs = [self.describe_exc(s, e) for s, e, _ in self.coll[-1][n0:]]
            raise Gap('module %s does not evaluate to a single state (%d outcomes) %s' % (name, len(outs), errs))
        s = outs[0][1]
        if s is not st:
            for a in State.__slots__:
                setattr(st, a, getattr(s, a))
        st.frame = saved
        if '.' in name:
            p, c = name.rsplit('.', 1)
            if p in self.mods:
                st.mut(self.mods[p].a).ns[c] = m
        return m

    def freeze(self):
        b = dict(self.st0.base)
        b.update(self.st0.heap)
        self.st0.base, self.st0.heap = b, {}
        self.mark = fresh_addr()

    def new_state(self):
        s = State(self.st0.base)
        s.heap = dict(self.st0.heap)
        return s

    # ------------------------------------------------------------ helpers
    def where(self):
        if not self.cur:
            return '?'
        f, n = self.cur
        return '%s:%s' % (os.path.relpath(f, self.root) if f.startswith(self.root) else f, getattr(n, 'lineno', '?'))

    def gap(self, what):
        g = (self.where(), what)
        if g not in self.gaps:
            self.gaps.append(g)

    def raise_(self, st, name, msg='', node=None):
        cls = self.classes[name]
        e = st.alloc(InstO(cls, {'args': Tup((Const(msg),))}, ('exc', msg, self.where(), self.trace(st))))
        self.coll[-1].append((st, e, self.cur))
        return []

    def trace(self, st):
        return tuple(self.funcs[u].qual for u in st.stack)

    def describe_exc(self, st, e):
        o = st.obj(e)
        if isinstance(o, InstO):
            c = st.get(o.cls.a).name
            if isinstance(o.data, tuple) and o.data[0] == 'exc':
                return '%s(%s) at %s via %s' % (c, o.data[1], o.data[2], ' > '.join(o.data[3]))
            return c
        return show(e)

    def exc_name(self, st, e):
        o = st.obj(e)
        return st.get(o.cls.a).name if isinstance(o, InstO) else '?'

    def mutating(self, st, a, what):
        if self.mark is not None and a <= self.mark:
            st.event('mutate', a, what, self.where(), self.trace(st))
        return st.mut(a)

    def expand(self, st, v):
        """Split on the alternatives of a joined value."""
        if isinstance(v, Union):
            return [(st.copy(), x) for x in v.vals]
        return [(st, v)]

    def dedupe(self, items, val=lambda i: i[1], state=lambda i: i[0]):
        """Merge outcomes whose state and value agree."""
        if len(items) <= 1:
            return items
        out, by = [], {}
        many = len(items) > 6
        roots = changed([state(it) for it in items]) if many else ()
        for it in items:
            s, v = state(it), val(it)
            near = by.setdefault(fingerprint(s, v, roots) if many else 0, [])
            for jt in near:
                t, w = state(jt), val(jt)
                if self.same(s, v, t, w):
                    self._meet_facts(t, s)
                    break
            else:
                out.append(it)
                near.append(it)
        return out

    def same(self, s, v, t, w):
        if s.frame != t.frame or s.ev != t.ev or self.opts.get('nomerge'):
            return False
        if (v is None) != (w is None):
            return False
        # cheap rejections: the value, then the variables at hand
        f = s.frame
        if v is not None and self._differ(v, w):
            return False
        if f is not None:
            a, b = s.get(f), t.get(f)
            if a is not b:
                if a.vars.keys() != b.vars.keys():
                    return False
                for k, x in a.vars.items():
                    if self._differ(x, b.vars[k]):
                        return False
        amap = {}
        # cheap rejection on shared pre-existing objects
        for a, o in s.heap.items():
            p = t.heap.get(a)
            if p is not None and p is not o and p.content() != o.content():
                if not bisim(s, Ref(a), t, Ref(a), amap):
                    return False
        for a in s.heap:
            if a not in t.heap and a in t.base:
                return False
        for a in t.heap:
            if a not in s.heap and a in s.base:
                return False
        if v is not None and not bisim(s, v, t, w, amap):
            return False
        f = s.frame
        if f is not None and not bisim(s, Ref(f), t, Ref(f), amap):
            return False
        return True

    @staticmethod
    def _differ(v, w):
        """Surely different values (whatever the states)?"""
        if v is w:
            return False
        if type(v) is not type(w):
            return True
        return isinstance(v, (Const, Sym)) and v != w

    @staticmethod
    def _meet_facts(t, s):
        t.facts = {k: v for k, v in t.facts.items() if s.facts.get(k) == v}
        t.eq = {k: v for k, v in t.eq.items() if s.eq.get(k) == v}
        t.ne = {k: v & s.ne[k] for k, v in t.ne.items() if k in s.ne}
        t.sign = {k: v | s.sign[k] for k, v in t.sign.items() if k in s.sign}

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        """[(state, bool)] of bool(v), refining facts."""
        v = st.resolve(v)
        if isinstance(v, Union):
            return [r for s, x in self.expand(st, v) for r in self.truth(s, x)]
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, Tup):
            return [(st, len(v.items) > 0)]
        if isinstance(v, (Func, Bound, Builtin, Method, ExtPy, Prop)):
            return [(st, True)]
        if isinstance(v, Ref):
            o = st.get(v.a)
            if isinstance(o, InstO):
                for nm in ('__bool__', '__len__'):
                    f = self.mro_find(st, o.cls, nm)
                    if f is not None and isinstance(f[0], Func):
                        return [r for s, x in self.call(st, Bound(f[0], v), [], {}) for r in self.truth(s, x)]
                if isinstance(o.data, (ListO, DictO)):
                    return self._truth_cont(st, v, o.data)
                return [(st, True)]
            if isinstance(o, (ListO, DictO)):
                return self._truth_cont(st, v, o)
            return [(st, True)]
        if isinstance(v, Lin) or (isinstance(v, (Sym, Fn)) and kind(v) == 'int'):
            return [r for s, x in [(st, self.cmp_lin('!=', v, ZERO))] for r in self.truth(s, x)]
        if isinstance(v, Fn) and v.op in ('match', 'regex'):
            return [(st, True)]
        if isinstance(v, Fn) and v.op == 'sgn':
            return self._truth_sgn(st, v)
        if isinstance(v, Fn) and v.op == 'not':
            return [(s, not b) for s, b in self.truth(st, v.args[0])]
        if isinstance(v, Fn) and v.op == 'eq':
            return self._truth_eq(st, v)
        if isinstance(v, Str):
            if any(isinstance(p, str) for p in v.parts) or any(self.nonempty(st, p) for p in v.parts):
                return [(st, True)]
            return self.split(st, Fn('bool', (v,), 'bool'))
        if is_str(v) or kind(v) == 'any' or kind(v) in ('list', 'dict', 'obj'):
            if st.known_none(v):
                return [(st, False)]
            if self.nonempty(st, v):
                return [(st, True)]
            t = Fn('bool', (v,), 'bool')
            out = []
            for s, b in self.split(st, t):
                if b and is_opt(v):
                    s.facts[Fn('isnone', (v,), 'bool')] = False
                if not b and kind(v) == 'str' and not is_opt(v):
                    s.eq[v] = Const('')
                if b and kind(v) == 'str':
                    s.ne[v] = s.ne.get(v, frozenset()) | {Const('')}
                out.append((s, b))
            return out
        if kind(v) == 'bool':
            return self.split(st, v)
        return self.split(st, Fn('bool', (v,), 'bool'))

    def nonempty(self, st, v):
        if isinstance(v, Sym) and (FLAG_NONEMPTY in v.flags or FLAG_WORD in v.flags):
            return True
        if isinstance(v, Const):
            return isinstance(v.v, str) and v.v != ''
        if isinstance(v, Str):
            if any(isinstance(p, str) or self.nonempty(st, p) for p in parts_of(v)):
                return True
            # runs of blanks that together have a positive length
            n = ZERO
            reps = [p for p in parts_of(v) if isinstance(p, Fn) and p.op == 'rep' and isinstance(p.args[0], Const) and p.args[0].v]
            if len(reps) < 2:
                return False
            for p in reps:
                n = ladd(n, p.args[1])
            return n is not None and self.surely(st, '>', n)
        if isinstance(v, Fn) and v.op in ('upper', 'lower', 'swapcase'):
            return self.nonempty(st, v.args[0])
        if isinstance(v, Fn) and v.op == 'join' and all(isinstance(s, Many) or self.nonempty(st, s) for s in v.args[1].items) \
                and any(not isinstance(s, Many) or isinstance(s.src, Fn) and s.src.op == 'chars' and self.lib.many_nonempty(self, st, s)
                        and all(any(isinstance(x, Fn) and x.op == 'elem' and x.args[0] == s.src or self.nonempty(st, x) for x in a) for a in s.alts)
                        for s in v.args[1].items):
            return True
        if isinstance(v, Fn) and v.op == 'rep':
            return (v.args[0] != Const('') and isinstance(v.args[0], Const) or self.nonempty(st, v.args[0])) \
                and self.surely(st, '>', v.args[1])
        if isinstance(v, Fn) and v.op in ('int->str', 'take', 'drop'):
            return True
        if isinstance(v, Fn) and v.op == 'slice' and v.args[1] in (NONE, Const(0)) and isinstance(v.args[2], Const) \
                and isinstance(v.args[2].v, int) and v.args[2].v > 0:
            return self.nonempty(st, v.args[0])
        if isinstance(v, (Sym, Fn)) and kind(v) == 'str' and Const('') in st.ne.get(v, ()):
            return True
        return False

    def _truth_cont(self, st, v, o):
        if isinstance(o, DictO):
            if o.d:
                return [(st, True)]
            if o.rest is None:
                return [(st, False)]
            return self.split(st, Fn('nonempty', (o.rest,), 'bool'))
        if any(not isinstance(s, Many) for s in o.segs):
            return [(st, True)]
        if not o.segs:
            return [(st, False)]
        return self.truth(st, self.cmp_lin('>', self.lib.len_segs(self, st, o.segs), ZERO))

    def split(self, st, t):
        if t in st.facts:
            return [(st, st.facts[t])]
        s2 = st.copy()
        st.facts[t] = True
        s2.facts[t] = False
        return [(st, True), (s2, False)]

    def cmp_lin(self, op, a, b):
        d = ladd(a, b, -1)
        if d is None:
            return Fn('cmp' + op, (a, b), 'bool')
        allowed = {'<': (-1,), '<=': (-1, 0), '>': (1,), '>=': (0, 1), '==': (0,), '!=': (-1, 1)}[op]
        if isinstance(d, Const):
            s = (d.v > 0) - (d.v < 0)
            return Const(s in allowed)
        coef, c = as_lin(d)
        first = sorted(coef.items(), key=lambda p: repr(p[0]))[0][1]
        if first < 0:
            d = lmul(d, Const(-1))
            allowed = tuple(sorted(-x for x in allowed))
        return Fn('sgn', (d, Tup(tuple(Const(x) for x in allowed))), 'bool')

    def assume_cmp(self, st, op, a, b):
        t = self.cmp_lin(op, a, b)
        if isinstance(t, Fn) and t.op == 'sgn':
            d, ok = t.args[0], frozenset(x.v for x in t.args[1].items)
            st.sign[d] = st.sign.get(d, frozenset((-1, 0, 1))) & ok

    def surely(self, st, op, a, b=ZERO):
        t = self.cmp_lin(op, a, b)
        if isinstance(t, Const):
            return bool(t.v)
        if t.op != 'sgn':
            return False
        return self.signs(st, t.args[0]) <= frozenset(x.v for x in t.args[1].items)

    def int_nonneg(self, st, a):
        if isinstance(a, Sym):
            return bool({FLAG_NONNEG, FLAG_POS} & a.flags)
        if isinstance(a, Fn):
            if a.op in ('len', 'vlen', 'seqlen', 'index'):
                return True
            if a.op == '*':
                return all(self.int_nonneg(st, x) for x in a.args)
        return False

    def int_pos(self, st, a):
        if isinstance(a, Sym):
            return FLAG_POS in a.flags
        if isinstance(a, Fn) and a.op == 'seqlen':
            return self.lib.src_nonempty(a.args[0])
        if isinstance(a, Fn) and a.op in ('len', 'vlen') and a.op == 'len':
            return self.nonempty(st, a.args[0])
        return False

    def signs(self, st, d, basic=0):
        poss = st.sign.get(d)
        if poss is not None and len(poss) == 1:
            return poss
        coef, c = as_lin(d)
        # bounds from the known signs of the atoms (integers)
        lo = hi = c
        for a, k in coef.items():
            m = 1 if self.int_pos(st, a) else (0 if self.int_nonneg(st, a) else None)
            if k > 0:
                lo = None if m is None or lo is None else lo + k * m
                hi = None
            else:
                hi = None if m is None or hi is None else hi + k * m
                lo = None
        if isinstance(d, Lin) and st.sign:
            # bounds from what is known about the same sum with another constant
            for e, s0 in st.sign.items():
                if isinstance(e, Lin) and e.coef == d.coef:
                    x = c - e.c
                    if -1 not in s0:
                        b = x + (0 if 0 in s0 else 1)
                        lo = b if lo is None else max(lo, b)
                    if 1 not in s0:
                        b = x - (0 if 0 in s0 else 1)
                        hi = b if hi is None else min(hi, b)
        r = frozenset(x for x in (-1, 0, 1)
                      if not (lo is not None and (lo > 0 and x < 1 or lo == 0 and x < 0))
                      and not (hi is not None and (hi < 0 and x > -1 or hi == 0 and x > 0)))
        if poss is not None:
            r &= poss
        if len(r) > 1 and basic < 2 and self.opts.get('exact'):
            r = self._sum_facts(st, d, r, basic, not basic)
            if len(r) > 1 and not basic and any(isinstance(a, Fn) and a.op in ('//', 'BitAnd') for a in coef):
                r = poly.signs(self, st, d, r)
        return r

    def _sum_facts(self, st, d, r, basic, deep):
        """Sharpen the sign of d with d = e + rest for known facts e (up to two)."""
        if basic == 0:
            r = self._sum_facts(st, d, r, 1, False)
            if len(r) <= 1 or not deep:
                return r
            nd = len(as_lin(d)[0])
        for e, s0 in list(st.sign.items()):
            for k in (1, -1):
                if k == -1:
                    s0 = frozenset(-x for x in s0)
                if s0 == {-1, 0, 1} or s0 == {-1, 1}:
                    continue
                rest = ladd(d, e, -k)
                if basic == 0 and not (isinstance(rest, Lin) and len(rest.coef) <= nd):
                    continue
                if isinstance(rest, Const):
                    s1 = frozenset(((rest.v > 0) - (rest.v < 0),))
                else:
                    flip = sorted(as_lin(rest)[0].items(), key=lambda p: repr(p[0]))[0][1] < 0
                    s1 = self.signs(st, lmul(rest, Const(-1)) if flip else rest, 1 if basic == 0 else 2)
                    if flip:
                        s1 = frozenset(-x for x in s1)
                if -1 not in s0 and -1 not in s1:
                    r = r - ({-1} if 0 in s0 and 0 in s1 else {-1, 0})
                if 1 not in s0 and 1 not in s1:
                    r = r - ({1} if 0 in s0 and 0 in s1 else {1, 0})
                if len(r) <= 1:
                    return r
        return r

    def _truth_sgn(self, st, v):
        d, allowed = v.args[0], frozenset(x.v for x in v.args[1].items)
        d2 = self.subst_eq(st, d)
        if isinstance(d2, Const):
            s = (d2.v > 0) - (d2.v < 0)
            return [(st, s in allowed)]
        poss = self.signs(st, d)
        if not poss:
            return []
        t, f = poss & allowed, poss - allowed
        out = []
        if t and f:
            s2 = st.copy()
            st.sign[d], s2.sign[d] = t, f
            self._learn(st, d, t)
            self._learn(s2, d, f)
            return [(st, True), (s2, False)]
        return [(st, bool(t))]

    def _learn(self, st, d, signs):
        if signs == frozenset((0,)):
            coef, c = as_lin(d)
            if len(coef) == 1:
                (a, k), = coef.items()
                if c % k == 0:
                    st.eq[a] = Const(-c // k)

    def subst_eq(self, st, d):
        l = as_lin(d)
        if l is None:
            return d
        coef, c = l
        out = {}
        for a, k in coef.items():
            e = st.eq.get(a)
            if isinstance(e, Const) and isinstance(e.v, int):
                c += k * e.v
            else:
                out[a] = k
        return lin(out, c)

    def _truth_eq(self, st, v):
        a, b = v.args
        if isinstance(a, Const) and not isinstance(b, Const):
            a, b = b, a
        a2, b2 = st.resolve(a), st.resolve(b)
        if isinstance(a2, Const) and isinstance(b2, Const):
            return [(st, a2.v == b2.v)]
        if isinstance(b2, Const):
            if b2 in st.ne.get(a2, ()):
                return [(st, False)]
            t = Fn('eq', (a2, b2), 'bool')
            if t in st.facts:
                return [(st, st.facts[t])]
            s2 = st.copy()
            st.eq[a2] = b2
            st.facts[t] = True
            s2.ne[a2] = s2.ne.get(a2, frozenset()) | {b2}
            s2.facts[t] = False
            if is_opt(a2) and b2.v is not None:
                st.facts[Fn('isnone', (a2,), 'bool')] = False
            return [(st, True), (s2, False)]
        x, y = sorted((a2, b2), key=repr)
        return self.split(st, Fn('eq', (x, y), 'bool'))

    # ------------------------------------------------------------ equality
    def eq_term(self, st, a, b):
        """Const bool or a bool-kind term for a == b (no user __eq__)."""
        a, b = st.resolve(a), st.resolve(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const) and y.v is None and isinstance(x, (Sym, Fn)):
                return self.isnone_term(st, x)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const(bool(a.v == b.v))
            except Exception:
                return FALSE
        if a == b and not isinstance(a, Ref):
            return TRUE
        ka, kb = kind(a), kind(b)
        if is_int(a) and is_int(b):
            return self.cmp_lin('==', a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if a == b:
                return TRUE
            oa, ob = st.obj(a), st.obj(b)
            pa = oa.data if isinstance(oa, InstO) and isinstance(oa.data, (ListO, DictO)) else oa
            pb = ob.data if isinstance(ob, InstO) and isinstance(ob.data, (ListO, DictO)) else ob
            if isinstance(pa, DictO) and isinstance(pb, DictO):
                if pa.rest is None and pb.rest is None:
                    if set(pa.d) != set(pb.d):
                        return FALSE
                    return self._eq_all(st, [(pa.d[k], pb.d[k]) for k in pa.d], a, b)
                return Fn('eq', tuple(sorted((a, b), key=repr)), 'bool')
            if isinstance(pa, ListO) and isinstance(pb, ListO):
                if any(isinstance(s, Many) for s in pa.segs + pb.segs):
                    return Fn('eq', tuple(sorted((a, b), key=repr)), 'bool')
                if len(pa.segs) != len(pb.segs):
                    return FALSE
                return self._eq_all(st, list(zip(pa.segs, pb.segs)), a, b)
            if ka == 'any' or kb == 'any':
                return Fn('eq', tuple(sorted((a, b), key=repr)), 'bool')
            return FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return self._eq_all(st, list(zip(a.items, b.items)), a, b)
        if ka == 'str' and kb == 'str':
            if not self.lib.str_may_eq(st, a, b):
                return FALSE
            for x, y in ((a, b), (b, a)):
                if y == Const('') and not is_opt(x) and self.nonempty(st, x):
                    return FALSE
            # x[:len(v)] == v  is  x.startswith(v)   (and the suffix form)
            return self.lib.norm_str_eq(a, b) or Fn('eq', (a, b) if isinstance(b, Const) else ((b, a) if isinstance(a, Const) else tuple(sorted((a, b), key=repr))), 'bool')
        if ka != kb and 'any' not in (ka, kb) and not ({ka, kb} <= {'int', 'bool', 'float'}):
            if is_opt(a) or is_opt(b):
                pass
            else:
                return FALSE
        if isinstance(a, Const):
            a, b = b, a
        return Fn('eq', (a, b), 'bool')

    def _eq_all(self, st, pairs, a, b):
        unk = []
        for x, y in pairs:
            t = self.eq_term(st, x, y)
            if t == FALSE:
                return FALSE
            if t != TRUE:
                unk.append(t)
        if not unk:
            return TRUE
        if len(unk) == 1:
            return unk[0]
        return Fn('and', tuple(unk), 'bool')

    def isnone_term(self, st, x):
        if isinstance(x, Const):
            return Const(x.v is None)
        if isinstance(x, (Sym, Fn)) and (is_opt(x) or kind(x) == 'any'):
            t = Fn('isnone', (x,), 'bool')
            if t in st.facts:
                return Const(st.facts[t])
            return t
        return FALSE

    def eq(self, st, a, b):
        """[(st, bool-term)] including user-defined __eq__."""
        for x, y in ((a, b), (b, a)):
            o = st.obj(x)
            if isinstance(o, InstO):
                f = self.mro_find(st, o.cls, '__eq__')
                if f and isinstance(f[0], Func):
                    return self.call(st, Bound(f[0], x), [y], {})
        return [(st, self.eq_term(st, a, b))]

    # ------------------------------------------------------------ names
    def lookup(self, st, name):
        a = st.frame
        first = True
        while a is not None:
            f = st.get(a)
            if (first or not f.is_class) and name in f.vars:
                return f.vars[name]
            if name in f.glob:
                break
            first = False
            if f.parent is None:
                break
            a = f.parent
        m = st.get(st.get(st.frame).mod)
        if name in m.ns:
            return m.ns[name]
        return self.builtins.get(name)

    def set_name(self, st, name, v):
        fr = st.get(st.frame)
        if fr.fn and isinstance(fr.fn, tuple) and fr.fn[0] == '<module>' or name in fr.glob:
            self.mutating(st, fr.mod, 'global ' + name).ns[name] = v
            return
        if name in fr.nonl:
            a = fr.parent
            while a is not None:
                f = st.get(a)
                if name in f.vars:
                    st.mut(a).vars[name] = v
                    return
                a = f.parent
        st.mut(st.frame).vars[name] = v

    # ------------------------------------------------------------ classes
    def mro_find(self, st, cls, name, after=None):
        o = st.obj(cls)
        if not isinstance(o, ClassO):
            return None
        seen = after is None
        for c in o.mro:
            if not seen:
                if c == after:
                    seen = True
                continue
            co = st.get(c.a)
            if name in co.ns:
                return co.ns[name], c
        return None

    def is_subclass(self, st, c, d):
        o = st.obj(c)
        return isinstance(o, ClassO) and d in o.mro

    def has_ext_base(self, st, cls, ext):
        o = st.obj(cls)
        return isinstance(o, ClassO) and any(st.get(c.a).ext == ext for c in o.mro)

    def make_class(self, st, name, bases, ns, meta, qual):
        r = st.alloc(ClassO(name, bases or (self.classes['object'],), ns, meta, qual))
        st.get(r.a).mro = self._c3(st, r)
        return r

    # ------------------------------------------------------------ attributes
    def getattr_(self, st, v, name, default_only=False):
        """[(st, value)]; raises AttributeError into the collector."""
        if isinstance(v, Union):
            return [r for s, x in self.expand(st, v) for r in self.getattr_(s, x, name)]
        v = st.resolve(v)
        if isinstance(v, Ref):
            o = st.get(v.a)
            if isinstance(o, ModO):
                if name in o.ns:
                    return [(st, o.ns[name])]
                sub = o.name + '.' + name
                if not o.ext and self.mod_path(sub)[0]:
                    return [(st, self.load(sub, st))]
                if o.ext:
                    return [(st, self.lib.ext_attr(self, st, o, name))]
                return self.raise_(st, 'AttributeError', 'module %s has no attribute %s' % (o.name, name))
            if isinstance(o, ClassO):
                return self._class_attr(st, v, o, name)
            if isinstance(o, InstO):
                if not default_only:
                    g = self.mro_find(st, o.cls, '__getattribute__')
                    if g and isinstance(g[0], Func):
                        self.coll.append([])
                        res = self.call(st, Bound(g[0], v), [Const(name)], {})
                        caught = self.coll.pop()
                        ga = self.mro_find(st, o.cls, '__getattr__')
                        for s, e, c in caught:
                            if ga and self.exc_name(s, e) == 'AttributeError' and isinstance(ga[0], Func):
                                res = res + self.call(s, Bound(ga[0], v), [Const(name)], {})
                            else:
                                self.coll[-1].append((s, e, c))
                        return res
                return self.default_getattr(st, v, o, name)
            if isinstance(o, ListO):
                if name in (self.lib.LIST_METHODS if o.cls == 'list' else self.lib.SET_METHODS):
                    return [(st, Method(v, name))]
                return self.raise_(st, 'AttributeError', "'%s' object has no attribute '%s'" % (o.cls, name))
            if isinstance(o, DictO):
                if name in self.lib.DICT_METHODS:
                    return [(st, Method(v, name))]
                return self.raise_(st, 'AttributeError', "'dict' object has no attribute '%s'" % name)
        if isinstance(v, Super):
            return self._super_attr(st, v, name)
        if isinstance(v, Prop):
            if name in ('setter', 'getter', 'deleter'):
                return [(st, Method(v, name))]
        if isinstance(v, Tup) and name in ('index', 'count'):
            return [(st, Method(v, name))]
        if isinstance(v, ExtPy):
            return self.lib.ext_getattr(self, st, v, name)
        if isinstance(v, (Func, Bound)) and name in ('__name__', '__doc__', '__qualname__', '__dict__', '__self__', '__func__', '__wrapped__', '__module__'):
            return [(st, Fn('fattr', (v, Const(name)), 'any'))]
        if st.known_none(v):
            v = NONE
        if isinstance(v, Const) and v.v is None:
            return self.raise_(st, 'AttributeError', "'NoneType' object has no attribute '%s'" % name)
        if isinstance(v, (Sym, Fn)) and is_opt(v) and not st.facts.get(Fn('isnone', (v,), 'bool')) is False:
            out = []
            for s, b in self.split(st, Fn('isnone', (v,), 'bool')):
                if b:
                    self.raise_(s, 'AttributeError', "'NoneType' object has no attribute '%s' (optional value %s)" % (name, show(v)))
                else:
                    out += self.getattr_(s, v, name)
            return out
        if is_str(v):
            if name in self.lib.STR_METHODS:
                return [(st, Method(v, name))]
            return self.raise_(st, 'AttributeError', "'str' object has no attribute '%s'" % name)
        if is_int(v) and not isinstance(v, (Sym, Fn)) or kind(v) == 'int':
            if hasattr(int, name):
                return [(st, Method(v, name))]
            return self.raise_(st, 'AttributeError', "'int' object has no attribute '%s'" % name)
        if isinstance(v, Const) and not isinstance(v.v, (str, int)):
            if hasattr(v.v, name):
                return [(st, Method(v, name))]
            return self.raise_(st, 'AttributeError', '%r has no attribute %s' % (v.v, name))
        if isinstance(v, Builtin):
            return [(st, Builtin(v.name + '.' + name))]
        return self.lib.sym_getattr(self, st, v, name)

    def bind(self, st, val, owner_is_cls, v, cls):
        if isinstance(val, StaticM):
            return val.k[0]
        if isinstance(val, ClassM):
            return Bound(val.k[0], cls)
        if isinstance(val, (Func, Builtin)) and not owner_is_cls:
            return Bound(val, v)
        return val

    def default_getattr(self, st, v, o, name):
        f = self.mro_find(st, o.cls, name)
        if f and isinstance(f[0], Prop):
            if f[0].fget is None:
                return self.raise_(st, 'AttributeError', 'unreadable attribute ' + name)
            return self.call(st, f[0].fget, [v], {})
        if name in o.attrs:
            return [(st, o.attrs[name])]
        if f:
            o2 = st.obj(f[0])
            if isinstance(o2, InstO):
                g = self.mro_find(st, o2.cls, '__get__')
                if g and isinstance(g[0], Func):
                    return self.call(st, Bound(g[0], f[0]), [v, o.cls], {})
            return [(st, self.bind(st, f[0], False, v, o.cls))]
        if isinstance(o.data, DictO) and name in self.lib.DICT_METHODS:
            return [(st, Method(v, name))]
        if isinstance(o.data, ListO) and name in self.lib.LIST_METHODS:
            return [(st, Method(v, name))]
        if name == '__class__':
            return [(st, o.cls)]
        if name == '__dict__':
            if v.a in self.lib.DICTVIEWS:
                pass
            return [(st, Fn('instdict', (v,), 'any'))]
        ext = self.lib.ext_inst_attr(self, st, v, o, name)
        if ext is not None:
            return ext
        ga = self.mro_find(st, o.cls, '__getattr__')
        if ga and isinstance(ga[0], Func):
            return self.call(st, Bound(ga[0], v), [Const(name)], {})
        return self.raise_(st, 'AttributeError', "'%s' object has no attribute '%s'" % (st.get(o.cls.a).name, name))

    def _class_attr(self, st, v, o, name):
        f = self.mro_find(st, v, name)
        if f:
            return [(st, self.bind(st, f[0], True, None, v))]
        if name == '__name__':
            return [(st, Const(o.name))]
        if name == '__qualname__':
            return [(st, Const(o.qual))]
        if name in ('__mro__',):
            return [(st, Tup(o.mro))]
        if name == 'mro':
            return [(st, Bound(Builtin('type.mro'), v))]
        if name == '__bases__':
            return [(st, Tup(o.bases))]
        if name == '__dict__':
            return [(st, st.alloc(DictO({Const(k): x for k, x in o.ns.items()})))]
        if name == '__module__':
            return [(st, Const(o.qual))]
        if name == '__subclasses__':
            return [(st, Sym('__subclasses__', 'any'))]
        if o.meta is not None:
            f = self.mro_find(st, o.meta, name)
            if f:
                return [(st, self.bind(st, f[0], False, v, o.meta))]
        for c in o.mro:
            e = st.get(c.a).ext
            if e == 'dict' and name in self.lib.DICT_METHODS or e == 'list' and name in self.lib.LIST_METHODS \
                    or e == 'str' and name in self.lib.STR_METHODS:
                return [(st, Builtin('unbound.%s' % name))]
            if e:
                x = self.lib.ext_class_attr(self, st, e, name)
                if x is not None:
                    return [(st, x)]
        return self.raise_(st, 'AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))

    def _super_attr(self, st, v, name):
        selfv = v.self_
        o = st.obj(selfv)
        if isinstance(o, ClassO):       # super() in __new__ / classmethod / metaclass
            f = self.mro_find(st, selfv, name, after=v.cls) if v.cls in o.mro else None
            if f is None and o.meta is not None:
                f = self.mro_find(st, o.meta, name, after=v.cls)
            if f is None:
                # metaclass method called with cls = the metaclass itself
                f = self.mro_find(st, selfv, name, after=v.cls)
            if f is None:
                return self.raise_(st, 'AttributeError', 'super has no attribute ' + name)
            if name == '__new__':
                return [(st, f[0].k[0] if isinstance(f[0], StaticM) else f[0])]
            if isinstance(f[0], (Func, Builtin)):
                return [(st, Bound(f[0], selfv))]
            return [(st, self.bind(st, f[0], False, selfv, selfv))]
        cls = o.cls
        f = self.mro_find(st, cls, name, after=v.cls)
        if f:
            if isinstance(f[0], Prop):
                return self.call(st, f[0].fget, [selfv], {})
            if isinstance(f[0], Builtin) and f[0].name.startswith('object.') and isinstance(o.data, (DictO, ListO)):
                # methods the builtin container itself provides come first
                cont = self.lib.DICT_METHODS if isinstance(o.data, DictO) else self.lib.LIST_METHODS
                if name in cont:
                    return [(st, Method(selfv, name))]
            return [(st, self.bind(st, f[0], False, selfv, cls))]
        if isinstance(o.data, DictO) and name in self.lib.DICT_METHODS:
            return [(st, Method(selfv, name))]
        if isinstance(o.data, ListO) and name in self.lib.LIST_METHODS:
            return [(st, Method(selfv, name))]
        x = self.lib.ext_super_attr(self, st, selfv, o, name, v.cls)
        if x is not None:
            return x
        return self.raise_(st, 'AttributeError', "'super' object has no attribute '%s'" % name)

    def setattr_(self, st, v, name, val, default_only=False):
        """[st]"""
        if isinstance(v, Union):
            return [r for s, x in self.expand(st, v) for r in self.setattr_(s, x, name, val)]
        if isinstance(v, Ref):
            o = st.get(v.a)
            if isinstance(o, InstO):
                f = self.mro_find(st, o.cls, '__setattr__')
                if not default_only and f and isinstance(f[0], Func):
                    return [s for s, _ in self.call(st, Bound(f[0], v), [Const(name), val], {})]
                p = self.mro_find(st, o.cls, name)
                if p and isinstance(p[0], Prop):
                    if p[0].fset is None:
                        self.raise_(st, 'AttributeError', "can't set attribute " + name)
                        return []
                    return [s for s, _ in self.call(st, p[0].fset, [v, val], {})]
                self.mutating(st, v.a, 'attribute ' + name).attrs[name] = val
                return [st]
            if isinstance(o, ClassO):
                self.mutating(st, v.a, 'class attribute %s.%s' % (o.name, name)).ns[name] = val
                return [st]
            if isinstance(o, ModO):
                self.mutating(st, v.a, 'module attribute %s.%s' % (o.name, name)).ns[name] = val
                return [st]
            self.raise_(st, 'AttributeError', 'cannot set attribute ' + name)
            return []
        if isinstance(v, Const) or is_str(v):
            self.raise_(st, 'AttributeError', 'cannot set attribute %s on %s' % (name, show(v)))
            return []
        st.event('setattr', v, name, val, self.where())
        return [st]

    def delattr_(self, st, v, name, default_only=False):
        o = st.obj(v)
        if isinstance(o, InstO):
            f = self.mro_find(st, o.cls, '__delattr__')
            if not default_only and f and isinstance(f[0], Func):
                return [s for s, _ in self.call(st, Bound(f[0], v), [Const(name)], {})]
            if name in o.attrs:
                del self.mutating(st, v.a, 'attribute ' + name).attrs[name]
                return [st]
            self.raise_(st, 'AttributeError', name)
            return []
        st.event('delattr', v, name)
        return [st]

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kw, node=None):
        """[(st, result)]"""
        self.calls += 1
        if isinstance(f, Union):
            return [r for s, x in self.expand(st, f) for r in self.call(s, x, list(args), dict(kw), node)]
        f = st.resolve(f)
        if isinstance(f, Func):
            return self.call_func(st, f, args, kw)
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Builtin):
            return self.lib.call_builtin(self, st, f.name, list(args), dict(kw))
        if isinstance(f, Method):
            return self.lib.call_method(self, st, f.self_, f.name, list(args), dict(kw))
        if isinstance(f, StaticM):
            return self.call(st, f.k[0], args, kw)
        if isinstance(f, Ref):
            o = st.get(f.a)
            if isinstance(o, ClassO):
                return self.instantiate(st, f, o, args, kw)
            if isinstance(o, InstO):
                c = self.mro_find(st, o.cls, '__call__')
                if c:
                    return self.call(st, Bound(c[0], f), args, kw)
                if isinstance(o.data, tuple) and o.data and o.data[0] == 'partial':
                    k = dict(o.data[3])
                    k.update(kw)
                    return self.call(st, o.data[1], list(o.data[2]) + list(args), k)
            return self.raise_(st, 'TypeError', 'object is not callable: ' + show(f))
        if isinstance(f, ExtPy):
            return self.lib.ext_call(self, st, f, args, kw)
        if isinstance(f, Const):
            return self.raise_(st, 'TypeError', '%r object is not callable' % (f.v,))
        if is_str(f) or is_int(f):
            return self.raise_(st, 'TypeError', 'value is not callable: ' + show(f))
        st.event('call', f, tuple(args), tuple(sorted(kw.items())), self.where())
        return [(st, Fn('call', (f, Tup(args), Tup(tuple(Tup((Const(k), v)) for k, v in sorted(kw.items())))), 'any'))]

    def instantiate(self, st, cref, o, args, kw):
        if o.meta is not None:
            mc = self.mro_find(st, o.meta, '__call__')
            if mc and isinstance(mc[0], Func):
                return self.call(st, Bound(mc[0], cref), args, kw)
        return self.type_call(st, cref, o, args, kw)

    def type_call(self, st, cref, o, args, kw):
        if o.ext:
            r = self.lib.new_ext(self, st, cref, o.ext, list(args), dict(kw))
            if r is not None:
                return r
        nw = self.mro_find(st, cref, '__new__')
        out = []
        nwf = nw[0].k[0] if nw and isinstance(nw[0], StaticM) else (nw[0] if nw else None)
        if isinstance(nwf, Func):
            insts = self.call(st, nwf, [cref] + list(args), kw)
        else:
            insts = [(st, self.raw_instance(st, cref))]
        for s, i in insts:
            io = s.obj(i)
            if not (isinstance(io, InstO) and self.is_subclass(s, io.cls, cref)):
                out.append((s, i))
                continue
            init = self.mro_find(s, io.cls, '__init__')
            if init:
                for s2, _ in self.call(s, Bound(init[0], i), args, kw):
                    out.append((s2, i))
            else:
                out.append((s, i))
        return out

    def raw_instance(self, st, cref):
        data = None
        if self.has_ext_base(st, cref, 'dict'):
            data = DictO()
        elif self.has_ext_base(st, cref, 'list'):
            data = ListO()
        else:
            data = self.lib.ext_payload(self, st, cref)
        return st.alloc(InstO(cref, {}, data))

    def bind_args(self, st, info, args, kw):
        """-> dict of parameter values or None (TypeError raised)."""
        a = info.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        many = [i for i, x in enumerate(args) if isinstance(x, Many)]
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_(st, 'TypeError', '%s() takes %d positional arguments but %d were given' % (info.qual, len(names), len(args)))
                return None
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = Tup(args[len(names):])
        kw = dict(kw)
        rest = kw.pop('**', None)
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        pos_only = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if k in names and k not in pos_only or k in kwn:
                if k in vals:
                    self.raise_(st, 'TypeError', "%s() got multiple values for argument '%s'" % (info.qual, k))
                    return None
                vals[k] = v
            elif a.kwarg is not None:
                extra[Const(k)] = v
            else:
                self.raise_(st, 'TypeError', "%s() got an unexpected keyword argument '%s'" % (info.qual, k))
                return None
        if a.kwarg is not None:
            vals[a.kwarg.arg] = st.alloc(DictO(extra, rest))
        d0 = len(names) - len(info.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                if i >= d0:
                    vals[n] = info.defaults[i - d0]
                else:
                    self.raise_(st, 'TypeError', "%s() missing required argument '%s'" % (info.qual, n))
                    return None
        for n, d in zip(kwn, info.kwdefaults):
            if n not in vals:
                if d is None:
                    self.raise_(st, 'TypeError', "%s() missing keyword-only argument '%s'" % (info.qual, n))
                    return None
                vals[n] = d
        return vals

    def call_func(self, st, f, args, kw):
        info = self.funcs[f.uid]
        if st.stack.count(f.uid) >= REC_LIMIT:
            self.gap('recursion cut at %s' % info.qual)
            return [(st, Fn('rec', (Const(info.qual),) + tuple(args), 'any'))]
        vals = self.bind_args(st, info, args, kw)
        if vals is None:
            return []
        self.visited.add(info.qual)
        fr = FrameO(info.mod, info.closure, f.uid)
        fr.vars = vals
        r = st.alloc(fr)
        saved, savedstack, cur = st.frame, st.stack, self.cur
        st.frame = r.a
        st.stack = st.stack + (f.uid,)
        out = []
        if isinstance(info.node, ast.Lambda):
            for s, v in self.ev(info.node.body, st):
                out.append((s, v))
        else:
            ylist = None
            if info.isgen:
                ylist = st.alloc(ListO())
                st.mut(r.a).vars['$yield'] = ylist
            for k, s, v in self.ex(info.node.body, st):
                if k == 'next':
                    v = NONE
                elif k not in ('ret',):
                    raise Gap('stray %s' % k)
                out.append((s, ylist if ylist is not None else v))
        self.cur = cur
        for s, _ in out:
            s.frame, s.stack = saved, savedstack
            fo = s.heap.get(r.a)
            if fo is not None and not fo.captured:
                del s.heap[r.a]
        return self.dedupe(out)

    # ------------------------------------------------------------ statements
    def ex(self, stmts, st):
        states, outs = [st], []
        for n in stmts:
            nxt = []
            for s in states:
                for o in self.ex1(n, s):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            if len(nxt) > 1 and not isinstance(n, (ast.Assign, ast.Expr, ast.AugAssign)) or len(nxt) > 8:
                nxt = [x[0] for x in self.dedupe([(s, None) for s in nxt])]
            if len(nxt) > STATE_CAP:
                raise Gap('state budget exceeded at %s' % self.where())
            states = nxt
            if not states:
                break
        return outs + [('next', s, None) for s in states]

    def ex1(self, n, st):
        fr = st.get(st.frame)
        fn = fr.fn
        if isinstance(fn, tuple):
            file = fn[1]
        elif fn is not None:
            file = self.funcs[fn].file
        else:
            file = self.cur[0] if self.cur else '?'
        self.cur = (file, n)
        if file.startswith(self.root):
            self.stmts.add((file, n.lineno))
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Gap('unsupported statement %s at %s' % (type(n).__name__, self.where()))
        return m(n, st)

    def ex_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('next', st, None)]
        return [('next', s, None) for s, _ in self.ev(n.value, st)]

    def ex_Pass(self, n, st):
        return [('next', st, None)]

    def ex_Global(self, n, st):
        f = st.mut(st.frame)
        f.glob = f.glob | set(n.names)
        return [('next', st, None)]

    def ex_Nonlocal(self, n, st):
        f = st.mut(st.frame)
        f.nonl = f.nonl | set(n.names)
        return [('next', st, None)]

    def ex_Return(self, n, st):
        if n.value is None:
            return [('ret', st, NONE)]
        return [('ret', s, v) for s, v in self.ev(n.value, st)]

    def ex_Break(self, n, st):
        return [('brk', st, None)]

    def ex_Continue(self, n, st):
        return [('cont', st, None)]

    def ex_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            ss = [s]
            for t in n.targets:
                ss = [r for x in ss for r in self.assign(x, t, v)]
            out += [('next', x, None) for x in ss]
        return out

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [('next', st, None)]
        return [('next', x, None) for s, v in self.ev(n.value, st) for x in self.assign(s, n.target, v)]

    def ex_AugAssign(self, n, st):
        t = n.target
        out = []
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev_Name(ast.Name(id=t.id, ctx=ast.Load(), lineno=n.lineno), st)
            for s, c in cur:
                for s2, v in self.ev(n.value, s):
                    for s3, r in self.lib.inplace(self, s2, op, c, v):
                        self.set_name(s3, t.id, r)
                        out.append(('next', s3, None))
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st):
                nm = self.mangle(s, t.attr)
                for s1, c in self.getattr_(s, o, nm):
                    for s2, v in self.ev(n.value, s1):
                        for s3, r in self.lib.inplace(self, s2, op, c, v):
                            out += [('next', x, None) for x in self.setattr_(s3, o, nm, r)]
        elif isinstance(t, ast.Subscript):
            for s, o in self.ev(t.value, st):
                for s1, i in self.ev(t.slice, s):
                    for s2, c in self.lib.getitem(self, s1, o, i):
                        for s3, v in self.ev(n.value, s2):
                            for s4, r in self.lib.inplace(self, s3, op, c, v):
                                out += [('next', x, None) for x in self.lib.setitem(self, s4, o, i, r)]
        return out

    def assign(self, st, t, v):
        """[st]"""
        if isinstance(t, ast.Name):
            self.set_name(st, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            return [r for s, o in self.ev(t.value, st) for r in self.setattr_(s, o, self.mangle(s, t.attr), v)]
        if isinstance(t, ast.Subscript):
            return [r for s, o in self.ev(t.value, st) for s2, i in self.ev(t.slice, s)
                    for r in self.lib.setitem(self, s2, o, i, v)]
        if isinstance(t, ast.Starred):
            return self.assign(st, t.value, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, segs in self.lib.iter_segs(self, st, v):
                if any(isinstance(x, Many) for x in segs) or any(isinstance(e, ast.Starred) for e in t.elts):
                    out += self._unpack_hard(s, t, segs)
                    continue
                if len(segs) != len(t.elts):
                    self.raise_(s, 'ValueError', 'cannot unpack %d values into %d' % (len(segs), len(t.elts)))
                    continue
                ss = [s]
                for e, x in zip(t.elts, segs):
                    ss = [r for y in ss for r in self.assign(y, e, x)]
                out += ss
            return out
        raise Gap('unsupported assignment target %s' % type(t).__name__)

    def _unpack_hard(self, st, t, segs):
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        ss = [st]
        if stars and not any(isinstance(x, Many) for x in segs):
            i = stars[0]
            tail = len(t.elts) - i - 1
            if len(segs) < len(t.elts) - 1:
                return []
            vals = list(segs[:i]) + [None] + list(segs[len(segs) - tail:])
            for j, e in enumerate(t.elts):
                if j == i:
                    nxt = []
                    for s in ss:
                        r = s.alloc(ListO(segs[i:len(segs) - tail]))
                        nxt += self.assign(s, e.value, r)
                    ss = nxt
                else:
                    ss = [r for s in ss for r in self.assign(s, e, vals[j])]
            return ss
        src = ListO(segs)
        r = st.alloc(src)
        n = len(t.elts)
        for j, e in enumerate(t.elts):
            nxt = []
            for s in ss:
                if stars and j == stars[0]:
                    idx = ('slice', Const(j) if j else NONE, Const(j - n + 1) if j < n - 1 else NONE)
                    for s2, v in self.lib.list_slice(self, s, s.get(r.a).segs, idx[1], idx[2], NONE):
                        nxt += self.assign(s2, e.value, s2.alloc(ListO(v)))
                else:
                    i = j if not stars or j < stars[0] else j - n
                    for s2, v in self.lib.getitem(self, s, r, Const(i)):
                        nxt += self.assign(s2, e, v)
            ss = nxt
        return ss

    def ex_Delete(self, n, st):
        ss = [st]
        for t in n.targets:
            nxt = []
            for s in ss:
                if isinstance(t, ast.Name):
                    f = s.mut(s.frame)
                    if t.id in f.vars:
                        del f.vars[t.id]
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s1, o in self.ev(t.value, s):
                        nxt += self.delattr_(s1, o, self.mangle(s1, t.attr))
                elif isinstance(t, ast.Subscript):
                    for s1, o in self.ev(t.value, s):
                        for s2, i in self.ev(t.slice, s1):
                            nxt += self.lib.delitem(self, s2, o, i)
            ss = nxt
        return [('next', s, None) for s in ss]

    def ex_If(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            for s2, b in self.truth(s, v):
                body = n.body if b else n.orelse
                out += self.ex(body, s2) if body else [('next', s2, None)]
        return out

    def ex_Assert(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            for s2, b in self.truth(s, v):
                if b:
                    out.append(('next', s2, None))
                else:
                    self.raise_(s2, 'AssertionError', 'assert')
        return out

    def ex_Raise(self, n, st):
        if n.exc is None:
            e = st.get(st.frame).vars.get('$exc')
            if e is not None:
                self.coll[-1].append((st, e, self.cur))
            else:
                self.raise_(st, 'RuntimeError', 'bare raise')
            return []
        here = self.where()
        for s, v in self.ev(n.exc, st):
            o = s.obj(v)
            if isinstance(o, ClassO):
                for s2, x in self.call(s, v, [], {}):
                    self._tag_exc(s2, x, here)
                    self.coll[-1].append((s2, x, self.cur))
            elif isinstance(o, InstO):
                self._tag_exc(s, v, here)
                self.coll[-1].append((s, v, self.cur))
            else:
                self.raise_(s, 'TypeError', 'exceptions must derive from BaseException')
        return []

    def _tag_exc(self, s, v, here):
        o = s.mut(v.a)
        msg = o.attrs.get('args')
        o.data = ('exc', show(msg) if msg is not None else '', here, self.trace(s))

    def ex_Try(self, n, st):
        frame, stack = st.frame, st.stack
        self.coll.append([])
        outs = self.ex(n.body, st)
        caught = self.coll.pop()
        res = []
        if n.finalbody:
            self.coll.append([])
        for k, s, v in outs:
            if k == 'next' and n.orelse:
                res += self.ex(n.orelse, s)
            else:
                res.append((k, s, v))
        for s, e, c in caught:
            s.frame, s.stack = frame, stack
            handled = False
            for h in n.handlers:
                m = self._exc_match(s, h, e)
                if m is None:
                    self.gap('unresolved exception type in handler')
                    m = True
                if m:
                    handled = True
                    f = s.mut(s.frame)
                    prev = f.vars.get('$exc')
                    f.vars['$exc'] = e
                    if h.name:
                        f.vars[h.name] = e
                    for k2, s2, v2 in self.ex(h.body, s):
                        if s2.frame == frame and k2 == 'next':
                            f2 = s2.mut(frame)
                            f2.vars.pop('$exc', None)
                            if h.name:
                                f2.vars.pop(h.name, None)
                            if prev is not None:
                                f2.vars['$exc'] = prev
                        res.append((k2, s2, v2))
                    break
            if not handled:
                self.coll[-1].append((s, e, c))
        if n.finalbody:
            pend = self.coll.pop()
            fin = []
            for k, s, v in res:
                for k2, s2, v2 in self.ex(n.finalbody, s):
                    fin.append((k, s2, v) if k2 == 'next' else (k2, s2, v2))
            for s, e, c in pend:
                s.frame, s.stack = frame, stack
                for k2, s2, v2 in self.ex(n.finalbody, s):
                    if k2 == 'next':
                        self.coll[-1].append((s2, e, c))
                    else:
                        fin.append((k2, s2, v2))
            res = fin
        return res

    ex_TryStar = ex_Try

    def _exc_match(self, st, h, e):
        if h.type is None:
            return True
        r = self.ev(h.type, st.copy())
        if not r:
            return False
        t = r[0][1]
        eo = st.obj(e)
        ts = t.items if isinstance(t, Tup) else (t,)
        for x in ts:
            if isinstance(x, Ref) and isinstance(st.obj(x), ClassO):
                if self.is_subclass(st, eo.cls, x):
                    return True
            elif not isinstance(x, Ref):
                return None
        return False

    def ex_With(self, n, st):
        states = [st]
        supp = []
        for item in n.items:
            nxt = []
            for s in states:
                for s1, v in self.ev(item.context_expr, s):
                    if isinstance(v, Fn) and v.op == 'suppress':
                        nxt.append(s1)
                        supp = supp + list(v.args)
                        continue
                    o = s1.obj(v)
                    if isinstance(o, InstO) and self.mro_find(s1, o.cls, '__enter__') and isinstance(self.mro_find(s1, o.cls, '__enter__')[0], Func):
                        r = self.call(s1, Bound(self.mro_find(s1, o.cls, '__enter__')[0], v), [], {})
                    else:
                        r = [(s1, v)]
                    for s2, w in r:
                        nxt += self.assign(s2, item.optional_vars, w) if item.optional_vars is not None else [s2]
            states = nxt
        if not supp:
            return [o for s in states for o in self.ex(n.body, s)]
        frame, stack = st.frame, st.stack
        self.coll.append([])
        outs = [o for s in states for o in self.ex(n.body, s)]
        for s, e, c in self.coll.pop():
            s.frame, s.stack = frame, stack
            if any(isinstance(x, Ref) and self.is_subclass(s, s.obj(e).cls, x) for x in supp):
                outs.append(('next', s, None))
            else:
                self.coll[-1].append((s, e, c))
        return outs

    def ex_FunctionDef(self, n, st):
        out = []
        for s, f in self.make_func(n, st):
            ss = [(s, f)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s1, v in ss:
                    for s2, dv in self.ev(d, s1):
                        nxt += self.lib.decorate(self, s2, dv, v)
                ss = nxt
            for s1, v in ss:
                self.set_name(s1, self.mangle(s1, n.name), v)
                out.append(('next', s1, None))
        return out

    ex_AsyncFunctionDef = ex_FunctionDef

    def make_func(self, n, st):
        res = []
        for s, ds in self.ev_list(n.args.defaults, st):
            kds = [(s, [])]
            for d in n.args.kw_defaults:
                nk = []
                for s1, acc in kds:
                    if d is None:
                        nk.append((s1, acc + [None]))
                    else:
                        nk += [(s2, acc + [v]) for s2, v in self.ev(d, s1)]
                kds = nk
            for s1, kd in kds:
                fr = s1.get(s1.frame)
                fn = fr.fn
                info = FuncInfo()
                info.node, info.defaults, info.kwdefaults = n, ds, kd
                info.mod = fr.mod
                mod_level = isinstance(fn, tuple) and fn[0] == '<module>'
                info.closure = None if mod_level else s1.frame
                info.file = fn[1] if isinstance(fn, tuple) else self.funcs[fn].file
                if not mod_level:
                    s1.mut(s1.frame).captured = True
                info.clsframe = s1.frame if fr.is_class else None
                info.clsname = None
                if fr.is_class:
                    info.clsname = fn[2]
                elif not isinstance(fn, tuple):
                    info.clsname = self.funcs[fn].clsname
                    info.clsframe = self.funcs[fn].clsframe
                nm = getattr(n, 'name', '<lambda>')
                pre = (fn[2] + '.') if fr.is_class else ('' if isinstance(fn, tuple) else self.funcs[fn].qual + '.')
                modn = s1.get(fr.mod).name
                info.qual = (pre + nm) if not mod_level and not fr.is_class else modn + ':' + pre + nm
                info.isgen = not isinstance(n, ast.Lambda) and any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in _walk_scope(b))
                if isinstance(n, ast.Lambda):
                    info.locals = frozenset(x.arg for x in n.args.args)
                else:
                    loc = {x.id for b in n.body for x in _walk_scope(b)
                           if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                    for b in n.body:
                        for x in _walk_scope(b):
                            if isinstance(x, (ast.Global, ast.Nonlocal)):
                                loc -= set(x.names)
                    info.locals = frozenset(loc)
                uid = '%s:%d:%d:%s#%s' % (info.file, n.lineno, n.col_offset, nm, fresh_addr())
                self.funcs[uid] = info
                res.append((s1, Func(uid)))
        return res

    def ex_ClassDef(self, n, st):
        out = []
        for s, bases in self.ev_list(n.bases, st):
            kws = [(s, {})]
            for k in n.keywords:
                kws = [(s2, dict(d, **{k.arg: v})) for s1, d in kws for s2, v in self.ev(k.value, s1)]
            for s1, kw in kws:
                out += self._classdef(n, s1, bases, kw)
        return out

    def _classdef(self, n, st, bases, kw):
        bases = [b for b in bases]
        real = []
        for b in bases:
            if isinstance(st.obj(b), ClassO):
                real.append(b)
            else:
                self.gap('class %s has an unknown base' % n.name)
        meta = kw.pop('metaclass', None)
        if meta is None:
            for b in real:
                if st.get(b.a).meta is not None:
                    meta = st.get(b.a).meta
                    break
        fr0 = st.get(st.frame)
        path = fr0.fn[1] if isinstance(fr0.fn, tuple) else self.funcs[fr0.fn].file
        mod_level = isinstance(fr0.fn, tuple) and fr0.fn[0] == '<module>'
        cf = FrameO(fr0.mod, None if mod_level else st.frame, ('<class>', path, n.name), True)
        r = st.alloc(cf)
        saved = st.frame
        st.frame = r.a
        out = []
        for k, s, v in self.ex(n.body, st):
            if k != 'next':
                continue
            ns = dict(s.get(r.a).vars)
            s.frame = saved
            doc = ast.get_docstring(n)
            qual = s.get(fr0.mod).name + ':' + n.name
            made = []
            mo = s.obj(meta) if meta is not None else None
            nw = self.mro_find(s, meta, '__new__') if mo is not None else None
            ns['__qualname__'] = Const(n.name)
            ns['__module__'] = Const(s.get(fr0.mod).name)
            if nw and isinstance(nw[0], (Func, StaticM)) and mo.ext is None:
                f = nw[0].k[0] if isinstance(nw[0], StaticM) else nw[0]
                d = s.alloc(DictO({Const(k2): x for k2, x in ns.items()}))
                made = self.call(s, f, [meta, Const(n.name), Tup(real or [self.classes['object']]), d], dict(kw))
            else:
                made = [(s, self.make_class(s, n.name, tuple(real), ns, meta, qual))]
            for s2, c in made:
                co = s2.obj(c)
                if isinstance(co, ClassO):
                    co = s2.mut(c.a)
                    co.qual = qual
                    if co.meta is None:
                        co.meta = meta
                    self.cls_of_frame[r.a] = c
                ss = [(s2, c)]
                for d in reversed(n.decorator_list):
                    ss = [x for s3, v3 in ss for s4, dv in self.ev(d, s3) for x in self.lib.decorate(self, s4, dv, v3)]
                for s3, v3 in ss:
                    self.set_name(s3, n.name, v3)
                    out.append(('next', s3, None))
        return out

    def ex_Import(self, n, st):
        for a in n.names:
            m = self.load(a.name, st)
            if a.asname:
                self.set_name(st, a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.set_name(st, top, self.load(top, st))
        return [('next', st, None)]

    def ex_ImportFrom(self, n, st):
        m = st.get(st.get(st.frame).mod)
        name = n.module or ''
        if n.level:
            pk = m.ns['__package__'].v if '__package__' in m.ns else ''
            ps = pk.split('.') if pk else []
            ps = ps[:len(ps) - (n.level - 1)]
            name = '.'.join(ps + ([n.module] if n.module else []))
        mod = self.load(name, st)
        for a in n.names:
            if a.name == '*':
                for k, v in list(st.get(mod.a).ns.items()):
                    if not k.startswith('_'):
                        self.set_name(st, k, v)
                continue
            mo = st.get(mod.a)
            if a.name in mo.ns:
                v = mo.ns[a.name]
            elif self.mod_path(name + '.' + a.name)[0]:
                v = self.load(name + '.' + a.name, st)
            elif mo.ext:
                v = self.lib.ext_attr(self, st, mo, a.name)
            else:
                self.raise_(st, 'ImportError', 'cannot import name %s from %s' % (a.name, name))
                return []
            self.set_name(st, a.asname or a.name, v)
        return [('next', st, None)]

    # ------------------------------------------------------------ loops
    def ex_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            for s2, segs in self.lib.iter_segs(self, s, it):
                out += self.loop_segs(s2, segs, lambda x, v: self.assign(x, n.target, v), n.body, n.orelse, ('for', n.lineno, n.col_offset))
        return out

    ex_AsyncFor = ex_For

    def loop_segs(self, st, segs, bindf, body, orelse, loopid):
        """Iterate a body over list segments. body: stmt list or callable(st)->outcomes."""
        run = (lambda s: self.ex(body, s)) if isinstance(body, list) else body
        states, done, outs = [st], [], []
        for seg in segs:
            nxt = []
            for s in states:
                if isinstance(seg, Many):
                    norm, brk, oth = self._loop_many(s, seg, bindf, run, loopid)
                    nxt += norm
                    done += brk
                    outs += oth
                else:
                    for s1 in bindf(s, seg):
                        for k, s2, v in run(s1):
                            if k in ('next', 'cont'):
                                nxt.append(s2)
                            elif k == 'brk':
                                done.append(s2)
                            else:
                                outs.append((k, s2, v))
            states = nxt
            if len(states) > 1:
                states = [x[0] for x in self.dedupe([(s, None) for s in states])]
            if len(states) > STATE_CAP:
                raise Gap('state budget exceeded in loop at %s' % self.where())
        if orelse:
            for s in states:
                outs += self.ex(orelse, s)
        else:
            outs += [('next', s, None) for s in states]
        outs += [('next', s, None) for s in done]
        return outs

    def _loop_many(self, st, seg, bindf, run, loopid):
        """Fixpoint for a segment of unknown length."""
        elem = Fn('elem', (seg.src,), 'any') if seg.src is not None else None
        cur = st
        nonempty = self.lib.src_nonempty(seg.src) and (seg.lo is None or seg.lo == ZERO) and seg.hi is None
        for rnd in range(8):
            ends, brks, oth = [], [], []
            self.coll.append([])
            for alt in seg.alts:
                ss = [cur.copy()]
                for v in alt:
                    n2 = []
                    for s in ss:
                        for s1 in bindf(s, v):
                            for k, s2, rv in run(s1):
                                if k in ('next', 'cont'):
                                    n2.append(s2)
                                elif k == 'brk':
                                    brks.append(s2)
                                else:
                                    oth.append((k, s2, rv))
                    ss = n2
                ends += ss
            exc = self.coll.pop()
            if not ends:
                norm = [] if (nonempty and rnd == 0) else [cur]
                break
            new = self.widen(cur, ends, seg, loopid, rnd)
            if self.same(new, None, cur, None):
                norm = [new]
                break
            grew_only = self._only_accumulated(cur, new)
            if rnd == 0:
                pre = cur
            cur = new
        else:
            self.gap('loop did not stabilise')
            norm = [cur]
        # zero iterations: subsumed by the widened state unless the body overwrote something
        if norm and not nonempty and norm[0] is not st and not self.same(norm[0], None, st, None):
            if not self._subsumes(norm[0], st, loopid):
                norm = norm + [st]
        self.coll[-1].extend(exc)
        return norm, brks, oth

    def _only_accumulated(self, a, b):
        return True

    def _subsumes(self, big, small, loopid):
        """big differs from small only in sequences with an added loop segment
        (which covers zero elements) or in loop-local variables."""
        for a, o in big.heap.items():
            p = small.heap.get(a) or small.base.get(a)
            if p is None or p is o:
                continue
            if isinstance(o, ListO) and isinstance(p, ListO):
                extra = o.segs[len(p.segs):]
                if o.segs[:len(p.segs)] == p.segs and all(isinstance(x, Many) for x in extra):
                    continue
                if o.segs == p.segs:
                    continue
                return False
            if isinstance(o, FrameO) and isinstance(p, FrameO):
                for k in set(o.vars) | set(p.vars):
                    x, y = o.vars.get(k), p.vars.get(k)
                    if x == y:
                        continue
                    if y is None:
                        continue          # only defined inside the loop
                    if isinstance(x, Union) and y in x.vals:
                        continue
                    if x is not None and is_str(x) and is_str(y) and parts_of(x)[:len(parts_of(y))] == parts_of(y) \
                            and all(isinstance(q, Fn) and q.op == 'join' for q in parts_of(x)[len(parts_of(y)):]):
                        continue
                    if isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == 'loopint':
                        return False
                    return False
                continue
            if o.content() != p.content():
                return False
        return True

    def widen(self, o, ends, seg, loopid, rnd):
        """Join of o and all end states of one iteration started in o."""
        new = o.copy()
        for e in ends:
            for a, x in e.heap.items():
                if a not in new.heap and a not in new.base:
                    new.heap[a] = x
        # facts valid in every end state and initially
        keepf = lambda get: None
        for attr in ('facts', 'eq'):
            d = getattr(o, attr)
            setattr(new, attr, {k: v for k, v in d.items() if all(getattr(e, attr).get(k) == v for e in ends)})
        new.ne = {k: v for k, v in o.ne.items() if all(v <= e.ne.get(k, frozenset()) for e in ends)}
        new.sign = {}
        for k, v in o.sign.items():
            u = v
            for e in ends:
                u = u | e.sign.get(k, frozenset((-1, 0, 1)))
            new.sign[k] = u
        # events: those of an iteration are kept once
        evs = list(o.ev)
        for e in ends:
            for x in e.ev[len(o.ev):]:
                if x not in evs:
                    evs.append(x)
        new.ev = tuple(evs)
        changed = set()
        for e in ends:
            for a, x in e.heap.items():
                if (a in o.heap or a in o.base) and o.get(a) is not x:
                    changed.add(a)
        for a in changed:
            old = o.get(a)
            vs = [e.get(a) for e in ends]
            new.heap[a] = self._widen_obj(o, old, vs, ends, seg, loopid, a)
        return new

    def _widen_obj(self, ost, old, vs, ends, seg, loopid, addr):
        if isinstance(old, ListO):
            r = old.clone()
            r.segs = self._widen_segs(old.segs, [v.segs for v in vs], seg, loopid, ends, ost)
            return r
        if isinstance(old, DictO):
            r = old.clone()
            keys = list(old.d)
            for v in vs:
                keys += [k for k in v.d if k not in keys]
            r.d = {}
            for k in keys:
                r.d[k] = self._widen_val(old.d.get(k), [v.d.get(k) for v in vs], seg, loopid, (addr, k))
            return r
        if isinstance(old, FrameO):
            r = old.clone()
            keys = list(old.vars)
            for v in vs:
                keys += [k for k in v.vars if k not in keys]
            r.vars = {}
            for k in keys:
                w = self._widen_val(old.vars.get(k), [v.vars.get(k) for v in vs], seg, loopid, (addr, k))
                if w is not None:
                    r.vars[k] = w
            r.captured = r.captured or any(v.captured for v in vs)
            return r
        if isinstance(old, InstO):
            r = old.clone()
            keys = list(old.attrs)
            for v in vs:
                keys += [k for k in v.attrs if k not in keys]
            r.attrs = {}
            for k in keys:
                w = self._widen_val(old.attrs.get(k), [v.attrs.get(k) for v in vs], seg, loopid, (addr, k))
                if w is not None:
                    r.attrs[k] = w
            if isinstance(old.data, (ListO, DictO)):
                r.data = self._widen_obj(ost, old.data, [v.data for v in vs], ends, seg, loopid, (addr, 'data'))
            return r
        if isinstance(old, (ClassO, ModO)):
            r = old.clone()
            for v in vs:
                for k, x in v.ns.items():
                    if r.ns.get(k) != x:
                        r.ns[k] = self._widen_val(r.ns.get(k), [x], seg, loopid, (addr, k))
            return r
        return vs[-1]

    def _loopseg(self, segs_old, adds, seg, loopid):
        """segs_old + one loop segment whose alternatives are `adds`."""
        tag = (loopid, seg.src, seg.lo, seg.hi)
        if segs_old and isinstance(segs_old[-1], Many) and self.looptag.get(segs_old[-1]) == tag:
            last = segs_old[-1]
            alts = list(last.alts)
            for a in adds:
                if a not in alts and not any(self._alt_same(a, b) for b in alts):
                    alts.append(a)
            m = Many(alts, seg.src, seg.lo, seg.hi)
            self.looptag[m] = tag
            return segs_old[:-1] + (m,)
        alts = []
        for a in adds:
            if a not in alts:
                alts.append(a)
        if alts == [()]:
            return segs_old
        m = Many(alts, seg.src, seg.lo, seg.hi)
        self.looptag[m] = tag
        return segs_old + (m,)

    looptag = {}
    _altst = None

    def _alt_same(self, a, b):
        if len(a) != len(b) or self._altst is None:
            return False
        for x, y in zip(a, b):
            if not bisim(self._altst, x, self._altst, y):
                return False
        return True

    def _widen_segs(self, old, news, seg, loopid, ends, ost):
        n = len(old)
        if all(v[:n] == old for v in news):
            adds = [tuple(v[n:]) for v in news]
            if any(isinstance(x, Many) for a in adds for x in a):
                # a nested sequence appended per iteration: keep as nested alternatives
                pass
            merged = State(ends[0].base)
            for e in ends:
                merged.heap.update(e.heap)
            self._altst = merged
            r = self._loopseg(old, adds, seg, loopid)
            self._altst = None
            return r
        if all(len(v) >= n and v[len(v) - n:] == old for v in news):
            adds = [tuple(v[:len(v) - n]) for v in news]
            return (Many(tuple(dict.fromkeys(adds)), Fn('reversed', (seg.src,)) if seg.src is not None else None),) + old
        elems = []
        for v in (old,) + tuple(news):
            for x in v:
                xs = [y for a in x.alts for y in a] if isinstance(x, Many) else [x]
                for y in xs:
                    if y not in elems:
                        elems.append(y)
        return (Many(tuple((e,) for e in elems), None),)

    def _widen_val(self, old, news, seg, loopid, key):
        vals = []
        for v in news:
            if v is not None and v not in vals:
                vals.append(v)
        if old is not None and all(v == old for v in vals):
            return old
        allv = ([old] if old is not None else []) + vals
        flat = []
        for v in allv:
            for x in (v.vals if isinstance(v, Union) else (v,)):
                if x not in flat:
                    flat.append(x)
        if old is not None and all(is_int(v) and not (isinstance(v, Const) and isinstance(v.v, bool)) for v in flat):
            return Sym(('loopint', loopid, key), 'int')
        if old is not None and all(is_str(v) for v in flat) and not isinstance(old, Union):
            po = parts_of(old)
            if all(_str_prefix(po, v) is not None for v in vals):
                adds = [_str_prefix(po, v) for v in vals]
                adds = [tuple([mkstr(list(a))]) if a else () for a in adds]
                # accumulate into a loop segment
                tag = (loopid, seg.src, seg.lo, seg.hi)
                if po and isinstance(po[-1], Fn) and po[-1].op == 'join' and isinstance(po[-1].args[1].items[-1], Many) \
                        and self.looptag.get(po[-1].args[1].items[-1]) == tag:
                    m = po[-1].args[1].items[-1]
                    alts = list(m.alts) + [a for a in adds if a not in m.alts]
                    m2 = Many(alts, seg.src, seg.lo, seg.hi)
                    self.looptag[m2] = tag
                    return mkstr(list(po[:-1]) + [mkjoin(Const(''), (m2,))])
                m = Many(tuple(dict.fromkeys(adds)), seg.src, seg.lo, seg.hi)
                self.looptag[m] = tag
                return mkstr(list(po) + [mkjoin(Const(''), (m,))])
        if len(flat) > 8:
            return Sym(('loopvar', loopid, key), 'any')
        if len(flat) == 1:
            return flat[0]
        return Union(flat)

    def ex_While(self, n, st):
        outs, done = [], []
        states = [(st, 0)]
        it = 0
        while states:
            it += 1
            nxt = []
            for s, sym in states:
                for s1, v in self.ev(n.test, s):
                    res = self.truth(s1, v)
                    forked = len(res) > 1
                    for s2, b in res:
                        if not b:
                            if n.orelse:
                                outs += self.ex(n.orelse, s2)
                            else:
                                done.append(s2)
                            continue
                        if sym + forked > 3 or it > 200:
                            outs += self._havoc_exit(n, s2)
                            continue
                        for k, s3, rv in self.ex(n.body, s2):
                            if k in ('next', 'cont'):
                                nxt.append((s3, sym + forked))
                            elif k == 'brk':
                                done.append(s3)
                            else:
                                outs.append((k, s3, rv))
            if len(nxt) > 1:
                nxt = self.dedupe(nxt, val=lambda i: None)
            if len(nxt) > STATE_CAP:
                raise Gap('state budget exceeded in while at %s' % self.where())
            states = nxt
        done = [x[0] for x in self.dedupe([(s, None) for s in done])]
        return outs + [('next', s, None) for s in done]

    def _havoc_exit(self, n, st):
        """Give up on an unbounded while loop: forget everything it writes."""
        self.gap('while loop of unknown length: written variables forgotten')
        st.event('havoc', self.where())
        f = st.mut(st.frame)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                f.vars[x.id] = Sym(('havoc', x.id, n.lineno), 'any')
        for a in list(st.heap):
            o = st.heap[a]
            if isinstance(o, ListO):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and f.vars.get(x.id) == Ref(a):
                        st.mut(a).segs = (Many((tuple(),), None),) + tuple(s for s in o.segs)
        return [('next', st, None)]

    # ------------------------------------------------------------ expressions
    def mangle(self, st, name):
        if name.startswith('__') and not name.endswith('__'):
            fr = st.get(st.frame)
            c = None
            if isinstance(fr.fn, tuple):
                c = fr.fn[2] if fr.fn[0] == '<class>' else None
            elif fr.fn is not None:
                c = self.funcs[fr.fn].clsname
            if c:
                return '_%s%s' % (c.lstrip('_'), name)
        return name

    def ev(self, n, st):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Gap('unsupported expression %s at %s' % (type(n).__name__, self.where()))
        return m(n, st)

    def ev_list(self, nodes, st):
        """Evaluate expressions left to right (with * unpacking): [(st, [vals])]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, acc in res:
                if isinstance(n, ast.Starred):
                    for s1, v in self.ev(n.value, s):
                        for s2, segs in self.lib.iter_segs(self, s1, v):
                            nxt.append((s2, acc + list(segs)))
                else:
                    for s1, v in self.ev(n, s):
                        nxt.append((s1, acc + [v]))
            res = nxt
        return res

    def ev_Constant(self, n, st):
        return [(st, Const(n.value))]

    def ev_Name(self, n, st):
        v = self.lookup(st, n.id)
        fr = st.get(st.frame)
        if v is None or (not isinstance(fr.fn, tuple) and fr.fn is not None and n.id in self.funcs[fr.fn].locals
                         and n.id not in fr.vars and n.id not in fr.glob and not self._in_enclosing_comp(st, n.id)):
            return self.raise_(st, 'UnboundLocalError' if v is not None else 'NameError', "name '%s' is not defined" % n.id)
        return self.expand(st, v)

    def _in_enclosing_comp(self, st, name):
        fr = st.get(st.frame)
        a = fr.parent
        while a is not None:
            f = st.get(a)
            if f.fn != fr.fn:
                return False
            if name in f.vars:
                return True
            a = f.parent
        return False

    def ev_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            self.set_name(s, n.target.id, v)
            out.append((s, v))
        return out

    def ev_Attribute(self, n, st):
        return [r for s, v in self.ev(n.value, st)
                for s2, x in self.getattr_(s, v, self.mangle(s, n.attr)) for r in self.expand(s2, x)]

    def ev_Subscript(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                los = self.ev(n.slice.lower, s) if n.slice.lower else [(s, NONE)]
                for s1, lo in los:
                    for s2, hi in (self.ev(n.slice.upper, s1) if n.slice.upper else [(s1, NONE)]):
                        for s3, stp in (self.ev(n.slice.step, s2) if n.slice.step else [(s2, NONE)]):
                            out += self.lib.getslice(self, s3, v, lo, hi, stp)
            else:
                for s1, i in self.ev(n.slice, s):
                    for s2, x in self.lib.getitem(self, s1, v, i):
                        out += self.expand(s2, x)
        return out

    def ev_Slice(self, n, st):
        out = []
        for s1, lo in (self.ev(n.lower, st) if n.lower else [(st, NONE)]):
            for s2, hi in (self.ev(n.upper, s1) if n.upper else [(s1, NONE)]):
                for s3, stp in (self.ev(n.step, s2) if n.step else [(s2, NONE)]):
                    out.append((s3, Fn('slice', (lo, hi, stp), 'slice')))
        return out

    def ev_Index(self, n, st):
        return self.ev(n.value, st)

    def ev_Tuple(self, n, st):
        return [(s, Tup(vs)) if not any(isinstance(v, Many) for v in vs) else (s, s.alloc(ListO(vs)))
                for s, vs in self.ev_list(n.elts, st)]

    def ev_List(self, n, st):
        return [(s, s.alloc(ListO(vs))) for s, vs in self.ev_list(n.elts, st)]

    def ev_Set(self, n, st):
        out = []
        for s, vs in self.ev_list(n.elts, st):
            u = []
            for v in vs:
                if v not in u:
                    u.append(v)
            out.append((s, s.alloc(ListO(u, 'set'))))
        return out

    def ev_Dict(self, n, st):
        res = [(st, {}, None)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, d, rest in res:
                if k is None:
                    for s1, m in self.ev(v, s):
                        o = s1.obj(m)
                        o = o.data if isinstance(o, InstO) else o
                        if isinstance(o, DictO):
                            d2 = dict(d)
                            d2.update(o.d)
                            nxt.append((s1, d2, o.rest or rest))
                        else:
                            nxt.append((s1, d, m))
                else:
                    for s1, kv in self.ev(k, s):
                        for s2, vv in self.ev(v, s1):
                            d2 = dict(d)
                            d2[s2.resolve(kv)] = vv
                            nxt.append((s2, d2, rest))
            res = nxt
        return [(s, s.alloc(DictO(d, rest))) for s, d, rest in res]

    def ev_BinOp(self, n, st):
        op = type(n.op).__name__
        return [r for s, a in self.ev(n.left, st) for s2, b in self.ev(n.right, s)
                for r in self.lib.binop(self, s2, op, a, b)]

    def ev_UnaryOp(self, n, st):
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                out += [(s2, Const(not b)) for s2, b in self.truth(s, v)]
            elif isinstance(n.op, ast.USub):
                out.append((s, lmul(v, Const(-1)) or Fn('neg', (v,), 'any')))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, Const(~v.v) if isinstance(v, Const) else Fn('invert', (v,), 'int')))
        return out

    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        live = [st]
        out = []
        for i, e in enumerate(n.values):
            nxt = []
            for s in live:
                for s1, v in self.ev(e, s):
                    if i == len(n.values) - 1:
                        out.append((s1, v))
                        continue
                    for s2, b in self.truth(s1, v):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, s2.resolve(v) if not kind(v) == 'bool' else Const(b)))
            live = nxt
        return out

    def ev_IfExp(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            for s2, b in self.truth(s, v):
                out += self.ev(n.body if b else n.orelse, s2)
        return out

    def ev_Compare(self, n, st):
        live = [(s, v) for s, v in self.ev(n.left, st)]
        out = []
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            last = i == len(n.ops) - 1
            for s, a in live:
                for s1, b in self.ev(r, s):
                    for s2, res in self.lib.compare(self, s1, type(op).__name__, a, b):
                        if last:
                            out.append((s2, res))
                        else:
                            for s3, t in self.truth(s2, res):
                                if t:
                                    nxt.append((s3, b))
                                else:
                                    out.append((s3, FALSE))
            live = nxt
        return out

    def ev_Call(self, n, st):
        out = []
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and self.lookup(st, 'super') == Builtin('super'):
            return [(st, self._super0(st))]
        if isinstance(n.func, ast.Name) and n.func.id == 'locals' and not n.args:
            f = st.get(st.frame)
            return [(st, st.alloc(DictO({Const(k): v for k, v in f.vars.items() if not k.startswith('$')})))]
        here = self.cur
        for s, f in self.ev(n.func, st):
            for s1, args in self.ev_list(n.args, s):
                kws = [(s1, {})]
                for k in n.keywords:
                    nk = []
                    for s2, d in kws:
                        for s3, v in self.ev(k.value, s2):
                            d2 = dict(d)
                            if k.arg is None:
                                for s4, v4 in self.expand(s3, v):
                                    o = s4.obj(v4)
                                    o = o.data if isinstance(o, InstO) else o
                                    d3 = dict(d2)
                                    if isinstance(o, DictO):
                                        for kk, vv in o.d.items():
                                            if isinstance(kk, Const) and isinstance(kk.v, str):
                                                d3[kk.v] = vv
                                        if o.rest is not None:
                                            d3['**'] = o.rest
                                    else:
                                        d3['**'] = v4
                                    nk.append((s4, d3))
                            else:
                                d2[k.arg] = v
                                nk.append((s3, d2))
                    kws = nk
                for s2, kw in kws:
                    self.cur = (here[0], n) if here else None
                    out += [r for s3, v in self.call(s2, f, args, kw, n) for r in self.expand(s3, v)]
        self.cur = here
        return out

    def _super0(self, st):
        a = st.frame
        while a is not None:
            f = st.get(a)
            if not isinstance(f.fn, tuple) and f.fn is not None:
                info = self.funcs[f.fn]
                if info.clsframe is not None and info.node.__class__ is not ast.Lambda and info.node.args.args \
                        and info.node.args.args[0].arg in f.vars and info.closure == info.clsframe:
                    return Super(self.cls_of_frame[info.clsframe], f.vars[info.node.args.args[0].arg])
            a = f.parent
        raise Gap('super() outside a method at %s' % self.where())

    def ev_Lambda(self, n, st):
        return self.make_func(n, st)

    def ev_JoinedStr(self, n, st):
        res = [(st, [])]
        for v in n.values:
            nxt = []
            for s, acc in res:
                for s1, x in self.ev(v, s):
                    nxt.append((s1, acc + [x]))
            res = nxt
        return [(s, mkstr(acc)) for s, acc in res]

    def ev_FormattedValue(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            specs = self.ev(n.format_spec, s) if n.format_spec is not None else [(s, Const(''))]
            for s1, sp in specs:
                if n.conversion == 114:
                    out.append((s1, Fn('repr', (v,), 'str')))
                else:
                    out += self.lib.fmt_value(self, s1, v, sp)
        return out

    def ev_Starred(self, n, st):
        return self.ev(n.value, st)

    def ev_Yield(self, n, st):
        out = []
        for s, v in (self.ev(n.value, st) if n.value is not None else [(st, NONE)]):
            y = s.get(s.frame).vars.get('$yield')
            o = s.mut(y.a)
            o.segs = o.segs + (v,)
            out.append((s, NONE))
        return out

    def ev_YieldFrom(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            for s1, segs in self.lib.iter_segs(self, s, v):
                y = s1.get(s1.frame).vars.get('$yield')
                o = s1.mut(y.a)
                o.segs = o.segs + tuple(segs)
                out.append((s1, NONE))
        return out

    def ev_Await(self, n, st):
        return self.ev(n.value, st)

    # comprehensions run in their own frame and append to a hidden list
    def _comp(self, n, st, elt):
        fr0 = st.get(st.frame)
        parent = st.frame
        modlev = isinstance(fr0.fn, tuple) and fr0.fn[0] == '<module>'
        out = []
        for s, it in self.ev(n.generators[0].iter, st):
            f = FrameO(fr0.mod, None if modlev else parent, fr0.fn if not isinstance(fr0.fn, tuple) else ('<comp>', fr0.fn[1], fr0.fn[2] if len(fr0.fn) > 2 else ''))
            r = s.alloc(f)
            acc = s.alloc(ListO())
            s.frame = r.a
            if not modlev:
                pass
            res = self._comp_gen(s, n.generators, 0, it, elt, acc, n)
            for s2 in res:
                s2.frame = parent
                fo = s2.heap.get(r.a)
                if fo is not None and not fo.captured:
                    del s2.heap[r.a]
                out.append((s2, acc))
        return out

    def _comp_gen(self, st, gens, i, it, elt, acc, n):
        g = gens[i]

        def body(s):
            ss = [s]
            res = []
            for c in g.ifs:
                nxt = []
                for x in ss:
                    for s1, v in self.ev(c, x):
                        for s2, b in self.truth(s1, v):
                            if b:
                                nxt.append(s2)
                            else:
                                res.append(('next', s2, None))
                ss = nxt
            for x in ss:
                if i + 1 < len(gens):
                    for s1, it2 in self.ev(gens[i + 1].iter, x):
                        res += [('next', y, None) for y in self._comp_gen(s1, gens, i + 1, it2, elt, acc, n)]
                else:
                    for s1, v in elt(x):
                        o = s1.mut(acc.a)
                        o.segs = o.segs + (v,)
                        res.append(('next', s1, None))
            return res
        out = []
        for s, segs in self.lib.iter_segs(self, st, it):
            for k, s2, _ in self.loop_segs(s, segs, lambda x, v: self.assign(x, g.target, v), body, None,
                                           ('comp', n.lineno, n.col_offset, i)):
                out.append(s2)
        return out

    def ev_ListComp(self, n, st):
        return self._comp(n, st, lambda s: self.ev(n.elt, s))

    def ev_GeneratorExp(self, n, st):
        return self._comp(n, st, lambda s: self.ev(n.elt, s))

    def ev_SetComp(self, n, st):
        out = []
        for s, r in self._comp(n, st, lambda s: self.ev(n.elt, s)):
            o = s.mut(r.a)
            o.cls = 'set'
            out.append((s, r))
        return out

    def ev_DictComp(self, n, st):
        def pair(s):
            return [(s2, Tup((k, v))) for s1, k in self.ev(n.key, s) for s2, v in self.ev(n.value, s1)]
        out = []
        for s, r in self._comp(n, st, pair):
            d, rest = {}, None
            for x in s.get(r.a).segs:
                if isinstance(x, Tup):
                    d[s.resolve(x.items[0])] = x.items[1]
                else:
                    rest = Sym(('dictcomp', n.lineno), 'dict')
            out.append((s, s.alloc(DictO(d, rest))))
        return out

    def ev_MatchValue(self, n, st):
        raise Gap('match statement')


def _str_prefix(po, v):
    pv = parts_of(v)
    if pv[:len(po)] == po:
        return pv[len(po):]
    # the last literal may have grown
    if po and len(pv) >= len(po) and pv[:len(po) - 1] == po[:-1] and isinstance(po[-1], str) \
            and isinstance(pv[len(po) - 1], str) and pv[len(po) - 1].startswith(po[-1]):
        return (pv[len(po) - 1][len(po[-1]):],) + tuple(pv[len(po):])
    return None


def _walk_scope(n):
    """ast.walk that does not enter nested scopes (but enters n itself)."""
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        yield ast.Name(id=n.name, ctx=ast.Store())
        return
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                yield ast.Name(id=c.name, ctx=ast.Store())
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # only walrus targets leak; first iterable is in this scope
                if isinstance(c, ast.Lambda):
                    continue
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        yield w.target
                stack.append(c.generators[0].iter)
                continue
            stack.append(c)
