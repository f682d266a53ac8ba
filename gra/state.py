"""Abstract state: heap overlay, branch facts, event log."""
from .dom import *

_counter = [0]


def fresh_addr():
    _counter[0] += 1
    return _counter[0]


class State:
    __slots__ = ('base', 'heap', 'frame', 'facts', 'eq', 'ne', 'sign', 'ev', 'stack')

    def __init__(self, base=None):
        self.base = base if base is not None else {}
        self.heap = {}
        self.frame = None
        self.facts = {}
        self.eq = {}
        self.ne = {}
        self.sign = {}
        self.ev = ()
        self.stack = ()

    def copy(self):
        s = State(self.base)
        s.heap = dict(self.heap)
        s.frame, s.stack, s.ev = self.frame, self.stack, self.ev
        s.facts, s.eq, s.ne, s.sign = dict(self.facts), dict(self.eq), dict(self.ne), dict(self.sign)
        return s

    def get(self, a):
        o = self.heap.get(a)
        if o is None:
            o = self.base[a]
        return o

    def obj(self, v):
        return self.get(v.a) if isinstance(v, Ref) else None

    def alloc(self, o):
        a = fresh_addr()
        self.heap[a] = o
        return Ref(a)

    def mut(self, a):
        o = self.get(a).clone()
        self.heap[a] = o
        return o

    def event(self, *e):
        self.ev = self.ev + (e,)

    # ---- facts
    def resolve(self, v):
        return self.eq.get(v, v)

    def is_opt_unknown(self, v):
        return isinstance(v, (Sym, Fn)) and is_opt(v) and Fn('isnone', (v,), 'bool') not in self.facts

    def known_none(self, v):
        return isinstance(v, (Sym, Fn)) and self.facts.get(Fn('isnone', (v,), 'bool')) is True


def is_opt(v):
    if isinstance(v, Sym):
        return FLAG_OPT in v.flags
    if isinstance(v, Fn):
        return v.op in ('url.hostname', 'url.port', 'opt')
    return False


def changed(sts):
    """The addresses shared by all states whose contents are not the same in all."""
    s, rest = sts[0], sts[1:]
    return [a for a, o in s.heap.items()
            if all(a in t.heap for t in rest) and any(t.heap[a] is not o for t in rest)
            and any(t.heap[a] is not o and t.heap[a].content() != o.content() for t in rest)]


def fingerprint(st, v, roots=()):
    """A hash of a value, the frame and the given objects of a state that
    agrees for states for which bisim() holds."""
    num, acc = {}, []
    work = [Ref(a) for a in roots]
    if st.frame is not None:
        work.append(Ref(st.frame))
    if v is not None:
        work.append(v)
    heap, base = st.heap, st.base
    while work:
        a = work.pop()
        if isinstance(a, Ref):
            n = num.get(a.a)
            if n is not None:
                acc.append(n)
                continue
            acc.append(len(num))
            num[a.a] = len(num)
            o = heap.get(a.a)
            if o is None:
                acc.append(a.a)
                continue
            if isinstance(o, ListO):
                acc.append(len(o.segs))
                work += o.segs
            elif isinstance(o, DictO):
                acc.append(tuple(o.d))
                work += o.d.values()
            elif isinstance(o, InstO):
                acc.append(o.cls)
                ks = sorted(o.attrs)
                acc.append(tuple(ks))
                work += [o.attrs[k] for k in ks]
                d = o.data
                if isinstance(d, DictO):
                    acc.append(tuple(d.d))
                    work += d.d.values()
                elif isinstance(d, ListO):
                    acc.append(len(d.segs))
                    work += d.segs
            elif isinstance(o, FrameO):
                ks = sorted(o.vars)
                acc.append(tuple(ks))
                work += [o.vars[k] for k in ks]
                if o.parent is not None:
                    work.append(Ref(o.parent))
        elif isinstance(a, Term):
            if isinstance(a, ExtPy) or not refs_of(a):
                acc.append(a)
            else:
                acc.append(type(a).__name__)
                work += refs_of(a)
        elif isinstance(a, tuple):
            acc.append(len(a))
            work += a
    return hash(tuple(acc))


def bisim(st1, v1, st2, v2, amap=None, strict_base=True, path=(), why=None, skip=()):
    """Structural equality of two abstract values in two states, up to
    renaming of heap addresses.  On failure appends a description to `why`."""
    if amap is None:
        amap = {}

    def fail(p, a, b):
        if why is not None:
            why.append((p, a, b))
        return False

    work = [(v1, v2, path)]
    while work:
        a, b, p = work.pop()
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.a in amap:
                if amap[a.a] != b.a:
                    return fail(p, a, b)
                continue
            if ('rev', b.a) in amap:
                return fail(p, a, b)
            amap['rev', b.a] = a.a
            oa, ob = st1.get(a.a), st2.get(b.a)
            if a.a == b.a and oa is ob and a.a in st1.base and a.a not in st1.heap:
                amap[a.a] = b.a
                continue
            if type(oa) is not type(ob):
                return fail(p, a, b)
            amap[a.a] = b.a
            if isinstance(oa, ListO):
                if len(oa.segs) != len(ob.segs):
                    return fail(p, a, b)
                work += [(x, y, p + ('[%d]' % i,)) for i, (x, y) in enumerate(zip(oa.segs, ob.segs))]
            elif isinstance(oa, DictO):
                if list(oa.d) != list(ob.d) or oa.rest != ob.rest:
                    return fail(p, a, b)
                work += [(oa.d[k], ob.d[k], p + ('[%r]' % (k,),)) for k in oa.d]
            elif isinstance(oa, InstO):
                ka = [k for k in oa.attrs if k not in skip]
                kb = [k for k in ob.attrs if k not in skip]
                if oa.cls != ob.cls or set(ka) != set(kb):
                    d = set(ka) ^ set(kb)
                    return fail(p + ('.' + ','.join(sorted(d)),), a, b)
                work += [(oa.attrs[k], ob.attrs[k], p + ('.' + k,)) for k in ka]
                da, db = oa.data, ob.data
                if isinstance(da, DictO) and isinstance(db, DictO):
                    if list(da.d) != list(db.d) or da.rest != db.rest:
                        return fail(p, a, b)
                    work += [(da.d[k], db.d[k], p + ('[%r]' % (k,),)) for k in da.d]
                elif isinstance(da, ListO) and isinstance(db, ListO):
                    if len(da.segs) != len(db.segs):
                        return fail(p, a, b)
                    work += [(x, y, p) for x, y in zip(da.segs, db.segs)]
                elif da != db:
                    return fail(p, a, b)
            elif isinstance(oa, FrameO):
                if set(oa.vars) != set(ob.vars):
                    return fail(p, a, b)
                work += [(oa.vars[k], ob.vars[k], p + (k,)) for k in oa.vars]
                if (oa.parent is None) != (ob.parent is None):
                    return fail(p, a, b)
                if oa.parent is not None:
                    work.append((Ref(oa.parent), Ref(ob.parent), p))
            elif isinstance(oa, ClassO):
                if a.a != b.a:
                    if oa.name != ob.name or set(oa.ns) != set(ob.ns):
                        return fail(p, a, b)
                work += [(oa.ns[k], ob.ns[k], p + (k,)) for k in oa.ns if k in ob.ns]
            elif isinstance(oa, ModO):
                if set(oa.ns) != set(ob.ns):
                    return fail(p, a, b)
                if oa is not ob:
                    work += [(oa.ns[k], ob.ns[k], p + (k,)) for k in oa.ns]
            else:
                if oa is not ob:
                    return fail(p, a, b)
            continue
        if a == b:
            # equal terms may embed Refs whose contents differ
            if not isinstance(a, (Const, Sym)):
                work += [(r, r, p) for r in refs_of(a)]
            continue
        if isinstance(a, Term) and isinstance(b, Term) and type(a) is type(b) and len(a.k) == len(b.k) \
                and not isinstance(a, (Const, Sym, Func, ExtPy, Builtin)):
            bad = False
            for x, y in zip(a.k, b.k):
                if isinstance(x, (Term, tuple)) or isinstance(y, (Term, tuple)):
                    work.append((x, y, p))
                elif x != y:
                    bad = True
            if bad:
                return fail(p, a, b)
            continue
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            work += [(x, y, p) for x, y in zip(a, b)]
            continue
        return fail(p, a, b)
    return True
