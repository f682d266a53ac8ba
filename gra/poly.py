"""Convex polyhedra: whether linear facts about integers contradict each other (projection by elimination)."""
from .dom import *

MAX = 1500


def bounds(d, s):
    """What the possible signs s of d say, as k*d + c >= 0."""
    res = []
    if -1 not in s:
        res.append((d, 1, 0 if 0 in s else -1))
    if 1 not in s:
        res.append((d, -1, 0 if 0 in s else -1))
    return res


def facts(I, st, basic=0):
    """What is known on the path."""
    res = []
    atoms = set()
    for d, s in st.sign.items():
        d = I.subst_eq(st, d)
        if as_lin(d) is None:
            continue
        atoms.update(as_lin(d)[0])
        res += bounds(d, s)
    for a in atoms:
        res += bounds(a, I.signs(st, lin({a: 1}, 0), basic))
    return res


def leaves(a):
    if isinstance(a, Fn) and a.op == 'BitAnd':
        return leaves(a.args[0]) + leaves(a.args[1])
    return [a]


def axioms(a):
    """Linear facts (k*d + c >= 0) about a quotient or the lowest bit of a conjunction."""
    if isinstance(a, Fn) and a.op == '//' and isinstance(a.args[1], Const) and isinstance(a.args[1].v, int) and a.args[1].v > 0 and as_lin(a.args[0]):
        n = a.args[1].v
        r = ladd(a.args[0], lmul(Const(n), a), -1)
        return [(r, 1, 0), (r, -1, n - 1)]
    if isinstance(a, Fn) and a.op == 'BitAnd' and ONE in leaves(a):
        d = lin({a: 1}, 0)
        res = [(d, 1, 0), (d, -1, 1)]
        for x in leaves(a):
            if not isinstance(x, Const) and as_lin(x):
                # at most the remainder of x by 2
                r = ladd(ladd(x, lmul(Const(2), Fn('//', (x, Const(2)), 'int')), -1), d, -1)
                res.append((r, 1, 0))
        return res
    return []


def empty(I, st, more, base, basic=0, limit=MAX):
    """Whether the facts base and more cannot hold together."""
    atoms = set(a for d, k, c in more for a in as_lin(d)[0])
    known = set(a for d, k, c in base for a in as_lin(d)[0])
    cs = {}
    extra = []
    for a in atoms - known:
        extra += bounds(a, I.signs(st, lin({a: 1}, 0), basic))
    done, todo = set(), list(atoms | known)
    while todo:
        a = todo.pop()
        if a in done:
            continue
        done.add(a)
        ax = axioms(a)
        extra += ax
        todo += [b for d, k, c in ax for b in as_lin(d)[0]]

    def put(co, c):
        k = tuple(sorted(((a, v) for a, v in co.items() if v), key=repr))
        cs[k] = min(cs.get(k, c), c)
    for d, k, c in base + extra + list(more):
        co, c0 = as_lin(d)
        put({a: v * k for a, v in co.items()}, c0 * k + c)
    while True:
        if cs.get((), 0) < 0:
            return True
        cs.pop((), None)
        vs = {}
        for co in cs:
            for a, v in co:
                n = vs.setdefault(a, [0, 0])
                n[v > 0] += 1
        if not vs:
            return False
        x = min(vs, key=lambda a: (vs[a][0] * vs[a][1] - sum(vs[a]), repr(a)))
        lo, hi, rest = [], [], {}
        for co, c in cs.items():
            v = dict(co).get(x, 0)
            if v > 0:
                lo.append((dict(co), c, v))
            elif v < 0:
                hi.append((dict(co), c, -v))
            else:
                rest[co] = c
        cs.clear()
        cs.update(rest)
        for co1, c1, v1 in lo:
            for co2, c2, v2 in hi:
                n = {a: co1.get(a, 0) * v2 + co2.get(a, 0) * v1 for a in set(co1) | set(co2)}
                n.pop(x)
                put(n, c1 * v2 + c2 * v1)
        if len(cs) > limit:
            return False


def signs(I, st, d, r):
    """Drop the signs of d that contradict what is known."""
    base = facts(I, st, 2)
    for s in sorted(r):
        more = {0: [(d, 1, 0), (d, -1, 0)], 1: [(d, 1, -1)], -1: [(d, -1, -1)]}[s]
        if len(r) > 1 and empty(I, st, more, base, 2, 300):
            r = r - {s}
    return r
