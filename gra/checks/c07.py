"""C07: comparing specificities."""
import itertools
from ..docs import *

TITLE = 'Specificities are totally ordered, most significant part first'
EXPLAIN = ('Abstract interpretation of every comparison of two specificities with symbolic parts: for each of the 27 combinations of '
           'smaller/equal/greater parts the result must be the lexicographic one, for all numbers, and sorting must follow it.')
MIN_CASES = 100

SG = {-1: '<', 0: '=', 1: '>'}


def pair(h, pat, expr, want):
    """specificity A against B where A[i] = B[i] + sign * positive"""
    a, b, env = [], [], {}
    for i, s in enumerate(pat):
        base, d = sym('P%d' % i, 'int', FLAG_NONNEG), sym('D%d' % i, 'int', FLAG_POS)
        up = ladd(base, d)
        a.append(up if s > 0 else base)
        b.append(up if s < 0 else base)
    env = dict(A=tuple(a), B=tuple(b))
    for o in h.run('OUT = %s\n' % expr, env):
        if o.kind == 'exc':
            yield '%s raises %s' % (expr, o.describe())
            continue
        v = o.get('OUT')
        if v not in (TRUE, FALSE) and not isinstance(v, Const):
            raise Undecided('%s gives %s' % (expr, show(v)))
        if v != Const(want):
            yield 'with parts %s, %s is %s instead of %s' % (' '.join(SG[s] for s in pat), expr, show(v), want)


def sort(h, perm, rev):
    ks = []
    for i in range(3):
        ks.append(sym('K%d' % i, 'int', FLAG_NONNEG))
    d = sym('D', 'int', FLAG_POS)
    a, b, c = ks
    # strictly increasing, deciding part moving from the last to the first
    vals = [(a, b, c), (a, b, ladd(c, d)), (a, ladd(b, d), ZERO), (a, ladd(b, d), ladd(c, d)), (ladd(a, d), ZERO, ZERO), (ladd(a, d), ladd(b, d), c)][:len(perm)]
    xs = [vals[i] for i in perm]
    env = dict(('X%d' % i, tuple(x)) for i, x in enumerate(xs))
    src = 'L = [%s]\nL.sort(key=lambda m: m[0]%s)\nOUT = [i for s, i in L]\n' % (
        ', '.join('(Specificity(X%d), %d)' % (i, perm[i]) for i in range(len(perm))), ', reverse=True' if rev else '')
    for o in h.run(src, env):
        if o.kind == 'exc':
            yield 'sorting raises %s' % o.describe()
            continue
        x = o.obj('OUT')
        got = [s.v if isinstance(s, Const) else None for s in getattr(x, 'segs', ())]
        w = sorted(perm, reverse=rev)
        if None in got:
            raise Undecided('order %s' % (got,))
        if got != w:
            yield 'sorting specificities given in the order %s yields %s instead of %s' % (list(perm), got, w)


def cases(h, tier):
    for pat in itertools.product((-1, 0, 1), repeat=3):
        c = next((s for s in pat if s), 0)
        nm = ''.join(SG[s] for s in pat)
        for op, r in (('<', c < 0), ('<=', c <= 0), ('>', c > 0), ('>=', c >= 0), ('==', c == 0), ('!=', c != 0)):
            yield Case('comparison', '%s Specificity %s' % (nm, op), pair, pat, 'Specificity(A) %s Specificity(B)' % op, r)
        yield Case('items', nm, pair, pat, 'Specificity(A)[0] == A[0] and Specificity(A)[1] == A[1] and Specificity(A)[2] == A[2]', True)
    n = 4 if tier == 'quick' else 6
    for perm in itertools.permutations(range(n)):
        if tier == 'quick' or sum(i * p for i, p in enumerate(perm)) % 5 == 0:
            yield Case('sorting', ''.join(map(str, perm)), sort, perm, False)
