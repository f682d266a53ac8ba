"""Running a property's obligations and reporting.

A property is a list of cases; a case is one abstract entry state (an abstract
document + configuration) together with the rule its abstract results must
satisfy.  Every case ends as held / violated / undecided (the code uses a
construct outside the abstract domain)."""
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from .interp import Gap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 180


class Undecided(Exception):
    pass


class Fail(Exception):
    def __init__(self, what, key=None):
        super().__init__(what)
        self.key = key


class Case:
    __slots__ = ('rule', 'name', 'fn', 'args')

    def __init__(self, rule, name, fn, *args):
        self.rule, self.name, self.fn, self.args = rule, name, fn, args


class _Timeout(Exception):
    pass


def _alarm(*a):
    raise _Timeout()


_H = None
_CASES = None


def run_case(i):
    h, c = _H, _CASES[i]
    I = h.I
    I.stmts, I.visited = set(), set()
    I.gaps = []
    h.nout = 0
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    fails, und = [], None
    n0 = h.clients
    try:
        r = c.fn(h, *c.args)
        for f in r or ():
            fails.append(f if isinstance(f, tuple) else (c.name, f))
    except Fail as e:
        fails.append((e.key or c.name, str(e)))
    except (Gap, Undecided) as e:
        und = '%s: %s' % (type(e).__name__, e)
    except _Timeout:
        und = 'analysis of this case did not finish within %d s' % CASE_LIMIT
    except RecursionError:
        und = 'analysis recursion limit'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        und = 'internal: %s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
    root = I.root
    st = frozenset((os.path.relpath(f, root), l) for f, l in I.stmts)
    return i, fails, und, time.time() - t, st, frozenset(I.visited), h.clients - n0, h.nout, list(I.gaps)[:5]


def functions_of(h):
    """(file, lineno) -> qualified function name, from the parsed sources."""
    import ast
    table = {}

    def visit(file, node, qual):
        for n in ast.iter_child_nodes(node):
            q = qual
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                q = qual + [n.name]
            if isinstance(n, ast.stmt):
                table.setdefault((file, n.lineno), '.'.join(q) or '<module>')
            visit(file, n, q)
    pkg = os.path.join(h.root, 'gopher_render')
    for base, _, files in os.walk(pkg):
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(base, f)
                try:
                    with open(p) as fh:
                        visit(os.path.relpath(p, h.root), ast.parse(fh.read()), [])
                except SyntaxError:
                    pass
    return table


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                kv = line[9:].split(' ', 2)
                d = {}
                for x in kv[:2]:
                    k, _, v = x.partition('=')
                    d[k] = v
                d['text'] = kv[2] if len(kv) > 2 else ''
                out.append(d)
    return out


def run(pid, tier, seed):
    global _H, _CASES
    t0 = time.time()
    from .harness import Harness
    mod = importlib.import_module('gra.checks.' + pid.lower())
    try:
        _H = Harness()
        _CASES = list(mod.cases(_H, tier))
    except Gap as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    if not _CASES:
        print('ANALYSIS-BROKEN property=%s no obligations were generated' % pid)
        return 2
    sys.setrecursionlimit(6000)
    n = min(8, os.cpu_count() or 1, len(_CASES))
    # interleave so that expensive neighbours spread over the workers
    if n > 1 and not os.environ.get('GRA_SERIAL'):
        with multiprocessing.get_context('fork').Pool(n) as pool:
            res = list(pool.imap_unordered(run_case, range(len(_CASES)), chunksize=1))
    else:
        res = [run_case(i) for i in range(len(_CASES))]
    res.sort(key=lambda r: r[0])
    known = [k for k in known_findings() if k.get('property') == pid]
    viol, kn, und = [], {}, []
    okst, badst = {}, {}
    for i, fails, u, w, st, vis, nc, no, gaps in res:
        c = _CASES[i]
        if u:
            und.append((c, u))
        for key, msg in fails:
            k = '%s/%s' % (c.rule, key)
            m = [x for x in known if x.get('key') == k.replace(' ', '_')]
            if m:
                kn.setdefault(k, (m[0], msg))
            else:
                viol.append((c, k, msg, st))
        tgt = badst if fails else okst
        for s in st:
            tgt[s] = tgt.get(s, 0) + 1
    nheld = sum(1 for r in res if not r[1] and not r[2])
    files = sorted({s[0] for r in res for s in r[4]})
    funcs = sorted({q for r in res for q in r[5]})
    rules = {}
    for c in _CASES:
        rules[c.rule] = rules.get(c.rule, 0) + 1
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    for f in os.listdir(evd):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(evd, f))
    print('%s: %d obligations (%s), %d held, %d undecided, %d violated; %d functions, %d statements, %d client programs, %d abstract outcomes, %.1fs' % (
        pid, len(_CASES), ', '.join('%s %d' % kv for kv in sorted(rules.items())), nheld, len(und), len(viol), len(funcs),
        len({s for r in res for s in r[4]}), sum(r[6] for r in res), sum(r[7] for r in res), time.time() - t0))
    for c, u in und[:10]:
        print('UNDECIDED property=%s %s/%s: %s' % (pid, c.rule, c.name, u))
    for k, (m, msg) in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, m['text']))
    names = functions_of(_H)
    shown = set()
    for j, (c, k, msg, st) in enumerate(viol):
        sus = sorted(st, key=lambda s: (okst.get(s, 0) / max(1, badst.get(s, 1)), okst.get(s, 0), s))
        sus = [s for s in sus if okst.get(s, 0) <= max(2, nheld // 4)][:4] or sus[:2]
        where = '; '.join('%s:%d %s' % (f, l, names.get((f, l), '?')) for f, l in sus)
        p = os.path.join(evd, '%s-%d.txt' % (pid, j + 1))
        if j < 8:
            with open(p, 'w') as fh:
                fh.write('property: %s (%s)\nrule: %s\ncase: %s\nconstructs most specific to this violation: %s\n\n%s\n' % (
                    pid, mod.TITLE, c.rule, k, where, msg))
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  rule %s, case %s\n  at %s\n  %s' % (c.rule, k, where, msg.split('\n')[0][:600]))
    decided = len(_CASES) - len(und)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', ())) or ['see DESIGN.md, section "What the analysis assumes"'],
              coverage=dict(
                  explanation=mod.EXPLAIN, obligations=len(_CASES), discharged=nheld, undecided=len(und),
                  rules=rules, files_analysed=files, functions_analysed=len(funcs), functions=funcs,
                  statements_analysed=len({s for r in res for s in r[4]}),
                  client_programs=sum(r[6] for r in res), abstract_outcomes=sum(r[7] for r in res),
                  known_findings=sorted(kn),
                  samples=[dict(rule=c.rule, case=c.name) for c in (_CASES[:3] + _CASES[len(_CASES) // 2:len(_CASES) // 2 + 2])],
                  undecided_cases=[dict(rule=c.rule, case=c.name, why=u) for c, u in und[:20]]))
    with open(os.path.join(evd, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if viol:
        return 1
    if decided * 2 < len(_CASES) or decided == 0:
        print('ANALYSIS-BROKEN property=%s most obligations could not be decided' % pid)
        return 2
    minimum = getattr(mod, 'MIN_CASES', 1)
    if len(_CASES) < minimum:
        print('ANALYSIS-BROKEN property=%s only %d obligations, at least %d expected' % (pid, len(_CASES), minimum))
        return 2
    return 0


def main(argv=None):
    a = list(argv if argv is not None else sys.argv[1:])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    return run(a[0], tier if tier in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    # the module may be loaded twice under -m; use the importable instance
    from gra import check
    sys.exit(check.main())
