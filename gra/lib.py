"""Model of the builtins and containers used by the analysed program."""
import functools

from .dom import *
from .state import is_opt
from . import strs
from .strs import STR_METHODS, str_method, to_str, fmt_value, slen, vlen, str_may_eq, norm_str_eq, wrap_py
from . import ext
from .ext import (setup, ext_module, ext_attr, ext_getattr, ext_call, sym_getattr, ext_inst_attr, ext_class_attr,
                  ext_super_attr, ext_payload, new_ext)

BUILTIN_FUNCS = ['hasattr', 'getattr', 'setattr', 'delattr', 'isinstance', 'issubclass', 'len', 'sorted', 'min', 'max',
                 'sum', 'map', 'filter', 'zip', 'enumerate', 'range', 'reversed', 'repr', 'print', 'any', 'all', 'abs',
                 'divmod', 'iter', 'next', 'id', 'callable', 'property', 'staticmethod', 'classmethod', 'super', 'open',
                 'hash', 'format', 'ord', 'chr', 'vars', 'dir', 'globals', 'locals', 'round', 'pow', 'input', 'exit',
                 'bin', 'hex', 'oct', 'exec', 'eval', 'compile', 'ascii', 'bytearray', 'memoryview', '__import__',
                 'breakpoint', '__build_class__', '_ANALYSIS_']
LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'reverse', 'sort', 'clear', 'copy',
                '__len__', '__getitem__', '__contains__', '__iter__', '__setitem__', '__add__', '__iadd__', '__delitem__',
                'popleft', 'appendleft', 'extendleft'}
SET_METHODS = {'add', 'update', 'discard', 'remove', 'union', 'intersection', 'difference', 'issubset', 'issuperset',
               'copy', 'clear', 'pop', '__contains__', '__len__', '__iter__'}
DICT_METHODS = {'get', 'items', 'keys', 'values', 'update', 'pop', 'setdefault', 'copy', 'clear', 'popitem',
                '__getitem__', '__setitem__', '__delitem__', '__contains__', '__len__', '__iter__', 'fromkeys', '__or__'}
DICTVIEWS = {}


# ---------------------------------------------------------------- sequences
def src_nonempty(src):
    if isinstance(src, Fn):
        if src.op == 'split':
            return True
        if src.op in ('chars',):
            return isinstance(src.args[0], Sym) and bool({FLAG_NONEMPTY} & src.args[0].flags)
        if src.op in ('reversed', 'sorted'):
            return src_nonempty(src.args[0])
        if src.op == 'range' and isinstance(src.args[0], Sym):
            return FLAG_POS in src.args[0].flags
    return isinstance(src, Sym) and FLAG_NONEMPTY in src.flags


def many_nonempty(I, st, m):
    if not m.alts or any(not a for a in m.alts):
        return False
    if src_nonempty(m.src) and m.lo in (None, ZERO) and m.hi is None:
        return True
    if isinstance(m.src, Fn) and m.src.op == 'chars' and m.lo in (None, ZERO) and m.hi is None and I.nonempty(st, m.src.args[0]):
        return True
    n = len_segs(I, st, (m,))
    d = st.sign.get(n)
    return d == frozenset((1,))


def seqlen(src, lo, hi):
    if isinstance(src, Fn) and src.op == 'reversed':
        return seqlen(src.args[0], lo, hi)
    if isinstance(src, Fn) and src.op == 'range' and lo is None and hi is None:
        return src.args[0]
    if isinstance(src, Fn) and src.op == 'chars' and lo is None and hi is None:
        return slen(src.args[0])
    if lo is None and hi is None:
        return Fn('seqlen', (src,), 'int')
    return Fn('seqlen', (src, lo if lo is not None else NONE, hi if hi is not None else NONE), 'int')


def len_segs(I, st, segs):
    tot = Const(0)
    for s in segs:
        if isinstance(s, Many):
            ls = {len(a) for a in s.alts}
            n = None
            if len(ls) == 1 and s.src is not None:
                n = lmul(Const(ls.pop()), seqlen(s.src, s.lo, s.hi))
            if n is None:
                n = Fn('count', (s,), 'int')
            tot = ladd(tot, n)
        else:
            tot = ladd(tot, ONE)
    return tot


def payload(st, v):
    o = st.obj(v)
    return o.data if isinstance(o, InstO) and isinstance(o.data, (ListO, DictO)) else o


def iter_segs(I, st, v):
    """[(st, segs)]"""
    v = st.resolve(v)
    if isinstance(v, Union):
        return [r for s, x in I.expand(st, v) for r in iter_segs(I, s, x)]
    if isinstance(v, Tup):
        return [(st, v.items)]
    if isinstance(v, Many):
        return [(st, (v,))]
    if isinstance(v, Const):
        if isinstance(v.v, str):
            return [(st, tuple(Const(c) for c in v.v))]
        if isinstance(v.v, (tuple, frozenset, bytes)):
            return [(st, tuple(Const(c) for c in v.v))]
        return I.raise_(st, 'TypeError', "'%s' object is not iterable" % kind(v))
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, InstO):
            f = I.mro_find(st, o.cls, '__iter__')
            if f and isinstance(f[0], Func):
                return [r for s, x in I.call(st, Bound(f[0], v), [], {}) for r in iter_segs(I, s, x)]
            if isinstance(o.data, tuple) and o.data and o.data[0] == 'ntuple':
                return [(st, tuple(o.attrs[f] for f in o.data[1]))]
            f = I.mro_find(st, o.cls, '__getitem__')
            if f and isinstance(f[0], Func) and not isinstance(o.data, (ListO, DictO)):
                return [(st, (Many(((Fn('elem', (v,), 'any'),),), Fn('iter', (v,))),))]
        p = payload(st, v)
        if isinstance(p, ListO):
            return [(st, p.segs)]
        if isinstance(p, DictO):
            segs = tuple(p.d)
            if p.rest is not None:
                src = Fn('keys', (p.rest,))
                segs += (Many(((Fn('elem', (src,), 'str'),),), src),)
            return [(st, segs)]
        return I.raise_(st, 'TypeError', 'object is not iterable')
    if is_str(v):
        src = Fn('chars', (v,))
        return [(st, (Many(((Fn('elem', (src,), 'str'),),), src),))]
    if isinstance(v, ExtPy):
        try:
            return [(st, tuple(wrap_py(st, x) for x in v.obj))]
        except TypeError:
            return I.raise_(st, 'TypeError', 'not iterable')
    if st.known_none(v):
        return I.raise_(st, 'TypeError', "'NoneType' object is not iterable")
    if is_int(v):
        return I.raise_(st, 'TypeError', "'int' object is not iterable")
    k = 'any'
    if isinstance(v, Sym):
        for f in v.flags:
            if isinstance(f, str) and f.startswith('elem:'):
                k = f[5:]
    return [(st, (Many(((Fn('elem', (v,), k),),), v),))]


def _at(m, i):
    """Value(s) of element i of a Many (single-valued alternatives)."""
    vals = []
    for a in m.alts:
        if len(a) != 1:
            continue
        x = a[0]
        if m.src is not None:
            x = subst_elem(x, m.src, i)
        if x not in vals:
            vals.append(x)
    if not vals:
        return Fn('idx', (m.src if m.src is not None else NONE, i), 'any')
    return vals[0] if len(vals) == 1 else Union(tuple(vals))


def subst_elem(x, src, i):
    def go(v):
        if isinstance(v, Fn):
            if v.op == 'elem' and v.args == (src,):
                return Fn('idx', (src, i), v.kind)
            if v.op == 'index' and v.args == (src,):
                return i if not (isinstance(i, Const) and i.v < 0) else (ladd(seqlen(src, None, None), i) or v)
            a = tuple(go(y) for y in v.args)
            return Fn(v.op, a, v.kind) if a != v.args else v
        if isinstance(v, Str):
            return mkstr([p if isinstance(p, str) else go(p) for p in v.parts])
        if isinstance(v, Lin):
            t = Const(v.c)
            for a, k in v.coef:
                t = ladd(t, lmul(go(a), Const(k)))
            return t
        if isinstance(v, Tup):
            return Tup(tuple(go(y) for y in v.items))
        return v
    return go(x)


def seg_index(I, st, segs, i, what='list'):
    """[(st, value)] of segs[i]; raises IndexError."""
    i = st.resolve(i)
    if isinstance(i, Const) and isinstance(i.v, (int, bool)):
        n = int(i.v)
        if not any(isinstance(s, Many) for s in segs):
            if -len(segs) <= n < len(segs):
                return [(st, segs[n])]
            return I.raise_(st, 'IndexError', '%s index out of range' % what)
        if n >= 0 and not any(isinstance(s, Many) for s in segs[:n + 1]) and n < len(segs):
            return [(st, segs[n])]
        if n < 0 and -n <= len(segs) and not any(isinstance(s, Many) for s in segs[n:]):
            return [(st, segs[n])]
        # is the sequence long enough?
        need = n + 1 if n >= 0 else -n
        if need == 1 and any(not isinstance(s, Many) or many_nonempty(I, st, s) for s in segs):
            cases = [(st, True)]
        else:
            cases = I.truth(st, I.cmp_lin('>=', len_segs(I, st, segs), Const(need)))
        out = []
        for s, ok in cases:
            if not ok:
                I.raise_(s, 'IndexError', '%s index out of range' % what)
                continue
            order = segs if n >= 0 else tuple(reversed(segs))
            k = n if n >= 0 else -n - 1
            vals = []
            for x in order:
                if isinstance(x, Many):
                    if n >= 0:
                        j = ladd(Const(k), x.lo) if x.lo is not None else Const(k)
                        vals.append(_at(x, j))
                    else:
                        j = Const(-k - 1) if x.hi is None else ladd(x.hi, Const(-k - 1))
                        vals.append(_at(x, j))
                    if len(order) == 1 or (many_nonempty(I, s, x) and k == 0):
                        break
                    k = max(k, 0)
                else:
                    vals.append(x)
                    if k == 0 and not any(isinstance(y, Many) for y in order[:order.index(x)]):
                        break
                    if k == 0:
                        break
                    k -= 1
            flat = []
            for v in vals:
                for y in (v.vals if isinstance(v, Union) else (v,)):
                    if y not in flat:
                        flat.append(y)
            out += I.expand(s, flat[0] if len(flat) == 1 else Union(tuple(flat)))
        return out
    if not is_int(i) and kind(i) != 'any':
        return I.raise_(st, 'TypeError', '%s indices must be integers or slices, not %s' % (what, kind(i)))
    if len(segs) == 1 and isinstance(segs[0], Many):
        return I.expand(st, _at(segs[0], i))
    if not any(isinstance(s, Many) for s in segs):
        out = []
        cur = [st]
        for k in range(len(segs)):
            nxt = []
            for s in cur:
                for s2, b in I.truth(s, I.cmp_lin('==', i, Const(k))):
                    if b:
                        out.append((s2, segs[k]))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            if segs:
                for s2, b in I.truth(s, I.cmp_lin('<', i, ZERO)):
                    if b:
                        out.append((s2, Union(segs) if len(segs) > 1 else segs[0]))
                    else:
                        I.raise_(s2, 'IndexError', '%s index out of range' % what)
            else:
                I.raise_(s, 'IndexError', '%s index out of range' % what)
        return [r for s, v in out for r in I.expand(s, v)]
    return [(st, Fn('item', (Tup(segs), i), 'any'))]


def list_slice(I, st, segs, lo, hi, step):
    lo, hi = (NONE if st.known_none(lo) else st.resolve(lo)), (NONE if st.known_none(hi) else st.resolve(hi))
    segs = tuple(segs)
    if step not in (NONE, ONE):
        if not any(isinstance(s, Many) for s in segs) and all(isinstance(x, Const) for x in (lo, hi, step)):
            return [(st, segs[lo.v:hi.v:step.v])]
        if step == Const(-1) and lo == NONE and hi == NONE:
            return [(st, rev_segs(segs))]
        return [(st, (Many(tuple((x,) for x in flat_elems(segs)), None),))]
    if lo == ZERO:
        lo = NONE
    if lo == NONE and hi == NONE:
        return [(st, segs)]
    if not any(isinstance(s, Many) for s in segs) and isinstance(lo, Const) and isinstance(hi, Const):
        return [(st, segs[lo.v:hi.v])]
    if I.opts.get('exact') and len(segs) <= 8 and not any(isinstance(s, Many) for s in segs) and step in (NONE, ONE):
        for b, i in ((hi, 1), (lo, 0)):
            if b != NONE and not isinstance(b, Const) and kind(b) == 'int' and -1 not in I.signs(st, b if isinstance(b, Lin) else lin({b: 1}, 0)):
                # one path for each place
                res, cur = [], [st]
                for k in range(len(segs)):
                    nxt = []
                    for s in cur:
                        for s2, t in I.truth(s, I.cmp_lin('==', b, Const(k))):
                            if t:
                                res += list_slice(I, s2, segs, *((lo, Const(k)) if i else (Const(k), hi)), step)
                            else:
                                nxt.append(s2)
                    cur = nxt
                for s in cur:
                    if not I.surely(s, '<', b, Const(len(segs))):
                        res += list_slice(I, s, segs, *((lo, Const(len(segs))) if i else (Const(len(segs)), hi)), step)
                return res
    if len(segs) == 1 and isinstance(segs[0], Many) and segs[0].lo is None and segs[0].hi is None \
            and all(len(a) == 1 for a in segs[0].alts):
        m = segs[0]
        if hi == ZERO:
            return [(st, ())]
        return [(st, (Many(m.alts, m.src, None if lo == NONE else lo, None if hi == NONE else hi),))]
    cur = list(segs)
    if isinstance(lo, Const) and lo.v is not None and lo.v >= 0:
        k = lo.v
        while k and cur:
            x = cur[0]
            if isinstance(x, Many):
                if all(len(a) == 1 for a in x.alts) and len([y for y in cur if isinstance(y, Many)]) == len(cur) == 1:
                    cur[0] = Many(x.alts, x.src, ladd(x.lo or ZERO, Const(k)), x.hi)
                    k = 0
                    break
                break
            cur.pop(0)
            k -= 1
        if k and cur:
            return [(st, (Many(tuple((x,) for x in flat_elems(segs)), None),))]
        lo = NONE
    if isinstance(hi, Const) and hi.v is not None and hi.v < 0:
        k = -hi.v
        while k and cur:
            x = cur[-1]
            if isinstance(x, Many):
                if len(cur) == 1 and all(len(a) == 1 for a in x.alts) and x.hi is None:
                    cur[0] = Many(x.alts, x.src, x.lo, Const(-k))
                    k = 0
                break
            cur.pop()
            k -= 1
        if k and cur:
            return [(st, (Many(tuple((x,) for x in flat_elems(segs)), None),))]
        hi = NONE
    if isinstance(hi, Const) and hi.v is not None and hi.v >= 0 and not any(isinstance(x, Many) for x in cur[:hi.v]) and lo == NONE:
        return [(st, tuple(cur[:hi.v]))]
    if lo == NONE and hi == NONE:
        return [(st, tuple(cur))]
    # list with symbolic bounds: name it
    src = Fn('listval', segs)
    if not any(isinstance(s, Many) for s in segs):
        alts = tuple((x,) for x in flat_elems(segs))
        return [(st, (Many(alts, src, None if lo == NONE else lo, None if hi == NONE else hi),))]
    return [(st, (Many(tuple((x,) for x in flat_elems(segs)), None),))]


def rev_segs(segs):
    out = []
    for x in reversed(segs):
        if isinstance(x, Many):
            out.append(Many(tuple(tuple(reversed(a)) for a in x.alts), x.src, x.lo, x.hi) if x.src is None else
                       Many(tuple(tuple(reversed(a)) for a in x.alts), Fn('reversed', (x.src,)), x.lo, x.hi))
        else:
            out.append(x)
    return tuple(out)


def flat_elems(segs):
    out = []
    for s in segs:
        for y in ([y for a in s.alts for y in a] if isinstance(s, Many) else [s]):
            if y not in out:
                out.append(y)
    return out


def getslice(I, st, v, lo, hi, step):
    v = st.resolve(v)
    if isinstance(v, Union):
        return [r for s, x in I.expand(st, v) for r in getslice(I, s, x, lo, hi, step)]
    if is_str(v):
        return strs.getslice(I, st, v, lo, hi, step)
    if isinstance(v, Tup):
        return [(s, Tup(g) if not any(isinstance(x, Many) for x in g) else s.alloc(ListO(g)))
                for s, g in list_slice(I, st, v.items, lo, hi, step)]
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, InstO):
            f = I.mro_find(st, o.cls, '__getitem__')
            if f and isinstance(f[0], Func):
                return I.call(st, Bound(f[0], v), [Fn('slice', (lo, hi, step), 'slice')], {})
        p = payload(st, v)
        if isinstance(p, ListO):
            return [(s, s.alloc(ListO(g))) for s, g in list_slice(I, st, p.segs, lo, hi, step)]
    if isinstance(v, Const) and v.v is None or st.known_none(v):
        return I.raise_(st, 'TypeError', "'NoneType' object is not subscriptable")
    if isinstance(v, Const):
        return I.raise_(st, 'TypeError', "object is not subscriptable")
    if is_int(v):
        return I.raise_(st, 'TypeError', "'int' object is not subscriptable")
    k = 'str' if kind(v) == 'str' else 'any'
    return [(st, Fn('slice', (v, lo, hi, step), k))]


def getitem(I, st, v, i):
    v = st.resolve(v)
    if isinstance(i, Fn) and i.op == 'slice' and i.kind == 'slice':
        return getslice(I, st, v, *i.args)
    if isinstance(v, Union):
        return [r for s, x in I.expand(st, v) for r in getitem(I, s, x, i)]
    if isinstance(v, Tup):
        return seg_index(I, st, v.items, i, 'tuple')
    if isinstance(v, Const):
        if isinstance(v.v, (str, tuple)) and isinstance(i, Const):
            try:
                return [(st, Const(v.v[i.v]))]
            except IndexError:
                return I.raise_(st, 'IndexError', 'string index out of range')
            except TypeError as e:
                return I.raise_(st, 'TypeError', str(e))
        if not isinstance(v.v, (str, tuple)):
            return I.raise_(st, 'TypeError', "'%s' object is not subscriptable" % type(v.v).__name__)
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, InstO):
            f = I.mro_find(st, o.cls, '__getitem__')
            if f and isinstance(f[0], Func):
                return I.call(st, Bound(f[0], v), [i], {})
            if isinstance(o.data, tuple) and o.data and o.data[0] == 'ntuple':
                return seg_index(I, st, tuple(o.attrs[f] for f in o.data[1]), i, 'tuple')
        if isinstance(o, ClassO):
            return I.raise_(st, 'TypeError', "type '%s' is not subscriptable" % o.name)
        p = payload(st, v)
        if isinstance(p, ListO):
            return seg_index(I, st, p.segs, i)
        if isinstance(p, DictO):
            return dict_get(I, st, v, p, i, None)
        return I.raise_(st, 'TypeError', 'object is not subscriptable')
    if isinstance(v, (Func, Bound, Builtin, Method)) or st.known_none(v):
        return I.raise_(st, 'TypeError', 'object is not subscriptable')
    if isinstance(v, ExtPy):
        if isinstance(i, Const):
            try:
                return [(st, wrap_py(st, v.obj[i.v]))]
            except Exception as e:
                return I.raise_(st, type(e).__name__ if type(e).__name__ in I.classes else 'TypeError', str(e))
    if is_str(v):
        if isinstance(i, Const) and isinstance(v, Str):
            p = v.parts[0] if i.v >= 0 else v.parts[-1]
            if isinstance(p, str) and (0 <= i.v < len(p) or -len(p) <= i.v < 0):
                return [(st, Const(p[i.v]))]
        if isinstance(v, Str) and isinstance(i, Const) and i.v in (0, -1):
            return [(st, Fn('charat', (v, i), 'str'))]
        if not I.nonempty(st, v):
            out = []
            for s, b in I.truth(st, v):
                if b:
                    out.append((s, Fn('charat', (v, i), 'str')))
                else:
                    I.raise_(s, 'IndexError', 'string index out of range')
            return out
        return [(st, Fn('charat', (v, i), 'str'))]
    if is_opt(v) and Fn('isnone', (v,), 'bool') not in st.facts:
        out = []
        for s, b in I.split(st, Fn('isnone', (v,), 'bool')):
            out += I.raise_(s, 'TypeError', "'NoneType' object is not subscriptable (optional %s)" % show(v)) if b else getitem(I, s, v, i)
        return out
    if is_int(v):
        return I.raise_(st, 'TypeError', "'int' object is not subscriptable")
    return [(st, Fn('item', (v, i), 'any'))]


def dict_key(st, k):
    k = st.resolve(k)
    return k


def dict_get(I, st, v, p, k, default):
    """default None => KeyError."""
    k = dict_key(st, k)
    if isinstance(k, Union):
        return [r for s, x in I.expand(st, k) for r in dict_get(I, s, v, p, x, default)]
    if k in p.d:
        x = p.d[k]
        return I.expand(st, x)
    if isinstance(k, Ref) and isinstance(st.obj(k), (ListO, DictO)):
        return I.raise_(st, 'TypeError', 'unhashable type')
    out = []
    cur = [st]
    for kk, x in p.d.items():
        nxt = []
        for s in cur:
            if isinstance(k, Const) and isinstance(kk, Const):
                # an int key equals a bool key etc.
                if k.v == kk.v and hash(k.v) == hash(kk.v):
                    out += I.expand(s, x)
                else:
                    nxt.append(s)
                continue
            for s1, b in I.truth(s, I.eq_term(s, k, kk)):
                if b:
                    out += I.expand(s1, x)
                else:
                    nxt.append(s1)
        cur = nxt
    for s in cur:
        if p.rest is not None:
            t = Fn('haskey', (p.rest, k), 'bool')
            for s1, b in I.split(s, t):
                if b:
                    kd = 'any'
                    if isinstance(p.rest, Sym):
                        for f in p.rest.flags:
                            if isinstance(f, str) and f.startswith('val:'):
                                kd = f[4:]
                    out.append((s1, Fn('dget', (p.rest, k), kd)))
                elif default is None:
                    I.raise_(s1, 'KeyError', show(k))
                else:
                    out.append((s1, default))
        elif default is None:
            o = s.obj(v)
            if isinstance(o, InstO):
                m = I.mro_find(s, o.cls, '__missing__')
                if m and isinstance(m[0], Func):
                    out += I.call(s, Bound(m[0], v), [k], {})
                    continue
                df = o.attrs.get('$factory')
                if df is not None:
                    for s1, x in I.call(s, df, [], {}):
                        I.mutating(s1, v.a, 'item').data.d[k] = x
                        out.append((s1, x))
                    continue
            I.raise_(s, 'KeyError', show(k))
        else:
            out.append((s, default))
    return out


def _mutpay(I, st, v, what):
    o = I.mutating(st, v.a, what)
    return o.data if isinstance(o, InstO) else o


def setitem(I, st, v, i, x):
    """[st]"""
    v = st.resolve(v)
    if isinstance(v, Union):
        return [r for s, y in I.expand(st, v) for r in setitem(I, s, y, i, x)]
    if isinstance(v, Fn) and v.op == 'instdict' and isinstance(i, Const):
        I.mutating(st, v.args[0].a, 'attribute %s' % i.v).attrs[i.v] = x
        return [st]
    o = st.obj(v)
    if isinstance(o, InstO):
        f = I.mro_find(st, o.cls, '__setitem__')
        if f and isinstance(f[0], Func):
            return [s for s, _ in I.call(st, Bound(f[0], v), [i, x], {})]
    p = payload(st, v) if isinstance(v, Ref) else None
    if isinstance(p, DictO):
        k = dict_key(st, i)
        d = _mutpay(I, st, v, 'item %s' % show(k))
        if isinstance(k, Const):
            for kk in list(d.d):
                if isinstance(kk, Const) and kk != k and kk.v == k.v:
                    d.d[kk] = x
                    return [st]
        d.d[k] = x
        return [st]
    if isinstance(p, ListO):
        if isinstance(i, Fn) and i.op == 'slice':
            lo, hi, stp = i.args
            out = []
            for s, xs in iter_segs(I, st, x):
                d = _mutpay(I, s, v, 'slice')
                segs = d.segs
                l0 = 0 if lo == NONE else (lo.v if isinstance(lo, Const) else None)
                if l0 is not None and l0 >= 0 and not any(isinstance(y, Many) for y in segs[:l0]):
                    if hi == NONE:
                        d.segs = segs[:l0] + tuple(xs)
                        out.append(s)
                        continue
                    if isinstance(hi, Const) and hi.v >= 0 and not any(isinstance(y, Many) for y in segs[:hi.v]):
                        d.segs = segs[:l0] + tuple(xs) + segs[max(l0, hi.v):]
                        out.append(s)
                        continue
                    if isinstance(hi, Const) and hi.v < 0 and not any(isinstance(y, Many) for y in segs):
                        d.segs = segs[:l0] + tuple(xs) + segs[hi.v:]
                        out.append(s)
                        continue
                if isinstance(lo, Lin) or (lo != NONE and lo == len_segs(I, s, segs) and hi in (NONE, lo)):
                    d.segs = segs + tuple(xs)
                    out.append(s)
                    continue
                I.gap('slice assignment approximated')
                d.segs = (Many(tuple((y,) for y in flat_elems(segs + tuple(xs))), None),)
                out.append(s)
            return out
        if isinstance(i, Const):
            d = _mutpay(I, st, v, 'element')
            n = i.v
            L = d.segs
            if n >= 0 and n < len(L) and not any(isinstance(y, Many) for y in L[:n + 1]):
                d.segs = L[:n] + (x,) + L[n + 1:]
                return [st]
            if n < 0 and -n <= len(L) and not any(isinstance(y, Many) for y in L[n:]):
                k = len(L) + n
                d.segs = L[:k] + (x,) + L[k + 1:]
                return [st]
            if not any(isinstance(y, Many) for y in L):
                I.raise_(st, 'IndexError', 'list assignment index out of range')
                return []
            if len(L) == 1:
                m = L[0]
                if n >= 0:
                    d.segs = (Many(m.alts, m.src, m.lo, Const(n)),) + (x,) + (Many(m.alts, m.src, Const(n + 1), m.hi),) if n else \
                        (x, Many(m.alts, m.src, ladd(m.lo or ZERO, ONE), m.hi))
                else:
                    d.segs = (Many(m.alts, m.src, m.lo, i), x) if n == -1 else (Many(tuple((y,) for y in flat_elems(L + (x,))), None),)
                return [st]
        d = _mutpay(I, st, v, 'element')
        L = d.segs
        # an index running over this very list: element-wise rewrite
        ix = i
        if len(L) == 1 and isinstance(L[0], Many) and isinstance(ix, Fn) and ix.op == 'index':
            d.segs = (Many(tuple((y,) for y in flat_elems(L + (x,))), None),)
            return [st]
        I.gap('indexed store approximated')
        d.segs = (Many(tuple((y,) for y in flat_elems(L + (x,))), None),)
        return [st]
    if v == NONE or isinstance(v, (Const, Tup, Str)):
        I.raise_(st, 'TypeError', 'object does not support item assignment')
        return []
    st.event('setitem', v, i, x, I.where())
    return [st]


def delitem(I, st, v, i):
    o = st.obj(v)
    if isinstance(o, InstO):
        f = I.mro_find(st, o.cls, '__delitem__')
        if f and isinstance(f[0], Func):
            return [s for s, _ in I.call(st, Bound(f[0], v), [i], {})]
    p = payload(st, v) if isinstance(v, Ref) else None
    if isinstance(p, DictO):
        k = dict_key(st, i)
        if k in p.d:
            del _mutpay(I, st, v, 'item %s' % show(k)).d[k]
            return [st]
        if p.rest is None and all(isinstance(x, Const) for x in p.d) and isinstance(k, Const):
            I.raise_(st, 'KeyError', show(k))
            return []
        return [st]
    if isinstance(p, ListO):
        L = p.segs
        if isinstance(i, Const) and not any(isinstance(y, Many) for y in L):
            n = i.v
            if not -len(L) <= n < len(L):
                I.raise_(st, 'IndexError', 'list assignment index out of range')
                return []
            d = _mutpay(I, st, v, 'element')
            L = list(L)
            del L[n]
            d.segs = tuple(L)
            return [st]
        if isinstance(i, Const):
            d = _mutpay(I, st, v, 'element')
            if i.v == -1 and not isinstance(L[-1], Many):
                d.segs = L[:-1]
            elif i.v == 0 and not isinstance(L[0], Many):
                d.segs = L[1:]
            elif len(L) == 1 and i.v in (0, -1):
                m = L[0]
                d.segs = (Many(m.alts, m.src, ladd(m.lo or ZERO, ONE), m.hi) if i.v == 0 else
                          Many(m.alts, m.src, m.lo, ladd(m.hi or ZERO, Const(-1))),)
            return [st]
        if isinstance(i, Fn) and i.op == 'slice':
            out = []
            for s, g in list_slice(I, st, L, i.args[0], i.args[1], i.args[2]):
                d = _mutpay(I, s, v, 'slice')
                if i.args[0] in (NONE, ZERO) and i.args[1] == NONE:
                    d.segs = ()
                elif not any(isinstance(y, Many) for y in L) and all(isinstance(z, Const) for z in i.args):
                    l2 = list(L)
                    del l2[i.args[0].v:i.args[1].v:i.args[2].v]
                    d.segs = tuple(l2)
                elif i.args[0] not in (NONE, ZERO) and i.args[1] == NONE:
                    out += [s2 for s2, g2 in list_slice(I, s, L, NONE, i.args[0], NONE) for _ in [_setsegs(I, s2, v, g2)]]
                    continue
                out.append(s)
            return out
    return [st]


def _setsegs(I, st, v, g):
    _mutpay(I, st, v, 'slice').segs = tuple(g)


# ---------------------------------------------------------------- operators
DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Mod': '__mod__', 'FloorDiv': '__floordiv__', 'Div': '__truediv__',
          'BitOr': '__or__', 'BitAnd': '__and__', 'BitXor': '__xor__', 'Pow': '__pow__', 'LShift': '__lshift__', 'RShift': '__rshift__',
          'MatMult': '__matmul__'}


def binop(I, st, op, a, b):
    a, b = st.resolve(a), st.resolve(b)
    for x in (a, b):
        if isinstance(x, Union):
            return [r for s, y in I.expand(st, x) for r in binop(I, s, op, y if x is a else a, y if x is b else b)]
    for x in (a, b):
        if is_opt(x) and Fn('isnone', (x,), 'bool') not in st.facts:
            out = []
            for s, n in I.split(st, Fn('isnone', (x,), 'bool')):
                if n:
                    I.raise_(s, 'TypeError', 'unsupported operand: optional value %s is None' % show(x))
                else:
                    out += binop(I, s, op, a, b)
            return out
    for x, y, nm in ((a, b, DUNDER[op]), (b, a, '__r' + DUNDER[op][2:])):
        o = st.obj(x)
        if isinstance(o, InstO):
            f = I.mro_find(st, o.cls, nm)
            if f and isinstance(f[0], Func):
                return I.call(st, Bound(f[0], x), [y], {})
    sa, sb = is_str(a), is_str(b)
    if op == 'Mod' and sa:
        return strs.do_percent(I, st, a, b)
    if sa or sb:
        if op == 'Add':
            if sa and sb:
                return [(st, mkstr([a, b]))]
            o = b if sa else a
            if kind(o) == 'any' and not isinstance(o, Ref):
                return [(st, mkstr([x if is_str(x) else Fn('str', (x,), 'str') for x in (a, b)]))]
            return I.raise_(st, 'TypeError', 'can only concatenate str (not "%s") to str' % kind(o))
        if op == 'Mult':
            s, n = (a, b) if sa else (b, a)
            if is_int(n) or kind(n) == 'any':
                return [(st, mkrep(s, n))]
        return I.raise_(st, 'TypeError', 'unsupported operand types for %s: %s and %s' % (op, kind(a), kind(b)))
    pa, pb = payload(st, a) if isinstance(a, Ref) else None, payload(st, b) if isinstance(b, Ref) else None
    la = pa.segs if isinstance(pa, ListO) else (a.items if isinstance(a, Tup) else None)
    lb = pb.segs if isinstance(pb, ListO) else (b.items if isinstance(b, Tup) else None)
    if op == 'Add' and la is not None and lb is not None:
        if isinstance(a, Tup) != isinstance(b, Tup):
            return I.raise_(st, 'TypeError', 'can only concatenate list/tuple')
        return [(st, Tup(la + lb) if isinstance(a, Tup) else st.alloc(ListO(la + lb)))]
    if op == 'Mult' and (la is not None or lb is not None):
        segs, n = (la, b) if la is not None else (lb, a)
        tup = isinstance(a if la is not None else b, Tup)
        if isinstance(n, Const):
            r = segs * max(0, int(n.v))
        elif not is_int(n) and kind(n) != 'any':
            return I.raise_(st, 'TypeError', "can't multiply sequence by non-int")
        else:
            src = Fn('range', (n,))
            r = (Many((tuple(segs),), src),) if segs else ()
        return [(st, Tup(r) if tup and not any(isinstance(x, Many) for x in r) else st.alloc(ListO(r)))]
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and isinstance(pa, ListO) and pa.cls == 'set':
        return call_method(I, st, a, {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference', 'BitXor': 'union'}[op], [b], {})
    if op == 'BitOr' and isinstance(pa, DictO) and isinstance(pb, DictO):
        d = DictO(pa.d, pa.rest)
        d.d.update(pb.d)
        d.rest = pb.rest or pa.rest
        return [(st, st.alloc(d))]
    if isinstance(a, Const) and isinstance(b, Const):
        import operator as o
        f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Mod': o.mod, 'FloorDiv': o.floordiv, 'Div': o.truediv, 'BitOr': o.or_,
             'BitAnd': o.and_, 'BitXor': o.xor, 'Pow': o.pow, 'LShift': o.lshift, 'RShift': o.rshift}.get(op)
        try:
            return [(st, wrap_py(st, f(a.v, b.v)))]
        except Exception as e:
            return I.raise_(st, type(e).__name__ if type(e).__name__ in I.classes else 'TypeError', str(e))
    for x in (a, b):
        if x == NONE or st.known_none(x) or isinstance(x, (Ref, Tup, Func)):
            return I.raise_(st, 'TypeError', 'unsupported operand types for %s: %s and %s' % (op, kind(a), kind(b)))
    if op == 'Add':
        r = ladd(a, b)
    elif op == 'Sub':
        r = ladd(a, b, -1)
    elif op == 'Mult':
        r = lmul(a, b)
    else:
        r = None
    if r is not None:
        return [(st, r)]
    if op == 'BitAnd' and ZERO in (a, b) and kind(a) == kind(b) == 'int':
        return [(st, ZERO)]
    if op in ('FloorDiv', 'Mod') and b == ONE and kind(a) == 'int':
        return [(st, a if op == 'FloorDiv' else ZERO)]
    if op in ('FloorDiv', 'Mod') and I.opts.get('exact') and isinstance(b, Const) and isinstance(b.v, int) and b.v > 1 and kind(a) == 'int':
        # a == b * q + r with 0 <= r < b
        q = Fn('//', (a, b), 'int')
        r = ladd(a, lmul(q, b), -1)
        I.assume_cmp(st, '>=', r, ZERO)
        I.assume_cmp(st, '<', r, b)
        return [(st, q if op == 'FloorDiv' else r)]
    if op in ('FloorDiv', 'Mod'):
        q = Fn('//' if op == 'FloorDiv' else '%', (a, b), 'int')
        if not isinstance(b, Const):
            out = []
            for s, z in I.truth(st, b):
                if z:
                    out.append((s, q))
                else:
                    I.raise_(s, 'ZeroDivisionError', 'division by zero')
            return out
        return [(st, q)]
    return [(st, Fn(op, (a, b), 'int' if is_int(a) and is_int(b) and op != 'Div' else 'any'))]


def inplace(I, st, op, a, b):
    a = st.resolve(a)
    if isinstance(a, Ref):
        p = payload(st, a)
        if isinstance(p, ListO) and op == 'Add':
            out = []
            for s, segs in iter_segs(I, st, b):
                q = _mutpay(I, s, a, 'extend')
                q.segs = q.segs + tuple(segs)
                out.append((s, a))
            return out
        if isinstance(p, ListO) and p.cls == 'set' and op == 'BitOr':
            return [(s, a) for s, _ in call_method(I, st, a, 'update', [b], {})]
        if isinstance(p, DictO) and op == 'BitOr':
            return [(s, a) for s, _ in call_method(I, st, a, 'update', [b], {})]
    return binop(I, st, op, a, b)


CMPD = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
REFL = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE', 'Eq': 'Eq', 'NotEq': 'NotEq'}
SYMOP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}


def neg_term(t):
    if isinstance(t, Const):
        return Const(not t.v)
    if isinstance(t, Fn) and t.op == 'not':
        return t.args[0]
    return Fn('not', (t,), 'bool')


def compare(I, st, op, a, b):
    """[(st, bool term)]"""
    a, b = st.resolve(a), st.resolve(b)
    for x in (a, b):
        if isinstance(x, Union):
            return [r for s, y in I.expand(st, x) for r in compare(I, s, op, y if x is a else a, y if x is b else b)]
    if op in ('Is', 'IsNot'):
        t = is_term(I, st, a, b)
        return [(st, neg_term(t) if op == 'IsNot' else t)]
    if op in ('In', 'NotIn'):
        return [(s, neg_term(t) if op == 'NotIn' else t) for s, t in contains(I, st, b, a)]
    for x, y, o in ((a, b, op), (b, a, REFL[op])):
        ob = st.obj(x)
        if isinstance(ob, InstO):
            f = I.mro_find(st, ob.cls, CMPD[o])
            if f and isinstance(f[0], Func):
                return I.call(st, Bound(f[0], x), [y], {})
            if o == 'NotEq':
                f = I.mro_find(st, ob.cls, '__eq__')
                if f and isinstance(f[0], Func):
                    return [(s2, Const(not t)) for s, r in I.call(st, Bound(f[0], x), [y], {}) for s2, t in I.truth(s, r)]
            tot = I.mro_find(st, ob.cls, '$total')
            if tot and o in SYMOP:
                return _total(I, st, x, y, o)
    if op == 'Eq':
        return I.eq(st, a, b)
    if op == 'NotEq':
        return [(s, neg_term(t)) for s, t in I.eq(st, a, b)]
    return order(I, st, op, a, b)


def _total(I, st, x, y, op):
    """functools.total_ordering: derive op from the one ordering defined."""
    cls = st.obj(x).cls
    for base in ('Lt', 'LtE', 'Gt', 'GtE'):
        f = I.mro_find(st, cls, CMPD[base])
        if f and isinstance(f[0], Func):
            out = []
            for s, r in I.call(st, Bound(f[0], x), [y], {}):
                for s1, t in I.truth(s, r):
                    for s2, e0 in compare(I, s1, 'Eq', x, y):
                        for s3, e in I.truth(s2, e0):
                            lt = {'Lt': t, 'LtE': t and not e, 'Gt': not t and not e, 'GtE': not t}[base]
                            out.append((s3, Const({'Lt': lt, 'LtE': lt or e, 'Gt': not lt and not e, 'GtE': not lt or e}[op])))
            return out
    return I.raise_(st, 'TypeError', 'unorderable')


def order(I, st, op, a, b):
    for x in (a, b):
        if is_opt(x) and Fn('isnone', (x,), 'bool') not in st.facts:
            out = []
            for s, n in I.split(st, Fn('isnone', (x,), 'bool')):
                if n:
                    I.raise_(s, 'TypeError', "'%s' not supported between NoneType" % SYMOP[op])
                else:
                    out += order(I, s, op, a, b)
            return out
    if isinstance(a, Const) and isinstance(b, Const):
        import operator as o
        try:
            return [(st, Const({'Lt': o.lt, 'LtE': o.le, 'Gt': o.gt, 'GtE': o.ge}[op](a.v, b.v)))]
        except TypeError as e:
            return I.raise_(st, 'TypeError', str(e))
    la, lb = _seq(st, a), _seq(st, b)
    if la is not None and lb is not None:
        return lex(I, st, op, la, lb)
    if is_int(a) and is_int(b) or (kind(a) in ('int', 'any') and kind(b) in ('int', 'any', 'bool')
                                   and not isinstance(a, Ref) and not isinstance(b, Ref)):
        return [(st, I.cmp_lin(SYMOP[op], a, b))]
    if is_str(a) and is_str(b):
        return [(st, Fn('str' + SYMOP[op], (a, b), 'bool'))]
    if 'any' in (kind(a), kind(b)) and not isinstance(a, Ref) and not isinstance(b, Ref):
        return [(st, Fn('cmp' + SYMOP[op], (a, b), 'bool'))]
    pa = payload(st, a) if isinstance(a, Ref) else None
    if isinstance(pa, ListO) and pa.cls == 'set':
        return call_method(I, st, a, 'issubset' if op in ('Lt', 'LtE') else 'issuperset', [b], {})
    return I.raise_(st, 'TypeError', "'%s' not supported between instances of '%s' and '%s'" % (SYMOP[op], kind(a), kind(b)))


def _seq(st, v):
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, Ref):
        p = payload(st, v)
        if isinstance(p, ListO) and p.cls == 'list' and not any(isinstance(x, Many) for x in p.segs):
            return p.segs
        o = st.obj(v)
        if isinstance(o, InstO) and isinstance(o.data, tuple) and o.data and o.data[0] == 'ntuple':
            return tuple(o.attrs[f] for f in o.data[1])
    return None


def lex(I, st, op, la, lb):
    out = []
    cur = [st]
    for x, y in zip(la, lb):
        nxt = []
        for s in cur:
            for s1, t in compare(I, s, 'Eq', x, y):
                for s2, e in I.truth(s1, t):
                    if e:
                        nxt.append(s2)
                    else:
                        out += compare(I, s2, op if op in ('Lt', 'Gt') else {'LtE': 'Lt', 'GtE': 'Gt'}[op], x, y)
        cur = nxt
    for s in cur:
        r = {'Lt': len(la) < len(lb), 'LtE': len(la) <= len(lb), 'Gt': len(la) > len(lb), 'GtE': len(la) >= len(lb)}[op]
        out.append((s, Const(r)))
    return out


def is_term(I, st, a, b):
    for x, y in ((a, b), (b, a)):
        if y == NONE:
            if isinstance(x, Const):
                return Const(x.v is None)
            if isinstance(x, Fn) and x.op in ('match', 'regex'):
                return FALSE
            return I.isnone_term(st, x)
    if isinstance(a, Const) and isinstance(b, Const):
        return Const(type(a.v) is type(b.v) and a.v == b.v)
    if a == b:
        return TRUE
    if isinstance(a, Ref) or isinstance(b, Ref):
        if kind(a) == 'any' and not isinstance(a, Ref) or kind(b) == 'any' and not isinstance(b, Ref):
            return Fn('is', tuple(sorted((a, b), key=repr)), 'bool')
        return FALSE
    if isinstance(a, ExtPy) and isinstance(b, ExtPy):
        return Const(a.obj is b.obj)
    if kind(a) == 'bool' or kind(b) == 'bool':
        return I.eq_term(st, a, b) if kind(a) == kind(b) else FALSE if 'any' not in (kind(a), kind(b)) else Fn('is', (a, b), 'bool')
    if kind(a) != kind(b) and 'any' not in (kind(a), kind(b)):
        return FALSE
    return Fn('is', tuple(sorted((a, b), key=repr)), 'bool')


def contains(I, st, c, x):
    """[(st, bool term)] of x in c"""
    c, x = st.resolve(c), st.resolve(x)
    if isinstance(c, Union):
        return [r for s, y in I.expand(st, c) for r in contains(I, s, y, x)]
    if is_opt(c) and Fn('isnone', (c,), 'bool') not in st.facts:
        out = []
        for s, n in I.split(st, Fn('isnone', (c,), 'bool')):
            if n:
                I.raise_(s, 'TypeError', "argument of type 'NoneType' is not iterable")
            else:
                out += contains(I, s, c, x)
        return out
    if c == NONE or st.known_none(c):
        return I.raise_(st, 'TypeError', "argument of type 'NoneType' is not iterable")
    if is_str(c):
        if is_str(x):
            return [(st, strs.contains(I, st, c, x))]
        if x == NONE or isinstance(x, (Ref, Tup, ExtPy, Lin)) or is_int(x):
            return I.raise_(st, 'TypeError', "'in <string>' requires string as left operand")
        return [(st, Fn('contains', (c, x), 'bool'))]
    if isinstance(c, Ref):
        o = st.obj(c)
        if isinstance(o, InstO):
            f = I.mro_find(st, o.cls, '__contains__')
            if f and isinstance(f[0], Func):
                return I.call(st, Bound(f[0], c), [x], {})
        p = payload(st, c)
        if isinstance(p, DictO):
            if x in p.d:
                return [(st, TRUE)]
            if isinstance(x, Ref) and isinstance(st.obj(x), (ListO, DictO)):
                return I.raise_(st, 'TypeError', 'unhashable type')
            t = [(st, None)]
            res = []
            for kk in p.d:
                nt = []
                for s, _ in t:
                    if isinstance(x, Const) and isinstance(kk, Const):
                        if x.v == kk.v:
                            res.append((s, TRUE))
                        else:
                            nt.append((s, None))
                        continue
                    for s1, b in I.truth(s, I.eq_term(s, x, kk)):
                        if b:
                            res.append((s1, TRUE))
                        else:
                            nt.append((s1, None))
                t = nt
            for s, _ in t:
                res.append((s, FALSE if p.rest is None else
                            (Const(s.facts[Fn('haskey', (p.rest, x), 'bool')]) if Fn('haskey', (p.rest, x), 'bool') in s.facts
                             else Fn('haskey', (p.rest, x), 'bool'))))
            return res
    if isinstance(c, (Sym, Fn)) and kind(c) == 'any' and not isinstance(c, Fn):
        return [(st, Fn('in', (x, c), 'bool'))]
    if isinstance(c, Fn) and kind(c) == 'any':
        return [(st, Fn('in', (x, c), 'bool'))]
    out = []
    for s, segs in iter_segs(I, st, c):
        cur = [s]
        for y in segs:
            nxt = []
            for s1 in cur:
                if isinstance(y, Many):
                    u = Fn('in', (x, y), 'bool')
                    for s2, b in I.split(s1, u):
                        (out.append((s2, TRUE)) if b else nxt.append(s2))
                    continue
                if x == y and not isinstance(x, Ref):
                    out.append((s1, TRUE))
                    continue
                if x == y:
                    out.append((s1, TRUE))
                    continue
                for s2, t in I.eq(s1, x, y):
                    for s3, b in I.truth(s2, t):
                        if b:
                            out.append((s3, TRUE))
                        else:
                            nxt.append(s3)
            cur = nxt
        out += [(s1, FALSE) for s1 in cur]
    return out


# ---------------------------------------------------------------- methods
def call_method(I, st, v, name, args, kw):
    v = st.resolve(v)
    if isinstance(v, Prop):
        f = {'setter': (v.fget, args[0], v.fdel), 'getter': (args[0], v.fset, v.fdel), 'deleter': (v.fget, v.fset, args[0])}[name]
        return [(st, Prop(*f))]
    if is_str(v):
        return str_method(I, st, v, name, args, kw)
    if isinstance(v, Ref):
        p = payload(st, v)
        if isinstance(p, DictO):
            return dict_method(I, st, v, p, name, args, kw)
        if isinstance(p, ListO):
            return list_method(I, st, v, p, name, args, kw)
    if isinstance(v, Tup):
        if name == 'index':
            return seq_index(I, st, v.items, args[0])
        if name == 'count':
            return [(st, Fn('count', (v, args[0]), 'int'))]
    if isinstance(v, Fn) and v.op == 'regex':
        return ext.regex_method(I, st, v, name, args, kw)
    if isinstance(v, Fn) and v.op == 'match':
        r = ext.match_method(I, st, v, name, args, kw)
        if r is not None:
            return r
    if isinstance(v, Const):
        try:
            if all(isinstance(a, Const) for a in args):
                return [(st, wrap_py(st, getattr(v.v, name)(*[a.v for a in args])))]
        except Exception as e:
            return I.raise_(st, type(e).__name__ if type(e).__name__ in I.classes else 'TypeError', str(e))
    st.event('call', Fn('attr', (v, Const(name)), 'any'), tuple(args), tuple(sorted(kw.items())), I.where())
    return [(st, Fn('mcall', (v, Const(name), Tup(tuple(args))), 'any'))]


def seq_index(I, st, segs, x):
    out = []
    cur = [st]
    for i, y in enumerate(segs):
        nxt = []
        for s in cur:
            if isinstance(y, Many):
                out.append((s.copy(), Fn('index_of', (Tup(tuple(segs)), x), 'int')))
                nxt.append(s)
                continue
            if x == y:
                out.append((s, Const(i)))
                continue
            for s1, t in I.eq(s, x, y):
                for s2, b in I.truth(s1, t):
                    if b:
                        out.append((s2, Const(i)))
                    else:
                        nxt.append(s2)
        cur = nxt
    for s in cur:
        I.raise_(s, 'ValueError', 'value is not in list')
    return out


def list_method(I, st, v, p, name, args, kw):
    mut = lambda s=st: _mutpay(I, s, v, name)
    if name == 'append' or name == 'add' and p.cls != 'set':
        q = mut()
        q.segs = q.segs + (args[0],)
        return [(st, NONE)]
    if name == 'appendleft':
        q = mut()
        q.segs = (args[0],) + q.segs
        return [(st, NONE)]
    if name == 'extend' or name == '__iadd__':
        out = []
        for s, segs in iter_segs(I, st, args[0]):
            q = mut(s)
            q.segs = q.segs + tuple(segs)
            out.append((s, NONE if name == 'extend' else v))
        return out
    if name in ('__add__',):
        return binop(I, st, 'Add', v, args[0])
    if name == '__len__':
        return [(st, len_segs(I, st, p.segs))]
    if name == '__getitem__':
        return getitem(I, st, v, args[0])
    if name == '__setitem__':
        return [(s, NONE) for s in setitem(I, st, v, args[0], args[1])]
    if name == '__delitem__':
        return [(s, NONE) for s in delitem(I, st, v, args[0])]
    if name == '__contains__':
        return contains(I, st, v, args[0])
    if name == '__iter__':
        return [(st, st.alloc(ListO(p.segs)))]
    if name == 'insert':
        i = st.resolve(args[0])
        q = mut()
        L = q.segs
        if isinstance(i, Const) and i.v >= 0 and not any(isinstance(x, Many) for x in L[:i.v]):
            q.segs = L[:i.v] + (args[1],) + L[i.v:]
        elif isinstance(i, Const) and not any(isinstance(x, Many) for x in L):
            l2 = list(L)
            l2.insert(i.v, args[1])
            q.segs = tuple(l2)
        elif i == len_segs(I, st, L):
            q.segs = L + (args[1],)
        else:
            I.gap('list insert approximated')
            q.segs = (Many(tuple((x,) for x in flat_elems(L + (args[1],))), None),)
        return [(st, NONE)]
    if name in ('pop', 'popleft'):
        i = args[0] if args else Const(-1 if name == 'pop' else 0)
        out = []
        for s, x in seg_index(I, st, p.segs, i, 'pop from empty list; list'):
            for s2 in delitem(I, s, v, i):
                out.append((s2, x))
        return out
    if name == 'remove' or name == 'discard':
        out = []
        if not any(isinstance(x, Many) for x in p.segs):
            cur = [st]
            for i, y in enumerate(p.segs):
                nxt = []
                for s in cur:
                    hit = [(s, TRUE)] if y == args[0] else I.eq(s, y, args[0])
                    for s1, t in hit:
                        for s2, b in I.truth(s1, t):
                            if b:
                                q = mut(s2)
                                q.segs = q.segs[:i] + q.segs[i + 1:]
                                out.append((s2, NONE))
                            else:
                                nxt.append(s2)
                cur = nxt
            for s in cur:
                if name == 'remove':
                    I.raise_(s, 'ValueError', 'list.remove(x): x not in list')
                else:
                    out.append((s, NONE))
            return out
        I.gap('list.remove approximated')
        return [(st, NONE)]
    if name == 'index':
        return seq_index(I, st, p.segs, args[0])
    if name == 'count':
        return [(st, Fn('count', (Tup(p.segs), args[0]), 'int'))]
    if name == 'reverse':
        q = mut()
        q.segs = rev_segs(q.segs)
        return [(st, NONE)]
    if name == 'sort':
        out = []
        for s, segs in sort_segs(I, st, p.segs, kw.get('key', NONE), kw.get('reverse', FALSE)):
            mut(s).segs = segs
            out.append((s, NONE))
        return out
    if name == 'clear':
        mut().segs = ()
        return [(st, NONE)]
    if name == 'copy':
        return [(st, st.alloc(ListO(p.segs, p.cls)))]
    if name == 'add':
        out = []
        for s, t in contains(I, st, v, args[0]):
            for s2, b in I.truth(s, t):
                if not b:
                    q = mut(s2)
                    q.segs = q.segs + (args[0],)
                out.append((s2, NONE))
        return out
    if name in ('update', 'union'):
        tgt = v if name == 'update' else st.alloc(ListO(p.segs, p.cls))
        res = [(st, NONE)]
        for a in args:
            nxt = []
            for s, _ in res:
                for s1, segs in iter_segs(I, s, a):
                    ss = [s1]
                    for x in segs:
                        if isinstance(x, Many):
                            for q in ss:
                                o = _mutpay(I, q, tgt, 'update')
                                o.segs = o.segs + (x,)
                            continue
                        ss = [q2 for q in ss for q2, _ in list_method(I, q, tgt, payload(q, tgt), 'add', [x], {})]
                    nxt += [(q, NONE) for q in ss]
            res = nxt
        return [(s, tgt if name == 'union' else NONE) for s, _ in res]
    if name in ('intersection', 'difference'):
        out = []
        cur = [(st, ())]
        for x in p.segs:
            nxt = []
            for s, acc in cur:
                if isinstance(x, Many):
                    nxt.append((s, acc + (x,)))
                    continue
                for s1, t in contains(I, s, args[0], x):
                    for s2, b in I.truth(s1, t):
                        nxt.append((s2, acc + (x,) if b == (name == 'intersection') else acc))
            cur = nxt
        return [(s, s.alloc(ListO(acc, p.cls))) for s, acc in cur]
    if name in ('issubset', 'issuperset'):
        a, b = (v, args[0]) if name == 'issubset' else (args[0], v)
        cur, out = [st], []
        for s, segs in iter_segs(I, st, a):
            cur = [s]
            for x in segs:
                nxt = []
                for q in cur:
                    for s1, t in contains(I, q, b, x):
                        for s2, ok in I.truth(s1, t):
                            (nxt.append(s2) if ok else out.append((s2, FALSE)))
                cur = nxt
            out += [(q, TRUE) for q in cur]
        return out
    raise _gap('list method ' + name)


def _gap(x):
    from .interp import Gap
    return Gap('unsupported ' + x)


def call_less(I, st, a, b, cmp=None):
    """[(st, bool)] a < b for sorting."""
    return [(s2, t) for s, r in compare(I, st, 'Lt', a, b) for s2, t in I.truth(s, r)]


def sort_segs(I, st, segs, key, rev):
    rv = rev == TRUE or (isinstance(rev, Const) and bool(rev.v))
    if any(isinstance(x, Many) for x in segs):
        if len(segs) == 1:
            m = segs[0]
            return [(st, (Many(m.alts, Fn('sorted', (m.src if m.src is not None else NONE, key))),))]
        return [(st, (Many(tuple((x,) for x in flat_elems(segs)), Fn('sorted', (Tup(segs), key))),))]
    states = [(st, [])]
    for x in segs:
        nxt = []
        for s, acc in states:
            ks = I.call(s, key, [x], {}) if key != NONE else [(s, x)]
            nxt += [(s1, acc + [(k, x)]) for s1, k in ks]
        states = nxt
    out = []
    for s, items in states:
        cur = [(s, [])]
        for it in items:
            nxt = []
            for s1, acc in cur:
                # stable insertion from the right
                pend = [(s1, len(acc))]
                while pend:
                    s2, i = pend.pop()
                    if i == 0:
                        nxt.append((s2, acc[:0] + [it] + acc))
                        continue
                    a, b = (it[0], acc[i - 1][0]) if not rv else (acc[i - 1][0], it[0])
                    for s3, lt in call_less(I, s2, a, b):
                        if lt:
                            pend.append((s3, i - 1))
                        else:
                            nxt.append((s3, acc[:i] + [it] + acc[i:]))
            cur = nxt
        out += [(s1, tuple(x for _, x in acc)) for s1, acc in cur]
    return out


def dict_items(I, st, v, p, what):
    out = []
    for k, x in p.d.items():
        out.append(k if what == 'keys' else (x if what == 'values' else Tup((k, x))))
    if p.rest is not None:
        src = Fn('keys', (p.rest,))
        k = Fn('elem', (src,), 'str')
        x = Fn('dget', (p.rest, k), 'any')
        out.append(Many(((k if what == 'keys' else (x if what == 'values' else Tup((k, x))),),), src))
    return tuple(out)


def dict_update(I, st, tgt, src):
    """[st] update dict object `tgt` (Ref) from value src."""
    out = []
    if isinstance(src, Union):
        return [r for s, x in I.expand(st, src) for r in dict_update(I, s, tgt, x)]
    src = st.resolve(src)
    p = payload(st, src) if isinstance(src, Ref) else None
    if isinstance(p, DictO):
        d = _mutpay(I, st, tgt, 'update')
        for k, x in p.d.items():
            d.d[k] = x
        if p.rest is not None:
            if d.rest is not None and d.rest != p.rest:
                d.rest = Fn('merged', (d.rest, p.rest), 'dict')
            else:
                d.rest = p.rest
            # unknown keys may overwrite any known one
            for k in list(d.d):
                if k not in p.d:
                    pass
        return [st]
    if isinstance(p, ListO) or isinstance(src, Tup):
        for s, segs in iter_segs(I, st, src):
            ss = [s]
            for x in segs:
                if isinstance(x, Many):
                    for q in ss:
                        d = _mutpay(I, q, tgt, 'update')
                        d.rest = Fn('pairs', (x,), 'dict')
                    continue
                nxt = []
                for q in ss:
                    for q2, kv in iter_segs(I, q, x):
                        if len(kv) != 2:
                            I.raise_(q2, 'ValueError', 'dictionary update sequence element')
                            continue
                        nxt += setitem_raw(I, q2, tgt, kv[0], kv[1])
                ss = nxt
            out += ss
        return out
    if src == NONE or isinstance(src, Const) or is_int(src) or st.known_none(src) or isinstance(src, Ref):
        I.raise_(st, 'TypeError', "'%s' object is not iterable (dict update)" % kind(src))
        return []
    d = _mutpay(I, st, tgt, 'update')
    d.rest = src if d.rest is None or d.rest == src else Fn('merged', (d.rest, src), 'dict')
    return [st]


def setitem_raw(I, st, tgt, k, x):
    d = _mutpay(I, st, tgt, 'item %s' % show(k))
    k = st.resolve(k)
    # a symbolic key may equal an existing one: later wins
    d.d.pop(k, None) if False else None
    d.d[k] = x
    return [st]


def dict_method(I, st, v, p, name, args, kw):
    if name == 'get':
        return dict_get(I, st, v, p, args[0], args[1] if len(args) > 1 else NONE)
    if name == '__getitem__':
        return dict_get(I, st, v, p, args[0], None)
    if name in ('keys', 'values', 'items'):
        return [(st, st.alloc(ListO(dict_items(I, st, v, p, name))))]
    if name == '__iter__':
        return [(st, st.alloc(ListO(dict_items(I, st, v, p, 'keys'))))]
    if name == '__len__':
        return [(st, Const(len(p.d)) if p.rest is None else Fn('len', (v,), 'int'))]
    if name == '__contains__':
        out = contains(I, st, v, args[0]) if not isinstance(st.obj(v), InstO) else None
        if out is None:
            r = st.alloc(p.clone())
            out = contains(I, st, r, args[0])
        return out
    if name == '__setitem__':
        return [(s, NONE) for s in setitem_raw(I, st, v, args[0], args[1])]
    if name == '__delitem__':
        k = dict_key(st, args[0])
        if k in p.d:
            del _mutpay(I, st, v, 'item').d[k]
            return [(st, NONE)]
        I.raise_(st, 'KeyError', show(k))
        return []
    if name == 'update':
        ss = [st]
        for a in args:
            ss = [s2 for s in ss for s2 in dict_update(I, s, v, a)]
        for s in ss:
            for k, x in kw.items():
                if k == '**':
                    _mutpay(I, s, v, 'update').rest = x
                else:
                    _mutpay(I, s, v, 'update').d[Const(k)] = x
        return [(s, NONE) for s in ss]
    if name == 'pop':
        k = dict_key(st, args[0])
        out = []
        for s, x in dict_get(I, st, v, p, k, args[1] if len(args) > 1 else None):
            if k in payload(s, v).d:
                del _mutpay(I, s, v, 'pop').d[k]
            out.append((s, x))
        return out
    if name == 'setdefault':
        k = dict_key(st, args[0])
        out = []
        for s, t in contains(I, st, v, k):
            for s2, b in I.truth(s, t):
                if b:
                    out += dict_get(I, s2, v, payload(s2, v), k, NONE)
                else:
                    x = args[1] if len(args) > 1 else NONE
                    _mutpay(I, s2, v, 'setdefault').d[k] = x
                    out.append((s2, x))
        return out
    if name == 'copy':
        return [(st, st.alloc(DictO(p.d, p.rest)))]
    if name == 'clear':
        d = _mutpay(I, st, v, 'clear')
        d.d, d.rest = {}, None
        return [(st, NONE)]
    if name == '__or__':
        return binop(I, st, 'BitOr', v, args[0])
    if name == 'popitem':
        if p.d:
            k = list(p.d)[-1]
            x = p.d[k]
            del _mutpay(I, st, v, 'popitem').d[k]
            return [(st, Tup((k, x)))]
        return I.raise_(st, 'KeyError', 'popitem(): dictionary is empty')
    raise _gap('dict method ' + name)


# ---------------------------------------------------------------- builtins
def _isinst(I, st, v, c):
    """True / False / None"""
    v = st.resolve(v)
    if isinstance(c, Tup):
        rs = [_isinst(I, st, v, x) for x in c.items]
        return True if True in rs else (None if None in rs else False)
    if isinstance(c, ExtPy):
        return isinstance(v.obj, c.obj) if isinstance(v, ExtPy) and isinstance(c.obj, type) else False
    if not isinstance(c, Ref):
        return None
    co = st.obj(c)
    if not isinstance(co, ClassO):
        return None
    n = co.ext
    if n == 'object':
        return True
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, InstO):
            return I.is_subclass(st, o.cls, c)
        if isinstance(o, ListO):
            return n == o.cls
        if isinstance(o, DictO):
            return n == 'dict'
        if isinstance(o, ClassO):
            return n == 'type' or (o.meta is not None and I.is_subclass(st, o.meta, c))
        return False
    if isinstance(v, ExtPy):
        return isinstance(v.obj, {'tuple': tuple, 'str': str, 'int': int, 'list': list}.get(n, ())) if n else False
    if isinstance(v, Const):
        if v.v is None:
            return False
        return isinstance(v.v, {'str': str, 'int': int, 'bool': bool, 'float': float, 'bytes': bytes, 'tuple': tuple}.get(n, ())) if n else False
    k = kind(v)
    if st.known_none(v):
        return False
    if k in ('str', 'int', 'bool', 'tuple', 'float', 'list', 'dict'):
        if is_opt(v) and st.facts.get(Fn('isnone', (v,), 'bool')) is not False and n == k:
            return None
        return n == k or (k == 'bool' and n == 'int')
    if k == 'func':
        return False
    return None


def call_builtin(I, st, name, args, kw):
    for i, a in enumerate(args):
        a = st.resolve(a)
        if isinstance(a, Union) and name not in ('print',):
            return [r for s, x in I.expand(st, a) for r in call_builtin(I, s, name, args[:i] + [x] + args[i + 1:], kw)]
        args[i] = a
    h = BUILT.get(name)
    if h is not None:
        return h(I, st, args, kw)
    if '.' in name:
        t, m = name.split('.', 1)
        if t == 'unbound':
            return I.call(st, Method(args[0], m), args[1:], kw) if not _cont_self(I, st, args) else call_method(I, st, args[0], m, args[1:], kw)
        if t in ('object', 'type', 'exc', 'list', 'dict', 'set', 'str', 'int', 'tuple', 'bytes', 'float', 'frozenset', 'bool'):
            return _dunder(I, st, t, m, args, kw)
    r = ext.call_ext_builtin(I, st, name, args, kw)
    if r is not None:
        return r
    st.event('call', Builtin(name), tuple(args), tuple(sorted(kw.items())), I.where())
    return [(st, Fn('call', (Builtin(name), Tup(tuple(args))), 'any'))]


def _cont_self(I, st, args):
    return True


def _dunder(I, st, t, m, args, kw):
    if m == '__new__':
        if t == 'type':
            # type.__new__(meta, name, bases, ns)
            ns = {}
            o = st.obj(args[3])
            for k, x in o.d.items():
                ns[k.v] = x
            meta = args[0] if st.obj(args[0]) is not None and st.obj(args[0]).ext != 'type' else None
            c = I.make_class(st, args[1].v, tuple(args[2].items), ns, meta, args[1].v)
            return [(st, c)]
        return [(st, I.raw_instance(st, args[0]))]
    if m == '__init__':
        o = st.obj(args[0]) if args else None
        if t == 'exc' and isinstance(o, InstO):
            st.mut(args[0].a).attrs['args'] = Tup(tuple(args[1:]))
        elif t == 'dict' and isinstance(o, InstO) and isinstance(o.data, DictO):
            return dict_method(I, st, args[0], o.data, 'update', args[1:], kw)
        elif t == 'list' and isinstance(o, InstO) and len(args) > 1:
            return list_method(I, st, args[0], o.data, 'extend', args[1:], kw)
        elif t == 'object' and isinstance(o, InstO) and isinstance(o.data, DictO):
            return dict_method(I, st, args[0], o.data, 'update', args[1:], kw)
        elif t == 'object' and len(args) > 1 and isinstance(o, InstO):
            nw = I.mro_find(st, o.cls, '__new__')
            if not (nw and isinstance(nw[0], (Func, StaticM))):
                I.raise_(st, 'TypeError', 'object.__init__() takes exactly one argument')
                return []
        return [(st, NONE)]
    if t == 'exc' and m == '__str__':
        return [(st, Fn('str', (args[0],), 'str'))]
    if t == 'object':
        o = st.obj(args[0])
        if m == '__getattribute__' and isinstance(args[1], Const):
            if isinstance(o, InstO):
                return I.default_getattr(st, args[0], o, args[1].v) if True else None
        if m == '__getattribute__':
            return [(st, Fn('attr', (args[0], args[1]), 'any'))]
        if m == '__setattr__' and isinstance(args[1], Const):
            return [(s, NONE) for s in I.setattr_(st, args[0], args[1].v, args[2], default_only=True)]
        if m == '__delattr__' and isinstance(args[1], Const):
            return [(s, NONE) for s in I.delattr_(st, args[0], args[1].v, default_only=True)]
        if m == '__eq__':
            return [(st, is_term(I, st, args[0], args[1]))]
        if m == '__ne__':
            return [(st, neg_term(is_term(I, st, args[0], args[1])))]
        if m in ('__repr__', '__str__'):
            return [(st, Fn('repr', (args[0],), 'str'))]
        if m == '__hash__':
            return [(st, Fn('hash', (args[0],), 'int'))]
        if m == '__init_subclass__':
            return [(st, NONE)]
        return [(st, Fn('object.' + m, tuple(args), 'any'))]
    if t == 'type':
        if m == 'mro':
            return [(st, st.alloc(ListO(st.obj(args[0]).mro)))]
        if m == '__call__':
            return I.type_call(st, args[0], st.obj(args[0]), args[1:], kw)
        return [(st, NONE)]
    if t == 'dict' and m == 'fromkeys':
        out = []
        for s, segs in iter_segs(I, st, args[0]):
            d, rest = {}, None
            for x in segs:
                if isinstance(x, Many):
                    rest = Fn('fromkeys', (x,), 'dict')
                else:
                    d[s.resolve(x)] = args[1] if len(args) > 1 else NONE
            out.append((s, s.alloc(DictO(d, rest))))
        return out
    if t == 'str' and m == 'maketrans':
        if len(args) == 1 and isinstance(st.obj(args[0]), DictO):
            d = {}
            for k, x in st.obj(args[0]).d.items():
                d[Const(ord(k.v)) if isinstance(k, Const) and isinstance(k.v, str) else k] = x
            return [(st, st.alloc(DictO(d)))]
        if all(isinstance(a, Const) for a in args):
            return [(st, wrap_py(st, str.maketrans(*[a.v for a in args])))]
    if t in ('str', 'list', 'dict', 'set'):
        return call_method(I, st, args[0], m, args[1:], kw)
    return [(st, Fn('call', (Builtin(t + '.' + m), Tup(tuple(args))), 'any'))]


def b_len(I, st, args, kw):
    v = args[0]
    if isinstance(v, Const):
        try:
            return [(st, Const(len(v.v)))]
        except TypeError as e:
            return I.raise_(st, 'TypeError', str(e))
    if st.known_none(v):
        return I.raise_(st, 'TypeError', "object of type 'NoneType' has no len()")
    if is_opt(v) and Fn('isnone', (v,), 'bool') not in st.facts:
        out = []
        for s, b in I.split(st, Fn('isnone', (v,), 'bool')):
            out += I.raise_(s, 'TypeError', "object of type 'NoneType' has no len() (%s)" % show(v)) if b else b_len(I, s, args, kw)
        return out
    if is_str(v):
        return [(st, slen(v))]
    if isinstance(v, Tup):
        return [(st, Const(len(v.items)))]
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, InstO):
            f = I.mro_find(st, o.cls, '__len__')
            if f and isinstance(f[0], Func):
                return I.call(st, Bound(f[0], v), [], {})
            if isinstance(o.data, tuple) and o.data and o.data[0] == 'ntuple':
                return [(st, Const(len(o.data[1])))]
        p = payload(st, v)
        if isinstance(p, ListO):
            return [(st, len_segs(I, st, p.segs))]
        if isinstance(p, DictO):
            return [(st, Const(len(p.d)) if p.rest is None else Fn('len', (v,), 'int'))]
        return I.raise_(st, 'TypeError', 'object has no len()')
    if is_int(v):
        return I.raise_(st, 'TypeError', "object of type 'int' has no len()")
    if isinstance(v, ExtPy):
        try:
            return [(st, Const(len(v.obj)))]
        except TypeError as e:
            return I.raise_(st, 'TypeError', str(e))
    return [(st, Fn('seqlen', (v,), 'int'))]


def _probe(I, st, f):
    """run f(st) collecting AttributeErrors: (ok results, failed states)"""
    I.coll.append([])
    ok = f(st)
    caught = I.coll.pop()
    bad = []
    for s, e, c in caught:
        if I.exc_name(s, e) == 'AttributeError':
            bad.append(s)
        else:
            I.coll[-1].append((s, e, c))
    return ok, bad


def b_hasattr(I, st, args, kw):
    if not isinstance(args[1], Const):
        return [(st, Fn('hasattr', tuple(args), 'bool'))]
    if isinstance(args[0], (Sym, Fn)) and kind(args[0]) == 'any':
        t = Fn('hasattr', tuple(args), 'bool')
        return [(st, Const(st.facts[t]) if t in st.facts else t)]
    fr, sk = st.frame, st.stack
    ok, bad = _probe(I, st.copy(), lambda s: I.getattr_(s, args[0], args[1].v))
    for s in bad:
        s.frame, s.stack = fr, sk
    return [(s, TRUE) for s, _ in ok] + [(s, FALSE) for s in bad]


def b_getattr(I, st, args, kw):
    if not isinstance(args[1], Const):
        r = [(st, Fn('attr', (args[0], args[1]), 'any'))]
        if isinstance(args[0], Ref):
            I.gap('getattr with an unknown name')
        return r
    if len(args) == 2:
        return I.getattr_(st, args[0], args[1].v)
    fr, sk = st.frame, st.stack
    ok, bad = _probe(I, st, lambda s: I.getattr_(s, args[0], args[1].v))
    for s in bad:
        s.frame, s.stack = fr, sk
    return ok + [(s, args[2]) for s in bad]


def b_setattr(I, st, args, kw):
    if isinstance(args[1], Const):
        return [(s, NONE) for s in I.setattr_(st, args[0], args[1].v, args[2])]
    I.gap('setattr with an unknown name')
    return [(st, NONE)]


def b_delattr(I, st, args, kw):
    return [(s, NONE) for s in I.delattr_(st, args[0], args[1].v)]


def b_isinstance(I, st, args, kw):
    v = st.resolve(args[0])
    r = _isinst(I, st, v, args[1])
    if r is None and is_opt(v) and Fn('isnone', (v,), 'bool') not in st.facts:
        return [(s, FALSE if b else TRUE) for s, b in I.split(st, Fn('isnone', (v,), 'bool'))]
    if r is None:
        t = Fn('isinstance', (v, args[1]), 'bool')
        return [(st, Const(st.facts[t]) if t in st.facts else t)]
    return [(st, Const(r))]


def b_issubclass(I, st, args, kw):
    c = args[1].items if isinstance(args[1], Tup) else (args[1],)
    if not isinstance(st.obj(args[0]), ClassO):
        if isinstance(args[0], (Const, Func)) or isinstance(st.obj(args[0]), (InstO, ListO, DictO)) or isinstance(args[0], Tup):
            return I.raise_(st, 'TypeError', 'issubclass() arg 1 must be a class')
        return [(st, Fn('issubclass', tuple(args), 'bool'))]
    return [(st, Const(any(I.is_subclass(st, args[0], x) for x in c)))]


def b_sorted(I, st, args, kw):
    return [(s2, s2.alloc(ListO(g))) for s, segs in iter_segs(I, st, args[0])
            for s2, g in sort_segs(I, s, segs, kw.get('key', NONE), kw.get('reverse', FALSE))]


def b_minmax(which):
    def f(I, st, args, kw):
        key = kw.get('key', NONE)
        if len(args) == 1:
            its = iter_segs(I, st, args[0])
        else:
            its = [(st, tuple(args))]
        out = []
        for s, segs in its:
            if any(isinstance(x, Many) for x in segs):
                els = flat_elems(segs)
                if all(is_int(e) for e in els):
                    out.append((s, Fn(which, tuple(els), 'int')))
                else:
                    out.append((s, els[0] if len(els) == 1 else Union(tuple(els))))
                continue
            if not segs:
                if 'default' in kw:
                    out.append((s, kw['default']))
                else:
                    I.raise_(s, 'ValueError', '%s() arg is an empty sequence' % which)
                continue
            if key == NONE and all(is_int(x) for x in segs) and any(not isinstance(x, Const) for x in segs) and len(segs) == 2:
                for s2, b in I.truth(s, I.cmp_lin('<=' if which == 'min' else '>=', segs[0], segs[1])):
                    out.append((s2, segs[0] if b else segs[1]))
                continue
            cur = [(s, None, None)]
            for x in segs:
                nxt = []
                for s1, bk, bx in cur:
                    for s2, k in (I.call(s1, key, [x], {}) if key != NONE else [(s1, x)]):
                        if bx is None:
                            nxt.append((s2, k, x))
                            continue
                        a, b = (k, bk) if which == 'min' else (bk, k)
                        for s3, lt in call_less(I, s2, a, b):
                            nxt.append((s3, k, x) if lt else (s3, bk, bx))
                cur = nxt
            out += [(s1, x) for s1, _, x in cur]
        return out
    return f


def b_sum(I, st, args, kw):
    out = []
    for s, segs in iter_segs(I, st, args[0]):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        cur = [(s, start)]
        for x in segs:
            nxt = []
            for s1, t in cur:
                if isinstance(x, Many):
                    nxt.append((s1, ladd(t, Fn('sum', (x,), 'int')) or Fn('sum', (x,), 'any')))
                else:
                    nxt += binop(I, s1, 'Add', t, x)
            cur = nxt
        out += cur
    return out


def _each(I, st, segs, fn, loopid):
    """Build a list by applying fn(st, elem)->[(st, vals tuple)] to every element."""
    acc = st.alloc(ListO())
    hold = {}

    def bindf(s, v):
        f = s.mut(s.frame)
        f.vars['$x'] = v
        return [s]

    def body(s):
        v = s.get(s.frame).vars['$x']
        out = []
        for s1, vals in fn(s, v):
            o = s1.mut(acc.a)
            o.segs = o.segs + tuple(vals)
            out.append(('next', s1, None))
        return out
    res = []
    for k, s, _ in I.loop_segs(st, segs, bindf, body, None, loopid):
        f = s.mut(s.frame)
        f.vars.pop('$x', None)
        res.append((s, acc))
    return res


def b_map(I, st, args, kw):
    f = args[0]
    if len(args) > 2:
        return [r for s, z in b_zip(I, st, args[1:], {}) for s2, segs in iter_segs(I, s, z)
                for r in _each(I, s2, segs, lambda q, v: [(q2, (x,)) for q2, x in I.call(q, f, list(v.items), {})], ('map', repr(I.where())))]
    return [r for s, segs in iter_segs(I, st, args[1])
            for r in _each(I, s, segs, lambda q, v: [(q2, (x,)) for q2, x in I.call(q, f, [v], {})], ('map', repr(I.where())))]


def b_filter(I, st, args, kw):
    f = args[0]

    def go(q, v):
        out = []
        for q2, x in (I.call(q, f, [v], {}) if f != NONE else [(q, v)]):
            for q3, b in I.truth(q2, x):
                out.append((q3, (v,) if b else ()))
        return out
    return [r for s, segs in iter_segs(I, st, args[1]) for r in _each(I, s, segs, go, ('filter', repr(I.where())))]


def b_zip(I, st, args, kw):
    cur = [(st, [])]
    for a in args:
        cur = [(s2, acc + [list(g)]) for s, acc in cur for s2, g in iter_segs(I, s, a)]
    out = []
    for s, lists in cur:
        res = []
        if not any(isinstance(x, Many) for g in lists for x in g):
            for t in zip(*lists):
                res.append(Tup(t))
        else:
            lists = [list(g) for g in lists]
            while all(lists):
                h = [g[0] for g in lists]
                if not any(isinstance(x, Many) for x in h):
                    res.append(Tup(tuple(h)))
                    for g in lists:
                        g.pop(0)
                    continue
                many = [x for x in h if isinstance(x, Many)]
                if len(many) == len(h) and all(all(len(a) == 1 for a in m.alts) for m in many):
                    srcs = {m.src for m in many}
                    alts = [()]
                    for m in many:
                        alts = [a + (b[0],) for a in alts for b in m.alts]
                    if len(srcs) == 1:
                        res.append(Many(tuple((Tup(a),) for a in alts), many[0].src, many[0].lo, many[0].hi))
                    else:
                        res.append(Many(tuple((Tup(a),) for a in alts), Fn('zip', tuple(m.src if m.src is not None else NONE for m in many))))
                    for g in lists:
                        g.pop(0)
                    continue
                # one side exact, the other open ended (e.g. itertools.count)
                els = [[x] if not isinstance(x, Many) else [y for a in x.alts for y in a] for x in h]
                ci = [i for i, g in enumerate(lists) if len(g) == 1 and isinstance(g[0], Many) and isinstance(g[0].src, Fn) and g[0].src.op == 'count']
                if ci and len(lists) == 2:
                    i = ci[0]
                    e = b_enum_segs(I, s, lists[1 - i], lists[i][0].src.args[0])
                    for x in e:
                        if isinstance(x, Many):
                            res.append(Many(tuple(tuple(Tup(tuple(reversed(y.items))) if i == 1 else y for y in a) for a in x.alts), x.src, x.lo, x.hi))
                        else:
                            res.append(Tup(tuple(reversed(x.items))) if i == 1 else x)
                    break
                I.gap('zip approximated')
                alts = [()]
                for g in lists:
                    alts = [a + (y,) for a in alts for y in flat_elems(g)]
                res.append(Many(tuple((Tup(a),) for a in alts), None))
                break
        out.append((s, s.alloc(ListO(res))))
    return out


def b_enum_segs(I, st, segs, start):
    res = []
    n = start
    for x in segs:
        if isinstance(x, Many):
            ix = Fn('index', (x.src if x.src is not None else NONE,), 'int')
            off = ladd(n, ix)
            if x.lo is not None:
                off = ladd(off, x.lo, -1) or off
            if all(len(a) == 1 for a in x.alts):
                res.append(Many(tuple((Tup((off, a[0])),) for a in x.alts), x.src, x.lo, x.hi))
            else:
                res.append(Many(tuple(tuple(Tup((Fn('index', (x,), 'int'), y)) for y in a) for a in x.alts), x.src, x.lo, x.hi))
            n = ladd(n, len_segs(I, st, (x,)))
        else:
            res.append(Tup((n, x)))
            n = ladd(n, ONE)
    return res


def b_enumerate(I, st, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    return [(s, s.alloc(ListO(b_enum_segs(I, s, segs, start)))) for s, segs in iter_segs(I, st, args[0])]


def b_range(I, st, args, kw):
    if all(isinstance(a, Const) for a in args):
        try:
            r = range(*[a.v for a in args])
        except Exception as e:
            return I.raise_(st, 'TypeError', str(e))
        if len(r) <= 400:
            return [(st, st.alloc(ListO(tuple(Const(i) for i in r))))]
    lo = ZERO if len(args) == 1 else args[0]
    hi = args[0] if len(args) == 1 else args[1]
    step = args[2] if len(args) > 2 else ONE
    if step == ONE:
        n = ladd(hi, lo, -1)
        # range(len(xs)): same positions as xs
        src = None
        if isinstance(n, Fn) and n.op == 'seqlen' and len(n.args) == 1 and lo == ZERO:
            src = n.args[0]
            return [(st, st.alloc(ListO((Many(((Fn('index', (src,), 'int'),),), src),))))]
        src = Fn('range', (n,)) if n is not None else Fn('range', (lo, hi))
        return [(st, st.alloc(ListO((Many(((ladd(lo, Fn('index', (src,), 'int')),),), src),))))]
    src = Fn('range', (lo, hi, step))
    return [(st, st.alloc(ListO((Many(((Fn('elem', (src,), 'int'),),), src),))))]


def b_anyall(which):
    def f(I, st, args, kw):
        out = []
        for s, segs in iter_segs(I, st, args[0]):
            cur = [s]
            for x in segs:
                nxt = []
                for s1 in cur:
                    if isinstance(x, Many):
                        els = [y for a in x.alts for y in a]
                        if all(isinstance(y, Const) and bool(y.v) == (which == 'all') for y in els):
                            nxt.append(s1)
                            continue
                        t = Fn(which, (x,), 'bool')
                        for s2, b in I.split(s1, t):
                            if b == (which == 'any'):
                                out.append((s2, Const(which == 'any')))
                            else:
                                nxt.append(s2)
                        continue
                    for s2, b in I.truth(s1, x):
                        if b == (which == 'any'):
                            out.append((s2, Const(which == 'any')))
                        else:
                            nxt.append(s2)
                cur = nxt
            out += [(s1, Const(which == 'all')) for s1 in cur]
        return out
    return f


def b_reversed(I, st, args, kw):
    return [(s, s.alloc(ListO(rev_segs(segs)))) for s, segs in iter_segs(I, st, args[0])]


def b_iter(I, st, args, kw):
    if len(args) == 1:
        return [(s, s.alloc(ListO(segs))) for s, segs in iter_segs(I, st, args[0])]
    return [(st, Fn('iter', tuple(args), 'any'))]


def b_next(I, st, args, kw):
    o = st.obj(args[0])
    if isinstance(o, ListO):
        out = []
        if not o.segs:
            if len(args) > 1:
                return [(st, args[1])]
            return I.raise_(st, 'StopIteration', '')
        if not isinstance(o.segs[0], Many):
            x = o.segs[0]
            st.mut(args[0].a).segs = o.segs[1:]
            return [(st, x)]
        for s, b in I.truth(st, I.cmp_lin('>', len_segs(I, st, o.segs), ZERO)):
            if b:
                for s2, x in seg_index(I, s, o.segs, ZERO):
                    if len(o.segs) == 1:
                        m = o.segs[0]
                        s2.mut(args[0].a).segs = (Many(m.alts, m.src, ladd(m.lo or ZERO, ONE), m.hi),)
                    out.append((s2, x))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                I.raise_(s, 'StopIteration', '')
        return out
    if isinstance(o, InstO):
        f = I.mro_find(st, o.cls, '__next__')
        if f:
            return I.call(st, Bound(f[0], args[0]), [], {})
        if isinstance(o.data, tuple) and o.data and o.data[0] == 'counter':
            n = o.data[1]
            st.mut(args[0].a).data = ('counter', ladd(n, o.data[2]), o.data[2])
            return [(st, n)]
    return [(st, Fn('next', (args[0],), 'any'))]


def b_divmod(I, st, args, kw):
    return [(s2, Tup((q, r))) for s, q in binop(I, st, 'FloorDiv', args[0], args[1]) for s2, r in binop(I, s, 'Mod', args[0], args[1])]


def b_print(I, st, args, kw):
    st.event('print', tuple(args), I.where(), tuple(sorted(kw.items())))
    return [(st, NONE)]


def b_property(I, st, args, kw):
    return [(st, Prop(args[0] if args else kw.get('fget'), args[1] if len(args) > 1 else kw.get('fset'),
                      args[2] if len(args) > 2 else kw.get('fdel')))]


def b_super(I, st, args, kw):
    if len(args) == 2:
        return [(st, Super(args[0], args[1]))]
    return [(st, I._super0(st))]


def b_abs(I, st, args, kw):
    v = args[0]
    if isinstance(v, Const):
        return [(st, Const(abs(v.v)))]
    out = []
    for s, b in I.truth(st, I.cmp_lin('>=', v, ZERO)):
        out.append((s, v if b else lmul(v, Const(-1))))
    return out


def b_callable(I, st, args, kw):
    v = args[0]
    if isinstance(v, (Func, Bound, Builtin, Method)) or isinstance(st.obj(v), ClassO):
        return [(st, TRUE)]
    if isinstance(v, (Const, Tup, Lin)) or is_str(v) or isinstance(st.obj(v), (ListO, DictO)):
        return [(st, FALSE)]
    return [(st, Fn('callable', (v,), 'bool'))]


def b_vars(I, st, args, kw):
    o = st.obj(args[0]) if args else None
    if isinstance(o, InstO):
        return [(st, st.alloc(DictO({Const(k): v for k, v in o.attrs.items()})))]
    return [(st, Fn('vars', tuple(args), 'any'))]


def b_repr(I, st, args, kw):
    v = args[0]
    if isinstance(v, Const):
        return [(st, Const(repr(v.v)))]
    return [(st, Fn('repr', (v,), 'str'))]


def b_analysis(I, st, args, kw):
    return [(st, NONE)]


BUILT = {
    'len': b_len, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr, 'delattr': b_delattr,
    'isinstance': b_isinstance, 'issubclass': b_issubclass, 'sorted': b_sorted, 'min': b_minmax('min'),
    'max': b_minmax('max'), 'sum': b_sum, 'map': b_map, 'filter': b_filter, 'zip': b_zip, 'enumerate': b_enumerate,
    'range': b_range, 'any': b_anyall('any'), 'all': b_anyall('all'), 'reversed': b_reversed, 'iter': b_iter,
    'next': b_next, 'divmod': b_divmod, 'print': b_print, 'property': b_property, 'super': b_super, 'abs': b_abs,
    'callable': b_callable, 'vars': b_vars, 'repr': b_repr,
    'staticmethod': lambda I, st, a, k: [(st, StaticM(a[0]))],
    'classmethod': lambda I, st, a, k: [(st, ClassM(a[0]))],
    'id': lambda I, st, a, k: [(st, Fn('id', (a[0],), 'int'))],
    'hash': lambda I, st, a, k: [(st, Fn('hash', (a[0],), 'int'))],
    'format': lambda I, st, a, k: fmt_value(I, st, a[0], a[1] if len(a) > 1 else Const('')),
    'ord': lambda I, st, a, k: [(st, Const(ord(a[0].v)) if isinstance(a[0], Const) else Fn('ord', (a[0],), 'int'))],
    'chr': lambda I, st, a, k: [(st, Const(chr(a[0].v)) if isinstance(a[0], Const) else Fn('chr', (a[0],), 'str'))],
    'round': lambda I, st, a, k: [(st, a[0])],
    'dir': lambda I, st, a, k: [(st, Fn('dir', tuple(a), 'any'))],
}


def decorate(I, st, dec, f):
    """[(st, value)] of dec(f)"""
    if isinstance(dec, Builtin):
        if dec.name in ('property', 'cached_property'):
            return [(st, Prop(f))]
        if dec.name == 'staticmethod':
            return [(st, StaticM(f))]
        if dec.name == 'classmethod':
            return [(st, ClassM(f))]
        if dec.name in ('lru_cache', 'cache', 'wraps', 'abstractmethod', 'contextmanager', 'unique', 'final', 'override'):
            return [(st, f)]
        if dec.name == 'total_ordering':
            st.mut(f.a).ns['$total'] = TRUE
            return [(st, f)]
    if isinstance(dec, Fn) and dec.op == 'decorator':
        return [(st, f)]
    return I.call(st, dec, [f], {})
