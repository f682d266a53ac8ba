"""Model of Python strings over provenance terms."""
import re
import string
import sys

from .dom import *
from .state import is_opt

try:
    import re._parser as sre_parse
except ImportError:                      # older interpreters
    import sre_parse

STR_METHODS = {m for m in dir(str) if not m.startswith('_')} | {
    '__len__', '__contains__', '__getitem__', '__add__', '__mul__', '__mod__', '__eq__', '__str__', '__format__',
    '__class__', '__iter__', '__lt__'}
WS = ' \t\n\r\x0b\x0c'
LB = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


def fl(v):
    return v.flags if isinstance(v, Sym) else frozenset()


def part_terms(v):
    return [Const(p) if isinstance(p, str) else p for p in parts_of(v)]


def atom_lacks(p, ch):
    """True when atom p provably does not contain any of the characters ch."""
    if isinstance(p, str):
        return not any(c in p for c in ch)
    if isinstance(p, Const):
        return isinstance(p.v, str) and atom_lacks(p.v, ch)
    if isinstance(p, Str):
        return all(atom_lacks(q, ch) for q in p.parts)
    if isinstance(p, Sym):
        f = p.flags
        ok = set()
        if FLAG_NONL in f:
            ok |= set(LB)
        if FLAG_NOANSI in f:
            ok.add('\x1b')
        if FLAG_NOBRACE in f:
            ok |= set('{}')
        if FLAG_WORD in f:
            ok |= set(LB + WS + '\x1b{}')
        if FLAG_BRACE in f:
            ok -= set('{}%\\')
        for x in f:
            if isinstance(x, str) and x.startswith('lack:'):
                ok |= set(x[5:])
        return all(c in ok for c in ch)
    if isinstance(p, Fn):
        op = p.op
        if op == 'int->str':
            return not any(c in '-0123456789' for c in ch)
        if op == 'none->str':
            return not any(c in 'None' for c in ch)
        if op == 'expandtabs':
            return all(c == '\t' or (c != ' ' and atom_lacks(p.args[0], c)) for c in ch)
        if op == 'urlclean':
            return all(c in '\t\r\n' or atom_lacks(p.args[0], c) for c in ch)
        if op.startswith('url.') and all(c in '\t\r\n' for c in ch):
            return True
        if op == 'nl?':
            return '\n' not in ch and '\r' not in ch
        if op == 'rep':
            return atom_lacks(p.args[0], ch)
        if op in ('strip', 'lstrip', 'rstrip', 'slice', 'stripansi', 'idx', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'take', 'drop'):
            if op == 'stripansi' and ch == '\x1b':
                return True
            if op in ('strip', 'lstrip', 'rstrip', 'slice', 'stripansi', 'removeprefix', 'removesuffix', 'take', 'drop'):
                return atom_lacks(p.args[0], ch)
        if op in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'casefold'):
            return all(not c.isalpha() for c in ch) and atom_lacks(p.args[0], ch)
        if op in ('center', 'ljust', 'rjust'):
            return atom_lacks(p.args[0], ch) and atom_lacks(p.args[2], ch)
        if op == 'elem' or op == 'idx' or op == 'chr':
            src = p.args[0]
            if isinstance(src, Fn):
                if src.op == 'split' and isinstance(src.args[1], Const) and isinstance(src.args[1].v, str) \
                        and len(src.args[1].v) == 1 and all(c == src.args[1].v or atom_lacks(src.args[0], c) for c in ch):
                    return True
                if src.op == 'wssplit' and all(c in WS or atom_lacks(src.args[0], c) for c in ch):
                    return True
                if src.op == 'splitlines' and all(c in LB or atom_lacks(src.args[0], c) for c in ch):
                    return True
                if src.op == 'wraplines' and all(c in LB or c == '\t' or atom_lacks(src.args[0], c) for c in ch):
                    return True
                if src.op in ('re.split', 're.findall') and len(src.args) >= 2:
                    return atom_lacks(src.args[1], ch)
                if src.op == 'chars':
                    return atom_lacks(src.args[0], ch)
                if src.op == 'reversed':
                    return atom_lacks(Fn(op, (src.args[0],) + p.args[1:], p.kind), ch)
            return False
        if op == 'join':
            return atom_lacks(p.args[0], ch) and all(
                all(atom_lacks(x, ch) for a in s.alts for x in a) if isinstance(s, Many) else atom_lacks(s, ch)
                for s in p.args[1].items)
        if op == 'replace':
            old, new = p.args[1], p.args[2]
            if isinstance(old, Const) and isinstance(new, Const):
                return all((c == old.v or atom_lacks(p.args[0], c)) and c not in new.v for c in ch)
            return False
        if op == 're.sub':
            pat, rep = p.args[0], p.args[1]
            if isinstance(rep, Const) and isinstance(rep.v, str) and not any(c in rep.v for c in ch):
                return all(atom_lacks(p.args[2], c) or regex_removes(pat, c) for c in ch)
            return False
        if op == 'translate':
            t = p.args[1]
            return all(atom_lacks(p.args[0], c) or (Const(ord(c)) in translate_removed(t)) for c in ch)
        if op == 'quote':
            return not any(c in ' \t\n\r{}"\x1b\\' for c in ch) or atom_lacks(p.args[0], ch)
    return False


def translate_removed(t):
    return t.args if isinstance(t, Fn) and t.op == 'transtable' else ()


def regex_removes(pat, ch):
    """Every occurrence of character ch is matched by the pattern (as part of
    a one-or-more / single character class), so sub() deletes it."""
    try:
        p = sre_parse.parse(pat.args[0].v, pat.args[1].v)
    except Exception:
        return False
    items = list(p)

    def cls_has(x):
        op, av = x
        o = str(op)
        if o == 'LITERAL':
            return av == ord(ch)
        if o == 'ANY':
            return ch != '\n'
        if o == 'IN':
            neg = False
            hit = False
            for q, a in av:
                q = str(q)
                if q == 'NEGATE':
                    neg = True
                elif q == 'LITERAL':
                    hit |= a == ord(ch)
                elif q == 'RANGE':
                    hit |= a[0] <= ord(ch) <= a[1]
                elif q == 'CATEGORY':
                    hit |= cat_has(str(a), ch)
            return hit != neg
        if o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = av
            return lo <= 1 and len(list(sub)) == 1 and cls_has(list(sub)[0])
        if o == 'SUBPATTERN':
            return len(list(av[3])) == 1 and cls_has(list(av[3])[0])
        if o == 'BRANCH':
            return any(len(list(b)) == 1 and cls_has(list(b)[0]) for b in av[1])
        return False
    # one required item containing ch; the others optional
    need = [x for x in items if not (str(x[0]).endswith('REPEAT') and x[1][0] == 0)]
    if not need:
        return len(items) == 1 and cls_has(items[0])
    return len(need) == 1 and cls_has(need[0])


def cat_has(cat, ch):
    if cat == 'CATEGORY_SPACE':
        return ch.isspace()
    if cat == 'CATEGORY_NOT_SPACE':
        return not ch.isspace()
    if cat == 'CATEGORY_DIGIT':
        return ch.isdigit()
    if cat == 'CATEGORY_NOT_DIGIT':
        return not ch.isdigit()
    if cat == 'CATEGORY_WORD':
        return ch.isalnum() or ch == '_'
    return False


def is_ansi_regex(pat, flags):
    """Structurally ESC '[' (digits or ;)* 'm'."""
    try:
        items = [(str(a), b) for a, b in sre_parse.parse(pat, flags)]
    except Exception:
        return False
    while len(items) == 1 and items[0][0] == 'SUBPATTERN':
        items = [(str(a), b) for a, b in items[0][1][3]]
    if len(items) != 4 or items[0] != ('LITERAL', 27) or items[1] != ('LITERAL', 91) or items[3] != ('LITERAL', 109):
        return False
    if not items[2][0].endswith('REPEAT'):
        return False
    lo, hi, sub = items[2][1]
    sub = list(sub)
    if lo != 0 or hi < 1000 or len(sub) != 1:
        return False
    acc = set()
    op, av = sub[0]
    if str(op) != 'IN':
        return False
    for q, a in av:
        q = str(q)
        if q == 'LITERAL':
            acc.add(chr(a))
        elif q == 'RANGE':
            acc |= {chr(i) for i in range(a[0], min(a[1], 255) + 1)}
        elif q == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT':
            acc |= set('0123456789')
        else:
            return False
    return acc >= set(';0123456789') and not acc & set('m[\x1b')


# ---------------------------------------------------------------- lengths
def slen(v):
    """len(v) as a linear term."""
    tot = Const(0)
    for p in part_terms(v):
        tot = ladd(tot, _alen(p, 'len'))
    return tot


def vlen(v):
    """Visible length (ANSI sequences removed)."""
    return slen(strip_ansi(v))


def _alen(p, op):
    if isinstance(p, Const):
        return Const(len(p.v))
    if isinstance(p, Fn):
        if p.op == 'rep':
            n = p.args[1]
            r = lmul(slen(p.args[0]), n)
            return r if r is not None else Fn('len', (p,), 'int')
        if p.op == 'stripansi':
            return _vatom(p.args[0])
        if p.op == 'take':
            return p.args[1]
        if p.op == 'drop':
            return ladd(slen(p.args[0]), p.args[1], -1)
        if p.op in ('upper', 'lower', 'swapcase'):
            return slen(p.args[0])
    return Fn('len', (p,), 'int')


def _vatom(p):
    return Fn('vlen', (p,), 'int')


def strip_ansi(v):
    out = []
    lits = ''.join(p for p in parts_of(v) if isinstance(p, str))
    for p in parts_of(v):
        if isinstance(p, str):
            out.append(ANSI.sub('', p))
        elif atom_lacks(p, '\x1b'):
            out.append(p)
        elif isinstance(p, Fn) and p.op == 'rep' and atom_lacks(p.args[0], '\x1b'):
            out.append(p)
        elif isinstance(p, Fn) and p.op == 'stripansi':
            out.append(p)
        elif isinstance(p, Fn) and p.op == 'ansi':
            continue
        else:
            out.append(Fn('stripansi', (p,), 'str'))
    # an escape assembled from several pieces: ESC[ <digits> m
    if '\x1b' in lits:
        return _strip_joined(v)
    return mkstr(out)


def _strip_joined(v):
    """Strip escapes whose parameter is a symbolic number."""
    s, atoms = encode(v)
    num = ''.join(re.escape(c) for c, a in atoms.items() if isinstance(a, Fn) and a.op == 'int->str')
    s = re.sub('\x1b\\[[;0-9%s]*m' % num, '', s)
    out = []
    for p in parts_of(decode(s, atoms)):
        if isinstance(p, str) or atom_lacks(p, '\x1b') or (isinstance(p, Fn) and p.op == 'stripansi'):
            out.append(p)
        else:
            out.append(Fn('stripansi', (p,), 'str'))
    return mkstr(out)


# ---------------------------------------------------------------- encoding
def encode(v, table=None):
    """Replace atoms by private-use characters so that Python's own string
    scanning can be applied to the literal skeleton."""
    table = {} if table is None else table
    rev = {a: c for c, a in table.items()}
    out = []
    for p in parts_of(v):
        if isinstance(p, str):
            out.append(p)
        else:
            c = rev.get(p)
            if c is None:
                c = chr(0xF0000 + len(table))
                table[c] = p
                rev[p] = c
            out.append(c)
    return ''.join(out), table


def decode(s, table):
    out, cur = [], ''
    for c in s:
        if c in table:
            if cur:
                out.append(cur)
                cur = ''
            out.append(table[c])
        else:
            cur += c
    if cur:
        out.append(cur)
    return mkstr(out)


# ---------------------------------------------------------------- to str
def to_str(I, st, v):
    """[(st, str-term)] of str(v)."""
    v = st.resolve(v)
    if isinstance(v, Union):
        return [r for s, x in I.expand(st, v) for r in to_str(I, s, x)]
    if is_opt(v) and not st.known_none(v):
        out = []
        for s, b in I.split(st, Fn('isnone', (v,), 'bool')):
            out.append((s, NONESTR) if b else (s, _tostr1(v)))
        return out
    if st.known_none(v):
        return [(st, NONESTR)]
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, InstO):
            for nm in ('__str__', '__repr__'):
                f = I.mro_find(st, o.cls, nm)
                if f and isinstance(f[0], Func):
                    return I.call(st, Bound(f[0], v), [], {})
            if isinstance(o.data, tuple) and o.data and o.data[0] == 'exc':
                a = o.attrs.get('args')
                if isinstance(a, Tup) and len(a.items) == 1:
                    return to_str(I, st, a.items[0])
    return [(st, _tostr1(v))]


def _tostr1(v):
    if is_str(v):
        return v
    if isinstance(v, Const):
        if v.v is None:
            return NONESTR
        return Const(str(v.v))
    if is_int(v) and kind(v) == 'int':
        return Fn('int->str', (v,), 'str')
    return Fn('str', (v,), 'str')


def fmt_value(I, st, v, spec):
    spec = spec if is_str(spec) else Const('')
    if isinstance(spec, Const) and spec.v == '':
        o = st.obj(v)
        if isinstance(o, InstO):
            f = I.mro_find(st, o.cls, '__format__')
            if f and isinstance(f[0], Func):
                return I.call(st, Bound(f[0], v), [spec], {})
        return to_str(I, st, v)
    if isinstance(spec, Const) and isinstance(v, Const) and isinstance(v.v, (int, str, float)):
        try:
            return [(st, Const(format(v.v, spec.v)))]
        except ValueError as e:
            return I.raise_(st, 'ValueError', str(e))
    s, tab = encode(spec)
    m = re.fullmatch(r'(?s)(?:(.)?([<>^=]))?([-+ ]?)(0?)([0-9]+|[%s])?(?:\.([0-9]+|[%s]))?([a-zA-Z%%]?)' % (
        ''.join(tab) or '0', ''.join(tab) or '0'), s)
    if not m:
        return [(st, Fn('format', (v, spec), 'str'))]
    fill, align, sign, zero, width, prec, ty = m.groups()

    def num(x):
        if x in tab:
            a = tab[x]
            return a.args[0] if isinstance(a, Fn) and a.op == 'int->str' else Fn('int', (a,), 'int')
        return Const(int(x))
    out = []
    for s1, t in to_str(I, st, v):
        if prec is not None and not is_int(v):
            t = Fn('slice', (t, NONE, num(prec)), 'str') if not isinstance(t, Const) else t
        if width is not None:
            align2 = align or ('>' if is_int(v) else '<')
            f = tab.get(fill, Const(fill or (zero and '0') or ' '))
            out += str_method(I, s1, t, {'<': 'ljust', '>': 'rjust', '^': 'center', '=': 'rjust'}[align2], [num(width), f], {})
        else:
            out.append((s1, t))
    return out


def do_format(I, st, tmpl, args, kw, mapping=None):
    """template.format(*args, **kw)"""
    skel, tab = encode(tmpl)
    unsafe = [a for a in tab.values() if not atom_lacks(a, '{}')]
    if unsafe:
        st.event('format', tmpl, tuple(unsafe), I.where(), I.trace(st))
        return [(st, Fn('format', (tmpl, Tup(tuple(args)), Tup(tuple(Tup((Const(k), v)) for k, v in sorted(kw.items())))), 'str'))]
    try:
        fields = list(string.Formatter().parse(skel))
    except ValueError as e:
        return I.raise_(st, 'ValueError', str(e))
    res = [(st, [])]
    auto = 0
    for lit, name, spec, conv in fields:
        if lit:
            d = decode(lit, tab)
            res = [(s, acc + [d]) for s, acc in res]
        if name is None:
            continue
        m = re.match(r'[^.\[]*', name)
        key, rest = m.group(0), name[m.end():]
        if key == '':
            key = str(auto)
            auto += 1
        nxt = []
        for s, acc in res:
            if key.isdigit():
                if int(key) < len(args):
                    vals = [(s, args[int(key)])]
                else:
                    vals = I.raise_(s, 'IndexError', 'Replacement index %s out of range for positional args tuple' % key)
            elif any(c in tab for c in key):
                vals = [(s, Fn('field', (decode(key, tab),), 'str'))]
            elif mapping is not None:
                vals = I.lib.getitem(I, s, mapping, Const(key))
            elif key in kw:
                vals = [(s, kw[key])]
            elif '**' in kw:
                vals = [(s, Fn('item', (kw['**'], Const(key)), 'any'))]
            else:
                vals = I.raise_(s, 'KeyError', key)
            for a, i in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
                n2 = []
                for s1, v in vals:
                    if a:
                        n2 += I.getattr_(s1, v, a)
                    else:
                        n2 += I.lib.getitem(I, s1, v, Const(int(i)) if i.isdigit() else Const(i))
                vals = n2
            for s1, v in vals:
                if conv == 'r':
                    nxt.append((s1, acc + [Const(repr(v.v)) if isinstance(v, Const) else Fn('repr', (v,), 'str')]))
                    continue
                # a nested replacement inside the format spec
                specs = do_format(I, s1, decode(spec, tab), args, kw) if spec and '{' in spec else [(s1, decode(spec or '', tab))]
                for s2, sp in specs:
                    for s3, t in fmt_value(I, s2, v, sp):
                        nxt.append((s3, acc + [t]))
        res = nxt
    return [(s, mkstr(acc)) for s, acc in res]


def do_percent(I, st, tmpl, arg):
    skel, tab = encode(tmpl)
    unsafe = [a for a in tab.values() if not atom_lacks(a, '%')]
    if unsafe:
        st.event('format', tmpl, tuple(unsafe), I.where(), I.trace(st))
    items = list(arg.items) if isinstance(arg, Tup) else [arg]
    out = [(st, [])]
    pos = 0
    i = 0
    mapping = None
    o = st.obj(arg)
    if isinstance(o, DictO) or (isinstance(o, InstO) and isinstance(o.data, DictO)):
        mapping = arg
    for m in re.finditer(r'%(?:\(([^)]*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])', skel):
        lit = decode(skel[pos:m.start()], tab)
        pos = m.end()
        out = [(s, acc + [lit]) for s, acc in out]
        name, flags, width, prec, ty = m.groups()
        if ty == '%':
            out = [(s, acc + [Const('%')]) for s, acc in out]
            continue
        w = None
        if width == '*':
            w = items[i]
            i += 1
        elif width:
            w = Const(int(width))
        nxt = []
        for s, acc in out:
            if name is not None:
                vals = I.lib.getitem(I, s, mapping or arg, Const(name))
            elif i < len(items):
                vals = [(s, items[i])]
            else:
                vals = I.raise_(s, 'TypeError', 'not enough arguments for format string')
            for s1, v in vals:
                if ty == 'r':
                    ts = [(s1, Fn('repr', (v,), 'str'))]
                else:
                    ts = to_str(I, s1, v)
                for s2, t in ts:
                    if w is not None:
                        for s3, t2 in str_method(I, s2, t, 'ljust' if '-' in flags else 'rjust', [w, Const('0' if '0' in flags else ' ')], {}):
                            nxt.append((s3, acc + [t2]))
                    else:
                        nxt.append((s2, acc + [t]))
        if name is None:
            i += 1
        out = nxt
    tail = decode(skel[pos:], tab)
    return [(s, mkstr(acc + [tail])) for s, acc in out]


# ---------------------------------------------------------------- splitting
def ws_split(I, st, v):
    """Segments of v.split()."""
    groups, cur = [], []
    for p in parts_of(v):
        if isinstance(p, str):
            for b in re.split('(\\s+)', p):
                if not b:
                    continue
                if b.isspace():
                    groups.append(cur)
                    cur = []
                else:
                    cur.append(b)
        else:
            cur.append(p)
    groups.append(cur)
    out = []
    for g in groups:
        if not g:
            continue
        if all(isinstance(p, str) or all(atom_lacks(p, c) for c in WS) for p in g) and any(isinstance(p, str) or I.nonempty(st, p) for p in g):
            out.append(mkstr(g))
        else:
            src = Fn('wssplit', (mkstr(g),))
            out.append(Many(((Fn('elem', (src,), 'str'),),), src))
    return tuple(out)


def split_on(I, st, v, sep):
    """[(st, segs)] of v.split(sep) for a constant one-character separator."""
    if isinstance(v, Const):
        return [(st, tuple(Const(x) for x in v.v.split(sep)))]
    src = Fn('split', (v, Const(sep)))
    opaque = (Many(((Fn('elem', (src,), 'str'),),), src),)
    parts = parts_of(v)
    # each part either lacks sep, or is a literal, or is sep.join(list)
    lines, cur = [], []
    states = [(st, lines, cur)]

    def joinable(p):
        return isinstance(p, Fn) and p.op == 'join' and isinstance(p.args[0], Const)
    for idx, p in enumerate(parts):
        if isinstance(p, str):
            pieces = p.split(sep)
            for j, (s, ls, c) in enumerate(states):
                c = c + [pieces[0]]
                for q in pieces[1:]:
                    ls = ls + [mkstr(c)]
                    c = [q]
                states[j] = (s, ls, c)
        elif atom_lacks(p, sep):
            states = [(s, ls, c + [p]) for s, ls, c in states]
        elif joinable(p) and p.args[0].v == sep:
            segs = p.args[1].items
            if not all(_seg_lacks(x, sep) for x in segs):
                return [(st, opaque)]
            if not _at_line_start(parts, idx, sep) or not _at_line_end(parts, idx, sep):
                # the first/last line of the join continues on neighbouring text
                if isinstance(segs[0], Many) and not _at_line_start(parts, idx, sep):
                    return [(st, opaque)]
                if isinstance(segs[-1], Many) and not _at_line_end(parts, idx, sep):
                    return [(st, opaque)]
            nxt = []
            for s, ls, c in states:
                cases = [(s, True)]
                if all(isinstance(x, Many) for x in segs) and not any(I.lib.many_nonempty(I, s, x) for x in segs):
                    cases = I.truth(s, I.cmp_lin('>', I.lib.len_segs(I, s, segs), ZERO))
                for s2, ne in cases:
                    if not ne:
                        nxt.append((s2, ls, c))
                        continue
                    l2, c2 = list(ls), list(c)
                    for k, x in enumerate(segs):
                        if k:
                            if c2 is not None:
                                l2.append(mkstr(c2))
                            c2 = []
                        if isinstance(x, Many):
                            l2.append(x)
                            c2 = None
                        else:
                            c2 = (c2 or []) + [x]
                    nxt.append((s2, l2, c2))
            # c2 None: the join ended in a Many; next literal must begin with sep
            fixed = []
            last = idx == len(parts) - 1
            for s, ls, c in nxt:
                if c is None and not last:
                    c = _Eat()
                fixed.append((s, ls, c))
            states = fixed
            # consume following separator directly
            if not last and any(isinstance(c, _Eat) for _, _, c in states):
                nl = parts[idx + 1]
                if not (isinstance(nl, str) and nl.startswith(sep)):
                    return [(st, opaque)]
                rest = nl[len(sep):]
                pieces = rest.split(sep)
                done = []
                for s, ls, c in states:
                    if isinstance(c, _Eat):
                        c = [pieces[0]]
                        for q in pieces[1:]:
                            ls = ls + [mkstr(c)]
                            c = [q]
                    else:
                        c = c + [nl.split(sep)[0]]
                        for q in nl.split(sep)[1:]:
                            ls = ls + [mkstr(c)]
                            c = [q]
                    done.append((s, ls, c))
                # process remaining parts recursively by rebuilding
                out = []
                for s, ls, c in done:
                    tail = mkstr(list(c) + list(parts[idx + 2:]))
                    for s2, segs2 in split_on(I, s, tail, sep):
                        out.append((s2, tuple(ls) + tuple(segs2)))
                return out
        elif joinable(p) and sep not in p.args[0].v and all(_seg_lacks(x, sep) for x in p.args[1].items):
            states = [(s, ls, c + [p]) for s, ls, c in states]
        elif joinable(p) and p.args[0].v == '' and len(p.args[1].items) == 1 and isinstance(p.args[1].items[0], Many) \
                and _terminated(p.args[1].items[0], sep) and _at_line_start(parts, idx, sep):
            m = p.args[1].items[0]
            m2 = Many(tuple(tuple(q for x in a for q in _unterminate(x, sep)) for a in m.alts), m.src, m.lo, m.hi)
            states = [(s, ls + [m2], c) for s, ls, c in states]
        else:
            return [(st, opaque)]
    return [(s, tuple(ls) + ((mkstr(c),) if c is not None else ())) for s, ls, c in states]


class _Eat(list):
    pass


def _seg_lacks(x, sep):
    if isinstance(x, Many):
        return all(atom_lacks(y, sep) for a in x.alts for y in a)
    return atom_lacks(x, sep)


def _terminated(m, sep):
    for a in m.alts:
        for x in a:
            ps = parts_of(x)
            if not ps or not isinstance(ps[-1], str) or not ps[-1].endswith(sep):
                return False
            if not atom_lacks(mkstr(list(ps[:-1]) + [ps[-1][:-len(sep)]]), sep):
                return False
    return True


def _unterminate(x, sep):
    ps = parts_of(x)
    return [mkstr(list(ps[:-1]) + [ps[-1][:-len(sep)]])]


def _at_line_start(parts, i, sep):
    return i == 0 or (isinstance(parts[i - 1], str) and parts[i - 1].endswith(sep))


def _at_line_end(parts, i, sep):
    return i == len(parts) - 1 or (isinstance(parts[i + 1], str) and parts[i + 1].startswith(sep))


def splitlines(I, st, v, keep):
    if isinstance(v, Const):
        return [(st, tuple(Const(x) for x in v.v.splitlines(keep)))]
    src = Fn('splitlines', (v,))
    e = Fn('elem', (src,), 'str')
    opaque = (Many(((mkstr([e, OPTNL]) if keep else e,),), src),)
    # exact when the text is made of complete known lines
    ps = parts_of(v)
    if all(isinstance(p, str) or atom_lacks(p, LB) and not (isinstance(p, Fn) and p.op == 'join') for p in ps) \
            and any(c in p for p in ps if isinstance(p, str) for c in LB[1:]) and isinstance(ps[-1], str):
        # other line boundaries than \n: the atoms stand between them like letters
        atoms, src_ = [], ''
        for p in ps:
            if isinstance(p, str) and any(0xf0000 <= ord(c) for c in p):
                return [(st, opaque)]
            if not isinstance(p, str):
                atoms.append(p)
            src_ += p if isinstance(p, str) else chr(0xf0000 + len(atoms) - 1)
        return [(st, tuple(mkstr([c if ord(c) < 0xf0000 else atoms[ord(c) - 0xf0000] for c in l]) for l in src_.splitlines(keep)))]
    for p in ps:
        if isinstance(p, str):
            if any(c in p for c in LB[1:]):
                return [(st, opaque)]
        elif not atom_lacks(p, LB) and not (isinstance(p, Fn) and p.op == 'join'):
            return [(st, opaque)]
    out = []
    for s, segs in split_on(I, st, v, '\n'):
        if any(isinstance(x, Many) and x.src == Fn('split', (v, Const('\n'))) for x in segs):
            return [(st, opaque)]
        segs = list(segs)
        # a trailing newline does not open a further line
        cases = [(s, segs, False)]
        last = segs[-1] if segs else None
        if isinstance(last, Const) and last.v == '':
            cases = [(s, segs[:-1], True)]
        elif last is not None and not isinstance(last, Many) and not any(isinstance(p, str) for p in parts_of(last)) \
                and not I.nonempty(s, last):
            cases = []
            for s2, ne in I.truth(s, last):
                cases.append((s2, segs if ne else segs[:-1], not ne))
        for s2, sg, closed in cases:
            if keep:
                r = []
                for k, x in enumerate(sg):
                    final = k == len(sg) - 1 and not closed
                    if isinstance(x, Many):
                        if final:
                            r.append(Many(tuple(tuple(mkstr([y, OPTNL]) for y in a) for a in x.alts), x.src, x.lo, x.hi))
                        else:
                            r.append(Many(tuple(tuple(mkstr([y, '\n']) for y in a) for a in x.alts), x.src, x.lo, x.hi))
                    else:
                        r.append(x if final else mkstr([x, '\n']))
                sg = r
            out.append((s2, tuple(sg)))
    return out


# ---------------------------------------------------------------- strip
def do_strip(I, st, v, chars, side):
    """[(st, term)] ; side in strip/lstrip/rstrip."""
    cs = None if chars is None or chars == NONE else chars
    if cs is not None and not isinstance(cs, Const):
        return [(st, Fn(side, (v, cs), 'str'))]
    if isinstance(v, Const):
        return [(st, Const(getattr(v.v, side)(cs.v if cs else None)))]
    parts = list(parts_of(v))
    set_ = cs.v if cs else WS + '\x1c\x1d\x1e\x1f\x85\xa0'

    def settle(ps, left):
        """strip literals at one end; returns (parts, needs_wrapper)"""
        while ps:
            p = ps[0] if left else ps[-1]
            if isinstance(p, str):
                q = p.lstrip(cs.v if cs else None) if left else p.rstrip(cs.v if cs else None)
                if q:
                    ps[0 if left else -1] = q
                    return ps, False
                ps.pop(0 if left else -1)
                continue
            if p == OPTNL and '\n' in set_:
                ps.pop(0 if left else -1)
                continue
            if isinstance(p, Fn) and p.op == 'rep' and isinstance(p.args[0], Const) and all(c in set_ for c in p.args[0].v):
                ps.pop(0 if left else -1)
                continue
            if isinstance(p, Fn) and p.op == 'int->str' and not any(c in set_ for c in '-0123456789'):
                return ps, False
            if atom_lacks(p, cs.v if cs else WS) and I.nonempty(st, p):
                return ps, False
            if isinstance(p, Fn) and p.op in ('strip', 'lstrip' if left else 'rstrip') and len(p.args) == 2 and p.args[1] == (cs or NONE) \
                    and I.nonempty(st, p):
                return ps, False
            return ps, True
        return ps, False
    l = r = False
    if side in ('strip', 'lstrip'):
        parts, l = settle(parts, True)
    if side in ('strip', 'rstrip'):
        parts, r = settle(parts, False)
    t = mkstr(parts)
    if not (l or r):
        return [(st, t)]
    if atom_lacks(t, set_):
        return [(st, t)]
    op = 'strip' if l and r else ('lstrip' if l else 'rstrip')
    if isinstance(t, Fn) and t.op == op and t.args[1] == (cs or NONE):
        return [(st, t)]
    if isinstance(t, Fn) and t.op == 'strip' and t.args[1] == (cs or NONE):
        return [(st, t)]
    return [(st, Fn(op, (t, cs or NONE), 'str'))]


CASE = {'upper', 'lower', 'swapcase', 'casefold'}
PRED = {'isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'istitle',
        'isidentifier', 'isprintable', 'isascii'}


def str_method(I, st, v, name, args, kw):
    """[(st, result)] of calling a str method on a str term."""
    v = st.resolve(v)
    args = [st.resolve(a) for a in args]
    for i, a in enumerate(args):
        if isinstance(a, Union):
            return [r for s, x in I.expand(st, a) for r in str_method(I, s, v, name, args[:i] + [x] + args[i + 1:], kw)]
    L = I.lib
    if name == 'format':
        return do_format(I, st, v, args, kw)
    if name == 'format_map':
        return do_format(I, st, v, [], {}, mapping=args[0])
    if name in ('__format__',):
        return fmt_value(I, st, v, args[0])
    if name in ('__str__',):
        return [(st, v)]
    if name == 'join':
        out = []
        for s, segs in L.iter_segs(I, st, args[0]):
            for x in segs:
                for y in ([y for a in x.alts for y in a] if isinstance(x, Many) else [x]):
                    if not is_str(y) and (isinstance(y, (Const, Ref, Tup, Lin)) or is_int(y)):
                        I.raise_(s, 'TypeError', 'sequence item: expected str instance, %s found' % kind(y))
                        break
                else:
                    continue
                break
            else:
                out.append((s, mkjoin(v, segs)))
        return out
    if isinstance(v, Const) and all(isinstance(a, Const) for a in args) and all(isinstance(a, Const) for a in kw.values()) \
            and name not in ('join', 'maketrans'):
        try:
            r = getattr(v.v, name)(*[a.v for a in args], **{k: a.v for k, a in kw.items()})
        except Exception as e:
            return I.raise_(st, type(e).__name__ if type(e).__name__ in I.classes else 'TypeError', str(e))
        return [(st, wrap_py(st, r))]
    if name == 'split':
        sep = args[0] if args else kw.get('sep', NONE)
        mx = args[1] if len(args) > 1 else kw.get('maxsplit', Const(-1))
        if mx == Const(-1) and isinstance(sep, Const) and isinstance(sep.v, str) and len(sep.v) == 1:
            return [(s, s.alloc(ListO(segs))) for s, segs in split_on(I, st, v, sep.v)]
        if sep == NONE and mx == Const(-1):
            return [(st, st.alloc(ListO(ws_split(I, st, v))))]
        src = Fn('wssplit', (v,)) if sep == NONE else Fn('split', (v, sep) if mx == Const(-1) else (v, sep, mx))
        return [(st, st.alloc(ListO((Many(((Fn('elem', (src,), 'str'),),), src),))))]
    if name == 'rsplit':
        sep = args[0] if args else kw.get('sep', NONE)
        src = Fn('rsplit', (v, sep) + tuple(args[1:]))
        return [(st, st.alloc(ListO((Many(((Fn('elem', (src,), 'str'),),), src),))))]
    if name == 'splitlines':
        k = args[0] if args else kw.get('keepends', FALSE)
        out = []
        for s, b in I.truth(st, k):
            for s2, segs in splitlines(I, s, v, b):
                out.append((s2, s2.alloc(ListO(segs))))
        return out
    if name in ('strip', 'lstrip', 'rstrip'):
        return do_strip(I, st, v, args[0] if args else None, name)
    if name in CASE:
        out = []
        for p in parts_of(v):
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif isinstance(p, Fn) and (p.op in ('int->str', 'nl?') or p.op == name):
                out.append(p)
            elif isinstance(p, Fn) and p.op == 'rep' and isinstance(p.args[0], Const):
                out.append(mkrep(Const(getattr(p.args[0].v, name)()), p.args[1]))
            else:
                out.append(Fn(name, (p,), 'str'))
        return [(st, mkstr(out))]
    if name in ('capitalize', 'title'):
        return [(st, Fn(name, (v,), 'str'))]
    if name in ('center', 'ljust', 'rjust'):
        w = args[0] if args else kw.get('width')
        f = args[1] if len(args) > 1 else kw.get('fillchar', Const(' '))
        return [(st, Fn(name, (v, w, f), 'str'))]
    if name == 'zfill':
        return [(st, Fn('rjust', (v, args[0], Const('0')), 'str'))]
    if name == 'replace':
        if isinstance(args[0], Const) and args[0].v and len(args) == 2:
            old, new = args[0].v, args[1]
            if len(old) == 1:
                out = []
                for p in parts_of(v):
                    if isinstance(p, str):
                        bits = p.split(old)
                        for k, b in enumerate(bits):
                            if k:
                                out.append(new)
                            out.append(b)
                    elif atom_lacks(p, old):
                        out.append(p)
                    else:
                        out.append(Fn('replace', (p, args[0], new), 'str'))
                return [(st, mkstr(out))]
            if all(atom_lacks(p, old[0]) for p in parts_of(v)):
                return [(st, v)]
        return [(st, Fn('replace', (v,) + tuple(args), 'str'))]
    if name in ('startswith', 'endswith'):
        return starts(I, st, v, name, args)
    if name in ('partition', 'rpartition'):
        return [(st, partition(v, args[0], name))]
    if name in ('find', 'rfind', 'index', 'rindex', 'count'):
        if isinstance(args[0], Const) and atom_lacks(v, args[0].v[:1] or 'x'):
            if name in ('find', 'rfind'):
                return [(st, Const(-1))]
            if name == 'count':
                return [(st, ZERO)]
        if len(args) == 1 and is_str(args[0]):
            out = []
            pos = Fn('s' + name, (v,) + tuple(args), 'int')
            for s2, b in I.truth(st, contains(I, st, v, args[0])):
                if b:
                    I.assume_cmp(s2, '>' if name == 'count' else '>=', pos, ZERO)
                    out.append((s2, pos))
                elif name in ('index', 'rindex'):
                    I.raise_(s2, 'ValueError', 'substring not found')
                else:
                    out.append((s2, ZERO if name == 'count' else Const(-1)))
            return out
        if name in ('index', 'rindex'):
            I.raise_(st.copy(), 'ValueError', 'substring not found')
        return [(st, Fn('s' + name, (v,) + tuple(args), 'int'))]
    if name in PRED:
        if isinstance(v, Str) and name == 'isspace' and any(isinstance(p, str) and p.strip() for p in v.parts):
            return [(st, FALSE)]
        return [(st, Fn(name, (v,), 'bool'))]
    if name in ('removeprefix', 'removesuffix'):
        out = []
        for s, r in starts(I, st, v, 'startswith' if name == 'removeprefix' else 'endswith', args):
            for s2, b in I.truth(s, r):
                if not b:
                    out.append((s2, v))
                else:
                    n = slen(args[0])
                    out += [(s3, x) for s3, x in (getslice(I, s2, v, n, NONE, NONE) if name == 'removeprefix'
                                                  else getslice(I, s2, v, NONE, lmul(n, Const(-1)), NONE))]
        return out
    if name == 'expandtabs':
        return [(st, v if atom_lacks(v, '\t') else Fn('expandtabs', (v,), 'str'))]
    if name == 'translate':
        o = st.obj(args[0])
        if isinstance(o, DictO) and o.rest is None and all(isinstance(k, Const) for k in o.d):
            states = v
            cur = v
            rem = []
            for k, x in o.d.items():
                ch = chr(k.v) if isinstance(k.v, int) else k.v
                new = Const('') if x == NONE else (Const(chr(x.v)) if isinstance(x, Const) and isinstance(x.v, int) else x)
                r = str_method(I, st, cur, 'replace', [Const(ch), new], {})
                cur = r[0][1]
            return [(st, cur)]
        return [(st, Fn('translate', (v, args[0]), 'str'))]
    if name == 'encode':
        return [(st, Fn('encode', (v,), 'bytes'))]
    if name == '__len__':
        return [(st, slen(v))]
    if name == '__contains__':
        return [(st, contains(I, st, v, args[0]))]
    if name == '__eq__':
        return [(st, I.eq_term(st, v, args[0]))]
    if name in ('__add__',):
        return [(st, mkstr([v, args[0]]))]
    if name == '__mul__':
        return [(st, mkrep(v, args[0]))]
    if name == '__getitem__':
        return L.getitem(I, st, v, args[0])
    if name == '__mod__':
        return do_percent(I, st, v, args[0])
    if name == '__class__':
        return [(st, I.classes['str'])]
    return [(st, Fn('str.' + name, (v,) + tuple(args), 'any'))]


def wrap_py(st, r):
    if type(r) is tuple or isinstance(r, tuple) and hasattr(r, "_fields"):
        return Tup(tuple(wrap_py(st, x) for x in r))
    if isinstance(r, list):
        return st.alloc(ListO(tuple(wrap_py(st, x) for x in r)))
    if isinstance(r, dict):
        return st.alloc(DictO({Const(k): wrap_py(st, x) for k, x in r.items()}))
    if r is None or isinstance(r, (str, int, float, bool, bytes)):
        return Const(r)
    return ExtPy(r)


def starts(I, st, v, name, args):
    p = args[0]
    if isinstance(p, Tup):
        for x in p.items:
            r = starts(I, st, v, name, [x])
            if r[0][1] == TRUE:
                return r
        unk = [x for x in p.items if starts(I, st, v, name, [x])[0][1] != FALSE]
        if not unk:
            return [(st, FALSE)]
        out, cur = [], [st]
        for x in unk:
            nxt = []
            for s in cur:
                for s1, r in starts(I, s, v, name, [x]):
                    for s2, b in I.truth(s1, r):
                        if b:
                            out.append((s2, TRUE))
                        else:
                            nxt.append(s2)
            cur = nxt
        return out + [(s, FALSE) for s in cur]
    if not is_str(p):
        if p == NONE or isinstance(p, Const) or isinstance(p, ExtPy) and not isinstance(p.obj, tuple):
            return I.raise_(st, 'TypeError', '%s first arg must be str' % name)
        if isinstance(p, ExtPy):
            return starts(I, st, v, name, [Tup(tuple(Const(x) for x in p.obj if isinstance(x, str)))])
        return [(st, Fn(name, (v, p), 'bool'))]
    left = name == 'startswith'
    vp, pp = list(parts_of(v)), list(parts_of(p))
    while pp:
        if not vp:
            if all(isinstance(q, str) for q in pp):
                return [(st, FALSE)]
            break
        a, b = (vp[0], pp[0]) if left else (vp[-1], pp[-1])
        if isinstance(a, str) and isinstance(b, str):
            n = min(len(a), len(b))
            if left:
                if a[:n] != b[:n]:
                    return [(st, FALSE)]
                vp[0:1] = [a[n:]] if a[n:] else []
                pp[0:1] = [b[n:]] if b[n:] else []
            else:
                if a[len(a) - n:] != b[len(b) - n:]:
                    return [(st, FALSE)]
                vp[-1:] = [a[:len(a) - n]] if a[:len(a) - n] else []
                pp[-1:] = [b[:len(b) - n]] if b[:len(b) - n] else []
        elif a == b:
            vp.pop(0 if left else -1)
            pp.pop(0 if left else -1)
        else:
            lit = b if isinstance(b, str) else None
            if lit and not isinstance(a, str) and atom_lacks(a, lit[0] if left else lit[-1]) and I.nonempty(st, a):
                return [(st, FALSE)]
            break
    if not pp:
        return [(st, TRUE)]
    t = Fn(name, (mkstr(vp), mkstr(pp)), 'bool')
    return [(st, Const(st.facts[t]) if t in st.facts else t)]


def partition(v, sep, name):
    if isinstance(sep, Const) and isinstance(sep.v, str):
        sp = sep.v
        if isinstance(v, Const):
            return Tup(tuple(Const(x) for x in getattr(v.v, name)(sp)))
        ps = list(parts_of(v))
        it = range(len(ps)) if name == 'partition' else range(len(ps) - 1, -1, -1)
        for i in it:
            p = ps[i]
            if isinstance(p, str):
                if sp in p:
                    a, _, b = getattr(p, name)(sp)
                    return Tup((mkstr(ps[:i] + [a]), sep, mkstr([b] + ps[i + 1:])))
                if len(sp) > 1 and not atom_lacks(p, sp[0]):
                    break
            elif not atom_lacks(p, sp):
                break
        else:
            return Tup((v, Const(''), Const(''))) if name == 'partition' else Tup((Const(''), Const(''), v))
    return Tup(tuple(Fn(name, (v, sep, Const(i)), 'str') for i in range(3)))


def contains(I, st, hay, needle):
    """bool term of needle in hay (strings)."""
    if isinstance(hay, Const) and isinstance(needle, Const):
        return Const(needle.v in hay.v)
    if isinstance(needle, Const):
        if any(isinstance(p, str) and needle.v in p for p in parts_of(hay)):
            return TRUE
        if needle.v and any(atom_lacks(hay, c) for c in needle.v):
            return FALSE
        if len(needle.v) == 1:
            # only the atoms that may contain it matter
            atoms = [p for p in parts_of(hay) if not isinstance(p, str) and not atom_lacks(p, needle.v)]
            if len(atoms) == 1:
                hay = atoms[0]
    elif needle in parts_of(hay) or needle == hay:
        return TRUE
    t = Fn('contains', (hay, needle), 'bool')
    return Const(st.facts[t]) if t in st.facts else t


def cut(I, st, v, idx):
    """[(state, v[:idx], v[idx:])], deciding on which side of idx every part lies."""
    todo, res = [(st, [], list(part_terms(v)), idx)], []
    first = [x for x in I.truth(st, I.cmp_lin('<', idx, ZERO))]
    if any(b for _, b in first):
        return [(s, Fn('slice', (v, NONE, idx), 'str'), Fn('slice', (v, idx, NONE), 'str')) if b else r
                for s, b in first for r in ([None] if b else cut(I, s, v, idx))]
    todo = [(s, [], list(part_terms(v)), idx) for s, _ in first]
    while todo:
        s, left, right, i = todo.pop(0)
        if not right:
            res.append((s, mkstr(left), Const('')))
            continue
        p, n = right[0], slen(right[0])
        for s2, b in I.truth(s, I.cmp_lin('>=', i, n)):
            if b:
                todo.append((s2, left + [p], right[1:], ladd(i, n, -1)))
                continue
            for s3, z in I.truth(s2, I.cmp_lin('<=', i, ZERO)):
                if z:
                    res.append((s3, mkstr(left), mkstr(right)))
                elif isinstance(p, Const) and isinstance(i, Const):
                    res.append((s3, mkstr(left + [Const(p.v[:i.v])]), mkstr([Const(p.v[i.v:])] + right[1:])))
                elif isinstance(p, Fn) and p.op == 'rep' and isinstance(p.args[0], Const) and len(p.args[0].v) == 1:
                    res.append((s3, mkstr(left + [mkrep(p.args[0], i)]), mkstr([mkrep(p.args[0], ladd(p.args[1], i, -1))] + right[1:])))
                else:
                    q, o = (p.args[0], p.args[1]) if isinstance(p, Fn) and p.op == 'drop' else (p, ZERO)
                    if o != ZERO:
                        # of a remainder: positions count from the start of the whole
                        a, b2 = Fn('drop', (Fn('take', (q, ladd(o, i)), 'str'), o), 'str'), Fn('drop', (q, ladd(o, i)), 'str')
                    else:
                        a, b2 = Fn('take', (q, i), 'str'), Fn('drop', (q, i), 'str')
                    res.append((s3, mkstr(left + [a]), mkstr([b2] + right[1:])))
    return res


def getslice(I, st, v, lo, hi, step):
    lo, hi = (NONE if st.known_none(lo) else st.resolve(lo)), (NONE if st.known_none(hi) else st.resolve(hi))
    if lo == ZERO:
        lo = NONE
    if isinstance(v, Const) and isinstance(lo, Const) and isinstance(hi, Const) and isinstance(step, Const):
        return [(st, Const(v.v[lo.v:hi.v:step.v]))]
    if step != NONE and step != ONE:
        if step == Const(-1) and lo == NONE and hi == NONE:
            return [(st, Fn('rev', (v,), 'str'))]
        return [(st, Fn('slice', (v, lo, hi, step), 'str'))]
    if lo == NONE and hi == NONE:
        return [(st, v)]
    if I.opts.get('exact') and (lo == NONE and is_int(hi) or hi == NONE and is_int(lo)):
        return [(s, b if hi == NONE else a) for s, a, b in cut(I, st, v, lo if hi == NONE else hi)]
    parts = list(parts_of(v))
    # drop an exactly known prefix / suffix
    if isinstance(hi, Const) and hi.v is not None and hi.v < 0 and parts and isinstance(parts[-1], str) and len(parts[-1]) >= -hi.v:
        parts[-1] = parts[-1][:hi.v]
        hi = NONE
    if isinstance(lo, Const) and lo.v is not None and lo.v > 0 and parts and isinstance(parts[0], str) and len(parts[0]) >= lo.v \
            and hi == NONE:
        parts[0] = parts[0][lo.v:]
        lo = NONE
    if isinstance(hi, Const) and hi.v is not None and hi.v >= 0 and lo == NONE and parts and isinstance(parts[0], str) and len(parts[0]) >= hi.v:
        return [(st, Const(parts[0][:hi.v]))]
    if lo != NONE and hi == NONE and not isinstance(lo, Const):
        # x[len(prefix):] where x = prefix + rest
        for k in range(1, len(parts)):
            if slen(mkstr(parts[:k])) == lo:
                return [(st, mkstr(parts[k:]))]
    if hi != NONE and lo == NONE and not isinstance(hi, Const):
        for k in range(1, len(parts)):
            if slen(mkstr(parts[:k])) == hi:
                return [(st, mkstr(parts[:k]))]
    t = mkstr(parts)
    if lo == NONE and hi == NONE:
        return [(st, t)]
    # both bounds at known places of the text
    a, b = place(parts, ZERO if lo == NONE else lo), len(parts) if hi == NONE else place(parts, hi)
    if a is not None and b is not None:
        (i, c), (j, d) = a, (b, 0) if isinstance(b, int) else b
        if (i, c) >= (j, d):
            return [(st, Const(''))]
        if i == j:
            return [(st, Const(parts[i][c:d]))]
        return [(st, mkstr(([parts[i][c:]] if c else [parts[i]]) + parts[i + 1:j] + ([parts[j][:d]] if d else [])))]
    return [(st, Fn('slice', (t, lo, hi), 'str'))]


def place(parts, n):
    """(part, offset) of index n of the text, or None when that is not certain."""
    if isinstance(n, Const) and (n.v is None or n.v < 0) or not is_int(n):
        return None
    for k in range(len(parts) + 1):
        d = ladd(n, slen(mkstr(parts[:k])), -1)
        if isinstance(d, Const) and d.v == 0:
            return k, 0
        if isinstance(d, Const) and d.v > 0 and k < len(parts) and isinstance(parts[k], str) and d.v < len(parts[k]):
            return k, d.v
    return None


def str_may_eq(st, a, b):
    """False only when the two strings certainly differ."""
    pa, pb = list(parts_of(a)), list(parts_of(b))
    for left in (True, False):
        x, y = list(pa), list(pb)
        while x and y:
            p, q = (x[0], y[0]) if left else (x[-1], y[-1])
            if isinstance(p, str) and isinstance(q, str):
                n = min(len(p), len(q))
                u, w = (p[:n], q[:n]) if left else (p[len(p) - n:], q[len(q) - n:])
                if u != w:
                    return False
                i = 0 if left else -1
                x[i] = p[n:] if left else p[:len(p) - n]
                y[i] = q[n:] if left else q[:len(q) - n]
                if x[i] == '':
                    x.pop(i)
                if y[i] == '':
                    y.pop(i)
            elif p == q:
                x.pop(0 if left else -1)
                y.pop(0 if left else -1)
            else:
                break
        for u, w in ((x, y), (y, x)):
            if not u and any(isinstance(p, str) or FLAG_NONEMPTY in fl(p) or (isinstance(p, Fn) and p.op == 'int->str')
                             or Const('') in st.ne.get(p, ()) for p in w):
                return False
    for u, w in ((a, b), (b, a)):
        if isinstance(u, Const) and isinstance(u.v, str):
            lits = ''.join(p for p in parts_of(w) if isinstance(p, str))
            if any(c not in u.v for c in lits):
                return False
            if any(atom_lacks(w, c) for c in set(u.v)):
                return False
    return True


def norm_str_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Fn) and x.op == 'slice' and len(x.args) == 3:
            t, lo, hi = x.args
            if lo in (NONE, ZERO) and hi == slen(y):
                return Fn('startswith', (t, y), 'bool')
            if hi == NONE and lo == lmul(slen(y), Const(-1)):
                return Fn('endswith', (t, y), 'bool')
    return None
