"""C04: rendering has no effect on shared or caller-owned objects."""
from ..docs import *
from ..state import bisim
from ..dom import *

TITLE = 'Rendering leaves shared and caller-owned configuration untouched'
EXPLAIN = ('Effect analysis by abstract interpretation: after rendering abstract documents with every kind of renderer and custom '
           'setting, the objects the caller passed in and the shared objects of the package (class settings, default arguments, '
           'module tables) must be structurally unchanged, and a later rendering by another parser must give the same abstract text '
           'as in a fresh process.')
MIN_CASES = 20

PRE = "R = %s\n"
USE = """
p = GopherHTMLParser(renderers=R, extracted_link_renderers=X, box=B, %s)
p.feed(DOC)
p.close()
OUT = p.parsed
"""


def setup(h, rend, boxed=True):
    I = h.I
    st = I.new_state()
    env = {k: h.lift(st, v) for k, v in CUSTOM_ENV().items()}
    outs = h.run("R = %s\nX = {'a': (ExtractedLinkRenderer, dict(max_link_description=4))}\nB = Box(width=60, margin=[0, 1, 0, 2], padding=[0, 0, 0, 0])\n" % rend,
                 env, st=st)
    expect(len(outs) == 1 and outs[0].kind == 'ok', 'configuration cannot be built: %s' % outs[0].describe())
    return outs[0], env


def caller(h, nm, cfg):
    rend, d = CUSTOM[nm]
    o0, env = setup(h, rend)
    st = o0.st.copy()
    keep = {k: o0.get(k) for k in ('R', 'X', 'B')}
    keep.update(env)
    snap = st.copy()
    for o in h.run(USE % CONFIGS[cfg].split('box=')[0].rstrip(', '), dict(keep, DOC=d() + probe()), st=st, opts=dict(words=0)):
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        for k, v in keep.items():
            why = []
            if isinstance(v, Ref) and not bisim(snap, v, o.st, v, why=why):
                p, a, b = why[0]
                yield 'the %s passed by the caller was changed at %s: %s -> %s' % (
                    {'R': 'renderers mapping', 'X': 'extracted_link_renderers mapping', 'B': 'page box'}.get(k, 'setting value ' + k),
                    '.'.join(map(str, p)) or 'top level', show_obj(snap, a), show_obj(o.st, b))
        yield from shared(h, o)


def show_obj(st, v):
    o = st.obj(v)
    if o is None:
        return show(v)
    if isinstance(o, DictO):
        return '{%s}' % ', '.join('%s: %s' % (show(k), show(x)) for k, x in o.d.items())
    if getattr(o, 'segs', None) is not None:
        return '[%s]' % ', '.join(show(x) for x in o.segs)
    if isinstance(o, InstO):
        return 'instance of %s%s' % (st.get(o.cls.a).name, ' {%s}' % ', '.join('%s: %s' % (show(k), show(x)) for k, x in o.data.d.items())
                                     if isinstance(o.data, DictO) else '')
    return repr(v)


def names(h):
    """addr -> where a shared object lives."""
    st = h.I.st0
    out_ = {}
    for m, r in h.I.mods.items():
        if not m.startswith('gopher_render'):
            continue
        mo = st.get(r.a)
        for k, v in mo.ns.items():
            if k.startswith('__'):
                continue
            if isinstance(v, Ref):
                out_.setdefault(v.a, '%s.%s' % (m, k))
                o = st.get(v.a)
                if isinstance(o, ClassO) and o.qual.startswith('gopher_render'):
                    for k2, v2 in o.ns.items():
                        if isinstance(v2, Ref):
                            out_.setdefault(v2.a, '%s.%s' % (o.qual, k2))
                            o2 = st.get(v2.a)
                            d = o2.data if isinstance(o2, InstO) else o2
                            if isinstance(d, DictO):
                                for k3, v3 in d.d.items():
                                    if isinstance(v3, Ref):
                                        out_.setdefault(v3.a, '%s.%s[%s]' % (o.qual, k2, show(k3)))
    for u, f in h.I.funcs.items():
        ds = list(getattr(f, 'defaults', ()) or ())
        kd = getattr(f, 'kw_defaults', None)
        if isinstance(kd, dict):
            ds += list(kd.values())
        elif kd:
            ds += list(kd)
        for v in ds:
            if isinstance(v, Ref):
                out_.setdefault(v.a, 'default argument of %s' % f.qual)
    return out_


def shared(h, o):
    nm = None
    for a, x in o.st.heap.items():
        b = o.st.base.get(a)
        if b is None or x is b or isinstance(x, FrameO):
            continue
        if nm is None:
            nm = names(h)
        default = nm.get(a, '').startswith('default argument')
        if isinstance(b, ClassO):
            for k in set(b.ns) | set(x.ns):
                if b.ns.get(k) != x.ns.get(k) and (k == 'settings' or (k in b.ns and not k.startswith('_'))):
                    yield 'class attribute %s.%s is changed by rendering' % (b.qual, k)
            continue
        if isinstance(b, ModO):
            continue
        bd = b.data if isinstance(b, InstO) else b
        xd = x.data if isinstance(x, InstO) else x
        if not isinstance(bd, (ListO, DictO)):
            continue
        empty = not (bd.d if isinstance(bd, DictO) else bd.segs)
        is_settings = isinstance(b, InstO)
        if empty and not default and not is_settings:
            continue                       # may be a cache; see the re-rendering rule
        if bd.content() != xd.content():
            yield 'shared object %s is changed by rendering' % nm.get(a, '@%d' % a)


def later(h, nm, cfg1, cfg2):
    rend, d = CUSTOM[nm]
    o0, env = setup(h, rend)
    c1, c2 = CONFIGS[cfg1].split('box=')[0].rstrip(', '), CONFIGS[cfg2]
    e = dict({k: o0.get(k) for k in ('R', 'X', 'B')}, DOC=d(), DOC2=d() + probe())
    src2 = 'p = GopherHTMLParser(%s)\np.feed(DOC2)\np.close()\nOUT = p.parsed\n' % c2
    ref = render1(h, d() + probe(), c2)
    st = o0.st.copy()
    for o in h.run(USE % c1 + src2, e, st=st, opts=dict(words=0)):
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        v = out(o)
        if v != ref:
            yield 'after another document was rendered with custom settings, a new default parser renders\n%s\ninstead of\n%s' % (
                '\n'.join(map(show, lines(v))), '\n'.join(map(show, lines(ref))))


def every():
    """One element of each kind, so that a leaked setting shows."""
    d = []
    for i, tag in enumerate(INLINES + ['custom']):
        d += el('p', el(tag, t('I%d' % i)))
    return d + el('div', el('p', t('P'))) + el('h1', t('H')) + el('ul', el('li', t('L'))) + el('dl', el('dt', t('S')), el('dd', t('V'))) + el('pre', t('Q')) + el('blockquote', el('p', t('R')), el('p', t('R')))


def each_setting(h, sel, cls, sett, d, x, cfg):
    """Settings of one renderer, given by a selector or to one subclass, show nowhere else."""
    kw = 'extracted_link_renderers' if x else 'renderers'
    ref = _ref(h, CONFIGS[cfg])
    for how, pre in (('a selector', "R = {'%s': (%s, dict(%s))}\n" % (sel, cls, sett)), ('a subclass', "class K(%s):\n  settings = dict(%s)\nR = {'%s': K}\n" % (cls, sett, sel))):
        src = pre + 'p = GopherHTMLParser(%s, %s=R)\np.feed(D1)\np.close()\nq = GopherHTMLParser(%s)\nq.feed(DOC)\nq.close()\nOUT = q.parsed\n' % (CONFIGS[cfg], kw, CONFIGS[cfg])
        for o in h.run(src, dict(D1=d(), DOC=every()), opts=dict(words=0)):
            if o.kind == 'exc':
                yield 'raises %s' % o.describe()
                continue
            yield from shared(h, o)
            if out(o) != ref:
                yield 'settings %s of %s given by %s apply to another parser:\n%s\ninstead of\n%s' % (
                    sett, cls, how, '\n'.join(map(show, lines(out(o)))), '\n'.join(map(show, lines(ref))))


_refs = {}


def _ref(h, c):
    if c not in _refs:
        _refs[c] = render1(h, every(), c)
    return _refs[c]


def interleaved(h, cfg, order):
    src = {'ab': 'a.feed(D1)\nb.feed(DOC)\na.close()\nb.close()\n',
           'ba': 'b.feed(DOC)\na.feed(D1)\na.close()\nb.close()\n',
           'constructed between': 'b.feed(DOC)\nc = GopherHTMLParser(width=33)\nb.close()\na.feed(D1)\n'}[order]
    ref = render1(h, probe(), CONFIGS[cfg])
    for o in h.run('a = GopherHTMLParser(%s)\nb = GopherHTMLParser(%s)\n%sOUT = b.parsed\n' % (CONFIGS[cfg], CONFIGS[cfg], src),
                   dict(D1=histories()['many links'], DOC=probe()), opts=dict(words=0)):
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        if out(o) != ref:
            yield 'two parsers used in turn disturb each other:\n%s\ninstead of\n%s' % (
                '\n'.join(map(show, lines(out(o)))), '\n'.join(map(show, lines(ref))))


def twice(h, cfg):
    """close() a second time, and rendering the same tree again."""
    ref = render1(h, probe(), CONFIGS[cfg])
    for o in h.run('b = GopherHTMLParser(%s)\nb.feed(DOC)\nb.close()\nb.close()\nOUT = b.parsed\n' % CONFIGS[cfg],
                   dict(DOC=probe()), opts=dict(words=0)):
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        if out(o) != ref:
            yield 'closing twice changes the output:\n%s\ninstead of\n%s' % (
                '\n'.join(map(show, lines(out(o)))), '\n'.join(map(show, lines(ref))))


def cases(h, tier):
    cf = ['default', 'after block', 'gophermap'] if tier == 'quick' else [c for c in CONFIGS if c != 'box']
    for nm in CUSTOM:
        for c in cf[:1] if tier == 'quick' else cf:
            yield Case('caller-objects', '%s %s' % (nm, c), caller, nm, c)
            yield Case('later-rendering', '%s %s' % (nm, c), later, nm, c, 'default')
    yield Case('caller-objects', 'links gophermap', caller, 'links', 'gophermap')
    yield Case('later-rendering', 'links gophermap', later, 'links', 'gophermap', 'gophermap')
    from .c05 import EQUIV, XEQUIV
    for l, x in ((EQUIV, False), (XEQUIV, True)):
        for sel, cls, sett, d in l:
            for c in ['default'] if tier == 'quick' else ['default', 'after block', 'gophermap']:
                yield Case('each-setting', '%s %s(%s) %s' % (c, cls, sett, sel), each_setting, sel, cls, sett, d, x, 'image footer' if sel == 'img' and x else c)
    for c in cf:
        for o in ('ab', 'ba', 'constructed between'):
            yield Case('interleaved-parsers', '%s %s' % (c, o), interleaved, c, o)
        yield Case('close-twice', c, twice, c)
