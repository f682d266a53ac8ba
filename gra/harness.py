"""Client programs: small Python snippets, interpreted abstractly against the
current source tree, that exercise the package through its public interface
with symbolic documents, attributes, settings and configuration."""
import ast
import glob
import os

from .dom import *
from .state import State
from .interp import Interp, Gap

ROOT = os.environ.get('GRA_REPO', '/repo')
PKG = 'gopher_render'
MODS = ['gopher_render', 'gopher_render._parser', 'gopher_render.rendering', 'gopher_render._selectors',
        'gopher_render._textwrap', 'gopher_render._namedict', 'gopher_render.cli']


def sym(name, kind='str', *flags):
    return Sym(name, kind, flags)


# a document text run: anything, including line breaks, tabs, ESC and braces
def text(name='TEXT', *flags):
    return Sym(name, 'str', (FLAG_DOC,) + flags)


class Outcome:
    __slots__ = ('kind', 'st', 'mod', 'exc', 'h', 'where')

    def __init__(self, h, kind, st, mod, exc=None, where=None):
        self.h, self.kind, self.st, self.mod, self.exc, self.where = h, kind, st, mod, exc, where

    def get(self, name):
        return self.st.resolve(self.st.get(self.mod).ns[name])

    def obj(self, name):
        return self.st.obj(self.get(name))

    def describe(self):
        return self.h.I.describe_exc(self.st, self.exc) if self.exc is not None else 'returns'

    @property
    def exc_name(self):
        return self.h.I.exc_name(self.st, self.exc) if self.exc is not None else None


class Harness:
    def __init__(self, root=None):
        self.root = root or ROOT
        if not os.path.isdir(os.path.join(self.root, PKG)):
            raise Gap('package %s not found under %s' % (PKG, self.root))
        self.I = Interp(self.root, PKG)
        for m in MODS:
            if self.I.mod_path(m)[0] is None:
                raise Gap('module %s not found' % m)
            self.I.load(m)
        self.themes = []
        for f in sorted(glob.glob(os.path.join(self.root, PKG, 'code_themes', '*.py'))):
            b = os.path.basename(f)[:-3]
            if not b.startswith('__'):
                self.I.load(PKG + '.code_themes.' + b)
                self.themes.append(b)
        self.I.freeze()
        self.mods = dict(self.I.mods)
        self.n = 0
        self.clients = 0

    def ns(self, mod):
        return self.I.st0.get(self.mods[mod].a).ns

    def run(self, src, env=None, opts=None, st=None, watch=False):
        """Interpret a client program; returns its outcomes."""
        I = self.I
        self.n += 1
        self.clients += 1
        tree = ast.parse(src, '<client>')
        st = st or I.new_state()
        saved, savedm, mods = dict(I.opts), I.mark, I.mods
        I.mods = {k: v for k, v in mods.items() if k not in (opts or {}).get('reload', ())}
        I.opts.update(opts or {})
        I.looptag = {}
        try:
            ns = {'__name__': Const('client')}
            for m in MODS:
                for k, v in self.ns(m).items():
                    if not k.startswith('__'):
                        ns.setdefault(k, v)
            ns['_parser'] = I.mods['gopher_render._parser']
            ns['_rendering'] = I.mods['gopher_render.rendering']
            for k, v in (env or {}).items():
                ns[k] = self.lift(st, v)
            m = st.alloc(ModO('client%d' % self.n, ns))
            if watch:
                from .state import fresh_addr
                I.mark = fresh_addr()
            fr = st.alloc(FrameO(m.a, None, ('<module>', '<client>')))
            st.frame = fr.a
            I.coll.append([])
            outs = I.ex(tree.body, st)
            exc = I.coll.pop()
            res = [Outcome(self, 'ok', s, m.a) for k, s, v in outs if k == 'next']
            res += [Outcome(self, 'exc', s, m.a, e, w) for s, e, w in exc]
            self.nout = getattr(self, 'nout', 0) + len(res)
            return res
        finally:
            I.opts = saved
            I.mark = savedm
            I.mods = mods

    def lift(self, st, v):
        """Python data holding terms -> abstract value."""
        if isinstance(v, Term):
            return v
        if isinstance(v, dict):
            return st.alloc(DictO({self._key(k): self.lift(st, x) for k, x in v.items()}))
        if isinstance(v, list):
            return st.alloc(ListO(tuple(self.lift(st, x) for x in v)))
        if isinstance(v, tuple):
            return Tup(tuple(self.lift(st, x) for x in v))
        return Const(v)

    def _key(self, k):
        return k if isinstance(k, Term) else Const(k)


def doc(*toks):
    """Build a token list for feed()."""
    return list(toks)


def S(tag, *attrs):
    return ('start', tag, list(attrs))


def E(tag):
    return ('end', tag)


def T(t):
    return ('data', t)


def el(tag, *kids, attrs=()):
    out = [S(tag, *attrs)]
    for k in kids:
        out += k if isinstance(k, list) else [k]
    return out + [E(tag)]
