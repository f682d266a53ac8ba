"""Models of the standard-library and third-party pieces the program calls."""
import glob
import os
import re
import string
import sys
import urllib.parse

from .dom import *
from .state import is_opt
from . import strs

KNOWN_MODS = {'html', 'html.parser', 'urllib', 'urllib.parse', 'os', 'os.path', 'collections', 'collections.abc', 'cssselect',
              'cssselect.parser', 'markdown', 'markdown.extensions', 'pygments', 'importlib', 'xml', 'concurrent', 'cssselect.xpath'}
URL_FIELDS = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
HTML_METHODS = ('feed', 'close', 'reset', 'goahead', 'handle_startendtag', 'handle_starttag', 'handle_endtag', 'handle_data',
                'handle_comment', 'handle_decl', 'handle_pi', 'handle_entityref', 'handle_charref', 'unknown_decl',
                'get_starttag_text', 'getpos', 'set_cdata_mode', 'clear_cdata_mode', 'error')
TW_DEFAULTS = dict(width=70, initial_indent='', subsequent_indent='', expand_tabs=True, replace_whitespace=True,
                   fix_sentence_endings=False, break_long_words=True, drop_whitespace=True, break_on_hyphens=True,
                   tabsize=8, max_lines=None, placeholder=' [...]')
_css = []


def css():
    """The installed cssselect library (a model of the selector grammar)."""
    if not _css:
        try:
            import cssselect as c
        except ImportError:
            for p in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + sorted(glob.glob('/opt/venv*/lib/python3*/site-packages')):
                if os.path.isdir(os.path.join(p, 'cssselect')):
                    sys.path.append(p)
                    break
            try:
                import cssselect as c
            except ImportError:
                from .interp import Gap
                raise Gap('the cssselect library is not installed: selectors cannot be modelled')
        import cssselect.parser
        _css.append(c)
    return _css[0]


def setup(I, mk):
    obj = I.classes['object']
    ns = {'__init__': Builtin('HTMLParser.__init__')}
    for m in HTML_METHODS:
        ns[m] = Builtin('HTMLParser.' + m)
    hp = mk('HTMLParser', (obj,), ns)
    tw = mk('TextWrapper', (obj,), {'__init__': Builtin('TextWrapper.__init__'), 'wrap': Builtin('TextWrapper.wrap'),
                                    'fill': Builtin('TextWrapper.fill'), '_wrap_chunks': Builtin('TextWrapper._wrap_chunks'),
                                    '_split': Builtin('TextWrapper._split'), '_split_chunks': Builtin('TextWrapper._split_chunks'),
                                    '_munge_whitespace': Builtin('TextWrapper._munge_whitespace'),
                                    '_fix_sentence_endings': Builtin('TextWrapper._fix_sentence_endings'),
                                    '_handle_long_word': Builtin('TextWrapper._handle_long_word')})
    sio = mk('StringIO', (obj,), {'__init__': Builtin('StringIO.__init__'), 'write': Builtin('StringIO.write'),
                                  'getvalue': Builtin('StringIO.getvalue'), 'close': Builtin('StringIO.close')})
    en = mk('Enum', (obj,))
    ie = mk('IntEnum', (I.classes['int'],))
    abc = mk('ABC', (obj,))
    abcm = mk('ABCMeta', (I.classes['type'],))
    od = mk('OrderedDict', (I.classes['dict'],))
    dd = mk('defaultdict', (I.classes['dict'],), {'__init__': Builtin('defaultdict.__init__')})
    for n in ('HTMLParser', 'TextWrapper', 'StringIO', 'Enum', 'IntEnum', 'ABC', 'ABCMeta', 'OrderedDict', 'defaultdict'):
        I.builtins.pop(n, None)


def ext_module(I, st, name):
    return st.alloc(ModO(name, {'__name__': Const(name)}, ext=True))


CLASS_ATTRS = {
    ('html.parser', 'HTMLParser'): 'HTMLParser', ('textwrap', 'TextWrapper'): 'TextWrapper', ('io', 'StringIO'): 'StringIO',
    ('enum', 'Enum'): 'Enum', ('enum', 'IntEnum'): 'IntEnum', ('abc', 'ABC'): 'ABC', ('abc', 'ABCMeta'): 'ABCMeta',
    ('collections', 'OrderedDict'): 'OrderedDict', ('collections', 'defaultdict'): 'defaultdict',
}
FUNCS = {
    ('urllib.parse', 'urlparse'), ('urllib.parse', 'urlsplit'), ('urllib.parse', 'quote'), ('urllib.parse', 'unquote'),
    ('collections', 'namedtuple'), ('collections', 'deque'), ('inspect', 'getmro'), ('re', 'compile'), ('re', 'sub'), ('re', 'subn'),
    ('re', 'split'), ('re', 'match'), ('re', 'search'), ('re', 'fullmatch'), ('re', 'findall'), ('re', 'finditer'), ('re', 'escape'),
    ('functools', 'partial'), ('functools', 'reduce'), ('functools', 'wraps'), ('functools', 'lru_cache'), ('functools', 'cache'),
    ('functools', 'cached_property'), ('functools', 'cmp_to_key'), ('functools', 'total_ordering'), ('itertools', 'chain'),
    ('itertools', 'repeat'), ('itertools', 'count'), ('itertools', 'islice'), ('itertools', 'zip_longest'),
    ('operator', 'itemgetter'), ('operator', 'attrgetter'), ('copy', 'copy'), ('copy', 'deepcopy'), ('contextlib', 'suppress'),
    ('textwrap', 'wrap'), ('textwrap', 'fill'), ('textwrap', 'indent'), ('os.path', 'splitext'), ('posixpath', 'splitext'),
    ('typing', 'cast'), ('typing', 'NewType'), ('abc', 'abstractmethod'), ('contextlib', 'contextmanager'), ('sys', 'exit'),
    ('html', 'escape'), ('html', 'unescape'), ('pathlib', 'PurePosixPath'), ('pathlib', 'PurePath'), ('pathlib', 'Path'),
    ('pathlib', 'PosixPath'), ('operator', 'methodcaller'), ('enum', 'unique'), ('typing', 'final'), ('typing', 'overload'),
    ('types', 'MappingProxyType'), ('urllib.parse', 'urlunparse'), ('urllib.parse', 'urljoin'), ('itertools', 'takewhile'),
    ('itertools', 'dropwhile'), ('functools', 'singledispatch'), ('unicodedata', 'east_asian_width'), ('itertools', 'starmap'),
}


def ext_attr(I, st, mo, name):
    full = mo.name + '.' + name
    if full in KNOWN_MODS:
        return I.load(full, st)
    if (mo.name, name) in CLASS_ATTRS:
        return I.classes[CLASS_ATTRS[mo.name, name]]
    if mo.name.split('.')[0] == 'cssselect':
        css()
        m = sys.modules.get(mo.name)
        try:
            return strs.wrap_py(st, getattr(m, name))
        except AttributeError:
            return Fn('ext', (Const(mo.name), Const(name)), 'any')
    if mo.name == 're' and name.isupper() and hasattr(re, name):
        return Const(int(getattr(re, name)))
    if mo.name == 'string' and isinstance(getattr(string, name, None), str):
        return Const(getattr(string, name))
    if mo.name == 'sys' and name in ('maxsize', 'version_info', 'version'):
        return strs.wrap_py(st, tuple(getattr(sys, name)) if name == 'version_info' else getattr(sys, name))
    if mo.name == 'os' and name in ('linesep', 'sep'):
        return Const(getattr(os, name))
    if (mo.name, name) in FUNCS:
        return Builtin(name if mo.name not in ('re', 'copy', 'textwrap', 'html', 'sys') else mo.name + ':' + name)
    if mo.name == 'typing' and name == 'TYPE_CHECKING':
        return FALSE
    return Fn('ext', (Const(mo.name), Const(name)), 'any')


# ---------------------------------------------------------------- attributes
def ext_getattr(I, st, v, name):
    try:
        r = getattr(v.obj, name)
    except AttributeError:
        return I.raise_(st, 'AttributeError', "'%s' object has no attribute '%s'" % (type(v.obj).__name__, name))
    if callable(r) and not isinstance(r, type):
        return [(st, ExtM(v, name))]
    return [(st, strs.wrap_py(st, r))]


def ExtM(v, name):
    return Bound(Builtin('extpy.' + name), v)


def to_py(st, v):
    """Python value of a fully known term, else raises ValueError."""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, ExtPy):
        return v.obj
    if isinstance(v, Tup):
        return tuple(to_py(st, x) for x in v.items)
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, ListO) and not any(isinstance(x, Many) for x in o.segs):
            return [to_py(st, x) for x in o.segs]
        if isinstance(o, DictO) and o.rest is None:
            return {to_py(st, k): to_py(st, x) for k, x in o.d.items()}
    raise ValueError


def ext_call(I, st, v, args, kw, name=None):
    f = v.obj if name is None else getattr(v.obj, name)
    try:
        a = [to_py(st, x) for x in args]
        k = {n: to_py(st, x) for n, x in kw.items()}
    except ValueError:
        if getattr(f, '__name__', '') == 'parse':
            # a selector taken from an unknown mapping
            return [(st, Fn('cssparse', tuple(args), 'any'))]
        st.event('call', v, tuple(args), tuple(sorted(kw.items())), I.where())
        return [(st, Fn('call', (v, Tup(tuple(args))), 'any'))]
    key = (id(f), repr(a), repr(k))
    if getattr(f, '__name__', '') == 'parse' and key in _cache:
        r = _cache[key]
    else:
        try:
            r = f(*a, **k)
        except Exception as e:
            n = type(e).__name__
            return I.raise_(st, n if n in I.classes else ('ValueError' if isinstance(e, (ValueError, SyntaxError)) else 'Exception'),
                            '%s: %s' % (n, e))
        _cache[key] = r
    return [(st, strs.wrap_py(st, r))]


_cache = {}


def sym_getattr(I, st, v, name):
    if isinstance(v, Fn) and v.op in ('urlparse', 'urlsplit'):
        return url_attr(I, st, v, name)
    if isinstance(v, Fn) and v.op == 'path':
        return path_attr(I, st, v, name)
    if isinstance(v, Fn) and v.op == 'regex':
        if name == 'pattern':
            return [(st, v.args[0])]
        if name == 'flags':
            return [(st, Const(re.compile(v.args[0].v, v.args[1].v).flags))] if isinstance(v.args[0], Const) else [(st, v.args[1])]
        if name == 'groups' and isinstance(v.args[0], Const):
            return [(st, Const(re.compile(v.args[0].v).groups))]
        return [(st, Method(v, name))]
    if isinstance(v, Fn) and v.op == 'match' and name in ('group', 'groups', 'start', 'end', 'span', '__getitem__'):
        return [(st, Method(v, name))]
    if isinstance(v, Fn) and v.op == 'match' and name == 'string':
        return [(st, v.args[3])]
    if isinstance(v, Fn) and v.op == 'instdict':
        o = st.obj(v.args[0])
        d = st.alloc(DictO({Const(k): x for k, x in o.attrs.items()}))
        if name in ('update', '__setitem__', 'setdefault', 'pop'):
            return [(st, Bound(Builtin('instdict.' + name), v.args[0]))]
        return [(st, Method(d, name))]
    if isinstance(v, Fn) and v.op == 'super':
        return [(st, Fn('attr', (v, Const(name)), 'any'))]
    return [(st, Fn('attr', (v, Const(name)), 'any'))]


def ext_inst_attr(I, st, v, o, name):
    return None


def ext_class_attr(I, st, e, name):
    return None


def ext_super_attr(I, st, selfv, o, name, cls):
    return None


def ext_payload(I, st, cref):
    f = I.mro_find(st, cref, '_fields')
    if f and isinstance(f[0], Tup) and I.mro_find(st, cref, '$ntuple'):
        return ('ntuple', tuple(x.v for x in f[0].items))
    return None


def new_ext(I, st, cref, e, args, kw):
    """Construct a value of an ext class; None -> generic instantiation."""
    L = I.lib
    a = args[0] if args else None
    if e == 'str':
        if a is None:
            return [(st, Const(''))]
        return strs.to_str(I, st, a)
    if e == 'int':
        if a is None:
            return [(st, ZERO)]
        if isinstance(a, Const) and (len(args) == 1 or isinstance(args[1], Const)):
            try:
                return [(st, Const(int(a.v, *[x.v for x in args[1:]], **{k: x.v for k, x in kw.items()})
                                   if isinstance(a.v, (str, bytes)) else int(a.v)))]
            except (ValueError, TypeError) as ex:
                return I.raise_(st, type(ex).__name__, str(ex))
        if a == NONE or st.known_none(a):
            return I.raise_(st, 'TypeError', 'int() argument must be a string or a number, not NoneType')
        if isinstance(a, ExtPy):
            return I.raise_(st, 'TypeError', 'int() argument')
        if kind(a) == 'int':
            return [(st, a)]
        if isinstance(a, Fn) and a.op == 'int->str':
            return [(st, a.args[0])]
        if is_str(a):
            if I.opts.get('value_errors'):
                I.raise_(st.copy(), 'ValueError', 'invalid literal for int(): ' + show(a))
            return [(st, Fn('int', (a,) + tuple(args[1:]) + tuple(kw.values()), 'int'))]
        return [(st, Fn('int', (a,), 'int'))]
    if e == 'bool':
        if a is None:
            return [(st, FALSE)]
        return [(s, Const(b)) for s, b in I.truth(st, a)]
    if e == 'float':
        return [(st, Fn('float', tuple(args), 'float'))]
    if e in ('list', 'tuple', 'set', 'frozenset'):
        if a is None:
            return [(st, Tup(()))] if e == 'tuple' else [(st, st.alloc(ListO((), 'set' if 'set' in e else 'list')))]
        out = []
        for s, segs in L.iter_segs(I, st, a):
            if e == 'tuple' and not any(isinstance(x, Many) for x in segs):
                out.append((s, Tup(segs)))
            elif e in ('set', 'frozenset'):
                r = s.alloc(ListO((), 'set'))
                ss = [s]
                for x in segs:
                    if isinstance(x, Many):
                        for q in ss:
                            o = q.mut(r.a)
                            o.segs = o.segs + (x,)
                    else:
                        ss = [q2 for q in ss for q2, _ in L.list_method(I, q, r, q.obj(r), 'add', [x], {})]
                out += [(q, r) for q in ss]
            else:
                out.append((s, s.alloc(ListO(segs))))
        return out
    if e in ('dict', 'OrderedDict'):
        r = st.alloc(DictO())
        ss = [st]
        for x in args:
            ss = [s2 for s in ss for s2 in L.dict_update(I, s, r, x)]
        for s in ss:
            d = s.mut(r.a)
            for k, x in kw.items():
                if k == '**':
                    d.rest = x
                else:
                    d.d[Const(k)] = x
        return [(s, r) for s in ss]
    if e == 'type':
        if len(args) == 1:
            o = st.obj(a)
            if isinstance(o, InstO):
                return [(st, o.cls)]
            if isinstance(o, ClassO):
                return [(st, o.meta or I.classes['type'])]
            if isinstance(o, ListO):
                return [(st, I.classes[o.cls])]
            if isinstance(o, DictO):
                return [(st, I.classes['dict'])]
            k = kind(a)
            k = {'none': 'NoneType'}.get(k, k)
            return [(st, I.classes.get(k, Fn('type', (a,), 'any')))]
        return I.lib._dunder(I, st, 'type', '__new__', [cref] + args, kw)
    if e == 'object':
        return [(st, st.alloc(InstO(cref)))]
    if e == 'bytes':
        return [(st, Fn('bytes', tuple(args), 'bytes'))]
    if e == 'slice':
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return [(st, Fn('slice', tuple(a), 'slice'))]
    return None


# ---------------------------------------------------------------- functions
def call_ext_builtin(I, st, name, args, kw):
    h = HANDLERS.get(name)
    if h is not None:
        return h(I, st, args, kw)
    if name.startswith('HTMLParser.'):
        return html_method(I, st, name[11:], args, kw)
    if name.startswith('TextWrapper.'):
        return tw_method(I, st, name[12:], args, kw)
    if name.startswith('extpy.'):
        return ext_call(I, st, args[0], args[1:], kw, name[6:])
    if name.startswith('re:'):
        return re_func(I, st, name[3:], args, kw)
    if name.startswith('namedtuple.'):
        return nt_method(I, st, name[11:], args, kw)
    if name.startswith('instdict.'):
        o = args[0]
        if name == 'instdict.update':
            ss = [st]
            tmp = st.alloc(DictO())
            for a in args[1:]:
                ss = [s2 for s in ss for s2 in I.lib.dict_update(I, s, tmp, a)]
            for s in ss:
                d = dict(s.obj(tmp).d)
                for k, x in kw.items():
                    d[Const(k)] = x
                for k, x in d.items():
                    I.mutating(s, o.a, 'attribute %s' % k.v).attrs[k.v] = x
            return [(s, NONE) for s in ss]
        if isinstance(args[1], Const) and len(args) > 2:
            I.mutating(st, o.a, 'attribute %s' % args[1].v).attrs[args[1].v] = args[2]
            return [(st, args[2])]
    if name.startswith('StringIO.'):
        m = name[9:]
        o = st.obj(args[0])
        if m == '__init__':
            st.mut(args[0].a).attrs['$buf'] = args[1] if len(args) > 1 else Const('')
            return [(st, NONE)]
        if m == 'write':
            st.mut(args[0].a).attrs['$buf'] = mkstr([o.attrs['$buf'], args[1]])
            return [(st, strs.slen(args[1]))]
        if m == 'getvalue':
            return [(st, o.attrs['$buf'])]
        return [(st, NONE)]
    if name == 'defaultdict.__init__':
        o = st.mut(args[0].a)
        if len(args) > 1 and args[1] != NONE:
            o.attrs['$factory'] = args[1]
        if len(args) > 2:
            return [(s, NONE) for s in I.lib.dict_update(I, st, args[0], args[2])]
        return [(st, NONE)]
    if name == 'cmpkey.make':
        return [(st, st.alloc(InstO(I.classes['object'], {}, ('cmpkey', args[0], args[1]))))]
    if name == 'opget.item':
        out = [(st, [])]
        for i in args[:-1]:
            out = [(s2, acc + [x]) for s, acc in out for s2, x in I.lib.getitem(I, s, args[-1], i)]
        return [(s, acc[0] if len(acc) == 1 else Tup(acc)) for s, acc in out]
    if name == 'opget.attr':
        out = [(st, [])]
        for i in args[:-1]:
            nxt = []
            for s, acc in out:
                vs = [(s, args[-1])]
                for part in i.v.split('.'):
                    vs = [r for s2, x in vs for r in I.getattr_(s2, x, part)]
                nxt += [(s2, acc + [x]) for s2, x in vs]
            out = nxt
        return [(s, acc[0] if len(acc) == 1 else Tup(acc)) for s, acc in out]
    if name == 'opget.method':
        return [r for s, f in I.getattr_(st, args[-1], args[0].v) for r in I.call(s, f, args[1:-1], kw)]
    return None


def mkpartial(st, I, fn, args, kw):
    return st.alloc(InstO(I.classes['object'], {}, ('partial', fn, tuple(args), tuple(sorted(kw.items())))))


def h_namedtuple(I, st, args, kw):
    nm = args[0].v
    f = args[1]
    fields = f.v.replace(',', ' ').split() if isinstance(f, Const) else [x.v for x in I.lib.iter_segs(I, st, f)[0][1]]
    ns = {'_fields': Tup(tuple(Const(x) for x in fields)), '$ntuple': TRUE, '__init__': Builtin('namedtuple.__init__'),
          '_replace': Builtin('namedtuple._replace'), '_asdict': Builtin('namedtuple._asdict'), '_make': ClassM(Builtin('namedtuple._make'))}
    d = kw.get('defaults')
    if d is not None:
        ns['$defaults'] = Tup(I.lib.iter_segs(I, st, d)[0][1])
    return [(st, I.make_class(st, nm, (), ns, None, nm))]


def nt_method(I, st, m, args, kw):
    if m == '_make':
        return [r for s, segs in I.lib.iter_segs(I, st, args[1]) for r in I.call(s, args[0], list(segs), {})]
    o = st.obj(args[0])
    fields = [x.v for x in I.mro_find(st, o.cls, '_fields')[0].items]
    if m == '__init__':
        vals = dict(zip(fields, args[1:]))
        if len(args) - 1 > len(fields) or any(k not in fields or k in vals for k in kw):
            return I.raise_(st, 'TypeError', 'namedtuple arguments')
        vals.update(kw)
        d = I.mro_find(st, o.cls, '$defaults')
        if d:
            for f, x in zip(reversed(fields), reversed(d[0].items)):
                vals.setdefault(f, x)
        if set(vals) != set(fields):
            return I.raise_(st, 'TypeError', 'missing namedtuple arguments')
        st.mut(args[0].a).attrs.update(vals)
        return [(st, NONE)]
    if m == '_replace':
        a = dict(o.attrs)
        a.update(kw)
        return [(st, st.alloc(InstO(o.cls, a, o.data)))]
    if m == '_asdict':
        return [(st, st.alloc(DictO({Const(f): o.attrs[f] for f in fields})))]


def h_reduce(I, st, args, kw):
    out = []
    for s, segs in I.lib.iter_segs(I, st, args[1]):
        segs = list(segs)
        if len(args) > 2:
            cur = [(s, args[2])]
        else:
            cur = [(s, segs.pop(0))]
        for x in segs:
            if isinstance(x, Many):
                cur = [(q, Fn('reduce', (v, x), kind(v) if kind(v) in ('str', 'int') else 'any')) for q, v in cur]
                continue
            cur = [r for q, v in cur for r in I.call(q, args[0], [v, x], {})]
        out += cur
    return out


def deep(I, st, v, memo, depth):
    if isinstance(v, Tup):
        return Tup(tuple(deep(I, st, x, memo, depth) for x in v.items))
    if not isinstance(v, Ref):
        return v
    if v.a in memo:
        return memo[v.a]
    o = st.obj(v)
    if isinstance(o, (ClassO, ModO, FrameO)):
        return v
    r = st.alloc(o.clone())
    memo[v.a] = r
    c = o.clone()

    def seg(x):
        if isinstance(x, Many):
            return Many(tuple(tuple(deep(I, st, y, memo, depth) for y in a) for a in x.alts), x.src, x.lo, x.hi)
        return deep(I, st, x, memo, depth)
    if depth:
        if isinstance(c, ListO):
            c.segs = tuple(seg(x) for x in c.segs)
        elif isinstance(c, DictO):
            c.d = {k: deep(I, st, x, memo, depth) for k, x in c.d.items()}
        elif isinstance(c, InstO):
            c.attrs = {k: deep(I, st, x, memo, depth) for k, x in c.attrs.items()}
            if isinstance(c.data, ListO):
                c.data.segs = tuple(seg(x) for x in c.data.segs)
            elif isinstance(c.data, DictO):
                c.data.d = {k: deep(I, st, x, memo, depth) for k, x in c.data.d.items()}
    st.heap[r.a] = c
    return r


def h_copy(depth):
    def f(I, st, args, kw):
        o = st.obj(args[0])
        if isinstance(o, InstO):
            m = I.mro_find(st, o.cls, '__deepcopy__' if depth else '__copy__')
            if m and isinstance(m[0], Func):
                return I.call(st, Bound(m[0], args[0]), [st.alloc(DictO())] if depth else [], {})
        if depth or not isinstance(args[0], Ref):
            return [(st, deep(I, st, args[0], {}, True))]
        return [(st, st.alloc(o.clone()))]
    return f


def h_splitext(I, st, args, kw):
    v = args[0]
    if v == NONE:
        return I.raise_(st, 'TypeError', 'expected str, bytes or os.PathLike object, not NoneType')
    if isinstance(v, Const):
        import posixpath
        return [(st, Tup(tuple(Const(x) for x in posixpath.splitext(v.v))))]
    s, tab = strs.encode(v)
    if all(strs.atom_lacks(a, './') for a in tab.values()):
        import posixpath
        a, b = posixpath.splitext(s)
        return [(st, Tup((strs.decode(a, tab), strs.decode(b, tab))))]
    return [(st, Tup((Fn('splitext', (v, ZERO), 'str'), Fn('splitext', (v, ONE), 'str'))))]


def path_attr(I, st, v, name):
    x = v.args[0]
    if name in ('suffix', 'stem', 'name') and is_str(x):
        s, tab = strs.encode(x)
        if all(strs.atom_lacks(a, './') for a in tab.values()):
            import pathlib
            return [(st, strs.decode(getattr(pathlib.PurePosixPath(s), name), tab))]
    if name in ('suffix', 'stem', 'name'):
        return [(st, Fn('path.' + name, (x,), 'str'))]
    return [(st, Fn('attr', (v, Const(name)), 'any'))]


def h_indent(I, st, args, kw):
    text, prefix = args[0], args[1]
    pred = args[2] if len(args) > 2 else kw.get('predicate', NONE)
    out = []
    for s, segs in strs.splitlines(I, st, text, True):
        r = []
        for x in segs:
            if isinstance(x, Many):
                r.append(Many(tuple(tuple(mkstr([prefix, y]) for y in a) for a in x.alts), x.src, x.lo, x.hi))
            elif isinstance(x, Const) and not x.v.strip() and pred == NONE:
                r.append(x)
            else:
                r.append(mkstr([prefix, x]))
        out.append((s, mkjoin(Const(''), r)))
    return out


def h_islice(I, st, args, kw):
    out = []
    for s, segs in I.lib.iter_segs(I, st, args[0]):
        a = list(args[1:])
        lo, hi = (NONE, a[0]) if len(a) == 1 else (a[0], a[1])
        out += [(s2, s2.alloc(ListO(g))) for s2, g in I.lib.list_slice(I, s, segs, lo, hi, a[2] if len(a) > 2 else NONE)]
    return out


def h_chain(I, st, args, kw):
    cur = [(st, ())]
    for a in args:
        cur = [(s2, acc + tuple(g)) for s, acc in cur for s2, g in I.lib.iter_segs(I, s, a)]
    return [(s, s.alloc(ListO(acc))) for s, acc in cur]


def h_chain_from(I, st, args, kw):
    return [r for s, segs in I.lib.iter_segs(I, st, args[0]) for r in h_chain(I, s, list(segs), {})]


def h_repeat(I, st, args, kw):
    if len(args) > 1:
        r = st.alloc(ListO((args[0],)))
        return I.lib.binop(I, st, 'Mult', r, args[1])
    return [(st, st.alloc(ListO((Many(((args[0],),), Fn('count', (ZERO,))),))))]


def h_count(I, st, args, kw):
    start = args[0] if args else ZERO
    step = args[1] if len(args) > 1 else kw.get('step', ONE)
    return [(st, st.alloc(InstO(I.classes['object'], {}, ('counter', start, step))))]


HANDLERS = {
    'namedtuple': h_namedtuple,
    'getmro': lambda I, st, a, k: [(st, Tup(st.obj(a[0]).mro))],
    'partial': lambda I, st, a, k: [(st, mkpartial(st, I, a[0], a[1:], k))],
    'reduce': h_reduce,
    'wraps': lambda I, st, a, k: [(st, Fn('decorator', (), 'any'))],
    'lru_cache': lambda I, st, a, k: [(st, a[0] if a and isinstance(a[0], Func) else Fn('decorator', (), 'any'))],
    'cmp_to_key': lambda I, st, a, k: [(st, Bound(Builtin('cmpkey.make'), a[0]))],
    'chain': h_chain, 'chain.from_iterable': h_chain_from, 'repeat': h_repeat, 'islice': h_islice, 'count': h_count,
    'itemgetter': lambda I, st, a, k: [(st, mkpartial(st, I, Builtin('opget.item'), a, {}))],
    'attrgetter': lambda I, st, a, k: [(st, mkpartial(st, I, Builtin('opget.attr'), a, {}))],
    'methodcaller': lambda I, st, a, k: [(st, mkpartial(st, I, Builtin('opget.method'), a, k))],
    'copy:copy': h_copy(False), 'copy:deepcopy': h_copy(True),
    'suppress': lambda I, st, a, k: [(st, Fn('suppress', tuple(a), 'any'))],
    'splitext': h_splitext,
    'cast': lambda I, st, a, k: [(st, a[1])],
    'MappingProxyType': lambda I, st, a, k: [(st, a[0])],
    'deque': lambda I, st, a, k: [(s, s.alloc(ListO(g))) for s, g in (I.lib.iter_segs(I, st, a[0]) if a else [(st, ())])],
    'html:escape': lambda I, st, a, k: [(st, Fn('html.escape', (a[0],), 'str'))],
    'html:unescape': lambda I, st, a, k: [(st, Fn('html.unescape', (a[0],), 'str'))],
    'textwrap:indent': h_indent,
    'textwrap:wrap': lambda I, st, a, k: std_wrap(I, st, a, k),
    'textwrap:fill': lambda I, st, a, k: [(s2, x) for s, l in std_wrap(I, st, a, k) for s2, x in I.call(s, Method(Const('\n'), 'join'), [l], {})],
    'PurePosixPath': lambda I, st, a, k: [(st, Fn('path', (a[0],), 'any'))],
    'PurePath': lambda I, st, a, k: [(st, Fn('path', (a[0],), 'any'))],
    'Path': lambda I, st, a, k: [(st, Fn('path', (a[0],), 'any'))],
    'PosixPath': lambda I, st, a, k: [(st, Fn('path', (a[0],), 'any'))],
    'urlparse': lambda I, st, a, k: h_urlparse(I, st, a, k, 'urlparse'),
    'urlsplit': lambda I, st, a, k: h_urlparse(I, st, a, k, 'urlsplit'),
    'quote': lambda I, st, a, k: [(st, Fn('quote', (a[0],), 'str'))],
    'unquote': lambda I, st, a, k: [(st, Fn('unquote', (a[0],), 'str'))],
}


# ---------------------------------------------------------------- re
def regex(I, st, p, flags=0):
    if isinstance(p, Fn) and p.op == 'regex':
        return p
    if not isinstance(p, Const) and not (isinstance(p, Fn) and p.op == 're.escape'):
        st.event('pattern', p, I.where())
    if isinstance(p, Const) and isinstance(flags, int):
        return Fn('regex', (p, Const(flags)), 'any')
    return Fn('regex', (p, Const(flags if isinstance(flags, int) else 0)), 'any')


def re_func(I, st, name, args, kw):
    fl = kw.pop('flags', None)
    f = fl.v if isinstance(fl, Const) else 0
    if name == 'compile':
        if len(args) > 1 and isinstance(args[1], Const):
            f = int(args[1].v)
        if isinstance(args[0], Const):
            try:
                re.compile(args[0].v, f)
            except re.error as e:
                return I.raise_(st, 'ValueError', 're.error: %s' % e)
        return [(st, regex(I, st, args[0], f))]
    if name == 'escape':
        return [(st, Const(re.escape(args[0].v)) if isinstance(args[0], Const) else Fn('re.escape', (args[0],), 'str'))]
    n = {'sub': 4, 'subn': 4, 'split': 3}.get(name, 2)
    if len(args) > n and isinstance(args[n], Const):
        f = int(args[n].v)
        args = args[:n]
    return regex_method(I, st, regex(I, st, args[0], f), name, args[1:], kw)


def regex_method(I, st, r, name, args, kw):
    pat, fl = r.args
    s_i = {'sub': 1, 'subn': 1}.get(name, 0)
    if name in ('sub', 'subn') and 'repl' in kw:
        args = [kw['repl']] + list(args)
    if 'string' in kw:
        args = list(args) + [kw['string']]
    if name in ('pattern', 'flags'):
        return [(st, pat)]
    s = st.resolve(args[s_i])
    if s == NONE or st.known_none(s) or is_int(s):
        return I.raise_(st, 'TypeError', 'expected string or bytes-like object, got %s' % kind(s))
    if is_opt(s) and Fn('isnone', (s,), 'bool') not in st.facts:
        out = []
        for s1, b in I.split(st, Fn('isnone', (s,), 'bool')):
            out += I.raise_(s1, 'TypeError', 'expected string or bytes-like object (optional %s is None)' % show(s)) if b else regex_method(I, s1, r, name, args, {})
        return out
    if isinstance(s, Union):
        return [x for s1, y in I.expand(st, s) for x in regex_method(I, s1, r, name, list(args[:s_i]) + [y] + list(args[s_i + 1:]), {})]
    if isinstance(s, Const) and isinstance(pat, Const) and all(isinstance(a, Const) for a in args) and name in ('sub', 'findall', 'split', 'subn'):
        rx = re.compile(pat.v, fl.v)
        return [(st, strs.wrap_py(st, getattr(rx, name)(*[a.v for a in args])))]
    if isinstance(s, Const) and isinstance(pat, Const) and len(args) == 1 and name == 'finditer':
        return [(st, st.alloc(ListO(tuple(ExtPy(m) for m in re.compile(pat.v, fl.v).finditer(s.v)))))]
    if name in ('sub', 'split', 'findall', 'finditer', 'search', 'match', 'fullmatch') and isinstance(pat, Const) and isinstance(s, (Str, Sym, Fn)) and len(args) == s_i + 1:
        r2 = skeleton_regex(st, s, pat.v, fl.v, name, args)
        if r2 is not None:
            return [(st, r2)]
    if name in ('sub', 'subn'):
        rep = args[0]
        if is_str(rep) and not strs.atom_lacks(rep, '\\'):
            st.event('pattern', rep, I.where())
        if isinstance(pat, Const) and rep == Const('') and strs.is_ansi_regex(pat.v, fl.v):
            t = strs.strip_ansi(s)
        elif isinstance(pat, Const) and is_str(rep) and single_char_set(pat.v, fl.v) is not None and all(
                strs.atom_lacks(p, c) for p in strs.part_terms(s) for c in single_char_set(pat.v, fl.v)):
            t = s
        else:
            t = Fn('re.sub', (r, rep, s), 'str')
        return [(st, t if name == 'sub' else Tup((t, Fn('re.subn', (r, s), 'int'))))]
    if name in ('match', 'search', 'fullmatch'):
        if isinstance(s, Const) and isinstance(pat, Const):
            m = getattr(re.compile(pat.v, fl.v), name)(s.v)
            return [(st, NONE if m is None else ExtPy(m))]
        return [(st, Fn('re.' + name, (r, s), 'any'))]
    if name in ('findall', 'split', 'finditer'):
        src = Fn('re.' + name, (r, s))
        return [(st, st.alloc(ListO((Many(((Fn('elem', (src,), 'str' if name != 'finditer' else 'any'),),), src),))))]
    return [(st, Fn('re.' + name, (r,) + tuple(args), 'any'))]


def match_method(I, st, v, name, args, kw):
    gs, starts, ends, _ = v.args
    idx = [st.resolve(a) for a in args]
    if kw or not all(isinstance(a, Const) and isinstance(a.v, int) for a in idx):
        return None
    idx = [a.v for a in idx]
    if any(not 0 <= i < len(gs.items) for i in idx) and name != 'groups':
        return I.raise_(st, 'IndexError', 'no such group')
    if name in ('group', '__getitem__'):
        r = [gs.items[i] for i in idx or [0]]
        return [(st, r[0] if len(r) == 1 else Tup(tuple(r)))]
    if name == 'groups':
        return [(st, Tup(gs.items[1:]))]
    i = idx[0] if idx else 0
    if name == 'span':
        return [(st, Tup((starts.items[i], ends.items[i])))]
    return [(st, (starts if name == 'start' else ends).items[i])]


def consumed(items):
    """The characters a pattern can match, or None when unknown/unsupported."""
    out = set()
    for op, av in items:
        o = str(op)
        if o == 'LITERAL':
            out.add(chr(av))
        elif o == 'IN':
            for q, a in av:
                q = str(q)
                if q == 'LITERAL':
                    out.add(chr(a))
                elif q == 'RANGE' and a[1] - a[0] < 300:
                    out |= {chr(c) for c in range(a[0], a[1] + 1)}
                elif q == 'CATEGORY' and str(a) == 'CATEGORY_SPACE':
                    out |= set(strs.WS)
                elif q == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT':
                    out |= set('0123456789')
                else:
                    return None
        elif o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            r = consumed(av[2])
            if r is None:
                return None
            out |= r
        elif o == 'SUBPATTERN':
            r = consumed(av[3])
            if r is None:
                return None
            out |= r
        elif o == 'BRANCH':
            for b in av[1]:
                r = consumed(b)
                if r is None:
                    return None
                out |= r
        else:
            return None
    return out


def skeleton_regex(st, s, pat, fl, name, args):
    """Apply a regex to a partly symbolic string when no match can involve
    the symbolic pieces; None when that is not certain."""
    atoms = [p for p in parts_of(s) if not isinstance(p, str)]
    if strs.is_ansi_regex(pat, fl):
        if name == 'sub':
            return None
        if not all(strs.atom_lacks(a, '\x1b') for a in atoms):
            return None
        skel, tab = strs.encode(s)
        num = ''.join(c for c, a in tab.items() if isinstance(a, Fn) and a.op == 'int->str')
        body = '\x1b\\[[;0-9%s]*m' % num
        g = re.compile(pat, fl).groups
        if g > 1:
            return None
        rx = re.compile('(' + body + ')' if g else body)
    else:
        try:
            cs = consumed(strs.sre_parse.parse(pat, fl))
        except Exception:
            return None
        if cs is None or not all(strs.atom_lacks(a, c) for a in atoms for c in cs) or fl & re.IGNORECASE:
            return None
        skel, tab = strs.encode(s)
        rx = re.compile(pat, fl)
    if name == 'sub':
        rep = args[0]
        if not isinstance(rep, Const) or not isinstance(rep.v, str) or '\\' in rep.v:
            return None
        return strs.decode(rx.sub(rep.v, skel), tab)
    r = getattr(rx, name)(skel)
    if name in ('finditer', 'search', 'match', 'fullmatch'):
        def match(m):
            if m is None:
                return NONE
            at = lambda k: Const(-1) if k < 0 else strs.slen(strs.decode(skel[:k], tab))
            n = range(m.re.groups + 1)
            return Fn('match', (Tup(tuple(NONE if m.group(i) is None else strs.decode(m.group(i), tab) for i in n)),
                                Tup(tuple(at(m.start(i)) for i in n)), Tup(tuple(at(m.end(i)) for i in n)), s), 'any')
        return st.alloc(ListO(tuple(match(m) for m in r))) if name == 'finditer' else match(r)

    def dec(x):
        if isinstance(x, tuple):
            return Tup(tuple(dec(y) for y in x))
        return NONE if x is None else strs.decode(x, tab)
    return st.alloc(ListO(tuple(dec(x) for x in r)))


def single_char_set(pat, fl):
    """Characters of a pattern that is one character class (repeated), or None."""
    try:
        items = list(strs.sre_parse.parse(pat, fl))
    except Exception:
        return None
    if len(items) != 1:
        return None
    op, av = items[0]
    if str(op).endswith('REPEAT'):
        if av[0] < 1 or len(list(av[2])) != 1:
            return None
        op, av = list(av[2])[0]
    if str(op) == 'LITERAL':
        return chr(av)
    if str(op) == 'IN':
        out = ''
        for q, a in av:
            if str(q) == 'LITERAL':
                out += chr(a)
            elif str(q) == 'CATEGORY' and str(a) == 'CATEGORY_SPACE':
                out += ' \t\n\r\x0b\x0c'
            else:
                return None
        return out
    return None


# ---------------------------------------------------------------- urls
def h_urlparse(I, st, args, kw, which):
    v = st.resolve(args[0])
    if is_opt(v) and Fn('isnone', (v,), 'bool') not in st.facts:
        out = []
        for s, b in I.split(st, Fn('isnone', (v,), 'bool')):
            out += h_urlparse(I, s, [NONE if b else v], kw, which)
        return out
    if v == NONE or st.known_none(v):
        return [(st, Fn(which, (NONE,), 'any'))]
    if isinstance(v, Const):
        try:
            urllib.parse.urlparse(v.v)
        except ValueError as e:
            return I.raise_(st, 'ValueError', str(e))
    elif not url_safe(v) and I.opts.get('url_errors'):
        I.raise_(st.copy(), 'ValueError', 'urlparse(%s): Invalid IPv6 URL' % show(v))
    return [(st, Fn(which, (v,), 'any'))]


def url_safe(v):
    return all(isinstance(p, str) or (isinstance(p, Fn) and p.op == 'int->str') or strs.atom_lacks(p, ':/?#@[]') for p in parts_of(v))


def url_attr(I, st, u, name):
    v = u.args[0]
    if name == 'geturl':
        return [(st, Method(v, '__str__'))]
    if v == NONE:
        val = {'hostname': NONE, 'port': NONE, 'username': NONE, 'password': NONE}.get(name, Const(b''))
        return [(st, val)]
    if name not in URL_FIELDS + ('hostname', 'port', 'username', 'password'):
        return I.raise_(st, 'AttributeError', name)
    # tabs and line breaks are removed from URLs
    v = mkstr([p if isinstance(p, str) or strs.atom_lacks(p, '\t\r\n') else Fn('urlclean', (p,), 'str') for p in parts_of(v)])
    if url_safe(v):
        s, tab = strs.encode(v)
        pu = getattr(urllib.parse, u.op)(s)
        if name == 'port':
            nl = pu.netloc.rpartition('@')[2]
            _, have, port = nl.partition(':')
            if not have or not port:
                return [(st, NONE)]
            t = strs.decode(port, tab)
            if isinstance(t, Const):
                try:
                    return [(st, Const(pu.port))]
                except ValueError as e:
                    return I.raise_(st, 'ValueError', str(e))
            if isinstance(t, Fn) and t.op == 'int->str':
                return [(st, t.args[0])]
            if I.opts.get('url_errors'):
                I.raise_(st.copy(), 'ValueError', 'Port could not be cast to integer value')
            return [(st, Fn('int', (t,), 'int'))]
        r = getattr(pu, name)
        return [(st, NONE if r is None else strs.decode(r, tab))]
    if name == 'port':
        if I.opts.get('url_errors'):
            I.raise_(st.copy(), 'ValueError', 'urlparse(%s).port: Port out of range / not a number' % show(v))
        return [(st, Fn('url.port', (v,), 'int'))]
    if name in ('hostname', 'username', 'password'):
        return [(st, Fn('url.hostname' if name == 'hostname' else 'opt', (v,) if name == 'hostname' else (v, Const(name)), 'str'))]
    if name == 'scheme':
        s, tab = strs.encode(v)
        m = re.match('[a-zA-Z][a-zA-Z0-9+.-]*:', s)
        if m:
            return [(st, Const(s[:m.end() - 1].lower()))]
    return [(st, Fn('url.' + name, (v,), 'str'))]


# ---------------------------------------------------------------- textwrap
def std_wrap(I, st, args, kw):
    out = []
    for s, w in I.call(st, I.classes['TextWrapper'], [], dict(kw, **({'width': args[1]} if len(args) > 1 else {}))):
        out += I.call(s, Bound(Builtin('TextWrapper.wrap'), w), [args[0]], {})
    return out


def tw_method(I, st, m, args, kw):
    o = st.obj(args[0])
    if m == '__init__':
        names = list(TW_DEFAULTS)
        pos = dict(zip(names[:9] + ['tabsize'], args[1:]))
        vals = {k: Const(v) for k, v in TW_DEFAULTS.items()}
        for k, v in list(pos.items()) + list(kw.items()):
            if k == '**':
                I.raise_(st.copy(), 'TypeError', 'TextWrapper() unexpected keyword arguments possible')
                continue
            if k not in vals:
                return I.raise_(st, 'TypeError', "TextWrapper.__init__() got an unexpected keyword argument '%s'" % k)
            vals[k] = v
        st.mut(args[0].a).attrs.update(vals)
        return [(st, NONE)]
    if m in ('wrap', 'fill'):
        text = st.resolve(args[1])
        if not is_str(text):
            if text == NONE or isinstance(text, (Ref, Tup)):
                return I.raise_(st, 'AttributeError', "wrap() of a non-string")
        a = o.attrs
        w = a['width']
        if I.opts.get('wrap_errors') and is_int(w):
            ok = []
            for s, b in I.truth(st, I.cmp_lin('>', w, ZERO)):
                if b:
                    ok.append(s)
                else:
                    I.raise_(s, 'ValueError', 'invalid width %s (must be > 0)' % show(w))
        else:
            ok = [st]
        wc = I.mro_find(st, o.cls, '_wrap_chunks')
        aware = I.funcs[wc[0].uid].qual if isinstance(wc[0], Func) else ''
        hl = I.mro_find(st, o.cls, '_handle_long_word')
        if isinstance(hl[0], Func):
            aware += '+' + I.funcs[hl[0].uid].qual
        opts = Tup(tuple(Tup((Const(k), a[k])) for k in sorted(TW_DEFAULTS) if k != 'width'))
        if I.opts.get('words') is not None and is_str(text):
            out = []
            for s in ok:
                s.event('wrap', text, w, opts, aware, I.where())
                ls = word_wrap(I, s, text, w, a, I.opts['words'])
                r = s.alloc(ListO(ls))
                if m == 'fill':
                    out += I.call(s, Method(Const('\n'), 'join'), [r], {})
                else:
                    out.append((s, r))
            return out
        if I.opts.get('exact') and is_str(text):
            out = []
            for s, text in [r for q in ok for r in settle_runs(I, q, text)]:
                s.event('wrap', text, w, opts, aware, I.where())
                ch = s.alloc(ListO(tuple(mkstr(ps) for _, ps in text_chunks(text, a))))
                out += [r for s2, f in I.getattr_(s, args[0], '_wrap_chunks') for r in I.call(s2, f, [ch], {})]
            if m == 'fill':
                out = [r for s2, x in out for r in I.call(s2, Method(Const('\n'), 'join'), [x], {})]
            return out
        src = Fn('wraplines', (text, w, opts, Const(aware)))
        out = []
        for s in ok:
            if isinstance(text, Const) and not text.v.strip():
                segs = () if not text.v or a['drop_whitespace'] == TRUE else (text,)
            else:
                segs = (Many(((Fn('elem', (src,), 'str'),),), src),)
            r = s.alloc(ListO(segs))
            if m == 'fill':
                out += I.call(s, Method(Const('\n'), 'join'), [r], {})
            else:
                out.append((s, r))
        return out
    if m == '_handle_long_word' and I.opts.get('exact'):
        return long_word(I, st, args)
    return [(st, Fn('TextWrapper.' + m, tuple(args), 'any'))]


def long_word(I, st, args):
    """TextWrapper._handle_long_word of the standard library, for chunks without hyphens."""
    self_, chunks, line, cur_len, width = args
    a = st.obj(self_).attrs
    out = []
    for s, b in I.truth(st, a['break_long_words']):
        cs = s.obj(chunks).segs
        if not cs or any(isinstance(x, Many) for x in cs):
            raise _gap('a long word of unknown chunks')
        chunk = s.resolve(cs[-1])
        if not b:
            for s1, e in I.truth(s, line):
                if not e:
                    s1.mut(chunks.a).segs = cs[:-1]
                    s1.mut(line.a).segs = (chunk,)
                out.append((s1, NONE))
            continue
        if not strs.atom_lacks(chunk, '-'):
            raise _gap('a long word that may have hyphens')
        for s1, neg in I.truth(s, I.cmp_lin('<', width, ONE)):
            end = ONE if neg else ladd(width, cur_len, -1)
            for s2, x, y in strs.cut(I, s1, chunk, end):
                s2.mut(chunks.a).segs = cs[:-1] + (y,)
                o = s2.mut(line.a)
                o.segs = o.segs + (x,)
                out.append((s2, NONE))
    return out


def settle_runs(I, st, text):
    """Decide which runs of blanks in a text are empty."""
    todo = [(st, [], list(parts_of(text)))]
    res = []
    while todo:
        s, done, rest = todo.pop()
        while rest and not (isinstance(rest[0], Fn) and rest[0].op == 'rep' and isinstance(rest[0].args[0], Const) and not rest[0].args[0].v.strip()):
            done = done + [rest[0]]
            rest = rest[1:]
        if not rest:
            res.append((s, mkstr(done)))
            continue
        for s2, b in I.truth(s, I.cmp_lin('>', rest[0].args[1], ZERO)):
            todo.append((s2, done + (rest[:1] if b else []), rest[1:]))
    return res


def text_chunks(text, a):
    """The (blank?, parts) chunks the wrapper splits a text into."""
    chunks = []                   # alternating words / whitespace, as lists of parts
    for p in parts_of(text):
        if isinstance(p, str):
            if a['replace_whitespace'] == TRUE or a['expand_tabs'] == TRUE:
                p = ''.join(' ' if c in strs.WS else c for c in p)
            for b in re.split('([ ]+)', p):
                if b:
                    w = b[0] == ' '
                    if chunks and chunks[-1][0] == w:
                        chunks[-1][1].append(b)
                    else:
                        chunks.append((w, [b]))
            continue
        w = isinstance(p, Fn) and p.op == 'rep' and isinstance(p.args[0], Const) and not p.args[0].v.strip()
        w = w or p == OPTNL
        if p == OPTNL:
            p = ' '
        if w and a['replace_whitespace'] == TRUE and isinstance(p, Term):
            p = mkrep(Const(' ' * len(p.args[0].v)), p.args[1])
        if not w and not all(strs.atom_lacks(p, c) for c in ' \n\t'):
            from .interp import Gap
            raise Gap('wrapping of %s, which is not made of words' % show(p))
        if chunks and chunks[-1][0] == w:
            chunks[-1][1].append(p)
        else:
            chunks.append((w, [p]))
    if a['fix_sentence_endings'] == TRUE:
        for j in range(len(chunks) - 1):
            last = chunks[j][1][-1]
            if not chunks[j][0] and isinstance(last, str) and re.search('[a-z][.!?][\'"]?$', last) and chunks[j + 1][1] == [' ']:
                chunks[j + 1] = (True, ['  '])
    return chunks


def word_wrap(I, st, text, width, a, per_line):
    """The lines of a paragraph under the assumption that the wrapper puts
    `per_line` words (a number, or a function of the line index) on each line;
    None means that the text fits on one line."""
    chunks = text_chunks(text, a)
    lines = []
    i = 0
    drop = a['drop_whitespace'] == TRUE
    ln = [strs.vlen(mkstr(ps)) for _, ps in chunks]
    while i < len(chunks):
        if chunks[i][0] and lines and drop:
            i += 1
            if i == len(chunks):
                break
        n = per_line(len(lines)) if callable(per_line) else per_line
        cur, words = [], 0
        ind = a['subsequent_indent'] if lines else a['initial_indent']
        avail = ladd(width, strs.slen(ind), -1)
        used = ZERO
        while i < len(chunks):
            tot = ladd(used, ln[i])
            # a run of blanks that cannot fit ends the line; words go by the assumption
            over = I.surely(st, '>', tot, avail)
            if chunks[i][0]:
                if over and cur:
                    break
                if over and not lines:
                    # a leading run of blanks longer than the line is cut
                    cut = ONE if I.surely(st, '<', avail, ONE) else avail
                    rest = ladd(ln[i], cut, -1)
                    chunks[i] = (True, [mkrep(Const(' '), rest)])
                    ln[i] = rest
                    if not drop:
                        cur.append((True, [mkrep(Const(' '), cut)]))
                        break
                    continue
            else:
                if n and words == n or over and cur and not (n and words < n):
                    break
                words += 1
            cur.append(chunks[i])
            used = tot
            i += 1
        if drop and cur and cur[-1][0]:
            cur.pop()
        if not cur:
            continue
        lines.append(mkstr([ind] + [x for _, ps in cur for x in ps]))
    return tuple(lines)


# ---------------------------------------------------------------- HTMLParser
def html_method(I, st, m, args, kw):
    self_ = args[0]
    if m == '__init__':
        o = st.mut(self_.a)
        o.attrs['convert_charrefs'] = kw.get('convert_charrefs', args[1] if len(args) > 1 else TRUE)
        return [(s2, NONE) for s, f in I.getattr_(st, self_, 'reset') for s2, _ in I.call(s, f, [], {})]
    if m == 'reset':
        I.mutating(st, self_.a, 'attribute rawdata').attrs.update({'$raw': Const(''), 'rawdata': Const('')})
        return [(st, NONE)]
    if m == 'close':
        # what is buffered is processed; the mode of the scanner (within a script, say) stays
        st.mut(self_.a).attrs['rawdata'] = Const('')
        return [(st, NONE)]
    if m == 'feed':
        st.event('feed', I.where())
        out = []
        for s, segs in I.lib.iter_segs(I, st, args[1]):
            I.mutating(s, self_.a, 'attribute rawdata').attrs.update({'$raw': Sym('scanner state after feeding', 'str'), 'rawdata': Sym('buffered input', 'str')})
            fr = s.frame
            hold = s.get(fr)

            def bindf(x, v):
                x.mut(x.frame).vars['$tok'] = v
                return [x]

            def body(x):
                t = x.get(x.frame).vars['$tok']
                return [('next', s3, None) for s3 in dispatch(I, x, self_, t)]
            for k, s2, _ in I.loop_segs(s, segs, bindf, body, None, ('feed', I.where())):
                s2.mut(s2.frame).vars.pop('$tok', None)
                out.append((s2, NONE))
        return out
    if m == 'handle_startendtag':
        out = []
        for s, f in I.getattr_(st, self_, 'handle_starttag'):
            for s2, _ in I.call(s, f, [args[1], args[2]], {}):
                for s3, g in I.getattr_(s2, self_, 'handle_endtag'):
                    out += [(s4, NONE) for s4, _ in I.call(s3, g, [args[1]], {})]
        return out
    if m in ('getpos',):
        return [(st, Tup((Sym('line', 'int'), Sym('col', 'int'))))]
    return [(st, NONE)]


def dispatch(I, st, self_, tok):
    """[st] after the parser has processed one token."""
    if not isinstance(tok, Tup):
        o = st.obj(tok)
        if isinstance(o, ListO):
            tok = Tup(o.segs)
        elif is_str(tok):
            tok = Tup((Const('data'), tok))
        else:
            from .interp import Gap
            raise Gap('feed() of an unmodelled document: %s' % show(tok)[:200])
    t = tok.items
    k = t[0].v
    name = {'start': 'handle_starttag', 'end': 'handle_endtag', 'startend': 'handle_startendtag', 'data': 'handle_data',
            'comment': 'handle_comment', 'decl': 'handle_decl', 'pi': 'handle_pi'}[k]
    args = list(t[1:])
    if k in ('start', 'startend') and len(args) == 1:
        args.append(st.alloc(ListO()))
    elif k in ('start', 'startend'):
        # the parser builds a fresh list for every tag
        p = I.lib.payload(st, args[1])
        if isinstance(p, ListO):
            args[1] = st.alloc(ListO(p.segs))
    out = []
    for s, f in I.getattr_(st, self_, name):
        for s2, _ in I.call(s, f, args, {}):
            out.append(s2)
    return out


def _gap(m):
    from .interp import Gap
    return Gap(m)
