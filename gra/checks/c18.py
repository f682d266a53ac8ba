"""C18: the code themes of the package are valid and take effect."""
import re

from ..docs import *
from .c16 import terminal, NAMES, EFFECTS

TITLE = 'Every code theme styles the tokens it lists'
EXPLAIN = ('Each module of code_themes is interpreted and its rules are read off the abstract value of renderers; highlighted code is then rendered abstractly with '
           'the theme, and a model of a terminal must show every token with exactly the colours and effects that the rule for its class gives.')
MIN_CASES = 9

SETTINGS = set(EFFECTS) | {'foreground_colour', 'background_colour', 'font', 'normalise', 'template', 'capitalized'}
# the short names pygments gives to tokens
TOKENS = set('''hll gc x err w esc k kc kd kn kp kr kt n na nb bp nc no nd ni ne nf fm py nl nn nx nt nv vc vg vi vm l ld s sa sb sc dl sd s2 se sh si sx sr s1 ss m mb mf mh
 mi il mo o ow p pm c ch cm cp cpf c1 cs g gd ge ges gr gh gi go gp gs gu gt highlight codehilite linenos lineno special gl'''.split())


def colour(v, what):
    if isinstance(v, bool) or v is None:
        raise Fail('%s is %r' % (what, v))
    if isinstance(v, int):
        if not 0 <= v <= 255:
            raise Fail('%s is not in the palette: %d' % (what, v))
        return '5;%d' % v
    if isinstance(v, tuple):
        if len(v) != 3 or not all(isinstance(x, int) and 0 <= x <= 255 for x in v):
            raise Fail('%s is no colour: %r' % (what, v))
        return '2;%d;%d;%d' % v
    n = v[7:] if v.startswith('bright_') else v
    if n in NAMES:
        return (90 if n != v else 30) + NAMES.index(n)
    m = re.fullmatch('#?([0-9a-fA-F]{3}|[0-9a-fA-F]{6})', v)
    if not m:
        raise Fail('%s is no colour: %r' % (what, v))
    x = m.group(1)
    x = ''.join(c * 2 for c in x) if len(x) == 3 else x
    return '2;%d;%d;%d' % tuple(int(x[i:i + 2], 16) for i in (0, 2, 4))


def py(st, v):
    v = st.resolve(v)
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup):
        return tuple(py(st, x) for x in v.items)
    o = st.obj(v) if isinstance(v, Ref) else None
    if o is not None and not hasattr(o, 'segs') and not hasattr(o, 'd') and isinstance(getattr(o, 'data', None), DictO):
        o = o.data
    if isinstance(o, DictO) and o.rest is None:
        return {py(st, k): py(st, x) for k, x in o.d.items()}
    if isinstance(o, ListO) and not any(isinstance(x, Many) for x in o.segs):
        return [py(st, x) for x in o.segs]
    raise Undecided('theme value %s' % show(v)[:100])


def rules(h, name):
    """[(compound selectors, settings)] of a theme, and whether each has the ANSI renderer"""
    st = h.I.new_state()
    ns = h.ns('gopher_render.code_themes.' + name)
    if 'renderers' not in ns:
        raise Fail('the theme %s has no renderers' % name)
    d = st.obj(st.resolve(ns['renderers']))
    d = d.data if isinstance(getattr(d, 'data', None), DictO) else d
    if not isinstance(d, DictO) or d.rest is not None:
        raise Undecided('the renderers of the theme are no dictionary of known keys')
    ansi = st.resolve(h.ns('gopher_render.rendering')['AnsiEscapeCodeRenderer'])
    res = []
    for k, v in d.d.items():
        sel, v = py(st, k), st.resolve(v)
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref) and isinstance(st.obj(v), ListO):
            items = tuple(st.obj(v).segs)
        else:
            items = (v,)
        if st.resolve(items[0]) != ansi:
            raise Undecided('%s: %s is not shown by AnsiEscapeCodeRenderer' % (name, sel))
        s = py(st, items[1]) if len(items) > 1 else {}
        res.append((sel, s))
    if not res:
        raise Fail('the theme %s has no rules' % name)
    return res


def style(name, sel, s):
    what = '%s: %s of %s' % (name, '%s', sel)
    bad = [k for k in s if k not in SETTINGS]
    if bad:
        raise Fail('%s: %s has the unknown setting %s' % (name, sel, ', '.join(bad)), '%s %s' % (name, sel))
    r = {}
    for k, v in s.items():
        if k == 'foreground_colour':
            r['fg'] = colour(v, what % k)
        elif k == 'background_colour':
            r['bg'] = colour(v, what % k)
        elif k in EFFECTS and v:
            r[k] = True
    return r


def compounds(name, sel):
    """[[(tag, class)]] of a group of class selectors"""
    res = []
    for one in sel.split(','):
        parts = one.split()
        m = [re.fullmatch('(span|div|pre|code)?\\.([\\w-]+)', p) for p in parts]
        if not parts or not all(m):
            raise Undecided('%s: selector %r' % (name, one))
        res.append([(x.group(1), x.group(2)) for x in m])
    return res


def matches(chain, path):
    """path: [(tag, class)] from the outermost element to the styled one"""
    def fits(c, e):
        return c[1] == e[1] and c[0] in (None, e[0])
    if not fits(chain[-1], path[-1]):
        return False
    i = 0
    for e in path[:-1]:
        if i < len(chain) - 1 and fits(chain[i], e):
            i += 1
    return i == len(chain) - 1


def theme(h, name, shape, part, every):
    rs = []
    for n, (sel, s) in enumerate(rules(h, name)):
        st = style(name, sel, s)
        for c in compounds(name, sel):
            rs.append(((len(c), sum(1 for x in c if x[0]), n), c, st))
            for x in c:
                if part == 0 and x[1] not in TOKENS:
                    yield '%s %s' % (name, sel), '%s: no token has the class %s' % (name, x[1])
        if not st and part == 0:
            yield '%s %s' % (name, sel), '%s: the rule %s has no effect' % (name, sel)

    def applied(path):
        m = [r for r in rs if matches(r[1], path)]
        return max(m, key=lambda r: r[0])[2] if m else {}
    tokens = []
    for _, c, _ in rs:
        p = [x[1] for x in c if x[1] not in ('highlight', 'codehilite')]
        if p and p not in tokens:
            tokens.append(p)
    tokens = [p for i, p in enumerate(tokens) if i % every == part]
    if not tokens:
        return
    kids = []
    for n, p in enumerate(tokens):
        k = [T(W('S%d' % n))]
        for c in reversed(p):
            k = el('span', *k, attrs=[('class', Const(c if shape != 'other classes' else 'a0 ' + c + ' z9'))])
        kids += [T(mkstr([W('T%d' % n), ' ' if n % 3 else '\n']))] + k + [T(Const(' '))]
    kids.append(T(W('Z')))
    outer = el('p', *kids) if shape == 'text' else el('pre', el('code', *kids) if shape == 'in code' else kids)
    d = el('div', outer, attrs=[('class', Const('codehilite highlight' if shape == 'other classes' else 'highlight'))])
    r = h.ns('gopher_render.code_themes.' + name)['renderers']
    base = applied([('div', 'highlight')])
    for o in render(h, d, 'optimise=False, width=2000, renderers=R', 0, env={'R': r}):
        runs, end = terminal(skel(out(o)))
        seen = {}
        for p, sty in runs:
            for w in re.findall('⟨(\\w+)[^⟩]*⟩', p):
                seen[w] = sty
        for i, p in enumerate(tokens):
            c = '.' + ' .'.join(p)
            if 'S%d' % i not in seen or 'T%d' % i not in seen:
                yield '%s %s' % (name, c), '%s: the text of %s is lost' % (name, c)
                continue
            path = [('div', 'highlight')] + [('span', x) for x in p]
            over = [applied(path[:k]) for k in range(1, len(path))]
            want, got = applied(path), seen['S%d' % i]
            if any(got.get(k) != v for k, v in want.items()) or any(k not in want and not any(x.get(k) == v for x in over) for k, v in got.items()):
                yield '%s %s' % (name, c), '%s: a token of %s is shown with %s instead of %s' % (name, c, got, want)
            if any(base.get(k) != v for k, v in seen['T%d' % i].items()):
                yield '%s %s' % (name, c), '%s: the text before a token of %s is shown with %s' % (name, c, seen['T%d' % i])
        if end or any(base.get(k) != v for k, v in seen.get('Z', {}).items()):
            yield name, '%s: the style %s is still on after the code' % (name, end or seen.get('Z'))


def base(h, name):
    st = h.I.new_state()
    ns = h.ns('gopher_render.code_themes.' + name)
    for k in ('background_colour', 'foreground_colour'):
        if k in ns:
            colour(py(st, ns[k]), '%s: %s' % (name, k))
        elif 'background_colour' in ns and name != 'github':
            # (GitHub's theme has no foreground colour)
            yield '%s %s' % (name, k), '%s: the base colour %s is not defined' % (name, k)
        elif 'foreground_colour' in ns:
            yield '%s %s' % (name, k), '%s: the base colour %s is not defined' % (name, k)


def cases(h, tier):
    for name in h.themes:
        yield Case('base', name, base, name)
    for name in h.themes:
        for shape in ['pre', 'text'] + (['in code', 'other classes'] if tier == 'thorough' else []):
            for part in range(8):
                yield Case('theme', '%s, %s, part %d' % (name, shape, part + 1), theme, name, shape, part, 8)
        if tier == 'thorough':
            for part in range(40):
                yield Case('theme', '%s, few, part %d' % (name, part + 1), theme, name, 'pre', part, 40)
