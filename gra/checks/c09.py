"""C09: attribute, class and id selectors."""
from ..docs import *

TITLE = 'Attribute, class and id selectors compare values as in CSS'
EXPLAIN = ('Abstract interpretation of renderings of an element whose attribute value is partly unknown (known fragments around '
           'arbitrary text): each attribute, class and id selector must match for all of the values, or for none, as CSS defines; '
           'an unknown value may decide the match only by the comparison CSS prescribes.')
MIN_CASES = 60

R_ = lambda n='REST': sym(n)                       # arbitrary text
NE = lambda n='REST': sym(n, 'str', FLAG_NONEMPTY)


def M(*p):
    return mkstr(list(p))


# (selector, attribute, value as parts, matches)
ROWS = [
    # exists
    ('[t]', [('t', R_())], True), ('[t]', [('t', Const(''))], True), ('[t]', [('t', Const(None))], True), ('[t]', [], False),
    ('[t]', [('u', R_())], False), ('[t]', [('tt', R_())], False), ('[u][t]', [('t', R_())], False), ('[u][t]', [('t', R_()), ('u', R_('B'))], True),
    # =
    ('[t="ab"]', [('t', Const('ab'))], True), ('[t="ab"]', [('t', M('ab', NE()))], False), ('[t="ab"]', [('t', M(NE(), 'ab'))], False),
    ('[t="ab"]', [('t', Const('AB'))], False), ('[t="ab"]', [('t', Const(''))], False), ('[t="ab"]', [('t', Const(None))], False),
    ('[t=""]', [('t', Const(''))], True), ('[t=""]', [('t', Const(None))], True), ('[t=""]', [('t', NE())], False), ('[t="ab"]', [('u', Const('ab'))], False),
    ('[t="a b"]', [('t', Const('a b'))], True), ('[t="a b"]', [('t', Const('b a'))], False), ('[t="ab"]', [], False),
    # ~=
    ('[t~="ab"]', [('t', Const('ab'))], True), ('[t~="ab"]', [('t', words('A', M('ab'), 'B'))], True), ('[t~="ab"]', [('t', M('ab ', R_()))], True),
    ('[t~="ab"]', [('t', M(R_(), ' ab'))], True), ('[t~="ab"]', [('t', M(W('A'), '\n', 'ab', '\t', W('B')))], True),
    ('[t~="ab"]', [('t', M('x', W('A'), ' ', 'y', W('B')))], False), ('[t~="ab"]', [('t', M('ab-', W('A')))], False),
    ('[t~="ab"]', [('t', M('abx', W('A')))], False), ('[t~="ab"]', [('t', Const(''))], False), ('[t~="ab"]', [('t', Const(None))], False), ('[t~="ab"]', [], False),
    # |=
    ('[t|="ab"]', [('t', Const('ab'))], True), ('[t|="ab"]', [('t', M('ab-', R_()))], True), ('[t|="ab"]', [('t', M('abx', R_()))], False),
    ('[t|="ab"]', [('t', M('x-ab-', R_()))], False), ('[t|="ab"]', [('t', M('ab ', R_()))], False), ('[t|="ab"]', [('t', M('a', 'B-', R_()))], False),
    ('[t|="ab"]', [('t', Const(None))], False), ('[t|="ab"]', [], False), ('[t|="ab"]', [('t', Const('a'))], False),
    # ^=
    ('[t^="ab"]', [('t', M('ab', R_()))], True), ('[t^="ab"]', [('t', Const('ab'))], True), ('[t^="ab"]', [('t', M('x', R_(), 'ab'))], False),
    ('[t^="ab"]', [('t', M('a'))], False), ('[t^="ab"]', [('t', Const(''))], False), ('[t^="ab"]', [('t', Const(None))], False), ('[t^="ab"]', [], False),
    ('[t^=""]', [('t', R_())], False), ('[t^=""]', [('t', Const(''))], False), ('[t^=""]', [('t', Const('ab'))], False), ('[t^="ab"]', [('t', M('aB', R_()))], False),
    # $=
    ('[t$="ab"]', [('t', M(R_(), 'ab'))], True), ('[t$="ab"]', [('t', Const('ab'))], True), ('[t$="ab"]', [('t', M('ab', R_(), 'x'))], False),
    ('[t$="ab"]', [('t', Const('b'))], False), ('[t$="ab"]', [('t', Const(''))], False), ('[t$="ab"]', [('t', Const(None))], False), ('[t$="ab"]', [], False),
    ('[t$=""]', [('t', R_())], False), ('[t$=""]', [('t', Const(''))], False), ('[t$=""]', [('t', Const('ab'))], False),
    # *=
    ('[t*="ab"]', [('t', M(R_('L'), 'ab', R_('M')))], True), ('[t*="ab"]', [('t', Const('xaby'))], True), ('[t*="ab"]', [('t', Const('xayb'))], False),
    ('[t*="ab"]', [('t', Const('a b'))], False), ('[t*="ab"]', [('t', Const(''))], False), ('[t*="ab"]', [('t', Const(None))], False), ('[t*="ab"]', [], False),
    ('[t*=""]', [('t', R_())], False), ('[t*=""]', [('t', Const('ab'))], False), ('[t*=""]', [('t', Const(''))], False), ('[t*="ab"]', [('t', M('ab', R_()))], True),
    ('[t*="ab"]', [('t', M(R_(), 'ab'))], True),
    # class attribute
    ('[class="ab cd"]', [('class', Const('ab cd'))], True), ('[class~="ab"]', [('class', words('A', M('ab'), 'B'))], True),
    ('[class^="ab"]', [('class', M('ab ', W('A')))], True), ('[class$="ab"]', [('class', M(W('A'), ' ab'))], True), ('[class*="b c"]', [('class', Const('ab cd'))], True),
    ('[class]', [('class', Const(None))], True), ('[class="ab"]', [('class', Const(None))], False), ('[class]', [], False),
    ('[class="ab"]', [('class', Const('ab cd'))], False), ('[class|="ab"]', [('class', Const('ab-x'))], True),
    # classes
    ('.ab', [('class', Const('ab'))], True), ('.ab', [('class', words('A', M('ab'), 'B'))], True), ('.ab', [('class', M(W('A'), '\n\t', 'ab'))], True),
    ('.ab', [('class', M('abx', W('A')))], False), ('.ab', [('class', Const('a b'))], False), ('.ab', [('class', Const(''))], False), ('.ab', [('class', Const(None))], False),
    ('.ab', [], False), ('.ab', [('id', Const('ab'))], False), ('.ab.cd', [('class', Const('cd xx ab'))], True), ('.ab.cd', [('class', Const('ab xx'))], False),
    ('.ab', [('class', M('ab-', W('A')))], False), ('.ab', [('class', Const('AB'))], False),
    # id
    ('#ab', [('id', Const('ab'))], True), ('#ab', [('id', M('ab', NE()))], False), ('#ab', [('id', Const(''))], False), ('#ab', [('id', Const(None))], False), ('#ab', [], False),
    ('#ab', [('class', Const('ab'))], False), ('#ab', [('id', M(NE(), 'ab'))], False), ('#ab.k', [('id', Const('ab')), ('class', Const('k'))], True),
    ('#ab.k', [('id', Const('ab'))], False), ('.k#ab', [('id', Const('ab')), ('class', Const('k'))], True), ('.k#ab', [('id', Const('xx')), ('class', Const('k'))], False),
    # compounds with an element
    ('q[t]', [('t', R_())], False), ('x[t]', [('t', R_())], True), ('q.ab', [('class', Const('ab'))], False), ('x.ab', [('class', Const('ab'))], True),
    ('q#ab', [('id', Const('ab'))], False), ('x#ab', [('id', Const('ab'))], True), ('x:not([t])', [('t', R_())], False), ('x:not([t])', [], True),
    ('x:not([t="ab"])', [('t', Const('ab'))], False), ('x:not([t="ab"])', [('t', M('abx', R_()))], True), ('[t="ab"].k', [('t', Const('ab')), ('class', Const('k'))], True),
    ('[t="ab"].k', [('t', Const('ab')), ('class', Const('l'))], False), ('[t]:first-child', [('t', R_())], True), ('[t]:nth-child(2)', [('t', R_())], False),
    ('.k[t="ab"]', [('t', Const('ab')), ('class', Const('l'))], False), ('.k[t="ab"]', [('t', Const('xx')), ('class', Const('k'))], False),
]


def one(h, sel, attrs, want, tag):
    pre = "R = {'%s': (InlineRenderer, dict(template='@{}'))}\n" % sel
    doc = [S('body'), S(tag, *attrs), T(W('T')), E(tag), E('body')]
    for o in render(h, doc, 'optimise=False, renderers=R', pre=pre):
        got = out(o) == mkstr(['@', W('T')])
        if not got and out(o) != W('T'):
            raise Undecided('result %s' % show(out(o)))
        if got != want:
            yield '%s %s <%s %s>' % (sel, 'does not match' if want else 'matches', tag, ' '.join('%s=%s' % (a, show(v)) for a, v in attrs))


VALUES = ['', 'ab', 'AB', 'Ab', 'a b', ' ab', 'ab ', 'ab-cd', 'ab-', '-ab', 'abab', 'b', 'a', 'a-b', 'ab cd', 'cd ab', 'x ab y', 'ab-cd ef', 'ef ab-cd', 'ab cd ab', 'abc', 'cab', ' ', 'ab--cd', 'ab_cd', 'ab cd-ef', None]
TABS = ['ab\tcd', 'cd\nab', 'x\t\n ab', 'a b c', 'x a b', 'a  b']
OPERANDS = ['ab', 'a b', 'ab-cd', 'AB', '', ' ', 'ab ', 'ab-', '-', 'a']


def css(op, v, a):
    v = v or ''
    return {'=': v == a, '~=': a in v.split() and a != '', '|=': v == a or v.startswith(a + '-'), '^=': a != '' and v.startswith(a), '$=': a != '' and v.endswith(a), '*=': a != '' and a in v}[op]


def grid(h, name, op, a):
    """One operator and operand, many values."""
    vals = VALUES + ([] if name == 'class' else TABS)
    if name == 'class':
        # the parser keeps the classes of an element as a list
        vals = [v for v in vals if v is None or ' '.join(v.split()) == v]
    doc = [x for v in vals for x in (S('x', (name, Const(v))), T(Const('o')), E('x'))]
    sel = '[%s%s"%s"]' % (name, op, a)
    want = ''.join('@o' if css(op, v, a) else 'o' for v in vals)
    for o in render(h, doc, 'optimise=False, renderers=R', pre="R = {'%s': (InlineRenderer, dict(template='@{}'))}\n" % sel):
        got = out(o)
        if got != Const(want):
            if not isinstance(got, Const):
                raise Undecided('result %s' % show(got))
            g = [x.startswith('@') for x in got.v.replace('@o', '\0@').replace('o', '\0o').split('\0')[1:]]
            w = [css(op, v, a) for v in vals]
            for v, x, y in zip(vals, g, w):
                if x != y:
                    yield '%s %s %s=%r' % (sel, 'matches' if x else 'does not match', name, v)


def unknown(h, sel, cond):
    """An unknown value: each path must be decided by the right comparison."""
    v = sym('V')
    pre = "R = {'%s': (InlineRenderer, dict(template='@{}'))}\n" % sel
    doc = [S('x', ('t', v)), T(W('T')), E('x')]
    res = {}
    for o in render(h, doc, 'optimise=False, renderers=R', pre=pre):
        got = out(o) == mkstr(['@', W('T')])
        f = Const(None)
        res.setdefault(got, []).append(o)
    if set(res) != {True, False}:
        yield '%s %s whatever the value is' % (sel, 'matches' if True in res else 'does not match')


def cases(h, tier):
    for i, (s, a, w) in enumerate(ROWS):
        yield Case('match', '%s <%s>' % (s, ' '.join('%s=%s' % (n, show(v)) for n, v in a)), one, s, a, w, 'x')
        if tier != 'quick' and not s.startswith(('x', 'q')):
            for tag in ('p', 'em', 'li', 'pre'):
                pass
    for s in ('[t="ab"]', '[t~="ab"]', '[t|="ab"]', '[t^="ab"]', '[t$="ab"]', '[t*="ab"]'):
        yield Case('unknown', s, unknown, s, None)
    for name in ('t', 'class') if tier == 'quick' else ('t', 'title', 'class', 'id', 'data-x', 'href'):
        for op in ('=', '~=', '|=', '^=', '$=', '*='):
            for a in OPERANDS:
                yield Case('operators', '[%s%s"%s"]' % (name, op, a), grid, name, op, a)
