"""C16: ANSI styles hold exactly for the styled element."""
import itertools
import re

from ..docs import *

TITLE = 'ANSI styles apply to exactly the styled element'
EXPLAIN = ('The output of abstract renderings with ANSI-styled elements is interpreted by a model of a terminal (SGR codes): the text of the element '
           'must be shown with exactly the requested effects, font and colours, the text before and after it with none.')
MIN_CASES = 100

EFFECTS = {'bold': (1, 22), 'faint': (2, 22), 'italic': (3, 23), 'fraktur': (20, 23), 'underline': (4, 24), 'slow_blink': (5, 25), 'rapid_blink': (6, 25),
           'invert': (7, 27), 'conceal': (8, 28), 'crossed_out': (9, 29), 'framed': (51, 54), 'encircled': (52, 54), 'overlined': (53, 55)}
NAMES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']
ON = {v[0]: k for k, v in EFFECTS.items()}
OFF = {}
for _k, _v in EFFECTS.items():
    OFF.setdefault(_v[1], []).append(_k)


def terminal(s):
    """[(text, style)] of a string with SGR codes, and the final style."""
    st, out_ = {}, []
    for i, p in enumerate(re.split('\x1b\\[([^m]*)m', s)):
        if i % 2 == 0:
            if '\x1b' in p:
                raise Fail('a broken escape code in %r' % p[:80])
            if p:
                out_.append((p, dict(st)))
            continue
        cs = p.split(';') if p else ['0']
        while cs:
            c = cs.pop(0)
            if c in ('38', '48'):
                k = 'fg' if c == '38' else 'bg'
                if cs[:1] == ['5'] and len(cs) >= 2:
                    st[k] = ';'.join(cs[:2])
                    del cs[:2]
                elif cs[:1] == ['2'] and len(cs) >= 4:
                    st[k] = ';'.join(cs[:4])
                    del cs[:4]
                else:
                    raise Fail('a malformed colour code %r' % p)
                continue
            if not c.isdigit():
                raise Fail('an escape code with %r' % c)
            n = int(c)
            if n == 0:
                st.clear()
            elif n in ON:
                st[ON[n]] = True
            elif n in OFF:
                for k in OFF[n]:
                    st.pop(k, None)
            elif 30 <= n <= 37 or 90 <= n <= 97:
                st['fg'] = n
            elif 40 <= n <= 47 or 100 <= n <= 107:
                st['bg'] = n - 10
            elif n == 39:
                st.pop('fg', None)
            elif n == 49:
                st.pop('bg', None)
            elif n == 10:
                st.pop('font', None)
            elif 11 <= n <= 19:
                st['font'] = n - 10
            else:
                raise Fail('an unknown style code %d' % n)
    return out_, st


def styled(h, d, pre, env, want, final=True, text=None):
    """want: {word: style}"""
    for o in render(h, d, 'optimise=False, renderers=R', 0, env=env, pre=pre):
        s = skel(out(o))
        runs, end = terminal(s)
        seen = set()
        for p, st in runs:
            for w in re.findall('⟨(\\w+)[^⟩]*⟩', p):
                seen.add(w)
                if w in want and st != want[w]:
                    yield 'the text %s is shown with %s instead of %s: %r' % (w, st, want[w], s)
        if set(want) - seen:
            yield 'missing text %s: %r' % (', '.join(sorted(set(want) - seen)), s)
        if end:
            yield 'the style %s is still on at the end: %r' % (end, s)
        if text is not None:
            got = ''.join(p for p, _ in runs).strip()
            if got != text:
                yield 'the text shown is %r instead of %r' % (got, text)


def doc():
    return el('p', T(mkstr([W('A'), ' '])), el('span', t('B')), T(mkstr([' ', W('C')])))


def sp(settings):
    return "R = {'span': (AnsiEscapeCodeRenderer, dict(%s))}\n" % settings


N = lambda n: sym(n, 'int', FLAG_NONNEG)


def cases(h, tier):
    norm = [('', ''), (' normalised', ', normalise=True')]
    for nn, ns in norm:
        for e in EFFECTS:
            yield Case('effect', e + nn, styled, doc(), sp('%s=True%s' % (e, ns)), {}, {'A': {}, 'B': {e: True}, 'C': {}}, True, '⟨A⟩ ⟨B⟩ ⟨C⟩')
            yield Case('effect', e + ' off' + nn, styled, doc(), sp('%s=False, bold=%s%s' % (e, e != 'bold', ns)), {}, {'A': {}, 'B': {'bold': True} if e != 'bold' else {}, 'C': {}}, True, '⟨A⟩ ⟨B⟩ ⟨C⟩')
        for a, b in itertools.combinations(EFFECTS, 2):
            yield Case('effects', '%s %s%s' % (a, b, nn), styled, doc(), sp('%s=True, %s=True%s' % (a, b, ns)), {}, {'A': {}, 'B': {a: True, b: True}, 'C': {}})
        yield Case('effects', 'all' + nn, styled, doc(), sp(', '.join(e + '=True' for e in EFFECTS) + ns), {}, {'A': {}, 'B': {e: True for e in EFFECTS}, 'C': {}})
        for i, c in enumerate(NAMES):
            for pre_, base in (('', 30), ('bright_', 90)):
                yield Case('colour', pre_ + c + nn, styled, doc(), sp("foreground_colour='%s'%s" % (pre_ + c, ns)), {}, {'A': {}, 'B': {'fg': base + i}, 'C': {}}, True, '⟨A⟩ ⟨B⟩ ⟨C⟩')
                yield Case('colour', 'on ' + pre_ + c + nn, styled, doc(), sp("background_colour='%s'%s" % (pre_ + c, ns)), {}, {'A': {}, 'B': {'bg': base + i}, 'C': {}}, True, '⟨A⟩ ⟨B⟩ ⟨C⟩')
        s = '⟨int->str(%s)⟩'
        V = [('palette', 'N', dict(N=N('N')), '5;' + s % 'N'), ('palette 0', '0', {}, '5;0'), ('palette 30', '30', {}, '5;30'), ('palette 255', '255', {}, '5;255'),
             ('tuple', '(R, G, U)', dict(R=N('R'), G=N('G'), U=N('U')), '2;%s;%s;%s' % (s % 'R', s % 'G', s % 'U')), ('black tuple', '(0, 0, 0)', {}, '2;0;0;0'),
             ('#rrggbb', "'#10aBff'", {}, '2;16;171;255'), ('rrggbb', "'10a0ff'", {}, '2;16;160;255'), ('#rgb', "'#1bF'", {}, '2;17;187;255'), ('#000', "'#000'", {}, '2;0;0;0'), ('rgb', "'09c'", {}, '2;0;153;204')]
        for nm, ex, env, w in V:
            env = {'V' + k: v for k, v in env.items()}
            for x in ('R', 'G', 'U', 'N'):
                ex = ex.replace(x, 'V' + x) if not ex.startswith("'") else ex
            yield Case('colour', nm + nn, styled, doc(), sp("foreground_colour=%s%s" % (ex, ns)), env, {'A': {}, 'B': {'fg': w}, 'C': {}})
            yield Case('colour', 'on ' + nm + nn, styled, doc(), sp("background_colour=%s%s" % (ex, ns)), env, {'A': {}, 'B': {'bg': w}, 'C': {}})
            yield Case('colour', 'red on ' + nm + nn, styled, doc(), sp("foreground_colour='red', background_colour=%s%s" % (ex, ns)), env, {'A': {}, 'B': {'fg': 31, 'bg': w}, 'C': {}})
        for f in range(1, 10):
            yield Case('font', '%d%s' % (f, nn), styled, doc(), sp("font=%d%s" % (f, ns)), {}, {'A': {}, 'B': {'font': f}, 'C': {}}, True, '⟨A⟩ ⟨B⟩ ⟨C⟩')
        yield Case('font', '0' + nn, styled, doc(), sp("font=0" + ns), {}, {'A': {}, 'B': {}, 'C': {}})
        yield Case('mixed', 'font effect colours' + nn, styled, doc(), sp("font=3, bold=True, overlined=True, foreground_colour=9, background_colour='#fff'" + ns), {},
                   {'A': {}, 'B': {'font': 3, 'bold': True, 'overlined': True, 'fg': '5;9', 'bg': '2;255;255;255'}, 'C': {}})
        yield Case('template', 'inside the style' + nn, styled, doc(), sp("template='<{}>', underline=True" + ns), {}, {'A': {}, 'B': {'underline': True}, 'C': {}}, True, '⟨A⟩ <⟨B⟩> ⟨C⟩')
        yield Case('nothing', 'no style' + nn, styled, doc(), sp(ns[2:]), {}, {'A': {}, 'B': {}, 'C': {}}, True, '⟨A⟩ ⟨B⟩ ⟨C⟩')
    # elements in and next to each other; the styles do not share a closing code
    inner = el('p', T(mkstr([W('A'), ' '])), el('span', T(mkstr([W('B'), ' '])), el('em', t('C')), T(mkstr([' ', W('D')]))), T(mkstr([' ', W('F')])), el('em', t('G')))
    groups = [('bold=True', {'bold': True}), ("italic=True, underline=True", {'italic': True, 'underline': True}), ("foreground_colour='blue'", {'fg': 34}), ("background_colour=17", {'bg': '5;17'}), ('font=2', {'font': 2}), ('invert=True', {'invert': True})]
    for (a, sa), (b, sb) in itertools.permutations(groups, 2):
        both = dict(sa, **sb)
        yield Case('nested', '%s in %s' % (b, a), styled, inner, "R = {'span': (AnsiEscapeCodeRenderer, dict(%s)), 'em': (AnsiEscapeCodeRenderer, dict(%s))}\n" % (a, b), {},
                   {'A': {}, 'B': sa, 'C': both, 'D': sa, 'F': {}, 'G': sb})
    # the same values used for one thing, then for another
    two = el('p', T(mkstr([W('A'), ' '])), el('span', t('B')), T(mkstr([' ', W('C'), ' '])), el('em', t('D')), T(mkstr([' ', W('F'), ' '])), el('span', t('G')))
    vals = [("'red'", 31), ("'bright_blue'", 94), ('17', '5;17'), ('(1, 2, 3)', '2;1;2;3'), ("'#abc'", '2;170;187;204')]
    for (x, wx), (y, wy) in itertools.product(vals, repeat=2):
        for kx, ky in itertools.product((('foreground_colour', 'fg'), ('background_colour', 'bg')), repeat=2):
            yield Case('in-turn', '%s=%s, %s=%s' % (kx[0], x, ky[0], y), styled, two, "R = {'span': (AnsiEscapeCodeRenderer, dict(%s=%s)), 'em': (AnsiEscapeCodeRenderer, dict(%s=%s))}\n" % (kx[0], x, ky[0], y), {},
                       {'A': {}, 'B': {kx[1]: wx}, 'C': {}, 'D': {ky[1]: wy}, 'F': {}, 'G': {kx[1]: wx}})
    for (a, sa), (b, sb) in itertools.product(groups, repeat=2):
        yield Case('in-turn', '%s, %s' % (a, b), styled, two, "R = {'span': (AnsiEscapeCodeRenderer, dict(%s)), 'em': (AnsiEscapeCodeRenderer, dict(%s))}\n" % (a, b), {},
                   {'A': {}, 'B': sa, 'C': {}, 'D': sb, 'F': {}, 'G': sa})
    for tag in BLOCKS + HEADERS + ['article']:
        d = el(tag, T(mkstr([W('A'), ' '])), el('span', t('B')), T(mkstr([' ', W('C')])))
        yield Case('in-block', tag, styled, d, sp("bold=True, foreground_colour=1"), {}, {'A': {}, 'B': {'bold': True, 'fg': '5;1'}, 'C': {}})
    for s in ("capitalized=True", "justification='right'", "justification='full'", "justification='center'", "line_template='> {}'", "border=['-', '|', '-', '|']"):
        yield Case('in-block', 'p ' + s, styled, doc(), "R = {'span': (AnsiEscapeCodeRenderer, dict(bold=True, foreground_colour=1)), 'p': (None, dict(%s))}\n" % s, {}, {'A': {}, 'B': {'bold': True, 'fg': '5;1'}, 'C': {}})
    for s in ("capitalized=True", "spread=2", "underlined=True", "centered=True"):
        d = el('h2', T(mkstr([W('A'), ' '])), el('span', T(Const('bm'))), T(mkstr([' ', W('C')])))
        yield Case('in-block', 'h2 ' + s, styled, d, "R = {'span': (AnsiEscapeCodeRenderer, dict(bold=True, foreground_colour=1)), 'h2': (None, dict(%s))}\n" % s, {}, {})
