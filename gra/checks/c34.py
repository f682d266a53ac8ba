"""C34: inline elements are shown by their templates."""
import itertools

from ..docs import *

TITLE = 'Inline elements show their content within their templates'
EXPLAIN = ('Abstract interpretation of documents with symbolic texts in every nesting of inline elements, in every kind of block: the line shown must be the one composed '
           'by the check from the templates of the elements, innermost first.')
MIN_CASES = 200

DEFAULT = {'em': '_{}_', 'i': '_{}_', 'strong': '**{}**', 'b': '**{}**', 'u': '_{}_', 'ins': '_{}_', 's': '~~{}~~', 'del': '~~{}~~', 'code': '`{}`', 'span': '{}',
           'abbr': '{}', 'custom': '{}'}
CLASSES = {'em': 'EmRenderer', 'i': 'EmRenderer', 'strong': 'StrongRenderer', 'b': 'StrongRenderer', 'u': 'UnderlineRenderer', 'ins': 'UnderlineRenderer',
           's': 'StrikethroughRenderer', 'del': 'StrikethroughRenderer', 'span': 'InlineRenderer'}
PLACES = {
    'p': (lambda k: el('p', *k), '{}'), 'div': (lambda k: el('div', *k), '{}'), 'nothing': (lambda k: k, '{}'), 'li': (lambda k: el('ul', el('li', *k)), '* {}'),
    'ol li': (lambda k: el('ol', el('li', *k)), '1. {}'), 'dd': (lambda k: el('dl', el('dd', *k)), ': {}'), 'dt': (lambda k: el('dl', el('dt', *k)), '{}'),
    'blockquote p': (lambda k: el('blockquote', el('p', *k)), '> {}'), 'h2': (lambda k: el('h2', *k), '## {} ##'), 'h6': (lambda k: el('h6', *k), '###### {} ######'),
    'li p': (lambda k: el('ul', el('li', el('p', *k))), '* {}'), 'blockquote li': (lambda k: el('blockquote', el('ul', el('li', *k))), '> * {}'),
    'blockquote': (lambda k: el('blockquote', *k), '> {}'), 'td': (lambda k: el('td', *k), '{}'), 'pre': (lambda k: el('pre', *k), '    {}'),
}


class Expect:
    """The line of a specification, by templates; placement of links and images."""

    def __init__(self, templates=(), links='footer', images='inline', upper=()):
        self.t = dict(DEFAULT, **dict(templates))
        self.links, self.images, self.upper, self.n = links, images, upper, 0

    def show(self, spec):
        if isinstance(spec, str):
            return '\n' if spec == '/' else ' ' if spec == '_' else '⟨%s⟩' % spec if spec[0].isupper() else spec
        tag = spec[0]
        if tag == 'a':
            _, href, title, kids = spec[0], spec[1], spec[2], spec[3:]
            self.n += self.links != 'inline'
            n = self.n
            inner = ''.join(self.show(k) for k in kids)
            if tag in self.upper:
                inner = inner.upper()
            if self.links == 'inline':
                return ('[%s](%s "%s")' % (inner, href, title)) if title else '[%s](%s)' % (inner, href)
            return '[%s][%d]' % (inner, n)
        if tag == 'img':
            _, src, alt = spec
            self.n += self.images != 'inline'
            alt = alt or 'Image'
            if tag in self.upper:
                alt = alt.upper()
            return '![%s](%s)' % (alt, src) if self.images == 'inline' else '[%s][%d]' % (alt, self.n)
        inner = ''.join(self.show(k) for k in spec[1:])
        if tag in self.upper:
            inner = inner.upper()
        return self.t[tag].replace('{}', inner)


def tokens(spec):
    if isinstance(spec, str):
        return [S('br')] if spec == '/' else [T(Const(' ') if spec == '_' else W(spec) if spec[0].isupper() else Const(spec))]
    if spec[0] == 'a':
        return A(spec[1], *[x for k in spec[3:] for x in tokens(k)], title=spec[2])
    if spec[0] == 'img':
        return IMG(spec[1], spec[2])
    return el(spec[0], *[x for k in spec[1:] for x in tokens(k)])


def one(h, specs, place, ctor='', pre='', opts=None):
    e = Expect(**(opts or {}))
    want = ''.join(e.show(s) for s in specs)
    if place == 'pre':
        want = want.replace('`', '')
    build, pfx = PLACES[place]
    d = build([x for s in specs for x in tokens(s)])
    want = [x for x in pfx.replace('{}', want).split('\n')]
    for o in render(h, d, 'optimise=False, width=300' + ctor, 0, pre=pre):
        got = [x.strip(' ') for x in skel(out(o)).split('\n')]
        first = next((i for i, x in enumerate(got) if x.strip('> ')), 0)
        got = got[first:first + len(want)]
        if place not in ('p', 'div', 'nothing') and len(want) > 1:
            raise Undecided('lines in %s' % place)
        if got != [x.strip(' ') for x in want]:
            yield 'shown as %r instead of %r' % ('\n'.join(got), '\n'.join(want))


def cases(h, tier):
    deep = tier == 'thorough'
    tags = list(DEFAULT)
    for tag in tags:
        for pl in PLACES if deep or tag in ('em', 'strong', 'code', 'span') else ('p', 'li', 'h2', 'nothing'):
            yield Case('default', '%s in %s' % (tag, pl), one, ['A', '_', (tag, 'B'), '_', 'C'], pl)
            yield Case('default', 'only %s in %s' % (tag, pl), one, [(tag, 'B')], pl)
            yield Case('default', 'twice %s in %s' % (tag, pl), one, [(tag, 'B'), '_', (tag, 'C', '_', 'D'), 'E', (tag, 'F')], pl)
            if deep or pl in ('p', 'li'):
                yield Case('default', 'within a word, %s in %s' % (tag, pl), one, ['A', (tag, 'B'), 'C'], pl)
                yield Case('default', 'empty %s in %s' % (tag, pl), one, ['A', (tag,), 'C'], pl)
                yield Case('default', 'digits and marks in %s in %s' % (tag, pl), one, ['A', '_', (tag, 'x{}y 100% $1 \\n <&> '), 'B'], pl)
    for a, b in itertools.product(tags, repeat=2):
        for pl in PLACES if deep else ('p', 'li') if a in ('em', 'strong', 'code') else ('p',):
            yield Case('nested', '%s in %s in %s' % (b, a, pl), one, ['A', '_', (a, 'B', '_', (b, 'C'), 'D'), '_', (b, 'E')], pl)
        if deep or b in ('em', 'code'):
            yield Case('nested', 'only %s in %s' % (b, a), one, [(a, (b, 'C'))], 'p')
    for a, b, c in itertools.product(('em', 'strong', 'code', 'span') if not deep else ('em', 'strong', 'u', 'del', 'code', 'span', 'b'), repeat=3):
        yield Case('nested', '%s in %s in %s' % (c, b, a), one, [(a, 'B', (b, 'C', '_', (c, 'D')), 'E'), (c, 'F')], 'p')
    for pl in ('p', 'div', 'nothing'):
        yield Case('break', 'br in %s' % pl, one, ['A', '/', 'B'], pl)
        yield Case('break', 'two br in %s' % pl, one, ['A', '_', ('em', 'B'), '/', ('strong', 'C'), '/', 'D'], pl)
    R = lambda r: 'R = {%s}\n' % ', '.join("'%s': (%s, dict(%s))" % x for x in r)
    for tag, cl in CLASSES.items():
        for t in ('<{}>', '{}', '[{}', '{}!', '* {} *', 'x{}x', '{}\\\\', '=={}=='):
            for pl in PLACES if deep else ('p', 'h2') if tag in ('em', 'del') else ('p',):
                yield Case('template', '%s %s in %s' % (tag, t, pl), one, ['A', '_', (tag, 'B', ('code', 'C')), '_', ('em' if tag != 'em' else 'b', 'D')], pl, ', renderers=R',
                           R([(tag, cl, "template='%s'" % t)]), dict(templates=[(tag, t.replace('\\\\', '\\'))]))
        for pl in PLACES if deep else ('p', 'dd'):
            for x in ('code', 'strong' if tag != 'strong' else 'u'):
                yield Case('capitalized', '%s with %s in %s' % (tag, x, pl), one, ['aé b ', (tag, 'ab cD1 ', (x, 'xß')), ' cd ', (x, 'ef')], pl, ', renderers=R',
                           R([(tag, cl, 'capitalized=True')]), dict(upper=(tag,)))
        yield Case('capitalized', '%s with a template' % tag, one, ['ab ', (tag, 'ab cd'), ' cd'], 'p', ', renderers=R', R([(tag, cl, "capitalized=True, template='x{}y'")]), dict(upper=(tag,), templates=[(tag, 'x{}y')]))
    for t in ('<{}>', '{}', "''{}''"):
        for pl in ('p', 'li', 'blockquote p', 'h2', 'dd', 'nothing'):
            yield Case('template', 'code %s in %s' % (t, pl), one, ['A', '_', ('code', 'B', '_', ('em', 'C')), 'D'], pl, ', renderers=R',
                       'R = {"code": (CodeRenderer, dict(inline_template="%s"))}\n' % t, dict(templates=[('code', t)]))
    for sel, pl in (('li em', 'li'), ('em.x', None), ('p > em', 'p'), ('h2 em', 'h2')):
        if pl:
            for other in ('p', 'li', 'h2', 'div'):
                yield Case('template', '%s in %s' % (sel, other), one, ['A', '_', ('em', 'B')], other, ', renderers=R', R([(sel, 'EmRenderer', "template='<{}>'")]),
                           dict(templates=[('em', '<{}>' if other == pl else '_{}_')]))
    for lp in ('footer', 'inline', 'after_block'):
        for ip in ('footer', 'inline', 'after_block'):
            ct = ", link_placement='%s', image_placement='%s'" % (lp, ip)
            o = dict(links=lp, images=ip)
            for pl in PLACES:
                if pl == 'pre' and not deep:
                    continue
                L_ = [('link', ['A', '_', ('a', '/x.txt', None, 'B', '_', 'C'), '_', 'D']), ('titled link', [('a', 'http://h/y', 'the title', 'B'), '_', 'D']),
                      ('styled link', ['A', '_', ('em', ('a', '/x', None, ('strong', 'B'), '_', 'C'))]), ('two links', [('a', '/x', 't', 'B'), ('a', '/y', None, 'C'), 'D']),
                      ('image', ['A', '_', ('img', '/i.gif', 'a b'), '_', 'B']), ('bare image', [('img', '/i.gif', None), 'B']), ('empty alt', ['A', '_', ('img', '/j.png', '')]),
                      ('image in a link', ['A', '_', ('a', '/x', None, ('img', '/i.gif', 'c d'), '_', 'B')]), ('empty link', ['A', '_', ('a', '/x', 'w'), '_', 'B']),
                      ('link and image', [('strong', 'A', ('img', '/i.gif', 'c')), '_', ('a', '/x', 't "u"', 'B'), ('img', '/j', 'd')])]
                for nm, s in L_:
                    if not deep and (pl not in ('p', 'li', 'nothing', 'h2') and (lp, ip) not in (('footer', 'inline'), ('inline', 'footer'))):
                        continue
                    # lists of links within an inline element, or laid out with the text of a paragraph, are not this property's
                    if 'after_block' in (lp, ip) and (pl not in ('nothing', 'div', 'td') or nm in ('styled link', 'image in a link', 'link and image')):
                        continue
                    yield Case('links', '%s in %s, %s, %s' % (nm, pl, lp, ip), one, s, pl, ct, '', o)
            for nm, s in [('link', ['ab ', ('a', '/xy', 't', 'cd'), ' ef']), ('styled link', [('a', '/xy', None, 'ab ', ('em', 'cd')), ' ef']), ('image', ['ab ', ('img', '/xy', 'cd'), ' ef']), ('bare image', [('img', '/xy', None)])]:
                tag = 'img' if 'image' in nm else 'a'
                yield Case('capitalized', '%s, %s, %s' % (nm, lp, ip), one, s, 'p', ct + ', renderers=R', R([(tag, 'ImageRenderer' if tag == 'img' else 'LinkRenderer', 'capitalized=True')]), dict(o, upper=(tag,)))

