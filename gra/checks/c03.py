"""C03: reset() returns a parser to its initial state."""
from ..docs import *

TITLE = 'A reset parser behaves exactly like a new one'
EXPLAIN = ('Abstract interpretation of use / reset / reuse histories: whatever was fed and whether or not the parser was closed, '
           'after reset() it exposes no output or tree and renders a further document to the same abstract text as a new parser '
           'with the same configuration.')
MIN_CASES = 40

SRC = """
q = GopherHTMLParser(%(c)s)
%(use)s
q.reset()
AFTER = q.parsed
KIDS = len(q.tree.children)
q.feed(DOC)
q.close()
OUT = q.parsed
f = GopherHTMLParser(%(c)s)
f.feed(DOC2)
f.close()
REF = f.parsed
"""


def one(h, cfg, use, env):
    e = dict(DOC=probe(), DOC2=probe())
    e.update(env)
    outs = h.run(SRC % dict(c=CONFIGS[cfg], use=use), e, opts=dict(words=0))
    for o in outs:
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        a = o.st.resolve(o.get('AFTER'))
        if a != Const(''):
            yield 'after reset() the previous output is still there: %s' % show(a)[:200]
        if o.get('KIDS') != ZERO:
            yield 'after reset() the previous tree is still there'
        x, y = out(o), out(o, 'REF')
        if x != y:
            yield 'a document renders differently after reset():\n%s\nnew parser:\n%s' % (
                '\n'.join(map(show, lines(x))), '\n'.join(map(show, lines(y))))


def scanner(h, cfg, use='q.feed(DOC)'):
    for o in h.run('q = GopherHTMLParser(%s)\n%s\nq.reset()\n' % (CONFIGS[cfg], use), dict(DOC=el('p', t('A'))), opts=dict(words=0)):
        if o.kind == 'exc':
            yield 'raises %s' % o.describe()
            continue
        raw = o.obj('q').attrs.get('$raw')
        if raw != Const(''):
            yield 'input buffered before reset() is not discarded (the scanner state is not reset)'


def cases(h, tier):
    hs = histories()
    few = ('many links', 'nested unclosed', 'unclosed link', 'pre then unclosed pre', 'lists')
    for cfg in CONFIGS:
        for nm, d in hs.items():
            if tier == 'quick' and nm not in few and (cfg != 'default' or nm.startswith('<')):
                continue
            if tier != 'quick' or cfg in ('default', 'gophermap') or nm in few[:2]:
                yield Case('reset-reuse', '%s: %s fed' % (cfg, nm), one, cfg, 'q.feed(D1)', dict(D1=d))
            if tier != 'quick' or nm in few:
                yield Case('reset-reuse', '%s: %s fed and closed' % (cfg, nm), one, cfg, 'q.feed(D1)\nq.close()', dict(D1=d))
        yield Case('reset-reuse', cfg + ': two documents before', one, cfg, 'q.feed(D1)\nq.close()\nq.reset()\nq.feed(D2)\nq.close()',
                   dict(D1=hs['many links'], D2=hs['nested unclosed']))
        yield Case('reset-reuse', cfg + ': reset twice', one, cfg, 'q.feed(D1)\nq.reset()\nq.reset()', dict(D1=hs['many links']))
        yield Case('scanner', cfg, scanner, cfg)
        yield Case('scanner', cfg + ', closed', scanner, cfg, 'q.feed(DOC)\nq.close()')
        yield Case('scanner', cfg + ', nothing fed since', scanner, cfg, 'q.feed(DOC)\nq.close()\nq.parsed = ""')
