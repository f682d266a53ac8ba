"""C01: contradictory gophermap configuration is refused at construction."""
from ..docs import *
from ..harness import sym

TITLE = 'Contradictory gophermap configuration is refused at construction'
EXPLAIN = ('Abstract interpretation of the parser constructor for every combination of output format, link placement, image '
           'placement and host (empty, given, unknown); every path must raise ValueError exactly when the configuration is '
           'contradictory.')
MIN_CASES = 36


EXTRA = {
    'renderers': ("renderers=R", "R = {'p': (ParagraphRenderer, dict(initial_indent=2)), 'em': StrongRenderer}\n"),
    'link renderers': ('extracted_link_renderers=R', "R = {'a': (ExtractedLinkRenderer, dict(max_link_description=3))}\n"),
    'width': ('width=WIDTH', ''), 'box': ('box=Box(width=WIDTH, margin=[1, 2, 3, 4])', ''), 'not optimised': ('optimise=False', ''), 'no renderers': ('renderers={}', ''),
    'everything': ('width=WIDTH, box=Box(width=WIDTH), renderers=R, extracted_link_renderers=X, optimise=True, gopher_port=0', "R = {'p': PreRenderer}\nX = {'img': ExtractedImageLinkRenderer}\n"),
}


def one(h, fmt, link, img, host, port, extra=None):
    hv = {'empty': Const(''), 'given': sym('HOST', 'str', FLAG_NONEMPTY), 'any': sym('HOST', 'str'), 'default': None}[host]
    args = 'output_format=FMT, link_placement=LINK, image_placement=IMG'
    env = dict(FMT=fmt, LINK=link, IMG=img)
    if hv is not None:
        args += ', gopher_host=HOST'
        env['HOST'] = hv
    if port:
        args += ', gopher_port=PORT'
        env['PORT'] = sym('PORT', 'int')
    pre = ''
    if extra:
        more, pre = EXTRA[extra]
        args += ', ' + more
        env['WIDTH'] = sym('WIDTH', 'int')
    outs = h.run(pre + 'OUT = GopherHTMLParser(%s)\n' % args, env)
    for o in outs:
        empty = host in ('empty', 'default') or (host == 'any' and o.st.resolve(hv) == Const(''))
        nonempty = host == 'given' or (host == 'any' and Const('') in o.st.ne.get(hv, ()))
        bad = fmt == 'gophermap' and (link == 'inline' or empty)
        cfg = 'output_format=%s link_placement=%s image_placement=%s host=%s' % (fmt, link, img, host)
        if o.kind == 'ok':
            if bad:
                yield 'accepted: ' + cfg
            elif fmt == 'gophermap' and not nonempty:
                yield 'accepted without looking at the host: ' + cfg
        else:
            if o.exc_name != 'ValueError':
                yield 'raises %s instead of %s: %s' % (o.describe(), 'ValueError' if bad else 'accepting', cfg)
            elif not bad:
                yield 'refused: %s' % cfg


def cases(h, tier):
    for fmt in ('text', 'gophermap'):
        for link in ('footer', 'inline', 'after_block'):
            for img in ('footer', 'inline', 'after_block'):
                for host in ('empty', 'given', 'any', 'default'):
                    for port in (False, True):
                        yield Case('refuse-contradictions', '%s link=%s image=%s host=%s%s' % (
                            fmt, link, img, host, ' port' if port else ''), one, fmt, link, img, host, port)
                    for x in EXTRA:
                        if tier != 'quick' or host in ('given', 'default') and img != 'inline':
                            yield Case('refuse-contradictions', '%s link=%s image=%s host=%s and %s' % (fmt, link, img, host, x), one, fmt, link, img, host, False, x)
