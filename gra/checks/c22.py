"""C22: the command writes the rendered source to the destination."""
from ..docs import *

TITLE = 'The command line tool renders the source file to the destination file'
EXPLAIN = ('Abstract interpretation of cli.main with stand-ins (interpreted as well) for argparse, pathlib, open, print and markdown that record what is done '
           'to which file, for every kind of file name and the dump option; the reads, writes and prints are compared with those promised.')
MIN_CASES = 20

# what the stand-ins note down, in order
LOG = """
LOG = []
class File:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
    def __enter__(self): return self
    def __exit__(self, *a): LOG.append(('close', self.path)); return False
    def close(self): LOG.append(('close', self.path))
    def read(self, *a): LOG.append(('read', self.path, self.mode)); return CONTENT
    def write(self, text): LOG.append(('write', self.path, self.mode, text))
    def writelines(self, texts):
        for t in texts: self.write(t)
def open_(path, mode='r', *a, **k):
    p = path.text if hasattr(path, 'text') else path
    LOG.append(('open', p, mode))
    return File(p, mode)
"""
PATHLIB = """
from vlog import LOG, open_
class Path:
    def __init__(self, *texts):
        text = texts[0]
        self.text = text.text if hasattr(text, 'text') else text
        self.name = self.text.rpartition('/')[2]
        if SUFFIX is not None and self.text == SOURCE:
            # any suffix at all
            self.suffix, self.stem = SUFFIX, self.name
            self.suffixes = [SUFFIX]
        else:
            parts = self.name.lstrip('.').split('.')
            self.suffixes = ['.' + p for p in parts[1:]]
            self.suffix = self.suffixes[-1] if self.suffixes else ''
            self.stem = self.name[:len(self.name) - len(self.suffix)]
    def __str__(self): return self.text
    def __fspath__(self): return self.text
    def open(self, mode='r', *a, **k): return open_(self, mode)
    def read_text(self, *a, **k): return open_(self, 'r').read()
    def write_text(self, text, *a, **k): open_(self, 'w').write(text)
PurePath = Path
"""
ARGPARSE = """
class Namespace: pass
class ArgumentParser:
    def __init__(self, *a, **k): self.names, self.flags = [], []
    def add_argument(self, *names, **k):
        if names[0].startswith('-'):
            long = [n for n in names if n.startswith('--')]
            dest = k.get('dest') or (long or names)[0].lstrip('-').replace('-', '_')
            self.flags.append((names, dest, k.get('action', 'store'), k.get('default')))
        else:
            self.names.append(names[0])
    def parse_args(self, *a, **k):
        ns = Namespace()
        for n, v in zip(self.names, (SOURCE, DEST)):
            setattr(ns, n, v)
        for names, dest, action, default in self.flags:
            on = DUMP in names
            if action == 'store_true': setattr(ns, dest, on)
            elif action == 'store_false': setattr(ns, dest, not on)
            else: setattr(ns, dest, default)
        return ns
"""
MARKDOWN = """
from vlog import LOG
class Markdown:
    def __init__(self, **k): self.k = k
    def convert(self, text):
        LOG.append(('convert', text == CONTENT)); return HTML
    def reset(self): return self
def markdown(text, **k): return Markdown(**k).convert(text)
"""
CLIENT = """
import vlog, pathlib, markdown, argparse
for m in (vlog, pathlib, markdown, argparse):
    m.CONTENT, m.HTML, m.SUFFIX, m.SOURCE, m.DEST, m.DUMP = CONTENT, HTML, SUFFIX, SOURCE, DEST, DUMP
import gopher_render.cli as cli
def print_(*a, **k): vlog.LOG.append(('print', list(a)))
cli.open, cli.print = vlog.open_, print_
cli.main()
LOG = vlog.LOG
"""
OSPATH = """
def fspath(p): return p.text if hasattr(p, 'text') else p
def basename(p): return fspath(p).rpartition('/')[2]
def dirname(p): return fspath(p).rpartition('/')[0]
def splitext(p):
    p = fspath(p)
    base = p.rpartition('/')[2]
    head, dot, ext = base.lstrip('.').rpartition('.')
    if not dot or not head: return (p, '')
    return (p[:len(p) - len(ext) - 1], '.' + ext)
"""
OS = 'from vospath import fspath\nimport vospath as path\n'
A_, B_, C_ = W('A'), W('B'), W('C')


def runs(h, md, src, suffix, dst, dump, content=None):
    content = content or el('h2', T(A_)) + el('p', T(B_))
    html = el('p', T(mkstr([C_, ' ', A_])))
    stubs = {'vlog': LOG, 'pathlib': PATHLIB, 'argparse': ARGPARSE, 'markdown': MARKDOWN, 'markdown.extensions': 'codehilite = extra = meta = None\n', 'pygments': '', 'os': OS, 'os.path': OSPATH, 'vospath': OSPATH,
             'markdown.extensions.codehilite': '', 'markdown.extensions.extra': '', 'markdown.extensions.meta': ''}
    env = dict(CONTENT=content, HTML=html, SUFFIX=NONE if suffix is None else suffix, SOURCE=src, DEST=dst, DUMP=dump)
    for o in h.run(CLIENT, env, opts=dict(stubs=stubs, reload=list(stubs) + ['gopher_render.cli'], words=0)):
        if o.kind == 'exc':
            raise Fail('the command raises %s' % o.describe())
        st = o.st
        log = []
        for x in st.get(o.get('LOG').a).segs:
            if not isinstance(x, Tup):
                raise Undecided('an unknown number of actions')
            log.append(x.items)
        yield o, st, log, st.resolve(suffix) == Const('.md') if md is None else md, content, html


def one(h, what, md, src, suffix, dst, dump):
    n = 0
    for o, st, log, md, content, html in runs(h, md, src, suffix, dst, dump):
        n += 1
        conv = [x for x in log if x[0].v == 'convert']
        writes = [x for x in log if x[0].v == 'write']
        prints = [x for x in log if x[0].v == 'print']
        opens = [x for x in log if x[0].v == 'open']
        if what == 'files':
            for x in opens:
                if x[1] == src and x[2].v not in ('r', 'rt'):
                    yield 'the source is opened for writing'
                elif x[1] == dst and x[2].v not in ('w', 'wt'):
                    yield 'the destination is opened with mode %r' % x[2].v
                elif x[1] not in (src, dst):
                    yield 'another file is opened: %s' % show(x[1])
            if [x[1] for x in log if x[0].v == 'read'] != [src]:
                yield 'the source is not read once'
            if [x[1] for x in opens].count(dst) != 1:
                yield 'the destination is opened %d times' % [x[1] for x in opens].count(dst)
            if len(writes) != 1 or writes[0][1] != dst:
                yield 'the text is not written once to the destination'
        if what == 'conversion':
            if md != (len(conv) == 1) or len(conv) > 1:
                yield '%s is converted from markdown %d times' % ('a markdown file' if md else 'another file', len(conv))
        if what == 'content':
            for x in writes:
                ls = lines(x[3])
                got = [t for l in ls for t in toks(l) if isinstance(t, Sym)]
                want = [C_, A_] if md else [A_, B_]
                if got != want:
                    yield 'the destination gets %s' % show(x[3])[:300]
            if not writes:
                yield 'nothing is written'
            shown = [v for x in prints for v in st.get(x[1].a).segs]
            if writes and writes[0][3] not in shown:
                yield 'what is written is not printed'
        if what == 'dump':
            shown = [v for x in prints for v in st.get(x[1].a).segs if isinstance(v, Ref)]
            if dump.v in ('-d', '--dump'):
                if not any(toks_of(st, v) == toks_of(st, o.get('HTML' if md else 'CONTENT')) for v in shown):
                    yield 'the html is not printed before it is parsed'
            elif shown:
                yield 'the html is printed without being asked for'
    if not n:
        raise Undecided('no outcome')


def toks_of(st, v):
    return st.get(v.a).segs if isinstance(v, Ref) else v


def cases(h, tier):
    any_ = Sym('SUFFIX', 'str', (FLAG_DOC,))
    names = [('source.md', True), ('source.html', False), ('some/dir.md/source', False), ('some/dir.md/source.htm', False), ('page.md.html', False), ('page.html.md', True), ('a.b/c.md', True),
             ('/source.txt', False), ('source.mdx', False), ('source.xmd', False), ('source.MD', False), ('source.md~', False), ('md', False), ('x.md.md', True), ('../source.md', True),
             ('source.markdown', False), ('source.md.txt', False), (None, None)]
    dests = ['out.txt', 'out.md', 'out/page.html', 'out.md.txt', 'out']
    for what in ('files', 'conversion', 'content', 'dump'):
        for dump in ('', '-d', '--dump'):
            for i, (src, md) in enumerate(names):
                if dump and what != 'dump' and tier == 'quick' and i > 4 and src:
                    continue
                for dst in dests if i < 2 or tier != 'quick' else dests[:1]:
                    yield Case(what, 'source %s, destination %s, %s' % (src or 'any', dst, dump or 'no option'), one, what, md, Const(src or 'some/source'), None if src else any_, Const(dst), Const(dump))
