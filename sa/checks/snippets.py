"""Shipped examples and documented code: everything they use exists."""
import glob
import os
from . import check
from .common import *
from .internal import EVENTS, RULE
from ..par import fork_each
from ..project import Module


def sources(repo):
    """(path, first line, text) of every example and every Python block of the readme files and the bundled user guide"""
    src = os.path.join(repo, 'python', 'src', 'adctoolbox')
    for f in sorted(glob.glob(os.path.join(src, 'examples', '**', '*.py'), recursive=True)):
        with open(f) as fh:
            yield f, 1, fh.read()
    docs = [os.path.join(repo, 'README.md'), os.path.join(repo, 'python', 'README.md')]
    docs += sorted(glob.glob(os.path.join(src, '_bundled_skills', '**', '*.md'), recursive=True))
    for f in docs:
        if not os.path.isfile(f):
            continue
        with open(f) as fh:
            s = fh.read()
        for b in re.finditer(r'^```python[^\n]*\n(.*?)^```', s, re.S | re.M):
            yield f, s[:b.start(1)].count('\n') + 1, b.group(1)


def as_function(text, line):
    """the script as the body of one function, so that the interpreter can run it abstractly"""
    t = ast.parse(text)
    fd = ast.parse("def main():\n    __name__ = '__main__'").body[0]
    fd.body += [x for x in t.body if not (isinstance(x, ast.ImportFrom) and x.module == '__future__')]
    t.body = [fd]
    ast.fix_missing_locations(t)
    ast.increment_lineno(t, line - 1)
    return t


@check('P19', 'abstract interpretation of every shipped example script and documented code block together with the package: argument lists bind, imported names and result fields exist')
def p19(ctx):
    W = ctx.W
    ctx.rule('every function, argument, result field and attribute used by a shipped example or a documented code block exists')
    fork_each(ctx, list(enumerate(sources(W.project.repo))), snippet)
    ctx.floor('example scripts', ctx.counts.get('example scripts', 0), 40)
    ctx.floor('documented code blocks', ctx.counts.get('documented code blocks', 0), 8)


def snippet(ctx, job):
    W = ctx.W
    i, (path, line, text) = job
    rel = os.path.relpath(path, W.project.repo)
    try:
        t = as_function(text, line)
    except SyntaxError:
        return                       # fragment with placeholders
    name = 'snippet_%d' % i
    m = Module(name, path, rel, t, False)
    W.project.modules[name] = m
    try:
        W.I.load(name)
        fn = m.env['main'].get('func')
        W.I.badimports = []
        r = W.run(Entry(fn, m, fn.qual, False))
    except (RecursionError, AnalysisError) as ex:
        ctx.unsure('%s: not analysed (%s)' % (rel, ex))
        return
    finally:
        del W.project.modules[name]
    ctx.count('example scripts' if path.endswith('.py') else 'documented code blocks')
    hit = False
    for site, mod, nm in W.I.badimports:
        if site.startswith(rel):
            hit = True
            ctx.bad('unresolved-import', '%s:%s.%s' % (rel, mod, nm), site, '%s imports %s%s, which does not exist' % (rel, mod, '.' + nm if nm else ''))
    W.I.badimports = []
    for x in r.events:
        f = EVENTS.get(x.kind)
        if f is None or x.data.get('guarded') or x.kind == 'maybeunbound':
            continue
        msg = f(x.data)
        if msg is None:
            continue
        hit = True
        ctx.bad(RULE[x.kind], '%s:%s' % (rel, msg), x.site, '%s:%d: %s' % (rel, line, msg), stack_trace(x))
    if not hit:
        ctx.good()
