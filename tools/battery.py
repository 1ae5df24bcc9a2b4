"""Development aid: apply small edits to a scratch copy of the sources and list which checks react.

usage: battery.py FILE.py [ids=P01,P02] [neutral] [name ...]     FILE.py defines CASES = [(name, expected ids, [(file, old, new), ...]), ...]
NORMALISED = True in FILE.py: edits are written against comment-free, ast.unparse-formatted sources; IDS limits the checks run.
expected: set of ids of which at least one must react; empty set = behaviour preserving, nothing may react.
"""
import importlib.util
import multiprocessing
import os
import shutil
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
SRC = 'python/src/adctoolbox'


def analyse(repo, ids=None):
    from sa import report, par
    from sa.checks import internal
    par.WORKERS = 1
    internal.PAIRS = 0           # pairs of options only in the real check
    from sa.checks import CHECKS
    from sa.entries import World
    out = {}
    W = None
    for pid in sorted(CHECKS):
        if ids and pid not in ids:
            continue
        ctx = report.Ctx(pid, 'quick')
        try:
            if W is None:
                W = World(repo)
            ctx._w = W
            t = time.time()
            CHECKS[pid][0](ctx)
            known = report.load_known(pid)
            bad = ['%s  %s' % (f.where, f.msg) for k, f in sorted(ctx.findings.items()) if k not in known]
            low = [x for x in ctx.floors if x[1] < x[2]]
            if bad:
                out[pid] = bad
            elif low:
                out[pid] = ['FLOOR %s' % (low,)]
        except Exception as e:
            import traceback
            out[pid] = ['CRASH %r %s' % (e, traceback.format_exc()[-600:])]
    return out


def normalise(path):
    """drop comments, docstrings and layout so that edits can be written against one canonical text"""
    import ast
    t = ast.parse(open(path).read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    open(path, 'w').write(ast.unparse(t) + '\n')


def job(a):
    name, expect, edits, ids, norm = a
    d = tempfile.mkdtemp(prefix='bat_')
    res = []

    def work():
        try:
            shutil.copytree(os.path.join(os.environ.get('SEED_REPO', '/repo'), SRC), os.path.join(d, SRC), ignore=shutil.ignore_patterns('examples', '__pycache__'))
            if norm:
                for r, _, fs in os.walk(os.path.join(d, SRC)):
                    for f in fs:
                        if f.endswith('.py'):
                            normalise(os.path.join(r, f))
            for f, old, new in edits:
                p = os.path.join(d, SRC, f)
                s = open(p).read()
                if s.count(old) < 1:
                    res.append({'EDIT': ['%s: text not found: %r' % (f, old[:60])]})
                    return
                s = s.replace(old, new, 1)
                compile(s, p, 'exec')
                open(p, 'w').write(s)
            res.append(analyse(d, ids))
        except Exception as e:
            res.append({'CRASH': [repr(e)]})
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    shutil.rmtree(d, ignore_errors=True)
    return name, expect, res[0] if res else {'CRASH': ['?']}


def main():
    spec = importlib.util.spec_from_file_location('cases', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    names = [x for x in sys.argv[2:] if not x.startswith('ids=') and x != 'neutral']
    neutral = 'neutral' in sys.argv[2:]
    ids = None
    for x in sys.argv[2:]:
        if x.startswith('ids='):
            ids = x[4:].split(',')
    cases = [(n, set(e), ed, ids or getattr(m, 'IDS', None), getattr(m, 'NORMALISED', False)) for n, e, ed in m.CASES if not (neutral and e) and (not names or any(n.startswith(q) for q in names))]
    miss = 0
    with multiprocessing.Pool(8, maxtasksperchild=4) as pool:
        for name, expect, res in pool.imap(job, cases):
            got = set(res)
            good = (not got) if not expect else bool(got & expect) and not ({'CRASH', 'EDIT'} & got)
            miss += not good
            print('%-4s %-40s expect %-12s got %s' % ('ok' if good else 'BAD', name, ','.join(sorted(expect)) or '-', ','.join(sorted(got)) or '-'))
            if not good or names:
                for k, v in sorted(res.items()):
                    for x in v[:3]:
                        print('       %s %s' % (k, x[:300]))
            sys.stdout.flush()
    print('%d cases, %d unexpected' % (len(cases), miss))


if __name__ == '__main__':
    main()
