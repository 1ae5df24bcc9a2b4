"""Runs independent queries of one check in forked workers; results are merged in the order of the items."""
import os
import pickle
import sys
import tempfile
import warnings

WORKERS = 8


class Rec:
    """stands in for Ctx in a worker and records what the query reports"""

    def __init__(self, ctx):
        self.W = ctx.W
        self.tier = ctx.tier
        self.prop = ctx.prop
        self.ops = []

    def __getattr__(self, name):
        if name not in ('good', 'unsure', 'bad', 'count'):
            raise AttributeError(name)
        return lambda *a: self.ops.append((name, a))


def stats(I):
    return I.calls, set(I.fn_seen), dict(I.unmodelled), list(I.internal), list(I.unbound)


def work(ctx, items, fn, part):
    I = ctx.W.I
    c0, _, u0, n0, b0 = stats(I)
    out = {}
    for i in part:
        r = Rec(ctx)
        fn(r, items[i])
        out[i] = r.ops
    c1, f1, u1, n1, b1 = stats(I)
    return out, (c1 - c0, f1, {k: v - u0.get(k, 0) for k, v in u1.items()}, n1[len(n0):], b1[len(b0):])


def fork_each(ctx, items, fn):
    """fn(recorder, item) for every item, spread over forked copies of this process"""
    items = list(items)
    I = ctx.W.I
    k = min(WORKERS, os.cpu_count() or 1, len(items))
    jobs = []
    sys.stdout.flush()
    sys.stderr.flush()
    warnings.simplefilter("ignore", DeprecationWarning)       # forking beside a waiting main thread
    for j in range(k if k > 1 else 0):
        f = tempfile.TemporaryFile()
        try:
            pid = os.fork()
        except OSError:
            f.close()
            continue
        if pid == 0:
            code = 1
            try:
                pickle.dump(work(ctx, items, fn, range(j, len(items), k)), f)
                f.flush()
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        jobs.append((pid, f))
    got = {}
    for pid, f in jobs:
        _, s = os.waitpid(pid, 0)
        if s == 0:
            try:
                f.seek(0)
                ops, (calls, seen, unm, gaps, unb) = pickle.load(f)
            except (EOFError, pickle.UnpicklingError):
                ops = None
            if ops is not None:
                got.update(ops)
                I.calls += calls
                I.fn_seen |= seen
                for a, b in unm.items():
                    I.unmodelled[a] = I.unmodelled.get(a, 0) + b
                I.internal += gaps
                I.unbound += unb
        f.close()
    rest = [i for i in range(len(items)) if i not in got]      # what no worker delivered
    if rest:
        got.update(work(ctx, items, fn, rest)[0])
    for i in range(len(items)):
        for name, a in got[i]:
            getattr(ctx, name)(*a)
