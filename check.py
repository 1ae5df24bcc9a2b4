#!/usr/bin/env python3
"""check.py <property id>: decide one property from the sources under /repo."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(40000)

from sa import report                      # noqa: E402
from sa.project import AnalysisError       # noqa: E402


def main():
    import threading
    ids = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from sa.checks import CHECKS
    if not ids:
        print('usage: check.py <id> ...; known: %s' % ' '.join(sorted(CHECKS)))
        return 2
    if ids == ['all']:
        ids = sorted(CHECKS)
    rc = 0
    for pid in ids:
        t0 = time.time()
        if pid not in CHECKS:
            print('unknown property %s' % pid)
            return 2
        fn, technique = CHECKS[pid]
        ctx = report.Ctx(pid, tier if tier in ('quick', 'thorough') else 'quick')
        try:
            fn(ctx)
            r = report.finish(ctx, seed, t0, technique)
        except AnalysisError as e:
            print('ANALYSIS-BROKEN: property=%s %s' % (pid, e))
            r = 2
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 2)
