"""Findings, known findings, evidence files and exit codes."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Finding:
    """one violation; `key` identifies the construct without line numbers"""

    def __init__(self, rule, key, where, msg, trace=()):
        self.rule = rule
        self.key = key
        self.where = where
        self.msg = msg
        self.trace = list(trace)


def load_known(prop):
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('known: property=%s ' % prop):
                continue
            rest = line[len('known: property=%s ' % prop):]
            key, _, what = rest.partition(' | ')
            key = key.strip()
            if key.startswith('key='):
                key = key[4:]
            out[key] = what.strip()
    return out


class Ctx:
    """what one check records while it runs"""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.findings = {}
        self.obl = 0              # rule instances decided
        self.ok = 0               # of those, decided in favour
        self.inconclusive = []    # instances the analysis cannot decide either way
        self.samples = []
        self.counts = {}
        self.floors = []
        self.rules = []
        self._w = None

    @property
    def W(self):
        if self._w is None:
            from .entries import World
            self._w = World()
        return self._w

    def rule(self, text):
        self.rules.append(text)

    def good(self, sample=None):
        self.obl += 1
        self.ok += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def unsure(self, what):
        self.obl += 1
        self.inconclusive.append(what)

    def bad(self, rule, key, where, msg, trace=()):
        self.obl += 1
        k = '%s:%s' % (rule, key)
        if k not in self.findings:
            self.findings[k] = Finding(rule, k, where, msg, trace)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, what, have, need):
        """vacuity guard: the analysis must still see at least `need` instances"""
        self.floors.append((what, have, need))


def finish(ctx, seed, t0, technique):
    known = load_known(ctx.prop)
    new, old = [], []
    for k, f in sorted(ctx.findings.items()):
        (old if k in known else new).append(f)
    low = [x for x in ctx.floors if x[1] < x[2]]
    ev = {
        'property': ctx.prop,
        'tier': ctx.tier,
        'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation': technique,
            'rules': ctx.rules,
            'rule_instances': ctx.obl,
            'instances_holding': ctx.ok,
            'instances_undecided': len(ctx.inconclusive),
            'undecided_list': ctx.inconclusive[:60],
            'counts': ctx.counts,
            'floors': [{'what': a, 'have': b, 'need': c} for a, b, c in ctx.floors],
            'samples': ctx.samples,
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
        'assumptions': [
            'models of numpy, scipy, matplotlib, pathlib and builtins in sa/npmod.py and sa/ext.py describe those libraries correctly',
            'no eval/exec, monkey patching or C extension of the package itself; the source under /repo/python/src/adctoolbox is what runs',
        ],
    }
    if ctx._w is not None:
        I = ctx._w.I
        ev['coverage']['analysed'] = {
            'modules': len(ctx._w.project.modules), 'public_entries': len(ctx._w.entries),
            'functions_reached': len(I.fn_seen), 'abstract_calls': I.calls,
            'unmodelled_externals': dict(sorted(I.unmodelled.items(), key=lambda x: -x[1])[:25]),
            'analyser_gaps': [list(x) for x in I.internal[:20]],
            'source_sha256': ctx._w.project.digest,
        }
    d = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, ctx.prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)
    rp = os.path.join(d, ctx.prop + '.violation.json')
    if os.path.exists(rp):
        os.remove(rp)
    for f in old:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (ctx.prop, known[f.key], f.where, f.msg))
    print('%s: %d rule instances, %d hold, %d undecided, %d known, %d violations (%.1fs)' % (
        ctx.prop, ctx.obl, ctx.ok, len(ctx.inconclusive), len(old), len(new), time.time() - t0))
    if low:
        for a, b, c in low:
            print('ANALYSIS-BROKEN: property=%s only %d of at least %d %s seen' % (ctx.prop, b, c, a))
    if new:
        with open(rp, 'w') as f:
            json.dump([{'rule': x.rule, 'key': x.key, 'where': x.where, 'message': x.msg, 'trace': x.trace} for x in new], f, indent=1, default=str)
        for x in new[:40]:
            print('  %s: [%s] %s  (key=%s)' % (x.where, x.rule, x.msg, x.key))
            for t in x.trace[:8]:
                print('      %s' % (t,))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
        return 1
    return 2 if low else 0
