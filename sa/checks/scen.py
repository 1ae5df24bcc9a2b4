"""Abstract scenarios: a function, its arguments described by unit and offset
behaviour, and the unit / offset behaviour every result leaf must have."""
import fnmatch
import re
from .. import forms as F
from ..values import *
from ..entries import flatten
from ..project import AnalysisError
from .common import *

SCALE = ('a', 'w', 'c', 'p')
FREQ = ('f', 't')
ONE = F.fconst(1)
POS = (1e-300, INF)


class Arg:
    """argument whose degrees and offset coefficient depend on the active transformation"""

    def __init__(self, kind, name=None, sh=0, nd=None, dt='f', iv=TOPIV, db=None, value=None, items=None, **degs):
        self.kind, self.name, self.sh, self.nd, self.dt, self.iv, self.db, self.value, self.items, self.degs = \
            kind, name, sh, nd, dt, iv, db, value, items, degs

    def make(self, mode, I, st, path):
        if self.kind == 'const':
            return mkconst(self.value)
        if self.kind == 'tuple':
            return AV(Tup([x.make(mode, I, st, '%s.%d' % (path, i)) for i, x in enumerate(self.items)]), frozenset([('p', path)]))
        if self.kind == 'list':
            return I.new_list([x.make(mode, I, st, '%s.%d' % (path, i)) for i, x in enumerate(self.items)], st, I.scen_node, path)
        if self.kind == 'dict':
            return I.new_dict({k: x.make(mode, I, st, '%s.%s' % (path, k)) for k, x in self.items.items()}, st, I.scen_node, path)
        if self.kind == 'ax':
            return AV(Eo('mpl', ('arg', path)), frozenset([('p', path)]))
        if self.kind == 'rng':
            return AV(Eo('Generator', ('arg', path)), frozenset([('p', path)]))
        syms = SCALE if mode == 'scale' else FREQ if mode == 'freq' else ()
        if self.db is not None:
            c = {k: v for k, v in self.db.items() if k in syms}
            law = logl(**c) if c else L_0
        else:
            c = {k: v for k, v in self.degs.items() if k in syms and v}
            law = deg(**c) if c else L_0
        sh = F.fconst(self.sh) if mode == 'offset' and self.sh else SH0
        fl = ('i' if self.dt == 'i' else '') + ('p' if self.iv[0] > 0 else '') + ('' if self.kind == 'arr' else 's')
        atom = F.fatom(('arg', path, fl) if fl else ('arg', path))
        arr = self.kind == 'arr'
        return AV(Num(arr=arr, nd=(self.nd or 1) if arr else 0, dt=self.dt, law=law, sh=sh, iv=self.iv, form=atom,
                      roots=frozenset([('arg', path)]) if arr else E, prov='arg' if arr else None),
                  frozenset([('p', path)]))


def arr(**k):
    return Arg('arr', **k)


def num(**k):
    return Arg('num', **k)


def pos(**k):
    return Arg('num', iv=POS, **k)


def const(v):
    return Arg('const', value=v)


def tup(*x):
    return Arg('tuple', items=list(x))


def dct(**k):
    return Arg('dict', items=k)


RNG = Arg('rng')
NONE = const(None)
ITER = num(dt='i', iv=(1, INF))


class Want:
    def __init__(self, sh=0, db=None, skip=(), **degs):
        self.sh, self.db, self.degs, self.skip = sh, db, degs, skip


def V(sh=0, **d):
    """a voltage-like quantity"""
    return Want(sh=sh, a=1, **d)


def D(sh=0, **degs):
    return Want(sh=sh, **degs)


INV = Want()


class Case:
    def __init__(self, fn, args, want, modes=('scale', 'freq', 'offset'), tag='', intshift=False):
        self.fn, self.args, self.want, self.modes, self.tag, self.intshift = fn, args, want, modes, tag, intshift

    @property
    def name(self):
        return self.fn + (' {%s}' % self.tag if self.tag else '')


COMMON = dict(create_plot=const(False), max_iterations=ITER, tolerance=pos(), ax=NONE, axes=NONE, verbose=const(0), title=NONE, disp=const(0))


def dotted(path):
    s = re.sub(r"\['([^']*)'\]", r'.\1', path)
    s = re.sub(r'\[(\d+|\*|\?)\]', r'.\1', s)
    return s.lstrip('.')


def expected(case, path):
    for pat, w in case.want:
        if fnmatch.fnmatchcase(path, pat):
            return w
    return None


def lawtext(l):
    if not l:
        return '?'
    out = []
    for x in sorted(l):
        if x == UNK:
            out.append('unknown')
        elif x == ANY:
            out.append('zero')
        elif x == KON:
            out.append('constant')
        elif x[0] == 'd':
            out.append('·'.join('%s^%g' % q for q in x[1]) or 'invariant')
        else:
            out.append('dB ' + ' '.join('%+g·log10(%s)' % (c, s) for s, c in x[1]))
    return ' or '.join(out)


def law_decide(have, want):
    """True / False / None for the scaling law of a leaf"""
    if not have or UNK in have:
        return None
    rest = [x for x in have if x not in (ANY,)]
    if not rest:
        return True
    (w,) = want
    ok = []
    for x in rest:
        if x == KON:
            x = D0
        ok.append(x == w or (x[0] == w[0] and len(x[1]) == len(w[1]) and all(p[0] == q[0] and abs(p[1] - q[1]) < 1e-6 for p, q in zip(x[1], w[1]))))
    if all(ok):
        return True
    if any(ok) and all(o or x == KON for o, x in zip(ok, rest)):
        return None         # a fixed fallback value on some path
    return False


def run_case(ctx, case, mode):
    W = ctx.W
    e = W.entry(P_ + case.fn)
    names = params_of(e)
    if e.cls is not None:
        names = names + ['self.' + p.arg for p in e.cls.attrs['__init__'].get('func').node.args.args[1:]]
    over = {}
    args = dict((k, v) for k, v in COMMON.items() if k in names)
    args.update((k, v) for k, v in case.args.items() if k in names)
    va = vararg_names(e)
    if not va:
        gone = [k for k in case.args if k not in names]
        if gone:
            raise AnalysisError('%s no longer has parameter(s) %s' % (case.fn, ', '.join(gone)))
    W.I.scen_node = e.fn.node
    for k, v in args.items():
        over[k] = (lambda I, st, v=v, k=k: v.make(mode, I, st, k))
    return e, W.run(e, over=over, generic=True, intshift=case.intshift and mode == 'offset')


def decide(ctx, case, mode, what):
    """decide one scenario; every listed leaf is one obligation"""
    kind = 'SHV' if mode == 'offset' else 'BAD'
    try:
        e, r = run_case(ctx, case, mode)
    except RecursionError:
        ctx.unsure('%s: not analysed' % case.name)
        return
    except AnalysisError as ex:
        ctx.unsure('%s: %s' % (case.name, ex))
        return
    where = '%s:%s' % (e.mod.rel, e.fn.node.lineno)
    if r.value is None:
        ctx.unsure('%s: analysis found no normal return for this scenario' % case.name)
        return
    for ev in r.events:
        if ev.kind == 'rejects':
            for lb in ev.data['labels']:
                if lb[0] == kind:
                    ctx.bad(what, '%s:%s' % (site_fn(lb[1]), lb[2]), lb[1], '%s decides whether %s rejects its input: acceptance changes with the %s' % (
                        lb[2], case.name, 'offset' if mode == 'offset' else 'unit'), ['scenario %s' % case.name])
    n = 0
    for path, v in flatten(ctx.W.I, r.value, r.state):
        d = dotted(path)
        w = expected(case, d)
        if w is None or mode in w.skip:
            continue
        for a in v.alts:
            if a.kind != 'num':
                continue
            n += 1
            leaf = '%s -> %s' % (case.name, d or 'result')
            labels = sorted(x for x in v.deps if x[0] == kind)
            if labels:
                for lb in labels:
                    ctx.bad(what, '%s:%s' % (site_fn(lb[1]), lb[2]), lb[1], '%s; %s is no longer %s' % (
                        lb[2], leaf, 'independent of a constant added to the input' if mode == 'offset' else 'consistent under a change of units'),
                        ['scenario %s' % case.name, 'result leaf %s' % d])
                continue
            if mode == 'offset':
                if a.sh is None:
                    ctx.unsure('%s: offset behaviour not determined' % leaf)
                    continue
                sh = SH0 if a.sh is SHANY else a.sh
                ref = F.fconst(w.sh) if w.sh else SH0
                q = F.equal(sh, ref)
                if q is False and not F.differ(sh, ref):
                    q = None
                if a.sh is SHANY or q is True:
                    ctx.good('%s: offset coefficient %g' % (leaf, w.sh))
                elif q is False:
                    ctx.bad(what, '%s:%s' % (case.fn, d), where, '%s moves by %s per unit added to the input, expected %g' % (leaf, F.show(sh, 3)[:80], w.sh), ['scenario %s' % case.name])
                else:
                    ctx.unsure('%s: offset coefficient not determined' % leaf)
                continue
            syms = SCALE if mode == 'scale' else FREQ
            if w.db is not None:
                c = {k: x for k, x in w.db.items() if k in syms}
                want = logl(**c) if c else L_0
            else:
                c = {k: x for k, x in w.degs.items() if k in syms and x}
                want = deg(**c) if c else L_0
            q = law_decide(a.law, want)
            if q is True:
                ctx.good('%s: %s' % (leaf, lawtext(want)))
            elif q is False:
                ctx.bad(what, '%s:%s' % (case.fn, d), where, '%s scales as %s, expected %s' % (leaf, lawtext(a.law), lawtext(want)), ['scenario %s' % case.name])
            else:
                ctx.unsure('%s: scaling law not determined' % leaf)
    ctx.count('leaves', n)
    if n == 0:
        ctx.unsure('%s: no listed result leaf found' % case.name)
