"""Relations between results, stated as small programs over the public functions (sa/contracts/*.py).  The programs are
analysed by the same interpreter as the package; both sides of a relation are compared as symbolic value numbers."""
import os
from . import check
from .. import forms as F
from .. import lengths as LN
from ..values import *
from ..entries import flatten
from ..project import AnalysisError
from .common import *
from .scen import Arg, arr, num, pos, const

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
KINDS = {'rec': arr(nd=1), 'rec2': arr(nd=2), 'bits': arr(nd=2, dt='i'), 'codes': arr(nd=1, dt='i'), 'num': num(), 'pos': pos(), 'int': num(dt='i'),
         'pint': num(dt='i', iv=(1, INF)), 'len': num(dt='i', iv=(2, INF)), 'gain': arr(nd=1), 'ax': Arg('ax')}


def pairs_of(I, v, st):
    """(label, lhs, rhs) triples of a returned list of triples"""
    els = I.exact_elems(v, st)
    if els is None:
        raise AnalysisError('contract does not return a plain list')
    for e in els:
        t = I.exact_elems(e, st)
        if t is None or len(t) != 3:
            raise AnalysisError('contract entry is not a triple')
        yield t[0].const(), t[1], t[2]


def side_forms(I, v, st):
    if len(v.alts) != 1:
        return None
    a = v.alts[0]
    if a.kind == 'num':
        if a.form is not None:
            return a.form
        if a.const is not NC and isinstance(a.const, (int, float, bool)):
            return F.fconst(a.const)
    return None


def expand(I, triples, st):
    """compare structures leaf by leaf"""
    for label, x, y in triples:
        if all(len(v.alts) == 1 and v.alts[0].kind in ('ref', 'tup') for v in (x, y)):
            a, b = dict(flatten(I, x, st)), dict(flatten(I, y, st))
            for k in b:
                if k in a and not b[k].only('str') and not b[k].only('none'):
                    yield '%s %s' % (label, k), a[k], b[k]
        else:
            yield label, x, y


def numbered(av):
    """value number of an argument of a call that is kept symbolic"""
    if len(av.alts) != 1:
        return None
    a = av.alts[0]
    if a.kind == 'num':
        if a.form is not None and F.single(a.form) is not None and F.single(a.form)[0] == 'const':
            return F.fatom(('karg', str(F.single(a.form)[1])))
        if a.form is not None:
            return a.form
        return F.fconst(float(a.const)) if a.const is not NC and isinstance(a.const, (int, float)) else None
    if a.kind == 'str' and isinstance(a.const, str):
        return F.fapp('name', F.fconst(float(int.from_bytes(a.const.encode()[:6], 'big'))))
    return F.fatom(('karg', a.kind)) if a.kind == 'none' else None


def influences(W, fn):
    """result leaf -> parameters that may influence it"""
    for e in W.entries:
        if e.fn.node is fn.node and e.cls is None:
            r = W.run(e)
            if r.value is None:
                return None
            return {k: {d[1] for d in v.deps if d[0] == 'p'} for k, v in flatten(W.I, r.value, r.state)}
    return None


def keep_symbolic(W, cores):
    """hook: the results of the named functions become uninterpreted applications result(arguments)"""
    inf, busy = {}, []

    def relabel(I, v, st, path, fn, env, names, depth=4):
        if len(v.alts) != 1 or depth < 0:
            return v
        a = v.alts[0]
        if a.kind == 'num' and a.const is NC and a.form is not None:
            ps = inf[fn.qual].get(path)
            if ps is None:
                return v
            fs = [numbered(env[p]) if p in env else None for p in sorted(ps)]
            if any(f is None for f in fs):
                return v
            leaf = names.setdefault(a.form.id, len(names))
            return AV(a.rep(form=F.fatom(('f', 'result:' + fn.qual, F.fconst(float(leaf)).id) + tuple(f.id for f in fs)), parts=None, plen=None), v.deps, v.vn)
        if a.kind == 'tup':
            return AV(a.rep(el=tuple(relabel(I, e, st, '%s[%d]' % (path, i), fn, env, names, depth - 1) for i, e in enumerate(a.el))), v.deps)
        if a.kind == 'ref' and st.heap.get(a.loc) is not None:
            h = st.heap[a.loc]
            if h.ty == 'dict' and h.d is not None:
                st.heap[a.loc] = h.rep(d={k: (relabel(I, x, st, '%s[%r]' % (path, k), fn, env, names, depth - 1), m) for k, (x, m) in h.d.items()})
            elif h.ty == 'list' and h.el is not None:
                st.heap[a.loc] = h.rep(el=tuple(relabel(I, x, st, '%s[%d]' % (path, i), fn, env, names, depth - 1) for i, x in enumerate(h.el)))
        return v

    def hook(I, fn, env, n, st):
        if id(fn.node) not in cores or busy or inf.get(fn.qual) is None:
            return None
        busy.append(1)
        try:
            env = dict(env)
            v = I.run_func(fn, dict(env), n, st)
            return relabel(I, v, st, '', fn, env, {}) 
        finally:
            busy.pop()
    for fn in cores.values():
        inf[fn.qual] = influences(W, fn)
    return hook


def forwarded(ctx, e, over, cores):
    """second look at relations the value numbers left open: the functions a wrapper and the relation both call stay
    uninterpreted, so that only what is passed to them and taken from them is compared"""
    W = ctx.W
    hook = keep_symbolic(W, cores)
    W.I.hooks['subst'] = hook
    try:
        r = W.run(e, over=over, generic=True)
        if r.value is None:
            return {}
        out = {}
        for label, x, y in expand(W.I, list(pairs_of(W.I, r.value, r.state)), r.state):
            fx, fy = side_forms(W.I, x, r.state), side_forms(W.I, y, r.state)
            if F.relation(fx, fy) is False:
                out[label] = (fx, fy)
        return out
    except (AnalysisError, RecursionError):
        return {}
    finally:
        W.I.hooks.pop('subst', None)


def run_contracts(ctx, fname, rule, only=None, wrappers=False, lengths=False):
    W = ctx.W
    for e in W.contracts(os.path.join(DIR, fname)):
        if only and not only(e.name):
            continue
        over = {}
        ranks = {p.arg: KINDS[p.annotation.value].nd or 1 for p in e.params() if KINDS[p.annotation.value].kind == 'arr'}
        ranks.update({'int ' + p.arg: 1 for p in e.params() if KINDS[p.annotation.value].kind == 'arr' and KINDS[p.annotation.value].dt == 'i'})
        W.I.scen_node = e.fn.node
        for p in e.params():
            a = KINDS[p.annotation.value]
            over[p.arg] = (lambda I, st, a=a, k=p.arg: a.make('none', I, st, k))
        called = []
        W.I.hooks['call'] = lambda I, fn, env, n, st: called.append((len(I.stack), fn))
        try:
            r = W.run(e, over=over, generic=True)
            if r.value is None:
                ctx.unsure('%s: no normal return found' % e.name)
                continue
            triples = list(pairs_of(W.I, r.value, r.state))
        except (AnalysisError, RecursionError) as ex:
            ctx.unsure('%s: %s' % (e.name, ex))
            continue
        finally:
            W.I.hooks.pop('call', None)
        low = min([d for d, _ in called], default=0)
        deep = {id(fn.node) for d, fn in called if d > low}
        cores = {id(fn.node): fn for d, fn in called if d == low and id(fn.node) in deep}
        second = None
        for label, x, y in expand(W.I, triples, r.state):
            fx, fy = side_forms(W.I, x, r.state), side_forms(W.I, y, r.state)
            q = F.relation(fx, fy) if not lengths else LN.relation(fx, fy, ranks)
            if x.only('none') and len(x.alts) == 1 and fy is not None:
                ctx.count('relations')
                ctx.bad(rule, '%s:%s' % (e.name, label), origin(called, label), '%s: nothing (None) is returned where a value is due' % label,
                        ['relation %s in sa/contracts/%s' % (e.name, fname), 'expected %s' % F.show(fy, 4)[:300]])
                continue
            if q is None and cores and wrappers:
                if second is None:
                    second = forwarded(ctx, e, over, cores)
                if label in second:
                    q, (fx, fy) = False, second[label]
            ctx.count('relations')
            if q is True:
                ctx.good('%s: %s' % (e.name, label))
            elif q is False:
                d = F.fsub(fx, fy)
                ctx.bad(rule, '%s:%s' % (e.name, label), origin(called, label), '%s: the two sides differ by %s' % (label, F.show(d, 4)[:160]),
                        ['relation %s in sa/contracts/%s' % (e.name, fname), 'left  %s' % F.show(fx, 4)[:300], 'right %s' % F.show(fy, 4)[:300]])
            else:
                ctx.unsure('%s: %s not decided' % (e.name, label))


def origin(called, label):
    """the package function the relation is about, for the report"""
    called = [(d, fn) for d, fn in called if os.path.dirname(fn.mod.path) != DIR]
    low = min([d for d, _ in called], default=0)
    for d, fn in called:
        if d == low:
            return '%s:%s (%s)' % (fn.mod.rel, fn.node.lineno, fn.qual)
    return '?'


TECH = ('Global value numbering by abstract interpretation: small relation programs over the public functions are analysed together with the current package '
        'source; both sides of each relation must have the same symbolic value number on every path')


@check('P12', TECH)
def p12(ctx):
    ctx.rule('reported metrics of one analysis satisfy their defining relations; the quick and the full analysis agree')
    run_contracts(ctx, 'metrics.py', 'metric-relation')
    ctx.floor('decided relations', ctx.ok, 10)


@check('P13', TECH)
def p13(ctx):
    ctx.rule('the parts an analysis reports add up to the record it was given')
    run_contracts(ctx, 'parts.py', 'parts-relation')
    ctx.floor('decided relations', ctx.ok, 10)


@check('P14', TECH)
def p14(ctx):
    ctx.rule('conversions follow their formulas, invert each other and agree between modules')
    run_contracts(ctx, 'units.py', 'conversion-relation')
    ctx.floor('decided relations', ctx.ok, 10)


@check('P15', TECH)
def p15(ctx):
    ctx.rule('signal generation, converter models and interleaving follow their formulas; neutral settings change nothing')
    run_contracts(ctx, 'neutral.py', 'model-relation')
    ctx.floor('decided relations', ctx.ok, 10)


@check('P17', TECH)
def p17(ctx):
    ctx.rule('wrappers and legacy names return what the wrapped function returns for the same settings')
    run_contracts(ctx, 'wrappers.py', 'wrapper-relation', wrappers=True)
    ctx.floor('decided relations', ctx.ok, 40)


@check('P23', TECH)
def p23(ctx):
    ctx.rule('the arrays of a result have one entry per sample, bin, lag, code, bit, weight, harmonic, channel or ratio, as documented')
    run_contracts(ctx, 'shapes.py', 'length-relation', lengths=True)
    ctx.floor('decided relations', ctx.ok, 20)
