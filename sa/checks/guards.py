"""Invalid settings are rejected, valid ones are accepted."""
import ast
import os
from . import check
from ..entries import default_node
from ..project import AnalysisError
from .common import *
from .contracts import DIR, KINDS
from .scen import arr

BREAKS = ('TypeError', 'IndexError', 'KeyError', 'ZeroDivisionError', 'AttributeError', 'NameError', 'UnboundLocalError')
MORE = dict(KINDS, rec3=arr(nd=3))


def settings(e):
    """(parameter, invalid setting, valid settings); a setting is a literal expression or the kind of a record"""
    out = None
    for p in e.params():
        ann = p.annotation.value if p.annotation is not None else None
        d = default_node(e.fn, p.arg)
        if d is not None and ann is not None:
            one = (p.arg, d, [ast.parse(x.strip(), mode='eval').body for x in ann.split(';')])
        elif ann is not None and '!' in ann:
            bad, good = ann.split('!')
            one = (p.arg, bad, good.split(';'))
        else:
            continue
        if out is not None:
            raise AnalysisError('%s tests two settings' % e.name)
        out = one
    if out is None:
        raise AnalysisError('%s tests no setting' % e.name)
    return out


def run(ctx, e, name, value):
    """analyse the call with that setting: (result, undecided tests, calls)"""
    W = ctx.W
    over = {}

    def literal(I, st, node, k):
        return I.ev(node, st).adddeps(frozenset([('p', k)]))
    W.I.scen_node = e.fn.node
    for p in e.params():
        v = value if p.arg == name else p.annotation.value if p.annotation is not None else default_node(e.fn, p.arg)
        if isinstance(v, str):
            over[p.arg] = (lambda I, st, a=MORE[v], k=p.arg: a.make('none', I, st, k))
        else:
            over[p.arg] = (lambda I, st, v=v, k=p.arg: literal(I, st, v, k))
    called = []
    W.I.hooks['call'] = lambda I, fn, env, n, st: called.append((len(I.stack), fn))
    W.I.undec = []
    try:
        r = W.run(e, over=over, generic=True)
    finally:
        W.I.hooks.pop('call', None)
    return r, list(W.I.undec), called


def refusals(r):
    return {(x.site, x.data.get('exc')) for x in r.events if x.kind == 'raise'}


def target(called):
    called = [(d, fn) for d, fn in called if os.path.dirname(fn.mod.path) != DIR]
    low = min([d for d, _ in called], default=0)
    for d, fn in called:
        if d == low and fn.name != '__init__':
            return '%s:%s (%s)' % (fn.mod.rel, fn.node.lineno, fn.qual), fn.qual
    return '?', '?'


def text(name, v):
    return '%s = %s' % (name, ast.unparse(v)) if not isinstance(v, str) else '%s with %s dimensions' % (name, MORE[v].nd)


@check('P20', 'abstract interpretation of the same call with one invalid and several valid constant settings and otherwise arbitrary arguments: '
              'with the invalid one every path ends in an exception, with a valid one some path returns')
def p20(ctx):
    ctx.rule('a call with an invalid setting is refused with a ValueError on every path')
    ctx.rule('the same call with a valid setting is not refused on every path')
    for e in ctx.W.contracts(os.path.join(DIR, 'reject.py')):
        try:
            name, bad, good = settings(e)
            r, undec, called = run(ctx, e, name, bad)
            dead, mine = r.value is None, refusals(r)
            where, fn = target(called)
            normal, usual = set(), set()
            for v in good:
                g, gu, _ = run(ctx, e, name, v)
                normal |= refusals(g)
                usual |= {s for s, _ in gu}
                ctx.count('valid settings')
                if g.value is not None:
                    ctx.good('%s: %s' % (fn, text(name, v)))
                else:
                    last = [x for x in g.events if x.kind == 'raise']
                    ctx.bad('valid-setting-refused', '%s:%s:%s' % (e.name, fn, text(name, v)), last[-1].site if last else where,
                            '%s refuses the valid setting %s whatever the record' % (fn, text(name, v)), ['call %s in sa/contracts/reject.py' % e.name])
        except (AnalysisError, RecursionError) as ex:
            ctx.unsure('%s: %s' % (e.name, ex))
            continue
        ctx.count('invalid settings')
        # a test that also involves the data and stays open for valid settings too is a check of the data, not of the setting
        open_ = [s for s, d in undec if ('p', name) in d and (isinstance(bad, str) or s not in usual or pdeps(d) <= {name})]
        own = mine - normal
        if dead and (not own or any(x not in BREAKS for _, x in own)):
            ctx.good('%s: %s' % (fn, text(name, bad)))
        elif dead:
            ctx.bad('invalid-setting-not-diagnosed', '%s:%s' % (e.name, fn), sorted(own)[0][0],
                    '%s does not check %s: the call breaks with %s instead of a ValueError' % (fn, text(name, bad), sorted(own)[0][1]), ['call %s in sa/contracts/reject.py' % e.name])
        elif open_:
            ctx.unsure('%s: %s not decided (%s)' % (fn, text(name, bad), open_[0]))
        elif mine - normal:
            ctx.unsure('%s: %s refused at %s, but a path around it is not excluded' % (fn, text(name, bad), sorted(mine - normal)[0][0]))
        else:
            ctx.bad('invalid-setting-accepted', '%s:%s' % (e.name, fn), where, '%s goes on with the invalid setting %s instead of refusing it' % (fn, text(name, bad)),
                    ['call %s in sa/contracts/reject.py' % e.name])
    ctx.floor('invalid settings', ctx.counts['invalid settings'], 30)
