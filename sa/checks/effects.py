"""Effect properties: caller data, hidden state, aliasing, randomness, plotting, output."""
from . import check
from .common import *
from .contracts import run_contracts

ABS = 'whole-program abstract interpretation of the package AST (interprocedural alias/effect/dependency domains); '


# ---------------------------------------------------------------------- P01
@check('P01', ABS + 'every in-place store, mutating method, out= target or augmented assignment is resolved to the memory it may touch; none may be memory reachable from an argument')
def p01(ctx):
    ctx.rule('for every public function and method, with arbitrary arguments: no reachable store may target memory rooted in an argument')
    n = 0
    stores = 0
    for e, r in run_all(ctx):
        n += 1
        va = vararg_names(e)
        hit = False
        for x in r.events:
            if x.kind != 'mutate':
                continue
            stores += 1
            for ro in x.data['roots']:
                if ro[0] != 'arg':
                    continue
                name = ro[1]
                if name in va and not in_function(x.site, e.fn.name):
                    continue          # judged at the function the wrapper forwards to
                if x.data['weak'] and scalar_param(e, name):
                    continue          # immutable scalar: the augmented assignment rebinds
                hit = True
                ctx.bad('argument-mutation', '%s:%s:%s' % (short(e.label), name, site_fn(x.site)), x.site,
                        '%s writes into the caller\'s `%s` (%s)' % (short(e.label), name, x.data['how']), stack_trace(x))
        if not hit:
            ctx.good({'entry': short(e.label), 'stores_resolved': sum(1 for x in r.events if x.kind == 'mutate')} if n % 17 == 0 else None)
    ctx.count('in-place stores resolved', stores)
    ctx.floor('public entries', n, 118)
    ctx.floor('in-place stores', stores, 300)


# ---------------------------------------------------------------------- P02
HIDDEN_DEPS = {'mplstate': 'matplotlib state', 'clock': 'the clock', 'env': 'the environment', 'identity': 'object identity', 'fs': 'the file system', 'input': 'standard input'}


@check('P02', ABS + 'writes to module globals, function attributes, default objects, class/instance state, numpy/matplotlib/warnings global settings and memo caches are collected on every path; results may not depend on clock, environment or identity')
def p02(ctx):
    ctx.rule('no call of a public function leaves a write to state that outlives the call, and no returned value depends on such state')
    n = 0
    for e, r in run_all(ctx):
        n += 1
        cli = e.mod.name in CLI_MODS
        hit = False

        def bad(x, what):
            nonlocal hit
            hit = True
            ctx.bad('hidden-state', '%s:%s' % (what, site_fn(x.site)), x.site, '%s: %s' % (short(e.label), what), stack_trace(x))
        for x in r.events:
            k, d = x.kind, x.data
            if k == 'globalwrite':
                bad(x, 'writes module/function state `%s`' % d['name'])
            elif k == 'extwrite':
                bad(x, 'writes external module state `%s`' % d['name'])
            elif k == 'hidden':
                bad(x, 'changes process-wide setting %s' % d['what'])
            elif k == 'attrwrite':
                bad(x, 'changes object state .%s of %s' % (d['attr'], d['label']))
            elif k == 'mutcont':
                bad(x, 'modifies the long-lived container %s (%s)' % (d['label'], d['how']))
            elif k == 'cachedcall':
                bad(x, 'memoises results across calls (%s)' % (d,))
            elif k == 'mutate':
                for ro in d['roots']:
                    if ro[0] in ('glob', 'selfattr'):
                        bad(x, 'modifies the long-lived array %s' % (ro[1:],))
        if r.value is not None:
            from ..interp import H
            seen = set()

            def walk(av, path, depth=6):
                nonlocal hit
                if depth == 0:
                    return
                for a in av.alts:
                    if a.kind == 'ref' and a.loc not in seen:
                        seen.add(a.loc)
                        h = r.state.heap.get(a.loc)
                        if h is None:
                            continue
                        if h.glob is not None and not (h.glob[0] == 'self'):
                            hit = True
                            ctx.bad('leaked-state', '%s:%s' % (short(e.label), h.glob), short(e.label),
                                    '%s returns the long-lived container %s itself; the caller can change later calls through it' % (short(e.label), h.glob))
                        for v in list(h.el or ()) + ([h.summ] if h.summ is not None else []) + [q for q, _ in (h.d or {}).values()] + ([h.rest] if h.rest is not None else []):
                            walk(v, path, depth - 1)
                    elif a.kind == 'tup':
                        for v in a.el:
                            walk(v, path, depth - 1)
                    elif a.kind == 'num':
                        for ro in a.roots:
                            if ro[0] in ('glob', 'selfattr'):
                                hit = True
                                ctx.bad('leaked-state', '%s:%s' % (short(e.label), ro), short(e.label),
                                        '%s returns the long-lived array %s itself; the caller can change later calls through it' % (short(e.label), ro[1:]))
            walk(r.value, '')
            for p, v in flatten(ctx.W.I, r.value, r.state):
                for dd in v.deps:
                    if dd[0] in HIDDEN_DEPS and not (cli and dd[0] == 'fs'):
                        hit = True
                        ctx.bad('hidden-input', '%s:%s:%s' % (short(e.label), p, dd[0]), short(e.label),
                                'result %s of %s depends on %s' % (p or '<value>', short(e.label), HIDDEN_DEPS[dd[0]]))
        if not hit:
            ctx.good({'entry': short(e.label)} if n % 23 == 0 else None)
    ctx.floor('public entries', n, 118)


# ---------------------------------------------------------------------- P03
@check('P03', ABS + 'the memory roots of every returned leaf are intersected with the memory roots of the arguments')
def p03(ctx):
    ctx.rule('no array reachable from a result may share memory with an array argument, except the reshaping helpers deinterleave/interleave')
    n = leaves = 0
    for e, r in run_all(ctx):
        n += 1
        if e.mod.name in CLI_MODS or r.value is None:
            ctx.good()
            continue
        va = vararg_names(e)
        hit = False
        for p, v in leaf_values(ctx, r):
            leaves += 1
            for a in v.alts:
                for ro in (roots_of(AV(a)) if a.kind == 'num' and a.arr is not False else ()):
                    if ro[0] != 'arg' or ro[1] in va or scalar_param(e, ro[1]):
                        continue
                    if e.name in ('deinterleave', 'interleave'):
                        continue
                    hit = True
                    ctx.bad('result-alias', '%s:%s:%s' % (short(e.label), p, ro[1]), short(e.label),
                            'result %s of %s may be the caller\'s own `%s` memory' % (p or '<value>', short(e.label), ro[1]))
        if not hit:
            ctx.good({'entry': short(e.label)} if n % 23 == 0 else None)
    ctx.count('result leaves', leaves)
    ctx.floor('public entries', n, 118)
    ctx.floor('result leaves', leaves, 500)


# ---------------------------------------------------------------------- P04
@check('P04', ABS + 'every random draw is attributed to its generator (argument, fresh, seeded, global stream) on every path, per argument scenario')
def p04(ctx):
    ctx.rule('a supplied rng is the only source of randomness; without one a fresh unseeded generator is used; nothing reseeds the global stream; analysis functions draw nothing; '
             'signal-generator noise draws only from numpy\'s global stream')
    n = 0
    draws = 0
    for e, r in run_all(ctx):
        n += 1
        siggen = e.mod.name.startswith('adctoolbox.siggen')
        takes = bool(has(e, 'rng'))
        hit = False
        for x in r.events:
            if x.kind == 'hidden' and ('random' in x.data['what'] or 'seed' in x.data['what']):
                hit = True
                ctx.bad('reseed', site_fn(x.site), x.site, '%s changes the global random state (%s)' % (short(e.label), x.data['what']), stack_trace(x))
            if x.kind in ('globalrng', 'mkrng', 'rngdraw'):
                draws += 1
                if x.kind == 'globalrng' and not siggen:
                    hit = True
                    ctx.bad('global-draw', '%s:%s' % (short(e.label), site_fn(x.site)), x.site,
                            '%s draws from the global random stream' % short(e.label), stack_trace(x))
                elif x.kind == 'mkrng' and (x.data['seeded'] or not takes):
                    hit = True
                    ctx.bad('private-generator', '%s:%s' % (short(e.label), site_fn(x.site)), x.site,
                            '%s creates %s generator' % (short(e.label), 'its own seeded' if x.data['seeded'] else 'a private'), stack_trace(x))
        if takes:
            rr = ctx.W.run(e, over={'rng': AV(Eo('Generator', ('arg', 'rng')), frozenset([('p', 'rng')]))})
            for x in rr.events:
                if x.kind in ('globalrng', 'mkrng'):
                    hit = True
                    ctx.bad('rng-ignored', '%s:%s' % (short(e.label), site_fn(x.site)), x.site,
                            '%s uses another random source although rng is supplied' % short(e.label), stack_trace(x))
            used = False
            for p, v in leaf_values(ctx, rr):
                for dd in v.deps:
                    if dd[0] == 'rng':
                        if dd[1] == ('arg', 'rng'):
                            used = True
                        else:
                            hit = True
                            ctx.bad('rng-ignored', '%s:%s' % (short(e.label), p), short(e.label), 'result %s of %s depends on random source %s although rng is supplied' % (p, short(e.label), dd[1]))
            if not used and rr.value is not None:
                hit = True
                ctx.bad('rng-unused', short(e.label), short(e.label), 'rng given to %s never reaches the result' % short(e.label))
            rn = ctx.W.run(e, over={'rng': NONE})
            for p, v in leaf_values(ctx, rn):
                for dd in v.deps:
                    if dd[0] == 'rng' and dd[1] != 'unseeded':
                        hit = True
                        ctx.bad('rng-default', '%s:%s' % (short(e.label), p), short(e.label), 'without rng, result %s of %s depends on random source %s instead of a fresh generator' % (p, short(e.label), dd[1]))
        if not hit:
            ctx.good({'entry': short(e.label), 'draw_sites': [site_fn(x.site) for x in r.events if x.kind in ('globalrng', 'mkrng')][:4]}
                     if any(x.kind in ('globalrng', 'mkrng') for x in r.events) else None)
    ctx.count('random sources attributed', draws)
    ctx.floor('public entries', n, 118)
    ctx.floor('random sources', draws, 15)


# ---------------------------------------------------------------------- P05
def plot_off(e):
    over = {}
    for p in has(e, *PLOT_FLAGS):
        over[p] = mknum(False) if p != 'is_plot' else NONE
    for p in has(e, 'ax', 'axes'):
        over[p] = NONE
    return over


@check('P05', ABS + 'scenario analysis: with the plotting flag false and no axes given, the set of matplotlib effects reachable on any path must be empty')
def p05(ctx):
    ctx.rule('for every public function with a plotting flag: flag off and no axes supplied => no matplotlib call, no backend switch, on any path; '
             'for every function without plotting parameter outside the plotting/dashboard modules: no matplotlib call at all')
    n = 0
    W = ctx.W
    for e in W.entries:
        fl = has(e, *PLOT_FLAGS)
        plotting = e.name.startswith('plot_') or e.mod.name.startswith('adctoolbox.toolset')
        wrapper = bool(vararg_names(e))
        if not fl and (plotting or wrapper):
            continue
        over = plot_off(e)
        a = e.fn.node.args
        if a.vararg is not None:
            over[a.vararg.arg] = mktup((AV(Num(anyk=True, roots=frozenset([('arg', a.vararg.arg)]), form=F.fatom(('arg', a.vararg.arg))),
                                           frozenset([('p', a.vararg.arg)])),))
        if a.kwarg is not None:
            over[a.kwarg.arg] = lambda I, st, e=e: I.new_dict({}, st, e.fn.node, 'kw')
        r = W.run(e, over=over)
        ctx.count('entries analysed')
        n += 1
        hit = False
        for x in r.events:
            if x.kind == 'mpl' or (x.kind == 'hidden' and x.data['what'].startswith('matplotlib')):
                hit = True
                what = x.data.get('fn') or x.data.get('what')
                ctx.bad('plot-when-off', '%s:%s:%s' % (short(e.label), site_fn(x.site), what), x.site,
                        '%s calls %s although plotting is off' % (short(e.label), what), stack_trace(x))
        if not hit:
            ctx.good({'entry': short(e.label), 'flag': fl} if fl and n % 5 == 0 else None)
    ctx.floor('entries with plotting decided', n, 95)


# ---------------------------------------------------------------------- P06
PRESENTATION = ('create_plot', 'ax', 'axes', 'title', 'col_title', 'show_title', 'show_label', 'verbose', 'disp', 'is_plot', 'plot_harmonics_up_to',
                'fixed_radial_range', 'logscale', 'smooth', 'n_cycles', 'alpha', 'color_dnl', 'color_inl', 'show')


@check('P06', ABS + 'information-flow (data and control dependence) from presentation parameters to every returned leaf, and value numbering of results with drawing on against off')
def p06(ctx):
    ctx.rule('no leaf of a returned result depends, by data or control flow, on a presentation parameter (%s)' % ', '.join(PRESENTATION))
    n = 0
    for e, r in run_all(ctx):
        ps = has(e, *PRESENTATION)
        if not ps or e.mod.name in CLI_MODS:
            continue
        hit = False
        for q in ps:
            n += 1
            leak = [p for p, v in leaf_values(ctx, r) if ('p', q) in v.deps and not v.only('eo')]
            if leak:
                hit = True
                ctx.bad('presentation-leak', '%s:%s' % (short(e.label), q), short(e.label),
                        'results %s of %s depend on presentation parameter `%s`' % (', '.join(x or '<value>' for x in leak[:5]), short(e.label), q))
            else:
                ctx.good({'entry': short(e.label), 'param': q} if n % 13 == 0 else None)
    ctx.floor('presentation parameters', n, 80)
    ctx.rule('every number returned with drawing or printing on has the value number it has with it off')
    run_contracts(ctx, 'drawing.py', 'drawing-changes-result')


# ---------------------------------------------------------------------- P07
@check('P07', ABS + 'scenario analysis with caller-supplied axes: pyplot calls that create, select, close or show figures must be unreachable')
def p07(ctx):
    ctx.rule('with an axes argument supplied (flag on or off) no path creates, closes, shows or saves a figure, switches backend, or draws on the implicit current axes')
    n = 0
    W = ctx.W
    for e in W.entries:
        axs = has(e, 'ax')
        if not axs:
            continue
        scen = [('ax', {'ax': AV(Eo('mpl', ('arg', 'ax')), frozenset([('p', 'ax')]))})]
        for nm, over in scen:
            if has(e, 'axes'):
                over['axes'] = NONE
            r = W.run(e, over=over)
            ctx.count('scenarios analysed')
            n += 1
            hit = False
            for x in r.events:
                if (x.kind == 'mpl' and x.data['mode'] not in ('method', 'object', 'query')) or (x.kind == 'hidden' and x.data['what'].startswith('matplotlib')):
                    hit = True
                    what = x.data.get('fn') or x.data.get('what')
                    ctx.bad('foreign-figure', '%s:%s:%s' % (short(e.label), site_fn(x.site), what), x.site,
                            '%s calls %s although the caller supplied axes' % (short(e.label), what), stack_trace(x))
            if not hit:
                ctx.good({'entry': short(e.label), 'methods_on_axes': sum(1 for x in r.events if x.kind == 'mpl')} if n % 6 == 0 else None)
    ctx.floor('entries with axes', n, 24)


# ---------------------------------------------------------------------- P08
QUIET = {'verbose': 0, 'show_label': False}


@check('P08', ABS + 'scenario analysis: with verbose/label options off the set of reachable writes to stdout/stderr must be empty')
def p08(ctx):
    ctx.rule('with verbose and label options off, no library function reaches print/sys.stdout/sys.stderr; with no such option it never prints')
    n = 0
    W = ctx.W
    for e in W.entries:
        if e.mod.name in CLI_MODS or e.mod.name.startswith('adctoolbox.toolset') or vararg_names(e):
            continue
        over = {}
        if has(e, 'verbose'):
            d = W.I.default_of(e.fn, 'verbose')
            over['verbose'] = mknum(False) if isinstance(d.const(), bool) else mknum(0)
        if has(e, 'show_label'):
            over['show_label'] = mknum(False)
        r = W.run(e, over=over)
        ctx.count('entries analysed')
        n += 1
        hit = False
        for x in r.events:
            if x.kind == 'print':
                hit = True
                ctx.bad('prints', '%s:%s' % (short(e.label), site_fn(x.site)), x.site, '%s prints although verbose output is off' % short(e.label), stack_trace(x))
        if not hit:
            ctx.good({'entry': short(e.label)} if over and n % 2 == 0 else None)
    ctx.floor('library entries', n, 95)
