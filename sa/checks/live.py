"""Options act: which argument influences which result."""
import json
import os
from . import check
from .common import *
from ..par import fork_each

TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'contracts', 'live.json')


def given(p):
    """any value but None"""
    def f(I, st):
        v = arg_av(I, st, p.arg, p.annotation, None, True)
        return AV(tuple(a for a in v.alts if a.kind != 'none'), frozenset([('p', p.arg)]))
    return f


def number(name):
    return AV(Num(arr=False, nd=0, law=L_0, sh=SH0, form=F.fatom(('arg', name)), prov='arg'), frozenset([('p', name)]))


def const_av(x, name):
    dep = frozenset([('p', name)])
    if x is None:
        return AV(NoneA(), dep)
    if isinstance(x, str):
        return mkstr(x, dep)
    return mknum(x, dep)


def varied(p, e, I):
    """arbitrary legal value of the argument"""
    d = I.default_of(e.fn, p.arg)
    return lambda I, st: arg_av(I, st, p.arg, p.annotation, d.const() if d is not None and d.const() is not NC else None, d is not None)


def setting(e, W, base, row):
    """the abstract arguments of one row of the table"""
    ps = {p.arg: p for p in e.params()}
    init = e.cls.attrs['__init__'].get('func') if e.cls is not None else None
    over = {}
    for name, p in ps.items():
        d = W.I.default_of(e.fn, name)
        if d is not None and d.const() is not NC:
            over[name] = d.adddeps(frozenset([('p', name)]))
    for name, x in dict(base, **row['with']).items():
        if name.startswith('self.'):
            over[name] = (const_av(x['value'], name) if 'value' in x else None)
        elif name not in ps:
            return None
        elif 'value' in x:
            over[name] = const_av(x['value'], name)
        else:
            over[name] = given(ps[name])
    v, _, kind = row['vary'].partition(':')
    if v.startswith('self.'):
        if init is None or v[5:] not in [p.arg for p in init.node.args.args]:
            return None
        del over[v]
    elif v not in ps:
        return None
    else:
        over[v] = varied(ps[v], e, W.I) if not kind else number(v) if kind == 'num' else given(ps[v])
    return over


# options that only show in the drawing
DRAWN = {
    'dout.analyze_bit_activity.analyze_bit_activity': 'bits title ax create_plot',
    'aout.analyze_decomposition_polar.analyze_decomposition_polar': 'signal harmonic title ax create_plot',
    'aout.analyze_decomposition_time.analyze_decomposition_time': 'signal n_cycles title ax create_plot harmonic',
    'dout.analyze_enob_sweep.analyze_enob_sweep': 'bits title ax create_plot osr win_type harmonic_order freq',
    'aout.analyze_error_autocorr.analyze_error_autocorr': 'signal max_lag normalize title ax create_plot frequency',
    'aout.analyze_error_by_phase.analyze_error_by_phase': 'signal n_bins include_base_noise title ax axes create_plot norm_freq',
    'aout.analyze_error_by_value.analyze_error_by_value': 'signal n_bins clip_percent value_range title ax axes create_plot norm_freq',
    'aout.analyze_error_envelope_spectrum.analyze_error_envelope_spectrum': 'signal fs title ax create_plot frequency',
    'aout.analyze_error_pdf.analyze_error_pdf': 'signal resolution full_scale title ax create_plot frequency',
    'aout.analyze_error_spectrum.analyze_error_spectrum': 'signal fs title ax create_plot frequency',
    'aout.analyze_inl_from_ramp.analyze_inl_from_ramp': 'codes num_bits endpoint exclude_endpoints show_title col_title axes ax create_plot',
    'aout.analyze_inl_from_sine.analyze_inl_from_sine': 'data num_bits clip_percent show_title col_title ax create_plot',
    'dout.analyze_overflow.analyze_overflow': 'raw_code weight ofb title ax create_plot',
    'spectrum.analyze_spectrum.analyze_spectrum': 'data fs osr win_type side_bin max_harmonic show_title show_label plot_harmonics_up_to ax create_plot coherent_averaging',
    'spectrum.analyze_spectrum.analyze_spectrum_virtuoso': 'data fs osr win_type side_bin max_harmonic show_title show_label plot_harmonics_up_to ax create_plot coherent_averaging',
    'spectrum.analyze_spectrum_polar.analyze_spectrum_polar': 'data harmonic osr cutoff_freq win_type fixed_radial_range ax create_plot',
    'dout.analyze_weight_radix.analyze_weight_radix': 'weights title ax create_plot',
    'oversampling.perfosr.perfosr': 'sig osr harmonic logscale smooth ax disp',
    'spectrum.sweep_performance_vs_osr.sweep_performance_vs_osr': 'data osr harmonic logscale smooth ax create_plot',
    'dout.plot_residual_scatter.plot_residual_scatter': 'signal bits weights pairs alpha create_plot',
    'aout.analyze_error_phase_plane.analyze_error_phase_plane': 'data fit_polynomial_order detect_hysteresis unit_mode title ax create_plot',
    'aout.analyze_phase_plane.analyze_phase_plane': 'data lag detect_outliers threshold title ax create_plot',
    'aout.plot_decomposition_polar.plot_decomposition_polar': 'results harmonic ax title',
    'aout.plot_decomposition_time.plot_decomposition_time': 'results signal n_cycles axes ax title',
    'aout.plot_dnl_inl.plot_dnl_inl': 'code dnl inl num_bits show_title col_title axes ax color_dnl color_inl inl_code',
    'aout.plot_rearranged_error_by_phase.plot_rearranged_error_by_phase': 'results axes ax title',
    'aout.plot_rearranged_error_by_value.plot_rearranged_error_by_value': 'results axes ax title',
    'spectrum.plot_spectrum.plot_spectrum': 'compute_results show_title show_label plot_harmonics_up_to ax',
    'spectrum.plot_spectrum_polar.plot_spectrum_polar': 'analysis_results show_metrics harmonic fixed_radial_range ax',
    'spectrum.plot_spectrum_virtuoso.plot_spectrum_virtuoso': 'compute_results show_title show_label plot_harmonics_up_to ax baseline_db',
    'toolset.generate_aout_dashboard.generate_aout_dashboard': 'signal fs freq output_path resolution',
    'toolset.generate_dout_dashboard.generate_dout_dashboard': 'bits freq weights output_path show',
    'toolset.generate_aout_dashboard_3x4.generate_aout_dashboard': 'signal fs freq output_path resolution show',
    'oversampling.ntf_analyzer.ntf_analyzer': 'ntf flow fhigh is_plot',
    'oversampling.ntfperf.ntfperf': 'ntf fl fh disp',
}


def draws(ctx, job):
    e, p = job
    name = short(e.label)
    on = {k: {'value': True} for k in ('disp', 'is_plot') if k in [q.arg for q in e.params()]}
    over = setting(e, ctx.W, on, {'with': {}, 'vary': p.arg})
    try:
        r = ctx.W.run(e, over=over)
    except (RecursionError, AnalysisError) as ex:
        ctx.unsure('%s: not analysed (%s)' % (name, ex))
        return
    dep = ('p', p.arg)
    I = ctx.W.I
    seen = 0
    for x in r.events:
        if x.kind in ('mpl', 'eowrite', 'extwrite'):
            seen += 1
            d = x.data
            if dep in x.pc or dep in d.get('deps', ()) or d.get('prov') == ('arg', p.arg):
                ctx.good()
                return
            if r.state is not None and any(dep in I.deep(a, r.state) for a in list(d.get('args', ())) + list(d.get('kw', {}).values())):
                ctx.good()
                return
    if not seen:
        ctx.unsure('%s: nothing drawn' % name)
        return
    where = '%s:%d (%s)' % (e.mod.rel, e.fn.node.lineno, e.name)
    ctx.bad('option-without-effect', '%s:%s:drawing' % (name, p.arg), where, '%s: nothing that is drawn depends on %s' % (name, p.arg))


def text(row):
    w = ', '.join('%s=%s' % (k, x['value'] if 'value' in x else '…') for k, x in sorted(row['with'].items()))
    return ' with ' + w if w else ''


@check('P21', 'abstract interpretation of every public call in a table of option settings: dependence (data and control flow) of every result on the argument that is varied')
def p21(ctx):
    ctx.rule('every argument of a plotting function influences something that is drawn')
    ctx.rule('every argument still influences each of the results it acts on, in every listed setting of the other options')
    with open(TABLE) as f:
        want = json.load(f)
    found = {short(e.label): e for e in ctx.W.entries}
    jobs = []
    for label, t in sorted(want.items()):
        if label not in found:
            ctx.unsure('%s not found' % label)
            continue
        jobs += [(found[label], g['base'], row) for g in t for row in g['rows']]
    fork_each(ctx, jobs, acts)
    ctx.count('settings', len(jobs))
    pl = []
    for label, names in sorted(DRAWN.items()):
        e = found.get(label)
        ps = {p.arg: p for p in e.params()} if e is not None else {}
        for x in names.split():
            if x in ps:
                pl.append((e, ps[x]))
            else:
                ctx.unsure('%s: argument %s not found' % (label, x))
    fork_each(ctx, pl, draws)
    ctx.count('drawing options', len(pl))
    ctx.floor('settings', len(jobs), 500)


def acts(ctx, job):
    e, base, row = job
    name = short(e.label)
    over = setting(e, ctx.W, base, row)
    if over is None:
        ctx.unsure('%s: argument %s or its context does not exist' % (name, row['vary']))
        return
    try:
        r = ctx.W.run(e, over=over)
    except (RecursionError, AnalysisError) as ex:
        ctx.unsure('%s: not analysed (%s)' % (name, ex))
        return
    if r.value is None:
        ctx.unsure('%s%s: no result' % (name, text(row)))
        return
    var = row['vary'].partition(':')[0]
    dep = ('p', var)
    I = ctx.W.I
    lv = [(path, v.deps | I.deep(v, r.state), v) for path, v in flatten(I, r.value, r.state)]
    where = '%s:%d (%s)' % (e.mod.rel, e.fn.node.lineno, e.name)
    for leaf in row['changes']:
        mine = [(d, v) for path, d, v in lv if path == leaf or path.startswith(leaf + '[') or path.startswith(leaf + '.') or leaf.startswith(path) and any(a.kind not in ('num', 'str', 'none') or a.kind == 'num' and a.anyk for a in v.alts)]
        if not mine:
            ctx.unsure('%s: result %s not found' % (name, leaf))
        elif any(dep in d for d, v in mine):
            ctx.good()
        else:
            ctx.bad('option-without-effect', '%s:%s:%s' % (name, var, leaf), where, '%s%s: result %s does not depend on %s' % (name, text(row), leaf or 'value', var))
