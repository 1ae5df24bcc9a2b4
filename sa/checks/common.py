"""Helpers shared by the checks."""
import ast
import re
from .. import forms as F
from ..values import *
from ..entries import flatten, Entry, arg_av
from ..project import AnalysisError

P_ = 'adctoolbox.'

# parameters that are scalars by documentation although the signature carries no type
SCALAR_NAMES = {'frequency', 'frequency_estimate', 'norm_freq', 'fin', 'fs', 'n_bits', 'num_bits', 'vref', 'z_load', 'n_fft', 'lag', 'side_bin',
                'max_lag', 'full_scale', 'resolution', 'bins', 'order', 'n_thd', 'harmonic', 'cap_pf', 'v_fs'}

CLI_MODS = ('adctoolbox.cli', 'adctoolbox.skill_cli')


def scalar_param(e, name):
    if name in SCALAR_NAMES:
        return True
    for p in e.params():
        if p.arg == name:
            ann = ast.unparse(p.annotation) if p.annotation is not None else ''
            if name == 'freq':
                # array-valued only where the signature says so
                return 'ndarray' not in ann
            # annotated, and with no array type: numbers, strings, or lists of them
            return bool(re.search(r'\b(int|float|bool|str)\b', ann)) and not re.search(r'rray|Any|object', ann)
    return False


def site_fn(site):
    """'file:line (func)' -> 'file:func' (line free key)"""
    m = re.match(r'(.*?):\d+ \((.*)\)$', site)
    if m:
        return '%s:%s' % (m.group(1), m.group(2))
    return re.sub(r':\d+', '', site)


def short(label):
    return label[len(P_):] if label.startswith(P_) else label


def in_function(site, name):
    return site.endswith('(%s)' % name) or site.endswith('.%s)' % name)


def stack_trace(ev):
    out = []
    for q in ev.stack:
        try:
            out.append('%s.%s' % (q[0], q[1]))
        except Exception:
            out.append(str(q)[:80])
    return ['analysed from %s' % short(ev.entry or '')] + out


def run_all(ctx, entries=None, over=None):
    """run every entry once with arbitrary arguments; yields (entry, result)"""
    W = ctx.W
    n = 0
    for e in entries if entries is not None else W.entries:
        try:
            r = W.run(e, over=over(e) if over is not None else None)
        except (RecursionError, AnalysisError) as ex:
            ctx.unsure('%s: not analysed (%s)' % (short(e.label), ex))
            continue
        n += 1
        yield e, r
    ctx.count('entries analysed', n)


def vararg_names(e):
    a = e.fn.node.args
    return {x.arg for x in (a.vararg, a.kwarg) if x is not None}


def leaf_values(ctx, r):
    if r.value is None:
        return []
    return flatten(ctx.W.I, r.value, r.state)


def params_of(e):
    return [p.arg for p in e.params()]


def has(e, *names):
    ps = params_of(e)
    return [n for n in names if n in ps]


def pdeps(deps):
    return {x[1] for x in deps if x[0] == 'p'}


PLOT_FLAGS = ('create_plot', 'disp', 'is_plot')
