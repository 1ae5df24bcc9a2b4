"""Records of integers: results do not depend on the integer type that holds the values."""
from . import check
from .. import forms as F
from ..values import *
from ..entries import flatten
from ..par import fork_each
from ..project import AnalysisError
from .common import *
from .internal import options

# measured records, code sequences and bit matrices among the parameters of the public functions
RECORDS = ('data', 'signal', 'din', 'sig', 'sigin', 'sig_distorted', 'x', 'channels', 'vin', 'input_signal', 'aout_data', 'err_data', 'codes')
BITS = ('bits', 'raw_code')


def record(p, dt, nd):
    iv = (0.0, 1.0) if p in BITS else TOPIV
    return AV(Num(arr=True, nd=nd, dt=dt, iv=iv, law=L_0, sh=SH0, form=F.fatom(('arg', p)), roots=frozenset([('arg', p)]), prov='arg'),
              frozenset([('p', p)]))


def numbers(W, e):
    """the settings of a generator object and of its method given as floats"""
    I = W.I
    init = e.cls.attrs.get('__init__')
    fns = [('self.', init.get('func'))] if init is not None and init.get('func') is not None else []
    over = {}
    for pre, fn in fns + [('', e.fn)]:
        for q in fn.node.args.args[1:]:
            d = I.default_of(fn, q.arg)
            if q.arg in RECORDS + BITS or q.annotation is not None or d is not None and d.const() is not None:
                continue
            dt = 'i' if q.arg == 'N' else 'f'
            over[pre + q.arg] = AV(Num(dt=dt, arr=False, nd=0, law=L_0, sh=SH0, form=F.fatom(('arg', pre + q.arg)), prov='arg'),
                                   frozenset([('p', pre + q.arg)]))
    return over


@check('P22', 'number types of records through every public function: abstract interpretation with the record held in an integer type of unknown width')
def integer_records(ctx):
    ctx.rule('no result is computed by arithmetic that wraps around, truncates or loses precision in the integer type of a record')
    jobs = []
    for e in ctx.W.entries:
        ps = [p.arg for p in e.params() if p.arg in RECORDS + BITS]
        for p in ps:
            for dt in 'nB' if p in BITS else 'n':
                rec = {q: record(q, 'f', 2 if q in BITS else None) for q in ps}
                rec[p] = record(p, dt, 2 if p in BITS else None)
                runs = [('any options', {})] + options(e, ctx.W, False)
                if e.cls is not None:
                    runs.append(('plain numbers as settings', numbers(ctx.W, e)))
                jobs += [(e, p, dt, what, dict(over, **rec)) for what, over in runs]
    fork_each(ctx, jobs, typed)
    ctx.count('typed calls', len(jobs))
    ctx.floor('typed calls', len(jobs), 60)


def typed(ctx, job):
    e, p, dt, what, over = job
    name = short(e.label)
    try:
        r = ctx.W.run(e, over=over)
    except (RecursionError, AnalysisError) as ex:
        ctx.unsure('%s: not analysed (%s)' % (name, ex))
        return
    I = ctx.W.I
    hit = {}
    if r.value is not None:
        for path, v in flatten(I, r.value, r.state):
            for l in v.deps:
                if l[0] == 'NAR':
                    hit.setdefault(l[1:], 'result %s' % (path or 'value'))
    for x in r.events:
        if x.kind == 'narraise':
            for l in x.data['labels']:
                if l[1].rpartition('(')[2] == x.site.rpartition('(')[2]:
                    hit.setdefault(l[1:], 'the conversion to int at %s' % x.site)
        elif x.kind in ('warn', 'raise'):
            for l in x.pc:
                if l[0] == 'NAR':
                    hit.setdefault(l[1:], 'the %s at %s' % ('warning' if x.kind == 'warn' else 'refusal', x.site))
        elif x.kind in ('mpl', 'eowrite') and r.state is not None:
            d = set(x.pc) | set(x.data.get('deps', ()))
            for a in list(x.data.get('args', ())) + list(x.data.get('kw', {}).values()):
                d |= I.deep(a, r.state)
            for l in d:
                if l[0] == 'NAR':
                    hit.setdefault(l[1:], 'the drawing at %s' % x.site)
    if not hit:
        if r.value is None:
            ctx.unsure('%s, %s: no result' % (name, p))
        else:
            ctx.good()
        return
    for (site, msg), leaf in sorted(hit.items()):
        ctx.bad('integer-record', '%s:%s' % (site_fn(site), msg), site,
                '%s (%s as %s, %s): %s; %s is affected' % (name, p, 'truth values' if dt == 'B' else 'integers', what, msg, leaf))
