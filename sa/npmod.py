"""Abstract models of the numpy / scipy functions used by the package."""
import math
from . import forms as F
from .values import *
from . import numops as N

M = {}


def model(*names):
    def deco(fn):
        for n in names:
            M[n] = fn
        return fn
    return deco


def sdeps(*avs):
    d = E
    for a in avs:
        if a is not None:
            d = d | a.deps
    return d


def alldeps(args, kw):
    d = E
    for a in args:
        d = d | a.deps
    for a in kw.values():
        d = d | a.deps
    return d


def out_arg(I, kw, res, n, st):
    """out= argument: the array is overwritten"""
    o = kw.get('out')
    if o is None or o.only('none'):
        return res
    r = roots_of(o)
    if r:
        on, rn = o.get('num'), res.get('num')
        if on is not None and rn is not None and on.dt in ('n', 'B') and rn.dt in ('f', 'c'):
            res = res.adddeps(N.nar(I.site(n), 'a fractional result is written into the integer record itself'))
        I.event('mutate', n, st, roots=r, weak=False, how='out= argument', target='out')
        I.propagate(st, r, res, None)
        return AV(tuple(a.rep(roots=a.roots | r) if a.kind == 'num' else a for a in res.alts), res.deps)
    return res


def fresh(I, n, a, tag=''):
    return E if a is False else frozenset([I.root(n, tag)])


def get(args, kw, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    return kw.get(name, default)


def keyf(I, av, st):
    f = I.key_form(av, st) if av is not None else None
    return f


def is_none(av):
    return av is None or av.only('none')


# ------------------------------------------------------------------ aliasing
def base_num(I, av, st, n):
    """Num view of a value; python sequences become a fresh array"""
    a = I.num(av, st)
    if av.only('num'):
        return a, True
    return a, False


ALIAS_NP = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'ravel',
            'reshape', 'transpose', 'expand_dims', 'swapaxes', 'moveaxis', 'broadcast_to', 'flip', 'fliplr', 'flipud',
            'real_if_close', 'view', 'asmatrix', 'rot90', 'require', 'diagonal', 'asarray_chkfinite'}


def dtype_of(I, av):
    if av is None:
        return None
    for a in av.alts:
        nm = None
        if a.kind == 'ext':
            nm = a.name.split('.')[-1]
        elif a.kind == 'str' and isinstance(a.const, str):
            nm = a.const
        elif a.kind == 'eo' and a.ty == 'dtype' and a.prov in ('n', 'B') and len(av.alts) == 1:
            return a.prov
        if nm:
            if nm.startswith('float') or nm in ('double', 'single', 'f8', 'f4'):
                return 'f'
            if nm.startswith('complex'):
                return 'c'
            if nm.startswith('int') or nm.startswith('uint') or nm in ('i8', 'i4'):
                return 'i'
            if nm.startswith('bool'):
                return 'b'
    return None


def int_cast(I, a, dt, n):
    """labels of a lossy cast"""
    labels = E
    if dt in ('i', 'b') and a.dt not in ('i', 'b', 'n', 'B'):
        if any(x[0] == 'd' and x[1] for x in a.law) and not any(x in (UNK, D0) for x in a.law):
            labels = labels | N.bad(I.site(n), 'integer rounding of a scaled quantity')
        return labels
    return labels


def np_alias(I, name, args, kw, n, st):
    x = args[0]
    a, same = base_num(I, x, st, n)
    deps = alldeps(args, kw)
    dt = dtype_of(I, get(args, kw, 1, 'dtype') if name.startswith('as') else None)
    roots = a.roots if same else frozenset([I.root(n)])
    if not same and len(x.alts) > 1:
        roots = roots_of(AV(tuple(q for q in x.alts if q.kind == 'num') or (NoneA(),))) | frozenset([I.root(n)])
    kwr = dict(arr=True, roots=roots if roots else frozenset([I.root(n)]), anyk=False)
    if a.arr is False and not a.roots:
        kwr['roots'] = frozenset([I.root(n)])
    if a.const is not NC:
        kwr['const'] = NC
    if dt and dt != a.dt:
        kwr['dt'] = dt
        deps = deps | int_cast(I, a, dt, n)
        if dt in ('i', 'b') and a.dt not in ('i', 'b', 'n', 'B'):
            kwr['form'] = F.fapp('toint', a.form)
    if name == 'atleast_1d':
        kwr['nd'] = max(a.nd, 1) if a.nd is not None else None
    elif name == 'atleast_2d':
        kwr['nd'] = max(a.nd, 2) if a.nd is not None else None
        if a.nd == 1:
            kwr['parts'] = None
            kwr['ln'] = None
            kwr['prov'] = ('row', a.ln if a.ln is not None else F.fapp('len', a.form) if a.form is not None else None)
    elif name == 'ravel':
        kwr['nd'] = 1
        if a.nd != 1:
            kwr['parts'] = None
            kwr['ln'] = None
            if a.nd is not None:
                kwr['form'] = F.fapp('ravel', a.form)
    elif name == 'reshape':
        if isinstance(a.prov, tuple):
            kwr['prov'] = None
        shp = args[1:] or ([kw['shape']] if 'shape' in kw else [kw['newshape']] if 'newshape' in kw else [])
        nd = None
        shf = None
        if len(shp) == 1:
            c = shp[0].const()
            t = shp[0].get('tup')
            if t is not None and len(shp[0].alts) == 1:
                nd = len(t.el)
                shf = [I.num(e, st).form for e in t.el]
            elif isinstance(c, int):
                nd = 1
                shf = [F.fconst(c)]
            elif shp[0].only('num') and shp[0].alts[0].arr is False:
                nd = 1
                shf = [shp[0].alts[0].form]
        elif shp:
            nd = len(shp)
            shf = [I.num(e, st).form for e in shp]
        kwr['nd'] = nd
        flat1 = nd == 1 and a.nd == 1 or (nd == 1 and shf and shf[0] is not None and F.is_const(shf[0]) and F.const_of(shf[0]) == -1 and a.nd == 1)
        col = False
        if shf is not None and all(f is not None for f in shf):
            cs = [F.const_of(f) if F.is_const(f) else None for f in shf]
            # adding unit axes keeps element values in broadcasting
            if a.nd == 1 and len([c for c in cs if c != 1]) == 1:
                col = True
            if not flat1 and not col:
                order = kw.get('order')
                oc = order.const() if order is not None else 'C'
                if isinstance(oc, str):
                    kwr['form'] = F.fapp('reshape' + (('1' if a.nd == 1 else '') if oc == 'C' else oc), a.form, *shf)
                else:
                    kwr['form'] = None
                kwr['ln'] = shf[0] if not (F.is_const(shf[0]) and F.const_of(shf[0]) == -1) else None
        else:
            kwr['form'] = None
        if not flat1:
            kwr['parts'] = None
            if col:
                kwr['ln'] = None
            kwr['plen'] = None
    elif name == 'transpose':
        if a.nd != 1:
            ax = args[1:] or ([kw['axes']] if 'axes' in kw else [])
            ax = [q for q in ax if not q.only('none')]
            if a.form is not None and is_app1(a.form, 'T') and not ax:
                kwr['form'] = app1(a.form)[0]
            else:
                kwr['form'] = F.fapp('T', a.form, *[keyf(I, q, st) for q in ax])
            kwr['ln'] = None
            if isinstance(a.prov, tuple) and a.prov[0] in ('row', 'col'):
                kwr['prov'] = ('col' if a.prov[0] == 'row' else 'row', a.prov[1])
            elif a.prov == 'rows':
                kwr['prov'] = 'cols'
            elif a.prov == 'cols':
                kwr['prov'] = 'rows'
            elif a.parts is not None:
                kwr['parts'] = None
                kwr['plen'] = None
    elif name in ('flip', 'fliplr', 'flipud', 'rot90', 'swapaxes', 'moveaxis', 'diagonal'):
        if isinstance(a.prov, tuple):
            kwr['prov'] = None
        kwr['form'] = F.fapp(name, a.form, *[f for f in (keyf(I, q, st) for q in args[1:]) if f is not None])
        if a.parts is not None and a.plen is not None and name == 'flip':
            kwr['parts'] = tuple(reversed(a.parts))
        else:
            kwr['parts'] = None
            kwr['plen'] = None
    elif name in ('squeeze', 'expand_dims', 'broadcast_to'):
        if isinstance(a.prov, tuple):
            kwr['prov'] = None
        if name == 'expand_dims':
            kwr['nd'] = a.nd + 1 if a.nd is not None else None
        else:
            kwr['nd'] = None
    elif name == 'view':
        kwr['form'] = None if args[1:] or kw else a.form
    return AV(a.rep(**kwr), deps)


def is_app1(f, name):
    from .interp import is_app
    return is_app(f, name)


def app1(f):
    from .interp import app_args
    return app_args(f)


def np_copy(I, name, args, kw, n, st):
    x = args[0]
    a, same = base_num(I, x, st, n)
    deps = alldeps(args, kw)
    dt = dtype_of(I, get(args, kw, 1, 'dtype')) if name in ('array', 'astype') else None
    roots = frozenset([I.root(n)])
    c = kw.get('copy')
    if c is not None and c.const() is not True and c.const() is not NC and not (c.const() is None and name == 'array' and False):
        roots = roots | a.roots
    kwr = dict(arr=True, roots=roots, anyk=False, const=NC)
    if name in ('array', 'copy') and a.arr is False and name == 'array':
        kwr['nd'] = 0
    nm = kw.get('ndmin')
    if nm is not None:
        k = nm.const()
        kwr['nd'] = max(a.nd, k) if a.nd is not None and isinstance(k, int) else None
    if dt and dt != a.dt:
        kwr['dt'] = dt
        deps = deps | int_cast(I, a, dt, n)
        if dt in ('i', 'b') and a.dt not in ('i', 'b', 'n', 'B'):
            kwr['form'] = F.fapp('toint', a.form)
            if a.sh is not None and not N.shz(a):
                kwr['sh'], lb = N.sh_round(I.site(n), 'integer rounding of an offset-dependent quantity', a)
                deps = deps | lb
    if name == 'flatten':
        kwr['nd'] = 1
        if a.nd != 1:
            kwr['parts'] = None
            kwr['ln'] = None
            kwr['form'] = F.fapp('ravel', a.form) if a.nd is not None else a.form
    return AV(a.rep(**kwr), deps)


# ---------------------------------------------------------------- elementwise
def elem_iv(f, iv):
    try:
        return f(iv)
    except (ValueError, OverflowError):
        return TOPIV


def iv_sqrt(iv):
    lo = math.sqrt(iv[0]) if iv[0] > 0 else 0.0
    return (lo, math.sqrt(iv[1]) if iv[1] >= 0 and not math.isinf(iv[1]) else INF)


def iv_log(iv, base):
    lo = math.log(iv[0], base) if iv[0] > 0 and not math.isinf(iv[0]) else (-INF if iv[0] <= 0 else INF)
    hi = math.log(iv[1], base) if iv[1] > 0 and not math.isinf(iv[1]) else (INF if iv[1] > 0 else -INF)
    return (lo, hi)


def iv_exp(iv):
    try:
        lo = math.exp(iv[0]) if iv[0] > -700 else 0.0
        hi = math.exp(iv[1]) if iv[1] < 700 else INF
    except OverflowError:
        return (0.0, INF)
    return (lo, hi)


def iv_map(f):
    def g(iv):
        return (f(iv[0]) if not math.isinf(iv[0]) else iv[0], f(iv[1]) if not math.isinf(iv[1]) else iv[1])
    return g


PYC = {'sqrt': math.sqrt, 'log10': math.log10, 'log2': math.log2, 'log': math.log, 'exp': math.exp, 'sin': math.sin,
       'cos': math.cos, 'tan': math.tan, 'floor': math.floor, 'ceil': math.ceil, 'abs': abs, 'absolute': abs,
       'radians': math.radians, 'degrees': math.degrees, 'fabs': math.fabs, 'arctan': math.atan, 'arcsin': math.asin,
       'arccos': math.acos, 'square': lambda x: x * x, 'rint': round, 'deg2rad': math.radians, 'rad2deg': math.degrees,
       'exp2': lambda x: 2.0 ** x, 'trunc': math.trunc, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
       'log1p': math.log1p, 'expm1': math.expm1, 'sinc': None, 'sign': lambda x: (x > 0) - (x < 0)}

UN = {'sqrt', 'log10', 'log2', 'log', 'exp', 'exp2', 'sin', 'cos', 'tan', 'floor', 'ceil', 'rint', 'trunc', 'fix', 'abs', 'absolute', 'fabs',
      'square', 'angle', 'conj', 'conjugate', 'real', 'imag', 'isfinite', 'isnan', 'isinf', 'sign', 'degrees',
      'radians', 'deg2rad', 'rad2deg', 'arctan', 'arcsin', 'arccos', 'negative', 'sinh', 'cosh', 'tanh', 'logical_not',
      'log1p', 'expm1', 'sinc', 'iscomplex', 'isreal', 'signbit', 'positive', 'reciprocal', 'cbrt', 'nan_to_num', 'around', 'round',
      'round_', 'invert', 'bitwise_not', 'spacing', 'erf', 'erfc', 'i0', 'unwrap'}


def np_unary(I, name, args, kw, n, st):
    x = args[0]
    a = I.num(x, st)
    deps = alldeps(args, {k: v for k, v in kw.items()})
    site = I.site(n)
    if a.const is not NC and not a.arr and isinstance(a.const, (int, float)) and PYC.get(name) and len(args) == 1:
        try:
            c = PYC[name](a.const)
            if isinstance(c, (int, float)):
                if isinstance(c, int) and name not in ('abs', 'absolute'):
                    c = float(c) if name in ('floor', 'ceil', 'rint', 'trunc', 'sign') else c
                return mknum(c, deps)
        except (ValueError, OverflowError, TypeError):
            pass
    labels = E
    arr = a.arr
    kwr = dict(const=NC, roots=fresh(I, n, arr), parts=None, plen=None, anyk=False, prov=None)
    law, form, iv, sh, dt = None, None, TOPIV, None, a.dt
    dc0 = False

    def nl(what):
        nonlocal labels
        s, lb = N.sh_nonlin(site, what, a)
        labels = labels | lb
        return s
    if name in ('abs', 'absolute', 'fabs'):
        law, form, iv = a.law, F.fabs(a.form), N.iv_abs(a.iv)
        if any(x[0] == 'l' for x in a.law):
            law = frozenset(UNK if q[0] == 'l' else q for q in a.law)
        if a.iv[0] >= 0:
            sh = a.sh
            form = a.form if a.dt != 'c' else form
        elif a.dc0:
            sh, dc0 = a.sh, True
        else:
            sh = nl('absolute value of an offset-dependent quantity')
        dt = 'f' if a.dt in ('f', 'c') else a.dt
        if a.dc0:
            dc0 = True
    elif name == 'sqrt':
        law, form, iv = N.law_scale(a, 0.5), F.fpow(a.form, 0.5), elem_iv(iv_sqrt, a.iv)
        sh = a.sh if a.dc0 else nl('square root of an offset-dependent quantity')
        dc0 = a.dc0
        dt = 'c' if a.dt == 'c' else 'f'
    elif name == 'square':
        law, form, iv = N.law_scale(a, 2), F.fpow(a.form, 2), N.iv_pow(a.iv, 2)
        sh = a.sh if a.dc0 else nl('square of an offset-dependent quantity')
        dc0 = a.dc0
    elif name == 'reciprocal':
        law, form, iv, sh = N.law_scale(a, -1), F.fpow(a.form, -1), N.iv_div((1.0, 1.0), a.iv), nl('reciprocal of an offset-dependent quantity')
    elif name in ('log10', 'log2', 'log'):
        k = {'log10': 1.0, 'log2': math.log2(10), 'log': math.log(10)}[name]
        law, clash = N.law_log(a, k)
        if clash:
            labels = labels | N.bad(site, 'logarithm of a logarithmic quantity')
        form = F.fscale(F.flog10(a.form), k)
        iv = elem_iv(lambda v: iv_log(v, {'log10': 10, 'log2': 2, 'log': math.e}[name]), a.iv)
        sh = a.sh if a.dc0 else nl('logarithm of an offset-dependent quantity')
        dc0 = a.dc0
        dt = 'f'
    elif name in ('exp', 'exp2'):
        law, clash = N.law_unit(a)
        if clash:
            labels = labels | N.bad(site, '%s of a scaled quantity' % name)
        form = F.fexp10(F.fscale(a.form, math.log10(math.e) if name == 'exp' else math.log10(2))) if a.dt != 'c' and not cplx(a.form) else F.fapp('exp', a.form)
        iv = iv_exp(a.iv) if name == 'exp' and a.dt != 'c' else ((0.0, INF) if a.dt != 'c' else TOPIV)
        sh = nl('%s of an offset-dependent quantity' % name)
        dt = 'c' if a.dt == 'c' else 'f'
    elif name in ('real', 'imag', 'conj', 'conjugate'):
        law = a.law
        if name == 'real' and a.dt in ('f', 'i', 'b'):
            form, iv, sh, dc0 = a.form, a.iv, a.sh, a.dc0
            kwr['roots'] = a.roots
        else:
            form = F.fapp('conj' if name.startswith('conj') else name, a.form)
            sh = a.sh if (a.sh is None or N.shz(a) or a.dc0) else (F.fapp(name, a.sh) if a.dt == 'c' or a.dt is None else a.sh)
            dc0 = a.dc0
            if name.startswith('conj') and a.dt in ('f', 'i', 'b'):
                form, sh = a.form, a.sh
            if name in ('real', 'imag'):
                kwr['roots'] = a.roots
        dt = 'f' if name in ('real', 'imag') and a.dt == 'c' else a.dt
    elif name in ('negative', 'positive'):
        if name == 'positive':
            law, form, iv, sh = a.law, a.form, a.iv, a.sh
        else:
            law, form, iv, sh = a.law, F.fscale(a.form, -1.0), N.iv_neg(a.iv), None if a.sh is None else F.fscale(N.shc(a), -1)
    elif name in ('floor', 'ceil', 'rint', 'trunc', 'fix', 'around', 'round', 'round_'):
        law, clash = N.law_unit(a)
        law = frozenset(law)
        if clash:
            labels = labels | N.bad(site, 'rounding of a scaled quantity')
        fn = {'floor': math.floor, 'ceil': math.ceil}.get(name, lambda v: float(round(v)))
        iv = elem_iv(iv_map(lambda v: float(fn(v))), a.iv)
        extra = [keyf(I, q, st) for q in args[1:]] + [keyf(I, v, st) for k, v in sorted(kw.items()) if k == 'decimals']
        if a.dt in ('i', 'b') and not extra:
            form = a.form
        else:
            nm2 = {'around': 'round', 'round_': 'round', 'rint': 'round'}.get(name, name)
            form = F.fapp(nm2, a.form, *extra)
        if args[1:] or 'decimals' in kw:
            iv = TOPIV
        sh, lb = N.sh_round(site, 'rounding of an offset-dependent quantity', a) if not extra else (nl('rounding of an offset-dependent quantity'), E)
        labels = labels | lb
    elif name in ('isfinite', 'isnan', 'isinf', 'signbit', 'iscomplex', 'isreal', 'logical_not'):
        law, form, iv, dt = L_0, F.fapp(name, a.form), (0.0, 1.0), 'b'
        sh = SH0 if name in ('isfinite', 'isnan', 'isinf', 'iscomplex', 'isreal') else nl('sign test of an offset-dependent quantity')
        if name in ('isnan', 'isinf') and a.const is not NC and isinstance(a.const, (int, float)) and not a.arr:
            return mknum(bool(math.isnan(a.const) if name == 'isnan' else math.isinf(a.const)), deps)
        if name == 'isfinite' and a.arr is False and a.const is not NC and isinstance(a.const, (int, float)):
            return mknum(bool(math.isfinite(a.const)), deps)
        if name == 'isfinite' and a.arr is False and a.prov == 'finite':
            return mknum(True, deps)
        if I.generic and name in ('isnan', 'isinf', 'isfinite') and a.arr is False and F.is_param(a.form):
            return mknum(name == 'isfinite', deps)
    elif name == 'sign':
        law, form, iv, sh = L_0, F.fapp('sign', a.form), (-1.0, 1.0), nl('sign of an offset-dependent quantity')
    elif name == 'angle':
        law, form, iv, dt = L_0, F.fapp('angle', a.form), (-math.pi, math.pi), 'f'
        if 'deg' in kw or len(args) > 1:
            iv = (-180.0, 180.0)
            form = F.fapp('angle', a.form, *[keyf(I, q, st) for q in args[1:] + ([kw['deg']] if 'deg' in kw else [])])
        sh = a.sh if a.dc0 else nl('angle of an offset-dependent quantity')
        dc0 = a.dc0
    elif name in ('degrees', 'rad2deg', 'radians', 'deg2rad'):
        k = 180 / math.pi if name in ('degrees', 'rad2deg') else math.pi / 180
        law, form, iv = a.law, F.fscale(a.form, k), N.iv_mul(a.iv, (k, k))
        sh = None if a.sh is None else F.fscale(N.shc(a), k)
    elif name == 'nan_to_num':
        c = kw.get('copy') or (args[1] if len(args) > 1 else None)
        law, form, iv, sh, dc0 = a.law, a.form if a.form is None else F.fapp('nan_to_num', a.form), a.iv, a.sh, a.dc0
        if c is not None and c.const() is not True:
            I.event('mutate', n, st, roots=a.roots, weak=False, how='nan_to_num(copy=False)', target='')
            kwr['roots'] = a.roots
    elif name == 'unwrap':
        law, form, sh = N.law_unit(a)[0], F.fapp('unwrap', a.form), a.sh
        iv = TOPIV
    else:
        law, clash = N.law_unit(a)
        if clash:
            labels = labels | N.bad(site, '%s of a scaled quantity' % name)
        form = F.fapp(name, a.form)
        iv = {'sin': (-1.0, 1.0), 'cos': (-1.0, 1.0), 'tanh': (-1.0, 1.0), 'arctan': (-math.pi / 2, math.pi / 2),
              'arcsin': (-math.pi / 2, math.pi / 2), 'arccos': (0.0, math.pi), 'cosh': (1.0, INF), 'sinc': (-1.0, 1.0),
              'i0': (1.0, INF)}.get(name, TOPIV)
        sh = nl('%s of an offset-dependent quantity' % name)
        dt = 'c' if a.dt == 'c' else 'f'
    if a.dt in ('n', 'B'):
        if dt == 'f' or name in ('degrees', 'rad2deg', 'radians', 'deg2rad', 'angle', 'unwrap'):
            dt = 'f'
            labels = labels | N.nar(site, '%s of an integer record is evaluated in reduced precision' % name)
        elif name == 'fabs':
            dt = 'f'
        elif a.dt == 'n' and (name in ('abs', 'absolute') and a.iv[0] < 0 or name in ('negative', 'square') and not N.small(iv)):
            labels = labels | N.nar(site, '%s is carried out in the integer type of the record and wraps around' % name)
        elif name == 'reciprocal':
            labels = labels | N.nar(site, 'reciprocal is carried out in the integer type of the record')
        elif a.dt == 'B' and name == 'negative':
            labels = labels | N.nar(site, 'truth values are negated as truth values')
        elif name not in ('abs', 'absolute', 'negative', 'positive', 'square', 'real', 'conj', 'conjugate', 'sign', 'nan_to_num') and dt == a.dt:
            dt = a.dt if name in ('around', 'round', 'round_') and a.dt == 'n' else None
    r = a.rep(law=law, form=form, iv=iv, sh=sh, dt=dt, dc0=dc0, **kwr)
    if len(args) == 2 and 'out' not in kw and name not in ('around', 'round', 'round_', 'nan_to_num', 'angle', 'unwrap', 'fix'):
        kw = dict(kw, out=args[1])
    return out_arg(I, kw, AV(r, deps | labels), n, st)


def cplx(f):
    if f is None:
        return False
    for at in F.atoms_in(f, deep=False):
        if F.atom_key(at)[0] == 'cconst':
            return True
    return False


BIN = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow',
       'float_power': 'Pow', 'mod': 'Mod', 'remainder': 'Mod', 'floor_divide': 'FloorDiv', 'logical_and': 'BitAnd', 'logical_or': 'BitOr',
       'logical_xor': 'BitXor', 'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr', 'bitwise_xor': 'BitXor', 'left_shift': 'LShift',
       'right_shift': 'RShift'}
CMPS = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq'}


def np_binary(I, name, args, kw, n, st):
    if name in CMPS:
        return I.compare1(CMPS[name], args[0], args[1], n, st)
    r = I.binop(BIN[name], args[0], args[1], n, st)
    if name.startswith('logical'):
        r = AV(tuple(a.rep(dt='b', iv=(0.0, 1.0)) if a.kind == 'num' else a for a in r.alts), r.deps)
    r = r.adddeps(alldeps([], {k: v for k, v in kw.items() if k in ('where',)}))
    if len(args) == 3 and 'out' not in kw:
        kw = dict(kw, out=args[2])
    return out_arg(I, kw, r, n, st)


def select2(I, x, y, name, n, st, iv):
    a, b = I.num(x, st), I.num(y, st)
    site = I.site(n)
    labels = E
    law, clash = N.law_like(a, b)
    if clash:
        labels = labels | N.bad(site, '%s of quantities with different scaling' % name)
    sh = None
    if a.sh is not None and b.sh is not None:
        p, q = N.shc(a), N.shc(b)
        if a.sh is N.SHANY:
            p = q
        if b.sh is N.SHANY:
            q = p
        if p is q:
            sh = p
        else:
            labels = labels | N.shv(site, '%s between an offset-dependent quantity and a fixed value' % name)
    fs = [a.form, b.form]
    if name in ('maximum', 'minimum') and all(f is not None for f in fs):
        fs.sort(key=lambda f: f.id)
    arr, nd, ln = N._arr(a, b), N._nd(a, b), N._ln(a, b)
    return Num(law=law, sh=sh, iv=iv, form=F.fapp(name, *fs), arr=arr, nd=nd, ln=ln, dt=N._dt(a, b, 'Add'),
               roots=fresh(I, n, arr), dc0=False), labels


def np_minmax2(I, name, args, kw, n, st):
    a, b = I.num(args[0], st), I.num(args[1], st)
    nm = {'fmax': 'maximum', 'fmin': 'minimum'}.get(name, name)
    if a.const is not NC and b.const is not NC and not a.arr and not b.arr and isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)):
        return mknum(max(a.const, b.const) if nm == 'maximum' else min(a.const, b.const), alldeps(args, kw))
    if nm == 'maximum':
        iv = (max(a.iv[0], b.iv[0]), max(a.iv[1], b.iv[1]))
    else:
        iv = (min(a.iv[0], b.iv[0]), min(a.iv[1], b.iv[1]))
    r, lb = select2(I, args[0], args[1], nm, n, st, iv)
    return out_arg(I, kw, AV(r, alldeps(args, kw) | lb), n, st)


def np_clip(I, name, args, kw, n, st):
    x = args[0]
    lo = get(args, kw, 1, 'a_min', kw.get('min'))
    hi = get(args, kw, 2, 'a_max', kw.get('max'))
    r = x
    a = I.num(x, st)
    iv = a.iv
    res, labels = a, E
    forms = [a.form]
    for b, nm in ((lo, 'maximum'), (hi, 'minimum')):
        if is_none(b):
            forms.append(F.fatom(('none',)))
            continue
        q = I.num(b, st)
        forms.append(q.form)
        if nm == 'maximum':
            iv = (max(iv[0], q.iv[0]), max(iv[1], q.iv[0]))
        else:
            iv = (min(iv[0], q.iv[1]), min(iv[1], q.iv[1]))
        rr, lb = select2(I, AV(res, E), b, nm, n, st, iv)
        labels = labels | lb
        res = rr
    # lower bound first, upper bound applied after
    res = res.rep(form=F.fapp('clip', *forms), iv=iv, nd=a.nd if a.nd is not None else res.nd, arr=a.arr if a.arr is not None else res.arr,
                  roots=fresh(I, n, a.arr))
    return out_arg(I, kw, AV(res, alldeps(args, kw) | labels), n, st)


def np_where(I, name, args, kw, n, st):
    if len(args) == 1:
        a = I.num(args[0], st)
        r = Num(iv=(0.0, INF), arr=True, dt='i', nd=1, law=L_0, sh=a.sh if a.sh is None else SH0, form=F.fapp('nonzero', a.form), roots=frozenset([I.root(n)]))
        return mktup([AV(r, args[0].deps)], args[0].deps)
    c, x, y = args[:3]
    a, b, cn = I.num(x, st), I.num(y, st), I.num(c, st)
    labels = E
    law, clash = N.law_like(a, b)
    if clash:
        law = N.norm_law(a.law | b.law)
    sh = None
    if a.sh is not None and b.sh is not None:
        sh = N.shc(a) if N.shc(a) is N.shc(b) else F.fapp('where', cn.form, N.shc(a), N.shc(b))
        if a.sh is N.SHANY:
            sh = b.sh
        elif b.sh is N.SHANY:
            sh = a.sh
    arr = N._arr(cn, b) if a.arr is False else N._arr(cn, a)
    nds = [q.nd for q in (cn, a, b)]
    nd = max(nds) if all(q is not None for q in nds) else None
    ln = cn.ln or a.ln or b.ln
    form = F.fapp('where', cn.form, a.form, b.form)
    if cn.iv[0] == cn.iv[1] and cn.iv[0] in (0, 1):
        # the condition is the same for every element
        form = a.form if cn.iv[0] else b.form
    elif form is not None and all(q.arr is False or q.nd == 0 for q in (cn, a, b)) and cn.form is not None:
        tok, pol = F.cond_token(cn.form)
        form = F.fphi(tok, (a.form, b.form) if pol else (b.form, a.form))
    return AV(Num(iv=jiv(a.iv, b.iv), arr=arr if arr is not None else (True if cn.arr else None), dt=a.dt if a.dt == b.dt else N._dt(a, b, 'Add'), nd=nd, law=law, sh=sh, ln=ln,
                  form=form, roots=frozenset([I.root(n)])), alldeps(args, kw) | labels)


# ----------------------------------------------------------------- reductions
RED = {'sum', 'mean', 'max', 'min', 'amax', 'amin', 'median', 'std', 'var', 'ptp', 'percentile', 'quantile', 'nansum', 'nanmean',
       'nanmax', 'nanmin', 'nanmedian', 'nanstd', 'nanvar', 'nanpercentile', 'prod', 'average', 'argmax', 'argmin', 'nanargmax', 'nanargmin',
       'any', 'all', 'count_nonzero', 'trapz', 'trapezoid'}
CANON = {'amax': 'max', 'amin': 'min'}


def length_form(I, a):
    if a.ln is not None:
        return a.ln
    if a.form is not None:
        return F.fapp('len', a.form)
    return None


def axis_form(a, axis):
    """extent of an array along one axis"""
    k = axis.const() if axis is not None else None
    if a.form is None or a.nd is None or not isinstance(k, int):
        return None
    k = k + a.nd if k < 0 else k
    if k == 0:
        return a.ln if a.ln is not None else F.fapp('len', a.form)
    return F.fapp('idx', F.fapp('shape', a.form), F.fconst(k))


def pull_const(form):
    """split a single-term form into numeric coefficient and unit form"""
    if form is None:
        return 1.0, None
    if len(form.t) == 1 and form.t[0][0] != ():
        c = form.t[0][1]
        if isinstance(c, (int, float)) and c != 0:
            return c, F._mk({form.t[0][0]: 1.0})
    return 1.0, form


def np_reduce(I, name, args, kw, n, st):
    x = args[0]
    a = I.num(x, st)
    name = CANON.get(name, name)
    base = name[3:] if name.startswith('nan') and name != 'nan' else name
    site = I.site(n)
    labels = E
    deps = alldeps(args, kw)
    pos_axis = 2 if base in ('percentile', 'quantile', 'trapz', 'trapezoid') else 1
    axis = get(args, kw, pos_axis, 'axis')
    keep = kw.get('keepdims')
    keepc = keep.const() if keep is not None else False
    if is_none(axis):
        nd = 0
        if keepc:
            nd = a.nd
        axf = []
    else:
        nd = (a.nd - 1 if a.nd is not None else None)
        if a.nd == 1:
            axf = []
        else:
            axf = [keyf(I, axis, st) or F.fatom(('op', 'axis'))]
        if keepc is True:
            nd = a.nd
        elif keepc is NC:
            nd = None
    arr = False if nd == 0 else (True if nd else None)
    qf = []
    if base in ('percentile', 'quantile'):
        qf = [I.num(args[1], st).form] if len(args) > 1 else [I.num(kw['q'], st).form]
        q = I.num(args[1] if len(args) > 1 else kw['q'], st)
        if q.arr is not False:
            arr = True if q.arr else None
            nd = None if nd is None or q.nd is None else nd + q.nd
    if base == 'average' and 'weights' in kw:
        w = I.num(kw['weights'], st)
        return AV(Num(law=a.law, iv=a.iv, arr=arr, nd=nd, sh=a.sh if N.uniform(a.sh) else None, dt='f',
                      form=F.fapp('wavg', a.form, w.form), roots=fresh(I, n, arr)), deps)
    law = a.law
    dt = a.dt
    iv = a.iv
    sh = None
    uni = a.sh is not None and (N.uniform(a.sh)) and not a.dc0
    zero = N.shz(a)
    dcn = a.dc0 and a.sh is not None and not zero

    def same_sh():
        if a.sh is None or dcn:
            return None
        return N.shc(a) if uni else F.fapp('r' + base, a.sh)
    form = None
    unitform = a.form
    c = 1.0
    if base in ('sum', 'mean', 'max', 'min', 'median', 'std', 'ptp', 'average', 'percentile') and not F.is_const(a.form if a.form is not None else F.fatom(('x',))):
        c, unitform = pull_const(a.form)
        if base in ('max', 'min', 'percentile', 'median') and c < 0:
            c, unitform = 1.0, a.form
    if base == 'sum':
        L = length_form(I, a) if a.nd == 1 else axis_form(a, axis)
        if a.form is not None and F.is_const(a.form) and a.nd == 1 and L is not None:
            form = F.fmul(a.form, L)
        else:
            form = F.fscale(F.fapp('rsum', unitform, *axf), c)
        iv = (0.0, INF) if a.iv[0] >= 0 else TOPIV
        if a.sh is None or dcn:
            sh = None
        elif zero:
            sh = a.sh
        elif uni and L is not None:
            sh = F.fmul(a.sh, L)
        else:
            sh = F.fapp('rsum', a.sh)
        if a.dt == 'b':
            dt = 'i'
        if any(q[0] == 'l' and q[1] for q in a.law):
            law = frozenset(UNK if q[0] == 'l' else q for q in a.law)
    elif base in ('mean', 'average'):
        L = length_form(I, a)
        if a.form is not None and F.is_const(a.form):
            form = a.form
        elif not axf and a.nd in (1, None) and L is not None:
            form = F.fdiv(F.fscale(F.fapp('rsum', unitform), c), L)
        else:
            form = F.fscale(F.fapp('rmean', unitform, *axf), c)
        sh = same_sh()
        dt = 'f' if a.dt in ('b', 'i', 'f') else a.dt
    elif base in ('max', 'min', 'median', 'percentile', 'quantile'):
        if a.form is not None and F.is_const(a.form):
            form = a.form
        else:
            form = F.fscale(F.fapp('r' + base, unitform, *(qf + axf)), c)
        sh = same_sh() if (uni or zero or a.sh is None) else None
        if a.sh is not None and not uni and not zero and not dcn:
            labels = labels | N.shv(site, '%s of an array with uneven offset dependence' % base)
        if dcn:
            labels = labels | N.shv(site, '%s over a spectrum that still contains the DC bin' % base)
        if a.plen is not None and a.parts and len(a.parts) <= 16 and base in ('max', 'min'):
            pass
    elif base in ('std', 'ptp', 'var'):
        ex = []
        if 'ddof' in kw:
            ex = [keyf(I, kw['ddof'], st)]
        form = F.fscale(F.fapp('r' + base, unitform, *(axf + ex)), abs(c) if base != 'var' else 1.0)
        if base == 'var':
            form = F.fapp('rvar', a.form, *(axf + ex))
            law = N.law_scale(a, 2)
        L = length_form(I, a)
        if base == 'ptp' and a.form is not None:
            form = F.fscale(F.fsub(F.fapp('rmax', unitform, *axf), F.fapp('rmin', unitform, *axf)), abs(c)) if c > 0 else None
        elif base != 'ptp' and not axf and a.nd in (1, None) and L is not None and a.form is not None and (not ex or ex[0] is not None):
            dev = F.fsub(a.form, F.fdiv(F.fscale(F.fapp('rsum', pull_const(a.form)[1]), pull_const(a.form)[0]), L))
            cc, uf = pull_const(F.fpow(dev, 2))
            form = F.fdiv(F.fscale(F.fapp('rsum', uf), cc), F.fsub(L, ex[0]) if ex else L)
            if base == 'std':
                form = F.fpow(form, 0.5)
        if any(q[0] == 'l' for q in law):
            law = frozenset(L0a if q[0] == 'l' else q for q in law)
        iv = (0.0, INF)
        sh = SH0 if uni or zero else None
        if a.sh is not None and not uni and not zero:
            labels = labels | N.shv(site, '%s of an array with uneven offset dependence' % base)
        dt = 'f'
    elif base in ('argmax', 'argmin'):
        law, dt = L_0, 'i'
        iv = (0.0, INF)
        # arg extremum is invariant under positive scaling
        _, uf = pull_const(a.form)
        form = F.fapp('r' + base, uf if (a.form is not None and pull_const(a.form)[0] > 0) else a.form, *axf)
        if a.sh is None:
            sh = None
        elif uni or zero:
            sh = SH0
        elif dcn:
            sh = None
            labels = labels | N.shv(site, '%s over a spectrum that still contains the DC bin' % base)
        else:
            sh = None
            labels = labels | N.shv(site, '%s of an array with uneven offset dependence' % base)
    elif base in ('any', 'all', 'count_nonzero'):
        law, dt = L_0, 'b' if base != 'count_nonzero' else 'i'
        iv = (0.0, 1.0) if base != 'count_nonzero' else (0.0, INF)
        form = F.fapp('r' + base, a.form, *axf)
        sh = a.sh if a.sh is None else (SH0 if zero else None)
        if a.iv == (1.0, 1.0) and base == 'all' and a.dt == 'b' and nd == 0:
            return mknum(True, deps)
        if a.iv == (0.0, 0.0) and base == 'any' and a.dt == 'b' and nd == 0:
            return mknum(False, deps)
        if a.iv == (1.0, 1.0) and base == 'any' and a.dt == 'b' and nd == 0:
            return mknum(True, deps)
        if a.iv == (0.0, 0.0) and base == 'all' and a.dt == 'b' and nd == 0:
            return mknum(False, deps)
        if a.arr is False and a.dt == 'b' and a.const is not NC:
            return mknum(bool(a.const), deps)
    else:
        law = L_U if base == 'prod' and any(q[0] == 'd' and q[1] for q in a.law) else a.law
        form = F.fapp('r' + base, a.form, *(qf + axf))
        iv = TOPIV
    prov = None
    if a.dt in ('n', 'B'):
        if base in ('sum', 'prod'):
            dt = 'i'
        elif base in ('mean', 'average', 'median', 'percentile', 'quantile', 'std', 'var', 'trapz', 'trapezoid'):
            dt = 'f'
        elif base == 'ptp':
            dt = a.dt
            if a.dt == 'B' or not N.small(a.iv):
                wrap = N.nar(site, 'ptp is carried out in the integer type of the record and wraps around')
                labels = labels | wrap
                prov = ('zw', wrap)
        d = dtype_of(I, kw.get('dtype'))
        if d:
            dt = d
    ws = kw.get('where')
    if ws is not None:
        form = F.fapp('rwhere', form, keyf(I, ws, st)) if form is not None and keyf(I, ws, st) is not None else None
    init = kw.get('initial')
    if init is not None:
        form = None
    res = AV(Num(law=law, iv=iv, form=form, sh=sh, arr=arr, nd=nd, dt=dt, roots=fresh(I, n, arr), prov=prov), deps | labels)
    return out_arg(I, kw, res, n, st)


L0a = D0


# --------------------------------------------------------------- constructors
def shape_nd(I, shp, st):
    if shp is None:
        return None, None
    if shp.only('num') and shp.alts[0].arr is False:
        return 1, shp.alts[0].form
    t = shp.get('tup')
    if t is not None and len(shp.alts) == 1:
        return len(t.el), I.num(t.el[0], st).form if t.el else None
    els = I.exact_elems(shp, st)
    if els is not None:
        return len(els), I.num(els[0], st).form if els else None
    n = shp.get('num')
    if n is not None and n.form is not None and is_app1(n.form, 'shape'):
        return None, F.fapp('len', app1(n.form)[0])
    return None, None


def np_filled(I, name, args, kw, n, st):
    like = name.endswith('_like')
    deps = alldeps(args, kw)
    if like:
        a = I.num(args[0], st)
        nd, ln = a.nd, a.ln or (F.fapp('len', a.form) if a.form is not None else None)
        deps = sdeps(*(args[1:2] if name == 'full_like' else [])) | shape_only(args[0].deps)
        own = a.dt if a.dt in ('n', 'B') and get(args, kw, 1 if not name.startswith('full') else 2, 'dtype') is None else None
        if get(args, kw, None, 'shape') is not None:
            nd, ln = shape_nd(I, kw['shape'], st)
    else:
        shp = get(args, kw, 0, 'shape')
        nd, ln = shape_nd(I, shp, st)
    dt = dtype_of(I, get(args, kw, 1 if not name.startswith('full') else 2, 'dtype'))
    if like and own:
        dt = own
        fv = I.num(args[1] if len(args) > 1 else kw.get('fill_value', mknum(0)), st) if name == 'full_like' else None
        if fv is not None and fv.dt in ('f', 'c') and not I.integral(fv):
            deps = deps | N.nar(I.site(n), 'a fractional value is stored in an array of the integer type of the record')
    base = name.replace('_like', '')
    kwr = dict(arr=True, nd=nd, ln=ln, roots=frozenset([I.root(n)]))
    if base in ('zeros', 'empty'):
        r = Num(iv=(0.0, 0.0) if base == 'zeros' else TOPIV, law=L_ANY, sh=N.SHANY,
                form=F.fconst(0) if base == 'zeros' else F.fatom(('op', I.vsid(n))), dt=dt or 'f', **kwr)
        if base == 'empty':
            I.event('empty', n, st)
    elif base in ('ones',):
        r = Num(iv=(1.0, 1.0), law=L_K, sh=SH0, form=F.fconst(1), dt=dt or 'f', **kwr)
    elif base == 'full':
        v = I.num(args[1] if len(args) > 1 else kw.get('fill_value', mknum(0)), st)
        r = Num(iv=v.iv, law=v.law, sh=v.sh, form=v.form, dt=dt or v.dt, **kwr)
    else:
        r = Num(iv=(0.0, 1.0), law=L_K, sh=SH0, form=F.fapp('eye', ln), dt='f', arr=True, nd=2, ln=ln, roots=kwr['roots'])
    return AV(r, deps)


def shape_only(deps):
    return deps


def np_arange(I, name, args, kw, n, st):
    deps = alldeps(args, kw)
    a = [x for x in args]
    if len(a) == 1:
        start, stop, step = mknum(0), a[0], mknum(1)
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else mknum(1)
    s, e, p = I.num(start, st), I.num(stop, st), I.num(step, st)
    cs = [q.const for q in (s, e, p)]
    if all(isinstance(c, int) and not isinstance(c, bool) for c in cs) and cs[2] != 0:
        els = list(range(*cs))
        if len(els) <= 16:
            r = I.seq_num([mknum(c) for c in els], True)
            lo, hi = (min(els), max(els)) if els else (0, 0)
            return AV(r.rep(roots=frozenset([I.root(n)]), iv=(float(lo), float(hi)), nd=1, dt='i', sh=SH0, law=L_0), deps)
    lo = s.iv[0]
    hi = e.iv[1] - 1 if p.const == 1 and s.dt in ('i', None) and e.dt in ('i', 'b') else e.iv[1]
    if p.iv[0] < 0:
        lo, hi = TOPIV
    hi = max(lo, hi)
    ln = None
    if p.const == 1:
        ln = F.fsub(e.form, s.form)
    law = N.norm_law(s.law | e.law | p.law) if len(a) > 1 else N.nonconst_law(e.law)
    dts = [q.dt for q in (s, e, p)]
    dt = 'i' if all(d in ('i', 'b') for d in dts) else ('f' if 'f' in dts else None)
    if len(a) > 1 and N.shz(p) and s.sh is not None and s.sh is e.sh and N.uniform(s.sh):
        sh, lb = s.sh, E
    else:
        sh, lb = N.sh_nonlin(I.site(n), 'range over offset-dependent bounds', s, e, p)
    form = F.fapp('arange', s.form, e.form, p.form)
    if s.const == 0 and p.const == 1:
        form = F.fapp('iota', e.form)
    return AV(Num(iv=(lo, hi), arr=True, dt=dt, nd=1, law=law if law != L_K else L_0, sh=sh, form=form, ln=ln,
                  roots=frozenset([I.root(n)])), deps | lb)


def np_linspace(I, name, args, kw, n, st):
    deps = alldeps(args, kw)
    s, e = I.num(args[0], st), I.num(args[1], st)
    num = get(args, kw, 2, 'num', mknum(50))
    k = I.num(num, st)
    law, clash = N.law_like(s, e)
    if clash:
        law = L_U
    ep = kw.get('endpoint')
    fs = [s.form, e.form, k.form] + ([keyf(I, ep, st)] if ep is not None else [])
    sh = N.shc(s) if (s.sh is not None and e.sh is not None and N.shc(s) is N.shc(e)) else None
    iv = jiv(s.iv, e.iv) if name == 'linspace' else (0.0, INF)
    r = AV(Num(iv=iv, arr=True, dt='f', nd=1, law=N.nonconst_law(law) if name == 'linspace' else L_U, sh=sh, ln=k.form,
               form=F.fapp(name, *fs), roots=frozenset([I.root(n)])), deps)
    if kw.get('retstep') is not None:
        return mktup([r, I.opaque(n, deps, tag='step')])
    return r


# ------------------------------------------------------------- stacking
def np_stack(I, name, args, kw, n, st):
    seq = args[0]
    els = I.exact_elems(seq, st)
    deps = alldeps(args, kw)
    if els is not None:
        ns = [I.num(e, st) for e in els]
        # element values that are themselves python sequences keep their deps
        for e in els:
            deps = deps | e.deps
        law = N.norm_law(set().union(*[m.law for m in ns])) if ns else L_ANY
        sh = ns[0].sh if ns else SH0
        for m in ns[1:]:
            if m.sh is not sh:
                if sh is N.SHANY:
                    sh = m.sh
                elif m.sh is N.SHANY:
                    pass
                elif sh is None or m.sh is None:
                    sh = None
                else:
                    sh = F.fapp('cat', sh, m.sh)
        iv = ns[0].iv if ns else TOPIV
        for m in ns[1:]:
            iv = jiv(iv, m.iv)
        form = F.fapp(name, *[m.form for m in ns], *([keyf(I, kw['axis'], st)] if 'axis' in kw and keyf(I, kw['axis'], st) is not None else [])) if len(ns) <= 40 else None
        dt = ns[0].dt if ns and all(m.dt == ns[0].dt for m in ns) else ('c' if any(m.dt == 'c' for m in ns) else None)
        parts, plen, prov = None, None, None
        nd = None
        ln = None
        if name == 'column_stack':
            nd = 2
            ln = ns[0].ln or (F.fapp('len', ns[0].form) if ns and ns[0].form is not None else None)
            cols = []
            ok = True
            for e, m in zip(els, ns):
                if m.nd == 2 and m.prov == 'cols' and m.parts is not None and m.plen is not None:
                    cols += list(m.parts)
                elif m.nd == 1 or (m.nd is None and m.arr is not False and m.nd != 2 and False):
                    cols.append(e)
                else:
                    ok = False
                    break
            if ok:
                parts, plen, prov = tuple(cols), len(cols), 'cols'
            else:
                # law per column is not known: keep known prefix
                parts, plen, prov = (tuple(cols) or None), None, ('cols' if cols else None)
        elif name in ('vstack', 'stack', 'row_stack'):
            nd = 2 if all(m.nd == 1 for m in ns) else None
            if nd == 2 and ('axis' not in kw or kw['axis'].const() == 0):
                parts, plen, prov = tuple(els), len(els), 'rows'
                ln = F.fconst(len(els))
            elif nd == 2 and kw['axis'].const() in (1, -1):
                parts, plen, prov = tuple(els), len(els), 'cols'
        else:   # concatenate / hstack / append / block
            nd = ns[0].nd if ns else 1
            if nd == 1 or name == 'hstack':
                ps = []
                for m in ns:
                    if m.parts is not None and m.plen is not None and m.nd == 1:
                        ps += list(m.parts)
                    else:
                        ps = None
                        break
                if ps is not None and nd == 1:
                    parts, plen = tuple(ps), len(ps)
                lns = [m.ln for m in ns]
                if all(q is not None for q in lns) and lns and nd == 1:
                    ln = lns[0]
                    for q in lns[1:]:
                        ln = F.fadd(ln, q)
            elif nd == 2:
                ax = get(args, kw, 1, 'axis')
                axc = ax.const() if ax is not None else 0
                if axc in (1, -1):
                    cols = []
                    for m in ns:
                        if m.prov == 'cols' and m.parts is not None and m.plen is not None:
                            cols += list(m.parts)
                        else:
                            cols = None
                            break
                    if cols is not None:
                        parts, plen, prov = tuple(cols), len(cols), 'cols'
        return AV(Num(iv=iv, arr=True, dt=dt, nd=nd, law=law, sh=sh, form=form, parts=parts, plen=plen, prov=prov, ln=ln,
                      roots=frozenset([I.root(n)])), deps)
    s = I.summary_elem(seq, st, n)
    m = I.num(s, st) if s is not None else Num(law=L_ANY, sh=N.SHANY)
    src = I.num(seq, st)
    return AV(Num(iv=m.iv, arr=True, dt=m.dt, nd=2 if name in ('column_stack', 'vstack') else (m.nd if m.nd and name == 'concatenate' else None),
                  law=N.nonconst_law(m.law) if False else m.law, sh=m.sh, form=F.fapp(name, src.form),
                  roots=frozenset([I.root(n)])), deps | (s.deps if s is not None else E))


# ----------------------------------------------------------------- generic table
# name -> (law mode, shift mode, interval, nd mode, dt)
#   law: same | 0 | unit | u | sq
#   shift: nl (nonlinear) | same | diff | lin (linear functional of the array)
GEN = {
    'sort': ('same', 'same', 'same', 'same', None),
    'unique': ('same', 'same', 'same', 1, None),
    'roll': ('same', 'same', 'same', 'same', None),
    'tile': ('same', 'same', 'same', None, None),
    'repeat': ('same', 'same', 'same', None, None),
    'resize': ('same', 'same', 'same', None, None),
    'delete': ('same', 'same', 'same', 'same', None),
    'trim_zeros': ('same', 'same', 'same', 'same', None),
    'pad': ('same', 'nl', 'top', 'same', None),
    'diff': ('same', 'diff', 'top', 'same', None),
    'ediff1d': ('same', 'diff', 'top', 'same', None),
    'gradient': ('same', 'diff', 'top', 'same', None),
    'cumsum': ('same', 'lin', 'cum', 'same', None),
    'nancumsum': ('same', 'lin', 'cum', 'same', None),
    'cumprod': ('u', 'nl', 'top', 'same', None),
    'argsort': ('0', 'diff', 'nn', 'same', 'i'),
    'argwhere': ('0', 'nl', 'nn', None, 'i'),
    'flatnonzero': ('0', 'nl', 'nn', 1, 'i'),
    'bincount': ('0', 'nl', 'nn', 1, 'i'),
    'digitize': ('0', 'nl', 'nn', 'same', 'i'),
    'searchsorted': ('0', 'nl', 'nn', None, 'i'),
    'isin': ('0', 'nl', '01', 'same', 'b'),
    'in1d': ('0', 'nl', '01', 'same', 'b'),
    'isclose': ('0', 'nl', '01', 'same', 'b'),
    'fft.fftshift': ('same', 'nl', 'same', 'same', None),
    'fft.ifftshift': ('same', 'nl', 'same', 'same', None),
    'hanning': ('0', 'nl', '01', 1, 'f'),
    'hamming': ('0', 'nl', '01', 1, 'f'),
    'blackman': ('0', 'nl', 'top', 1, 'f'),
    'bartlett': ('0', 'nl', '01', 1, 'f'),
    'kaiser': ('0', 'nl', '01', 1, 'f'),
    'tril': ('same', 'nl', 'top', 'same', None),
    'triu': ('same', 'nl', 'top', 'same', None),
    'diag': ('same', 'nl', 'top', None, None),
    'packbits': ('0', 'nl', 'nn', None, 'i'),
    'unpackbits': ('0', 'nl', '01', None, 'i'),
    'linalg.inv': ('inv', 'nl', 'top', 2, None),
    'linalg.pinv': ('inv', 'nl', 'top', 2, None),
    'linalg.det': ('u', 'nl', 'top', 0, None),
    'linalg.cond': ('u', 'nl', 'nn', 0, None),
    'vander': ('u', 'nl', 'top', 2, None),
    'cov': ('sq', 'diff', 'top', None, None),
    'corrcoef': ('0', 'diff', 'top', None, None),
    'array_equal': ('0', 'nl', '01', 0, 'b'),
    'array_equiv': ('0', 'nl', '01', 0, 'b'),
    'ndim': ('0', 'inv', 'nn', 0, 'i'),
    'size': ('0', 'inv', 'nn', 0, 'i'),
    'intersect1d': ('same', 'nl', 'top', 1, None),
    'setdiff1d': ('same', 'nl', 'top', 1, None),
    'union1d': ('same', 'nl', 'top', 1, None),
    'lexsort': ('0', 'nl', 'nn', 1, 'i'),
    'partition': ('same', 'same', 'same', 'same', None),
    'argpartition': ('0', 'diff', 'nn', 'same', 'i'),
    'modf': ('u', 'nl', 'top', None, None),
    'frexp': ('u', 'nl', 'top', None, None),
    'ldexp': ('same', 'nl', 'top', None, None),
    'hypot': ('same', 'nl', 'nn', None, 'f'),
    'copysign': ('same', 'nl', 'top', None, None),
    'heaviside': ('0', 'nl', '01', None, 'f'),
    'spacing': ('u', 'nl', 'top', None, None),
    'nextafter': ('same', 'nl', 'top', None, None),
    'apply_along_axis': ('u', 'u', 'top', None, None),
    'vectorize': ('u', 'u', 'top', None, None),
    'select': ('u', 'u', 'top', None, None),
    'piecewise': ('u', 'u', 'top', None, None),
    'meshgrid': ('u', 'u', 'top', None, None),
    'take': ('same', 'same', 'same', None, None),
    'take_along_axis': ('same', 'same', 'same', None, None),
    'choose': ('u', 'u', 'top', None, None),
    'extract': ('same', 'same', 'same', None, None),
    'compress': ('same', 'same', 'same', None, None),
    'geomspace': ('u', 'u', 'top', 1, 'f'),
    'i0': ('0', 'nl', 'nn', 'same', 'f'),
    'cross': ('u', 'u', 'top', None, None),
    'kron': ('u', 'u', 'top', None, None),
    'trace': ('same', 'u', 'top', 0, None),
    'spectrogram': ('u', 'u', 'top', None, None),
    'indices': ('0', 'nl', 'nn', None, 'i'),
    'poly': ('u', 'u', 'top', 1, None),
    'roots': ('u', 'u', 'top', 1, None),
    'polyder': ('u', 'u', 'top', 1, None),
    'polymul': ('u', 'u', 'top', 1, None),
    'isneginf': ('0', 'inv', '01', 'same', 'b'),
    'isposinf': ('0', 'inv', '01', 'same', 'b'),
    'lcm': ('0', 'nl', 'nn', None, 'i'),
    'gcd': ('0', 'nl', 'nn', None, 'i'),
    'correlate': ('u', 'u', 'top', 1, None),
    'logspace': ('u', 'u', 'nn', 1, 'f'),
    'nonzero': ('0', 'nl', 'nn', None, 'i'),
    'linalg.svd': ('u', 'u', 'top', None, None),
    'linalg.qr': ('u', 'u', 'top', None, None),
    'linalg.eig': ('u', 'u', 'top', None, None),
    'linalg.matrix_rank': ('0', 'u', 'nn', 0, 'i'),
    'interp': ('u', 'u', 'top', None, None),
    'array_split': ('u', 'u', 'top', None, None),
    'split': ('u', 'u', 'top', None, None),
    'logaddexp': ('u', 'u', 'top', None, None),
    'broadcast_arrays': ('u', 'u', 'top', None, None),
    'tensordot': ('u', 'u', 'top', None, None),
    'einsum': ('u', 'u', 'top', None, None),
}


def np_generic(I, name, args, kw, n, st):
    lm, sm, im, nm, dtm = GEN[name]
    zw = None
    x = args[0] if args else (next(iter(kw.values())) if kw else mknum(0))
    a = I.num(x, st)
    deps = alldeps(args, kw)
    site = I.site(n)
    labels = E
    nums = [I.num(v, st) for v in args]
    law = {'same': a.law, '0': L_0, 'u': L_U}.get(lm)
    if lm == 'sq':
        law = N.law_scale(a, 2)
    elif lm == 'inv':
        law = N.law_scale(a, -1)
    elif lm == 'unit':
        law, clash = N.law_unit(a)
    sh = None
    if sm == 'nl':
        sh, lb = N.sh_nonlin(site, '%s of an offset-dependent quantity' % name, *nums) if nums else (SH0, E)
        labels = labels | lb
    elif sm == 'same':
        if a.sh is not None and not (a.dc0 and not N.shz(a)):
            sh = a.sh if (N.uniform(a.sh) or N.shz(a)) else F.fapp(name, a.sh)
    elif sm == 'diff':
        if a.sh is not None:
            if N.uniform(a.sh) and not a.dc0:
                sh = SH0
            else:
                labels = labels | N.shv(site, '%s of an array with uneven offset dependence' % name)
    elif sm == 'lin':
        if a.sh is not None:
            sh = a.sh if N.shz(a) else F.fapp(name, a.sh)
    elif sm == 'inv':
        sh = SH0
    iv = {'same': a.iv, 'top': TOPIV, 'nn': (0.0, INF), '01': (0.0, 1.0),
          'cum': (0.0, INF) if a.iv[0] >= 0 else ((-INF, 0.0) if a.iv[1] <= 0 else TOPIV)}[im]
    nd = a.nd if nm == 'same' else nm
    arr = False if nd == 0 else (True if nd else (a.arr if nm == 'same' else None))
    fs = [keyf(I, v, st) for v in args] + [keyf(I, v, st) for k, v in sorted(kw.items())]
    form = F.fapp(name + ''.join('/' + k for k in sorted(kw)), *fs) if all(f is not None for f in fs) else None
    dt = dtm or (a.dt if lm == 'same' else None)
    if a.dt in ('n', 'B') and not dtm:
        if name in ('cumsum', 'nancumsum', 'cumprod'):
            dt = dtype_of(I, get(args, kw, 2, 'dtype')) or 'i'
        elif name == 'gradient':
            dt = 'f'
        elif name in ('diff', 'ediff1d'):
            if a.dt == 'B' or not (a.iv[0] == a.iv[1]):
                zw = N.nar(site, '%s is carried out in the integer type of the record and wraps around' % name)
                labels = labels | zw
        elif name not in ('sort', 'unique', 'roll', 'tile', 'repeat', 'delete', 'take', 'take_along_axis', 'extract', 'compress', 'fft.fftshift', 'fft.ifftshift', 'partition'):
            dt = None
    r = Num(law=law, sh=sh, iv=iv, form=form, nd=nd, arr=arr, dt=dt, roots=fresh(I, n, arr),
            ln=a.ln if nm == 'same' and name in ('sort', 'roll', 'cumsum', 'gradient', 'argsort') else None)
    if zw is not None:
        r = r.rep(prov=('zw', zw))
    if name in ('size', 'ndim'):
        r = num_shape_attr(I, a, name)
    res = AV(r, deps | labels)
    if name == 'unique' and any(k in kw for k in ('return_counts', 'return_inverse', 'return_index')):
        k = 1 + sum(1 for q in ('return_counts', 'return_inverse', 'return_index') if q in kw and kw[q].const() is not False)
        cnt = AV(Num(law=L_0, sh=SH0 if N.shz(a) or N.uniform(a.sh) else None, iv=(0.0, INF), dt='i', nd=1, arr=True,
                     form=F.fapp('uaux', form) if form is not None else None, roots=fresh(I, n, True, 'u')), deps)
        return mktup([res] + [cnt] * (k - 1), deps)
    if name in ('nonzero',):
        return mktup([res], deps)
    if name in ('meshgrid', 'linalg.svd', 'linalg.qr', 'linalg.eig', 'array_split', 'split', 'modf', 'frexp', 'broadcast_arrays'):
        return AV(Num(anyk=True, form=form, roots=fresh(I, n, None)), deps)
    return out_arg(I, kw, res, n, st)


def np_pick(I, name, args, kw, n, st):
    """take(a, indices), compress(condition, a), extract(condition, arr): indexing by another name"""
    if name == 'take':
        x, k = get(args, kw, 0, 'a'), get(args, kw, 1, 'indices')
    else:
        k, x = get(args, kw, 0, 'condition'), get(args, kw, 1, 'a' if name == 'compress' else 'arr')
    if x is None or k is None:
        return I.opaque(n, alldeps(args, kw))
    axis = get(args, kw, 2, 'axis') if name != 'extract' else None
    a = I.num(x, st)
    if a.arr and a.nd == 1 and (is_none(axis) or axis.const() in (0, -1)) and not (set(kw) - {'a', 'arr', 'indices', 'condition', 'axis', 'mode'}):
        r = I.get_item(AV(a, x.deps), k, n, st)
        return AV(tuple(q.rep(roots=fresh(I, n, q.arr)) if q.kind == 'num' else q for q in r.alts), r.deps | alldeps(args, kw))
    rest = {q: v for q, v in kw.items() if q not in ('a', 'arr', 'indices', 'condition')}
    return np_generic(I, name, [x, k], rest, n, st)


def num_shape_attr(I, a, name):
    if name == 'ndim':
        if a.nd is not None:
            return mknum(a.nd).alts[0]
        return Num(arr=False, nd=0, dt='i', iv=(0.0, 32.0), law=L_0, sh=SH0, form=F.fapp('ndim', a.form))
    if a.nd == 1:
        f = a.ln if a.ln is not None else F.fapp('len', a.form)
    else:
        f = F.fapp('size', a.form) if a.form is not None else None
    if f is not None and F.is_const(f):
        c = F.const_of(f)
        if c == int(c):
            return mknum(int(c)).alts[0]
    return Num(arr=False, nd=0, dt='i', iv=(0.0, INF), law=L_0, sh=SH0, form=f)


# ----------------------------------------------------------------------- FFT
def np_fft(I, name, args, kw, n, st):
    a = I.num(args[0], st)
    deps = alldeps(args, kw)
    base = name.split('.')[-1]
    sh, dc0 = None, False
    if a.sh is not None:
        if N.shz(a):
            sh = SH0
        elif N.uniform(a.sh) and base in ('fft', 'rfft', 'hfft'):
            sh, dc0 = F.fapp('fft', a.sh), True
        else:
            sh = F.fapp(base, a.sh)
            if a.dc0 and base in ('ifft', 'irfft'):
                sh = F.fatom(('uniform',))
    c, uf = pull_const(a.form)
    fs = [uf] + [keyf(I, v, st) for v in args[1:] if not v.only('none')] + [keyf(I, v, st) for k, v in sorted(kw.items())]
    form = F.fscale(F.fapp(base + ''.join('/' + k for k in sorted(kw)), *fs), c) if all(f is not None for f in fs) else None
    return AV(Num(law=a.law, sh=sh, dc0=dc0, form=form, nd=a.nd, arr=True, dt='f' if base == 'irfft' else 'c',
                  ln=a.ln if base in ('fft', 'ifft') and len(args) == 1 and 'n' not in kw else None,
                  roots=frozenset([I.root(n)])), deps)


def np_fftfreq(I, name, args, kw, n, st):
    k = I.num(args[0], st)
    d = I.num(get(args, kw, 1, 'd', mknum(1.0)), st)
    base = name.split('.')[-1]
    form = F.fdiv(F.fapp(base, k.form), d.form)
    law, _ = N.law_mul(Num(law=L_0), d, -1)
    hi = INF
    if d.const == 1.0 or d.const == 1:
        hi = 0.5
    return AV(Num(law=law, sh=SH0, form=form, nd=1, arr=True, dt='f', iv=(0.0, hi) if base == 'rfftfreq' else TOPIV,
                  ln=F.fadd(F.fapp('fdiv', k.form, F.fconst(2)), F.fconst(1)) if base == 'rfftfreq' else k.form,
                  roots=frozenset([I.root(n)])), alldeps(args, kw))


# --------------------------------------------------------------------- linalg
def cols_of(a):
    """list of column AVs of a matrix (None if not completely known)"""
    if a.prov == 'cols' and a.parts is not None and a.plen is not None:
        return list(a.parts)
    return None


def cols_prefix(a):
    if a.prov == 'cols' and a.parts is not None:
        return list(a.parts)
    return None


def is_ones(I, av, st):
    m = I.num(av, st)
    return m.form is not None and F.is_const(m.form) and F.const_of(m.form) != 0


def np_lstsq(I, name, args, kw, n, st):
    A, b = I.num(args[0], st), I.num(args[1], st)
    deps = alldeps(args, kw)
    for k in ('overwrite_a', 'overwrite_b'):
        if k in kw and kw[k].const() is not False:
            tgt = A if k == 'overwrite_a' else b
            if tgt.roots:
                I.event('mutate', n, st, roots=tgt.roots, weak=False, how=k, target='lstsq')
    form = F.fapp('lstsq', A.form, b.form)
    cols = cols_of(A)
    coef = solve_coef(I, A, b, form, n, st, deps, cols)
    res = AV(Num(law=N.law_scale(b, 2), iv=(0.0, INF), arr=True, nd=None, dt='f', form=F.fapp('lres', A.form, b.form),
                 roots=frozenset([I.root(n, 'r')])), deps)
    rank = AV(Num(law=L_0, iv=(0.0, INF), arr=False, nd=0, dt='i', sh=None, form=F.fapp('rank', A.form)), args[0].deps)
    sv = AV(Num(law=A.law, iv=(0.0, INF), arr=True, nd=1, dt='f', form=F.fapp('sv', A.form), roots=frozenset([I.root(n, 's')])), args[0].deps)
    return mktup([coef, res, rank, sv])


def solve_coef(I, A, b, form, n, st, deps, cols):
    parts = plen = None
    law = L_U
    sh = None
    if cols is not None and cols:
        ps = []
        bsh_uni = b.sh is not None and N.uniform(b.sh)
        colnums = [I.num(c, st) for c in cols]
        inv_cols = all(N.shz(c) for c in colnums)
        ones = [i for i, c in enumerate(cols) if is_ones(I, c, st)]
        for i, m in enumerate(colnums):
            l, _ = N.law_mul(b, m, -1)
            s = None
            if b.sh is not None and inv_cols:
                if N.shz(b):
                    s = SH0
                elif bsh_uni and ones:
                    if i == ones[0]:
                        s = F.fdiv(N.shc(b), m.form)
                    else:
                        s = SH0
                elif not ones:
                    s = F.fapp('lsh', form, F.fconst(i)) if form is not None else None
            ps.append(AV(Num(law=l, sh=s, arr=False if b.nd == 1 else None, nd=0 if b.nd == 1 else None, dt='f',
                             form=F.fapp('idx', form, F.fconst(i)) if form is not None else None), deps))
        parts, plen = tuple(ps), len(ps)
        law = N.norm_law(set().union(*[p.alts[0].law for p in ps]))
        shs = {p.alts[0].sh for p in ps}
        sh = shs.pop() if len(shs) == 1 else None
    else:
        la = A.law
        if len(la) == 1 and len(b.law) == 1:
            law, _ = N.law_mul(b, A, -1)
        elif all(x != UNK for x in la) and all(x != UNK for x in b.law):
            law, _ = N.law_mul(b, A, -1)
        if N.shz(A) and N.shz(b):
            sh = SH0
    return AV(Num(law=law, sh=sh, arr=True, nd=b.nd, dt='f', form=form, parts=parts, plen=plen,
                  ln=F.fconst(plen) if plen is not None else None, roots=frozenset([I.root(n)])), deps)


def np_solve(I, name, args, kw, n, st):
    A, b = I.num(args[0], st), I.num(args[1], st)
    deps = alldeps(args, kw)
    law, _ = N.law_mul(b, A, -1)
    return AV(Num(law=law, sh=SH0 if N.shz(A) and N.shz(b) else None, arr=True, nd=b.nd, dt='f', form=F.fapp('solve', A.form, b.form),
                  roots=frozenset([I.root(n)])), deps)


def np_norm(I, name, args, kw, n, st):
    a = I.num(args[0], st)
    axis = get(args, kw, 2, 'axis')
    nd = 0 if is_none(axis) else (a.nd - 1 if a.nd else None)
    o = get(args, kw, 1, 'ord')
    sh, lb = N.sh_nonlin(I.site(n), 'norm of an offset-dependent quantity', a)
    if a.dc0 and not N.shz(a):
        lb = N.shv(I.site(n), 'norm over a spectrum that still contains the DC bin')
    fs = [a.form] + [keyf(I, v, st) for v in (o, axis) if not is_none(v)]
    arr = False if nd == 0 else None
    law = a.law
    if o is not None and o.const() == 0:
        law = L_0
    return AV(Num(law=law, sh=sh, iv=(0.0, INF), arr=arr, nd=nd, dt='f', form=F.fapp('norm', *fs) if all(f is not None for f in fs) else None,
                  roots=fresh(I, n, arr)), alldeps(args, kw) | lb)


def matmul(I, x, y, n, st):
    a, b = I.num(x, st), I.num(y, st)
    deps = x.deps | y.deps
    site = I.site(n)
    labels = E
    form = F.fapp('matmul', a.form, b.form)
    law, sh = None, None
    cols = cols_of(a)
    arr, nd = True, None
    if a.nd is not None and b.nd is not None:
        nd = max(0, a.nd + b.nd - 2)
        arr = nd > 0
    def comb(ps, qs, total):
        law, sh = None, None
        lab = E
        okl = True
        for p, q in zip(ps, qs):
            r, lb = N.binop('Mult', I.num(p, st), I.num(q, st), site, None)
            lab = lab | frozenset(lb)
            if law is None:
                law, sh = r.law, r.sh
            else:
                law2, clash = N.law_add(Num(law=law), r)
                if clash:
                    lab = lab | N.bad(site, 'adds quantities of different scaling degree')
                law = law2
                sh = None if sh is None or r.sh is None else F.fadd(N.shc(Num(sh=sh)), N.shc(r))
        return law, sh, lab
    if cols is not None and b.parts is not None and b.plen == len(cols) and b.nd in (1, None):
        law, sh, labels = comb(cols, b.parts, True)
    elif a.nd == 1 and b.nd == 1 and a.parts is not None and b.parts is not None and a.plen == b.plen and a.plen:
        law, sh, labels = comb(a.parts, b.parts, True)
    if law is None:
        law, _ = N.law_mul(a, b)
        if len(law) > 1:
            law = L_U if UNK in law else law
        if N.shz(a) and N.shz(b):
            sh = SH0
        elif a.sh is not None and b.sh is not None and (N.shz(a) or N.shz(b)):
            sh = F.fapp('matmul', a.form if N.shz(a) else N.shc(a), b.form if N.shz(b) else N.shc(b))
    iv = TOPIV
    if a.iv[0] >= 0 and b.iv[0] >= 0:
        iv = (0.0, INF)
    prov = None
    ln = None
    if nd == 1 and a.nd == 2:
        ln = a.ln
    if a.dt == 'n' and b.dt == 'n' and not (N.small(a.iv) and N.small(b.iv)) or a.dt == 'B' and b.dt == 'B':
        labels = labels | N.nar(site, 'the product is summed in the integer type of the record and wraps around')
    return AV(Num(law=law, sh=sh, iv=iv, arr=arr, nd=nd, dt='c' if 'c' in (a.dt, b.dt) else ('f' if 'f' in (a.dt, b.dt) else a.dt if a.dt == b.dt or not (a.dt in ('n', 'B') or b.dt in ('n', 'B')) else None),
                  form=form, ln=ln, roots=fresh(I, n, arr)), deps | labels)


def np_polyfit(I, name, args, kw, n, st):
    x, y = I.num(args[0], st), I.num(args[1], st)
    dg = get(args, kw, 2, 'deg')
    d = dg.const() if dg is not None else NC
    deps = alldeps(args, kw)
    fs = [x.form, y.form, keyf(I, dg, st)]
    form = F.fapp('polyfit', *fs) if all(f is not None for f in fs) else None
    parts = plen = None
    law = L_U
    if isinstance(d, int) and 0 <= d <= 12:
        ps = []
        for i in range(d + 1):
            k = d - i
            l, _ = N.law_mul(y, Num(law=N.law_scale(x, k) if k else L_K), -1)
            sh = None
            if N.shz(x) and y.sh is not None:
                if N.shz(y):
                    sh = SH0
                elif N.uniform(y.sh):
                    sh = SH0 if k else N.shc(y)
            ps.append(AV(Num(law=l, sh=sh, arr=False, nd=0, dt='f', form=F.fapp('idx', form, F.fconst(i)) if form is not None else None), deps))
        parts, plen = tuple(ps), d + 1
        law = N.norm_law(set().union(*[p.alts[0].law for p in ps]))
    elif all(q in (D0, KON) for q in x.law):
        law = y.law
    r = AV(Num(law=law, sh=SH0 if N.shz(x) and N.shz(y) else None, arr=True, nd=1, dt='f', form=form, parts=parts, plen=plen,
               roots=frozenset([I.root(n)])), deps)
    if 'full' in kw or 'cov' in kw:
        return mktup([r, I.opaque(n, deps, tag='aux')])
    return r


def np_polyval(I, name, args, kw, n, st):
    p, x = I.num(args[0], st), I.num(args[1], st)
    deps = alldeps(args, kw)
    form = F.fapp('polyval', p.form, x.form)
    law = L_U
    sh = None
    labels = E
    if N.shz(p) and N.sh_nonzero(x.sh):
        labels = labels | N.shv(I.site(n), 'fixed polynomial evaluated at an offset-dependent quantity')
    if p.parts is not None and p.plen is not None and p.plen:
        acc = None
        d = p.plen - 1
        for i, c in enumerate(p.parts):
            k = d - i
            xk = Num(law=N.law_scale(x, k) if k else L_K, sh=SH0 if N.shz(x) else None, form=F.fpow(x.form, k))
            r, lb = N.binop('Mult', I.num(c, st), xk, I.site(n), None)
            if acc is None:
                acc = r
            else:
                acc, lb2 = N.binop('Add', acc, r, I.site(n), None)
                labels = labels | frozenset(lb2)
        law, sh = acc.law, acc.sh
    elif all(q in (D0, KON) for q in x.law):
        law = p.law
        if N.shz(p) and N.shz(x):
            sh = SH0
    return AV(Num(law=law, sh=sh, arr=x.arr, nd=x.nd, ln=x.ln, dt='f', form=form, roots=fresh(I, n, x.arr)), deps | labels)


def np_outer(I, name, args, kw, n, st):
    a, b = I.num(args[0], st), I.num(args[1], st)
    r, lb = N.binop('Mult', a, b, I.site(n), I.root(n))
    return AV(r.rep(nd=2, arr=True, form=F.fapp('outer', a.form, b.form), ln=None, parts=None, plen=None, roots=frozenset([I.root(n)])), alldeps(args, kw) | frozenset(lb))


def np_convolve(I, name, args, kw, n, st):
    a, b = I.num(args[0], st), I.num(args[1], st)
    law, _ = N.law_mul(a, b)
    sh = None
    if a.sh is not None and b.sh is not None:
        sh = SH0 if N.shz(a) and N.shz(b) else F.fapp('conv', F.fadd(N.shc(a), N.shc(b)))
    lb = E
    if a.dt == 'n' and b.dt == 'n':
        lb = N.nar(I.site(n), 'the products are summed in the integer type of the record and wrap around')
    mode = get(args, kw, 2, 'mode', None)
    mc = mode.const() if mode is not None else 'full'
    form = F.fapp('conv/' + mc, a.form, b.form) if isinstance(mc, str) else None
    return AV(Num(law=law, sh=sh, arr=True, nd=1, dt=N._dt(a, b, 'Add'), form=form,
                  roots=frozenset([I.root(n)])), alldeps(args, kw) | lb)


def np_histogram(I, name, args, kw, n, st):
    a = I.num(args[0], st)
    deps = alldeps(args, kw)
    fs = [a.form] + [keyf(I, v, st) for v in args[1:]] + [keyf(I, v, st) for k, v in sorted(kw.items())]
    f = F.fapp('hist', *fs) if all(x is not None for x in fs) else None
    edges = get(args, kw, 1, 'bins', None)
    rng = get(args, kw, 2, 'range', None)
    ref = None
    if rng is not None and not rng.only('none'):
        ref = I.num(rng, st)
    elif edges is not None and all(q.kind in ('num', 'ref', 'tup') for q in edges.alts) and I.num(edges, st).arr:
        ref = I.num(edges, st)
    csh = SH0 if (N.shz(a) or N.uniform(a.sh)) else None
    if ref is not None:
        if N.law_cmp(a, ref):
            deps = deps | N.bad(I.site(n), 'histogram of a scaled quantity over fixed edges')
        if a.sh is None or ref.sh is None:
            csh = None
        elif N.shc(a) is not N.shc(ref):
            csh = None
            if N.sh_nonzero(F.fsub(N.shc(a), N.shc(ref))):
                deps = deps | N.shv(I.site(n), 'histogram of an offset-dependent quantity over fixed edges')
    cnt = AV(Num(law=L_0, sh=csh, iv=(0.0, INF), arr=True, nd=1, dt='f', form=f, roots=frozenset([I.root(n, 'h')])), deps)
    edg = AV(Num(law=a.law, sh=a.sh if N.uniform(a.sh) else None, arr=True, nd=1, dt='f', form=F.fapp('edges', f) if f is not None else None,
                 roots=frozenset([I.root(n, 'e')])), deps)
    return mktup([cnt, edg])


def np_bincount(I, name, args, kw, n, st):
    a = I.num(args[0], st)
    w = get(args, kw, 1, 'weights', None)
    r = np_generic(I, name, args, kw, n, st)
    if w is None or w.only('none'):
        return r
    x = I.num(w, st)
    q = r.alts[0]
    sh = None
    if N.shz(a) and x.sh is not None:
        sh = SH0 if N.shz(x) else F.fapp('bincount', a.form, x.sh)
    return AV(q.rep(law=N.nonconst_law(x.law), sh=sh, iv=(0.0, INF) if x.iv[0] >= 0 else TOPIV, dt='f'), r.deps)


def np_digitize(I, name, args, kw, n, st):
    """digitize(x, bins) / searchsorted(bins, x): only the order relation between the two matters"""
    a, b = I.num(args[0], st), I.num(args[1], st) if len(args) > 1 else mknum(0).alts[0]
    r = np_generic(I, name, args, kw, n, st)
    deps = frozenset(d for d in r.deps if not (d[0] == 'SHV' and d[1] == I.site(n)))
    sh = None
    if N.law_cmp(a, b):
        deps = deps | N.bad(I.site(n), '%s of a scaled quantity against fixed edges' % name)
    if a.sh is not None and b.sh is not None:
        if N.shc(a) is N.shc(b):
            sh = SH0
        elif N.sh_nonzero(F.fsub(N.shc(a), N.shc(b))):
            deps = deps | N.shv(I.site(n), '%s of an offset-dependent quantity against fixed edges' % name)
    return AV(r.alts[0].rep(sh=sh), deps)


def np_arctan2(I, name, args, kw, n, st):
    a, b = I.num(args[0], st), I.num(args[1], st)
    labels = E
    law = L_0
    l, clash = N.law_like(a, b)
    if clash:
        labels = labels | N.bad(I.site(n), 'arctan2 of quantities with different scaling')
    sh, lb = N.sh_nonlin(I.site(n), 'arctan2 of an offset-dependent quantity', a, b)
    arr = N._arr(a, b)
    return AV(Num(law=L_U if UNK in l else law, sh=sh, iv=(-math.pi, math.pi), arr=arr, nd=N._nd(a, b), ln=N._ln(a, b), dt='f',
                  form=F.fapp('arctan2', a.form, b.form), roots=fresh(I, n, arr)), alldeps(args, kw) | labels | lb)


def np_insert(I, name, args, kw, n, st):
    """insert / append"""
    a = I.num(args[0], st)
    v = I.num(args[2] if name == 'insert' else args[1], st)
    law = N.norm_law(a.law | v.law)
    sh = a.sh if a.sh is v.sh or v.sh is N.SHANY else (v.sh if a.sh is N.SHANY else None)
    fs = [keyf(I, q, st) for q in args]
    return AV(Num(law=law, sh=sh, iv=jiv(a.iv, v.iv), arr=True, nd=a.nd if a.nd == 1 else None, dt=a.dt, form=F.fapp(name, *fs) if all(f is not None for f in fs) else None,
                  roots=frozenset([I.root(n)])), alldeps(args, kw))


def np_pred(I, name, args, kw, n, st):
    """isscalar, iscomplexobj, isrealobj, issubdtype, allclose, shape"""
    deps = alldeps(args, kw)
    if name == 'shape':
        from . import ext
        return ext.num_attr(I, I.num(args[0], st), args[0], 'shape', n, st).adddeps(deps)
    if name == 'iscomplexobj' and args[0].get('num') is not None:
        d = I.num(args[0], st).dt
        return mkbool(None if d is None else d == 'c', deps)
    if name == 'isrealobj':
        d = I.num(args[0], st).dt
        return mkbool(None if d is None else d != 'c', deps)
    if name == 'isscalar':
        x = args[0]
        if x.only('num') and not x.alts[0].anyk and x.alts[0].arr is not None and x.alts[0].prov != 'arg':
            return mkbool(not x.alts[0].arr, deps)
        return mkbool(None, deps)
    labels = E
    if name == 'issubdtype' and len(args) > 1:
        d = next((q.prov for q in args[0].alts if q.kind == 'eo' and q.ty == 'dtype'), None) if len(args[0].alts) == 1 else None
        t = args[1].alts[0].name.split('.')[-1] if len(args[1].alts) == 1 and args[1].alts[0].kind == 'ext' else None
        tab = {'floating': 'f', 'inexact': 'fc', 'integer': 'in', 'number': 'ifcn', 'complexfloating': 'c', 'bool_': 'bB', 'bool': 'bB'}
        return mkbool(d in tab[t] if d in ('b', 'i', 'f', 'c', 'n', 'B') and t in tab else None, deps)
    if name == 'allclose':
        a, b = I.num(args[0], st), I.num(args[1], st)
    return mkbool(None, deps | labels)


MUT_FIRST = {'fill_diagonal', 'put', 'place', 'copyto', 'putmask', 'put_along_axis'}


def np_mut(I, name, args, kw, n, st):
    x = args[0]
    r = roots_of(x)
    I.event('mutate', n, st, roots=r, weak=False, how='np.%s' % name, target='')
    v = args[-1]
    if r:
        I.propagate(st, r, v, I.opaque(n, tag='ix'))
    return NONE


def rand_num(I, n, law=L_U, iv=TOPIV, arr=None, deps=E, nd=None, dt='f'):
    return AV(Num(law=law, sh=SH0, iv=iv, arr=arr, nd=nd, dt=dt, form=F.fatom(('rnd', I.sid(n, 'rng') + I.iters)), ln=ln, roots=fresh(I, n, arr)), deps)


def rng_draw(I, meth, args, kw, n, st, src):
    """random draw from generator `src` ('global' or a provenance)"""
    deps = alldeps(args, kw) | frozenset([('rng', src)])
    size = kw.get('size')
    law, iv, dt = L_0, TOPIV, 'f'
    arr = None
    if meth in ('normal', 'laplace', 'logistic', 'gumbel'):
        loc = get(args, kw, 0, 'loc', mknum(0.0))
        sc = get(args, kw, 1, 'scale', mknum(1.0))
        l, _ = N.law_like(I.num(loc, st), I.num(sc, st))
        law = l
        size = get(args, kw, 2, 'size')
        arr = False if is_none(size) and not any(I.num(q, st).arr for q in (loc, sc)) else None
    elif meth in ('uniform',):
        lo, hi = get(args, kw, 0, 'low', mknum(0.0)), get(args, kw, 1, 'high', mknum(1.0))
        a, b = I.num(lo, st), I.num(hi, st)
        law, _ = N.law_like(a, b)
        iv = jiv(a.iv, b.iv)
        size = get(args, kw, 2, 'size')
        arr = False if is_none(size) else None
    elif meth in ('random', 'rand', 'random_sample'):
        iv = (0.0, 1.0)
        arr = False if not args and not kw else True
    elif meth in ('standard_normal', 'randn'):
        arr = False if not args and not kw else True
    elif meth in ('integers', 'randint'):
        iv, dt = TOPIV, 'i'
        size = get(args, kw, 2, 'size')
        arr = False if is_none(size) else None
    elif meth in ('choice', 'permutation'):
        a = I.num(args[0], st) if args else Num()
        law, iv = a.law, a.iv
        arr = None
    else:
        law = L_U
    if size is not None and not size.only('none'):
        arr = True if size.only('tup') or (size.only('num') and not size.alts[0].anyk) else None
        if size.only('num') and size.alts[0].anyk:
            arr = True
    sz = size if size is not None else None
    if sz is None and meth in ('standard_normal', 'random', 'rand', 'randn', 'random_sample') and len(args) == 1:
        sz = args[0]
    nd, ln = shape_nd(I, sz, st) if sz is not None and not is_none(sz) else ((0, None) if arr is False else (None, None))
    if law == L_K:
        law = L_0
    return AV(Num(law=law, sh=SH0, iv=iv, arr=arr, nd=nd, dt=dt, form=F.fatom(('rnd', I.sid(n, 'rng') + I.iters)), ln=ln, roots=fresh(I, n, arr)), deps)


# ----------------------------------------------------------------------- scipy
def sp_window(I, name, args, kw, n, st):
    k = I.num(args[0], st) if args else Num()
    fs = [keyf(I, v, st) for v in args] + [keyf(I, v, st) for q, v in sorted(kw.items())]
    return AV(Num(law=L_0, sh=SH0, arr=True, nd=1, dt='f', ln=k.form,
                  form=F.fapp('win.' + name.split('.')[-1] + ''.join('/' + q for q in sorted(kw)), *fs) if all(f is not None for f in fs) else None,
                  roots=frozenset([I.root(n)])), alldeps(args, kw))


def sp_getwindow(I, name, args, kw, n, st):
    return AV(Num(law=L_0, sh=SH0, arr=True, nd=1, dt='f', form=F.fatom(('op', I.vsid(n))), roots=frozenset([I.root(n)])), alldeps(args, kw))


def sp_linear(I, name, args, kw, n, st):
    """linear filters: output scales with the data argument"""
    di = {'lfilter': 2, 'filtfilt': 2, 'sosfilt': 1, 'sosfiltfilt': 1, 'hilbert': 0, 'detrend': 0, 'decimate': 0, 'resample': 0,
          'medfilt': 0, 'savgol_filter': 0}[name]
    x = I.num(get(args, kw, di, 'x'), st)
    fs = [keyf(I, v, st) for v in args] + [keyf(I, v, st) for q, v in sorted(kw.items())]
    sh = x.sh if N.shz(x) else (None if x.sh is None else F.fapp(name, x.sh))
    if name == 'detrend' and N.uniform(x.sh):
        sh = SH0
    return AV(Num(law=x.law, sh=sh, arr=True, nd=x.nd, ln=x.ln, dt='c' if name == 'hilbert' else 'f',
                  form=F.fapp(name, *fs) if all(f is not None for f in fs) else None, roots=frozenset([I.root(n)])), alldeps(args, kw))


def sp_tuple(k):
    def f(I, name, args, kw, n, st):
        deps = alldeps(args, kw)
        els = []
        for i in range(k):
            els.append(AV(Num(law=L_0 if name in ('butter', 'cheby1', 'cheby2', 'ellip', 'bessel', 'firwin') else L_U, sh=SH0, arr=True, nd=1, form=F.fatom(('op', I.vsid(n, i))),
                              roots=frozenset([I.root(n, i)])), deps))
        return mktup(els)
    return f


def np_finfo(I, name, args, kw, n, st):
    return AV(Eo('finfo', dtype_of(I, args[0]) if args else None))


ALIASES = {'asarray', 'asanyarray'}


def call_numpy(I, name, args, kw, n, st):
    """name without the leading 'numpy.'; returns AV or None if not modelled"""
    if name in ALIAS_NP:
        if not args and kw:
            args = [kw[k] for k in list(kw)[:1]]
        return np_alias(I, name, args, kw, n, st)
    if name in ('array', 'copy', 'flatten', 'astype'):
        return np_copy(I, name, args, kw, n, st)
    if name in ('float64', 'float32', 'complex128', 'int64', 'int32', 'uint8', 'int8', 'int16', 'bool_', 'float', 'intp', 'uint64', 'uint32', 'uint16'):
        if not args:
            return mknum(0)
        a = I.num(args[0], st)
        dt = dtype_of(I, mkstr(name))
        lb = int_cast(I, a, dt, n)
        return AV(a.rep(dt=dt, form=a.form if not (dt in ('i', 'b') and a.dt not in ('i', 'b', 'n', 'B')) else F.fapp('toint', a.form), anyk=False), alldeps(args, kw) | lb)
    if name in UN:
        return np_unary(I, name, args, kw, n, st)
    if name in BIN or name in CMPS:
        return np_binary(I, name, args, kw, n, st)
    if name in ('maximum', 'minimum', 'fmax', 'fmin'):
        return np_minmax2(I, name, args, kw, n, st)
    if name == 'clip':
        return np_clip(I, name, args, kw, n, st)
    if name == 'where':
        return np_where(I, name, args, kw, n, st)
    if name in RED:
        return np_reduce(I, name, args, kw, n, st)
    if name in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'eye', 'identity'):
        return np_filled(I, name, args, kw, n, st)
    if name == 'arange':
        return np_arange(I, name, args, kw, n, st)
    if name in ('linspace', 'logspace', 'geomspace'):
        return np_linspace(I, name, args, kw, n, st)
    if name in ('column_stack', 'vstack', 'hstack', 'stack', 'concatenate', 'row_stack', 'dstack', 'block'):
        return np_stack(I, name, args, kw, n, st)
    if name in ('fft.fft', 'fft.ifft', 'fft.rfft', 'fft.irfft', 'fft.fft2', 'fft.hfft'):
        return np_fft(I, name, args, kw, n, st)
    if name in ('fft.fftfreq', 'fft.rfftfreq'):
        return np_fftfreq(I, name, args, kw, n, st)
    if name == 'linalg.lstsq':
        return np_lstsq(I, name, args, kw, n, st)
    if name == 'linalg.solve':
        return np_solve(I, name, args, kw, n, st)
    if name == 'linalg.norm':
        return np_norm(I, name, args, kw, n, st)
    if name in ('dot', 'matmul', 'vdot', 'inner'):
        a, b = I.num(args[0], st), I.num(args[1], st)
        if name in ('dot', 'vdot', 'inner') and a.arr is False or b.arr is False:
            return I.binop('Mult', args[0], args[1], n, st)
        return matmul(I, args[0], args[1], n, st)
    if name == 'polyfit':
        return np_polyfit(I, name, args, kw, n, st)
    if name == 'polyval':
        return np_polyval(I, name, args, kw, n, st)
    if name == 'outer':
        return np_outer(I, name, args, kw, n, st)
    if name == 'convolve':
        return np_convolve(I, name, args, kw, n, st)
    if name == 'histogram':
        return np_histogram(I, name, args, kw, n, st)
    if name == 'bincount':
        return np_bincount(I, name, args, kw, n, st)
    if name in ('digitize', 'searchsorted') and len(args) > 1:
        return np_digitize(I, name, args, kw, n, st)
    if name == 'arctan2':
        return np_arctan2(I, name, args, kw, n, st)
    if name in ('insert', 'append'):
        return np_insert(I, name, args, kw, n, st)
    if name in ('isscalar', 'iscomplexobj', 'isrealobj', 'issubdtype', 'allclose', 'shape'):
        return np_pred(I, name, args, kw, n, st)
    if name in MUT_FIRST:
        return np_mut(I, name, args, kw, n, st)
    if name in ('errstate', 'printoptions'):
        return AV(Eo('ctx', name))
    if name in ('seterr', 'seterrcall', 'set_printoptions', 'random.seed', 'random.set_state', 'setbufsize'):
        I.event('hidden', n, st, what='numpy.' + name)
        return I.opaque(n)
    if name in ('finfo', 'iinfo'):
        return np_finfo(I, name, args, kw, n, st)
    if name == 'random.default_rng':
        seeded = bool(args or kw) and not (args and args[0].only('none')) and not ('seed' in kw and kw['seed'].only('none'))
        I.event('mkrng', n, st, seeded=seeded, deps=alldeps(args, kw))
        src = 'unseeded'
        if seeded:
            v = (args + list(kw.values()))[0]
            src = 'unseeded?' if 'none' in v.kinds() else 'seeded'
            for a in v.alts:
                if a.kind == 'eo' and a.ty == 'Generator':
                    return v
        return AV(Eo('Generator', src), alldeps(args, kw))
    if name in ('random.RandomState', 'random.Generator', 'random.PCG64', 'random.SeedSequence', 'random.MT19937'):
        return AV(Eo('Generator', 'seeded' if args or kw else 'unseeded'), alldeps(args, kw))
    if name.startswith('random.'):
        m = name[7:]
        if m == 'get_state':
            return I.opaque(n)
        I.event('globalrng', n, st, name=m)
        if m == 'shuffle':
            r = roots_of(args[0])
            I.event('mutate', n, st, roots=r, weak=False, how='shuffle', target='')
            return NONE
        return rng_draw(I, m, args, kw, n, st, 'global')
    if name in ('compress', 'extract', 'take'):
        return np_pick(I, name, args, kw, n, st)
    if name in GEN:
        return np_generic(I, name, args, kw, n, st)
    if name in ('isreal', 'iscomplex'):
        return mkbool(None, alldeps(args, kw))
    if name.endswith('.at') and name.split('.')[-2] in list(BIN) + ['maximum', 'minimum']:
        r = roots_of(args[0])
        I.event('mutate', n, st, roots=r, weak=False, how='ufunc.at', target='')
        return NONE
    if name.endswith('.reduce') or name.endswith('.accumulate'):
        op = name.split('.')[0]
        if op == 'add':
            return np_reduce(I, 'sum', args, kw, n, st) if name.endswith('reduce') else np_generic(I, 'cumsum', args, kw, n, st)
        if op == 'maximum':
            return np_reduce(I, 'max', args, kw, n, st)
    if name in ('dtype',):
        return AV(Eo('dtype'))
    if name in ('result_type', 'promote_types', 'common_type'):
        return AV(Eo('dtype'))
    if name in ('savetxt', 'save', 'savez', 'savez_compressed'):
        I.event('fs', n, st, op='write', path=args[0] if args else NONE)
        return NONE
    if name in ('loadtxt', 'load', 'genfromtxt'):
        return I.opaque(n, alldeps(args, kw))
    if name == 'lib.stride_tricks.sliding_window_view' or name == 'lib.stride_tricks.as_strided':
        a = I.num(args[0], st)
        return AV(a.rep(const=NC, nd=None, form=F.fapp('windowed', a.form), parts=None, plen=None, ln=None), alldeps(args, kw))
    if name == 'vectorize':
        return args[0]
    return None


def call_scipy(I, name, args, kw, n, st):
    last = name.split('.')[-1]
    if name.startswith('signal.windows.') or (name.startswith('signal.') and last in ('hann', 'hamming', 'blackman', 'kaiser', 'chebwin', 'flattop', 'boxcar')):
        if last == 'get_window':
            return sp_getwindow(I, name, args, kw, n, st)
        return sp_window(I, name, args, kw, n, st)
    if name == 'signal.get_window':
        return sp_getwindow(I, name, args, kw, n, st)
    if name in ('signal.lfilter', 'signal.filtfilt', 'signal.sosfilt', 'signal.sosfiltfilt', 'signal.hilbert', 'signal.detrend', 'signal.decimate', 'signal.resample', 'signal.medfilt', 'signal.savgol_filter'):
        return sp_linear(I, last, args, kw, n, st)
    if name in ('signal.butter', 'signal.cheby1', 'signal.cheby2', 'signal.ellip', 'signal.bessel'):
        out = kw.get('output')
        if out is not None and out.const() == 'sos':
            return I.opaque(n, alldeps(args, kw))
        return sp_tuple(2)(I, last, args, kw, n, st)
    if name in ('signal.freqz', 'signal.dfreqresp', 'signal.welch', 'signal.periodogram', 'signal.find_peaks'):
        return sp_tuple(2)(I, last, args, kw, n, st)
    if name == 'signal.firwin':
        return sp_getwindow(I, name, args, kw, n, st)
    if name in ('signal.convolve', 'signal.fftconvolve'):
        return np_convolve(I, last, args, kw, n, st)
    if name in ('linalg.lstsq',):
        return np_lstsq(I, last, args, kw, n, st)
    if name in ('linalg.solve',):
        return np_solve(I, last, args, kw, n, st)
    if name in ('fft.fft', 'fft.ifft', 'fft.rfft', 'fft.irfft'):
        return np_fft(I, name, args, kw, n, st)
    if name == 'interpolate.CubicSpline':
        deps = alldeps(args, kw)
        y = I.num(args[1], st)
        return AV(Eo('spline', (tuple(sorted(map(str, y.law))),), E), deps, ('spline', y.law, y.sh))
    if name.startswith('special.') and last in ('erf', 'erfc', 'i0'):
        return np_unary(I, last, args, kw, n, st)
    return None
