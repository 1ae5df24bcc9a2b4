"""Transfer functions of the numeric product domain (constants, intervals,
scaling laws, translation laws, forms)."""
import math
import operator
from . import forms as F
from .values import *
from .values import _comb

GUARD = 3.2e-8          # amplitude-equivalent size of an accepted numerical guard (-150 dB)


def guard_ok(c, degs):
    """constant c next to a quantity of degree `degs`: is c an accepted numerical floor?"""
    if c is NC or isinstance(c, (bool, complex, str)) or not isinstance(c, (int, float)):
        return False
    if c == 0:
        return True
    k = max([abs(v) for _, v in degs] or [1.0])
    try:
        return abs(c) ** (1.0 / k) <= GUARD
    except OverflowError:
        return False


def bad(site, msg):
    return frozenset([('BAD', site, msg)])


def shv(site, msg):
    return frozenset([('SHV', site, msg)])


def _pairs(la, lb, f):
    """apply f to alternative pairs; f returns alternative or None for a definite clash"""
    out = set()
    clash = False
    for x in la:
        for y in lb:
            r = f(x, y)
            if r is None:
                clash = True
            else:
                out.add(r)
    if clash and not (out - {UNK}):
        if UNK in out:
            return L_U, False
        return L_U, True
    if clash:
        out.add(UNK)
    return norm_law(out), False


def norm_law(out):
    out = set(out)
    if len(out) > 1:
        out.discard(ANY)
    if len(out) > 1 and D0 in out:
        out.discard(KON)
    if not out:
        return L_U
    return lset(out)


def law_add(a, b):
    ca, cb = a.const, b.const

    def f(x, y):
        if x == UNK or y == UNK:
            return UNK
        if x == ANY:
            return y
        if y == ANY:
            return x
        if x[0] == 'l' or y[0] == 'l':
            cx = x[1] if x[0] == 'l' else (() if is0(x) else None)
            cy = y[1] if y[0] == 'l' else (() if is0(y) else None)
            if cx is None or cy is None:
                return None
            c = _comb(cx, cy, 1)
            return ('l', c) if c else D0
        if x == KON and y == KON:
            return KON
        dx = () if x == KON else x[1]
        dy = () if y == KON else y[1]
        if dx == dy:
            return ('d', dx)
        if x == KON and guard_ok(ca, dy):
            return y
        if y == KON and guard_ok(cb, dx):
            return x
        return None
    return _pairs(a.law, b.law, f)


def law_sub(a, b):
    cb = b.const

    def f(x, y):
        if x == UNK or y == UNK:
            return UNK
        if x == ANY:
            if y[0] == 'l':
                return ('l', tuple((s, -c) for s, c in y[1]))
            return y
        if y == ANY:
            return x
        if x[0] == 'l' or y[0] == 'l':
            cx = x[1] if x[0] == 'l' else (() if is0(x) else None)
            cy = y[1] if y[0] == 'l' else (() if is0(y) else None)
            if cx is None or cy is None:
                return None
            c = _comb(cx, cy, -1)
            return ('l', c) if c else D0
        if x == KON and y == KON:
            return KON
        dx = () if x == KON else x[1]
        dy = () if y == KON else y[1]
        if dx == dy:
            return ('d', dx)
        if x == KON and guard_ok(a.const, dy):
            return y
        if y == KON and guard_ok(cb, dx):
            return x
        return None
    return _pairs(a.law, b.law, f)


def law_like(a, b):
    """selection between a and b (max/min/where/clip/concatenate)"""
    ca, cb = a.const, b.const

    def f(x, y):
        if x == UNK or y == UNK:
            return UNK
        if x == ANY:
            return y
        if y == ANY:
            return x
        if x[0] == 'l' or y[0] == 'l':
            if x == y:
                return x
            if x == KON and isinstance(ca, (int, float)) and ca <= -140:
                return y
            if y == KON and isinstance(cb, (int, float)) and cb <= -140:
                return x
            return None
        if x == KON and y == KON:
            return KON
        dx = () if x == KON else x[1]
        dy = () if y == KON else y[1]
        if dx == dy:
            return ('d', dx)
        if x == KON and guard_ok(ca, dy):
            return y
        if y == KON and guard_ok(cb, dx):
            return x
        return None
    return _pairs(a.law, b.law, f)


def law_mul(a, b, s=1):
    """product (s=1) or quotient (s=-1)"""
    def f(x, y):
        if x == UNK or y == UNK:
            return UNK
        if x == ANY:
            return ANY
        if y == ANY:
            return ANY
        if x[0] == 'l' or y[0] == 'l':
            if x[0] == 'l' and y == KON and isinstance(b.const, (int, float)) and b.const != 0:
                k = b.const if s == 1 else 1.0 / b.const
                return ('l', tuple((q, F._r(c * k)) for q, c in x[1]))
            if y[0] == 'l' and s == 1 and x == KON and isinstance(a.const, (int, float)) and a.const != 0:
                return ('l', tuple((q, F._r(c * a.const)) for q, c in y[1]))
            return UNK
        if x == KON and y == KON:
            return KON
        dx = () if x == KON else x[1]
        dy = () if y == KON else y[1]
        return ('d', _comb(dx, dy, s))
    return _pairs(a.law, b.law, f)


def law_pow(a, b):
    def f(x, y):
        if x == UNK or y == UNK:
            return UNK
        if isinstance(b.const, (int, float)) and not isinstance(b.const, bool):
            k = b.const
            if x == ANY:
                return ANY
            if x == KON:
                return KON
            if x[0] == 'd':
                return ('d', tuple((s, F._r(v * k)) for s, v in x[1]) if k else ())
            return UNK if k != 1 else x
        if y[0] == 'l':
            if isinstance(a.const, (int, float)) and a.const > 0:
                lb = math.log10(a.const)
                return ('d', tuple((s, F._r(c * lb)) for s, c in y[1]))
            return UNK
        if is0(y):
            if is0(x):
                return D0
            return None if x[0] == 'd' else UNK
        return None     # exponent carries a dimension
    return _pairs(a.law, b.law, f)


def law_cmp(a, b):
    """comparison: returns True when definitely scale dependent"""
    ca, cb = a.const, b.const
    ok = False
    clash = False
    for x in a.law:
        for y in b.law:
            if x == UNK or y == UNK or x == ANY or y == ANY:
                ok = True
                continue
            if x[0] == 'l' or y[0] == 'l':
                cx = x[1] if x[0] == 'l' else ()
                cy = y[1] if y[0] == 'l' else ()
                if cx == cy and (x[0] == y[0] or not cx):
                    ok = True
                elif (x == KON and isinstance(ca, (int, float)) and ca <= -140) or \
                        (y == KON and isinstance(cb, (int, float)) and cb <= -140):
                    ok = True
                else:
                    clash = True
                continue
            dx = () if x == KON else x[1]
            dy = () if y == KON else y[1]
            if dx == dy or (x == KON and guard_ok(ca, dy)) or (y == KON and guard_ok(cb, dx)):
                ok = True
            else:
                clash = True
    return clash and not ok


def law_log(a, mult=1.0):
    """mult * log10(a)"""
    out = set()
    for x in a.law:
        if x == KON:
            out.add(KON)
        elif x == ANY:
            out.add(ANY)
        elif x == UNK:
            out.add(UNK)
        elif x[0] == 'd':
            out.add(('l', tuple((s, F._r(v * mult)) for s, v in x[1])) if x[1] else D0)
        else:
            return L_U, True
    return norm_law(out), False


def law_unit(a):
    """transcendental function of a: needs a dimensionless argument"""
    ok = any(is0(x) or x == UNK for x in a.law)
    badv = any((x[0] in ('d', 'l')) and x[1] for x in a.law)
    if badv and not ok:
        return L_U, True
    if any(x == UNK for x in a.law) or badv:
        return L_U, False
    if all(x in (KON, ANY) for x in a.law):
        return L_K, False
    return L_0, False


def law_scale(a, k):
    """v -> v**k"""
    out = set()
    for x in a.law:
        if x[0] == 'd':
            out.add(('d', tuple((s, F._r(v * k)) for s, v in x[1])))
        elif x[0] == 'l':
            out.add(UNK)
        else:
            out.add(x)
    return norm_law(out)


def nonconst_law(law):
    """a value computed from constants only is still degree 0"""
    return frozenset(D0 if x == KON else x for x in law)


# ---------------------------------------------------------------------------
# translation
# ---------------------------------------------------------------------------
def shz(a):
    """translation coefficient is known zero"""
    return a.sh is SH0 or a.sh is SHANY


def shc(a):
    """coefficient with SHANY read as 0; None when not characterised"""
    if a.sh is SHANY:
        return SH0
    return a.sh


def uniform(f):
    return f is not None and (F.is_const(f) or f is SHANY)


def sh_lin(a, b, sb=1.0):
    x, y = shc(a), shc(b)
    if x is None or y is None:
        return None
    r = F.fadd(x, y, sb)
    if r.t != () and x.t != () and y.t != () and lengths_alike(r):
        return None
    return r


def lengths_alike(r):
    """the coefficient vanishes when extents the analysis cannot compare are equal"""
    ks = {at: F.atom_key(at) for at in F.atoms_in(r, deep=False)}
    ln = {at for at, k in ks.items() if k[0] == 'f' and (k[1] == 'len' or k[1] == 'idx' and F.app_of(F.form_by_id(k[2]), 'shape') is not None)}

    def given(at):
        f = F.form_by_id(ks[at][2])
        k = F.app_of(f, 'shape')
        k = F.single(F.form_by_id(k[2]) if k is not None else f)
        return k is not None and k[0] == 'arg'
    if len(ln) < 2 or all(given(at) for at in ln):
        return False
    one = F.fatom(('op', 'extent'))
    return F.subst(r, lambda at: one if at in ln else None).t == ()


def sh_nonlin(site, what, *nums):
    """result of a nonlinear operation: invariant iff all operands invariant"""
    for n in nums:
        if n.sh is None:
            return None, E
    if all(shz(n) for n in nums):
        return SH0, E
    if any(sh_nonzero(n.sh) for n in nums if not shz(n)):
        return None, shv(site, what)
    return None, E


def sh_nonzero(f):
    """translation coefficient is definitely not zero (on some path)"""
    return f is not None and f is not SHANY and F.differ(f, SH0)


INTSHIFT = [False]      # the translation under analysis is by whole numbers only


def sh_round(site, what, a):
    """rounding to integers commutes with whole-number translations"""
    if INTSHIFT[0] and a.sh is not None and a.sh is not SHANY and F.is_const(a.sh) and F.const_of(a.sh) == int(F.const_of(a.sh)):
        return a.sh, E
    return sh_nonlin(site, what, a)


# ---------------------------------------------------------------------------
# intervals
# ---------------------------------------------------------------------------
def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def iv_add(a, b):
    lo = a[0] + b[0] if not (math.isinf(a[0]) and math.isinf(b[0]) and a[0] != b[0]) else -INF
    hi = a[1] + b[1] if not (math.isinf(a[1]) and math.isinf(b[1]) and a[1] != b[1]) else INF
    return (lo, hi)


def iv_neg(a):
    return (-a[1], -a[0])


def iv_mul(a, b):
    c = [_m(x, y) for x in a for y in b]
    return (min(c), max(c))


def iv_div(a, b):
    if b[0] > 0 or b[1] < 0:
        r = []
        for x in a:
            for y in b:
                if math.isinf(x) and math.isinf(y):
                    return TOPIV if a[0] < 0 else (0.0, INF)
                r.append(0.0 if math.isinf(y) else x / y)
        return (min(r), max(r))
    if b[0] >= 0 and a[0] >= 0:
        return (0.0 if math.isinf(b[1]) else (a[0] / b[1] if b[1] else 0.0), INF)
    return TOPIV


def iv_pow(a, k):
    if k == int(k) and k > 0:
        k = int(k)
        try:
            c = [x ** k if not math.isinf(x) else (INF if (x > 0 or k % 2 == 0) else -INF) for x in a]
        except OverflowError:
            return TOPIV
        if k % 2 == 0:
            lo = 0.0 if a[0] <= 0 <= a[1] else min(c)
            return (lo, max(c))
        return (min(c), max(c))
    if a[0] >= 0 and k > 0:
        try:
            return (a[0] ** k if not math.isinf(a[0]) else INF, a[1] ** k if not math.isinf(a[1]) else INF)
        except OverflowError:
            return (0.0, INF)
    if a[0] >= 0:
        return (0.0, INF)
    return TOPIV


def iv_abs(a):
    if a[0] >= 0:
        return a
    if a[1] <= 0:
        return (-a[1], -a[0])
    return (0.0, max(-a[0], a[1]))


def iv_meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


# ---------------------------------------------------------------------------
# binary operators
# ---------------------------------------------------------------------------
PYOP = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
        'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow,
        'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
        'LShift': operator.lshift, 'RShift': operator.rshift}


def _arr(a, b):
    if a.arr or b.arr:
        return True
    if a.arr is False and b.arr is False:
        return False
    return None


def _nd(a, b):
    if a.nd is not None and b.nd is not None:
        return max(a.nd, b.nd)
    return None


def _ln(a, b):
    if a.arr is False or a.nd == 0:
        return b.ln if b.ln is not None or not b.arr or b.nd == 0 else F.fapp('len', b.form)
    if b.arr is False or b.nd == 0:
        return a.ln if a.ln is not None or not a.arr or a.nd == 0 else F.fapp('len', a.form)
    if a.ln is not None and b.ln is None and b.arr is None:
        return a.ln
    return a.ln if a.ln is not None else b.ln


def nar(site, msg):
    """label: the result differs from that of the same values held as floats"""
    return frozenset([('NAR', site, msg)])


def small(iv):
    """values every integer type holds"""
    return iv[0] >= 0 and iv[1] <= 127


def nar_binop(op, a, b, dt, iv, site):
    """arithmetic carried out in the number type of the caller's record"""
    if op in ('Sub', 'Add') and a.dt == 'B' and b.dt == 'B':
        return nar(site, 'truth values are %s as truth values' % ('subtracted' if op == 'Sub' else 'added'))
    if dt != 'n' or op not in ('Add', 'Sub', 'Mult', 'Pow', 'LShift') or small(iv):
        return E
    for x in (a, b):
        if x.dt != 'n' and (x.const in (0, 1) if op == 'Mult' else x.const == 0 if op in ('Add', 'LShift') or x is b else False):
            return E
    if op == 'Pow' and b.const in (0, 1):
        return E
    if op == 'Sub' and a is b:
        return E
    return nar(site, 'arithmetic is carried out in the integer type of the record and wraps around')


def _dtn(a, b, op):
    x, y = a.dt, b.dt
    if op == 'Div':
        return 'c' if 'c' in (x, y) else 'f' if x and y else None
    if 'c' in (x, y):
        return 'c'
    if 'f' in (x, y):
        return 'f' if x and y else None
    if not (x and y):
        return None
    if x in 'nB' and y in 'nB':
        return 'n' if 'n' in (x, y) else ('B' if op in ('BitAnd', 'BitOr', 'BitXor', 'Mult') else None)
    o, m = (b, a) if x in 'nB' else (a, b)
    if m.dt == 'B':
        return 'i' if o.dt == 'i' else None
    # n with a python number or a truth value keeps its type; an integer array widens it
    if o.dt == 'b' or o.const is not NC or o.prov == 'py':
        return 'n' if op not in ('FloorDiv', 'Mod', 'RShift', 'BitAnd', 'BitOr', 'BitXor') else None
    return 'i' if o.arr else None


def _dt(a, b, op):
    if a.dt in ('n', 'B') or b.dt in ('n', 'B'):
        return _dtn(a, b, op)
    if op == 'Div':
        return 'c' if 'c' in (a.dt, b.dt) else ('f' if (a.dt in 'bif' if a.dt else False) and (b.dt in 'bif' if b.dt else False) else None)
    order = 'bifc'
    if a.dt and b.dt:
        return order[max(order.index(a.dt), order.index(b.dt), 1 if op not in ('BitAnd', 'BitOr', 'BitXor') else 0)]
    if 'c' in (a.dt, b.dt):
        return 'c'
    return None


def binop(op, a, b, site, root):
    """-> (Num, labels)"""
    r, labels = _binop(op, a, b, site, root)
    if a.dt in ('n', 'B') or b.dt in ('n', 'B'):
        lb = nar_binop(op, a, b, r.dt, r.iv, site)
        labels = frozenset(labels) | lb
        if lb and op == 'Sub':
            # zero exactly where the operands agree, wrapped or not
            r = r.rep(prov=('zw', lb))
    return r, labels


def _binop(op, a, b, site, root):
    labels = set()
    const = NC
    if a.const is not NC and b.const is not NC and not a.arr and not b.arr and op in PYOP:
        try:
            if op == 'Pow' and isinstance(b.const, (int, float)) and abs(b.const) > 4096:
                raise OverflowError
            const = PYOP[op](a.const, b.const)
            if isinstance(const, (bool, int, float, complex)):
                n = mknum(const).alts[0]
                return n, E
            const = NC
        except Exception:
            const = NC
    arr, nd, ln = _arr(a, b), _nd(a, b), _ln(a, b)
    kw = dict(arr=arr, nd=nd, ln=ln, dt=_dt(a, b, op), roots=E if arr is False else frozenset([root]))
    if op in ('Add', 'Sub'):
        s = 1.0 if op == 'Add' else -1.0
        law, clash = (law_add if op == 'Add' else law_sub)(a, b)
        if clash:
            labels |= bad(site, 'adds quantities of different scaling degree')
        iv = iv_add(a.iv, b.iv if op == 'Add' else iv_neg(b.iv))
        form = F.fadd(a.form, b.form, s)
        sh = sh_lin(a, b, s)
        dc0 = (a.dc0 and (b.dc0 or shz(b))) or (b.dc0 and shz(a))
        return Num(law=law, iv=iv, form=form, sh=sh, dc0=dc0, **kw), labels
    if op in ('Mult', 'Div'):
        law, clash = law_mul(a, b, 1 if op == 'Mult' else -1)
        iv = iv_mul(a.iv, b.iv) if op == 'Mult' else iv_div(a.iv, b.iv)
        if op == 'Mult' and a is b:
            iv = iv_pow(a.iv, 2)
        form = F.fmul(a.form, b.form) if op == 'Mult' else F.fdiv(a.form, b.form)
        x, y = shc(a), shc(b)
        dc0 = False
        if x is None or y is None:
            sh = None
        elif op == 'Mult':
            if y is SH0:
                sh = SH0 if x is SH0 else F.fmul(x, b.form)
                dc0 = a.dc0
            elif x is SH0:
                sh = F.fmul(y, a.form)
                dc0 = b.dc0
            else:
                sh = None
                labels |= shv(site, 'product of offset-dependent quantities')
        else:
            if y is SH0:
                sh = SH0 if x is SH0 else F.fdiv(x, b.form)
                dc0 = a.dc0
            else:
                sh = None
                labels |= shv(site, 'division by an offset-dependent quantity')
        return Num(law=law, iv=iv, form=form, sh=sh, dc0=dc0, **kw), labels
    if op == 'Pow':
        law, clash = law_pow(a, b)
        if clash:
            labels |= bad(site, 'non-constant power of a scaled quantity')
        if isinstance(b.const, (int, float)) and not isinstance(b.const, bool):
            iv = iv_pow(a.iv, b.const)
        elif isinstance(a.const, (int, float)) and a.const > 0:
            try:
                lo = a.const ** b.iv[0] if not math.isinf(b.iv[0]) else 0.0
                hi = a.const ** b.iv[1] if not math.isinf(b.iv[1]) else INF
                iv = (min(lo, hi), max(lo, hi)) if a.const >= 1 else (0.0, INF)
            except OverflowError:
                iv = (0.0, INF)
        elif a.iv[0] >= 0:
            iv = (0.0, INF)
        else:
            iv = TOPIV
        form = F.fpowf(a.form, b.form)
        sh, lb = sh_nonlin(site, 'power of an offset-dependent quantity', a, b)
        labels |= lb
        dc0 = False
        if a.dc0 and shz(b):
            sh, labels, dc0 = SH0, labels - lb, True
        return Num(law=law, iv=iv, form=form, sh=sh, dc0=dc0, **kw), labels
    if op in ('Mod', 'FloorDiv'):
        if op == 'Mod':
            law, clash = law_like(a, b)
            iv = (0.0, b.iv[1]) if b.iv[0] >= 0 else TOPIV
        else:
            law, clash = law_mul(a, b, -1)
            law2 = {x for x in law}
            if all(x[0] == 'd' and x[1] for x in law2) and law2:
                clash = True
            iv = TOPIV
            if b.iv[0] > 0 and a.iv[0] >= 0:
                d = iv_div(a.iv, b.iv)
                iv = (math.floor(d[0]), math.floor(d[1]) if not math.isinf(d[1]) else INF)
        if clash:
            labels |= bad(site, 'modulo/floor division between quantities of different scaling degree')
        form = F.fapp('mod' if op == 'Mod' else 'fdiv', a.form, b.form)
        sh, lb = sh_nonlin(site, 'modulo/floor division of an offset-dependent quantity', a, b)
        labels |= lb
        return Num(law=law, iv=iv, form=form, sh=sh, **kw), labels
    # bit operations / matmul handled elsewhere
    dt = 'b' if a.dt == 'b' and b.dt == 'b' else kw.pop('dt', None)
    kw['dt'] = dt
    sh, lb = sh_nonlin(site, 'bit operation on an offset-dependent quantity', a, b)
    iv = TOPIV
    const = NC
    if dt == 'b':
        iv = (0.0, 1.0)
        if not (a.arr or b.arr):
            if op == 'BitAnd' and (a.const is False or b.const is False):
                const = False
            if op == 'BitOr' and (a.const is True or b.const is True):
                const = True
    elif op == 'BitAnd' and a.iv[0] >= 0 and b.iv[0] >= 0:
        iv = (0.0, min(a.iv[1], b.iv[1]))
    return Num(const=const, law=L_0 if UNK not in a.law | b.law else L_U, iv=iv,
               form=F.fapp(op, a.form, b.form), sh=sh, **kw), labels | lb


CMP = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge,
       'Eq': operator.eq, 'NotEq': operator.ne}


def compare(op, a, b, site, root):
    """-> (Num bool, labels)"""
    labels = set()
    const = NC
    arr = _arr(a, b)
    if a.const is not NC and b.const is not NC and not a.arr and not b.arr:
        try:
            r = CMP[op](a.const, b.const)
            return mknum(bool(r)).alts[0], E
        except Exception:
            pass
    if law_cmp(a, b):
        labels |= bad(site, 'compares a scaled quantity with a fixed threshold')
    if not (a.sh is None or b.sh is None):
        x, y = shc(a), shc(b)
        d = F.fsub(x, y)
        sh = SH0
        if d is not SH0:
            if sh_nonzero(d):
                labels |= shv(site, 'compares an offset-dependent quantity with a fixed threshold')
            sh = None
    else:
        sh = None
    # interval decision
    r = None
    (al, ah), (bl, bh) = a.iv, b.iv
    if a.dt != 'c' and b.dt != 'c' and not a.anyk and not b.anyk or (a.iv != TOPIV and b.iv != TOPIV):
        if op == 'Lt':
            r = True if ah < bl else (False if al >= bh else None)
        elif op == 'LtE':
            r = True if ah <= bl else (False if al > bh else None)
        elif op == 'Gt':
            r = True if al > bh else (False if ah <= bl else None)
        elif op == 'GtE':
            r = True if al >= bh else (False if ah < bl else None)
        elif op == 'Eq':
            r = False if (ah < bl or al > bh) else (True if al == ah == bl == bh else None)
        elif op == 'NotEq':
            r = True if (ah < bl or al > bh) else (False if al == ah == bl == bh else None)
    form = F.fapp('Lt', b.form, a.form) if op == 'Gt' else F.fapp('LtE', b.form, a.form) if op == 'GtE' else F.fapp(op, a.form, b.form)
    n = Num(const=r if (r is not None and arr is False) else NC,
            iv=(0.0, 1.0) if r is None else (float(r), float(r)), arr=arr, dt='b', nd=_nd(a, b), ln=_ln(a, b),
            roots=E if arr is False else frozenset([root]), law=L_0, sh=sh, form=form)
    return n, labels


def scaled(a):
    """definitely carries a nonzero scaling degree"""
    return bool(a.law) and all(x[0] == 'd' and x[1] for x in a.law)


def generic_cmp(op, a, b):
    """comparison of a scaled quantity with a numerical guard, for quantities that are not degenerate"""
    for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op))):
        if scaled(x) and y.const is not NC and all(guard_ok(y.const, q[1]) for q in x.law):
            if o == 'Eq':
                return False
            if o == 'NotEq':
                return True
            if x.iv[0] >= 0:
                return o in ('Gt', 'GtE')
    return None
