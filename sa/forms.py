"""Hash-consed algebraic normal forms (value numbers).

A form is a sum of monomials  sum_i  c_i * prod_j atom_j ** e_ij  with float
coefficients and exponents.  Atoms are opaque value numbers: parameters,
function applications on other forms, phi nodes created at control-flow
merges, or call sites of functions without a model.  log10/10** are
normalised so that db<->linear conversions cancel.

Two expressions with the same form have the same value wherever both are
defined (real, positive operands for fractional powers and logarithms).
"""
import cmath
import math
import random

MAXT = 10


def _r(x):
    """Round a coefficient to 11 significant digits so that interning works."""
    if x == 0:
        return 0.0
    if isinstance(x, complex):
        return x
    if math.isinf(x) or math.isnan(x):
        return x
    return float('%.11g' % x)


class Form:
    __slots__ = ('t', 'id')

    def __repr__(self):
        return show(self)


_forms = {}
_formlist = []
_atoms = {}
_atomlist = []


def reset():
    _forms.clear()
    del _formlist[:]
    _atoms.clear()
    del _atomlist[:]
    _scalar.clear()
    _evals.clear()


def _mk(d):
    items = []
    for m, c in d.items():
        c = _r(c)
        if c == 0:
            continue
        if isinstance(c, float) and (math.isinf(c) or math.isnan(c)):
            return fatom(('const', str(c)))
        items.append((m, c))
    t = tuple(sorted(items, key=lambda x: (x[0], str(x[1]))))
    f = _forms.get(t)
    if f is None:
        f = Form()
        f.t = t
        f.id = len(_formlist)
        _forms[t] = f
        _formlist.append(f)
    return f


def atom_id(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atomlist)
        _atoms[key] = i
        _atomlist.append(key)
    return i


def atom_key(i):
    return _atomlist[i]


def form_by_id(i):
    return _formlist[i]


def fconst(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, complex):
        return fatom(('cconst', repr(c)))
    try:
        c = float(c)
    except OverflowError:
        return fatom(('const', 'big'))
    if math.isinf(c) or math.isnan(c):
        return fatom(('const', str(c)))
    return _mk({(): c})


ZERO = _mk({})


def fatom(key):
    return _mk({((atom_id(key), 1.0),): 1.0})


def is_const(f):
    return f is not None and (f.t == () or (len(f.t) == 1 and f.t[0][0] == ()))


def const_of(f):
    if f.t == ():
        return 0.0
    return f.t[0][1]


def fadd(a, b, sb=1.0):
    if a is None or b is None:
        return None
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0.0) + sb * c
        # cancellation noise
        if abs(d[m]) < 1e-13 * max(1e-300, abs(c)):
            d[m] = 0.0
    if len(d) > MAXT * 3:
        return fatom(('add', a.id, b.id, sb))
    return _mk(d)


def fsub(a, b):
    return fadd(a, b, -1.0)


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = _r(d.get(a, 0.0) + e)
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))


def fmul(a, b):
    if a is None or b is None:
        return None
    if len(a.t) * len(b.t) > MAXT:
        a2 = _as_atom(a) if len(a.t) > 1 else a
        b2 = _as_atom(b) if len(b.t) > 1 else b
        a, b = a2, b2
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0.0) + c1 * c2
    return _mk(d)


def _as_atom(f):
    """A multi-term form as coefficient * atom(sum), leading coef normalised."""
    if len(f.t) <= 1:
        return f
    lead = f.t[0][1]
    norm = _mk({m: c / lead for m, c in f.t})
    return _mk({((atom_id(('sum', norm.id)), 1.0),): lead})


def fscale(a, c):
    if a is None:
        return None
    return _mk({m: k * c for m, k in a.t})


def fpow(a, k):
    """a ** k for a python number k."""
    if a is None:
        return None
    if k == 0:
        return fconst(1)
    if k == 1:
        return a
    if a.t == ():
        return fconst(0.0) if k > 0 else fatom(('const', 'inf'))
    if len(a.t) > 1:
        if k == 2 and len(a.t) <= 3:
            return fmul(a, a)
        a = _as_atom(a)
    m, c = a.t[0]
    if c < 0 and k != int(k):
        return fatom(('pow', a.id, _r(k)))
    try:
        nc = c ** k
    except (OverflowError, ZeroDivisionError):
        return fatom(('pow', a.id, _r(k)))
    nm = []
    for at, e in m:
        ne = _r(e * k)
        if k != int(k) and e == int(e) and int(e) % 2 == 0 and ne == int(ne) and int(ne) % 2 == 1 \
                and _atomlist[at][0] != 'abs':
            at = atom_id(('abs', _mk({((at, 1.0),): 1.0}).id))
        nm.append((at, ne))
    d = {}
    for at, e in nm:
        d[at] = _r(d.get(at, 0.0) + e)
    return _mk({tuple(sorted((x, y) for x, y in d.items() if y != 0)): nc})


def fdiv(a, b):
    if a is None or b is None:
        return None
    if b.t == ():
        return fatom(('div0', a.id))
    return fmul(a, fpow(b, -1))


def flog10(a):
    if a is None:
        return None
    if a.t == ():
        return fatom(('const', '-inf'))
    if len(a.t) > 1:
        a = _as_atom(a)
    m, c = a.t[0]
    if c <= 0:
        return fatom(('log10', a.id))
    out = fconst(math.log10(c))
    for at, e in m:
        key = _atomlist[at]
        if key[0] == 'exp10':
            out = fadd(out, fscale(_formlist[key[1]], e))
        else:
            base = _mk({((at, 1.0),): 1.0})
            out = fadd(out, fscale(fatom(('log10', base.id)), e))
    return out


def fexp10(a):
    if a is None:
        return None
    out = fconst(1)
    for m, c in a.t:
        if m == ():
            try:
                out = fmul(out, fconst(10.0 ** c))
            except OverflowError:
                return fatom(('exp10', a.id))
            continue
        if len(m) == 1 and m[0][1] == 1.0 and _atomlist[m[0][0]][0] == 'log10':
            out = fmul(out, fpow(_formlist[_atomlist[m[0][0]][1]], c))
            continue
        unit = _mk({m: 1.0})
        out = fmul(out, _mk({((atom_id(('exp10', unit.id)), _r(c)),): 1.0}))
    return out


def fpowf(a, b):
    """a ** b for forms."""
    if a is None or b is None:
        return None
    if is_const(b):
        return fpow(a, const_of(b))
    if is_const(a) and const_of(a) > 0:
        return fexp10(fscale(b, math.log10(const_of(a))))
    return fatom(('powf', a.id, b.id))


ROUND = {'round', 'floor', 'ceil', 'trunc', 'toint', 'rint', 'fix'}
INTF = ROUND | {'len', 'rargmax', 'rargmin', 'rank', 'iota'}


def is_int(f):
    """the value is integral"""
    for m, c in f.t:
        if isinstance(c, complex) or c != int(c):
            return False
        for at, e in m:
            k = _atomlist[at]
            if e < 0 or e != int(e):
                return False
            if not (k[0] == 'arg' and len(k) == 3 and 'i' in k[2] or k[0] == 'f' and (k[1] in INTF and len(k) == 3 or k[1] == 'fdiv')):
                return False
    return True


# operations that map a zero array to a zero array, and the position of that array
ZEROPRES = {'lfilter': 2, 'filtfilt': 2, 'cumsum': 0, 'diff': 0, 'fft': 0, 'rfft': 0, 'ifft': 0, 'irfft': 0, 'irfft/n': 0, 'convolve': 0, 'T': 0, 'reshape': 0,
            'reshape1': 0, 'ravel': 0, 'roll': 0, 'flip': 0, 'hilbert': 0, 'rsum': 0, 'rmean': 0, 'conj': 0, 'real': 0, 'imag': 0}


def app_of(f, *names):
    k = single(f)
    return k if k is not None and k[0] == 'f' and k[1] in names else None


def const_index(f):
    return int(const_of(f)) if is_const(f) and const_of(f) == int(const_of(f)) and const_of(f) >= 0 else None


def matrix_dims(f):
    """rows and columns of a record reshaped to two given dimensions"""
    t = app_of(f, 'T')
    k = app_of(_formlist[t[2]] if t is not None and len(t) == 3 else f, 'reshape1')
    if k is None or len(k) != 5:
        return None
    d = [_formlist[k[3]], _formlist[k[4]]]
    if any(is_const(q) and not (isinstance(const_of(q), (int, float)) and const_of(q) > 0) for q in d):
        return None
    return d[::-1] if t is not None else d


def simplify(name, args):
    """algebraic identities of array operations"""
    z = ZEROPRES.get(name)
    if z is not None and z < len(args) and args[z].t == ():
        return args[z]
    if name in ELEM and name not in ('conj', 'arctan2') and all(is_const(a) and not isinstance(const_of(a), complex) for a in args):
        try:
            v = complex(ELEM[name](*[complex(const_of(a)) for a in args]))
            if v.imag == 0 and abs(v) < 1e15:
                return fconst(v.real)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            pass
    if name == 'idx' and len(args) == 2:
        k = app_of(args[0], 'st')
        i = const_index(args[1])
        while k is not None and i is not None and len(k) == 5:
            j = const_index(_formlist[k[3]])
            if j is None:
                break
            if i == j:
                return _formlist[k[4]]
            args = (_formlist[k[2]], args[1])
            k = app_of(args[0], 'st')
            if k is None:
                return fapp('idx', *args)
    if name == 'idx' and len(args) == 2:
        k = app_of(args[0], 'shape')
        i = const_index(args[1])
        r = k is not None and i is not None and matrix_dims(_formlist[k[2]])
        if r and i < 2:
            return r[i]
    if name == 'len' and len(args) == 1:
        # a row picked out of a reshaped record
        k = app_of(args[0], 'idx')
        if k is not None and len(k) == 4 and (const_index(_formlist[k[3]]) is not None or app_of(_formlist[k[3]], 'elem') is not None):
            r = matrix_dims(_formlist[k[2]])
            if r:
                return r[1]
        r = matrix_dims(args[0])
        if r:
            return r[0]
    if name == 'st' and len(args) == 3:
        k = app_of(args[0], 'st')
        i = const_index(args[1])
        if k is not None and i is not None and len(k) == 5 and const_index(_formlist[k[3]]) == i:
            return fapp('st', _formlist[k[2]], args[1], args[2])
    if name in ('reshape', 'ravel', 'flatten'):
        k = app_of(args[0], 'reshape1', 'reshape')
        if k is not None:
            a = _formlist[k[2]]
            if name != 'reshape':
                return a if k[1] == 'reshape1' else fapp(name, a)
            if len(args) == 2 and is_const(args[1]) and const_of(args[1]) == -1 and k[1] == 'reshape1':
                return a
            return fapp(k[1], a, *args[1:])
    if name == 'idx' and len(args) == 2 and const_index(args[1]) is not None:
        io = [at for m, _ in args[0].t for at, _e in m if _atomlist[at][:2] == ('f', 'iota')]
        if io and len(args[0].t) > 0 and all(at in io or scalar_atom(at) for m, _ in args[0].t for at, _e in m):
            return subst(args[0], lambda x: args[1] if x in io else None)
    if name == 'matmul' and len(args) == 2:
        k = app_of(args[0], 'column_stack')
        if k is not None and 2 < len(k) <= 8 and all(isinstance(i, int) for i in k[2:]):
            f = ZERO
            for j, i in enumerate(k[2:]):
                f = f and fadd(f, fmul(_formlist[i], fapp('idx', args[1], fconst(j))))
            if f is not None:
                return f
    if name == 'irfft/n' and len(args) == 2:
        k = app_of(args[0], 'rfft')
        if k is not None and len(k) == 3 and args[1] is fapp('len', _formlist[k[2]]):
            return _formlist[k[2]]
    return None


def fapp(name, *args):
    if any(a is None for a in args):
        return None
    if name in ROUND and len(args) == 1 and is_int(args[0]):
        return args[0]
    q = simplify(name, args)
    if q is not None:
        return q
    return fatom(('f', name) + tuple(a.id for a in args))


def fabs(a):
    if a is None:
        return None
    if is_const(a):
        return fconst(abs(const_of(a)))
    if len(a.t) == 1:
        m, c = a.t[0]
        # |c*prod| = |c| * prod|atom|
        nm = {}
        for at, e in m:
            k = _atomlist[at]
            if k[0] in ('abs', 'exp10') or (e == int(e) and int(e) % 2 == 0) or (k[0] == 'f' and k[1] in NONNEG):
                pass
            else:
                at = atom_id(('abs', _mk({((at, 1.0),): 1.0}).id))
            nm[at] = _r(nm.get(at, 0.0) + e)
        return _mk({tuple(sorted((x, y) for x, y in nm.items() if y != 0)): abs(c)})
    s = _as_atom(a)
    m, c = s.t[0]
    return _mk({((atom_id(('abs', _mk({m: 1.0}).id)), 1.0),): abs(c)})


NONNEG = {'len', 'norm', 'std', 'var', 'ptp'}


def atoms_in(f, deep=True, _seen=None):
    """Set of atom ids occurring in f (transitively through applications)."""
    seen = _seen if _seen is not None else {}
    out = set()
    stack = [f]
    done = set()
    while stack:
        g = stack.pop()
        if g is None or g.id in done:
            continue
        done.add(g.id)
        for m, _ in g.t:
            for at, _e in m:
                if at in out:
                    continue
                out.add(at)
                if deep:
                    for sub in sub_forms(at):
                        stack.append(sub)
    return out


def sub_forms(at):
    k = _atomlist[at]
    t = k[0]
    if t in ('sum', 'abs', 'log10', 'exp10', 'div0'):
        return [_formlist[k[1]]]
    if t == 'pow':
        return [_formlist[k[1]]]
    if t in ('powf',):
        return [_formlist[k[1]], _formlist[k[2]]]
    if t == 'add':
        return [_formlist[k[1]], _formlist[k[2]]]
    if t == 'f':
        return [_formlist[i] for i in k[2:] if isinstance(i, int)]
    if t == 'phi':
        return [_formlist[i] for i in k[2:] if isinstance(i, int)]
    return []


def subst(f, amap, _memo=None):
    """Replace atoms (by key function) in a form; amap: atom id -> Form or None."""
    memo = _memo if _memo is not None else {}

    def sf(g):
        if g.id in memo:
            return memo[g.id]
        memo[g.id] = g
        out = fconst(0)
        for m, c in g.t:
            term = fconst(c)
            for at, e in m:
                term = fmul(term, fpow(sa(at), e))
            out = fadd(out, term)
        memo[g.id] = out
        return out

    amemo = {}

    def sa(at):
        if at in amemo:
            return amemo[at]
        r = amap(at)
        if r is None:
            k = _atomlist[at]
            t = k[0]
            base = _mk({((at, 1.0),): 1.0})
            if t == 'sum':
                r = sf(_formlist[k[1]])
            elif t == 'abs':
                r = fabs(sf(_formlist[k[1]]))
            elif t == 'log10':
                r = flog10(sf(_formlist[k[1]]))
            elif t == 'exp10':
                r = fexp10(sf(_formlist[k[1]]))
            elif t == 'pow':
                r = fpow(sf(_formlist[k[1]]), k[2])
            elif t == 'powf':
                r = fpowf(sf(_formlist[k[1]]), sf(_formlist[k[2]]))
            elif t == 'add':
                r = fadd(sf(_formlist[k[1]]), sf(_formlist[k[2]]), k[3])
            elif t == 'f':
                args = [sf(_formlist[i]) if isinstance(i, int) else i for i in k[2:]]
                r = fapp(k[1], *args) if all(isinstance(a, Form) for a in args) else \
                    fatom(('f', k[1]) + tuple(a.id if isinstance(a, Form) else a for a in args))
            elif t == 'phi':
                args = [sf(_formlist[i]) if isinstance(i, int) else i for i in k[2:]]
                r = fphi(k[1], args)
            else:
                r = base
        amemo[at] = r
        return r

    return sf(f)


def fphi(mid, forms):
    """Value that is forms[i] depending on which way merge `mid` was entered."""
    if any(x is None for x in forms):
        return fatom(('phiu', mid) + tuple(x.id if x is not None else None for x in forms))
    if all(x is forms[0] for x in forms):
        return forms[0]
    if len(forms) == 2 and mid[0] == 'pos':
        # a store into [lo:hi] that is skipped when the range is empty
        k = single(forms[0])
        if k is not None and k[:2] == ('f', 'st') and k[2] == forms[1].id:
            q = single(_formlist[k[3]])
            if q is not None and q[:2] == ('f', 'slice') and len(q) == 5 and mid[1] == fsub(_formlist[q[3]], _formlist[q[2]]).id:
                return forms[0]
    return fatom(('phi', mid) + tuple(x.id for x in forms))


def single(f):
    """key of the atom a form consists of, if it is a single atom"""
    if len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1 and f.t[0][0][0][1] == 1:
        return _atomlist[f.t[0][0][0][0]]
    return None


def phi_ids(f):
    out = set()
    for at in atoms_in(f):
        k = _atomlist[at]
        if k[0] == 'phi':
            out.add((k[1], len(k) - 2))
    return out


def select(f, choice):
    """Resolve phi atoms with merge id -> branch index in `choice`."""
    def amap(at):
        k = _atomlist[at]
        if k[0] == 'phi' and k[1] in choice and choice[k[1]] < len(k) - 2:
            return subst(_formlist[k[2 + choice[k[1]]]], amap)
        return None
    return subst(f, amap)


def equal(a, b, depth=5):
    """True / False / None(unknown): equality of two forms, resolving phis consistently."""
    if a is None or b is None:
        return None
    if a is b or close(a, b):
        return True
    ids = sorted(phi_ids(a) | phi_ids(b), key=str)
    if ids and depth > 0:
        mid, n = ids[0]
        res = []
        for i in range(n):
            ch = {mid: i}
            r = equal(select(a, ch), select(b, ch), depth - 1)
            if r is False:
                return False
            res.append(r)
        return True if all(r is True for r in res) else None
    if has_opaque(a) or has_opaque(b):
        return None
    return False


def differ(a, b, generic=False, depth=6):
    """the forms certainly differ (on some path): distinct uninterpreted applications may denote the same number,
    so a difference of several terms only counts when at most one such application is involved;
    generic: opaque symbols are ordinary varying quantities"""
    if a is None or b is None:
        return False
    d = fsub(a, b)
    ids = sorted(phi_ids(d), key=str)
    if ids:
        mid, n = ids[0]
        return any(differ(select(d, {mid: i}), ZERO, generic, depth) for i in range(n))
    if close(d, ZERO) or d.t == ():
        return False
    ks = [_atomlist[at] for at in atoms_in(d)]
    if any(k[0] == 'const' for k in ks):
        return False
    if not generic and any(k[0] in OPAQUE and k[:2] != ('op', 'nz') for k in ks):
        return False
    if vanishes(d):
        return False
    if len(d.t) <= 1:
        return True
    tops = top_atoms(d)
    apps = {at for at in tops if uninterpreted(at)}
    if tops - apps and any(has_opaque(_mk({((at, 1.0),): 1.0})) for at in apps):
        return False        # the unknown may be a function of the other quantities
    if len(apps) > 1:
        ap = sorted(apps)
        return generic and len(ap) <= 4 and all(apart(p, q, depth) for n, p in enumerate(ap) for q in ap[n + 1:])
    if apps:
        (at,) = apps
        inner = {x for x in atoms_in(_mk({((at, 1),): 1.0})) if _atomlist[x][0] == 'arg'}
        if inner & {x for x in top_atoms(d) if x != at}:
            return False
    return True


ELEM = {'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan, 'exp': cmath.exp, 'log': cmath.log, 'sqrt': cmath.sqrt, 'sinh': cmath.sinh, 'cosh': cmath.cosh,
        'tanh': cmath.tanh, 'maximum': lambda *v: max(v, key=lambda z: z.real), 'minimum': lambda *v: min(v, key=lambda z: z.real),
        'floor': lambda z: math.floor(z.real), 'ceil': lambda z: math.ceil(z.real), 'round': lambda z: round(z.real), 'rint': lambda z: round(z.real),
        'toint': lambda z: int(z.real), 'mod': lambda x, y: x.real % y.real, 'fdiv': lambda x, y: x.real // y.real, 'sign': lambda z: (z.real > 0) - (z.real < 0),
        'conj': lambda z: z.conjugate(), 'arctan2': lambda y, x: math.atan2(y.real, x.real), 'clip': lambda v, lo, hi: min(max(v.real, lo.real), hi.real)}


def uninterpreted(at):
    k = _atomlist[at]
    if k[0] in ('arg', 'rnd'):
        return False
    if k[0] == 'f' and k[1] in ELEM:
        return False
    return k[0] not in ('log10', 'exp10', 'abs', 'sum', 'pow', 'powf', 'cconst')


class _Eval:
    """value of a form under a random assignment of its independent symbols (identity testing of normal forms: library
    operations stay uninterpreted, equal operands give equal results)"""

    def __init__(self, seed, linear=False):
        self.seed, self.memo, self.linear = seed, {}, linear
        self.mode = ('', '', '', 'wide', 'tiny', 'signed', 'small', 'wide', 'signed', 'small', 'wide', 'tiny')[seed % 12]

    def draw(self, *key):
        r = random.Random(repr((self.seed,) + key))
        v = 0.3 + r.random() * 1.7
        if self.mode == 'wide':
            v *= r.choice((1, 1, 7, 40))
        elif self.mode == 'tiny' and key[0] in ('rsum', 'rmax'):
            v *= 1e-19
        elif self.mode == 'signed' and r.random() < 0.5 and not (isinstance(key[0], str) and key[0] in POSF):
            v = -v
        return v

    def whole(self, *key):
        r = random.Random(repr((self.seed,) + key))
        if key[0] in ('len', 'shape'):
            return r.randint(5, 12) if self.mode == 'small' else r.randint(60, 400)
        return r.randint(1, r.choice((3, 12)) if self.mode == 'small' else r.choice((4, 12, 50)))

    def power(self, z, e):
        if e == int(e):
            return z ** int(e)
        if self.mode == 'signed' and z.real < 0:
            raise ValueError('outside the domain of the normal form')
        return z ** e

    def form(self, f):
        t = 0j
        for mono, c in f.t:
            v = complex(c)
            for at, e in mono:
                v *= self.power(self.atom(at), e)
            t += v
        return t

    def atom(self, at):
        if at in self.memo:
            return self.memo[at]
        k = _atomlist[at]
        t = k[0]
        if t == 'sum':
            v = self.form(_formlist[k[1]])
        elif t == 'log10':
            v = self.form(_formlist[k[1]])
            if self.mode == 'signed' and v.real <= 0:
                raise ValueError('outside the domain of the normal form')
            v = cmath.log10(v)
        elif t == 'exp10':
            v = 10 ** self.form(_formlist[k[1]])
        elif t == 'abs':
            v = abs(self.form(_formlist[k[1]]))
        elif t == 'pow':
            v = self.power(self.form(_formlist[k[1]]), k[2])
        elif t == 'powf':
            v = self.form(_formlist[k[1]]) ** self.form(_formlist[k[2]])
        elif t == 'add':
            v = self.form(_formlist[k[1]]) + k[3] * self.form(_formlist[k[2]])
        elif t == 'cconst':
            v = complex(k[1])
        elif t == 'f':
            a = [self.form(_formlist[i]) if isinstance(i, int) else i for i in k[2:]]
            if k[1] in ELEM and all(not isinstance(x, str) for x in a):
                v = ELEM[k[1]](*a)
            elif self.linear and k[1] in LINEAR and isinstance(k[2], int) and not (k[1] == 'idx' and app_of(_formlist[k[2]], 'shape') is not None):
                rest = tuple(num_key(x) for x in a[1:])
                v = 0j
                for mono, c in _formlist[k[2]].t:
                    sc = [(x, e) for x, e in mono if scalar_atom(x)]
                    ar = _mk({tuple(y for y in mono if y not in sc): 1.0})
                    v += self.form(_mk({tuple(sc): c})) * self.draw(k[1], num_key(self.form(ar)), *rest)
            else:
                key = (k[1],) + tuple(num_key(x) for x in a)
                if k[1] == 'idx' and app_of(_formlist[k[2]], 'shape') is not None:
                    v = self.whole('shape', *key)
                else:
                    v = self.whole(*key) if k[1] in INTF or k[1] == 'shape' else self.draw(*key)
        elif t == 'arg' and len(k) == 3 and 'i' in k[2]:
            v = random.Random(repr((self.seed, k[1]))).randint(2, 9)
        elif t == 'arg' and len(k) == 3 and 'p' in k[2]:
            v = abs(self.draw(k[1]))
        else:
            v = self.draw(repr(k) if t == 'arg' else at)
        self.memo[at] = complex(v)
        return self.memo[at]


LINEAR = {'idx', 'rsum', 'rmean', 'cumsum', 'diff', 'fft', 'rfft', 'rfft/axis', 'fft/axis', 'ifft', 'irfft', 'irfft/n', 'T', 'reshape', 'reshape1', 'ravel', 'flatten',
          'roll', 'flip', 'column', 'elem'}
SCALARS = {'len', 'rargmax', 'rargmin', 'rsum', 'rmax', 'rmin', 'rmean', 'rmedian', 'rstd', 'rvar', 'norm', 'rptp'}


def num_key(x):
    return x if isinstance(x, str) else '%.8g%+.8gj' % (x.real + 0.0, x.imag + 0.0)


_scalar = {}


def scalar_atom(at):
    k = _atomlist[at]
    q = _scalar.get(k)
    if q is not None:
        return q
    if k[0] == 'arg':
        q = len(k) == 3 and 's' in k[2]
    elif k[0] in ('sum', 'abs', 'log10', 'exp10', 'pow', 'powf', 'add', 'phi'):
        q = all(scalar_atom(x) for f in sub_forms(at) for m, _ in f.t for x, _e in m)
    elif k[0] == 'f':
        if k[1] in SCALARS and len(k) == 3:
            q = True
        elif k[1] == 'idx' and len(k) == 4:
            x = single(_formlist[k[2]])
            q = x is not None and x[:2] == ('f', 'shape')
        elif k[1] in ELEM or k[1] in ROUND:
            q = all(scalar_atom(x) for f in sub_forms(at) for m, _ in f.t for x, _e in m)
    q = bool(q)
    _scalar[k] = q
    return q


POSF = {'rmax', 'rargmax', 'rargmin', 'len', 'shape', 'iota', 'rstd', 'rvar', 'norm', 'rptp', 'slice', 'abs'}
SPLIT = {'maximum', 'minimum', 'clip', 'floor', 'ceil', 'round', 'rint', 'toint', 'trunc', 'mod', 'fdiv', 'sign'}


_evals = {}


def sample(d):
    """True: zero under every random assignment of its symbols; False: clearly not zero under some; None: neither.
    Library operations are arbitrary functions in the first round, linear maps where they are linear in the second."""
    ats = atoms_in(d)
    names = {_atomlist[x][1] if _atomlist[x][0] == 'f' else _atomlist[x][0] for x in ats}
    seeds = range(36) if names & SPLIT else range(12) if 'abs' in names or 'rsum' in names else range(4)
    q = zero_at(d, seeds, False)
    if q is not True and any(_atomlist[x][0] == 'f' and _atomlist[x][1] in LINEAR for x in ats):
        r = zero_at(d, seeds, True)
        return True if r is True else q if r is False else None
    return q


def zero_at(d, seeds, linear, conds=()):
    """conds: comparisons (form, must be positive) that select the assignments"""
    ok = 0
    out = True
    for s in seeds:
        try:
            e = _evals.get((s, linear))
            if e is None:
                e = _evals[s, linear] = _Eval(s, linear)
            if any((e.form(f).real > 0) != want for f, want in conds):
                continue
            v = e.form(d)
            m = max(abs(e.form(_mk({mono: c}))) for mono, c in d.t)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError, IndexError):
            continue
        if m != m or m == math.inf or v != v:
            continue
        ok += 1
        if abs(v) > 1e-6 * m:
            return False
        if abs(v) > 1e-9 * m:
            out = None
        if conds and ok >= 36:
            break
    if conds and not ok:
        return 'never'
    return out if ok >= (4 if conds else 2) else None


def vanishes(d):
    """zero under several random assignments of its symbols: treated as an identity the normal form did not show"""
    return sample(d) is True


def is_param(f):
    """a plain symbol standing for an argument of the analysed entry"""
    return f is not None and len(f.t) == 1 and f.t[0][1] == 1 and len(f.t[0][0]) == 1 and f.t[0][0][0][1] == 1 and _atomlist[f.t[0][0][0][0]][0] == 'arg'


def positive(f):
    """one product of positive quantities"""
    if len(f.t) != 1 or isinstance(f.t[0][1], complex) or f.t[0][1] <= 0:
        return False
    return all(_atomlist[at][0] == 'exp10' or _atomlist[at][0] == 'arg' and len(_atomlist[at]) == 3 and 'p' in _atomlist[at][2] for at, _ in f.t[0][0])


def cond_token(f):
    """canonical (key, polarity) of a condition given by its form; None when the form carries no information"""
    pol = True
    while True:
        if len(f.t) != 1:
            return ('truth', f.id), pol
        (mono, c), = f.t
        if c != 1 or len(mono) != 1 or mono[0][1] != 1:
            return ('truth', f.id), pol
        k = _atomlist[mono[0][0]]
        if k[0] != 'f':
            return ('truth', f.id), pol
        if k[1] == 'not' and isinstance(k[2], int):
            f, pol = _formlist[k[2]], not pol
            continue
        if k[1] in ('Lt', 'LtE', 'Eq', 'NotEq') and all(isinstance(i, int) for i in k[2:]):
            x, y = _formlist[k[2]], _formlist[k[3]]
            if k[1] == 'Lt':
                return ('pos', fsub(y, x).id), pol
            if k[1] == 'LtE':
                return ('pos', fsub(x, y).id), not pol
            d = fsub(x, y)
            if d.t and d.t[0][1].real < 0:
                d = fscale(d, -1.0)
            return ('eq0', d.id), pol if k[1] == 'Eq' else not pol
        return ('truth', f.id), pol


def outer_phis(f):
    """merges of the outermost layer first: those cancel or disappear without looking inside"""
    out, todo, done = [], [f], set()
    while todo:
        nxt = []
        for g in todo:
            if g.id in done:
                continue
            done.add(g.id)
            for mono, _ in g.t:
                for at, _e in mono:
                    k = _atomlist[at]
                    if k[0] == 'phi':
                        if (k[1], len(k) - 2) not in out:
                            out.append((k[1], len(k) - 2))
                    else:
                        nxt += sub_forms(at)
        if out:
            return sorted(out, key=str)
        todo = nxt
    return out


def impose(f, d):
    """f under the assumption d = 0, by solving for an argument; None when that is not possible"""
    for mono, c in d.t:
        if len(mono) == 1 and mono[0][1] == 1 and _atomlist[mono[0][0]][0] == 'arg':
            at = mono[0][0]
            rest = fsub(d, _mk({mono: c}))
            if at in atoms_in(rest):
                continue
            val = fscale(rest, -1.0 / c)
            return subst(f, lambda x: val if x == at else None)
    return None


def near(fn):
    """rounding function that treats values within rounding error of an integer as that integer"""
    def g(z, digits=0):
        if digits:
            return round(z.real, int(digits.real))
        q = round(z.real)
        return q if abs(z.real - q) < 1e-7 * max(1.0, abs(q)) else fn(z.real)
    return g


for _n, _f in (('floor', math.floor), ('ceil', math.ceil), ('round', round), ('rint', round), ('toint', int)):
    ELEM[_n] = near(_f)


FREE = {'rmax', 'rmin', 'rmedian', 'rpercentile', 'rargmax', 'rargmin', 'iota', 'rstd', 'rvar'}
NONAN = SPLIT | {'slice', 'st', 'idx', 'arange', 'iota', 'linspace', 'zeros'}


def strictly(fa, fb):
    """fa and fb denote different numbers for generic inputs.  Operations of the library have identities of their own, so the
    two sides must be built alike and differ in what is interpreted; an operation that occurs on one side only leaves the
    question open, and so does a value the analysis could not name."""
    return alike(fa, fb, {}) == 'diff'


def alike(fa, fb, memo, depth=12):
    if fa is fb:
        return 'eq'
    key = (fa.id, fb.id)
    if key in memo:
        return memo[key]
    memo[key] = None
    memo[key] = r = alike1(fa, fb, memo, depth)
    return r


def alike1(fa, fb, memo, depth):
    d = fsub(fa, fb)
    if d.t == () or close(d, ZERO):
        return 'eq'
    q = sample(d)
    if q is True:
        return 'eq'
    if q is None or depth <= 0:
        return None
    ta, tb = top_atoms(fa), top_atoms(fb)
    A, B = {x for x in ta - tb if uninterpreted(x)}, {x for x in tb - ta if uninterpreted(x)}
    if any(_atomlist[x][0] != 'f' for x in A | B):
        return None
    left = sorted(B)
    one = []
    for p in sorted(A):
        for t in left:
            if pair(p, t, memo, depth - 1):
                left.remove(t)
                break
        else:
            one.append(p)
    if not one and not left:
        return 'diff'
    if one and left:
        for u, v in ((one, left), (left, one)):
            if all(_atomlist[x][1] in ('rmedian', 'rpercentile') for x in u) and not any(_atomlist[y][:1] == ('f',) and _atomlist[y][1] in SORTING for x in v for y in {x} | deep_atoms(x)):
                return 'diff'       # an order statistic against something computed without ordering
        return 'diff' if len(one) == len(left) == 1 and (shorter(one[0], left[0]) or shorter(left[0], one[0])) else None
    side = one or left
    hard = [k for k in (kernel(x) for x in side) if k is not None]
    for i, p in enumerate(hard):
        for t in hard[:i]:
            if p != t and _atomlist[p][1] == _atomlist[t][1] and p not in deep_atoms(t) and t not in deep_atoms(p):
                return None         # two results of the same solver: possibly the same numbers under another layout
    for x in side:
        k = _atomlist[x]
        if k[1] in FREE or k[1] == 'len' and len(side) > 1 or kernel(x) is not None:
            continue
        if k[1] in ('rsum', 'rmean') and uncentred(k):
            continue
        if k[1] == 'reshape' and transposed(k):
            continue
        if k[1] == 'st' and len(k) == 5:
            base = _formlist[k[2]]
            if not any(_atomlist[y][:2] == ('f', 'st') for y in top_atoms(base)) and len(fa.t) == len(fb.t) == 1:
                continue
        return None
    return 'diff'


SORTING = {'rmedian', 'rpercentile', 'sort', 'argsort', 'partition', 'argpartition', 'unique', 'histogram', 'searchsorted', 'bincount'}
KERNEL = {'lstsq', 'polyfit', 'fft', 'rfft', 'rfft/axis', 'fft/axis', 'lfilter', 'random'}


def deep_atoms(at):
    out = set()
    for h in sub_forms(at):
        out |= atoms_in(h)
    return out


def kernel(at):
    """the solver or transform whose result this atom is an element of"""
    k = _atomlist[at]
    while k[0] == 'f' and k[1] in ('idx', 'polyval') and isinstance(k[2], int):
        f = _formlist[k[2]]
        tops = [x for x in top_atoms(f) if uninterpreted(x)]
        for x in tops:
            if _atomlist[x][:1] == ('f',) and _atomlist[x][1] in KERNEL:
                return x
        if len(tops) != 1:
            return None
        at = tops[0]
        k = _atomlist[at]
    return at if k[0] == 'f' and k[1] in KERNEL else None


def uncentred(k):
    """a sum that nothing in its argument forces to zero"""
    f = _formlist[k[2]]
    if any(_atomlist[x][0] != 'f' and _atomlist[x][0] != 'arg' or _atomlist[x][1] in ('lstsq', 'polyfit', 'rfft', 'fft', 'diff') for x in atoms_in(f)):
        return len(f.t) == 1 and len(f.t[0][0]) == 1 and _atomlist[f.t[0][0][0][0]][:2] in (('f', 'rmean'), ('f', 'cumsum'), ('f', 'concatenate'), ('f', 'idx'), ('f', 'abs'))
    return len(f.t) == 1 or not any(_atomlist[at][:2] in (('f', 'rsum'), ('f', 'rmean')) for mono, _ in f.t for at, _e in mono)


def transposed(k):
    """reshape of the transpose of a reshape: a genuine reordering"""
    f = app_of(_formlist[k[2]], 'T')
    g = f and app_of(_formlist[f[2]], 'reshape', 'reshape1')
    return bool(g) and not any(_atomlist[x][0] == 'f' and _atomlist[x][1] in ('T', 'reshape', 'reshape1') for x in atoms_in(_formlist[g[2]]))


def shorter(p, q):
    """p is a constant proper slice of q"""
    k = _atomlist[p]
    if k[1] != 'idx' or len(k) != 4 or _formlist[k[2]] is not fatom(_atomlist[q]):
        return False
    sl = app_of(_formlist[k[3]], 'slice')
    if not sl:
        return False
    for part, trivial in zip(sl[2:], (0, None, 1)):
        c = const_of(_formlist[part]) if is_const(_formlist[part]) else None
        if c is not None and c != trivial:
            return True
    return False


def pair(p, q, memo, depth):
    """applications of the same operation whose operands are equal or built alike"""
    kp, kq = _atomlist[p], _atomlist[q]
    if kp[1] == kq[1] and isinstance(kp[1], str) and kp[1][:7] == 'result:' and kp[2] != kq[2]:
        return True                 # different results of one function
    if kp[1] != kq[1] or len(kp) != len(kq):
        if kp[1] == kq[1] == 'array':
            va, vb = ([const_of(_formlist[x]) if is_const(_formlist[x]) else None for x in k[2:]] for k in (kp, kq))
            while va and va[-1] == 0:
                va.pop()
            while vb and vb[-1] == 0:
                vb.pop()
            return None not in va and None not in vb and va != vb
        return isinstance(kp[1], str) and isinstance(kq[1], str) and kp[1][:4] == kq[1][:4] == 'win.' and kp[2:] == kq[2:]
    if kp[1] == 'concatenate' and kp != kq and sorted(kp[2:], key=str) == sorted(kq[2:], key=str):
        return True
    for x, y in zip(kp[2:], kq[2:]):
        if x == y:
            continue
        if isinstance(x, int) != isinstance(y, int):
            return False
        if isinstance(x, int) and kp[1][:7] == 'result:' and (lost(x, y) or lost(y, x)):
            continue
        if isinstance(x, int) and alike(_formlist[x], _formlist[y], memo, depth) is None:
            return False
    return True


def lost(x, y):
    """no value against a free parameter of the caller"""
    k, m = single(_formlist[x]), single(_formlist[y])
    return k is not None and k[0] == 'karg' and m is not None and m[0] == 'arg' and len(m) == 3 and 's' in m[2]


def shaky(d, toks):
    """the outcome of a comparison decides how a non-smooth operation inside the difference behaves"""
    for t in toks:
        g = top_atoms(_formlist[t[1]])
        for x in atoms_in(d):
            k = _atomlist[x]
            if k[0] == 'f' and k[1] in NONAN and any(g & top_atoms(h) for h in sub_forms(x)):
                return True
    return False


def relation(a, b, budget=300):
    """a = b as quantities of the program: True / False / None.  Paths that give nan or inf are skipped.  False needs one
    branch outcome under which every combination of the other outcomes gives a definite difference."""
    if a is None or b is None:
        return None
    if a is b or close(a, b):
        return True
    res, left = [], [budget]

    def go(fa, fb, ch):
        f = fsub(fa, fb)
        left[0] -= 1
        if left[0] < 0:
            res.append((ch, None))
            return
        if f.t == () or close(f, ZERO):
            res.append((ch, True))
            return
        if any(_atomlist[at][0] == 'const' for mono, _ in f.t for at, _e in mono):
            return
        ids = outer_phis(f)
        if not ids:
            if any(_atomlist[x][0] == 'const' for x in atoms_in(f)):
                return
            q = sample(f)
            if q is False and any(t[0] == 'pos' for t in ch):
                q = zero_at(f, range(144), False, [(_formlist[t[1]], v == 0) for t, v in ch.items() if t[0] == 'pos'])
            if q is False:
                if ('weak',) in ch or not strictly(fa, fb):
                    q = None
                elif all(t[0] == 'pos' for t in ch) and not any(uninterpreted(x) for g in [f] + [_formlist[t[1]] for t in ch] for x in atoms_in(g)):
                    q = 'example'       # every symbol is interpreted: the assignment found is a counterexample
                elif shaky(f, [t for t in ch if t[0] == 'pos']):
                    q = 'shaky'
                # else a definite difference
            res.append((ch, q))
            return
        mid, n = ids[0]
        for i in (reversed(range(n)) if mid[0] == 'eq0' else range(n)):     # the generic outcome first
            c = dict(ch)
            c[mid] = i
            ga, gb = select(fa, {mid: i}), select(fb, {mid: i})
            if mid[0] == 'eq0' and i == 0:
                h = impose(fsub(ga, gb), _formlist[mid[1]])
                if h is None:
                    c[('weak',)] = 1
                else:
                    ga, gb = impose(ga, _formlist[mid[1]]), impose(gb, _formlist[mid[1]])
            go(ga, gb, c)
    go(a, b, {})
    if not res:
        return None
    if any(r == 'example' for _, r in res):
        return False
    if all(r is True or r == 'never' for _, r in res) and any(r is True for _, r in res):
        return True
    for t, v in [(None, None)] + sorted({(t, v) for c, _ in res for t, v in c.items()}, key=str):
        if t == ('weak',):
            continue
        rs = [(c, r) for c, r in res if (t is None or c.get(t, v) == v) and r not in ('shaky', 'never')]
        if rs and all(r is False for c, r in rs):
            return False
        rs = [r for c, r in rs if not any(x[0] == 'eq0' and y == 0 for x, y in c.items())]      # no quantity happens to be exactly zero
        if rs and all(r is False for r in rs):
            return False
    return None


INJ = {'rsum', 'rmean', 'rmedian', 'idx', 'slice', 'st', 'fft', 'rfft', 'cumsum', 'tuple', 'array', 'len', 'iota', 'fdiv', 'key', 'polyval', 'rmax', 'rmin'}


def apart(p, q, depth=6):
    """two applications that denote different values for generic inputs: same operation, arguments equal or apart"""
    kp, kq = _atomlist[p], _atomlist[q]
    if kp[0] != 'f' or kq[0] != 'f' or depth <= 0:
        return False
    if kp[1] != kq[1]:
        if kp[1] == kq[1] == 'array':
            va, vb = ([const_of(_formlist[x]) if is_const(_formlist[x]) else None for x in k[2:]] for k in (kp, kq))
            while va and va[-1] == 0:
                va.pop()
            while vb and vb[-1] == 0:
                vb.pop()
            return None not in va and None not in vb and va != vb
        return isinstance(kp[1], str) and isinstance(kq[1], str) and kp[1][:4] == kq[1][:4] == 'win.' and kp[2:] == kq[2:]
    if kp[1] == 'concatenate' and kp != kq and sorted(kp[2:], key=str) == sorted(kq[2:], key=str):
        return True
    if len(kp) != len(kq) or not (kp[1] in INJ or isinstance(kp[1], str) and kp[1][:4] == 'win.'):
        return False
    some = False
    for x, y in zip(kp[2:], kq[2:]):
        if x == y:
            continue
        if not isinstance(x, int) or not isinstance(y, int):
            return False
        if not differ(_formlist[x], _formlist[y], True, depth - 1):
            return False
        some = True
    return some


def top_atoms(f, out=None, done=None):
    """independent quantities the form is made of, looking through the interpreted operations"""
    out = set() if out is None else out
    done = set() if done is None else done
    if f.id in done:
        return out
    done.add(f.id)
    for mono, _ in f.t:
        for at, _e in mono:
            k = _atomlist[at]
            if uninterpreted(at) or k[0] in ('arg', 'rnd', 'cconst') or at in out:
                out.add(at)
            else:
                for g in sub_forms(at):
                    top_atoms(g, out, done)
    return out


def close(a, b, tol=1e-6):
    if len(a.t) != len(b.t):
        d = fsub(a, b)
        mx = max([abs(c) for _, c in a.t] + [abs(c) for _, c in b.t] + [1e-300])
        return all(abs(c) <= tol * mx for _, c in d.t)
    for (m1, c1), (m2, c2) in zip(a.t, b.t):
        if m1 != m2:
            if len(m1) != len(m2) or any(x[0] != y[0] or abs(x[1] - y[1]) > tol for x, y in zip(m1, m2)):
                return False
        if abs(c1 - c2) > tol * max(abs(c1), abs(c2)):
            return False
    return True


OPAQUE = {'op', 'phiu', 'loop', 'add'}


def has_opaque(f):
    for at in atoms_in(f):
        if _atomlist[at][0] in OPAQUE:
            return True
    return False


def show_atom(at, depth=3):
    k = _atomlist[at]
    t = k[0]
    if depth <= 0:
        return '…'
    if t == 'arg':
        return str(k[1])
    if t in ('log10', 'exp10', 'abs', 'sum'):
        return '%s(%s)' % ({'exp10': '10^', 'sum': ''}.get(t, t), show(_formlist[k[1]], depth - 1))
    if t == 'f':
        return '%s(%s)' % (k[1], ','.join(show(_formlist[i], depth - 1) if isinstance(i, int) else str(i) for i in k[2:]))
    if t == 'phi':
        return 'φ(%s)' % '|'.join(show(_formlist[i], depth - 1) for i in k[2:])
    if t == 'op':
        return '?' + str(k[1])
    return t + str(k[1:2])


def show(f, depth=4):
    if f is None:
        return '?'
    if not f.t:
        return '0'
    out = []
    for m, c in f.t[:6]:
        s = '·'.join(show_atom(a, depth) + ('' if e == 1 else '^%g' % e) for a, e in m)
        if not m:
            s = '%g' % c if not isinstance(c, complex) else str(c)
        elif c != 1:
            s = '%s·%s' % ('%g' % c, s)
        out.append(s)
    return ' + '.join(out) + (' + …' if len(f.t) > 6 else '')
