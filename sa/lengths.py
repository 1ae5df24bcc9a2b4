"""Extents of arrays, derived from their value numbers; equality of two extents decided over all array lengths."""
import math
import random
from . import forms as F

SAME = {'cumsum', 'roll', 'flip', 'sort', 'argsort', 'gradient', 'fft', 'ifft', 'real', 'imag', 'angle', 'unwrap', 'conj', 'hilbert', 'lfilter', 'filtfilt', 'sosfilt', 'toint',
        'isfinite', 'isnan', 'isinf', 'sign', 'floor', 'ceil', 'round', 'rint', 'trunc', 'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'tanh', 'arcsin', 'arccos', 'arctan', 'clip',
        'maximum', 'minimum', 'mod', 'arctan2', 'fdiv', 'square', 'Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq', 'BitAnd', 'BitOr', 'Invert', 'lognot', 'cumprod'}
FIXED = {'rmax', 'rmin', 'rptp', 'sort', 'argsort', 'rank', 'unique', 'rpercentile', 'rquantile'}
RED = ('rsum', 'rmean', 'rmax', 'rmin', 'rmedian', 'rstd', 'rvar', 'rptp')


def sub(k, i):
    return F.form_by_id(k[i]) if i < len(k) and isinstance(k[i], int) else None


def is_none(f):
    k = F.single(f) if f is not None else None
    return k == ('none',)


def cut(L, lo, hi, step):
    """length of a slice of an axis of length L"""
    z = F.fconst(0)
    lo = z if lo is None or is_none(lo) else lo
    hi = L if hi is None or is_none(hi) else hi
    if step is not None and not is_none(step):
        if not F.is_const(step):
            return None
        s = F.const_of(step)
    else:
        s = 1

    def place(f):
        if F.is_const(f) and F.const_of(f) < 0:
            return F.fadd(L, f)
        if F.is_const(f) and F.const_of(f) == 0 or f is L:
            return f
        return F.fapp('minimum', f, L)
    if s < 0:
        return L if s == -1 and lo is z and hi is L else None
    if s == 1 and F.is_const(lo) and 0 <= F.const_of(lo) <= 3 and F.is_const(hi) and -3 <= F.const_of(hi) < 0:
        # arrays are long enough to lose a few elements
        return F.fadd(L, F.fsub(hi, lo))
    d = F.fsub(place(hi), place(lo))
    if d is None:
        return None
    if s != 1:
        d = F.fapp('fdiv', F.fadd(d, F.fconst(s - 1)), F.fconst(s))
    return F.fapp('maximum', d, z) if d is not L else d


def extent(f, axis, rank, depth=12):
    """form of the extent of f along an axis (0 or 1), None when not known"""
    if f is None or depth < 0:
        return None
    got = None
    for m, _ in f.t:
        for at, _e in m:
            if F.scalar_atom(at) or F.atom_key(at)[0] == 'cconst':
                continue
            g = extent1(F.atom_key(at), axis, rank, depth)
            if g is None:
                return None
            if got is not None and got is not g and not one(got) and not one(g):
                return None
            got = g if got is None or one(got) else got
    return got


def one(f):
    return F.is_const(f) and F.const_of(f) == 1


def whole(f, rank):
    for m, c in f.t:
        if isinstance(c, complex) or c != int(c):
            return False
        for at, e in m:
            k = F.atom_key(at)
            if e < 0 or e != int(e):
                return False
            if F.is_int(F.fatom(k)):
                continue
            if k[0] == 'f' and k[1] in ('rmax', 'rmin', 'maximum', 'minimum') and all(whole(F.form_by_id(i), rank) for i in k[2:]):
                continue
            if k[0] == 'exp10' and F.is_int(F.fscale(F.form_by_id(k[1]), 1 / math.log10(2))):
                continue
            if k[0] == 'arg' and rank.get('int ' + k[1]):
                continue
            return False
    return True


def free(f):
    """does the largest element depend on the values of the record, not only on its length?"""
    k = F.app_of(f, 'idx')
    if k is not None and len(k) == 4 and F.app_of(sub(k, 3), 'Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq', 'BitAnd', 'BitOr') is not None:
        # the elements a comparison selects
        return True
    ks = [F.atom_key(at) for at in F.atoms_in(f)]
    return any(k[0] == 'arg' and not (len(k) == 3 and 's' in k[2]) for k in ks) and not any(k[0] == 'f' and k[1] in FIXED for k in ks)


def merge(gs):
    gs = set(gs)
    if len(gs) > 1:
        gs = {g for g in gs if g is None or not one(g)}
    return gs.pop() if len(gs) == 1 else None


def extent1(k, axis, rank, depth):
    d = depth - 1
    if k[0] == 'arg':
        nd = rank.get(k[1])
        a = F.fatom(k)
        if nd == 1 and axis == 1:
            # a record used as a matrix is a matrix of one row
            return F.fapp('len', a)
        if nd is None or axis >= nd:
            return None
        return F.fapp('len', a) if axis == 0 else F.fapp('idx', F.fapp('shape', a), F.fconst(axis))
    if k[0] in ('abs', 'log10', 'exp10', 'sum', 'pow'):
        return extent(F.form_by_id(k[1]), axis, rank, d)
    if k[0] == 'phi':
        gs = {extent(F.form_by_id(i), axis, rank, d) for i in k[2:] if isinstance(i, int)}
        return gs.pop() if len(gs) == 1 else None
    if k[0] != 'f':
        return None
    n, a = k[1], sub(k, 2)
    if n in SAME:
        gs = {extent(x, axis, rank, d) for x in F.sub_forms(F.atom_id(k)) if x.t and any(not F.scalar_atom(at) for m, _ in x.t for at, _e in m)}
        return merge(gs)
    if n == 'st':
        return extent(a, axis, rank, d)
    if n == 'T' and len(k) == 3:
        if F.single(a) is not None and F.single(a)[0] == 'arg' and rank.get(F.single(a)[1]) == 1:
            return None
        return extent(a, 1 - axis, rank, d)
    if n in ('reshape1', 'reshape') and len(k) == 5:
        g = sub(k, 3 + axis)
        return None if F.is_const(g) and F.const_of(g) < 0 else g
    if n in RED and len(k) == 4 and axis == 0 and F.is_const(sub(k, 3)):
        ax = F.const_of(sub(k, 3))
        return extent(a, 1, rank, d) if ax == 0 else extent(a, 0, rank, d) if ax in (1, -1) else None
    if n in RED and len(k) == 4 and axis == 1 and F.is_const(sub(k, 3)) and F.const_of(sub(k, 3)) in (1, -1):
        # only a mean that keeps its axis can be combined with a matrix
        return F.fconst(1)
    if n in ('rfft/axis', 'fft/axis', 'ifft/axis') and len(k) == 4 and F.is_const(sub(k, 3)):
        g = extent(a, axis, rank, d)
        if g is not None and n == 'rfft/axis' and F.const_of(sub(k, 3)) == axis:
            return F.fadd(F.fapp('fdiv', g, F.fconst(2)), F.fconst(1))
        return g
    if n.startswith('win.'):
        return a
    if axis == 1:
        return None
    if n == 'iota':
        return a
    if n == 'arange' and len(k) == 5 and one(sub(k, 4)):
        g = F.fsub(sub(k, 3), a)
        return g if g is not None and whole(g, rank) else None
    if n == 'conv/same':
        return extent(a, 0, rank, d)
    if n in ('conv/full', 'conv/valid'):
        g, h = extent(a, 0, rank, d), extent(sub(k, 3), 0, rank, d)
        return None if g is None or h is None else F.fadd(F.fadd(g, h), F.fconst(-1)) if n == 'conv/full' else F.fadd(F.fsub(g, h), F.fconst(1))
    if n == 'hist' and len(k) == 4:
        if F.is_const(sub(k, 3)):
            return sub(k, 3)
        g = extent(sub(k, 3), 0, rank, d)
        return F.fsub(g, F.fconst(1)) if g is not None else None
    if n == 'bincount' and len(k) == 3 and free(a):
        return F.fadd(F.fapp('rmax', a), F.fconst(1))
    if n == 'irfft' and len(k) == 3:
        g = extent(a, 0, rank, d)
        return F.fscale(F.fsub(g, F.fconst(1)), 2) if g is not None else None
    if n == 'diff' and len(k) == 3:
        g = extent(a, 0, rank, d)
        return F.fsub(g, F.fconst(1)) if g is not None else None
    if n == 'array':
        return F.fconst(len(k) - 2)
    if n == 'concatenate' and all(isinstance(i, int) for i in k[2:]):
        t = F.fconst(0)
        for i in range(2, len(k)):
            g = extent(sub(k, i), 0, rank, d)
            t = F.fadd(t, g) if g is not None and t is not None else None
        return t
    if n == 'bincount/minlength':
        h = sub(k, 3)
        x = F.app_of(a, 'idx')
        c = F.app_of(sub(x, 2), 'clip') if x is not None else F.app_of(a, 'clip')
        if c is not None and sub(c, 4) is F.fsub(h, F.fconst(1)):
            return h
        return None
    if n == 'polyfit':
        g = sub(k, 4)
        return F.fadd(g, F.fconst(1)) if g is not None else None
    if n in ('irfft/n', 'ifft/n', 'rfft/n', 'fft/n'):
        return sub(k, 3) if n != 'rfft/n' else F.fadd(F.fapp('fdiv', sub(k, 3), F.fconst(2)), F.fconst(1))
    if n == 'rfft' and len(k) == 3:
        g = extent(a, 0, rank, d)
        return F.fadd(F.fapp('fdiv', g, F.fconst(2)), F.fconst(1)) if g is not None else None
    if n == 'rfftfreq':
        return F.fadd(F.fapp('fdiv', a, F.fconst(2)), F.fconst(1))
    if n == 'lstsq':
        return columns(a, rank, d)
    if n == 'idx' and len(k) == 4:
        i = F.app_of(sub(k, 3), 'slice')
        if i is not None and len(i) == 5:
            b = F.app_of(a, 'bincount/minlength')
            if b is not None and is_none(sub(i, 2)) and sub(i, 3) is sub(b, 3) and is_none(sub(i, 4)):
                return sub(b, 3)
            g = extent(a, 0, rank, d)
            return cut(g, sub(i, 2), sub(i, 3), sub(i, 4)) if g is not None else None
        i = F.app_of(sub(k, 3), 'tuple')
        if i is not None and len(i) == 4:
            s = F.app_of(sub(i, 2), 'slice')
            if s is not None and F.app_of(sub(i, 3), 'slice') is None and F.is_const(sub(i, 3)):
                g = extent(a, 0, rank, d)
                return cut(g, sub(s, 2), sub(s, 3), sub(s, 4)) if g is not None else None
    return None


def columns(f, rank, depth):
    k = F.app_of(f, 'column_stack')
    if k is None or not all(isinstance(i, int) for i in k[2:]):
        return extent(f, 1, rank, depth)
    t = F.fconst(0)
    for i in range(2, len(k)):
        g = sub(k, i)
        x = F.single(g)
        if x is not None and x[0] == 'arg' and rank.get(x[1]) == 2:
            c = extent(g, 1, rank, depth)
        elif F.is_const(g) or flat(g, rank):
            c = F.fconst(1)
        elif F.app_of(g, 'column_stack') is not None:
            c = columns(g, rank, depth - 1)
        else:
            return None
        t = F.fadd(t, c) if c is not None else None
        if t is None:
            return None
    return t


def flat(f, rank):
    """built from one-dimensional pieces by element-wise operations only"""
    for m, _ in f.t:
        for at, _e in m:
            k = F.atom_key(at)
            if F.scalar_atom(at) or k[:2] == ('f', 'iota') or k[0] == 'arg' and rank.get(k[1]) == 1:
                continue
            if k[0] in ('abs', 'sum', 'pow', 'phi', 'log10', 'exp10') or k[0] == 'f' and (k[1] in SAME or k[1] in ('rfft', 'st') or k[1][:4] == 'win.'):
                if all(flat(x, rank) for x in F.sub_forms(at)):
                    continue
            if k[0] == 'f' and k[1] in RED and len(k) == 4:
                continue
            if k[:2] == ('f', 'idx') and F.app_of(sub(k, 3), 'slice') is not None and flat(sub(k, 2), rank):
                continue
            if k[:2] == ('f', 'idx') and len(k) == 4 and (F.app_of(sub(k, 2), 'lstsq') is not None or flat(sub(k, 2), rank)) and F.app_of(sub(k, 3), 'slice') is None and F.app_of(sub(k, 3), 'tuple') is None:
                continue
            return False
    return True


def normal(f, rank):
    """every length atom replaced by what it is made of"""
    def put(at):
        k = F.atom_key(at)
        if k[0] == 'f' and k[1] == 'len':
            return extent(sub(k, 2), 0, rank)
        if k[0] == 'f' and k[1] == 'idx' and len(k) == 4 and F.is_const(sub(k, 3)):
            s = F.app_of(sub(k, 2), 'shape')
            c = F.const_of(sub(k, 3))
            if s is not None and c in (0, 1):
                return extent(sub(s, 2), int(c), rank)
            io = F.app_of(sub(k, 2), 'iota')
            if io is not None and c == -1:
                return F.fsub(sub(io, 2), F.fconst(1))
            if c in (0, -1):
                return end(sub(k, 2), int(c))
        return None
    for _ in range(4):
        g = F.subst(f, put)
        if g is None or g is f:
            return f
        f = g
    return f


def end(f, c):
    """first or last number of a run of whole numbers"""
    k = F.app_of(f, 'idx')
    shift = 0
    if k is not None and len(k) == 4:
        i = F.app_of(sub(k, 3), 'slice')
        if i is None or not is_none(sub(i, 4)) and not one(sub(i, 4)):
            return None
        b = sub(i, 2 if c == 0 else 3)
        if not is_none(b):
            if not F.is_const(b) or (F.const_of(b) < 0) != (c == -1):
                return None
            shift = F.const_of(b)
        f = sub(k, 2)
    k = F.app_of(f, 'iota')
    lo, hi = (F.fconst(0), sub(k, 2)) if k is not None else (None, None)
    k = F.app_of(f, 'arange')
    if k is not None and len(k) == 5 and one(sub(k, 4)) and F.is_int(sub(k, 2)) and F.is_int(sub(k, 3)):
        lo, hi = sub(k, 2), sub(k, 3)
    if lo is None:
        return None
    return F.fadd(lo if c == 0 else F.fsub(hi, F.fconst(1)), F.fconst(shift))


class Unknown(Exception):
    pass


def value(f, env, rank):
    t = 0.0
    for m, c in f.t:
        p = c
        for at, e in m:
            p *= atom_value(at, env, rank) ** e
        t += p
    return t


def atom_value(at, env, rank):
    k = F.atom_key(at)
    if k[0] == 'arg' and len(k) == 3 and 's' in k[2]:
        return env(at, 'i' in k[2], False)
    if k[0] == 'f':
        x = F.single(sub(k, 2)) if k[1] in ('len', 'shape') else None
        if k[1] == 'len' and x is not None and x[0] == 'arg':
            return env(at, True, True)
        if k[1] == 'idx':
            s = F.app_of(sub(k, 2), 'shape')
            if s is not None and F.single(sub(s, 2)) is not None and F.single(sub(s, 2))[0] == 'arg':
                return env(at, True, True)
        if k[1] == 'rmax' and len(k) == 3 and free(sub(k, 2)):
            return env(at, True, False)
        if k[1] in ('fdiv', 'mod', 'minimum', 'maximum', 'floor', 'ceil', 'round', 'toint', 'clip'):
            vs = [complex(value(F.form_by_id(i), env, rank)) for i in k[2:]]
            return float(F.ELEM[k[1]](*vs).real if isinstance(F.ELEM[k[1]](*vs), complex) else F.ELEM[k[1]](*vs))
    if k[0] == 'exp10':
        return 10.0 ** value(F.form_by_id(k[1]), env, rank)
    if k[0] == 'pow':
        return value(F.form_by_id(k[1]), env, rank) ** k[2]
    if k[0] == 'sum':
        return value(F.form_by_id(k[1]), env, rank)
    raise Unknown


def relation(a, b, rank):
    """are two lengths equal for all array lengths?  False only with an example, made of symbols that are all known"""
    if a is None or b is None:
        return None
    a, b = normal(a, rank), normal(b, rank)
    if a is b:
        return True
    d = F.fsub(a, b)
    if d is None:
        return None
    if F.close(a, b):
        return True
    try:
        for seed in range(40):
            rnd = random.Random(seed)
            memo = {}

            def env(at, whole, length):
                if at not in memo:
                    memo[at] = (rnd.randint(64, 400) if seed % 2 else rnd.randint(7, 20)) * 2 + rnd.randint(0, 1) if length else float(rnd.randint(2, 12)) if whole else rnd.uniform(0.1, 2.0)
                return memo[at]
            v = value(d, env, rank)
            if isinstance(v, complex) or math.isnan(v) or abs(v) > 1e-3:
                return False if not isinstance(v, complex) and not math.isnan(v) else None
    except (Unknown, ZeroDivisionError, OverflowError, ValueError, KeyError):
        return None
    return True
