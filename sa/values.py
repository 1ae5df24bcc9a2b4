"""Abstract values."""
import math
from . import forms as F

INF = float('inf')
NC = type('NC', (), {'__repr__': lambda s: 'NC', '__reduce__': lambda s: 'NC'})()   # "no constant"
TOPIV = (-INF, INF)
E = frozenset()

# ---------------------------------------------------------------------------
# Scaling laws: a law is a frozenset of alternatives
#   ('any',)        constant 0 / inf / nan : compatible with every law
#   ('k',)          literal constant (degree 0)
#   ('d', degs)     v -> prod sym**deg * v     degs: tuple of (sym, deg)
#   ('l', coefs)    v -> v + sum coef*log10(sym)
#   ('u',)          unknown
# Definite inhomogeneity is carried as a ('BAD', ...) label in deps.
# ---------------------------------------------------------------------------
ANY = ('any',)
KON = ('k',)
UNK = ('u',)
D0 = ('d', ())
L_ANY = frozenset([ANY])
L_K = frozenset([KON])
L_U = frozenset([UNK])
L_0 = frozenset([D0])


def deg(**kw):
    return frozenset([('d', tuple(sorted((k, float(v)) for k, v in kw.items() if v)))])


def logl(**kw):
    c = tuple(sorted((k, float(v)) for k, v in kw.items() if v))
    return frozenset([('l', c)]) if c else L_0


def _comb(a, b, f):
    d = dict(a)
    for s, k in b:
        d[s] = F._r(d.get(s, 0.0) + f * k)
    return tuple(sorted((s, k) for s, k in d.items() if k))


def is0(a):
    """degree-0 alternative"""
    return a == KON or a == D0 or a == ANY


def lset(alts):
    s = frozenset(alts)
    if len(s) > 1:
        s = s - {ANY}
    if len(s) > 1 and D0 in s:
        s = s - {KON}
    if len(s) > 6:
        return L_U
    return s


class Shift:
    """translation behaviour x -> x + mu: value gains coef*mu; coef is a Form.
    Non-characterised dependence is the label ('SHV', ...) in deps and coef None."""


SH0 = F.fconst(0)
SHANY = F.fatom(('shany',))     # contents never looked at: compatible with every translation behaviour


class Num:
    """numeric scalar, ndarray, or any opaque python value (anyk=True)"""
    __slots__ = ('const', 'iv', 'arr', 'dt', 'nd', 'roots', 'law', 'sh', 'form',
                 'ln', 'parts', 'plen', 'anyk', 'dc0', 'prov', '_h')
    kind = 'num'

    def __init__(self, const=NC, iv=TOPIV, arr=None, dt=None, nd=None, roots=E, law=L_U, sh=None,
                 form=None, ln=None, parts=None, plen=None, anyk=False, dc0=False, prov=None):
        self.const = const
        self.iv = iv
        self.arr = arr
        self.dt = dt
        self.nd = nd
        self.roots = roots
        self.law = law
        self.sh = sh
        self.form = form
        self.ln = ln
        self.parts = parts
        self.plen = plen
        self.anyk = anyk
        self.dc0 = dc0
        self.prov = prov
        self._h = None

    def key(self):
        if self._h is None:
            c = self.const
            self._h = (type(c).__name__, repr(c) if c is not NC else None, self.iv, self.arr, self.dt, self.nd,
                       self.roots, self.law, self.sh.id if self.sh is not None else None,
                       self.form.id if self.form is not None else None,
                       self.ln.id if self.ln is not None else None,
                       tuple(p.key() for p in self.parts) if self.parts is not None else None,
                       self.plen, self.anyk, self.dc0, self.prov)
        return self._h

    def rep(self, **kw):
        d = {s: getattr(self, s) for s in self.__slots__ if s != '_h'}
        d.update(kw)
        return Num(**d)

    def __repr__(self):
        s = 'num'
        if self.anyk:
            s = 'any'
        if self.const is not NC:
            s += '=%r' % (self.const,)
        elif self.form is not None:
            s += '{%s}' % F.show(self.form, 2)
        if self.arr:
            s += '[]'
        if self.roots:
            s += '@%s' % (sorted(map(str, self.roots)),)
        if self.iv != TOPIV:
            s += '∈[%g,%g]' % self.iv
        return s


class Str:
    __slots__ = ('const', 'vn')
    kind = 'str'

    def __init__(self, const=NC, vn=None):
        self.const = const   # python str, FRESH instance or NC
        self.vn = vn

    def key(self):
        return ('s', self.const if isinstance(self.const, str) else repr(self.const), self.vn)

    def __repr__(self):
        return 'str(%r)' % (self.const,)


class Fresh:
    """a string different from every literal of the program"""
    def __init__(self, n='?'):
        self.n = n

    def __repr__(self):
        return '<fresh %s>' % self.n


class NoneA:
    kind = 'none'
    __slots__ = ()

    def key(self):
        return ('none',)

    def __repr__(self):
        return 'None'


class Tup:
    __slots__ = ('el',)
    kind = 'tup'

    def __init__(self, el):
        self.el = tuple(el)

    def key(self):
        return ('t',) + tuple(e.key() for e in self.el)

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.el))


class Ref:
    """reference to a heap object"""
    __slots__ = ('loc',)
    kind = 'ref'

    def __init__(self, loc):
        self.loc = loc

    def key(self):
        return ('ref', self.loc)

    def __repr__(self):
        return 'ref%s' % (self.loc,)


class Func:
    __slots__ = ('node', 'mod', 'qual', 'fid', 'snap', 'cls', 'name', 'defaults', 'kwdefaults')
    kind = 'func'

    def __init__(self, node, mod, qual, fid=None, snap=None, cls=None, defaults=None, kwdefaults=None):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.fid = fid
        self.snap = snap
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}

    def key(self):
        return ('fn', self.mod.name, self.qual, id(self.node), self.fid)

    def __repr__(self):
        return '<func %s.%s>' % (self.mod.name, self.qual)


class Bound:
    """bound method: repo function or named method of an abstract value"""
    __slots__ = ('self_', 'name', 'func')
    kind = 'bound'

    def __init__(self, self_, name, func=None):
        self.self_ = self_
        self.name = name
        self.func = func

    def key(self):
        return ('bm', self.self_.key(), self.name)

    def __repr__(self):
        return '<bound %s>' % self.name


class Partial:
    __slots__ = ('fn', 'args', 'kw')
    kind = 'partial'

    def __init__(self, fn, args, kw):
        self.fn = fn
        self.args = args
        self.kw = kw

    def key(self):
        return ('pt', self.fn.key(), tuple(a.key() for a in self.args),
                tuple((k, v.key()) for k, v in sorted(self.kw.items())))


class ClassA:
    __slots__ = ('node', 'mod', 'qual', 'attrs', 'bases')
    kind = 'class'

    def __init__(self, node, mod, qual, attrs, bases):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.attrs = attrs
        self.bases = bases

    def key(self):
        return ('cl', self.mod.name, self.qual)

    def __repr__(self):
        return '<class %s>' % self.qual


class ModA:
    __slots__ = ('mod',)
    kind = 'mod'

    def __init__(self, mod):
        self.mod = mod

    def key(self):
        return ('mod', self.mod.name)

    def __repr__(self):
        return '<module %s>' % self.mod.name


class Ext:
    """external dotted name"""
    __slots__ = ('name',)
    kind = 'ext'

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('ext', self.name)

    def __repr__(self):
        return '<ext %s>' % self.name


class Eo:
    """instance of an external type (matplotlib handle, Path, Generator, ...)"""
    __slots__ = ('ty', 'prov', 'roots')
    kind = 'eo'

    def __init__(self, ty, prov=None, roots=E):
        self.ty = ty
        self.prov = prov
        self.roots = roots

    def key(self):
        return ('eo', self.ty, self.prov, self.roots)

    def __repr__(self):
        return '<%s %s>' % (self.ty, self.prov)


class AV:
    """abstract value: alternatives + dependency labels + identity"""
    __slots__ = ('alts', 'deps', 'vn', '_k', 'src')

    def __init__(self, alts, deps=E, vn=None, src=None):
        self.alts = alts if isinstance(alts, tuple) else (alts,)
        self.deps = deps
        self.vn = vn
        self._k = None
        self.src = src        # the AV this one is a narrowed view of (same concrete value)

    def key(self):
        if self._k is None:
            self._k = (frozenset(a.key() for a in self.alts), self.deps, self.vn)
        return self._k

    def vkey(self):
        return (frozenset(a.key() for a in self.alts), self.vn)

    def __repr__(self):
        return '|'.join(map(repr, self.alts))

    def kinds(self):
        return {a.kind for a in self.alts}

    def only(self, kind):
        return len(self.alts) == 1 and self.alts[0].kind == kind

    def get(self, kind):
        for a in self.alts:
            if a.kind == kind:
                return a
        return None

    def all(self, kind):
        return [a for a in self.alts if a.kind == kind]

    def adddeps(self, d):
        if not d or d <= self.deps:
            return self
        return AV(self.alts, self.deps | d, self.vn, self.src or self)

    def determined(self):
        """equal keys imply equal concrete values"""
        for a in self.alts:
            k = a.kind
            if k == 'num':
                if a.const is NC and a.form is None:
                    return False
            elif k == 'str':
                if not isinstance(a.const, str) and a.vn is None:
                    return False
            elif k == 'tup':
                if not all(e.determined() for e in a.el):
                    return False
        return len(self.alts) == 1 or self.vn is not None

    def const(self):
        """python constant if the value is one definite constant, else NC"""
        if len(self.alts) != 1:
            return NC
        a = self.alts[0]
        if a.kind in ('num', 'str'):
            if a.kind == 'num' and a.arr:
                return NC
            return a.const
        if a.kind == 'none':
            return None
        if a.kind == 'tup':
            out = []
            for e in a.el:
                c = e.const()
                if c is NC:
                    return NC
                out.append(c)
            return tuple(out)
        return NC


def law_of_const(c):
    if isinstance(c, (int, float)) and not isinstance(c, bool):
        if c == 0 or (isinstance(c, float) and (math.isinf(c) or math.isnan(c))):
            return L_ANY
    return L_K


def mknum(c, deps=E):
    if isinstance(c, bool):
        return AV(Num(const=c, iv=(float(c), float(c)), arr=False, dt='b', nd=0, law=L_K, sh=SH0,
                      form=F.fconst(int(c))), deps)
    if isinstance(c, int):
        try:
            fl = float(c)
        except OverflowError:
            fl = INF if c > 0 else -INF
        return AV(Num(const=c, iv=(fl, fl), arr=False, dt='i', nd=0, law=law_of_const(c), sh=SH0,
                      form=F.fconst(c)), deps)
    if isinstance(c, float):
        iv = (c, c) if c == c else TOPIV
        return AV(Num(const=c, iv=iv, arr=False, dt='f', nd=0, law=law_of_const(c), sh=SH0,
                      form=F.fconst(c)), deps)
    if isinstance(c, complex):
        return AV(Num(const=c, arr=False, dt='c', nd=0, law=L_K, sh=SH0, form=F.fconst(c)), deps)
    raise TypeError(c)


NONE = AV(NoneA())


def mkstr(c=NC, deps=E, vn=None):
    return AV(Str(c), deps, vn)


def mkconst(c):
    if c is None:
        return NONE
    if isinstance(c, (bool, int, float, complex)):
        return mknum(c)
    if isinstance(c, (str, Fresh)):
        return mkstr(c)
    if isinstance(c, tuple):
        return AV(Tup([mkconst(x) for x in c]))
    return AV(Num(anyk=True, form=None))


def mkbool(b, deps=E):
    """b: True/False/None(maybe)"""
    if b is None:
        return AV(Num(iv=(0.0, 1.0), arr=False, dt='b', nd=0, law=L_0, sh=SH0, form=None), deps)
    return mknum(bool(b), deps)


def mktup(el, deps=E):
    return AV(Tup(el), deps)


def jiv(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def num_join(a, b, mid=None, flip=False):
    """join of two Num; mid = merge id used to create phi forms"""
    if a is b or a.key() == b.key():
        return a
    const = a.const if (a.const is not NC and b.const is not NC and type(a.const) == type(b.const)
                        and (a.const == b.const or (a.const != a.const and b.const != b.const))) else NC
    if a.form is b.form:
        form = a.form
    elif mid is not None and (a.form is not None or b.form is not None):
        form = F.fphi(mid, [a.form, b.form])
    else:
        form = None
    if a.sh is b.sh or b.sh is SHANY:
        sh = a.sh
    elif a.sh is SHANY:
        sh = b.sh
    elif a.sh is None or b.sh is None:
        sh = None
    else:
        # differing translation coefficients: exact constants may mix with anything that is invariant
        sh = F.fphi(mid if mid is not None else 'j', [a.sh, b.sh])
    law = lset(a.law | b.law)
    parts, plen = None, None
    if a.parts is not None and b.parts is not None:
        la, lb = len(a.parts), len(b.parts)
        ps = []
        for i in range(max(la, lb)):
            if i < la and i < lb:
                ps.append(av_join(a.parts[i], b.parts[i], mid))
            else:
                ps.append(a.parts[i] if i < la else b.parts[i])
        parts = tuple(ps)
        plen = a.plen if a.plen == b.plen else None
    dc0 = a.dc0 and b.dc0
    if a.dc0 != b.dc0:
        # only sound when the non-dc0 one is shift invariant
        other = b if a.dc0 else a
        dc0 = other.sh is SH0
    return Num(const=const, iv=jiv(a.iv, b.iv), arr=a.arr if a.arr == b.arr else None,
               dt=a.dt if a.dt == b.dt else None, nd=a.nd if a.nd == b.nd else None,
               roots=a.roots | b.roots, law=law, sh=sh, form=form,
               ln=a.ln if a.ln is b.ln else None, parts=parts, plen=plen,
               anyk=a.anyk or b.anyk, dc0=dc0, prov=a.prov if a.prov == b.prov else None)


def av_join(a, b, mid=None):
    if a is b:
        return a
    if a.key() == b.key():
        return a
    alts = {}
    order = []

    def put(x):
        if x.kind == 'num':
            k = 'num'
        elif x.kind == 'str':
            k = ('str',)
        elif x.kind == 'tup':
            k = ('tup', len(x.el))
        else:
            k = x.key()
        if k not in alts:
            alts[k] = x
            order.append(k)
            return
        y = alts[k]
        if x.kind == 'num':
            alts[k] = num_join(y, x, mid)
        elif x.kind == 'str':
            if y.key() != x.key():
                c = y.const if (y.const == x.const and y.const is not NC) else NC
                alts[k] = Str(c, y.vn if y.vn == x.vn else None)
        elif x.kind == 'tup':
            alts[k] = Tup([av_join(p, q, mid) for p, q in zip(y.el, x.el)])

    for x in a.alts:
        put(x)
    for x in b.alts:
        put(x)
    if len(order) > 12:
        # collapse to an opaque value
        return AV(Num(anyk=True, roots=frozenset().union(*[roots_of_alt(alts[k]) for k in order])),
                  a.deps | b.deps)
    return AV(tuple(alts[k] for k in order), a.deps | b.deps, a.vn if a.vn == b.vn else None)


def roots_of_alt(a):
    if a.kind in ('num', 'eo'):
        return a.roots
    if a.kind == 'ref':
        return frozenset([('loc', a.loc)])
    if a.kind == 'tup':
        return frozenset().union(*[roots_of(e) for e in a.el]) if a.el else E
    return E


def roots_of(av):
    if len(av.alts) == 1:
        return roots_of_alt(av.alts[0])
    return frozenset().union(*[roots_of_alt(a) for a in av.alts])


def unknown(deps=E, roots=E, form=None, vn=None):
    return AV(Num(anyk=True, roots=roots, form=form), deps, vn)
