"""Interprocedural abstract interpreter over the Python AST.

Every repo function is analysed in the calling context (inlined), branches
with an undecided test are both analysed and joined, loops are iterated to a
fixpoint.  Nothing of the analysed program is imported or executed.
"""
import ast
import builtins
import math
from . import forms as F
from .values import *
from . import numops as N
from .project import AnalysisError

MAXDEPTH = 30
UNROLL = 16


class Dead(Exception):
    """the current abstract path ends (raise / sys.exit)"""


class Ev:
    __slots__ = ('kind', 'site', 'data', 'stack', 'pc', 'entry')

    def __init__(self, kind, site, data, stack, pc, entry=None):
        self.kind = kind
        self.site = site
        self.data = data
        self.stack = stack
        self.pc = pc
        self.entry = entry

    def __repr__(self):
        return '%s@%s %s' % (self.kind, self.site, self.data)


class Frame:
    __slots__ = ('fid', 'env', 'func', 'ub')

    def __init__(self, fid, env, func=None, ub=None):
        self.fid = fid
        self.env = env
        self.func = func
        self.ub = ub             # {name: (value, condition token, outcome under which it is bound)}


class H:
    """heap object (treated as immutable; replaced on update)"""
    __slots__ = ('ty', 'el', 'summ', 'd', 'rest', 'cls', 'glob', 'deps', '_k')

    def __init__(self, ty, el=None, summ=None, d=None, rest=None, cls=None, glob=None, deps=E):
        self.ty = ty          # list set dict inst
        self.el = el          # tuple of AV (exact contents) or None
        self.summ = summ      # AV summary element when el is None
        self.d = d            # dict/inst: key -> (AV, must)
        self.rest = rest      # AV for unknown keys
        self.cls = cls
        self.glob = glob      # label when the object outlives the call (module global, default, caller's)
        self.deps = deps      # dependencies of the shape (length / key set)
        self._k = None

    def rep(self, **kw):
        x = {s: getattr(self, s) for s in H.__slots__ if s != '_k'}
        x.update(kw)
        return H(**x)

    def key(self):
        if self._k is None:
            self._k = (self.ty, tuple(e.key() for e in self.el) if self.el is not None else None,
                       self.summ.key() if self.summ is not None else None,
                       tuple(sorted(((str(k), v.key(), m) for k, (v, m) in self.d.items()), key=lambda x: x[0]))
                       if self.d is not None else None,
                       self.rest.key() if self.rest is not None else None, self.deps)
        return self._k

    def elems(self):
        """join of all element values or None when empty"""
        out = None
        if self.ty in ('list', 'set'):
            vs = list(self.el) if self.el is not None else ([self.summ] if self.summ is not None else [])
        else:
            vs = [v for v, _ in self.d.values()] + ([self.rest] if self.rest is not None else [])
        for v in vs:
            out = v if out is None else av_join(out, v)
        return out


BRANCH = ('pos', 'eq0', 'truth', 'if')


def h_join(a, b, mid, deps):
    if a is b or (not deps and a.key() == b.key()):
        return a
    if a.ty != b.ty:
        return a
    nd = a.deps | b.deps
    if a.ty in ('list', 'set'):
        if a.el is not None and b.el is not None and len(a.el) == len(b.el):
            el = tuple(x if x is y else j_av(x, y, mid, deps) for x, y in zip(a.el, b.el))
            return a.rep(el=el, deps=nd)
        ea, eb = a.elems(), b.elems()
        if ea is None:
            s = eb.adddeps(deps) if eb is not None else None
        elif eb is None:
            s = ea.adddeps(deps)
        else:
            s = j_av(ea, eb, mid, deps)
        return a.rep(el=None, summ=s, deps=nd | deps)
    d = {}
    for k in list(a.d) + [k for k in b.d if k not in a.d]:
        if k in a.d and k in b.d:
            (x, m1), (y, m2) = a.d[k], b.d[k]
            d[k] = (x if x is y else j_av(x, y, mid, deps), m1 and m2 if m1 is not None or m2 is not False else False)
        else:
            # None: present on one outcome of a test only; False: presence unknown
            v, m = a.d.get(k) or b.d.get(k)
            d[k] = (v.adddeps(deps), None if mid is not None and mid[0] in BRANCH and m is not False else False)
    rest = a.rest
    if b.rest is not None:
        rest = b.rest if rest is None else j_av(rest, b.rest, mid, deps)
    return a.rep(d=d, rest=rest, deps=nd)


def j_av(x, y, mid, deps):
    if x is y:
        return x
    if deps and (x.src or x) is not (y.src or y):
        if x.vkey() != y.vkey() or not x.determined():
            return av_join(x, y, mid).adddeps(deps)
    if x.key() == y.key():
        return x
    return av_join(x, y, mid)


class State:
    __slots__ = ('frames', 'heap', 'pc', 'path')

    def __init__(self, frames, heap, pc=E, path=()):
        self.frames = frames
        self.heap = heap
        self.pc = pc
        self.path = path         # branch decisions taken: ((condition token, outcome), ...)

    def copy(self):
        return State([Frame(f.fid, dict(f.env), f.func, f.ub) for f in self.frames], dict(self.heap), self.pc, self.path)

    def set_from(self, o):
        # keep Frame objects, replace contents
        self.frames[:] = o.frames
        self.heap = o.heap
        self.pc = o.pc
        self.path = o.path

    @property
    def env(self):
        return self.frames[-1].env

    def same(self, o):
        if len(self.frames) != len(o.frames):
            return False
        for f, g in zip(self.frames, o.frames):
            if f.env is g.env:
                continue
            if f.env.keys() != g.env.keys():
                return False
            for k, v in f.env.items():
                w = g.env[k]
                if v is not w and v.key() != w.key():
                    return False
        if self.heap.keys() != o.heap.keys():
            return False
        for k, v in self.heap.items():
            w = o.heap[k]
            if v is not w and v.key() != w.key():
                return False
        return True


def join_states(a, b, deps=E, mid=None, branch=False):
    if a is None:
        return b
    if b is None:
        return a
    path = a.path
    if path != b.path:
        m = 0
        for x, y in zip(a.path, b.path):
            if x != y:
                break
            m += 1
        path = path[:m]
    n = min(len(a.frames), len(b.frames))
    frames = []
    for i in range(n):
        f, g = a.frames[i], b.frames[i]
        if f.env is g.env:
            frames.append(f)
            continue
        env = {}
        for k, v in f.env.items():
            w = g.env.get(k)
            if w is None:
                env[k] = v.adddeps(deps) if k[:1] != '\0' else v
            elif v is w:
                env[k] = v
            else:
                env[k] = j_av(v, w, (mid if mid is not None else None), deps)
        for k, w in g.env.items():
            if k not in env:
                env[k] = w.adddeps(deps) if k[:1] != '\0' else w
        ub = {}
        for q in (f.ub, g.ub):
            if q:
                ub.update((k, x) for k, x in q.items() if env.get(k) is x[0])
        if branch:
            for k, v in env.items():
                if (k not in f.env) != (k not in g.env) and k[:1] != '\0':
                    ub[k] = (v, mid, k in f.env, path)
        frames.append(Frame(f.fid, env, f.func, ub or None))
    heap = dict(a.heap)
    for k, w in b.heap.items():
        v = heap.get(k)
        if v is None:
            heap[k] = w
        elif v is not w:
            heap[k] = h_join(v, w, mid, deps)
    return State(frames, heap, a.pc | b.pc, path)


def map_av(av, fn):
    """apply fn(alt)->alt|None to every alternative (recursively through tuples)"""
    out = []
    ch = False
    for a in av.alts:
        if a.kind == 'tup':
            el = [map_av(e, fn) for e in a.el]
            if any(x is not y for x, y in zip(el, a.el)):
                out.append(Tup(el))
                ch = True
            else:
                out.append(a)
        else:
            r = fn(a)
            out.append(r)
            if r is not a:
                ch = True
    return AV(tuple(out), av.deps, av.vn, av.src or av) if ch else av


class Ctl:
    """per-function / per-loop control collectors"""
    __slots__ = ('returns', 'breaks', 'conts', 'n')

    def __init__(self):
        self.returns = []
        self.breaks = []
        self.conts = []
        self.n = 0


class Interp:
    def __init__(self, project):
        from . import ext
        self.ext = ext
        self.p = project
        self.events = []
        self.stack = []          # (qual, rel, line)
        self.ctx = 0
        self._ctx = {}
        self.pure = None         # set while a deterministic external function with known arguments is modelled
        self.vc = 0              # value context: like ctx, but shared by calls with equal arguments
        self._lnames = {}
        self._vc = {}
        self.vcof = {0: 0}
        self.iters = ()          # iteration numbers of enclosing unrolled loops
        self.base_heap = {}
        self.loading = []
        self.ctls = []           # control collectors (function or loop)
        self.fctl = []           # function collectors
        self.trys = []           # (list, depth)
        self.withs = []
        self.cur = None          # current (module, node)
        self.curmod = None
        self.cls_stack = []
        self.entry = None
        self.generic = False      # assume scaled quantities are not exactly zero / below a numerical guard
        self.hooks = {}          # 'call' -> fn(func, env, st)
        self.unmodelled = {}
        self.internal = []
        self.debug = False
        self.steps = 0
        self.calls = 0
        self.loops = 0
        self.maxsteps = 4000000
        self.silent = 0
        self.fs = None           # model of the file system for one scenario
        self.cli = None          # values of command line arguments for one scenario
        self.exact = False       # exceptions are known exactly
        self.fn_seen = set()
        self.ncalls_fn = {}
        self.argclass = {}
        self.unbound = []
        self.undec = []

    # ------------------------------------------------------------------ misc
    def site(self, node=None):
        node = node if node is not None else self.cur
        q = self.stack[-1][0] if self.stack else '<module>'
        return '%s:%s (%s)' % (self.curmod.rel if self.curmod else '?', getattr(node, 'lineno', 0), q)

    def sid(self, node, tag=''):
        """stable id of a program point in a calling context"""
        return (self.curmod.rel if self.curmod else '?', getattr(node, 'lineno', 0),
                getattr(node, 'col_offset', 0), (self.ctx, self.iters) if self.iters else self.ctx, tag)

    def vsid(self, node, tag=''):
        """name of a value computed at a program point: equal for calls of one function with equal arguments"""
        if self.pure is not None:
            return ('pure', self.pure, tag)
        return (self.curmod.rel if self.curmod else '?', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), self.vc, self.iters, tag)

    def token(self, tv, node, kind):
        """(merge id, outcome meaning 'first operand') of a branch on value tv"""
        if len(tv.alts) == 1 and tv.alts[0].kind == 'num' and not tv.alts[0].arr and tv.alts[0].form is not None:
            t = F.cond_token(tv.alts[0].form)
            if t is not None:
                return t
        return (kind,) + self.vsid(node), True

    def vkey_args(self, fn, env, st):
        """value numbers of all arguments, or None when one of them has no complete value number"""
        out = []
        for k in sorted(env):
            if k[:1] == '\0':
                continue
            x = self.content(env[k], st, 0)
            if x is None:
                return None
            out.append((k, x))
        return tuple(out)

    def content(self, av, st, depth):
        if len(av.alts) != 1 or depth > 3:
            return None
        a = av.alts[0]
        if a.kind == 'none':
            return ('none',)
        if a.kind == 'num':
            if a.const is not NC and not a.arr:
                if type(a.const) in (int, float) and abs(a.const) < 2 ** 53:
                    return ('k', 'num', repr(float(a.const)))
                return ('k', type(a.const).__name__, repr(a.const))
            if a.form is None or a.parts is not None:
                return None
            return ('n', a.form.id, a.arr, a.nd, a.dt, a.anyk)
        if a.kind == 'str':
            return ('s', a.const) if isinstance(a.const, str) else None
        if a.kind == 'tup':
            r = [self.content(e, st, depth + 1) for e in a.el]
            return None if None in r else ('t',) + tuple(r)
        if a.kind == 'ref':
            h = st.heap.get(a.loc)
            if h is None or h.rest is not None or h.summ is not None:
                return None
            if h.cls is not None:
                if h.ty != 'inst' or h.d is None or h.el is not None:
                    return None
                r = [(k, self.content(v, st, depth + 1), m) for k, (v, m) in sorted(h.d.items(), key=lambda q: repr(q[0]))]
                return None if any(x[1] is None or not x[2] for x in r) else ('inst', str(h.cls.key()) if hasattr(h.cls, 'key') else str(h.cls)) + tuple(r)
            if h.el is not None:
                r = [self.content(e, st, depth + 1) for e in h.el]
                return None if None in r else (h.ty,) + tuple(r)
            if h.d is not None:
                r = [(k, self.content(v, st, depth + 1), m) for k, (v, m) in sorted(h.d.items(), key=lambda q: repr(q[0]))]
                return None if any(x[1] is None or not x[2] for x in r) else (h.ty,) + tuple(r)
            return None
        if a.kind in ('func', 'ext', 'class'):
            return a.key()
        return None

    def root(self, node, tag=''):
        return ('al',) + self.sid(node, tag)

    def event(self, kind, node, st=None, **data):
        if self.silent:
            return
        if self.trys:
            data['guarded'] = True
        self.events.append(Ev(kind, self.site(node), data, tuple(self.stack), st.pc if st is not None else E,
                              self.entry))

    def opaque(self, node, deps=E, roots=E, tag=''):
        return AV(Num(anyk=True, roots=roots, form=F.fatom(('op', self.vsid(node, tag)))), deps)

    # --------------------------------------------------------------- modules
    def load(self, name):
        m = self.p.modules.get(name)
        if m is None:
            return None
        if m.state != 'new':
            return m
        m.state = 'loading'
        m.env = {}
        saved = (self.stack, self.ctx, self.ctls, self.fctl, self.trys, self.curmod, self.withs, self.cls_stack)
        self.stack, self.ctls, self.fctl, self.trys, self.withs, self.cls_stack = [], [], [], [], [], []
        self.ctx = 0
        self.curmod = m
        self.silent += 1
        st = State([Frame(('mod', name), m.env)], self.base_heap)
        m.env['__name__'] = mkstr(name)
        m.env['__file__'] = AV(Str(NC, ('file', name)), E, ('file', name))
        for s in m.tree.body:
            try:
                st2 = self.ex_stmt(s, st)
            except Dead:
                continue
            if st2 is None:
                continue
            st = st2
            m.env = st.frames[0].env
            self.base_heap = st.heap
        self.silent -= 1
        m.state = 'done'
        m.env = st.frames[0].env
        # mark module level objects
        heap = dict(st.heap)
        for k, v in m.env.items():
            for a in v.alts:
                if a.kind == 'ref' and a.loc in heap and heap[a.loc].glob is None:
                    heap[a.loc] = heap[a.loc].rep(glob=('global', name, k))
                if a.kind == 'num' and a.roots:
                    m.env[k] = AV(tuple(x.rep(roots=frozenset([('glob', name, k)])) if x.kind == 'num' and x.roots else x
                                        for x in m.env[k].alts), m.env[k].deps, m.env[k].vn)
        self.base_heap = heap
        (self.stack, self.ctx, self.ctls, self.fctl, self.trys, self.curmod, self.withs, self.cls_stack) = saved
        return m

    def load_all(self):
        for n in sorted(self.p.modules):
            self.load(n)
        # everything reachable from a module level name outlives the call
        heap = self.base_heap
        self.marked = set()
        for n in sorted(self.p.modules):
            env = self.p.modules[n].env
            for k, v in list(env.items()):
                env[k] = self.mark_global(v, ('global', n, k), heap)

    def mark_global(self, v, label, heap):
        """label every container and array reachable from v; returns v with relabelled arrays"""
        out = []
        for a in v.alts:
            if a.kind == 'tup':
                a = Tup(tuple(self.mark_global(x, label, heap) for x in a.el))
            elif a.kind == 'num' and a.roots and not any(r[0] == 'glob' for r in a.roots):
                a = a.rep(roots=frozenset([('glob',) + label[1:]]))
            elif a.kind == 'ref' and a.loc in heap and a.loc not in self.marked:
                self.marked.add(a.loc)
                h = heap[a.loc]
                sub = {}
                if h.el is not None:
                    sub['el'] = tuple(self.mark_global(x, label, heap) for x in h.el)
                if h.summ is not None:
                    sub['summ'] = self.mark_global(h.summ, label, heap)
                if h.d is not None:
                    sub['d'] = {k: (self.mark_global(x, label, heap), m) for k, (x, m) in h.d.items()}
                if h.rest is not None:
                    sub['rest'] = self.mark_global(h.rest, label, heap)
                heap[a.loc] = h.rep(glob=h.glob or label, **sub)
            out.append(a)
        return AV(tuple(out), v.deps, v.vn)

    def import_name(self, dotted, st):
        """AV for a dotted module path"""
        if dotted.split('.')[0] == 'adctoolbox':
            m = self.load(dotted)
            if m is not None:
                if st is not None:
                    for k, v in self.base_heap.items():
                        if k not in st.heap:
                            st.heap[k] = v
                return AV(ModA(m))
            return None
        return AV(Ext(dotted))

    def mod_attr(self, m, name, st):
        """attribute of a repo module"""
        env = self.mod_env(m, st)
        if name in env:
            return env[name]
        sub = self.p.modules.get(m.name + '.' + name)
        if sub is not None:
            self.load(sub.name)
            return AV(ModA(sub))
        return None

    def mod_env(self, m, st):
        if st is not None:
            for f in st.frames:
                if f.fid == ('mod', m.name):
                    return f.env
        if m.state == 'new':
            self.load(m.name)
        return m.env

    # ---------------------------------------------------------------- lookup
    def lookup(self, name, st, node):
        f = st.frames[-1]
        if name in f.env:
            if f.ub and name in f.ub:
                v, mid, when, path = f.ub[name]
                if f.env[name] is v and st.path == path:
                    self.event('maybeunbound', node, st, name=name)
            return f.env[name]
        fn = f.func
        # closures
        while fn is not None and (fn.fid is not None or fn.snap is not None):
            fr = None
            for g in st.frames:
                if g.fid == fn.fid:
                    fr = g
            if fr is not None:
                if name in fr.env:
                    return fr.env[name]
                fn = fr.func
            else:
                if fn.snap and name in fn.snap:
                    return fn.snap[name]
                fn = None
        env = self.mod_env(self.curmod, st)
        if name in env:
            return env[name]
        if name in BUILTINS:
            return AV(Ext('builtins.' + name))
        if not self.silent:
            self.unbound.append((name, self.site(node)))
        return self.opaque(node, tag=name)

    # ------------------------------------------------------------ statements
    def ex(self, body, st):
        for s in body:
            if st is None:
                return None
            try:
                st = self.ex_stmt(s, st)
            except Dead:
                return None
        return st

    def ex_stmt(self, s, st):
        self.cur = s
        self.steps += 1
        if self.steps > self.maxsteps:
            raise AnalysisError('step budget exceeded')
        if self.trys and self.trys[-1][1] == len(st.frames):
            self.trys[-1][0].append((st.copy(), None))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def x_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def x_Pass(self, s, st):
        return st

    def x_Global(self, s, st):
        st.env['\0global'] = AV(Str(NC), E, ('gl',) + tuple(s.names) +
                                (tuple(st.env['\0global'].vn[1:]) if '\0global' in st.env else ()))
        return st

    def x_Nonlocal(self, s, st):
        st.env['\0nonlocal'] = AV(Str(NC), E, ('nl',) + tuple(s.names))
        return st

    def x_Assert(self, s, st):
        return self.branch_cond(s.test, st, None, raises='AssertionError')

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.mutate_container(o, t, st, 'del')
                for a in o.all('ref'):
                    h = st.heap.get(a.loc)
                    if h is not None and h.ty == 'dict' and isinstance(k.const(), str):
                        d = dict(h.d)
                        d.pop(k.const(), None)
                        st.heap[a.loc] = h.rep(d=d)
                    elif h is not None and h.ty == 'list':
                        st.heap[a.loc] = h.rep(el=None, summ=h.elems())
        return st

    def x_Import(self, s, st):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == 'adctoolbox':
                v = self.import_name(a.name, st)
                if v is None:
                    self.event('badimport', s, st, name=a.name)
                    self.raise_(s, st, 'ModuleNotFoundError')
                if not a.asname:
                    v = self.import_name(top, st)
            else:
                v = AV(Ext(a.name if a.asname else top))
            st.env[a.asname or top] = v
        return st

    def x_ImportFrom(self, s, st):
        base = s.module or ''
        if s.level:
            parts = self.curmod.name.split('.')
            if not self.curmod.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        if base.split('.')[0] == 'adctoolbox':
            mv = self.import_name(base, st)
            if mv is None:
                self.badimports = getattr(self, 'badimports', [])
                self.badimports.append((self.site(s), base, None))
                self.event('badimport', s, st, name=base)
                for a in s.names:
                    st.env[a.asname or a.name] = self.opaque(s, tag=a.name)
                self.raise_(s, st, 'ModuleNotFoundError')
            mod = mv.alts[0].mod
            for a in s.names:
                if a.name == '*':
                    env = self.mod_env(mod, st)
                    allv = env.get('__all__')
                    names = [n for n in env if not n.startswith('_')]
                    if allv is not None:
                        names2 = self.const_list(allv, st)
                        if names2 is not None:
                            names = names2
                    for n in names:
                        if n in env:
                            st.env[n] = env[n]
                    continue
                v = self.mod_attr(mod, a.name, st)
                if v is None:
                    self.badimports = getattr(self, 'badimports', [])
                    self.badimports.append((self.site(s), base, a.name))
                    v = self.opaque(s, tag=a.name)
                st.env[a.asname or a.name] = v
        else:
            for a in s.names:
                st.env[a.asname or a.name] = AV(Ext(base + '.' + a.name))
        return st

    def const_list(self, av, st):
        """list of python constants of a known list/tuple value"""
        els = self.exact_elems(av, st)
        if els is None:
            return None
        out = []
        for e in els:
            c = e.const()
            if c is NC:
                return None
            out.append(c)
        return out

    def mkfunc(self, node, st, qual=None):
        q = qual or ((self.stack[-1][0] + '.' if self.stack else '') +
                     ('.'.join(self.cls_stack) + '.' if self.cls_stack and not self.stack else '') +
                     getattr(node, 'name', '<lambda>'))
        top = st.frames[-1]
        fid, snap = None, None
        if not (isinstance(top.fid, tuple) and top.fid[0] == 'mod') and not self.cls_stack:
            fid = top.fid
            snap = dict(top.env)
        fn = Func(node, self.curmod, q, fid, snap)
        for d in node.args.defaults:
            v = self.ev(d, st)
            fn.defaults.append(v)
        for n, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                fn.kwdefaults[n.arg] = self.ev(d, st)
        if fid is None:
            for v in list(fn.defaults) + list(fn.kwdefaults.values()):
                for a in v.alts:
                    if a.kind == 'ref' and a.loc in st.heap and st.heap[a.loc].glob is None:
                        st.heap[a.loc] = st.heap[a.loc].rep(glob=('default', q))
        return fn

    def x_FunctionDef(self, s, st):
        fn = self.mkfunc(s, st)
        v = AV(fn)
        for dec in reversed(s.decorator_list):
            v = self.apply_decorator(dec, v, st, s)
        st.env[s.name] = v
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def apply_decorator(self, dec, v, st, s):
        d = self.ev(dec, st)
        e = d.get('ext')
        name = e.name if e is not None else ''
        if isinstance(dec, ast.Call) and e is None:
            f = self.ev(dec.func, st).get('ext')
            name = f.name if f is not None else ''
        if name.startswith('functools.') and ('cache' in name):
            self.caches = getattr(self, 'caches', [])
            self.caches.append((self.curmod.rel, s.lineno, s.name))
            fn = v.get('func')
            if fn is not None:
                self.cached = getattr(self, 'cached', set())
                self.cached.add(id(fn.node))
            return v
        if name in ('builtins.property', 'builtins.staticmethod', 'builtins.classmethod',
                    'functools.cached_property'):
            return AV(v.alts, v.deps, ('deco', name.split('.')[-1]))
        if e is not None or not (d.get('func') or d.get('partial')):
            return v
        return self.call(d, [v], {}, s, st)

    def x_ClassDef(self, s, st):
        bases = [self.ev(b, st) for b in s.bases]
        self.cls_stack.append(s.name)
        fr = Frame(('cls', s.name, len(st.frames)), {}, None)
        st.frames.append(fr)
        try:
            st2 = self.ex(s.body, st)
        finally:
            self.cls_stack.pop()
        attrs = dict((st2 or st).frames[-1].env)
        st.frames.pop()
        if st2 is not None and st2 is not st:
            st2.frames.pop()
            st = st2
        decs = []
        for dnode in s.decorator_list:
            t = dnode.func if isinstance(dnode, ast.Call) else dnode
            e = self.ev(t, st).get('ext')
            decs.append(e.name if e is not None else '?')
        c = ClassA(s, self.curmod, s.name, attrs, bases)
        attrs['\0decs'] = AV(Str(NC), E, tuple(decs))
        st.env[s.name] = AV(c)
        return st

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        c = self.fctl[-1]
        c.returns.append((st, v))
        self.bump()
        return None

    def bump(self):
        for c in self.ctls:
            c.n += 1

    def x_Break(self, s, st):
        self.loopctl().breaks.append(st)
        self.bump()
        return None

    def x_Continue(self, s, st):
        self.loopctl().conts.append(st)
        self.bump()
        return None

    def loopctl(self):
        return self.ctls[-1]

    def x_Raise(self, s, st):
        name = '?'
        if s.exc is not None:
            t = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            tv = None
            if isinstance(s.exc, ast.Call):
                # evaluate message arguments (they may contain calls), ignore value
                tv = self.ev(t, st)
                for a in s.exc.args:
                    self.ev(a, st)
            else:
                tv = self.ev(t, st)
            for a in tv.alts:
                if a.kind == 'ext':
                    name = a.name.split('.')[-1]
                elif a.kind == 'class':
                    name = a.qual
                elif a.kind == 'eo':
                    name = a.ty
        self.raise_(s, st, name)

    def raise_(self, node, st, name):
        self.event('raise', node, st, exc=name)
        if self.trys:
            self.trys[-1][0].append((st.copy(), name))
        raise Dead()

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        elif isinstance(s.target, ast.Name) and self.cls_stack and not self.stack:
            st.env['\0ann_' + s.target.id] = NONE
        if isinstance(s.target, ast.Name) and self.cls_stack and not self.stack:
            order = st.env.get('\0fields')
            names = (order.vn if order is not None else ()) + (s.target.id,)
            st.env['\0fields'] = AV(Str(NC), E, names)
        return st

    def x_AugAssign(self, s, st):
        cur = self.ev(as_load(s.target), st)
        rhs = self.ev(s.value, st)
        opn = type(s.op).__name__
        # lists: in-place extend
        if opn == 'Add' and any(a.kind == 'ref' for a in cur.alts):
            for a in cur.all('ref'):
                h = st.heap.get(a.loc)
                if h is not None and h.ty == 'list':
                    self.mutate_container(AV(a), s, st, '+=')
                    self.list_extend(a.loc, rhs, st)
            rest = tuple(a for a in cur.alts if a.kind != 'ref')
            if not rest:
                if not isinstance(s.target, ast.Name):
                    pass
                return st
        new = self.binop(opn, cur, rhs, s, st)
        cn, nn = cur.get('num'), new.get('num')
        if cn is not None and nn is not None and len(cur.alts) == 1 and cn.dt in ('n', 'B') and cn.arr and cn.roots and nn.dt in ('f', 'c'):
            new = new.adddeps(N.nar(self.site(s), 'a fractional result is written into the integer record itself'))
        inplace = False
        weak = False
        for a in cur.all('num'):
            if a.arr is False or (a.nd == 0):
                continue
            if a.roots:
                inplace = True
                if not a.arr:
                    weak = True
        if inplace:
            n = cur.get('num')
            self.event('mutate', s, st, roots=n.roots, weak=weak, how='augmented assignment', target=unparse(s.target))
            nn = new.get('num')
            if nn is not None:
                # the same memory now holds the new value
                new2 = AV(tuple(a.rep(roots=n.roots) if a.kind == 'num' else a for a in new.alts), new.deps, None)
                if isinstance(s.target, ast.Name):
                    st.env[s.target.id] = new2
                    self.propagate(st, n.roots, new2, None, skip=s.target.id)
                    return st
                self.propagate(st, n.roots, new2, None)
                if isinstance(s.target, ast.Subscript):
                    self.assign(s.target, new, st, s, quiet=True)
                return st
        self.assign(s.target, new, st, s)
        return st

    # assignment --------------------------------------------------------------
    def assign(self, t, v, st, node, quiet=False):
        if isinstance(t, ast.Name):
            g = st.env.get('\0global')
            if g is not None and t.id in g.vn[1:]:
                self.event('globalwrite', node, st, name=t.id, mod=self.curmod.name)
                for f in st.frames:
                    if f.fid == ('mod', self.curmod.name):
                        f.env[t.id] = v
                return
            nl = st.env.get('\0nonlocal')
            if nl is not None and t.id in nl.vn[1:]:
                fn = st.frames[-1].func
                for f in st.frames[:-1]:
                    if fn is not None and f.fid == fn.fid:
                        f.env[t.id] = v
                return
            st.env[t.id] = self.named(v, node, t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.set_attr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            self.store_item(o, k, v, st, node, t, quiet)

    def named(self, v, node, name):
        """a value without closed form gets an opaque symbol, so that it can be recognised later"""
        if len(v.alts) == 1 and v.alts[0].kind == 'num' and v.alts[0].form is None and v.alts[0].const is NC:
            return AV(v.alts[0].rep(form=F.fatom(('op', self.vsid(node, name)))), v.deps, v.vn)
        return v

    def unpack(self, t, v, st, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        els = self.exact_elems(v, st)
        if els is not None:
            if not star and len(els) != n:
                self.event('unpack-mismatch', node, st, want=n, got=len(els))
                self.raise_(node, st, 'ValueError')
            if star:
                i = star[0]
                after = n - i - 1
                mid = els[i:len(els) - after]
                parts = els[:i] + [self.new_list(mid, st, node)] + els[len(els) - after:]
                els = parts
            for e, x in zip(t.elts, els):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, node)
            return
        for i, e in enumerate(t.elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, self.opaque(node, v.deps, roots_of(v), 'star'), st, node)
            else:
                self.assign(e, self.elem_at(v, i, st, node), st, node)

    def set_attr(self, o, name, v, st, node):
        for a in o.alts:
            if a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is None:
                    continue
                if h.ty == 'inst':
                    if h.glob is not None:
                        self.event('attrwrite', node, st, label=h.glob, attr=name)
                    d = dict(h.d)
                    d[name] = (v, True) if len(o.alts) == 1 else (j_av(d[name][0], v, None, E) if name in d else v, False)
                    st.heap[a.loc] = h.rep(d=d)
            elif a.kind in ('func', 'class', 'mod'):
                self.event('globalwrite', node, st, name='%s.%s' % (a.key()[-1] if a.kind != 'func' else a.qual, name), mod=self.curmod.name)
            elif a.kind == 'ext':
                self.event('extwrite', node, st, name=a.name + '.' + name)
            elif a.kind == 'eo':
                self.event('eowrite', node, st, ty=a.ty, prov=a.prov, attr=name)
            elif a.kind == 'num':
                if a.roots:
                    self.event('mutate', node, st, roots=a.roots, weak=False, how='attribute store .%s' % name, target=name)

    def store_item(self, o, k, v, st, node, tnode, quiet=False):
        k = k.adddeps(self.deep(k, st))
        if o.alts and all(a.kind == 'none' for a in o.alts):
            self.event('typeerror', node, st, what='item of `%s` is assigned, which is None' % (ast.unparse(tnode.value) if isinstance(tnode, ast.Subscript) else '?'))
            self.raise_(node, st, 'TypeError')
        for a in o.alts:
            if a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is None:
                    continue
                if not quiet:
                    self.mutate_container(AV(a), node, st, 'item store')
                strong = len(o.alts) == 1 and not is_old(a.loc)
                kc = k.const()
                if h.ty == 'dict':
                    d = dict(h.d)
                    if kc is not NC and not isinstance(kc, Fresh) and hashable(kc):
                        if strong:
                            d[kc] = (v.adddeps(k.deps), True)
                        else:
                            old = d.get(kc)
                            d[kc] = (j_av(old[0], v, None, E), old[1]) if old else (v, False)
                        st.heap[a.loc] = h.rep(d=d)
                    else:
                        # unknown key
                        rest = v if h.rest is None else j_av(h.rest, v, None, E)
                        d = {q: (j_av(x, v, None, E).adddeps(k.deps), m) for q, (x, m) in d.items()} if not isinstance(kc, Fresh) else d
                        st.heap[a.loc] = h.rep(d=d, rest=rest.adddeps(k.deps))
                elif h.ty == 'list':
                    if h.el is not None and isinstance(kc, int) and not isinstance(kc, bool) and -len(h.el) <= kc < len(h.el) and strong:
                        el = list(h.el)
                        el[kc] = v
                        st.heap[a.loc] = h.rep(el=tuple(el))
                    else:
                        e = h.elems()
                        if h.el is not None:
                            st.heap[a.loc] = h.rep(el=tuple(j_av(x, v, None, E).adddeps(k.deps) for x in h.el))
                        else:
                            st.heap[a.loc] = h.rep(summ=v.adddeps(k.deps) if e is None else j_av(e, v, None, E).adddeps(k.deps))
            elif a.kind == 'num':
                if not quiet and a.roots:
                    self.event('mutate', node, st, roots=a.roots, weak=False, how='item store', target=unparse(tnode))
                if a.roots:
                    if a.dt in ('n', 'B') and self.num(v, st).dt in ('f', 'c') and not integral(self.num(v, st)):
                        v = v.adddeps(N.nar(self.site(node), 'fractional values are stored in an array of the integer type of the record'))
                    self.propagate(st, a.roots, v.adddeps(self.deep(v, st)), k, node=node, tnode=tnode, tform=a.form)
            elif a.kind == 'eo':
                if a.ty == 'globals':
                    kc = k.const()
                    done = False
                    for f in st.frames:
                        if f.fid == ('mod', a.prov) and isinstance(kc, str):
                            f.env[kc] = v
                            done = True
                    if not done:
                        self.event('globalwrite', node, st, name=str(kc), mod=a.prov)
                else:
                    self.event('eowrite', node, st, ty=a.ty, prov=a.prov, attr='[]')
            elif a.kind == 'ext':
                self.event('extwrite', node, st, name=a.name + '[]')

    def propagate(self, st, roots, v, idx, skip=None, node=None, tnode=None, tform=None):
        """memory `roots` was (partly) overwritten with v: weaken every value that may share it"""
        site = self.site(node)
        vn = self.num(v, st)
        kf = self.key_form(idx, st) if idx is not None else None

        def weaken(av):
            hit = False
            for a in av.alts:
                if a.kind == 'num' and a.roots & roots:
                    hit = True
                elif a.kind == 'tup':
                    pass
            if not hit:
                # look into tuples
                if any(a.kind == 'tup' for a in av.alts):
                    out = []
                    ch = False
                    for a in av.alts:
                        if a.kind == 'tup':
                            el = [weaken(e) for e in a.el]
                            if any(x is not y for x, y in zip(el, a.el)):
                                a = Tup(el)
                                ch = True
                        out.append(a)
                    return AV(tuple(out), av.deps, av.vn) if ch else av
                return av
            alts = []
            deps = av.deps | v.deps | (idx.deps if idx is not None else E)
            for a in av.alts:
                if a.kind == 'num' and a.roots & roots:
                    a = self.weaken_num(a, vn, idx, v, node, kf, tform if len(roots) == 1 and len(a.roots) == 1 else None)
                alts.append(a)
            return AV(tuple(alts), deps, None)

        for f in st.frames:
            for k, av in f.env.items():
                if f is st.frames[-1] and k == skip:
                    continue
                w = weaken(av)
                if w is not av:
                    f.env[k] = w
        for loc, h in list(st.heap.items()):
            ch = False
            el = h.el
            if el is not None:
                el2 = tuple(weaken(e) for e in el)
                if any(x is not y for x, y in zip(el, el2)):
                    ch = True
                    el = el2
            summ = h.summ
            if summ is not None:
                s2 = weaken(summ)
                if s2 is not summ:
                    summ, ch = s2, True
            d = h.d
            if d is not None:
                d2 = {q: (weaken(x), m) for q, (x, m) in d.items()}
                if any(d2[q][0] is not d[q][0] for q in d):
                    d, ch = d2, True
            if ch:
                st.heap[loc] = h.rep(el=el, summ=summ, d=d)

    integral = staticmethod(lambda a: integral(a))

    def weaken_num(self, a, vn, idx, v, node, kf=None, tform=None):
        law = N.norm_law(a.law | vn.law)
        ic = idx.const() if idx is not None else NC
        sh, dc0 = a.sh, a.dc0
        if idx is not None and a.dc0 and vn.sh is not None and N.shz(vn) and covers_zero(idx):
            sh, dc0 = SH0, False
        elif a.sh is N.SHANY:
            sh = vn.sh
        elif a.sh is None or vn.sh is None:
            sh = None
        elif a.sh is not vn.sh and vn.sh is not N.SHANY:
            sh = F.fphi('st', [a.sh, vn.sh])
        if idx is None:
            form = vn.form
        elif a.form is not None and a.form is tform:
            form = F.fapp('st', a.form, kf, vn.form)
        else:
            form = F.fapp('stv', a.form, tform, kf, vn.form)
        if form is None:
            form = F.fatom(('op', self.vsid(node, 'st')))
        parts = None
        if a.parts is not None and isinstance(ic, int) and not isinstance(ic, bool) and 0 <= ic < len(a.parts):
            p = list(a.parts)
            p[ic] = v
            parts = tuple(p)
        iv = jiv(a.iv, vn.iv)
        dt = a.dt
        return a.rep(const=NC, iv=iv, law=law, sh=sh, dc0=dc0, form=form, parts=parts,
                     plen=a.plen if parts is not None else None, dt=dt)

    def mutate_container(self, o, node, st, how):
        for a in o.alts:
            if a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is not None and h.glob is not None:
                    self.event('mutcont', node, st, label=h.glob, how=how)
            elif a.kind == 'num' and a.roots:
                self.event('mutate', node, st, roots=a.roots, weak=False, how=how, target='')

    # control flow -----------------------------------------------------------
    def x_If(self, s, st):
        return self.branch(s.test, st, s.body, s.orelse, s)

    def branch_cond(self, test, st, node, raises):
        tv = self.shaped(self.ev(test, st), st)
        t = self.truth(tv, st)
        if t is False:
            self.raise_(test, st, raises)
        if t is None:
            self.event('raise', test, st, exc=raises)
            self.refine(test, st, True)
        return st

    def branch(self, test, st, body, orelse, node):
        tv = self.shaped(self.ev(test, st), st)
        t = self.truth(tv, st)
        if t is True:
            return self.ex(body, st)
        if t is False:
            return self.ex(orelse, st)
        deps = tv.deps
        self.undec.append((self.site(node), self.deep(tv, st)))
        pc0 = st.pc
        n0 = self.ctls[-1].n if self.ctls else 0
        s1 = st.copy()
        s2 = st
        s1.pc = pc0 | deps
        s2.pc = pc0 | deps
        mid, pol = self.token(tv, node, 'if')
        s1.path = s1.path + ((mid, pol),)
        s2.path = s2.path + ((mid, not pol),)
        try:
            self.refine(test, s1, True)
            r1 = self.ex(body, s1)
        except Dead:
            r1 = None
        n1 = self.ctls[-1].n if self.ctls else 0
        try:
            self.refine(test, s2, False)
            r2 = self.ex(orelse, s2)
        except Dead:
            r2 = None
        n2 = self.ctls[-1].n if self.ctls else 0
        if r1 is None and r2 is None:
            return None
        exited = n2 > n0
        if r1 is None or r2 is None:
            r = r1 if r1 is not None else r2
            gone_by_exit = (n1 > n0) if r1 is None else (n2 > n1)
            if not exited:
                r.pc = pc0 | (r.pc - deps)
                lab = [x for x in tv.deps if x[0] in ('BAD', 'SHV')]
                if lab:
                    self.event('rejects', test, r, labels=lab)
            elif gone_by_exit or exited:
                r.pc = r.pc | deps
            return r
        extra = (r1.pc | r2.pc) - pc0 - deps
        r = join_states(r1, r2, deps, mid, True) if pol else join_states(r2, r1, deps, mid, True)
        r.pc = pc0 | extra | (deps if exited else E)
        return r

    def loop_names(self, s):
        r = self._lnames.get(id(s))
        if r is None:
            r = self._lnames[id(s)] = sorted({q.id for q in ast.walk(s) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load)}
                                             | {q.target.id for q in ast.walk(s) if isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Name)})
        return r

    def valued_loop(self, s, st, run):
        """the values a loop computes are named by the values it starts from"""
        ovc, oiters = self.vc, self.iters
        key = []
        for k in self.loop_names(s):
            v = st.env.get(k)
            if v is not None:
                c = self.content(v, st, 0)
                if c is None:
                    key = None
                    break
                key.append((k, c))
        if key is not None:
            vk = ('l', self.curmod.rel if self.curmod else '?', s.lineno, s.col_offset, tuple(key))
            self.vc = self._vc.setdefault(vk, len(self._vc) + 1)
            self.iters = ()
        try:
            return run()
        finally:
            self.vc, self.iters = ovc, oiters

    def x_While(self, s, st):
        self.loops += 1
        return self.valued_loop(s, st, lambda: self.peeled_while(st, s))

    def peeled_while(self, st, s):
        """unroll the iterations that certainly happen, peel one that may, then the fixpoint"""
        pc0 = st.pc
        res = None
        decided = True
        for k in range(UNROLL + 1):
            tv = self.shaped(self.ev(s.test, st), st)
            t = self.truth(tv, st)
            if t is False:
                done = self.ex(s.orelse, st) if s.orelse else st
                res = join_states(res, done, E, ('wend',) + self.vsid(s)) if res is not None else done
                break
            if t is None or k == UNROLL or isinstance(s.test, ast.Constant):
                if decided is False or k == UNROLL or isinstance(s.test, ast.Constant):
                    done = self.loop(st, s, test=s.test)
                    res = join_states(res, done, tv.deps, ('wloop',) + self.vsid(s)) if res is not None else done
                    break
                decided = False
                skip = st.copy()
                try:
                    self.refine(s.test, skip, False)
                    if s.orelse:
                        skip = self.ex(s.orelse, skip)
                    if skip is not None:
                        res = join_states(res, skip, tv.deps, ('wskip',) + self.vsid(s)) if res is not None else skip
                except Dead:
                    pass
            c = Ctl()
            self.ctls.append(c)
            try:
                st.pc = st.pc | tv.deps
                if t is None:
                    self.refine(s.test, st, True)
                out = self.ex(s.body, st)
            except Dead:
                out = None
            finally:
                self.ctls.pop()
            for x in c.conts:
                out = join_states(out, x, x.pc - pc0, ('cont', 'wh') + self.vsid(s))
            for x in c.breaks:
                res = join_states(res, x, x.pc - pc0, ('brk', 'wh') + self.vsid(s)) if res is not None else x
            if out is None:
                break
            st = out
        if res is not None:
            res.pc = pc0
        return res

    def x_For(self, s, st):
        self.loops += 1
        return self.valued_loop(s, st, lambda: self.do_for(s, st))

    def do_for(self, s, st):
        it = self.ev(s.iter, st)
        els = self.exact_elems(it, st)
        if els is not None and len(els) <= UNROLL:
            brk = []
            iters0 = self.iters
            for q, e in enumerate(els):
                c = Ctl()
                self.ctls.append(c)
                self.iters = iters0 + (q,)
                self.assign(s.target, e.adddeps(it.deps), st, s)
                out = self.ex(s.body, st)
                self.ctls.pop()
                for x in c.conts:
                    out = join_states(out, x, x.pc, ('cont',) + self.vsid(s))
                brk += c.breaks
                if out is None:
                    st = None
                    break
                st = out
            self.iters = iters0
            if st is not None and s.orelse:
                st = self.ex(s.orelse, st)
            for x in brk:
                st = join_states(st, x, x.pc, ('brk',) + self.vsid(s))
            return st
        n = it.alts[0] if len(it.alts) == 1 else None
        if n is not None and n.kind == 'num' and isinstance(n.prov, tuple) and n.prov[0] == 'range':
            return self.peeled(st, s, it, n)
        return self.loop(st, s, it=it)

    def peeled(self, st, s, it, n):
        """range loop of unknown length: first iteration with the exact start value, then the fixpoint"""
        _, start, step, nonempty = n.prov
        pc0 = st.pc
        skip = None if nonempty else st.copy()
        c = Ctl()
        self.ctls.append(c)
        try:
            st.pc = st.pc | it.deps
            self.assign(s.target, mknum(start, it.deps), st, s)
            out = self.ex(s.body, st)
        except Dead:
            out = None
        finally:
            self.ctls.pop()
        for x in c.conts:
            out = join_states(out, x, x.pc - pc0, ('cont', 'peel') + self.vsid(s))
        res = None
        if out is not None:
            out.pc = pc0 | (out.pc - pc0)
            extra = out.pc - pc0
            lo = start + step
            if n.iv[1] < lo:
                res = out
                if s.orelse:
                    res = self.ex(s.orelse, res)
            else:
                rest = AV(n.rep(iv=(max(n.iv[0], float(lo)), n.iv[1]), prov=None), it.deps | extra)
                res = self.loop(out, s, it=rest)
        if skip is not None:
            if s.orelse:
                skip = self.ex(s.orelse, skip)
            res = join_states(res, skip, it.deps, ('skip',) + self.vsid(s)) if res is not None else skip
        for x in c.breaks:
            res = join_states(res, x, x.pc - pc0, ('brk', 'peel') + self.vsid(s))
        if res is not None:
            res.pc = pc0
        return res

    def loop(self, st, s, test=None, it=None):
        pre = st.copy()
        pc0 = st.pc
        head = st
        breaks = []
        sitekey = self.vsid(s, 'loop')
        for rnd in range(12):
            cur = head.copy()
            c = Ctl()
            self.ctls.append(c)
            ldeps = E
            out = None
            try:
                if it is not None:
                    e = self.summary_elem(it, cur, s)
                    ldeps = self.shaped(it, cur).deps
                    if e is None:
                        raise Dead()
                    cur.pc = cur.pc | ldeps
                    self.assign(s.target, e, cur, s)
                else:
                    tv = self.shaped(self.ev(test, cur), cur)
                    t = self.truth(tv, cur)
                    ldeps = tv.deps
                    if t is False:
                        raise Dead()
                    cur.pc = cur.pc | ldeps
                    if t is None:
                        self.refine(test, cur, True)
                out = self.ex(s.body, cur)
            except Dead:
                out = None
            finally:
                self.ctls.pop()
            ldeps2 = ldeps
            for x in c.conts:
                ldeps2 = ldeps2 | (x.pc - pc0)
                out = join_states(out, x, x.pc - pc0, ('cont',) + self.vsid(s))
            breaks = c.breaks
            for x in breaks:
                ldeps2 = ldeps2 | (x.pc - pc0)
            if out is None:
                new = head
                break
            if out is not None:
                ldeps2 = ldeps2 | (out.pc - pc0)
            new = loop_join(self, pre, head, out, ldeps2, sitekey, rnd >= 2)
            new.pc = pc0
            if new.same(head):
                break
            head = new
        end = head
        # was the loop possibly skipped / finished normally?
        res = None
        infinite = test is not None and isinstance(test, ast.Constant) and bool(test.value)
        if not infinite:
            res = end
            res.pc = pc0
            if test is not None:
                try:
                    tv = self.ev(test, res)
                    if self.truth(tv, res) is True and not breaks:
                        pass
                    self.refine(test, res, False)
                except Dead:
                    res = end
            if s.orelse and res is not None:
                res = self.ex(s.orelse, res)
        for x in breaks:
            res = join_states(res, x, x.pc - pc0, ('brk',) + self.vsid(s))
        if res is not None:
            res.pc = pc0
        return res

    def x_With(self, s, st):
        names = []
        for item in s.items:
            v = self.ev(item.context_expr, st)
            e = None
            f = item.context_expr
            if isinstance(f, ast.Call):
                e = self.ev(f.func, st).get('ext')
            names.append(e.name if e is not None else '?')
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, s)
        self.withs.extend(names)
        try:
            st = self.ex(s.body, st)
        finally:
            del self.withs[len(self.withs) - len(names):]
        return st

    x_AsyncWith = x_With

    def x_Try(self, s, st):
        rec = []
        self.trys.append((rec, len(st.frames)))
        depth = len(st.frames)
        n0 = self.ctls[-1].n if self.ctls else 0
        pre = st.copy()
        rec.append((pre, None))
        try:
            out = self.ex(s.body, st)
        finally:
            self.trys.pop()
        if out is not None and s.orelse:
            out = self.ex(s.orelse, out)
        if self.exact:
            return self.exact_handlers(s, out, rec, depth)
        hs = None
        for x, nm in rec:
            y = x.copy()
            del y.frames[depth:]
            hs = join_states(hs, y)
        if s.handlers and hs is not None:
            if self.maybe_raises(s.body):
                for h in s.handlers:
                    y = hs.copy()
                    if h.name:
                        y.env[h.name] = self.opaque(h, tag='exc')
                    if self.import_only(s.body) and self.names_exc(h, ('ImportError', 'ModuleNotFoundError')) \
                            and not any(nm in ('ModuleNotFoundError', 'ImportError') for _, nm in rec):
                        continue     # the third-party dependency is installed
                    r = self.ex(h.body, y)
                    out = join_states(out, r, E, ('try',) + self.vsid(h)) if r is not None else out
        if s.finalbody:
            if out is None:
                # exceptional / returning exits also run the finaliser (effects only)
                if hs is not None:
                    self.ex(s.finalbody, hs.copy())
                return None
            out = self.ex(s.finalbody, out)
        return out

    x_TryStar = x_Try

    def exact_handlers(self, s, out, rec, depth):
        left = [(x, nm) for x, nm in rec if nm]
        for h in s.handlers:
            mine = [x for x, nm in left if self.catches(h, nm)]
            left = [(x, nm) for x, nm in left if not self.catches(h, nm)]
            hs = None
            for x in mine:
                y = x.copy()
                del y.frames[depth:]
                hs = join_states(hs, y)
            if hs is None:
                continue
            if h.name:
                hs.env[h.name] = self.opaque(h, tag='exc')
            r = self.ex(h.body, hs)
            out = join_states(out, r, E, ('try',) + self.vsid(h)) if r is not None else out
        if s.finalbody:
            done = self.ex(s.finalbody, out if out is not None else rec[0][0].copy())
            out = done if out is not None else None
        if left and self.trys:
            self.trys[-1][0].extend(left)
        return out

    def catches(self, h, nm):
        if h.type is None:
            return True
        up = getattr(builtins, nm, Exception)
        for n in ast.walk(h.type):
            name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            c = getattr(builtins, name, None) if name else None
            if name == nm or isinstance(c, type) and isinstance(up, type) and issubclass(up, c):
                return True
        return False

    def import_only(self, body):
        return all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in body)

    def names_exc(self, h, names):
        if h.type is None:
            return True
        return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(h.type))

    def maybe_raises(self, body):
        return True

    def x_Match(self, s, st):
        subj = self.ev(s.subject, st)
        out = None
        rest = st
        for c in s.cases:
            if rest is None:
                break
            y = rest.copy()
            definite = None
            p = c.pattern
            if isinstance(p, ast.MatchValue):
                r = self.compare1('Eq', subj, self.ev(p.value, y), s, y)
                definite = self.truth(r, y)
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                definite = True
                if p.name:
                    y.env[p.name] = subj
            elif isinstance(p, ast.MatchOr):
                rs = [self.truth(self.compare1('Eq', subj, self.ev(q.value, y), s, y), y)
                      for q in p.patterns if isinstance(q, ast.MatchValue)]
                definite = True if True in rs else (False if all(r is False for r in rs) and rs else None)
            elif isinstance(p, ast.MatchSingleton):
                r = self.compare1('Is', subj, mkconst(p.value), s, y)
                definite = self.truth(r, y)
            if definite is False:
                continue
            if c.guard is not None:
                g = self.truth(self.ev(c.guard, y), y)
                if g is False:
                    continue
                if g is None:
                    definite = None
            y.pc = y.pc | subj.deps
            r = self.ex(c.body, y)
            out = join_states(out, r, subj.deps, ('match',) + self.vsid(c.pattern)) if r is not None else out
            if definite is True:
                rest = None
        if rest is not None:
            out = join_states(out, rest, subj.deps, ('match',) + self.vsid(s))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        if n is None:
            return NONE
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, ast.expr):
                    self.ev(ch, st)
            return self.opaque(n)
        try:
            return m(n, st)
        except (Dead, AnalysisError, RecursionError):
            raise
        except Exception as e:
            # a gap of the analyser, not of the program: the value becomes unknown and the gap is counted
            if self.debug:
                raise
            self.internal.append((self.site(n), '%s: %s' % (type(e).__name__, e)))
            return self.opaque(n, tag='gap')

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, (bool, int, float, complex)):
            return mknum(v)
        if isinstance(v, str):
            return mkstr(v)
        if v is Ellipsis:
            return AV(Eo('ellipsis'))
        return AV(Str(NC))

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_JoinedStr(self, n, st):
        deps = E
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                deps = deps | self.e_FormattedValue(v, st).deps
        return mkstr(NC, deps)

    def e_FormattedValue(self, n, st):
        v = self.ev(n.value, st)
        if n.format_spec is not None and v.only('none') and n.conversion == -1:
            self.event('typeerror', n, st, what='number format of None')
            self.raise_(n, st, 'TypeError')
        return mkstr(NC, v.deps)

    def e_Tuple(self, n, st):
        return self.seq(n.elts, st, n, tup=True)

    def e_List(self, n, st):
        return self.seq(n.elts, st, n, tup=False)

    def e_Set(self, n, st):
        els = [self.ev(e, st) for e in n.elts]
        return self.alloc(H('set', el=tuple(els)), st, n)

    def seq(self, elts, st, n, tup):
        els = []
        exact = True
        deps = E
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                x = self.exact_elems(v, st)
                if x is None:
                    exact = False
                    s = self.summary_elem(v, st, e)
                    deps = deps | v.deps
                    if s is not None:
                        els.append(s)
                else:
                    els += x
            else:
                els.append(self.ev(e, st))
        if exact:
            if tup:
                return mktup(els, deps)
            return self.new_list(els, st, n)
        s = None
        for e in els:
            s = e if s is None else av_join(s, e)
        return self.alloc(H('list', summ=s, deps=deps), st, n).adddeps(deps)

    def e_Dict(self, n, st):
        d = {}
        rest = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, st)
                for a in src.alts:
                    if a.kind == 'ref' and a.loc in st.heap and st.heap[a.loc].ty == 'dict':
                        h = st.heap[a.loc]
                        for q, (x, m) in h.d.items():
                            d[q] = (x, m) if (m or q not in d) else (av_join(d[q][0], x), d[q][1])
                        if h.rest is not None:
                            rest = h.rest if rest is None else av_join(rest, h.rest)
                    else:
                        o = self.opaque(n, src.deps, roots_of(src), 'unpack')
                        rest = o if rest is None else av_join(rest, o)
                continue
            kv = self.ev(k, st)
            vv = self.ev(v, st)
            c = kv.const()
            if c is not NC and hashable(c) and not isinstance(c, Fresh):
                d[c] = (vv, True)
            else:
                rest = vv.adddeps(kv.deps) if rest is None else av_join(rest, vv.adddeps(kv.deps))
        return self.alloc(H('dict', d=d, rest=rest), st, n)

    def new_list(self, els, st, n, tag=''):
        return self.alloc(H('list', el=tuple(els)), st, n, tag)

    def new_dict(self, d, st, n, tag='', rest=None):
        return self.alloc(H('dict', d={k: (v, True) for k, v in d.items()}, rest=rest), st, n, tag)

    def alloc(self, h, st, n, tag=''):
        loc = self.sid(n, tag)
        if loc in st.heap:
            old = (loc, 'old')
            cur = st.heap[loc]
            # recency: the previous object becomes the summary object
            self.rename(st, loc, old)
            if old in st.heap:
                st.heap[old] = h_join(st.heap[old], cur, None, E)
            else:
                st.heap[old] = cur
        st.heap[loc] = h
        return AV(Ref(loc))

    def rename(self, st, loc, old):
        def fn(a):
            if a.kind == 'ref' and a.loc == loc:
                return Ref(old)
            if a.kind == 'bound' and any(b.kind == 'ref' and b.loc == loc for b in a.self_.alts):
                return Bound(map_av(a.self_, fn), a.name, a.func)
            return a

        def dd(av):
            r = map_av(av, fn)
            if r is not av and len(r.alts) > 1:
                # drop duplicates
                seen, out = set(), []
                for a in r.alts:
                    k = a.key()
                    if k not in seen:
                        seen.add(k)
                        out.append(a)
                r = AV(tuple(out), r.deps, r.vn)
            return r
        for f in st.frames:
            for k, av in f.env.items():
                w = dd(av)
                if w is not av:
                    f.env[k] = w
        for l, h in list(st.heap.items()):
            ch = False
            el, summ, d, rest = h.el, h.summ, h.d, h.rest
            if el is not None:
                el2 = tuple(dd(e) for e in el)
                if any(x is not y for x, y in zip(el, el2)):
                    el, ch = el2, True
            if summ is not None:
                s2 = dd(summ)
                if s2 is not summ:
                    summ, ch = s2, True
            if rest is not None:
                s2 = dd(rest)
                if s2 is not rest:
                    rest, ch = s2, True
            if d is not None:
                d2 = {q: (dd(x), m) for q, (x, m) in d.items()}
                if any(d2[q][0] is not d[q][0] for q in d):
                    d, ch = d2, True
            if ch:
                st.heap[l] = h.rep(el=el, summ=summ, d=d, rest=rest)

    def e_Lambda(self, n, st):
        return AV(self.mkfunc(n, st))

    def e_IfExp(self, n, st):
        tv = self.shaped(self.ev(n.test, st), st)
        t = self.truth(tv, st)
        if t is True:
            return self.ev(n.body, st)
        if t is False:
            return self.ev(n.orelse, st)
        s1 = st.copy()
        s2 = st.copy()
        v1 = v2 = None
        try:
            self.refine(n.test, s1, True)
            v1 = self.ev(n.body, s1)
        except Dead:
            s1 = None
        try:
            self.refine(n.test, s2, False)
            v2 = self.ev(n.orelse, s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        pc, path = st.pc, st.path
        mid, pol = self.token(tv, n, 'ife')
        if not pol:
            s1, s2, v1, v2 = s2, s1, v2, v1
        st.set_from(self.unrefine(st, join_states(s1, s2, tv.deps, mid)))
        st.pc, st.path = pc, path
        if s1 is None:
            return v2
        if s2 is None:
            return v1
        return j_av(v1, v2, mid, tv.deps)

    def unrefine(self, orig, joined):
        return joined

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        result = None
        cur = st.copy()
        exits, vals = [], []
        deps = E
        for i, e in enumerate(n.values):
            v = self.shaped(self.ev(e, cur), cur).adddeps(deps)
            vals.append(v)
            last = i == len(n.values) - 1
            t = self.truth(v, cur)
            if last:
                exits.append((v, cur))
                break
            if t is None:
                x = cur.copy()
                vv = v
                try:
                    self.refine(e, x, not is_and)
                    if not is_and:
                        vv = self.drop_falsy(v)
                    elif v.only('num') and not v.alts[0].arr and v.alts[0].dt == 'b':
                        vv = mknum(False, v.deps)
                    exits.append((vv, x))
                except Dead:
                    pass
                deps = deps | v.deps
                try:
                    self.refine(e, cur, is_and)
                except Dead:
                    break
            elif t is is_and:
                deps = deps | v.deps
                continue
            else:
                exits.append((v, cur))
                break
        if not exits:
            raise Dead()
        pc = st.pc
        js, jv = None, None
        mid = ('bool',) + self.vsid(n)
        for v, x in exits:
            js = x if js is None else join_states(js, x, deps, mid)
            jv = v if jv is None else j_av(jv, v, mid, deps)
        st.set_from(js)
        st.pc = pc
        # undo refinements made on names during evaluation is unnecessary: states were joined
        # boolean constant folding over the exits
        if len(exits) > 1 and jv.only('num') and not jv.alts[0].arr:
            fs = [v.alts[0].form if v.only('num') else None for v in vals]
            jv = AV(jv.alts[0].rep(form=F.fapp('and' if is_and else 'or', *fs)), jv.deps, jv.vn)
        ts = [self.truth(v, st) for v, _ in exits]
        if all(t is True for t in ts) and jv.const() is NC and all(v.only('num') for v, _ in exits):
            return mknum(True, jv.deps | deps)
        if all(t is False for t in ts) and jv.const() is NC and all(v.only('num') for v, _ in exits):
            return mknum(False, jv.deps | deps)
        return jv.adddeps(deps)

    def drop_falsy(self, v):
        alts = tuple(a for a in v.alts if a.kind != 'none')
        return AV(alts, v.deps, v.vn) if alts and len(alts) != len(v.alts) else v

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        op = type(n.op).__name__
        if op == 'Not':
            v = self.shaped(v, st)
            t = self.truth(v, st)
            r = mkbool(None if t is None else not t, v.deps)
            if t is None:
                x = v.get('num')
                if x is not None and len(v.alts) == 1:
                    a = r.alts[0]
                    return AV(a.rep(form=F.fapp('not', x.form)), v.deps)
            return r
        num = self.num(v, st)
        if num.const is not NC and not num.arr:
            try:
                c = {'USub': lambda x: -x, 'UAdd': lambda x: +x, 'Invert': lambda x: ~x}[op](num.const)
                return mknum(c, v.deps)
            except Exception:
                pass
        if op == 'USub':
            law = frozenset(('l', tuple((s, -c) for s, c in x[1])) if x[0] == 'l' else x for x in num.law)
            if num.dt == 'n' and num.iv != (0.0, 0.0):
                v = v.adddeps(N.nar(self.site(n), 'negation is carried out in the integer type of the record and wraps around'))
            elif num.dt == 'B':
                v = v.adddeps(N.nar(self.site(n), 'truth values are negated as truth values'))
            sh = None if num.sh is None else F.fscale(N.shc(num), -1.0)
            return AV(num.rep(const=NC, iv=N.iv_neg(num.iv), form=F.fscale(num.form, -1.0), law=law, sh=sh,
                              roots=E if num.arr is False else frozenset([self.root(n)]), parts=None, plen=None,
                              anyk=False), v.deps)
        if op == 'Invert':
            return AV(num.rep(const=NC, iv=(0.0, 1.0) if num.dt == 'b' else TOPIV, form=F.fapp('inv', num.form),
                              roots=frozenset([self.root(n)]), parts=None, plen=None), v.deps)
        return AV(num.rep(roots=frozenset([self.root(n)])), v.deps)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        if a.only('none') or b.only('none'):
            self.event('typeerror', n, st, what='arithmetic on None')
            self.raise_(n, st, 'TypeError')
        return self.binop(type(n.op).__name__, a, b, n, st)

    def binop(self, op, a, b, node, st):
        deps = a.deps | b.deps
        # strings
        if a.only('str') and op in ('Add', 'Mod', 'Mult'):
            ca, cb = a.const(), b.const()
            if op == 'Add' and isinstance(ca, str) and isinstance(cb, str):
                return mkstr(ca + cb, deps)
            return mkstr(NC, deps)
        if b.only('str') and op == 'Add':
            return mkstr(NC, deps)
        # paths
        if op == 'Div' and any(x.kind == 'eo' and x.ty == 'Path' for x in a.alts):
            return self.ext.path_join(self, a, [b], node, st)
        # tuples / lists
        if op == 'Add':
            ta, tb = a.get('tup'), b.get('tup')
            if ta is not None and tb is not None and a.only('tup') and b.only('tup'):
                return mktup(ta.el + tb.el, deps)
            la, lb = self.exact_list(a, st), self.exact_list(b, st)
            if la is not None and lb is not None:
                return self.new_list(la + lb, st, node)
            if self.is_list(a, st) and self.is_list(b, st):
                s = None
                for x in (a, b):
                    e = self.summary_elem(x, st, node)
                    if e is not None:
                        s = e if s is None else av_join(s, e)
                return self.alloc(H('list', summ=s, deps=deps), st, node).adddeps(deps)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if self.is_list(x, st) and not self.is_list(y, st):
                    l = self.exact_list(x, st)
                    k = y.const()
                    if l is not None and isinstance(k, int) and 0 <= k * len(l) <= 64:
                        return self.new_list(l * k, st, node)
                    s = self.summary_elem(x, st, node)
                    return self.alloc(H('list', summ=s, deps=deps), st, node).adddeps(deps)
        # sets
        if op in ('Sub', 'BitOr', 'BitAnd', 'BitXor') and (self.is_set(a, st) or self.is_set(b, st)):
            s = None
            for x in (a, b):
                e = self.summary_elem(x, st, node)
                if e is not None:
                    s = e if s is None else av_join(s, e)
            return self.alloc(H('set', summ=s, deps=deps), st, node).adddeps(deps)
        if op == 'BitOr' and (self.is_dict(a, st) or self.is_dict(b, st)):
            if self.is_dict(a, st) and self.is_dict(b, st):
                x, y = st.heap[a.alts[0].loc], st.heap[b.alts[0].loc]
                d = dict(x.d)
                for k, (v, m) in y.d.items():
                    if m is True or k not in d:
                        d[k] = (v, m)
                    else:
                        d[k] = (av_join(d[k][0], v), d[k][1])
                rest = x.rest if y.rest is None else y.rest if x.rest is None else av_join(x.rest, y.rest)
                return self.alloc(H('dict', d=d, rest=rest, deps=x.deps | y.deps), st, node).adddeps(deps)
            return self.opaque(node, deps)
        na, nb = self.num(a, st), self.num(b, st)
        site = self.site(node)
        root = self.root(node)
        if op == 'MatMult':
            return self.ext.matmul(self, a, b, node, st)
        r, labels = N.binop(op, na, nb, site, root)
        return AV(r, deps | frozenset(labels))

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        deps = E
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (left.only('none') or right.only('none')):
                self.event('typeerror', n, st, what='ordering of None')
                self.raise_(n, st, 'TypeError')
            r = self.compare1(type(op).__name__, left, right, n, st)
            deps = deps | r.deps
            if res is None:
                res = r
            else:
                t1, t2 = self.truth(res, st), self.truth(r, st)
                if t1 is False or t2 is False:
                    res = mknum(False, deps)
                elif t1 is True and t2 is True:
                    res = mknum(True, deps)
                else:
                    x, y = self.num(res, st), self.num(r, st)
                    nn, lb = N.binop('BitAnd', x.rep(const=NC), y.rep(const=NC), self.site(n), self.root(n))
                    res = AV(nn.rep(dt='b'), deps)
            left = right
        return res.adddeps(deps)

    def compare1(self, op, a, b, node, st):
        deps = a.deps | b.deps
        if op in ('Is', 'IsNot'):
            r = None
            for x, y in ((a, b), (b, a)):
                if y.only('none'):
                    ks = x.kinds()
                    if ks == {'none'}:
                        r = True
                    elif 'none' not in ks:
                        n = x.get('num')
                        r = None if (n is not None and n.anyk and n.prov != 'arg') else False
                    break
            else:
                ca, cb = a.const(), b.const()
                if isinstance(ca, bool) and isinstance(cb, bool):
                    r = ca is cb
                elif isinstance(ca, bool) or isinstance(cb, bool):
                    other = b if isinstance(ca, bool) else a
                    nn = other.get('num')
                    if nn is None:
                        r = False
                elif len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0].kind in ('func', 'class', 'ext') \
                        and b.alts[0].kind in ('func', 'class', 'ext'):
                    r = a.alts[0].key() == b.alts[0].key()
            if r is not None and op == 'IsNot':
                r = not r
            return mkbool(r, deps)
        if op in ('In', 'NotIn'):
            if len(a.alts) > 1 and all(x.kind == 'str' for x in a.alts):
                rs = {self.contains(b, AV(x), st) for x in a.alts}
                r = rs.pop() if len(rs) == 1 else None
            else:
                r = self.contains(b, a, st)
            if r is not None and op == 'NotIn':
                r = not r
            v = mkbool(r, deps | self.shape_deps(b, st))
            if r is None:
                na = self.num(a, st)
                return AV(v.alts[0].rep(form=None), v.deps)
            return v
        # equality on non numeric
        ca, cb = a.const(), b.const()
        if op in ('Eq', 'NotEq'):
            r = None
            ka, kb = a.kinds(), b.kinds()
            if ca is not NC and cb is not NC and (isinstance(ca, (str, Fresh, type(None), tuple)) or isinstance(cb, (str, Fresh, type(None), tuple))):
                if isinstance(ca, Fresh) or isinstance(cb, Fresh):
                    r = ca is cb
                else:
                    r = ca == cb
            elif ka == {'none'} and 'none' not in kb and not any(x.kind == 'num' and x.anyk for x in b.alts):
                r = False
            elif kb == {'none'} and 'none' not in ka and not any(x.kind == 'num' and x.anyk for x in a.alts):
                r = False
            elif ka == {'str'} and kb == {'num'} and not b.alts[0].anyk:
                r = False
            elif kb == {'str'} and ka == {'num'} and not a.alts[0].anyk:
                r = False
            if r is not None:
                return mkbool(r if op == 'Eq' else not r, deps)
            if 'ref' in ka or 'ref' in kb:
                deps = deps | self.deep(a, st) | self.deep(b, st)
                x, y = self.plain(a, st), self.plain(b, st)
                if x is not None and y is not None and type(x) is type(y):
                    return mkbool((x == y) == (op == 'Eq'), deps)
            if 'str' in ka or 'str' in kb or 'none' in ka or 'none' in kb or 'eo' in ka or 'ref' in ka:
                return mkbool(None, deps)
        na, nb = self.num(a, st), self.num(b, st)
        if op in ('Eq', 'NotEq'):
            for x, y in ((na, nb), (nb, na)):
                if isinstance(x.prov, tuple) and x.prov[0] == 'zw' and y.const is not NC and y.const == 0:
                    deps = deps - x.prov[1]
        if op not in N.CMP:
            return mkbool(None, deps)
        r, labels = N.compare(op, na, nb, self.site(node), self.root(node))
        if self.generic and r.const is NC and not na.arr and not nb.arr:
            g = N.generic_cmp(op, na, nb)
            if g is None and op in ('Eq', 'NotEq') and na.form is not None and nb.form is not None and nb.form.t == () and F.positive(na.form):
                g = op == 'NotEq'
            if g is not None:
                return mknum(g, deps)
        return AV(r, deps | frozenset(labels))

    def plain(self, av, st):
        """the value of a list or set of known constants"""
        if not av.only('ref') or av.alts[0].loc not in st.heap:
            return None
        h = st.heap[av.alts[0].loc]
        if h.ty not in ('list', 'set') or h.el is None:
            return None
        els = [x.const() for x in h.el]
        if any(not isinstance(x, (int, float, str)) for x in els):
            return None
        return els if h.ty == 'list' else frozenset(els)

    def shape_deps(self, av, st):
        d = E
        for a in av.alts:
            if a.kind == 'ref' and a.loc in st.heap:
                d = d | st.heap[a.loc].deps
        return d

    def contains(self, cont, item, st):
        """item in cont -> True/False/None"""
        c = item.const()
        for a in cont.alts:
            if len(cont.alts) > 1:
                return None
            if a.kind == 'str':
                if isinstance(c, str) and isinstance(a.const, str):
                    return c in a.const
                return None
            if a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is None:
                    return None
                if h.ty == 'dict':
                    if c is NC:
                        return None
                    if isinstance(c, Fresh):
                        return False if h.rest is None else None
                    if hashable(c) and c in h.d:
                        return True if h.d[c][1] else None
                    return False if h.rest is None else None
                els = h.el
                if els is None:
                    return None
                return self.in_elems(item, els, st)
            if a.kind == 'tup':
                return self.in_elems(item, a.el, st)
        return None

    def in_elems(self, item, els, st):
        anyn = False
        for e in els:
            r = self.truth(self.compare1('Eq', item, e, self.cur, st), st)
            if r is True:
                return True
            if r is None:
                anyn = True
        return None if anyn else False

    # truth / refinement -------------------------------------------------------
    def truth(self, v, st):
        rs = set()
        for a in v.alts:
            rs.add(self.truth1(a, st))
        if len(rs) == 1:
            return rs.pop()
        return None

    def truth1(self, a, st):
        if a.kind == 'none':
            return False
        if a.kind == 'num':
            if a.const is not NC and not a.arr:
                try:
                    return bool(a.const)
                except Exception:
                    return None
            if a.arr:
                return None
            if a.iv[0] > 0 or a.iv[1] < 0:
                return True
            if a.iv == (0.0, 0.0):
                return False
            if self.generic and a.dt != 'b' and N.scaled(a):
                return True
            return None
        if a.kind == 'str':
            if isinstance(a.const, str):
                return bool(a.const)
            if isinstance(a.const, Fresh):
                return True
            return None
        if a.kind == 'tup':
            return len(a.el) > 0
        if a.kind == 'ref':
            h = st.heap.get(a.loc)
            if h is None:
                return None
            if h.ty in ('list', 'set'):
                if h.el is not None:
                    return len(h.el) > 0
                return None
            if h.ty == 'dict':
                if any(m for _, m in h.d.values()):
                    return True
                return False if not h.d and h.rest is None else None
            return True
        if a.kind == 'eo':
            if a.ty in ('boolpred',):
                return None
            return True if a.ty in ('mpl', 'Path', 'Generator') else None
        return True

    def refine(self, test, st, truth):
        """narrow variables in st assuming `test` evaluates to `truth`; raise Dead on contradiction"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            if is_and == truth:
                for v in test.values:
                    self.refine(v, st, truth)
            return
        if isinstance(test, (ast.Name, ast.Attribute)):
            self.narrow(test, st, lambda a: self.nar_truth(a, truth, st))
            return
        if isinstance(test, ast.NamedExpr):
            self.narrow(test.target, st, lambda a: self.nar_truth(a, truth, st))
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2:
            ty = self.ev(test.args[1], st)
            self.narrow(test.args[0], st, lambda a: None if self.isinst1(a, ty, st) is (not truth) else a)
            return
        if isinstance(test, ast.Compare):
            if len(test.ops) > 1:
                if truth:
                    l = test.left
                    for o, c in zip(test.ops, test.comparators):
                        self.refine1(l, o, c, st, True)
                        l = c
                return
            self.refine1(test.left, test.ops[0], test.comparators[0], st, truth)

    def nar_truth(self, a, truth, st):
        t = self.truth1(a, st)
        if t is (not truth):
            return None
        if a.kind == 'num' and a.dt == 'b' and not a.arr and a.const is NC:
            return a.rep(const=truth, iv=(float(truth), float(truth)))
        return a

    def narrow(self, node, st, fn):
        if not isinstance(node, ast.Name):
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
                self.narrow_attr(node, st, fn)
            return
        env = self.env_of(node.id, st)
        if env is None:
            return
        v = env[node.id]
        out = []
        ch = False
        for a in v.alts:
            r = fn(a)
            if r is None:
                ch = True
                continue
            if r is not a:
                ch = True
            out.append(r)
        if not out:
            raise Dead()
        if ch:
            env[node.id] = AV(tuple(out), v.deps, v.vn, v.src or v)

    def narrow_attr(self, node, st, fn):
        env = self.env_of(node.value.id, st)
        if env is None:
            return
        o = env[node.value.id]
        if not o.only('ref'):
            return
        h = st.heap.get(o.alts[0].loc)
        if h is None or h.ty != 'inst' or node.attr not in h.d:
            return
        v, m = h.d[node.attr]
        out = [x for x in (fn(a) for a in v.alts) if x is not None]
        if not out:
            raise Dead()
        d = dict(h.d)
        d[node.attr] = (AV(tuple(out), v.deps, v.vn, v.src or v), m)
        st.heap[o.alts[0].loc] = h.rep(d=d)

    def env_of(self, name, st):
        if name in st.env:
            return st.env
        return None

    def refine1(self, left, op, right, st, truth):
        o = type(op).__name__
        NEG = {'Is': 'IsNot', 'IsNot': 'Is', 'Eq': 'NotEq', 'NotEq': 'Eq', 'Lt': 'GtE', 'GtE': 'Lt', 'Gt': 'LtE',
               'LtE': 'Gt', 'In': 'NotIn', 'NotIn': 'In'}
        if not truth:
            o = NEG[o]
        self.silent += 1
        try:
            rv = self.ev(right, st)
            lv = self.ev(left, st)
        finally:
            self.silent -= 1
        for x, y, yv, oo in ((left, right, rv, o), (right, left, lv, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(o, o))):
            if oo in ('In', 'NotIn') and x is right:
                continue
            # x.ndim == k
            if isinstance(x, ast.Attribute) and x.attr == 'ndim' and isinstance(x.value, ast.Name) and oo in ('Eq', 'NotEq'):
                k = yv.const()
                if isinstance(k, int):
                    def f(a, k=k, oo=oo):
                        if a.kind != 'num':
                            return a
                        if oo == 'Eq':
                            if a.nd is not None and a.nd != k:
                                return None
                            return a.rep(nd=k)
                        if a.nd is not None and a.nd == k:
                            return None
                        return a
                    self.narrow(x.value, st, f)
                continue
            if not isinstance(x, (ast.Name, ast.Attribute)):
                continue
            if oo in ('Is', 'IsNot') and yv.only('none'):
                if oo == 'Is':
                    self.narrow(x, st, lambda a: a if a.kind == 'none' else (NoneA() if a.kind == 'num' and a.anyk and a.prov != 'arg' else None))
                else:
                    self.narrow(x, st, lambda a: None if a.kind == 'none' else (a.rep(prov='arg') if a.kind == 'num' and a.anyk and a.prov is None else a))
                continue
            if oo == 'Eq':
                c = yv.const()
                if isinstance(c, str):
                    self.narrow(x, st, lambda a, c=c: (Str(c, a.vn) if (a.const is NC or a.const == c) else None) if a.kind == 'str'
                                else (a if (a.kind == 'num' and a.anyk) else None))
                elif isinstance(c, (int, float)):
                    def f(a, c=c):
                        if a.kind == 'num' and not a.arr and a.arr is False:
                            if a.const is not NC:
                                return a if a.const == c else None
                            if not (a.iv[0] <= c <= a.iv[1]):
                                return None
                            n = mknum(c).alts[0]
                            return n.rep(roots=a.roots, law=a.law if a.law != L_U else n.law, sh=a.sh, form=a.form)
                        if a.kind == 'none':
                            return None
                        return a
                    self.narrow(x, st, f)
                elif yv.only('none'):
                    self.narrow(x, st, lambda a: a if a.kind == 'none' or (a.kind == 'num' and a.anyk) else None)
                continue
            if oo == 'NotEq':
                c = yv.const()
                if isinstance(c, str):
                    self.narrow(x, st, lambda a, c=c: None if a.kind == 'str' and a.const == c else a)
                elif isinstance(c, (int, float)):
                    def f2(a, c=c):
                        if a.kind == 'num' and a.arr is False and a.const is not NC:
                            return None if a.const == c else a
                        if a.kind == 'num' and a.arr is False and a.dt == 'i':
                            if a.iv[0] == c:
                                return a.rep(iv=(a.iv[0] + 1, a.iv[1]))
                            if a.iv[1] == c:
                                return a.rep(iv=(a.iv[0], a.iv[1] - 1))
                        return a
                    self.narrow(x, st, f2)
                continue
            if oo in ('In', 'NotIn'):
                cs = self.const_list(yv, st)
                if cs is None and yv.only('ref'):
                    h = st.heap.get(yv.alts[0].loc)
                    if h is not None and h.ty == 'dict' and h.rest is None:
                        cs = list(h.d)
                if cs is not None and all(isinstance(c, str) for c in cs):
                    if oo == 'In':
                        self.narrow(x, st, lambda a: None if (a.kind == 'str' and (isinstance(a.const, Fresh) or (isinstance(a.const, str) and a.const not in cs))) or a.kind == 'none' else a)
                    else:
                        self.narrow(x, st, lambda a: None if a.kind == 'str' and isinstance(a.const, str) and a.const in cs else a)
                continue
            yn = yv.get('num')
            if yn is None or len(yv.alts) != 1 or yn.arr:
                continue
            lo, hi = yn.iv

            def g(a, oo=oo, lo=lo, hi=hi):
                if a.kind == 'none':
                    return None
                if a.kind != 'num' or a.arr:
                    return a
                l, h = a.iv
                integer = a.dt in ('i', 'b')
                if oo == 'Lt':
                    h = min(h, hi - 1 if integer and not math.isinf(hi) and hi == math.floor(hi) else hi)
                elif oo == 'LtE':
                    h = min(h, hi)
                elif oo == 'Gt':
                    l = max(l, lo + 1 if integer and not math.isinf(lo) and lo == math.floor(lo) else lo)
                elif oo == 'GtE':
                    l = max(l, lo)
                if l > h:
                    return None
                if (l, h) == a.iv:
                    return a
                return a.rep(iv=(l, h))
            if oo in ('Lt', 'LtE', 'Gt', 'GtE'):
                # NaN makes every comparison false: only narrow on the positive side
                self.narrow(x, st, g)

    def isinst1(self, a, ty, st):
        """isinstance(alt, ty) -> True/False/None"""
        names = []

        def coll(t):
            for x in t.alts:
                if x.kind == 'tup':
                    for e in x.el:
                        coll(e)
                elif x.kind == 'ext':
                    names.append(x.name)
                elif x.kind == 'class':
                    names.append(x)
                else:
                    names.append('?')
        coll(ty)
        res = []
        for n in names:
            res.append(self.inst_of(a, n, st))
        if True in res:
            return True
        if all(r is False for r in res) and res:
            return False
        return None

    def inst_of(self, a, n, st):
        if not isinstance(n, str):
            if a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is not None and h.ty == 'inst' and h.cls is not None:
                    return h.cls.key() == n.key() or None
            return False if a.kind in ('none', 'str', 'tup') else None
        s = n.split('.')[-1]
        if n == '?':
            return None
        if a.kind == 'none':
            return s == 'NoneType'
        if a.kind == 'str':
            return s == 'str'
        if a.kind == 'tup':
            return s in ('tuple', 'Sequence', 'Iterable')
        if a.kind == 'ref':
            h = st.heap.get(a.loc)
            if h is None:
                return None
            if h.ty in ('list', 'dict', 'set'):
                return s == h.ty or s in ('Sequence', 'Iterable', 'Mapping', 'MutableMapping', 'Collection') and None
            return None
        if a.kind == 'eo':
            if a.ty == 'Path':
                return True if s in ('Path', 'PurePath', 'PathLike') else False
            if a.ty == 'Generator':
                return True if s == 'Generator' else (False if s in ('ndarray', 'str', 'int', 'float', 'list', 'dict', 'tuple') else None)
            return None
        if a.kind in ('func', 'bound', 'partial'):
            return False
        if a.kind == 'num':
            if a.anyk:
                return None
            if s == 'str' or s == 'dict':
                return False
            if s in ('list', 'tuple', 'set'):
                return False if a.arr is not None else None
            if s == 'ndarray':
                return True if a.arr else (False if a.arr is False else None)
            if s == 'bool':
                return True if a.dt == 'b' and a.arr is False else (False if a.dt in ('i', 'f', 'c') and a.arr is False else None)
            if s in ('int', 'integer', 'Integral'):
                if a.arr is False and a.const is not NC:
                    if s == 'int':
                        return isinstance(a.const, int)
                    return isinstance(a.const, int) and not (isinstance(a.const, bool) and s == 'integer') if s != 'integer' else False
                return False if (a.dt in ('f', 'c') and a.arr is False) else None
            if s in ('float', 'floating'):
                if a.arr is False and a.const is not NC and s == 'float':
                    return isinstance(a.const, float)
                return False if a.dt in ('b', 'i') and a.arr is False and a.const is not NC else None
            return None
        return None

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def comp(self, n, st, ty):
        saved = dict(st.env)
        items = []      # (value or (k,v), must)
        exact = [True]
        deps = [E]

        def gen(i, must):
            if i == len(n.generators):
                try:
                    if ty == 'dict':
                        items.append(((self.ev(n.key, st), self.ev(n.value, st)), must))
                    else:
                        items.append((self.ev(n.elt, st), must))
                except Dead:
                    pass
                return
            g = n.generators[i]
            it = self.ev(g.iter, st)
            els = self.exact_elems(it, st)
            if els is None or len(els) > 40:
                if els is not None:
                    s = None
                    for e in els:
                        s = e if s is None else av_join(s, e)
                else:
                    s = self.summary_elem(it, st, g.iter)
                exact[0] = False
                deps[0] = deps[0] | it.deps | self.shape_deps(it, st)
                els = [s] if s is not None else []
            for e in els:
                try:
                    self.assign(g.target, e, st, n)
                except Dead:
                    continue
                m = must
                dead = False
                back = None
                for c in g.ifs:
                    cv = self.shaped(self.ev(c, st), st)
                    t = self.truth(cv, st)
                    if t is False:
                        dead = True
                        break
                    if t is None:
                        m = False
                        exact[0] = False
                        deps[0] = deps[0] | cv.deps
                        if back is None:
                            back = dict(st.env)
                        try:
                            self.refine(c, st, True)
                        except Dead:
                            dead = True
                            break
                if not dead:
                    gen(i + 1, m)
                if back is not None:
                    # undo narrowing of enclosing variables
                    for k, v in back.items():
                        st.env[k] = v
        gen(0, True)
        # comprehension variables are local
        tnames = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    tnames.add(x.id)
        for k in tnames:
            if k in saved:
                st.env[k] = saved[k]
            else:
                st.env.pop(k, None)
        d = deps[0]
        if ty == 'dict':
            dd = {}
            rest = None
            for (k, v), m in items:
                c = k.const()
                if c is not NC and hashable(c) and not isinstance(c, Fresh):
                    dd[c] = (v.adddeps(d), m and exact[0])
                else:
                    rest = v.adddeps(k.deps | d) if rest is None else av_join(rest, v.adddeps(k.deps | d))
            return self.alloc(H('dict', d=dd, rest=rest, deps=d), st, n).adddeps(d)
        if exact[0]:
            return self.alloc(H(ty, el=tuple(v for v, _ in items)), st, n)
        s = None
        for v, m in items:
            s = v if s is None else av_join(s, v)
        return self.alloc(H(ty, summ=s.adddeps(d) if s is not None else None, deps=d), st, n).adddeps(d)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        y = st.env.get('\0yield')
        st.env['\0yield'] = v if y is None else av_join(y, v)
        return self.opaque(n)

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        s = self.summary_elem(v, st, n)
        if s is not None:
            y = st.env.get('\0yield')
            st.env['\0yield'] = s if y is None else av_join(y, s)
        return self.opaque(n)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # ----------------------------------------------------------- element access
    def exact_elems(self, av, st):
        """list of element AVs if the value is one sequence of exactly known length"""
        if len(av.alts) != 1:
            return None
        a = av.alts[0]
        if a.kind == 'tup':
            return [e.adddeps(av.deps) for e in a.el]
        if a.kind == 'ref':
            h = st.heap.get(a.loc)
            if h is None or is_old(a.loc):
                return None
            if h.ty in ('list', 'set') and h.el is not None:
                return [e.adddeps(av.deps) for e in h.el]
            if h.ty == 'dict' and h.rest is None and all(m for _, m in h.d.values()):
                return [mkconst(k) for k in h.d]
            return None
        if a.kind == 'num' and a.parts is not None and a.plen is not None:
            return [e.adddeps(av.deps) for e in a.parts]
        return None

    def exact_list(self, av, st):
        if not av.only('ref'):
            return None
        h = st.heap.get(av.alts[0].loc)
        if h is None or h.ty != 'list':
            return None
        return self.exact_elems(av, st)

    def is_list(self, av, st):
        return av.only('ref') and av.alts[0].loc in st.heap and st.heap[av.alts[0].loc].ty == 'list'

    def is_dict(self, av, st):
        return av.only('ref') and av.alts[0].loc in st.heap and st.heap[av.alts[0].loc].ty == 'dict'

    def is_set(self, av, st):
        return av.only('ref') and av.alts[0].loc in st.heap and st.heap[av.alts[0].loc].ty == 'set'

    def summary_elem(self, av, st, node):
        """one AV describing every element, or None if definitely empty"""
        out = None
        for a in av.alts:
            e = None
            if a.kind == 'tup':
                for x in a.el:
                    e = x if e is None else av_join(e, x)
            elif a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is None:
                    e = self.opaque(node, av.deps)
                elif h.ty in ('list', 'set'):
                    e = h.elems()
                    if e is None and h.el is None:
                        e = None
                    if e is not None:
                        e = e.adddeps(h.deps)
                elif h.ty == 'dict':
                    ks = [mkconst(k) for k in h.d]
                    for x in ks:
                        e = x if e is None else av_join(e, x)
                    if h.rest is not None:
                        o = self.opaque(node, av.deps, tag='key')
                        e = o if e is None else av_join(e, o)
                else:
                    e = self.opaque(node, av.deps)
            elif a.kind == 'num':
                if a.arr is False and not a.anyk:
                    e = AV(a)
                else:
                    e = AV(self.elem_num(a, ('elem', self.vsid(node)), node))
            elif a.kind == 'str':
                e = mkstr(NC, av.deps)
            elif a.kind == 'eo':
                e = AV(Eo(a.ty, a.prov, a.roots)) if a.ty == 'mpl' else (
                    self.ext.path_child(self, a, node) if a.ty == 'Path' else self.opaque(node, av.deps, a.roots))
            elif a.kind == 'none':
                continue
            else:
                e = self.opaque(node, av.deps)
            if e is not None:
                out = e if out is None else av_join(out, e)
        return out.adddeps(av.deps) if out is not None else None

    def elem_num(self, a, tag, node):
        """element (or row) of an array"""
        nd = a.nd - 1 if a.nd else None
        arr = False if nd == 0 else None
        roots = a.roots if nd != 0 else E
        form = None
        if a.form is not None:
            form = F.fatom(('f', 'elem', a.form.id, str(tag)))
        sh = a.sh
        dc0 = False
        if a.dc0 and sh is not None and not N.shz(a):
            sh = None
        return Num(const=NC, iv=a.iv, arr=arr, dt=a.dt, nd=nd, roots=roots, law=nonlit(a.law), sh=sh, form=form,
                   anyk=a.anyk, dc0=dc0)

    def elem_at(self, av, i, st, node, soft=False):
        """av[i] for a constant integer i"""
        outs = None
        for a in av.alts:
            e = None
            if a.kind == 'tup':
                if -len(a.el) <= i < len(a.el):
                    e = a.el[i]
            elif a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is not None and h.ty == 'list' and h.el is not None:
                    if -len(h.el) <= i < len(h.el):
                        e = h.el[i]
                    else:
                        continue
                elif h is not None and h.ty in ('list', 'set'):
                    e = h.summ.adddeps(h.deps) if h.summ is not None else None
                elif h is not None and h.ty == 'dict':
                    if i in h.d:
                        e = h.d[i][0]
                    elif h.rest is not None:
                        e = h.rest
                    else:
                        continue
                else:
                    e = self.opaque(node, av.deps)
            elif a.kind == 'num':
                if a.parts is not None and (a.plen is not None or i >= 0):
                    if -len(a.parts) <= i < len(a.parts):
                        e = a.parts[i]
                    else:
                        e = AV(self.elem_num(a, i, node))
                elif a.form is not None and is_app(a.form, 'shape') and i == 0:
                    base = app_args(a.form)[0]
                    e = AV(Num(arr=False, nd=0, dt='i', iv=(0.0, INF), law=L_0, sh=SH0, form=F.fapp('len', base)))
                elif a.form is not None and is_app(a.form, 'shape'):
                    e = AV(Num(arr=False, nd=0, dt='i', iv=(0.0, INF), law=L_0, sh=SH0, form=F.fapp('idx', a.form, F.fconst(i))))
                else:
                    n = self.elem_num(a, i, node)
                    e = AV(n.rep(form=F.fapp('idx', a.form, F.fconst(i)) if a.form is not None else None,
                                 sh=SH0 if (a.dc0 and i != 0) else n.sh))
            elif a.kind == 'none':
                continue
            elif a.kind == 'str':
                e = mkstr(a.const[i] if isinstance(a.const, str) and -len(a.const) <= i < len(a.const) else NC)
            else:
                e = self.get_item_other(a, i, node, av.deps)
            if e is not None:
                outs = e if outs is None else av_join(outs, e)
        if outs is None:
            if soft:
                return None
            self.event('indexerror', node, st, idx=i)
            self.raise_(node, st, 'IndexError')
        return outs.adddeps(av.deps)

    def get_item_other(self, a, i, node, deps):
        if a.kind == 'eo' and a.ty == 'mpl':
            return AV(Eo('mpl', a.prov, a.roots), deps)
        if a.kind == 'eo':
            return self.opaque(node, deps, a.roots)
        return self.opaque(node, deps)

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            return self.e_Slice(n, st)
        if isinstance(n, ast.Tuple):
            els = [self.ev_index(e, st) for e in n.elts]
            return mktup(els)
        return self.ev(n, st)

    def e_Slice(self, n, st):
        parts = [self.ev(x, st) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
        deps = E
        for p in parts:
            deps = deps | p.deps
        return AV(Eo('slice', tuple(p.key() for p in parts), E), deps, ('slice', tuple(parts)))

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        k = self.ev_index(n.slice, st)
        return self.get_item(o, k, n, st)

    def get_item(self, o, k, n, st):
        deps = o.deps | self.deep(k, st)
        c = k.const()
        out = None
        for a in o.alts:
            e = self.get_item1(a, o, k, c, n, st)
            if e is not None:
                out = e if out is None else av_join(out, e)
        if out is None:
            self.event('noitem', n, st, key=None if c is NC else c)
            self.raise_(n, st, 'KeyError')
        return out.adddeps(deps)

    def get_item1(self, a, o, k, c, n, st):
        sl = k.vn[1] if isinstance(k.vn, tuple) and k.vn and k.vn[0] == 'slice' else None
        if a.kind == 'none':
            return None
        if a.kind == 'ref':
            h = st.heap.get(a.loc)
            if h is None:
                return self.opaque(n)
            if h.ty == 'dict':
                if c is not NC and hashable(c) and not isinstance(c, Fresh):
                    if c in h.d:
                        v, m = h.d[c]
                        if not m:
                            self.event('maykey', n, st, key=c, label=h.glob)
                        if h.rest is not None and not m:
                            v = av_join(v, h.rest)
                        return v
                    if h.rest is not None:
                        return h.rest
                    self.event('badkey', n, st, key=c, have=tuple(sorted(map(str, h.d))), label=h.glob)
                    return None
                if isinstance(c, Fresh):
                    return h.rest
                e = h.elems()
                return e.adddeps(k.deps) if e is not None else None
            if h.ty == 'list':
                if isinstance(c, int) and not isinstance(c, bool):
                    return self.elem_at(AV(a), c, st, n, True)
                if sl is not None:
                    return self.slice_seq(a, sl, n, st)
                e = h.elems()
                return e.adddeps(h.deps) if e is not None else None
            if h.ty == 'inst':
                return self.call_method(AV(a), '__getitem__', [k], {}, n, st)
            return self.opaque(n)
        if a.kind == 'tup':
            if isinstance(c, int) and not isinstance(c, bool):
                if -len(a.el) <= c < len(a.el):
                    return a.el[c]
                self.event('indexerror', n, st, idx=c)
                return None
            if sl is not None:
                lo, hi, stp = [x.const() for x in sl]
                if all(x is None or isinstance(x, int) for x in (lo, hi, stp)):
                    return mktup(a.el[slice(lo, hi, stp)])
            e = None
            for x in a.el:
                e = x if e is None else av_join(e, x)
            return e
        if a.kind == 'str':
            return mkstr(NC)
        if a.kind == 'num':
            return self.index_num(a, k, c, sl, n, st)
        if a.kind == 'eo':
            if a.ty == 'mpl':
                return AV(Eo('mpl', a.prov, a.roots))
            if a.ty == 'globals':
                if isinstance(c, str):
                    v = self.mod_attr(self.p.modules[a.prov], c, st)
                    if v is not None:
                        return v
            return self.opaque(n, roots=a.roots)
        if a.kind == 'ext':
            return AV(Ext(a.name + '[]'))
        if a.kind == 'class':
            return AV(a)
        return self.opaque(n)

    def slice_seq(self, a, sl, n, st):
        h = st.heap[a.loc]
        lo, hi, stp = [x.const() for x in sl]
        if h.el is not None and all(x is None or (isinstance(x, int) and not isinstance(x, bool)) for x in (lo, hi, stp)):
            return self.new_list(h.el[slice(lo, hi, stp)], st, n, 'sl')
        return self.alloc(H('list', summ=h.elems(), deps=h.deps), st, n, 'sl')

    def index_num(self, a, k, c, sl, n, st):
        """numpy / opaque indexing"""
        kform = self.key_form(k, st)
        form = None
        if a.form is not None and kform is not None:
            form = F.fapp('idx', a.form, kform)
        if isinstance(c, int) and not isinstance(c, bool):
            return self.elem_at(AV(a), c, st, n)
        if isinstance(c, str):
            # opaque mapping
            return AV(Num(anyk=True, roots=a.roots, form=F.fapp('key', a.form, F.fatom(('str', c))) if a.form is not None else None,
                          law=a.law, sh=a.sh, prov='key'))
        law, sh = nonlit(a.law), a.sh
        if sl is not None:
            lo, hi, stp = sl
            lc, hc, sc = lo.const(), hi.const(), stp.const()
            parts, plen = None, None
            if a.parts is not None and all(x is None or (isinstance(x, int) and not isinstance(x, bool)) for x in (lc, hc, sc)):
                if a.plen is not None or ((hc is not None and 0 <= hc <= len(a.parts)) and (lc is None or lc >= 0) and sc in (None, 1)):
                    parts = a.parts[slice(lc, hc, sc)]
                    plen = len(parts)
            dc0 = a.dc0 and (lc in (None, 0)) and sc in (None, 1)
            if a.dc0 and not dc0 and lc is not None and isinstance(lc, int) and lc > 0:
                sh = SH0
                dc0 = False
            elif a.dc0 and not dc0:
                lon = self.num(lo, st)
                if lon.iv[0] >= 1:
                    sh = SH0
            full = lc in (None, 0) and hc is None and sc is None
            return AV(a.rep(const=NC, form=a.form if full else form, ln=a.ln if full else (F.fapp('len', form) if form is not None else None),
                            parts=parts, plen=plen, dc0=dc0, sh=sh, law=law, arr=True if a.arr else a.arr, prov=None if isinstance(a.prov, tuple) and not full else a.prov))
        tp = k.get('tup')
        if tp is not None and len(k.alts) == 1:
            # multi-dimensional index
            nscal, fancy, nnew = 0, False, 0
            for e in tp.el:
                if isinstance(e.vn, tuple) and e.vn and e.vn[0] == 'slice':
                    continue
                x = e.alts[0]
                if x.kind == 'eo' and x.ty == 'ellipsis':
                    continue
                if x.kind == 'none':
                    nnew += 1
                    continue
                if x.kind == 'num' and (x.arr is True or x.dt == 'b') or (x.kind == 'ref'):
                    fancy = True
                else:
                    nscal += 1
            nd = a.nd - nscal + nnew if a.nd is not None else None
            if nd is not None and nd < 0:
                nd = None
            keepform = a.form if (nnew and not nscal and not fancy) else form
            arr = True if (nd or fancy) else (False if nd == 0 else None)
            # column of a matrix built from parts
            parts, plen = None, None
            cc = None
            if a.parts is not None and a.prov == 'cols' and len(tp.el) == 2:
                ci = tp.el[1].const()
                rowall = isinstance(tp.el[0].vn, tuple) and tp.el[0].vn[0] == 'slice' and all(x.only('none') for x in tp.el[0].vn[1])
                if isinstance(ci, int) and rowall and -len(a.parts) <= ci < len(a.parts) and (a.plen is not None or ci >= 0):
                    return a.parts[ci]
            prov = None
            if nnew == 1 and a.nd == 1 and len(tp.el) == 2 and all(e.only('none') or isinstance(e.vn, tuple) and e.vn[:1] == ('slice',) and all(x.only('none') for x in e.vn[1]) for e in tp.el):
                prov = ('row' if tp.el[0].only('none') else 'col', a.ln if a.ln is not None else F.fapp('len', a.form) if a.form is not None else None)
            return AV(Num(iv=a.iv, arr=arr, dt=a.dt, nd=nd, prov=prov, roots=E if (fancy or nd == 0) else a.roots, law=law,
                          sh=sh if not (a.dc0 and not N.shz(a)) else None, form=keepform, anyk=False,
                          ln=a.ln if nnew and a.nd == 1 else None,
                          parts=parts, plen=plen))
        kn = k.get('num')
        fancy = False
        if kn is not None:
            fancy = kn.arr is True or (kn.dt == 'b')
        for x in k.alts:
            if x.kind == 'ref':
                fancy = True
        if k.only('none'):
            return AV(a.rep(const=NC, nd=a.nd + 1 if a.nd is not None else None, parts=None, plen=None))
        if fancy:
            sh2, dc0 = sh, False
            if a.dc0 and not N.shz(a):
                lo = kn.iv[0] if kn is not None else -INF
                sh2 = SH0 if (lo >= 1 and kn.dt != 'b') else None
            return AV(Num(iv=a.iv, arr=True, dt=a.dt, nd=a.nd if (a.nd == 1) else None, roots=frozenset([self.root(n)]),
                          law=law, sh=sh2, form=form, dc0=dc0))
        # scalar (or unknown) index
        scalar_idx = kn is not None and kn.arr is False
        nd = a.nd - 1 if a.nd else None
        if a.dc0 and not N.shz(a) and sh is not None:
            lo = kn.iv[0] if kn is not None else -INF
            sh = SH0 if lo >= 1 else None
        e = self.elem_num(a, ('i', self.vsid(n)), n)
        if a.parts is not None and nd == 0:
            j = None
            for p in a.parts:
                j = p if j is None else av_join(j, p)
            if j is not None and a.prov != 'cols':
                return j
        roots = a.roots if nd != 0 else E
        return AV(e.rep(form=form, sh=sh if sh is not None else None, roots=roots, nd=nd, arr=False if nd == 0 else None))

    def key_form(self, k, st):
        """form describing an index expression"""
        if isinstance(k.vn, tuple) and k.vn and k.vn[0] == 'slice':
            fs = []
            for p in k.vn[1]:
                if p.only('none'):
                    fs.append(F.fatom(('none',)))
                else:
                    f = self.num(p, st).form
                    if f is None:
                        return None
                    fs.append(f)
            return F.fapp('slice', *fs)
        tp = k.get('tup')
        if tp is not None and len(k.alts) == 1:
            fs = [self.key_form(e, st) for e in tp.el]
            if any(f is None for f in fs):
                return None
            return F.fapp('tuple', *fs)
        if k.only('none'):
            return F.fatom(('none',))
        if len(k.alts) == 1 and k.alts[0].kind == 'eo':
            return F.fatom(('eo', k.alts[0].ty))
        if len(k.alts) == 1 and k.alts[0].kind == 'str' and isinstance(k.alts[0].const, str):
            return F.fatom(('str', k.alts[0].const))
        n = k.get('num')
        if n is not None and len(k.alts) == 1:
            return n.form
        if st is not None:
            return self.num(k, st).form
        return None

    # -------------------------------------------------------------- to numeric
    def num(self, av, st):
        """view of an AV as one Num (lists and tuples become arrays)"""
        if len(av.alts) == 1 and av.alts[0].kind == 'num':
            return av.alts[0]
        out = None
        for a in av.alts:
            if a.kind == 'num':
                n = a
            elif a.kind == 'none':
                if len(av.alts) > 1:
                    continue
                n = Num(anyk=True, law=L_ANY, sh=SH0, form=F.fatom(('none',)))
            elif a.kind == 'tup':
                n = self.seq_num(a.el, True)
            elif a.kind == 'ref' and st is not None:
                h = st.heap.get(a.loc)
                if h is not None and h.ty in ('list', 'set'):
                    if h.el is not None and not is_old(a.loc):
                        n = self.seq_num(h.el, True)
                        if h.ty == 'set':
                            n = n.rep(parts=None, plen=None)
                    elif h.summ is not None:
                        m = self.num(h.summ, st)
                        n = Num(iv=m.iv, arr=True, dt=m.dt, nd=m.nd + 1 if m.nd is not None else None, law=nonlit(m.law), sh=m.sh,
                                form=F.fatom(('op', ('list', vloc(self, a.loc), m.form.id if m.form is not None else None))))
                    else:
                        n = Num(arr=True, law=L_ANY, sh=N.SHANY, nd=1, form=F.fatom(('op', ('elist', a.loc))))
                else:
                    n = Num(anyk=True, form=None)
            elif a.kind == 'str':
                n = Num(anyk=True, law=L_0, sh=SH0, form=F.fatom(('str', a.const)) if isinstance(a.const, str) else None)
            else:
                n = Num(anyk=True, form=None)
            out = n if out is None else num_join(out, n)
        return out if out is not None else Num(anyk=True)

    def seq_num(self, els, exact):
        if not els:
            return Num(arr=True, nd=1, law=L_ANY, sh=N.SHANY, parts=(), plen=0, form=F.fapp('array'), ln=F.fconst(0))
        ns = [self.num(e, None) if not any(a.kind == 'ref' for a in e.alts) else Num(anyk=True) for e in els]
        j = ns[0]
        for m in ns[1:]:
            j = num_join(j, m)
        law = frozenset().union(*[m.law for m in ns])
        form = F.fapp('array', *[m.form for m in ns]) if len(ns) <= 32 else None
        return Num(iv=j.iv, arr=True, dt=j.dt, nd=j.nd + 1 if j.nd is not None else None, law=N.norm_law(law), sh=j.sh, form=form,
                   parts=tuple(els), plen=len(els), ln=F.fconst(len(els)))

    # ---------------------------------------------------------------- attributes
    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.get_attr(o, n.attr, n, st)

    def get_attr(self, o, name, n, st):
        out = None
        for a in o.alts:
            v = self.get_attr1(a, o, name, n, st)
            if v is not None:
                out = v if out is None else av_join(out, v)
        if out is None:
            self.event('attrnone', n, st, attr=name, of=', '.join(sorted(o.kinds())))
            self.raise_(n, st, 'AttributeError')
        return out.adddeps(o.deps)

    def get_attr1(self, a, o, name, n, st):
        if a.kind == 'none':
            return None
        if a.kind == 'mod':
            v = self.mod_attr(a.mod, name, st)
            if v is None:
                self.event('badattr', n, st, mod=a.mod.name, attr=name, only=len(o.alts) == 1)
                return self.opaque(n, tag=name)
            return v
        if a.kind == 'ext':
            return self.ext.ext_attr(self, a.name + '.' + name, n, st)
        if a.kind == 'ref':
            h = st.heap.get(a.loc)
            if h is not None and h.ty == 'inst':
                if name in h.d:
                    return h.d[name][0]
                if h.cls is not None:
                    v = self.class_attr(h.cls, name, st)
                    if v is not None:
                        fn = v.get('func')
                        if fn is not None and not (isinstance(v.vn, tuple) and v.vn[:1] == ('deco',) and v.vn[1] == 'staticmethod'):
                            if isinstance(v.vn, tuple) and v.vn[:1] == ('deco',) and v.vn[1] in ('property', 'cached_property'):
                                return self.call_func(fn, [AV(a)], {}, n, st)
                            if isinstance(v.vn, tuple) and v.vn[:1] == ('deco',) and v.vn[1] == 'classmethod':
                                return AV(Bound(AV(h.cls), name, fn))
                            return AV(Bound(AV(a), name, fn))
                        return v
                if h.rest is not None:
                    return h.rest
                self.event('badattr', n, st, mod=str(h.cls), attr=name)
                return None
            return AV(Bound(AV(a, o.deps), name))
        if a.kind == 'class':
            if name == '__name__':
                return mkstr(a.qual)
            v = self.class_attr(a, name, st)
            if v is not None:
                if isinstance(v.vn, tuple) and v.vn[:1] == ('deco',) and v.vn[1] == 'classmethod':
                    return AV(Bound(AV(a), name, v.get('func')))
                return v
            return self.opaque(n)
        if a.kind == 'num':
            return self.ext.num_attr(self, a, o, name, n, st)
        if a.kind == 'eo':
            return self.ext.eo_attr(self, a, o, name, n, st)
        if a.kind in ('str', 'tup'):
            return AV(Bound(AV(a, o.deps, o.vn), name))
        if a.kind == 'func':
            if name in ('__name__', '__doc__', '__qualname__'):
                return mkstr(a.name)
            return self.opaque(n)
        if a.kind == 'partial':
            return self.opaque(n)
        return AV(Bound(AV(a), name))

    def class_attr(self, c, name, st):
        if name in c.attrs:
            return c.attrs[name]
        for b in c.bases:
            for x in b.alts:
                if x.kind == 'class':
                    v = self.class_attr(x, name, st)
                    if v is not None:
                        return v
        return None

    # --------------------------------------------------------------------- calls
    def e_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.opaque(n)
        f = self.ev(n.func, st)
        args = []
        kw = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                els = self.exact_elems(v, st)
                if els is None:
                    args.append(AV(Eo('star', None, roots_of(v)), v.deps, ('star', v)))
                else:
                    args += els
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, st)
                for x in v.alts:
                    if x.kind == 'ref' and x.loc in st.heap and st.heap[x.loc].ty == 'dict':
                        h = st.heap[x.loc]
                        for q, (y, m) in h.d.items():
                            if isinstance(q, str):
                                kw[q] = y.adddeps(v.deps) if m else AV(y.alts, y.deps | v.deps, ('maykw', y))
                        if h.rest is not None:
                            kw['\0rest'] = h.rest.adddeps(v.deps)
                    else:
                        kw['\0rest'] = self.opaque(n, v.deps, roots_of(v), 'kw')
            else:
                kw[k.arg] = self.ev(k.value, st)
        return self.call(f, args, kw, n, st)

    def call(self, f, args, kw, n, st):
        if len(f.alts) == 1:
            return self.call1(f.alts[0], f, args, kw, n, st)
        out = None
        alive = False
        js = None
        cands = [a for a in f.alts if a.kind != 'none']
        for a in cands:
            s = st.copy()
            s.pc = s.pc | f.deps              # which function is called depends on how it was chosen
            try:
                v = self.call1(a, f, args, kw, n, s)
            except Dead:
                continue
            out = v if out is None else j_av(out, v, ('call',) + self.vsid(n), f.deps)
            js = s if js is None else join_states(js, s, f.deps, ('call',) + self.vsid(n))
            alive = True
        if not alive:
            raise Dead()
        pc = st.pc
        st.set_from(js)
        st.pc = pc
        return out

    def call1(self, a, f, args, kw, n, st):
        if a.kind == 'func':
            return self.call_func(a, args, kw, n, st)
        if a.kind == 'bound':
            if a.func is not None:
                return self.call_func(a.func, [a.self_] + args, kw, n, st)
            return self.call_method(a.self_, a.name, args, kw, n, st)
        if a.kind == 'ext':
            return self.ext.call_ext(self, a.name, args, kw, n, st).adddeps(f.deps)
        if a.kind == 'class':
            return self.instantiate(a, args, kw, n, st)
        if a.kind == 'partial':
            k2 = dict(a.kw)
            k2.update(kw)
            return self.call(a.fn, list(a.args) + args, k2, n, st)
        if a.kind == 'eo':
            return self.ext.eo_call(self, a, args, kw, n, st).adddeps(f.deps)
        if a.kind == 'ref':
            h = st.heap.get(a.loc)
            if h is not None and h.ty == 'inst':
                return self.call_method(AV(a), '__call__', args, kw, n, st)
        deps = f.deps
        roots = E
        for x in list(args) + list(kw.values()):
            deps = deps | x.deps
        self.note_unmodelled('call of ' + a.kind, n)
        return self.opaque(n, deps)

    def note_unmodelled(self, what, n):
        if not self.silent:
            self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def call_method(self, o, name, args, kw, n, st):
        out = None
        for a in o.alts:
            if a.kind == 'none':
                continue
            if a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is not None and h.ty == 'inst':
                    v = self.class_attr(h.cls, name, st) if h.cls is not None else None
                    fn = v.get('func') if v is not None else None
                    if fn is not None:
                        r = self.call_func(fn, [AV(a)] + args, kw, n, st)
                    else:
                        r = self.opaque(n)
                else:
                    r = self.ext.container_method(self, a, o, name, args, kw, n, st)
            elif a.kind == 'num':
                r = self.ext.num_method(self, a, o, name, args, kw, n, st)
            elif a.kind == 'str':
                r = self.ext.str_method(self, a, o, name, args, kw, n, st)
            elif a.kind == 'eo':
                r = self.ext.eo_method(self, a, o, name, args, kw, n, st)
            elif a.kind == 'tup':
                r = self.ext.tup_method(self, a, o, name, args, kw, n, st)
            else:
                r = self.opaque(n)
            if r is not None:
                out = r if out is None else av_join(out, r)
        if out is None:
            self.raise_(n, st, 'AttributeError')
        return out.adddeps(o.deps)

    def instantiate(self, c, args, kw, n, st):
        obj = self.alloc(H('inst', d={}, cls=c), st, n, 'inst')
        # exception classes etc.
        init = self.class_attr(c, '__init__', st)
        decs = c.attrs.get('\0decs')
        if init is not None and init.get('func') is not None:
            self.call_func(init.get('func'), [obj] + args, kw, n, st)
        elif decs is not None and any('dataclass' in d for d in decs.vn):
            fields = c.attrs.get('\0fields')
            names = list(fields.vn) if fields is not None else []
            d = {}
            for nm, v in zip(names, args):
                d[nm] = (v, True)
            for k, v in kw.items():
                d[k] = (v, True)
            for nm in names:
                if nm not in d and nm in c.attrs:
                    d[nm] = (c.attrs[nm], True)
            loc = obj.alts[0].loc
            st.heap[loc] = st.heap[loc].rep(d=d)
            pi = self.class_attr(c, '__post_init__', st)
            if pi is not None and pi.get('func') is not None:
                self.call_func(pi.get('func'), [obj], {}, n, st)
        elif c.bases and any(b.get('ext') is not None and 'NamedTuple' in b.get('ext').name for b in c.bases):
            fields = c.attrs.get('\0fields')
            names = list(fields.vn) if fields is not None else []
            d = {}
            for nm, v in zip(names, args):
                d[nm] = (v, True)
            for k, v in kw.items():
                d[k] = (v, True)
            loc = obj.alts[0].loc
            st.heap[loc] = st.heap[loc].rep(d=d)
        return obj

    def bind(self, fn, args, kw, n, st):
        """-> (env, error string or None)"""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        err = None
        rest = []
        star = None
        i = 0
        for v in args:
            if isinstance(v.vn, tuple) and v.vn and v.vn[0] == 'star':
                star = v
                continue
            if i < len(pos) and star is None:
                env[pos[i]] = v
                i += 1
            else:
                rest.append(v)
        if star is not None:
            se = self.summary_elem(star.vn[1], st, n) or self.opaque(n)
            if a.vararg:
                rest.append(se)
            else:
                # may fill any remaining positional parameter
                for p in pos[i:]:
                    if p not in kw:
                        env[p] = se
        if a.vararg:
            if star is not None:
                s = None
                for r in rest:
                    s = r if s is None else av_join(s, r)
                env[a.vararg.arg] = self.alloc(H('list', summ=s), st, n, 'va' + fn.qual)
            else:
                env[a.vararg.arg] = mktup(rest)
        elif rest:
            err = 'too many positional arguments'
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k == '\0rest':
                continue
            if isinstance(v.vn, tuple) and v.vn and v.vn[0] == 'maykw':
                dv = self.default_of(fn, k)
                base = AV(v.alts, v.deps, v.vn[1].vn)
                v = base if dv is None else av_join(base, dv)
            if k in pos or k in kwonly:
                if k in env and star is None:
                    err = err or 'multiple values for argument %r' % k
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                err = err or 'unexpected keyword argument %r' % k
        nd = len(fn.defaults)
        for j, p in enumerate(pos):
            if p not in env:
                di = j - (len(pos) - nd)
                if di >= 0:
                    env[p] = fn.defaults[di]
                elif '\0rest' in kw:
                    env[p] = kw['\0rest']
                elif star is not None:
                    env[p] = self.opaque(n)
                else:
                    err = err or 'missing argument %r' % p
                    env[p] = self.opaque(n)
        for p in kwonly:
            if p not in env:
                if p in fn.kwdefaults:
                    env[p] = fn.kwdefaults[p]
                elif '\0rest' in kw:
                    env[p] = kw['\0rest']
                else:
                    err = err or 'missing keyword argument %r' % p
                    env[p] = self.opaque(n)
        if '\0rest' in kw and kw['\0rest'] is not None:
            r = kw['\0rest']
            explicit = set(k for k in kw if k != '\0rest')
            for p in pos[i:] + kwonly:
                if p not in explicit and p in env:
                    env[p] = av_join(env[p], r)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(H('dict', d={k: (v, True) for k, v in extra.items()}, rest=kw.get('\0rest')), st, n, 'kw' + fn.qual)
        return env, err

    def default_of(self, fn, name):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if name in pos:
            di = pos.index(name) - (len(pos) - len(fn.defaults))
            return fn.defaults[di] if di >= 0 else None
        return fn.kwdefaults.get(name)

    def call_func(self, fn, args, kw, n, st):
        deps = E
        for x in list(args) + list(kw.values()):
            deps = deps | x.deps
        depth = sum(1 for q in self.stack if q[3] == id(fn.node))
        if depth >= 2 or len(self.stack) >= MAXDEPTH:
            self.event('recursion', n, st, func=fn.qual)
            return self.opaque(n, deps)
        env, err = self.bind(fn, args, kw, n, st)
        if err:
            self.event('badcall', n, st, func=fn.qual, mod=fn.mod.name, err=err)
            self.raise_(n, st, 'TypeError')
        self.calls += 1
        self.fn_seen.add((fn.mod.rel, fn.qual))
        if not self.silent:
            cached = getattr(self, 'cached', None)
            if cached and id(fn.node) in cached:
                self.event('cachedcall', n, st, func=fn.qual)
            h = self.hooks.get('call')
            if h is not None:
                h(self, fn, env, n, st)
        sub = self.hooks.get('subst')
        if sub is not None:
            r = sub(self, fn, env, n, st)
            if r is not None:
                return r
        return self.run_func(fn, env, n, st)

    def run_func(self, fn, env, n, st):
        callsite = (self.curmod.rel if self.curmod else '?', getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0), self.ctx, fn.qual, self.iters)
        octx = self.ctx
        if callsite not in self._ctx:
            self._ctx[callsite] = len(self._ctx) + 1
        plain = '.' not in fn.qual or fn.qual.count('.') == 1 and fn.mod.env is not None and fn.qual.split('.')[0] in fn.mod.env and fn.mod.env[fn.qual.split('.')[0]].get('class') is not None
        vk = self.vkey_args(fn, env, st) if plain and not isinstance(fn.node, ast.Lambda) else None
        vk = ('v', fn.mod.rel, fn.qual, vk) if vk is not None else ('c', callsite[:3], self.vc, self.iters, fn.qual)
        self.stack.append((fn.qual, fn.mod.rel, getattr(n, 'lineno', 0), id(fn.node)))
        omod, self.curmod = self.curmod, fn.mod
        self.ctx = self._ctx[callsite]
        ovc, oiters, opure = self.vc, self.iters, self.pure
        self.pure = None
        self.vc = self._vc.setdefault(vk, len(self._vc) + 1)
        self.vcof[self.ctx] = self.vc
        self.iters = ()
        path0 = st.path
        ocur = self.cur
        fid = ('f', self.ctx, len(st.frames))
        pc0 = st.pc
        owiths, ocls = self.withs, self.cls_stack
        self.withs = list(self.withs)
        self.cls_stack = []
        c = Ctl()
        self.fctl.append(c)
        octls, self.ctls = self.ctls, self.ctls + [c]
        try:
            st.frames.append(Frame(fid, env, fn))
            if isinstance(fn.node, ast.Lambda):
                try:
                    v = self.ev(fn.node.body, st)
                    c.returns.append((st, v))
                except Dead:
                    pass
            else:
                out = self.ex(fn.node.body, st.copy())
                if out is not None:
                    c.returns.append((out, NONE))
            mid = ('ret',) + self.vsid(fn.node)
        finally:
            self.fctl.pop()
            self.ctls = octls
            self.stack.pop()
            self.curmod = omod
            self.ctx = octx
            self.vc, self.iters, self.pure = ovc, oiters, opure
            self.cur = ocur
            self.withs, self.cls_stack = owiths, ocls
        if not c.returns:
            if len(st.frames) and st.frames[-1].fid == fid:
                st.frames.pop()
            raise Dead()
        rets = []
        for s, v in c.returns:
            y = s.frames[-1].env.get('\0yield')
            if y is not None or is_generator(fn.node):
                v = self.alloc(H('list', summ=y), s, fn.node, 'gen')
            rets.append((s, v, s.pc - pc0))
        js, jv, _ = merge_returns(rets, len(path0), mid)
        js.frames = js.frames[:-1]
        js.pc, js.path = pc0, path0
        if len(st.frames) and st.frames[-1].fid == fid:
            st.frames.pop()
        st.set_from(js)
        return jv

    def list_extend(self, loc, av, st):
        h = st.heap[loc]
        els = self.exact_elems(av, st)
        if els is not None and h.el is not None and not is_old(loc) and len(els) + len(h.el) <= 64:
            st.heap[loc] = h.rep(el=h.el + tuple(els))
            return
        e = self.summary_elem(av, st, self.cur)
        b = h.elems()
        s = e if b is None else (b if e is None else av_join(b, e))
        st.heap[loc] = h.rep(el=None, summ=s, deps=h.deps | self.shaped(av, st).deps)

    def deep(self, av, st, seen=None):
        """dependency labels of everything reachable from av"""
        out = av.deps
        for a in av.alts:
            if a.kind == 'tup':
                for x in a.el:
                    out = out | self.deep(x, st, seen)
            elif a.kind == 'ref' and st is not None:
                seen = set() if seen is None else seen
                if a.loc in seen or a.loc not in st.heap:
                    continue
                seen.add(a.loc)
                h = st.heap[a.loc]
                out = out | h.deps
                for x in list(h.el or ()) + ([h.summ] if h.summ is not None else []) + [q for q, _ in (h.d or {}).values()] + ([h.rest] if h.rest is not None else []):
                    out = out | self.deep(x, st, seen)
        return out

    def shaped(self, av, st):
        """av labelled with what the length of the containers it names depends on"""
        for a in av.alts:
            if a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is not None and h.deps:
                    av = av.adddeps(h.deps)
        return av

    def list_append(self, loc, v, st):
        h = st.heap[loc]
        if h.el is not None and not is_old(loc) and len(h.el) < 64:
            st.heap[loc] = h.rep(el=h.el + (v,))
            return
        b = h.elems()
        st.heap[loc] = h.rep(el=None, summ=v if b is None else av_join(b, v))


# ---------------------------------------------------------------------------
def nonlit(law):
    return law


def is_old(loc):
    return isinstance(loc, tuple) and len(loc) == 2 and loc[1] == 'old'


def hashable(c):
    try:
        hash(c)
        return True
    except TypeError:
        return False


def covers_zero(idx):
    """index expression definitely covers element 0 from the start (const 0 or slice from 0)"""
    c = idx.const()
    if c is not NC and isinstance(c, int) and not isinstance(c, bool) and c == 0:
        return True
    if isinstance(idx.vn, tuple) and idx.vn and idx.vn[0] == 'slice':
        lo, hi, stp = idx.vn[1]
        if lo.const() in (None, 0) and stp.const() in (None, 1):
            hc = hi.const()
            if hc is None and hi.only('none'):
                return True
            n = hi.get('num')
            return n is not None and n.iv[0] >= 1
    tp = idx.get('tup')
    if tp is not None and len(idx.alts) == 1 and tp.el:
        return any(covers_zero(e) for e in tp.el[-1:])
    return False


def is_app(f, name):
    if f is None or len(f.t) != 1:
        return False
    m, c = f.t[0]
    if c != 1 or len(m) != 1 or m[0][1] != 1.0:
        return False
    k = F.atom_key(m[0][0])
    return k[0] == 'f' and k[1] == name


def app_args(f):
    k = F.atom_key(f.t[0][0][0][0])
    return [F.form_by_id(i) if isinstance(i, int) else i for i in k[2:]]


def integral(a):
    """a value known to be whole"""
    if isinstance(a.const, (int, float)) and a.const == a.const and abs(a.const) < 1e18:
        return a.const == int(a.const)
    return a.form is None or any(is_app(a.form, q) for q in ('round', 'floor', 'ceil', 'trunc', 'toint', 'sign')) or a.iv[0] == a.iv[1]


def as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def unparse(n):
    try:
        return ast.unparse(n)
    except Exception:
        return '?'


_gen = {}


def is_generator(node):
    k = id(node)
    if k not in _gen:
        r = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(x))
        _gen[k] = (node, r)
    return _gen[k][1]


def merge_returns(rets, pos, mid):
    """join of the return states along the tree of branch decisions that separates them"""
    if len(rets) == 1:
        return rets[0]
    at = [r[0].path[pos] if pos < len(r[0].path) else None for r in rets]
    if None not in at and len({a[0] for a in at}) == 1:
        yes, no = [r for r, a in zip(rets, at) if a[1]], [r for r, a in zip(rets, at) if not a[1]]
        if not yes or not no:
            return merge_returns(rets, pos + 1, mid)
        x, y = merge_returns(yes, pos + 1, mid), merge_returns(no, pos + 1, mid)
        d = x[2] | y[2]
        m = at[0][0]
        return join_states(x[0], y[0], d, m), j_av(x[1], y[1], m, d), d
    x = rets[0]
    for i, y in enumerate(rets[1:], 1):
        d = x[2] | y[2]
        x = (join_states(x[0], y[0], d, mid + (i,)), j_av(x[1], y[1], mid + (i,), d), d)
    return x


def vloc(I, loc):
    return loc[:3] + (I.vcof.get(loc[3]),) + loc[4:] if isinstance(loc, tuple) and len(loc) >= 5 and isinstance(loc[3], int) else loc


def loop_join(I, pre, head, out, deps, key, widen):
    """next loop head: join of the entry state and the back-edge state"""
    j = join_states(head, out, deps, None)
    # forms and translation coefficients that changed become loop atoms
    for i, f in enumerate(j.frames):
        hf = head.frames[i].env if i < len(head.frames) else {}
        if f.env is hf:
            continue
        for k, v in list(f.env.items()):
            h = hf.get(k)
            if h is v or h is None and k[:1] == '\0':
                continue
            f.env[k] = loopval(h, v, key + (k,), widen, deps)
    for loc, o in list(j.heap.items()):
        h = head.heap.get(loc)
        if h is o:
            continue
        el, summ, d = o.el, o.summ, o.d
        vl = vloc(I, loc)
        if el is not None:
            hel = h.el if h is not None and h.el is not None and len(h.el) == len(el) else [None] * len(el)
            el = tuple(loopval(x, y, key + (vl, q), widen, deps) for q, (x, y) in enumerate(zip(hel, el)))
        if summ is not None:
            summ = loopval(h.summ if h is not None else None, summ, key + (vl, 's'), widen, deps)
        if d is not None:
            d = {q: (loopval(h.d[q][0] if h is not None and h.d is not None and q in h.d else None, x, key + (vl, q), widen, deps), m) for q, (x, m) in d.items()}
        rest = o.rest
        if rest is not None:
            rest = loopval(h.rest if h is not None else None, rest, key + (vl, 'r'), widen, deps)
        j.heap[loc] = o.rep(el=el, summ=summ, d=d, rest=rest)
    # lists whose length changes across iterations
    for loc, o in list(j.heap.items()):
        h = head.heap.get(loc)
        if h is not None and h is not o and o.ty in ('list',) and o.el is not None and h.el is not None and len(o.el) != len(h.el):
            j.heap[loc] = o.rep(el=None, summ=o.elems())
    return j


def loopval(h, v, key, widen, deps):
    if h is v:
        return v
    if h is not None and h.key() == v.key():
        return h
    alts = []
    ex = E
    for a in v.alts:
        if a.kind == 'num':
            old = None
            if h is not None:
                old = h.get('num')
            form = a.form
            if old is None or old.form is not a.form:
                # values first created inside the loop body differ per iteration
                form = F.fatom(('loop', key))
            sh = a.sh
            if old is not None and old.sh is not a.sh and a.sh is not None:
                if old.sh is N.SHANY:
                    pass
                elif a.sh is N.SHANY:
                    sh = old.sh
                else:
                    # varies from iteration to iteration: keep only whether it is certainly there
                    sh = F.fatom(('op', 'nz', key)) if N.sh_nonzero(old.sh) and N.sh_nonzero(a.sh) else None
            iv = a.iv
            if widen and old is not None and old.iv != a.iv:
                iv = (a.iv[0] if a.iv[0] >= old.iv[0] else -INF, a.iv[1] if a.iv[1] <= old.iv[1] else INF)
            law = a.law
            if widen and old is not None and old.law != a.law and len(a.law) > 2:
                law = L_U
            parts, plen = a.parts, a.plen
            if parts is not None:
                hp = old.parts if old is not None and old.parts is not None else None
                if hp is not None and len(hp) != len(parts):
                    plen = None
                parts = tuple(loopval(hp[q] if hp is not None and q < len(hp) else None, p, key + ('p', q), widen, deps) for q, p in enumerate(parts))
            ln = a.ln
            if old is not None and old.ln is not a.ln:
                ln = None
            a = a.rep(form=form, sh=sh, iv=iv, law=law, parts=parts, plen=plen, ln=ln)
        elif a.kind == 'tup':
            ho = None
            if h is not None:
                for t in h.all('tup'):
                    if len(t.el) == len(a.el):
                        ho = t
            a = Tup([loopval(ho.el[q] if ho is not None else None, e, key + (q,), widen, deps) for q, e in enumerate(a.el)])
        alts.append(a)
    return AV(tuple(alts), v.deps | ex, v.vn)


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
