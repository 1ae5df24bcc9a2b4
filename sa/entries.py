"""Public surface of the package and abstract arguments for analysing it."""
import ast
from . import forms as F
from .values import *
from . import numops as N
from .interp import Interp, State, Frame, H, Dead
from .project import Project, Module, AnalysisError

SCALARISH = ('freq', 'fs', 'fin', 'osr', 'num_', 'n_', 'order', 'harmonic', 'side_bin', 'max_', 'bits', 'rms', 'snr', 'nsd', 'dbm', 'dbfs', 'db',
             'tol', 'thd', 'sfdr', 'sndr', 'enob', 'power', 'pwr', 'amp', 'amplitude', 'offset', 'gain', 'skew', 'scale', 'level', 'full_scale', 'vpp', 'vref',
             'v_', 'temp', 'jitter', 'lag', 'decim', 'cutoff', 'nominal', 'z', 'r', 'c', 'load', 'impedance', 'delta', 'alpha', 'beta', 'sigma', 'mu', 'm', 'n', 'k')


class Entry:
    def __init__(self, fn, mod, name, exported, cls=None):
        self.fn = fn
        self.mod = mod
        self.name = name
        self.exported = exported
        self.cls = cls

    @property
    def label(self):
        return '%s.%s' % (self.mod.name, self.name)

    def params(self):
        a = self.fn.node.args
        ps = [x for x in a.posonlyargs + a.args]
        if self.cls is not None:
            ps = ps[1:]
        return ps + list(a.kwonlyargs)


def default_node(fn, name):
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if name in pos:
        i = pos.index(name) - (len(pos) - len(a.defaults))
        return a.defaults[i] if i >= 0 else None
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def scalar_like(name, ann, d):
    """parameter documented / annotated as a scalar"""
    s = ast.unparse(ann) if ann is not None else ''
    if s and ('float' in s or 'int' in s or 'bool' in s or 'str' in s) and not ('ndarray' in s or 'ArrayLike' in s or 'ist[' in s or 'equence' in s or 'uple' in s):
        return True
    if d is not None and isinstance(d, (int, float, bool, str)):
        return True
    return False


def arg_av(I, st, name, ann, d, has_default, deps=None):
    """abstract value of an arbitrary legal argument"""
    deps = frozenset([('p', name)]) if deps is None else deps
    atom = F.fatom(('arg', name))
    root = frozenset([('arg', name)])
    s = ast.unparse(ann) if ann is not None else ''
    if name in ('ax', 'axes', 'ax1', 'ax2', 'fig', 'ax_phase', 'ax_mag') or 'Axes' in s or 'Figure' in s:
        alts = [Eo('mpl', ('arg', name))]
        if has_default and d is None or not has_default and name == 'ax':
            if has_default:
                alts = [NoneA()] + alts
        return AV(tuple(alts), deps)
    if name == 'rng' or 'Generator' in s:
        alts = [Eo('Generator', ('arg', name))]
        if has_default and d is None:
            alts = [NoneA()] + alts
        return AV(tuple(alts), deps)
    if has_default and isinstance(d, bool):
        return AV(Num(dt='b', arr=False, nd=0, iv=(0.0, 1.0), law=L_0, sh=SH0, form=atom), deps)
    if has_default and isinstance(d, str):
        return AV(Str(NC, ('arg', name)), deps)
    if has_default and isinstance(d, int):
        return AV(Num(dt=None, arr=False if scalar_like(name, ann, d) else None, nd=0 if scalar_like(name, ann, d) else None, iv=TOPIV, law=L_0, sh=SH0, form=atom, prov='arg', roots=root if not scalar_like(name, ann, d) else E), deps)
    if has_default and isinstance(d, float):
        return AV(Num(dt='f', arr=False if scalar_like(name, ann, d) else None, nd=0 if scalar_like(name, ann, d) else None, iv=TOPIV, law=L_0, sh=SH0, form=atom, prov='arg', roots=root if not scalar_like(name, ann, d) else E), deps)
    if s in ('str',) or (s.replace(' ', '') in ('str|None', 'Optional[str]')):
        st_ = Str(NC, ('arg', name))
        if has_default and d is None:
            return AV((NoneA(), st_), deps)
        return AV(st_, deps)
    base = s.replace(' ', '').replace('Optional[', '').replace('|None', '').rstrip(']')
    if base in ('float', 'int'):
        n = Num(dt='i' if base == 'int' else 'f', arr=False, nd=0, law=L_0, sh=SH0, form=atom, prov='arg')
        if has_default and d is None:
            return AV((NoneA(), n), deps)
        return AV(n, deps)
    if base == 'bool':
        n = Num(dt='b', arr=False, nd=0, iv=(0.0, 1.0), law=L_0, sh=SH0, form=atom)
        return AV((NoneA(), n), deps) if has_default and d is None else AV(n, deps)
    n = Num(anyk=True, roots=root, law=L_0, sh=SH0, form=atom, prov='arg')
    if has_default and d is None:
        return AV((NoneA(), n), deps)
    return AV(n, deps)


class World:
    """project + loaded interpreter + list of entries"""

    def __init__(self, repo=None):
        self.project = Project(repo)
        self.I = Interp(self.project)
        self.I.load_all()
        self.entries = self.find_entries()
        self.cache = {}

    def find_entries(self):
        out = []
        seen = {}
        p = self.project
        for name in sorted(p.modules):
            m = p.modules[name]
            if not m.is_pkg:
                continue
            for k, v in sorted(m.env.items()):
                if k.startswith('_') or k[:1] == '\0':
                    continue
                fn = v.get('func')
                if fn is not None and id(fn.node) not in seen:
                    seen[id(fn.node)] = Entry(fn, fn.mod, fn.qual, True)
                c = v.get('class')
                if c is not None and id(c.node) not in seen:
                    seen[id(c.node)] = None
                    for mk, mv in sorted(c.attrs.items()):
                        f = mv.get('func')
                        if f is not None and not mk.startswith('_'):
                            seen[id(f.node)] = Entry(f, f.mod, '%s.%s' % (c.qual, mk), True, c)
        # public module-level functions that packages do not re-export
        for name in sorted(p.modules):
            m = p.modules[name]
            if any(q.startswith('_') for q in name.split('.')[1:]):
                continue
            for k, v in sorted(m.env.items()):
                if k.startswith('_') or k[:1] == '\0':
                    continue
                fn = v.get('func')
                if fn is not None and fn.mod is m and id(fn.node) not in seen:
                    seen[id(fn.node)] = Entry(fn, m, fn.qual, False)
        return [e for e in seen.values() if e is not None]

    def contracts(self, path):
        """relational contracts: functions that combine package calls; parsed and analysed like any other source, never run"""
        import os
        name = 'contracts_' + os.path.basename(path)[:-3]
        p = self.project
        if name not in p.modules:
            with open(path) as f:
                tree = ast.parse(f.read(), filename=path)
            p.modules[name] = Module(name, path, os.path.basename(path), tree, False)
            self.I.load(name)
        m = p.modules[name]
        out = []
        for k, v in m.env.items():
            fn = v.get('func')
            if fn is not None and fn.mod is m and not k.startswith('_'):
                out.append(Entry(fn, m, fn.qual, False))
        return sorted(out, key=lambda e: e.fn.node.lineno)

    def entry(self, label):
        for e in self.entries:
            if e.label == label or e.name == label:
                return e
        # private function lookup  module:func
        mod, _, f = label.rpartition('.')
        m = self.project.modules.get(mod)
        if m is not None and f in m.env and m.env[f].get('func') is not None:
            fn = m.env[f].get('func')
            return Entry(fn, fn.mod, fn.qual, False)
        raise AnalysisError('anchor function %s not found' % label)

    def run(self, entry, over=None, law=None, shift=None, setup=None, generic=False, intshift=False):
        """analyse one entry; over: param -> AV (or callable(I, st) -> AV)"""
        if not over and not law and not shift and setup is None:
            k = id(entry.fn.node)
            if k not in self.cache:
                self.cache[k] = self._run(entry, None, None, None, None)
            return self.cache[k]
        self.I.generic = generic
        N.INTSHIFT[0] = intshift
        try:
            return self._run(entry, over, law, shift, setup)
        finally:
            self.I.generic = False
            N.INTSHIFT[0] = False

    def _run(self, entry, over, law, shift, setup):
        I = self.I
        st = State([Frame(('top',), {})], dict(I.base_heap))
        I.events = []
        I.entry = entry.label
        I.trys, I.ctls, I.fctl, I.withs, I.stack, I.cls_stack = [], [], [], [], [], []
        I.curmod = entry.mod
        I.ctx = 0
        I.steps = 0
        over = over or {}
        env = {}
        a = entry.fn.node.args
        node = entry.fn.node
        if setup is not None:
            setup(I, st)
        if entry.cls is not None:
            selfname = (a.posonlyargs + a.args)[0].arg
            env[selfname] = self.make_self(entry, st, node, over)
        for p in entry.params():
            d = I.default_of(entry.fn, p.arg)
            has = d is not None
            dc = d.const() if d is not None else None
            if p.arg in over:
                v = over[p.arg]
                v = v(I, st) if callable(v) else v
            elif has and dc is NC:
                # non-constant default (tuple, enum...): default or anything
                v = av_join(AV(Num(anyk=True, roots=frozenset([('arg', p.arg)]), law=L_0, sh=SH0, form=F.fatom(('arg', p.arg)), prov='arg'), frozenset([('p', p.arg)])), d)
                v = v.adddeps(frozenset([('p', p.arg)]))
            else:
                v = arg_av(I, st, p.arg, p.annotation, dc, has)
            if law and p.arg in law:
                v = AV(tuple(x.rep(law=law[p.arg]) if x.kind == 'num' else x for x in v.alts), v.deps, v.vn)
            if shift and p.arg in shift:
                v = AV(tuple(x.rep(sh=shift[p.arg]) if x.kind == 'num' else x for x in v.alts), v.deps, v.vn)
            env[p.arg] = v
        if a.vararg and a.vararg.arg in over:
            v = over[a.vararg.arg]
            env[a.vararg.arg] = v(I, st) if callable(v) else v
        elif a.vararg:
            env[a.vararg.arg] = I.alloc(H('list', summ=AV(Num(anyk=True, roots=frozenset([('arg', a.vararg.arg)]), form=F.fatom(('arg', a.vararg.arg))),
                                                          frozenset([('p', a.vararg.arg)])), deps=frozenset([('p', a.vararg.arg)])), st, node, 'va')
        if a.kwarg:
            if a.kwarg.arg in over:
                v = over[a.kwarg.arg]
                env[a.kwarg.arg] = v(I, st) if callable(v) else v
            else:
                env[a.kwarg.arg] = I.alloc(H('dict', d={}, rest=AV(Num(anyk=True, roots=frozenset([('arg', a.kwarg.arg)]), form=F.fatom(('arg', a.kwarg.arg))),
                                                                   frozenset([('p', a.kwarg.arg)])), deps=frozenset([('p', a.kwarg.arg)])), st, node, 'kw')
        I.fn_seen.add((entry.mod.rel, entry.name))
        res = Result()
        res.entry = entry
        res.args = dict(env)
        try:
            h = I.hooks.get('call')
            v = I.run_func(entry.fn, env, node, st)
            res.value, res.state = v, st
        except Dead:
            res.value, res.state = None, None
        res.events = I.events
        I.events = []
        res.steps = I.steps
        return res

    def make_self(self, entry, st, node, over=None):
        """instance with unknown attributes set by its constructor"""
        I = self.I
        c = entry.cls
        init = c.attrs.get('__init__')
        loc = ('self', c.qual)
        st.heap[loc] = H('inst', d={}, cls=c)
        obj = AV(Ref(loc))
        if init is not None and init.get('func') is not None:
            fn = init.get('func')
            env = {}
            for i, p in enumerate(fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs):
                if i == 0:
                    env[p.arg] = obj
                    continue
                d = I.default_of(fn, p.arg)
                if over and 'self.' + p.arg in over:
                    v = over['self.' + p.arg]
                    env[p.arg] = v(I, st) if callable(v) else v
                    continue
                env[p.arg] = arg_av(I, st, 'self.' + p.arg, p.annotation, d.const() if d is not None else None, d is not None,
                                    frozenset([('p', 'self.' + p.arg)]))
            try:
                I.silent += 1
                I.run_func(fn, env, node, st)
            except Dead:
                pass
            finally:
                I.silent -= 1
        h = st.heap[loc]
        d = {k: (AV(tuple(x.rep(roots=frozenset([('selfattr', c.qual, k)])) if x.kind == 'num' and x.arr is not False else x for x in v.alts), v.deps, v.vn), m)
             for k, (v, m) in (h.d or {}).items()}
        st.heap[loc] = h.rep(glob=('self', c.qual), d=d)
        return obj


class Result:
    value = None
    state = None
    events = ()
    entry = None


def flatten(I, av, st, path='', depth=6, out=None, seen=None):
    """leaves of a returned structure: list of (path, AV)"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if depth <= 0:
        return out
    for a in av.alts:
        if a.kind == 'tup':
            for i, e in enumerate(a.el):
                flatten(I, e.adddeps(av.deps), st, '%s[%d]' % (path, i), depth - 1, out, seen)
        elif a.kind == 'ref':
            if a.loc in seen:
                continue
            seen = seen | {a.loc}
            h = st.heap.get(a.loc)
            if h is None:
                continue
            if h.ty in ('list', 'set'):
                if h.el is not None:
                    for i, e in enumerate(h.el):
                        flatten(I, e.adddeps(av.deps), st, '%s[%d]' % (path, i), depth - 1, out, seen)
                elif h.summ is not None:
                    flatten(I, h.summ.adddeps(av.deps | h.deps), st, path + '[*]', depth - 1, out, seen)
            else:
                for k, (v, m) in h.d.items():
                    flatten(I, v.adddeps(av.deps), st, '%s[%r]' % (path, k) if h.ty == 'dict' else '%s.%s' % (path, k), depth - 1, out, seen)
                if h.rest is not None:
                    flatten(I, h.rest.adddeps(av.deps | h.deps), st, path + '[?]', depth - 1, out, seen)
        elif a.kind == 'none':
            out.append((path, AV(a, av.deps)))
        else:
            out.append((path, AV(a, av.deps, av.vn)))
    return out
