"""Models of everything outside the package: builtins, containers, strings,
paths, argparse, matplotlib.  numpy/scipy live in npmod."""
import math
from . import forms as F
from .values import *
from . import numops as N
from . import npmod
from .npmod import alldeps, matmul, get, is_none


def _H(*a, **k):
    from .interp import H
    return H(*a, **k)


def _old(loc):
    from .interp import is_old
    return is_old(loc)


# --------------------------------------------------------------- ext attributes
CONST = {'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.e': math.e, 'math.e': math.e, 'numpy.inf': INF, 'math.inf': INF,
         'numpy.nan': float('nan'), 'math.nan': float('nan'), 'numpy.NaN': float('nan'), 'numpy.Inf': INF, 'numpy.NINF': -INF}

CANON = {}


def ext_attr(I, name, n, st):
    if name in CONST:
        return mknum(CONST[name])
    if name == 'numpy.newaxis':
        return NONE
    if name in ('sys.argv', 'sys.path', 'os.environ', 'sys.stdout', 'sys.stderr', 'os.sep'):
        return AV(Eo(name, name))
    return AV(Ext(name))


def canon(name):
    for a, b in (('numpy.', 'numpy.'), ('np.', 'numpy.')):
        if name.startswith(a):
            return b + name[len(a):]
    return name


EXC = {n for n in dir(__import__('builtins')) if isinstance(getattr(__import__('builtins'), n), type)
       and issubclass(getattr(__import__('builtins'), n), BaseException)}


DEEP = {'builtins.' + x for x in ('sum', 'max', 'min', 'any', 'all', 'abs', 'round', 'pow', 'divmod', 'str', 'repr', 'float', 'int', 'complex', 'bool')}


def call_ext(I, name, args, kw, n, st):
    # star arguments: replace by summary element
    if any(isinstance(a.vn, tuple) and a.vn and a.vn[0] == 'star' for a in args):
        args = [a if not (isinstance(a.vn, tuple) and a.vn and a.vn[0] == 'star') else
                (I.summary_elem(a.vn[1], st, n) or NONE) for a in args]
    kw = {k: v for k, v in kw.items() if k != '\0rest'}
    if name.split('.')[0] in ('numpy', 'scipy', 'math', 'collections', 'statistics') or name in DEEP:
        # a container argument carries the dependencies of its contents
        args = [a if all(x.kind not in ('ref', 'tup') for x in a.alts) else a.adddeps(I.deep(a, st)) for a in args]
        kw = {k: (a if all(x.kind not in ('ref', 'tup') for x in a.alts) else a.adddeps(I.deep(a, st))) for k, a in kw.items()}
    if name.split('.')[0] in ('numpy', 'scipy') and I.pure is None and not name.startswith('numpy.random'):
        k = [I.content(a, st, 0) for a in args] + [(q, I.content(v, st, 0)) for q, v in sorted(kw.items())]
        if None not in k and not any(isinstance(q, tuple) and q[-1] is None for q in k):
            I.pure = (name, I._vc.setdefault(('x', name, tuple(k)), len(I._vc) + 1))
            try:
                return call_ext1(I, name, args, kw, n, st)
            finally:
                I.pure = None
    return call_ext1(I, name, args, kw, n, st)


def call_ext1(I, name, args, kw, n, st):
    if name.startswith('builtins.'):
        return builtin(I, name[9:], args, kw, n, st)
    if name.startswith('numpy.'):
        r = None
        try:
            r = npmod.call_numpy(I, name[6:], args, kw, n, st)
        except (IndexError, KeyError) as e:
            I.note_unmodelled('argument pattern of ' + name, n)
            r = None
        if r is not None:
            return r
        return generic(I, name, args, kw, n, st)
    if name.startswith('scipy.'):
        r = None
        try:
            r = npmod.call_scipy(I, name[6:], args, kw, n, st)
        except (IndexError, KeyError):
            r = None
        if r is not None:
            return r
        return generic(I, name, args, kw, n, st)
    if name.startswith('math.'):
        return call_math(I, name[5:], args, kw, n, st)
    if name.startswith('matplotlib'):
        return call_mpl(I, name, args, kw, n, st)
    if name in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath'):
        if not args:
            return AV(Eo('Path', (('cwd',),)), E)
        return path_join(I, to_path(I, args[0], n, st), args[1:], n, st)
    if name in ('pathlib.Path.cwd', 'os.getcwd'):
        return AV(Eo('Path', (('cwd',),)))
    if name in ('pathlib.Path.home',):
        return AV(Eo('Path', (('home',),)))
    if name in ('importlib.resources.files',):
        return AV(Eo('Path', (('pkg',) + tuple(str(a.const()) for a in args),)))
    if name in ('importlib.resources.as_file',):
        return args[0]
    if name.startswith('shutil.') or name.startswith('os.') or name in ('builtins.open', 'io.open', 'tempfile.mkdtemp', 'tempfile.mkstemp'):
        return call_fs(I, name, args, kw, n, st)
    if name.startswith('warnings.'):
        w = name[9:]
        if w == 'warn':
            cat = get(args, kw, 1, 'category')
            I.event('warn', n, st, cat=cat)
            return NONE
        if w in ('filterwarnings', 'simplefilter', 'resetwarnings'):
            if 'warnings.catch_warnings' not in I.withs:
                I.event('hidden', n, st, what='warnings.' + w + ' outside catch_warnings')
            return NONE
        return AV(Eo('ctx', w))
    if name == 'argparse.ArgumentParser' or name.endswith('.ArgumentParser'):
        return AV(Eo('parser', I.sid(n)))
    if name in ('sys.exit', 'os._exit', 'builtins.exit', 'builtins.quit'):
        c = args[0].const() if args else None
        I.event('exit', n, st, code=c)
        I.raise_(n, st, 'SystemExit')
    if name == 'functools.partial':
        return AV(Partial(args[0], args[1:], kw))
    if name in ('functools.wraps', 'functools.update_wrapper'):
        return AV(Ext('functools.identity'))
    if name == 'functools.identity':
        return args[0]
    if name in ('functools.lru_cache', 'functools.cache'):
        return AV(Ext(name))
    if name.startswith('functools.reduce'):
        return I.opaque(n, alldeps(args, kw))
    if name == 'collections.Counter':
        d = alldeps(args, kw)
        return I.alloc(_H('dict', d={}, rest=AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=F.fatom(('op', I.vsid(n)))), d)), st, n).adddeps(d)
    if name in ('collections.OrderedDict',):
        return builtin(I, 'dict', args, kw, n, st)
    if name in ('collections.defaultdict',):
        return I.alloc(_H('dict', d={}, rest=I.opaque(n)), st, n)
    if name in ('collections.deque',):
        return builtin(I, 'list', args, kw, n, st)
    if name.startswith('collections.namedtuple') or name.startswith('typing.'):
        return AV(Ext(name))
    if name == 'copy.deepcopy' or name == 'copy.copy':
        return do_copy(I, args[0], n, st, deep=name.endswith('deepcopy'))
    if name in ('itertools.chain', 'itertools.product', 'itertools.combinations', 'itertools.permutations', 'itertools.islice', 'itertools.count', 'itertools.zip_longest'):
        s = None
        for a in args:
            e = I.summary_elem(a, st, n)
            if e is not None:
                s = e if s is None else av_join(s, e)
        if name == 'itertools.count':
            s = AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=F.fatom(('op', I.vsid(n)))))
        if name in ('itertools.product', 'itertools.zip_longest'):
            es = [I.summary_elem(a, st, n) for a in args]
            s = mktup([e for e in es if e is not None])
        return I.alloc(_H('list', summ=s, deps=alldeps(args, kw)), st, n)
    if name.split('.')[-1] in ('seed',) and name.startswith('random.'):
        I.event('hidden', n, st, what=name)
        return NONE
    if name.startswith('random.'):
        I.event('globalrng', n, st, name=name)
        return npmod.rand_num(I, n, deps=alldeps(args, kw) | frozenset([('rng', 'global')]))
    if name.startswith('time.') or name.startswith('datetime.') or name.startswith('secrets.') or name.startswith('uuid.'):
        I.event('clock', n, st, what=name)
        return I.opaque(n, frozenset([('clock',)]))
    if name in ('filecmp.cmp', 'filecmp.cmpfiles', 'filecmp.dircmp'):
        return AV(Eo('filecmp', None), frozenset([('fs',)]))
    if name.startswith('logging.'):
        return AV(Eo('logger', None))
    if name.startswith('subprocess.') or name.startswith('socket.') or name.startswith('urllib.'):
        I.event('fs', n, st, op=name, path=args[0] if args else NONE)
        return I.opaque(n)
    if name.startswith('contextlib.'):
        if name.endswith('suppress'):
            return AV(Eo('ctx', 'suppress'))
        return AV(Ext('functools.identity')) if name.endswith('contextmanager') else AV(Eo('ctx', name))
    if name == 'dataclasses.field':
        return I.opaque(n)
    return generic(I, name, args, kw, n, st)


def generic(I, name, args, kw, n, st):
    I.note_unmodelled(name, n)
    deps = alldeps(args, kw)
    fs = [I.key_form(a, st) for a in args] + [I.key_form(v, st) for k, v in sorted(kw.items())]
    form = F.fatom(('op', I.vsid(n)))
    sh = None
    nums = [I.num(a, st) for a in args]
    if nums and all(N.shz(m) for m in nums):
        sh = SH0
    # callables handed to an unknown function are analysed once with unknown arguments
    for a in list(args) + list(kw.values()):
        for x in a.alts:
            if x.kind == 'func' and not any(q[3] == id(x.node) for q in I.stack):
                na = len(x.node.args.posonlyargs + x.node.args.args) - len(x.defaults)
                from .interp import Dead
                try:
                    s = st.copy()
                    r = I.call_func(x, [I.opaque(n, deps, tag=i) for i in range(na)], {}, n, s)
                except Dead:
                    pass
    return AV(Num(anyk=True, form=form, sh=sh, roots=frozenset([I.root(n)])), deps)


# ---------------------------------------------------------------------- math
def call_math(I, m, args, kw, n, st):
    table = {'sqrt': 'sqrt', 'log10': 'log10', 'log2': 'log2', 'exp': 'exp', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'fabs': 'abs',
             'isfinite': 'isfinite', 'isnan': 'isnan', 'isinf': 'isinf', 'degrees': 'degrees', 'radians': 'radians', 'atan': 'arctan'}
    if m == 'log' and len(args) == 2:
        k = args[1].const()
        r = npmod.np_unary(I, 'log10', args[:1], {}, n, st)
        return I.binop('Div', r, npmod.np_unary(I, 'log10', args[1:], {}, n, st), n, st)
    if m == 'log':
        return npmod.np_unary(I, 'log', args, {}, n, st)
    if m in table:
        return npmod.np_unary(I, table[m], args, {}, n, st)
    if m in ('floor', 'ceil', 'trunc'):
        r = npmod.np_unary(I, m, args, {}, n, st)
        c = r.const()
        if isinstance(c, float):
            return mknum(int(c), r.deps)
        return AV(tuple(a.rep(dt='i') if a.kind == 'num' else a for a in r.alts), r.deps)
    if m == 'pow':
        return I.binop('Pow', args[0], args[1], n, st)
    if m == 'atan2':
        return npmod.np_arctan2(I, m, args, kw, n, st)
    deps = alldeps(args, kw)
    cs = [a.const() for a in args]
    if m in ('gcd', 'lcm', 'factorial', 'comb', 'hypot', 'copysign', 'prod', 'isqrt') and all(isinstance(c, int) for c in cs) and cs:
        try:
            return mknum(getattr(math, m)(*cs), deps)
        except Exception:
            pass
    if m in ('gcd', 'lcm', 'factorial', 'comb', 'isqrt'):
        fs = [I.num(a, st).form for a in args]
        if m in ('gcd', 'lcm') and all(f is not None for f in fs):
            fs = sorted(fs, key=lambda f: f.id)
        return AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=F.fapp(m, *fs)), deps)
    if m == 'isclose':
        return mkbool(None, deps)
    return generic(I, 'math.' + m, args, kw, n, st)


# ------------------------------------------------------------------ builtins
def scalar(I, a, n, dt):
    return a


def builtin(I, b, args, kw, n, st):
    deps = alldeps(args, kw)
    if b in EXC:
        return AV(Eo(b), deps)
    if b == 'len':
        return do_len(I, args[0], n, st)
    if b == 'range':
        return do_range(I, args, n, st)
    if b == 'print':
        I.event('print', n, st, file=kw.get('file'))
        return NONE
    if b == 'isinstance':
        rs = {I.isinst1(a, args[1], st) for a in args[0].alts}
        r = rs.pop() if len(rs) == 1 else None
        return mkbool(r, args[0].deps)
    if b == 'issubclass' or b == 'callable':
        if b == 'callable':
            ks = args[0].kinds()
            if ks <= {'func', 'class', 'bound', 'partial', 'ext'}:
                return mkbool(True, deps)
            if ks <= {'none', 'str', 'tup'}:
                return mkbool(False, deps)
        return mkbool(None, deps)
    if b in ('float', 'int', 'bool', 'complex'):
        if not args:
            return mknum({'float': 0.0, 'int': 0, 'bool': False, 'complex': 0j}[b])
        if b == 'complex' and len(args) == 2:
            r, i = I.num(args[0], st), I.num(args[1], st)
            form = F.fadd(r.form, F.fmul(F.fconst(1j), i.form)) if r.form is not None and i.form is not None else None
            return AV(Num(dt='c', arr=False, nd=0, form=form if form is not None else F.fatom(('op', I.vsid(n)))), deps)
        return do_cast(I, b, args[0], n, st)
    if b == 'abs':
        return npmod.np_unary(I, 'abs', args, {}, n, st)
    if b == 'round':
        a = I.num(args[0], st)
        if a.const is not NC and isinstance(a.const, (int, float)) and len(args) == 1 and not a.arr:
            try:
                return mknum(round(a.const), deps)
            except (ValueError, OverflowError):
                pass
        r = npmod.np_unary(I, 'round', args, {}, n, st)
        if len(args) == 1:
            return AV(tuple(x.rep(dt='i') if x.kind == 'num' else x for x in r.alts), r.deps)
        return r
    if b in ('max', 'min'):
        return do_maxmin(I, b, args, kw, n, st)
    if b == 'sum':
        return do_sum(I, args, kw, n, st)
    if b == 'pow':
        return I.binop('Pow', args[0], args[1], n, st)
    if b == 'divmod':
        return mktup([I.binop('FloorDiv', args[0], args[1], n, st), I.binop('Mod', args[0], args[1], n, st)])
    if b in ('any', 'all'):
        return do_anyall(I, b, args[0], n, st)
    if b == 'str' or b == 'repr' or b == 'format' or b == 'ascii' or b == 'chr' or b == 'hex' or b == 'bin' or b == 'oct':
        if b == 'str' and args and args[0].only('str'):
            return args[0]
        if b == 'str' and args:
            c = args[0].const()
            if isinstance(c, (int, float, bool)) or (c is None and args[0].only('none')):
                return mkstr(str(c), deps)
            for a in args[0].alts:
                if a.kind == 'eo' and a.ty == 'Path':
                    return AV(Str(NC, ('path', a.prov)), deps)
        return mkstr(NC, deps)
    if b == 'list' or b == 'tuple':
        return do_list(I, b, args, n, st, deps)
    if b in ('set', 'frozenset'):
        if not args:
            return I.alloc(_H('set', el=()), st, n)
        els = I.exact_elems(args[0], st)
        if els is not None:
            return I.alloc(_H('set', el=tuple(els)), st, n)
        return I.alloc(_H('set', summ=I.summary_elem(args[0], st, n), deps=deps), st, n).adddeps(deps)
    if b == 'dict':
        return do_dict(I, args, kw, n, st)
    if b == 'sorted' or b == 'reversed':
        els = I.exact_elems(args[0], st)
        if els is not None:
            cs = [e.const() for e in els]
            if b == 'reversed':
                return I.new_list(list(reversed(els)), st, n)
            if all(isinstance(c, str) for c in cs) or all(isinstance(c, (int, float)) for c in cs):
                rv = kw.get('reverse')
                if 'key' not in kw and (rv is None or isinstance(rv.const(), bool)):
                    o = sorted(range(len(cs)), key=lambda i: cs[i], reverse=bool(rv.const()) if rv is not None else False)
                    return I.new_list([els[i] for i in o], st, n)
        kf = kw.get('key')
        e = I.summary_elem(args[0], st, n)
        if kf is not None and e is not None:
            I.call(kf, [e], {}, n, st)
        return I.alloc(_H('list', summ=e, deps=deps), st, n).adddeps(deps)
    if b == 'enumerate':
        els = I.exact_elems(args[0], st)
        s0 = get(args, kw, 1, 'start', mknum(0))
        if els is not None and isinstance(s0.const(), int):
            return mktup([mktup([mknum(i + s0.const()), e]) for i, e in enumerate(els)], deps)
        e = I.summary_elem(args[0], st, n)
        if e is None:
            return mktup([])
        lo = I.num(s0, st).iv[0]
        idx = AV(Num(dt='i', arr=False, nd=0, iv=(lo, INF), law=L_0, sh=SH0, form=F.fatom(('op', I.vsid(n, 'enum')))), args[0].deps)
        return I.alloc(_H('list', summ=mktup([idx, e]), deps=deps), st, n).adddeps(deps)
    if b == 'zip':
        ls = [I.exact_elems(a, st) for a in args]
        if ls and all(l is not None for l in ls):
            return mktup([mktup(list(t)) for t in zip(*ls)], deps)
        if not ls:
            return mktup([])
        es = [I.summary_elem(a, st, n) for a in args]
        if any(e is None for e in es):
            return mktup([])
        return I.alloc(_H('list', summ=mktup(es), deps=deps), st, n).adddeps(deps)
    if b in ('map', 'filter'):
        fn = args[0]
        ls = [I.exact_elems(a, st) for a in args[1:]]
        if b == 'map' and ls and all(l is not None for l in ls):
            return I.new_list([I.call(fn, list(t), {}, n, st) for t in zip(*ls)], st, n)
        es = [I.summary_elem(a, st, n) for a in args[1:]]
        if any(e is None for e in es):
            return mktup([])
        if b == 'map':
            r = I.call(fn, es, {}, n, st)
        else:
            if not fn.only('none'):
                I.call(fn, es, {}, n, st)
            r = es[0]
        return I.alloc(_H('list', summ=r, deps=deps), st, n).adddeps(deps)
    if b == 'iter':
        return args[0]
    if b == 'next':
        e = I.summary_elem(args[0], st, n)
        if len(args) > 1:
            return args[1] if e is None else av_join(e, args[1]).adddeps(deps)
        if e is None:
            I.raise_(n, st, 'StopIteration')
        return e
    if b == 'getattr':
        c = args[1].const()
        if isinstance(c, str):
            if len(args) > 2:
                v = None
                for a in args[0].alts:
                    if a.kind == 'none':
                        continue
                    x = None
                    if a.kind == 'mod':
                        x = I.mod_attr(a.mod, c, st)
                    elif a.kind == 'ref':
                        h = st.heap.get(a.loc)
                        if h is not None and h.ty == 'inst':
                            x = h.d[c][0] if c in h.d else (I.class_attr(h.cls, c, st) if h.cls is not None else None)
                    else:
                        x = I.get_attr1(a, args[0], c, n, st)
                    if x is not None:
                        v = x if v is None else av_join(v, x)
                certain = args[0].only('mod') or args[0].only('ref')
                if v is None:
                    return args[2]
                return (v if certain else av_join(v, args[2])).adddeps(args[0].deps)
            return I.get_attr(args[0], c, n, st)
        if args[0].only('mod'):
            return I.opaque(n, deps)
        if args[0].only('ext'):
            return AV(Ext(args[0].alts[0].name + '.*'), deps)
        return I.opaque(n, deps, roots_of(args[0]))
    if b == 'hasattr':
        c = args[1].const()
        r = None
        if args[0].only('mod') and isinstance(c, str):
            r = I.mod_attr(args[0].alts[0].mod, c, st) is not None
        elif args[0].only('num') and args[0].alts[0].arr and not args[0].alts[0].anyk and c in ('shape', 'ndim', '__len__', 'size', 'dtype'):
            r = True
        elif args[0].only('none') or args[0].only('str'):
            r = False if c in ('shape', 'ndim', 'dtype') else None
        return mkbool(r, args[0].deps)
    if b == 'setattr':
        c = args[1].const()
        I.set_attr(args[0], c if isinstance(c, str) else '?', args[2], st, n)
        return NONE
    if b == 'delattr':
        I.set_attr(args[0], '?', NONE, st, n)
        return NONE
    if b == 'globals':
        return AV(Eo('globals', I.curmod.name))
    if b == 'locals' or b == 'vars':
        if b == 'vars' and args:
            return I.opaque(n, deps, roots_of(args[0]))
        return I.new_dict({k: v for k, v in st.env.items() if k[:1] != '\0'}, st, n)
    if b == 'type':
        for a in args[0].alts:
            if a.kind == 'ref' and a.loc in st.heap and st.heap[a.loc].ty == 'inst' and st.heap[a.loc].cls is not None:
                return AV(st.heap[a.loc].cls)
        return I.opaque(n, deps)
    if b in ('id', 'hash'):
        return AV(Num(dt='i', arr=False, nd=0, law=L_U, form=F.fatom(('op', I.vsid(n)))), deps | frozenset([('identity',)]) if b == 'id' else deps)
    if b == 'open':
        return call_fs(I, 'builtins.open', args, kw, n, st)
    if b == 'input':
        I.event('print', n, st, file=None)
        return mkstr(NC, frozenset([('input',)]))
    if b == 'slice':
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return AV(Eo('slice', tuple(p.key() for p in a), E), deps, ('slice', tuple(a)))
    if b in ('property', 'staticmethod', 'classmethod', 'object', 'super', 'memoryview', 'bytes', 'bytearray', 'ord', 'dir'):
        if b in ('staticmethod', 'classmethod', 'property'):
            return args[0]
        return I.opaque(n, deps, frozenset().union(*[roots_of(a) for a in args]) if b == 'memoryview' and args else E)
    if b == 'exec' or b == 'eval' or b == '__import__' or b == 'compile':
        I.note_unmodelled('builtins.' + b, n)
        return I.opaque(n, deps)
    if b in ('exit', 'quit'):
        I.raise_(n, st, 'SystemExit')
    return generic(I, 'builtins.' + b, args, kw, n, st)


def do_len(I, x, n, st):
    outs = None
    for a in x.alts:
        if a.kind == 'none':
            continue
        if a.kind == 'tup':
            r = mknum(len(a.el))
        elif a.kind == 'ref':
            h = st.heap.get(a.loc)
            if h is not None and h.ty in ('list', 'set') and h.el is not None and not _old(a.loc):
                r = mknum(len(h.el))
            elif h is not None and h.ty == 'dict' and h.rest is None and all(m for _, m in h.d.values()):
                r = mknum(len(h.d))
            else:
                r = AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=F.fatom(('op', ('len',) + I.vsid(n)))), h.deps if h is not None else E)
        elif a.kind == 'str':
            r = mknum(len(a.const)) if isinstance(a.const, str) else AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=F.fatom(('op', ('len',) + I.vsid(n)))))
        elif a.kind == 'num':
            f = a.ln
            if f is None and a.form is not None:
                f = F.fapp('len', a.form)
            if f is not None and F.is_const(f):
                r = mknum(int(F.const_of(f)))
            else:
                r = AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=f))
        else:
            r = AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=F.fatom(('op', ('len',) + I.vsid(n)))))
        outs = r if outs is None else av_join(outs, r)
    if outs is None:
        I.raise_(n, st, 'TypeError')
    return outs.adddeps(x.deps)


def do_range(I, args, n, st):
    deps = alldeps(args, {})
    cs = [a.const() for a in args]
    if all(isinstance(c, int) for c in cs) and cs:
        try:
            r = range(*cs)
        except ValueError:
            r = None
        if r is not None and len(r) <= 16:
            return mktup([mknum(i) for i in r], deps)
    a = [I.num(x, st) for x in args]
    if len(a) == 1:
        lo, hi = 0.0, a[0].iv[1] - 1
    else:
        lo, hi = a[0].iv[0], a[1].iv[1] - 1
        if len(a) == 3 and (a[2].iv[0] < 0):
            lo, hi = (a[1].iv[0] + 1, a[0].iv[1]) if a[2].iv[1] < 0 else TOPIV
    if hi < lo:
        return mktup([], deps)
    fs = [x.form for x in a]
    ln = a[0].form if len(a) == 1 else (F.fsub(a[1].form, a[0].form) if len(a) == 2 else None)
    labels = E
    for x in a:
        if any(q[0] == 'd' and q[1] for q in x.law) and not any(q in (UNK, D0, KON, ANY) for q in x.law):
            labels = labels | N.bad(I.site(n), 'iteration count from a scaled quantity')
    form = F.fapp('iota', fs[0]) if len(a) == 1 else F.fapp('arange', fs[0], fs[1], fs[2] if len(fs) > 2 else F.fconst(1))
    start = 0 if len(a) == 1 else cs[0]
    prov = None
    if isinstance(start, int) and not isinstance(start, bool) and (len(a) < 3 or (isinstance(cs[2], int) and cs[2] > 0)):
        stop = a[0] if len(a) == 1 else a[1]
        prov = ('range', start, 1 if len(a) < 3 else cs[2], stop.iv[0] > start)
    return AV(Num(dt='i', arr=True, nd=1, iv=(lo, hi), law=L_0, sh=SH0, form=form, ln=ln, prov=prov), deps | labels)


def do_cast(I, b, x, n, st):
    outs = None
    deps = x.deps
    if b == 'bool':
        t = I.truth(x, st)
        r = mkbool(t, deps)
        if t is None and x.only('num'):
            m = x.alts[0]
            return AV(r.alts[0].rep(form=m.form if m.dt == 'b' else F.fapp('bool', m.form)), deps)
        return r
    if x.only('none'):
        I.event('typeerror', n, st, what='%s(None)' % b)
        I.raise_(n, st, 'TypeError')
    a = I.num(x, st)
    if x.only('str') and isinstance(x.alts[0].const, str):
        try:
            return mknum({'float': float, 'int': int, 'complex': complex}[b](x.alts[0].const), deps)
        except ValueError:
            I.raise_(n, st, 'ValueError')
    if a.const is not NC and not isinstance(a.const, complex):
        try:
            return mknum({'float': float, 'int': int, 'complex': complex}[b](a.const), deps)
        except (ValueError, OverflowError):
            pass
    dt = {'float': 'f', 'int': 'i', 'complex': 'c'}[b]
    if b == 'int' and a.form is not None and any(q[0] == 'NAR' for q in deps) and any('log' in str(F.atom_key(at)[:2]) for at in F.atoms_in(a.form)):
        I.event('narraise', n, st, labels=tuple(q for q in deps if q[0] == 'NAR'))
    if b == 'int' and a.dt not in ('i', 'b', 'n', 'B'):
        law, clash = N.law_unit(a)
        labels = E
        if clash:
            labels = labels | N.bad(I.site(n), 'integer rounding of a scaled quantity')
        sh, lb = N.sh_round(I.site(n), 'integer rounding of an offset-dependent quantity', a)
        lo = math.trunc(a.iv[0]) if not math.isinf(a.iv[0]) else a.iv[0]
        hi = math.trunc(a.iv[1]) if not math.isinf(a.iv[1]) else a.iv[1]
        # int() of an already integral value keeps the value number
        from .interp import is_app
        integral = a.form is not None and any(is_app(a.form, q) for q in ('round', 'floor', 'ceil', 'fdiv', 'len', 'rargmax', 'rargmin', 'toint', 'trunc', 'rank'))
        form = a.form if integral else (F.fapp('toint', a.form) if a.form is not None else None)
        if a.prov == 'intlike' or (a.anyk and False):
            form = a.form
        return AV(Num(dt='i', arr=False, nd=0, iv=(float(lo), float(hi)), law=law, sh=sh, form=form, prov='py'), deps | labels | lb)
    return AV(a.rep(const=NC, dt=dt, arr=False, nd=0, roots=E, anyk=False, parts=None, plen=None, ln=None, prov='py' if b == 'int' else None), deps)


def do_maxmin(I, b, args, kw, n, st):
    deps = alldeps(args, kw)
    if len(args) == 1:
        els = I.exact_elems(args[0], st)
        if els is None:
            kf = kw.get('key')
            e = I.summary_elem(args[0], st, n)
            if kf is not None and e is not None:
                kv = I.call(kf, [e], {}, n, st)
                deps = deps | kv.deps
                return AV(tuple(x.rep(form=None) if x.kind == 'num' else x for x in e.alts), e.deps | deps)
            if args[0].only('num'):
                r = npmod.np_reduce(I, b, args[:1], {}, n, st)
            elif e is None:
                r = None
            else:
                m = I.num(e, st)
                r = AV(m.rep(const=NC, form=F.fapp('r' + b, m.form) if m.form is not None else None, roots=E), e.deps | deps)
                r = AV(tuple(x.rep(form=F.fatom(('op', I.vsid(n)))) if x.kind == 'num' else x for x in r.alts), r.deps)
            d = kw.get('default')
            if d is not None:
                return d if r is None else av_join(r, d)
            if r is None:
                I.raise_(n, st, 'ValueError')
            return r
    else:
        els = args
    if 'key' in kw:
        j = None
        for e in els:
            I.call(kw['key'], [e], {}, n, st)
            j = e if j is None else av_join(j, e)
        return j.adddeps(deps) if j is not None else I.opaque(n)
    if not els:
        d = kw.get('default')
        if d is not None:
            return d
        I.raise_(n, st, 'ValueError')
    cs = [e.const() for e in els]
    if all(isinstance(c, (int, float)) for c in cs):
        return mknum(max(cs) if b == 'max' else min(cs), deps)
    r = els[0]
    nm = 'maximum' if b == 'max' else 'minimum'
    for e in els[1:]:
        x = npmod.np_minmax2(I, nm, [r, e], {}, n, st)
        # python max returns a scalar
        x = AV(tuple(q.rep(roots=E, arr=False if q.arr is None else q.arr) if q.kind == 'num' else q for q in x.alts), x.deps)
        r = x
    return r.adddeps(deps)


def do_sum(I, args, kw, n, st):
    els = I.exact_elems(args[0], st)
    start = get(args, kw, 1, 'start')
    if els is not None and len(els) <= 24:
        r = start if start is not None else mknum(0)
        for e in els:
            r = I.binop('Add', r, e, n, st)
        return r.adddeps(args[0].deps)
    if args[0].only('num'):
        return npmod.np_reduce(I, 'sum', args[:1], {}, n, st)
    e = I.summary_elem(args[0], st, n)
    if e is None:
        return mknum(0)
    m = I.num(e, st)
    src = I.num(args[0], st)
    sh = SH0 if N.shz(m) else (None if m.sh is None else F.fatom(('op', I.vsid(n, 'sh'))))
    return AV(Num(law=m.law if m.law != L_K else L_0, iv=(0.0, INF) if m.iv[0] >= 0 else TOPIV, arr=m.arr, nd=m.nd, dt='i' if m.dt in ('b', 'i') else None if m.dt in ('n', 'B') else m.dt,
                  sh=sh, form=F.fapp('rsum', src.form)), e.deps | args[0].deps)


def do_anyall(I, b, x, n, st):
    els = I.exact_elems(x, st)
    if els is not None:
        ts = [I.truth(e, st) for e in els]
        deps = x.deps
        for e in els:
            deps = deps | e.deps
        if b == 'any':
            r = True if True in ts else (None if None in ts else False)
        else:
            r = False if False in ts else (None if None in ts else True)
        return mkbool(r, deps)
    if x.only('num'):
        return npmod.np_reduce(I, b, [x], {}, n, st)
    e = I.summary_elem(x, st, n)
    if e is None:
        return mkbool(b == 'all', x.deps)
    t = I.truth(e, st)
    r = None
    if b == 'any' and t is False:
        r = False
    if b == 'all' and t is True:
        r = True
    return mkbool(r, x.deps | e.deps)


def do_list(I, b, args, n, st, deps):
    if not args:
        return mktup([]) if b == 'tuple' else I.new_list([], st, n)
    x = args[0]
    els = I.exact_elems(x, st)
    if els is not None:
        return mktup(els, deps) if b == 'tuple' else I.new_list(els, st, n)
    e = I.summary_elem(x, st, n)
    if b == 'tuple':
        m = x.get('num')
        if m is not None and len(x.alts) == 1 and (m.form is not None and (m.anyk or m.nd == 1)):
            # tuple(x) of an unknown sequence
            return AV(m.rep(roots=E), deps)
    return I.alloc(_H('list', summ=e, deps=deps), st, n).adddeps(deps)


def do_dict(I, args, kw, n, st):
    d, rest = {}, None
    deps = E
    if args:
        for a in args[0].alts:
            if a.kind == 'ref' and a.loc in st.heap and st.heap[a.loc].ty == 'dict':
                h = st.heap[a.loc]
                d.update(h.d)
                rest = h.rest
            elif a.kind == 'none':
                continue
            else:
                els = I.exact_elems(AV(a), st)
                if els is not None and all(e.get('tup') is not None for e in els):
                    for e in els:
                        k, v = e.get('tup').el[:2]
                        c = k.const()
                        if isinstance(c, (str, int, tuple)):
                            d[c] = (v, True)
                        else:
                            rest = v if rest is None else av_join(rest, v)
                else:
                    e = I.summary_elem(AV(a), st, n)
                    if e is not None and e.get('tup') is not None and len(e.get('tup').el) == 2:
                        rest = e.get('tup').el[1]
                    else:
                        rest = I.opaque(n, args[0].deps, roots_of(args[0]))
    for k, v in kw.items():
        d[k] = (v, True)
    return I.alloc(_H('dict', d=d, rest=rest), st, n).adddeps(args[0].deps if args else E)


def do_copy(I, x, n, st, deep):
    alts = []
    for a in x.alts:
        if a.kind == 'num':
            alts.append(a.rep(roots=frozenset([I.root(n)]) if a.arr is not False else E))
        elif a.kind == 'ref' and a.loc in st.heap:
            h = st.heap[a.loc]
            f = (lambda v: do_copy(I, v, n, st, True)) if deep else (lambda v: v)
            h2 = h.rep(glob=None, el=tuple(f(e) for e in h.el) if h.el is not None else None,
                       summ=f(h.summ) if h.summ is not None else None,
                       d={k: (f(v), m) for k, (v, m) in h.d.items()} if h.d is not None else None,
                       rest=f(h.rest) if h.rest is not None else None)
            alts.append(I.alloc(h2, st, n, ('cp', a.loc)).alts[0])
        else:
            alts.append(a)
    return AV(tuple(alts), x.deps, x.vn)


# ----------------------------------------------------------------- num attributes
def num_attr(I, a, o, name, n, st):
    if name == 'T':
        return npmod.np_alias(I, 'transpose', [AV(a)], {}, n, st)
    if name == 'shape':
        if a.nd == 2 and isinstance(a.prov, tuple) and a.prov[0] in ('row', 'col'):
            # one record as a matrix of one row or column; a record has at least two samples
            both = [mknum(1), AV(Num(arr=False, nd=0, dt='i', iv=(2.0, INF), law=L_0, sh=SH0, form=a.prov[1]))]
            return mktup(both if a.prov[0] == 'row' else both[::-1])
        if a.nd is not None and not a.anyk or (a.nd is not None and a.nd > 0):
            els = []
            for i in range(a.nd):
                if i == 0:
                    f = a.ln if a.ln is not None else (F.fapp('len', a.form) if a.form is not None else None)
                else:
                    if a.prov == 'cols' and a.plen is not None and i == 1:
                        f = F.fconst(a.plen)
                    else:
                        f = F.fapp('idx', F.fapp('shape', a.form), F.fconst(i)) if a.form is not None else None
                if f is not None and F.is_const(f) and F.const_of(f) == int(F.const_of(f)):
                    els.append(mknum(int(F.const_of(f))))
                else:
                    els.append(AV(Num(arr=False, nd=0, dt='i', iv=(0.0, INF), law=L_0, sh=SH0, form=f)))
            return mktup(els)
        return AV(Num(anyk=True, dt='i', iv=(0.0, INF), law=L_0, sh=SH0, form=F.fapp('shape', a.form) if a.form is not None else None))
    if name in ('size', 'ndim'):
        return AV(npmod.num_shape_attr(I, a, name))
    if name in ('real', 'imag'):
        return npmod.np_unary(I, name, [AV(a)], {}, n, st)
    if name == 'dtype':
        return AV(Eo('dtype', a.dt))
    if name == 'flat':
        return AV(a.rep(nd=1, parts=None, plen=None))
    if name in ('nbytes', 'itemsize'):
        return AV(Num(arr=False, nd=0, dt='i', iv=(0.0, INF), law=L_0, sh=SH0))
    if a.anyk and name not in METHODS:
        # attribute of an unknown object
        return AV(Num(anyk=True, roots=a.roots, form=F.fapp('attr', a.form, F.fatom(('str', name))) if a.form is not None else None))
    return AV(Bound(AV(a, o.deps), name))


METHODS = {'sum', 'mean', 'max', 'min', 'std', 'var', 'argmax', 'argmin', 'argsort', 'any', 'all', 'astype', 'copy', 'reshape', 'ravel', 'flatten',
           'squeeze', 'transpose', 'tolist', 'item', 'sort', 'fill', 'conj', 'conjugate', 'round', 'clip', 'cumsum', 'dot', 'ptp', 'prod', 'repeat',
           'append', 'extend', 'get', 'items', 'keys', 'values', 'update', 'pop', 'setdefault', 'lower', 'upper', 'strip', 'insert', 'remove', 'clear',
           'view', 'swapaxes', 'diagonal', 'nonzero', 'put', 'resize', 'partition', 'itemset', 'setflags', 'byteswap', 'popitem', 'reverse', 'tobytes', 'take', 'compress',
           'format', 'split', 'startswith', 'endswith', 'join', 'replace', 'add', 'discard', 'is_integer', 'searchsorted'}


def num_method(I, a, o, name, args, kw, n, st):
    me = AV(a, o.deps)
    if name in ('sum', 'mean', 'max', 'min', 'std', 'var', 'argmax', 'argmin', 'any', 'all', 'ptp', 'prod'):
        return npmod.np_reduce(I, name, [me] + args, kw, n, st)
    if name in ('reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes', 'diagonal'):
        return npmod.np_alias(I, name, [me] + args, kw, n, st)
    if name in ('astype', 'copy', 'flatten'):
        if a.anyk and name == 'copy' and not a.arr:
            # list.copy / dict.copy are shallow; elements of nested containers stay shared
            r = npmod.np_copy(I, name, [me] + args, kw, n, st)
            return AV(tuple(x.rep(arr=a.arr, anyk=True, prov=a.prov) if x.kind == 'num' else x for x in r.alts), r.deps)
        return npmod.np_copy(I, name, [me] + args, kw, n, st)
    if name in ('conj', 'conjugate', 'round'):
        return npmod.np_unary(I, name, [me] + args, kw, n, st)
    if name == 'clip':
        return npmod.np_clip(I, name, [me] + args, kw, n, st)
    if name == 'take':
        return npmod.np_pick(I, name, [me] + args, kw, n, st)
    if name == 'compress':
        return npmod.np_pick(I, name, args[:1] + [me] + args[1:], kw, n, st)
    if name in ('cumsum', 'argsort', 'repeat', 'searchsorted', 'nonzero'):
        return npmod.np_generic(I, name, [me] + args, kw, n, st)
    if name == 'dot':
        return npmod.call_numpy(I, 'dot', [me] + args, kw, n, st)
    if name == 'tolist':
        els = I.exact_elems(me, st)
        if els is not None:
            return I.new_list(els, st, n)
        if a.arr is False or a.nd == 0:
            return AV(a.rep(roots=E, dt={'n': 'i', 'B': 'b'}.get(a.dt, a.dt)))
        e = I.elem_num(a, ('elem', I.vsid(n)), n)
        e = e.rep(dt={'n': 'i', 'B': 'b'}.get(e.dt, e.dt))
        return I.alloc(_H('list', summ=AV(e.rep(roots=E), o.deps)), st, n).adddeps(o.deps)
    if name == 'item':
        return AV(a.rep(arr=False, nd=0, roots=E, anyk=False, parts=None, plen=None, dt={'n': 'i', 'B': 'b'}.get(a.dt, a.dt)), o.deps)
    if name in ('sort', 'fill', 'put', 'resize', 'partition', 'itemset', 'byteswap') and not (name == 'sort' and False):
        I.event('mutate', n, st, roots=a.roots, weak=False, how='.%s()' % name, target='')
        if a.roots:
            I.propagate(st, a.roots, args[0] if args and name == 'fill' else AV(a.rep(form=F.fapp('sort', a.form) if a.form is not None else None, parts=None, plen=None)),
                        None if name in ('fill', 'sort') else I.opaque(n, tag='ix'))
        return NONE
    if name == 'setflags':
        if a.roots:
            I.event('mutate', n, st, roots=a.roots, weak=False, how='.setflags()', target='')
        return NONE
    if a.anyk:
        if name in ('append', 'extend', 'insert', 'remove', 'clear', 'update', 'pop', 'popitem', 'setdefault', 'reverse', 'add', 'discard'):
            I.event('mutate', n, st, roots=a.roots, weak=False, how='.%s()' % name, target='')
            if name in ('pop', 'setdefault', 'popitem'):
                return AV(Num(anyk=True, roots=a.roots, form=None), alldeps(args, kw) | o.deps)
            return NONE
        deps = alldeps(args, kw) | o.deps
        if name == 'get':
            kf = I.key_form(args[0], st)
            v = AV(Num(anyk=True, roots=a.roots, law=a.law, sh=a.sh, form=F.fapp('key', a.form, kf) if a.form is not None and kf is not None else None), deps)
            return av_join(v, args[1] if len(args) > 1 else NONE)
        if name in ('items',):
            f = F.fatom(('op', I.vsid(n)))
            return I.alloc(_H('list', summ=mktup([mkstr(NC, deps), AV(Num(anyk=True, roots=a.roots, form=f), deps)]), deps=deps), st, n)
        if name == 'keys':
            return I.alloc(_H('list', summ=mkstr(NC, deps), deps=deps), st, n)
        if name == 'values':
            return I.alloc(_H('list', summ=AV(Num(anyk=True, roots=a.roots, form=F.fatom(('op', I.vsid(n)))), deps), deps=deps), st, n)
        if name in ('lower', 'upper', 'strip', 'format', 'join', 'replace', 'title', 'capitalize'):
            return mkstr(NC, deps)
        if name in ('startswith', 'endswith', 'is_integer', 'isdigit'):
            return mkbool(None, deps)
        I.note_unmodelled('method .%s of unknown value' % name, n)
        return AV(Num(anyk=True, roots=a.roots, form=F.fatom(('op', I.vsid(n)))), deps)
    if name == 'is_integer':
        return mkbool(None, o.deps)
    if name in ('to', 'tobytes', 'any'):
        return I.opaque(n, o.deps)
    I.note_unmodelled('ndarray.' + name, n)
    return I.opaque(n, alldeps(args, kw) | o.deps, a.roots)


# ------------------------------------------------------------------ containers
def container_method(I, a, o, name, args, kw, n, st):
    h = st.heap.get(a.loc)
    deps = o.deps | alldeps(args, kw)
    if h is None:
        return I.opaque(n, deps)
    me = AV(a)
    if h.ty in ('list', 'set'):
        if name in ('append', 'add', 'appendleft'):
            I.mutate_container(me, n, st, '.%s()' % name)
            I.list_append(a.loc, args[0], st)
            if st.pc:
                h2 = st.heap[a.loc]
            return NONE
        if name in ('extend', 'update'):
            I.mutate_container(me, n, st, '.%s()' % name)
            I.list_extend(a.loc, args[0], st)
            return NONE
        if name == 'insert':
            I.mutate_container(me, n, st, '.insert()')
            c = args[0].const()
            if h.el is not None and isinstance(c, int) and not _old(a.loc):
                l = list(h.el)
                l.insert(c, args[1])
                st.heap[a.loc] = h.rep(el=tuple(l))
            else:
                e = h.elems()
                v = args[1].adddeps(args[0].deps)
                st.heap[a.loc] = h.rep(el=None, summ=v if e is None else av_join(e, v).adddeps(args[0].deps), deps=h.deps | args[0].deps)
            return NONE
        if name in ('sort', 'reverse', 'clear', 'remove', 'pop', 'popleft', 'discard', 'difference_update', 'intersection_update'):
            I.mutate_container(me, n, st, '.%s()' % name)
            if name == 'clear':
                st.heap[a.loc] = h.rep(el=(), summ=None)
                return NONE
            if name == 'reverse' and h.el is not None and not _old(a.loc):
                st.heap[a.loc] = h.rep(el=tuple(reversed(h.el)))
                return NONE
            e = h.elems()
            if name in ('pop', 'popleft'):
                c = args[0].const() if args else (-1 if name == 'pop' else 0)
                if h.el is not None and isinstance(c, int) and not _old(a.loc) and h.el:
                    l = list(h.el)
                    try:
                        v = l.pop(c)
                    except IndexError:
                        I.raise_(n, st, 'IndexError')
                    st.heap[a.loc] = h.rep(el=tuple(l))
                    return v
                return e if e is not None else I.opaque(n, deps)
            st.heap[a.loc] = h.rep(el=None, summ=e)
            return NONE
        if name == 'copy':
            return I.alloc(h.rep(glob=None), st, n)
        if name in ('index', 'count'):
            return AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=F.fatom(('op', I.vsid(n)))), deps)
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            e = h.elems()
            for x in args:
                q = I.summary_elem(x, st, n)
                if q is not None:
                    e = q if e is None else av_join(e, q)
            return I.alloc(_H('set', summ=e, deps=deps), st, n)
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return mkbool(None, deps)
        I.note_unmodelled('%s.%s' % (h.ty, name), n)
        return I.opaque(n, deps)
    if h.ty == 'dict':
        if name == 'get':
            c = args[0].const()
            dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
            if c is not NC and not isinstance(c, Fresh):
                try:
                    hash(c)
                except TypeError:
                    return I.opaque(n, deps)
                if c in h.d:
                    v, m = h.d[c]
                    if m:
                        return v.adddeps(deps)
                    I.event('mayget', n, st, key=c, label=h.glob)
                    return av_join(v, dflt).adddeps(deps | h.deps)
                if h.rest is not None:
                    return av_join(h.rest, dflt).adddeps(deps)
                I.event('getmiss', n, st, key=c, have=tuple(sorted(map(str, h.d))))
                return dflt.adddeps(deps)
            if isinstance(c, Fresh) and h.rest is None:
                return dflt.adddeps(deps)
            e = h.elems()
            return dflt.adddeps(deps) if e is None else av_join(e, dflt).adddeps(deps)
        if name in ('keys', '__iter__'):
            els = I.exact_elems(me, st)
            if els is not None:
                return mktup(els)
            e = I.summary_elem(me, st, n)
            return I.alloc(_H('list', summ=e, deps=h.deps), st, n).adddeps(h.deps)
        if name == 'values':
            if h.rest is None and all(m for _, m in h.d.values()) and not _old(a.loc):
                return mktup([v for v, _ in h.d.values()])
            return I.alloc(_H('list', summ=h.elems(), deps=h.deps), st, n).adddeps(h.deps)
        if name == 'items':
            if h.rest is None and all(m for _, m in h.d.values()) and not _old(a.loc):
                return mktup([mktup([mkconst(k), v]) for k, (v, _) in h.d.items()])
            k = I.summary_elem(me, st, n)
            v = h.elems()
            if v is None:
                return mktup([])
            return I.alloc(_H('list', summ=mktup([k or mkstr(), v]), deps=h.deps), st, n).adddeps(h.deps)
        if name == 'most_common':
            v = h.elems()
            return I.alloc(_H('list', summ=mktup([I.opaque(n, deps, tag='k'), v if v is not None else mknum(0)]), deps=deps), st, n).adddeps(deps)
        if name == 'update':
            I.mutate_container(me, n, st, '.update()')
            d = dict(h.d)
            rest = h.rest
            strong = not _old(a.loc)
            srcs = []
            for x in args:
                for q in x.alts:
                    if q.kind == 'ref' and q.loc in st.heap and st.heap[q.loc].ty == 'dict':
                        h2 = st.heap[q.loc]
                        for k, (v, m) in h2.d.items():
                            v = v.adddeps(x.deps)
                            m2 = m and len(x.alts) == 1 and strong
                            if m2:
                                d[k] = (v, True)
                            else:
                                d[k] = (av_join(d[k][0], v), d[k][1]) if k in d else (v, False)
                        if h2.rest is not None:
                            rest = h2.rest if rest is None else av_join(rest, h2.rest)
                    else:
                        els = I.exact_elems(AV(q), st)
                        if els is not None and all(e.get('tup') is not None and len(e.get('tup').el) == 2 for e in els):
                            for e in els:
                                k, v = e.get('tup').el
                                if isinstance(k.const(), (str, int)):
                                    d[k.const()] = (v, True)
                                else:
                                    rest = v if rest is None else av_join(rest, v)
                        else:
                            o2 = I.opaque(n, x.deps, roots_of(x), 'upd')
                            rest = o2 if rest is None else av_join(rest, o2)
            for k, v in kw.items():
                d[k] = (v, True)
            st.heap[a.loc] = h.rep(d=d, rest=rest)
            return NONE
        if name in ('pop', 'setdefault', 'popitem', 'clear'):
            I.mutate_container(me, n, st, '.%s()' % name)
            if name == 'clear':
                st.heap[a.loc] = h.rep(d={}, rest=None)
                return NONE
            if name == 'popitem':
                return mktup([I.opaque(n, deps, tag='k'), h.elems() or I.opaque(n)])
            c = args[0].const()
            if isinstance(c, (str, int)):
                if c in h.d:
                    v, m = h.d[c]
                    d = dict(h.d)
                    if name == 'pop':
                        if not _old(a.loc):
                            d.pop(c)
                            st.heap[a.loc] = h.rep(d=d)
                        return v if m or len(args) < 2 else av_join(v, args[1])
                    if not m and len(args) > 1:
                        v = av_join(v, args[1])
                        d[c] = (v, True)
                        st.heap[a.loc] = h.rep(d=d)
                    return v
                if name == 'setdefault':
                    v = args[1] if len(args) > 1 else NONE
                    if h.rest is not None:
                        v = av_join(v, h.rest)
                    d = dict(h.d)
                    d[c] = (v, True)
                    st.heap[a.loc] = h.rep(d=d)
                    return v
                if h.rest is not None:
                    return h.rest if len(args) < 2 else av_join(h.rest, args[1])
                if len(args) > 1:
                    return args[1]
                I.raise_(n, st, 'KeyError')
            e = h.elems()
            if name == 'setdefault' and len(args) > 1:
                rest = args[1] if h.rest is None else av_join(h.rest, args[1])
                st.heap[a.loc] = h.rep(rest=rest)
                return rest if e is None else av_join(rest, e)
            return e if e is not None else I.opaque(n, deps)
        if name == 'copy':
            return I.alloc(h.rep(glob=None), st, n).adddeps(o.deps)
        if name == 'fromkeys':
            return I.opaque(n, deps)
        I.note_unmodelled('dict.' + name, n)
        return I.opaque(n, deps)
    return I.opaque(n, deps)


def str_method(I, a, o, name, args, kw, n, st):
    deps = o.deps | alldeps(args, kw)
    cs = [x.const() for x in args]
    if isinstance(a.const, str) and all(isinstance(c, (str, int, tuple)) or c is None for c in cs) and not kw:
        try:
            r = getattr(a.const, name)(*cs)
            if isinstance(r, (str, bool, int)):
                return mkconst(r).adddeps(deps)
            if isinstance(r, list):
                return I.new_list([mkstr(x, deps) for x in r], st, n)
        except Exception:
            pass
    if isinstance(a.const, Fresh) and name in ('lower', 'upper', 'strip', 'title', 'casefold', 'replace', 'rstrip', 'lstrip', 'capitalize'):
        return AV(a, deps)
    if isinstance(a.const, Fresh) and name in ('startswith', 'endswith', 'isdigit'):
        return mkbool(False if name != 'isdigit' else None, deps)
    if name in ('lower', 'upper', 'strip', 'title', 'replace', 'format', 'join', 'rstrip', 'lstrip', 'capitalize', 'zfill', 'ljust', 'rjust', 'center', 'casefold', 'removesuffix', 'removeprefix', 'expandtabs'):
        return mkstr(NC, deps)
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isidentifier', 'islower', 'isupper', 'isspace', 'isnumeric'):
        return mkbool(None, deps)
    if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
        if name in ('partition', 'rpartition'):
            return mktup([mkstr(NC, deps)] * 3)
        return I.alloc(_H('list', summ=mkstr(NC, deps), deps=deps), st, n).adddeps(deps)
    if name in ('find', 'index', 'count', 'rfind'):
        return AV(Num(dt='i', arr=False, nd=0, law=L_0, sh=SH0, form=F.fatom(('op', I.vsid(n)))), deps)
    return I.opaque(n, deps)


def tup_method(I, a, o, name, args, kw, n, st):
    if name in ('index', 'count'):
        return AV(Num(dt='i', arr=False, nd=0, iv=(0.0, INF), law=L_0, sh=SH0, form=F.fatom(('op', I.vsid(n)))), o.deps | alldeps(args, kw))
    return I.opaque(n, o.deps)


# -------------------------------------------------------------------- matplotlib
NEWFIG = {'figure', 'subplots', 'subplot_mosaic', 'figaspect'}
IMPLICIT = {'gca', 'gcf', 'subplot', 'axes', 'subplot2grid', 'plot', 'scatter', 'bar', 'hist', 'title', 'xlabel', 'ylabel', 'grid', 'legend', 'tight_layout', 'xlim', 'ylim',
            'text', 'axhline', 'axvline', 'semilogx', 'semilogy', 'loglog', 'stem', 'fill_between', 'colorbar', 'suptitle', 'sca', 'cla', 'clf', 'subplots_adjust', 'axis', 'polar',
            'xticks', 'yticks', 'annotate', 'errorbar', 'imshow', 'contour', 'contourf', 'pcolormesh', 'hlines', 'vlines', 'plot_date', 'step', 'margins', 'twinx', 'draw', 'pause',
            'delaxes', 'sci', 'table', 'setp'}


def call_mpl(I, name, args, kw, n, st):
    last = name.split('.')[-1]
    deps = E
    kind = 'call'
    if name.startswith('matplotlib.pyplot.'):
        if last in NEWFIG:
            kind = 'newfig'
        elif last in ('show', 'close', 'savefig', 'ion', 'ioff', 'switch_backend'):
            kind = last
        elif last in ('rc', 'rcdefaults', 'style'):
            kind = 'rc'
        elif last in ('rc_context',):
            return AV(Eo('ctx', 'rc_context'))
        elif last in ('get_fignums', 'fignum_exists', 'isinteractive', 'get_backend', 'get_cmap', 'cm', 'Normalize', 'Circle', 'Rectangle', 'Line2D', 'get_figlabels'):
            kind = 'query'
        elif last in IMPLICIT:
            kind = 'implicit'
        else:
            kind = 'implicit'
        if name.startswith('matplotlib.pyplot.style') or name.startswith('matplotlib.pyplot.rcParams'):
            kind = 'rc'
        if name.startswith('matplotlib.pyplot.cm.') or name.startswith('matplotlib.pyplot.rcParams.get'):
            kind = 'query'
    elif name in ('matplotlib.use', 'matplotlib.rc', 'matplotlib.rcdefaults', 'matplotlib.interactive', 'matplotlib.set_loglevel') or name.startswith('matplotlib.rcParams') or name.startswith('matplotlib.style'):
        kind = 'hidden'
        if name in ('matplotlib.rcParams.get', 'matplotlib.rcParams.copy', 'matplotlib.rcParams.items', 'matplotlib.rcParams.keys'):
            kind = 'query'
    elif name in ('matplotlib.get_backend', 'matplotlib.get_cachedir'):
        kind = 'query'
    else:
        kind = 'object'       # patches, ticker, gridspec, cm ...
    if kind in ('hidden', 'rc') and not ('matplotlib.pyplot.rc_context' in I.withs or 'matplotlib.rc_context' in I.withs):
        I.event('hidden', n, st, what=name)
    prov = ('created',)
    onax = E
    for a in list(args) + list(kw.values()):
        for x in a.alts:
            if x.kind == 'eo' and x.ty == 'mpl':
                prov = x.prov
    I.event('mpl', n, st, fn=name, mode=kind, deps=alldeps(args, kw), args=args, kw=kw)
    if last == 'gcf' or last == 'gca' or kind == 'implicit':
        prov = ('current',)
    if kind == 'query':
        return AV(Num(anyk=True, form=F.fatom(('op', I.vsid(n)))), frozenset([('mplstate',)]))
    if last == 'subplots':
        return mktup([AV(Eo('mpl', ('created',))), AV(Eo('mpl', ('created',)))])
    return AV(Eo('mpl', prov))


def mpl_call(I, a, name, args, kw, n, st):
    I.event('mpl', n, st, fn='<%s>.%s' % (a.prov, name), mode='method', prov=a.prov, deps=alldeps(args, kw), args=args, kw=kw)
    return AV(Eo('mpl', a.prov))


# ------------------------------------------------------------------------ paths
def comp_key(I, av, st=None):
    c = av.const()
    if isinstance(c, str):
        return ('s', c)
    if isinstance(c, Fresh):
        return ('fresh', c.n)
    for a in av.alts:
        if a.kind == 'eo' and a.ty == 'Path':
            return ('path',) + a.prov
        if a.kind == 'str' and a.vn is not None:
            return ('real',) if a.vn == ('real',) else ('v', a.vn)
        if a.kind == 'num' and a.form is not None:
            return ('v', F.show(a.form, 2))
    return ('v', tuple(sorted(map(str, av.deps))))


def to_path(I, av, n, st):
    alts = []
    for a in av.alts:
        if a.kind == 'eo' and a.ty == 'Path':
            alts.append(a)
        elif a.kind == 'none':
            continue
        elif a.kind == 'str' and isinstance(a.vn, tuple) and a.vn and a.vn[0] == 'path':
            alts.append(Eo('Path', a.vn[1]))
        else:
            alts.append(Eo('Path', (comp_key(I, AV(a, av.deps)),)))
    if not alts:
        alts = [Eo('Path', (('?',),))]
    # drop duplicates
    seen, out = set(), []
    for a in alts:
        if a.key() not in seen:
            seen.add(a.key())
            out.append(a)
    return AV(tuple(out), av.deps)


def path_join(I, base, comps, n, st):
    r = to_path(I, base, n, st)
    for c in comps:
        k = comp_key(I, c)
        alts = tuple(Eo('Path', a.prov + (k,)) for a in r.alts if a.kind == 'eo' and a.ty == 'Path')
        r = AV(alts, r.deps | c.deps)
    return r


def path_child(I, a, node):
    return AV(Eo('Path', a.prov + (('child',),)), frozenset([('fs',)]))


def fs_op(I, n, st, op, path, **data):
    I.event('fs', n, st, op=op, path=path, **data)
    if I.fs is not None:
        x = I.fs.apply(op, path, data)
        if x is not None:
            I.raise_(n, st, x)


PRED = {'exists', 'is_dir', 'is_file', 'is_symlink', 'is_mount', 'samefile'}
FSOPS = {'mkdir', 'unlink', 'rmdir', 'write_text', 'write_bytes', 'touch', 'rename', 'replace', 'symlink_to', 'hardlink_to', 'chmod', 'link_to'}


def path_method(I, a, o, name, args, kw, n, st):
    deps = o.deps | alldeps(args, kw)
    fsd = frozenset([('fs',)])
    if name in PRED:
        I.event('fspred', n, st, op=name, path=AV(a))
        r = I.fs.pred(a, name) if I.fs is not None else None
        return mkbool(r, deps | fsd)
    if name in FSOPS:
        fs_op(I, n, st, op=name, path=AV(a, o.deps), args=args, kw=kw)
        if name in ('rename', 'replace') and args:
            return to_path(I, args[0], n, st)
        return NONE
    if name == 'open':
        mode = get(args, kw, 0, 'mode', mkstr('r'))
        if mode.const() is NC or any(c in str(mode.const()) for c in 'wax+'):
            fs_op(I, n, st, op='open-write', path=AV(a, o.deps))
        return AV(Eo('file'), fsd)
    if name == 'resolve' and I.fs is not None:
        return AV(Eo('Path', a.prov + (('real',),)), deps | fsd)
    if name in ('resolve', 'absolute', 'expanduser', 'as_posix'):
        return AV(a, deps | (fsd if name == 'resolve' else E))
    if name in ('joinpath',):
        return path_join(I, AV(a, o.deps), args, n, st)
    if name in ('with_suffix', 'with_name', 'with_stem'):
        return AV(Eo('Path', a.prov + (('sib', comp_key(I, args[0]) if args else ()),)), deps)
    if name in ('iterdir', 'glob', 'rglob'):
        I.event('fspred', n, st, op=name, path=AV(a))
        return I.alloc(_H('list', summ=AV(Eo('Path', a.prov + (('child',),)), deps | fsd), deps=fsd), st, n).adddeps(fsd)
    if name in ('read_text', 'read_bytes', 'readlink', 'stat', 'lstat', 'owner', 'group'):
        return I.opaque(n, deps | fsd)
    if name in ('relative_to', 'is_relative_to', 'match', 'is_absolute'):
        if name == 'relative_to':
            return AV(Eo('Path', (('rel',) + a.prov,)), deps)
        return mkbool(None, deps)
    I.note_unmodelled('Path.' + name, n)
    return I.opaque(n, deps)


def call_fs(I, name, args, kw, n, st):
    last = name.split('.')[-1]
    deps = alldeps(args, kw)
    if name.startswith('os.path.') or name in ('os.listdir', 'os.walk', 'os.scandir', 'os.environ.get', 'os.getenv', 'os.access', 'os.cpu_count', 'os.getpid', 'os.stat', 'os.fspath'):
        if last in ('join',):
            return path_join(I, args[0], args[1:], n, st)
        if last in ('exists', 'isdir', 'isfile', 'islink', 'lexists'):
            p = to_path(I, args[0], n, st)
            I.event('fspred', n, st, op=last, path=p)
            nm = {'isdir': 'is_dir', 'isfile': 'is_file', 'islink': 'is_symlink'}.get(last, last)
            rs = {I.fs.pred(a, nm) if I.fs is not None else None for a in p.alts}
            return mkbool(rs.pop() if len(rs) == 1 else None, deps | frozenset([('fs',)]))
        if last == 'dirname' and args:
            p = to_path(I, args[0], n, st)
            return AV(tuple(Eo('Path', a.prov[:-1] if len(a.prov) > 1 else a.prov + (('parent',),)) for a in p.alts), deps)
        if last == 'realpath' and I.fs is not None:
            return path_join(I, args[0], [AV(Str(NC, ('real',)))], n, st)
        if last in ('abspath', 'realpath', 'expanduser', 'normpath', 'fspath'):
            return to_path(I, args[0], n, st)
        return I.opaque(n, deps | frozenset([('fs',)]))
    if name == 'shutil.ignore_patterns':
        return AV(Eo('ignore', tuple(str(a.const()) for a in args)))
    if name == 'builtins.open' or name == 'io.open':
        mode = get(args, kw, 1, 'mode', mkstr('r'))
        if mode.const() is NC or any(c in str(mode.const()) for c in 'wax+'):
            fs_op(I, n, st, op='open-write', path=to_path(I, args[0], n, st))
        return AV(Eo('file'), frozenset([('fs',)]))
    if name.startswith('tempfile.'):
        return AV(Eo('Path', (('tmp',),)))
    if last in ('rmtree', 'remove', 'unlink', 'rmdir', 'removedirs', 'makedirs', 'mkdir', 'chmod', 'chown', 'truncate'):
        fs_op(I, n, st, op=last, path=to_path(I, get(args, kw, 0, 'name' if last == 'makedirs' else 'path', NONE), n, st), args=args, kw=kw)
        return NONE
    if last in ('copytree', 'copy', 'copy2', 'copyfile', 'move', 'rename', 'replace', 'symlink', 'link', 'copymode', 'copystat', 'renames'):
        src = to_path(I, get(args, kw, 0, 'src', NONE), n, st)
        dst = to_path(I, get(args, kw, 1, 'dst', NONE), n, st)
        fs_op(I, n, st, op=last, path=dst, src=src, args=args, kw=kw)
        return dst
    if last in ('system', 'popen', 'execv', 'kill', 'putenv', 'chdir', 'setenv', 'umask'):
        fs_op(I, n, st, op='os.' + last, path=args[0] if args else NONE)
        return I.opaque(n, deps)
    I.note_unmodelled(name, n)
    return I.opaque(n, deps | frozenset([('fs',)]))


# ---------------------------------------------------------------- external objects
def eo_attr(I, a, o, name, n, st):
    if a.ty == 'mpl':
        return AV(Bound(AV(a, o.deps), name))
    if a.ty == 'Path':
        if name == 'parent':
            if len(a.prov) > 1:
                return AV(Eo('Path', a.prov[:-1]))
            return AV(Eo('Path', a.prov + (('parent',),)))
        if name in ('name', 'stem', 'suffix'):
            last = a.prov[-1]
            if last[0] == 's' and name == 'name':
                return mkstr(last[1])
            return AV(Str(NC, (name,) + tuple(map(str, a.prov))), o.deps)
        if name in ('parts', 'parents', 'suffixes', 'anchor', 'root', 'drive'):
            return I.opaque(n, o.deps)
        return AV(Bound(AV(a, o.deps), name))
    if a.ty == 'ns':
        if I.cli is not None and name in I.cli:
            v = I.cli[name]
            return v(I, st) if callable(v) else v
        pre = 'cli.' + name
        c = I.argclass.get(name)
        if c == 'bool':
            return AV(Num(dt='b', arr=False, nd=0, iv=(0.0, 1.0), law=L_0, sh=SH0, form=F.fatom(('arg', pre))), frozenset([('p', pre)]))
        return AV(Num(anyk=True, form=F.fatom(('arg', pre))), frozenset([('p', pre)]), ('cli', name))
    if a.ty == 'finfo':
        if name in ('eps', 'resolution'):
            return mknum(2.220446049250313e-16)
        if name in ('tiny', 'smallest_normal'):
            return mknum(2.2250738585072014e-308)
        if name == 'max':
            return mknum(1.7976931348623157e308)
        if name == 'min':
            return mknum(-1.7976931348623157e308)
        return I.opaque(n)
    if a.ty == 'dtype':
        if name == 'kind':
            # 'i' covers signed and unsigned integers
            if a.prov == 'n':
                return AV((Str('i'), Str('u')), o.deps)
            return mkstr({'b': 'b', 'B': 'b', 'f': 'f', 'c': 'c'}.get(a.prov, NC))
        return I.opaque(n)
    if a.ty == 'filecmp':
        return I.opaque(n, frozenset([('fs',)]))
    return AV(Bound(AV(a, o.deps), name))


def eo_method(I, a, o, name, args, kw, n, st):
    deps = o.deps | alldeps(args, kw)
    if a.ty == 'mpl':
        return mpl_call(I, a, name, args, kw, n, st)
    if a.ty == 'Path':
        return path_method(I, a, o, name, args, kw, n, st)
    if a.ty == 'Generator':
        I.event('rngdraw', n, st, name=name, src=a.prov)
        if name == 'shuffle':
            r = roots_of(args[0])
            I.event('mutate', n, st, roots=r, weak=False, how='rng.shuffle', target='')
            return NONE
        if name == 'spawn':
            return I.alloc(_H('list', summ=AV(a)), st, n)
        return npmod.rng_draw(I, name, args, kw, n, st, a.prov).adddeps(o.deps)
    if a.ty == 'parser':
        if name == 'add_argument':
            flag = None
            for x in args:
                c = x.const()
                if isinstance(c, str):
                    flag = c.lstrip('-').replace('-', '_') if (flag is None or c.startswith('--')) else flag
            if 'dest' in kw and isinstance(kw['dest'].const(), str):
                flag = kw['dest'].const()
            act = kw.get('action')
            if flag and act is not None and act.const() in ('store_true', 'store_false'):
                I.argclass[flag] = 'bool'
                I.event('cliflag', n, st, flag=flag, action=act.const())
            else:
                I.event('cliarg', n, st, flag=flag, kw=kw)
            return AV(a)
        if name in ('parse_args', 'parse_known_args'):
            v = AV(Eo('ns', None))
            return v if name == 'parse_args' else mktup([v, I.opaque(n)])
        if name in ('error', 'exit'):
            I.event('exit', n, st, code=None)
            I.raise_(n, st, 'SystemExit')
        if name in ('print_help', 'print_usage'):
            I.event('print', n, st, file=None)
            return NONE
        return AV(a)
    if a.ty == 'spline':
        x = I.num(args[0], st)
        law, sh = (o.vn[1], o.vn[2]) if isinstance(o.vn, tuple) and o.vn and o.vn[0] == 'spline' else (L_U, None)
        return AV(Num(law=law, sh=sh if sh is not None and N.uniform(sh) else None, arr=x.arr, nd=x.nd, dt='f', form=F.fatom(('op', I.vsid(n)))), deps)
    if a.ty == 'file':
        if name in ('write', 'writelines'):
            return NONE
        return I.opaque(n, deps)
    if a.ty == 'logger':
        return NONE
    if a.ty in ('sys.stdout', 'sys.stderr'):
        I.event('print', n, st, file=AV(a))
        return NONE
    if a.ty in ('os.environ', 'sys.path', 'sys.argv'):
        if name in ('append', 'insert', 'extend', 'pop', 'update', 'setdefault', 'remove', 'clear'):
            I.event('hidden', n, st, what=a.ty + '.' + name)
        return I.opaque(n, frozenset([('env',)]))
    if a.ty == 'globals':
        if name == 'get' and isinstance(args[0].const(), str):
            v = I.mod_attr(I.p.modules[a.prov], args[0].const(), st)
            return v if v is not None else (args[1] if len(args) > 1 else NONE)
        if name in ('update', 'setdefault', 'pop'):
            for f in st.frames:
                if f.fid == ('mod', a.prov):
                    for x in args[:1]:
                        for q in x.alts:
                            if q.kind == 'ref' and q.loc in st.heap and st.heap[q.loc].ty == 'dict':
                                for k, (v, m) in st.heap[q.loc].d.items():
                                    f.env[k] = v
                    return NONE
            I.event('globalwrite', n, st, name='globals().' + name, mod=a.prov)
        return I.opaque(n)
    if a.ty == 'ctx':
        return AV(a)
    I.note_unmodelled('method .%s of %s' % (name, a.ty), n)
    return I.opaque(n, deps, a.roots)


def eo_call(I, a, args, kw, n, st):
    if a.ty == 'mpl':
        return mpl_call(I, a, '__call__', args, kw, n, st)
    if a.ty == 'spline':
        x = I.num(args[0], st)
        law = L_U
        return AV(Num(law=law, arr=x.arr, nd=x.nd, dt='f', form=F.fatom(('op', I.vsid(n)))), alldeps(args, kw))
    return I.opaque(n, alldeps(args, kw))
