"""Internal references: imports, names, argument lists, fields and locals that must exist."""
import builtins
import itertools
import symtable
from . import check
from .common import *
from .. import libs
from ..par import fork_each
from ..interp import Frame, State

ABS = 'whole-program analysis of the package AST; '
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__debug__'}


def parents(tree):
    up = {}
    for x in ast.walk(tree):
        for c in ast.iter_child_nodes(x):
            up[c] = x
    return up


def soft(n, up):
    """reference on a path that expects the name may be missing"""
    while n in up:
        c, n = n, up[n]
        if isinstance(n, ast.Try) and c in n.body and n.handlers:
            return True
        if isinstance(n, (ast.If, ast.IfExp)) and c is not n.test and any(w in ast.unparse(n.test) for w in ('hasattr', 'getattr', 'version', 'TYPE_CHECKING')):
            return True
    return False


def fn_name(n, up):
    out = []
    while n in up:
        n = up[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(n.name)
    return '.'.join(reversed(out)) or '<module>'


def absolute(m, x):
    base = x.module or ''
    if x.level:
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (x.level - 1)]
        base = '.'.join(parts + ([x.module] if x.module else []))
    return base


def imports(ctx, m, up):
    W = ctx.W
    n = 0
    for x in ast.walk(m.tree):
        if not isinstance(x, (ast.Import, ast.ImportFrom)):
            continue
        names = [(a.name, None) for a in x.names] if isinstance(x, ast.Import) else [(absolute(m, x), a.name) for a in x.names]
        for mod, name in names:
            n += 1
            top = mod.split('.')[0]
            if top == 'adctoolbox':
                if mod not in W.project.modules and not mod.startswith('adctoolbox.examples'):
                    ok = False
                elif name is None or name == '*' or mod not in W.project.modules:
                    ok = True
                else:
                    ok = W.I.mod_attr(W.project.modules[mod], name, None) is not None
            elif name is not None and name != '*':
                ok = libs.has(mod, name)
            else:
                ok = None if top not in libs.LIBS or not libs.SITE else libs.find(mod) != (None, None)
            if ok is False and not soft(x, up):
                ctx.bad('unresolved-import', '%s:%s.%s' % (m.rel, mod, name or ''), '%s:%d (%s)' % (m.rel, x.lineno, fn_name(x, up)),
                        'import of %s%s, which does not exist' % (mod, '.' + name if name else ''))
            else:
                ctx.good()
    return n


def scopes(ctx, m, up):
    """every global name a scope reads is bound in the module or a builtin"""
    try:
        with open(m.path) as f:
            top = symtable.symtable(f.read(), m.path, 'exec')
    except SyntaxError:
        return 0
    bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Global):
            bound |= set(x.names)
    if m.env:
        bound |= {k for k in m.env if k[:1] != '\0'}
    else:
        return 0
    n = 0
    missing = set()

    def visit(t):
        nonlocal n
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or (t.get_type() == 'module' and not s.is_assigned())):
                n += 1
                if s.get_name() not in bound and s.get_name() not in BUILTINS:
                    missing.add(s.get_name())
        for c in t.get_children():
            visit(c)
    visit(top)
    for name in sorted(missing):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and not soft(x, up) and not in_annotation(x, up):
                ctx.bad('undefined-name', '%s:%s' % (m.rel, name), '%s:%d (%s)' % (m.rel, x.lineno, fn_name(x, up)), 'name `%s` is never defined' % name)
                break
    for _ in range(n - len(missing)):
        ctx.good()
    return n


def in_annotation(x, up):
    c = x
    while c in up:
        p = up[c]
        if isinstance(p, ast.arg) or isinstance(p, ast.AnnAssign) and c is p.annotation or isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and c is p.returns:
            return True
        c = p
    return False


def locals_of(fn):
    """names that are local to a function (parameters and assigned names)"""
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    out |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(y.asname or y.name).split('.')[0] for y in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def static_value(ctx, m, n, shadow):
    """module-level value of a dotted name, if no enclosing function rebinds its head"""
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name) or n.id in shadow or not m.env or n.id not in m.env:
        return None
    v = m.env[n.id]
    for p in reversed(parts):
        if len(v.alts) != 1 or v.alts[0].kind != 'mod':
            return None
        v = ctx.W.I.mod_attr(v.alts[0].mod, p, None)
        if v is None:
            return None
    return v


def shadows(x, up):
    out = set()
    while x in up:
        x = up[x]
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if isinstance(x, ast.Lambda):
                out |= {y.arg for y in x.args.args + x.args.kwonlyargs + x.args.posonlyargs}
            else:
                out |= locals_of(x)
        elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            for g in x.generators:
                out |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
    return out


def bind_error(fn, call, bound_self):
    """reason why the argument list of `call` cannot be bound to `fn`, or None"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    need = set(pos[:len(pos) - nd] if nd else pos)
    if bound_self:
        need.discard(pos[0] if pos else None)
        pos = pos[1:]
    kwonly = {x.arg for x in a.kwonlyargs}
    need |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [x for x in call.args if not isinstance(x, ast.Starred)]
    if len(given) > len(pos) and not a.vararg:
        return 'takes %d positional arguments, %d given' % (len(pos), len(given))
    filled = set(pos[:len(given)]) if not star else set()
    only = {x.arg for x in a.posonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in filled:
            return 'argument %r given twice' % k.arg
        if (k.arg not in pos and k.arg not in kwonly or k.arg in only) and not a.kwarg:
            return 'has no parameter %r' % k.arg
        filled.add(k.arg)
    miss = sorted(need - filled)
    if miss and not star and not dstar:
        return 'is missing argument %r' % miss[0]
    return None


def calls(ctx, m, up):
    n = 0
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Call):
            if not isinstance(x.func, (ast.Name, ast.Attribute)):
                continue
            v = static_value(ctx, m, x.func, shadows(x, up))
            if v is None or len(v.alts) != 1:
                continue
            a = v.alts[0]
            if a.kind == 'func' and a.node is not None and isinstance(a.node, ast.FunctionDef) and not a.node.decorator_list:
                node, self_ = a.node, False
            elif a.kind == 'class':
                i = a.attrs.get('__init__')
                f = i.get('func') if i is not None else None
                if f is None or a.bases:
                    continue
                node, self_ = f.node, True
            else:
                continue
            n += 1
            err = bind_error(node, x, self_)
            if err and not soft(x, up):
                ctx.bad('bad-arguments', '%s:%s:%s' % (m.rel, fn_name(x, up), node.name), '%s:%d (%s)' % (m.rel, x.lineno, fn_name(x, up)),
                        'call of %s %s' % (a.qual, err))
            else:
                ctx.good()
    return n


def lib_names(ctx, m, up):
    """numpy / scipy / matplotlib.pyplot names used by the package exist in the installed release"""
    n = 0
    for x in ast.walk(m.tree):
        if not isinstance(x, ast.Attribute) or isinstance(up.get(x), ast.Attribute):
            continue
        parts = []
        y = x
        while isinstance(y, ast.Attribute):
            parts.append(y.attr)
            y = y.value
        if not isinstance(y, ast.Name) or not m.env or y.id not in m.env or y.id in shadows(x, up):
            continue
        v = m.env[y.id]
        if len(v.alts) != 1 or v.alts[0].kind != 'ext' or v.alts[0].name.split('.')[0] not in libs.LIBS:
            continue
        mod = v.alts[0].name
        for p in reversed(parts):
            r = libs.has(mod, p)
            if r is False and libs.find(mod) != (None, None):
                if not soft(x, up):
                    ctx.bad('unknown-library-name', '%s:%s.%s' % (m.rel, mod, p), '%s:%d (%s)' % (m.rel, x.lineno, fn_name(x, up)),
                            '%s has no `%s` in the installed release' % (mod, p))
                break
            n += 1
            mod += '.' + p
            if libs.find(mod) == (None, None):
                break
        ctx.good()
    return n


# what an event says when the interpreter has proved that every concrete run reaching the point fails
EVENTS = {
    'badcall': lambda d: 'the call of %s cannot bind its arguments: %s' % (d['func'], d['err']),
    'noitem': lambda d: 'no such entry: %r' % (d['key'],),
    'indexerror': lambda d: 'index %r is out of range' % (d['idx'],),
    'attrnone': lambda d: 'no attribute `%s` (value is %s)' % (d['attr'], d['of']),
    'badattr': lambda d: '%s has no attribute `%s`' % (d['mod'], d['attr']) if d.get('only') else None,
    'unpack-mismatch': lambda d: '%d values unpacked into %d names' % (d['got'], d['want']),
    'typeerror': lambda d: d['what'],
    'maybeunbound': lambda d: 'local `%s` is assigned on one branch only and read on both' % d['name'],
}
RULE = {'badcall': 'bad-arguments', 'noitem': 'missing-entry', 'indexerror': 'missing-entry', 'attrnone': 'missing-attribute', 'badattr': 'missing-attribute',
        'unpack-mismatch': 'unpack-mismatch', 'typeerror': 'none-used', 'maybeunbound': 'unbound-local'}


PAIRS = 12           # up to this many option values, every pair is interpreted too


def options(e, W, full=True):
    """option scenarios of one entry: (description, {parameter: abstract value})"""
    I = W.I
    base = {}
    for p in e.params():
        d = I.default_of(e.fn, p.arg)
        if d is not None and d.const() is not NC:
            base[p.arg] = d.adddeps(frozenset([('p', p.arg)]))
    if not base:
        return []
    out = [('all defaults', dict(base))]
    vary = []
    lits = {}
    for x in ast.walk(e.fn.node):
        if isinstance(x, ast.Compare) and isinstance(x.left, ast.Name):
            for c in x.comparators:
                for k in ast.walk(c):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        lits.setdefault(x.left.id, set()).add(k.value)
    for p in e.params():
        if p.arg not in base:
            continue
        c = base[p.arg].const()
        dep = frozenset([('p', p.arg)])
        if isinstance(c, bool):
            alt = [mknum(not c, dep)]
        elif c is None:
            alt = [(lambda I, st, p=p: AV(tuple(a for a in arg_av(I, st, p.arg, p.annotation, None, True).alts if a.kind != 'none'), frozenset([('p', p.arg)])))]
        elif isinstance(c, str):
            alt = [mkstr(s, dep) for s in sorted(lits.get(p.arg, ())) if s != c][:6]
        elif isinstance(c, (int, float)) and full:
            alt = [lambda I, st, p=p: arg_av(I, st, p.arg, p.annotation, None, True)]
        else:
            continue
        vary += [(p.arg, v) for v in alt]
    out += [('%s varied' % p, dict(base, **{p: v})) for p, v in vary]
    if full and len(vary) <= PAIRS:
        out += [('%s and %s varied' % (p, q), dict(base, **{p: v, q: w})) for (p, v), (q, w) in itertools.combinations(vary, 2) if p != q]
    return out


def call_entry(ctx, job):
    e, what, over = job
    try:
        r = ctx.W.run(e, over=over)
    except (RecursionError, AnalysisError) as ex:
        ctx.unsure('%s: not analysed (%s)' % (short(e.label), ex))
        return
    ctx.count('abstract calls')
    hit = False
    for x in r.events:
        f = EVENTS.get(x.kind)
        msg = f(x.data) if f is not None and not x.data.get('guarded') else None
        if msg is not None:
            hit = True
            ctx.bad(RULE[x.kind], '%s:%s' % (site_fn(x.site), msg), x.site, '%s (%s): %s' % (short(e.label), what, msg), stack_trace(x))
    if not hit:
        ctx.good()


@check('P16', ABS + 'imports, global names, library names and argument lists resolved over all modules; every public call interpreted abstractly with arbitrary arguments and with each option varied, looking for reads of fields, attributes, elements and locals that cannot exist')
def p16(ctx):
    ctx.rule('every import, name and library function used in any module exists, and every argument list binds')
    ctx.rule('on no path of a public call is a field, element, attribute or local read that cannot exist there')
    n = {'imports': 0, 'names': 0, 'calls': 0, 'library names': 0}
    for name in sorted(ctx.W.project.modules):
        m = ctx.W.project.modules[name]
        if name.startswith('contracts_'):
            continue
        up = parents(m.tree)
        n['imports'] += imports(ctx, m, up)
        n['names'] += scopes(ctx, m, up)
        n['calls'] += calls(ctx, m, up)
        n['library names'] += lib_names(ctx, m, up)
    for k, v in n.items():
        ctx.count(k + ' resolved', v)
    fork_each(ctx, [(e, what, over) for e in ctx.W.entries for what, over in [('arbitrary arguments', None)] + options(e, ctx.W)], call_entry)
    for name, site in sorted({(u[0], u[1]) for u in ctx.W.I.unbound}):
        ctx.bad('unbound-local', '%s:%s' % (site_fn(site), name), site, 'local `%s` is read before it is assigned' % name)
    ctx.floor('public entries', len(ctx.W.entries), 100)
    ctx.floor('imports', n['imports'], 150)
