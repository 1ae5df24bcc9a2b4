"""Names an installed third-party library provides, read from its sources and stubs (nothing is imported)."""
import ast
import glob
import os

SITE = sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
LIBS = ('numpy', 'scipy', 'matplotlib')
_files = {}
_names = {}


def find(mod):
    """source or stub file of a module, and whether it is a package"""
    for s in SITE:
        base = os.path.join(s, *mod.split('.'))
        for p, pkg in ((base + '/__init__.pyi', True), (base + '/__init__.py', True), (base + '.pyi', False), (base + '.py', False)):
            if os.path.isfile(p):
                return p, pkg
        if glob.glob(base + '.*.so'):
            return None, False
    return None, None


def tree(p):
    if p not in _files:
        try:
            with open(p, 'rb') as f:
                _files[p] = ast.parse(f.read())
        except (SyntaxError, ValueError, OSError):
            _files[p] = None
    return _files[p]


def names(mod, depth=0):
    """(set of names bound in the module, complete?)"""
    if mod in _names:
        return _names[mod]
    _names[mod] = (set(), False)
    p, pkg = find(mod)
    if p is None or depth > 6:
        return _names[mod]
    out, full = set(), True
    ps = [p]
    if p.endswith('.pyi') and os.path.isfile(p[:-1]):
        ps.append(p[:-1])
    for q in ps:
        t = tree(q)
        if t is None:
            full = False
            continue
        if any(isinstance(x, ast.FunctionDef) and x.name == '__getattr__' for x in t.body) and mod.split('.')[0] not in ('numpy', 'scipy'):
            full = False
        for x in ast.walk(t):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(x.name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.Import):
                for a in x.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                out.add(x.value)       # __all__, lazily loaded submodules
            elif isinstance(x, ast.ImportFrom):
                base = x.module or ''
                if x.level:
                    parts = mod.split('.') if pkg else mod.split('.')[:-1]
                    parts = parts[:len(parts) - (x.level - 1)]
                    base = '.'.join(parts + ([x.module] if x.module else []))
                for a in x.names:
                    if a.name == '*':
                        n, f = names(base, depth + 1)
                        out |= n
                        full = full and f
                    else:
                        out.add(a.asname or a.name)
    if pkg:
        d = os.path.dirname(p)
        for f in os.listdir(d):
            out.add(f.split('.')[0])
    _names[mod] = (out, full)
    return _names[mod]


def has(mod, name):
    """does library module `mod` provide `name`?  True / False / None (cannot tell)"""
    if mod.split('.')[0] not in LIBS or not SITE:
        return None
    n, full = names(mod)
    if name in n:
        return True
    return False if full and n else None
