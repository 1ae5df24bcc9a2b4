"""Loads the package sources (AST only; nothing is imported or executed)."""
import ast
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'adctoolbox'
SRC = 'python/src/adctoolbox'


class AnalysisError(Exception):
    """the analysis itself cannot proceed (vanished anchor, unparsable source)"""


class Module:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.is_pkg = is_pkg
        self.env = None        # name -> AV, filled by the interpreter
        self.state = 'new'
        self.exports = None

    def __repr__(self):
        return '<Module %s>' % self.name


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, SRC)
        self.modules = {}
        h = hashlib.sha256()
        if not os.path.isdir(self.root):
            raise AnalysisError('package directory %s not found' % self.root)
        for d, ds, fs in os.walk(self.root):
            ds[:] = sorted(x for x in ds if x not in ('examples', '__pycache__') and not x.startswith('.'))
            if os.path.relpath(d, self.root).split(os.sep)[0] == '_bundled_skills':
                # keep the package itself resolvable, its skill payload is data
                ds[:] = []
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    raw = fh.read()
                h.update(p.encode() + b'\0' + raw)
                rel = os.path.relpath(p, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join([PKG] + parts)
                try:
                    tree = ast.parse(raw, filename=p)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.modules[name] = Module(name, p, rel, tree, is_pkg)
        self.digest = h.hexdigest()

    def n_functions(self):
        n = 0
        for m in self.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    n += 1
        return n
