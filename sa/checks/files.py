"""Files are written only where asked and nothing is destroyed without permission."""
from . import check
from ..project import AnalysisError
from ..values import *
from .common import *

SKILL, CLI = 'adctoolbox.skill_cli.', 'adctoolbox.cli.'
USER, CONTRIB = 'adctoolbox-user-guide', 'adctoolbox-contributor-guide'
HERE = (('dest',),)
ROOTS = ('dest', 'cwd', 'home', 'pkg', 'tmp', 'out', 'abs')
PRESENT = ('dir', 'file', 'link', 'broken')
NAMED = {'missing': 'nothing', 'dir': 'a directory', 'file': 'a file', 'link': 'a link to a directory', 'broken': 'a dangling link'}


def flat(prov):
    """plain list of components; an absolute path that is joined replaces what precedes it"""
    out = ()
    for c in prov:
        if c[0] == 'path':
            q = flat(c[1:])
            out = q if q and q[0][0] in ROOTS else out + q
        elif c == ('s', '.') or c == ('s', ''):
            continue
        elif not out and c[0] == 's':
            out = (('abs', c[1]),) if c[1][0] in '/~' else (('cwd',), c)
        else:
            out = out + (c,)
    return out


class Files:
    """what is at each path of interest, updated by the operations of the analysed call"""

    def __init__(self, state, exist=()):
        self.state = {flat(k): v for k, v in state.items()}
        self.exist = exist
        self.log = []            # (effect, path, detail)
        self.mine = set()        # paths made by the call itself
        self.vague = []

    def place(self, prov):
        """resolving a path leads elsewhere only where there is a link"""
        out = ()
        for c in flat(prov):
            if c == ('real',):
                if self.at(out) in ('link', 'broken', 'newlink'):
                    out = out + (c,)
            else:
                out = out + (c,)
        return out

    def at(self, path):
        if path in self.state:
            return self.state[path]
        if path and path[0][0] in self.exist:
            return 'dir'
        if path and path[0][0] in ('home', 'cwd', 'tmp', 'abs') and ('parent',) not in path:
            # nothing else exists in the scenario
            return 'dir' if len(path) == 1 and path[0][0] != 'abs' else 'missing'
        return None

    def pred(self, a, name):
        s = self.at(self.place(a.prov))
        if s is None:
            return None
        if name == 'exists':
            return s not in ('missing', 'broken')
        if name == 'lexists':
            return s != 'missing'
        if name == 'is_dir':
            return s in ('dir', 'link', 'newlink')
        if name == 'is_file':
            return s == 'file'
        if name == 'is_symlink':
            return s in ('link', 'broken', 'newlink')
        return None

    def apply(self, op, path, data):
        ps = {self.place(a.prov) for a in path.alts if a.kind == 'eo' and a.ty == 'Path'}
        if len(ps) != 1 or len(ps) != len(path.alts):
            self.vague.append(op)
            return None
        p = ps.pop()
        kw, args = data.get('kw') or {}, data.get('args') or []
        src = data.get('src')
        op = op.split('.')[-1]

        def flag(name):
            return name in kw and kw[name].const() is not False and kw[name].const() != 0
        if op in ('rename', 'replace', 'move', 'renames'):
            if src is None:
                src, dst = path, args[0] if args else kw.get('target')
                p = self.one(dst)
            q = self.one(src)
            if p is None or q is None:
                self.vague.append(op)
                return None
            self.drop(q, op)
            self.log.append(('replace' if self.at(p) in PRESENT and p not in self.mine else 'create', p, op))
            self.mine.add(p)
            self.state[p], self.state[q] = self.at(q) or 'dir', 'missing'
            return None
        s = self.at(p)
        if op in ('unlink', 'remove'):
            if s == 'dir':
                return 'IsADirectoryError'
            if s == 'missing':
                return None if flag('missing_ok') else 'FileNotFoundError'
            self.drop(p, op)
            self.state[p] = 'missing'
        elif op in ('rmtree', 'rmdir', 'removedirs'):
            if s in ('link', 'broken', 'newlink', 'file', 'missing'):
                return None if flag('ignore_errors') else {'missing': 'FileNotFoundError', 'file': 'NotADirectoryError'}.get(s, 'OSError')
            self.drop(p, op)
            self.state[p] = 'missing'
        elif op in ('mkdir', 'makedirs'):
            if s in ('file', 'broken') or s in ('dir', 'link', 'newlink') and not flag('exist_ok'):
                return 'FileExistsError'
            if s not in ('dir', 'link', 'newlink'):
                self.log.append(('mkdir', p, op))
                self.mine.add(p)
                self.state[p] = 'dir'
        elif op in ('symlink_to', 'symlink', 'hardlink_to', 'link', 'link_to'):
            if s is not None and s != 'missing':
                return 'FileExistsError'
            q = self.one(src if src is not None else args[0] if args else kw.get('target'))
            self.log.append(('link', p, q))
            self.mine.add(p)
            self.state[p] = 'newlink'
        elif op == 'copytree':
            if s is not None and s != 'missing' and not (flag('dirs_exist_ok') and s in ('dir', 'link', 'newlink')):
                return 'FileExistsError'
            self.log.append(('copy' if s in (None, 'missing') or p in self.mine else 'replace', p, self.one(src)))
            self.mine.add(p)
            self.state[p] = 'dir'
        elif op in ('copymode', 'copystat', 'chmod', 'chown', 'touch'):
            self.log.append(('change' if s != 'missing' else 'create', p, op))
        else:
            self.log.append(('create' if s == 'missing' or p in self.mine else 'replace', p, op))
            self.mine.add(p)
            if s in (None, 'missing'):
                self.state[p] = 'file'
        return None

    def drop(self, p, op):
        self.log.append(('discard' if p in self.mine else 'remove', p, op))
        self.mine.discard(p)

    def one(self, v):
        if v is None:
            return None
        ps = {self.place(a.prov) for a in v.alts if a.kind == 'eo' and a.ty == 'Path'}
        return ps.pop() if len(ps) == 1 else None


def shown(p):
    if p is None:
        return 'an unknown path'
    w = {'dest': '<dest>', 'cwd': '<current directory>', 'home': '<home>', 'pkg': '<package>', 'tmp': '<temporary directory>', 'out': '<output path>',
         'parent': '..', 'real': '(target of the link)', 'child': '*'}
    return '/'.join(c[1] if c[0] == 's' else w.get(c[0], '<%s>' % c[0]) for c in p)


def scenario(ctx, entry, files, over, cli=None):
    I = ctx.W.I
    I.fs, I.cli, I.exact, I.undec = files, cli, True, []
    try:
        r = ctx.W.run(entry, over=over, setup=lambda I, st: None)
        return r, list(I.undec)
    finally:
        I.fs, I.cli, I.exact = None, None, False


def raised(r):
    return [x.data.get('exc') for x in r.events if x.kind == 'raise']


def lst(names, node):
    return lambda I, st: I.new_list([mkstr(x) if isinstance(x, str) else AV(Str(x)) for x in names], st, node)


def const(v):
    return AV(mkconst(v).alts)


def within(p, base):
    return p[:len(base)] == base and ('parent',) not in p[len(base):] and not any(c == ('s', '..') for c in p) and ('real',) not in p[len(base):]


def known(p):
    return p is not None and bool(p) and p[0][0] in ROOTS


def source_ok(q, name):
    return q is not None and len(q) > 1 and q[0][0] not in ('dest', 'cwd', 'home', 'tmp') and q[-1] == ('s', name)


class Scen:
    def __init__(self, ctx, entry, text, files, over, cli=None):
        self.ctx, self.entry, self.text, self.files = ctx, entry, text, files
        self.r, self.undec = scenario(ctx, entry, files, over, cli)
        self.key = '%s:%s' % (entry.label.split('.')[-1], text)
        self.sure = not self.undec and not files.vague
        ctx.count('scenarios')

    def where(self, kinds=('fs', 'raise', 'exit')):
        ev = [x for x in self.r.events if x.kind in kinds]
        return ev[-1].site if ev else '%s:%s (%s)' % (self.entry.mod.rel, self.entry.fn.node.lineno, self.entry.name)

    def require(self, rule, ok, msg, definite=True):
        name = '%s, %s' % (self.entry.label.split('.')[-1], self.text)
        if ok:
            self.ctx.good(name + ': ' + rule)
        elif self.sure and definite:
            self.ctx.bad(rule, self.key, self.where(), '%s: %s' % (name, msg), ['scenario: %s' % self.text])
        else:
            self.ctx.unsure('%s: %s' % (name, msg))

    def contained(self, base, extra=()):
        """effects only below base; the directory itself may only be made"""
        for eff, p, det in self.files.log:
            if p is not None and (p in extra or within(p, base) and (len(p) > len(base) or eff == 'mkdir')):
                continue
            if eff == 'mkdir' and known(p) and p[0] == base[0] and all(c == ('parent',) for c in p[1:]):
                continue
            self.require('only-where-asked', False, 'acts on %s (%s)' % (shown(p), det if isinstance(det, str) else eff), known(p))
            return
        self.require('only-where-asked', True, '')


def requests():
    """(description, arguments, skills)"""
    return [('default skills', {}, [USER]), ('all skills', {'install_all': True}, [USER, CONTRIB]), ('developer skills', {'install_dev': True}, [USER, CONTRIB]),
            ("skill 'user'", {'names': ['user']}, [USER]), ("skills 'dev', 'contributor-guide'", {'names': ['dev', 'contributor-guide']}, [CONTRIB])]


def mkover(entry, args, **more):
    over = {}
    for k, v in dict(args, **more).items():
        over[k] = lst(v, entry.fn.node) if isinstance(v, list) else v if isinstance(v, AV) else const(v)
    return over


def dests(root, state):
    return {HERE: root, target(USER): state, target(CONTRIB): state}


def target(name):
    return HERE + (('s', name),)


def installs(ctx, e):
    dest = AV(Eo('Path', HERE))
    for what, args, names in requests():
        for state in ('missing',) + PRESENT:
            for force in (False, True):
                for edit in (False, True):
                    for root in ('dir', 'missing') if state == 'missing' else ('dir',):
                        text = '%s, %s at the target, overwrite %s, editable %s%s' % (what, NAMED[state], force, edit, '' if root == 'dir' else ', destination missing')
                        fs = Files(dests(root, state), ('pkg',))
                        s = Scen(ctx, e, text, fs, mkover(e, args, dest=dest, overwrite=force, editable=edit, **{k: v for k, v in dict(names=None, install_dev=False, install_all=False).items() if k not in args}))
                        s.contained(HERE)
                        judge(s, names, state, force, edit, s.r.value is not None)
                        if s.r.value is not None and (state == 'missing' or force):
                            got = s.ctx.W.I.exact_elems(s.r.value, s.r.state)
                            paths = None if got is None else [fs.one(x) for x in got]
                            s.require('returned paths', paths is None or paths == [target(q) for q in names],
                                      'returns %s instead of the installed paths' % ', '.join(map(shown, paths or [])), None not in (paths or []))
    for extra in ([Fresh(1)], ['user', Fresh(1)]):
        fs = Files(dests('dir', 'missing'), ('pkg',))
        s = Scen(ctx, e, 'an unknown skill is asked for%s' % (' after a known one' if len(extra) > 1 else ''), fs, mkover(e, {'names': extra}, dest=dest, overwrite=True, install_dev=False, install_all=False))
        s.require('unknown-skill-refused', s.r.value is None and 'ValueError' in raised(s.r), 'the call is not refused with a ValueError')
        s.require('refusal-leaves-no-trace', not fs.log, 'changes %s before refusing' % (shown(fs.log[0][1]) if fs.log else ''))


def judge(s, names, state, force, edit, done):
    """the outcome of an installation"""
    fs = s.files
    lost = [(eff, p) for eff, p, _ in fs.log if eff in ('remove', 'replace', 'change')]
    if state != 'missing' and not force:
        s.require('nothing-destroyed-without-permission', not lost, '%s is %s although it exists and replacing was not asked for' % (
            shown(lost[0][1]) if lost else '', {'remove': 'removed', 'replace': 'overwritten'}.get(lost[0][0], 'changed') if lost else ''))
        s.require('existing-target-reported', not done, 'the call goes on without reporting that the target exists')
        return
    s.require('installation-completes', done, 'the call fails with %s' % ', '.join(map(str, raised(s.r)[-1:])))
    if not done:
        return
    over = [p for eff, p in lost if eff in ('replace', 'change') or eff == 'remove' and (p not in [target(q) for q in names] or state == 'missing')]
    s.require('old-installation-replaced-as-a-whole', not over, '%s is merged or destroyed' % shown(over[0] if over else None))
    made = [(eff, p) for eff, p, _ in fs.log if eff in ('copy', 'link', 'create', 'replace')]
    s.require('requested-skills-installed', [p for _, p in made if len(p) == 2] == [target(q) for q in names], 'installs %s instead of %s' % (
        ', '.join(shown(p) for _, p in made) or 'nothing', ', '.join(names)), all(known(p) for _, p in made))
    for eff, p, q in fs.log:
        if p in [target(x) for x in names] and eff in ('copy', 'link'):
            s.require('link-or-copy-as-asked', eff == ('link' if edit else 'copy'), '%s is a %s' % (shown(p), eff))
            s.require('installed-from-the-package', source_ok(q, p[-1][1]), '%s comes from %s' % (shown(p), shown(q)), known(q))


def statuses(ctx, e):
    dest = AV(Eo('Path', HERE))
    want = {'missing': (False, 'missing'), 'dir': (True, 'copy'), 'file': (True, 'non-directory'), 'link': (True, 'editable-link'), 'broken': (True, 'editable-link')}
    for what, args, names in requests():
        for root, state in [('missing', 'missing')] + [('dir', x) for x in ('missing',) + PRESENT]:
            fs = Files(dests(root, state), ('pkg',))
            s = Scen(ctx, e, '%s, %s at the target%s' % (what, NAMED[state], '' if root == 'dir' else ', destination missing'), fs, mkover(e, args, dest=dest, **{k: v for k, v in dict(names=None, install_dev=False, install_all=False).items() if k not in args}))
            s.require('looking-changes-nothing', not fs.log, 'changes %s' % (shown(fs.log[0][1]) if fs.log else ''))
            s.require('status-given', s.r.value is not None, 'the call fails with %s' % ', '.join(map(str, raised(s.r)[-1:])))
            if s.r.value is None:
                continue
            rows = ctx.W.I.exact_elems(s.r.value, s.r.state)
            if rows is None:
                ctx.unsure('%s: rows of the status' % s.text)
                continue
            s.require('one-row-per-skill', len(rows) == len(names), '%d rows for %d skills' % (len(rows), len(names)))
            for row, q in zip(rows, names):
                d = fields(row, s.r.state)
                if d is None:
                    ctx.unsure('%s: entries of the status' % s.text)
                    continue
                for k, v in (('name', q), ('installed', want[state][0]), ('mode', want[state][1])):
                    c = d[k].const() if k in d else NC
                    s.require('status-tells-what-is-there', c is NC or c == v, '%s reported as %r instead of %r' % (k, c, v))
                if state == 'missing':
                    c = d['synced'].const() if 'synced' in d else NC
                    s.require('status-tells-what-is-there', c is NC or not c, 'a skill that is not there is reported as synced')


def fields(row, st):
    for a in row.alts:
        if a.kind == 'ref' and a.loc in st.heap and st.heap[a.loc].ty == 'dict' and len(row.alts) == 1:
            return {k: v for k, (v, m) in st.heap[a.loc].d.items()}
    return None


def commands(ctx, e):
    """the command line front end"""
    dest = AV(Eo('Path', HERE))
    flags = dict(list=False, status=False, dev=False, all=False, force=False, editable=False)
    node = e.fn.node

    def run(text, state, given=True, **on):
        cli = {k: const(v) for k, v in dict(flags, **on).items()}
        cli['skills'] = lst([], node)
        cli['dest'] = dest if given else NONE
        fs = Files(dests('dir', state), ('pkg',))
        return Scen(ctx, e, text, fs, {}, cli)
    for state in ('missing',) + PRESENT:
        for text, on in (('--list', dict(list=True)), ('--status', dict(status=True)), ('--list --force', dict(list=True, force=True)), ('--status --force --all', dict(status=True, force=True, all=True))):
            s = run('%s, %s at the target' % (text, NAMED[state]), state, **on)
            s.require('looking-changes-nothing', not s.files.log, 'changes %s' % (shown(s.files.log[0][1]) if s.files.log else ''))
            s.require('exit-status', s.r.value is not None and s.r.value.const() in (0, NC), 'does not end with status 0')
        for force in (False, True):
            for edit in (False, True):
                for every in (False, True):
                    on = dict(force=force, editable=edit)
                    on['all' if every else 'dev'] = every
                    s = run('command line install, %s at the target%s%s%s' % (NAMED[state], ' --force' * force, ' --editable' * edit, ' --all' * every), state, **on)
                    s.contained(HERE)
                    c = s.r.value.const() if s.r.value is not None else NC
                    ok = s.r.value is not None and c == 0
                    judge(s, [USER, CONTRIB] if every else [USER], state, force, edit, ok)
                    if state != 'missing' and not force:
                        s.require('exit-status', s.r.value is not None and c not in (0, None) or 'SystemExit' in raised(s.r), 'an existing target does not end with a failure status')
            s = run('command line install without --dest%s' % (' --force' * force), state, False, force=force)
            s.require('no-default-destination', not s.files.log and s.r.value is None, 'goes on without a destination')


def examples(ctx, e):
    for state in ('missing',) + PRESENT[:3]:
        for name in ('adctoolbox_examples', 'sub'):
            t = (('cwd',), ('s', name))
            fs = Files({t: state, (('cwd',),): 'dir'}, ('v', 'pkg'))
            s = Scen(ctx, e, 'examples copied to %s, %s there' % (name, NAMED[state]), fs, {}, {'dest': mkstr(name)})
            lost = [(eff, p) for eff, p, _ in fs.log if eff in ('remove', 'replace', 'change')]
            s.require('nothing-destroyed-without-permission', not lost, '%s is removed or overwritten' % (shown(lost[0][1]) if lost else ''))
            s.contained(t[:1])
            made = [(p, q) for eff, p, q in fs.log if eff in ('copy', 'create', 'replace', 'mkdir')]
            if state == 'missing':
                s.require('examples-copied', s.r.value is not None and [p for p, _ in made] == [t], 'copies %s' % (', '.join(shown(p) for p, _ in made) or 'nothing'))
                for p, q in made:
                    s.require('copied-from-the-package', source_ok(q, 'examples'), '%s comes from %s' % (shown(p), shown(q)), known(q))
            else:
                s.require('existing-target-reported', s.r.value is None and not made, 'the call goes on without reporting that the target exists')


OUT = (('out',),)


def saves(r):
    return [x for x in r.events if x.kind == 'mpl' and str(x.data.get('fn')).split('.')[-1] in ('savefig', 'print_figure', 'imsave')]


def outputs(ctx, e):
    """functions with an output path"""
    for given in (False, True):
        fs = Files({OUT: 'missing'} if given else {})
        s = Scen(ctx, e, 'output path given' if given else 'no output path', fs, {'output_path': AV(Eo('Path', OUT)) if given else NONE})
        s.sure = not fs.vague
        sv = saves(s.r)
        if not given:
            s.require('no-file-unless-asked', not fs.log and not sv, 'writes %s' % (shown(fs.log[0][1]) if fs.log else 'a figure'))
            continue
        made = [(eff, p) for eff, p, _ in fs.log if not (eff == 'mkdir' and p == OUT + (('parent',),))]
        s.require('only-where-asked', not made, 'acts on %s' % shown(made[0][1] if made else None), all(known(p) for _, p in made))
        paths = []
        for x in sv:
            a = x.data.get('args') or []
            kw = x.data.get('kw') or {}
            v = a[0] if a else kw.get('fname') or kw.get('filename')
            p = fs.one(v) if v is not None else None
            if p is None and v is not None:
                for q in v.alts:
                    if q.kind == 'str' and isinstance(q.vn, tuple) and q.vn and q.vn[0] == 'path':
                        p = fs.place(q.vn[1])
                    elif q.kind == 'str' and isinstance(q.vn, tuple) and q.vn and q.vn[0] in ('name', 'stem'):
                        p = (('cwd',), ('s', '<%s of the path>' % q.vn[0]))
                    elif q.kind == 'str' and isinstance(q.const, str):
                        p = fs.place((('s', q.const),))
            paths.append(p)
        s.require('figure-saved-where-asked', set(paths) == {OUT}, 'saves the figure to %s' % (', '.join(shown(p) for p in paths) or 'no file'), all(known(p) for p in paths))


@check('P24', 'abstract interpretation of the file operations of a call in a model of the file system, one scenario per kind of thing found at the target and per permission given; '
              'effect analysis of all other calls')
def p24(ctx):
    ctx.rule('an existing target is neither removed nor overwritten unless asked for, and is reported')
    ctx.rule('with permission the target, and nothing else, is replaced by the requested skill')
    ctx.rule('files are only made below the given destination or at the given output path')
    ctx.rule('calls that only look, and all other public calls, change no file')
    done = set()
    W = ctx.W
    byname = {e.label: e for e in W.entries}
    for name, fn in ((SKILL + 'install_bundled_skills', installs), (SKILL + 'skill_status', statuses), (SKILL + 'main', commands), (CLI + 'copy_examples', examples)):
        e = byname.get(name)
        if e is None:
            ctx.unsure('%s is not a public function' % name)
            continue
        done.add(name)
        try:
            fn(ctx, e)
        except (AnalysisError, RecursionError) as ex:
            ctx.unsure('%s: %s' % (name, ex))
    for e in W.entries:
        if e.label in done:
            continue
        try:
            if any(p.arg == 'output_path' for p in e.params()):
                ctx.count('functions with an output path')
                outputs(ctx, e)
                continue
            r = W.run(e)
        except (AnalysisError, RecursionError) as ex:
            ctx.unsure('%s: %s' % (e.label, ex))
            continue
        ctx.count('functions without one')
        ev = [x for x in r.events if x.kind == 'fs'] + saves(r)
        if ev:
            ctx.bad('no-file-unless-asked', e.label, ev[0].site, '%s writes or removes files (%s) although no argument asks for it' % (e.label, ev[0].data.get('op') or 'savefig'),
                    ['call of %s' % e.label])
        else:
            ctx.good(e.label)
    ctx.floor('scenarios', ctx.counts['scenarios'], 40)
