"""Structure of results: which fields a result has."""
import os
from . import check
from .common import *
from .internal import options
from ..par import fork_each
from ..interp import H

TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'contracts', 'fields.json')


class Shape:
    """fields of a value: path -> True (always there) / None (on one outcome of a data test) / False (unknown)"""

    def __init__(self, value, state):
        self.f = {}
        self.open = set()        # paths below which anything may be present
        self.forks = set()       # paths whose alternatives have different fields
        self.top = sorted(value.kinds())
        self.walk(value, state, '', True, 0, ())

    def put(self, p, m):
        if p in self.f:
            m = self.f[p] and m if self.f[p] is not None or m is not False else False
        self.f[p] = m

    def walk(self, v, st, path, m, depth, up):
        if depth > 5:
            self.open.add(path)
            return
        subs = []
        for a in v.alts:
            sub = {}
            if a.kind == 'ref':
                h = st.heap.get(a.loc)
                if h is None or a.loc in up:
                    self.open.add(path)
                elif h.ty == 'dict':
                    if h.rest is not None:
                        self.open.add(path)
                    for k, (x, m1) in h.d.items():
                        if isinstance(k, (str, int)):
                            sub['%s/%s' % (path, k)] = (x, m1)
                        else:
                            self.open.add(path)
                elif h.ty == 'inst':
                    for k, (x, m1) in h.d.items():
                        if isinstance(k, str) and k[:1] not in ('_', '\0'):
                            sub['%s.%s' % (path, k)] = (x, m1)
                elif h.ty == 'list':
                    e = h.elems()
                    if e is not None:
                        self.walk(e, st, path + '[]', False, depth + 1, up + (a.loc,))
                    continue
                else:
                    self.open.add(path)
            elif a.kind == 'tup':
                for i, x in enumerate(a.el):
                    sub['%s/%d' % (path, i)] = (x, True)
            elif a.kind == 'none':
                continue
            elif a.kind != 'str' and (a.kind != 'num' or a.anyk or not path):
                self.open.add(path)
            subs.append((a, sub))
        keys = {}
        for a, sub in subs:
            for k in sub:
                keys.setdefault(k, []).append(sub[k])
        for k, xs in keys.items():
            mm = True
            for _, m1 in xs:
                mm = mm and m1 if mm is not None or m1 is not False else False
            if len(xs) < len(subs) and path not in self.open:
                mm = None if mm is not False else False
            self.put(k, mm if m is True else (m if mm is True or m is False else mm))
            for x, m1 in xs:
                self.walk(x, st, k, self.f[k], depth + 1, up)

    def unknown(self, p):
        """could the path exist although it is not listed?"""
        return any(p.startswith(o) for o in self.open)


def shapes(W, e):
    out = {}
    kw = e.fn.node.args.kwarg
    for what, over in options(e, W, False) or [('all defaults', {'\0': None})]:
        if kw is not None:
            # options that arrive through **kwargs stay at their defaults
            over = dict(over, **{kw.arg: lambda I, st: I.alloc(H('dict', d={}), st, e.fn.node, 'nokw')})
        r = W.run(e, over=over)
        if r.value is not None:
            out.setdefault(what, []).append(Shape(r.value, r.state))
    return out


@check('P18', 'abstract interpretation of every public call with its options fixed and arbitrary data: the fields of the returned structure are computed with a must/may domain')
def p18(ctx):
    import json
    with open(TABLE) as f:
        want = json.load(f)
    ctx.rule('with the options fixed, no field of a result is present for some data and absent for other data')
    ctx.rule('every field in the published list of a function is present')
    fork_each(ctx, ctx.W.entries, lambda c, e: fields_of(c, e, want))
    found = {short(e.label) for e in ctx.W.entries}
    for name in want:
        if name not in found:
            ctx.unsure('%s not found' % name)
    ctx.floor('option settings', ctx.counts.get('option settings', 0), 200)
    ctx.floor('fields', ctx.counts.get('fields', 0), 400)


def fields_of(ctx, e, want):
    try:
        sh = shapes(ctx.W, e)
    except (RecursionError, AnalysisError) as ex:
        ctx.unsure('%s: not analysed (%s)' % (short(e.label), ex))
        return
    where = '%s:%d (%s)' % (e.mod.rel, e.fn.node.lineno, e.name)
    for what, ss in sh.items():
        for s in ss:
            ctx.count('option settings')
            # options passed by position through *args are not fixed
            bad = [k for k, m in s.f.items() if m is None] if e.fn.node.args.vararg is None else []
            for k in bad:
                ctx.bad('field-depends-on-data', '%s:%s' % (short(e.label), k), where, '%s (%s): field %s is present or absent depending on the data' % (short(e.label), what, k))
            if not bad:
                ctx.good()
    t = want.get(short(e.label))
    if t is None:
        return
    base = set(t.get('all defaults', ()))
    for what, ss in sh.items():
        for k in sorted(base | set(t.get(what, ()))):
            for s in ss:
                ctx.count('fields')
                if k in s.f:
                    ctx.good()
                elif what != 'all defaults' and k in base and len(k) and not definite(t, what, k):
                    continue
                elif s.unknown(k) or lost_list(s, k):
                    ctx.unsure('%s (%s): field %s not determined' % (e.name, what, k))
                else:
                    ctx.bad('missing-field', '%s:%s' % (short(e.label), k), where, '%s (%s) does not return field %s' % (short(e.label), what, k))


def definite(t, what, k):
    """does the option leave the field of the default call in place?"""
    return k not in t.get('-' + what, ())


def lost_list(s, k):
    """field of list elements, and the list has no known element"""
    return '[]' in k and not any(x.startswith(k.split('[]')[0] + '[]') for x in s.f)
