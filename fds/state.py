"""State summaries: which fields of self a method writes, from what, on which paths."""
from .core import NODE, UNIT, ppath, pterm
from .prop import children, pattern, opt_strip, presence_exempt, must_reach, SEQ, range_cover
from .propcheck import pat_of


class Wr:
    __slots__ = ('pat', 'val', 'ev', 'kind', 'path')   # kind: write | fill | opaque | child

    def __repr__(self):
        return '%s %s' % (self.kind, '.'.join(self.pat))


def related(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def self_writes(A, root=('P', 1)):
    out = []
    for e in A.events:
        if e.kind in ('write', 'fill') and e.path and e.path[0] == root and len(e.path) > 1:
            w = Wr(); w.pat = pat_of(e.path); w.path = e.path; w.val = e.val; w.ev = e; w.kind = e.kind
            out.append(w)
        elif e.kind == 'write' and e.path and e.path == (root,):
            for p, v in fieldvals(e.val):
                w = Wr(); w.pat = p; w.path = None; w.val = v; w.ev = e; w.kind = 'write'
                out.append(w)
        elif e.kind == 'call' and e.extra:
            for i, p in A.W.mutable_args(e.call, e.args):
                if p[0] == root and len(p) > 1:
                    w = Wr(); w.pat = pat_of(p); w.path = p; w.val = ('args',) + tuple(e.snap); w.ev = e
                    w.kind = 'child' if e.call.trait in (NODE, UNIT) else 'opaque'
                    out.append(w)
    return out


def fieldvals(t, prefix=()):
    """leaf (pattern, term) pairs of a structured value"""
    if t[0] == 'agg' and t[1] not in ('tuple', 'array', 'closure', 'box') and t[2] not in ('Some', 'None', 'Ok', 'Err') and t[4]:
        for n, v in t[4]:
            yield from fieldvals(v, prefix + (n,))
        return
    if t[0] == 'ovr':
        done = []
        for rel, v in t[2]:
            p = pattern((None,) + tuple(rel))
            done.append(p)
            yield from fieldvals(v, prefix + p)
        for p, v in fieldvals(t[1]):
            if p not in done:
                yield prefix + p, v
        return
    yield prefix, t


def mems(W, t, root=('P', 1), ver=None):
    """patterns of self memory the term depends on"""
    out = set()
    for x in W.deps(t):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem' and isinstance(x[1], tuple) and x[1] and x[1][0] == root and len(x[1]) > 1:
            if ver is None or x[2] == ver:
                out.add(pat_of(x[1]))
    return out


def step(ctx, t, e):
    """type of one projection step of a pattern"""
    M = ctx.M
    while t[0] == 'adt' and t[1] in ('std::option::Option', 'std::boxed::Box'):
        t = t[2][0]
    if e == '[]':
        if t[0] == 'array':
            return t[1], t[2]
        if t[0] == 'slice':
            return t[1], None
        if t[0] == 'adt' and t[1] in SEQ:
            return t[2][SEQ[t[1]]], None
        return None, None
    if t[0] == 'adt':
        for n, ft in M.fields(t):
            if n == e:
                return ft, None
        for vn, fs in M.variants(t):
            for n, ft in fs:
                if n == e:
                    return ft, None
    if t[0] == 'tuple' and e.isdigit() and int(e) < len(t[1]):
        return t[1][int(e)], None
    return None, None


def lens_of(ctx, t, pat):
    lens = []
    for e in pat:
        if t is not None:
            t, n = step(ctx, t, e)
        else:
            n = None
        if e == '[]':
            lens.append(n)
    return tuple(lens)


class _C:
    pass


def sub_partial(A, p, state):
    """does a slice step in path p leave elements out?"""
    for i, x in enumerate(p):
        if isinstance(x, tuple) and x[0] == 'sub' and isinstance(x[1], tuple):
            lo, hi = x[1]
            if lo is None and hi is None:
                continue
            lo = lo or ('c', 0)
            if hi is None:
                hi = ('len', p[:i])
            if range_cover(lo, hi, p[:i], None) == 'partial':
                return True
            if any(related(q, s) for b in (lo, hi) if b[0] != 'len' for q in mems(A.W, b) for s in state):
                return True
    return False


def must_write(A, wrs, exempt=(), notes=None, state=()):
    """is every entry->ret path (minus exempt edges) passing one of the writes, with element writes covering every element?"""
    by = {}
    blocks = set()
    for w in wrs:
        p = w.path
        if p is not None and sub_partial(A, p, state):
            if notes is not None:
                notes.append('only a part of %s is written' % ppath(p))
            continue
        if p is None or len(p) < 2:
            blocks.add(w.ev.blk)
            continue
        if not any(isinstance(x, tuple) and x[0] == 'i' for x in p):
            blocks.add(w.ev.blk)
            continue
        by.setdefault(w.pat, []).append((w.ev.blk, p))
    for pat, evs in by.items():
        c = _C()
        c.lens = lens_of(A.ctx, A.selfty, pat) if A.selfty else ()
        c.partial = lambda b: any(related(q, s) and not any(q[:len(k)] == k for k in by) for q in mems(A.W, b) for s in state)
        ok, nn, bl = must_reach(A, c, evs, set(exempt))
        blocks |= bl
        if notes is not None:
            notes += nn
    r = A.reach(A.F.entry, removed=blocks, removed_edges=set(exempt))
    return A.F.ret not in r


def constructors(ctx, im):
    """local functions returning the type itself (not Clone)"""
    t = im['self']
    out = []
    for f in ctx.M.fns.values():
        if f.has_body and f.kind in ('AssocFn', 'Fn') and f.output and f.output[0] == 'adt' and t[0] == 'adt' and f.output[1] == t[1]:
            i = ctx.M.impl_of_fn.get(f.id)
            if i and i[0]['trait'] and i[0]['trait'].endswith('Clone'):
                continue
            if t[1].endswith('combinator::An'):
                continue
            out.append(f)
    return out


def mutators(ctx, im):
    """local functions taking &mut self of the type (trait and inherent methods)"""
    t = im['self']
    out = []
    for f in ctx.M.fns.values():
        if f.has_body and f.kind == 'AssocFn' and f.inputs and f.inputs[0][0] == 'ref' and f.inputs[0][1] and f.inputs[0][2][0] == 'adt' and f.inputs[0][2][1] == t[1]:
            out.append(f)
    return out
