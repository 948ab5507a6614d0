"""C17: unchecked operations are only reached with values that make them sound."""
from fractions import Fraction
import re
from ..core import NODE, pterm
from ..propcheck import file_line
from ..prop import norm_cond, switch_edges
from ..terms import strip_at, use as use_terms, norm_term, loc
from ..blocks import Blocks, Unknown
from ..chan import atom, const, padd, pmul
from .c13 import edits
from .c21 import comparisons, dead, other_variants

CONFIGS = ['release']
ASSUME = ['wide::f32x8 is eight consecutive f32 values', 'NumericArray<T, N> is N consecutive values of T',
          'f32::max and f32::min return the other operand when one is not a number',
          'that rendered values are the right ones is not decided here']


class Num(Blocks):
    def odd(self, t):
        return atom(('t', t))


def size(t):
    """size in samples"""
    if t == ('prim', 'f32'):
        return 1
    if t[0] == 'adt' and t[1].split('::')[-1] in ('f32x8', 'F32x'):
        return 8
    if t[0] == 'array' and isinstance(t[2], int):
        s = size(t[1])
        return None if s is None else s * t[2]
    return None


def callees(r):
    """names and unsafe flag of what serialized code calls"""
    if isinstance(r, dict):
        if 'name' in r and 'args' in r and 'id' in r:
            yield r
        for v in r.values():
            yield from callees(v)
    elif isinstance(r, (list, tuple)):
        for v in r:
            yield from callees(v)


def graph(ctx):
    """(unsafe operations: name -> functions that contain one, callers of a function)"""
    ops, callers = {}, {}
    for r in ctx.M.raw['fns']:
        for c in callees(r.get('body')):
            if c.get('unsafe'):
                ops.setdefault(c['name'], []).append(r['id'])
            callers.setdefault(c.get('rid') or c['id'], set()).add(r['id'])
    return ops, callers


def slices_of(e):
    return e.kind == 'call' and e.call.name.split('::')[-1] in ('from_raw_parts', 'from_raw_parts_mut') and 'slice' in e.call.name


def polys(ctx, f, A):
    im = None
    if f.args and f.locals[1][0] == 'ref':
        im = {'self': f.locals[1][2]}
    return Num(ctx, im, A, False)


def extent(ctx, A, B, p, depth=0):
    """(number of samples of memory from this pointer on, mutable, sample size of an element) of a pointer term"""
    ev = [e for e in A.events if e.kind == 'call' and e.call.name.split('::')[-1] in ('as_ptr', 'as_mut_ptr') and e.val == p]
    if not ev:
        raise Unknown('pointer')
    e = ev[-1]
    ty = e.call.argtys[0]
    if ty[0] != 'ref' or ty[2][0] not in ('slice', 'array'):
        raise Unknown('pointer source')
    sz = size(ty[2][1])
    if sz is None:
        raise Unknown('element size')
    return pmul(length(ctx, A, B, e.args[0]), const(Fraction(sz))), any(x.call.name.endswith('as_mut_ptr') for x in ev), sz


def length(ctx, A, B, t):
    """number of elements of a slice"""
    t = strip_at(t)
    while t[0] == 'pure' and t[1] == 'deref':
        t = strip_at(t[3][0])
    if t[0] == 'pure' and t[1] == 'index':
        r = strip_at(t[3][1])
        if r[0] == 'agg' and r[1].split('::')[-1] == 'Range':
            d = dict(r[4])
            return padd(B.num(d['end']), B.num(d['start']), -1)
        raise Unknown('range')
    if t[0] == 'pure' and t[1] == 'rawslice':
        return B.num(t[3][1])
    if t[0] == 'ref':
        p = t[1]
        if p and p[-1][0] == 'sub':
            return padd(B.num(p[-1][1][1]), B.num(p[-1][1][0]), -1)
        n = B.fixedlen(p)
        if n is not None:
            return n
    raise Unknown('length')


def sign(p):
    """-1, 0, 1 when the polynomial over natural numbers is never positive, zero, or positive somewhere; None if unclear"""
    if not p:
        return 0
    cs = [c for _, c in p]
    if all(c < 0 for c in cs):
        return -1
    if all(c > 0 for c in cs):
        return 1
    return None


def bounded(W, t):
    """is every input in the term inside both a maximum and a minimum? None if not understood"""
    def go(t, lo, hi):
        t = strip_at(t)
        k = t[0]
        if k in ('c', 'nc', 'len', 'alen'):
            return True
        if k == 'mem':
            return True if t[1][0] == ('P', 1) and not any(isinstance(x, tuple) and x[0] == 'i' for x in t[1]) else lo and hi
        if k in ('arg', 'elem'):
            return lo and hi
        if k == 'pure' and t[1].split('::')[-1] == 'max':
            return all(go(x, True, hi) for x in t[3])
        if k == 'pure' and t[1].split('::')[-1] == 'min':
            return all(go(x, lo, True) for x in t[3])
        if k == 'bin' and t[1] in ('Mul', 'Add', 'Sub'):
            return all(go(x, lo, hi) for x in t[2:])
        if k in ('cast', 'conv'):
            return go(t[2] if k == 'cast' else t[1], lo, hi)
        if k == 'phi':
            return all(go(x, lo, hi) for x in W.operands(t))
        if k in ('pure', 'call'):
            return all(go(x, lo, hi) for x in t[3]) if lo and hi else None
        return None
    return go(t, False, False)


def run(ctx, R):
    R.rule('Every slice made from a raw pointer covers no more memory than the slice or array the pointer was taken from, with elements no larger, and writes only through a mutable borrow.')
    R.rule('Every unchecked conversion of a float receives a value that has been limited from below and above with max and min, so it is a number in range.')
    R.rule('No operation of a graph can connect a node to itself; block rendering relies on it when it reads one node while it writes another.')
    R.rule('Scratch buffers that start uninitialised are written by a nested component on every path before they are read.')
    R.rule('Every unchecked index is masked to, or compared with, the length.')
    ops, callers = graph(ctx)
    expand = lambda fid: [x for x in callers.get(fid, ()) if x in ctx.M.fns and ctx.M.fns[x].has_body]
    raw(ctx, R, ops, expand)
    floats(ctx, R, ops, expand)
    indexes(ctx, R, ops)
    loops(ctx, R)
    scratch(ctx, R)
    known = ('from_raw_parts', 'from_raw_parts_mut', 'to_int_unchecked', 'assume_init', '_mm_setcsr', 'get_unchecked', 'get_unchecked_mut')
    for n, fs in sorted(ops.items()):
        if n.split('::')[-1] not in known and not n.startswith('std::fmt::Arguments'):
            R.skip('unchecked operation %s' % n, 'no rule for it, used in %s' % ', '.join(sorted({ctx.M.fns[x].name for x in fs})))
    R.count('unchecked operations', sum(len(v) for k, v in ops.items() if not k.startswith('std::fmt::Arguments')))


def sites(ctx, ops, expand, names):
    """functions to analyse: those with the operation, or their callers where it is applied to an argument of a private helper"""
    todo = [x for n, fs in ops.items() if n.split('::')[-1] in names for x in fs if x in ctx.M.fns]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        f = ctx.M.fns[x]
        up = yield f
        if up:
            todo += expand(x)


def from_arg(t):
    t = strip_at(t)
    while t[0] in ('cast', 'conv'):
        t = strip_at(t[2] if t[0] == 'cast' else t[1])
    return t[0] == 'arg'


def raw(ctx, R, ops, expand):
    n = 0
    g = sites(ctx, ops, expand, ('from_raw_parts', 'from_raw_parts_mut'))
    up = None
    while True:
        try:
            f = g.send(up)
        except StopIteration:
            break
        up = False
        A = ctx.function(f.id)
        if not A:
            continue
        B = polys(ctx, f, A)
        for e in A.events:
            if not slices_of(e):
                continue
            key = '%s: slice from a raw pointer' % f.name
            if from_arg(e.args[0]):
                up = True
                if f.pub and not f.unsafe:
                    R.bad(key, '%s: %s makes a slice from a raw pointer given by its caller' % (A.where(e), f.name))
                continue
            R.inst(key, A.where(e))
            try:
                have, mut, sz = extent(ctx, A, B, e.args[0])
                us = size(e.call.argtys[0][2])
                if us is None:
                    raise Unknown('element size')
                want = pmul(B.num(e.args[1]), const(Fraction(us)))
            except Unknown as x:
                R.skip(key, 'form not recognised: %s' % x)
                continue
            n += 1
            s = sign(padd(want, have, -1))
            if s == 1:
                R.bad(key, '%s: %s makes a slice that is longer than the memory it points to' % (A.where(e), f.name))
            elif s is None:
                R.skip(key, 'lengths cannot be compared')
            if us > sz:
                R.bad(key, '%s: %s makes a slice of elements larger than those the pointer was taken from' % (A.where(e), f.name))
            if e.call.name.endswith('_mut') and not mut:
                R.bad(key, '%s: %s makes a mutable slice from a shared borrow' % (A.where(e), f.name))
    R.floor('raw slices', n, 4)


def floats(ctx, R, ops, expand):
    g = sites(ctx, ops, expand, ('to_int_unchecked',))
    up = None
    while True:
        try:
            f = g.send(up)
        except StopIteration:
            break
        up = False
        A = ctx.function(f.id)
        if not A:
            continue
        for e in A.events:
            if e.kind != 'call' or e.call.name.split('::')[-1] != 'to_int_unchecked':
                continue
            key = '%s: unchecked conversion' % f.name
            if from_arg(e.args[0]) and not f.pub:
                up = True
                continue
            R.inst(key, A.where(e))
            R.count('unchecked conversions')
            ok = bounded(A.W, e.args[0])
            if ok is None:
                R.skip(key, 'form not recognised: %s' % pterm(e.args[0])[:80])
            elif not ok:
                R.bad(key, '%s: %s converts %s without limiting it, which is undefined for values that are not numbers or out of range' % (A.where(e), f.name, pterm(e.args[0])[:80]))


def indexes(ctx, R, ops):
    for n, fs in sorted(ops.items()):
        if n.split('::')[-1] not in ('get_unchecked', 'get_unchecked_mut'):
            continue
        for x in sorted(set(fs)):
            f = ctx.M.fns.get(x)
            A = f and ctx.function(x)
            if not A:
                continue
            for e in A.events:
                if e.kind != 'call' or e.call.name.split('::')[-1] not in ('get_unchecked', 'get_unchecked_mut'):
                    continue
                key = '%s: unchecked index' % f.name
                R.inst(key, A.where(e))
                R.count('unchecked indexes')
                if not in_range(A, e):
                    R.bad(key, '%s: %s reads or writes index %s without a check or mask that keeps it in range' % (A.where(e), f.name, pterm(e.args[1])[:60]))


def in_range(A, e):
    W = A.W
    i = strip_at(e.args[1])
    s = strip_at(e.args[0])
    while s[0] == 'pure' and s[1] == 'deref':
        s = strip_at(s[3][0])

    def is_len(t):
        t = strip_at(t)
        if t[0] == 'len':
            return s[0] == 'ref' and t[1] == s[1]
        return t[0] in ('pure', 'call') and (t[1] if t[0] == 'pure' else t[2]).split('::')[-1] == 'len' and strip_at(t[3][0]) == s
    if i[0] == 'bin' and i[1] == 'BitAnd':
        for m in i[2:]:
            m = strip_at(m)
            if m[0] in ('bin', 'pure') and ((m[0] == 'bin' and m[1] in ('Sub', 'WSub') and m[3] == ('c', 1) and is_len(m[2])) or (m[0] == 'pure' and 'sub' in m[1] and is_len(m[3][0]))):
                return True
    if i[0] == 'bin' and i[1] == 'Rem' and is_len(i[3]):
        return True
    if i[0] == 'elem':
        it = W.elem.get(i[1])
        if it is not None and it[1] == 'range' and is_len(it[3]):
            return True
    for sw, op, a, b, true, false in comparisons(A):
        hold = None
        if strip_at(a) == i and is_len(b):
            hold = {'Lt': True, 'Ge': False}.get(op)
        if strip_at(b) == i and is_len(a):
            hold = {'Gt': True, 'Le': False}.get(op)
        if hold is not None and e.blk not in A.reach(A.F.entry, removed_edges=(true if hold else false) | dead(A)):
            return True
    return False


def node_of(t):
    """the identity behind an index looked up in the identity table"""
    t = norm_term(t)
    if t[0] == 'loc' and len(t[1]) > 2 and t[1][-1][0] == 'i' and t[1][-2] == ('f', 'node_index'):
        return norm_term(t[1][-1][1])
    return None


def bare(t):
    t = norm_term(t)
    p = loc(t)
    if p is not None:
        p = tuple(x for x in p if x != '*')
        while p and p[-1] == ('f', '0'):
            p = p[:-1]
        return ('loc', p)
    while t[0] == 'pj' and t[2] == ('f', '0'):
        t = t[1]
    return t


def loops(ctx, R):
    """no connection from a node to itself"""
    n = 0
    for f in sorted(ctx.M.fns.values(), key=lambda f: f.id):
        if not f.has_body or not f.pub or not re.search(r'net::Net::\w+$', f.name) or not f.args or f.locals[1][0] != 'ref':
            continue
        A = ctx.function(f.id)
        use_terms(A.W)
        for q, s, e in edits(A):
            if q[0] != 'in':
                continue
            key = '%s: a node is not connected to itself' % f.name
            if s[0] == 'Local':
                a, b = node_of(q[1]), node_of(s[1])
                if a is None or b is None or not given(a) or not given(b):
                    continue
                n += 1
                R.inst(key, A.where(e))
                pairs = [{bare(a), bare(b)}, {norm_term(q[1]), norm_term(s[1])}]
                ok = False
                for sw, op, x, y, true, false in comparisons(A):
                    if {bare(x), bare(y)} in pairs or {norm_term(x), norm_term(y)} in pairs:
                        hold = {'Eq': False, 'Ne': True}.get(op)
                        if hold is not None and e.blk not in A.reach(A.F.entry, removed_edges=(true if hold else false) | dead(A) | (other_variants(ctx, A, f, s[-1]) if s[-1][0] == 'pj' else set())):
                            ok = True
                if not ok:
                    R.bad(key, '%s: %s connects an output of a node to an input of a node without making sure that they differ' % (A.where(e), f.name))
            elif s[0] == 'copy' and q[1][0] == 'pos' and s[1][0] == 'in':
                n += 1
                R.inst(key, A.where(e))
                ok = False
                for sw, op, x, y, true, false in comparisons(A):
                    for u, v in ((x, y), (y, x)):
                        p = loc(norm_term(v))
                        if norm_term(u) == q[1] and p is not None and ('d', 'Local') in p and p[-1] == ('f', '0') and op in ('Eq', 'Ne'):
                            m = [z for z in p if isinstance(z, tuple) and z[0] == 'i']
                            if m and norm_term(m[0][1]) == norm_term(s[1][1]):
                                ok = True
                if not ok:
                    R.bad(key, '%s: %s gives a node the source of another node without making sure that it is not the node itself' % (A.where(e), f.name))
    R.floor('connections between nodes', n, 2)
    # the node that is run does not touch the buffer its input is read from
    for f in ctx.M.fns.values():
        if f.has_body and re.search(r'vertex::Vertex::process$', f.name):
            A = ctx.function(f.id)
            key = 'Vertex::process: its input buffer stays as it is'
            R.inst(key, A.at())
            for e in A.events:
                hit = e.kind in ('write', 'fill') and e.path and e.path[:2] == (('P', 1), ('f', 'input'))
                if e.kind == 'call' and e.args and e.extra:
                    hit = any(q and q[:2] == (('P', 1), ('f', 'input')) for _, q in A.W.mutable_args(e.call, e.args))
                if hit:
                    R.bad(key, '%s: the node writes to the buffer that its input is read from' % A.where(e))
                    break


def given(t):
    while t[0] == 'pj':
        t = t[1]
    if t[0] == 'arg':
        return True
    p = loc(t)
    return p is not None and p[0][0] == 'P' and p[0] != ('P', 1)


READ = ('at', 'at_f32', 'channel', 'channel_f32', 'buffer_ref')


def scratch(ctx, R):
    n = 0
    for tr, im in ctx.node_impls():
        if im['self'][0] != 'adt':
            continue
        A = ctx.bufmethod(tr, im, 'process')
        if not A:
            continue
        T = ctx.tyname(im)
        for c in A.events:
            if c.kind != 'call' or (c.call.m or c.call.name.split('::')[-1]) != 'uninitialized' and not c.call.name.endswith('uninitialized'):
                continue
            key = '%s::process: scratch buffer' % T
            R.inst(key, A.where(c))
            n += 1
            me = None
            views, writes, reads, odd = {}, set(), [], []
            frame = 0
            cand = [e for e in A.events if e.kind == 'call' and e.args and strip_at(e.args[0])[0] == 'ref' and strip_at(e.args[0])[1][0][0] == 'L'
                    and strip_at(e.args[0])[1][0][-1] == c.call.dest[0] and len(strip_at(e.args[0])[1]) == 1]
            for e in cand:
                m = e.call.m or e.call.name.split('::')[-1]
                if m == 'buffer_mut':
                    views[e.call.dest[0]] = e
                elif m in READ:
                    reads.append(e)
                elif m in ('channels', 'len', 'length'):
                    pass
                else:
                    odd.append(e)
            for e in A.events:
                if e.kind == 'call' and e.call.m == 'process' and len(e.args) >= 4:
                    o = strip_at(e.args[3])
                    if o[0] == 'ref' and o[1][0][0] == 'L' and o[1][0][-1] in views and e.args[1] == ('arg', 2):
                        writes.add(e.blk)
            parity = any(e.kind == 'switch' and e.val is not None and any(isinstance(x, tuple) and x and x[0] == 'bin' and x[1] in ('BitAnd', 'Rem') for x in A.W.deps(e.val)) for e in A.events)
            if parity:
                R.skip(key, 'which buffer is read depends on the parity of a counter (decided by C16)')
                continue
            if odd or not views:
                R.skip(key, 'a use that is not recognised')
                continue
            for e in reads:
                if e.blk in A.reach(c.blk, removed=writes):
                    R.bad(key, '%s: process of %s can read a scratch buffer that nothing has been written to' % (A.where(e), T))
                    break
    R.floor('uninitialised scratch buffers', n, 1)
