"""C15: processing a block advances the same state as processing its samples one by one."""
from fractions import Fraction
from ..core import NODE, UNIT, pterm
from ..prop import children, Child, presence_exempt, norm_cond, switch_edges, exhaustion_edges
from ..propcheck import pat_of, child_events, check_child, file_line
from ..state import self_writes, related, mems
from .c04 import FIELDS as F04
from ..terms import strip_at
from ..blocks import Blocks, has_term, at, Unknown, Choice, show, deep, padd, pmul, const, atom, psubst, P

SIZE = atom('size')
SHAPE = 'shape::Shape'
FIELDS = dict(F04)
FIELDS['Net'] = FIELDS['NetBackend'] = 'fade_phase'
FIELDS['SlotBackend'] = 'fade_phase'


def plain(path):
    return not any(isinstance(x, tuple) and x[0] in ('i', 'd', 'sub') for x in path[1:])


def empty_block(A, ctx=None, im=None):
    """edges taken only when the block is empty (or that depend on its size in a way not understood)"""
    B = Blocks(A.ctx, None, A)
    out = set()
    for b in A.blocks():
        t = A.F.blocks[b].term
        if t[0] != 'switch' or A.innermost(b) is not None:
            continue
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if not ev or not has_term(ev[0].val, ('arg', 2)):
            continue
        v = ev[0].val
        edges = switch_edges(t)
        taken = set()
        for n in range(1, 65):
            x = cond(B, v, n)
            if x is None:
                taken = None
                break
            hit = [s for val, s in edges if val == x]
            taken |= set(hit) if hit else {s for val, s in edges if val is None}
        if taken is None:
            if all(not isinstance(y, tuple) or y[:1] != ('mem',) or y[1][0] != ('P', 1) for y in A.W.deps(v)):
                out |= {(b, s) for _, s in edges}
            continue
        out |= {(b, s) for _, s in edges if s not in taken}
    return out


def classes(A):
    """[(sizes, edges not taken for them)]: block sizes that take the same way at every condition on the size alone"""
    B = Blocks(A.ctx, None, A)
    sw = []
    for b in A.blocks():
        t = A.F.blocks[b].term
        if t[0] != 'switch':
            continue
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if ev and has_term(ev[0].val, ('arg', 2)) and not any(s not in A.loops()[h] for h in A.loops_of(b) for s in A.succs(b)):
            sw.append((b, ev[0].val, switch_edges(t)))
    out = {}
    for n in range(1, 65):
        rm = set()
        for b, v, edges in sw:
            x = cond(B, v, n)
            if x is not None:
                hit = [s for val, s in edges if val == x] or [s for val, s in edges if val is None]
                rm |= {(b, s) for _, s in edges if s not in hit}
        out.setdefault(frozenset(rm), []).append(n)
    return [(v, k) for k, v in out.items()] if len(out) < 9 else [(list(range(1, 65)), frozenset())]


def cond(B, v, n):
    """value of a condition in a block of n samples"""
    v = strip_at(v)
    if v[0] == 'un' and v[1] == 'Not':
        x = cond(B, v[2], n)
        return None if x is None else 1 - x
    try:
        if v[0] == 'bin' and v[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            a, b = B.ev(v[2], n), B.ev(v[3], n)
            return int({'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[v[1]])
        return B.ev(v, n)
    except (Unknown, ValueError, ZeroDivisionError, OverflowError):
        return None


def loop_blocks(A, blocks):
    """blocks plus the headers of loops that pass one of them in every round (an empty loop means an empty block)"""
    out = set(blocks)
    edges = set()
    for h, body in sorted(A.loops().items(), key=lambda x: len(x[1])):
        if not (out & body) and not any(a in body for a, _ in edges):
            continue
        backs = [b for b in body if h in A.succs(b)]
        # one round without a block of interest?
        r = set()
        for s in A.succs(h):
            if s in body:
                r |= A.reach(s, removed=out | {h}, removed_edges=edges)
        if h in out or not any(b in r for b in backs):
            for b in body:
                for s in A.succs(b):
                    if s not in body:
                        edges.add((b, s))
    return out, edges


def must(A, blocks, exempt):
    out, edges = loop_blocks(A, blocks)
    return A.F.ret not in A.reach(A.F.entry, removed=out, removed_edges=edges | exempt)


# ------------------------------------------------------------------ state
def state(ctx, R, tr, im, T, ch):
    At, Ap = ctx.bufmethod(tr, im, 'tick'), ctx.bufmethod(tr, im, 'process')

    def kid(p):
        return any(p[:len(c)] == c for c in ch)
    tw = [w for w in self_writes(At) if not kid(w.pat)]
    pw = [w for w in self_writes(Ap) if not kid(w.pat)]
    n = nv = 0
    where = file_line(Ap)
    opaque = [w for w in pw if w.kind == 'opaque' and not w.pat]
    zero = empty_block(Ap)
    cls = classes(Ap)
    for p in sorted({w.pat for w in tw}):
        ps = '.'.join(p)
        key = '%s::process advances %s' % (T, ps)
        mine = [w for w in pw if related(w.pat, p)] + opaque
        if not carries(ctx, tr, im, T, At, tw, p):
            R.count('scratch fields')
            continue
        n += 1
        R.inst(key, '%s, %d write(s)' % (where, len(mine)))
        if not mine:
            R.bad(key, '%s: tick of %s changes `%s` (%s), process never does' % (where, T, ps, At.where([w for w in tw if w.pat == p][0].ev)))
            continue
        tb = {w.ev.blk for w in tw if w.pat == p}
        if must(At, tb, set()) and not must(Ap, {w.ev.blk for w in mine}, zero):
            R.bad(key, '%s: tick of %s always changes `%s`, process can return without changing it (written at %s)' % (where, T, ps, Ap.where(mine[0].ev)))
            continue
        # by how much
        paths = {w.path for w in tw if w.pat == p and w.path}
        if len(paths) != 1 or not plain(next(iter(paths))) or any(w.kind == 'opaque' for w in tw + pw if related(w.pat, p)):
            continue
        path = next(iter(paths))
        Bt = Blocks(ctx, im, At, False)
        try:
            tv = Bt.values(Bt.final(path))
        except (Unknown, RecursionError):
            continue
        for sizes, removed in cls:
            nv += amount(R, T, where, key, ps, path, p, tv, Blocks(ctx, im, Ap, True, removed=removed), sizes, zero)
    return n, nv


def amount(R, T, where, key, ps, path, p, tv, Bp, sizes, zero):
    me = atom(('f',) + p)
    n = 0
    try:
        t = Bp.final(path)
        try:
            pv = Bp.values(t)
        except Unknown:
            pv = None
            ls = loops_behind(Bp, t)
            if not ls:
                raise
        if pv is None:
            for v in leaves_behind(Bp, t):
                try:
                    vals = {at(x, 1) for x in Bp.values(v)}
                except (Unknown, RecursionError):
                    continue
                if opaque_atoms(vals) <= opaque_atoms(tv) and not vals <= tv | {me}:
                    R.bad(key + ' by the same amount', '%s: process of %s takes `%s` to %s, tick to %s' % (where, T, ps, alts(vals), alts(tv)))
            for l in ls:
                init, rounds, vals = Bp.round(l)
                if opaque_atoms(vals) != opaque_atoms(tv):
                    R.skip(key + ' by the same amount', 'the amounts are computed by different functions')
                    continue
                n += 1
                R.inst(key + ' per sample', where)
                if vals - {me} != tv - {me}:
                    R.bad(key + ' per sample', '%s: one round of the loop over samples takes `%s` of %s to %s, tick to %s' % (
                        where, ps, T, alts(vals), alts(tv)))
                elif len(ls) == 1 and init == {('mem', path, 0)} and any(at(rounds, k) != const(Fraction(k)) for k in sizes):
                    R.bad(key + ' per sample', '%s: `%s` of %s is advanced %s times for a block of size samples' % (where, ps, T, show(rounds)))
            return n
    except (Unknown, Choice, RecursionError) as x:
        R.skip(key + ' by the same amount', 'form not recognised: %s' % x)
        return n
    if opaque_atoms(pv) != opaque_atoms(tv):
        R.skip(key + ' by the same amount', 'the amounts are computed by different functions')
        return n
    n += 1
    R.inst(key + ' by the same amount', where)
    if 1 in sizes:
        one = {at(x, 1) for x in pv}
        if one - {me} != tv - {me} or (me in one and me not in tv and not zero):
            R.bad(key + ' by the same amount', '%s: process of %s takes `%s` to %s, which for one sample is %s, but tick takes it to %s' % (where, T, ps, alts(pv), alts(one), alts(tv)))
            return n
    for x in pv:
        d = padd(x, me, -1)
        if has_me(d, ('f',) + p) or not has_me(x, ('f',) + p) or not d:
            continue
        td = [padd(y, me, -1) for y in tv if has_me(y, ('f',) + p)]
        for k in sizes:
            if at(d, k) not in [pmul(const(Fraction(k)), y) for y in td]:
                R.bad(key + ' by the same amount', '%s: process of %s advances `%s` by %s in a block of size samples (size %d), tick by %s per sample' % (where, T, ps, show(d), k, alts(td)))
                break
    return n


def opaque_atoms(ps):
    """functions applied inside polynomials"""
    return {a[:2] for p in ps for a in deep(p) if a and a[0] in ('p', 'o', 'inv', 'k', 'nc')} if ps else set()


def has_me(p, a):
    return any(a in m for m, _ in p)


def alts(vs):
    return ' or '.join(sorted(show(v) for v in vs))[:300]


def loops_behind(B, t, seen=None):
    """loop values a final value may come from, through joins after the loops"""
    seen = set() if seen is None else seen
    if t in seen or t[0] != 'phi':
        return []
    seen.add(t)
    if t[1] in B.A.loops():
        return [t]
    out = []
    for v in set(B.phis((t[1], t[2])).values()):
        out += loops_behind(B, v, seen)
    return out


def leaves_behind(B, t, seen=None):
    """other values that join the loop values"""
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    if t[0] != 'phi':
        return [t]
    if t[1] in B.A.loops():
        return []
    out = []
    for v in set(B.phis((t[1], t[2])).values()):
        out += leaves_behind(B, v, seen)
    return out


def read_by(A, p):
    for e in A.events:
        ts = ([e.val] if e.val is not None else []) + (list(e.snap) if e.kind == 'call' and e.snap else [])
        for t in ts:
            if e.kind == 'write' and e.path and t == ('mem', e.path, 0):
                continue
            if any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem' and x[1] and x[1][0] == ('P', 1) and len(x[1]) > 1 and related(pat_of(x[1]), p) for x in A.W.deps(t)):
                return True
    return False


def carries(ctx, tr, im, T, A, tw, p):
    """does the field carry anything from one sample to the next?"""
    known = FIELDS.get(T, '').split()
    if p[0] in known or p[-1] in known:
        return True
    if T in ('Net', 'NetBackend'):
        return False            # nodes: fields listed below; the rest is order and frames of one sample
    for f, ty in ctx.M.fields(im['self']):
        if f == p[0] and ty[0] == 'adt' and ty[1].split('::')[-1] in ('Vec', 'BufferVec', 'BufferArray', 'SmallVec') and ty[2][:1] in ((), (('prim', 'f32'),)):
            return False        # a field unknown to this check that holds samples: room for one sample or block
    for m in ('route',):
        Ar = ctx.method(tr, im, m) if m in im['items'] else None
        if Ar and read_by(Ar, p):
            return True
    W = A.W
    for e in A.events:
        ts = ([e.val] if e.val is not None else []) + ([x for x in e.snap if x[0] != 'ref'] if e.kind == 'call' and e.snap else [])
        for t in ts:
            if e.kind == 'write' and e.path and t == ('mem', e.path, 0):
                continue
            if any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem' and x[2] == 0 and x[1] and x[1][0] == ('P', 1) and len(x[1]) > 1 and related(pat_of(x[1]), p) for x in W.deps(t)):
                return True
    return False


# ------------------------------------------------------------------ nested components
def shapes(ctx, im):
    """waveshapers among the fields"""
    ps = {t for t, tr in im['bounds'] if tr == SHAPE}
    out = []
    for f, ty in ctx.M.fields(im['self']):
        if ty in ps:
            c = Child()
            c.pat, c.ty, c.kind, c.lens = (f,), ty, 'param', ()
            out.append(c)
    return out


def nested(ctx, R, tr, im, T, ch, one={'tick'}, many={'tick', 'process'}):
    At, Ap = ctx.bufmethod(tr, im, 'tick'), ctx.bufmethod(tr, im, 'process')
    n = 0
    where = file_line(Ap)
    cls = classes(Ap) if ch else []
    for c in ch:
        cp = '.'.join(c.pat)
        te = child_events(ctx, At, c, one)
        if not te:
            continue
        key = '%s::process renders %s' % (T, cp)
        pe = child_events(ctx, Ap, c, many)
        n += 1
        R.inst(key, '%s, %d call(s)' % (where, len(pe)))
        if not pe:
            R.bad(key, '%s: tick of %s runs the nested component `%s`, process does not' % (where, T, cp))
            continue
        okt = check_child(ctx, At, c, one, presence_exempt(At, c.pat), ch, removal=False)[0]
        if okt:
            ex = presence_exempt(Ap, c.pat) | empty_block(Ap)
            ok, notes, blocks, evs = check_child(ctx, Ap, c, many, ex, ch, removal=False)
            if not ok:
                out, edges = loop_blocks(Ap, blocks)
                ok = Ap.F.ret not in Ap.reach(Ap.F.entry, removed=out, removed_edges=edges | ex)
            if not ok and any('does not visit every element' in x for x in notes) and len(pe) > 1:
                R.skip(key + ' on every path', 'elements visited in parts (decided by C16)')
            elif not ok:
                R.bad(key, '%s: process of %s can return without running the nested component `%s`%s' % (where, T, cp, ': ' + '; '.join(notes) if notes else ''))
                continue
        for sizes, removed in cls:
            Bp = Blocks(ctx, im, Ap, True, removed=removed)
            try:
                amounts = runs(Bp, [e for e in pe if Bp.live is None or e.blk in Bp.live])
                per = runs(Blocks(ctx, im, At, False), te)
                each = {total(At, per, c, *x) for x in per}
                if len(each) != 1:
                    raise Unknown('number of calls in tick')
                want = pmul(SIZE, each.pop())
            except Unknown as x:
                R.skip(key + ' for the size of the block', 'form not recognised: %s' % x)
                continue
            R.inst(key + ' for the size of the block', where)
            for x in amounts:
                tot = total(Ap, amounts, c, *x)
                if any(at(tot, k) != at(want, k) for k in sizes):
                    R.bad(key + ' for the size of the block', '%s: process of %s runs the nested component `%s` for %s samples in a block of size samples (%s are due)' % (Ap.where(x[0]), T, cp, show(tot), show(want)))
                    break
    return n


def runs(B, evs):
    """how many samples each call renders, all rounds of the loops around it taken together"""
    out = []
    for e in evs:
        a = B.num(e.args[1]) if e.call.m == 'process' else const(Fraction(8 if e.call.m == 'simd' else 1))
        own = index_loops(B.A, e)
        for h in B.A.loops_of(e.blk):
            if h not in own:
                a = pmul(a, B.trip(h))
        out.append((e, a, own))
    return out


def total(A, evs, c, e, a, own):
    """calls on one path add up"""
    for e2, a2, own2 in evs:
        if e2 is e:
            continue
        if e.args[0][1] != e2.args[0][1] and not (own and own2) and c.lens:
            continue            # another element
        if comes_after(A, e, e2, own & own2) or comes_after(A, e2, e, own & own2):
            a = padd(a, a2)
    return a


def index_loops(A, e):
    """loops that choose the element e acts on"""
    from ..prop import loop_for_index, strip
    out = set()
    for x in e.args[0][1]:
        if isinstance(x, tuple) and x[0] == 'i':
            h = loop_for_index(A, strip(x[1]), e.blk)
            if h is not None:
                out.add(h)
            for y in A.W.deps(x[1]):
                if isinstance(y, tuple) and len(y) == 3 and y[0] == 'elem':
                    h = loop_for_index(A, y, e.blk)
                    if h is not None:
                        out.add(h)
    return out


def comes_after(A, a, b, same):
    if a.blk == b.blk:
        return True
    r = set()
    for s in A.succs(a.blk):
        r |= A.reach(s, removed=same)
    return b.blk in r


def run(ctx, R):
    R.rule = 'every field that tick changes is changed by process, by the amount of size calls of tick; every nested component tick runs is run by process for exactly size samples'
    n = nv = nc = ni = ns = 0
    for tr, im in ctx.node_impls():
        t = im['self']
        T = ctx.tyname(im)
        if t[0] != 'adt':
            continue
        At, Ap = ctx.bufmethod(tr, im, 'tick'), ctx.bufmethod(tr, im, 'process')
        if not At or not Ap:
            continue
        ni += 1
        ch = children(ctx, im)
        a, b = state(ctx, R, tr, im, T, [c.pat for c in ch])
        n += a
        nv += b
        nc += nested(ctx, R, tr, im, T, ch)
        sh = shapes(ctx, im)
        nc += nested(ctx, R, tr, im, T, sh, {'shape'}, {'shape', 'simd'})
        ns += len(sh)
    R.floor('implementations', ni, 100)
    R.floor('state fields', n, 100)
    R.floor('amounts compared', nv, 15)
    R.floor('nested components', nc, 40)
    R.floor('waveshapers', ns, 3)
