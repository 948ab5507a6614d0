"""C05: preallocation reaches every nested component; what rendering grows lazily is reserved by it."""
from ..prop import norm_cond, switch_edges, presence_exempt
from ..state import mems, self_writes
from .c06 import GROWERS, owner, false_edges
from ..propcheck import run_propagation
from .c01 import hosts
from ..core import UNIT, NODE

ASSUME = ['a nested component of a concrete type whose allocate does nothing needs no call']
F = 'the unit was preallocated when it was handed over (checked by the second rule)'
EXEMPT = {
    ('Net', 'vertex.[].next.unit'): F, ('Net', 'vertex.[].latest.unit'): F, ('Net', 'edit_queue.[].unit'): F,
    ('Sequencer', 'active.[].unit'): F, ('Sequencer', 'ready.[].unit'): F, ('Sequencer', 'past.[].unit'): F,
}


RESERVERS = ('reserve', 'reserve_exact', 'try_reserve', 'resize', 'resize_with')


def cap_term(t, path):
    return isinstance(t, tuple) and t and t[0] in ('pure', 'call') and t[1 if t[0] == 'pure' else 2].split('::')[-1] == 'capacity' and t[3] and t[3][0][:2] in (('at', path), ('ref', path))


def big_enough(A, path, bound):
    """edges on which the capacity of the container is known to reach the bound"""
    out = set()
    for b in A.blocks():
        term = A.F.blocks[b].term
        if term[0] != 'switch':
            continue
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if not ev:
            continue
        c, neg = norm_cond(ev[0].val)
        if c[0] != 'bin' or c[1] not in ('Lt', 'Le', 'Gt', 'Ge'):
            continue
        l, r, op = c[2], c[3], c[1]
        if cap_term(r, path):
            l, r = r, l
            op = dict(Lt='Gt', Le='Ge', Gt='Lt', Ge='Le')[op]
        if not cap_term(l, path) or bound and not bound <= mems(A.W, r):
            continue
        for v, s in switch_edges(term):
            truth = ((v != 0) if v is not None else True) != neg
            if truth == (op in ('Gt', 'Ge')):
                out.add((b, s))
    return out


def guard_bound(A, e, path):
    """state the length of the container is compared with before it grows"""
    out = set()
    for b in A.blocks():
        if b == e.blk or not A.dominates(b, e.blk):
            continue
        for s in A.W.bevents.get(b, []):
            if s.kind == 'switch':
                c = norm_cond(s.val)[0]
                if c[0] == 'bin' and c[1] in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq') and ('len', path) in (c[2], c[3]):
                    out |= mems(A.W, c[3] if c[2] == ('len', path) else c[2])
    return out


def lazy(ctx, R):
    found = {}
    for tr, im in ctx.node_impls():
        for m in ('tick', 'process'):
            A = ctx.method(tr, im, m)
            if A is None:
                continue
            for e in A.calls():
                if e.call.name.split('::')[-1] in GROWERS and e.args and e.args[0][0] == 'ref' and e.args[0][1][0] == ('P', 1):
                    p = e.args[0][1]
                    if not all(isinstance(x, tuple) and x[0] == 'f' for x in p[1:]):
                        continue
                    if p[-1][1] == 'order':
                        continue
                    own = owner(ctx, A.selfty, tuple(x[1] for x in p[1:]))
                    if own[0] is None:
                        continue
                    found.setdefault((own[0].split('::')[-1], (('P', 1), ('f', own[1]))), set()).update(guard_bound(A, e, p) if len(p) == 2 else ())
    impls = {ctx.tyname(im): (tr, im) for tr, im in ctx.node_impls()}
    k = 0
    for (T, p), bound in sorted(found.items(), key=lambda x: str(x[0])):
        if T not in impls:
            R.skip('%s.%s' % (T, p[-1][1]), 'helper structure without an allocate of its own; effects of its growth are judged by C06')
            continue
        tr, im = impls[T]
        k += 1
        key = '%s.%s: reserved before rendering' % (T, p[-1][1])
        B = ctx.method(tr, im, 'allocate')
        R.inst(key, B.at() if B else T)
        if B is None:
            R.bad(key, '%s grows %s while rendering and has no allocate' % (T, p[-1][1]))
            continue
        blocks = set()
        for e in B.calls():
            if e.call.name.split('::')[-1] in RESERVERS and e.args[0] == ('ref', p):
                amount = e.args[1]
                if any(cap_term(x, p) for x in B.W.deps(amount)):
                    R.bad(key, '%s: the room reserved for %s.%s is counted from the capacity, but reserve() counts from the length' % (B.where(e), T, p[-1][1]))
                elif bound and not bound <= mems(B.W, amount):
                    R.notes.append('%s: the reservation does not depend on the bound %s' % (B.where(e), sorted(bound)))
                elif amount == ('c', 0):
                    pass
                else:
                    blocks.add(e.blk)
        if B.F.ret in B.reach(B.F.entry, removed=blocks, removed_edges=big_enough(B, p, bound)):
            R.bad(key, '%s: %s can return without room for what rendering appends to %s' % (B.at(), T + '::allocate', p[-1][1]))
    R.floor('containers that grow while rendering', k, 3)
    # state that rendering builds on first use
    for T, field, path in (('Net', 'order', ('order',)), ('Pluck', 'initialized', ('initialized',))):
        for tr, im in ctx.node_impls():
            if ctx.tyname(im) != T:
                continue
            B = ctx.method(tr, im, 'allocate')
            key = '%s.%s: built before rendering' % (T, field)
            R.inst(key, B.at() if B else T)
            if B is None:
                R.bad(key, '%s builds %s while rendering and has no allocate' % (T, field))
                continue
            blocks = set()
            for w in self_writes(B):
                if w.pat == path and w.kind == 'write' and (w.val == ('c', True) or w.val == ('c', 1) or w.val[0] == 'agg' and w.val[2] == 'Some'):
                    blocks.add(w.ev.blk)
            if field == 'order':
                skip = set()
                for b in B.blocks():
                    for s in B.W.bevents.get(b, []):
                        if s.kind == 'switch':
                            c, neg = norm_cond(s.val)
                            for v, t in switch_edges(B.F.blocks[b].term):
                                truth = ((v != 0) if v is not None else True) != neg
                                if c[0] == 'pure' and c[1] in ('is_some', 'is_none') and mems(B.W, c) == {path} and truth == (c[1] == 'is_some'):
                                    skip.add((b, t))
                                if c == ('discr', ('mem', (('P', 1), ('f', field)), 0)) and v == 1:
                                    skip.add((b, t))
            else:
                fe = false_edges(B, field)
                skip = {(b, t) for (b, _) in fe for v, t in switch_edges(B.F.blocks[b].term) if (b, t) not in fe}
            if B.F.ret in B.reach(B.F.entry, removed=blocks, removed_edges=skip):
                R.bad(key, '%s: %s::allocate can return before %s is set up, which leaves the work to the audio thread' % (B.at(), T, field))


def run(ctx, R):
    R.rule('For every AudioNode/AudioUnit implementation with nested components: on every path through allocate, every nested component has allocate called.')
    R.rule('Every method that stores a unit as a pending crossfade of a graph node or as a sequencer event calls allocate on it on every path.')
    n = run_propagation(ctx, R, 'allocate', EXEMPT)
    R.floor('nested components', n, 38)
    k = 0
    for f, i, ty in hosts(ctx):
        A = ctx.function(f.id, selfty=ty)
        stores = ty[1] == 'sequencer::Sequencer' or any(
            x[0] == 'agg' and str(x[1]).endswith('NodeEdit') and ('arg', i) in A.W.deps(x)
            for e in A.events for t in ([e.val] if e.val else []) + list(e.args or ()) for x in A.W.deps(t) if isinstance(x, tuple) and x)
        if not stores:
            continue
        key = '%s: allocate on the incoming unit' % f.name
        blocks = set()
        for e in A.calls():
            if e.call.m == 'allocate' and e.args and e.args[0][0] == 'ref':
                r = e.args[0][1]
                if r[0][0] in ('D', 'V') and ('arg', i) in A.W.deps(r[0][1]) or r[0] == ('L', A.F.rootframe.id, i):
                    blocks.add(e.blk)
        k += 1
        R.inst(key, '%s:%s' % (f.file, f.line))
        if A.F.ret in A.reach(A.F.entry, removed=blocks):
            R.bad(key, '%s:%s: %s can store the unit without preallocating it' % (f.file, f.line, f.name))
    R.floor('units handed over', k, 5)
    R.rule('Every container of a component that tick or process appends to is given room by allocate on every path, counted from the length and for the bound that the appending code tests; an evaluation order or delay line that rendering would build on first use is built by allocate.')
    lazy(ctx, R)
