"""C14: block processing writes every requested sample of every output channel."""
from fractions import Fraction
from itertools import product
from ..core import NODE, UNIT
from ..prop import switch_edges
from ..propcheck import file_line
from ..terms import strip_at
from ..blocks import Unknown, show, at
from ..chan import atom, const, atoms, psubst
from ..cover import Extent, writes, missing, value, avoids
from .c15 import classes, cond


def outputs_of(ctx, tr, im, B):
    if tr == NODE:
        return B.tlen(im['types']['Outputs'])
    A = ctx.method(tr, im, 'outputs')
    if A:
        B2 = Extent(ctx, im, A, False)
        B2.setup(atom('outs'))
        rs = {e.val for e in A.events if e.kind == 'return'}
        if len(rs) == 1:
            try:
                return B2.num(rs.pop())
            except Unknown:
                pass
    return atom('outs')


def conditions(B):
    """(block, operator, number, number, edges) of conditions on channel counts"""
    A = B.A
    for b in A.blocks():
        t = A.F.blocks[b].term
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if t[0] != 'switch' or not ev:
            continue
        v = strip_at(ev[0].val)
        if v[0] == 'bin' and v[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            try:
                x, y = B.num(v[2]), B.num(v[3])
            except Unknown:
                continue
            yield b, v[1], x, y, switch_edges(t)


def is_len(x):
    return isinstance(x, tuple) and x[0] == 'len'


def instances(B, outs):
    """small channel counts that decide conditions: [({count: number}, edges not taken)]"""
    cs = [c for c in conditions(B) if any(is_len(z) for p in c[2:4] for z in atoms(p)) and all(is_len(z) for p in c[2:4] for z in atoms(p))]
    lens = sorted({z for c in cs for p in c[2:4] for z in atoms(p)}, key=repr)
    out = []
    if not 0 < len(lens) < 4:
        return out
    for ks in product((1, 2), repeat=len(lens)):
        asg = dict(zip(lens, ks))
        rm = set()
        for b, op, x, y, es in cs:
            x, y = value(put(x, asg), 1), value(put(y, asg), 1)
            truth = int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
            hit = [s for val, s in es if val == truth] or [s for val, s in es if val is None]
            rm |= {(b, s) for _, s in es if s not in hit}
        out.append((asg, frozenset(rm)))
    return out


def put(p, asg):
    for a, k in asg.items():
        p = psubst(p, a, const(Fraction(k)))
    return p


def fuzzy(A, known):
    """edges of conditions on channel counts and loop variables that are not understood"""
    out = set()
    for b in A.blocks():
        t = A.F.blocks[b].term
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if t[0] != 'switch' or not ev or b in known:
            continue
        ds = [x for x in A.W.deps(ev[0].val) if isinstance(x, tuple) and x]
        if ev[0].val[0] == 'bin' and any(x[0] in ('nc', 'alen') for x in ds) and not any(x[0] == 'mem' for x in ds):
            out |= {(b, s) for _, s in switch_edges(t)}
    return out


def unclear(A, B, ws):
    """raises Unknown when a missing sample may be due to a form that is not understood"""
    have = set(atoms(B.outs))
    for w in ws:
        for p in w.ch or ():
            for z in atoms(p):
                if z not in have and not is_len(z):
                    raise Unknown('a channel count: %s' % show(p))
    # rounds of a loop told apart by their number
    for b, op, x, y, es in conditions(B):
        if any(isinstance(z, tuple) and z[0] == 'v' for p in (x, y) for z in atoms(p)):
            for h, body in A.loops().items():
                if b in body and b != h and len({tells(A, s, h, body, ws) for _, s in es}) > 1:
                    raise Unknown('a condition on the round of a loop')


def tells(A, s, h, body, ws):
    """the writes of the rest of the round"""
    if s not in body:
        return None
    r = A.reach(s, removed={h})
    return frozenset(w.blk for w in ws if w.blk in r and w.blk in body)


def decide(A, ws, odd, outs, sizes, removed):
    """None, or the violation"""
    for n in sizes:
        bad = missing(A, [w for w in ws if not w.mixing], outs, n, removed)
        if bad:
            return n, bad
    return None


def run(ctx, R):
    R.rule = 'on every path through process, for every block size 1..64, the writes to the output make up all samples of all output channels'
    ni = nw = nm = 0
    for tr, im in ctx.node_impls():
        if im['self'][0] != 'adt':
            continue
        T = ctx.tyname(im)
        A = ctx.bufmethod(tr, im, 'process')
        if not A:
            continue
        key = '%s::process fills its outputs' % T
        where = file_line(A)
        B = Extent(ctx, im, A, True)
        B.setup(atom('outs'))
        try:
            B.setup(outputs_of(ctx, tr, im, B))
            ws, odd = writes(B)
        except (Unknown, RecursionError) as x:
            R.skip(key, 'form not recognised: %s' % x)
            continue
        if B.outs == ():
            R.count('no outputs')
            continue
        R.inst(key, '%s, %d write(s)' % (where, len(ws)))
        bad = None
        ok = True
        for sizes, removed in classes(A):
            try:
                bad = decide(A, ws, odd, B.outs, sizes, removed)
                if bad:
                    for asg, rm in instances(B, B.outs):
                        bad = decide(A, [inst(w, asg) for w in ws], odd, put(B.outs, asg), sizes, removed | rm)
                        if bad:
                            break
                if bad:
                    unclear(A, B, ws)
                if bad and fuzzy(A, {c[0] for c in conditions(B)}) and not decide(A, ws, odd, B.outs, sizes, removed | fuzzy(A, {c[0] for c in conditions(B)})):
                    raise Unknown('a condition on channel counts')
            except Unknown as x:
                R.skip(key + ' for every size', 'form not recognised: %s' % x)
                ok = False
                break
            if bad:
                break
        if not ok:
            continue
        if bad and odd:
            R.skip(key + ' for every size', 'a write that is not recognised: %s' % A.where(odd[0]))
            continue
        if bad:
            n, ((a, b), why) = bad
            R.bad(key, '%s: process of %s can leave samples %d..%d of a block of %d unwritten: %s' % (where, T, a, b, n, why))
            continue
        ni += 1
        nw += len(ws)
        # values added to what is there
        mix = [w for w in ws if w.mixing]
        for i, w in enumerate(mix):
            try:
                for n in range(1, 65):
                    iv = sorted((value(x.tm[0], n), value(x.tm[1], n)) for x in mix)
                    e = 0
                    for lo, hi in iv:
                        if lo <= e:
                            e = max(e, hi)
                    if e < n:
                        R.bad('%s::process adds to all samples' % T, '%s: process of %s adds to samples 0..%d of a block of %d only' % (A.where(w.e), T, e, n))
                        break
                nm += 1
            except (Unknown, TypeError):
                R.skip('%s::process adds to all samples' % T, 'form not recognised')
            break
    R.floor('implementations', ni, 80)
    R.floor('writes', nw, 100)
    R.floor('mixing implementations', nm, 5)


def inst(w, asg):
    from ..cover import Write
    return Write(w.e, None if w.ch is None else (put(w.ch[0], asg), put(w.ch[1], asg)), w.tm, w.loops, w.mixing)
