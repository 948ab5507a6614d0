"""Which samples of which output channels a block processing function writes, for every block size and channel count."""
from fractions import Fraction
from itertools import product
from .core import pterm
from .chan import P, const, atom, padd, pmul, psubst, atoms
from .terms import strip_at
from .propcheck import pat_of
from .blocks import Blocks, Unknown, Choice, at, show
from .prop import exhaustion_edges, reaches_ret

ONE = const(Fraction(1))
ZERO = ()
WRITE1 = {'set': 8, 'set_f32': 1}
RESLICE = {'index', 'as_mut', 'as_ref', 'deref', 'deref_mut', 'iter_mut', 'into_iter', 'iter'}


class Extent(Blocks):
    """numbers: channel counts and positions"""
    OUT = ('P', 4)

    def setup(self, outs):
        self.outs = outs

    def odd(self, t):
        if t[0] in ('call', 'pure'):
            n = (t[1] if t[0] == 'pure' else t[2]).split('::')[-1]
            if n == 'channels' and self.isout(t[3][0]):
                return self.outs
            if n in ('outputs',) and t[3] and strip_at(t[3][0])[0] in ('ref', 'mem') and [x for x in strip_at(t[3][0])[1][1:] if x != '*'] == []:
                return self.outs
        if t[0] == 'mem' and t[1][0] == ('P', 1) and t[2] == 0 and all(x == '*' or x[0] == 'f' for x in t[1][1:]):
            return atom(('fld',) + pat_of(t[1]))
        if t[0] == 'phi' and t[1] in self.A.loops():
            r = self.steady(t)
            if r is not None:
                return r
        raise Unknown('number ' + pterm(t)[:60])

    def steady(self, t):
        """value of a variable that does not change in the loop, or grows by the same amount in every round"""
        h = t[1]
        body = self.A.loops()[h]
        ops = self.phis((h, t[2]))
        init = {v for p, v in ops.items() if p not in body}
        back = {v for p, v in ops.items() if p in body}
        if len(init) != 1 or len(back) != 1:
            return None
        i, b = init.pop(), back.pop()
        if b == t:
            return self.num(i)
        if b[0] == 'bin' and b[1] == 'Add' and t in b[2:] and h not in self.busy:
            d = b[3] if b[2] == t else b[2]
            self.busy.add(h)
            try:
                d = self.num(d)
                i = self.num(i)
                lo = self.bounds(self.var(h))[0]
            except Unknown:
                return None
            finally:
                self.busy.discard(h)
            if any(isinstance(a, tuple) and a[0] == 'v' for a in atoms(d)):
                return None
            return padd(i, pmul(d, padd(atom(self.var(h)), lo, -1)))
        return None

    def isout(self, t):
        t = strip_at(t)
        return t[0] in ('ref', 'mem') and t[1][0] == self.OUT and all(x == '*' for x in t[1][1:])

    def bounds(self, v):
        """range of a loop variable"""
        s = v[1]
        if isinstance(s, tuple) and s[0] == 'round':
            c = self.counter(s[1])
            return self.num(c[1]), self.num(c[2])
        return self.irange(self.W.elem[s])

    def irange(self, it):
        kind = it[1]
        if kind == 'enum':
            n = self.ilen(it[2])
            return ZERO, n
        if kind in ('refs', 'vals', 'zip'):
            return ZERO, self.ilen(it)
        return Blocks.irange(self, it)

    def ilen(self, it):
        kind = it[1]
        if kind in ('enum', 'copied', 'rev'):
            return self.ilen(it[2])
        if kind == 'range':
            lo, hi = Blocks.irange(self, it)
            return padd(hi, lo, -1)
        if kind == 'zip':
            a, b = self.ilen(it[2]), self.ilen(it[3])
            if a == b:
                return a
            raise Unknown('lengths of two things walked together')
        if kind == 'vals':
            r = self.region(self.source(it))
            if r[5]:
                return atom(('piece', tuple(sorted(r[5]))))
            return padd(r[2], r[1], -1)
        raise Unknown('length')

    def headof(self, v):
        s = v[1]
        if isinstance(s, tuple):
            return s[1]
        for h in self.A.loops():
            if self.loopsite(h) == s:
                return h
        return None

    def source(self, it):
        """slice behind an iterator over its elements"""
        t = it[2]
        if t[0] == 'phi':
            body = self.A.loops().get(t[1], ())
            init = {v for p, v in self.phis((t[1], t[2])).items() if p not in body}
            if len(init) != 1:
                raise Unknown('iterator')
            t = init.pop()
        return t

    # ------------------------------------------------------------ regions of the output
    def region(self, t):
        """(channel, from, to, lanes, is output) of a slice of a channel"""
        t = strip_at(t)
        if t[0] == 'iter' and t[1] in ('vals', 'refs'):
            return self.region(t[2])
        if t[0] in ('pure', 'call'):
            name = t[1] if t[0] == 'pure' else t[2]
            n = name.split('::')[-1]
            if n in ('channel_mut', 'channel_f32_mut', 'channel', 'channel_f32') and len(t[3]) == 2:
                lanes = 8 if n in ('channel_mut', 'channel') else 1
                return self.num(t[3][1]), ZERO, const(Fraction(64 // lanes)), lanes, self.isout(t[3][0]), set()
            if n in ('index', 'index_mut') and len(t[3]) == 2:
                ch, lo, hi, lanes, o, ls = self.region(t[3][0])
                a, b, l = self.rng(t[3][1], padd(hi, lo, -1))
                return ch, padd(lo, a), padd(lo, b), lanes, o, ls | l
        raise Unknown('slice')

    def rng(self, t, n):
        t = strip_at(t)
        if t[0] == 'agg':
            f = dict(t[4])
            k = t[1].split('::')[-1]
            if k == 'Range':
                return self.chunk(f['start'], f['end'])
            if k == 'RangeTo':
                return ZERO, self.num(f['end']), set()
            if k == 'RangeFrom':
                return self.num(f['start']), n, set()
            if k == 'RangeFull':
                return ZERO, n, set()
        raise Unknown('range')

    def chunk(self, a, b):
        try:
            return self.num(a), self.num(b), set()
        except Unknown:
            # consecutive pieces [i, i + n) with i += n until the end of the block
            for h in self.A.loops():
                g = self.stride(h)
                if g is None:
                    continue
                path, first, stride = g
                self.active.add(h)
                try:
                    lo, hi = self.canon(a), self.canon(b)
                except Choice:
                    continue
                finally:
                    self.active.discard(h)
                me = atom(('phi', h, path))
                if lo == me and padd(hi, lo, -1) == stride:
                    return first, atom('size'), {h}
                if is_const(padd(lo, me, -1)) and is_const(padd(padd(hi, me, -1), stride, -1)):
                    return first, first, {h}     # the pieces do not meet
            raise

    def used(self, p):
        return [a for a in atoms(p) if isinstance(a, tuple) and a[0] == 'v']

    def spread(self, lo, width, scale=1):
        """positions lo..lo+width over all rounds of the loops lo depends on -> (from, to, loops)"""
        loops = set()
        hi = padd(lo, width)
        for _ in range(4):
            vs = self.used(lo)
            if not vs:
                break
            # fastest variable first: its coefficient equals the width
            for v in vs:
                k = P({tuple(x for x in m if x != v): c for m, c in lo if m.count(v) == 1})
                if any(m.count(v) > 1 for m, c in lo):
                    raise Unknown('position')
                if k == width:
                    a, b = self.bounds(v)
                    h = self.headof(v)
                    if h is None:
                        raise Unknown('loop')
                    loops.add(h)
                    if self.used(a) or self.used(b):
                        raise Unknown('loop bounds')
                    lo = psubst(lo, v, a)
                    width = pmul(k, padd(b, a, -1))
                    break
            else:
                # pieces with gaps between them: count the first one
                v = vs[0]
                k = P({tuple(x for x in m if x != v): c for m, c in lo if m.count(v) == 1})
                kn, wn = value(k, 1), value(width, 1)
                if kn is None or wn is None or kn <= wn or not is_const(k) or not is_const(width):
                    raise Unknown('position')
                loops.add(self.headof(v))
                lo = psubst(lo, v, self.bounds(v)[0])
        if self.used(lo):
            raise Unknown('position')
        return lo, padd(lo, width), loops


class Write:
    """blk, channels (lo, hi), samples (lo, hi), loops whose rounds make it up, mixing: reads what it writes"""
    def __init__(self, e, ch, tm, loops, mixing):
        self.e, self.blk, self.ch, self.tm, self.loops, self.mixing = e, e.blk, ch, tm, loops, mixing


def reads_out(B, t):
    """does a value depend on the contents of the output?"""
    for x in B.W.deps(t):
        if isinstance(x, tuple) and x:
            if x[0] == 'at' and x[1][0] == B.OUT:
                return True
            if x[0] == 'mem' and x[1] and x[1][0] == B.OUT:
                return True
            if x[0] == 'mem' and x[1] and x[1][0][0] == 'D' and any(isinstance(y, tuple) and y[:1] == ('ref',) and y[1][:1] == (B.OUT,) for y in B.W.deps(x[1][0][1])):
                return True
    return False


def views(B):
    """local views of parts of the output: path of the local -> (first channel, channels)"""
    out = {}
    for e in B.A.events:
        if e.kind == 'write' and e.val[0] in ('call', 'pure'):
            n = (e.val[1] if e.val[0] == 'pure' else e.val[2]).split('::')[-1]
            if n == 'subset' and len(e.val[3]) == 3 and B.isout(e.val[3][0]):
                out[e.path] = e.val[3][1:]
    return out


def writes(B):
    """(recognised writes, events that may write in ways not understood)"""
    A = B.A
    out, odd = [], []
    vw = views(B)
    for e in A.events:
        try:
            if e.kind == 'call' and e.args:
                m = e.call.m
                a = [strip_at(x) for x in e.args]
                if m in ('process',) and len(a) >= 4:
                    o = a[3]
                    n = B.num(e.args[1])
                    if B.isout(o):
                        out.append(Write(e, (ZERO, B.outs), (ZERO, n), set(), False))
                        continue
                    s = None
                    if o[0] in ('ref', 'mem') and o[1] in vw:
                        s = vw[o[1]]
                    elif o[0] in ('call', 'pure') and (o[1] if o[0] == 'pure' else o[2]).endswith('subset') and B.isout(o[3][0]):
                        s = o[3][1:]
                    else:
                        v = B.W.read(e_state(B, e), o[1]) if o[0] == 'ref' and o[1][0][0] == 'L' else None
                        if v is not None:
                            v = strip_at(v)
                            if v[0] in ('call', 'pure') and (v[1] if v[0] == 'pure' else v[2]).endswith('subset') and B.isout(v[3][0]):
                                s = v[3][1:]
                    if s is not None:
                        lo, hi, loops = B.spread(B.num(s[0]), B.num(s[1]))
                        out.append(Write(e, (lo, hi), (ZERO, n), loops, False))
                    elif touches(B, o):
                        odd.append(e)
                    continue
                if m in WRITE1 and len(a) == 4 and B.isout(a[0]):
                    w = const(Fraction(WRITE1[m]))
                    c0, c1, l1 = B.spread(B.num(a[1]), ONE)
                    t0, t1, l2 = B.spread(B.num(a[2]), ONE)
                    out.append(Write(e, (c0, c1), (pmul(w, t0), pmul(w, t1)), l1 | l2, reads_out(B, e.args[3])))
                    continue
                if m == 'add' and len(a) == 4 and B.isout(a[0]):
                    t0, t1, l2 = B.spread(B.num(a[2]), ONE)
                    e8 = const(Fraction(8))
                    out.append(Write(e, None, (pmul(e8, t0), pmul(e8, t1)), l2, True))
                    continue
                if m in ('fill', 'clone_from_slice', 'copy_from_slice') and len(a) == 2 and touches(B, a[0]):
                    ch, lo, hi, lanes, o, l3 = B.region(a[0])
                    if not o:
                        continue
                    k = const(Fraction(lanes))
                    c0, c1, l1 = B.spread(ch, ONE)
                    t0, t1, l2 = B.spread(lo, padd(hi, lo, -1))
                    out.append(Write(e, (c0, c1), (pmul(k, t0), pmul(k, t1)), l1 | l2 | l3, reads_out(B, e.args[1])))
                    continue
                if m in ('channel_mut', 'channel_f32_mut', 'at_mut', 'subset', 'channels', 'at', 'at_f32', 'channel', 'channel_f32', 'buffer_ref'):
                    continue
                if e.extra and any(q and (q[0] == B.OUT or q[0][0] == 'D' and touches(B, q[0][1])) for _, q in B.W.mutable_args(e.call, e.args)):
                    odd.append(e)
            elif e.kind in ('write', 'fill') and e.path and e.path[0][0] == 'D' and touches(B, e.path[0][1]):
                w = element(B, e)
                if w is not None:
                    out.append(w)
        except Unknown as x:
            if e.kind != 'call':
                if not reads_out_self(B, e):
                    odd.append(e)
            elif e.call.m == 'process' and len(e.args) >= 4 and strip_at(e.args[3])[0] == 'ref' and strip_at(e.args[3])[1][0][0] == 'L':
                v = B.W.read(e_state(B, e), strip_at(e.args[3])[1])
                if v is not None and touches(B, v):
                    odd.append(e)
            elif any(touches(B, y) for y in e.args) and e.call.m != 'add' and not (e.call.m in WRITE1 and reads_out(B, e.args[3])):
                odd.append(e)
    return out, odd


def e_state(B, e):
    return B.W.ins.get(e.blk)


def touches(B, t):
    t = strip_at(t)
    if t[0] == 'elem':
        it = B.W.elem.get(t[1])
        return it is not None and touches_it(B, it)
    return any(isinstance(y, tuple) and y and y[0] in ('ref', 'at') and y[1][:1] == (B.OUT,) for y in B.W.deps(t)) or any(
        isinstance(y, tuple) and len(y) == 3 and y[0] == 'elem' and B.W.elem.get(y[1]) is not None and touches_it(B, B.W.elem[y[1]]) for y in B.W.deps(t))


def touches_it(B, it):
    if not isinstance(it, tuple):
        return False
    if it[:1] == ('iter',):
        if it[1] == 'vals' and it[2][0] == 'phi':
            try:
                return touches_it(B, B.source(it))
            except Unknown:
                return True
        return any(touches_it(B, x) for x in it[2:])
    if it[:1] == ('pure',) and it[1] == 'index':
        return touches_it(B, it[3][0])
    if it[:1] in (('call',), ('pure',)):
        n = it[2] if it[0] == 'call' else it[1]
        if n.split('::')[-1] in ('channel_mut', 'channel_f32_mut') and B.isout(it[3][0]):
            return True
        # an adaptor over something else, such as chunks_mut
        return not n.split('::')[-1] in ('channel', 'channel_f32', 'at', 'at_f32') and any(touches_it(B, x) for x in it[3])
    return False


def element(B, e):
    """write to one element of a slice of the output"""
    t = strip_at(e.path[0][1])
    rest = [x for x in e.path[1:] if x != '*']
    if t[0] in ('call', 'pure') and len(rest) == 1 and rest[0][0] == 'i':
        ch, lo, hi, lanes, o, l3 = B.region(t)
        if not o:
            return None
        if l3:
            raise Unknown('piece')
        k = const(Fraction(lanes))
        c0, c1, l1 = B.spread(ch, ONE)
        t0, t1, l2 = B.spread(padd(lo, B.num(rest[0][1])), ONE)
        return Write(e, (c0, c1), (pmul(k, t0), pmul(k, t1)), l1 | l2, reads_out(B, e.val))
    # element of an iterator
    pj = []
    while t[0] == 'pj':
        pj.insert(0, t[2])
        t = t[1]
    if t[0] == 'elem' and not rest:
        site = t[1]
        it = B.W.elem[site]
        if it[1] == 'vals' and it[2][0] == 'phi':
            it = B.source(it)
        while it[1] in ('zip', 'enum'):
            if it[1] == 'enum':
                if not pj or pj[0] != ('f', '1'):
                    return None
                pj = pj[1:]
                it = it[2]
            else:
                if not pj or pj[0][0] != 'f':
                    raise Unknown('element')
                k = pj[0][1]
                pj = pj[1:]
                n1, n2 = B.ilen(it[2]), B.ilen(it[3])
                it = it[2 + int(k)]
                if not touches_it(B, it):
                    return None
                if n1 != n2:
                    raise Unknown('lengths')
        ch, lo, hi, lanes, o, l3 = B.region(it[2])
        if not o:
            return None
        k = const(Fraction(lanes))
        c0, c1, l1 = B.spread(ch, ONE)
        t0, t1, l2 = B.spread(lo, padd(hi, lo, -1))
        h = B.headof(('v', site))
        if h is None:
            raise Unknown('loop')
        return Write(e, (c0, c1), (pmul(k, t0), pmul(k, t1)), l1 | l2 | l3 | {h}, reads_out_self(B, e))
    raise Unknown('element')


def reads_out_self(B, e):
    return any(isinstance(x, tuple) and x and x[0] == 'mem' and x[1] == e.path for x in B.W.deps(e.val)) or reads_out(B, e.val)


# ------------------------------------------------------------------ decision
def covered_edges(A, blocks, loops, removed=frozenset()):
    """edges behind loops each round of which passes one of the blocks"""
    edges = set(removed)
    B = Blocks(A.ctx, None, A)
    for h, body in sorted(A.loops().items(), key=lambda x: len(x[1])):
        if h not in loops:
            continue
        backs = [b for b in body if h in A.succs(b)]
        r = set()
        for s in A.succs(h):
            if s in body:
                r |= A.reach(s, removed=set(blocks) | {h}, removed_edges=edges)
        if h in blocks or not any(b in r for b in backs):
            s = B.loopsite(h)
            ex = exhaustion_edges(A, h, {s} if s is not None else set())
            edges |= {(b, x) for b in body for x in A.succs(b) if x not in body and ((b, x) in ex or not reaches_ret(A, x))}
    return edges


def avoids(A, ws, removed):
    """can the function return without any of these writes?"""
    blocks = {w.blk for w in ws}
    loops = set().union(*[w.loops for w in ws]) if ws else set()
    edges = covered_edges(A, blocks, loops, removed)
    return A.F.ret in A.reach(A.F.entry, removed=blocks, removed_edges=edges)


def chains(ivs, lo, hi, cap=12):
    """ways to put intervals together to lo..hi"""
    out = []

    def go(cur, used):
        if len(out) >= cap:
            return
        if cur == hi:
            out.append(used)
            return
        for iv in ivs:
            if iv[0] == cur and iv not in used and iv[1] != cur:
                go(iv[1], used + (iv,))
    go(lo, ())
    return out


def is_const(p):
    return all(m == () for m, _ in p)


def value(p, n):
    p = at(p, n)
    if p == ():
        return 0
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def missing(A, ws, outs, n, removed):
    """first (sample range, why) that is not written in a block of n samples, or None"""
    ts = []
    for w in ws:
        a, b = value(w.tm[0], n), value(w.tm[1], n)
        if a is None or b is None:
            raise Unknown('samples')
        ts.append((max(a, 0), min(b, 64), w))
    cuts = sorted({0, n} | {x for a, b, _ in ts for x in (a, b) if 0 < x < n})
    for a, b in zip(cuts, cuts[1:]):
        here = [w for x, y, w in ts if x <= a and y >= b]
        cs = chains(sorted({w.ch for w in here}, key=repr), ZERO, outs)
        if outs == ZERO:
            return None
        if not cs:
            return (a, b), 'no set of writes reaches all output channels'
        for pick in product(*cs):
            sel = [w for w in here if w.ch in pick]
            if avoids(A, sel, removed):
                return (a, b), 'channel(s) %s can be left out' % ', '.join(sorted({'%s..%s' % (show(x[0]), show(x[1])) for x in pick}))
    return None
