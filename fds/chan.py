"""Channel algebra: what each output channel of a component is, as a term over its input channels and
the outputs of its nested components, derived from the dataflow of tick and process.

Index arithmetic is kept as polynomials over arities and loop variables; contents are closed terms:
  ('in', ch)                      input channel ch
  ('ch', child, frame, ch)        output channel ch of a nested component fed with frame
  ('op', name, a, b) ('un', name, a) ('c', v) ('val', term)
  ('acc', op, init, lo, hi, body) fold of body over K in lo..hi, starting from init (None: first element)
  ('it', init, lo, hi, body)      iteration: PREV is the frame produced before
A frame is a tuple of segments (quantifier, lo, hi, content) with content in terms of HASH, the channel."""
from .core import NODE, UNIT, pterm
from .prop import norm_cond, switch_edges
from .terms import strip_at

HASH, K = '#', 'k'


class Unknown(Exception):
    pass


# ------------------------------------------------------------------ polynomials
def P(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=repr))


def const(n):
    return P({(): n})


def atom(a):
    return P({(a,): 1})


def padd(a, b, s=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + s * c
    return P(d)


def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = tuple(sorted(m + n, key=repr))
            d[k] = d.get(k, 0) + c * e
    return P(d)


def psubst(p, at, q):
    out = ()
    for m, c in p:
        n = tuple(x for x in m if x != at)
        t = P({n: c})
        for _ in range(len(m) - len(n)):
            t = pmul(t, q)
        out = padd(out, t)
    return out


def has(p, at):
    return any(at in m for m, _ in p)


def atoms(p):
    return {x for m, _ in p for x in m}


def subst(c, at, q):
    """substitute in a content (or frame)"""
    if isinstance(c, tuple):
        if c and c[0] == 'ch':
            return ('ch', sub_child(c[1], at, q), c[2] if at == HASH else subst_frame(c[2], at, q), psubst(c[3], at, q))
        if c and c[0] == 'in':
            return ('in', psubst(c[1], at, q))
        if c and c[0] == 'rem':
            return ('rem', psubst(c[1], at, q), c[2])
        if c and c[0] == 'acc':
            return ('acc', c[1], None if c[2] is None else subst(c[2], at, q), psubst(c[3], at, q), psubst(c[4], at, q), c[5] if at == K else subst(c[5], at, q))
        if c and c[0] == 'inrem':
            return ('inrem', psubst(c[1], at, q), c[2])
        if c and c[0] == 'prev':
            return ('prev', subst(c[1], at, q), c[2])
        if c and c[0] in ('op', 'un'):
            return c[:2] + tuple(subst(x, at, q) for x in c[2:])
    return c


def sub_child(ch, at, q):
    return (ch[0], None if ch[1] is None else psubst(ch[1], at, q))


def subst_frame(f, at, q):
    return tuple((s[0], psubst(s[1], at, q), psubst(s[2], at, q), subst(s[3], at, q)) for s in f) if isinstance(f, tuple) and f and isinstance(f[0], tuple) and len(f[0]) == 4 else f


def mentions(c, at):
    if c == at:
        return True
    return isinstance(c, tuple) and any(mentions(x, at) for x in c)


COMM = {'Add', 'Mul', 'min', 'max'}


def op(n, a, b):
    if n == 'Div' and b[0] in ('n', 'c'):
        return op('Mul', a, ('un', 'inv', b))
    if n == 'Mul' and a[:1] == ('c',) and a[1] == 1:
        return b
    if n == 'Mul' and b[:1] == ('c',) and b[1] == 1:
        return a
    if n in COMM and repr(b) < repr(a):
        a, b = b, a
    return ('op', n, a, b)


def shift(f, off):
    """the frame whose channel 0 is channel off of f (segments relative to off)"""
    return tuple((s[0], padd(s[1], off, -1), padd(s[2], off, -1), subst(s[3], HASH, padd(atom(HASH), off))) for s in f)


def segs(f):
    return tuple(sorted(f, key=repr))


# ------------------------------------------------------------------ one function
class Chan:
    EQ = {}          # arities that are equal by the bounds of the implementation
    facts = ()       # polynomials known to be non-negative

    def __init__(self, ctx, tr, im, A, eq=()):
        self.EQ = dict(eq)
        self.ctx, self.A, self.W, self.im, self.tr = ctx, A, A.W, im, tr
        self.M = ctx.M
        self.children = {}
        for n, t in self.M.fields(im['self']):
            if t[0] == 'param':
                self.children[n] = (t[1], None)
            elif t[0] == 'adt' and t[1].endswith('NumericArray') and t[2][0][0] == 'param':
                self.children[n] = (t[2][0][1], self.tlen(t[2][1]))
        self.I = self.tlen(self.assoc('Inputs'))
        self.O = self.tlen(self.assoc('Outputs'))

    def assoc(self, n):
        t = self.im['types'].get(n)
        if t is None:
            raise Unknown('no ' + n)
        return t

    def tlen(self, t):
        if t[0] == 'alias':
            n = t[1].split('::')[-1]
            if n in ('Inputs', 'Outputs') and t[2][0][0] == 'param':
                return self.ar(t[2][0][1], '.I' if n == 'Inputs' else '.O')
            if t[1].endswith('Add::Output'):
                return padd(self.tlen(t[2][0]), self.tlen(t[2][1]))
            if t[1].endswith('Sub::Output'):
                return padd(self.tlen(t[2][0]), self.tlen(t[2][1]), -1)
            if t[1].endswith('Mul::Output'):
                return pmul(self.tlen(t[2][0]), self.tlen(t[2][1]))
        if t[0] == 'param':
            return atom(t[1])
        if t[0] == 'adt':
            n = t[1].split('::')[-1]
            if n == 'UTerm':
                return const(0)
            if n == 'UInt':
                return padd(pmul(const(2), self.tlen(t[2][0])), const(1 if t[2][1][1].endswith('B1') else 0))
        raise Unknown('length of ' + repr(t)[:80])

    def ar(self, ty, s):
        n = ty + s
        return atom(self.EQ.get(n, n))

    def child(self, t):
        t = strip_at(t)
        if t[0] == 'mem' or t[0] == 'phi':
            p = t[1] if t[0] == 'mem' else t[2]
        elif t[0] == 'ref':
            p = t[1]
        else:
            raise Unknown('component ' + pterm(t)[:60])
        return self.childpath(p)

    def childpath(self, p):
        if len(p) >= 2 and p[0] == ('P', 1) and p[1][0] == 'f' and p[1][1] in self.children:
            n = p[1][1]
            ty, ln = self.children[n]
            if ln is None and len(p) == 2:
                return ty, (n, None)
            if ln is not None and len(p) == 3 and p[2][0] == 'i':
                return ty, (n, self.poly(p[2][1]))
        raise Unknown('component at ' + repr(p)[:80])

    # -------------------------------------------------------------- indices
    def poly(self, t):
        t = strip_at(t)
        k = t[0]
        if k == 'c' and isinstance(t[1], int):
            return const(int(t[1]))
        if k == 'nc' and t[1].split('::')[-1] in ('USIZE', 'I64', 'U64', 'I32', 'U32', 'ISIZE'):
            return self.tlen(t[2][0])
        if k == 'alen':
            return self.tlen(t[1][2][1])
        if k == 'len' and t[1] == (('P', 2),):
            return self.I
        if k == 'len' and len(t[1]) == 2 and t[1][0] == ('P', 1) and self.children.get(t[1][1][1], (0, None))[1] is not None:
            return self.children[t[1][1][1]][1]
        if k in ('cast',):
            return self.poly(t[2])
        if k == 'conv':
            return self.poly(t[1])
        if k == 'bin' and t[1] in ('Add', 'Sub', 'Mul', 'WAdd', 'WSub', 'WMul'):
            a, b = self.poly(t[2]), self.poly(t[3])
            n = t[1][-3:]
            return padd(a, b) if n == 'Add' else padd(a, b, -1) if n == 'Sub' else pmul(a, b)
        if k == 'bin' and t[1] == 'Shl' and t[3][0] == 'c':
            return pmul(self.poly(t[2]), const(1 << t[3][1]))
        if k == 'elem':
            return self.var(t)
        if k == 'phi':
            r = self.counter(t)
            if r is not None:
                return r
        if k in ('pure', 'call'):
            n = (t[1] if k == 'pure' else t[2]).split('::')[-1]
            a = t[3]
            if n in ('inputs', 'outputs') and len(a) == 1:
                s = strip_at(a[0])
                p = s[1] if s[0] in ('ref', 'mem') else s[2] if s[0] == 'phi' else None
                if p == (('P', 1),):
                    return self.I if n == 'inputs' else self.O
                ty, _ = self.childpath(p)
                return self.ar(ty, '.I' if n == 'inputs' else '.O')
            if n in ('min', 'max') and len(a) == 2:
                return atom((n,) + tuple(sorted((self.poly(a[0]), self.poly(a[1])), key=repr)))
            if n == 'channels':
                s = strip_at(a[0])
                b = self.bufof(a[0])
                if b == ('in', (), None):
                    return self.I
                if b == ('out', (), None):
                    return self.O
        raise Unknown('index ' + pterm(t)[:80])

    def var(self, t):
        it = self.W.elem.get(t[1])
        if it is None or it[0] != 'iter':
            raise Unknown('iterator')
        self.rng(('v', t[1]))
        return padd(atom(('v', t[1])), ())

    def rng(self, v):
        """[lo, hi) of a loop variable"""
        if v[0] == 'v':
            return self.irng(self.W.elem[v[1]])
        raise Unknown('loop')

    def irng(self, it):
        kind = it[1]
        if kind == 'range':
            hi = self.poly(it[3])
            return self.poly(it[2]), padd(hi, const(1)) if len(it) > 4 and it[4] == 'incl' else hi
        if kind == 'refs' or kind == 'vals':
            p = it[2]
            if len(p) == 2 and p[0] == ('P', 1) and p[1][1] in self.children and self.children[p[1][1]][1] is not None:
                return const(0), self.children[p[1][1]][1]
            if p == (('P', 2),):
                return const(0), self.I
            if len(p) == 3 and p[0] == ('P', 1) and p[2][0] == 'sub' and p[1][1] in self.children:
                # positions of a part of a list are absolute in element paths only
                raise Unknown('part of a list')
            raise Unknown('iterator over ' + repr(p)[:60])
        if kind in ('enum', 'copied', 'rev'):
            return self.irng(it[2])
        if kind == 'zip':
            try:
                return self.irng(it[2])
            except Unknown:
                return self.irng(it[3])
        raise Unknown('iterator ' + kind)

    def counter(self, t):
        """phi that grows by a fixed amount in each round of a loop"""
        h = t[1]
        if h not in self.A.loops():
            return None
        body = self.A.loops()[h]
        ops = self.W.phis.get((t[1], t[2]), {})
        init = {v for p, v in ops.items() if p not in body}
        back = {v for p, v in ops.items() if p in body}
        if len(init) != 1 or len(back) != 1:
            return None
        b = self.settle(next(iter(back)), t)
        if b[0] != 'bin' or b[1] not in ('Add', 'WAdd'):
            return None
        step = b[3] if b[2] == t else b[2] if b[3] == t else None
        if step is None:
            return None
        v = self.loopvar(h)
        if v is None:
            return None
        lo, _ = self.rng(v)
        st = self.poly(step)
        if any(isinstance(x, tuple) and x[0] == 'v' for x in atoms(st)):
            return None
        return padd(self.poly(next(iter(init))), pmul(st, padd(atom(v), lo, -1)))

    def settle(self, t, stop):
        """the value behind a net of joins that only pass it on"""
        seen, todo, vals = set(), [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == 'phi' and x != stop and (x[1], x[2]) in self.W.phis:
                todo += list(self.W.phis[(x[1], x[2])].values())
            else:
                vals.add(x)
        return next(iter(vals)) if len(vals) == 1 else t

    def loopvar(self, h):
        """variable of the iterator that drives loop h"""
        body = self.A.loops()[h]
        for b in sorted(body):
            if self.A.innermost(b) != h:
                continue
            t = self.A.F.blocks[b].term
            if t[0] == 'call' and t[1].site in self.W.elem:
                return ('v', t[1].site)
            if t[0] == 'hoswitch' and t[1].site in self.W.elem:
                return ('v', t[1].site)
        return None

    def vars_at(self, b):
        """loop variables around a block, outermost first"""
        out = []
        for h in reversed(self.A.loops_of(b)):
            v = self.loopvar(h)
            if v is None:
                raise Unknown('loop without iterator')
            out.append(v)
        return out

    # -------------------------------------------------------------- frames (sample by sample)
    def whole(self, f, n):
        return ((None, const(0), n, f),)

    def frame(self, t):
        W = self.W
        if t[0] == 'at':
            t = strip_at(t)
        k = t[0]
        if k in ('mem', 'ref'):
            p = t[1]
            if p[0] == ('P', 2):
                if len(p) == 1:
                    return self.whole(('in', atom(HASH)), self.I)
                if len(p) == 2 and p[1][0] == 'sub':
                    lo, hi = self.poly(p[1][1][0]), self.poly(p[1][1][1])
                    return self.whole(('in', padd(atom(HASH), lo)), padd(hi, lo, -1))
            if k == 'ref' and isinstance(p[0], tuple) and p[0][0] == 'D' and len(p) == 1:
                return self.frame(p[0][1])
            raise Unknown('frame at ' + repr(p)[:80])
        if k == 'refval':
            return self.frame(t[1])
        if k in ('pure', 'call'):
            name = t[1] if k == 'pure' else t[2]
            n = name.split('::')[-1]
            a = t[3]
            if n == 'tick' and 'AudioNode' in name or n == 'tick' and len(a) == 2:
                ty, c = self.child(a[0])
                snap = self.snaps.get(t[1]) if k == 'call' else None
                return self.whole(('ch', c, segs(self.frame(snap[1] if snap else a[1])), atom(HASH)), self.ar(ty, '.O'))
            if n == 'frame' and len(a) in (2, 3):
                o = self.obj(a[0])
                s = self.snapof(t)
                fs = [self.frame(x) for x in (s[1:] if s else a[1:])]
                return self.lift(lambda *c: self.trop(o, *c), *fs)
            if n in ('into', 'from', 'clone', 'copied', 'from_slice', 'as_ref', 'deref'):
                return self.frame(a[0])
            if n == 'splat':
                return ((None, None, None, self.chan(a[0])),)
            if n == 'fold':
                return self.fold(t)
        if k == 'splat':
            return ((None, None, None, self.chan(t[1])),)
        if k == 'agg' and t[1] in ('array',) or k == 'array':
            vs = [v for _, v in t[4]] if k == 'agg' else t[1]
            return tuple((None, const(i), const(i + 1), self.chan(v)) for i, v in enumerate(vs))
        if k == 'gen':
            return self.gen(t)
        if k == 'bin':
            return self.lift(lambda a, b: op(t[1], a, b), self.frame(t[2]), self.frame(t[3]))
        if k == 'un':
            return self.lift(lambda a: ('un', t[1], a), self.frame(t[2]))
        if k == 'cast':
            return self.frame(t[2])
        if k == 'conv':
            return self.frame(t[1])
        if k == 'phi':
            return self.loopframe(t)
        if k == 'ovr':
            return self.overlay(t)
        raise Unknown('frame ' + pterm(t)[:80])

    def snapof(self, t):
        """values behind the references of a call, at the time of the call"""
        if t[0] == 'call':
            return self.snaps.get(t[1])
        for s in self.snaps.values():
            if s.args is not None and tuple(s.args) == tuple(t[3]):
                return s
        for e in self.A.calls():
            if tuple(strip_at(x) for x in e.snap) == tuple(strip_at(x) for x in t[3]) or tuple(e.args) == tuple(t[3]):
                return e.snap
        for e in self.A.calls():
            if e.call.name.split('::')[-1] == t[1].split('::')[-1] and e.snap and strip_at(e.snap[0]) == strip_at(t[3][0]):
                return e.snap
        return None

    def obj(self, t):
        t = strip_at(t)
        p = t[1] if t[0] in ('ref', 'mem') else None
        if p is None or p[0] != ('P', 1) or len(p) != 2:
            raise Unknown('operator object')
        return p[1][1]

    def trop(self, o, *c):
        return ('op', 'by ' + o) + c if len(c) == 2 else ('un', 'by ' + o) + c

    def lift(self, f, *fs):
        anyv = [x for x in fs if not (len(x) == 1 and x[0][1] is None)]
        if not anyv:
            return ((None, None, None, f(*[x[0][3] for x in fs])),)
        shape = [(s[0], s[1], s[2]) for s in anyv[0]]
        for x in anyv:
            if [(s[0], s[1], s[2]) for s in x] != shape:
                raise Unknown('shapes')
        return tuple((q, lo, hi, f(*[x[i][3] if not (len(x) == 1 and x[0][1] is None) else x[0][3] for x in fs])) for i, (q, lo, hi) in enumerate(shape))

    def pick(self, f, i):
        """content of channel i of a frame (i is known to be within it)"""
        if len(f) == 1 and f[0][0] is None:
            return subst(f[0][3], HASH, i)
        for q, lo, hi, c in f:
            if q is None and lo is not None and hi == padd(lo, const(1)) and lo == i:
                return c
        raise Unknown('channel of a pieced frame')

    def gen(self, t):
        site = t[1]
        body = self.W.genbody.get(site)
        it = self.W.elem.get(site)
        if body is None or it is None:
            raise Unknown('generator')
        v = ('v', site)
        lo, hi = self.irng(it)
        return self.cases(body, v, lo, hi)

    def cases(self, body, v, lo, hi):
        """segments of a value chosen by comparing the channel number"""
        if body[0] == 'phi' and body[1] not in self.A.loops():
            out = []
            ops = self.W.phis.get((body[1], body[2]), {})
            for pred, val in ops.items():
                l, h = lo, hi
                for e in self.A.events:
                    if e.kind != 'switch' or e.val is None or e.val[0] != 'bin':
                        continue
                    try:
                        a, b = self.poly(e.val[2]), self.poly(e.val[3])
                    except Unknown:
                        continue
                    if not has(a, v) and not has(b, v):
                        continue
                    o = e.val[1]
                    if has(b, v):
                        a, b = b, a
                        o = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(o, o)
                    if a != atom(v):
                        raise Unknown('condition')
                    side = self.side(e, pred, body[1])
                    if side is None:
                        continue
                    if not side:
                        o = {'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le', 'Eq': 'Ne', 'Ne': 'Eq'}[o]
                    if o == 'Lt':
                        h = b
                    elif o == 'Ge':
                        l = b
                    elif o == 'Le':
                        h = padd(b, const(1))
                    elif o == 'Gt':
                        l = padd(b, const(1))
                    elif o == 'Eq':
                        l, h = b, padd(b, const(1))
                    elif o == 'Ne' and b == l:
                        l = padd(l, const(1))
                    elif o == 'Ne' and padd(b, const(1)) == h:
                        h = b
                    else:
                        raise Unknown('condition')
                out += list(self.cases(val, v, l, h))
            return tuple(out)
        return ((None, lo, hi, subst(self.chan(body), v, atom(HASH))),)

    def side(self, e, pred, join):
        """which outcome of the switch leads to the edge pred -> join (None: both)"""
        A = self.A
        t, f = set(), set()
        for val, tgt in switch_edges(A.F.blocks[e.blk].term):
            (f if val == 0 else t).add((e.blk, tgt))
        viat = pred in A.reach(A.F.entry, removed_edges=f) and (pred, join) not in f
        viaf = pred in A.reach(A.F.entry, removed_edges=t) and (pred, join) not in t
        return None if viat == viaf else viat

    def fold(self, t):
        a = t[3]
        it, init = a[0], a[1]
        site = t[1]
        if it[0] != 'iter':
            raise Unknown('fold')
        lo, hi = self.irng(it)
        body = self.W.genbody.get(site)
        if body is None:
            raise Unknown('fold')
        prev = ('hoarg', site, 0)
        return self.accum(self.frame(init), body, prev, ('v', site), lo, hi)

    def accum(self, init, body, prev, v, lo, hi):
        """value after the loop of prev -> body"""
        if body[0] in ('bin',) and prev in (body[2], body[3]):
            x = body[3] if body[2] == prev else body[2]
            if body[1] not in COMM and body[2] != prev:
                raise Unknown('order of accumulation')
            f = self.frame(x)
            n = body[1]
        else:
            f, n = None, None
            if body[0] in ('pure', 'call'):
                name = body[1] if body[0] == 'pure' else body[2]
                s = self.snapof(body)
                if name.split('::')[-1] == 'frame' and s and strip_at(s[1]) == prev:
                    f, n = self.frame(s[2]), 'by ' + self.obj(s[0])
        if f is None:
            raise Unknown('accumulation ' + pterm(body)[:60])
        return self.lift(lambda a, b: acc(n, a, lo, hi, subst(b, v, atom(K))), init, f)

    def loopframe(self, t):
        """a frame carried around a loop"""
        A, W = self.A, self.W
        h = t[1]
        if h not in A.loops():
            ops = {v for v in W.phis.get((t[1], t[2]), {}).values()}
            if len(ops) == 1:
                return self.frame(next(iter(ops)))
            raise Unknown('frame chosen by a condition')
        v = self.loopvar(h)
        if v is None:
            raise Unknown('loop')
        lo, hi = self.rng(v)
        body = A.loops()[h]
        ops = W.phis.get((t[1], t[2]), {})
        init = {x for p, x in ops.items() if p not in body}
        back = [(p, x) for p, x in ops.items() if p in body]
        if len(init) != 1 or len(back) != 1:
            raise Unknown('loop')
        init = next(iter(init))
        val = back[0][1]
        # alternatives inside the body: the first round may be special
        if val[0] == 'phi' and val[1] not in A.loops():
            first, rest = None, None
            for pred, x in W.phis.get((val[1], val[2]), {}).items():
                which = self.first_round(pred, val[1], v, lo)
                if which is True:
                    first = x
                elif which is False:
                    rest = x
            if first is None or rest is None:
                raise Unknown('loop with a condition')
            f0 = self.frame(first)
            f0 = tuple((q, a, b, subst(c, v, lo)) for q, a, b, c in f0)
            return self.accum(f0, rest, t, v, padd(lo, const(1)), hi)
        try:
            return self.accum(self.frame(init), val, t, v, lo, hi)
        except Unknown:
            pass
        # iteration: each round consumes the frame of the round before
        if val[0] == 'call' and val[2].split('::')[-1] == 'tick':
            ty, c = self.child(val[3][0])
            snap = self.snaps[val[1]][1]
            if self.same_frame(snap, t):
                f0 = self.frame(init)
                return tuple((q, a, b, ('it', x, lo, hi, sub_child(c, v, atom(K)))) for q, a, b, x in f0)
        raise Unknown('loop')

    def same_frame(self, x, t):
        x = strip_at(x)
        if x == t:
            return True
        if x[0] == 'gen':
            b = self.W.genbody.get(x[1])
            return b is not None and b[0] == 'pj' and b[1] == t and b[2] == ('i', ('elem', x[1], ()))
        if x[0] == 'pure' and x[1].split('::')[-1] in ('clone', 'into', 'from'):
            return self.same_frame(x[3][0], t)
        return False

    def first_round(self, pred, join, v, lo):
        """is the edge taken in the first round only (True), in later rounds only (False)?"""
        for e in self.A.events:
            if e.kind == 'switch' and e.val is not None and e.val[0] == 'bin':
                try:
                    a, b = self.poly(e.val[2]), self.poly(e.val[3])
                except Unknown:
                    continue
                o = e.val[1]
                if b == atom(v):
                    a, b = b, a
                    o = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(o, o)
                if a != atom(v) or b != lo:
                    continue
                s = self.side(e, pred, join)
                if s is None:
                    continue
                r = {'Eq': True, 'Ne': False, 'Gt': False, 'Le': True}.get(o)
                if r is None:
                    continue
                return r if s else not r
        return None

    def overlay(self, t):
        """a local frame filled piece by piece"""
        out = []
        for path, val in t[2]:
            if len(path) != 1 or val[0] != 'phi' or val[1] not in self.A.loops():
                raise Unknown('overlay')
            root = val[2][:1]
            if path[0][0] == 'sub':
                n = 0
                for e in self.A.calls():
                    if e.call.name.split('::')[-1] not in ('copy_from_slice', 'clone_from_slice'):
                        continue
                    d = strip_at(e.args[0])
                    if d[0] == 'ref' and d[1][:1] == root and d[1][1:] == path:
                        lo, hi = (self.poly(x) for x in path[0][1])
                        f = self.frame(e.snap[1])
                        if len(f) != 1:
                            raise Unknown('overlay')
                        out.append(self.quant(e.blk, lo, hi, subst(f[0][3], HASH, padd(atom(HASH), lo, -1))))
                        n += 1
                if n != 1:
                    raise Unknown('overlay')
            elif path[0][0] == 'i':
                h = val[1]
                body = self.A.loops()[h]
                back = {x for p, x in self.W.phis.get((h, val[2]), {}).items() if p in body}
                v = self.loopvar(h)
                if len(back) != 1 or v is None:
                    raise Unknown('overlay')
                c = self.chan(next(iter(back)))
                at = self.poly(path[0][1])
                a = padd(at, atom(v), -1)
                if has(a, v):
                    raise Unknown('overlay')
                lo, hi = self.rng(v)
                out.append((None, padd(lo, a), padd(hi, a), subst(c, v, padd(atom(HASH), a, -1))))
            else:
                raise Unknown('overlay')
        return tuple(out)

    def quant(self, b, lo, hi, c):
        """segment written in every round of the loops around block b"""
        vs = [v for v in self.vars_at(b)]
        q = None
        for v in vs:
            if mentions((lo, hi, c), v):
                if q is not None:
                    raise Unknown('loops')
                l, h = self.rng(v)
                q = (l, h)
                lo, hi, c = psubst(lo, v, atom(K)), psubst(hi, v, atom(K)), subst(c, v, atom(K))
        return (q, lo, hi, c)

    # -------------------------------------------------------------- one channel
    def chan(self, t):
        t = strip_at(t)
        k = t[0]
        if k == 'c':
            return ('c', t[1])
        if k == 'pj' and t[2][0] == 'i':
            try:
                i = self.poly(t[2][1])
            except Unknown:
                return self.pickrem(self.frame(t[1]), t[2][1])
            return self.pick(self.frame(t[1]), i)
        if k == 'mem' and t[1][0] == ('P', 2) and len(t[1]) == 2 and t[1][1][0] == 'i':
            return self.inp(t[1][1][1])
        if k == 'bin':
            return op(t[1], self.chan(t[2]), self.chan(t[3]))
        if k == 'un':
            return ('un', t[1], self.chan(t[2]))
        if k in ('cast', 'conv'):
            return self.chan(t[2] if k == 'cast' else t[1])
        if k == 'nc':
            return ('n', self.poly(t))
        if k == 'splat':
            return self.chan(t[1])
        if k in ('pure', 'call'):
            name = t[1] if k == 'pure' else t[2]
            n = name.split('::')[-1]
            a = t[3]
            if n in ('splat', 'into', 'from', 'clone'):
                return self.chan(a[0])
            if n in ('binop', 'unop'):
                o = self.obj(a[0])
                return self.trop(o, *[self.chan(x) for x in a[1:]])
            if n in ('at', 'at_f32') and name.startswith('buffer::'):
                return self.bufread(t, a)
        if k == 'phi':
            return self.loopchan(t)
        raise Unknown('value ' + pterm(t)[:80])

    def inp(self, i):
        try:
            return ('in', self.poly(i))
        except Unknown:
            i = strip_at(i)
            if i[0] == 'bin' and i[1] == 'Rem':
                return ('inrem', self.poly(i[2]), self.poly(i[3]))
            raise

    def pickrem(self, f, i):
        raise Unknown('index')

    def loopchan(self, t):
        A = self.A
        h = t[1]
        if h not in A.loops():
            raise Unknown('value chosen by a condition')
        v = self.loopvar(h)
        if v is None:
            raise Unknown('loop')
        lo, hi = self.rng(v)
        body = A.loops()[h]
        ops = self.W.phis.get((t[1], t[2]), {})
        init = {x for p, x in ops.items() if p not in body}
        back = {x for p, x in ops.items() if p in body}
        if len(init) == 1 and len(back) == 1:
            b = next(iter(back))
            if b[0] == 'bin' and b[1] == 'Add' and t in (b[2], b[3]):
                x = b[3] if b[2] == t else b[2]
                return acc('Add', self.chan(next(iter(init))), lo, hi, subst(self.chan(x), v, atom(K)))
        raise Unknown('value in a loop')

    # -------------------------------------------------------------- blocks
    @property
    def snaps(self):
        if not hasattr(self, '_snaps'):
            class S(tuple):
                args = None
            self._snaps = {}
            for e in self.A.calls():
                s = S(e.snap)
                s.args = e.args
                self._snaps[e.call.site] = s
        return self._snaps

    def bufof(self, t, depth=0):
        """(buffer, offset, length) of a view"""
        if depth > 8:
            raise Unknown('view')
        t0 = t
        t = strip_at(t)
        k = t[0]
        if k in ('pure', 'call'):
            name = t[1] if k == 'pure' else t[2]
            n = name.split('::')[-1]
            if name.startswith('buffer::') and n in ('subset', 'buffer_mut', 'buffer_ref'):
                a = t[3]
                b, off, ln = self.bufof(a[0], depth + 1)
                if n != 'subset':
                    return b, off, ln
                return b, padd(off, self.poly(a[1])), self.poly(a[2])
        if t0[0] == 'at' and k in ('mem', 'phi'):
            p = t[1] if k == 'mem' else t[2]
        elif t0[0] == 'at' and t0[1][0][0] == 'L':
            p = t0[1]
        elif k == 'ref':
            p = t[1]
        elif k in ('mem', 'phi'):
            p = t[1] if k == 'mem' else t[2]
        else:
            raise Unknown('view ' + pterm(t)[:60])
        if p == (('P', 3),):
            return ('in', (), None)
        if p == (('P', 4),):
            return ('out', (), None)
        if len(p) == 1 and p[0][0] == 'L':
            return (('tmp', p[0]), (), None)
        if len(p) == 1 and p[0][0] == 'D':
            return self.bufof(p[0][1], depth + 1)
        raise Unknown('view ' + repr(p)[:60])

    def paths(self):
        """alternatives of the conditions outside loops: (facts, blocks not reached)"""
        A = self.A
        sw = []
        for e in A.events:
            if e.kind == 'switch' and not A.loops_of(e.blk):
                t, f = set(), set()
                for val, tgt in switch_edges(A.F.blocks[e.blk].term):
                    (f if val == 0 else t).add((e.blk, tgt))
                if e.val[0] in ('discr',):
                    continue
                if all(not set(A.retblocks()) & A.reach(x[1]) for x in t) or all(not set(A.retblocks()) & A.reach(x[1]) for x in f):
                    continue   # an assertion
                sw.append((e, t, f))
        out = [((), set())]
        for e, t, f in sw:
            nxt = []
            for facts, rem in out:
                if e.blk not in A.reach(A.F.entry, removed_edges=rem):
                    nxt.append((facts, rem))
                    continue
                nxt.append((facts + ((e, True),), rem | f))
                nxt.append((facts + ((e, False),), rem | t))
            out = nxt
            if len(out) > 16:
                raise Unknown('conditions')
        return out

    def parity(self, t):
        """remainder by two as a set of atoms (sum modulo two)"""
        t = strip_at(t)
        if t[0] == 'bin' and t[1] in ('BitXor', 'Add', 'Sub', 'WAdd', 'WSub'):
            return self.parity(t[2]) ^ self.parity(t[3])
        if t[0] == 'bin' and t[1] == 'BitAnd' and ('c', 1) in (t[2], t[3]):
            return self.parity(t[3] if t[2] == ('c', 1) else t[2])
        if t[0] == 'bin' and t[1] == 'Rem' and t[3] == ('c', 2):
            return self.parity(t[2])
        out = frozenset()
        for m, c in self.poly(t):
            if c % 2:
                if len(m) > 1:
                    raise Unknown('parity')
                out ^= {m[0] if m else 1}
        return out

    def parity_cond(self, e):
        """set of atoms whose sum is odd exactly when the condition of the switch holds"""
        c, neg = e.val, False
        while c[0] == 'un' and c[1] == 'Not':
            c, neg = c[2], not neg
        if c[0] == 'bin' and c[1] in ('Gt', 'Ne', 'Eq', 'Lt', 'Ge', 'Le'):
            o, a, b = c[1], c[2], c[3]
            if a[0] == 'c':
                a, b = b, a
                o = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(o, o)
            if not (a[0] == 'bin' and (a[1] == 'BitAnd' and ('c', 1) in (a[2], a[3]) or a[1] == 'Rem' and a[3] == ('c', 2))):
                raise Unknown('parity')
            odd = {('Gt', 0): True, ('Ne', 0): True, ('Eq', 1): True, ('Ge', 1): True, ('Eq', 0): False, ('Ne', 1): False, ('Lt', 1): False, ('Le', 0): False}.get((o, b[1]) if b[0] == 'c' else None)
            if odd is None:
                raise Unknown('parity')
            p = self.parity(a)
            return p if odd != neg else p ^ {1}
        raise Unknown('parity')

    def pingpong(self):
        """a series of components rendered through two buffers in turn"""
        A = self.A
        first, loop, = [], []
        for e in A.calls():
            nm = e.call.rname or e.call.name
            if e.call.m == 'process' and e.call.trait in (NODE, UNIT):
                (loop if A.loops_of(e.blk) else first).append(e)
            elif nm.startswith('buffer::') and nm.split('::')[-1] not in ('uninitialized', 'new', 'buffer_mut', 'buffer_ref', 'channels'):
                raise Unknown('other buffer access')
        if len(first) != 2 or len(loop) != 2:
            raise Unknown('series')
        def side(e):
            for s in A.events:
                if s.kind != 'switch' or not A.dominates(s.blk, e.blk) or s.val is None:
                    continue
                try:
                    p = self.parity_cond(s)
                except Unknown:
                    continue
                for val, tgt in switch_edges(A.F.blocks[s.blk].term):
                    if A.dominates(tgt, e.blk):
                        return p if val != 0 else p ^ {1}
            raise Unknown('condition of a round')
        def uses(e):
            ty, c = self.childpath(strip_at(e.args[0])[1]) if strip_at(e.args[0])[0] == 'ref' else self.child(e.snap[0])
            i, o = self.bufof(e.snap[2]), self.bufof(e.snap[3])
            if i[1] or o[1]:
                raise Unknown('part of a buffer')
            return c, i[0], o[0], side(e)
        f, l = [uses(e) for e in first], [uses(e) for e in loop]
        v = self.vars_at(loop[0].blk)
        if len(v) != 1 or self.vars_at(loop[1].blk) != v:
            raise Unknown('loops')
        v = v[0]
        lo, hi = self.rng(v)
        tmp = {x[2] for x in f + l} | {x[1] for x in f + l}
        tmp -= {'in', 'out'}
        if len(tmp) != 1:
            raise Unknown('buffers')
        tmp = tmp.pop()
        bad = []
        if lo != const(1):
            bad.append('rounds start at %s' % showp(lo))
        for c, i, o, p in f:
            if c[1] != const(0) or i != 'in':
                bad.append('the first component is not given the input')
        for c, i, o, p in l:
            if c[1] != atom(v):
                bad.append('component of a round is %s' % showp(c[1]))
            if {i, o} != {'out', tmp}:
                bad.append('a round does not read one buffer and write the other')
        # parity of the rounds that write the output
        def outp(rows):
            w = [x for x in rows if x[2] == 'out']
            z = [x for x in rows if x[2] == tmp]
            if len(w) != 1 or len(z) != 1:
                return None
            if w[0][3] ^ z[0][3] != frozenset([1]):
                raise Unknown('conditions of a round')
            return w[0][3]
        a, b = outp(f), outp(l)
        if a is None or b is None:
            bad.append('the rounds do not alternate')
            return bad
        if v not in b:
            bad.append('the buffers do not alternate')
        ev = lambda s, q: (s - {v}) ^ (q if v in s else frozenset())
        par = lambda p: frozenset().union() if not p else frozenset(x for m, c in p if c % 2 for x in ((m[0] if m else 1),))
        if ev(b, frozenset()) != a:
            bad.append('the second component does not read what the first wrote')
        last = par(padd(hi, const(1), -1))
        if ev(b, last) != frozenset([1]):
            bad.append('the last component does not write the output')
        return bad

    def learn(self, facts):
        """polynomials that are not negative under these outcomes; equalities"""
        pos, zero = [], []
        for e, side in facts:
            c = e.val
            while c[0] == 'un' and c[1] == 'Not':
                c, side = c[2], not side
            if c[0] != 'bin':
                continue
            try:
                a, b = self.poly(c[2]), self.poly(c[3])
            except Unknown:
                continue
            o = c[1] if side else {'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le', 'Eq': 'Ne', 'Ne': 'Eq'}.get(c[1])
            d = padd(a, b, -1)
            n = padd(b, a, -1)
            if o == 'Lt':
                pos.append(padd(n, const(1), -1))
            elif o == 'Le':
                pos.append(n)
            elif o == 'Gt':
                pos.append(padd(d, const(1), -1))
            elif o == 'Ge':
                pos.append(d)
            elif o == 'Eq':
                pos += [d, n]
                zero.append(d)
        return tuple(pos), tuple(zero)

    def blocks(self, rem, facts=()):
        """final contents of the output along one alternative"""
        A = self.A
        self.facts, self.zero = self.learn(facts)
        live = A.reach(A.F.entry, removed_edges=rem)
        order = rpo(A, rem)
        pos = {b: i for i, b in enumerate(order)}
        evs = sorted((e for e in A.events if e.blk in live and e.kind in ('call', 'write', 'fill')), key=lambda e: pos[e.blk])
        self.rec = []      # (buffer, loop variables, lo, hi, content)
        self.calls = []
        for e in evs:
            self.step(e)
        return self.final('out')

    def step(self, e):
        if e.kind != 'call':
            if e.path and e.path[0] in (('P', 3), ('P', 4)):
                raise Unknown('direct write to a buffer')
            if e.path and isinstance(e.path[0], tuple) and e.path[0][0] == 'D':
                raise Unknown('write through a reference')
            return
        name = e.call.rname if getattr(e.call, 'rname', None) else e.call.name
        n = name.split('::')[-1]
        if e.call.m == 'process' and e.call.trait in (NODE, UNIT):
            ty, c = self.childpath(strip_at(e.args[0])[1]) if strip_at(e.args[0])[0] == 'ref' else self.child(e.snap[0])
            self.calls.append((c, e))
            fin = self.view(e.snap[2], e, self.ar(ty, '.I'))
            b, off, ln = self.bufof(e.snap[3])
            n_ = self.ar(ty, '.O')
            self.write(e, b, off, padd(off, n_), ('ch', c, segs(fin), padd(atom(HASH), off, -1)))
            return
        if not name.startswith('buffer::'):
            if e.extra and any(strip_at(x)[0] in ('ref',) and strip_at(x)[1][0] in (('P', 4),) for x in e.args):
                raise Unknown('call on the output: ' + n)
            if n in ('copy_from_slice', 'clone_from_slice', 'fill', 'swap', 'copy_within', 'rotate_left', 'rotate_right') :
                raise Unknown('slice operation')
            return
        if n in ('set', 'add', 'set_f32'):
            b, off, _ = self.bufof(e.snap[0])
            m = strip_at(e.args[1])
            if n == 'add' and m[0] == 'bin' and m[1] == 'Rem' and not off:
                return self.addrem(e, b, m)
            ch = padd(off, self.poly(e.args[1]))
            self.sample = strip_at(e.args[2])
            self.ev = e
            val = self.chan(e.args[3])
            if n == 'add':
                val = op('Add', self.lookup(b, ch, e), val)
            self.write1(e, b, ch, val)
        elif n in ('channel_mut', 'channel_f32_mut', 'at_mut', 'clear', 'channel', 'channel_f32'):
            raise Unknown('slice access')

    def addrem(self, e, b, m):
        """channels dealt out in turn: b[c mod m] += value(c) for every c of a whole number of turns"""
        v, n = self.poly(m[2]), self.poly(m[3])
        if len(v) != 1 or len(v[0][0]) != 1 or v[0][1] != 1 or len(n) != 1:
            raise Unknown('dealing')
        v = v[0][0][0]
        if v not in self.vars_at(e.blk):
            raise Unknown('dealing')
        lo, hi = (quot(x, n) for x in self.rng(v))
        self.sample = strip_at(e.args[2])
        self.ev = e
        val = self.chan(e.args[3])
        if [x for x in self.vars_at(e.blk) if x != v and not self.is_sample(x)]:
            raise Unknown('dealing')
        mine = [x for x in self.rec if x[0] == b]
        if len(mine) != 1 or mine[0][1] or (mine[0][2], mine[0][3]) != (const(0), n):
            raise Unknown('dealing')
        body = subst(val, v, padd(atom(HASH), pmul(n, atom(K))))
        self.rec.remove(mine[0])
        self.rec.append((b, (), const(0), n, acc('Add', mine[0][4], lo, hi, body)))

    def view(self, t, e, n):
        b, off, ln = self.bufof(t)
        c = self.lookup(b, padd(off, atom(HASH)), e, (padd(off, const(0)), padd(off, ln if ln is not None else n)))
        if ln is not None and ln != n:
            return ((None, const(0), ln, c),)
        return ((None, const(0), n, c),)

    def bufread(self, t, a):
        if strip_at(a[2]) != self.sample:
            raise Unknown('samples of different times')
        b, off, _ = self.bufof(a[0])
        if b == 'in':
            try:
                return ('in', padd(off, self.poly(a[1])))
            except Unknown:
                return self.inp(a[1])
        return self.lookup(b, padd(off, self.poly(a[1])), self.ev)

    def write1(self, e, b, ch, val):
        """one channel, perhaps in a loop over channels"""
        vs = [v for v in self.vars_at(e.blk) if not self.is_sample(v)]
        cv = [v for v in vs if has(ch, v)]
        if len(cv) > 1:
            raise Unknown('channel index')
        if not cv:
            self.write(e, b, ch, padd(ch, const(1)), val, vs)
            return
        v = cv[0]
        a = padd(ch, atom(v), -1)
        if has(a, v):
            raise Unknown('channel index')
        lo, hi = self.rng(v)
        self.write(e, b, padd(lo, a), padd(hi, a), subst(val, v, padd(atom(HASH), a, -1)), [x for x in vs if x != v])

    def is_sample(self, v):
        return strip_at(('elem', v[1], ())) == self.sample or ('elem', v[1]) == tuple(self.sample[:2])

    def write(self, e, b, lo, hi, c, vs=None):
        vs = self.vars_at(e.blk) if vs is None else vs
        self.rec.append((b, tuple(vs), lo, hi, c))

    def lookup(self, b, ch, e, rng=None):
        """content of channel ch of buffer b just before event e"""
        if b == 'in':
            return ('in', ch)
        vs = [v for v in self.vars_at(e.blk)]
        # range of channels asked for
        if rng is None:
            cv = [v for v in vs if has(ch, v)]
            l = h = ch
            for v in cv:
                lo, hi = self.rng(v)
                l, h = psubst(l, v, lo), psubst(h, v, padd(hi, const(1), -1))
            rng = (l, padd(h, const(1)))
        outer = [v for v in vs if not has(ch, v)]
        for (b2, vs2, lo, hi, c) in reversed(self.rec):
            if b2 != b:
                continue
            if rng[0] == hi or rng[1] == lo:
                continue
            if (lo, hi) != tuple(rng) and not self.within(rng, (lo, hi)):
                if not self.facts and all(not isinstance(x, tuple) for p in tuple(rng) + (lo, hi) for x in atoms(p)) and padd(rng[0], lo, -1) == () and not has_neg(rng[1]) and not has_neg(hi):
                    return ('unwritten', padd(rng[1], hi, -1))
                raise Unknown('part of what was written')
            if all(v in vs for v in vs2):
                # written in this round (or before the loop)
                carried = [v for v in vs if v not in vs2 and self.writes_later(b, v, e) and not has(ch, v)]
                if carried:
                    if len(carried) > 1:
                        raise Unknown('loops')
                    return ('prev', subst(c, HASH, ch), carried[0])
                return subst(c, HASH, ch)
            raise Unknown('written in another loop')
        raise Unknown('read before written')

    def writes_later(self, b, v, e):
        """does the loop of v write the buffer at or after event e?"""
        for h in self.A.loops():
            if self.loopvar(h) == v:
                body = self.A.loops()[h]
                for x in self.A.calls():
                    if x.blk in body:
                        nm = (x.call.rname or x.call.name)
                        if nm.startswith('buffer::') and nm.split('::')[-1] in ('set', 'add', 'set_f32'):
                            if self.bufof(x.snap[0])[0] == b:
                                return not self.is_sample(v) and not self.chan_loop(v, x)
                        elif x.call.m == 'process' and x.call.trait in (NODE, UNIT):
                            if self.bufof(x.snap[3])[0] == b:
                                return True
        return False

    def chan_loop(self, v, x):
        try:
            return has(self.poly(x.args[1]), v)
        except Unknown:
            return False

    def le(self, a, b):
        d = padd(b, a, -1)
        for f in ((),) + tuple(self.facts):
            x = padd(d, f, -1)
            if all(c >= 0 for _, c in x):
                return True
        return False

    def le_facts(self, facts, a, b):
        self.facts = facts
        return self.le(a, b)

    def within(self, a, b):
        return within(a, b) or self.le(b[0], a[0]) and self.le(a[1], b[1])

    def final(self, b):
        out = []
        for (b2, vs, lo, hi, c) in self.rec:
            if b2 != b:
                continue
            if c[0] == 'op' and any(isinstance(x, tuple) and x[0] == 'prev' for x in c[2:]):
                i = 2 if isinstance(c[2], tuple) and c[2][0] == 'prev' else 3
                prev, x = c[i], c[5 - i]
                if c[1] not in COMM and i != 2:
                    c = (c[0], c[1] + ' (operands exchanged)') + c[2:]
                v = prev[2]
                if len(vs) != 1 or vs[0] != v:
                    raise Unknown('accumulation in loops')
                l, h = self.rng(v)
                c = acc(c[1], prev[1], l, h, subst(x, v, atom(K)))
                q = None
            else:
                if mentions(c, 'prev'):
                    raise Unknown('carried value')
                q = None
                if len(vs) > 1:
                    raise Unknown('loops')
                if vs:
                    v = vs[0]
                    if not mentions((lo, hi, c), v):
                        raise Unknown('overwritten in a loop')
                    q = self.rng(v)
                    lo, hi, c = psubst(lo, v, atom(K)), psubst(hi, v, atom(K)), subst(c, v, atom(K))
            # later writes replace earlier ones of the same range
            out = [s for s in out if (s[1], s[2]) != (lo, hi) or s[0] != q]
            for s in out:
                if not (s[2] == lo or s[1] == hi):
                    if not disjoint(s, (q, lo, hi)) and s[3][0] == 'c':
                        raise Unknown('overlapping writes')
            out.append((q, lo, hi, c))
        return tuple(out)


def has_neg(p):
    return any(c < 0 for _, c in p)


def quot(p, n):
    """p / n for a monomial n"""
    (m, c), = n
    d = {}
    for k, e in p:
        k = list(k)
        for x in m:
            if x not in k:
                raise Unknown('division')
            k.remove(x)
        if e % c:
            raise Unknown('division')
        d[tuple(k)] = e // c
    return P(d)


def within(a, b):
    """[a0, a1) is inside [b0, b1): the starts agree and the end is a minimum with the other end"""
    if a[0] != b[0]:
        return False
    d = [x for x in atoms(a[1]) if isinstance(x, tuple) and x[0] == 'min']
    return len(d) == 1 and a[1] == atom(d[0]) and b[1] in d[0][1:]


def disjoint(s, t):
    d = padd(t[1], s[2], -1)
    e = padd(s[1], t[2], -1)
    return all(c >= 0 for _, c in d) or all(c >= 0 for _, c in e)


def acc(n, init, lo, hi, body):
    """canonical accumulation"""
    if init is not None:
        one = padd(lo, const(1), -1)
        if subst(body, K, one) == init:
            return acc(n, None, one, hi, body)
        if n == 'Add' and init[0] == 'c' and init[1] == 0:
            return acc(n, None, lo, hi, body)
    if n == 'Add' and body[0] == 'op' and body[1] == 'Mul':
        for i in (2, 3):
            if not mentions(body[i], K) and init is None:
                return op('Mul', body[i], acc(n, None, lo, hi, body[5 - i]))
    return ('acc', n, init, lo, hi, body)


def rpo(A, rem):
    seen, out = set(), []
    st = [(A.F.entry, iter(A.succs(A.F.entry)))]
    seen.add(A.F.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen and (b, s) not in rem:
                seen.add(s)
                st.append((s, iter(A.succs(s))))
                break
        else:
            out.append(b)
            st.pop()
    return out[::-1]


def show(c):
    if isinstance(c, tuple):
        if c and c[0] == 'in':
            return 'input[%s]' % showp(c[1])
        if c and c[0] == 'inrem':
            return 'input[%s mod %s]' % (showp(c[1]), showp(c[2]))
        if c and c[0] == 'ch':
            return '%s%s(%s)[%s]' % (c[1][0], '' if c[1][1] is None else '[%s]' % showp(c[1][1]), showf(c[2]), showp(c[3]))
        if c and c[0] == 'op':
            if len(c) != 4:
                return c[1] + ''.join('[%s]' % show(x) for x in c[2:])
            return '(%s %s %s)' % (show(c[2]), c[1], show(c[3]))
        if c and c[0] == 'q':
            return '(%s) / (%s)' % (showp(c[1]), showp(c[2]))
        if c and c[0] == 'lin':
            return 'linear(%s, %s)' % (show(c[3]), show(c[4]))
        if c and c[0] == 'val':
            return c[1]
        if c and c[0] == 'un':
            return '%s(%s)' % (c[1], show(c[2]))
        if c and c[0] == 'acc':
            return 'fold %s%s over k in %s..%s of %s' % (c[1], '' if c[2] is None else ' from ' + show(c[2]), showp(c[3]), showp(c[4]), show(c[5]))
        if c and c[0] == 'it':
            return 'iterate %s over k in %s..%s from %s' % (c[4][0], showp(c[2]), showp(c[3]), show(c[1]))
        if c and c[0] == 'n':
            return showp(c[1])
        if c and c[0] == 'unwritten':
            return '(buffer content beyond what was written: %s channels more)' % showp(c[1])
        if c and c[0] == 'c':
            return str(c[1])
    return str(c)


def showp(p):
    if p is None:
        return '*'
    if not p:
        return '0'
    s = ' + '.join(('%d' % c if not m else ('' if c == 1 else '-' if c == -1 else '%d*' % c) + '*'.join(x if isinstance(x, str) else '%s(%s)' % (x[0], ', '.join(showp(y) if isinstance(y, tuple) else str(y) for y in x[1:])) for x in m)) for m, c in p)
    return s.replace('+ -', '- ')


def showf(f):
    if len(f) == 1 and f[0][3] == ('in', atom(HASH)):
        return 'input[..%s]' % showp(f[0][2])
    return '; '.join('%s%s..%s: %s' % ('' if s[0] is None else 'for k in %s..%s ' % (showp(s[0][0]), showp(s[0][1])), showp(s[1]), showp(s[2]), show(s[3])) for s in f)
