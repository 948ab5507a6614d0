"""Signal routing analysis as a channel algebra: what each entry of the frame returned by route() is, as a
term over entries of the given frame and results of nested components. Frames are objects named by the
call that makes them; set, resize and fill change them."""
from .core import An, pterm
from .terms import strip_at
from .chan import (Chan, Unknown, atom, const, padd, pmul, psubst, has, subst, HASH, K, op, segs, rpo, mentions, sub_child, acc)
from .prop import norm_cond

OPERATORS = ('audionode::FrameBinop', 'audionode::FrameUnop')
UNKNOWN = ('c', 'unknown')


def method(ctx, tr, im, m='route'):
    """the method with frame and signal operations kept as calls"""
    key = ('sig', tr, im['id'], m)
    if key not in ctx._cache:
        r = ctx.M.trait_method(tr, m, im['trait_args'])
        base = ctx.mkleaf(im['self'])
        leaf = lambda F, fr, fo, fn, args, t: base(F, fr, fo, fn, args, t) or (fo.get('rname') or fo['name']).startswith('signal::') or fo.get('trait') in OPERATORS
        ctx._cache[key] = An(ctx, r[0], r[1], im['self'], leaf) if r and r[0].has_body else None
    return ctx._cache[key]


def last(name):
    return name.split('::')[-1]


class Route(Chan):
    def __init__(self, ctx, tr, im, A, eq=()):
        if im is not None and 'Outputs' in im['types']:
            super().__init__(ctx, tr, im, A, eq)
        else:
            # a dynamic unit or a plain function: channel counts are symbols
            self.EQ = dict(eq)
            self.ctx, self.A, self.W, self.im, self.tr, self.M = ctx, A, A.W, im, tr, ctx.M
            self.children = {}
            self.I, self.O = atom('I'), atom('O')

    def tlen(self, t):
        try:
            return super().tlen(t)
        except Unknown:
            if t[0] == 'alias' and len(t[2]) == 1 and t[2][0][0] == 'param':
                return atom('%s.%s' % (t[2][0][1], t[1].split('::')[-1]))
            raise

    def childpath(self, p):
        try:
            return super().childpath(p)
        except Unknown:
            # a part of a given type: a wrapper has the channel counts of its part
            if len(p) >= 2 and p[0] == ('P', 1) and all(x == '*' or x[0] == 'f' for x in p[1:]) and self.O is not None:
                return None, ('.'.join(x[1] for x in p[1:] if x != '*'), None)
            raise

    def ar(self, ty, s):
        if ty is None:
            return self.I if s == '.I' else self.O
        return super().ar(ty, s)

    def poly(self, t):
        s = strip_at(t)
        if s[0] == 'mem' and self.im is not None and 'Outputs' not in self.im['types']:
            return atom(pterm(s))
        if s[0] == 'bin' and s[1] == 'Div':
            return atom(('div', self.poly(s[2]), self.poly(s[3])))
        if s[0] == 'len' and s[1] in self.local:
            return self.length[self.local[s[1]]]
        n, site = self.name(s)
        if n in ('signal::SignalFrame::len', 'signal::SignalFrame::length'):
            o = self.obj_of(s[3][0])
            return self.I if o == 'in' else self.length[o]
        return super().poly(t)

    def route(self, rem, facts=()):
        A = self.A
        self.rem = rem
        self.live = A.reach(A.F.entry, removed_edges=rem)
        self.rec, self.length, self.local, self.sig, self.calls, self.iters = [], {}, {}, {}, [], {}
        self.facts, self.zero = self.learn(facts)
        pos = {b: i for i, b in enumerate(rpo(A, rem))}
        self.sample = ('none', None)
        evs = sorted((e for e in A.events if e.blk in self.live and e.kind in ('call', 'write', 'fill', 'return')), key=lambda e: pos[e.blk])
        out = None
        for e in evs:
            self.ev = e
            if e.kind == 'return':
                out = self.result(e)
            else:
                self.step(e)
        if out is None:
            raise Unknown('no result')
        return out

    # ---------------------------------------------------------- frames
    def name(self, t):
        return (t[1], None) if t[0] == 'pure' else (t[2], t[1]) if t[0] == 'call' else (None, None)

    def obj_of(self, t, depth=0):
        if depth > 12:
            raise Unknown('frame')
        loc = t[1] if t[0] in ('at', 'ref', 'mem') else t[2] if t[0] == 'phi' else None
        if loc == (('P', 2),):
            return 'in'
        if t[0] == 'at':
            t = strip_at(t)
        if t[0] == 'refval':
            return self.obj_of(t[1], depth + 1)
        n, site = self.name(t)
        if n is not None:
            if site is not None:
                if site in self.iters:
                    return self.iters[site]
                return ('s', site)
            for e in self.A.calls():
                if (e.call.rname or e.call.name) == n and e.blk in self.live and [strip_at(x) for x in e.snap] == [strip_at(x) for x in t[3]]:
                    return ('s', e.call.site)
            raise Unknown('frame ' + last(n))
        if t[0] == 'phi':
            ops = {p: v for p, v in self.W.phis.get((t[1], t[2]), {}).items() if p in self.live and (p, t[1]) not in self.rem}
            if t[1] in self.A.loops():
                body = self.A.loops()[t[1]]
                back = [v for p, v in ops.items() if p in body]
                ops = {p: v for p, v in ops.items() if p not in body}
                for v in back:
                    s = strip_at(v)
                    if s != t and self.name(s)[0] is not None:
                        return ('it', t)
            found = {self.obj_of(v, depth + 1) for v in ops.values()}
            if len(found) == 1:
                return found.pop()
            raise Unknown('frame chosen by a condition')
        if t[0] == 'agg' and len(t[4]) == 1 and 'SignalFrame' in repr(t[1:4]):
            v = strip_at(t[4][0][1])
            if v[0] == 'mem' and v[1][-1] == ('f', '0'):
                return self.obj_of(('mem', v[1][:-1], v[2]), depth + 1)
        if t[0] in ('mem', 'ref'):
            if t[1] == (('P', 2),):
                return 'in'
            if t[1] in self.local:
                return self.local[t[1]]
        raise Unknown('frame ' + pterm(t)[:60])

    def contents(self, o, e):
        """segments and length of an object before event e"""
        if o == 'in':
            return ((None, const(0), self.I, ('in', atom(HASH))),), self.I
        if o[0] == 'it':
            return self.iteration(o)
        n = self.length.get(o)
        if n is None:
            raise Unknown('frame before it is made')
        mine = [r for r in self.rec if r[0] == o]
        if len(mine) == 1 and mine[0][2:4] == (const(0), n):
            return ((None, const(0), n, self.lookup(o, atom(HASH), e, (const(0), n))),), n
        return self.final(o), n

    def iteration(self, o):
        t = o[1]
        body = self.A.loops()[t[1]]
        ops = self.W.phis[(t[1], t[2])]
        init = {v for p, v in ops.items() if p not in body and p in self.live}
        back = {strip_at(v) for p, v in ops.items() if p in body}
        if len(init) != 1 or len(back) != 1:
            raise Unknown('loop')
        b = back.pop()
        n, site = self.name(b)
        if last(n) != 'route' or site is None:
            raise Unknown('loop')
        e = next(x for x in self.A.calls() if x.call.site == site)
        if self.obj_of(e.snap[1]) != o or len(self.A.loops_of(e.blk)) != 1:
            raise Unknown('loop')
        ty, c = self.childpath(strip_at(e.args[0])[1])
        self.freq(e)
        v = self.loopvar(t[1])
        lo, hi = self.rng(v)
        f, ln = self.contents(self.obj_of(init.pop()), e)
        return tuple((q, a, z, ('it', x, lo, hi, sub_child(c, v, atom(K)))) for q, a, z, x in f), ln

    def result(self, e):
        o = self.obj_of(e.val)
        f, n = self.contents(o, e)
        return f, n

    def freq(self, e):
        if e.args[2] != ('arg', 3):
            raise Wrong('%s: the frequency handed to a part is %s, not the given one' % (self.A.where(e), pterm(e.args[2])[:60]))

    # ---------------------------------------------------------- events
    def step(self, e):
        if e.kind != 'call':
            return
        name = e.call.rname or e.call.name
        n = last(name)
        if n == 'route' and e.call.trait in ('audionode::AudioNode', 'audiounit::AudioUnit'):
            a = strip_at(e.args[0])
            ty, c = self.childpath(a[1]) if a[0] == 'ref' else self.child(e.snap[0])
            o = self.obj_of(e.snap[1])
            if o[0] == 'it':
                return
            self.freq(e)
            f, ln = self.contents(o, e)
            self.calls.append((c, e))
            self.new(e, self.ar(ty, '.O'), ('ch', c, segs(f), atom(HASH)))
            return
        if name.endswith('::clone') and e.call.argtys and 'SignalFrame' in repr(e.call.argtys[0]):
            f, ln = self.contents(self.obj_of(e.snap[0]), e)
            self.pieces(e, f, ln)
            return
        if not name.startswith('signal::'):
            return
        if n == 'copy':
            f, ln = self.contents(self.obj_of(e.snap[0]), e)
            off, k = self.poly(e.args[1]), self.poly(e.args[2])
            if len(f) != 1 or f[0][0] is not None:
                raise Unknown('copy of a pieced frame')
            self.new(e, k, subst(f[0][3], HASH, padd(atom(HASH), off)))
        elif n == 'new':
            self.length[('s', e.call.site)] = self.poly(e.args[0])
            if len(e.call.dest) == 1:
                self.local[(('L', e.call.frame.id, e.call.dest[0]),)] = ('s', e.call.site)
        elif name.startswith('signal::Routing') and n == 'route':
            self.routing(e)
        elif n == 'at':
            t = self.obj_of(e.snap[0])
            try:
                i = self.poly(e.args[1])
                c = ('in', i) if t == 'in' else self.lookup(t, i, e)
            except Unknown:
                if t != 'in':
                    raise
                c = self.inp(e.args[1])
            self.sig[(tuple(strip_at(x) for x in e.snap))] = c
            self.sig[('site', e.call.site)] = c
        elif n in ('set', 'resize', 'fill'):
            p = strip_at(e.args[0])
            if p[0] != 'ref':
                raise Unknown('changed frame')
            o = self.obj_of(e.snap[0])
            if o == 'in' or o[0] == 'it':
                raise Unknown('changed frame')
            self.local[p[1]] = o
            if n == 'resize':
                self.length[o] = self.poly(e.args[1])
            elif n == 'fill':
                self.write(e, o, const(0), self.length[o], self.chan(e.args[1]))
            else:
                self.set(e, o, self.poly(e.args[1]), self.chan(e.args[2]))

    def new(self, e, n, c):
        o = ('s', e.call.site)
        self.length[o] = n
        self.write(e, o, const(0), n, c)

    def pieces(self, e, f, n):
        o = ('s', e.call.site)
        self.length[o] = n
        for q, lo, hi, c in f:
            if q is not None:
                raise Unknown('pieces')
            self.write(e, o, lo, hi, c)

    def routing(self, e):
        k = strip_at(e.snap[0])
        if k[0] == 'refval':
            k = k[1]
        f, ln = self.contents(self.obj_of(e.snap[1]), e)
        n = self.poly(e.args[2])
        if k[0] != 'agg' or f != (((None, const(0), self.I, ('in', atom(HASH)))),):
            raise Unknown('routing')
        kind = k[2] + ''.join(' ' + latency(v) for _, v in k[4])
        self.new(e, n, ('un', 'routing ' + kind, ('in', atom(HASH))))

    def set(self, e, o, ch, val):
        vs = self.vars_at(e.blk)
        cv = [v for v in vs if has(ch, v)]
        if not cv:
            return self.write(e, o, ch, padd(ch, const(1)), val, vs)
        for v in reversed(cv):
            a = padd(ch, atom(v), -1)
            if not has(a, v):
                lo, hi = self.rng(v)
                return self.write(e, o, padd(lo, a), padd(hi, a), subst(val, v, padd(atom(HASH), a, -1)), [x for x in vs if x != v])
        raise Unknown('channel index')

    def writes_later(self, b, v, e):
        for h in self.A.loops():
            if self.loopvar(h) == v:
                for x in self.A.calls():
                    if x.blk in self.A.loops()[h] and (x.call.rname or x.call.name) in ('signal::SignalFrame::set', 'signal::SignalFrame::fill'):
                        p = strip_at(x.args[0])
                        try:
                            o = self.local.get(p[1]) or self.obj_of(x.snap[0])
                        except Unknown:
                            o = b
                        if o == b:
                            return not self.chan_loop(v, x)
        return False

    # ---------------------------------------------------------- signals
    def chan(self, t):
        if t[0] == 'refval':
            return self.chan(t[1])
        s = strip_at(t)
        if s[0] == 'phi':
            return self.loopchan(s)
        n, site = self.name(s)
        if n is not None:
            m = last(n)
            if n == 'signal::SignalFrame::at':
                c = self.sig.get(('site', site)) if site is not None else self.sig.get(tuple(strip_at(x) for x in s[3]))
                if c is None:
                    raise Unknown('signal')
                return c
            a = s[3]
            if site is not None and site in self.snaps:
                a = self.snaps[site]
            if m == 'route' and n.rsplit('::', 1)[0] in OPERATORS:
                return self.trop(self.obj(a[0]), *[self.chan(x) for x in a[1:]])
            if n == 'signal::Signal::combine_linear':
                lat = strip_at(a[2])
                if not (lat[0] == 'c' and lat[1] == 0):
                    raise Unknown('latency')
                return self.linear([self.closure(x) for x in a[3:5]], self.chan(a[0]), self.chan(a[1]))
            if n == 'signal::Signal::combine_nonlinear':
                lat = strip_at(a[2])
                return ('op', 'nonlinear' if lat[0] == 'c' and lat[1] == 0 else 'nonlinear with latency ' + pterm(lat), self.chan(a[0]), self.chan(a[1]))
            if n == 'signal::Signal::scale':
                return ('op', 'scale', self.chan(a[0]), self.factor(a[1]))
            if m == 'clone':
                return self.chan(a[0])
            if n in ('signal::Signal::delay', 'signal::Signal::distort', 'signal::Signal::filter'):
                return ('un', m + ' ' + latency(a[1]), self.chan(a[0]))
        if s[0] == 'agg':
            if s[2] == 'Value' and len(s[4]) == 1:
                return ('un', 'value', self.factor(s[4][0][1]))
            if s[2] == 'Latency' and len(s[4]) == 1:
                return ('un', 'latency', ('val', latency(s[4][0][1])))
            return UNKNOWN if s[2] == 'Unknown' else ('val', pterm(s))
        raise Unknown('signal ' + pterm(s)[:60])

    def linear(self, fs, x, y):
        """result of combining x and y with the given functions of values and of responses"""
        if fs[0] != fs[1]:
            return ('lin', fs[0], fs[1], x, y)
        X, Y = atom('x'), atom('y')
        if fs[0] == padd(X, Y):
            return op('Add', x, y)
        if fs[0] == padd(X, Y, -1):
            return ('op', 'Sub', x, y)
        return ('lin', fs[0], fs[0], x, y)

    def loopchan(self, t):
        ops = self.W.phis.get((t[1], t[2]), {})
        if t[1] in self.A.loops():
            body = self.A.loops()[t[1]]
            init = {x for p, x in ops.items() if p not in body and p in self.live}
            back = {strip_at(x) for p, x in ops.items() if p in body and p in self.live}
            v = self.loopvar(t[1])
            if len(init) == 1 and len(back) == 1 and v is not None:
                b = back.pop()
                n, site = self.name(b)
                a = self.snaps[site] if site in self.snaps else b[3] if n else ()
                lo, hi = self.rng(v)
                if n in ('signal::Signal::combine_nonlinear', 'signal::Signal::combine_linear') and strip_at(a[0]) == t:
                    x = subst(self.chan(a[1]), v, atom(K))
                    i = self.chan(init.pop())
                    lat = strip_at(a[2])
                    z = '' if lat[0] == 'c' and lat[1] == 0 else ' with latency ' + pterm(lat)
                    if n.endswith('nonlinear'):
                        return acc('nonlinear' + z, i, lo, hi, x)
                    fs = [self.closure(f) for f in a[3:5]]
                    if fs[0] == fs[1] == padd(atom('x'), atom('y')):
                        return acc('Add' + z, i, lo, hi, x)
            raise Unknown('signal in a loop')
        live = {strip_at(x) for p, x in ops.items() if p in self.live and (p, t[1]) not in self.rem}
        if len(live) == 1:
            return self.chan(live.pop())
        raise Unknown('signal chosen by a condition')

    def factor(self, t):
        t = strip_at(t)
        while t[0] in ('cast', 'conv'):
            t = strip_at(t[2] if t[0] == 'cast' else t[1])
        n, site = self.name(t)
        if n and last(n) in ('to_f64', 'convert', 'into', 'from') and len(t[3]) == 1:
            return self.factor(t[3][0])
        if t[0] == 'mem' and t[1][0] == ('P', 1):
            out = ('op', 'of self.' + '.'.join(x[1] for x in t[1][1:] if x[0] == 'f'))
            for x in t[1][1:]:
                if x[0] == 'i':
                    out += (('in', self.poly(x[1])),)
            return out
        if t[0] == 'bin' and t[1] == 'Div':
            return ('q', self.quant_poly(t[2]), self.quant_poly(t[3]))
        return ('val', pterm(t))

    def quant_poly(self, t):
        t = strip_at(t)
        if t[0] == 'c' and t[1] == 1:
            return const(1)
        return self.poly(t)

    def closure(self, t):
        """polynomial computed by a function of two numbers"""
        t = strip_at(t)
        if t[0] != 'agg' or t[1] != 'closure':
            raise Unknown('function')
        A = self.ctx.function(t[2])
        if A is None:
            raise Unknown('function')
        return closure_value(A, dict(t[4]))


def closure_value(A, captured):
    from .cases import Case
    C = Case(A, {})
    def leaf(s):
        if s == ('arg', 2):
            return atom('x')
        if s == ('arg', 3):
            return atom('y')
        if s[0] == 'mem' and s[1][0] == ('P', 1) and len(s[1]) > 1 and s[1][1][0] == 'f':
            c = captured.get(s[1][1][1])
            if c is not None:
                return atom(('captured', s[1][1][1]) + tuple(s[1][2:]))
        if s[0] in ('mem', 'nc', 'pure', 'call') and not mentions(s, ('arg', 2)) and not mentions(s, ('arg', 3)) and not (s[0] != 'mem' and last(s[1] if s[0] == 'pure' else s[2]) in ('add', 'mul', 'sub', 'neg')):
            return atom(('other', pterm(s)))
    rs = [e.val for e in A.events if e.kind == 'return']
    if len(rs) != 1:
        raise Unknown('function')
    return C.num(rs[0], leaf)


def latency(t):
    t = strip_at(t)
    while t[0] in ('cast', 'conv'):
        t = strip_at(t[2] if t[0] == 'cast' else t[1])
    return pterm(t)


def degree(A, t, x=('arg', 2)):
    """degree of a value in x; Unknown when it is not a product, quotient or sum of such"""
    memo, deps = {}, {}
    def dep(u):
        # does u depend on x, joins followed
        if u in deps:
            return deps[u]
        deps[u] = False
        if u == x:
            r = True
        elif isinstance(u, tuple):
            if u and u[0] == 'phi':
                r = any(dep(v) for v in A.W.phis.get((u[1], u[2]), {}).values())
            else:
                r = any(dep(v) for v in u if isinstance(v, tuple))
        else:
            r = False
        deps[u] = r
        return r
    def deg(u):
        u = strip_at(u)
        if u == x:
            return 1
        if not dep(u):
            return 0
        if u[0] == 'bin' and u[1] in ('Mul', 'Div', 'Add', 'Sub'):
            a, b = deg(u[2]), deg(u[3])
            if u[1] == 'Mul':
                return a + b
            if u[1] == 'Div':
                return a - b
            if a != b:
                raise Wrong('sum of a part of degree %d and a part of degree %d in it' % (a, b))
            return a
        if u[0] == 'un' and u[1] == 'Neg':
            return deg(u[2])
        raise Unknown('function ' + pterm(u)[:60])
    return deg(t)


class Plan(Route):
    """a function of a frame and a number of outputs"""
    def poly(self, t):
        s = strip_at(t)
        if s == ('arg', 3):
            return self.O
        if pterm(s) in ('len(*arg2)', 'len(**arg2)'):
            return self.I
        return super().poly(t)


class Wrong(Exception):
    pass
