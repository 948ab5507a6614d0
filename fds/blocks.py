"""Block algebra: how far processing a block of `size` samples advances a component.

Values are polynomials (exact rational coefficients) over the state at entry, settings, inputs and the
atoms 'size', 'F' (whole groups of 8 samples in size) and 'S' (groups rounded up). A loop whose variable
runs over a range that is a polynomial in these multiplies what one round adds."""
from fractions import Fraction
from .core import pterm
from .chan import P, const, atom, padd, pmul, psubst, has, atoms
from .terms import strip_at
from .propcheck import pat_of

LANES = 8


class Unknown(Exception):
    pass


class Choice(Exception):
    def __init__(self, t):
        self.t = t


class Blocks:
    def __init__(self, ctx, im, A, block=True, size=2, inp=None, removed=()):
        self.ctx, self.A, self.W, self.M = ctx, A, A.W, ctx.M
        self.im = im
        self.block = block
        self.size = ('arg', size)
        self.inp = ('P', inp if inp is not None else 3 if block else 2)
        self.active = set()
        self.busy = set()
        self.choice = {}
        self.counters = {}
        self.removed = set(removed)
        self.live = A.reach(A.F.entry, removed_edges=self.removed) if removed else None

    def phis(self, k):
        """operands of a join that can occur"""
        ops = self.W.phis.get(k, {})
        if self.live is None:
            return ops
        return {p: v for p, v in ops.items() if p in self.live and (p, k[0]) not in self.removed}

    # ------------------------------------------------------------ numbers of rounds
    def table(self, t):
        """a number that depends on the block size alone, as polynomial in size, F and S, for every size of 1..64"""
        tab = []
        for s in range(1, 65):
            try:
                tab.append(self.ev(t, s))
            except Unknown:
                return None
            except (ZeroDivisionError, OverflowError, ValueError):
                tab.append(None)
        if None in tab:
            return None
        v = lambda s: Fraction(tab[s - 1])
        a = v(2) - v(1)
        d = v(9) - v(8) - a
        c = v(1) - a - d
        b = v(8) - c - 8 * a - d
        if all(v(s) == c + a * s + b * (s >> 3) + d * ((s + 7) >> 3) for s in range(1, 65)):
            return P({(): c, ('size',): a, ('F',): b, ('S',): d})
        return atom(('tab', tuple(tab)))

    def ev(self, t, s):
        t = strip_at(t)
        k = t[0]
        if t == self.size and self.block:
            return s
        if k == 'c' and isinstance(t[1], int) and not isinstance(t[1], bool):
            return t[1]
        if k in ('cast', 'conv'):
            return self.ev(t[2] if k == 'cast' else t[1], s)
        if k == 'un' and t[1] == 'Not':
            return (1 << 64) - 1 - self.ev(t[2], s)
        if k == 'bin':
            a, b = self.ev(t[2], s), self.ev(t[3], s)
            o = t[1]
            r = {'Add': lambda: a + b, 'WAdd': lambda: a + b, 'Sub': lambda: a - b, 'WSub': lambda: a - b, 'Mul': lambda: a * b, 'WMul': lambda: a * b,
                 'Div': lambda: a // b, 'Rem': lambda: a % b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b,
                 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b}.get(o)
            if r is None:
                raise Unknown('number')
            r = r()
            if r < 0:
                raise ValueError
            return r
        if k == 'pure' and len(t[3]) == 2:
            a, b = self.ev(t[3][0], s), self.ev(t[3][1], s)
            n = t[1].split('::')[-1]
            if n == 'min':
                return min(a, b)
            if n == 'max':
                return max(a, b)
            if n == 'saturating_sub':
                return max(a - b, 0)
            if n == 'next_multiple_of':
                return (a + b - 1) // b * b
            if n == 'div_ceil':
                return (a + b - 1) // b
        raise Unknown('number')

    def num(self, t):
        """polynomial over size, F, S, loop variables and lengths"""
        t = strip_at(t)
        k = t[0]
        if self.block and k in ('bin', 'pure') and has_term(t, self.size):
            r = self.table(t)
            if r is not None:
                return r
        if t == self.size and self.block:
            return atom('size')
        if k == 'c' and isinstance(t[1], int):
            return const(Fraction(int(t[1])))
        if k in ('cast', 'conv'):
            return self.num(t[2] if k == 'cast' else t[1])
        if k == 'alen':
            a = t[1]
            if a[0] == 'array' and isinstance(a[2], int):
                return const(Fraction(a[2]))
            return self.tlen(a[2][1]) if a[0] == 'adt' else self.odd(t)
        if k == 'len':
            r = self.fixedlen(t[1])
            if r is not None:
                return r
        if k == 'nc':
            n = t[1].split('::')[-1]
            if n in ('USIZE', 'U64', 'I64', 'U32', 'I32', 'ISIZE'):
                return self.tlen(t[2][0])
        if k == 'bin':
            o = t[1]
            if o in ('Add', 'WAdd', 'Sub', 'WSub', 'Mul', 'WMul'):
                a, b = self.num(t[2]), self.num(t[3])
                n = o[-3:]
                return padd(a, b) if n == 'Add' else padd(a, b, -1) if n == 'Sub' else pmul(a, b)
            if o == 'Shl' and t[3][0] == 'c':
                return pmul(self.num(t[2]), const(Fraction(1 << t[3][1])))
            if (o == 'Shr' and t[3] == ('c', 3)) or (o == 'Div' and t[3] == ('c', 8)):
                a = self.num(t[2])
                if a == atom('size'):
                    return atom('F')
                if a == padd(atom('size'), const(Fraction(7))):
                    return atom('S')
                if a and all(c % 8 == 0 for m, c in a):
                    return P({m: c / 8 for m, c in a})
            if o == 'BitAnd':
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if x == ('un', 'Not', ('c', 7)) and self.num(y) == atom('size'):
                        return pmul(const(Fraction(8)), atom('F'))
                    if x == ('c', 7) and self.num(y) == atom('size'):
                        return padd(atom('size'), pmul(const(Fraction(8)), atom('F')), -1)
            if o == 'Rem' and t[3] == ('c', 8) and self.num(t[2]) == atom('size'):
                return padd(atom('size'), pmul(const(Fraction(8)), atom('F')), -1)
        if k == 'phi' and t[1] in self.A.loops():
            c = self.counter(t[1])
            if c and c[0] == t:
                return atom(self.var(t[1]))
        if k == 'elem':
            it = self.W.elem.get(t[1])
            if it is not None:
                return atom(('v', t[1]))
        if k == 'pure' and t[1].split('::')[-1] == 'next_multiple_of' and t[3][1] == ('c', 8) and self.num(t[3][0]) == atom('size'):
            return pmul(const(Fraction(8)), atom('S'))
        if k == 'pure' and t[1].split('::')[-1] == 'div_ceil' and t[3][1] == ('c', 8) and self.num(t[3][0]) == atom('size'):
            return atom('S')
        return self.odd(t)

    def odd(self, t):
        raise Unknown('number ' + pterm(t)[:60])

    def fixedlen(self, path):
        """length of a field whose type says how long it is"""
        if path[0] != ('P', 1) or self.im is None:
            return None
        t = self.im['self']
        for x in path[1:]:
            if x == '*':
                continue
            t = dict(self.ctx.M.fields(t)).get(x[1]) if x[0] == 'f' else None
            if t is None:
                return None
        if t[0] == 'adt' and t[1].split('::')[-1] in ('NumericArray', 'GenericArray'):
            return self.tlen(t[2][1])
        if t[0] == 'array' and isinstance(t[2], int):
            return const(Fraction(t[2]))
        return None

    def tlen(self, t):
        if t[0] == 'adt':
            n = t[1].split('::')[-1]
            if n == 'UTerm':
                return const(Fraction(0))
            if n == 'UInt':
                return padd(pmul(const(Fraction(2)), self.tlen(t[2][0])), const(Fraction(1 if t[2][1][1].endswith('B1') else 0)))
        if t[0] == 'alias' and t[1].endswith('Add::Output'):
            return padd(self.tlen(t[2][0]), self.tlen(t[2][1]))
        if t[0] == 'alias' and t[1].endswith('Mul::Output'):
            return pmul(self.tlen(t[2][0]), self.tlen(t[2][1]))
        return atom(('len', t))

    def loopsite(self, h):
        """site of the iterator that drives loop h"""
        body = self.A.loops()[h]
        for b in sorted(body):
            if self.A.innermost(b) != h:
                continue
            t = self.A.F.blocks[b].term
            if t[0] in ('call', 'hoswitch') and t[1].site in self.W.elem:
                return t[1].site
        return None

    def exits(self, h):
        """edges out of a loop other than its exhaustion (panics excluded)"""
        from .prop import exhaustion_edges, reaches_ret
        s = self.loopsite(h)
        ex = exhaustion_edges(self.A, h, {s})
        body = self.A.loops()[h]
        return [(b, x) for b in body for x in self.A.succs(b) if x not in body and (b, x) not in ex and reaches_ret(self.A, x)]

    def irange(self, it):
        kind = it[1]
        if kind == 'range':
            lo, hi = self.num(it[2]), self.num(it[3])
            return lo, padd(hi, const(Fraction(1))) if len(it) > 4 and it[4] == 'incl' else hi
        if kind in ('enum', 'copied', 'rev'):
            return self.irange(it[2])
        if kind == 'zip':
            try:
                return self.irange(it[2])
            except Unknown:
                return self.irange(it[3])
        raise Unknown('iterator ' + str(kind))

    def trip(self, h):
        s = self.loopsite(h)
        if s is None:
            r = self.counted(h)
            if r is None:
                raise Unknown('loop without iterator')
            return r
        if self.exits(h):
            raise Unknown('loop left early')
        lo, hi = self.irange(self.W.elem[s])
        return padd(hi, lo, -1)

    def counted(self, h):
        """number of rounds of `while i < hi { ...; i += 1 }`"""
        c = self.counter(h)
        return padd(self.num(c[2]), self.num(c[1]), -1) if c else None

    def counter(self, h):
        """(variable, first value, limit) of the local counter of a loop without iterator"""
        if h in self.counters:
            return self.counters[h]
        self.counters[h] = None
        from .prop import induction, reaches_ret
        body = self.A.loops().get(h, ())
        out = [(b, x) for b in body for x in self.A.succs(b) if x not in body and reaches_ret(self.A, x)]
        if self.loopsite(h) is None and len({b for b, _ in out}) == 1:
            val = [e.val for e in self.W.bevents.get(out[0][0], []) if e.kind == 'switch']
            for (b, path) in self.W.phis:
                t = ('phi', h, path)
                if b == h and path[0][0] == 'L' and val and t in val[0]:
                    i = induction(self.A, t)
                    if i and i[1] is not None and i[2] is not None:
                        self.counters[h] = (t, i[1], i[2])
        return self.counters[h]

    def var(self, h):
        s = self.loopsite(h)
        return ('v', s if s is not None else ('round', h))

    # ------------------------------------------------------------ values
    def fidx(self, t):
        """index of an input channel"""
        n = self.num(t)
        return n

    def inputread(self, t):
        """(channel, time) of a sample read from the input block, or None"""
        t = strip_at(t)
        if t[0] in ('pure', 'call'):
            n = t[1] if t[0] == 'pure' else t[2]
            a = t[3]
            if n.endswith('::at_f32') and len(a) == 3 and self.isin(a[0]):
                return self.num(a[1]), self.num(a[2])
        if t[0] == 'pj' and t[2][0] == 'i':
            x = strip_at(t[1])
            if x[0] in ('pure', 'call'):
                n = x[1] if x[0] == 'pure' else x[2]
                a = x[3]
                if n.endswith('::at') and len(a) == 3 and self.isin(a[0]):
                    return self.num(a[1]), padd(pmul(const(Fraction(8)), self.num(a[2])), self.num(t[2][1]))
        return None

    def isin(self, t):
        t = strip_at(t)
        if t[0] == 'mem' or t[0] == 'ref':
            return t[1][0] == self.inp and all(x == '*' for x in t[1][1:])
        return False

    def framein(self, t):
        """element k of a frame that a loop fills from the input block at one time"""
        if t[0] != 'pj' or t[2][0] != 'i' or t[1][0] != 'phi':
            return None
        h, path = t[1][1], t[1][2]
        for (b, p), ops in self.W.phis.items():
            if p[:-1] == path and isinstance(p[-1], tuple) and p[-1][0] == 'i' and p[-1][1][0] == 'elem':
                for v in ops.values():
                    r = self.inputread(v)
                    if r and r[0] == self.num(p[-1][1]):
                        return self.num(t[2][1]), r[1]
        return None

    def canon(self, t):
        t = strip_at(t)
        k = t[0]
        if k in ('cast', 'conv'):
            return self.canon(t[2] if k == 'cast' else t[1])
        if k == 'c':
            if isinstance(t[1], bool) or not isinstance(t[1], (int, float)):
                return atom(('k', repr(t[1])))
            if t[1] != t[1] or t[1] in (float('inf'), float('-inf')):
                return atom(('k', repr(t[1])))
            return const(Fraction(t[1]))
        if t == self.size and self.block:
            return atom('size')
        if self.block and k in ('bin', 'pure') and has_term(t, self.size):
            r = self.table(t)
            if r is not None:
                return r
        if k == 'pure' and t[1].split('::')[-1] in ('splat', 'into', 'from', 'clone', 'to_owned') and len(t[3]) == 1:
            return self.canon(t[3][0])
        if k == 'bin':
            o = t[1]
            if o in ('Sub', 'WSub') and self.floor_of(t[3]) == t[2]:
                return self.canon(t[2])
            if o in ('Add', 'WAdd', 'Sub', 'WSub', 'Mul', 'WMul'):
                a, b = self.canon(t[2]), self.canon(t[3])
                n = o[-3:]
                return padd(a, b) if n == 'Add' else padd(a, b, -1) if n == 'Sub' else pmul(a, b)
            if o == 'Div':
                a, b = self.canon(t[2]), self.canon(t[3])
                if len(b) == 1 and b[0][0] == () and b[0][1]:
                    return pmul(a, const(1 / b[0][1]))
                return pmul(a, atom(('inv', b)))
            if o == 'BitAnd':
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if self.is_mask(x):
                        return self.canon(y)
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    x = strip_at(x)
                    if x[0] == 'mem' and x[1][0] == ('P', 1) and x[2] == 0:
                        return self.canon(y)
            if o == 'Rem':
                return self.canon(t[2])
            return atom(('o', o, self.canon(t[2]), self.canon(t[3])))
        if k == 'un' and t[1] == 'Neg':
            return pmul(const(Fraction(-1)), self.canon(t[2]))
        if k == 'mem' and t[1] and t[1][0] == ('P', 1):
            if t[2] != 0:
                raise Unknown('changed memory')
            return atom(('f',) + pat_of(t[1]) if not any(isinstance(x, tuple) and x[0] == 'i' for x in t[1]) else self.fieldat(t[1]))
        if k == 'mem' and t[1] and t[1][0] == self.inp and not self.block:
            p = [x for x in t[1][1:] if x != '*']
            if len(p) == 1 and p[0][0] == 'i':
                return atom(('in', self.num(p[0][1]), ()))
        if self.block:
            r = self.inputread(t)
            if r is None:
                r = self.framein(t)
            if r is not None:
                if not self.active and r[1] == padd(atom('size'), const(Fraction(1)), -1):
                    return atom(('in', r[0], ()))
                if not self.active and not atoms(r[1]):
                    return atom(('in', r[0], ('sample %s' % show(r[1]),)))
                vs = {a for a in atoms(r[1])}
                if any(not (isinstance(a, tuple) and a[0] == 'v') for a in vs) or not self.time_ok(r[1]):
                    raise Unknown('time of input')
                return atom(('in', r[0], tuple(sorted(vs, key=repr))))
        if k == 'phi':
            return self.phi(t)
        if k == 'elem':
            return self.num(t)
        if k in ('pure',):
            return atom(('p', t[1].split('::')[-1], tuple(self.canon(x) for x in t[3])))
        if k == 'nc':
            return atom(('nc', t[1]))
        raise Unknown('value ' + pterm(t)[:60])

    def fieldat(self, p):
        return ('fi',) + tuple(x if not (isinstance(x, tuple) and x[0] == 'i') else ('i', self.canon(x[1])) for x in p[1:])

    def time_ok(self, p):
        """a position that walks through samples one by one"""
        if len(p) == 1 and p[0][1] in (1, 8):
            return True
        return sorted(c for m, c in p) == [1, 8] and all(len(m) == 1 for m, c in p)

    def floor_of(self, t):
        t = strip_at(t)
        if t[0] in ('pure', 'call'):
            n = (t[1] if t[0] == 'pure' else t[2]).split('::')[-1]
            if n in ('floor', 'floorf'):
                return strip_at(t[3][0])
        return None

    def is_mask(self, t):
        t = strip_at(t)
        if t[0] in ('cast', 'conv'):
            return self.is_mask(t[2] if t[0] == 'cast' else t[1])
        return t[0] == 'bin' and t[1] in ('Sub', 'WSub') and t[3] == ('c', 1) and strip_at(t[2])[0] == 'len'

    def phi(self, t):
        h, A = t[1], self.A
        ops = self.phis((h, t[2]))
        if h in A.loops():
            if h in self.active:
                return atom(('phi', h, t[2]))
            body = A.loops()[h]
            init = {v for p, v in ops.items() if p not in body}
            back = {v for p, v in ops.items() if p in body}
            if not init or not back:
                raise Unknown('loop value')
            i = {self.canon(v) for v in init}
            self.active.add(h)
            try:
                b = {self.canon(v) for v in back}
            finally:
                self.active.discard(h)
            if len(i) != 1 or len(b) != 1:
                raise Unknown('loop value')
            i, b = next(iter(i)), next(iter(b))
            me = atom(('phi', h, t[2]))
            d = padd(b, me, -1)
            if d == ():
                return i
            g = self.stride(h)
            if g is not None and g[0] != t[2]:
                cp, first, stride = g
                if len(stride) == 1 and stride[0][1] == 1 and len(stride[0][0]) == 1:
                    a = stride[0][0][0]
                    if all(m.count(a) == 1 for m, c in d):
                        q = P({tuple(x for x in m if x != a): c for m, c in d})
                        if not any(len(x) == 3 and x[0] == 'phi' and x[1] == h for x in deep(q)):
                            return padd(i, pmul(padd(atom('size'), first, -1), q))
                    if not any(a in m for m, c in d) and not any(len(x) == 3 and x[0] == 'phi' and x[1] == h for x in deep(d)):
                        return padd(i, pmul(atom(('rounds', h)), d))
            if any(len(a) == 3 and a[0] == 'phi' and a[1] == h for a in deep(d)):
                raise Unknown('value carried round the loop')
            v = self.var(h)
            n = self.trip(h)
            out = ()
            for m, c in d:
                m2 = []
                for a in m:
                    if isinstance(a, tuple) and a[0] == 'in':
                        if v in a[2]:
                            a = ('in', a[1], tuple(x for x in a[2] if x != v))
                        elif n != const(Fraction(1)):
                            a = ('same input again',) + a
                    elif isinstance(a, tuple) and any(x == v for x in deep1(a)):
                        raise Unknown('depends on the round')
                    m2.append(a)
                out = padd(out, P({tuple(sorted(m2, key=repr)): c}))
            return padd(i, pmul(n, out))
        if t in self.choice:
            return self.canon(self.choice[t])
        vs = set()
        for v in set(ops.values()):
            try:
                vs.add(self.canon(v))
            except Choice:
                if len(set(ops.values())) == 1:
                    raise
                vs.add(v)
                vs.add(None)
        if len(vs) == 1:
            return next(iter(vs))
        raise Choice(t)

    def stride(self, h):
        """(path, first value, growth per round) of the local counter c of a loop `while c < size`"""
        if h in self.busy:
            return None
        for b in sorted(self.A.loops()[h]):
            if self.A.innermost(b) != h:
                continue
            for e in self.W.bevents.get(b, []):
                if e.kind != 'switch':
                    continue
                v = e.val
                if v[0] == 'bin' and v[1] in ('Lt', 'Ne', 'Gt') and self.size in v[2:]:
                    x = v[3] if v[2] == self.size else v[2]
                    if (v[1] == 'Lt' and v[2] == self.size) or (v[1] == 'Gt' and v[3] == self.size):
                        continue
                    if x[0] == 'phi' and x[1] == h and x[2][0][0] == 'L':
                        body = self.A.loops()[h]
                        ops = self.phis((h, x[2]))
                        was = h in self.active
                        self.busy.add(h)
                        try:
                            init = {self.canon(y) for p, y in ops.items() if p not in body}
                            self.active.add(h)
                            back = {self.canon(y) for p, y in ops.items() if p in body}
                        except (Unknown, Choice):
                            return None
                        finally:
                            self.busy.discard(h)
                            if not was:
                                self.active.discard(h)
                        if len(init) == 1 and len(back) == 1:
                            return x[2], next(iter(init)), padd(next(iter(back)), atom(('phi', h, x[2])), -1)
        return None

    def values(self, t, cap=24):
        """the possible values at joins of different values, conditions ignored"""
        out, todo, n = set(), [{}], 0
        while todo:
            n += 1
            if n > cap:
                raise Unknown('too many joins')
            self.choice = todo.pop()
            try:
                out.add(self.canon(t))
            except Choice as x:
                for v in set(self.phis((x.t[1], x.t[2])).values()):
                    c = dict(self.choice)
                    c[x.t] = v
                    todo.append(c)
        self.choice = {}
        return out

    def round(self, t):
        """(rounds, possible values after one round) of a value that is carried round a loop over samples"""
        h = t[1]
        A = self.A
        if t[0] != 'phi' or h not in A.loops():
            raise Unknown('not a loop')
        body = A.loops()[h]
        ops = self.phis((h, t[2]))
        init = {v for p, v in ops.items() if p not in body}
        back = {v for p, v in ops.items() if p in body}
        v = self.var(h)
        n = self.trip(h)
        self.active.add(h)
        try:
            vals = set()
            for b in back:
                vals |= self.values(b)
        finally:
            self.active.discard(h)
        return init, n, {self.unround(p, h, v) for p in vals}

    def unround(self, p, h, v):
        def at(a):
            if isinstance(a, tuple) and a:
                if len(a) == 3 and a[0] == 'phi' and a[1] == h:
                    if a[2][0] == ('P', 1) and not any(isinstance(x, tuple) and x[0] == 'i' for x in a[2]):
                        return ('f',) + pat_of(a[2])
                    raise Unknown('local carried round the loop')
                if a[0] == 'in' and len(a) == 3:
                    if a[2] != (v,):
                        raise Unknown('time of input')
                    return ('in', a[1], ())
                if a == v:
                    raise Unknown('depends on the round')
                if a[0] == 'o':
                    return a[:2] + tuple(self.unround(x, h, v) for x in a[2:])
                if a[0] == 'inv':
                    return ('inv', self.unround(a[1], h, v))
                if a[0] == 'p':
                    return a[:2] + (tuple(self.unround(x, h, v) for x in a[2]),)
                if any(x == v or (isinstance(x, tuple) and x[:2] == ('phi', h)) for x in deep1(a)):
                    raise Unknown('depends on the round')
            return a
        out = ()
        for m, c in p:
            out = padd(out, P({tuple(sorted((at(a) for a in m), key=repr)): c}))
        return out

    def final(self, path):
        """value of a field when the method returns"""
        rs = [b for b in self.A.retblocks() if b in self.W.out and (self.live is None or b in self.live)]
        vs = {self.W.read(self.W.out[b], path) for b in rs}
        if len(vs) != 1:
            raise Unknown('several returns')
        return next(iter(vs))


def has_term(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has_term(y, x) for y in t if isinstance(y, tuple))


def at(p, n):
    """polynomial in a block of n samples"""
    for a in atoms(p):
        if a == 'size':
            p = psubst(p, a, const(Fraction(n)))
        elif a == 'F':
            p = psubst(p, a, const(Fraction(n >> 3)))
        elif a == 'S':
            p = psubst(p, a, const(Fraction((n + 7) >> 3)))
        elif isinstance(a, tuple) and a[0] == 'tab':
            p = psubst(p, a, const(Fraction(a[1][n - 1])))
    return p


def deep1(a):
    yield a
    if isinstance(a, tuple):
        for x in a:
            yield from deep1(x)


def deep(p):
    for m, c in p:
        for a in m:
            yield from (x for x in deep1(a) if isinstance(x, tuple))


def show(p):
    def at(a):
        if a == 'size':
            return 'size'
        if a == 'F':
            return 'size/8'
        if a == 'S':
            return '(size+7)/8'
        if isinstance(a, tuple):
            if a[0] == 'tab':
                return 'table%s' % (a[1],)
            if a[0] == 'rounds':
                return 'rounds'
            if a[0] == 'f':
                return '.'.join(a[1:])
            if a[0] == 'in':
                return 'input[%s]' % show(a[1]) + (' of ' + a[2][0] if a[2] and isinstance(a[2][0], str) else '')
            if a[0] == 'inv':
                return '1/(%s)' % show(a[1])
            if a[0] == 'len':
                return 'N'
            if a[0] == 'same input again':
                return 'the same input[%s] again' % show(a[2])
            if a[0] == 'p':
                return '%s(%s)' % (a[1], ', '.join(show(x) for x in a[2]))
        return str(a)[:40]
    return ' + '.join((('' if c == 1 and m else str(c) + ('*' if m else '')) + '*'.join(at(a) for a in m)) for m, c in p) or '0'
