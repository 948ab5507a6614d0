"""Value of a function for each combination of variants of its enum arguments: edges that contradict the
combination are removed, joins with one live operand are resolved, and the result is read off."""
from fractions import Fraction
from .prop import switch_edges
from .terms import strip_at
from .chan import P, atom, const, padd, pmul, Unknown


class Case:
    def __init__(self, A, assign):
        """assign: argument number -> variant number"""
        self.A, self.W, self.assign = A, A.W, assign
        self.rem = set()
        while True:
            self.live = A.reach(A.F.entry, removed_edges=self.rem)
            n = len(self.rem)
            for e in A.events:
                if e.kind != 'switch' or e.blk not in self.live or e.val is None:
                    continue
                v = self.discr(e.val)
                if v is None:
                    continue
                edges = switch_edges(A.F.blocks[e.blk].term)
                hit = [b for w, b in edges if w == v] or [b for w, b in edges if w is None]
                for w, b in edges:
                    if b != hit[0]:
                        self.rem.add((e.blk, b))
            if len(self.rem) == n:
                break

    def arg(self, t):
        t = strip_at(t)
        if t[0] == 'arg':
            return t[1]
        if t[0] in ('mem', 'ref') and len(t[1]) == 1 and t[1][0][0] == 'P':
            return t[1][0][1]
        return None

    def discr(self, t):
        t = strip_at(t)
        if t[0] != 'discr':
            return None
        t = self.res(t[1])
        a = self.arg(t)
        if a in self.assign:
            return self.assign[a]
        if t[0] == 'agg' and isinstance(t[3], int):
            return t[3]
        return None

    def res(self, t, depth=0):
        """the one value behind joins"""
        t = strip_at(t)
        while t[0] == 'phi' and depth < 40:
            depth += 1
            ops = {strip_at(v) for p, v in self.W.phis.get((t[1], t[2]), {}).items() if p in self.live and (p, t[1]) not in self.rem}
            if len(ops) != 1:
                return t
            t = ops.pop()
        if t[0] == 'pj':
            b = self.res(t[1], depth + 1)
            if t[2][0] == 'd':
                if b[0] == 'agg':
                    return b
            elif b[0] == 'agg':
                for k, v in b[4]:
                    if k == t[2][1]:
                        return self.res(v, depth + 1)
            if b != t[1]:
                return ('pj', b, t[2])
        return t

    def result(self):
        rs = [e.val for e in self.A.events if e.kind == 'return' and e.blk in self.live]
        if len(rs) != 1:
            raise Unknown('result')
        return self.res(rs[0])

    def field(self, t):
        """(argument, variant, field) of a part of an argument"""
        if t[0] == 'mem' and len(t[1]) == 3 and t[1][0][0] == 'P' and t[1][1][0] == 'd':
            return t[1][0][1], t[1][1][1], t[1][2][1]
        if t[0] == 'pj' and t[1][0] == 'pj' and t[1][2][0] == 'd' and self.arg(t[1][1]) is not None:
            return self.arg(t[1][1]), t[1][2][1], t[2][1]
        return None

    def num(self, t, leaf=None):
        """polynomial over parts of the arguments"""
        t = self.res(t)
        f = self.field(t)
        if f is not None:
            return atom(f)
        if leaf is not None:
            r = leaf(t)
            if r is not None:
                return r
        k = t[0]
        if k == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            if t[1] == t[1] and abs(t[1]) != float('inf'):
                return P({(): Fraction(t[1])})
        if k == 'arg':
            return atom(('arg', t[1]))
        if k in ('cast', 'conv'):
            return self.num(t[2] if k == 'cast' else t[1], leaf)
        if k == 'bin' and t[1] in ('Add', 'Sub', 'Mul'):
            a, b = self.num(t[2], leaf), self.num(t[3], leaf)
            return padd(a, b) if t[1] == 'Add' else padd(a, b, -1) if t[1] == 'Sub' else pmul(a, b)
        if k == 'un' and t[1] == 'Neg':
            return padd((), self.num(t[2], leaf), -1)
        if k in ('pure', 'call'):
            n = t[1] if k == 'pure' else t[2]
            m, a = n.split('::')[-1], t[3]
            if m in ('min', 'max') and len(a) == 2:
                return atom((m,) + tuple(sorted((self.num(a[0], leaf), self.num(a[1], leaf)), key=repr)))
            if n.startswith('num_complex::Complex') and m == 'new' and not self.num(a[1], leaf):
                return self.num(a[0], leaf)
            if m in ('add', 'sub', 'mul') and len(a) == 2:
                x, y = self.num(a[0], leaf), self.num(a[1], leaf)
                return padd(x, y) if m == 'add' else padd(x, y, -1) if m == 'sub' else pmul(x, y)
            if m in ('clone', 'to_f64', 'convert', 'into', 'from') and len(a) == 1:
                return self.num(a[0], leaf)
            if n == 'std::ops::Fn::call':
                f = self.arg(self.res(a[0]))
                if f is not None:
                    x = strip_at(a[1])
                    if x[0] == 'agg':
                        return atom(('f', f) + tuple(self.num(v, leaf) for _, v in x[4]))
        raise Unknown(str(t)[:80])
