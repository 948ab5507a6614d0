"""Transfer functions: a straight-line update that is linear in its state and input is turned into a rational
function of z1, the delay by one sample, and of the parameters; so is a function that computes a response.
Two rational functions are compared by cross multiplication of polynomials: no numbers are run."""
from fractions import Fraction
from .core import pterm
from .terms import strip_at
from .chan import Unknown
TAU = 6.283185307179586
Z1 = 'z1'
ROOTS = {}   # names of square roots -> what is under the root


# polynomials: sorted (monomial, coefficient), a monomial a sorted tuple of names
def P(d):
    return tuple(sorted((m, c) for m, c in d.items() if c))


def const(n):
    return P({(): Fraction(n)})


def atom(a):
    return (((a if isinstance(a, str) else '.'.join(a),), Fraction(1)),)


def padd(a, b, s=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + s * c
    return P(d)


def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = tuple(sorted(m + n)) if m and n else m + n
            d[k] = d.get(k, 0) + c * e
    return P(d)


ONE = const(1)


class Rat:
    """n / product of factors, each with its power"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n, self.d = n, d

    def over(a, d):
        """numerator over a common denominator d"""
        n, mine = a.n, dict(a.d)
        for f, k in d.items():
            for _ in range(k - mine.get(f, 0)):
                n = pmul(n, f)
        return n

    def __add__(a, b):
        d = dict(a.d)
        for f, k in b.d:
            d[f] = max(d.get(f, 0), k)
        return frac(padd(a.over(d), b.over(d)), d)

    def __neg__(a):
        return Rat(padd((), a.n, -1), a.d)

    def __sub__(a, b):
        return a + (-b)

    def __mul__(a, b):
        da, db = dict(a.d), dict(b.d)
        n = cancel(a.n, db), cancel(b.n, da)
        for f, k in db.items():
            da[f] = da.get(f, 0) + k
        return frac(pmul(*n), da)

    def __truediv__(a, b):
        n = reduce(b.n)
        if not n:
            raise Unknown('division by zero')
        return a * frac(b.over0(), {n: 1})

    def over0(a):
        out = ONE
        for f, k in a.d:
            for _ in range(k):
                out = pmul(out, f)
        return out

    def zero(a):
        return not reduce(a.n)

    def same(a, b):
        """equal but for rounding of constants"""
        d = dict(a.d)
        for f, k in b.d:
            d[f] = max(d.get(f, 0), k)
        x, y = dict(reduce(a.over(d))), dict(reduce(b.over(d)))
        tol = max([abs(c) for c in x.values()] + [abs(c) for c in y.values()] + [0]) * Fraction(1, 10 ** 10)
        return all(abs(x.get(m, 0) - y.get(m, 0)) <= tol for m in set(x) | set(y))


def cancel(n, d):
    if n in d and d[n] > 0:
        d[n] -= 1
        return ONE
    return n


def frac(n, d):
    """constants and plain factors out of the denominator"""
    n = reduce(n)
    out = {}
    c = Fraction(1)
    for f, k in d.items():
        if not k:
            continue
        lead = Fraction(f[0][1])
        if len(f) == 1 and not f[0][0]:
            c *= lead ** k
            continue
        if lead != 1:
            c *= lead ** k
            f = pmul(P({(): 1 / lead}), f)
        out[f] = out.get(f, 0) + k
    if c != 1:
        n = pmul(P({(): 1 / c}), n)
    return Rat(n, tuple(sorted(out.items(), key=repr)) if n else ())


def den(r):
    return r.over0()


def reduce(p):
    """squares of square roots replaced by what is under the root"""
    for _ in range(40):
        hit = None
        for m, c in p:
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and m[i] in ROOTS:
                    hit = m[i]
                    break
            if hit:
                break
        if not hit:
            return p
        out = {}
        under = ROOTS[hit]
        for m, c in p:
            k = m.count(hit)
            if k < 2:
                out[m] = out.get(m, 0) + c
                continue
            rest = tuple(x for x in m if x != hit) + (hit,) * (k % 2)
            t = ((tuple(sorted(rest)), c),)
            for _ in range(k // 2):
                t = pmul(t, under)
            for n, e in t:
                out[n] = out.get(n, 0) + e
        p = P(out)
    raise Unknown('roots')


class Eval:
    """terms to rational functions; leaf(term) gives the value of what is not arithmetic, or None"""
    def __init__(self, leaf, freq=None, rate=None):
        self.leaf, self.freq, self.rate, self.parts, self.memo = leaf, freq, rate, [], {}

    def fun(self, name, r):
        if name == 'sqrt' and not r.d:
            u = reduce(r.n)
            for k, v in ROOTS.items():
                if v == u:
                    return Rat(atom(k))
            k = 'sqrt%d' % len(ROOTS)
            ROOTS[k] = u
            return Rat(atom(k))
        for n, q, a in FUNS:
            if n == name and q.same(r):
                return a
        a = Rat(atom('%s%d' % (name, len(FUNS))))
        FUNS.append((name, r, a))
        return a

    def positive(self, r):
        """positive part; that of the opposite differs from it by the value itself"""
        for q, a in self.parts:
            if q.same(r):
                return a
            if (q + r).zero():
                return a + r
        a = Rat(atom('pos%d' % len(self.parts)))
        self.parts.append((r, a))
        return a

    def polar(self, r):
        """power of z1 of a unit number with this angle"""
        if self.freq is None:
            raise Unknown('angle')
        base = frac(pmul(P({(): Fraction(TAU)}), atom(self.freq)), {atom(self.rate): 1})
        q = r / base
        n, d = reduce(q.n), reduce(den(q))
        if not n:
            return Rat(ONE)
        k = n[0][1] / Fraction(d[0][1])
        if not Rat(n).same(Rat(pmul(P({(): k}), d))) or abs(k - round(k)) > Fraction(1, 10 ** 10):
            return self.fun('polar', r)   # not a whole number of samples
        k = -int(round(k))
        z = P({(Z1,) * abs(k): Fraction(1)})
        return Rat(z) if k >= 0 else frac(ONE, {atom(Z1): -k})

    def __call__(self, t):
        s = strip_at(t)
        if s in self.memo:
            return self.memo[s]
        r = self.ev(s)
        self.memo[s] = r
        return r

    def ev(self, s):
        r = self.leaf(s)
        if r is not None:
            return r
        k = s[0]
        if k == 'c' and isinstance(s[1], (int, float)) and not isinstance(s[1], bool) and s[1] == s[1] and abs(s[1]) != float('inf'):
            return Rat(P({(): Fraction(s[1])}))
        if k in ('cast', 'conv'):
            return self(s[2] if k == 'cast' else s[1])
        if k == 'bin' and s[1] in ('Add', 'Sub', 'Mul', 'Div'):
            a, b = self(s[2]), self(s[3])
            return a + b if s[1] == 'Add' else a - b if s[1] == 'Sub' else a * b if s[1] == 'Mul' else a / b
        if k == 'un' and s[1] == 'Neg':
            return -self(s[2])
        if k in ('pure', 'call'):
            n = s[1] if k == 'pure' else s[2]
            m, a = n.split('::')[-1], s[3]
            if m == 'from_polar' and len(a) == 2:
                return self(a[0]) * self.polar(self(a[1]))
            if m == 'new' and 'Complex' in n and self(a[1]).zero():
                return self(a[0])
            if m in ('tan', 'sqrt', 'exp', 'cos', 'sin', 'db_amp') and len(a) == 1:
                return self.fun(m, self(a[0]))
            if m in ('add', 'sub', 'mul', 'div') and len(a) == 2:
                x, y = self(a[0]), self(a[1])
                return x + y if m == 'add' else x - y if m == 'sub' else x * y if m == 'mul' else x / y
            if m == 'neg' and len(a) == 1:
                return -self(a[0])
            if m == 'max' and len(a) == 2 and (self(a[0]).zero() or self(a[1]).zero()):
                return self.positive(self(a[1] if self(a[0]).zero() else a[0]))
            if m in ('squared',) and len(a) == 1:
                return self(a[0]) * self(a[0])
            if m in ('clone', 'to_f64', 'to_f32', 'convert', 'into', 'from', 'from_f64', 'from_f32', 'to_frame') and len(a) == 1:
                return self(a[0])
        if k == 'agg' and s[1] == 'array' and len(s[4]) == 1:
            return self(s[4][0][1])
        raise Unknown('term ' + pterm(s)[:70])


FUNS = []


def walk(t, f, W=None, seen=None):
    seen = seen if seen is not None else set()
    st = [t]
    while st:
        u = st.pop()
        if not isinstance(u, tuple) or u in seen:
            continue
        seen.add(u)
        f(u)
        if u[:1] == ('phi',) and W is not None and len(u) == 3:
            st.extend(W.phis.get((u[1], u[2]), {}).values())
        st.extend(x for x in u if isinstance(x, tuple))


def is_input(t):
    return t[0] == 'mem' and t[1] in ((('P', 2),), (('P', 2), ('i', ('c', 0))))


def field(t):
    """path of a part of self"""
    if t[0] == 'pj' and t[2][0] == 'f':
        f = field(strip_at(t[1]))
        return None if f is None else f + (t[2][1],)
    loc = t[1] if t[0] == 'mem' else t[2] if t[0] == 'phi' else None
    if loc and loc[0] == ('P', 1) and len(loc) > 1 and all(x[0] == 'f' for x in loc[1:]):
        return tuple(x[1] for x in loc[1:])
    return None


def transfer(ctx, A, param, ident=()):
    """response of the output of a tick method to its first input: rational function of z1 and parameters.
    param(path) gives the value of a field that is not part of the signal state; functions named in ident
    are taken to return their last argument."""
    rets = [e for e in A.events if e.kind == 'return']
    if len(rets) != 1 or any(A.loops_of(e.blk) for e in A.events if e.kind in ('write', 'fill')):
        raise Unknown('loops')
    rb = rets[0].blk
    writes = {}
    for e in A.events:
        if e.kind == 'fill':
            raise Unknown('fill')
        if e.kind == 'write' and e.path[0] == ('P', 1):
            if any(x[0] != 'f' for x in e.path[1:]):
                raise Unknown('write')
            writes.setdefault(tuple(x[1] for x in e.path[1:]), []).append(e)
    state = set()
    while True:
        new = set()
        for p, es in writes.items():
            if p in state:
                continue
            def see(u, p=p):
                if is_input(strip_at(u)) if u and isinstance(u[0], str) else False:
                    new.add(p)
                if u and u[0] in ('mem', 'phi') and field(u) in state:
                    new.add(p)
            for e in es:
                walk(e.val, see)
        if not new:
            break
        state |= new
    # coefficients that are recomputed from control inputs are not signal
    order = sorted(state)
    alias = {}
    for p, es in writes.items():
        if p not in state and len(es) == 1 and not conditional(A, es[0], rb):
            f = field(strip_at(es[0].val))
            if f is not None and f not in state:
                alias[p] = f
    S = {p: 'state.' + '.'.join(p) for p in order}
    def leaf(t):
        if is_input(t):
            return Rat(atom('x'))
        if t[0] in ('pure', 'call') and (t[1] if t[0] == 'pure' else t[2]).split('::')[-1] == 'from_frame':
            return Rat(atom('x'))
        f = field(t)
        if f is not None:
            if f in S:
                if t[0] == 'mem' and t[2] == 0:
                    return Rat(atom(S[f]))
                raise Unknown('state read after it changed')
            return param(alias.get(f, f))
        if ident and t[0] in ('pure', 'call') and (t[1] if t[0] == 'pure' else t[2]).split('::')[-1] in ident:
            return ev(t[3][-1])
    ev = Eval(leaf)
    rows = {}
    for p in order:
        es = writes[p]
        if len(es) != 1 or conditional(A, es[0], rb):
            raise Unknown('conditional state')
        rows[p] = linear(ev(es[0].val), S)
    out = linear(ev(rets[0].val), S)
    # S = z1 (A S + B x), output = C S + D x
    z = Rat(atom(Z1))
    n = len(order)
    one = Rat(ONE)
    Mx = [[(one if i == j else Rat(())) - z * rows[p][0].get(q, Rat(())) for j, q in enumerate(order)] + [z * rows[p][1]] for i, p in enumerate(order)]
    for i in range(n):
        j = next((j for j in range(i, n) if not Mx[j][i].zero()), None)
        if j is None:
            raise Unknown('singular')
        Mx[i], Mx[j] = Mx[j], Mx[i]
        for r in range(n):
            if r != i and not Mx[r][i].zero():
                f = Mx[r][i] / Mx[i][i]
                Mx[r] = [a if b.zero() else a - f * b for a, b in zip(Mx[r], Mx[i])]
    H = out[1]
    for i, p in enumerate(order):
        c = out[0].get(p)
        if c is not None:
            H = H + c * (Mx[i][n] / Mx[i][i])
    return H, len(order)


def conditional(A, e, rb):
    return rb in A.reach(A.F.entry, removed={e.blk})


def linear(r, S):
    """coefficients of the state and of the input"""
    names = {v: k for k, v in S.items()}
    for f, _ in r.d:
        if any(x == 'x' or x in names or x.startswith('pos') for m, c in f for x in m):
            raise Unknown('not linear')
    out, x = {}, ()
    for m, c in r.n:
        sig = [y for y in m if y == 'x' or y in names]
        if len(sig) != 1 or any(y.startswith('pos') for y in m):
            raise Unknown('not linear')
        rest = list(m)
        rest.remove(sig[0])
        t = ((tuple(rest), c),)
        if sig[0] == 'x':
            x = padd(x, t)
        else:
            p = names[sig[0]]
            out[p] = padd(out.get(p, ()), t)
    return {p: Rat(v, r.d) for p, v in out.items()}, Rat(x, r.d)


def node_transfer(ctx, tr, im, prefix=(), depth=0, equal={}):
    """transfer function of a node; one that hands its first input to a part has that of the part"""
    A = ctx.method(tr, im, 'tick')
    if A is None:
        raise Unknown('no tick')
    rets = [e for e in A.events if e.kind == 'return']
    v = strip_at(rets[0].val) if len(rets) == 1 else ('none',)
    if v[0] == 'call' and v[2].split('::')[-1] == 'tick' and depth < 3:
        e = next(x for x in A.calls() if x.call.site == v[1])
        a = strip_at(e.args[0])
        if a[0] != 'ref' or a[1][0] != ('P', 1) or any(x[0] != 'f' for x in a[1][1:]):
            raise Unknown('part')
        f = strip_at(e.snap[1])
        x = one(f)
        if x is None or not is_input(x):
            raise Unknown('input of a part: ' + pterm(f)[:60])
        ty = ctx.M.pathty(im, a[1]) if hasattr(ctx.M, 'pathty') else e.call.argtys[0]
        while ty[0] == 'ref':
            ty = ty[-1]
        for im2 in ctx.M.impls_by_trait.get(tr, ()):
            if ty[0] == 'adt' and im2['self'][0] == 'adt' and im2['self'][1] == ty[1]:
                return node_transfer(ctx, tr, im2, prefix + tuple(y[1] for y in a[1][1:]), depth + 1)
        raise Unknown('part')
    return transfer(ctx, A, lambda p: Rat(atom(('par',) + prefix + equal.get(p, p))))


def one(t):
    """the one element of a frame"""
    t = strip_at(t)
    if t[0] == 'refval':
        return one(t[1])
    if t[0] in ('pure', 'call') and len(t[3]) == 1:
        return one(t[3][0])
    if t[0] == 'agg' and t[1] == 'array' and len(t[4]) == 1:
        t = strip_at(t[4][0][1])
        while t[0] in ('conv', 'cast'):
            t = strip_at(t[2] if t[0] == 'cast' else t[1])
        return t
    return None


def response(ctx, A, e):
    """value of the function given to Signal::filter, over the atoms of transfer; x is the response of the input"""
    t = strip_at(e.args[2])
    if t[0] != 'agg' or t[1] != 'closure':
        raise Unknown('function')
    B = ctx.function(t[2])
    got = dict(t[4])
    rets = [x for x in B.events if x.kind == 'return'] if B else []
    if len(rets) != 1:
        raise Unknown('function')
    def leaf(s):
        if s == ('arg', 2):
            return Rat(atom('x'))
        if s[0] == 'mem' and s[1]:
            root, rest = s[1][0], s[1][1:]
            if root[0] == 'D':
                c = strip_at(root[1])
                if c[0] == 'mem' and len(c[1]) == 2 and c[1][0] == ('P', 1) and c[1][1][0] == 'f':
                    v = strip_at(got.get(c[1][1][1], ('none',)))
                    if v[0] == 'ref':
                        return place(v[1] + tuple(rest))
            elif root == ('P', 1) and len(rest) == 1 and rest[0][0] == 'f' and rest[0][1] in got:
                v = strip_at(got[rest[0][1]])
                if v == ('arg', 3):
                    return Rat(atom('f'))
                return outer(v)
    def place(p):
        if p == (('L', 0, 3),):
            return Rat(atom('f'))
        if p[0] == ('P', 1) and all(x[0] == 'f' for x in p[1:]):
            return par(tuple(x[1] for x in p[1:]))
        raise Unknown('captured place')
    def par(p):
        return Rat(atom('rate' if p[-1] == 'sample_rate' else ('par',) + p))
    def out(s):
        if s == ('arg', 3):
            return Rat(atom('f'))
        f = field(s)
        return None if f is None else par(f)
    outer = Eval(out, 'f', 'rate')
    return Eval(leaf, 'f', 'rate')(rets[0].val)


def modes(ctx):
    """modes of the state variable filter: (impl, value of each coefficient, response) over atoms of the parameters"""
    for im in ctx.M.impls_by_trait.get('svf::SvfMode', ()):
        U, Q = (ctx.function(im['items'][m]) if m in im['items'] else None for m in ('update', 'response'))
        yield im, U, Q


def param2(s):
    """part of the parameter block, second argument"""
    if s[0] == 'mem' and len(s[1]) == 2 and s[1][0] == ('P', 2) and s[1][1][0] == 'f':
        return Rat(atom('rate' if s[1][1][1] == 'sample_rate' else ('par', s[1][1][1])))
    if s == ('arg', 3):
        return Rat(atom('f'))


def coefficients(U):
    ws = [e for e in U.events if e.kind == 'write' and e.path[0] == ('P', 3)]
    ev = Eval(param2)
    out = {}
    for e in ws:
        v = strip_at(e.val)
        if e.path == (('P', 3),) and v[0] == 'agg':
            out.update({k: ev(x) for k, x in v[4]})
        elif len(e.path) == 2 and e.path[1][0] == 'f':
            out[e.path[1][1]] = ev(v)
        else:
            raise Unknown('coefficients')
    return out


def mode_transfer(ctx, A, coefs):
    def param(p):
        if p[-2:-1] == ('coefs',) and p[-1] in coefs:
            return coefs[p[-1]]
        raise Unknown('parameter ' + '.'.join(p))
    return transfer(ctx, A, param)[0]


def mode_response(Q):
    rets = [x for x in Q.events if x.kind == 'return']
    if len(rets) != 1:
        raise Unknown('function')
    return Eval(param2, 'f', 'rate')(rets[0].val)
