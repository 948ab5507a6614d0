"""C19: operators build what they are documented to build; the three environments agree."""
from ..core import An, pterm

ASSUME = ['the meaning of each combinator itself is C16', 'conversions between f32, f64 and the generic sample type are not compared']
ENVS = ('prelude', 'hacker', 'hacker32')
MODS = tuple(e + '::' for e in ENVS)
REAL = ('Real', 'Float', 'Num')


def env_leaf(F, fr, fo, fn, args, t):
    return not (fo.get('rname') or fo['name']).startswith(MODS)


class Canon:
    """canonical form of a term: sample types, conversions, sites and module names removed"""
    def __init__(self, ctx, A, leaf, real=(), depth=0):
        self.ctx, self.A, self.leaf, self.real, self.depth = ctx, A, leaf, real, depth
        self.memo = {}
        self.busy = set()
        self.cut = set()

    def ty(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'prim' and t[1] in ('f32', 'f64'):
            return 'R'
        if t[0] == 'adt' and t[1] in ('wide::f64x4', 'wide::f32x8'):
            return 'RV'        # the SIMD vector of the environment's sample type
        if t[0] == 'param' and t[1] in self.real:
            return 'R'
        if t[0] in ('closure', 'opaque', 'other', 'fndef', 'fn'):
            return t[0]
        if t[0] == 'alias' and 'opaque' in str(t[1]):
            return 'opaque'
        return tuple(self.ty(x) for x in t)

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            self.cut.add(t)
            return ('rec',)
        self.busy.add(t)
        r = self.go(t)
        self.busy.discard(t)
        self.cut.discard(t)
        if not self.cut:
            self.memo[t] = r          # only what does not depend on where the walk entered a cycle
        return r

    def go(self, t):
        k = t[0]
        W = self.A.W
        if k == 'conv':
            return self(t[1])
        if k == 'cast' and t[1] in ('FloatToFloat', 'From'):
            return self(t[2])
        if k == 'cast':
            return ('cast', t[1], self(t[2]), self.ty(t[3]) if len(t) > 3 else None)
        if k == 'c':
            return ('c', float(t[1])) if isinstance(t[1], (int, float)) and not isinstance(t[1], bool) else t
        if k == 'pure':
            if t[1].split('::')[-1] == 'convert' or t[1] == 'into' and self.ty(t[2][0]) == 'R':
                return self(t[3][0])
            a = tuple(self(x) for x in t[3])
            if t[1] in ('min', 'max'):
                a = tuple(sorted(a, key=repr))
            return ('f', name(t[1]), self.tys(t[1], t[2]), a)
        if k == 'call':
            return ('f', name(t[2]), (), tuple(self(x) for x in t[3]))
        if k == 'at':
            return self(t[2]) if len(t) > 2 else ('at',)
        if k == 'gen':
            return ('gen', self(W.genbody.get(t[1], ('top',))))
        if k in ('horet', 'mapped'):
            return ('map', self(W.genbody.get(t[1], ('top',))))
        if k == 'elem':
            it = W.elem.get(t[1])
            return ('elem', self(it) if it else None, self.path(t[2]))
        if k == 'iter':
            return tuple(self(x) if isinstance(x, tuple) else ('#' if isinstance(x, int) else x) for x in t)
        if k == 'phi':
            return ('phi', tuple(sorted({self(x) for x in W.operands(t)}, key=repr)))
        if k == 'agg' and t[1] == 'closure':
            return ('closure', self.closure(t[2]), tuple(self(v) for _, v in t[4]))
        if k == 'agg':
            return ('agg', t[1], t[2], tuple((n, self(v)) for n, v in t[4]))
        if k == 'ref':
            return ('ref', self.path(t[1]))
        if k in ('mem', 'len', 'optref'):
            return (k, self.path(t[1]))
        if k == 'zst':
            return ('zst', self.ty(t[1]))
        if k == 'nc':
            return ('nc', name(t[1]), self.ty(t[2]))
        if k == 'fnptr':
            return ('fnptr', name(t[2]))
        if k == 'pj':
            return ('pj', self(t[1]), self.path((t[2],)))
        if k == 'bin' and len(t) == 4 and t[1] in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
            return ('bin', t[1]) + tuple(sorted((self(t[2]), self(t[3])), key=repr))
        if k == 'optn':
            return ('optn', tuple(self(x) for x in t[2:]))
        if isinstance(k, tuple) and k and k[0] in ('L', 'P'):
            return self.path(t)
        return tuple(self(x) if isinstance(x, tuple) else x for x in t)

    def tys(self, n, ts):
        return tuple(self.ty(x) for x in ts)

    def path(self, p):
        out = []
        for x in p:
            if isinstance(x, tuple) and x[0] == 'L':
                out.append('L')
            elif isinstance(x, tuple) and x[0] == 'i':
                out.append(('i', self(x[1])))
            elif isinstance(x, tuple) and x[0] in ('D', 'V'):
                out.append((x[0], self(x[1])))
            else:
                out.append(str(x))
        return tuple(out)

    def closure(self, cid):
        f = self.ctx.M.fns.get(cid)
        if f is None or not f.has_body or self.depth > 3:
            return None
        return signature(self.ctx, f, self.leaf, self.depth + 1, self.real)


def name(n):
    for m in MODS:
        n = n.replace(m, 'env::')
    return n


def signature(ctx, f, leaf, depth=0, real=()):
    """what the function builds: canonical return value and the calls made on the way"""
    key = ('c19', f.id, leaf is env_leaf, depth)
    if key in ctx._cache:
        return ctx._cache[key]
    ctx._cache[key] = ('rec',)
    A = An(ctx, f, {}, None, leaf)
    real = set(real) | {t[1] for t, tr in f.bounds if t[0] == 'param' and tr.split('::')[-1] in REAL}
    C = Canon(ctx, A, leaf, real, depth)
    rets = []
    calls = []
    for e in A.events:
        if e.kind == 'return':
            rets.append(C(e.val))
        elif e.kind == 'call' and e.extra and 'panic' not in e.call.name:
            n = name(e.call.rname or e.call.name)
            if n.split('::')[-1] in ('convert',):
                continue
            calls.append((n, tuple(C(x) for x in e.snap)))
        elif e.kind == 'switch':
            calls.append(('if', C(e.val)))
    ctx._cache[key] = (tuple(rets), tuple(sorted(calls, key=repr)))
    return ctx._cache[key]


def stop_leaf(F, fr, fo, fn, args, t):
    n = (fo.get('rname') or fo['name'])
    m = n.split('::')[-1]
    if n.startswith('net::Net::') and m in ('binary', 'pipe', 'bus', 'stack', 'branch', 'thru', 'wrap', 'scalar', 'outputs', 'inputs'):
        return True
    return m == 'new' or fo.get('trait') in ('audionode::AudioNode', 'audiounit::AudioUnit')


NODE2 = {'Shr': 'audionode::Pipe', 'BitOr': 'audionode::Stack', 'BitXor': 'audionode::Branch', 'BitAnd': 'audionode::Bus',
         'Add': 'audionode::Binop', 'Sub': 'audionode::Binop', 'Mul': 'audionode::Binop'}
NET2 = {'Shr': 'pipe', 'BitOr': 'stack', 'BitXor': 'branch', 'BitAnd': 'bus', 'Add': 'binary', 'Sub': 'binary', 'Mul': 'binary'}
FRAME = {'Add': 'audionode::FrameAdd', 'Sub': 'audionode::FrameSub', 'Mul': 'audionode::FrameMul'}


def kind(t):
    if t == ('prim', 'f32'):
        return 'f32'
    if t[0] == 'adt':
        return {'combinator::An': 'An', 'net::Net': 'Net'}.get(t[1])
    return None


def which(A, t):
    """which operands a term comes from"""
    return {x[1] for x in A.W.deps(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'arg'}


def head(t):
    while t[0] == 'agg' and t[1] == 'combinator::An':
        t = t[4][0][1]
    return t


def callparts(t):
    if t[0] == 'pure':
        return t[1], t[2], t[3]
    if t[0] == 'call':
        return t[2], (), t[3]
    return None, (), ()


def types_in(t):
    if isinstance(t, tuple):
        if t and t[0] == 'adt':
            yield t[1]
        for x in t:
            yield from types_in(x)


def operator(ctx, R, tr, im):
    op = tr.split('::')[-1]
    ks = [kind(x) for x in im['trait_args']]
    if not any(k in ('An', 'Net') for k in ks):
        return False
    M = ctx.M
    key = '%s for %s' % (op, ' and '.join(M.tname(x) for x in im['trait_args']))
    f = M.fns[next(iter(im['items'].values()))]
    A = An(ctx, f, {}, None, stop_leaf)
    at = '%s:%s' % (f.file, f.line)
    R.inst(key, at)
    rets = [e.val for e in A.events if e.kind == 'return']
    if len(rets) != 1 or rets[0][0] == 'phi':
        R.bad(key, '%s: the result of %s depends on more than its operands' % (at, key))
        return True

    def bad(why):
        R.bad(key, '%s: %s %s' % (at, key, why))
    t = rets[0]
    out = im['types'].get('Output')
    if ks == ['An', 'An'] or ks == ['An'] or set(ks) == {'An', 'f32'}:
        node = out[2][0] if out and out[1] == 'combinator::An' else None
        if node is None or node[0] != 'adt':
            bad('does not return a component')
            return True
        n, ta, args = callparts(head(t))
        if n is None and head(t)[0] == 'agg':
            n, args = head(t)[1] + '::new', [v for _, v in head(t)[4]]
        if n is None:
            bad('does not construct its result directly')
            return True
        operands = []
        frames = []
        consts = []
        for a in args:
            w = which(A, a)
            an, _, aa = callparts(a)
            if an and 'Frame' in an.split('<')[0]:
                frames.append((an, aa))
            elif a[0] in ('agg', 'zst') and 'Frame' in str(a[1]):
                frames.append((str(a[1]), [v for _, v in a[4]] if a[0] == 'agg' else []))
            elif w:
                operands.append(w)
        params = [x for x in node[2]]
        if ks == ['An', 'An']:
            if node[1] != NODE2[op]:
                bad('builds %s instead of %s' % (node[1], NODE2[op]))
            elif operands != [{1}, {2}]:
                bad('does not take its operands in written order')
            else:
                ps = [p for p in params if p[0] == 'param']
                if ps != [im['trait_args'][0][2][0], im['trait_args'][1][2][0]]:
                    bad('does not take its operands in written order')
                if op in FRAME and not any(p[0] == 'adt' and p[1] == FRAME[op] for p in params):
                    bad('does not use %s' % FRAME[op])
        elif ks == ['An']:
            want = {'Neg': ('audionode::Unop', 'audionode::FrameNeg'), 'Not': ('audionode::Thru', None)}[op]
            if node[1] != want[0] or want[1] and want[1] not in [p[1] for p in params]:
                bad('builds %s' % M.tname(node))
        else:
            sc = 2 if ks[1] == 'f32' else 1
            fr = [p[1].split('::')[-1] for p in params if p[0] == 'adt']
            arg = ('arg', sc)
            neg = ('un', 'Neg', arg)
            okay = {'Add': [('FrameAddScalar', arg)], 'Mul': [('FrameMulScalar', arg)],
                    'Sub': [('FrameAddScalar', neg), ('FrameSubScalar', arg)] if sc == 2 else [('FrameNegAddScalar', arg)]}[op]
            vals = [v for _, aa in frames for v in aa if which(A, v)]
            if node[1] != 'audionode::Unop' or not any(x[0] in fr and vals == [x[1]] for x in okay):
                bad('does not apply the constant as written')
        return True
    # graphs
    def strip(x):
        n, _, a = callparts(x)
        while n and n.split('::')[-1] == 'wrap':
            x = a[0]
            while x[0] == 'agg' and x[1] == 'box':
                x = x[4][0][1]
            n, _, a = callparts(x)
        return x
    if ks == ['Net']:
        n, _, a = callparts(t)
        if op == 'Not':
            if not n or n.split('::')[-1] != 'thru' or which(A, a[0]) != {1}:
                bad('does not build a pass-through')
        else:
            n, _, l = callparts(t[2]) if t[0] == 'bin' and t[1] == 'Sub' else (None, 0, 0)
            ok = n and n.split('::')[-1] == 'scalar' and l[1] in (('c', 0), ('c', 0.0)) and t[3] == ('arg', 1)
            if not ok and n is None:
                n, ta, a = callparts(t)
                ok = n and (n.split('::')[-1] == 'binary' and 'FrameSub' in str(ta) + str(a) and a[1] == ('arg', 1) or 'FrameNeg' in str(t))
            if not ok:
                bad('does not negate its operand')
        return True
    if 'f32' in ks:
        sc = 2 if ks[1] == 'f32' else 1
        netarg = ('arg', 3 - sc)
        if t[0] == 'bin' and t[1] == op:
            l, r = t[2], t[3]
        else:
            n, ta, a = callparts(t)
            if not n or n.split('::')[-1] != 'binary' or FRAME[op] not in list(types_in(ta)) + list(types_in(a)):
                bad('does not combine graph and constant with the operation it is written with')
                return True
            l, r = a[0], a[1]
        if op == 'Sub' and sc == 1:
            l, r = r, l
        if l != netarg and op != 'Sub':
            l, r = r, l
        n, _, a = callparts(r)
        if l != netarg or not n or n.split('::')[-1] != 'scalar' or a[1] != ('arg', sc):
            bad('does not combine graph and constant in written order')
        return True
    n, ta, a = callparts(t)
    if not n or n.split('::')[-1] != NET2[op]:
        bad('does not build a %s of its operands' % NET2[op])
        return True
    if [strip(x) for x in a[:2]] != [('arg', 1), ('arg', 2)]:
        bad('does not take its operands in written order')
    if op in FRAME and FRAME[op] not in list(types_in(ta)) + list(types_in(a)) + [str(callparts(x)[0]).split('::<')[0] for x in a]:
        bad('does not use %s' % FRAME[op])
    return True


def run(ctx, R):
    M = ctx.M
    R.rule('For every implementation of an arithmetic or graph operator on components, graphs and constants: the value returned is the documented combination, with the operands in written order and nothing else.')
    R.rule('Every function of the generic environment exists in the two concrete ones and, as a term over its arguments, builds the same value with the same calls, up to the sample type.')
    n = 0
    for tr in sorted(M.impls_by_trait):
        if tr.startswith('std::ops::') and tr.split('::')[-1] in ('Add', 'Sub', 'Mul', 'Neg', 'Not', 'BitAnd', 'BitOr', 'BitXor', 'Shr'):
            for im in M.impls_by_trait[tr]:
                n += bool(operator(ctx, R, tr, im))
    R.floor('operator implementations', n, 40)
    envs = {e: {} for e in ENVS}
    for f in M.fns.values():
        for e in ENVS:
            if f.kind == 'Fn' and f.pub and f.has_body and f.name.startswith(e + '::') and f.name.count('::') == 1:
                envs[e][f.name.split('::')[1]] = f
    k = 0
    for m in sorted(set(envs['prelude']) | set(envs['hacker']) | set(envs['hacker32'])):
        fs = {e: envs[e].get(m) for e in ENVS}
        missing = [e for e in ENVS if fs[e] is None]
        key = 'operation %s' % m
        if missing and 'prelude' in missing:
            R.skip(key, 'not part of the generic environment')
            pairs = [('hacker', 'hacker32')] if not {'hacker', 'hacker32'} & set(missing) else []
            if not pairs:
                R.bad(key, '%s exists only in %s' % (m, [e for e in ENVS if fs[e]]))
        else:
            for e in missing:
                R.bad(key, '%s is missing from %s' % (m, e))
            pairs = [('hacker', 'hacker32'), ('hacker', 'prelude'), ('hacker32', 'prelude')]
        k += 1
        f0 = [f for f in fs.values() if f][0]
        R.inst(key, '%s:%s' % (f0.file, f0.line))
        for a, b in pairs:
            fa, fb = fs[a], fs[b]
            if not fa or not fb:
                continue
            if signature(ctx, fa, env_leaf) == signature(ctx, fb, env_leaf):
                continue
            da, db = signature(ctx, fa, None), signature(ctx, fb, None)
            if da == db:
                R.notes.append('%s: %s and %s are written differently and agree after inlining' % (m, a, b))
                continue
            R.bad(key, '%s:%s and %s:%s build different things for %s: %s' % (fa.file, fa.line, fb.file, fb.line, m, difference(signature(ctx, fa, env_leaf), signature(ctx, fb, env_leaf))))
    R.floor('operations', k, 195)


def difference(x, y, d=0):
    if type(x) is tuple and type(y) is tuple and d < 40:
        if len(x) == len(y):
            for a, b in zip(x, y):
                if a != b:
                    return difference(a, b, d + 1)
    return '%s / %s' % (str(x)[:90], str(y)[:90])
