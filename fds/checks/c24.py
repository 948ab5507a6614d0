"""C24: filters have the response they document: coefficients and sample update together make the documented prototype."""
import math
from fractions import Fraction
from ..core import NODE, pterm
from ..chan import Unknown
from ..state import mutators
from ..terms import strip_at
from ..transfer import Rat, Eval, atom, const, P, ONE, TAU, frac, transfer, node_transfer, field, FUNS, padd, pmul, reduce

ASSUME = ['real arithmetic: rounding of samples, coefficients and constants is not considered',
          'the function of a mathematical operation is what its name says (tan, exp, sqrt of the math module)',
          'a nonlinear biquad is compared with its prototype at the identity shape only']
PI = TAU / 2
NUM = {'PI': PI, 'TAU': TAU, 'SQRT_2': math.sqrt(2), 'FRAC_1_SQRT_2': math.sqrt(0.5), 'E': math.e, 'FRAC_PI_2': PI / 2, 'FRAC_PI_4': PI / 4}
one = Rat(ONE)
num = lambda x: Rat(P({(): Fraction(x)}))
CUT, Q, GAIN, RATE = (Rat(atom(x)) for x in ('par.cutoff', 'par.q', 'par.gain', 'rate'))
Z = Rat(atom('z1'))


class Trig(Eval):
    """sines, cosines and tangents of multiples of pi * cutoff / rate are written with the tangent u of half that angle"""
    def fun(self, name, r):
        if name in ('sin', 'cos', 'tan'):
            q = r / (num(PI) * CUT / RATE)
            n, d = q.n, q.over0()
            k = n[0][1] / Fraction(d[0][1]) if n else 0
            if not n:
                return num(0) if name != 'cos' else one
            if Rat(n).same(Rat(d) * num(k)) and abs(k - round(k)) < Fraction(1, 10 ** 9) and abs(round(k)) <= 8:
                k = int(round(k))
                u = Rat(atom('u'))
                den = Rat(ONE, ((tuple(sorted((((), Fraction(1)), (('u', 'u'), Fraction(1))))), 1),))
                c1, s1 = (one - u * u) * den, (u + u) * den
                if name == 'tan' and abs(k) == 1:
                    return num(k) * (u + u) / (one - u * u)
                c, s = one, Rat(())
                for _ in range(abs(k)):
                    c, s = c * c1 - s * s1, s * c1 + c * s1
                if k < 0:
                    s = -s
                return s if name == 'sin' else c if name == 'cos' else s / c
        if name == 'sqrt' and not r.d and len(r.n) == 1 and not r.n[0][0] and r.n[0][1] > 0:
            return num(math.sqrt(r.n[0][1]))
        if name == 'exp':
            if not r.n:
                return one
            for n, q, a in FUNS:
                if n != 'exp' or not q.n:
                    continue
                d = r / q   # the power of one that is known already
                k = (d.n[0][1] / Fraction(d.over0()[0][1]))
                if abs(k - round(k)) < Fraction(1, 10 ** 9) and 1 <= abs(round(k)) <= 4 and d.same(num(round(k))):
                    e = one
                    for _ in range(abs(round(k))):
                        e = e * a
                    return e if k > 0 else one / e
        return Eval.fun(self, name, r)

    def ev(self, s):
        if s[0] == 'nc' and s[1].split('::')[-1] in NUM:
            return num(NUM[s[1].split('::')[-1]])
        if s[0] in ('pure', 'call') and len(s[3]) == 1:
            m = (s[1] if s[0] == 'pure' else s[2]).split('::')[-1]
            if m == 'recip':
                return one / self(s[3][0])
            if m == 'cubed':
                x = self(s[3][0])
                return x * x * x
        return Eval.ev(self, s)


def proto(kind):
    """transfer function of the documented filter"""
    T = Trig(lambda t: None)
    g = T.fun('tan', num(PI) * CUT / RATE)
    s = (one - Z) / ((one + Z) * g)
    k = one / Q
    A = T.fun('sqrt', GAIN)
    D = s * s + k * s + one
    if kind == 'butterworth':
        k = num(math.sqrt(2))
        return one / (s * s + k * s + one)
    if kind in ('lowshelf', 'highshelf'):
        r = T.fun('sqrt', A)
        if kind == 'lowshelf':
            return A * (s * s + r * k * s + A) / (A * s * s + r * k * s + one)
        return A * (A * s * s + r * k * s + one) / (s * s + r * k * s + A)
    return {'lowpass': lambda: one / D, 'highpass': lambda: s * s / D, 'bandpass': lambda: s / D, 'notch': lambda: (s * s + one) / D,
            'peak': lambda: (s * s - one) / D, 'allpass': lambda: (s * s - k * s + one) / D,
            'bell': lambda: (s * s + k * A * s + one) / (s * s + k / A * s + one)}[kind]()


PROTOS, SEEN = {}, {}


def compare(H, kind):
    """None if H is the documented filter, else what is wrong"""
    key = (id(H), kind)
    if key not in SEEN:
        SEEN[key] = H, compare1(H, kind)
    return SEEN[key][1]


def compare1(H, kind):
    if kind == 'resonator':
        # poles at the centre with radius exp(-pi * center / (q * rate)), zeros at zero and at the Nyquist frequency, gain that keeps the noise power
        T = Trig(lambda t: None)
        r = T.fun('exp', -(num(PI) * CUT / (Q * RATE)))
        c = T.fun('cos', num(TAU) * CUT / RATE)
        b = H * (one - num(2) * r * c * Z + r * r * Z * Z) / (one - Z * Z)
        g = b * b / (one - r * r)
        v = g.n[0][1] / Fraction(g.over0()[0][1]) if g.n else 0
        return None if g.n and g.same(num(v)) else 'poles at the centre frequency, zeros at zero and at half the sample rate, and a noise gain that does not depend on the bandwidth'
    if kind not in PROTOS:
        PROTOS[kind] = onepole(kind) if kind in ONE_POLE else proto(kind)
    return None if H.same(PROTOS[kind]) else ONE_POLE.get(kind) or TEXT[kind]


S2 = 's² + s/Q + 1'
TEXT = {'butterworth': '1 / (s² + √2 s + 1)', 'lowpass': '1 / (%s)' % S2, 'highpass': 's² / (%s)' % S2, 'bandpass': 's / (%s)' % S2, 'notch': '(s² + 1) / (%s)' % S2,
        'peak': '(s² - 1) / (%s)' % S2, 'allpass': '(s² - s/Q + 1) / (%s)' % S2, 'bell': '(s² + s A/Q + 1) / (s² + s/(A Q) + 1), A = √gain',
        'lowshelf': 'A (s² + s √A/Q + A) / (A s² + s √A/Q + 1), A = √gain', 'highshelf': 'A (A s² + s √A/Q + 1) / (s² + s √A/Q + A), A = √gain'}
ONE_POLE = {'lowpole': '(1 - p) / (1 - p z1), p = exp(-2π cutoff / rate)', 'highpole': 'p (1 - z1) / (1 - p z1), p = exp(-2π cutoff / rate)',
            'dcblock': '(1 - z1) / (1 - p z1), p = 1 - 2π cutoff / rate', 'allpole': '(η + z1) / (1 + η z1), η = (1 - delay) / (1 + delay)'}


def onepole(kind):
    if kind == 'allpole':
        e = (one - CUT) / (one + CUT)
        return (e + Z) / (one + e * Z)
    x = -(num(TAU) * CUT / RATE)
    if kind == 'dcblock':
        p = one + x
        return (one - Z) / (one - p * Z)
    p = Trig(lambda t: None).fun('exp', x)
    return (one - p) / (one - p * Z) if kind == 'lowpole' else p * (one - Z) / (one - p * Z)


# constructors of coefficients, by documented name
BIQUADS = {'butter_lowpass': 'butterworth', 'resonator': 'resonator', 'lowpass': 'lowpass', 'highpass': 'highpass', 'bell': 'bell'}
SVFS = ('lowpass', 'highpass', 'bandpass', 'notch', 'peak', 'allpass', 'bell', 'lowshelf', 'highshelf')
MODES = {'LowpassMode': 'lowpass', 'HighpassMode': 'highpass', 'BandpassMode': 'bandpass', 'NotchMode': 'notch', 'PeakMode': 'peak', 'AllpassMode': 'allpass', 'BellMode': 'bell',
         'LowshelfMode': 'lowshelf', 'HighshelfMode': 'highshelf', 'ResonatorBiquad': 'resonator', 'LowpassBiquad': 'lowpass', 'HighpassBiquad': 'highpass', 'BellBiquad': 'bell'}
PARS = {'sample_rate': RATE, 'cutoff': CUT, 'center': CUT, 'q': Q, 'gain': GAIN}
# node -> (documented filter, derived fields, parameters)
NODES = {'Lowpole': ('lowpole', ('coeff',)), 'Highpole': ('highpole', ('coeff',)), 'DCBlock': ('dcblock', ('coeff',)), 'Allpole': ('allpole', ('eta',)),
         'ButterLowpass': ('butterworth', ('biquad', 'coefs')), 'Resonator': ('resonator', ('biquad', 'coefs'))}
SHAPED = ('FbBiquad', 'FixedFbBiquad', 'DirtyBiquad', 'FixedDirtyBiquad')


def fndefs(A):
    return {e.call.site: e.call.fndef for e in A.calls() if e.call.dyn and getattr(e.call, 'fndef', None)}


def evaluator(A, leaf):
    fd = fndefs(A)
    def lf(t):
        r = leaf(t)
        if r is not None:
            return r
        if t[0] == 'call' and t[2] == 'dyncall' and fd.get(t[1], '').split('::')[-1] in ('from_f32', 'from_f64', 'new', 'convert') and len(t[3]) == 1:
            return ev(t[3][0])
    ev = Trig(lf)
    return ev


def coefs_of(v, ev):
    v = strip_at(v)
    if v[0] != 'agg' or not v[4]:
        raise Unknown('coefficients ' + pterm(v)[:60])
    return {k: ev(x) for k, x in v[4]}


def constructor(ctx, f):
    A = ctx.function(f.id)
    rets = [e for e in A.events if e.kind == 'return'] if A else []
    if len(rets) != 1:
        raise Unknown('returns')
    order = (RATE, CUT, Q, GAIN)
    return A, coefs_of(rets[0].val, evaluator(A, lambda t: order[t[1] - 1] if t[0] == 'arg' and 1 <= t[1] <= 4 else None))


def mode_coefs(U):
    def leaf(s):
        if s[0] == 'mem' and len(s[1]) == 2 and s[1][0] == ('P', 2) and s[1][1][0] == 'f' and s[1][1][1] in PARS:
            return PARS[s[1][1][1]]
    ev = evaluator(U, leaf)
    out = {}
    for e in U.events:
        if e.kind == 'write' and e.path[0] == ('P', 3):
            if e.path == (('P', 3),):
                out.update(coefs_of(e.val, ev))
            elif len(e.path) == 2 and e.path[1][0] == 'f':
                out[e.path[1][1]] = ev(e.val)
            else:
                raise Unknown('coefficients')
        elif e.kind in ('switch', 'fill') or e.kind == 'call' and e.extra and any(p[0] == ('P', 3) for _, p in U.W.mutable_args(e.call, e.args)):
            raise Unknown('update')
    return out


HOSTS, DONE = [], {}


def host(ctx, A, ident=()):
    """transfer function of a sample update over its coefficients; equal ones are shared"""
    key = ('c24', id(A))
    if key not in ctx._cache:
        def param(p):
            if p[-2:-1] == ('coefs',):
                return Rat(atom('co.' + p[-1]))
            raise Unknown('parameter ' + '.'.join(p))
        try:
            H = transfer(ctx, A, param, ident)[0]
            i = next((i for i, h in enumerate(HOSTS) if h.same(H)), None)
            if i is None:
                HOSTS.append(H)
                i = len(HOSTS) - 1
            ctx._cache[key] = i
        except Unknown as x:
            ctx._cache[key] = x
    if isinstance(ctx._cache[key], Unknown):
        raise ctx._cache[key]
    return ctx._cache[key]


def substitute(H, coefs):
    """coefficients put into a transfer function, over their common denominator"""
    d = {}
    for r in coefs.values():
        for f, k in r.d:
            d[f] = max(d.get(f, 0), k)
    n = {'co.' + k: r.over(d) for k, r in coefs.items()}
    D = frac(ONE, d).over0() if d else ONE
    num_, den_ = H.n, H.over0()
    deg = max(sum(1 for x in m if x.startswith('co.')) for p in (num_, den_) for m, _ in p)
    pw = [ONE]
    for _ in range(deg):
        pw.append(pmul(pw[-1], D))
    def sub(p):
        out = ()
        for m, c in p:
            cs = [x for x in m if x.startswith('co.')]
            t = ((tuple(x for x in m if not x.startswith('co.')), c),)
            for x in cs:
                if x not in n:
                    raise Unknown('coefficient ' + x)
                t = pmul(t, n[x])
            out = padd(out, pmul(t, pw[deg - len(cs)]))
        return reduce(out)
    a, b = sub(num_), sub(den_)
    if not b:
        raise Unknown('no denominator')
    return Rat(a, ((b, 1),))


def with_coefs(ctx, A, coefs, ident=()):
    i = host(ctx, A, ident)
    key = (i, tuple(sorted((k, r.n, r.d) for k, r in coefs.items())))
    if key not in DONE:
        DONE[key] = substitute(HOSTS[i], coefs)
    return DONE[key]


def judge(R, key, where, kind, what, make):
    try:
        H = make()
        w = compare(H, kind)
    except Unknown as x:
        R.skip(key, 'form not recognised: %s' % x)
        return 0
    if w is None:
        R.inst(key, '%s: %s' % (where, TEXT.get(kind) or ONE_POLE.get(kind) or 'resonator'))
    else:
        R.bad(key, '%s: %s: the transfer function is not that of the documented filter: %s' % (where, what, w))
    return 1


def run(ctx, R):
    M = ctx.M
    R.rule('the coefficients of a filter, put into its sample update, make the documented second-order prototype in s = (1 - z1) / (1 + z1) / tan(π cutoff / rate), '
           'or the documented one-pole filter; compared as rational functions of z1, the tangent, Q and gain')
    ims = {ctx.tyname(im): im for tr, im in ctx.node_impls() if tr == NODE}
    ticks = {T: ctx.method(NODE, im, 'tick') for T, im in ims.items() if T in ('Biquad', 'Svf', 'FixedSvf') + SHAPED + tuple(NODES)}
    n = 0
    # constructors of coefficients
    for f in M.fns.values():
        parts = f.name.split('::')
        if not (f.has_body and f.pub and f.kind == 'AssocFn') or '<' in parts[0]:
            continue
        base, m = parts[-1], None
        if 'BiquadCoefs' in parts and base in BIQUADS and ticks.get('Biquad') is not None:
            n += judge(R, 'BiquadCoefs::%s' % base, f.name, BIQUADS[base], 'BiquadCoefs::%s in Biquad::tick' % base, lambda: with_coefs(ctx, ticks['Biquad'], constructor(ctx, f)[1]))
        if 'SvfCoefs' in parts and base in SVFS and ticks.get('FixedSvf') is not None:
            n += judge(R, 'SvfCoefs::%s' % base, f.name, base, 'SvfCoefs::%s in FixedSvf::tick' % base, lambda: with_coefs(ctx, ticks['FixedSvf'], constructor(ctx, f)[1]))
    R.count('coefficient constructors', n)
    R.floor('coefficient constructors', n, 10)
    # modes in the components that use them
    k = 0
    for trait, hosts, ident in (('svf::SvfMode', ('Svf', 'FixedSvf'), ()), ('biquad::BiquadMode', SHAPED, ('shape',))):
        for im in M.impls_by_trait.get(trait, ()):
            name = ctx.tyname(im)
            if name not in MODES or 'update' not in im['items']:
                continue
            U = ctx.function(im['items']['update'])
            if U is None:
                continue
            for T in hosts:
                A = ticks.get(T)
                if A is not None:
                    k += judge(R, '%s in %s' % (name, T), U.at(), MODES[name], '%s in %s (%s)' % (name, T, A.at()), lambda: with_coefs(ctx, A, mode_coefs(U), ident))
    R.count('modes in their components', k)
    R.floor('modes in their components', k, 15)
    # components that compute their own coefficients
    j = 0
    for T, (kind, der) in NODES.items():
        if T not in ims or ticks.get(T) is None:
            continue
        for f in mutators(ctx, ims[T]):
            A = ctx.method(NODE, ims[T], f.name.split('::')[-1]) if ' as ' in f.name and 'AudioNode' in f.name else ctx.function(f.id)
            if A is None:
                continue
            for e, v in derived(A, der):
                key = '%s: coefficients of %s in %s' % (A.where(e), T, f.name.split('::')[-1])
                j += judge(R, key, A.where(e), kind, '%s in %s' % (f.name.split('::')[-1], T), lambda: own(ctx, T, A, e, v, der, ticks))
    R.count('coefficients computed by components', j)
    R.floor('coefficients computed by components', j, 6)
    # smoothers settle at their input
    for T in ('Follow', 'AFollow'):
        if T not in ims:
            continue
        A = ctx.method(NODE, ims[T], 'tick')
        key = '%s: gain at zero frequency' % T
        try:
            H = node_transfer(ctx, NODE, ims[T], equal={('rcoeff',): ('acoeff',)} if T == 'AFollow' else {})[0]
            a, b = (P1(x) for x in (H.n, H.over0()))
            if not reduce(b):
                raise Unknown('pole at zero frequency')
            if Rat(a).same(Rat(b)):
                R.inst(key, '%s: a constant input is followed to its value' % A.at())
            else:
                R.bad(key, '%s: %s does not settle at a constant input: its gain at zero frequency is not one' % (A.at(), T))
        except Unknown as x:
            R.skip(key, 'form not recognised: %s' % x)
    others(ctx, R, ims)


def others(ctx, R, ims):
    def form(T, text, make, ok):
        if T not in ims:
            return
        A = ctx.method(NODE, ims[T], 'tick')
        key = '%s: %s' % (T, text)
        try:
            if ok(make(A)):
                R.inst(key, A.at())
            else:
                R.bad(key, '%s: the sample update of %s does not have the documented form: %s' % (A.at(), T, text))
        except Unknown as x:
            R.skip(key, 'form not recognised: %s' % x)
    free = lambda A, ident=(): transfer(ctx, A, lambda p: Rat(atom(('par',) + p)), ident)[0]
    par = lambda x: Rat(atom('par.' + x))
    c = lambda x: par('coefs.' + x)
    direct = (c('b0') + c('b1') * Z + c('b2') * Z * Z) / (one + c('a1') * Z + c('a2') * Z * Z)
    for T in ('Biquad', 'BiquadBank'):
        form(T, '(b0 + b1 z1 + b2 z1²) / (1 + a1 z1 + a2 z1²)', free, lambda H: H.same(direct))
    G = par('p') * (one + Z) / (one + par('k') * Z)
    G4 = G * G * G * G
    form('Moog', 'for small signals, four equal one-pole sections in a negative feedback loop', lambda A: free(A, ('tanh',)), lambda H: (H * (one + par('rez') * Z * G4)).same(G4))
    form('Rez', 'for small signals, a lowpass passes and a bandpass removes a constant signal', lambda A: free(A, ('tanh',)),
         lambda H: Rat(P1(H.n)).same(Rat(P1(H.over0())) * (one - par('bandpass'))) and bool(reduce(P1(H.n, 'par.bandpass'))))
    form('Morph', '(peak filter + morph × input) / 2', lambda A: morph(A), lambda v: v.same((Rat(atom('peak')) + Rat(atom('m')) * Rat(atom('x'))) * num(0.5)))


def morph(A):
    rets = [e for e in A.events if e.kind == 'return']
    if len(rets) != 1:
        raise Unknown('returns')
    def leaf(t):
        if t[0] == 'mem' and t[1] == (('P', 2), ('i', ('c', 0))):
            return Rat(atom('x'))
        if t[0] == 'mem' and t[1] == (('P', 2), ('i', ('c', 3))) or field(t) == ('morph',) and t[0] == 'mem' and t[2] != 0:
            return Rat(atom('m'))
        if t[0] == 'pj' and t[2] == ('i', ('c', 0)):
            u = strip_at(t[1])
            if u[0] == 'call' and u[2].split('::')[-1] == 'tick' and strip_at(u[3][0]) == ('ref', (('P', 1), ('f', 'filter'))):
                return Rat(atom('peak'))
    return Eval(leaf)(rets[0].val)


def P1(p, name='z1'):
    """value at z1 = 1"""
    out = ()
    for m, c in p:
        out = padd(out, ((tuple(x for x in m if x != name), c),))
    return out


def derived(A, der):
    """writes of the coefficients of a component"""
    loc = (('P', 1),) + tuple(('f', x) for x in der)
    for e in A.events:
        if e.kind == 'write' and e.path == loc:
            yield e, strip_at(e.val)


def own(ctx, T, A, e, v, der, ticks):
    """transfer function of a component with the coefficients written by e"""
    alias = {}
    for w in A.events:
        if w.kind == 'write' and w.path[0] == ('P', 1) and len(w.path) == 2 and w.path[1][1] in PARS:
            alias.setdefault(strip_at(w.val), set()).add(w.path[1][1])
    def leaf(t):
        f = field(t)
        if f is not None and len(f) == 1 and f[0] in PARS:
            if t[0] == 'mem' and t[2] != 0:
                raise Unknown('parameter read after it changed')
            return PARS[f[0]]
        a = alias.get(t)
        if a:
            if len(a) != 1:
                raise Unknown('two parameters with the same value')
            return PARS[next(iter(a))]
        # the delay is not kept: an argument, the second input, or the value of a setting
        if T == 'Allpole' and (t == ('arg', 2) or t[0] == 'mem' and t[1] == (('P', 2), ('i', ('c', 1)))
                               or t[0] == 'pj' and t[2][0] == 'f' and strip_at(t[1])[0] == 'pj' and strip_at(t[1])[2] == ('d', 'Delay')):
            return CUT
    ev = evaluator(A, leaf)
    if v[0] == 'agg':
        return with_coefs(ctx, ticks['Biquad'], coefs_of(v, ev))
    c = ev(v)
    def param(p):
        if p == der:
            return c
        raise Unknown('parameter ' + '.'.join(p))
    return transfer(ctx, ticks[T], param)[0]
