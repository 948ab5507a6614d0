"""C11: signal routing analysis follows the real signal wiring."""
from fractions import Fraction
from ..core import An, pterm
from ..terms import strip_at
from ..chan import atom, const, padd, pmul, P, Unknown, HASH, K, segs, show, showf, showp, subst, psubst, acc
from ..route import Route, Plan, Wrong, degree, method
from ..cases import Case
from ..transfer import Rat, node_transfer, response, modes, coefficients, mode_transfer, mode_response, atom as atomt
from .c16 import specs, clean, thru, seg, inp, ch, EQ, XI, XO, N, M, Z, H, k

ASSUME = ['A component is given a frame with as many signals as it has inputs.',
          'Responses that components compute for themselves (filter coefficients to response) are numerical and not decided.']

UNK, VAL, LAT, RES = range(4)
NAMES = ('Unknown', 'Value', 'Latency', 'Response')


def expected():
    S = dict(specs())
    r = lambda n, f: [[seg(Z, n, ('un', 'routing ' + f, ('in', H)))]]
    S['Split'] = S['Split'] + r(N, 'Split')
    S['MultiSplit'] = S['MultiSplit'] + r(pmul(M, N), 'Split')
    S['Join'] = S['Join'] + r(const(1), 'Join')
    S['MultiJoin'] = S['MultiJoin'] + r(M, 'Join')
    S['Reverse'] = S['Reverse'] + r(N, 'Reverse')
    for n in ('Oversampler', 'SettingListener', 'System'):
        S[n] = [[seg(Z, XO, ch('x', inp(XI)))]]
    one = [[seg(Z, const(1), ('in', H))]]
    S['Declick'] = S['Monitor'] = S['SnoopBackend'] = one
    return S


def merge(f):
    """a first round written apart belongs to the loop"""
    f = list(f)
    again = True
    while again:
        again = False
        for i, (q, lo, hi, c) in enumerate(f):
            if q is None:
                continue
            at = padd(q[0], const(1), -1)
            first = (None, psubst(lo, K, at), psubst(hi, K, at), subst(c, K, at))
            if first in f:
                f[i] = ((at, q[1]), lo, hi, c)
                f.remove(first)
                again = True
                break
    return tuple(f)


# entries of components that are not combinators
FILTERS = ('Biquad', 'ButterLowpass', 'Resonator', 'Delay', 'Lowpole', 'DCBlock', 'Pinkpass', 'Allpole', 'Highpole', 'Fir', 'Follow', 'Svf', 'FixedSvf')
NONLINEAR = ('Tap', 'TapLinear', 'MeterNode', 'Moog', 'Hold', 'Rez', 'Shaper')
ARBITRARY = ('FbBiquad', 'FixedFbBiquad', 'DirtyBiquad', 'FixedDirtyBiquad', 'AllNest', 'Feedback', 'Feedback2', 'Sine', 'Dsf', 'Pluck', 'Rossler', 'Lorenz', 'Ramp',
             'PolySaw', 'PolySquare', 'PolyPulse', 'Reverb', 'WaveSynth', 'PhaseSynth')
GENERATORS = ('Impulse', 'Envelope', 'EnvelopeIn', 'Mls', 'Noise', 'Resampler', 'Ring', 'VarFn', 'AtomicSynth', 'WavePlayer', 'Sequencer')
WRAPPERS = ('An', 'BigBlockAdapter', 'BlockRateAdapter', 'Granular', 'NetBackend', 'SequencerBackend', 'SlotBackend', 'Unit', 'PulseWave')


def entries():
    """component -> alternatives for the terms of its entries"""
    un = lambda n, c=('in', Z): ('un', n, c)
    t = {n: (un('filter 0.0'),) for n in FILTERS}
    t.update({n: (un('distort 0.0'),) for n in NONLINEAR})
    t.update({n: (un('routing Arbitrary 0.0', ('in', H)),) for n in ARBITRARY})
    t.update({n: (un('routing Generator 0.0', ('in', H)),) for n in GENERATORS})
    t['AFollow'] = (un('filter 0.0'), un('distort 0.0'))
    t['Tick'] = t['BiquadBank'] = (un('filter 0.0', ('in', H)),)
    t['Limiter'] = (un('delay self.reducer.length', ('in', H)),)
    t['Resynth'] = (un('routing Arbitrary self.window_length', ('in', H)),)
    t['Constant'] = (un('value', ('op', 'of self.output', ('in', H))),)
    x = ('op', 'scale', ('in', k), ('op', 'of self.matrix', ('in', H), ('in', k)))
    t['Mixer'] = (acc('Add', None, Z, M, x),)
    return t


PANNER = (seg(Z, const(1), ('op', 'scale', ('in', Z), ('op', 'of self.left_weight'))), seg(const(1), const(2), ('op', 'scale', ('in', Z), ('op', 'of self.right_weight'))))


def run(ctx, R):
    R.rule('route of every component: one entry per output; in combinators and wrappers each entry, as a term over given signals and results of the parts, is the wiring of the audio; in other components it is the documented kind of analysis of the right input')
    S, T1 = expected(), entries()
    n = dict(wired=0, sized=0, leaves=0, wrapped=0)
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        key = T + '::route'
        A = method(ctx, tr, im)
        if A is None:
            continue
        try:
            node = 'Outputs' in im['types']
            C = Route(ctx, tr, im, A, EQ.get(T, {}))
            for facts, rem in C.paths():
                f, ln = C.route(rem, facts)
                if node:
                    if ln != C.O:
                        R.bad(key + ': entries', '%s: %s returns %s entries, it has %s outputs' % (A.at(), T, showp(ln), showp(C.O)))
                        continue
                    R.inst(key + ': entries', showp(ln))
                    n['sized'] += 1
                pos, zero = C.learn(facts)
                if any(z in zero or padd((), z, -1) in zero for z in (N, XI, XO)):
                    continue
                if T in S and node:
                    n['wired'] += combinator(R, C, A, T, key, facts, merge(f), S)
                elif T in WRAPPERS:
                    n['wrapped'] += wrapper(R, C, A, T, key, f)
                elif T in T1 or T == 'Panner':
                    if T == 'AFollow' and len(f) == 1 and f[0][3][:2] == ('un', 'filter 0.0') and not symmetric(facts):
                        R.bad(key + ': analysis', '%s: AFollow is given a response without its attack and release being equal' % A.at())
                        continue
                    n['leaves'] += leaf(R, C, A, T, key, f, T1)
                elif T == 'Morph':
                    n['leaves'] += morph(R, C, A, key, f)
        except Wrong as x:
            R.bad(key + ': frequency', str(x))
        except Unknown as x:
            R.skip(key, 'form not recognised: %s' % x)
    R.count('results with one entry per output', n['sized'])
    R.count('combinators', n['wired'])
    R.count('wrappers', n['wrapped'])
    R.count('other components', n['leaves'])
    R.floor('combinators', n['wired'], 16)
    R.floor('results with one entry per output', n['sized'], 50)
    R.floor('wrappers', n['wrapped'], 4)
    R.floor('other components', n['leaves'], 35)
    responses(ctx, R)
    transfers(ctx, R)
    routings(ctx, R)
    queries(ctx, R)
    algebra(ctx, R)


def combinator(R, C, A, T, key, facts, f, S):
    if T == 'Thru':
        ok, want = thru(C, facts, f), 'results of x, then the given signals it has no output for'
    elif T == 'Chain':
        w = [seg(Z, XI, ('it', ch('x', inp(XI), H, Z), const(1), N, ('x', k)))]
        ok, want = clean(f) == clean(w), showf(w)
    else:
        ok, want = any(clean(f) == clean(w) for w in S[T]), showf(S[T][0])
    if ok:
        R.inst(key + ': wiring', showf(f) or 'nothing')
        return 1
    R.bad(key + ': wiring', '%s: analysis of %s is [%s], its audio is [%s]' % (A.at(), T, showf(f), want))
    return 0


def wrapper(R, C, A, T, key, f):
    ok = len(f) == 1 and f[0][0] is None and f[0][3][0] == 'ch' and f[0][3][3] == H and f[0][3][2] == inp(C.I)
    if ok:
        R.inst(key + ': wiring', showf(f))
        return 1
    R.bad(key + ': wiring', '%s: analysis of %s is [%s], it plays its part unchanged' % (A.at(), T, showf(f)))
    return 0


def leaf(R, C, A, T, key, f, table):
    if T == 'Panner':
        ok, want = clean(f) == clean(PANNER), showf(PANNER)
    else:
        ok, want = len(f) == 1 and f[0][0] is None and f[0][3] in table[T], ' or '.join(show(x) for x in table[T])
    if ok:
        R.inst(key + ': analysis', showf(f))
        return 1
    R.bad(key + ': analysis', '%s: analysis of %s is [%s], expected %s' % (A.at(), T, showf(f), want))
    return 0


def symmetric(facts):
    """is attack known to equal release"""
    for e, side in facts:
        c = strip_at(e.val)
        while c[0] == 'un' and c[1] == 'Not':
            c, side = strip_at(c[2]), not side
        p = pterm(c)
        if c[0] != 'bin' or ('coeff' in p or 'time' in p) and (c[1], side) in (('Eq', True), ('Ne', False)):
            return True
    return False


def morph(R, C, A, key, f):
    """half the filter and half the dry signal times the morph amount: linear in both"""
    ok = len(f) == 1 and f[0][3][0] == 'lin'
    if not ok:
        if len(f) == 1 and f[0][3][0] == 'un' and f[0][3][2][0] == 'ch':
            return 0  # judged by the rule for filter functions
        R.skip(key + ': analysis', 'form not recognised: ' + showf(f)[:80])
        return 0
    _, fv, fr, x, y = f[0][3]
    linear = lambda p: {x for m, c in p for x in m if x in ('x', 'y')} == {'x', 'y'} and all(m.count('x') + m.count('y') == 1 for m, c in p)
    if x[0] != 'ch' or x[2] != inp(const(4)) or y != ('in', Z) or not linear(fv) or not linear(fr):
        R.bad(key + ': analysis', '%s: analysis of Morph is [%s]: not a sum of multiples of its filter and its dry input' % (A.at(), showf(f)))
        return 0
    R.inst(key + ': analysis', showf(f))
    return 1


def responses(ctx, R):
    R.rule('functions that turn the response of an input into the response of an output are homogeneous of degree one in it, and depend on the frequency that was asked for')
    n = 0
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        A = method(ctx, tr, im)
        if A is None:
            continue
        for e in A.calls():
            if (e.call.rname or e.call.name) != 'signal::Signal::filter':
                continue
            key = '%s: response of %s' % (A.where(e), T)
            t = strip_at(e.args[2])
            B = ctx.function(t[2]) if t[0] == 'agg' and t[1] == 'closure' else None
            rs = [x for x in B.events if x.kind == 'return'] if B else []
            if len(rs) != 1:
                R.skip(key, 'function not recognised')
                continue
            try:
                d = degree(B, rs[0].val)
            except Wrong as x:
                R.bad(key, '%s: %s passes a response on that does not scale with the response of its input: %s' % (A.where(e), T, x))
                continue
            except Unknown as x:
                R.skip(key, str(x))
                continue
            if d != 1:
                R.bad(key, '%s: %s passes a response on that has degree %d in the response of its input' % (A.where(e), T, d))
                continue
            n += 1
            R.inst(key, 'degree one')
            if T in FILTERS + ('AFollow', 'Tick', 'BiquadBank'):
                caught = [k for k, v in t[4] if is_frequency(A, e, v)]
                if not caught or not any(reaches(B, rs[0].val, c) for c in caught):
                    R.bad(key + ': frequency', '%s: the response of %s does not depend on the frequency that was asked for' % (A.where(e), T))
    R.count('response functions', n)
    R.floor('response functions', n, 10)


def transfers(ctx, R):
    R.rule('the response of a linear filter, as a rational function of the delay z1 and the parameters, is the transfer function of its sample update')
    n, svf = 0, []
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        A = method(ctx, tr, im)
        if A is None or 'Outputs' not in im['types']:
            continue
        for e in A.calls():
            if (e.call.rname or e.call.name) != 'signal::Signal::filter':
                continue
            if T in ('Svf', 'FixedSvf'):
                svf.append((T, tr, im))
                continue
            key = '%s: transfer function of %s' % (A.where(e), T)
            try:
                H, states = node_transfer(ctx, tr, im, equal={('rcoeff',): ('acoeff',)} if T == 'AFollow' else {})
                Q = response(ctx, A, e)
                if (H * Rat(atomt('x'))).same(Q):
                    n += 1
                    R.inst(key, '%d state variables' % states)
                else:
                    R.bad(key, '%s: the response of %s is not the transfer function of its tick method (%s)' % (A.where(e), T, ctx.method(tr, im, 'tick').at()))
            except Unknown as x:
                R.skip(key, 'form not recognised: %s' % x)
    k = 0
    for im, U, Q in modes(ctx):
        name = ctx.tyname(im)
        for T, tr, node in svf:
            key = 'transfer function of %s in %s' % (T, name)
            try:
                if U is None or Q is None:
                    raise Unknown('no update or response')
                tick = ctx.method(tr, node, 'tick')
                H = mode_transfer(ctx, tick, coefficients(U))
                if H.same(mode_response(Q)):
                    k += 1
                    R.inst(key, 'response(%s) at %s' % (name, Q.at()))
                else:
                    R.bad(key, '%s: the response of %s is not the transfer function of %s (%s) with the coefficients of %s' % (Q.at(), name, T, tick.at(), U.at()))
            except Unknown as x:
                R.skip(key, 'form not recognised: %s' % x)
    R.count('transfer functions', n)
    R.count('transfer functions of filter modes', k)
    R.floor('transfer functions', n, 5)
    R.floor('transfer functions of filter modes', k, 5)


def is_frequency(A, e, v):
    v = strip_at(v)
    return v == ('arg', 3) or v[0] == 'ref' and v[1] == (('L', 0, 3),) or v[0] not in ('ref', 'mem', 'arg', 'c') or v[0] == 'ref' and v[1][0][0] == 'L'


def reaches(B, t, field):
    """does a value depend on a captured field"""
    seen = set()
    def dep(u):
        if u in seen or not isinstance(u, tuple):
            return False
        seen.add(u)
        if u[:1] == ('mem',) or u[:1] == ('ref',):
            p = u[1]
            if p and p[0] == ('P', 1) and (len(p) == 1 or ('f', field) == p[1]):
                return True
        if u[:1] == ('phi',):
            return any(dep(v) for v in B.W.phis.get((u[1], u[2]), {}).values())
        return any(dep(v) for v in u)
    return dep(t)


def routings(ctx, R):
    R.rule('Routing::route for each kind of routing')
    f = next((f for f in ctx.M.fns.values() if f.name == 'signal::Routing::route'), None)
    if f is None:
        return
    A = An(ctx, f, {}, None, lambda F, fr, fo, fn, args, t: (fo.get('rname') or fo['name']).startswith('signal::'))
    I, O = atom('I'), atom('O')
    per = atom(('div', I, O))
    lat = lambda v: ('self.as %s.0' % v)
    mean = lambda q: ('op', 'scale', acc('Add', None, Z, per, ('in', padd(H, pmul(O, k)))), q)
    zero = ('un', 'distort 0.0', ('in', Z))
    fold = lambda i: acc('nonlinear', i, const(1), I, ('in', k))
    late = 'distort ' + lat('Arbitrary')
    want = {'Split': (('inrem', H, I),), 'Join': (mean(('q', O, I)), mean(('q', const(1), per))), 'Reverse': (('in', padd(padd(I, const(1), -1), H, -1)), ('in', padd(padd(O, const(1), -1), H, -1))),
            'Generator': (('un', 'latency', ('val', lat('Generator'))),),
            'Arbitrary': (('un', late, fold(zero)), fold(('un', late, ('in', Z))), ('un', late, acc('nonlinear', None, Z, I, ('in', k))))}
    n = 0
    for v, (name, _) in enumerate(ctx.M.variants(('adt', 'signal::Routing', ()))):
        if name not in want:
            continue
        key = 'Routing::' + name
        C, Q = Case(A, {1: v}), Plan(ctx, None, None, A)
        try:
            for facts, rem in Q.paths():
                if any(empty(e.val, side) for e, side in facts):
                    continue
                g, ln = Q.route(set(rem) | C.rem, facts)
                if ln == O and len(g) == 1 and g[0][0] is None and g[0][3] in want[name]:
                    n += 1
                    R.inst(key, showf(g))
                elif name == 'Arbitrary' and not settled(g):
                    R.skip(key, 'form not recognised: ' + showf(g)[:80])
                else:
                    R.bad(key, '%s: routing %s gives [%s], expected %s' % (A.at(), name, showf(g), show(want[name][0])))
        except Unknown as x:
            R.skip(key, 'form not recognised: %s' % x)
    R.count('kinds of routing', n)
    R.floor('kinds of routing', n, 2)


def settled(g):
    """a fold over the inputs whose latency is known to be wrong: applied in each round, or not at all"""
    c = g[0][3]
    base = c[2] if c[0] == 'un' and c[1].startswith('distort') else c
    return len(g) == 1 and base[0] == 'acc' and base[1].startswith('nonlinear')


def empty(t, side):
    """outcome of a test that the given frame is empty"""
    s = pterm(strip_at(t))
    return side and s in ('(0 Eq len(*arg2))', '(len(*arg2) Eq 0)', '(0 Eq len(**arg2))') or not side and s in ('(0 Ne len(*arg2))', '(len(*arg2) Ne 0)', '(0 Lt len(*arg2))', '(len(*arg2) Gt 0)')


def queries(ctx, R):
    R.rule('response and latency of a unit route unit responses or zero latencies from every input, at the frequency asked for, and read the output asked for; the latency is the least of the outputs')
    n = 0
    sig = lambda F, fr, fo, fn, args, t: (fo.get('rname') or fo['name']).startswith('signal::') or fo.get('trait') in ('audionode::AudioNode', 'audiounit::AudioUnit')
    for f in ctx.M.fns.values():
        m = f.name.split('::')
        if m[:2] not in (['audionode', 'AudioNode'], ['audiounit', 'AudioUnit']) or m[2] not in ('response', 'latency') or len(m) != 3 or not f.has_body:
            continue
        key = '::'.join(m[1:])
        A = An(ctx, f, {}, None, sig)
        called = lambda s: [e for e in A.calls() if (e.call.rname or e.call.name).split('::')[-1] == s]
        sets = [e for e in called('set') + called('fill') if (e.call.rname or e.call.name).startswith('signal::')]
        routes, ats = called('route'), [e for e in called('at') if (e.call.rname or e.call.name).startswith('signal::')]
        if len(routes) != 1 or len(sets) != 1 or not ats:
            R.skip(key, 'form not recognised')
            continue
        s = strip_at(sets[0].args[-1])
        if s[0] != 'agg':
            R.skip(key, 'form not recognised')
            continue
        good = {'response': ('Signal::Response{0:new(1.0, 0.0), 1:0.0}', 'Signal::Response{0:one(), 1:0.0}'), 'latency': ('Signal::Latency{0:0.0}',)}[m[2]]
        bad = None
        if pterm(s) not in good and not any(x in pterm(s) for x in ('L0_', 'call', 'phi')):
            bad = 'every input is given %s, expected %s' % (pterm(s), good[0])
        elif m[2] == 'response' and routes[0].args[2] != ('arg', 3):
            bad = 'the analysis is made at %s, not at the frequency asked for' % pterm(routes[0].args[2])
        elif m[2] == 'response' and any(strip_at(e.args[1]) != ('arg', 2) for e in ats):
            bad = 'entry %s is read, not the output asked for' % pterm(ats[0].args[1])
        elif m[2] == 'latency' and called('max') and not called('min'):
            bad = 'the largest latency is taken, not the least'
        if bad:
            R.bad(key, '%s: %s: %s' % (A.at(), key, bad))
        else:
            R.inst(key, 'route(%s, %s), entry %s' % (pterm(s), pterm(routes[0].args[2]), pterm(ats[0].args[1])))
            n += 1
    R.count('analysis queries', n)
    R.floor('analysis queries', n, 2)


# ------------------------------------------------------------------ signals
def lat(a, v):
    return atom((a, NAMES[v], '0' if v == LAT else '1')) if v in (LAT, RES) else None


def val(a, v):
    return atom((a, NAMES[v], '0')) if v in (VAL, RES) else None


def low(*ls):
    ls = [x for x in ls if x is not None]
    return ls[0] if len(ls) == 1 else atom(('min',) + tuple(sorted(ls, key=repr))) if ls else None


def linear(f):
    """expected combination with an operation f on values and responses"""
    def table(a, b, va, vb, extra):
        x, y = val(a, va), val(b, vb)
        l = low(lat(a, va), lat(b, vb))
        if va == vb == VAL:
            return VAL, None, f(x, y, True)
        if RES in (va, vb) and {va, vb} <= {RES, VAL}:
            return RES, padd(l, extra), f(x if va == RES else (), y if vb == RES else (), False)
        return (LAT, padd(l, extra), None) if l is not None else (UNK, None, None)
    return table


def product(a, b, va, vb, extra):
    x, y = val(a, va), val(b, vb)
    l = low(lat(a, va), lat(b, vb))
    if va == vb == VAL:
        return VAL, None, pmul(x, y)
    if sorted((va, vb)) == [VAL, RES]:
        return RES, l, pmul(x, y)
    return (LAT, l, None) if l is not None else (UNK, None, None)


def scalar(value, response):
    def table(v, x, l):
        if v == VAL:
            return VAL, None, value(x)
        if v == RES:
            return RES, l, response(x)
        return (v, l, None)
    return table


s = atom('s')
neg = lambda x: padd((), x, -1)
UNARY = {
    'FrameNeg': scalar(neg, neg), 'FrameId': scalar(lambda x: x, lambda x: x),
    'FrameAddScalar': scalar(lambda x: padd(x, s), lambda x: x),
    'FrameNegAddScalar': scalar(lambda x: padd(s, x, -1), neg),
    'FrameMulScalar': scalar(lambda x: pmul(x, s), lambda x: pmul(x, s)),
}
BINARY = {'FrameAdd': linear(lambda x, y, v: padd(x, y)), 'FrameSub': linear(lambda x, y, v: padd(x, y, -1)), 'FrameMul': product}


def shown(w):
    v, l, x = w
    return NAMES[v] + ('' if x is None else '(%s)' % name(x)) + ('' if l is None else ' latency ' + name(l))


def name(p):
    if not p:
        return '0'
    def a(x):
        if isinstance(x, tuple) and x[0] in ('min', 'max'):
            return '%s(%s)' % (x[0], ', '.join(name(y) for y in x[1:]))
        if isinstance(x, tuple) and x[0] == 'f':
            return 'f%d(%s)' % (x[1], ', '.join(name(y) for y in x[2:]))
        if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], int):
            return '%s.%s' % ({1: 'self'}.get(x[0], 'arg%d' % x[0]), x[1] + x[2])
        return str(x)
    return ' + '.join(('' if c == 1 and m else str(c) + ('*' if m else '')) + '*'.join(a(x) for x in m) for m, c in p)


def got(C, leaf):
    """(variant, latency, payload) of the result"""
    t = C.result()
    a = C.arg(t)
    if a in C.assign:
        v = C.assign[a]
        return v, lat(a, v), val(a, v)
    if t[0] != 'agg' or not t[1].endswith('signal::Signal'):
        raise Unknown('result ' + pterm(t)[:60])
    v = NAMES.index(t[2])
    fs = dict(t[4])
    l = fs.get('0') if v == LAT else fs.get('1') if v == RES else None
    x = fs.get('0') if v in (VAL, RES) else None
    return v, None if l is None else C.num(l, leaf), None if x is None else C.num(x, leaf)


def compare(R, A, key, case, C, want, leaf):
    try:
        g = got(C, leaf)
    except Unknown as x:
        R.skip('%s, %s' % (key, case), 'form not recognised: %s' % x)
        return 0
    if g == want:
        R.inst('%s, %s' % (key, case), shown(g))
        return 1
    R.bad('%s, %s' % (key, case), '%s: %s of %s gives %s, expected %s' % (A.at(), key, case, shown(g), shown(want)))
    return 0


def algebra(ctx, R):
    R.rule('operations on signals and the operators of combinators, for each combination of kinds of signal: kind, latency and value of the result as polynomials; latencies add in series and combine by minimum in parallel')
    order = [n for n, _ in ctx.M.variants(('adt', 'signal::Signal', ()))]
    num = lambda v: order.index(NAMES[v])
    n = 0
    L = atom(('arg', 2))
    one = {
        'filter': lambda v, x, l: (LAT, padd(l, L), None) if v == LAT else (RES, padd(l, L), atom(('f', 3, x))) if v == RES else (UNK, None, None),
        'distort': lambda v, x, l: (LAT, padd(l, L), None) if v in (LAT, RES) else (UNK, None, None),
        'delay': lambda v, x, l: (v, padd(l, L), x) if v in (LAT, RES) else (v, None, x),
        'scale': lambda v, x, l: (v, l, None if x is None else pmul(x, L)),
    }
    L3 = atom(('arg', 3))
    two = {
        'combine_nonlinear': lambda a, b, va, vb, e: (UNK, None, None) if low(lat(a, va), lat(b, vb)) is None else (LAT, padd(low(lat(a, va), lat(b, vb)), e), None),
        'combine_linear': linear(lambda x, y, v: atom(('f', 4 if v else 5, x, y))),
    }
    for f in ctx.M.fns.values():
        p = f.name.split('::')
        if f.name.startswith('signal::Signal::') and len(p) == 3 and f.has_body:
            A = ctx.function(f.id)
            if p[2] in one:
                for v in range(4):
                    n += compare(R, A, 'Signal::' + p[2], NAMES[v], Case(A, {1: num(v)}), one[p[2]](v, val(1, v), lat(1, v)), None)
            elif p[2] in two:
                for v in range(4):
                    for w in range(4):
                        n += compare(R, A, 'Signal::' + p[2], '%s and %s' % (NAMES[v], NAMES[w]), Case(A, {1: num(v), 2: num(w)}), two[p[2]](1, 2, v, w, L3), None)
    def leaf(t):
        if t[0] == 'mem' and t[1] == (('P', 1), ('f', 'scalar')):
            return s
    for tr in ('audionode::FrameBinop', 'audionode::FrameUnop'):
        for im in ctx.M.impls_by_trait.get(tr, ()):
            T = ctx.tyname(im)
            if 'route' not in im['items'] or T not in UNARY and T not in BINARY:
                continue
            A = ctx.function(im['items']['route'])
            for v in range(4):
                if T in UNARY:
                    n += compare(R, A, T + '::route', NAMES[v], Case(A, {2: num(v)}), UNARY[T](v, val(2, v), lat(2, v)), leaf)
                else:
                    for w in range(4):
                        n += compare(R, A, T + '::route', '%s and %s' % (NAMES[v], NAMES[w]), Case(A, {2: num(v), 3: num(w)}), BINARY[T](2, 3, v, w, ()), leaf)
    R.count('cases of signal operations', n)
    R.floor('cases of signal operations', n, 60)
