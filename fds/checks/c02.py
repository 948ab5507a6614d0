"""C02: everything a node derives from the sample rate follows the sample rate."""
from ..core import NODE, UNIT, pterm, ppath
from ..prop import children, presence_exempt
from ..state import self_writes, fieldvals, mems, must_write, constructors, mutators, related
from .c01 import same_rate

ASSUME = ['a guard comparing the stored rate with the new one may skip the update (values derived from that rate are then up to date already)',
          'a rate-derived value is recognised by the dataflow from the rate argument, from DEFAULT_SR in a constructor, or from a stored rate in a setter; that the formula itself is the right one is not decided']

# fields that only have to be updated on some path: what the other paths do instead
WEAK = {
    ('Limiter', 'reducer'): 'only resized when the lookahead length changed',
    ('MeterNode', 'state.smoothing'): 'only present in smoothing modes',
    ('Monitor', 'state.smoothing'): 'only present in smoothing modes',
    ('Follow', 'coeff_now'): 'the snap state (first sample) keeps its own coefficient',
    ('AFollow', 'acoeff_now'): 'the snap state (first sample) keeps its own coefficient',
    ('AFollow', 'rcoeff_now'): 'the snap state (first sample) keeps its own coefficient',
    ('Envelope', 'value_d'): 'there is no current segment before the first sample or after reset',
    ('EnvelopeIn', 'value_d'): 'there is no current segment before the first sample or after reset',
}
# fields that are invalidated instead: writing the given constant to the given field
INVALID = {
    ('Pluck', 'line'): 'initialized',
    ('Sequencer', 'active_threshold'): 'active_threshold',
}
# the rate-derived fields on the tree this check was written for; one that still exists and is not updated any more is a violation
BASE = {
    'Biquad': 'sample_rate', 'ButterLowpass': 'sample_rate', 'Resonator': 'sample_rate',
    'FbBiquad': 'coefs params.sample_rate', 'FixedFbBiquad': 'coefs params.sample_rate',
    'DirtyBiquad': 'coefs params.sample_rate', 'FixedDirtyBiquad': 'coefs params.sample_rate',
    'BiquadBank': 'sample_rate', 'Tick': 'sample_rate', 'Delay': 'buffer sample_rate time_in_samples',
    'Tap': 'buffer max_delay_clamped min_delay_clamped sample_rate', 'TapLinear': 'buffer sample_rate',
    'Limiter': 'reducer sample_rate', 'Declick': 'sample_duration sample_rate', 'MeterNode': 'state.smoothing', 'Monitor': 'state.smoothing',
    'Envelope': 'sample_duration value_d', 'EnvelopeIn': 'sample_duration value_d', 'Lowpole': 'coeff sample_rate', 'DCBlock': 'coeff sample_rate',
    'Pinkpass': 'sample_rate', 'Allpole': 'sample_rate', 'Highpole': 'coeff sample_rate', 'Fir': 'sample_rate',
    'Follow': 'coeff coeff_now sample_rate', 'AFollow': 'acoeff acoeff_now rcoeff rcoeff_now sample_rate', 'Moog': 'k p rez sample_rate',
    'Hold': 'sample_duration', 'Sine': 'sample_duration', 'Dsf': 'sample_duration', 'Pluck': 'line sample_rate', 'Rossler': 'sr', 'Lorenz': 'sr',
    'Ramp': 'sample_duration', 'PolySaw': 'sample_duration', 'PolySquare': 'sample_duration', 'PolyPulse': 'sample_duration',
    'Resynth': 'sample_rate window', 'Rez': 'f fb sample_rate', 'Timer': 'sample_duration', 'AtomicSynth': 'sample_duration sample_rate',
    'Svf': 'coefs params.sample_rate', 'FixedSvf': 'coefs params.sample_rate', 'System': 'sample_rate',
    'WaveSynth': 'sample_duration sample_rate', 'PhaseSynth': 'sample_rate', 'FeedbackUnit': 'feedback.[] mask sample_rate samples',
    'Granular': 'sample_rate', 'Net': 'sample_rate', 'Sequencer': 'active_threshold sample_duration sample_rate', 'SlotBackend': 'sample_rate',
}
RATE = ('sample_rate', 'sample_duration', 'sr')
SKIP = ('tick', 'process', 'reset', 'route', 'ping', 'allocate')


def is_sr(x):
    return isinstance(x, tuple) and len(x) > 1 and (x[0] == 'c' and x[1] in (44100.0, 44100, 48000.0, 48000) or x[0] == 'nc' and str(x[1]).endswith('DEFAULT_SR'))


def const(W, v):
    return not any(isinstance(x, tuple) and x and x[0] in ('mem', 'arg') for x in W.deps(v))


def run(ctx, R):
    R.rule('For every component: each field whose value derives from the sample rate (dataflow from the argument of set_sample_rate, from DEFAULT_SR in a constructor, or from a stored rate in another method) is written in set_sample_rate, on every path, from a value depending on the new rate, and not overwritten afterwards.')
    R.rule('No method other than a constructor uses the default rate constant; a stored rate is written by set_sample_rate only; other methods that rewrite a rate-derived field use the stored rate.')
    n = 0
    for tr, im in ctx.node_impls():
        t = im['self']
        if t[0] != 'adt' or ctx.tyname(im) == 'An':
            continue
        T = ctx.tyname(im)
        A = ctx.method(tr, im, 'set_sample_rate')
        ch = [c.pat for c in children(ctx, im)]

        def kid(p):
            return any(p[:len(c)] == c for c in ch)

        a = [w for w in self_writes(A) if not kid(w.pat)]
        direct = {w.pat for w in a if ('arg', 2) in A.W.deps(w.val) and w.pat != ('mode',) and w.pat != ('shape',)}
        b = set()
        for f in constructors(ctx, im):
            C = ctx.function(f.id, selfty=t)
            for e in C.events:
                if e.kind == 'return':
                    for p, v in fieldvals(e.val):
                        if p and not kid(p) and any(is_sr(x) for x in C.W.deps(v)):
                            b.add(p)
        c = {}
        muts = [(f, ctx.function(f.id, selfty=t)) for f in mutators(ctx, im) if not f.name.endswith('set_sample_rate')]
        muts = [(f, X, self_writes(X)) for f, X in muts]
        more = True
        while more:
            more = False
            for f, X, ws in muts:
                if f.name.endswith(SKIP):
                    continue
                for w in ws:
                    if kid(w.pat) or w.pat in c or w.pat in direct or w.pat in b:
                        continue
                    m = mems(X.W, w.val)
                    if any(q[:len(r)] == r for q in m for r in direct | b):
                        c[w.pat] = f.name.split('::')[-1]
                        more = True
        base = {tuple(x.split('.')) for x in BASE.get(T, '').split()}
        names = {x[0] for x in ctx.M.fields(t)}
        allf = direct | b | set(c) | {p for p in base if p[0] in names}
        allf = {p for p in allf if not any(q != p and q == p[:len(q)] for q in allf)}
        ex = presence_exempt(A, ('?',), same_rate)
        for p in sorted(allf):
            ps = '.'.join(p)
            key = '%s.%s follows the rate' % (T, ps)
            n += 1
            mine = [w for w in a if related(w.pat, p) and ('arg', 2) in A.W.deps(w.val)]
            rest = [w for w in a if related(w.pat, p) and w not in mine and w.kind != 'child']
            loc = A.where(mine[0].ev) if mine else A.at()
            new = p not in base     # a field added or renamed since
            if new and not mine and T in [x for x, _ in INVALID]:
                R.skip(key, 'this type invalidates derived state instead')
                continue
            weak = (T, ps) in WEAK or new and T in [x for x, _ in WEAK]
            if (T, ps) in INVALID:
                q = INVALID[(T, ps)]
                inv = [w for w in a if w.pat == (q,) and const(A.W, w.val)]
                R.inst(key, 'invalidated by a constant written to `%s`' % q)
                if not inv or not must_write(A, inv, ex):
                    R.bad(key, '%s: %s::set_sample_rate neither updates `%s` nor marks it out of date (`%s`) on every path' % (A.at(), T, ps, q))
                continue
            R.inst(key, loc)
            if not mine:
                R.bad(key, '%s: `%s` of %s depends on the sample rate (%s) but set_sample_rate does not update it from the new rate' % (
                    A.at(), ps, T, 'written by %s' % c[p] if p in c else 'set from the default rate in a constructor' if p in b else 'rate-derived'))
            elif weak:
                R.skip(key + ' on every path', WEAK.get((T, ps), 'new field of a type with conditionally present derived state'))
            elif not must_write(A, mine, ex):
                R.bad(key, '%s: set_sample_rate of %s can return without updating `%s`, which depends on the sample rate' % (loc, T, ps))
            for w in rest:
                if weak or const(A.W, w.val) or w.pat != p:
                    continue
                if any(A.dominates(m.ev.blk, w.ev.blk) for m in mine if m.ev.blk != w.ev.blk or m.ev.idx < w.ev.idx):
                    R.bad(key + ' (overwritten)', '%s: set_sample_rate of %s overwrites `%s` with a value that does not depend on the new rate' % (A.where(w.ev), T, ps))
        # other methods
        prim = {p for p in direct if p[-1] in RATE}
        for f, X, ws in muts:
            short = f.name.split('::')[-1]
            for w in ws:
                if kid(w.pat):
                    continue
                if any(is_sr(x) for x in X.W.deps(w.val)):
                    R.bad('%s::%s default rate' % (T, short), '%s: %s::%s writes `%s` from the default sample rate instead of the current one' % (X.where(w.ev), T, short, '.'.join(w.pat)))
                if w.kind == 'opaque':
                    continue
                if any(w.pat == p for p in prim):
                    m = mems(X.W, w.val)
                    if w.pat in m or any(q in m for q in prim):
                        continue
                    R.bad('%s::%s stores a rate' % (T, short), '%s: %s::%s changes the stored rate `%s`' % (X.where(w.ev), T, short, '.'.join(w.pat)))
                elif any(w.pat == p for p in allf) and w.pat[-1] != 'mode':
                    m = mems(X.W, w.val)
                    if const(X.W, w.val) or w.pat in m or any(related(q, r) for q in m for r in allf) or short in SKIP:
                        continue
                    R.bad('%s::%s recomputes %s' % (T, short, '.'.join(w.pat)), '%s: %s::%s recomputes the rate-derived `%s` without the stored rate' % (X.where(w.ev), T, short, '.'.join(w.pat)))
            R.count('methods examined for the rate they use')
    R.floor('rate-derived fields', n, 75)
