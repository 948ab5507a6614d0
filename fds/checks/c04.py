"""C04: reset clears all state that processing accumulates."""
from ..core import NODE, UNIT, pterm, ppath
from ..prop import children, strip
from ..propcheck import SHAPE, shape_impls, shape_fields, pat_of
from ..state import self_writes, fieldvals, mems, must_write, constructors, related
from .c03 import delegate

ASSUME = ['state kept by user closures (envelope functions, system functions, FFT callbacks) is not part of the component',
          'container methods clear, fill, resize and the like leave no old content behind']

INPUT = 'cache of a control input or setting: tick and process refresh it from the current input before it is used'
SCRATCH = 'scratch space, overwritten before it is read'
# (type, field): why reset need not write it
EXEMPT = {
    'ButterLowpass': ({'cutoff'}, INPUT), 'Resonator': ({'center', 'q'}, INPUT),
    'FbBiquad': ({'coefs', 'mode', 'params'}, INPUT), 'DirtyBiquad': ({'coefs', 'mode', 'params'}, INPUT),
    'AllNest': ({'eta'}, INPUT), 'Lowpole': ({'coeff', 'cutoff'}, INPUT), 'Allpole': ({'eta'}, INPUT), 'Highpole': ({'coeff', 'cutoff'}, INPUT),
    'Moog': ({'cutoff', 'q', 'k', 'p', 'rez'}, INPUT), 'Dsf': ({'roughness'}, INPUT), 'Panner': ({'left_weight', 'right_weight'}, INPUT),
    'Rez': ({'cutoff', 'q', 'f', 'fb'}, INPUT), 'Svf': ({'coefs', 'mode', 'params'}, INPUT), 'Morph': ({'morph'}, INPUT),
    'Hold': ({'hold'}, 'reset makes the next sample due at once, which replaces the held value'),
    'Envelope': ({'value', 'value_d'}, 'reset puts the component before its first segment; starting the segment computes both'),
    'EnvelopeIn': ({'value', 'value_d', 'value_0', 'value_1'}, 'reset puts the component before its first segment; starting the segment computes them'),
    'Pluck': ({'line', 'pos'}, 'reset clears `initialized`; the line is filled afresh before it is used'),
    'Oversampler': ({'j'}, 'ring position; both rings are cleared entirely by reset, so the position does not matter'),
    'Resampler': ({'buffer'}, 'reset sets producer to 0, so all of the buffer is refilled before it is read'),
    'Resynth': ({'processing'}, SCRATCH),
    'SnoopBackend': ({'buffer'}, 'a snoop buffer is sent when all of it has been filled'),
    'WaveSynth': ({'table_hint'}, 'search hint, does not affect the result'),
    'PhaseSynth': ({'table_hint', 'phase'}, 'search hint; the phase is taken from the input when phase_ready is cleared'),
    'FeedbackUnit': ({'tick_buffer', 'tick_buffer2'}, SCRATCH),
    'Net': ({'error', 'order', 'vertex'}, 'derived from the structure of the graph, per-node scratch buffers, and crossfade progress, which is not claimed; the nodes themselves are reset (C03)'),
    'Sequencer': ({'active', 'ready', 'past', 'edit_map', 'tick_buffer'}, 'event queues: reset sorts events back or drops them (C03 covers the units); scratch'),
    'SlotBackend': ({'fade', 'fade_phase', 'fade_time', 'latest_fade', 'latest_fade_time', 'tick'}, 'crossfade progress, which is not claimed; scratch'),
    'System': ({'f'}, 'user closure'),
}
CLEARING = ('clear', 'fill', 'resize', 'reset', 'truncate', 'set_length', 'call_mut', 'take', 'drain')
KEPT = {('Mls', 'mls'): ('mls.n', 'the order of the sequence is a setting which tick copies unchanged')}


def num(v):
    v = strip(v)
    if v[0] == 'c' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
        return float(v[1])
    if v[0] == 'c' and isinstance(v[1], bool):
        return v[1]
    if v[0] == 'nc' and str(v[1]).rsplit('::', 1)[-1].split('<')[0] in ('ZERO',):
        return 0.0
    if v[0] in ('pure', 'call', 'res') and 'default' in str(v[1]):
        return 0.0
    return None


def is_closure_write(w):
    return w.kind == 'opaque' and w.ev.call is not None and (w.ev.call.m in ('call_mut', 'call', 'call_once') or w.ev.call.trait in ('std::ops::FnMut', 'std::ops::Fn'))


def run(ctx, R):
    R.rule('For every component and waveshaper: each field written by tick or process (nested components excluded, see C03) is written by reset on every path, every element of an array or buffer included, with a value that does not depend on any such field.')
    R.rule('Where reset writes a number, some constructor starts the field from the same number (when constructors start it from numbers at all).')
    n = nt = nc = 0
    for tr, im in ctx.node_impls() + shape_impls(ctx):
        t = im['self']
        T = ctx.tyname(im)
        if t[0] != 'adt' or T == 'An':
            continue
        ch = [c.pat for c in children(ctx, im)] + [(f,) for f in shape_fields(ctx, im)]

        def kid(p):
            return any(p[:len(c)] == c for c in ch)

        S, closures, carried = set(), set(), {}
        for m in ('shape', 'simd') if tr == SHAPE else ('tick', 'process'):
            A = ctx.method(tr, im, m)
            if not A:
                continue
            for w in self_writes(A):
                if kid(w.pat):
                    continue
                if is_closure_write(w):
                    closures.add(w.pat)
                S.add(w.pat)
                # does the value depend on anything but inputs and settings?
                carried.setdefault(w.pat, []).append((A, w))
        S -= closures
        if not S:
            continue
        nt += 1
        Rs = ctx.method(tr, im, 'reset')
        rw = [w for w in self_writes(Rs) if not kid(w.pat)]
        ex = EXEMPT.get(T, ((), ''))
        dele = set()
        for b in delegate(Rs, im):
            for s in Rs.succs(b):
                dele.add((b, s))
        known = FIELDS.get(T, '').split()
        cons = {}
        for f in constructors(ctx, im):
            C = ctx.function(f.id, selfty=t)
            for e in C.events:
                if e.kind == 'return':
                    for p, v in fieldvals(e.val):
                        cons.setdefault(p, []).append((f, C, v))
        for p in sorted(S):
            ps = '.'.join(p)
            key = '%s::reset clears %s' % (T, ps)
            if p[0] in ex[0]:
                R.skip(key, ex[1])
                continue
            mine = [w for w in rw if w.pat == p[:len(w.pat)] or p == w.pat[:len(p)]]
            mine = [w for w in mine if not is_closure_write(w)]
            # a field unknown to this check (new or renamed) that only caches inputs and settings
            if p[0] not in known and not mine and all(w.kind == 'write' and not any(related(q, s) for q in mems(A.W, w.val) for s in S) for A, w in carried[p]):
                R.skip(key, 'caches inputs and settings only')
                continue
            n += 1
            R.inst(key, Rs.where(mine[0].ev) if mine else Rs.at())
            if not mine:
                A, w = carried[p][0]
                R.bad(key, '%s: `%s` of %s is changed by processing (%s) but reset never writes it' % (Rs.at(), ps, T, A.where(w.ev)))
                continue
            notes = []
            if not must_write(Rs, mine, dele, notes, S):
                R.bad(key, '%s: reset of %s can return without putting `%s` back (changed by processing at %s)%s' % (
                    Rs.where(mine[0].ev), T, ps, carried[p][0][0].where(carried[p][0][1].ev), ': ' + '; '.join(notes) if notes else ''))
            for w in mine:
                if w.kind == 'opaque':
                    if w.ev.call.m not in CLEARING:
                        R.notes.append('%s: %s of %s is written by %s in reset; taken as clearing it' % (Rs.where(w.ev), ps, T, w.ev.call.name))
                    continue
                dep = [q for q in mems(Rs.W, w.val) if any(related(q, s) for s in S | {c for c in closures if False})]
                if (T, p[0]) in KEPT:
                    dep = [q for q in dep if '.'.join(q) != KEPT[(T, p[0])][0]]
                if dep:
                    R.bad(key + ' from a fixed value', '%s: reset of %s writes `%s` from `%s`, which processing changes' % (Rs.where(w.ev), T, ps, '.'.join(dep[0])))
                if w.kind == 'write' and w.pat == p and num(w.val) is not None:
                    vs = [(f, v) for f, C, v in cons.get(p, [])]
                    ns = [num(v) for f, v in vs]
                    if vs and all(x is not None for x in ns):
                        nc += 1
                        if num(w.val) not in ns:
                            R.bad(key + ' to the initial value', '%s: reset of %s sets `%s` to %s, but a new one starts from %s (%s)' % (
                                Rs.where(w.ev), T, ps, num(w.val), ns[0], vs[0][0].name))
    R.floor('components with state', nt, 55)
    R.floor('state fields', n, 95)
    R.floor('start values compared', nc, 30)


# state fields on the tree this check was written for
FIELDS = {
    'Impulse': 'value',
    'Biquad': 'x1 x2 y1 y2',
    'FbBiquad': 's1 s2',
    'FixedFbBiquad': 's1 s2',
    'DirtyBiquad': 's1 s2',
    'FixedDirtyBiquad': 's1 s2',
    'BiquadBank': 'x1 x2 y1 y2',
    'Tick': 'buffer',
    'Delay': 'buffer i',
    'Tap': 'buffer i',
    'AllNest': 'z',
    'TapLinear': 'buffer i',
    'Limiter': 'buffer index reducer',
    'Declick': 't',
    'MeterNode': 'state',
    'Monitor': 'state',
    'Envelope': 't t_0 t_1 t_hash value_0 value_1',
    'EnvelopeIn': 't t_0 t_1 t_hash',
    'Feedback': 'value',
    'Feedback2': 'value',
    'Lowpole': 'value',
    'DCBlock': 'x1 y1',
    'Pinkpass': 'b0 b1 b2 b3 b4 b5 b6',
    'Allpole': 'x1 y1',
    'Highpole': 'x1 y1',
    'Fir': 'v',
    'Follow': 'coeff_now v1 v2 v3',
    'AFollow': 'acoeff_now rcoeff_now v1 v2 v3',
    'Moog': 'ps0 ps1 ps2 px s0 s1 s2 s3',
    'Mls': 'mls',
    'Noise': 'state',
    'Hold': 'next_t rnd t',
    'Sine': 'phase',
    'Dsf': 'phase',
    'Pluck': 'initialized',
    'Rossler': 'x y z',
    'Lorenz': 'x y z',
    'Ramp': 'phase',
    'PolySaw': 'phase',
    'PolySquare': 'phase',
    'PolyPulse': 'phase',
    'Oversampler': 'inv outv',
    'Resampler': 'consumer producer',
    'Resynth': 'samples window',
    'Reverb': 'feedback',
    'Rez': 'buf0 buf1',
    'Timer': 'time',
    'AtomicSynth': 'phase',
    'SnoopBackend': 'index',
    'Svf': 'counter ic1eq ic2eq',
    'FixedSvf': 'ic1eq ic2eq',
    'System': 'delta_time time',
    'WavePlayer': 'index',
    'WaveSynth': 'phase',
    'PhaseSynth': 'phase_ready',
    'BlockRateAdapter': 'index',
    'FeedbackUnit': 'feedback index',
    'Granular': 'rnd time voices',
    'Sequencer': 'active_map active_threshold time',
    'Adaptive': 'state',
}
