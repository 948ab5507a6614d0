"""C01: sample rate reaches every nested component unchanged."""
from ..core import NODE, UNIT, pterm, ppath
from ..prop import strip
from ..propcheck import run_propagation, shape_rule

ASSUME = ['a guard comparing the stored rate with the new one may skip the forwarding (children then have that rate already; C02 checks that the stored rate is kept up to date)',
          'dyn AudioUnit and generic children are covered by the same rule applied to their own implementations']

EXEMPT = {
    ('Resonator', 'biquad'): 'the coefficients of the inner biquad are recomputed by Resonator from its own rate; the rate stored in the biquad is read by Biquad::route only, which Resonator does not call',
    ('Pluck', 'tuning'): 'the tuning filter is given the rate by initialize_line, which set_sample_rate schedules by clearing `initialized`; tick runs it before the filter is used',
}
TWICE = {'Oversampler'}


def same_rate(cond, truth):
    if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
        a, b = strip(cond[2]), strip(cond[3])
        for x, y in ((a, b), (b, a)):
            if x == ('arg', 2) and y[0] == 'mem' and y[1][0] == ('P', 1):
                return truth == (cond[1] == 'Eq')
    return False


def twice(t):
    t = strip(t)
    if t[0] == 'bin' and t[1] == 'Mul':
        xs = {strip(t[2]), strip(t[3])}
        return xs == {('arg', 2), ('c', 2.0)}
    if t[0] == 'bin' and t[1] == 'Add':
        return strip(t[2]) == ('arg', 2) == strip(t[3])
    return False


def is_unit_box(t):
    return t[0] == 'adt' and t[1] == 'std::boxed::Box' and t[2][0] == ('dyn', UNIT)


def hosts(ctx):
    """methods of graph and sequencer that take in a unit: (fn, index of the unit argument)"""
    for f in ctx.M.fns.values():
        if not f.has_body or f.kind != 'AssocFn' or not f.inputs:
            continue
        t = f.inputs[0]
        if t[0] == 'ref' and t[1] and t[2][0] == 'adt' and t[2][1] in ('net::Net', 'sequencer::Sequencer'):
            for i, x in enumerate(f.inputs[1:], 2):
                if is_unit_box(x):
                    yield f, i, t[2]


def host_rule(ctx, R, meth, ratecheck):
    n = 0
    for f, i, ty in hosts(ctx):
        A = ctx.function(f.id, selfty=ty)
        key = '%s: %s on the incoming unit' % (f.name, meth)
        blocks = set()
        for e in A.calls():
            if e.call.m != meth or e.call.trait not in (UNIT, NODE) or not e.args or e.args[0][0] != 'ref':
                continue
            r = e.args[0][1]
            if not (r[0][0] in ('D', 'V') and ('arg', i) in A.W.deps(r[0][1]) or r[0] == ('L', A.F.rootframe.id, i)):
                continue
            if ratecheck:
                v = strip(e.args[1])
                if not (v[0] == 'mem' and v[1][0] == ('P', 1) and v[1][-1] == ('f', 'sample_rate')):
                    R.bad(key + ' rate', '%s: %s gives the incoming unit the rate %s instead of its own' % (A.where(e), f.name, pterm(v)))
                    continue
            blocks.add(e.blk)
        n += 1
        R.inst(key, '%s:%s' % (f.file, f.line))
        if A.F.ret in A.reach(A.F.entry, removed=blocks):
            R.bad(key, '%s:%s: %s can return without calling %s on the incoming unit' % (f.file, f.line, f.name, meth))
    return n


def run(ctx, R):
    R.rule('For every AudioNode/AudioUnit implementation with nested components (found by field types): on every path through set_sample_rate, every nested component (every element of a container) has set_sample_rate called with the received rate (twice the rate in Oversampler).')
    R.rule('Every method of Net and Sequencer that takes in a boxed unit passes its stored sample rate to the unit on every path.')

    def on_event(A, im, c, e):
        T = ctx.tyname(im)
        v = e.args[1]
        ok = twice(v) if T in TWICE else strip(v) == ('arg', 2)
        key = '%s::set_sample_rate -> %s rate' % (T, '.'.join(c.pat))
        R.inst(key, A.where(e))
        if not ok:
            R.bad(key, '%s: %s passes %s to `%s` instead of %s' % (A.where(e), T, pterm(v), '.'.join(c.pat), 'twice the received rate' if T in TWICE else 'the received rate'))

    n = run_propagation(ctx, R, 'set_sample_rate', EXEMPT, extra=same_rate, on_event=on_event, removal=False)
    R.floor('nested components', n, 50)
    R.floor('units taken in', host_rule(ctx, R, 'set_sample_rate', True), 7)
    R.rule('Every component holding a waveshaper (Shape) passes the received rate on to it.')
    R.floor('nested shapes', shape_rule(ctx, R, 'set_sample_rate', lambda v: strip(v) == ('arg', 2)), 6)
