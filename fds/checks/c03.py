"""C03: reset reaches every nested component."""
from ..propcheck import run_propagation, shape_rule

ASSUME = ['a component that reset takes out of the composite (Option::take, emptied queue) needs no reset',
          'a frontend hands the request over to its backend by sending the reset message']
EXEMPT = {
    ('Pluck', 'tuning'): 'reset clears `initialized`; initialize_line resets the tuning filter before tick uses it again',
}


def delegate(A, im):
    """blocks in which a frontend sends its backend a reset message"""
    out = set()
    for e in A.calls():
        if e.call.m in ('try_send', 'send') and len(e.args) == 2 and any(
                isinstance(x, tuple) and x and x[0] == 'agg' and x[2] == 'Reset' for x in A.W.deps(e.args[1])):
            out.add(e.blk)
    return out


def run(ctx, R):
    R.rule('For every AudioNode/AudioUnit implementation with nested components (found by field types): on every path through reset, every nested component (every element of a container) has reset called, also when it was swapped in during the reset.')
    n = run_propagation(ctx, R, 'reset', EXEMPT, delegate=delegate)
    R.floor('nested components', n, 50)
    R.rule('Every component holding a waveshaper (Shape) resets it.')
    R.floor('nested shapes', shape_rule(ctx, R, 'reset'), 6)
