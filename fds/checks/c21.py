"""C21: units and connections whose channel counts do not fit are refused by the call that introduces
them. Decided on the program with debug assertions off: a check that only debug builds make is none."""
import re
from ..core import pterm
from ..prop import norm_cond, switch_edges
from .c13 import edits, port, place, show
from ..terms import use as use_terms, norm_term, loc

CONFIGS = ['release']
ASSUME = ['inputs() and outputs() of a unit do not change over its lifetime.']


def name_of(x):
    """argument an expression stands for"""
    x = re.sub(r"[*&()']|\.\*", '', x)
    if x == 'self':
        return 'a1'
    m = re.fullmatch(r'(?:arg|L0_)(\d+)(\.0)?(\[0\])?', x)
    if m:
        return 'a' + m.group(1)
    m = re.fullmatch(r'self\.vertex\[self\.node_index\[(.*)\]\](\.unit)?', x)
    if m:
        return 'node ' + m.group(1)
    return None


def arity(t):
    """('in'|'out', whose) of a term that gives a channel count, or a constant"""
    if t[0] == 'const' or t[0] == 'int':
        return ('const', t[1])
    s = pterm(t)
    if re.fullmatch(r'\d+', s):
        return ('const', int(s))
    m = re.fullmatch(r'USIZE<(.*)>', s)
    if m:
        w = m.group(1)
        if w.endswith('::Inputs') or w.endswith('Inputs'):
            return ('in', 'X')
        if w.endswith('Outputs'):
            return ('out', 'X')
        return ('type', w)
    m = re.fullmatch(r'(inputs|outputs)\((.*)\)', s)
    if m:
        w = name_of(m.group(2))
        return ('in' if m.group(1) == 'inputs' else 'out', w) if w else None
    m = re.fullmatch(r"len\((.*)\.(tick_input|tick_output|source|output_edge|vec)'?\)", s)
    if m:
        w = name_of(m.group(1))
        return ({'tick_input': 'in', 'source': 'in', 'tick_output': 'out', 'output_edge': 'out', 'vec': 'channels'}[m.group(2)], w) if w else None
    m = re.fullmatch(r'self\.(inputs|outputs)', s)
    if m:
        return ('in' if m.group(1) == 'inputs' else 'out', 'a1')
    m = re.fullmatch(r'channels\((.*)\.(input|output)\)', s)
    if m and name_of(m.group(1)):
        return ('in' if m.group(2) == 'input' else 'out', name_of(m.group(1)))
    return None


def dead(A):
    """edges of switches on a constant that are never taken"""
    out = set()
    for e in A.events:
        if e.kind == 'switch' and e.val is not None:
            c, neg = norm_cond(e.val)
            if c[0] == 'c' and isinstance(c[1], (bool, int)):
                v = int(c[1]) ^ int(neg)
                es = switch_edges(A.F.blocks[e.blk].term)
                live = [t for x, t in es if x == v] or [t for x, t in es if x is None]
                out |= {(e.blk, t) for _, t in es if t not in live}
    return out


def comparisons(A):
    for e in A.events:
        if e.kind != 'switch' or e.val is None:
            continue
        c, neg = norm_cond(e.val)
        if c[0] != 'bin' or c[1] not in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            continue
        true, false = set(), set()
        for v, tgt in switch_edges(A.F.blocks[e.blk].term):
            (false if v == 0 else true).add((e.blk, tgt))
        if neg:
            true, false = false, true
        yield e, c[1], c[2], c[3], true, false


def stops_unless(A, want):
    """does the function return or edit only when the wanted relation holds? (found, reason)"""
    found = False
    for e, op, a, b, true, false in comparisons(A):
        hold = want(op, a, b)
        if hold is None:
            continue
        found = True
        keep = true if hold else false
        # without the edges on which the relation holds nothing may return
        r = A.reach(A.F.entry, removed_edges=set(keep) | dead(A))
        bad = [x for x in A.retblocks() if x in r]
        if bad:
            continue
        early = [x for x in A.events if x.blk in r and x.kind in ('write', 'fill') and x.path and x.path[0] == ('P', 1)]
        if early:
            return 'late', early[0]
        return 'ok', e
    return ('weak' if found else 'none'), None


def equal(x, y):
    def want(op, a, b):
        p, q = arity(a), arity(b)
        if p is None or q is None or {p, q} != {x, y} or (x == y and p != q):
            return None
        return {'Eq': True, 'Ne': False}.get(op)
    return want


def below(value, y):
    """value < y"""
    def want(op, a, b):
        if norm_term(a) == value and arity(b) == y:
            return {'Lt': True, 'Ge': False}.get(op)
        if norm_term(b) == value and arity(a) == y:
            return {'Gt': True, 'Le': False}.get(op)
        return None
    return want


def boxed(f, n):
    t = f.locals[n]
    return 'AudioUnit' in repr(t) and ('Box' in repr(t) or 'boxed' in repr(t))


def unit_args(f):
    return [n for n in range(1, f.args + 1) if 'dyn' in repr(f.locals[n]) and 'AudioUnit' in repr(f.locals[n])]


def run(ctx, R):
    R.rule('Each operation that takes a unit into a structure of fixed arity compares the channel counts and stops before it changes anything when they differ.')
    R.rule('Each operation that joins two graphs compares the counts its documentation requires to be equal.')
    R.rule('Each port number given by the caller is compared with the number of channels of the node or graph it belongs to before it is stored in a connection.')
    n = 0
    N = lambda k: 'node arg%d' % k

    def need(f, A, specs, what):
        nonlocal n
        for want, text in specs:
            key = '%s: %s' % (f.name, text)
            n += 1
            R.inst(key, A.at())
            st, e = stops_unless(A, want)
            if st == 'none':
                R.bad(key, '%s: %s does not stop unless %s' % (A.at(), what, text))
            elif st == 'weak':
                R.bad(key, '%s: %s returns on a path where %s was not established' % (A.at(), what, text))
            elif st == 'late':
                R.bad(key, '%s: %s changes the structure before it has established that %s' % (A.where(e), what, text))
    for f in sorted(ctx.M.fns.values(), key=lambda f: f.id):
        if not f.has_body or f.kind not in ('Fn', 'AssocFn'):
            continue
        nm = f.name
        last = nm.split('::')[-1]
        base = re.sub(r'<[^<>]*>', '', re.sub(r'::<.*?>(?=::|$)', '', nm))
        own = base.rsplit('::', 2)[-2] if '::' in base else ''
        ua = unit_args(f)
        selfmut = f.args and f.locals[1][0] == 'ref'
        specs = []
        if own == 'Unit' and last == 'new' and ua:
            u = 'a%d' % ua[0]
            specs = [(equal(('type', 'I'), ('in', u)), 'the declared inputs equal those of the unit'), (equal(('type', 'O'), ('out', u)), 'the declared outputs equal those of the unit')]
        elif own == 'Chain' and last == 'new':
            def want(op, a, b):
                p, q = arity(a), arity(b)
                if p and q and {p[0], q[0]} == {'in', 'out'} and p[1] == q[1]:
                    return {'Eq': True, 'Ne': False}.get(op)
            specs = [(want, 'the inputs of the chained component equal its outputs')]
        elif own == 'BlockRateAdapter' and last == 'new' and ua:
            specs = [(equal(('const', 0), ('in', 'a%d' % ua[0])), 'the unit has no inputs')]
        elif own == 'FeedbackUnit' and last == 'new' and ua:
            u = 'a%d' % ua[0]
            specs = [(equal(('in', u), ('out', u)), 'the inputs of the unit equal its outputs')]
        elif own == 'Sequencer' and ua and selfmut and f.pub:
            u = 'a%d' % ua[0]
            specs = [(equal(('const', 0), ('in', u)), 'the unit has no inputs'), (equal(('out', 'a1'), ('out', u)), 'the outputs of the unit equal those of the sequencer')]
        elif own == 'Slot' and ua and selfmut and f.pub:
            u = 'a%d' % ua[0]
            specs = [(equal(('in', 'a1'), ('in', u)), 'the inputs of the unit equal those of the slot'), (equal(('out', 'a1'), ('out', u)), 'the outputs of the unit equal those of the slot')]
        elif own == 'Net' and ua and selfmut and f.pub and any('NodeId' in repr(f.locals[k]) for k in range(2, f.args + 1)):
            u = 'a%d' % ua[0]
            k = next(k for k in range(2, f.args + 1) if 'NodeId' in repr(f.locals[k]))
            specs = [(equal(('in', N(k)), ('in', u)), 'the inputs of the unit equal those of the node'), (equal(('out', N(k)), ('out', u)), 'the outputs of the unit equal those of the node')]
        elif own == 'Net' and last in ('pipe', 'bus', 'branch', 'binary') and f.args >= 2:
            I, O = (('in', 'a1'), ('in', 'a2')), (('out', 'a1'), ('out', 'a2'))
            ii = (equal(*I), 'both graphs have the same number of inputs')
            oo = (equal(*O), 'both graphs have the same number of outputs')
            specs = {'pipe': [(equal(('out', 'a1'), ('in', 'a2')), 'the outputs of the first graph equal the inputs of the second')], 'bus': [ii, oo], 'branch': [ii], 'binary': [oo]}[last]
        elif own == 'Net' and last == 'remove_link' and f.args == 2:
            specs = [(equal(('in', N(2)), ('out', N(2))), 'the inputs of the node equal its outputs')]
        elif own == 'Wave' and ua and last.startswith('render'):
            specs = [(equal(('const', 0), ('in', 'a%d' % ua[0])), 'the unit has no inputs')]
        elif own == 'Wave' and ua and last.startswith('filter'):
            specs = [(equal(('channels', 'a1'), ('in', 'a%d' % ua[0])), 'the inputs of the unit equal the channels of the wave')]
        if specs:
            need(f, ctx.function(f.id), specs, last)
    R.floor('arity comparisons', n, 26)
    ports(ctx, R)


def raw(t):
    """is the term an argument of the operation or a part of one?"""
    while t[0] == 'pj' and t[2][0] in ('d', 'f'):
        t = t[1]
    if t[0] == 'arg':
        return True
    p = loc(t)
    return p is not None and p[0][0] == 'P' and p[0] != ('P', 1) and all(x[0] in ('d', 'f') for x in p[1:] if x != '*')


def ports(ctx, R):
    n = 0
    for f in sorted(ctx.M.fns.values(), key=lambda f: f.id):
        if not f.has_body or not f.pub or not re.search(r'net::Net::\w+$', f.name) or not f.args or f.locals[1][0] != 'ref':
            continue
        A = ctx.function(f.id)
        use_terms(A.W)
        last = f.name.split('::')[-1]
        for q, s, e in edits(A):
            if s[0] not in ('Local', 'Global'):
                continue
            p = s[-1]
            if not raw(p):
                continue
            n += 1
            key = '%s: port of %s' % (f.name, s[0])
            R.inst(key, A.where(e))
            ok = False
            for sw, op, a, b, true, false in comparisons(A):
                hold = None
                for x, y, lt, ge in ((a, b, 'Lt', 'Ge'), (b, a, 'Gt', 'Le')):
                    if norm_term(x) == p or (loc(x) is not None and loc(x) == loc(p)):
                        w = bound(y)
                        if w is not None and matches(w, s):
                            hold = {lt: True, ge: False}.get(op)
                if hold is None:
                    continue
                if e.blk not in A.reach(A.F.entry, removed_edges=(true if hold else false) | dead(A) | other_variants(ctx, A, f, p)):
                    ok = True
            if not ok:
                R.bad(key, '%s: %s stores a caller-given port without comparing it with the number of %s' % (A.where(e), last, 'outputs of the source node' if s[0] == 'Local' else 'inputs of the graph'))
    R.floor('caller-given ports', n, 6)


def other_variants(ctx, A, f, p):
    """edges on which the argument the port is part of has another variant"""
    if p[0] != 'pj' or p[1][0] != 'pj' or p[1][2][0] != 'd' or p[1][1][0] != 'arg':
        return set()
    v, arg = p[1][2][1], p[1][1]
    vs = [x['name'] if isinstance(x, dict) else x[0] for x in ctx.M.variants(f.locals[arg[1]]) or ()]
    if v not in vs:
        return set()
    out = set()
    for e in A.events:
        if e.kind == 'switch' and e.val is not None and e.val[0] == 'discr' and norm_term(e.val[1]) == arg:
            es = switch_edges(A.F.blocks[e.blk].term)
            live = [t for x, t in es if x == vs.index(v)] or [t for x, t in es if x is None]
            out |= {(e.blk, t) for _, t in es if t not in live}
    return out


def bound(y):
    """('out', node term) or ('in', None) for a channel count"""
    a = arity(y)
    y = norm_term(y)
    if y[0] == 'len' and y[1][-1][0] == 'f' and y[1][0] == ('P', 1):
        if y[1][-1][1] == 'tick_output' and len(y[1]) > 2 and y[1][1] == ('f', 'vertex'):
            return ('out', y[1][2][1])
        return None
    if a == ('in', 'a1') or arity(y) == ('in', 'a1'):
        return ('in', None)
    return None


def matches(w, s):
    if s[0] == 'Global':
        return w == ('in', None)
    return w[0] == 'out' and norm_term(w[1]) == norm_term(s[1])
