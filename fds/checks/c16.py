"""C16: combinators wire channels as documented.

For each combinator, the channel algebra (fds/chan.py) derives from tick and from process what every
output channel is, as a term over input channels and outputs of nested components. The term must be
the documented one, for every channel count. The operators themselves (what Binop and Unop apply) are
compared as polynomials."""
import re
from ..core import An, pterm
from ..terms import strip_at, use as use_terms, alts, norm, norm_term
from .c13 import place, edge_alts
from ..chan import (Chan, Unknown, atom, const, padd, pmul, HASH, K, op, segs, showf, acc, show, showp, subst)

ASSUME = ['A buffer view handed to a component has the channel count the component declares.',
          'Sums over a variable number of components are compared as sums, whatever their order of addition.']

EQ = {'Binop': {'Y.O': 'X.O'}, 'Bus': {'Y.O': 'X.O', 'Y.I': 'X.I'}, 'Pipe': {'Y.I': 'X.O'},
      'Branch': {'Y.I': 'X.I'}, 'Chain': {'X.O': 'X.I'}}

XI, XO, YI, YO, N, M = (atom(x) for x in ('X.I', 'X.O', 'Y.I', 'Y.O', 'N', 'M'))
H, k = atom(HASH), atom(K)
Z = const(0)


def seg(lo, hi, c, q=None):
    return (q, lo, hi, c)


def inp(n, off=()):
    return segs((seg(Z, n, ('in', padd(H, off))),))


def ch(name, frame, at=H, i=None):
    return ('ch', (name, i), segs(frame), at)


def plus(a, b):
    return padd(a, b)


def specs():
    X = ch('x', inp(XI))
    kX = lambda f, at=H: ch('x', f, at, k)
    every = (Z, N)
    piece = padd(XI, ())  # inputs per component
    S = {
        'Pass': [[seg(Z, const(1), ('in', H))]],
        'MultiPass': [[seg(Z, N, ('in', H))]],
        'Pipe': [[seg(Z, YO, ch('y', [seg(Z, XO, X)]))]],
        'Binop': [[seg(Z, XO, ('op', 'by binop', X, ch('y', inp(YI, XI))))]],
        'Unop': [[seg(Z, XO, ('un', 'by u', X))]],
        'Stack': [[seg(Z, XO, X), seg(XO, padd(XO, YO), ch('y', inp(YI, XI), padd(H, XO, -1)))]],
        'Branch': [[seg(Z, XO, X), seg(XO, padd(XO, YO), ch('y', inp(XI), padd(H, XO, -1)))]],
        'Bus': [[seg(Z, XO, op('Add', X, ch('y', inp(XI))))]],
        'MultiBus': [[seg(Z, XO, acc('Add', None, Z, N, kX(inp(XI))))]],
        'MultiStack': [[seg(pmul(XO, k), padd(pmul(XO, k), XO), kX(inp(XI, pmul(XI, k)), padd(H, pmul(XO, k), -1)), every)]],
        'MultiBranch': [[seg(pmul(XO, k), padd(pmul(XO, k), XO), kX(inp(XI), padd(H, pmul(XO, k), -1)), every)]],
        'Reduce': [[seg(Z, XO, acc('by b', None, Z, N, kX(inp(XI, pmul(XI, k)))))]],
        'Split': [[seg(Z, N, ('in', Z))]],
        'MultiSplit': [[seg(Z, pmul(M, N), ('inrem', H, M))]],
        'Join': [[seg(Z, const(1), op('Mul', ('un', 'inv', ('n', N)), acc('Add', None, Z, N, ('in', k))))]],
        'MultiJoin': [[seg(Z, M, op('Mul', ('un', 'inv', ('n', N)), acc('Add', None, Z, N, ('in', padd(H, pmul(M, k))))))]],
        'Reverse': [[seg(Z, N, ('in', padd(padd(N, const(1), -1), H, -1)))]],
        'Swap': [[seg(Z, const(1), ('in', const(1))), seg(const(1), const(2), ('in', Z))]],
        'Thru': None,
        'Chain': None,
        'Sink': [[]],
    }
    return S


def clean(f):
    """frame without empty pieces, single channels by number"""
    out = []
    for q, lo, hi, c in f:
        if q is None and lo == hi:
            continue
        if lo is not None and padd(lo, const(1)) == hi:
            c = subst(c, HASH, lo)
        out.append((q, lo, hi, c))
    return segs(tuple(out))


def thru(C, facts, f):
    """documented: channel c is output c of the component, or input c where there is none"""
    pos, zero = C.learn(facts)
    X = ch('x', inp(XI))
    if XI in zero or padd((), XI, -1) in zero:
        return clean(f) in (clean([]), clean([seg(Z, XI, X)]), clean([seg(Z, XO, X), seg(XO, XI, ('in', H))]))
    full = clean([seg(Z, XO, X), seg(XO, XI, ('in', H))])
    if clean(f) == full:
        # complete when the component has no more outputs than inputs; a frame drops what is beyond
        return True
    less = C.le_facts(pos, XI, XO)
    return less and clean(f) == clean([seg(Z, XI, X)])


def run(ctx, R):
    R.rule('tick and process of every combinator: each output channel, as a term over input channels and outputs of nested components, is the documented one')
    S = specs()
    done = 0
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        if T not in S or tr.split('::')[-1] != 'AudioNode':
            continue
        for m in ('tick', 'process'):
            if m not in im['items'] and m == 'process':
                continue
            key = '%s::%s' % (T, m)
            try:
                A = ctx.bufmethod(tr, im, m)
                C = Chan(ctx, tr, im, A, EQ.get(T, {}))
                if T == 'Chain' and m == 'process':
                    bad = C.pingpong()
                    if bad:
                        R.bad(key, '%s: %s' % (A.at(), '; '.join(sorted(set(bad)))))
                    else:
                        R.inst(key, 'components in turn, two buffers in turn, the last into the output')
                        done += 1
                    continue
                got = []
                if m == 'tick':
                    for e in A.events:
                        if e.kind == 'return':
                            f = C.frame(e.val)
                            got.append(((), tuple((q, Z, C.O, c) if lo is None else (q, lo, hi, c) for q, lo, hi, c in f)))
                else:
                    for facts, rem in C.paths():
                        got.append((facts, C.blocks(rem, facts)))
                for facts, f in got:
                    if T == 'Thru':
                        ok, want = thru(C, facts, f), 'outputs of x, then the inputs it has no output for'
                    elif T == 'Chain':
                        want = [seg(Z, XI, ('it', ch('x', inp(XI), H, Z), const(1), N, ('x', k)))]
                        ok = clean(f) == clean(want)
                        want = showf(want)
                    else:
                        ok = any(clean(f) == clean(w) for w in S[T])
                        want = showf(S[T][0])
                    if ok:
                        R.inst(key, showf(f) or 'nothing')
                    else:
                        R.bad(key, '%s: outputs are [%s], documented [%s]' % (A.at(), showf(f), want))
                done += 1
            except Unknown as x:
                R.skip(key, 'form not recognised: %s' % x)
    R.count('methods decided', done)
    R.floor('methods decided', done, 24)
    operators(ctx, R)
    nets(ctx, R)


# ------------------------------------------------------------------ what the operators apply
OPS = {'FrameAdd': 'x+y', 'FrameSub': 'x-y', 'FrameMul': 'x*y', 'FrameNeg': '-x', 'FrameId': 'x',
       'FrameAddScalar': 'x+s', 'FrameNegAddScalar': 's-x', 'FrameMulScalar': 'x*s'}


def want(s):
    x, y, z = atom('x'), atom('y'), atom('s')
    return {'x+y': padd(x, y), 'x-y': padd(x, y, -1), 'x*y': pmul(x, y), '-x': padd((), x, -1), 'x': x,
            'x+s': padd(x, z), 's-x': padd(z, x, -1), 'x*s': pmul(x, z)}[s]


def value(t, leaf):
    t = strip_at(t)
    r = leaf(t)
    if r is not None:
        return atom(r)
    if t[0] == 'c' and isinstance(t[1], (int, float)) and float(t[1]).is_integer():
        return const(int(t[1]))
    if t[0] == 'bin' and t[1] in ('Add', 'Sub', 'Mul'):
        a, b = value(t[2], leaf), value(t[3], leaf)
        return padd(a, b) if t[1] == 'Add' else padd(a, b, -1) if t[1] == 'Sub' else pmul(a, b)
    if t[0] == 'un' and t[1] == 'Neg':
        return padd((), value(t[2], leaf), -1)
    if t[0] == 'splat':
        return value(t[1], leaf)
    if t[0] in ('pure', 'call') and (t[1] if t[0] == 'pure' else t[2]).split('::')[-1] in ('splat', 'clone'):
        return value(t[3][0], leaf)
    raise Unknown(pterm(t)[:60])


def operators(ctx, R):
    R.rule('operators applied by Binop, Unop and Reduce: value of each channel, as a polynomial')
    n = 0
    for tr in ('audionode::FrameBinop', 'audionode::FrameUnop'):
        for im in ctx.M.impls_by_trait.get(tr, ()):
            T = ctx.tyname(im)
            if T not in OPS:
                continue
            w = want(OPS[T])
            def leaf(t):
                p = t[1] if t[0] in ('mem', 'ref') else ()
                if t == ('arg', 2) or p[:1] == (('P', 2),):
                    return 'x'
                if t == ('arg', 3) or p[:1] == (('P', 3),):
                    return 'y'
                if t[0] == 'mem' and t[1][0] == ('P', 1) and t[1][-1] in (('f', 'scalar'), ('f', 'splat')):
                    return 's'
            for m in ('binop', 'unop', 'frame'):
                if m not in im['items']:
                    continue
                key = '%s::%s' % (T, m)
                A = ctx.function(im['items'][m])
                rets = [e for e in A.events if e.kind == 'return']
                try:
                    for e in rets:
                        v = value(e.val, leaf)
                        if v == w:
                            R.inst(key, OPS[T])
                            n += 1
                        else:
                            R.bad(key, '%s: applies %s, documented %s' % (A.at(), showp(v), OPS[T]))
                except Unknown as x:
                    R.skip(key, 'form not recognised: %s' % x)
            # in place, sample by sample
            if 'assign' in im['items'] and T != 'FrameId':
                A = ctx.function(im['items']['assign'])
                key = T + '::assign'
                ws = [e for e in A.events if e.kind in ('write', 'fill')]
                if len(ws) != 1 or ws[0].kind != 'write' or ws[0].path[0] != ('P', 3):
                    R.skip(key, 'form not recognised')
                    continue
                e = ws[0]
                def leaf2(t):
                    p = t[1] if t[0] == 'mem' else t[2] if t[0] == 'phi' else None
                    if p and p[0] == ('P', 3):
                        return 'x'
                    if p and p[0] == ('P', 4):
                        return 'y'
                    if p and p[0] == ('P', 1) and p[-1] in (('f', 'scalar'), ('f', 'splat')):
                        return 's'
                try:
                    v = value(e.val, leaf2)
                    if v == w:
                        R.inst(key, OPS[T])
                        n += 1
                    else:
                        R.bad(key, '%s: applies %s, documented %s' % (A.where(e), showp(v), OPS[T]))
                except Unknown as x:
                    R.skip(key, 'form not recognised: %s' % x)
    # both stored forms of a scalar are the argument
    for f in ctx.M.fns.values():
        p = f.name.split('::')
        if p[-1] != 'new' or not any('Frame' in x and 'Scalar' in x for x in p) or not f.has_body:
            continue
        A = ctx.function(f.id)
        for e in A.events:
            if e.kind != 'return' or e.val[0] != 'agg':
                continue
            for fld, v in e.val[4]:
                if fld in ('scalar', 'splat'):
                    key = '%s.%s' % (f.name, fld)
                    try:
                        ok = value(v, lambda t: 's' if t == ('arg', 1) else None) == atom('s')
                    except Unknown as x:
                        R.skip(key, str(x))
                        continue
                    if ok:
                        R.inst(key, 'the given scalar')
                        n += 1
                    else:
                        R.bad(key, '%s: %s is not the given scalar' % (A.at(), fld))
    R.count('operator values', n)
    R.floor('operator values', n, 20)


# ------------------------------------------------------------------ the same operators on graphs
LOC = 'Local(OLD.Local.0 + V, OLD.Local.1)'
NETS = {
    # place -> (required sources, further sources that are right)
    'thru': {'out': ({'Global(I)'}, set())},
    'stack': {'out': ({LOC, 'Global(IN1 + OLD.Global.0)'}, {'Zero()'}), 'in': ({LOC, 'Global(IN1 + OLD.Global.0)'}, {'Zero()'})},
    'branch': {'out': ({LOC}, {'Zero()', 'Global(OLD.Global.0)'}), 'in': ({LOC}, {'Zero()', 'Global(OLD.Global.0)'})},
    'pipe': {'out': ({LOC, 'O1[OLD.Global.0]'}, {'Zero()'}), 'in': ({LOC, 'O1[OLD.Global.0]'}, {'Zero()'})},
}
for _n, _g in (('bus', 'O2.Global.0'), ('binary', 'IN1 + O2.Global.0')):
    NETS[_n] = {'in': ({LOC} | ({'Global(IN1 + OLD.Global.0)'} if _n == 'binary' else set()), {'Zero()'} | ({'Global(OLD.Global.0)'} if _n == 'bus' else set())),
                'out': ({'Local(I + V, 0)'}, set()),
                'left of the operator': ({'Local(O1.Local.0, O1.Local.1)', 'Global(O1.Global.0)'}, {'Zero()'}),
                'right of the operator': ({'Local(O2.Local.0 + V, O2.Local.1)', 'Global(%s)' % _g}, {'Zero()'})}
STARTS = {('stack', 'out'): 'OUT1', ('branch', 'out'): 'OUT1', ('pipe', 'out'): '0', ('thru', 'out'): 'OUT1', ('bus', 'out'): '0', ('binary', 'out'): '0'}


def tokens(t):
    """compact form of an index or source term; None if something in it is not recognised"""
    s = pterm(t)
    s = re.sub(r'phi\d+\[L0_1\.(output_edge\[(elem\d+n?|pos\(\d+\))\]|vertex\[elem\d+\]\.source\[elem\d+\])\]\.source', 'OLD', s)
    s = re.sub(r"arg([12])\.output_edge\.\[(elem\d+n?|pos\(\d+\))\]\.source", r'O\1', s)
    s = re.sub(r"L0_1\.output_edge'?\.?\[(elem\d+)\]\.source", 'OLD', s)
    s = re.sub(r'arg1\.output_edge\.\[(.*)\]\.source$', r'O1[\1]', s)
    s = re.sub(r"len\(L0_1\.vertex'?\)", 'V', s)
    s = re.sub(r"len\(L0_2\.vertex'?\)", 'V2', s)
    for w, k in (('inputs', 'IN'), ('outputs', 'OUT')):
        s = re.sub(w + r"\(\*(?:L0_|arg)([12])\)", k + r'\1', s)
    s = re.sub(r'elem\d+n?\b|pos\(\d+\)', 'I', s)
    s = s.replace('.as ', '.')
    # sums in a fixed order
    for _ in range(4):
        s = re.sub(r'\(([\w.]+(?: \+ [\w.]+)*) Add ([\w.]+(?: \+ [\w.]+)*)\)', lambda m: ' + '.join(sorted(m.group(1).split(' + ') + m.group(2).split(' + '))), s)
    m = re.fullmatch(r'Port::(\w+)\{(.*)\}', s)
    if m:
        s = '%s(%s)' % (m.group(1), re.sub(r'\b\d:', '', m.group(2)))
    return s if re.fullmatch(r'[\w.+ ,()\[\]]*', s) and not re.search(r'phi|L0_|arg\d|#|elem|Sub|Mul', s) else None


def nets(ctx, R):
    R.rule('operators on graphs: every connection of the merged graph is the documented one (source nodes moved by the size of the left graph, inputs and outputs in order)')
    done = 0
    for f in ctx.M.fns.values():
        n = f.name.split('::')[-1]
        if not f.name.startswith('net::Net::') or n not in NETS or not f.has_body:
            continue
        A = An(ctx, f, {}, None, None, local=True)
        use_terms(A.W)
        seen, unknown = {}, 0
        for e in A.events:
            if e.kind != 'write' or not e.path or e.path[0] != ('L', 0, 1):
                continue
            q = place(norm(e.path), ('L', 0, 1))
            if q is None:
                if len(e.path) > 2 and e.path[1] in (('f', 'output_edge'), ('f', 'vertex')) and e.path[-1] != ('f', 'id'):
                    unknown += 1
                continue
            at = [tokens(x) for x in q[1:]]
            kind = 'out' if q[0] == 'out' and at == ['I'] else None
            if q[0] == 'in' and at == ['I', 'I']:
                kind = 'in'
            elif q[0] == 'in' and at[0] == 'I + V' and at[1] in ('0', '1'):
                kind = ('left', 'right')[int(at[1])] + ' of the operator'
            if kind is None or kind not in NETS[n]:
                unknown += 1
                continue
            vals = [v for x in alts(A.W, e.val) for v in edge_alts(A.W, x)]
            for v in vals:
                s = tokens(v)
                if s is None or s.startswith('OLD') and '(' not in s:
                    unknown += 1
                    continue
                key = 'Net::%s, %s' % (n, kind)
                seen.setdefault(kind, set()).add(s)
                if s in NETS[n][kind][0] | NETS[n][kind][1]:
                    R.inst('%s: %s' % (key, s), 'documented')
                    done += 1
                else:
                    R.bad('%s: %s' % (key, s), '%s: Net::%s connects (%s) to %s, documented: %s' % (A.where(e), n, kind, s, ' or '.join(sorted(NETS[n][kind][0] | NETS[n][kind][1]))))
            w = STARTS.get((n, kind))
            if w is not None and q[-1][0] in ('elem', 'pos'):
                it = A.W.elem.get(q[-1][1])
                if it and it[0] == 'iter' and it[1] == 'range':
                    lo = tokens(norm_term(it[2]))
                    if lo is not None and lo != w:
                        R.bad('Net::%s, %s: first channel' % (n, kind), '%s: Net::%s connects %s channels from %s, documented from %s' % (A.where(e), n, kind, lo, w))
        for kind, (req, _) in NETS[n].items():
            for s in sorted(req - seen.get(kind, set())):
                if unknown or not seen.get(kind):
                    R.skip('Net::%s, %s: %s' % (n, kind, s), 'connections written in a form that is not recognised')
                else:
                    R.bad('Net::%s, %s: %s' % (n, kind, s), '%s: Net::%s never connects (%s) to %s' % (A.at(), n, kind, s))
    R.count('connections of merged graphs', done)
    R.floor('connections of merged graphs', done, 6)
