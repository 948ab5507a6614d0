"""C12: graph edits take effect in rendering."""
from ..core import An, NODE, UNIT, ppath, pterm
from ..prop import norm_cond, switch_edges
from ..terms import use as use_terms, loc, alts, norm, norm_term, strip_at

ASSUME = ['the topological sort itself (Net::determine_order_in) is not decided here', 'units are used through the graph interface']
NET = 'net::Net'
OUT = [True]
TOPO = ('vertex', 'output_edge')
NOEFFECT = ('iter', 'iter_mut', 'index_mut', 'deref_mut', 'as_mut_slice', 'get_mut', 'get_unchecked_mut', 'reserve', 'shrink_to_fit', 'last_mut', 'first_mut')


def net_root(p):
    """(path of the graph, rest) if the path lies in the topology of a graph"""
    for i, x in enumerate(p):
        if isinstance(x, tuple) and x[0] == 'f' and x[1] in TOPO + ('order',):
            return p[:i], p[i:]
    return None, None


def order_reads(ctx):
    """whether the computation of the order looks at the graph outputs"""
    best = None
    for f in ctx.M.fns.values():
        if not f.has_body or f.kind != 'AssocFn' or not f.name.startswith(NET):
            continue
        A = ctx.function(f.id)
        if any(e.kind == 'write' and e.path and e.path[-1] == ('f', 'order') and len(e.path) == 2 and not (e.val[0] == 'agg' and e.val[2] == 'None') for e in A.events):
            if best is None or len(A.events) < len(best.events):
                best = A
    if best is None:
        return True
    return any('output_edge' in repr((e.path, e.val, e.args)) for e in best.events)


def topological(rest):
    names = [x[1] if x[0] == 'f' else '[]' if x[0] == 'i' else str(x[0]) for x in rest if isinstance(x, tuple)]
    if names[0] == 'output_edge':
        if not OUT[0]:
            return False
        return not (len(names) > 2 and names[2] == 'target')
    if names[0] == 'vertex':
        if len(names) <= 2:
            return True
        return names[2] == 'source' and not (len(names) > 4 and names[4] == 'target')
    return False


def order_state(t):
    """N if a graph value has no order, U otherwise"""
    if t[0] == 'agg' and t[1] == NET:
        v = dict(t[4]).get('order')
        return 'N' if v is not None and v[0] == 'agg' and v[2] == 'None' else 'U'
    if t[0] == 'ovr':
        for rel, v in t[2]:
            if rel == (('f', 'order'),):
                return 'N' if v[0] == 'agg' and v[2] == 'None' else 'U'
        return order_state(t[1])
    return 'U'


def mentions_net(M, t, seen=None):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'adt' and t[1] == NET:
        return True
    return any(mentions_net(M, x) for x in t if isinstance(x, tuple))


def steps(A):
    """per block: the ordered effects on graphs"""
    out = {}
    swaps = {}
    for e in A.events:
        if e.kind == 'write' and e.call is not None and e.call.name == 'std::mem::swap' and e.val != ('unit',):
            swaps.setdefault((e.blk, e.call.site), []).append(e)
    noop = {id(e) for es in swaps.values() if len(es) == 2 and same_list(es[0].val, es[1].val) for e in es}
    for e in A.events:
        if e.kind in ('write', 'fill') and e.path:
            r, rest = net_root(e.path)
            if r is None:
                if e.kind == 'write' and isinstance(e.path[0], tuple) and e.path[0][0] == 'L' and len(e.path) == 1:
                    v = e.val
                    if v[0] in ('agg', 'ovr') and (v[0] == 'agg' and v[1] == NET or v[0] == 'ovr'):
                        out.setdefault(e.blk, []).append(('set', e.path, order_state(v), e))
                elif e.kind == 'write' and e.val[0] == 'agg' and e.val[1] == NET:
                    out.setdefault(e.blk, []).append(('set', e.path, order_state(e.val), e))
                continue
            if rest[0] == ('f', 'order'):
                if len(rest) == 1:
                    out.setdefault(e.blk, []).append(('none' if e.val[0] == 'agg' and e.val[2] == 'None' else 'some', r, None, e))
            elif topological(rest) and id(e) not in noop and not same_place(e):
                out.setdefault(e.blk, []).append(('edit', r, None, e))
        elif e.kind == 'call' and e.extra:
            m = e.call.m or e.call.name.split('::')[-1]
            if m in NOEFFECT or e.call.trait in (NODE, UNIT):
                continue
            for i, p in A.W.mutable_args(e.call, e.args):
                r, rest = net_root(p)
                if r is not None and rest[0] != ('f', 'order') and topological(rest):
                    out.setdefault(e.blk, []).append(('edit', r, None, e))
        elif e.kind == 'drop' and e.path:
            out.setdefault(e.blk, []).append(('drop', e.path, None, e))
    return out


def list_base(v):
    """the node list a value was taken from, disregarding changes that are not connections"""
    v = strip_at(v)
    while v[0] == 'ovr' and all(len(rel) > 1 and rel[1] != ('f', 'source') for rel, _ in v[2]):
        v = strip_at(v[1])
    return v


def same_list(a, b):
    a, b = list_base(a), list_base(b)
    return a == b or loc(a) is not None and loc(a) == loc(b)


def same_place(e):
    return loc(e.val) == e.path


def run(ctx, R):
    M = ctx.M
    R.rule('Edits: in every function that handles a graph, on every path, a change of its nodes or connections is followed by clearing the evaluation order, or happens while it is cleared.')
    R.rule('Use: rendering and analysis reach a node only after finding an order present or computing it; computing it recomputes the source shortcut of every node.')
    R.rule('Wiring: sample rendering, block rendering and analysis read each node input and each graph output from exactly the source stored for it: the node output named, the graph input named, or zero.')
    for n in TOPO + ('order',):
        owners = [a for a, d in M.adts.items() for _, fs in d['variants'] for f, _, _ in fs if f == n]
        R.need(owners == [NET], 'field %s of graphs' % n, 'edits are found through the fields of the graph type')
    OUT[0] = order_reads(ctx)
    R.notes.append('graph outputs %s the evaluation order' % ('influence' if OUT[0] else 'do not influence'))
    k = 0
    edits = 0
    for f in sorted(M.fns.values(), key=lambda f: f.id):
        if not f.has_body or f.kind not in ('Fn', 'AssocFn') or ctx.internal(f) or not any(mentions_net(M, t) for t in f.locals):
            continue
        A = An(ctx, f, {}, None, None, local=True)
        st = steps(A)
        n = sum(1 for v in st.values() for x in v if x[0] == 'edit')
        if not n:
            continue
        k += 1
        edits += n
        key = 'edits in %s' % f.name
        R.inst(key, '%s: %d edits' % (A.at(), n))
        bad = stale(A, st)
        for root, e in bad[:3]:
            R.bad(key, '%s: %s changes the nodes or connections of %s and returns with the earlier evaluation order' % (A.where(e), f.name, ppath(root)))
    R.floor('functions that edit graphs', k, 20)
    R.floor('edits', edits, 40)
    use(ctx, R)
    shortcut(ctx, R)
    wiring(ctx, R)


def stale(A, st):
    entry = A.F.entry
    ins = {entry: {}}
    work = [entry]
    ends = {}
    while work:
        b = work.pop()
        s = dict(ins[b])
        for what, r, x, e in st.get(b, []):
            if what == 'set':
                s[r] = (x, None)
            elif what == 'none':
                s[r] = ('N', None)
            elif what == 'some':
                s[r] = ('U', None)
            elif what == 'drop':
                for q in [q for q in s if q[:len(r)] == r]:
                    del s[q]
            elif what == 'edit':
                if s.get(r, ('U', None))[0] != 'N':
                    s[r] = ('S', e)
        ends[b] = s
        for n in A.succs(b):
            old = ins.get(n)
            if old is None:
                ins[n] = dict(s)
                work.append(n)
            else:
                new = dict(old)
                for q in set(old) | set(s):
                    a, c = old.get(q, ('U', None)), s.get(q, ('U', None))
                    new[q] = a if a[0] == 'S' else c if c[0] == 'S' else a if a[0] == c[0] else ('U', None)
                if {q: v[0] for q, v in new.items()} != {q: v[0] for q, v in old.items()}:
                    ins[n] = new
                    work.append(n)
    out = []
    for b in A.retblocks():
        out += [(q, v[1]) for q, v in ends.get(b, {}).items() if v[0] == 'S']
    return out


def ordered_edges(A):
    """edges on which an order is known to be present, blocks after which it is"""
    edges = set()
    blocks = set()
    for e in A.events:
        if e.kind == 'write' and e.path and e.path[-1] == ('f', 'order') and not (e.val[0] == 'agg' and e.val[2] == 'None'):
            blocks.add(e.blk)
        if e.kind == 'switch':
            v = e.val
            neg = False
            while v[0] == 'un' and v[1] == 'Not':
                v, neg = v[2], not neg
            present = None
            if v[0] == 'pure' and v[1].split('::')[-1] in ('is_some', 'is_none') and v[3] and is_order(v[3][0]):
                present = (1 if v[1].split('::')[-1] == 'is_some' else 0)
            elif v[0] == 'discr' and is_order(v[1]):
                present = 1
            if present is None:
                continue
            if neg:
                present = 1 - present
            t = A.F.blocks[e.blk].term
            for val, tgt in switch_edges(t):
                if val == present or val is None and present not in [x for x, _ in switch_edges(t)] or val is True and present == 1 or val is False and present == 0:
                    edges.add((e.blk, tgt))
    return edges, blocks


def is_order(t):
    t = strip_at(t)
    p = t[1] if t[0] in ('ref', 'optref') else loc(t)
    return bool(p) and p[-1] == ('f', 'order')


def use(ctx, R):
    im = [i for t, i in ctx.node_impls() if t == UNIT and i['self'][1] == NET][0]
    for m in ('tick', 'process', 'route'):
        A = ctx.method(UNIT, im, m)
        key = 'order before %s' % m
        R.inst(key, A.at())
        edges, blocks = ordered_edges(A)
        calls = [e for e in A.calls() if e.call.trait == UNIT and e.call.m == m]
        R.need(bool(calls), 'nodes rendered by %s' % m, A.at())
        free = A.reach(A.F.entry, removed=blocks, removed_edges=edges)
        for e in calls:
            if e.blk in free:
                R.bad(key, '%s: %s reaches a node without an evaluation order' % (A.where(e), m))
        # the shortcut is refreshed whenever the order is computed
        sw = [e for e in A.events if e.kind == 'write' and e.path and e.path[-1] == ('f', 'source_vertex')]
        key = 'source shortcuts before %s' % m
        R.inst(key, A.at())
        if m == 'process':
            # an order may only be stored after a loop over all nodes that rewrites the shortcut
            ok = False
            for e in sw:
                ix = [x for x in e.path if isinstance(x, tuple) and x[0] == 'i']
                if ix and covers(A, ix[0][1], e):
                    ok = True
            if not ok:
                R.bad(key, '%s: the evaluation order is computed without recomputing the source shortcut of every node' % A.at())
            for b in blocks:
                heads = {h for e in sw for h in A.loops_of(e.blk)}
                if not any(A.dominates(h, b) for h in heads):
                    R.bad(key, '%s: an evaluation order is stored before the source shortcuts are recomputed' % A.at())


def shortcut(ctx, R):
    """a direct source is stored only if every input comes from consecutive outputs of one node"""
    best = None
    for f in ctx.M.fns.values():
        if not f.has_body or f.kind not in ('Fn', 'AssocFn') or not any('Vertex' in repr(t) for t in f.locals):
            continue
        A = ctx.function(f.id)
        if any(some_shortcut(e) for e in A.events) and (best is None or len(A.events) < len(best.events)):
            best = A
    key = 'conditions of the source shortcut'
    if best is None:
        R.skip(key, 'no shortcut is stored')
        return
    A = best
    use_terms(A.W)
    stores = [e for e in A.events if some_shortcut(e)]
    seen = False
    for h, body in A.loops().items():
        if not any(A.dominates(h, e.blk) and e.blk not in body for e in stores):
            continue
        ok = {'0': set(), '1': set(), 'Local': set()}
        first = set()
        for e in A.events:
            if e.kind != 'switch' or e.blk not in body:
                continue
            t = A.F.blocks[e.blk].term
            v, neg = norm_cond(e.val)
            es = switch_edges(t)
            if v[0] == 'discr':
                p = loc(v[1])
                if v[1][0] == 'phi' and v[1][1] == h and p is None:
                    # nothing has been seen yet
                    first.update((e.blk, tgt) for val, tgt in es if val == 0 or val is None and all(x != 0 for x, _ in es))
                if p and len(p) > 2 and p[-1] == ('f', 'source') and ('f', 'source') in p[:-1]:
                    n = ctx.M.variant_index('net::Port', 'Local') if hasattr(ctx.M, 'variant_index') else None
                    for val, tgt in es:
                        if val is not None and (n is None or val == n):
                            ok['Local'].add((e.blk, tgt))
                continue
            if v[0] != 'bin' or v[1] not in ('Eq', 'Ne'):
                continue
            truth = (v[1] == 'Eq') != neg
            hit = [(val, tgt) for val, tgt in es if (val == 0) != truth]
            sides = [v[2], v[3]]
            if ('c', 0) in sides and any(x[0] in ('elem', 'phi') for x in sides):
                first.update((e.blk, tgt) for _, tgt in hit)
                continue
            for x in sides:
                p = loc(x)
                if p and p[-2:] in ((('d', 'Local'), ('f', '0')), (('d', 'Local'), ('f', '1'))):
                    which = p[-1][1]
                    other = sides[1] if x is sides[0] else sides[0]
                    if which == '1' and not (other[0] == 'bin' and other[1] in ('Add', 'WAdd')):
                        continue
                    ok[which].update((e.blk, tgt) for _, tgt in hit)
        if not (ok['0'] or ok['1'] or ok['Local']):
            continue
        if any(e.blk in body and e.kind == 'switch' and str(e.fn).endswith('::eq') for e in A.events):
            R.skip(key, 'whole sources are compared')
            return
        seen = True
        R.inst(key, '%s: %d branches in the loop over the inputs' % (A.at(), sum(1 for e in A.events if e.kind == 'switch' and e.blk in body)))
        for which, text in (('0', 'outputs of different nodes'), ('1', 'outputs that are not consecutive'), ('Local', 'inputs that are not fed by a node')):
            removed = ok[which] | (first if which != 'Local' else set())
            work, reached = [h], set()
            back = False
            while work:
                b = work.pop()
                for t in A.succs(b):
                    if (b, t) in removed or t not in body:
                        continue
                    if t == h:
                        back = True
                    elif t not in reached:
                        reached.add(t)
                        work.append(t)
            if back:
                R.bad(key, '%s: a direct source may be stored for %s' % (A.at(), text))
    if not seen:
        R.skip(key, 'the conditions are not tested in a loop')


def some_shortcut(e):
    return e.kind == 'write' and bool(e.path) and e.path[-1] == ('f', 'source_vertex') and not (e.val[0] == 'agg' and e.val[2] == 'None')


def covers(A, ix, e):
    """the index runs over all nodes"""
    from ..prop import range_cover, iter_cover
    W = A.W
    if ix[0] == 'elem':
        it = W.elem.get(ix[1])
        return it is not None and full(it)
    return False


def full(it):
    if it[0] != 'iter':
        return False
    if it[1] == 'range':
        lo, hi = it[2], it[3]
        return lo in (('c', 0), ('c', 0.0)) and hi[0] == 'len' and hi[1][-1] == ('f', 'vertex') and it[4] == 'excl'
    if it[1] in ('refs', 'vals', 'muts'):
        return it[2][-1:] == (('f', 'vertex'),)
    return any(isinstance(x, tuple) and full(x) for x in it[2:] if isinstance(x, tuple) and x and x[0] == 'iter')


def port_of(t, kind, field):
    """path of the stored source if t reads field of it as the given kind"""
    p = loc(t)
    if p and p[-2:] == (('d', kind), ('f', field)):
        return p[:-2]
    return None


def classify(W, t, root, outname, inarg):
    """what a value is read from: ('zero',), ('in', source), ('node', source), or None"""
    t = strip_at(t)
    if t in (('c', 0.0), ('c', 0)):
        return ('zero',)
    p = loc(t)
    if p is None:
        return None
    if p[0] == ('P', inarg) and len(p) == 2 and p[1][0] == 'i':
        s = port_of(p[1][1], 'Global', '0')
        return ('in', s) if s else None
    if len(p) >= 4 and p[0] == root and p[1] == ('f', 'vertex') and p[2][0] == 'i' and p[3] == ('f', outname) and len(p) == 5 and p[4][0] == 'i':
        a, b = port_of(p[2][1], 'Local', '0'), port_of(p[4][1], 'Local', '1')
        return ('node', a) if a and a == b else None
    return None


def check_reads(R, A, key, what, got, want_source):
    """got: list of (classification, event)"""
    kinds = set()
    for c, e in got:
        if c is None or len(c) > 1 and c[1] != want_source:
            R.bad(key, '%s: %s is not read from the source stored for it' % (A.where(e), what))
            return
        kinds.add(c[0])
    for k_, n in (('zero', 'zero when unconnected'), ('in', 'the graph input it is connected to'), ('node', 'the node output it is connected to')):
        if k_ not in kinds:
            R.bad(key, '%s: %s is never read from %s' % (A.at(), what, n))


def wiring(ctx, R):
    M = ctx.M
    im = [i for t, i in ctx.node_impls() if t == UNIT and i['self'][1] == NET][0]
    P = ('P', 1)
    # sample rendering
    r = M.trait_method(UNIT, 'tick', im['trait_args'])
    A = An(ctx, r[0], r[1], im['self'], None)
    use_terms(A.W)
    key = 'wiring of tick'
    R.inst(key, A.at())
    ins, outs = {}, []
    for e in A.events:
        if e.kind != 'write' or not e.path:
            continue
        p = norm(e.path)
        if p[0] == P and len(p) == 5 and p[1] == ('f', 'vertex') and p[3] == ('f', 'tick_input'):
            for v in alts(A.W, e.val):
                ins.setdefault((p[2], p[4]), []).append((classify(A.W, v, P, 'tick_output', 2), e))
        elif p[0] == ('P', 3) and len(p) == 2:
            for v in alts(A.W, e.val):
                outs.append((classify(A.W, v, P, 'tick_output', 2), e, p[1]))
    R.need(bool(ins) and bool(outs), 'reads of tick', A.at())
    for (n, c), got in ins.items():
        check_reads(R, A, key, 'a node input', got, (P, ('f', 'vertex'), n, ('f', 'source'), c, ('f', 'source')))
    for c in {o[2] for o in outs}:
        check_reads(R, A, key, 'a graph output', [(o[0], o[1]) for o in outs if o[2] == c], (P, ('f', 'output_edge'), c, ('f', 'source')))
    each_time(R, A, key, [e for g in ins.values() for _, e in g], 'a node input')
    each_time(R, A, key, [o[1] for o in outs], 'a graph output')
    for e in A.calls():
        if e.call.trait == UNIT and e.call.m == 'tick':
            base = container(e.args[0])[:3]
            if container(e.args[1]) != base + (('f', 'tick_input'),) or container(e.args[2]) not in (base + (('f', 'tick_output'),), base + (('f', 'tick_output_tmp'),)):
                R.bad(key, '%s: a node is not rendered with its own inputs and outputs' % A.where(e))
    # block rendering
    A = ctx.bufmethod(UNIT, im, 'process')
    use_terms(A.W)
    key = 'wiring of process'
    R.inst(key, A.at())
    ins, outs = {}, []
    for e in A.events:
        d = buffer_write(A, e)
        if d is None:
            continue
        cont, ch, val, end = d
        if cont[0] == P and len(cont) == 4 and cont[1] == ('f', 'vertex') and cont[3] == ('f', 'input'):
            for v in val:
                ins.setdefault((cont[2], ('i', norm_term(ch))), []).append((bufclass(v, P), e))
        elif cont == (('P', 4),):
            for v in val:
                outs.append((bufclass(v, P), e, ('i', norm_term(ch))))
        else:
            continue
        if end is not None and not blocks_of(end):
            R.bad(key, '%s: a different number of samples is moved than requested' % A.where(e))
    R.need(bool(ins) and bool(outs), 'reads of process', A.at())
    for (n, c), got in ins.items():
        check_reads(R, A, key, 'a node input', got, (P, ('f', 'vertex'), n, ('f', 'source'), c, ('f', 'source')))
    for c in {o[2] for o in outs}:
        check_reads(R, A, key, 'a graph output', [(o[0], o[1]) for o in outs if o[2] == c], (P, ('f', 'output_edge'), c, ('f', 'source')))
    each_time(R, A, key, [e for g in ins.values() for _, e in g], 'a node input')
    each_time(R, A, key, [o[1] for o in outs], 'a graph output')
    for e in A.calls():
        if e.call.trait == UNIT and e.call.m == 'process':
            why = block_call(A, e, P)
            if why:
                R.bad(key, '%s: %s' % (A.where(e), why))
    # analysis
    r = M.trait_method(UNIT, 'route', im['trait_args'])
    A = An(ctx, r[0], r[1], im['self'], None, local=True)
    use_terms(A.W)
    key = 'wiring of route'
    R.inst(key, A.at())
    route(R, A, key, P)


def each_time(R, A, key, es, what):
    """in the innermost loop that writes the place, no iteration can skip the write"""
    if not es:
        return
    hs = {A.innermost(e.blk) for e in es}
    for h in hs:
        if h is None:
            continue
        body = A.loops()[h]
        blocks = {e.blk for e in es if A.innermost(e.blk) == h}
        # from the header, taking the edge into the body, back to the header without a write
        seen = set()
        work = [s for s in A.succs(h) if s in body and s not in blocks]
        bad = False
        while work:
            b = work.pop()
            if b in seen or b not in body:
                continue
            seen.add(b)
            for s in A.succs(b):
                if s == h:
                    bad = True
                elif s not in blocks and s in body:
                    work.append(s)
        if bad:
            R.bad(key, '%s: %s keeps its earlier value for some sources' % (A.where(es[0]), what))


def chan(t):
    """(container path, channel) of a channel view"""
    t = strip_at(t)
    while t[0] in ('pure', 'call') and (t[1] if t[0] == 'pure' else t[2]).split('::')[-1] in ('index', 'index_mut', 'deref', 'deref_mut'):
        t = strip_at(t[3][0])
    if t[0] == 'ref' and isinstance(t[1][0], tuple) and t[1][0][0] in ('D', 'V'):
        t = t[1][0][1]
        return chan(t)
    if t[0] in ('pure', 'call'):
        n = (t[1] if t[0] == 'pure' else t[2]).split('::')[-1]
        if n in ('channel', 'channel_mut', 'channel_f32', 'channel_f32_mut'):
            c = t[3][0]
            p = container(c)
            return (p, t[3][1], n)
    return None


def container(c):
    c0 = c
    c = strip_at(c)
    if c0[0] == 'at' and not (c0[1][0][0] == 'L' and len(c0[1]) == 1):
        p = c0[1]
    elif c[0] == 'ref':
        p = c[1]
    elif c[0] in ('pure', 'call') and (c[1] if c[0] == 'pure' else c[2]).split('::')[-1] in ('buffer_ref', 'buffer_mut'):
        return container(c[3][0])
    else:
        p = loc(c)
    if p is None:
        return None
    if isinstance(p[0], tuple) and p[0][0] == 'D' and len(p) == 1:
        return container(p[0][1])
    return norm(p)


def rangeof(t):
    t = strip_at(t)
    if t[0] in ('pure', 'call') and (t[1] if t[0] == 'pure' else t[2]).split('::')[-1] in ('index', 'index_mut'):
        r = t[3][1]
        if r[0] == 'agg':
            d = dict(r[4])
            return (d.get('start'), d.get('end'))
    return None


def blocks_of(end):
    """the number of vectors that hold the requested samples"""
    return end == ('bin', 'Shr', ('bin', 'Add', ('arg', 2), ('c', 7)), ('c', 3)) or end == ('bin', 'Shr', ('bin', 'Add', ('c', 7), ('arg', 2)), ('c', 3)) \
        or end[0] in ('pure', 'call') and 'simd_items' in str(end[1:3])


def buffer_write(A, e):
    """(container, channel, values, length) of a write to a whole channel"""
    if e.kind == 'call':
        m = e.call.m or e.call.name.split('::')[-1]
        if m in ('copy_from_slice', 'clone_from_slice', 'fill') and len(e.args) == 2:
            d = chan(e.args[0])
            if d is None or d[0] is None:
                return None
            r = rangeof(e.args[0])
            v = e.args[1] if m != 'fill' else e.args[1]
            end = r[1] if r else None
            r2 = rangeof(v) if m != 'fill' else r
            if r2 is not None and r is not None and r2 != r:
                end = ('c', -1)
            return d[0], d[1], list(views(A.W, v)), end
    elif e.kind == 'fill':
        d = chan(('ref', e.path))
        if d:
            return d[0], d[1], [e.val], None
    return None


def views(W, v):
    """the views a slice may be taken of"""
    v = strip_wrap(v)
    if v[0] in ('pure', 'call') and (v[1] if v[0] == 'pure' else v[2]).split('::')[-1] == 'index':
        for a in alts(W, strip_wrap(v[3][0])):
            yield a
    else:
        yield v


def bufclass(v, P):
    v = strip_at(v)
    if v[0] == 'c' and v[1] == 0 or v[0] == 'nc' and v[1].split('::')[-1] == 'ZERO' or v[0] == 'splat' and v[1] == ('c', 0.0):
        return ('zero',)
    d = chan(v)
    if d is None:
        return None
    cont, ch, _ = d
    if cont == (('P', 3),):
        s = port_of(ch, 'Global', '0')
        return ('in', s) if s else None
    if cont and cont[0] == P and len(cont) == 4 and cont[1] == ('f', 'vertex') and cont[3] == ('f', 'output'):
        a, b = port_of(cont[2][1], 'Local', '0'), port_of(ch, 'Local', '1')
        return ('node', a) if a and a == b else None
    return None


def block_call(A, e, P):
    """a node is rendered from its own gathered inputs, or straight from the node its shortcut names"""
    unit = norm(e.args[0][1]) if e.args[0][0] == 'ref' else None
    if unit is None or unit[:2] != (P, ('f', 'vertex')):
        return 'a node that is not in the graph is rendered'
    base = unit[:3]
    if e.args[1] != ('arg', 2):
        return 'a node is rendered with a different block size'
    out = container(strip_wrap(e.snap[3]))
    if out not in (base + (('f', 'output'),), base + (('f', 'output_tmp'),)):
        return 'a node is not rendered into its own outputs'
    for t in alts(A.W, strip_wrap(e.snap[2])):
        t = strip_wrap(t)
        if t[0] in ('pure', 'call') and (t[1] if t[0] == 'pure' else t[2]).split('::')[-1] == 'subset':
            src = container(t[3][0])
            port = loc(strip_at(t[3][1]))
            if not src or src[-1] != ('f', 'output') or src[:2] != (P, ('f', 'vertex')) or port is None:
                return 'a node reads directly from something other than node outputs'
            i = loc(src[2][1])
            want = base + (('f', 'source_vertex'), ('d', 'Some'), ('f', '0'))
            if i != want + (('f', '0'),) or port != want + (('f', '1'),):
                return 'a node reads directly from a node its shortcut does not name'
        else:
            c = container(t)
            if c != base + (('f', 'input'),):
                return 'a node is not rendered from its own inputs'
    return None


def strip_wrap(t):
    t0 = t
    while True:
        t = strip_at(t)
        if t[0] == 'refval':
            t = t[1]
        elif t[0] == 'ref' and len(t[1]) == 1 and isinstance(t[1][0], tuple) and t[1][0][0] in ('D', 'V'):
            t = t[1][0][1]
        else:
            return t


def route(R, A, key, P):
    calls = [e for e in A.calls() if e.call.trait == UNIT and e.call.m == 'route']
    R.need(bool(calls), 'analysis of nodes', A.at())
    for e in calls:
        unit = norm(e.args[0][1])
        base = unit[:3]
        if e.args[1][0] != 'ref' or e.args[2] != ('arg', 3):
            R.bad(key, '%s: a node is not analysed at the requested frequency' % A.where(e))
            continue
        sig = e.args[1][1]
        got = {}
        for w in A.events:
            if w.kind == 'write' and w.path[:len(sig)] == sig and len(w.path) > len(sig) and isinstance(w.path[-1], tuple) and w.path[-1][0] == 'i':
                got.setdefault(norm(w.path)[-1], []).extend((sigclass(v, 2), w) for v in alts(A.W, w.val))
        if not got:
            R.bad(key, '%s: a node is analysed without its inputs' % A.where(e))
        kept = [w for w in A.events if w.kind == 'write' and w.path and strip_at(w.val)[:2] == ('call', e.call.site)
                and any(isinstance(x, tuple) and x[0] == 'i' and norm((x,)) == base[2:3] for x in w.path)]
        if not kept:
            R.bad(key, '%s: the signals of a node are not kept as its own' % A.where(e))
        for c, g in got.items():
            check_reads(R, A, key, 'a node input', g, base + (('f', 'source'), c, ('f', 'source')))
            each_time(R, A, key, [w for _, w in g], 'a node input')
    # graph outputs
    outs = {}
    for w in A.events:
        if w.kind == 'write' and isinstance(w.path[-1], tuple) and w.path[-1][0] == 'i':
            for v in alts(A.W, w.val):
                c = sigclass(v, 2)
                if c and len(c) > 1 and c[1] and c[1][:2] == (P, ('f', 'output_edge')):
                    outs.setdefault(norm(w.path), True)
    if not outs:
        R.bad(key, '%s: graph outputs are not analysed' % A.at())
    for p in outs:
        g = [(sigclass(v, 2), w) for w in A.events if w.kind == 'write' and norm(w.path) == p for v in alts(A.W, w.val)]
        check_reads(R, A, key, 'a graph output', g, (P, ('f', 'output_edge'), p[-1], ('f', 'source')))
        each_time(R, A, key, [w for _, w in g], 'a graph output')


def sigclass(t, inarg):
    t = strip_at(t)
    if t[0] == 'agg' and t[2] == 'Value':
        return ('zero',) if t[4][0][1] in (('c', 0.0), ('c', 0)) else None
    p = loc(t, True)
    if p is None or not (isinstance(p[-1], tuple) and p[-1][0] == 'i'):
        return None
    ix = p[-1][1]
    if p[0] == ('P', inarg):
        s = port_of(ix, 'Global', '0')
        return ('in', s) if s else None
    b = port_of(ix, 'Local', '1')
    if b:
        for x in p[:-1]:
            if isinstance(x, tuple) and x[0] == 'i' and port_of(x[1], 'Local', '0') == b:
                return ('node', b)
    return None
