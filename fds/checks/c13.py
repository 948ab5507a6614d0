"""C13: operations on a graph act on the node and connection they name."""
from ..core import An, UNIT, ppath, pterm
from ..terms import use as use_terms, loc, alts, norm, norm_term, strip_at
from ..prop import norm_cond, switch_edges

ASSUME = ['fresh identities are distinct (shared::IdGenerator)', 'the hash map of the hashbrown crate behaves as a map']
NET = 'net::Net'
P = ('P', 1)


def idx(k):
    return ('loc', (P, ('f', 'node_index'), ('i', k)))


def arg(n):
    return ('arg', n)


def sub(n, kind, field):
    return ('pj', ('pj', arg(n), ('d', kind)), ('f', field))


def zero():
    return ('Zero',)


def src(n):
    return {zero(), ('Global', sub(n, 'Global', '0')), ('Local', idx(sub(n, 'Local', '0')), sub(n, 'Local', '1'))}


C = ('pos',)
# place -> sources that may be written there; a place with C stands for every channel
EDITS = {
    'connect': {('in', idx(arg(4)), arg(5)): {('Local', idx(arg(2)), arg(3))}},
    'connect_input': {('in', idx(arg(3)), arg(4)): {('Global', arg(2))}},
    'disconnect': {('in', idx(arg(2)), arg(3)): {zero()}},
    'connect_output': {('out', arg(4)): {('Local', idx(arg(2)), arg(3))}},
    'disconnect_output': {('out', arg(2)): {zero()}},
    'pass_through': {('out', arg(3)): {('Global', arg(2))}},
    'pipe_input': {('in', idx(arg(2)), C): {('Global', ('mod', 'inputs', None)), zero()}},
    'pipe_output': {('out', C): {('Local', idx(arg(2)), ('mod', 'outputs', idx(arg(2)))), zero()}},
    'pipe_all': {('in', idx(arg(3)), C): {('Local', idx(arg(2)), ('mod', 'outputs', idx(arg(2)))), zero()}},
    'set_source': {('in', idx(arg(2)), arg(3)): src(4)},
    'set_output_source': {('out', arg(2)): src(3)},
}
# methods that read or exchange the unit of one node: parameter that names it
NAMED = {'source': 2, 'inputs_in': 2, 'outputs_in': 2, 'node': 2, 'node_mut': 2, 'replace': 2, 'crossfade': 2}


def place(p, root=P):
    """('in', node, channel) or ('out', channel) of the source of a connection, and the depth of the rest"""
    if not p or p[0] != root:
        return None
    p = p[1:]
    if p and p[0] == ('f', 'output_edge') and len(p) > 1 and p[1][0] == 'i':
        q, rest = ('out', p[1][1]), p[2:]
    elif len(p) > 3 and p[0] == ('f', 'vertex') and p[1][0] == 'i' and p[2] == ('f', 'source') and p[3][0] == 'i':
        q, rest = ('in', p[1][1], p[3][1]), p[4:]
    else:
        return None
    if rest in ((), (('f', 'source'),)):
        return q
    return None


def port(t):
    """source port of a written value"""
    t = norm_term(t)
    if t[0] == 'agg' and t[1].endswith('::Edge'):
        t = norm_term(dict(t[4])['source'])
    if t[0] == 'agg' and t[1].endswith('::Port'):
        return (t[2],) + tuple(norm_term(v) for _, v in t[4])
    p = loc(t)
    if p is not None:
        q = place(p) or place(p + (('f', 'source'),))
        if q is not None:
            return ('copy', q)
    return ('?', t)


def edits(A):
    """[(place, source, event)] of every write to a connection of the graph itself"""
    use_terms(A.W)
    out = []
    for e in A.events:
        if e.kind == 'write' and e.path:
            q = place(norm(e.path))
            if q is not None:
                for v in alts(A.W, e.val):
                    for v2 in edge_alts(A.W, v):
                        out.append((q, port(v2), e))
    return out


def edge_alts(W, v):
    v = strip_at(v)
    if v[0] == 'agg' and v[1].endswith('::Edge'):
        for s in alts(W, dict(v[4])['source']):
            yield s
    else:
        yield v


def pos_of(t):
    return t[0] == 'pos'


def generic(q, s):
    """replace the loop position by C in place and source; None if they use different positions"""
    ps = {x for x in q[1:] if pos_of(x)}
    if len(ps) != 1:
        return q, s
    p = next(iter(ps))

    def g(x):
        if x == p:
            return C
        if isinstance(x, tuple) and x and x[0] == 'bin' and x[1] == 'Rem' and x[2] == p:
            d = x[3]
            if d[0] == 'len' and d[1][-1] in (('f', 'tick_output'), ('f', 'output')) and len(d[1]) > 2 and d[1][1] == ('f', 'vertex'):
                return ('mod', 'outputs', d[1][2][1])
            if d[0] in ('pure', 'call'):
                n = (d[1] if d[0] == 'pure' else d[2]).split('::')[-1]
                if n in ('inputs', 'outputs', 'channels'):
                    if 'vertex' in repr(d[3]) and n == 'outputs':
                        return ('mod', 'outputs', node_in(d))
                    return ('mod', 'inputs' if n == 'inputs' or "'input'" in repr(d[3]) else 'outputs', None)
            if d[0] == 'len' and d[1][-1] == ('f', 'output_edge'):
                return ('mod', 'outputs', None)
        if isinstance(x, tuple):
            return tuple(g(y) if isinstance(y, tuple) else y for y in x)
        return x
    return g(q), g(s)


def node_in(d):
    for x in walk(d):
        if isinstance(x, tuple) and len(x) > 2 and x[1:2] == (('f', 'vertex'),) and isinstance(x[2], tuple) and x[2][0] == 'i':
            return norm_term(x[2][1])
    return None


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


def show(q):
    def s(t):
        if t == C:
            return 'each channel'
        if isinstance(t, tuple) and t and t[0] == 'mod':
            return 'channel modulo %s' % t[1]
        if isinstance(t, tuple) and t and t[0] == 'loc':
            return ppath(t[1])
        return pterm(t) if isinstance(t, tuple) else str(t)
    try:
        return '%s(%s)' % (q[0], ', '.join(s(x) if not (isinstance(x, tuple) and x and x[0] in ('in', 'out')) else show(x) for x in q[1:]))
    except Exception:
        return str(q)[:80]


def method(ctx, name):
    fs = [f for f in ctx.M.fns.values() if f.name == NET + '::' + name and f.has_body]
    return ctx.function(fs[0].id) if len(fs) == 1 else None


def run(ctx, R):
    M = ctx.M
    R.rule('Edits by identity: each connecting operation writes exactly the connection its arguments name, with exactly the source its arguments name.')
    R.rule('Access by identity: each operation on one node touches only the node its argument names.')
    R.rule('Table: every entry written to the identity table maps the identity stored in a node to the position of that node; every new or renamed node gets its entry.')
    R.rule('Removal: connections to the removed node become zero or are linked through; connections to the node moved into its place follow it.')
    n = 0
    for name, want in EDITS.items():
        A = method(ctx, name)
        key = 'edit %s' % name
        if A is None:
            R.skip(key, 'operation does not exist')
            continue
        n += 1
        R.inst(key, A.at())
        got = {}
        unknown = False
        for q, s, e in edits(A):
            q, s = generic(q, s)
            if s[0] in ('?', 'copy'):
                # a value that was already there
                if s == ('copy', q):
                    continue
                unknown = True
            got.setdefault(q, []).append((s, e))
        for q, ss in got.items():
            if q not in want:
                R.bad(key, '%s: %s changes %s, which its arguments do not name' % (A.where(ss[0][1]), name, show(q)))
                continue
            for s, e in ss:
                if s not in want[q] and s[0] != '?':
                    R.bad(key, '%s: %s connects %s to %s, which its arguments do not name' % (A.where(e), name, show(q), show(s)))
            if not unknown:
                for s in want[q] - {x for x, _ in ss}:
                    R.bad(key, '%s: %s never connects %s to %s' % (A.at(), name, show(q), show(s)))
        for q in want:
            if q not in got:
                R.bad(key, '%s: %s does not change %s' % (A.at(), name, show(q)))
    R.floor('connecting operations', n, 8)
    k = 0
    for name, a in NAMED.items():
        A = method(ctx, name)
        key = 'access %s' % name
        if A is None:
            R.skip(key, 'operation does not exist')
            continue
        k += 1
        R.inst(key, A.at())
        use_terms(A.W)
        hit = False
        for e in A.events:
            ps = [e.path] if e.kind in ('write', 'fill') and e.path else []
            if e.kind == 'return' and e.val is not None:
                ps += list(refs(e.val)) + [loc(v) for v in alts(A.W, e.val) if loc(v)]
                for v in alts(A.W, e.val):
                    ps += list(refs(v))
            if e.kind == 'call':
                ps += [p for x in e.args for p in refs(x)]
            for p in ps:
                p = norm(p)
                if len(p) > 2 and p[0] == P and p[1] == ('f', 'vertex') and p[2][0] == 'i':
                    hit = True
                    if p[2][1] != idx(arg(a)) and not via_source(p[2][1], a, name):
                        R.bad(key, '%s: %s touches the node at %s instead of the one named' % (A.where(e), name, show(('x', p[2][1]))))
        if not hit:
            R.bad(key, '%s: %s does not reach the node named' % (A.at(), name))
    R.floor('operations on one node', k, 5)
    named_edits(ctx, R)
    table(ctx, R)
    removal(ctx, R)
    adoption(ctx, R)


def via_source(t, a, name):
    """the node a connection of the named node refers to"""
    p = loc(t)
    return name == 'source' and p is not None and p[-2:] == (('d', 'Local'), ('f', '0')) and place(p[:-2]) is not None and place(p[:-2])[1] == idx(arg(a))


def refs(t):
    t = strip_at(t)
    if not isinstance(t, tuple) or not t:
        return
    if t[0] in ('ref', 'optref', 'len') and isinstance(t[1], tuple):
        yield t[1]
    elif t[0] == 'refval':
        yield from refs(t[1])
    elif t[0] == 'agg':
        for _, v in t[4]:
            yield from refs(v)
    p = loc(t)
    if p is not None:
        yield p


def named_edits(ctx, R):
    """a queued replacement of a unit carries the position of the node whose identity it carries"""
    n = 0
    for f in sorted(ctx.M.fns.values(), key=lambda f: f.id):
        if not f.has_body or f.kind not in ('Fn', 'AssocFn') or not any('NodeEdit' in repr(t) for t in f.locals):
            continue
        A = ctx.function(f.id)
        use_terms(A.W)
        for e in A.events:
            for v in ([e.val] if e.kind == 'write' else list(e.args or ()) if e.kind == 'call' else []):
                if not isinstance(v, tuple):
                    continue
                for x in walk(v):
                    if isinstance(x, tuple) and len(x) > 4 and x[0] == 'agg' and str(x[1]).endswith('::NodeEdit'):
                        d = dict(x[4])
                        if d['unit'][0] == 'agg' and d['unit'][2] == 'None':
                            continue
                        n += 1
                        key = 'queued edit in %s' % f.name
                        R.inst(key, A.where(e))
                        i = loc(strip_at(d['index']), True) or loc(d['index'], True)
                        ident = norm_term(d['id'])
                        if i is None or len(i) < 2 or i[-2] != ('f', 'node_index'):
                            R.bad(key, '%s: a queued edit carries a position that was not looked up' % A.where(e))
                        elif not same_id(i[-1][1], ident):
                            R.bad(key, '%s: a queued edit carries the position of another node' % A.where(e))
    R.floor('queued edits', n, 2)


def same_id(a, b):
    a, b = norm_term(a), norm_term(b)
    return a == b or loc(a) is not None and loc(a) == loc(b)


def id_of_node(k, root):
    """position whose node identity the key is"""
    p = loc(k, True)
    if p is not None and p[-1] == ('f', 'id') and len(p) >= 3 and p[-3] == ('f', 'vertex') and p[-2][0] == 'i':
        return p[:-3], p[-2][1]
    return None


def table(ctx, R):
    n = 0
    for f in sorted(ctx.M.fns.values(), key=lambda f: f.id):
        if not f.has_body or f.kind not in ('Fn', 'AssocFn') or not f.name.startswith(NET + '::') or ctx.internal(f):
            continue
        A = An(ctx, f, {}, None, None, local=True)
        use_terms(A.W)
        ins = []
        for e in A.calls():
            m = e.call.m or e.call.name.split('::')[-1]
            if m == 'insert' and e.args and e.args[0][0] == 'ref' and e.args[0][1][-1] == ('f', 'node_index'):
                ins.append(e)
        key = 'table in %s' % f.name
        root = lambda e: norm(e.args[0][1][:-1])
        for e in ins:
            n += 1
            R.inst(key, A.where(e))
            k, v = norm_term(e.args[1]), norm_term(e.args[2])
            hit = id_of_node(e.args[1], root(e))
            ok = hit is not None and hit[1] == v
            if not ok:
                # identity just stored at that position
                for w in A.events:
                    if w.kind == 'write' and w.path and w.path[-1] == ('f', 'id') and norm_term(w.val) == k:
                        p = norm(w.path)
                        if p[-3:-2] == (('f', 'vertex'),) and p[-2] == ('i', v):
                            ok = True
            if not ok and v[0] == 'len' and v[1][-1] == ('f', 'vertex'):
                # appended at the end
                for w in A.calls():
                    if (w.call.m or w.call.name.split('::')[-1]) == 'push' and w.args[0][0] == 'ref' and norm(w.args[0][1]) == v[1] and has_id(w.args[1], e.args[1]):
                        ok = True
            it = A.W.elem.get(v[1]) if v[0] in ('elem', 'pos') else None
            if ok and it is not None and it[0] == 'iter' and it[1] == 'range':
                lo, hi = it[2], it[3]
                if lo[0] == 'bin' and lo[1] in ('Add', 'WAdd') and 'c' in (lo[2][0], lo[3][0]) or hi[0] == 'bin' and hi[1] in ('Sub', 'WSub') and hi[3][0] == 'c':
                    R.bad(key, '%s: some nodes that were added get no entry in the identity table' % A.where(e))
            if not ok:
                R.bad(key, '%s: the identity table maps an identity to a position other than that of its node' % A.where(e))
        # new nodes and renamed nodes get an entry
        for e in A.events:
            new = None
            if e.kind == 'call' and e.extra:
                m = e.call.m or e.call.name.split('::')[-1]
                if m in ('push', 'append', 'extend', 'insert', 'swap', 'swap_remove') and e.args and e.args[0][0] == 'ref' and e.args[0][1][-1] == ('f', 'vertex'):
                    new = norm(e.args[0][1])
            elif e.kind == 'write' and e.path and e.path[-1] == ('f', 'id') and len(e.path) > 3 and e.path[-3] == ('f', 'vertex'):
                new = norm(e.path[:-2])
            if new is None:
                continue
            R.inst(key, A.where(e))
            n += 1
            entries = [x for x in ins if root(x) == new[:-1]]
            heads = {A.innermost(x.blk) if A.innermost(x.blk) is not None and A.innermost(x.blk) not in A.loops_of(e.blk) else x.blk for x in entries}
            if m_swap_remove_only(A, e):
                continue
            if e.kind == 'call' and m == 'push' and any(has_id(e.args[1], x.args[1]) and A.dominates(x.blk, e.blk) for x in entries):
                continue
            if not heads or any(b in A.reach(e.blk, removed=heads) for b in A.retblocks()) and e.blk not in heads:
                if not any(x.blk == e.blk and A.events.index(x) > A.events.index(e) for x in entries):
                    R.bad(key, '%s: a node is added or renamed without an entry in the identity table' % A.where(e))
    R.floor('identity table updates', n, 12)


def m_swap_remove_only(A, e):
    """the node that moves may be the one that leaves: the entry is needed only if there is one"""
    return e.kind == 'call' and (e.call.m or e.call.name.split('::')[-1]) == 'swap_remove'


def has_id(t, k):
    k = norm_term(k)
    for x in walk(norm_term(t)):
        if isinstance(x, tuple) and len(x) > 4 and x[0] == 'agg' and str(x[1]).endswith('::Vertex'):
            return norm_term(dict(x[4])['id']) == k
    return False


def guards(A, blk, test):
    """edges on which test(cond) holds; whether every path to blk in its innermost loop takes one"""
    edges = set()
    for e in A.events:
        if e.kind != 'switch':
            continue
        v, neg = norm_cond(e.val)
        if v[0] == 'bin' and v[1] in ('Eq', 'Ne') and test(norm_term(v[2]), norm_term(v[3])):
            truth = (v[1] == 'Eq') != neg
            edges.update((e.blk, t) for val, t in switch_edges(A.F.blocks[e.blk].term) if (val == 0) != truth)
    return edges


def removal(ctx, R):
    A = method(ctx, 'remove_2') or method(ctx, 'remove')
    key = 'removal of a node'
    if A is None or not any(True for _ in edits(A)):
        A = method(ctx, 'remove')
    if A is None:
        R.skip(key, 'operation does not exist')
        return
    use_terms(A.W)
    R.inst(key, A.at())
    gone = idx(arg(2))
    lasts = lambda t: t[0] == 'bin' and t[1] in ('Sub', 'WSub') and t[2][0] == 'len' and t[2][1][-1] == ('f', 'vertex') and t[3] == ('c', 1) or t[0] == 'len' and t[1] == (P, ('f', 'vertex'))
    kinds = {'out': set(), 'in': set()}
    unknown = False
    for q, s, e in edits(A):
        local = ('loc', placepath(q) + (('d', 'Local'), ('f', '0')))
        portt = ('loc', placepath(q) + (('d', 'Local'), ('f', '1')))
        if not all(pos_of(x) for x in q[1:]):
            unknown = True
            continue
        if s == ('Zero',):
            form = 'zero'
        elif s[0] == 'copy' and s[1] == ('in', gone, portt):
            form = 'link'
        elif s[0] == 'copy' and s[1] == q:
            continue
        elif s == ('Local', gone, portt):
            form = 'move'
        else:
            R.bad(key, '%s: removing a node connects %s to %s' % (A.where(e), show(q), show(s)))
            continue
        want = gone if form != 'move' else None
        edges = guards(A, e.blk, lambda a, b: {a, b} >= {local} and ((gone in (a, b)) if want else any(lasts(x) for x in (a, b))))
        h = A.innermost(e.blk)
        start = h if h is not None else A.F.entry
        free = A.reach(start, removed_edges=edges)
        if e.blk in free:
            R.bad(key, '%s: removing a node changes %s without finding it connected to %s' % (A.where(e), show(q), 'the removed node' if want else 'the node that moves'))
        kinds[q[0]].add(form)
        why = covers(A, q)
        if why:
            R.bad(key, '%s: removing a node does not look at every connection (%s)' % (A.where(e), why))
    if not unknown:
        for side, t in (('out', 'graph outputs'), ('in', 'node inputs')):
            for form, text in (('zero', 'connected to the removed node keep their connection'), ('link', 'connected to the removed node are not linked through'), ('move', 'connected to the node that moves do not follow it')):
                if form not in kinds[side]:
                    R.bad(key, '%s: %s %s' % (A.at(), t, text))
    # the entry of the removed node goes away, one node leaves the list
    rem = [e for e in A.calls() if (e.call.m or e.call.name.split('::')[-1]) == 'remove' and e.args[0][0] == 'ref' and e.args[0][1][-1] == ('f', 'node_index')]
    R.inst(key, 'identity table')
    good = False
    for e in rem:
        k = e.snap[1] if e.snap else e.args[1]
        h = id_of_node(k, P)
        good |= norm_term(k) == arg(2) or h is not None and h[1] == gone or loc(k) == (('P', 2),)
    if not good:
        R.bad(key, '%s: the identity of the removed node stays in the table' % A.at())


def placepath(q):
    if q[0] == 'out':
        return (P, ('f', 'output_edge'), ('i', q[1]), ('f', 'source'))
    return (P, ('f', 'vertex'), ('i', q[1]), ('f', 'source'), ('i', q[2]), ('f', 'source'))


def covers(A, q):
    """why a loop position does not run over all connections"""
    for i, x in enumerate(q[1:]):
        it = A.W.elem.get(x[1])
        hi = None
        while it is not None and it[0] == 'iter' and it[1] in ('enum', 'copied'):
            it = it[2]
        if it is not None and it[0] == 'iter' and it[1] == 'range':
            hi = it[3]
            if hi[0] == 'bin' and hi[1] in ('Sub', 'WSub', 'Div', 'Shr'):
                # the node at the end is the one that leaves
                if q[0] == 'in' and i == 0 and hi[1] in ('Sub', 'WSub') and hi[2][0] == 'len' and hi[2][1][-1] == ('f', 'vertex') and hi[3] == ('c', 1):
                    continue
                return 'it stops at %s' % pterm(hi)
            if hi[0] == 'c' or loc(hi) is not None and ('f', 'node_index') in loc(hi):
                return 'it stops at %s' % pterm(hi)
        elif it is not None and it[0] == 'iter' and it[1] in ('skip', 'take', 'stepby'):
            return 'it leaves some out'
    return None


def adoption(ctx, R):
    """the back end continues the unit of a node in the node with the same identity"""
    n = 0
    for f in sorted(ctx.M.fns.values(), key=lambda f: f.id):
        if not f.has_body or not f.name.startswith(NET + '::'):
            continue
        A = ctx.function(f.id)
        use_terms(A.W)
        for e in A.events:
            if e.kind != 'write' or not e.path or e.val is None:
                continue
            a, b = norm(e.path), loc(strip_at(e.val))
            if b is None:
                continue
            x, y = vertex_of(a), vertex_of(b)
            if x is None or y is None or x[0] == y[0] or a[0] == b[0]:
                continue
            n += 1
            key = 'adoption in %s' % f.name
            R.inst(key, A.where(e))
            ka, kb = table_key(x[1]), table_key(y[1])
            if ka is None or kb is None:
                R.bad(key, '%s: a unit is handed from one graph to another without looking up its identity' % A.where(e))
            elif ka[0] != x[0] or kb[0] != y[0]:
                R.bad(key, '%s: a position in one graph is used in another' % A.where(e))
            elif ka[1] != kb[1]:
                R.bad(key, '%s: a unit is handed from one graph to another under a different identity' % A.where(e))
    R.count('handed over', n)


def vertex_of(p):
    for i, x in enumerate(p):
        if x == ('f', 'vertex') and i + 1 < len(p) and isinstance(p[i + 1], tuple) and p[i + 1][0] == 'i':
            return p[:i], p[i + 1][1]
    return None


def table_key(t):
    """identity under which a position was found: the key looked up, or the key of the entry iterated over"""
    p = loc(t)
    if p is None or ('f', 'node_index') not in p:
        p = ref_path(t)
    if p is None:
        return None
    for i, x in enumerate(p):
        if x == ('f', 'node_index') and i + 1 < len(p) and isinstance(p[i + 1], tuple) and p[i + 1][0] == 'i':
            k = p[i + 1][1]
            if pos_of(k) or k[0] == 'elem':
                return p[:i], ('entry', p[:i + 2])
            q = ref_path(k)
            if q is not None:
                for j, y in enumerate(q):
                    if y == ('f', 'node_index') and j + 1 < len(q):
                        return p[:i], ('entry', q[:j + 2])
            return p[:i], k
    return None


def ref_path(t):
    t = norm_term(t)
    for x in walk(t):
        if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and x[0][0] == 'P' and ('f', 'node_index') in x:
            return norm(x)
    return None
