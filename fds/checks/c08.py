"""C08: structural hash."""
from ..core import NODE, UNIT, pterm
from ..propcheck import run_propagation, composites, child_events, effective, pat_of, file_line
from ..prop import reaches_ret

ASSUME = ['units of a sequencer are scheduled events, not part of the structure; units waiting to be faded in become part of a graph when the fade ends',
          'AttoHash::hash mixes its argument into the state']
EV = 'sequencer events are scheduled at run time and are not part of the structure'
PD = 'the unit becomes part of the structure when its crossfade ends'
EXEMPT = {('Sequencer', p): EV for p in ('active.[].unit', 'ready.[].unit', 'past.[].unit')}
EXEMPT.update({('Net', p): PD for p in ('vertex.[].next.unit', 'vertex.[].latest.unit', 'edit_queue.[].unit')})
EXEMPT[('Granular', 'sequencer')] = EV
ALTERNATIVES = {'SlotBackend': 'current, next and latest are alternatives for one position in the structure, so they share a hash'}
RNDFN = ('rnd1', 'rnd2', 'rnd', 'hash1', 'hash2', 'hash32', 'hash32f', 'hash32g', 'hash32x', 'hash64', 'from_u64', 'noise')


def switchinfo(A, b):
    ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
    return ev[0].val if ev else None


def probe_edges(A, want):
    """edges on which the probe argument equals `want`"""
    out = set()
    for b in A.blocks():
        t = A.F.blocks[b].term
        if t[0] != 'switch':
            continue
        v = switchinfo(A, b)
        neg = False
        while v and v[0] == 'un' and v[1] == 'Not':
            neg = not neg
            v = v[2]
        if v and v[0] == 'bin' and v[1] in ('Eq', 'Ne') and ('c', True) in v[2:4] or v and v[0] == 'bin' and v[1] in ('Eq', 'Ne') and ('c', False) in v[2:4]:
            c = v[2] if v[2][0] == 'c' else v[3]
            o = v[3] if v[2][0] == 'c' else v[2]
            if (v[1] == 'Eq') != bool(c[1]):
                neg = not neg
            v = o
        if v != ('arg', 2):
            continue
        for val, s in [(x, y) for x, y in t[3]] + [(None, t[4])]:
            truth = (val != 0) if val is not None else True
            if neg:
                truth = not truth
            if truth == want:
                out.add((b, s))
    return out


def seedrule(ctx, R):
    """types that draw pseudorandom numbers keep a seed that set_hash stores"""
    n = 0
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        seeds = {}
        for m in ('tick', 'process', 'reset'):
            if tr == UNIT and im['self'][0] == 'param':
                continue
            A = ctx.method(tr, im, m)
            if A is None:
                continue
            fr = {f.fn.name.split('::')[-1]: f for f in A.F.frames}
            hits = [f for f in A.F.frames if f.fn.name.split('::')[-1] in RNDFN and 'math' in f.fn.name or f.fn.name.split('::')[-1] in ('from_u64',)]
            ext = [e for e in A.calls() if e.call.name.split('::')[-1] in RNDFN and not (e.call.trait in (NODE, UNIT))]
            for e in ext:
                for a in e.args:
                    for x in A.W.deps(a):
                        if isinstance(x, tuple) and x and x[0] == 'mem' and x[1][0] == ('P', 1) and len(x[1]) > 1:
                            seeds.setdefault('.'.join(pat_of(x[1])), A.where(e))
            for f in hits:
                for e in A.events:
                    if e.frame is f:
                        break
                seeds.setdefault('(inlined %s)' % f.fn.name, '%s:%s' % (A.fn.file, f.site))
        if not seeds:
            continue
        n += 1
        key = '%s stores its seed' % T
        R.inst(key, ', '.join('%s at %s' % kv for kv in sorted(seeds.items())[:4]))
        if not effective(ctx, tr, im, 'set_hash'):
            R.bad(key, '%s draws pseudorandom numbers (%s) but its set_hash stores nothing' % (T, ', '.join('%s at %s' % kv for kv in sorted(seeds.items())[:4])))
    return n


def derived(ctx, R):
    """set_hash refreshes everything reset derives from the seed"""
    n = 0
    for tr, im in ctx.node_impls():
        if 'set_hash' not in im['items'] or im['self'][0] == 'param':
            continue
        T = ctx.tyname(im)
        if T == 'An':
            continue
        S = ctx.method(tr, im, 'set_hash')
        Rz = ctx.method(tr, im, 'reset')
        wr = [e for e in S.events if e.kind in ('write', 'fill') and e.path and e.path[0] == ('P', 1)]
        wr += [e for e in S.calls() if e.extra and any(p[0] == ('P', 1) for _, p in S.W.mutable_args(e.call, e.args))]
        def fld(e):
            if e.kind == 'call':
                return {pat_of(p) for _, p in S.W.mutable_args(e.call, e.args) if p[0] == ('P', 1)}
            return {pat_of(e.path)}
        n += 1
        key = '%s::set_hash' % T
        R.inst(key, file_line(S))
        direct = {p for e in wr for p in fld(e) if e.kind != 'call' and ('arg', 2) in S.W.deps(e.val)}
        if not direct:
            R.bad(key, '%s: set_hash of %s stores nothing that depends on the hash' % (file_line(S), T))
            continue
        # on every path
        seedfields = {p for e in wr if e.kind != 'call' and ('arg', 2) in S.W.deps(e.val) for p in fld(e)}
        blocks = {e.blk for e in wr if e.kind != 'call' and ('arg', 2) in S.W.deps(e.val)}
        if S.F.ret in S.reach(S.F.entry, removed=blocks):
            R.bad(key + ' every path', '%s: set_hash of %s can return without storing the hash' % (file_line(S), T))
        if Rz is None:
            continue
        # fields reset derives from seed fields
        allw = {p for e in wr for p in fld(e)}
        for e in Rz.events:
            if e.kind == 'write' and e.path and e.path[0] == ('P', 1):
                f = pat_of(e.path)
                src = {pat_of(x[1]) for x in Rz.W.deps(e.val) if isinstance(x, tuple) and x and x[0] == 'mem' and len(x) == 3 and x[1][0] == ('P', 1) and len(x[1]) > 1}
                hit = {s for s in src if s in seedfields}
                if hit and f not in seedfields:
                    k2 = '%s::set_hash refreshes %s' % (T, '.'.join(f))
                    R.inst(k2, Rz.where(e))
                    if f not in allw and not any(f[:len(q)] == q for q in allw):
                        R.bad(k2, '%s: reset derives `%s` from `%s` but set_hash leaves it at the value of the earlier hash' % (Rz.where(e), '.'.join(f), '.'.join(sorted(hit)[0])))
    return n


def idrule(ctx, R):
    ids = {}
    n = 0
    for im in ctx.M.impls_by_trait.get(NODE, []):
        T = ctx.tyname(im)
        v = im['consts'].get('ID')
        if v is not None:
            ids.setdefault(v, set()).add(T)
            n += 1
    for im in ctx.M.impls_by_trait.get(UNIT, []):
        A = ctx.method(UNIT, im, 'get_id')
        T = ctx.tyname(im)
        if A is None:
            continue
        for e in A.events:
            if e.kind == 'return' and e.val[0] == 'c':
                ids.setdefault(e.val[1], set()).add(T)
                n += 1
    for v, ts in sorted(ids.items(), key=lambda x: str(x[0])):
        key = 'ID %s' % v
        R.inst(key, ', '.join(sorted(ts)))
        if len(ts) > 1:
            R.bad('ID shared by ' + ', '.join(sorted(ts)), 'the types %s have the same ID %s: structures that differ only in these types get the same seeds' % (', '.join(sorted(ts)), v))
    return n


def run(ctx, R):
    R.rule('For every implementation with nested components: on every path through ping every nested component that can use a hash is visited with the received probe flag; every hash argument depends on the received hash; the result of every visit flows into the hash of a later visit or the result; visits in a loop chain through the loop; the result depends on the own ID (except transparent wrappers).')
    R.rule('ping writes no state of its own when probing and calls an effective set_hash with the received hash when not probing.')
    R.rule('set_hash stores the hash on every path and refreshes what reset derives from it; every type that draws pseudorandom numbers has an effective set_hash; the IDs of all types differ.')
    n = run_propagation(ctx, R, 'ping', EXEMPT, removal=False,
                        extra_of=lambda T: (lambda cond, truth: cond == ('arg', 2) and truth) if T in ALTERNATIVES else None)
    R.floor('nested components', n, 30)
    visits = 0
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        A = ctx.method(tr, im, 'ping')
        if A is None:
            continue
        W = A.W
        pings = [e for e in A.calls() if e.call.m == 'ping' and e.call.trait in (NODE, UNIT)]
        rets = [e.val for e in A.events if e.kind == 'return']
        for e in pings:
            visits += 1
            nm = '.'.join(pat_of(e.args[0][1])) if e.args[0][0] == 'ref' else pterm(e.args[0])
            key = '%s::ping visits %s' % (T, nm)
            R.inst(key, A.where(e))
            if e.args[1] != ('arg', 2):
                R.bad(key + ' probe', '%s: %s visits `%s` with probe = %s instead of the received flag' % (A.where(e), T, nm, pterm(e.args[1])))
            d = W.deps(e.args[2])
            if ('arg', 3) not in d:
                R.bad(key + ' hash', '%s: the hash given to `%s` of %s does not depend on the received hash' % (A.where(e), nm, T))
            if T in ALTERNATIVES:
                R.skip(key + ' chaining', ALTERNATIVES[T])
                continue
            mine = lambda t: any(isinstance(x, tuple) and x and x[0] == 'call' and x[1] == e.call.site for x in W.deps(t))
            if not any(mine(t) for t in rets):
                R.bad(key + ' result', '%s: the hash returned by `%s` of %s does not reach the result, so components after it cannot tell it apart' % (A.where(e), nm, T))
            if A.loops_of(e.blk) and not mine(e.args[2]):
                R.bad(key + ' chain', '%s: the visits of the elements `%s` of %s are not chained: all elements get the same seed' % (A.where(e), nm, T))
            for o in pings:
                if o is e or o.call.site == e.call.site:
                    continue
                a = any(isinstance(x, tuple) and x and x[0] == 'call' and x[1] == e.call.site for x in W.deps(o.args[2]))
                b = any(isinstance(x, tuple) and x and x[0] == 'call' and x[1] == o.call.site for x in d)
                excl = o.blk not in A.reach(e.blk) and e.blk not in A.reach(o.blk)
                if not a and not b and not excl:
                    R.bad(key + ' order', '%s: `%s` and another component of %s are seeded with hashes that do not depend on each other' % (A.where(e), nm, T))
        # own id
        idv = im['consts'].get('ID')
        if tr == UNIT and idv is None:
            G = ctx.method(UNIT, im, 'get_id')
            gv = [e.val for e in G.events if e.kind == 'return'] if G else []
            idv = gv[0][1] if gv and gv[0][0] == 'c' else None
        transparent = bool(pings) and all(e.args[2] == ('arg', 3) for e in pings) and rets and rets[0][0] == 'call'
        key = '%s::ping result includes its ID' % T
        if transparent and len(pings) == 1:
            R.count('transparent wrappers')
        else:
            R.inst(key, '%s, ID %s' % (file_line(A), idv))
            ok = all(any(x == ('c', idv) or isinstance(x, tuple) and x and x[0] == 'nc' and str(x[1]).split('::')[-1] == 'ID' or isinstance(x, tuple) and len(x) > 2 and x[0] in ('pure', 'call') and 'get_id' in str(x[1:3])
                         for x in W.deps(t)) for t in rets)
            if not ok:
                R.bad(key, '%s: the hash returned by %s does not depend on its ID' % (file_line(A), T))
        # own state only when not probing
        own = [e for e in A.events if e.kind in ('write', 'fill') and e.path and e.path[0] == ('P', 1)]
        own += [e for e in A.calls() if e.extra and e.call.m not in ('ping', 'try_recv', 'recv', 'try_send') and e.call.trait not in (NODE, UNIT) and any(p[0] == ('P', 1) for _, p in W.mutable_args(e.call, e.args))]
        own += [e for e in A.calls() if e.call.m in ('set_hash', 'reset') and e.call.trait in (NODE, UNIT)]
        backend = any(e.call.m in ('try_recv', 'recv') for e in A.calls())
        if own and not backend:
            r = A.reach(A.F.entry, removed_edges=probe_edges(A, False))
            key = '%s::ping leaves state alone when probing' % T
            R.inst(key, file_line(A))
            for e in own:
                if e.blk in r:
                    R.bad(key, '%s: ping of %s changes state although it may be probing' % (A.where(e), T))
        # effective set_hash is called
        if effective(ctx, tr, im, 'set_hash') and not (tr == UNIT and T == 'An'):
            S = ctx.method(tr, im, 'set_hash')
            key = '%s::ping stores the seed' % T
            R.inst(key, file_line(A))
            # set_hash is inlined: look for its frame
            fb = {b for b in A.blocks() if A.F.blocks[b].frame is not None and A.F.blocks[b].frame.fn.id == S.fn.id}
            if not fb or A.F.ret in A.reach(A.F.entry, removed=fb, removed_edges=probe_edges(A, True)):
                R.bad(key, '%s: ping of %s does not store the seed on every non-probing path' % (file_line(A), T))
            else:
                ws = [e for e in own if e.kind == 'write' and e.frame is not None and e.frame.fn.id == S.fn.id]
                if ws and not any(('arg', 3) in W.deps(e.val) for e in ws):
                    R.bad(key + ' value', '%s: the seed stored by %s does not depend on the received hash' % (file_line(A), T))
    R.floor('visits', visits, 30)
    R.floor('types with set_hash', derived(ctx, R), 17)
    R.floor('types drawing pseudorandom numbers', seedrule(ctx, R), 10)
    R.floor('IDs', idrule(ctx, R), 90)
