"""Propagation analysis: does method m of a composite reach every nested component?

Decides, per (composite, nested component path), that every path from method entry to return
executes the call on the component - for containers: on every element."""
from .core import NODE, UNIT, ppath, pterm

TRANSPARENT = {'std::option::Option', 'std::boxed::Box', 'combinator::An_'}
SEQ = {'std::vec::Vec': 0, 'std::collections::VecDeque': 0, 'std::collections::BinaryHeap': 0, 'std::collections::LinkedList': 0,
       'numeric_array::NumericArray': 0, 'numeric_array::generic_array::GenericArray': 0, 'tinyvec::ArrayVec': 0, 'tinyvec::TinyVec': 0,
       'hashbrown::HashMap': 1, 'std::collections::HashMap': 1, 'std::collections::BTreeMap': 1}
SKIP = {'std::sync::Arc', 'std::rc::Rc', 'std::marker::PhantomData', 'thingbuf::mpsc::Sender', 'thingbuf::mpsc::Receiver',
        'std::cell::RefCell'}


def pattern(path):
    """abstract pattern of a memory path rooted at self"""
    r = []
    for e in path[1:]:
        if e == '*' or e[0] == 'd':
            continue
        if e[0] == 'f':
            r.append(e[1])
        elif e[0] == 'i':
            r.append('[]')
        elif e[0] == 'sub':
            continue
    return tuple(r)


def opt_strip(path):
    """drop the payload field '0' following a Some downcast"""
    out = []
    i = 0
    p = list(path)
    while i < len(p):
        e = p[i]
        if isinstance(e, tuple) and e[0] == 'd' and e[1] in ('Some', 'Ok') and i + 1 < len(p) and p[i + 1] == ('f', '0'):
            i += 2
            continue
        out.append(e)
        i += 1
    return tuple(out)


class Child:
    __slots__ = ('pat', 'ty', 'kind', 'lens')

    def __repr__(self):
        return '%s:%s' % ('.'.join(self.pat), self.ty)


def children(ctx, im, bounds=None, ty=None):
    """nested components of impl self type by field types"""
    M = ctx.M
    ckey = ('children', im['id'], ty)
    if bounds is None and ckey in ctx._cache:
        return ctx._cache[ckey]
    bounds = bounds if bounds is not None else im['bounds']
    nodeparams = {t for t, tr in bounds if tr in (NODE, UNIT)}
    out = []

    def walk(t, pat, lens, seen):
        if t in nodeparams:
            c = Child(); c.pat = pat; c.ty = t; c.kind = 'param'; c.lens = lens
            out.append(c)
            return
        k = t[0]
        if k == 'adt':
            n = t[1]
            if n in SKIP:
                return
            if n in ('std::option::Option', 'std::boxed::Box'):
                walk(t[2][0], pat, lens, seen)
                return
            if n in SEQ:
                walk(t[2][SEQ[n]], pat + ('[]',), lens + (None,), seen)
                return
            for tr in (NODE, UNIT):
                if pat and M.find_impl(tr, (t,)):
                    c = Child(); c.pat = pat; c.ty = t; c.kind = 'adt'; c.lens = lens
                    out.append(c)
                    return
            if n in M.adts and t not in seen:
                s2 = seen | {t}
                a = M.adts[n]
                if a['kind'] == 'Struct':
                    for fn_, ft in M.fields(t):
                        walk(ft, pat + (fn_,), lens, s2)
                elif a['kind'] == 'Enum':
                    for vn, fs in M.variants(t):
                        for fn_, ft in fs:
                            walk(ft, pat + (fn_,), lens, s2)
        elif k == 'array':
            walk(t[1], pat + ('[]',), lens + (t[2],), seen)
        elif k == 'slice':
            walk(t[1], pat + ('[]',), lens + (None,), seen)
        elif k == 'tuple':
            for i, x in enumerate(t[1]):
                walk(x, pat + (str(i),), lens, seen)
        elif k == 'dyn' and t[1] in (UNIT, NODE):
            c = Child(); c.pat = pat; c.ty = t; c.kind = 'dyn'; c.lens = lens
            out.append(c)

    walk(ty or im['self'], (), (), frozenset())
    ctx._cache[ckey] = out
    return out


def strip(t):
    while t[0] in ('cast', 'conv') or (t[0] == 'pure' and t[1] == 'into'):
        if t[0] == 'cast':
            t = t[2]
        elif t[0] == 'conv':
            t = t[1]
        else:
            t = t[3][0]
    return t


# ---------------------------------------------------------------- iteration domains

def path_prefix(path, i):
    return path[:i]


def iter_cover(W, it, cont, k, lens):
    """'full' / 'partial' / 'unknown': does iterator `it` (component k) visit every element of container path cont?"""
    kind = it[1]
    if kind == 'refs':
        p = it[2]
        if p and isinstance(p[-1], tuple) and p[-1][0] == 'sub':
            lo, hi = p[-1][1]
            return range_cover(lo, hi, p[:-1], lens)
        return 'full'
    if kind == 'range':
        lo, hi = it[2], it[3]
        if len(it) > 4 and it[4] == 'incl':
            hi = ('bin', 'Add', hi, ('c', 1)) if hi[0] != 'c' or not isinstance(hi[1], int) else ('c', hi[1] + 1)
        return range_cover(lo, hi, cont, lens)
    if kind in ('rev', 'copied'):
        return iter_cover(W, it[2], cont, k, lens)
    if kind == 'enum':
        if k and k[-1] == 'n':
            return iter_cover(W, it[2], cont, k[:-1], lens)
        return iter_cover(W, it[2], cont, k, lens)
    if kind == 'zip':
        if k:
            return iter_cover(W, it[2 + k[0]] if k[0] in (0, 1) else it, cont, k[1:], lens)
        return 'unknown'
    if kind == 'skip':
        if it[3] == ('c', 0):
            return iter_cover(W, it[2], cont, k, lens)
        return 'partial'
    if kind == 'take':
        n = it[3]
        if n[0] == 'len' and n[1] == cont:
            return iter_cover(W, it[2], cont, k, lens)
        if n[0] == 'c' and isinstance(n[1], int):
            if isinstance(lens, int) and n[1] >= lens:
                return iter_cover(W, it[2], cont, k, lens)
            return 'partial'
        return 'partial' if n[0] == 'bin' and n[1] in ('Sub', 'Div', 'Shr') else 'unknown'
    if kind == 'stepby':
        return iter_cover(W, it[2], cont, k, lens) if it[3] == ('c', 1) else 'partial'
    if kind == 'filter':
        return 'partial'
    return 'unknown'


def range_cover(lo, hi, cont, lens):
    if lo[0] == 'c' and isinstance(lo[1], int) and lo[1] > 0:
        return 'partial'
    if lo != ('c', 0):
        return 'unknown'
    if hi[0] == 'bin' and hi[1] in ('Sub', 'WSub', 'Div', 'Shr') and hi[2][0] in ('len', 'nc', 'alen'):
        return 'partial'
    if hi[0] == 'pure' and hi[1] in ('min',):
        return 'unknown'
    if hi[0] == 'c' and isinstance(hi[1], int) and isinstance(lens, int):
        return 'full' if hi[1] >= lens else 'partial'
    if hi[0] == 'len':
        # length of this container is full; of a different one: unknown
        return 'full' if hi[1] == cont else 'unknown'
    return 'full' if hi[0] in ('nc', 'alen') else 'unknown'


def induction(A, t):
    """phi induction variable -> (header, lo, hi) with hi possibly None"""
    W = A.W
    if t[0] != 'phi':
        return None
    h = t[1]
    if h not in A.loops():
        return None
    body = A.loops()[h]
    ops = W.phis.get((t[1], t[2]), {})
    init = [v for p, v in ops.items() if p not in body]
    back = [v for p, v in ops.items() if p in body]
    if not init or not back:
        return None
    for v in back:
        if v not in (('bin', 'Add', ('c', 1), t), ('bin', 'Add', t, ('c', 1))):
            return None
    lo = init[0] if len(set(init)) == 1 else None
    hi = None
    for e in W.events:
        if e.kind == 'switch' and e.blk in body and isinstance(e.val, tuple) and e.val[0] == 'bin' and A.innermost(e.blk) == h:
            op, a, b = e.val[1:4]
            exits = any(s not in body for s in A.succs(e.blk))
            if not exits:
                continue
            if op in ('Lt', 'Ne') and a == t or op == 'Ne' and b == t:
                hi = b if a == t else a
            elif op in ('Gt',) and b == t:
                hi = a
            elif op in ('Ge', 'Eq') and a == t:
                hi = b
            elif op in ('Le',) and b == t:
                hi = a
            elif op in ('Le',) and a == t:
                hi = ('bin', 'Add', b, ('c', 1))
    return h, lo, hi


def cfg_helpers(cls):
    def innermost(self, b):
        l = self.loops_of(b)
        return l[0] if l else None
    cls.innermost = innermost
    return cls


from .core import An as _An
cfg_helpers(_An)


def loop_for_index(A, t, b):
    """loop header driving index term t at block b, and iterator info"""
    W = A.W
    if t[0] == 'elem':
        site = t[1]
        # block with the next() call / ho head
        for h in A.loops_of(b):
            body = A.loops()[h]
            for bb in body:
                tt = A.F.blocks[bb].term
                if tt[0] == 'call' and tt[1].site == site and (A.innermost(bb) == h):
                    return h
                if tt[0] == 'hoswitch' and tt[1].site == site and bb == h:
                    return h
        return None
    ind = induction(A, t)
    if ind:
        return ind[0]
    return None


def exhaustion_edges(A, h, sites):
    """edges leaving loop h through iterator exhaustion / induction guard"""
    W = A.W
    body = A.loops()[h]
    out = set()
    for b in body:
        for s in A.succs(b):
            if s in body:
                continue
            term = A.F.blocks[b].term
            if term[0] == 'hoswitch':
                out.add((b, s))
                continue
            if term[0] == 'switch':
                ev = [e for e in W.bevents.get(b, []) if e.kind == 'switch']
                v = ev[0].val if ev else None
                if v and v[0] == 'discr' and v[1][0] == 'optn' and v[1][1] in sites:
                    # None edge is value 0
                    vals = dict((x, y) for x, y in term[3])
                    if vals.get(0) == s or (0 not in vals and term[4] == s):
                        out.add((b, s))
                elif v and v[0] == 'bin' and v[1] in ('Lt', 'Ne', 'Gt', 'Ge', 'Le', 'Eq'):
                    x, y = v[2], v[3]
                    if any(z[0] == 'phi' and z[1] == h for z in (x, y)) :
                        out.add((b, s))
    return out


def presence_exempt(A, child_pat, extra=None):
    """edges on which the component at child_pat is absent (None / empty) or `extra(cond, edge_true)` holds"""
    out = set()
    for b in A.blocks():
        term = A.F.blocks[b].term
        if term[0] != 'switch':
            continue
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if not ev:
            continue
        v = ev[0].val
        for (pol, cond) in conds(v):
            pass
        t_edges = switch_edges(term)
        cond, neg = norm_cond(v)
        for val, s in t_edges:
            # val: integer or None (otherwise)
            truth = None
            if cond[0] != 'discr':
                truth = (val != 0) if val is not None else True
                if neg:
                    truth = not truth
            if absent(cond, val, truth, child_pat, [x for x, _ in t_edges]):
                out.add((b, s))
            if extra and truth is not None and extra(cond, truth):
                out.add((b, s))
    return out


def conds(v):
    return []


def norm_cond(v):
    neg = False
    while v[0] == 'un' and v[1] == 'Not':
        neg = not neg
        v = v[2]
    return v, neg


def switch_edges(term):
    r = [(v, b) for v, b in term[3]]
    r.append((None, term[4]))
    return r


def under(pat, child):
    return pat == child[:len(pat)]


def mem_pat(t):
    if t[0] in ('mem',):
        if t[1][0] == ('P', 1):
            return pattern(opt_strip(t[1]))
    if t[0] == 'optref':
        if t[1][0] == ('P', 1):
            return pattern(opt_strip(t[1]))
    if t[0] == 'pj':
        b = t
        pr = []
        while b[0] == 'pj':
            pr.append(b[2])
            b = b[1]
        if b[0] == 'phi' and b[2][0] == ('P', 1):
            return pattern(opt_strip(b[2] + tuple(reversed(pr))))
    if t[0] == 'phi' and t[2][0] == ('P', 1):
        return pattern(opt_strip(t[2]))
    return None


def absent(cond, val, truth, child, allvals):
    if cond[0] == 'discr':
        p = mem_pat(cond[1])
        if p is not None and p and under(p, child):
            # Option: None = 0
            if val == 0 or (val is None and 0 not in allvals):
                return True
        return False
    if cond[0] == 'pure' and cond[1] in ('is_some', 'is_none'):
        p = mem_pat(cond[3][0])
        if p and under(p, child):
            return truth == (cond[1] == 'is_none')
        return False
    if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
        for x, y in ((cond[2], cond[3]), (cond[3], cond[2])):
            if x == ('c', 0) and y[0] == 'len' and y[1][0] == ('P', 1) and under(pattern(opt_strip(y[1])), child):
                return truth == (cond[1] == 'Eq')
    if cond[0] == 'bin' and cond[1] in ('Gt', 'Lt'):
        a, b = (cond[2], cond[3]) if cond[1] == 'Gt' else (cond[3], cond[2])
        if b == ('c', 0) and a[0] == 'len' and a[1][0] == ('P', 1) and under(pattern(opt_strip(a[1])), child):
            return truth is False
    return False


# ---------------------------------------------------------------- transfers between containers

def transfers(A):
    """[(src pattern, dst pattern, block)]: all elements of src are moved to dst once block has been passed"""
    out = []
    W = A.W
    for e in A.calls():
        m = e.call.m
        if m in ('append', 'extend') and len(e.args) == 2 and e.args[0][0] == 'ref' and e.args[0][1][0] == ('P', 1):
            src = e.args[1]
            if src[0] == 'ref' and src[1][0] == ('P', 1):
                out.append((pattern(src[1]), pattern(e.args[0][1]), e.blk))
            elif src[0] == 'iter' and src[1] == 'chunks' and src[2][1] == 'refs' and src[2][2][0] == ('P', 1):
                out.append((pattern(src[2][2]), pattern(e.args[0][1]), e.blk))
        if m in ('pop', 'pop_front', 'pop_back', 'swap_remove', 'remove') and e.args and e.args[0][0] == 'ref' and e.args[0][1][0] == ('P', 1):
            hs = A.loops_of(e.blk)
            if not hs:
                continue
            h = hs[0]
            body = A.loops()[h]
            src = pattern(e.args[0][1])
            pushes = []
            for e2 in A.calls():
                if e2.blk in body and e2.call.m in ('push', 'push_back', 'push_front') and len(e2.args) == 2 and e2.args[0][0] == 'ref':
                    if any(x[0] == 'call' and len(x) > 1 and x[1] == e.call.site for x in W.deps(e2.args[1]) if isinstance(x, tuple) and x):
                        pushes.append(e2)
            for e2 in pushes:
                # loop exits only when pop returns None (or container empty)
                ok = True
                for b in body:
                    for s in A.succs(b):
                        if s in body or not reaches_ret(A, s):
                            continue
                        term = A.F.blocks[b].term
                        evs = [x for x in W.bevents.get(b, []) if x.kind == 'switch']
                        v = evs[0].val if evs else None
                        good = False
                        if v is not None:
                            c, neg = norm_cond(v)
                            if c[0] == 'discr' and c[1][0] == 'call' and c[1][1] == e.call.site:
                                good = True
                            if c[0] == 'bin' and any(x[0] == 'len' and x[1][0] == ('P', 1) and pattern(x[1]) == src for x in c[2:4]):
                                good = True
                            if c[0] == 'pure' and c[1] in ('is_some', 'is_none'):
                                good = True
                        if not good:
                            ok = False
                # every iteration that pops pushes
                if ok and e2.args[0][1][0] == ('P', 1):
                    out.append((src, pattern(e2.args[0][1]), h))
    return out


def drains(A):
    """[(src pattern, loop header)]: loops that pop a container of self until it is empty"""
    out = []
    W = A.W
    for e in A.calls():
        if e.call.m in ('pop', 'pop_front', 'pop_back') and e.args and e.args[0][0] == 'ref' and e.args[0][1][0] == ('P', 1):
            hs = A.loops_of(e.blk)
            if not hs:
                continue
            h = hs[0]
            body = A.loops()[h]
            ok = True
            for b in body:
                for s in A.succs(b):
                    if s in body or not reaches_ret(A, s):
                        continue
                    evs = [x for x in W.bevents.get(b, []) if x.kind == 'switch']
                    v = evs[0].val if evs else None
                    good = False
                    if v is not None:
                        c, neg = norm_cond(v)
                        if any(isinstance(x, tuple) and x and x[0] == 'call' and x[1] == e.call.site for x in W.deps(c)):
                            good = True
                    ok = ok and good
            if ok:
                out.append((pattern(e.args[0][1]), h, e.call.site))
    return out


def reaches_ret(A, b):
    if not hasattr(A, '_core'):
        A._core = A.coreach([A.F.ret])
    return b in A._core


# ---------------------------------------------------------------- main query

def must_reach(A, child, events, exempt):
    """is every path entry->ret (minus exempt edges) passing an event on every element of child?
    events: list of (blk, receiver path).  Returns (ok, explanation)"""
    W = A.W
    notes = []
    # group: for each event compute the chain of loops driven by index terms
    level = {}   # block -> True  function-level "event" blocks
    const_idx = {}
    pend = []
    for blk, path in events:
        idxs = [(i, e[1]) for i, e in enumerate(path) if isinstance(e, tuple) and e[0] == 'i']
        pend.append((blk, path, idxs))
    # process innermost index first (last in path)
    blocks = set()
    work = []
    for blk, path, idxs in pend:
        work.append((blk, path, list(idxs)))
    # iterative: collapse loops
    done = set()
    groups = {}
    while work:
        blk, path, idxs = work.pop()
        if not idxs:
            blocks.add(blk)
            continue
        i, t = idxs[-1]
        cont = path[:i]
        ln = child.lens[len(idxs) - 1] if len(child.lens) >= len(idxs) else None
        st = strip(t)
        if st[0] == 'c' and isinstance(st[1], int):
            groups.setdefault(('const', cont, len(idxs)), []).append((blk, path, idxs, st[1], ln))
            continue
        h = loop_for_index(A, st, blk)
        if h is None:
            notes.append('index %s not recognised as an iteration: accepted' % pterm(st))
            work.append((blk, path, idxs[:-1]))
            continue
        if st[0] == 'elem':
            it = W.elem.get(st[1])
            cov = iter_cover(W, it, cont, st[2], ln) if it else 'unknown'
            sites = {st[1]}
        else:
            _, lo, hi = induction(A, st)
            cov = range_cover(lo, hi, cont, ln) if lo and hi else 'unknown'
            sites = set()
        if cov == 'unknown' and getattr(child, 'partial', None):
            b = [it] if st[0] == 'elem' and it else [x for x in induction(A, st)[1:] if x] if st[0] != 'elem' else []
            if any(child.partial(x) for x in b):
                cov = 'partial'
        if cov == 'partial':
            notes.append('iteration over %s does not visit every element' % ppath(cont))
            continue
        groups.setdefault(('loop', h, len(idxs), cont), []).append((blk, path, idxs, sites, ln))
        # collapse handled after collecting siblings
        if not any(w[0] != blk and len(w[2]) == len(idxs) for w in work):
            pass
        # evaluate group when no more work at this depth
        if not any(len(w[2]) >= len(idxs) for w in work):
            _collapse(A, groups, work, notes, exempt)
            groups = {}
    if groups:
        _collapse(A, groups, work, notes, exempt)
        while work:
            blk, path, idxs = work.pop()
            if not idxs:
                blocks.add(blk)
                continue
            # deeper levels
            ok2, n2, bl2 = _finish(A, child, blk, path, idxs, exempt)
            notes += n2
            blocks |= bl2
    r = A.reach(A.F.entry, removed=blocks, removed_edges=exempt)
    if A.F.ret in r:
        return False, notes, blocks
    return True, notes, blocks


def _finish(A, child, blk, path, idxs, exempt):
    class C:
        pass
    c = C()
    c.lens = child.lens
    c.partial = getattr(child, 'partial', None)
    sub = [(blk, path[:idxs[-1][0] + 1])]
    ok, notes, blocks = must_reach(A, c, sub, exempt)
    return ok, notes, blocks


def _collapse(A, groups, work, notes, exempt):
    for key, items in groups.items():
        if key[0] == 'const':
            have = {x[3] for x in items}
            ln = items[0][4]
            if isinstance(ln, int) and set(range(ln)) <= have:
                # all constants must be covered: conservatively treat each as event only if all unconditional
                for x in items:
                    work.append((x[0], x[1], x[2][:-1]))
            elif ln is None or isinstance(ln, str):
                notes.append('only element(s) %s of %s visited' % (sorted(have), ppath(key[1])))
            else:
                notes.append('elements %s of %s not visited' % (sorted(set(range(ln)) - have), ppath(key[1])))
            continue
        h = key[1]
        body = A.loops()[h]
        evb = {x[0] for x in items}
        sites = set().union(*[x[3] for x in items])
        exh = exhaustion_edges(A, h, sites)
        # starting points: successors inside the body after the element was obtained
        starts = set()
        for (b, s) in exh:
            for s2 in A.succs(b):
                if s2 in body and s2 != s:
                    starts.add(s2)
        bad = None
        for s0 in (starts or {h}):
            # walk inside the body avoiding event blocks
            seen = set()
            st = [s0] if s0 not in evb else []
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                for s in A.succs(b):
                    if (b, s) in exempt:
                        continue
                    if s in evb:
                        continue
                    if s == h and starts:
                        bad = 'an iteration can skip the call'
                    elif s not in body:
                        if (b, s) not in exh and reaches_ret(A, s):
                            bad = 'the loop can end early without the call'
                    elif s not in seen:
                        st.append(s)
        # early exits after the event
        for b in body:
            for s in A.succs(b):
                if s not in body and (b, s) not in exh and (b, s) not in exempt and reaches_ret(A, s):
                    # leaving the iteration before exhaustion
                    if A.innermost(b) == h or True:
                        bad = bad or 'the loop can end before visiting every element'
        if bad:
            notes.append('%s (loop over %s)' % (bad, ppath(key[3])))
            continue
        x = items[0]
        work.append((h, x[1], x[2][:-1]))


# ---------------------------------------------------------------- guarded reachability

def flag_of(A, b):
    """drop-flag local (frame id, local) whose test leads to block b, if any"""
    out = []
    seen = set()
    st = [b]
    # walk back over straight-line blocks
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for p in A.W.preds.get(x, []):
            t = A.F.blocks[p].term
            if t[0] == 'switch':
                o = t[2].get('cp') or t[2].get('mv')
                if o is not None and len(o) == 1 and is_flag(A, t[1], o[0]):
                    out.append((t[1].id, o[0]))
            elif t[0] in ('goto', 'drop') and len(seen) < 6:
                st.append(p)
    return out


def flag_value(s, frame, local):
    """constant assigned to the flag by statement s (None: no assignment)"""
    if s[0] == '=' and s[1].id == frame and len(s[2]) == 1 and s[2][0] == local:
        rv = s[4]
        if rv[0] == 'use' and 'c' in rv[1] and isinstance(rv[1]['c'].get('v'), bool):
            return rv[1]['c']['v']
        return '?'
    return None


def is_flag(A, frame, local):
    t = frame.fn.locals[local]
    if t != ('prim', 'bool'):
        return False
    for b in A.F.blocks:
        for s in b.stmts:
            if s[0] == '=' and s[1].id == frame.id and s[2] and s[2][0] == local and flag_value(s, frame.id, local) in (None, '?'):
                return False
    return True


def reach_flag(A, flag, removed_edges=(), removed=(), start=None):
    """blocks reachable from start when the value of one drop flag is tracked along the path"""
    F = A.F
    fid, loc = flag if flag else (None, None)
    st = [(F.entry if start is None else start, None)]
    seen = set(st)
    removed = set(removed)
    while st:
        b, v = st.pop()
        if b in removed:
            continue
        for s in F.blocks[b].stmts:
            if flag:
                x = flag_value(s, fid, loc)
                if x is not None:
                    v = x if x != '?' else None
        t = F.blocks[b].term
        for s in F.succs(b):
            if (b, s) in removed_edges or s in removed:
                continue
            if flag and t[0] == 'switch' and v is not None and t[1].id == fid:
                o = t[2].get('cp') or t[2].get('mv')
                if o == [loc]:
                    vals = dict(t[3])
                    tgt = vals.get(int(v), vals.get(v, t[4]))
                    if s != tgt:
                        continue
            if (s, v) not in seen:
                seen.add((s, v))
                st.append((s, v))
    return {b for b, _ in seen}


def only_via(A, blk, edges, removed=()):
    """is block blk reachable from the entry only through one of the edges (drop flags tracked)?"""
    fl = flag_of(A, blk) or [None]
    return any(blk not in reach_flag(A, f, removed_edges=edges, removed=removed) for f in fl)
