"""Generic 'method m reaches every nested component' rule (C01, C03, C05, C08)."""
from .core import NODE, UNIT, ppath, pterm
from .prop import (children, pattern, opt_strip, must_reach, presence_exempt, transfers, drains, strip, reaches_ret, Child)


def pat_of(path):
    return pattern(opt_strip(path))


def matches(ctx, c, path):
    if not path or path[0] != ('P', 1):
        return False
    p = pat_of(path)
    if p == c.pat:
        return True
    return c.ty[0] == 'adt' and c.ty[1].endswith('combinator::An') and p == c.pat + ('0',)


def impl_of(ctx, ty):
    for tr in (NODE, UNIT):
        r = ctx.M.find_impl(tr, (ty,))
        if r:
            return tr, r[0] if isinstance(r, tuple) else r
    return None


def effective(ctx, tr, im, meth, ty=None):
    """can calling meth on this component (of concrete type ty) change anything?"""
    key = ('eff', im['id'], meth, ty)
    if key in ctx._cache:
        return ctx._cache[key]
    ctx._cache[key] = False
    A = ctx.method(tr, im, meth)
    res = False
    if A is None or A.W.incomplete or A.F.truncated:
        res = True
    else:
        ch = children(ctx, im, ty=ty)
        for e in A.events:
            if e.kind in ('write', 'fill') and e.path and e.path[0] == ('P', 1):
                res = True
            elif e.kind == 'call':
                c = e.call
                if c.trait in (NODE, UNIT) and e.args and e.args[0][0] == 'ref' and e.args[0][1][0] == ('P', 1):
                    hit = [x for x in ch if matches(ctx, x, e.args[0][1])]
                    if any(x.kind != 'adt' for x in hit) or not hit:
                        if c.m not in ('inputs', 'outputs', 'get_id', 'footprint'):
                            res = True
                    else:
                        for x in hit:
                            r = impl_of(ctx, x.ty)
                            if r is None or effective(ctx, r[0], r[1], c.m, x.ty):
                                res = True
                elif e.extra:  # opaque call
                    for i, p in A.W.mutable_args(c, e.args):
                        if p[0] == ('P', 1):
                            res = True
    ctx._cache[key] = res
    return res


def noop_child(ctx, c, meth):
    if c.kind != 'adt':
        return False
    r = impl_of(ctx, c.ty)
    return bool(r) and not effective(ctx, r[0], r[1], meth, c.ty)


def child_events(ctx, A, c, meths):
    return [e for e in A.calls() if e.call.m in meths and e.args and e.args[0][0] == 'ref' and matches(ctx, c, e.args[0][1])]


def removal_events(A, c):
    """writes that take the component out of the composite (Option::take and friends)"""
    out = []
    for e in A.events:
        if e.kind == 'write' and e.path and e.path[0] == ('P', 1) and e.val[0] == 'agg' and e.val[2] == 'None':
            p = pat_of(e.path)
            if p and p == c.pat[:len(p)]:
                out.append(e)
    for e in A.calls():
        if e.call.m == 'clear' and e.args and e.args[0][0] == 'ref' and e.args[0][1][0] == ('P', 1):
            p = pat_of(e.args[0][1])
            if p and p + ('[]',) == c.pat[:len(p) + 1]:
                out.append(e)
    # loops that empty the container without keeping the elements
    for src, h, site in drains(A):
        if src + ('[]',) == c.pat[:len(src) + 1]:
            keeps = [x for x in A.calls() if x.call.m in ('push', 'push_back', 'push_front', 'insert') and x.args and x.args[0][0] == 'ref' and x.args[0][1][0] == ('P', 1)
                     and any(isinstance(y, tuple) and y and y[0] == 'call' and y[1] == site for z in x.args[1:] for y in A.W.deps(z))]
            if not keeps:
                class E:
                    pass
                e = E()
                e.blk = h
                out.append(e)
    return out


def covered_blocks(ctx, A, c, evs, exempt):
    ok, notes, blocks = must_reach(A, c, [(e.blk, e.args[0][1]) for e in evs], exempt)
    return ok, notes, blocks


def check_child(ctx, A, c, meths, exempt, allch, depth=0, removal=True):
    """(ok, notes, covering blocks, events)"""
    evs = child_events(ctx, A, c, meths)
    ok, notes, blocks = covered_blocks(ctx, A, c, evs, exempt)
    blocks = set(blocks)
    if removal:
        for e in removal_events(A, c):
            blocks.add(e.blk)
    if depth < 3:
        for src, dst, blk in transfers(A):
            s = src + ('[]',)
            if c.pat[:len(s)] == s or c.pat[:len(src)] == src:
                rest = c.pat[len(s):] if c.pat[:len(s)] == s else c.pat[len(src):]
                for c2 in allch:
                    if c2 is not c and c2.pat == dst + ('[]',) + rest:
                        ok2, n2, b2, e2 = check_child(ctx, A, c2, meths, exempt, allch, depth + 1, removal)
                        r = set()
                        for s2 in A.succs(blk):
                            r |= A.reach(s2, removed=b2, removed_edges=exempt)
                        # leaving the transfer loop: paths from blk
                        if A.F.ret not in r:
                            blocks.add(blk)
    r = A.reach(A.F.entry, removed=blocks, removed_edges=exempt)
    ok = A.F.ret not in r
    if ok and depth == 0:
        # a component moved in afterwards must be reached as well
        for e in A.events:
            if e.kind != 'write' or not e.path or e.path[0] != ('P', 1):
                continue
            p = pat_of(e.path)
            if not p or p != c.pat[:len(p)]:
                continue
            if e.val[0] == 'agg' and e.val[2] == 'None':
                continue
            if e.val == ('mem', e.path, 0):
                continue
            later = [x for x in A.W.bevents.get(e.blk, []) if x.idx > e.idx and x in evs]
            if later:
                continue
            r = set()
            for s2 in A.succs(e.blk):
                r |= A.reach(s2, removed=blocks, removed_edges=exempt)
            if A.F.ret in r:
                ok = False
                notes = notes + ['%s is replaced at %s after the call' % ('.'.join(c.pat), A.where(e))]
    return ok, notes, blocks, evs


def composites(ctx):
    for tr, im in ctx.node_impls():
        ch = children(ctx, im)
        if ch:
            yield tr, im, ch


def file_line(A):
    return '%s:%s' % (A.fn.file, A.fn.line)


def run_propagation(ctx, R, meth, exempt_table, extra=None, delegate=None, on_event=None, removal=True, extra_of=None):
    """every composite: `meth` reaches every nested component on every path.
    exempt_table: {(Type, 'field.path'): reason}; extra(cond, truth): edges on which nothing is to be done;
    delegate(A): blocks that hand the request over as a whole; on_event(A, im, c, e)"""
    n = comp = 0
    used = set()
    for tr, im, ch in composites(ctx):
        T = ctx.tyname(im)
        A = ctx.method(tr, im, meth)
        comp += 1
        if A is None:
            R.bad('%s.%s' % (T, meth), 'no body found for %s of %s' % (meth, T))
            continue
        dele = delegate(A, im) if delegate else set()
        for c in ch:
            cp = '.'.join(c.pat)
            key = '%s::%s -> %s' % (T, meth, cp)
            if (T, cp) in exempt_table:
                R.skip(key, exempt_table[(T, cp)])
                used.add((T, cp))
                if on_event:
                    for e in child_events(ctx, A, c, {meth}):
                        on_event(A, im, c, e)
                continue
            if noop_child(ctx, c, meth):
                R.count('no-op children')
                continue
            ex = set(presence_exempt(A, c.pat, extra_of(T) if extra_of else extra))
            for b in dele:
                for s in A.succs(b):
                    ex.add((b, s))
            ok, notes, blocks, evs = check_child(ctx, A, c, {meth}, ex, ch, removal=removal)
            n += 1
            R.inst(key, '%s, %d call site(s)%s' % (file_line(A), len(evs), '' if meth in im['items'] else ', default method'))
            if not ok:
                R.bad(key, '%s: %s of %s does not reach nested component `%s` on every path to its return%s%s' % (
                    file_line(A), meth, T, cp, '' if evs else ' (there is no such call)', ': ' + '; '.join(notes) if notes else ''))
            if on_event:
                for e in evs:
                    on_event(A, im, c, e)
    R.count('composites', comp)
    return n


SHAPE = 'shape::Shape'


def shape_impls(ctx):
    return [(SHAPE, i) for i in ctx.M.impls_by_trait.get(SHAPE, [])]


def shape_fields(ctx, im):
    """fields holding a waveshaper (generic parameter bounded by Shape, or a type implementing it)"""
    ps = {t for t, tr in im['bounds'] if tr == SHAPE}
    out = []
    for n, t in ctx.M.fields(im['self']):
        if t in ps or t[0] == 'adt' and ctx.M.find_impl(SHAPE, (t,)):
            out.append(n)
    return out


def shape_rule(ctx, R, meth, want=None, exempt=()):
    """meth of every component with nested waveshapers calls meth on each of them on every path"""
    n = 0
    for tr, im in ctx.node_impls() + shape_impls(ctx):
        if im['self'][0] != 'adt':
            continue
        fs = shape_fields(ctx, im)
        if not fs:
            continue
        T = ctx.tyname(im)
        A = ctx.method(tr, im, meth)
        for f in fs:
            n += 1
            key = '%s::%s -> shape %s' % (T, meth, f)
            R.inst(key, A.at())
            blocks = set()
            for e in A.calls():
                if e.call.m == meth and e.call.trait == SHAPE and e.args and e.args[0][0] == 'ref' and pat_of(e.args[0][1]) == (f,):
                    if want and not want(e.args[1]):
                        R.bad(key + ' value', '%s: %s passes %s to the shape `%s`' % (A.where(e), T, pterm(e.args[1]), f))
                    blocks.add(e.blk)
            if A.F.ret in A.reach(A.F.entry, removed=blocks):
                R.bad(key, '%s: %s::%s can return without calling %s on the waveshaper `%s`' % (A.at(), T, meth, meth, f))
    return n
