"""C20: a clone copies every field and shares no mutable state."""
from ..core import An, NODE, UNIT, ppath, pterm
from ..state import fieldvals, constructors
from ..prop import pattern

ASSUME = ['Clone implementations of std and of the dependencies copy their value',
          'component types given by the user have a faithful Clone',
          'ends of channels are connections, not state: a clone is not connected to the other side']
CHANNEL = ('thingbuf::mpsc::Sender', 'thingbuf::mpsc::Receiver')
# (type, field): (what the clone gets instead, reason)
EXEMPT = {
    ('net::Net', 'edit_queue'): ('empty', 'edits that were not committed belong to the front end'),
    ('slot::SlotBackend', 'buffer'): ('any', 'scratch space that is written before it is read'),
    ('snoop::SnoopBackend', 'sender'): ('same', 'a copy of the tap reports to the same listener by design'),
    ('setting::SettingSender', 'sender'): ('same', 'a copy of the sender controls the same component by design'),
}
CELLS = ('std::cell::', 'core::cell::', 'std::sync::atomic::', 'core::sync::atomic::', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::poison',
         'std::sync::Once', 'std::sync::LazyLock', 'once_cell::', 'spin::', 'parking_lot::', 'lock_api::')
SHARING = ('std::sync::Arc', 'std::rc::Rc', 'alloc::sync::Arc', 'alloc::rc::Rc', 'std::sync::Weak', 'std::rc::Weak')


def mutable(M, t, seen=None):
    """whether the type can be changed through a shared reference"""
    seen = seen if seen is not None else set()
    if t in seen or not isinstance(t, tuple) or not t:
        return False
    seen.add(t)
    if t[0] == 'adt':
        if t[1].startswith(CELLS) or t[1].split('::')[-1] in ('UnsafeCell', 'Cell', 'RefCell', 'Mutex', 'RwLock', 'Atomic') or t[1].split('::')[-1].startswith('Atomic') and t[1] not in M.adts:
            return True
        a = M.adts.get(t[1])
        if a:
            s = dict(zip(a['generics'], t[2])) if 'generics' in a else {}
            return any(mutable(M, M.subst(ft, s), seen) for _, fs in a['variants'] for _, ft, _ in fs)
        return any(mutable(M, x, seen) for x in t[2])
    if t[0] in ('ref', 'ptr'):
        return mutable(M, t[2], seen)
    if t[0] in ('array', 'slice'):
        return mutable(M, t[1], seen)
    if t[0] == 'tuple':
        return any(mutable(M, x, seen) for x in t[1])
    if t[0] == 'closure':
        return any(mutable(M, x, seen) for x in t[2])
    return False


def shares(M, t):
    """shared handles with mutable content inside a type: (handle type,)"""
    out = []
    seen = set()

    def go(t):
        if t in seen or not isinstance(t, tuple) or not t:
            return
        seen.add(t)
        if t[0] == 'adt':
            if t[1] in SHARING or t[1].split('::')[-1] in ('Arc', 'Rc'):
                if any(mutable(M, x) for x in t[2]) or any(x[0] == 'dyn' for x in t[2]):
                    out.append(t)
                return
            a = M.adts.get(t[1])
            for x in t[2]:
                go(x)
            if a:
                for _, fs in a['variants']:
                    for _, ft, _ in fs:
                        go(ft)
        elif t[0] == 'ptr':
            out.append(t)
        elif t[0] in ('ref',):
            go(t[2])
        elif t[0] in ('array', 'slice'):
            go(t[1])
        elif t[0] in ('tuple',):
            for x in t[1]:
                go(x)
        elif t[0] == 'closure':
            for x in t[2]:
                go(x)
    go(t)
    return out


def has_channel(t):
    return isinstance(t, tuple) and (t and t[0] == 'adt' and t[1].split('::')[-1] in ('Sender', 'Receiver') or any(has_channel(x) for x in t))


class Copy:
    """decides whether a term is a copy of the memory at a path"""
    def __init__(self, ctx, A):
        self.ctx, self.M, self.A, self.W = ctx, ctx.M, A, A.W
        self.skipped = []

    def derived(self, t):
        return any(i.get('derived') and i['self'][0] == 'adt' and i['self'][1] == t[1] for i in self.M.impls_by_trait.get('std::clone::Clone', []))

    def same(self, t, path, ty):
        """None if t is a copy of path (of type ty), otherwise the field that is not"""
        if t[0] == 'mem' and t[1] == path:
            return None
        if t[0] == 'at':
            return self.same(t[2], path, ty)
        a = self.M.adts.get(ty[1]) if ty[0] == 'adt' else None
        if t[0] == 'ovr':
            m = merged(t)
            if m is None:
                return ppath(path)
            return self.same(m, path, ty)
        if t[0] == 'agg':
            if t[1] == 'box':
                return self.same(t[4][0][1], path + ('*',), ty)
            fts = {}
            if a and t[1] == ty[1]:
                s = dict(zip(a.get('generics', []), ty[2]))
                for vn, fs in a['variants']:
                    if vn == t[2]:
                        fts = {n: self.M.subst(x, s) for n, x, _ in fs}
            multi = bool(a and len(a['variants']) > 1) or (a is None and t[2] in ('Some', 'None', 'Ok', 'Err'))
            if multi and not t[4]:
                return None if a is None or len(a['variants']) == 1 else ppath(path)
            for n, v in t[4]:
                ft = fts.get(n, ('other', '?'))
                if ty[0] == 'adt' and (ty[1], n) in EXEMPT:
                    how, why = EXEMPT[(ty[1], n)]
                    if how == 'any' or how == 'same' and self.same(v, path + (('f', n),), ft) is None or how == 'empty' and self.empty(v):
                        self.skipped.append((ty[1], n, why))
                        continue
                    return ppath(path + (('f', n),))
                if has_channel(ft):
                    if any(x[0] == 'mem' and x[1][:len(path) + 1] == path + (('f', n),) for x in self.W.deps(v) if isinstance(x, tuple) and x):
                        return ppath(path + (('f', n),)) + ' (the clone stays connected)'
                    self.skipped.append((ty[1], n, 'end of a channel'))
                    continue
                p = path + ((('d', t[2]),) if multi else ()) + (('f', n),)
                r = self.same(v, p, ft)
                if r and multi:
                    r2 = self.same(v, path + (('f', n),), ft)
                    r = r2 and r
                if r:
                    return r
            if a and t[1] == ty[1]:
                missing = set(fts) - {n for n, _ in t[4]}
                if missing:
                    return ppath(path + (('f', sorted(missing)[0]),))
            return None
        if t[0] == 'phi':
            if a and len(a['variants']) > 1:
                if self.derived(ty) and len(path) == 1:
                    return None
                ops = list(self.W.operands(t))
                vs = {o[2] for o in ops if o[0] == 'agg' and o[1] == ty[1]}
                if vs == {v for v, _ in a['variants']}:
                    for o in ops:
                        if o[4]:
                            r = self.same(o, path, ty)
                            if r:
                                return r
                    return None
            for o in self.W.operands(t):
                if o[0] == 'agg' and o[2] == 'None':
                    continue
                if o[0] == 'agg' and o[2] == 'Some' and self.copyof(o[4][0][1], path):
                    continue
                r = self.same(o, path, ty)
                if r:
                    return r
            return None
        if self.copyof(t, path):
            return None
        return ppath(path)

    def empty(self, t):
        return t[0] in ('pure', 'call') and t[1 if t[0] == 'pure' else 2].split('::')[-1] in ('new', 'with_capacity', 'default') or t[0] == 'agg' and not t[4] or t[0] == 'lenv'

    def copyof(self, t, path):
        """a structure rebuilt from the content of path, or a boxed component cloned from it"""
        if t[0] in ('pure', 'call'):
            n = t[1] if t[0] == 'pure' else t[2]
            args = t[3]
            if n.split('::')[-1] in ('clone', 'clone_box', '__clone_box', 'to_vec', 'to_owned', 'cloned', 'copied', 'into', 'from', 'collect', 'new', 'pin') and args:
                return self.copyof(args[0], path)
            return False
        if t[0] == 'at':
            return self.copyof(t[2], path)
        if t[0] in ('ref', 'mem', 'optref'):
            p = t[1]
            return p[:len(path)] == path and all(isinstance(x, tuple) and x[0] == 'd' or x == '*' for x in p[len(path):])
        if t[0] == 'agg' and t[1] == 'box':
            return self.copyof(t[4][0][1], path)
        if t[0] in ('horet', 'mapped', 'gen'):
            b = self.W.genbody.get(t[1])
            return b is not None and self.element(b, path)
        if t[0] == 'iter':
            return t[1] in ('refs', 'copied', 'map', 'mapped', 'cloned') and any(isinstance(x, tuple) and (x == path or self.copyof(x, path)) for x in t[2:])
        return False

    def element(self, b, path):
        if b[0] == 'agg' and b[4]:
            return all(self.element(v, path) for _, v in b[4])
        if b[0] in ('mem', 'ref', 'optref'):
            return b[1][:len(path)] == path
        if b[0] == 'at':
            return self.element(b[2], path)
        if b[0] in ('pure', 'call'):
            n = b[1] if b[0] == 'pure' else b[2]
            return n.split('::')[-1] in ('clone', 'clone_box', 'to_owned', 'into') and all(self.element(x, path) for x in b[3])
        return any(isinstance(x, tuple) and x and x[0] == 'mem' and x[1][:len(path)] == path for x in self.W.deps(b))


def merged(t):
    """a structure with the fields that were overwritten afterwards"""
    base = t[1] if t[1][0] != 'ovr' else merged(t[1])
    if base is None or base[0] != 'agg':
        return None
    f = dict(base[4])
    for rel, v in t[2]:
        k = rel[0]
        if not (isinstance(k, tuple) and k[0] == 'f'):
            return None
        if len(rel) == 1:
            f[k[1]] = v
        else:
            f[k[1]] = merged(('ovr', f[k[1]], ((rel[1:], v),))) if k[1] in f else None
            if f[k[1]] is None:
                return None
    return base[:4] + (tuple(f.items()),)


def run(ctx, R):
    M = ctx.M
    R.rule('For every implementation of Clone in the crate, as a term over the original: each field of the clone is a copy of the same field of the original; ends of channels are replaced by fresh ones.')
    R.rule('No function of the crate creates storage that is both shared (Arc, Rc) and changeable through a shared reference, except to return the handle to the user; a component holding such a handle gets it from its maker\'s arguments. No component holds a raw pointer.')
    n = 0
    enums = {i['items']['clone'] for i in M.impls_by_trait.get('std::clone::Clone', []) if i.get('derived') and i['self'][0] == 'adt' and len(M.adts.get(i['self'][1], dict(variants=[]))['variants']) > 1}
    nodes = {im['self'][1] for _, im in ctx.node_impls() if im['self'][0] == 'adt'}
    for im in M.impls_by_trait.get('std::clone::Clone', []):
        ty = im['self']
        if ty[0] != 'adt' or ty[1] not in M.adts:
            continue
        f = M.fns[im['items']['clone']]
        key = 'Clone for %s' % M.tname(ty)
        A = An(ctx, f, {}, ty, lambda F, fr, fo, fn, args, t, me=f.id: (fo.get('rid') or fo.get('id')) in enums and (fo.get('rid') or fo.get('id')) != me)
        R.inst(key, A.at())
        n += 1
        C = Copy(ctx, A)
        rets = [e.val for e in A.events if e.kind == 'return']
        for t in rets:
            r = C.same(t, (('P', 1),), ty)
            if r:
                R.bad(key, '%s: the clone of %s does not get a copy of %s' % (A.at(), M.tname(ty), r))
        if not rets:
            R.bad(key, '%s: %s cannot be cloned' % (A.at(), M.tname(ty)))
        for a, b, why in C.skipped:
            if a == ty[1]:
                R.skip('%s.%s' % (a, b), why)
    R.floor('Clone implementations', n, 170)
    # every component type is covered
    k = 0
    for ty in sorted(nodes):
        a = M.adts.get(ty)
        if not a:
            continue
        for vn, fs in a['variants']:
            for fn_, ft, _ in fs:
                for h in shares(M, ft):
                    key = 'shared field %s.%s' % (ty, fn_)
                    if h[0] == 'ptr':
                        R.bad(key, '%s.%s: a component holds a raw pointer' % (ty, fn_))
                        continue
                    if h[0] == 'adt' and h[1] in ('thingbuf',):
                        continue
                    k += 1
                    R.inst(key, M.tname(h))
                    im = [i for _, i in ctx.node_impls() if i['self'][0] == 'adt' and i['self'][1] == ty][0]
                    for f in constructors(ctx, im):
                        i = M.impl_of_fn.get(f.id)
                        if i and i[0].get('derived') and i[0]['trait'] == 'std::default::Default':
                            R.skip(key + ' by default', 'nobody holds the other end of a default variable, so its value never changes')
                            continue
                        A = ctx.function(f.id, selfty=im['self'])
                        for e in A.events:
                            if e.kind != 'return':
                                continue
                            vals = [v for p, v in fieldvals(e.val) if p[:1] == (fn_,)]
                            for v in vals:
                                d = A.W.deps(v)
                                if not any(isinstance(x, tuple) and x and (x[0] == 'arg' or x[0] in ('mem', 'ref') and x[1] and isinstance(x[1][0], tuple) and x[1][0][0] == 'P') for x in d):
                                    R.bad(key, '%s: %s.%s is shared and changeable but is not given by the user (%s)' % (A.at(), ty, fn_, pterm(v)[:80]))
    R.floor('shared handles in components', k, 5)
    # creation of shared changeable storage
    c = 0
    for f in M.fns.values():
        if not f.has_body:
            continue
        for bb in f.bb:
            t = bb.get('t') if isinstance(bb, dict) else None
            for cl in calls_in(bb):
                nm = cl.get('rname') or cl.get('name', '')
                last = nm.split('::')[-1]
                args = [M.garg(a) for a in cl.get('args', [])] if isinstance(cl.get('args'), list) else []
                fresh = False
                if ('Arc::' in nm or 'Rc::' in nm) and last in ('new', 'from', 'new_cyclic', 'pin', 'default', 'new_uninit'):
                    c += 1
                    fresh = any(mutable(M, a) or a[0] == 'dyn' for a in args)
                elif nm.endswith('shared::Shared::new') or nm.split('<')[0] in ('prelude::shared', 'hacker::shared', 'hacker32::shared'):
                    c += 1
                    fresh = True
                elif 'Box::' in nm and last == 'leak':
                    fresh = True
                if fresh:
                    root = f
                    while root.kind == 'Closure' and root.parent in M.fns:
                        root = M.fns[root.parent]
                    out = root.output
                    key = 'created in %s' % root.name
                    R.inst(key, '%s:%s' % (root.file, root.line))
                    if not (out and out[0] == 'adt' and (out[1] == 'shared::Shared' or out[1].split('::')[-1] in ('Arc', 'Rc'))):
                        R.bad(key, '%s:%s: %s creates shared changeable storage (%s) that clones of its result have in common' % (root.file, root.line, root.name, nm))
    R.floor('creations of shared storage', c, 8)


def calls_in(x):
    if isinstance(x, dict):
        if 'name' in x and ('args' in x or 'rname' in x):
            yield x
        for v in x.values():
            yield from calls_in(v)
    elif isinstance(x, list):
        for v in x:
            yield from calls_in(v)
