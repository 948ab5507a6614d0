"""Transitive effects (heap allocation, deallocation, I/O, locking, ...) of every function instance the
compiler can reach from the crate, computed over the driver's call graph (std and dependencies included)."""

ALLOC = ('__rust_alloc', '__rust_alloc_zeroed', '__rust_realloc')
PANIC = ('unwrap_failed', 'expect_failed', 'handle_alloc_error', 'handle_error', 'capacity_overflow', 'panic_fmt')


def stops(n):
    """failure paths: the thread is about to unwind, nothing is promised any more"""
    s = n.split('::')[-1]
    return 'panicking' in n or s in PANIC or 'panic' in s


def base(v):
    n = v.get('name', '')
    s = n.split('::')[-1]
    k = v.get('k')
    if s in ALLOC:
        return {'alloc'}
    if s == '__rust_dealloc':
        return {'dealloc'}
    if k == 'drop' and v.get('note') == 'dyn':
        return {'dealloc'}
    if k == 'foreign' and ('libc' in n or 'sys::io' in n or 'sys::pal' in n):
        return {'io'}
    if 'sync::once::futex' in n or 'sys::sync::' in n or 'thread::park' in n or 'thread::sleep' in n or 'sync::poison::mutex' in n or 'sync::poison::rwlock' in n:
        return {'lock'}
    if n.startswith('std::io::') or n.startswith('std::fs::') or n.startswith('std::net::') or n.startswith('std::process::'):
        return {'io'}
    if k == 'nomir':
        return {'nomir:' + n}
    return set()


class Effects:
    def __init__(self, M):
        N = M.nodes
        self.N = N
        eff = {}
        why = {}
        preds = {}
        for k, v in N.items():
            if stops(v.get('name', '')):
                eff[k] = set()
                continue
            eff[k] = base(v)
            for e in v.get('e', []):
                preds.setdefault(e, []).append(k)
        work = [k for k in eff if eff[k]]
        while work:
            k = work.pop()
            for p in preds.get(k, []):
                new = eff[k] - eff[p]
                if new:
                    eff[p] |= new
                    for x in new:
                        why[(p, x)] = k
                    work.append(p)
        self.eff = eff
        self.why = why

    def of(self, node):
        return self.eff.get(node, set())

    def path(self, node, what, n=12):
        """call chain from node to the primitive with the effect"""
        out = []
        while (node, what) in self.why and len(out) < n:
            node = self.why[(node, what)]
            out.append(self.N[node].get('name', '?'))
        return out


def effects(ctx):
    if 'effects' not in ctx._cache:
        ctx._cache['effects'] = Effects(ctx.M)
    return ctx._cache['effects']


def dropkey(e):
    k = [x for x in e.extra if isinstance(x, str) and x.startswith('drop:')]
    return k[0] if k else None
