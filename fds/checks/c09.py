"""C09: nothing but construction, settings, hash and input decides what is rendered."""
import re
from ..core import NODE, UNIT, ppath, pterm

ASSUME = ['user closures and the values of shared variables are inputs',
          'floating point arithmetic of one build on one machine is reproducible',
          'the schedule of the controlling thread (when an edit is committed) is an input']

FORBIDDEN = [
    (r'^std::time::(Instant|SystemTime)::now$|clock_gettime|gettimeofday|_rdtsc', 'the clock'),
    (r'getrandom|hashmap_random_keys|arc4random|from_time$', 'operating-system randomness'),
    (r'^std::env::(var|vars|var_os|args|args_os|current_dir|current_exe|home_dir|temp_dir)', 'the environment'),
    (r'^std::thread::(current|spawn|scope|park|sleep|yield_now|available_parallelism|Builder|Thread::id)', 'threads'),
    (r'^std::process::(id|Command)', 'the process'),
]
FORBIDDEN = [(re.compile(a), b) for a, b in FORBIDDEN]
PTR = re.compile(r'::(addr|expose_provenance|expose_addr|ptr_eq|addr_eq)$|fmt::Pointer|<\*(const|mut) .* as std::(hash::Hash|cmp::Ord|cmp::PartialOrd)')
HASHER = re.compile(r'BuildHasher::(hash_one|build_hasher)|RandomState as |RandomState::(new|default|with_seed)')
HASHED = ('hashbrown::HashMap', 'std::collections::HashMap', 'hashbrown::HashSet', 'std::collections::HashSet', 'hashbrown::map::HashMap', 'hashbrown::set::HashSet')
ITERS = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'into_keys', 'into_values', 'retain', 'extract_if')
ONCE = ('OnceBox', 'OnceLock', 'OnceCell', 'LazyLock', 'Lazy', 'OnceRef')


def operands(x, out):
    """every operand-like dict in a serialized body"""
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            operands(v, out)
    elif isinstance(x, list):
        for v in x:
            operands(v, out)
    return out


def classify(n):
    for r, w in FORBIDDEN:
        if r.search(n):
            return w
    return None


class Reach:
    """which forbidden source each node of the call graph can reach"""
    def __init__(self, M):
        self.N = M.nodes
        self.to = {}
        preds = {}
        for k, v in M.nodes.items():
            n = v.get('name', '')
            if 'panicking' in n or n.split('::')[-1].startswith('panic') or 'RandomState' in n or 'foldhash' in n or 'ahash::' in n:
                continue      # hashers of maps: see the rule on iteration
            for e in v.get('e', []):
                preds.setdefault(e, []).append(k)
            w = classify(n)
            if w:
                self.to[k] = (w, None)
        work = list(self.to)
        while work:
            k = work.pop()
            for p in preds.get(k, []):
                if p not in self.to and not ('panicking' in M.nodes[p].get('name', '')):
                    self.to[p] = (self.to[k][0], k)
                    work.append(p)

    def path(self, k):
        out = []
        while k is not None and len(out) < 6:
            out.append(self.N[k].get('name', '?'))
            k = self.to[k][1]
        return out


def base_adt(t):
    while t[0] in ('ref', 'ptr'):
        t = t[2]
    return t[1] if t[0] == 'adt' else None


def own_element(A, e, path):
    """does a write inside a hash map loop go only to the vertex the loop element designates?"""
    return any(isinstance(x, tuple) and x[0] == 'i' and "'elem'" in str(x[1]) for x in path)


def order_insensitive(ctx, fid, site_names):
    """a loop over a hash map that only touches, per step, memory indexed through the element"""
    A = ctx.function(fid)
    if A is None or A.fn.output != ('tuple', ()):
        return False
    heads = []
    for e in A.calls():
        if e.call.m in ITERS and e.args and e.args[0][0] == 'ref':
            heads.append(e)
    if len(heads) != 1:
        return False
    for e in A.events:
        if not A.loops_of(e.blk):
            continue
        if e.kind in ('write', 'fill') and e.path and e.path[0][0] in ('P', 'D') and not own_element(A, e, e.path):
            return False
        if e.kind == 'call' and e.extra:
            for i, p in A.W.mutable_args(e.call, e.args):
                if p[0][0] in ('P', 'D') and not own_element(A, e, p):
                    return False
                if p[0][0] == 'L' and e.call.m not in ('next', 'swap', 'replace', 'take'):
                    return False
    return True


def run(ctx, R):
    M = ctx.M
    R.rule('No function of the crate reaches, through any chain of calls into the crate, std or dependencies, a clock, operating-system randomness, the environment, thread identity or process identity.')
    R.rule('Process-wide mutable state is limited to unique-ID generators whose values are only compared and hashed, and to tables built once by a closure that captures nothing.')
    R.rule('No address is turned into a number, compared or hashed; no hash container with a randomized hasher is iterated unless each step touches only what its own element designates.')
    R.rule('Memory taken without initialization is handed to the processing of a nested component as its output before anything is read from it.')
    RC = Reach(M)
    nf = nc = 0
    stat = {s['name']: s for s in M.raw.get('statics', [])}
    users = {}
    maps = 0
    idtypes = set()
    for f in M.fns.values():
        if not f.has_body:
            continue
        nf += 1
        raw = ctx.rawfn(f.id)
        body = raw['body']
        for o in operands([raw['body'], raw.get('prom')], []):
            if 'st' in o:
                users.setdefault(o['st'], set()).add(f.id)
        for b in body['bb']:
            for st in b['s']:
                if st[0] == '=' and isinstance(st[2], list):
                    rv = st[2]
                    if rv[0] == 'tls':
                        R.bad('%s: thread-local state' % f.name, '%s:%s: %s reads thread-local state' % (f.file, st[3], f.name))
                    if rv[0] == 'cast' and rv[1] == 'PointerExposeProvenance':
                        R.bad('%s: address as a number' % f.name, '%s:%s: %s turns an address into a number' % (f.file, st[3], f.name))
                    if rv[0] == 'cast' and rv[1] == 'Transmute' and M.ty(rv[3])[0] == 'prim':
                        src = place_ty(M, raw, rv[2])
                        if src is not None and src[0] in ('ptr', 'ref') and src[2] != ('tuple', ()):   # the compiler's alignment checks go through *const ()
                            R.bad('%s: address as a number' % f.name, '%s:%s: %s turns an address into a number' % (f.file, st[3], f.name))
            t = b['t']
            if t[0] != 'call' or not isinstance(t[1], dict) or 'fn' not in t[1] or b.get('cl'):
                continue
            c = t[1]['fn']
            nc += 1
            line = t[-1] if isinstance(t[-1], int) else f.line
            name = c.get('rname') or c['name']
            w = classify(c['name']) or classify(name)
            if w or c.get('node') in RC.to:
                chain = RC.path(c['node']) if c.get('node') in RC.to else [name]
                w = w or RC.to[c['node']][0]
                R.bad('%s: %s' % (f.name, w), '%s:%s: %s depends on %s (%s)' % (f.file, line, f.name, w, ' -> '.join(chain)))
            if HASHER.search(c['name']) or HASHER.search(name):
                R.bad('%s: randomized hasher' % f.name, '%s:%s: %s uses a randomized hash value (%s)' % (f.file, line, f.name, name))
            if PTR.search(name) or PTR.search(c['name']):
                R.bad('%s: address' % f.name, '%s:%s: %s uses an address as a value (%s)' % (f.file, line, f.name, name))
            if c.get('m') in ITERS and not (raw.get('m') == 'fmt'):
                at = place_ty(M, raw, t[2][0]) if t[2] else None
                a = base_adt(at) if at else None
                if a in HASHED:
                    maps += 1
                    key = '%s: iteration over a hash container' % f.name
                    R.inst(key, '%s:%s' % (f.file, line))
                    if f.output and f.output[0] != 'tuple' and c['m'] in ('keys', 'values', 'iter') and len(body['bb']) <= 3:
                        R.skip(key, 'accessor handing the unordered set to the caller')
                    elif order_insensitive(ctx, f.id, c['m']):
                        pass
                    else:
                        R.bad(key, '%s:%s: %s iterates a hash container whose order differs from run to run' % (f.file, line, f.name))
    # statics
    for n, s in sorted(stat.items()):
        if s['frozen'] and not s['tls']:
            continue
        key = 'static %s' % n
        at = '%s:%s' % (s['file'], s['line'])
        R.inst(key, at)
        ty = M.ty(s['ty'])
        tn = (ty[1] if ty[0] == 'adt' else str(ty)).split('::')[-1]
        if s['tls']:
            R.bad(key, '%s: thread-local state %s' % (at, n))
        elif tn in ONCE:
            for fid in users.get(n, ()):
                f = M.fns[fid]
                g = M.fns.get(f.parent) if f.kind == 'Closure' else f
                raw = ctx.rawfn(fid)
                if (g or f).inputs:
                    R.bad(key, '%s: the value of %s is decided by whichever caller of %s comes first' % (at, n, f.name))
        elif tn == 'IdGenerator':
            for fid in users.get(n, ()):
                f = M.fns[fid]
                if f.output and f.output[0] == 'adt' and len(M.adts.get(f.output[1], {'variants': [(0, [0, 0])]})['variants'][0][1]) == 1:
                    idtypes.add(f.output[1])
                else:
                    R.bad(key, '%s: %s uses the process-wide counter %s for something other than an identity' % ('%s:%s' % (f.file, f.line), f.name, n))
        else:
            R.bad(key, '%s: process-wide mutable state %s of type %s' % (at, n, tn))
    # identities are only copied, compared and hashed
    for f in M.fns.values():
        if not f.has_body:
            continue
        i = M.impl_of_fn.get(f.id)
        if i and base_adt(i[0]['self']) in idtypes:
            if i[0]['trait'] and i[0]['trait'].split('::')[-1] in ('PartialOrd', 'Ord'):
                R.bad('%s: ordering' % f.name, '%s:%s: identities drawn from a process-wide counter are ordered' % (f.file, f.line))
            continue
        raw = ctx.rawfn(f.id)
        for v in idreads(M, raw, idtypes):
            R.bad('%s: reads a raw identity' % f.name, '%s:%s: %s reads the number behind %s' % (f.file, v[1], f.name, v[0]))
        for b in raw['body']['bb']:
            t = b['t']
            if t[0] == 'call' and isinstance(t[1], dict) and 'fn' in t[1]:
                c = t[1]['fn']
                if c.get('m') == 'value' and any((c.get('rname') or c['name']).startswith(x) for x in idtypes):
                    R.bad('%s: uses a raw identity' % f.name, '%s:%s: %s uses the number behind an identity' % (f.file, f.line, f.name))
                elif c.get('m') == 'get_id' and 'IdGenerator' in c['name'] and not (i and base_adt(i[0]['self']) == 'shared::IdGenerator') and not (f.output and f.output[0] == 'adt' and f.output[1] in idtypes):
                    R.bad('%s: raw counter' % f.name, '%s:%s: %s draws a number from a process-wide counter' % (f.file, f.line, f.name))
    R.floor('functions', nf, 1500)
    R.floor('identity types', len(idtypes), 2)
    R.count('calls examined', nc)
    R.count('iterations over hash containers', maps)
    R.count('statics with mutable state', len([s for s in stat.values() if not s['frozen']]))
    uninit(ctx, R)


def uninit(ctx, R):
    n = 0
    for tr, im in ctx.node_impls():
        for m in ('tick', 'process'):
            A = ctx.bufmethod(tr, im, m)
            if A is None:
                continue
            T = ctx.tyname(im)
            for e in A.calls():
                if e.call.name.split('::')[-1] in ('uninit', 'zeroed_uninit', 'assume_init', 'set_len'):
                    R.bad('%s::%s: raw uninitialized memory' % (T, m), '%s: %s::%s handles uninitialized memory directly' % (A.where(e), T, m))
            if not any(e.call.name.endswith('::uninitialized') for e in A.calls()):
                continue
            key = '%s::%s: uninitialized buffer' % (T, m)
            n += 1
            R.inst(key, A.at())
            fill, reads = {}, {}
            for e in A.calls():
                if e.call.trait in (NODE, UNIT) and e.call.m == 'process':
                    for r in local_roots(A, e.snap[3]):
                        fill.setdefault(r, set()).add(e.blk)
                    for r in local_roots(A, e.snap[2]):
                        reads.setdefault(r, []).append(e)
                elif e.call.name.startswith('buffer::') and e.call.m not in ('buffer_mut', 'uninitialized', 'subset', 'buffer_ref', 'set', 'set_f32', 'clear', 'channels'):
                    for r in local_roots(A, e.snap[0]) if e.snap else ():
                        reads.setdefault(r, []).append(e)
            for r, es in reads.items():
                for e in es:
                    if e.blk in A.reach(A.F.entry, removed=fill.get(r, set()) - {e.blk}) and from_uninit(A, e, r):
                        if ping_pong(A, e, fill.get(r, set())):
                            R.skip(key, 'filled and read in alternation by the parity of the position in the chain (decided by C16)')
                            continue
                        R.bad(key, '%s: %s::%s reads a buffer that nothing has written yet (%s)' % (A.where(e), T, m, e.call.name))
    R.count('methods with uninitialized buffers', n)


def ping_pong(A, e, fills):
    """the buffer is filled on the other arm of a parity test in the same loop and on one arm before the loop"""
    hs = A.loops_of(e.blk)
    par = any(s.kind == 'switch' and any(x == ('bin', 'BitAnd') + x[2:] and ('c', 1) in x[2:] for x in A.W.deps(s.val) if isinstance(x, tuple) and len(x) == 4)
              for b in A.loops()[hs[0]] for s in A.W.bevents.get(b, [])) if hs else False
    return par and any(hs[0] in A.loops_of(b) for b in fills) and any(not A.loops_of(b) for b in fills)


def local_roots(A, t):
    """local buffers behind a view"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] in ('at', 'ref') and isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], tuple) and x[1][0][0] == 'L':
            out.add(x[1][0])
        if x[0] == 'at' and len(x) > 2:
            st.append(x[2])
        elif x[0] in ('pure', 'call'):
            st += list(x[3])
        elif x[0] == 'agg':
            st += [v for _, v in x[4]]
    return out


def from_uninit(A, e, r):
    """was the local taken without initialization?"""
    for x in A.calls():
        if x.call.name.endswith('::uninitialized') and any(y.snap and y.snap[0][0] == 'at' and y.snap[0][1][0] == r and any(
                z[0] == 'call' and z[2].endswith('uninitialized') or z[0] == 'pure' and z[1].endswith('uninitialized') for z in A.W.deps(y.snap[0][2]) if isinstance(z, tuple) and z)
                for y in A.calls()):
            return True
    return False


def place_ty(M, raw, o):
    """type of a bare local operand"""
    if not isinstance(o, dict):
        return None
    p = o.get('cp') or o.get('mv')
    if not p:
        return M.ty(o['c']['t']) if 'c' in o and 't' in o['c'] else None
    if len(p) != 1:
        return None
    return M.ty(raw['body']['locals'][p[0]])


def idreads(M, raw, idtypes):
    """reads of the field of an identity type"""
    out = []
    loc = raw['body']['locals']
    for b in raw['body']['bb']:
        for st in b['s']:
            if st[0] != '=':
                continue
            for o in operands(st[2], []):
                p = o.get('cp') or o.get('mv')
                if p and len(p) >= 2:
                    t = M.ty(loc[p[0]])
                    for x in p[1:]:
                        if x == '*' and t[0] in ('ref', 'ptr'):
                            t = t[2]
                        elif t[0] == 'adt' and t[1] in idtypes and x != '*':
                            out.append((t[1], st[3] if len(st) > 3 else 0))
                            break
                        else:
                            break
    return out
