"""C06: real-time safety of tick, process and set."""
from ..core import NODE, UNIT, ppath, pterm
from ..prop import presence_exempt, only_via, norm_cond, switch_edges, pattern, opt_strip
from ..propcheck import pat_of
from ..state import step
from ..effects import effects, dropkey

ASSUME = ['panicking paths are outside the promise',
          'user closures, user waveshapes and textures given to opcodes are outside the promise',
          'a message channel is not full and allocate() was called after the last change of structure (C05)']

ROOTS = [(NODE, 'tick'), (NODE, 'process'), (NODE, 'set'), (UNIT, 'tick'), (UNIT, 'process'), (UNIT, 'set'),
         ('shape::Shape', 'shape'), ('shape::Shape', 'simd'), ('audionode::FrameBinop', None), ('audionode::FrameUnop', None),
         ('biquad::BiquadMode', None), ('svf::SvfMode', None), ('dynamics::Monoidal', None), ('math::SegmentInterpolator', None)]

# containers that may grow while rendering: capacity is reserved beforehand (second rule of C05)
GROW = {
    ('dynamics::Limiter', 'buffer'): 'reserved by allocate',
    ('sequencer::Sequencer', 'active'): 'reserved by allocate', ('sequencer::Sequencer', 'active_map'): 'reserved by allocate',
    ('sequencer::Sequencer', 'ready'): 'reserved by allocate', ('sequencer::Sequencer', 'past'): 'reserved by allocate',
    ('sequencer::Sequencer', 'edit_map'): 'reserved by allocate',
}
GROWERS = ('push', 'push_back', 'push_front', 'insert', 'entry')


def owner(ctx, selfty, pat):
    """(struct, field) a self path ends in"""
    t = selfty
    own = None
    for e in pat:
        while t is not None and t[0] == 'adt' and t[1] in ('std::option::Option', 'std::boxed::Box'):
            t = t[2][0]
        own = (t[1] if t and t[0] == 'adt' else None, e)
        t = step(ctx, t, e)[0] if t is not None else None
    return own


def false_edges(A, field):
    """edges on which boolean self.<field> is false"""
    out = set()
    for b in A.blocks():
        term = A.F.blocks[b].term
        if term[0] != 'switch':
            continue
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if not ev:
            continue
        c, neg = norm_cond(ev[0].val)
        while c[0] == 'phi' and False:
            pass
        if c[0] in ('mem', 'phi') and (c[1] if c[0] == 'mem' else c[2])[-1] == ('f', field):
            for v, s in switch_edges(term):
                truth = (v != 0) if v is not None else True
                if truth == neg:
                    out.add((b, s))
    return out


def discr_edges(A, adt_suffix, variant, dropped):
    """edges on which the dropped message is known not to be `variant`"""
    out = set()
    for b in A.blocks():
        term = A.F.blocks[b].term
        if term[0] != 'switch':
            continue
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if ev and ev[0].val[0] == 'discr' and ev[0].val[1] == dropped:
            for v, s in switch_edges(term):
                if v is None and variant not in [x for x, _ in term[3]]:
                    continue
                if v != variant:
                    out.add((b, s))
    return out


def none_edges(A, val):
    """edges on which an Option value is None"""
    out = set()
    for b in A.blocks():
        term = A.F.blocks[b].term
        if term[0] != 'switch':
            continue
        ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
        if not ev:
            continue
        c, neg = norm_cond(ev[0].val)
        es = switch_edges(term)
        vals = [x for x, _ in es if x is not None]
        for x, s in es:
            if c == ('discr', val):
                if x == 0 or x is None and 0 not in vals:
                    out.add((b, s))
            elif c[0] == 'pure' and c[1] in ('is_some', 'is_none') and c[3][0] == val:
                truth = ((x != 0) if x is not None else True) != neg
                if truth == (c[1] == 'is_none'):
                    out.add((b, s))
    return out


def queue_result(ty, ctx):
    n = ctx.M.tname(ty)
    return n.startswith('Result<') and ('TrySendError' in n or 'TryRecvError' in n)


def edges(A, kind):
    c = A.__dict__.setdefault('_rt', {})
    if kind not in c:
        if kind == 'order':
            c[kind] = presence_exempt(A, ('order',)) | presence_exempt(A, ('net', 'order'))
        elif kind == 'sender':
            c[kind] = presence_exempt(A, ('sender',))
        elif kind == 'next':
            c[kind] = presence_exempt(A, ('next',))
        else:
            c[kind] = false_edges(A, 'initialized')
    return c[kind]


def none_value(v):
    return v is not None and v[0] == 'agg' and v[2] == 'None'


def reason(ctx, A, T, e):
    """why this effect is fine, or None"""
    last = e.call.name.split('::')[-1] if e.kind == 'call' else ''
    if e.kind == 'call':
        if last in ('try_send', 'try_recv'):
            return 'lock-free channel; a returned unit is freed in place only when the queue is full'
        a = e.args[0] if e.args else None
        if a and a[0] == 'ref' and a[1][0] == ('P', 1):
            own = owner(ctx, A.selfty, pat_of(a[1]))
            if own in GROW and last in GROWERS:
                return '%s.%s: %s' % (own[0].split('::')[-1], own[1], GROW[own])
            if own == ('net::Net', 'edit_queue') and last in ('clear', 'truncate'):
                return 'the edits have been exchanged with empty ones (C07)'
            if own == ('net::Net', 'order') and last == 'get_or_insert' and e.args[1][0] == 'pure' and e.args[1][1].endswith('::new'):
                return 'an empty vector owns no memory'
        if last == 'at' and 'Texture' in e.call.name:
            return 'user-supplied texture'
    else:
        if none_value(e.val):
            return 'the dropped value is None'
        if e.val is not None and ctx.M.tname(e.extra[0]).startswith('Option<') and only_via(A, e.blk, none_edges(A, e.val)):
            return 'only where the dropped value is None'
        if queue_result(e.extra[0], ctx):
            return 'result of a queue operation; holds a unit only when the queue is full'
    if T in ('Net', 'NetBackend') and only_via(A, e.blk, edges(A, 'order')):
        return 'only while no evaluation order exists; allocate determines the order'
    if T == 'Pluck' and only_via(A, e.blk, edges(A, 'initialized')):
        return 'only while the delay line is not initialized; allocate initializes it'
    if e.kind == 'drop':
        ty = ctx.M.tname(e.extra[0])
        if T == 'Net' and ty.startswith('Box<'):
            return 'a graph without a backend frees a faded-out unit in place'
        if T == 'NetBackend' and only_via(A, e.blk, edges(A, 'sender')):
            return 'only when there is no return channel'
        if T == 'Sequencer' and ty in ('Event', 'Option<Event>') and any(isinstance(x, tuple) and x and x[0] == 'call' and x[2].endswith('::pop') and x[3][0][0] == 'ref' and x[3][0][1][-1] == ('f', 'past') for x in A.W.deps(e.val)):
            return 'a sequencer without a backend frees finished events in place'
        if T == 'SlotBackend':
            if only_via(A, e.blk, edges(A, 'next')):
                return 'only while no next unit is present'
            if ty == 'SlotMessage' and only_via(A, e.blk, discr_edges(A, 'SlotMessage', 1, e.val)):
                return 'a message that carries no update'
    return None


def site(ctx, A, e):
    f = ctx.M.fns.get(e.fn)
    return f.name if f else '?'


def run(ctx, R):
    R.rule('No path through tick, process or set of any component (helpers and closures inlined, calls into std and dependencies followed through the whole call graph) allocates or frees heap memory, takes a lock or performs I/O, except at the listed kinds of sites, each checked for the guard that makes it harmless.')
    E = effects(ctx)
    n = calls = 0
    for tr, m0 in ROOTS:
        for im in ctx.M.impls_by_trait.get(tr, []):
            for m in ([m0] if m0 else list(ctx.M.traits[tr]['items'])):
                if m in ('new',):
                    continue
                A = ctx.method(tr, im, m)
                if A is None:
                    continue
                T = ctx.tyname(im)
                n += 1
                key = '%s::%s' % (T, m)
                R.inst(key, A.at())
                if A.W.incomplete:
                    R.notes.append('analysis of %s is incomplete' % key)
                for e in A.events:
                    if e.kind in ('call', 'ho') and e.call.node:
                        calls += 1
                        eff = E.of(e.call.node)
                        what, node = e.call.name, e.call.node
                    elif e.kind == 'drop':
                        calls += 1
                        k = dropkey(e)
                        eff = E.of(k) if k else set()
                        what, node = 'drop of ' + ctx.M.tname(e.extra[0]), k
                    else:
                        continue
                    if not eff:
                        continue
                    if e.kind == 'ho':
                        eff = {x for x in eff if x in ('alloc', 'io', 'lock')}
                        if not eff:
                            continue
                    r = reason(ctx, A, T, e)
                    if r:
                        R.skip('%s in %s' % (what.split('::')[-1] if e.kind != 'drop' else what, site(ctx, A, e)), r)
                        continue
                    x = sorted(eff)[0]
                    R.bad('%s: %s' % (key, what), '%s: %s::%s can reach %s (%s%s)' % (A.where(e), T, m, x.replace('nomir:', 'an opaque function: '), what,
                          ''.join(' -> ' + p for p in E.path(node, x)[-3:])))
    R.floor('rendering methods', n, 380)
    R.count('calls and drops examined', calls)
