"""C07: live backends: retired units go back, messages are consumed before rendering."""
from ..core import NODE, UNIT, ppath, pterm
from ..prop import presence_exempt, only_via, norm_cond, switch_edges, pattern, opt_strip, mem_pat, absent
from ..propcheck import pat_of
from ..effects import effects, dropkey
from . import c06

ASSUME = ['the message queues are not full (1024 / 2048 entries)', 'a backend always has its return channel (it is created with one)',
          'the frontend of a slot never sends a Return message']

BACKENDS = ('NetBackend', 'SequencerBackend', 'SlotBackend')
HOST = 'sequencer::Sequencer'


def carriers(ctx):
    """drop nodes that can destroy a boxed unit"""
    N = ctx.M.nodes
    has = {k for k, v in N.items() if v.get('k') == 'drop' and v.get('note') == 'dyn' and 'AudioUnit' in k}
    preds = {}
    for k, v in N.items():
        for e in v.get('e', []):
            preds.setdefault(e, []).append(k)
    st = list(has)
    while st:
        x = st.pop()
        for p in preds.get(x, []):
            if p not in has and (p.startswith('drop:') or N[p].get('k') == 'item'):
                has.add(p)
                st.append(p)
    return has


def sw(A, b):
    t = A.F.blocks[b].term
    if t[0] != 'switch':
        return None, None
    ev = [e for e in A.W.bevents.get(b, []) if e.kind == 'switch']
    return (t, ev[0].val) if ev else (None, None)


def is_call(t, last):
    return isinstance(t, tuple) and t and (t[0] == 'pure' and t[1].split('::')[-1] == last or t[0] == 'call' and len(t) > 2 and str(t[2]).split('::')[-1] == last)


def outcome_edges(A, match, empty):
    """edges taken when the value of a matching call is 'empty' (Option None: 0, Result Err: 1)"""
    out = set()
    match0 = match

    def match(t):
        if match0(t):
            return True
        if t[0] == 'phi':       # result handed on through a helper: None | Some(popped)
            ops = A.W.operands(t)
            some = [o for o in ops if o[0] == 'agg' and o[2] == 'Some']
            return bool(some) and all(o[0] == 'agg' and o[2] in ('Some', 'None') or match0(o) for o in ops) and all(
                any(isinstance(x, tuple) and x and match0(x) for x in A.W.deps(o)) for o in some)
        return False
    for b in A.blocks():
        t, v = sw(A, b)
        if t is None:
            continue
        c, neg = norm_cond(v)
        es = switch_edges(t)
        vals = [x for x, _ in es if x is not None]
        if c[0] == 'discr' and match(c[1]):
            for x, s in es:
                if x == empty or (x is None and empty not in vals):
                    out.add((b, s))
        elif c[0] == 'pure' and c[1] in ('is_ok', 'is_err', 'is_some', 'is_none') and match(c[3][0]):
            want = c[1] in ('is_err', 'is_none')
            for x, s in es:
                truth = (x != 0) if x is not None else True
                if (truth != neg) == want:
                    out.add((b, s))
    return out


def own_receiver(t):
    """try_recv on a queue that is a field of the backend itself"""
    if not is_call(t, 'try_recv'):
        return False
    for a in t[3]:
        p = a[1] if a[0] in ('at', 'ref') else None
        if p and p[0] == ('P', 1) and len(pat_of(p)) == 1:
            return True
    return False


def popped(field):
    def f(t):
        if not (isinstance(t, tuple) and t[0] == 'call' and t[2].split('::')[-1] in ('pop', 'pop_back', 'pop_front')):
            return False
        a = t[3][0]
        return a[0] == 'ref' and a[1][-1] == ('f', field)
    return f


def drained_blocks(A, field):
    return {e.blk for e in A.calls() if e.call.name.split('::')[-1] == 'drain' and e.args[0][0] == 'ref' and e.args[0][1][-1] == ('f', field)}


def truth_edges(A, field, want):
    out = set()
    for b in A.blocks():
        t, v = sw(A, b)
        if t is None:
            continue
        c, neg = norm_cond(v)
        p = c[1] if c[0] == 'mem' else c[2] if c[0] == 'phi' else None
        if c[0] == 'pj' and c[2] == ('f', field) or p and p[-1] == ('f', field):
            for x, s in switch_edges(t):
                truth = (x != 0) if x is not None else True
                if (truth != neg) == want:
                    out.add((b, s))
    return out


def payload(W, t, vname, field=None, sub=None):
    """does term t use the payload (of field, subfield) of message variant vname of the received message?"""
    def is_node(x):
        return isinstance(x, tuple) and len(x) == 3 and x[0] == 'pj' and x[2] == ('d', vname) and any(own_receiver(y) for y in W.deps(x[1]) if isinstance(y, tuple) and y)
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or x in seen:
            continue
        seen.add(x)
        if len(x) == 3 and x[0] == 'pj':
            if is_node(x):
                return True                       # the variant as a whole
            if is_node(x[1]):
                if field is None or x[2] == ('f', field):
                    return True
                continue
            if isinstance(x[1], tuple) and len(x[1]) == 3 and x[1][0] == 'pj' and is_node(x[1][1]):
                if field is None or x[1][2] == ('f', field) and (sub is None or x[2] == ('f', sub)):
                    return True
                continue
        if x[0] == 'phi' and len(x) == 3:
            st.extend(W.operands(x))
            continue
        if x[0] in ('gen', 'horet', 'mapped') and W.genbody.get(x[1]):
            st.append(W.genbody[x[1]])
            continue
        st.extend(y for y in x if isinstance(y, tuple))
    return False


def over_edges(A, b, t, v):
    """edges of a comparison `end time < active threshold` on which the edited event is over"""
    thr = lambda z: any(isinstance(x, tuple) and x and (x[0] == 'pj' and x[2] == ('f', 'active_threshold') or x[0] == 'mem' and x[1][-1] == ('f', 'active_threshold')) for x in A.W.deps(z))
    less = v[1] in ('Lt', 'Le')
    if thr(v[2]):
        less = not less
    out = set()
    for x, s in switch_edges(t):
        truth = (x != 0) if x is not None else True
        if truth == less:
            out.add((b, s))
    return out


def messages(ctx, im):
    """variants of the message type received by a backend"""
    for n, t in ctx.M.fields(im['self']):
        if t[0] == 'adt' and t[1].endswith('mpsc::Receiver'):
            m = t[2][0]
            if m[0] == 'adt' and m[1] in ctx.M.adts:
                return m, ctx.M.variants(m)
    return None, []


def run(ctx, R):
    hasu = carriers(ctx)
    impls = {ctx.tyname(im): (tr, im) for tr, im in ctx.node_impls() if ctx.tyname(im) in BACKENDS}
    R.floor('backends', len(impls), 3)
    nd = nr = 0
    R.rule('In every method of the live backends, each drop of a value that can own a unit is the result of a queue operation, a value known to be None, or reachable only where the return channel or the replaced unit is absent.')
    R.rule('tick and process of a backend cannot render before its message queue has been found empty, and every message variant is consumed: on each path that receives it, its payload is stored, applied or handed on.')
    for T, (tr, im) in sorted(impls.items()):
        for m in ctx.M.traits[tr]['items']:
            A = ctx.method(tr, im, m)
            if A is None or m in ('footprint',):
                continue
            for e in A.events:
                if e.kind != 'drop':
                    continue
                k = dropkey(e)
                if not k or k not in hasu:
                    continue
                nd += 1
                key = '%s::%s: drop of %s in %s' % (T, m, ctx.M.tname(e.extra[0]), c06.site(ctx, A, e))
                r = c06.reason(ctx, A, T, e)
                R.inst(key, '%s %s' % (A.where(e), r or ''))
                if not r:
                    R.bad(key, '%s: %s::%s destroys a unit on the audio thread (drop of %s)' % (A.where(e), T, m, ctx.M.tname(e.extra[0])))
        mt, variants = messages(ctx, im)
        if mt is None:
            R.bad('%s messages' % T, '%s has no message queue any more' % T)
            continue
        for m in ('tick', 'process'):
            A = ctx.method(tr, im, m)
            err = outcome_edges(A, own_receiver, 1)
            render = [e for e in A.calls() if e.call.m in ('tick', 'process') and e.call.trait in (NODE, UNIT)]
            key = '%s::%s: messages before rendering' % (T, m)
            R.inst(key, A.at())
            nr += len(render)
            if not err:
                R.bad(key, '%s: %s::%s does not empty its message queue' % (A.at(), T, m))
            else:
                early = [e for e in render if e.blk in A.reach(A.F.entry, removed_edges=err)]
                if early:
                    R.bad(key, '%s: %s::%s can render while messages are waiting' % (A.where(early[0]), T, m))
            # consumption of each variant
            for vi, (vn, fs) in enumerate(variants):
                key = '%s::%s: message %s' % (T, m, vn)
                if vn == 'Return' or (not fs and vn != 'Reset'):
                    continue
                R.inst(key, A.at())
                starts = set()
                heads = set()
                for b in A.blocks():
                    t, v = sw(A, b)
                    if t is None:
                        continue
                    if v[0] == 'discr' and own_receiver(v[1]):
                        heads.add(b)
                    if v[0] == 'discr' and v[1][0] == 'pj' and any(own_receiver(y) for y in A.W.deps(v[1]) if isinstance(y, tuple) and y) and not own_receiver(v[1]) and v[1][2] == ('f', '0') and own_receiver(v[1][1][1] if v[1][1][0] == 'pj' else ()):
                        es = switch_edges(t)
                        vals = [x for x, _ in es if x is not None]
                        for x, s in es:
                            if x == vi or (x is None and vi not in vals):
                                starts.add((b, s))
                starts = {s for b, s in starts if not any(b2 != b and A.dominates(b2, b) for b2, _ in starts)}
                if not starts:
                    R.bad(key, '%s: %s::%s does not look at %s messages' % (A.at(), T, m, vn))
                    continue
                # an edit of an event that is already over needs no action
                exempt = set()
                for b in A.blocks():
                    t, v = sw(A, b)
                    if t is not None and v[0] == 'bin' and v[1] in ('Lt', 'Le', 'Gt', 'Ge') and vn.startswith('Edit') and payload(A.W, v, vn) and any(
                            isinstance(x, tuple) and x and (x[0] == 'pj' and x[2] == ('f', 'active_threshold') or x[0] == 'mem' and x[1][-1] == ('f', 'active_threshold')) for x in A.W.deps(v)):
                        exempt |= over_edges(A, b, t, v)
                parts = []
                for fn_, ft in fs:
                    subs = ctx.M.fields(ft) if ft[0] == 'adt' and ft[1].endswith('::Edit') else []
                    parts += [(fn_, sn) for sn, _ in subs] or [(fn_, None)]
                for fn_, sn in parts or [(None, None)]:
                    sinks = set()
                    for e in A.events:
                        vals = []
                        if e.kind in ('write', 'fill') and e.path[0] == ('P', 1):
                            vals = [e.val] + [x[1] for x in e.path if isinstance(x, tuple) and x[0] == 'i']
                        elif e.kind == 'call' and e.call.m in ('push', 'push_back', 'insert', 'try_send', 'set', 'enqueue', 'push_event'):
                            vals = list(e.args[1:])
                        if vn == 'Reset' and e.kind == 'call' and e.call.m == 'reset' and e.call.trait in (NODE, UNIT):
                            sinks.add(e.blk)
                        if any(payload(A.W, x, vn, fn_, sn) for x in vals):
                            sinks.add(e.blk)
                    r = set()
                    for s in starts:
                        r |= A.reach(s, removed=sinks, removed_edges=exempt)
                    if r & (heads | {A.F.ret}):
                        R.bad(key, '%s: %s::%s can drop %s of a %s message without applying it' % (A.at(), T, m, 'part %s' % (sn or fn_) if fn_ else 'the effect', vn))
    R.floor('drops of units examined', nd, 60)
    R.floor('render calls', nr, 6)
    sequencer_backend(ctx, R, impls)
    net_backend(ctx, R, impls)
    retired_edits(ctx, R)
    frontends(ctx, R)


def sequencer_backend(ctx, R, impls):
    R.rule('The sequencer backend empties the list of finished events after rendering, and all event lists before a reset, unless events are replayed.')
    tr, im = impls.get('SequencerBackend', (None, None))
    if not im:
        return
    for m in ('tick', 'process'):
        A = ctx.method(tr, im, m)
        key = 'SequencerBackend::%s: finished events are sent back' % m
        R.inst(key, A.at())
        rep = truth_edges(A, 'replay_events', True)
        em = outcome_edges(A, popped('past'), 0)
        blk = drained_blocks(A, 'past')
        for e in A.calls():
            if e.call.m == m and e.call.trait == UNIT and e.args[0][0] == 'ref' and e.args[0][1][-1] == ('f', 'sequencer'):
                r = set()
                for s in A.succs(e.blk):
                    r |= A.reach(s, removed=blk, removed_edges=rep | em)
                if A.F.ret in r:
                    R.bad(key, '%s: after rendering, finished events can stay behind and are then destroyed by the next call' % A.where(e))
        sent(ctx, R, A, 'SequencerBackend::' + m)
    A = ctx.method(tr, im, 'reset')
    rep = truth_edges(A, 'replay_events', True)
    for f in ('past', 'ready', 'active'):
        key = 'SequencerBackend::reset: %s events are sent back' % f
        R.inst(key, A.at())
        em = outcome_edges(A, popped(f), 0)
        blk = drained_blocks(A, f)
        r = A.reach(A.F.entry, removed=blk, removed_edges=rep | em)
        hit = [e for e in A.calls() if e.call.m == 'reset' and e.call.trait == UNIT and e.blk in r and e.args[0] != ('ref', (('P', 1),))]
        if hit:
            R.bad(key, '%s: reset can reach the sequencer while `%s` still holds units, which it then destroys' % (A.where(hit[0]), f))
    sent(ctx, R, A, 'SequencerBackend::reset')


def sent(ctx, R, A, name):
    """every popped event is handed to the return queue"""
    for e in A.calls():
        last = e.call.name.split('::')[-1]
        if last == 'pop' and e.args[0][0] == 'ref' and e.args[0][1][-1][1:] and e.args[0][1][-1][1] in ('past', 'ready', 'active'):
            ok = any(x.call.name.split('::')[-1] == 'try_send' and any(
                isinstance(y, tuple) and y and y[0] == 'call' and y[1] == e.call.site for z in x.args[1:] for y in A.W.deps(z)) for x in A.calls())
            key = '%s: events taken from `%s` are sent back' % (name, e.args[0][1][-1][1])
            R.inst(key, A.where(e))
            if not ok:
                R.bad(key, '%s: an event is taken out and not sent back' % A.where(e))


def net_backend(ctx, R, impls):
    R.rule('The graph backend adopts a received graph (migrating units, applying queued edits) and sends the graph it replaced back before it receives the next message.')
    tr, im = impls.get('NetBackend', (None, None))
    if not im:
        return
    for m in ('tick', 'process'):
        A = ctx.method(tr, im, m)
        W = A.W
        writes = [e for e in A.events if e.kind == 'write' and e.path[0] == ('P', 1) and pat_of(e.path) == ('net',) and payload(W, e.val, 'Net')]
        key = 'NetBackend::%s: a received graph becomes the rendered one' % m
        if not R.need(bool(writes), key, A.at()):
            continue
        back = {e.blk for e in A.calls() if e.call.name.split('::')[-1] == 'try_send' and any(
            isinstance(x, tuple) and x and x[0] == 'agg' and x[2] == 'Net' and not is_payload_only(W, x) for x in W.deps(e.args[1]))}
        edits = {e.blk for e in A.calls() if e.call.m == 'clear' and e.args[0][0] == 'ref' and e.args[0][1][-1] == ('f', 'edit_queue')}
        heads = {b for b in A.blocks() if sw(A, b)[0] is not None and sw(A, b)[1][0] == 'discr' and own_receiver(sw(A, b)[1][1])}
        render = {e.blk for e in A.calls() if e.call.m in ('tick', 'process') and e.call.trait in (NODE, UNIT)}
        for what, blocks in (('sends the replaced graph back', back), ('applies the edits of the new graph', edits)):
            key = 'NetBackend::%s: %s' % (m, what)
            R.inst(key, A.at())
            for e in writes:
                if A.reach(e.blk, removed=blocks, removed_edges=presence_exempt(A, ('sender',))) & (heads | render | {A.F.ret}):
                    R.bad(key, '%s: NetBackend::%s does not always do so after taking over a new graph' % (A.where(e), m))
        # migration: units, pending units and fade state come over from the old graph
        for fid in sorted(set(A.F.inlined)):
            f = ctx.M.fns[fid]
            if len(f.inputs) == 2 and all(x[0] == 'ref' and x[1] and x[2] == ('adt', 'net::Net', ()) for x in f.inputs):
                B = ctx.function(fid, selfty=f.inputs[0][2])
                for g in ('unit', 'next', 'latest', 'fade_phase'):
                    key = '%s carries `%s` over' % (f.name, g)
                    R.inst(key, B.at())
                    R.count('migrated fields')
                    if not any(e.kind == 'write' and e.path[0] == ('P', 2) and pat_of(e.path) == ('vertex', '[]', g) and mentions_old(B.W, e.val, g) for e in B.events):
                        R.bad(key, '%s: `%s` of nodes that exist in both graphs is not carried over' % (B.at(), g))


def is_payload_only(W, x):
    return False


def mentions_old(W, v, f):
    for x in W.deps(v):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem' and x[1][0] == ('P', 1) and pat_of(x[1])[-1:] == (f,):
            return True
    return False


def retired_edits(ctx, R):
    R.rule('A unit edit that is exchanged into a graph node leaves no unit behind in the edit record (which the audio thread clears).')
    n = 0
    for f in ctx.M.fns.values():
        if not f.has_body or f.kind not in ('AssocFn', 'Fn'):
            continue
        for i, t in enumerate(f.inputs, 1):
            if i > 1 and t[0] == 'ref' and t[1] and t[2][0] == 'adt' and t[2][1].endswith('NodeEdit'):
                A = ctx.function(f.id, selfty=f.inputs[0][2] if f.inputs[0][0] == 'ref' else None)
                key = '%s: nothing is left in the edit' % f.name
                n += 1
                R.inst(key, A.at())
                wr = [e for e in A.events if e.kind == 'write' and e.path and e.path[0] == ('P', i)]
                done = set()
                for e in wr:
                    p = pat_of(e.path)
                    if p == ('unit',):
                        u = e.val
                    elif p == ():
                        u = A.W.project(e.val, ('f', 'unit'))
                    else:
                        continue
                    ok = c06.none_value(u)
                    if not ok:
                        mp = mem_pat(u)
                        ok = mp and only_via(A, e.blk, presence_exempt(A, mp))
                    if not ok:
                        R.bad(key, '%s: a unit can be left in the edit record (%s), where the audio thread destroys it' % (A.where(e), pterm(u)))
                    done.add(e.blk)
                if A.F.ret in A.reach(A.F.entry, removed=done):
                    R.bad(key, '%s: an edit can stay unapplied' % A.at())
    R.count('edit exchanges', n)


# public methods of the controlling sides: (type, method) -> message variant, arguments that must travel
FRONT = {
    ('sequencer::Sequencer', 'push'): ('Push', (2, 3, 4, 5, 6, 7)),
    ('sequencer::Sequencer', 'push_relative'): ('PushRelative', (2, 3, 4, 5, 6, 7)),
    ('sequencer::Sequencer', 'push_duration'): ('Push', (2, 3, 4, 5, 6, 7)),
    ('sequencer::Sequencer', 'edit'): ('Edit', (2, 3, 4)),
    ('sequencer::Sequencer', 'edit_relative'): ('EditRelative', (2, 3, 4)),
    ('net::Net', 'set'): ('Setting', (2,)),
    ('net::Net', 'commit'): ('Net', ()),
    ('slot::Slot', 'set'): ('Update', (2, 3, 4)),
}


def frontends(ctx, R):
    R.rule('The controlling side sends the message that belongs to each operation, carrying all its arguments, on every path on which there is a backend; without a backend, relative operations add the current time and absolute ones do not.')
    n = 0
    for f in list(ctx.M.fns.values()):
        if not f.has_body or f.kind != 'AssocFn' or not f.inputs or f.inputs[0][0] != 'ref' or f.inputs[0][2][0] != 'adt':
            continue
        m = f.name.split('::')[-1]
        k = (f.inputs[0][2][1], m)
        if k not in FRONT:
            continue
        vn, args = FRONT[k]
        A = ctx.function(f.id, selfty=f.inputs[0][2])
        W = A.W
        n += 1
        key = '%s::%s sends %s' % (k[0].split('::')[-1], m, vn)
        R.inst(key, A.at())
        good = set()
        for e in A.calls():
            if e.call.name.split('::')[-1] != 'try_send':
                continue
            msg = e.args[1]
            deps = W.deps(msg)
            vs = {x[2] for x in deps if isinstance(x, tuple) and len(x) == 5 and x[0] == 'agg' and str(x[1]).split('::')[-1] in ('Message', 'NetMessage', 'SlotMessage')}
            if vs != {vn}:
                R.bad(key, '%s: %s sends %s' % (A.where(e), m, '/'.join(sorted(map(str, vs))) or 'something else'))
                continue
            miss = [a for a in args if ('arg', a) not in deps]
            if miss:
                R.bad(key, '%s: the message does not carry argument %s of %s' % (A.where(e), miss, m))
                continue
            good.add(e.blk)
        ex = presence_exempt(A, ('front',)) if k[0] != 'slot::Slot' else set()
        if A.F.ret in A.reach(A.F.entry, removed=good, removed_edges=ex):
            R.bad(key, '%s: %s can return without sending its message' % (A.at(), m))
        if k[0] == 'sequencer::Sequencer':
            stored = []
            for e in A.events:
                if e.kind == 'call' and e.call.m in ('push', 'insert') and e.args[0][0] == 'ref' and pat_of(e.args[0][1])[-1:] in (('active',), ('ready',), ('edit_map',)):
                    ev = e.args[-1]
                    for g in ('start_time', 'end_time'):
                        if g == 'start_time' and m.startswith('edit'):
                            continue
                        stored.append((e, g, W.project(ev, ('f', g))))
                elif e.kind == 'write' and e.path[-1] in (('f', 'end_time'),) and e.path[0] == ('P', 1):
                    stored.append((e, 'end_time', e.val))
            key2 = '%s::%s time base' % (k[0].split('::')[-1], m)
            R.inst(key2, '%d stored times' % len(stored))
            if not stored:
                R.bad(key2, '%s: %s stores no event times' % (A.at(), m))
            for e, g, v in stored:
                d = W.deps(v)
                t = any(isinstance(x, tuple) and x and x[0] in ('mem', 'phi') and (x[1] if x[0] == 'mem' else x[2])[0] == ('P', 1) and (x[1] if x[0] == 'mem' else x[2])[-1] == ('f', 'time') or
                        isinstance(x, tuple) and len(x) == 3 and x[0] == 'pj' and x[2] == ('f', 'time') for x in d)
                rel = m.endswith('relative')
                if t != rel:
                    R.bad(key2, '%s: %s of a%s event %s the current time' % (A.where(e), g, ' relative' if rel else 'n absolute', 'ignores' if rel else 'depends on'))
        if m == 'commit':
            sends = [e for e in A.calls() if e.call.name.split('::')[-1] == 'try_send']
            al = {e.blk for e in A.calls() if e.call.m == 'allocate' and e.call.trait == UNIT}
            key3 = 'Net::commit preallocates the new version'
            R.inst(key3, A.at())
            for e in sends:
                if e.blk in A.reach(A.F.entry, removed=al) and not inlined_allocate(A, e):
                    R.bad(key3, '%s: a version can be sent without preallocating it' % A.where(e))
            for g in ('unit', 'id', 'fade', 'fade_time'):
                key4 = 'Net::commit sends `%s` of every queued edit' % g
                R.inst(key4, A.at())
                ok = any(e.call.m == 'push' and e.args[1][0] == 'agg' and str(e.args[1][1]).endswith('NodeEdit') and
                         (('edit_queue' in pterm(W.project(e.args[1], ('f', g))) or any(isinstance(x, tuple) and x and x[0] in ('mem', 'phi') and ('f', 'edit_queue') in (x[1] if x[0] == 'mem' else x[2]) for x in W.deps(W.project(e.args[1], ('f', g))))) or g == 'fade' and W.project(e.args[1], ('f', g))[0] == 'phi')
                         for e in A.calls() if len(e.args) > 1)
                if not ok:
                    R.bad(key4, '%s: `%s` of a queued crossfade does not travel with the commit' % (A.at(), g))
    R.floor('operations of the controlling sides', n, 8)


def inlined_allocate(A, e):
    return any('allocate' in x for x in A.F.inlined)
