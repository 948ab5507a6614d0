"""C10: a setting reaches exactly the component it is addressed to, and updates the parameter it names."""
from ..core import An, NODE, UNIT, ppath, pterm
from ..prop import children, norm_cond, switch_edges, strip
from ..propcheck import matches, pat_of
from ..state import self_writes, fieldvals, must_write, related, mems, mutators
from ..terms import strip_at, norm

ASSUME = ['the address list of a setting behaves as a list (tinyvec::ArrayVec)', 'the formula of a derived value is not decided, only that it is recomputed from the new parameter']
SET = ('arg', 2)
DIR, PEEL = 'setting::Setting::direction', 'setting::Setting::peel'
# composites that take no addressed settings
NOADDR = {
    'Feedback2': 'takes no settings', 'Reverb': 'takes no settings', 'Sequencer': 'takes no settings', 'SequencerBackend': 'takes no settings', 'SlotBackend': 'takes no settings',
    'Granular': 'takes no settings', 'AllNest': 'the coefficient of the component itself is set instead',
}
# variant -> field of each payload; a trailing ~ allows clamping; a missing field (None) means only derived state exists
CQ = lambda c, q, g=None: {k: v for k, v in (('Center', [c]), ('CenterQ', [c, q]), ('CenterQGain', [c, q, g])) if None not in v}
PARAMS = {
    'Constant': {'Value': ['output']}, 'Biquad': {'Biquad': ['coefs.a1', 'coefs.a2', 'coefs.b0', 'coefs.b1', 'coefs.b2']},
    'ButterLowpass': {'Center': ['cutoff']}, 'FixedFbBiquad': CQ('params.center', 'params.q', 'params.gain'), 'FixedDirtyBiquad': CQ('params.center', 'params.q', 'params.gain'),
    'FixedSvf': CQ('params.cutoff', 'params.q', 'params.gain'), 'AllNest': {'Coefficient': ['eta']}, 'Envelope': {'Interval': ['interval']}, 'EnvelopeIn': {'Interval': ['interval']},
    'Lowpole': {'Center': ['cutoff']}, 'DCBlock': {'Center': ['cutoff']}, 'Highpole': {'Center': ['cutoff']}, 'Allpole': {'Delay': [None]},
    'Follow': {'Time': ['response_time']}, 'AFollow': {'AttackRelease': ['atime', 'rtime']}, 'Moog': CQ('cutoff', 'q'), 'Rez': CQ('cutoff', 'q'),
    'Mls': {'Seed': ['seed']}, 'Noise': {'Seed': ['seed']}, 'Hold': {'Variability': ['variability']}, 'Sine': {'Phase': ['initial_phase']},
    'Dsf': {'Phase': ['initial_phase'], 'Roughness': ['roughness~']}, 'Ramp': {'Phase': ['initial_phase']}, 'PolySaw': {'Phase': ['initial_phase']},
    'PolySquare': {'Phase': ['initial_phase']}, 'PolyPulse': {'Phase': ['initial_phase']}, 'Panner': {'Pan': [None]}, 'Svf': {'Subsample': ['period~']},
    'WaveSynth': {'Phase': ['initial_phase']},
}
# parameter field -> fields computed from it
DERIVED = {
    'ButterLowpass': {'cutoff': ['biquad.coefs']}, 'Resonator': {'center': ['biquad.coefs'], 'q': ['biquad.coefs']},
    'FixedFbBiquad': {p: ['coefs'] for p in ('params.center', 'params.q', 'params.gain')}, 'FixedDirtyBiquad': {p: ['coefs'] for p in ('params.center', 'params.q', 'params.gain')},
    'FixedSvf': {p: ['coefs'] for p in ('params.cutoff', 'params.q', 'params.gain')}, 'Lowpole': {'cutoff': ['coeff']}, 'DCBlock': {'cutoff': ['coeff']}, 'Highpole': {'cutoff': ['coeff']},
    'FbBiquad': {p: ['coefs'] for p in ('params.center', 'params.q', 'params.gain')}, 'DirtyBiquad': {p: ['coefs'] for p in ('params.center', 'params.q', 'params.gain')},
    'Follow': {'response_time': ['coeff']}, 'AFollow': {'atime': ['acoeff'], 'rtime': ['rcoeff']},
    'Moog': {'cutoff': ['p', 'k', 'rez'], 'q': ['rez']}, 'Rez': {'cutoff': ['f', 'fb'], 'q': ['fb']},
}
# documented input of each parameter of a filter
CHANNEL = {'cutoff': 1, 'center': 1, 'q': 2, 'gain': 3}
ONLY = {'Allpole': {'Delay': [['eta']]}, 'Panner': {'Pan': [['left_weight', 'right_weight']]}}
CALLS = ('tick', 'process', 'reset', 'route', 'ping', 'allocate', 'set_hash', 'set_sample_rate', 'set')


def pat(s):
    return tuple(s.rstrip('~').split('.'))


def setan(ctx, tr, im):
    key = ('c10', im['id'])
    if key not in ctx._cache:
        r = ctx.M.trait_method(tr, 'set', im['trait_args'])
        base = ctx.mkleaf(im['self'])
        leaf = lambda F, fr, fo, fn, args, t: base(F, fr, fo, fn, args, t) or (fo.get('rname') or fo['name']) in (DIR, PEEL)
        ctx._cache[key] = An(ctx, r[0], r[1], im['self'], leaf)
    return ctx._cache[key]


def is_call(t, name):
    t = strip_at(t)
    if t[0] == 'pure' and t[1] == name:
        return t[3]
    if t[0] == 'call' and len(t) > 2 and t[2] == name:
        return t[3]
    return None


def is_setting(A, t):
    """the setting given to the method: by value or by reference"""
    t = strip_at(t)
    if t == SET:
        return True
    if t[0] == 'deref' or t[0] == 'mem':
        return t == ('mem', (('L', 0, 2),), 0) or t[-1] == SET
    if t[0] == 'ref' and t[1] == (('L', 0, 2),):
        return True
    if t[0] == 'ref' and len(t[1]) == 1:
        return None
    return False


def find_dir(A):
    """terms that are the direction of the setting"""
    out = set()
    for e in A.calls(lambda e: (e.call.rname or e.call.name) == DIR):
        out.add(e.call.site)
    return out


def has_dir(A, t):
    return any(isinstance(x, tuple) and len(x) > 1 and x[0] in ('pure', 'call') and DIR in x for x in A.W.deps(t))


def dir_edges(A, names):
    """(variant, edge) of every switch on the direction of the setting"""
    out = {}
    for e in A.events:
        if e.kind != 'switch':
            continue
        c, neg = norm_cond(e.val)
        if c[0] == 'discr' and has_dir(A, c[1]) and is_dir(c[1]):
            es = switch_edges(A.F.blocks[e.blk].term)
            got = {v for v, _ in es if v is not None}
            for v, b in es:
                x = out.setdefault((e.blk, b), set())
                x |= {names[k] for k in names if k not in got} if v is None else {names.get(v, '?')}
    return [(a, b, vs) for (a, b), vs in out.items()]


def is_dir(t):
    t = strip_at(t)
    return t[0] in ('pure', 'call') and DIR in t


def payload(t):
    """(variant, field) of the direction"""
    t = strip_at(t)
    if t[0] == 'pj' and t[2][0] == 'f' and strip_at(t[1])[0] == 'pj' and strip_at(t[1])[2][0] == 'd' and is_dir(strip_at(t[1])[1]):
        return strip_at(t[1])[2][1], t[2][1]
    return None


def setting_arg(A, t):
    """'same' | number of address steps removed | None (not recognised)"""
    n = 0
    t = strip_at(t)
    while True:
        a = is_call(t, PEEL)
        if a is None:
            break
        n += 1
        t = strip_at(a[0])
    return n if t == SET or t == ('mem', (('L', 0, 2),), 0) else None


def addressing(ctx, R):
    M = ctx.M
    names = {i: v for i, (v, _) in enumerate(M.variants(('adt', 'setting::Address', ())))}
    n = 0
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        ch = children(ctx, im)
        struct = [c for c in ch if c.kind in ('param', 'dyn')] or ([c for c in ch if T in ('NetBackend',)])
        if not struct or T in NOADDR:
            if struct:
                R.skip(T, NOADDR[T])
            continue
        if T == 'Net':
            struct = [c for c in struct if c.pat == ('vertex', '[]', 'unit')]
            if not struct:
                R.skip(T, 'the nodes of a graph are not recognised')
                continue
        A = setan(ctx, tr, im)
        key = T + '::set'
        n += 1
        R.inst(key, A.at())
        evs = [e for e in A.calls() if e.call.m == 'set' and e.call.trait in (NODE, UNIT) and e.args and e.args[0][0] == 'ref']
        mine = [(e, c) for e in evs for c in struct if matches(ctx, c, e.args[0][1])]
        other = [e for e in evs if not any(matches(ctx, c, e.args[0][1]) for c in struct)]
        edges = dir_edges(A, names)
        ok_unknown = A.W.incomplete or A.F.truncated or other

        def bad(text, e=None):
            R.bad(key, '%s: %s' % (A.where(e) if e else A.at(), text))

        def reaches(evset, start, removed_edges=()):
            r = A.reach(start, removed={e.blk for e in evset}, removed_edges=set(removed_edges))
            return A.F.ret not in r

        if len(struct) == 1 and '[]' not in struct[0].pat:
            c = struct[0]
            # settings that arrive in messages are not the one given to this call
            given = [(e, x) for e, x in mine if setting_arg(A, e.args[1]) is not None or e.args[1][0] in ('arg', 'pure', 'agg', 'ovr')]
            if given:
                mine = given
            if not mine:
                if not ok_unknown:
                    bad('%s::set does not pass the setting on to `%s`' % (T, '.'.join(c.pat)))
                continue
            for e, _ in mine:
                k = setting_arg(A, e.args[1])
                if k is None:
                    if e.args[1] and e.args[1][0] in ('arg', 'pure', 'agg', 'ovr'):
                        bad('%s::set passes a changed setting on to `%s`: %s' % (T, '.'.join(c.pat), pterm(e.args[1])[:80]), e)
                    else:
                        R.skip(key + ' value', 'setting not recognised')
                elif k:
                    bad('%s::set removes an address step although it has a single inner component' % T, e)
            if not reaches([e for e, _ in mine], A.F.entry):
                bad('%s::set can return without passing the setting on to `%s`' % (T, '.'.join(c.pat)))
            if len(mine) > 1 and any(b.blk in A.reach(s) for a, _ in mine for b, _ in mine for s in A.succs(a.blk)):
                bad('%s::set passes the setting on more than once' % T)
            continue
        # addressed composites
        if len(struct) == 1:
            want = [({'Index': 'Index', 'Net': 'Node'}['Net' if T == 'Net' else 'Index'], struct[0])]
        elif len(struct) == 2 and all('[]' not in c.pat for c in struct):
            want = [('Left', struct[0]), ('Right', struct[1])]
        else:
            R.skip(key, 'composite of unknown shape')
            continue
        if not edges:
            if mine and not ok_unknown and all(setting_arg(A, e.args[1]) is not None for e, _ in mine) and not any(DIR == (x.call.rname or x.call.name) for x in A.calls()):
                bad('%s::set passes the setting on without looking at its address' % T)
            elif not evs and not A.W.incomplete:
                bad('%s::set passes the setting on to none of its components' % T)
            else:
                R.skip(key, 'the choice by address is not recognised')
            continue
        front = set()
        if T == 'Net':
            # a graph with a back end sends the setting over
            for e in A.events:
                if e.kind == 'switch':
                    cd, neg = norm_cond(e.val)
                    for v, b in switch_edges(A.F.blocks[e.blk].term):
                        sends = [x for x in A.calls() if x.call.m == 'try_send' and x.blk in A.reach(b)]
                        if any('front' in ppath(q) for q in [x[1] for x in A.W.deps(e.val) if isinstance(x, tuple) and x and x[0] == 'mem']) and sends:
                            if not any(m.blk in A.reach(b) for m, _ in mine):
                                front.add((e.blk, b))
                                for s in sends:
                                    v2 = s.args[1]
                                    if v2[0] == 'agg' and v2[2] == 'Setting':
                                        if setting_arg(A, v2[4][0][1]) not in (0,):
                                            bad('the setting sent to the back end is not the given one', s)
                                if A.F.ret in A.reach(b, removed={s.blk for s in sends}):
                                    bad('a graph with a back end can drop the setting')
        for name, c in want:
            sel = {(a, b) for a, b, vs in edges if name in vs}
            if not sel:
                bad('%s::set ignores the address `%s`' % (T, name))
                continue
            got = [e for e, x in mine if x is c]
            if not got:
                if not other:
                    bad('%s::set never passes a setting on to `%s`' % (T, '.'.join(c.pat)))
                continue
            for e in got:
                # only under this address
                r = A.reach(A.F.entry, removed_edges={(a, b) for a, b, vs in edges if vs <= {name}})
                if e.blk in r:
                    bad('%s::set passes a setting to `%s` that is not addressed to it (%s)' % (T, '.'.join(c.pat), name), e)
                k = setting_arg(A, e.args[1])
                if k is None:
                    if e.args[1][0] in ('arg', 'pure', 'agg', 'ovr'):
                        bad('%s::set passes a changed setting on: %s' % (T, pterm(e.args[1])[:80]), e)
                    else:
                        R.skip(key + ' value', 'setting not recognised')
                elif k != 1:
                    bad('%s::set removes %d address steps instead of one' % (T, k), e)
                if '[]' in c.pat:
                    ix = [x[1] for x in e.args[0][1] if isinstance(x, tuple) and x[0] == 'i']
                    if len(ix) == 1:
                        t = strip_at(ix[0])
                        if T == 'Net':
                            good = t[0] == 'mem' and len(t[1]) == 3 and t[1][1] == ('f', 'node_index') and t[1][2][0] == 'i' and payload(t[1][2][1]) == ('Node', '0')
                        else:
                            good = payload(t) == ('Index', '0')
                        if not good:
                            if has_dir(A, t) or t[0] == 'c':
                                bad('%s::set addresses component %s instead of the indexed one' % (T, pterm(t)[:80]), e)
                            else:
                                R.skip(key + ' index', 'index not recognised: %s' % pterm(t)[:60])
            # every setting with this address gets there (unless no such component exists)
            ex = set(front) | {(p, q) for p, q, vs in edges if name not in vs}
            for e in A.events:
                if e.kind == 'switch':
                    cd, neg = norm_cond(e.val)
                    if has_dir(A, cd) and not is_dir_discr(cd):
                        # existence test of the addressed component
                        for v, y in switch_edges(A.F.blocks[e.blk].term):
                            if not any(g.blk in A.reach(y) for g in got):
                                ex.add((e.blk, y))
            if A.F.ret in A.reach(A.F.entry, removed={e.blk for e in got}, removed_edges=ex):
                bad('%s::set can lose a setting addressed to `%s`' % (T, '.'.join(c.pat)))
    R.floor('composites', n, 24)


def is_dir_discr(c):
    return c[0] == 'discr' and is_dir(c[1])


def camel(s):
    return ''.join(x.capitalize() for x in s.split('_'))


def api(ctx, R):
    """Setting constructors, address steps and accessors"""
    M = ctx.M
    vs = {v: fs for v, fs in M.variants(('adt', 'setting::Parameter', ()))}
    av = {v: fs for v, fs in M.variants(('adt', 'setting::Address', ()))}
    n = 0
    for f in M.fns.values():
        if not f.name.startswith('setting::Setting::') or not f.has_body:
            continue
        s = f.name.split('::')[-1]
        A = ctx.function(f.id, leaf=None)
        ret = [e for e in A.events if e.kind == 'return']
        if len(ret) != 1:
            continue
        v = strip_at(ret[0].val)
        key = 'Setting::' + s
        if camel(s) in vs and v[0] == 'agg' and v[1] == 'setting::Setting':
            n += 1
            R.inst(key, A.at())
            p = strip_at(dict(v[4])['parameter'])
            if p[0] != 'agg':
                R.skip(key, 'parameter not recognised')
                continue
            if p[2] != camel(s):
                R.bad(key, '%s: Setting::%s makes a %s parameter' % (A.at(), s, p[2]))
            elif [strip(strip_at(x[1])) for x in p[4]] != [('arg', i + 1) for i in range(len(p[4]))]:
                R.bad(key, '%s: Setting::%s does not hold its arguments in order: %s' % (A.at(), s, pterm(p)))
            a = strip_at(dict(v[4])['address'])
            if not (a[0] in ('pure', 'call') and not a[-1] or a[0] == 'agg'):
                R.skip(key + ' address', 'initial address not recognised: %s' % pterm(a)[:60])
        elif camel(s) in av and s != 'null' and f.inputs and f.inputs[0] == ('adt', 'setting::Setting', ()):
            n += 1
            R.inst(key, A.at())
            ps = [e for e in A.calls() if e.call.m in ('push', 'insert', 'try_push') and e.args[0][0] == 'ref' and e.args[0][1][-1] == ('f', 'address')]
            if len(ps) != 1:
                if not any(e.extra for e in A.calls()):
                    R.bad(key, '%s: Setting::%s does not add an address step' % (A.at(), s))
                else:
                    R.skip(key, 'address step not recognised')
                continue
            x = strip_at(ps[0].args[-1])
            if ps[0].call.m == 'insert':
                R.bad(key, '%s: Setting::%s puts its address step in front of earlier ones' % (A.where(ps[0]), s))
            if x[0] == 'agg' and (x[2] != camel(s) or [strip_at(y[1]) for y in x[4]] != [('arg', i + 2) for i in range(len(x[4]))]):
                R.bad(key, '%s: Setting::%s adds the address step %s' % (A.where(ps[0]), s, pterm(x)))
            if not (v == ('arg', 1) or v[0] == 'ovr' and strip_at(v[1]) == ('arg', 1) and [r[0] for r in v[2]] == [(('f', 'address'),)]):
                R.skip(key + ' result', 'result not recognised')
            if A.F.ret in A.reach(A.F.entry, removed={ps[0].blk}):
                R.bad(key, '%s: Setting::%s can return without adding the address step' % (A.at(), s))
        elif s == 'parameter':
            n += 1
            R.inst(key, A.at())
            if v[0] == 'ref' and v[1] != (('P', 1), ('f', 'parameter')):
                R.bad(key, '%s: Setting::parameter returns something else' % A.at())
        elif s == 'peel':
            n += 1
            R.inst(key, A.at())
            rm = [e for e in A.calls() if e.call.m in ('remove', 'pop', 'clear', 'drain', 'truncate', 'swap_remove', 'pop_front') and e.args[0][0] == 'ref' and e.args[0][1][-1] == ('f', 'address')]
            if not rm:
                if not any(e.extra for e in A.calls()):
                    R.bad(key, '%s: Setting::peel does not remove an address step' % A.at())
                else:
                    R.skip(key, 'removal not recognised')
            for e in rm:
                if e.call.m == 'remove' and strip_at(e.args[1]) == ('c', 0):
                    continue
                if e.call.m in ('remove', 'swap_remove', 'pop', 'clear', 'truncate'):
                    R.bad(key, '%s: Setting::peel must remove the first address step and keep the order of the others, not `%s`' % (A.where(e), e.call.m))
            if len([e for e in rm if e.call.m == 'remove']) > 1:
                R.bad(key, '%s: Setting::peel removes more than one address step' % A.at())
            if rm and all(e.call.m == 'remove' for e in rm):
                ex = set()
                for e in A.events:
                    if e.kind == 'switch':
                        for w, b in switch_edges(A.F.blocks[e.blk].term):
                            if empty_edge(e.val, w):
                                ex.add((e.blk, b))
                if A.F.ret in A.reach(A.F.entry, removed={e.blk for e in rm}, removed_edges=ex):
                    R.bad(key, '%s: Setting::peel can keep the first address step of a longer address' % A.at())
        elif s == 'direction':
            n += 1
            R.inst(key, A.at())
            ix = set()
            for e in A.events:
                t = e.val if e.kind == 'switch' else None
                if t is not None:
                    for x in A.W.deps(t):
                        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem' and len(x[1]) > 2 and x[1][1] == ('f', 'address') and x[1][2][0] == 'i':
                            ix.add(strip_at(x[1][2][1]))
            if ix and ix != {('c', 0)}:
                R.bad(key, '%s: Setting::direction reads address step %s instead of the first' % (A.at(), ', '.join(pterm(x) for x in ix)))
    R.floor('setting operations', n, 20)


def empty_edge(c, v):
    """the edge taken when a list is empty"""
    c, neg = norm_cond(c)
    truth = (v is None) if v in (0, None) else bool(v)
    if neg:
        truth = not truth
    if c[0] == 'bin' and c[1] in ('Eq', 'Ne', 'Gt', 'Lt'):
        ops = [strip_at(x) for x in c[2:4]]
        if ('c', 0) in ops and any(x[0] == 'len' for x in ops):
            return truth == (c[1] == 'Eq')
    if c[0] == 'pure' and c[1].endswith('is_empty'):
        return truth
    return False


def unwrap(t):
    """value without conversions, Some and splat"""
    while True:
        t = strip(strip_at(t))
        if t[0] == 'agg' and t[2] == 'Some':
            t = t[4][0][1]
        elif t[0] == 'pure' and t[1].split('::')[-1] in ('splat',) and len(t[3]) == 1:
            t = t[3][0]
        else:
            return t


def variant_payload(t):
    """(variant, index) if the term is one payload of the parameter"""
    t = strip_at(t)
    pr = []
    while t[0] == 'pj':
        pr.append(t[2])
        t = strip_at(t[1])
    if t[0] == 'mem':
        p = tuple(t[1]) + tuple(reversed(pr))
        if p[:1] == (('L', 0, 2),):
            pr = list(reversed(p[1:]))
        else:
            return None
    elif t != SET:
        return None
    pr = [x for x in reversed(pr) if x != '*']
    if len(pr) == 3 and pr[0] == ('f', 'parameter') and pr[1][0] == 'd' and pr[2][0] == 'f':
        return pr[1][1], int(pr[2][1])
    return None


def is_param(t):
    t = strip_at(t)
    if t[0] == 'pj' and t[2] == ('f', 'parameter'):
        t = strip_at(t[1])
        return t == SET
    if t[0] == 'mem':
        return tuple(t[1]) == (('L', 0, 2), ('f', 'parameter'))
    return False


def payloads(A, t):
    return {p for p in (variant_payload(x) for x in A.W.deps(t) if isinstance(x, tuple) and x and x[0] in ('pj', 'mem')) if p}


def exists(ctx, t, p):
    for x in p:
        fs = dict(ctx.M.fields(t)) if t[0] == 'adt' and t[1] in ctx.M.adts and ctx.M.adts[t[1]]['kind'] == 'Struct' else {}
        if x not in fs:
            return False
        t = fs[x]
    return True


def split_writes(ws):
    """writes of whole structures as writes of their fields"""
    out = []
    for w in ws:
        fv = list(fieldvals(w.val)) if w.kind == 'write' else [((), w.val)]
        if len(fv) == 1 and fv[0][0] == ():
            out.append((w.pat, w.val, w))
        else:
            out.append((w.pat, w.val, w))
            for p, v in fv:
                out.append((w.pat + p, v, w))
    return out


def must_from(A, start, blocks, ex=()):
    return A.F.ret not in A.reach(start, removed=blocks, removed_edges=set(ex))


def parameters(ctx, R):
    M = ctx.M
    names = {i: v for i, (v, _) in enumerate(M.variants(('adt', 'setting::Parameter', ())))}
    n = 0
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        if T not in PARAMS:
            continue
        A = ctx.method(tr, im, 'set')
        ws = split_writes(self_writes(A))
        em = {}
        for e in A.events:
            if e.kind == 'switch' and e.val[0] == 'discr' and is_param(e.val[1]):
                es = switch_edges(A.F.blocks[e.blk].term)
                got = {v for v, _ in es if v is not None}
                for v, b in es:
                    x = em.setdefault((e.blk, b), set())
                    x |= {names[v]} if v in names else {y for k, y in names.items() if k not in got}
        edges = [(a, b, vs) for (a, b), vs in em.items()]
        unknown = A.W.incomplete or A.F.truncated
        fields = {f for row in PARAMS[T].values() for f in row if f}
        for variant, row in sorted(PARAMS[T].items()):
            key = '%s::set(%s)' % (T, variant)
            n += 1
            R.inst(key, A.at())
            sel = [(a, b) for a, b, vs in edges if variant in vs]
            offe = {(a, b) for a, b, vs in edges if variant not in vs}
            if not edges:
                if not ws and not unknown:
                    R.bad(key, '%s: %s no longer reacts to the setting %s' % (A.at(), T, variant))
                else:
                    R.skip(key, 'the choice by parameter is not recognised')
                continue
            region = A.reach(A.F.entry, removed_edges=offe)
            mine = [(p, v, w) for p, v, w in ws if w.ev.blk in region]
            dv = ONLY.get(T, {}).get(variant, [[] for _ in row])
            for k, f in enumerate(row):
                want = (variant, k)
                if f is not None and exists(ctx, im['self'], pat(f)):
                    p = pat(f)
                    hit = [(v, w) for q, v, w in mine if q == p and w.kind in ('write', 'fill')]
                    full = [(v, w) for v, w in hit if payloads(A, v)]
                    if not hit:
                        if not any(related(q, p) for q, v, w in mine if w.kind == 'opaque'):
                            R.bad(key, '%s: %s::set does not store the %s parameter in `%s`' % (A.at(), T, variant, f.rstrip('~')))
                        continue
                    wrong = False
                    for v, w in hit:
                        u = unwrap(v)
                        vp = variant_payload(u)
                        if vp is not None and vp != want and not (vp[0] != variant and vp[1] == k):
                            R.bad(key, '%s: %s::set stores value %d of the setting %s in `%s`' % (A.where(w.ev), T, vp[1], vp[0], f.rstrip('~')))
                            wrong = True
                        elif vp is None:
                            got = payloads(A, v)
                            if u[0] in ('bin', 'un', 'c') and not f.endswith('~') or (got and want not in got and u[0] != 'phi'):
                                R.bad(key, '%s: %s::set does not store the given value in `%s` but %s' % (A.where(w.ev), T, f.rstrip('~'), pterm(v)[:80]))
                                wrong = True
                    if not wrong and not must_from(A, A.F.entry, {w.ev.blk for v, w in hit}, offe):
                        R.bad(key, '%s: %s::set can return without storing the setting %s in `%s`' % (A.where(hit[0][1].ev), T, variant, f.rstrip('~')))
                ds = (DERIVED.get(T, {}).get(f.rstrip('~'), []) if f else []) + (dv[k] if k < len(dv) else [])
                for g in ds:
                    if not exists(ctx, im['self'], pat(g)):
                        continue
                    hit = [(v, w) for q, v, w in mine if related(q, pat(g)) and (want in payloads(A, v) or w.kind in ('opaque', 'child') and want in payloads(A, w.val))]
                    if any(related(q, pat(g)) and any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem' and x[1] and isinstance(x[1][0], tuple) and x[1][0][0] == 'D' for x in A.W.deps(v)) for q, v, w in mine):
                        R.skip(key + ' ' + g, 'computed from a value that is not recognised')
                        continue
                    if not hit or not must_from(A, A.F.entry, {w.ev.blk for v, w in hit}, offe):
                        R.bad(key, '%s: %s::set(%s) does not recompute `%s` from the new value on every path' % (A.at(), T, variant, g))
            # parameters of other kinds are left alone
            for f in fields - {x for x in row if x}:
                p = pat(f)
                for q, v, w in mine:
                    if q == p and w.kind == 'write':
                        u = unwrap(v)
                        if u[0] == 'mem' and u[1][0] == ('P', 1):
                            continue
                        if u[0] == 'phi':
                            continue
                        R.bad(key, '%s: %s::set(%s) also changes `%s`' % (A.where(w.ev), T, variant, f.rstrip('~')))
    R.floor('handled settings', n, 38)
    # the bank of biquads addresses one lane
    for tr, im in ctx.node_impls():
        if ctx.tyname(im) != 'BiquadBank':
            continue
        A = setan(ctx, tr, im)
        key = 'BiquadBank::set'
        R.inst(key, A.at())
        got = {}
        for e in A.calls():
            if e.extra and e.args and e.args[0][0] == 'ref' and e.args[0][1][0] == ('P', 1) and len(e.args) == 3 and e.call.m == 'set':
                got.setdefault(e.args[0][1][-1], []).append(e)
        for k, f in enumerate(('a1', 'a2', 'b0', 'b1', 'b2')):
            es = got.get(('f', f))
            if not es:
                if got:
                    R.bad(key, '%s: BiquadBank::set does not update coefficient %s' % (A.at(), f))
                continue
            for e in es:
                vp = variant_payload(unwrap(e.args[2]))
                if vp is not None and vp != ('Biquad', k):
                    R.bad(key, '%s: BiquadBank::set stores value %d of the setting in %s' % (A.where(e), vp[1], f))
                ip = payload(e.args[1])
                if ip != ('Index', '0') and (has_dir(A, e.args[1]) or strip_at(e.args[1])[0] == 'c'):
                    R.bad(key, '%s: BiquadBank::set addresses lane %s instead of the indexed one' % (A.where(e), pterm(e.args[1])[:60]))
        if not got:
            R.skip(key, 'lane updates not recognised')


def setters(ctx, R):
    """methods that change a parameter recompute what depends on it"""
    n = 0
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        if T not in DERIVED:
            continue
        t = im['self']
        for f in mutators(ctx, im):
            s = f.name.split('::')[-1]
            if s in CALLS or ctx.internal(f):
                continue
            A = ctx.function(f.id, selfty=t)
            ws = split_writes(self_writes(A))
            for p, gs in DERIVED[T].items():
                hit = [(v, w) for q, v, w in ws if q == pat(p) and w.kind == 'write' and unwrap(v)[0] != 'mem']
                if not hit:
                    continue
                for g in gs:
                    if not exists(ctx, t, pat(g)):
                        continue
                    key = '%s::%s updates %s' % (T, s, g)
                    n += 1
                    R.inst(key, A.at())
                    src = {x for v, w in hit for x in A.W.deps(v) if isinstance(x, tuple) and x and x[0] == 'arg'}
                    up = [w for q, v, w in ws if related(q, pat(g)) and (src & set(A.W.deps(w.val)) or w.kind in ('opaque', 'child') and pat(p) in mems(A.W, w.val))]
                    if not up:
                        R.bad(key, '%s: %s::%s changes `%s` but does not recompute `%s` from it' % (A.at(), T, s, p, g))
                        continue
                    for v, w in hit:
                        after = [u for u in up]
                        if A.F.ret in A.reach(A.F.entry, removed={u.ev.blk for u in after}) and A.F.ret in A.reach(w.ev.blk, removed={u.ev.blk for u in after}) and w.ev.blk in A.reach(A.F.entry, removed={u.ev.blk for u in after}):
                            R.bad(key, '%s: %s::%s can return with `%s` changed and `%s` not recomputed' % (A.where(w.ev), T, s, p, g))
    R.floor('setter obligations', n, 25)
    # response of the filter modes
    FIELD = {'update_q': ('q',), 'update_gain': ('gain',), 'update_frequency': ('cutoff', 'sample_rate')}
    for trait in ('svf::SvfMode',):
        for im in ctx.M.impls_by_trait.get(trait, []):
            T = ctx.tyname(im)
            U = ctx.method(trait, im, 'update')
            if U is None:
                continue
            base = pdeps(U)
            for m, fs in FIELD.items():
                A = ctx.method(trait, im, m)
                if A is None:
                    continue
                need = [x for x in fs if x in base]
                if not need:
                    continue
                key = '%s::%s' % (T, m)
                n += 1
                R.inst(key, A.at())
                got = pdeps(A)
                for x in need:
                    if x not in got and not opaque_coefs(A):
                        R.bad(key, '%s: the coefficients of %s depend on `%s` but %s does not recompute them' % (A.at(), T, x, m))
                bl = {e.blk for e in A.events if e.kind in ('write', 'fill') and e.path and e.path[0] == ('P', 3)}
                if bl and A.F.ret in A.reach(A.F.entry, removed=bl):
                    R.bad(key, '%s: %s of %s can leave the coefficients as they are' % (A.at(), m, T))


def opaque_coefs(A):
    return any(e.extra and any(p[0] == ('P', 3) for i, p in A.W.mutable_args(e.call, e.args)) for e in A.calls())


def pdeps(A):
    """fields of the parameter structure the written coefficients depend on"""
    out = set()
    for e in A.events:
        if e.kind in ('write', 'fill') and e.path and e.path[0] == ('P', 3):
            for x in A.W.deps(e.val):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem' and x[1][0] == ('P', 2) and len(x[1]) > 1:
                    out.add(x[1][1][1])
    return out


def input_of(t, roots):
    """index of the input channel a value was read from"""
    t = unwrap(t)
    if t[0] == 'mem' and t[1][0] in roots and len(t[1]) == 2 and t[1][1][0] == 'i':
        c = strip_at(t[1][1][1])
        return c
    return None


def cached(ctx, R):
    """a parameter taken from an input is compared with the stored one before the update is skipped"""
    n = 0
    todo = [(im, ctx.tyname(im) + '::tick', ctx.method(tr, im, 'tick'), ('P', 1), (('P', 2),)) for tr, im in ctx.node_impls(units=False)]
    todo += [(im, ctx.tyname(im) + '::update_inputs', ctx.method('svf::SvfMode', im, 'update_inputs'), ('P', 3), (('P', 2),)) for im in ctx.M.impls_by_trait.get('svf::SvfMode', [])]
    for im, name, A, root, roots in todo:
        if A is None:
            continue
        W = A.W
        groups = {}
        for e in A.events:
            if e.kind == 'write' and e.path and e.path[0] == root and len(e.path) > 1:
                c = input_of(e.val, roots)
                if c is not None:
                    groups.setdefault((e.blk, norm(e.path)), (e, c))
        if not groups:
            continue
        sw = [e for e in A.events if e.kind == 'switch']

        def mentions(t, path, ch):
            d = [x for x in W.deps(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem']
            return any(norm(x[1]) == path for x in d), any(x[1][0] in roots and len(x[1]) == 2 and strip_at(x[1][1][1]) == ch for x in d if x[1][1:] and isinstance(x[1][1], tuple) and x[1][1][0] == 'i')

        # the guards: conditions that compare some stored parameter with its input
        guard = {}
        for (blk, path), (e, ch) in groups.items():
            for s in sw:
                a, b = mentions(s.val, path, ch)
                if a and b and A.dominates(first(A, s, groups), blk):
                    guard.setdefault(blk, set()).add(s.blk)
        # what a guard compares is what the guarded update stores
        for blk, ss in guard.items():
            for s in sw:
                if s.blk not in ss and not any(s.blk in A.reach(q) and blk in A.reach(s.blk) for q in ss):
                    continue
                for x in W.deps(s.val):
                    if isinstance(x, tuple) and len(x) == 4 and x[0] == 'bin' and x[1] in ('Eq', 'Ne', 'Sub'):
                        for a, b in ((x[2], x[3]), (x[3], x[2])):
                            ch, m = input_of(a, roots), unwrap(b)
                            if ch is None or m[0] != 'mem' or m[1][0] != root:
                                continue
                            p = norm(m[1])
                            ws = [z for z in A.events if z.kind in ('write', 'fill') and z.path and norm(z.path)[:len(p)] == p[:len(norm(z.path))] and same_region(A, blk, z.blk)]
                            if not ws and not any(z.extra and any(norm(q)[:len(p)] == p[:len(norm(q))] for _, q in W.mutable_args(z.call, z.args)) and z.call.trait is None for z in A.calls()):
                                R.bad('%s: input %s' % (name, pterm(ch)), '%s: input %s is compared with `%s` but never stored there' % (A.where(s), pterm(ch), ppath(p)))
        for (blk, path), (e, ch) in sorted(groups.items(), key=str):
            gs = [b for b in guard if b == blk or same_region(A, b, blk)]
            if not gs:
                continue
            key = '%s: input %s' % (name, pterm(ch))
            n += 1
            R.inst(key, A.where(e))
            f = path[-1][1] if path[-1][0] == 'f' else None
            if f in CHANNEL and ch != ('c', CHANNEL[f]):
                R.bad(key, '%s: `%s` is taken from input %s instead of input %d' % (A.where(e), ppath(path), pterm(ch), CHANNEL[f]))
            equal, seen = set(), False
            # a plain order comparison tells only one of the two ways to differ
            order = {}
            for s in sw:
                c, neg = norm_cond(s.val)
                if c[0] == 'bin' and c[1] in ('Gt', 'Lt', 'Ge', 'Le'):
                    for x, y, flip in ((c[2], c[3], False), (c[3], c[2], True)):
                        m = unwrap(y)
                        if input_of(x, roots) == ch and m[0] == 'mem' and norm(m[1]) == path:
                            order[s.blk] = (c[1][0] == 'G') != flip
            for s in sw:
                a, b = mentions(s.val, path, ch)
                if not (a and b):
                    continue
                c, neg = norm_cond(s.val)
                if s.blk in order and len(set(order.values())) == 1:
                    seen = True
                    continue
                if c[0] != 'bin' or c[1] not in ('Eq', 'Ne', 'Gt', 'Lt', 'Ge', 'Le'):
                    continue
                seen = True
                for v, y in switch_edges(A.F.blocks[s.blk].term):
                    truth = ((v is None) if v in (0, None) else bool(v)) != neg
                    if c[1] in ('Eq', 'Ne'):
                        if truth == (c[1] == 'Eq'):
                            equal.add((s.blk, y))
                    else:
                        # a threshold: the side that leads to the update stands for a difference
                        if blk not in A.reach(y, removed={s.blk}):
                            equal.add((s.blk, y))
            if not seen:
                R.bad(key, '%s: the update of `%s` from input %s is skipped on a condition that does not compare the two' % (A.where(e), ppath(path), pterm(ch)))
                continue
            ex = set(equal)
            for s in sw:
                if not any(isinstance(x, tuple) and x and x[0] in ('mem', 'arg', 'phi') for x in W.deps(s.val)):
                    ys = [y for v, y in switch_edges(A.F.blocks[s.blk].term)]
                    if any(blk in A.reach(y) for y in ys):
                        ex |= {(s.blk, y) for y in ys if blk not in A.reach(y)}
            if A.F.ret in A.reach(A.F.entry, removed={blk}, removed_edges=ex):
                R.bad(key, '%s: `%s` is not updated although input %s differs from it, if other inputs are unchanged' % (A.where(e), ppath(path), pterm(ch)))
            # what is computed from the parameter
            T = ctx.tyname(im)
            if root == ('P', 1):
                gs = [(('P', 1), pat(g)) for g in DERIVED.get(T, {}).get('.'.join(x[1] for x in path[1:] if x[0] == 'f'), []) if exists(ctx, im['self'], pat(g))]
            else:
                U = ctx.method('svf::SvfMode', im, 'update')
                gs = [(('P', 4), ())] if U is not None and path[-1][1] in pdeps(U) else []
            for r, g in gs:
                up = set()
                for x in A.events:
                    if x.kind in ('write', 'fill') and x.path and x.path[0] == r and related(pat_of(x.path), g) and reads_input(W, x.val, roots, ch):
                        up.add(x.blk)
                    elif x.kind == 'call' and x.extra and any(q[0] == r and related(pat_of(q), g) for _, q in W.mutable_args(x.call, x.args)) and any(reads_input(W, y, roots, ch) for y in x.snap):
                        up.add(x.blk)
                if not up or A.F.ret in A.reach(blk, removed=up) and blk in A.reach(A.F.entry, removed=up):
                    R.bad(key, '%s: `%s` is taken from input %s but what is computed from it is not brought up to date' % (A.where(e), ppath(path), pterm(ch)))
    R.floor('inputs compared with a stored parameter', n, 20)


def reads_input(W, t, roots, ch):
    return any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'mem' and x[1][0] in roots and len(x[1]) == 2 and x[1][1][0] == 'i' and strip_at(x[1][1][1]) == ch for x in W.deps(t))


def first(A, s, groups):
    return s.blk


def same_region(A, a, b):
    return A.dominates(a, b) or A.dominates(b, a)


def listener(ctx, R):
    """settings received over a channel are applied before audio is produced"""
    n = 0
    for tr, im in ctx.node_impls():
        T = ctx.tyname(im)
        if T != 'SettingListener':
            continue
        for m in ('tick', 'process'):
            A = ctx.method(tr, im, m)
            key = '%s::%s receives settings' % (T, m)
            n += 1
            R.inst(key, A.at())
            rc = [e for e in A.calls() if e.call.m in ('try_recv', 'recv', 'try_recv_ref')]
            run_ = [e for e in A.calls() if e.call.m == m and e.call.trait in (NODE, UNIT)]
            if not rc:
                R.bad(key, '%s: %s::%s does not look for settings' % (A.at(), T, m))
                continue
            sites = {e.call.site for e in rc}

            def from_rc(t):
                return any(isinstance(x, tuple) and x and x[0] in ('call', 'pure') and any('recv' in str(y) for y in x[1:3]) for x in A.W.deps(t))
            st = [e for e in A.calls() if e.call.m == 'set' and e.call.trait in (NODE, UNIT)]
            if not any(from_rc(e.args[1]) for e in st):
                R.bad(key, '%s: %s::%s does not apply a received setting' % (A.at(), T, m))
            for e in A.events:
                if e.kind == 'switch' and e.val[0] == 'discr' and from_rc(e.val[1]):
                    es = switch_edges(A.F.blocks[e.blk].term)
                    some = [b for v, b in es if v == 0] or [b for v, b in es if v is None and 0 not in [x for x, _ in es]]
                    for b in some:
                        # a received setting is applied, and another one is looked for
                        if A.F.ret in A.reach(b, removed={x.blk for x in st}):
                            R.bad(key, '%s: %s::%s can drop a received setting' % (A.where(e), T, m))
                        if any(x.blk in A.reach(b, removed={r.blk for r in rc}) for x in run_):
                            R.bad(key, '%s: %s::%s applies one setting and leaves later ones waiting' % (A.where(e), T, m))
            for x in run_:
                if x.blk in A.reach(A.F.entry, removed={r.blk for r in rc}):
                    R.bad(key, '%s: %s::%s produces audio before it looks for settings' % (A.where(x), T, m))
    R.floor('listeners', n, 2)


def run(ctx, R):
    R.rule('Every composite: a setting is passed to the nested component the first address step names (left, right, the indexed one, the node of that identity), with exactly that step removed; a component with a single inner one passes it on unchanged, once, on every path.')
    R.rule('Setting operations: constructors hold their arguments in the parameter of their name, address steps are added at the end, read and removed at the front.')
    R.rule('Every parameter kind a component handles is stored in its own field with the given value on every path; fields derived from it are recomputed from it, parameters of other kinds are untouched; other setters recompute derived fields as well.')
    R.rule('A parameter read from an input is stored and its derived values recomputed whenever it differs from the stored one, independently of the other inputs.')
    R.rule('A setting listener applies every waiting setting before it produces audio.')
    addressing(ctx, R)
    api(ctx, R)
    parameters(ctx, R)
    setters(ctx, R)
    cached(ctx, R)
    listener(ctx, R)
