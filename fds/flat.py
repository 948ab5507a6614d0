"""Flattening: one root method -> one CFG with all local helper functions and
closures inlined.  Calls on components nested in the root (AudioNode/AudioUnit
methods on other types) stay as call terminators (events)."""

NODE_TRAITS = ('audionode::AudioNode', 'audiounit::AudioUnit')
FNTRAITS = {'std::ops::Fn::call': 'Fn', 'std::ops::FnMut::call_mut': 'FnMut', 'std::ops::FnOnce::call_once': 'FnOnce'}

# higher order external functions: name suffix -> (loop?, closure parameter models)
# models: 'elem' element of iterator argument 0, 'idx' index 0..N, 'pay' payload of Option argument 0,
#         'acc' accumulator (argument 1), '?' unknown
HO = {
    'Iterator::for_each': (True, ['elem']),
    'Iterator::fold': (True, ['acc', 'elem']),
    'Iterator::map': (True, ['elem']),
    'Iterator::any': (True, ['elem']),
    'Iterator::all': (True, ['elem']),
    'Iterator::position': (True, ['elem']),
    'Iterator::filter': (True, ['elemref']),
    'Iterator::find': (True, ['elemref']),
    'Iterator::filter_map': (True, ['elem']),
    'GenericSequence::generate': (True, ['idx']),
    'array::from_fn': (True, ['idx']),
    'FunctionalSequence::map': (True, ['elem']),
    'FunctionalSequence::zip': (True, ['elem', 'elem']),
    'Option::<T>::map': (False, ['pay']),
    'Option::<T>::and_then': (False, ['pay']),
    'Option::<T>::inspect': (False, ['pay']),
    'Option::<T>::is_some_and': (False, ['pay']),
    'Option::<T>::map_or': (False, ['pay']),
    'Option::<T>::unwrap_or_else': (False, []),
    'Option::<T>::get_or_insert_with': (False, []),
    'Vec::<T, A>::retain': (True, ['elemref']),
    'Vec::<T, A>::retain_mut': (True, ['elemref']),
    'Vec::<T, A>::resize_with': (True, []),
}


class Frame:
    __slots__ = ('id', 'fn', 'subst', 'parent', 'site', 'depth', 'stack')


class Block:
    __slots__ = ('stmts', 'term', 'frame', 'line', 'obb', 'loop_hint')

    def __init__(self, frame):
        self.stmts = []
        self.term = None
        self.frame = frame
        self.line = None
        self.obb = None


class Call:
    """A non-inlined call."""
    __slots__ = ('fndef', 'frame', 'fn', 'name', 'rname', 'trait', 'm', 'selfty', 'targs', 'args', 'dest', 'target', 'line',
                 'argtys', 'destty', 'dyn', 'site', 'unsafe', 'node', 'id', 'local')

    def __repr__(self):
        return 'Call(%s)' % (self.name,)


class Flat:
    def __init__(self, model, fn, subst=None, leaf=None, maxdepth=14, maxblocks=6000):
        self.M = model
        self.root = fn
        self.blocks = []
        self.frames = []
        self.leaf = leaf
        self.maxdepth = maxdepth
        self.maxblocks = maxblocks
        self.truncated = []
        self.inlined = []
        self.site = 0
        self.ret = self.nb(None)
        self.blocks[self.ret].term = ('return',)
        fr = self.frame(fn, subst or {}, None, None)
        self.rootframe = fr
        self.entry = self.inline_body(fr, self.ret)

    def nb(self, frame):
        b = Block(frame)
        self.blocks.append(b)
        return len(self.blocks) - 1

    def frame(self, fn, subst, parent, site):
        f = Frame()
        f.id = len(self.frames)
        f.fn = fn
        f.subst = subst
        f.parent = parent
        f.site = site
        f.depth = parent.depth + 1 if parent else 0
        f.stack = (parent.stack if parent else ()) + (fn.id,)
        self.frames.append(f)
        return f

    # --------------------------------------------------------------
    def inline_body(self, fr, retblk):
        """creates blocks for fr.fn; returns entry block; returns go to retblk."""
        fn = fr.fn
        base = [self.nb(fr) if not bb['cl'] else None for bb in fn.bb]
        for i, bb in enumerate(fn.bb):
            if bb['cl']:
                continue
            b = self.blocks[base[i]]
            b.obb = i
            for s in bb['s']:
                if s[0] == '=':
                    b.stmts.append(('=', fr, s[1], fr, s[2], s[3]))
                elif s[0] == 'dead':
                    b.stmts.append(('dead', fr, s[1]))
                elif s[0] == 'sd':
                    b.stmts.append(('sd', fr) + tuple(s[1:]))
            t = bb['t']
            k = t[0]
            if k == 'goto':
                b.term = ('goto', base[t[1]])
            elif k == 'switch':
                b.term = ('switch', fr, t[1], [(v, base[x]) for v, x in t[2]], base[t[3]], t[4])
            elif k == 'return':
                b.term = ('goto', retblk)
            elif k == 'unreachable':
                b.term = ('unreachable',)
            elif k == 'drop':
                b.term = ('drop', fr, t[1], base[t[2]], self.M.subst(self.M.ty(t[3]), fr.subst), t[6] if len(t) > 6 else None, t[4], t[5])
            elif k == 'assert':
                b.term = ('assert', fr, t[1], t[2], base[t[3]], t[4], t[5])
            elif k == 'call':
                self.call(b, base[i], fr, t, base)
            else:
                b.term = ('unreachable',)
        return base[0]

    def opty(self, fr, o):
        p = o.get('cp') or o.get('mv')
        if p is not None:
            return self.placety(fr, p)
        if 'c' in o:
            return self.M.subst(self.M.ty(o['c']['t']), fr.subst)
        if 'fn' in o:
            return ('fndef', o['fn'].get('rid') or o['fn']['id'], o['fn']['name'])
        return ('other', '?')

    def placety(self, fr, p):
        M = self.M
        t = fr.fn.locals[p[0]]
        # the last field projection carries its own type
        start = 0
        for j in range(len(p) - 1, 0, -1):
            e = p[j]
            if isinstance(e, list) and e[0] == 'f':
                t = M.ty(e[2])
                start = j
                break
        t = M.subst(t, fr.subst)
        for e in p[start + 1:]:
            if e == '*':
                if t[0] in ('ref', 'ptr'):
                    t = t[2]
                elif t[0] == 'adt' and t[2]:
                    t = t[2][0]
                else:
                    return ('other', '?')
            elif e[0] in ('i', 'ci'):
                if t[0] in ('array', 'slice'):
                    t = t[1]
                else:
                    return ('other', '?')
        return t

    # --------------------------------------------------------------
    def resolve(self, fr, fo):
        """callee operand -> (fn or None, subst, info dict)"""
        M = self.M
        args = tuple(M.subst(M.garg(a), fr.subst) for a in fo['args'])
        if fo.get('trait'):
            n = len(M.traits[fo['trait']]['generics']) if fo['trait'] in M.traits else None
            tr = fo['trait']
            if n is None:
                # external trait: trait args = Self + params; take what impl lists need
                cands = M.impls_by_trait.get(tr)
                n = len(cands[0]['trait_args']) if cands else len(args)
            targs = args[:n]
            own = args[n:]
            r = M.trait_method(tr, fo['m'], targs)
            if r and r[0].has_body:
                f, s = r
                s = dict(s)
                it = M.impl_of_fn.get(f.id)
                if it:
                    ng = f.generics[len(it[0]['generics']):]
                    s.update(dict(zip(ng, own)))
                else:
                    s.update(dict(zip(f.generics, args)))
                return f, s, args
            if fo.get('rid') and fo['rid'] in M.fns and fo['rk'] == 'item' and fo['rid'] != fo['id'] and M.fns[fo['rid']].has_body:
                f = M.fns[fo['rid']]
                ra = tuple(M.subst(M.garg(a), fr.subst) for a in fo['rargs'])
                return f, dict(zip(f.generics, ra)), args
            # default method of a local trait on a type parameter: callable only through the param
            return None, None, args
        f = M.fns.get(fo['id'])
        if f and f.has_body:
            return f, dict(zip(f.generics, args)), args
        return None, None, args

    def mkcall(self, fr, t, base, fo=None, args=None):
        c = Call()
        c.frame = fr
        self.site += 1
        c.site = self.site
        c.args = t[2]
        c.argtys = [self.opty(fr, a) for a in t[2]]
        c.dest = t[3]
        c.destty = self.placety(fr, t[3])
        c.target = base[t[4]] if t[4] is not None else None
        c.line = t[5]
        c.dyn = fo is None
        c.local = False
        if fo:
            c.fn = fo
            c.name = fo['name']
            c.rname = fo.get('rname') or fo['name']
            c.trait = fo.get('trait')
            c.m = fo.get('m')
            c.targs = args
            c.selfty = args[0] if fo.get('trait') else None
            c.unsafe = fo.get('unsafe', False)
            c.node = fo.get('node')
            c.id = fo.get('rid') or fo['id']
        else:
            c.fn = None
            c.name = c.rname = 'dyncall'
            c.trait = c.m = None
            c.targs = ()
            c.selfty = None
            c.unsafe = False
            c.node = None
            c.id = None
            ty = self.opty(fr, t[1])
            c.fndef = ty[2] if ty[0] == 'fndef' else None   # function held in a local
        return c

    def call(self, b, bi, fr, t, base):
        M = self.M
        f = t[1]
        line = t[5]
        if 'fn' not in f:
            # calling a local: closure passed by value or fn pointer
            b.term = ('call', self.mkcall(fr, t, base))
            return
        fo = f['fn']
        # closure calls
        if fo['name'] in FNTRAITS and t[2]:
            st = self.M.subst(self.M.garg(fo['args'][0]), fr.subst)
            n = 0
            while st[0] == 'ref':
                st = st[2]
                n += 1
            if st[0] == 'closure' and st[1] in M.fns and M.fns[st[1]].has_body and self.can(fr, M.fns[st[1]]):
                self.inline_closure(b, fr, st, ('op', t[2][0]), None, t, base, spread=t[2][1])
                return
            if st[0] == 'fndef' and st[1] in M.fns and M.fns[st[1]].has_body and self.can(fr, M.fns[st[1]]):
                self.inline_fndef(b, fr, M.fns[st[1]], t, base)
                return
            b.term = ('call', self.mkcall(fr, t, base, fo, tuple(M.subst(M.garg(a), fr.subst) for a in fo['args'])))
            return
        fn, s, args = self.resolve(fr, fo)
        c = None
        if fn is not None:
            isleaf = self.leaf and self.leaf(self, fr, fo, fn, args, t)
            if not isleaf and self.can(fr, fn):
                self.inline(b, fr, fn, s, t, base)
                return
            c = self.mkcall(fr, t, base, fo, args)
            c.local = True
            if not isleaf:
                self.truncated.append(fn.id)
        else:
            # higher order external function?
            for suf, (loop, models) in HO.items():
                if fo['name'].endswith(suf):
                    for ai, a in enumerate(t[2]):
                        at = self.opty(fr, a)
                        while at[0] == 'ref':
                            at = at[2]
                        if at[0] == 'closure' and at[1] in M.fns and M.fns[at[1]].has_body and self.can(fr, M.fns[at[1]]):
                            self.higher(b, fr, t, base, fo, args, ai, at, loop, models)
                            return
            c = self.mkcall(fr, t, base, fo, args)
            # unknown external function with closure argument: may call it any number of times
            for ai, a in enumerate(t[2]):
                at = self.opty(fr, a)
                while at[0] == 'ref':
                    at = at[2]
                if at[0] == 'closure' and at[1] in M.fns and M.fns[at[1]].has_body and self.can(fr, M.fns[at[1]]):
                    self.higher(b, fr, t, base, fo, args, ai, at, True, ['?'] * 4)
                    return
        b.term = ('call', c)

    def can(self, fr, fn):
        if fn.id in fr.stack or fr.depth >= self.maxdepth or len(self.blocks) + len(fn.bb) > self.maxblocks:
            return False
        return True

    def inline(self, b, fr, fn, s, t, base):
        nf = self.frame(fn, s, fr, t[5])
        self.inlined.append(fn.id)
        for i, a in enumerate(t[2]):
            b.stmts.append(('=', nf, [i + 1], fr, ['use', a], t[5]))
        rb = self.nb(fr)
        entry = self.inline_body(nf, rb)
        b.term = ('goto', entry)
        if t[4] is not None:
            self.blocks[rb].stmts.append(('=', fr, t[3], nf, ['use', {'mv': [0]}], t[5]))
            self.blocks[rb].term = ('goto', base[t[4]])
        else:
            self.blocks[rb].term = ('unreachable',)

    def inline_fndef(self, b, fr, fn, t, base):
        nf = self.frame(fn, {}, fr, t[5])
        tup = t[2][1]
        p = tup.get('mv') or tup.get('cp')
        for i in range(fn.args):
            if p is not None:
                b.stmts.append(('=', nf, [i + 1], fr, ['use', {'cp': list(p) + [['f', str(i), 0]]}], t[5]))
        rb = self.nb(fr)
        entry = self.inline_body(nf, rb)
        b.term = ('goto', entry)
        self.blocks[rb].stmts.append(('=', fr, t[3], nf, ['use', {'mv': [0]}], t[5]))
        self.blocks[rb].term = ('goto', base[t[4]]) if t[4] is not None else ('unreachable',)

    def closure_frame(self, fr, ct, line):
        fn = self.M.fns[ct[1]]
        # closure generics: parent generics (+ synthetic ones)
        s = dict(zip(fn.generics, ct[3]))
        return self.frame(fn, s, fr, line)

    def inline_closure(self, b, fr, ct, clop, _, t, base, spread=None):
        nf = self.closure_frame(fr, ct, t[5])
        self.bind_closure_self(b, nf, fr, clop[1], t[5])
        p = spread.get('mv') or spread.get('cp')
        for i in range(nf.fn.args - 1):
            if p is not None:
                b.stmts.append(('=', nf, [i + 2], fr, ['use', {'cp': list(p) + [['f', str(i), 0]]}], t[5]))
        rb = self.nb(fr)
        entry = self.inline_body(nf, rb)
        b.term = ('goto', entry)
        self.blocks[rb].stmts.append(('=', fr, t[3], nf, ['use', {'mv': [0]}], t[5]))
        self.blocks[rb].term = ('goto', base[t[4]]) if t[4] is not None else ('unreachable',)

    def bind_closure_self(self, b, nf, fr, op, line):
        want_ref = nf.fn.locals[1][0] == 'ref'
        ot = self.opty(fr, op)
        nref = 0
        x = ot
        while x[0] == 'ref':
            x = x[2]
            nref += 1
        if want_ref and nref == 0:
            p = op.get('mv') or op.get('cp')
            if p is not None:
                b.stmts.append(('=', nf, [1], fr, ['ref', True, p], line))
            else:
                b.stmts.append(('=', nf, [1], fr, ['use', op], line))
        elif want_ref and nref > 1:
            p = op.get('mv') or op.get('cp')
            b.stmts.append(('=', nf, [1], fr, ['use', {'cp': list(p) + ['*'] * (nref - 1)}], line))
        elif not want_ref and nref >= 1:
            p = op.get('mv') or op.get('cp')
            b.stmts.append(('=', nf, [1], fr, ['use', {'cp': list(p) + ['*'] * nref}], line))
        else:
            b.stmts.append(('=', nf, [1], fr, ['use', op], line))

    def higher(self, b, fr, t, base, fo, args, ai, ct, loop, models):
        c = self.mkcall(fr, t, base, fo, args)
        H = self.nb(fr)
        B = self.nb(fr)
        E = self.nb(fr)
        b.stmts.append(('hobegin', fr, c))
        b.term = ('goto', H)
        self.blocks[H].term = ('hoswitch', c, B, E)
        nf = self.closure_frame(fr, ct, t[5])
        bb = self.blocks[B]
        self.bind_closure_self(bb, nf, fr, t[2][ai], t[5])
        for i in range(nf.fn.args - 1):
            m = models[i] if i < len(models) else '?'
            bb.stmts.append(('hoarg', nf, i + 2, c, i, m))
        rb = self.nb(fr)
        bb.term = ('goto', self.inline_body(nf, rb))
        self.blocks[rb].stmts.append(('horet', c, nf))
        self.blocks[rb].term = ('goto', H if loop else E)
        self.blocks[E].stmts.append(('hoend', c, fr))
        self.blocks[E].term = ('goto', c.target) if c.target is not None else ('unreachable',)

    # --------------------------------------------------------------
    def succs(self, bi):
        t = self.blocks[bi].term
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = []
            for v, x in t[3]:
                if x not in r:
                    r.append(x)
            if t[4] not in r:
                r.append(t[4])
            return r
        if k == 'drop':
            return [t[3]]
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [t[1].target] if t[1].target is not None else []
        if k == 'hoswitch':
            return [t[2], t[3]]
        return []

    def src(self, bi):
        b = self.blocks[bi]
        fr = b.frame
        return (fr.fn.file if fr else '?')
