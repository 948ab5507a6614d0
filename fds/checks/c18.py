"""C18: compile-fail witnesses and their accepted twins, type-checked against the crate's current
metadata, and rules over the type-checked program for what no single witness can cover."""
import json, os, re, subprocess, itertools

ASSUME = ['The type checker and borrow checker of rustc decide each witness; witnesses are compiled, never run.',
          'Arities 0 to 3 are enumerated for the operators; the bounds are generic in the arity.']

ENVS = ('hacker', 'hacker32', 'prelude')
U = lambda i: 'U%d' % i
T = lambda i, o: 'An<Unit<U%d, U%d>>' % (i, o)

OPS = {'>>': lambda a, b: a[1] == b[0], '&': lambda a, b: a == b, '^': lambda a, b: a[0] == b[0],
       '|': lambda a, b: True, '+': lambda a, b: a[1] == b[1], '-': lambda a, b: a[1] == b[1], '*': lambda a, b: a[1] == b[1]}
FNS = {'pipe': OPS['>>'], 'bus': OPS['&'], 'branch': OPS['^'], 'stack': OPS['|'], 'sum': OPS['+'], 'product': OPS['*']}
TYS = {'Pipe': OPS['>>'], 'Bus': OPS['&'], 'Branch': OPS['^'], 'Stack': OPS['|']}


def witnesses():
    """(key, text, function source, accepted, phase)"""
    W = []
    ar = list(itertools.product(range(4), range(4)))

    def add(key, src, ok, phase='type', what=None):
        W.append((key, what or src, src, ok, phase))
    for op, f in OPS.items():
        for a in ar:
            for b in ar:
                add('operator %s: %d to %d with %d to %d' % (op, *a, *b), '(a: %s, b: %s) { let _ = a %s b; }' % (T(*a), T(*b), op), f(a, b))
    ar2 = list(itertools.product(range(3), range(3)))
    for env in ENVS:
        for n, f in FNS.items():
            for a in ar2:
                for b in ar2:
                    add('%s::%s: %d to %d with %d to %d' % (env, n, *a, *b), '(a: %s, b: %s) { let _ = fundsp::%s::%s(a, b); }' % (T(*a), T(*b), env, n), f(a, b))
    for n, f in TYS.items():
        for a in ar2:
            for b in ar2:
                add('%s::new: %d to %d with %d to %d' % (n, *a, *b), '(a: Unit<U%d, U%d>, b: Unit<U%d, U%d>) { let _ = fundsp::audionode::%s::new(a, b); }' % (*a, *b, n), f(a, b))
    for env in ENVS:
        for a in ar2:
            sq = a[0] == a[1]
            for n in ('feedback', 'fdn'):
                add('%s::%s: %d to %d' % (env, n, *a), '(a: %s) { let _ = fundsp::%s::%s(a); }' % (T(*a), env, n), sq)
            for n in ('feedback2', 'fdn2'):
                for b in ar2:
                    add('%s::%s: %d to %d with %d to %d' % (env, n, *a, *b), '(a: %s, b: %s) { let _ = fundsp::%s::%s(a, b); }' % (T(*a), T(*b), env, n), sq and a == b)
            add('%s::allnest: %d to %d' % (env, *a), '(a: %s) { let _ = fundsp::%s::allnest(a); }' % (T(*a), env), a == (1, 1))
            add('%s::allnest_c: %d to %d' % (env, *a), '(a: %s) { let _ = fundsp::%s::allnest_c(0.5, a); }' % (T(*a), env), a == (1, 1))
            add('%s::resample: %d to %d' % (env, *a), '(a: %s) { let _ = fundsp::%s::resample(a); }' % (T(*a), env), a[0] == 0)
            add('%s::reverb2_stereo loop filter: %d to %d' % (env, *a), '(a: %s) { let _ = fundsp::%s::reverb2_stereo(10.0, 1.0, 0.5, 1.0, a); }' % (T(*a), env), a == (1, 1))
            add('%s::reverb3_stereo loop filter: %d to %d' % (env, *a), '(a: %s) { let _ = fundsp::%s::reverb3_stereo(1.0, 0.5, a); }' % (T(*a), env), a == (1, 1))
            for n in ('busi', 'stacki', 'branchi', 'sumi'):
                add('%s::%s of one kind: %d to %d' % (env, n, *a), '(f: fn(u64) -> %s) { let _ = fundsp::%s::%s::<U3, _, _>(f); }' % (T(*a), env, n), True)
            if a[0] == a[1]:
                add('%s::pipei of one kind: %d to %d' % (env, *a), '(f: fn(u64) -> %s) { let _ = fundsp::%s::pipei::<U3, _, _>(f); }' % (T(*a), env), True)
    for a in ar2:
        for k in range(3):
            add('tick of %d to %d with %d samples' % (*a, k), '(mut a: %s, x: Frame<f32, U%d>) { let _ = a.tick(&x); }' % (T(*a), k), k == a[0])
            add('output of %d to %d taken as %d samples' % (*a, k), '(mut a: %s, x: Frame<f32, U%d>) { let _: Frame<f32, U%d> = a.tick(&x); }' % (T(*a), a[0], k), k == a[1])
    # result arity of each operator (a wrong associated type would let later mismatches through)
    for op, f in OPS.items():
        for a in ar2:
            for b in ar2:
                if not f(a, b):
                    continue
                res = {'>>': (a[0], b[1]), '&': a, '^': (a[0], a[1] + b[1]), '|': (a[0] + b[0], a[1] + b[1])}.get(op, (a[0] + b[0], a[1]))
                add('arity of %s: %d to %d with %d to %d' % (op, *a, *b), '(a: %s, b: %s) { io::<U%d, U%d, _>(a %s b); }' % (T(*a), T(*b), *res, op), True)
                for wrong in ((res[0] + 1, res[1]), (res[0], res[1] + 1)):
                    add('arity of %s: %d to %d with %d to %d is not %d to %d' % (op, *a, *b, *wrong), '(a: %s, b: %s) { io::<U%d, U%d, _>(a %s b); }' % (T(*a), T(*b), *wrong, op), False)
    for a in ar2:
        for un, res in (('-', a), ('!', (a[0], max(a)))):
            if un == '!':
                res = (a[0], a[0] if True else 0)
            add('arity of %s: %d to %d' % (un, *a), '(a: %s) { io::<U%d, U%d, _>(%sa); }' % (T(*a), *res, un), True)
    # ---- threads
    for t in ('Box<dyn AudioUnit>', 'Net', 'fundsp::realnet::NetBackend', 'Sequencer', 'fundsp::realseq::SequencerBackend', 'Slot', 'fundsp::slot::SlotBackend', 'Shared',
              'Wave', 'std::sync::Arc<Wave>', 'BufferVec', 'BufferArray<U2>', 'BufferRef<\'static>', 'BufferMut<\'static>', 'Setting', 'Snoop', 'BigBlockAdapter', 'BlockRateAdapter', 'AtomicTable',
              'Wavetable', 'SignalFrame', 'Fade', 'EventId', 'NodeId', 'Source', 'DummyUnit', 'Unit<U1, U1>', 'fundsp::setting::SettingSender'):
        add('%s may cross threads' % t, '() { threads::<%s>(); }' % t, True)
    add('every component may cross threads', '<X: AudioNode>() { threads::<X>(); threads::<An<X>>(); }', True)
    add('every component can be cloned', '<X: AudioNode>(a: An<X>, b: &Box<dyn AudioUnit>) { let _ = a.clone(); let _ = b.clone(); }', True)
    node = '''() {
    #[derive(Clone)] struct N(%s);
    impl AudioNode for N { const ID: u64 = 0; type Inputs = U1; type Outputs = U1;
        fn tick(&mut self, input: &Frame<f32, U1>) -> Frame<f32, U1> { *input } } }'''
    unit = '''() {
    #[derive(Clone)] struct N(%s);
    impl AudioUnit for N {
        fn inputs(&self) -> usize { 1 } fn outputs(&self) -> usize { 1 }
        fn tick(&mut self, input: &[f32], output: &mut [f32]) { output[0] = input[0]; }
        fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) { for i in 0..size { output.set_f32(0, i, input.at_f32(0, i)); } }
        fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame { SignalFrame::new(1) }
        fn get_id(&self) -> u64 { 0 } fn footprint(&self) -> usize { 0 } } }'''
    for w, src in (('node', node), ('unit', unit)):
        for t, ok in (('u32', True), ('std::sync::Arc<f32>', True), ('std::rc::Rc<f32>', False), ('std::cell::Cell<f32>', False), ('*mut f32', False), ("std::sync::Arc<std::cell::RefCell<f32>>", False)):
            add('a user-written %s holding %s' % (w, t), src % t, ok)
    closures = [('map', 'map(%s|i: &Frame<f32, U1>| { %si[0] })'), ('envelope', 'envelope(%s|t| { %st })'), ('lfo', 'lfo(%s|t| { %st })'),
                ('envelope2', 'envelope2(%s|t, x| { %st + x })'), ('lfo2', 'lfo2(%s|t, x| { %st + x })'), ('envelope3', 'envelope3(%s|t, x, y| { %st + x + y })'), ('lfo3', 'lfo3(%s|t, x, y| { %st + x + y })'),
                ('envelope_in', 'envelope_in(%s|t, i: &Frame<f32, U1>| { %st })'), ('lfo_in', 'lfo_in(%s|t, i: &Frame<f32, U1>| { %st })'),
                ('shape_fn', 'shape_fn(%s|x| { %sx })'), ('update', 'update(pass(), 0.1, %s|t, dt, x| { %s})'), ('resynth', 'resynth::<U1, U1, _>(1024, %s|w| { %s})'),
                ('flanger', 'flanger(0.5, 0.01, 0.02, %s|t| { %s0.01 })'), ('phaser', 'phaser(0.5, %s|t| { %s0.5 })'), ('var_fn', 'var_fn(&shared(0.0), %s|x| { %sx })')]
    for env in ENVS:
        for n, c in closures:
            x = 'fundsp::%s::%s' % (env, c.replace('pass()', 'fundsp::hacker::pass()').replace('shared(0.0)', 'fundsp::hacker::shared(0.0)'))
            if env == 'prelude':
                x = x.replace('|t| { %st }', '|t: f32| { %st }').replace('|t, x|', '|t: f32, x: f32|').replace('|t, x, y|', '|t: f32, x: f32, y: f32|').replace('|t, i:', '|t: f32, i:')
            add('%s::%s with a plain function' % (env, n), '(c: f32) { let _ = %s; }' % (x % ('move ', 'let _k = c; ')), True)
            add('%s::%s with a function bound to one thread' % (env, n), '(c: std::rc::Rc<f32>) { let _ = %s; }' % (x % ('move ', 'let _k = &c; ')), False)
    # ---- references to buffer contents
    B = {'BufferVec': ('b: &mut BufferVec', 'BufferVec::new(2)'), 'BufferArray': ('b: &mut BufferArray<U2>', 'BufferArray::<U2>::new()'), 'BufferMut': ("b: &mut BufferMut<'_>", None)}
    mutm = {'BufferVec': ('channel_mut(0)', 'channel_f32_mut(0)', 'buffer_mut()'), 'BufferArray': ('channel_mut(0)', 'channel_f32_mut(0)', 'buffer_mut()'),
            'BufferMut': ('channel_mut(0)', 'channel_f32_mut(0)', 'at_mut(0, 0)', 'subset(0, 1)')}
    refm = {'BufferVec': ('channel(0)', 'channel_f32(0)', 'buffer_ref()'), 'BufferArray': ('channel(0)', 'channel_f32(0)', 'buffer_ref()'),
            'BufferMut': ('channel(0)', 'channel_f32(0)', 'buffer_ref()')}
    wr = {'BufferVec': 'set_f32(0, 0, 1.0)', 'BufferArray': 'set_f32(0, 0, 1.0)', 'BufferMut': 'set_f32(0, 0, 1.0)'}
    for t, (arg, new) in B.items():
        for m in mutm[t]:
            for m2 in mutm[t] + refm[t] + (wr[t],):
                add('%s: %s while %s is in use' % (t, m2, m), '(%s) { let x = b.%s; let _y = b.%s; consume(x); }' % (arg, m, m2), False, 'borrow')
                add('%s: %s after %s' % (t, m2, m), '(%s) { let x = b.%s; consume(x); let _y = b.%s; }' % (arg, m, m2), True, 'borrow')
        for m in refm[t]:
            for m2 in mutm[t] + (wr[t],):
                add('%s: %s while %s is in use' % (t, m2, m), '(%s) { let x = b.%s; let _y = b.%s; consume(x); }' % (arg, m, m2), False, 'borrow')
                add('%s: %s after %s' % (t, m2, m), '(%s) { let x = b.%s; consume(x); let _y = b.%s; }' % (arg, m, m2), True, 'borrow')
        if new:
            for m in mutm[t] + refm[t]:
                add('%s: %s outlives the buffer' % (t, m), '() { let x = { let mut b = %s; b.%s }; consume(x); }' % (new, m), False, 'borrow')
            add('%s: a view of the buffer outlives it' % t, "() { let x = { let mut b = %s; let mut v = b.buffer_mut(); v.channel_f32_mut(0) }; consume(x); }" % new, False, 'borrow')
            add('%s: a read view of the buffer outlives it' % t, "() { let x = { let mut b = %s; let v = b.buffer_ref(); v.channel_f32(0) }; consume(x); }" % new, False, 'borrow')
            for m in ('channel(0)', 'channel_f32(0)', 'subset(0, 1)'):
                add('%s: write while %s of a read view is in use' % (t, m), '(%s) { let v = b.buffer_ref(); let x = v.%s; b.set_f32(0, 0, 1.0); consume(x); }' % (arg, m), False, 'borrow')
                add('%s: write after %s of a read view' % (t, m), '(%s) { let v = b.buffer_ref(); let x = v.%s; consume(x); b.set_f32(0, 0, 1.0); }' % (arg, m), True, 'borrow')
    add('BufferVec: resize while a channel is in use', '(b: &mut BufferVec) { let x = b.channel(0); b.resize(1); consume(x); }', False, 'borrow')
    add('BufferVec: resize while a view is in use', '(b: &mut BufferVec) { let x = b.buffer_mut(); b.resize(1); consume(x); }', False, 'borrow')
    for t in ('f32', 'F32x'):
        ch = 'channel_f32' if t == 'f32' else 'channel'
        add('BufferMut: %s made static' % ch, "(b: &mut BufferMut<'_>) -> &'static [%s] { b.%s(0) }" % (t, ch), False, 'borrow')
        add('BufferMut: %s_mut made static' % ch, "(b: &mut BufferMut<'_>) -> &'static mut [%s] { b.%s_mut(0) }" % (t, ch), False, 'borrow')
        add('BufferRef: %s made static' % ch, "(b: &BufferRef<'_>) -> &'static [%s] { b.%s(0) }" % (t, ch), False, 'borrow')
    add('BufferRef cannot be written', "(b: &mut BufferRef<'_>) { b.set_f32(0, 0, 1.0); }", False)
    add('BufferRef gives no writable channel', "(b: &mut BufferRef<'_>) { let _ = b.channel_mut(0); }", False)
    add('BufferRef gives no writable scalar channel', "(b: &mut BufferRef<'_>) { let _ = b.channel_f32_mut(0); }", False)
    add('BufferMut cannot be copied', "(b: BufferMut<'_>) { let c = b; consume(b); consume(c); }", False, 'borrow')
    add('BufferMut cannot be cloned', "(b: BufferMut<'_>) { cloned::<BufferMut<'_>>(); }", False)
    add('two nodes of a chain are not reachable at once', '(a: &mut fundsp::audionode::Chain<U2, Pass>) { let x = a.node_mut(0); let y = a.node_mut(1); consume(x); consume(y); }', False, 'borrow')
    add('the graph is not editable while a node is in use', '(n: &mut Net, i: NodeId) { let x = n.node_mut(i); n.remove(i); consume(x); }', False, 'borrow')
    add('the graph is editable after a node was used', '(n: &mut Net, i: NodeId) { let x = n.node_mut(i); consume(x); n.remove(i); }', True, 'borrow')
    add('wave data is not editable while a channel is in use', '(w: &mut Wave) { let x = w.channel(0); w.set(0, 0, 1.0); consume(x); }', False, 'borrow')
    add('wave data is editable after a channel was used', '(w: &mut Wave) { let x = w.channel(0); consume(x); w.set(0, 0, 1.0); }', True, 'borrow')
    return W


HEAD = '''#![allow(unused, dead_code, non_snake_case, dropping_references, mismatched_lifetime_syntaxes)]
use fundsp::prelude::*;
use fundsp::audiounit::*;
use fundsp::prelude::An;
fn consume<T>(t: T) {}
fn threads<T: Send + Sync>() {}
fn cloned<T: Clone>() {}
fn io<I: Size<f32>, O: Size<f32>, X: AudioNode<Inputs = I, Outputs = O>>(x: An<X>) {}
'''


def compile_file(R, ctx, ws, name):
    d = os.path.join(R.build, 'witness')
    os.makedirs(d, exist_ok=True)
    src = HEAD
    spans = []
    line = src.count('\n') + 1
    for i, (k, what, s, ok, ph) in enumerate(ws):
        f = 'fn w%d%s\n' % (i, s)
        n = f.count('\n')
        spans.append((line, line + n - 1))
        line += n
        src += f
    path = os.path.join(d, name + '.rs')
    open(path, 'w').write(src)
    meta = ctx.path[:-5] + '.d/libfundsp.rmeta'
    dirs = sorted({r for r, _, fs in os.walk(os.path.join(R.build, 'target', 'debug')) if any(f.endswith(('.rmeta', '.so')) for f in fs) and 'incremental' not in r and 'fundsp' not in r})
    cmd = ['rustc', '+nightly', '--edition=2021', '--crate-type=lib', '--emit=metadata', '-o', os.path.join(d, name + '.rmeta'), '--error-format=json', '--cap-lints=allow', '-Zalways-encode-mir',
           *itertools.chain.from_iterable(('-L', 'dependency=' + x) for x in dirs), '--extern', 'fundsp=' + meta, path]
    r = subprocess.run(cmd, env=R.env0(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = {}
    loose = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            loose.append(l)
            continue
        if m.get('level') not in ('error', 'error: internal compiler error'):
            continue
        code = (m.get('code') or {}).get('code')
        hit = False
        for sp in m.get('spans', []):
            if sp['is_primary'] and sp['file_name'] == path:
                for i, (a, b) in enumerate(spans):
                    if a <= sp['line_start'] <= b:
                        errs.setdefault(i, []).append((code, m['message']))
                        hit = True
        if not hit and not m['message'].startswith('aborting due to'):
            loose.append(m['message'])
    return r.returncode, errs, loose


# error codes that mean "rejected for the intended kind of reason"; a witness that fails only with
# something else (a missing name, a changed signature) proves nothing and is not counted
TYPE = {'E0271', 'E0277', 'E0308', 'E0369', 'E0599', 'E0282', 'E0283', 'E0061', 'E0621'}
BORROW = {'E0499', 'E0502', 'E0505', 'E0506', 'E0382', 'E0597', 'E0515', 'E0716', 'E0521', 'E0503', None}


def run(ctx, R):
    if R.config != 'default':
        return
    R.rule('A program that joins components of different channel counts, moves a component that is bound to one thread, or keeps a reference to buffer contents past or beside another use is rejected by the type or borrow checker when compiled against the current crate; its matching twin is accepted.')
    ws = witnesses()
    good = [w for w in ws if w[3]]
    badt = [w for w in ws if not w[3] and w[4] == 'type']
    badb = [w for w in ws if not w[3] and w[4] == 'borrow']
    seen = set()
    for w in ws:
        assert w[0] not in seen, w[0]
        seen.add(w[0])
    # accepted twins: type errors hide borrow errors, so check again without the ones that fail
    rest = good
    for _ in range(2):
        rc, errs, loose = compile_file(R, ctx, rest, 'good')
        if loose:
            raise RuntimeError('witness compilation: ' + '; '.join(loose[:3]))
        for i, e in errs.items():
            k = rest[i][0]
            if any(c in ('E0432', 'E0433', 'E0425', 'E0412', 'E0603') for c, _ in e):
                R.skip(k, 'the name used by the witness does not exist: %s' % e[0][1])
            else:
                R.bad(k, 'a matching program is rejected: %s: fn%s' % (e[0][1].splitlines()[0], rest[i][2]))
        if not errs:
            break
        rest = [w for i, w in enumerate(rest) if i not in errs]
    for w in good:
        R.inst(w[0], 'accepted: fn' + w[2].replace('\n', ' ')[:200])
    for group, codes, name in ((badt, TYPE, 'badtype'), (badb, BORROW, 'badborrow')):
        todo = group
        proven = 0
        for _ in range(2):
            rc, errs, loose = compile_file(R, ctx, todo, name)
            if loose:
                raise RuntimeError('witness compilation: ' + '; '.join(loose[:3]))
            other = []
            for i, w in enumerate(todo):
                e = errs.get(i)
                if e is None:
                    if name == 'badborrow' and any(set(c for c, _ in x) - codes for x in errs.values()):
                        continue
                    R.bad(w[0], 'accepted but must be rejected: fn' + w[2].replace('\n', ' '))
                elif set(c for c, _ in e) & codes:
                    proven += 1
                    R.inst(w[0], 'rejected (%s): fn%s' % (e[0][0], w[2].replace('\n', ' ')[:200]))
                else:
                    other.append(i)
                    R.skip(w[0], 'rejected for another reason: %s' % e[0][1])
            if not other or name != 'badborrow':
                break
            todo = [w for i, w in enumerate(todo) if i not in other]
            proven = 0
        R.floor('rejected programs (%s)' % name, proven, len(group) * 9 // 10)
    R.count('accepted programs', len(good))
    threads(ctx, R)


def threads(ctx, R):
    R.rule('No type of the crate declares itself safe to share or send by hand.')
    M = ctx.M
    n = 0
    for tr, ims in M.impls_by_trait.items():
        if tr.split('::')[-1] in ('Send', 'Sync') and 'marker' in tr:
            for im in ims:
                n += 1
                R.bad('manual %s for %s' % (tr.split('::')[-1], ctx.tyname(im)), '%s is declared by hand for %s: the compiler no longer checks its contents' % (tr.split('::')[-1], ctx.tyname(im)))
    R.inst('no manual Send or Sync', '%d found' % n)

