#!/usr/bin/env python3
"""Entry point of every check:  run.py check <ID> [--tier quick|thorough] [--repo /repo]
Builds the rustc driver, dumps the type-checked program (MIR) of the current /repo tree, runs the
rule of one property over it, writes evidence/<ID>.json.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not run."""
import argparse, fcntl, hashlib, importlib, json, os, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise RuntimeError('command failed: ' + ' '.join(cmd))
    return r.stdout


def env0():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def files_of(d, ext):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        out += [os.path.join(r, f) for f in fs if f.endswith(ext)]
    return out


def dump(repo, features='default'):
    """MIR dump of the library crate of `repo` (cached by content of the sources and the driver)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = os.path.join(HERE, 'driver')
        dkey = digest(files_of(os.path.join(drv, 'src'), '.rs') + [os.path.join(drv, 'Cargo.toml')])
        exe = os.path.join(BUILD, 'driver', 'debug', 'fds-driver')
        stamp = os.path.join(BUILD, 'driver', 'stamp')
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == dkey):
            e = env0()
            e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
            sh(['cargo', 'build', '--offline', '-q'], cwd=drv, env=e)
            open(stamp, 'w').write(dkey)
        src = files_of(os.path.join(repo, 'src'), '')
        for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
            p = os.path.join(repo, f)
            if os.path.exists(p):
                src.append(p)
        key = digest(src) + '-' + dkey[:8] + '-' + features
        out = os.path.join(BUILD, 'dumps', key + '.json')
        if os.path.exists(out) and os.path.exists(out[:-5] + '.d'):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        old = sorted((os.path.join(BUILD, 'dumps', f) for f in os.listdir(os.path.join(BUILD, 'dumps'))), key=os.path.getmtime)
        for f in old[:-12]:
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
        tgt = os.path.join(BUILD, 'target')
        # force the wrapper to run on the crate itself: drop its cached units
        for d in ('debug/incremental', 'debug/build', 'debug/.fingerprint', 'debug/deps'):
            p = os.path.join(tgt, d)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if d == 'debug/incremental' or n.startswith(('fundsp', 'libfundsp')):
                        q = os.path.join(p, n)
                        shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
        e = env0()
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], env=e).strip()
        e['LD_LIBRARY_PATH'] = sysroot + '/lib' + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
        tmp = out + '.tmp'
        if os.path.exists(tmp):
            os.remove(tmp)
        e.update(FDS_CRATE='fundsp', FDS_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt,
                 RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=+JumpThreading --cap-lints=allow'
                 + (' -Cdebug-assertions=off' if features == 'release' else ''))
        cmd = ['cargo', '+nightly', 'check', '--offline', '--lib']
        if features == 'none':
            cmd.append('--no-default-features')
        sh(cmd, cwd=repo, env=e)
        if not os.path.exists(tmp):
            raise RuntimeError('driver did not run on the crate')
        # the crate's metadata, for witnesses that are type-checked against it
        meta = [p for p in files_of(os.path.join(tgt, 'debug'), '.rmeta') if os.path.basename(p).startswith('libfundsp-')]
        if len(meta) != 1:
            raise RuntimeError('no metadata of the crate')
        os.makedirs(out[:-5] + '.d', exist_ok=True)
        shutil.copy(meta[0], os.path.join(out[:-5] + '.d', 'libfundsp.rmeta'))
        os.rename(tmp, out)
        return out


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.instances = []     # (key, text)
        self.viol = {}          # key -> text
        self.exempt = []
        self.rules = []
        self.counts = {}
        self.notes = []

    def rule(self, text):
        self.rules.append(text)

    def inst(self, key, text=''):
        self.instances.append((key, text))

    def bad(self, key, text):
        """violation; key carries no line numbers, text does"""
        self.viol.setdefault(key, text)

    def skip(self, key, reason):
        self.exempt.append('%s: %s' % (key, reason))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, least):
        """fail closed when the rule matches less of the program than was confirmed by hand"""
        self.counts[name] = n
        if n < least:
            self.bad('floor:' + name, 'rule matched only %d %s; at least %d were confirmed by hand - an anchor of the rule has disappeared' % (n, name, least))

    def need(self, cond, key, text):
        self.inst(key, text)
        if not cond:
            self.bad(key, text)
        return cond


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            if l.startswith('known: property='):
                q, rest = l[len('known: property='):].split(' ', 1)
                key, _, what = rest.partition(' | ')
                if q == pid:
                    out[key.strip()] = what.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'dump', 'setup'])
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.cmd == 'setup':
        dump(a.repo)
        return 0
    if a.cmd == 'dump':
        print(dump(a.repo))
        return 0
    t0 = time.time()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    R = Report(a.id, tier)
    R.repo = a.repo
    R.here = HERE
    R.build = BUILD
    R.env0 = env0
    mod = importlib.import_module('fds.checks.' + a.id.lower())
    configs = list(getattr(mod, 'CONFIGS', ['default'])) + (['none'] if tier == 'thorough' else [])
    from fds.core import Ctx
    for f in configs:
        R.config = f
        mod.run(Ctx(dump(a.repo, f)), R)
    kf = known(a.id)
    new = {k: v for k, v in R.viol.items() if k not in kf}
    old = {k: v for k, v in R.viol.items() if k in kf}
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s: %s' % (a.id, k, kf[k]))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    keys = sorted({k for k, _ in R.instances})
    failed = len({k for k in R.viol})
    cov = dict(explanation='static rule decided on the type-checked program (MIR of the library crate, configurations: %s); no code is executed' % ', '.join(configs),
               rule=' '.join(R.rules), obligations=len(keys), discharged=max(0, len(keys) - failed), exhaustive=True,
               checker_cmd='python3 /verif/run.py check %s --tier %s' % (a.id, tier),
               trusted_base=['rustc nightly front end and MIR construction', 'fds driver and flow analysis (/verif/driver, /verif/fds)'],
               counts=R.counts, exemptions=sorted(set(R.exempt)), samples=[dict(obligation=k, detail=t) for k, t in R.instances[:400]], notes=R.notes[:60])
    json.dump(dict(property=a.id, tier=tier, seed=int(os.environ.get('VERIF_SEED') or 0), level='other', coverage=cov,
                   assumptions=getattr(mod, 'ASSUME', []), wall_s=round(time.time() - t0, 2), violations=len(new)),
              open(os.path.join(ev, a.id + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d exemptions, %d known findings, %d violations, %s, %.1f s' % (
        a.id, len(keys), len(set(R.exempt)), len(old), len(new), json.dumps(R.counts), time.time() - t0))
    if a.v:
        for k, t in R.instances:
            print('   ', k, '|', t)
        for x in R.exempt:
            print('    exempt', x)
        for x in R.notes:
            print('    note', x)
    if new:
        rp = os.path.join(ev, a.id + '.violations.txt')
        with open(rp, 'w') as f:
            for k in sorted(new):
                f.write('%s\n    %s\n' % (k, new[k]))
        for k in sorted(new)[:20]:
            print('  %s: %s' % (k, new[k]))
        print('VIOLATION property=%s replay=%s' % (a.id, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
