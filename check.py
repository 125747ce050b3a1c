#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [--tier quick|thorough] [--seed N]
                                     check.py --setup
                                     check.py --replay replays/<file>
Exit 0: held on everything observed. Exit 1 and a VIOLATION line: violated.
Exit 2: no verdict (build failure, resource limit, error in the harness)."""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
T = os.path.join(V, 'target')
GB = 1 << 30
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
# for experiments: a fraction of the workload
SCALE = float(os.environ.get('VERIF_SCALE', '1') or 1)
HOST = 'x86_64-unknown-linux-gnu'


class Inconclusive(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'MIRIFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUST_BACKTRACE',
              'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN', 'LD_PRELOAD'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(kw)
    return e


# ---------------------------------------------------------------- building
KINDS = {
    'debug': dict(args=[], sub='debug'),
    'release': dict(args=['--release'], sub='release'),
    'asan': dict(tool='+nightly', args=['--target', HOST], env={'RUSTFLAGS': '-Zsanitizer=address'}, sub=HOST + '/debug'),
}


def build(crate, kind):
    """Builds a harness crate against /repo's working tree; returns the binary."""
    k = KINDS[kind]
    d = os.path.join(V, 'harness', crate)
    tgt = os.path.join(T, crate + '-' + kind)
    cmd = ['cargo'] + ([k['tool']] if 'tool' in k else []) + ['build', '--offline', '--quiet'] + k['args']
    p = subprocess.run(cmd, cwd=d, env=env(CARGO_TARGET_DIR=tgt, **k.get('env', {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Inconclusive('build of %s (%s) failed:\n%s' % (crate, kind, p.stdout[-4000:]))
    return os.path.join(tgt, k['sub'], crate)


def miri_env(target):
    kw = dict(CARGO_TARGET_DIR=os.path.join(T, 'rt-miri-' + (target or 'host')), MIRIFLAGS='-Zmiri-disable-isolation')
    if target:
        kw['XDG_CACHE_HOME'] = os.path.join(T, 'miri-cache')
    return env(**kw)


def miri_cmd(target):
    return ['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet'] + (['--target', target] if target else []) + ['--']


def build_miri(target=None):
    d = os.path.join(V, 'harness', 'rt')
    e = miri_env(target)
    if target:
        p = subprocess.run(['cargo', '+nightly', 'miri', 'setup', '--target', target], cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Inconclusive('miri setup for %s failed:\n%s' % (target, p.stdout[-2000:]))
    p = subprocess.run(miri_cmd(target) + ['C01', 'cases=0', 'threads=1'], cwd=d, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Inconclusive('miri build failed:\n%s' % p.stdout[-4000:])


# ---------------------------------------------------------------- running
def limit(n):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if n:
            resource.setrlimit(resource.RLIMIT_AS, (n, n))
    return f


def execute(cmd, timeout, cwd=V, e=None, mem=16 * GB):
    """(status, stdout, stderr); status None: timed out."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors='replace', preexec_fn=limit(mem), start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, r = p.communicate()
        return None, o, r


def result(out):
    for l in out.splitlines():
        if l.startswith('RESULT '):
            return json.loads(l[7:])
    return None


class Found(Exception):
    def __init__(self, detail, replay):
        self.detail, self.replay = detail, replay


class Cov:
    """What the legs of one check observed."""

    def __init__(self):
        self.ev = self.dis = 0
        self.counts, self.samples, self.rules, self.legs = {}, [], [], []

    def add(self, name, r, secs, cmd):
        self.ev += r['evaluations']
        self.dis += r['distinct_nontrivial']
        for k, v in r['counts'].items():
            key = name.split('#')[0] + '.' + k
            self.counts[key] = self.counts.get(key, 0) + v
        if r['rule'] not in self.rules:
            self.rules.append(r['rule'])
        for s in r['samples'][:2]:
            if len(self.samples) < 6:
                self.samples.append(s)
        self.legs.append(dict(leg=name, evaluations=r['evaluations'], wall_s=round(secs, 1), cmd=' '.join(cmd)))


def is_crash(rc, err):
    if rc is None:
        return False
    return (rc < 0 and -rc in CRASH) or 'ERROR: AddressSanitizer' in err or 'Undefined Behavior' in err


def headline(err):
    for pat in (r'.*ERROR: AddressSanitizer.*', r'.*Undefined Behavior.*', r".*panicked at.*\n.*", r'.*overflowed its stack.*',
                r'.*memory allocation of.*'):
        m = re.search(pat, err)
        if m:
            return m.group(0).strip()
    return err.strip()[-300:]


def leg(cov, name, cmd, prop, args, timeout, cwd=V, e=None, mem=16 * GB):
    """Runs one workload under one build of the code. The harness's monitors
    decide; a crash of the process or a sanitizer report also counts, once it
    has been reproduced on a single numbered case."""
    full = cmd + [prop] + args
    t0 = time.time()
    rc, out, err = execute(full, timeout, cwd, e, mem)
    secs = time.time() - t0
    rep = dict(cmd=full, cwd=cwd, env={k: (e or {}).get(k) for k in ('MIRIFLAGS', 'CARGO_TARGET_DIR', 'XDG_CACHE_HOME', 'ASAN_OPTIONS')
                                       if e and e.get(k)}, leg=name)
    if rc is None:
        raise Inconclusive('%s: no answer within %d s' % (name, timeout))
    r = result(out)
    if r is not None and rc in (0, 1) and not is_crash(rc, err):
        if r['found']:
            f = r['found'][0]
            rep['cmd'] = full + ['only=%s:%d' % (f['stream'], f['case'])]
            raise Found('[%s %s:%d] %s' % (name, f['stream'], f['case'], f['detail']), rep)
        if rc == 0:
            if 'cases=0' not in args and r['evaluations'] == 0:
                raise Inconclusive(name + ': nothing was observed')
            cov.add(name, r, secs, full)
            return r
    if is_crash(rc, err):
        # which case was it? run one at a time, writing down each before it starts
        tr = os.path.join(T, 'trace-%d-%s' % (os.getpid(), re.sub(r'\W', '_', name)))
        one = [a for a in full if not a.startswith('threads=')] + ['threads=1', 'trace=' + tr]
        rc2, out2, err2 = execute(one, timeout * 8, cwd, e, mem)
        at = open(tr).read() if os.path.exists(tr) else ''
        if os.path.exists(tr):
            os.remove(tr)
        if is_crash(rc2, err2):
            if at:
                rep['cmd'] = full + ['only=' + at]
                rc3, _, err3 = execute(rep['cmd'], timeout, cwd, e, mem)
                if is_crash(rc3, err3):
                    raise Found('[%s %s] the process died or a sanitizer reported: %s' % (name, at, headline(err3)), rep)
            rep['cmd'] = one
            raise Found('[%s] the process died or a sanitizer reported, near case %s: %s' % (name, at, headline(err2)), rep)
        raise Inconclusive('%s: crashed (status %s) but not again: %s' % (name, rc, headline(err)))
    raise Inconclusive('%s: status %s\n%s' % (name, rc, (out + err)[-3000:]))


def rt_legs(prop, tier, seed, cov):
    q = tier == 'quick'
    if prop == 'C04':
        asan = build('rt', 'asan')
        build_miri()
        ae = env(ASAN_OPTIONS='halt_on_error=1:abort_on_error=1:detect_leaks=0:allocator_may_return_null=1')
        n = int((200_000 if q else 6_000_000) * SCALE)
        leg(cov, 'asan', [asan], prop, ['seed=%d' % seed, 'cases=%d' % n, 'secs=%d' % (30 if q else 900)], 300 if q else 2400, e=ae, mem=None)
        miri_legs(cov, prop, seed, None, 'miri', 40 if q else 150, max(2, int((16 if q else 64) * SCALE)))
        if not q:
            build_miri('i686-unknown-linux-gnu')
            miri_legs(cov, prop, seed + 7, 'i686-unknown-linux-gnu', 'miri-i686', 60, 32)
            build_miri('s390x-unknown-linux-gnu')
            miri_legs(cov, prop, seed + 9, 's390x-unknown-linux-gnu', 'miri-s390x', 60, 32)
        return
    base = dict(C01=150, C02=150, C03=300, C05=100, C06=150, C07=150, C08=300, C09=200, C10=200)[prop] * 1000
    mul = (24 if prop in ('C03', 'C06', 'C08', 'C09', 'C10') else 15) if q else 300
    for kind in ('debug', 'release'):
        b = build('rt', kind)
        leg(cov, kind, [b], prop, ['seed=%d' % seed, 'cases=%d' % int(base * mul * SCALE), 'secs=%d' % (90 if q else 900)], 300 if q else 2400)
        if prop == 'C07':
            leg(cov, kind + '-2GiB', [b], prop, ['big=1', 'seed=%d' % seed, 'threads=1'], 400, mem=None)
    if not q:
        for tgt, nm in (('s390x-unknown-linux-gnu', 'miri-s390x'), ('i686-unknown-linux-gnu', 'miri-i686')):
            build_miri(tgt)
            miri_legs(cov, prop, seed + 3, tgt, nm, 40, 24)


def miri_legs(cov, prop, seed, target, name, cases, procs):
    """The same workload interpreted by Miri, several processes side by side."""
    d = os.path.join(V, 'harness', 'rt')
    e = miri_env(target)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(leg, cov, '%s#%d' % (name, i), miri_cmd(target), prop,
                        ['seed=%d' % (seed * 1000 + i), 'cases=%d' % cases, 'threads=1', 'secs=600'], 840, d, e, None) for i in range(procs)]
        first = None
        for f in fs:
            try:
                f.result()
            except (Found, Inconclusive) as x:
                if first is None or isinstance(x, Found) and not isinstance(first, Found):
                    first = x
                for g in fs:
                    g.cancel()
            except cf.CancelledError:
                pass
        if first:
            raise first


RT = ['C%02d' % i for i in range(1, 11)]


def run(prop, tier, seed):
    t0 = time.time()
    os.makedirs(T, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    cov = Cov()
    status, viol = 0, []
    try:
        if prop in RT:
            rt_legs(prop, tier, seed, cov)
        else:
            import cg
            cg.check(prop, tier, seed, cov)
    except Found as f:
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        rp = os.path.join(V, 'replays', '%s-%s-%d.json' % (prop, tier, seed))
        f.replay['property'] = prop
        f.replay['detail'] = f.detail
        json.dump(f.replay, open(rp, 'w'), indent=1)
        print(f.detail)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        viol.append(f.detail)
        status = 1
    except Inconclusive as x:
        print('INCONCLUSIVE property=%s: %s' % (prop, x))
        status = 2
    if status != 2:
        m = [c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks'] if c['property'] == prop]
        ev = dict(property=prop, tier=tier, seed=seed, level=m[0]['level'] if m else 'exploration',
                  coverage=dict(evaluations=cov.ev, distinct_nontrivial=cov.dis, rule=' / '.join(cov.rules) or 'stopped at a violation',
                                samples=cov.samples, observed=cov.counts, legs=cov.legs),
                  wall_s=round(time.time() - t0, 1), violations=viol)
        with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        if not status:
            print('OK property=%s evaluations=%d distinct=%d wall=%.1fs' % (prop, cov.ev, cov.dis, time.time() - t0))
    return status


def replay(path):
    r = json.load(open(path))
    print(r['detail'])
    prop = r['property']
    if 'rt-' in r['cmd'][0] and prop in RT:
        build('rt', [k for k in KINDS if 'rt-' + k in r['cmd'][0]][0])
    if prop not in RT:
        import cg
        return cg.replay(r)
    rc, o, e = execute(r['cmd'], 900, r['cwd'], env(**r.get('env', {})), None)
    print(o + e[-3000:])
    return rc


def setup():
    os.makedirs(T, exist_ok=True)
    for k in KINDS:
        build('rt', k)
    build_miri()
    import cg
    cg.setup()


if __name__ == '__main__':
    a = sys.argv[1:]
    sys.modules['check'] = sys.modules['__main__']
    if a[0] == '--setup':
        try:
            setup()
        except Inconclusive as x:
            print(x)
            sys.exit(2)
        sys.exit(0)
    if a[0] == '--replay':
        sys.exit(1 if replay(a[1]) else 0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for i, x in enumerate(a):
        if x == '--tier':
            tier = a[i + 1]
        if x == '--seed':
            seed = int(a[i + 1])
    try:
        sys.exit(run(a[0], tier, seed))
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
