"""Checks of the schema compiler (C11-C25).

Batches: the real compiler turns random schemas into code, rustc builds it
together with adapters (harness/cg) and the monitors of harness/glue, and the
programs run under their workload. In-process: harness/cg calls the compiler
directly and its monitors decide (see LOCAL)."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, threading, time

C = sys.modules['check']
V, T, GB = C.V, C.T, C.GB


def artifacts(kind='debug'):
    """The cg binary and the rlibs generated code is compiled against."""
    k = C.KINDS[kind]
    d = os.path.join(V, 'harness', 'cg')
    tgt = os.path.join(T, 'cg-' + kind)
    cmd = ['cargo'] + ([k['tool']] if 'tool' in k else []) + ['build', '--offline', '--quiet', '--message-format=json'] + k['args']
    p = subprocess.run(cmd, cwd=d, env=C.env(CARGO_TARGET_DIR=tgt, **k.get('env', {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        msgs = [m['message']['rendered'] for m in map(json.loads, filter(None, p.stdout.splitlines()))
                if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error']
        raise C.Inconclusive('build of cg (%s) failed:\n%s%s' % (kind, p.stderr[-1000:], ''.join(msgs)[:3000]))
    a = dict(bin=os.path.join(tgt, k['sub'], 'cg'), deps=os.path.join(tgt, k['sub'], 'deps'), kind=kind)
    for l in p.stdout.splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] in ('butte', 'glue') and 'lib' in m['target']['kind']:
            a[m['target']['name']] = [f for f in m['filenames'] if f.endswith('.rlib')][0]
    return a


REJECT_IS_VIOLATION = {'C15', 'C16', 'C17', 'C18', 'C25'}
# property: (schemas quick, schemas thorough, cases per schema quick, thorough)
BATCH = {
    'C12': (6000, 60000, 0, 0),
    'C13': (1500, 16000, 1000, 6000),
    'C14': (1500, 16000, 1000, 6000),
    'C15': (2000, 20000, 1000, 6000),
    'C16': (1200, 16000, 700, 4000),
    'C17': (1500, 16000, 1000, 6000),
    'C18': (900, 10000, 250, 1000),
    'C24': (1200, 12000, 3000, 20000),
    'C25': (800, 8000, 1000, 6000),
}
CHUNK = 16


def compile_rs(a, rs, out, metadata, opt, edition='2018'):
    cmd = ['rustc', '--edition', edition, '-A', 'warnings', '--cap-lints', 'allow', '-Cdebuginfo=0', '-L', a['deps'], '--extern', 'butte=' + a['butte'],
           '--extern', 'glue=' + a['glue'], '--crate-type', 'bin', '--crate-name', 'batch', '-Ccodegen-units=1'] + opt
    cmd += ['--emit=metadata', '-o', out] if metadata else ['-o', out]
    return C.execute(cmd + [rs], 600, e=C.env(TMPDIR=os.path.dirname(out)), mem=12 * GB)


def first_error(err):
    ls = err.splitlines()
    for i, l in enumerate(ls):
        if l.startswith('error'):
            return ' | '.join(x.strip() for x in ls[i:i + 7])[:700]
    return err[-300:]


def replay_of(prop, seed, idx, **kw):
    return dict(kind='batch', prop=prop, seed=seed, idx=idx, **kw)


class Stop(Exception):
    pass


def one_batch(a, prop, seed, idxs, cases, cov, lock, dirn, opt=(), only=None):
    """One program: some schemas, their code, their workload."""
    os.makedirs(dirn, exist_ok=True)
    try:
        rs, exe = os.path.join(dirn, 'batch.rs'), os.path.join(dirn, 'batch')
        rc, out, err = C.execute([a['bin'], 'batch', prop, str(seed), rs] + [str(i) for i in idxs], 300, mem=8 * GB)
        if rc is None:
            raise C.Inconclusive('compiling schemas took over 300 s')
        if rc != 0:
            if C.is_crash(rc, err):
                if len(idxs) > 1:
                    for i in idxs:
                        one_batch(a, prop, seed, [i], cases, cov, lock, os.path.join(dirn, 'x'), opt, only)
                    raise C.Inconclusive('the schema compiler died on a batch but on no single schema of it: ' + C.headline(err))
                raise C.Found('the schema compiler died on valid schema %d: %s' % (idxs[0], C.headline(err)), replay_of(prop, seed, idxs[0]))
            raise C.Inconclusive('cg batch: status %s %s' % (rc, err[-1500:]))
        ok, rej = [], 0
        for l in out.splitlines():
            w = l.split(' ', 3)
            if w[0] == 'OK':
                ok.append(int(w[1]))
            elif w[0] == 'PANIC':
                raise C.Found('the schema compiler panicked on valid schema %s: %s' % (w[1], w[3]), replay_of(prop, seed, int(w[1])))
            elif w[0] == 'BROKEN':
                raise C.Found('schema %s: %s' % (w[1], json.loads(w[3])), replay_of(prop, seed, int(w[1])))
            elif w[0] == 'REJECTED':
                if prop in REJECT_IS_VIOLATION:
                    raise C.Found('valid schema %s was rejected: %s' % (w[1], w[3]), replay_of(prop, seed, int(w[1])))
                rej += 1
        with lock:
            cov.counts['batch.accepted'] = cov.counts.get('batch.accepted', 0) + len(ok)
            cov.counts['batch.rejected'] = cov.counts.get('batch.rejected', 0) + rej
        if not ok:
            return
        t0 = time.time()
        rc, out, err = compile_rs(a, rs, exe, prop == 'C12', list(opt), '2021' if idxs[0] // CHUNK % 2 else '2018')
        if rc is None or rc < 0 or 'internal compiler error' in err or 'No space left' in err:
            raise C.Inconclusive('rustc: status %s %s' % (rc, err[-1000:]))
        if rc != 0:
            if len(idxs) > 1:
                for i in ok:
                    one_batch(a, prop, seed, [i], cases, cov, lock, os.path.join(dirn, 'x'), opt, only)
                raise C.Inconclusive('a batch does not compile but each of its schemas does: ' + first_error(err))
            raise C.Found('the code generated from schema %d does not compile%s: %s' % (
                ok[0], '' if prop == 'C12' else ' (with the calls a user of the schema would write)', first_error(err)), replay_of(prop, seed, ok[0]))
        if prop == 'C12':
            with lock:
                cov.ev += len(ok)
                cov.dis += len(ok)
                cov.counts['batch.source_bytes'] = cov.counts.get('batch.source_bytes', 0) + os.path.getsize(rs)
                if len(cov.samples) < 3:
                    cov.samples.append('schemas %s of seed %d' % (ok, seed))
            return
        args = ['seed=%d' % seed, 'sseed=%d' % seed, 'cases=%d' % cases, 'threads=1'] + (['only=' + only] if only else [])
        try:
            sub = C.Cov()
            C.leg(sub, 'batch', [exe], prop, args, 600, mem=4 * GB)
            with lock:
                cov.ev += sub.ev
                cov.dis += sub.dis
                for k, v in sub.counts.items():
                    cov.counts[k] = cov.counts.get(k, 0) + v
                cov.rules = sub.rules
                cov.samples += sub.samples[:1] if len(cov.samples) < 6 else []
        except C.Found as f:
            at = [x[5:] for x in f.replay['cmd'] if x.startswith('only=')]
            idx = int(at[0].split(':')[0][1:]) if at else ok[0]
            raise C.Found(f.detail, replay_of(prop, seed, idx, cases=cases, only=at[0] if at else None))
    finally:
        shutil.rmtree(dirn, ignore_errors=True)


def batches(prop, tier, seed, cov):
    q = tier == 'quick'
    a = artifacts()
    nq, nt, cq, ct = BATCH[prop]
    n, cases = (nq, cq) if q else (nt, ct)
    n, cases = max(CHUNK, int(n * C.SCALE)), int(cases * C.SCALE)
    deadline = time.time() + (150 if q else 2400)
    base = os.path.join(T, 'batch-%s-%d' % (prop, os.getpid()))
    lock = threading.Lock()
    done = [0]

    def go(lo):
        if time.time() > deadline:
            return
        one_batch(a, prop, seed, list(range(lo, min(lo + CHUNK, n))), cases, cov, lock, os.path.join(base, str(lo)))
        with lock:
            done[0] += 1

    t0 = time.time()
    first = None
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(go, lo) for lo in range(0, n, CHUNK)]
            for f in cf.as_completed(fs):
                try:
                    f.result()
                except cf.CancelledError:
                    continue
                except (C.Found, C.Inconclusive) as x:
                    if first is None or (isinstance(x, C.Found) and not isinstance(first, C.Found)):
                        first = x
                    if isinstance(x, C.Found):
                        for g in fs:
                            g.cancel()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if first:
        raise first
    if not cov.counts.get('batch.accepted'):
        raise C.Inconclusive('the compiler accepted none of the schemas')
    cov.legs.append(dict(leg='batch', schemas=cov.counts['batch.accepted'], evaluations=cov.ev, wall_s=round(time.time() - t0, 1),
                         cmd='%s batch %s %d <out> 0..%d; rustc; run cases=%d' % (a['bin'], prop, seed, n, cases)))
    if prop == 'C12':
        cov.rules = ['schemas whose generated code was built by rustc']


# property: (cases quick, thorough, seconds quick, thorough)
LOCAL = {
    'C11': (120000, 3000000, 120, 1500),
    'C18': (6000, 150000, 80, 1200),
    'C19': (15000, 250000, 120, 1800),
    'C20': (1200, 12000, 150, 1800),
    'C21': (10000, 100000, 120, 1800),
    'C22': (50000, 1500000, 120, 1800),
    'C23': (15000, 300000, 120, 1800),
}


def local(prop, tier, seed, cov):
    q = tier == 'quick'
    a = artifacts()
    cq, ct, sq, st = LOCAL[prop]
    cq, ct = int(cq * C.SCALE), int(ct * C.SCALE)
    w = os.path.join(T, 'work-%s-%d' % (prop, os.getpid()))
    os.makedirs(w)
    try:
        C.leg(cov, 'local', [a['bin'], 'check'], prop, ['seed=%d' % seed, 'cases=%d' % (cq if q else ct), 'secs=%d' % (sq if q else st), 'work=' + w],
              (400 if q else st + 600))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check(prop, tier, seed, cov):
    if prop in LOCAL:
        local(prop, tier, seed, cov)
    if prop in BATCH:
        batches(prop, tier, seed, cov)
    if prop not in LOCAL and prop not in BATCH:
        raise C.Inconclusive('no check for ' + prop)


def replay(r):
    a = artifacts()
    if r.get('kind') == 'batch':
        rc, out, err = C.execute([a['bin'], 'text', r['prop'], str(r['seed']), str(r['idx'])], 60)
        print(out)
        try:
            one_batch(a, r['prop'], r['seed'], [r['idx']], r.get('cases', 0), C.Cov(), threading.Lock(), os.path.join(T, 'replay-%d' % os.getpid()),
                      only=r.get('only'))
        except C.Found as f:
            print(f.detail)
            return 1
        print('the violation did not occur again')
        return 0
    w = [x[5:] for x in r['cmd'] if x.startswith('work=')]
    for d in w:
        os.makedirs(d, exist_ok=True)
    rc, o, e = C.execute(r['cmd'], 900, r['cwd'], C.env(), None)
    print(o + e[-3000:])
    for d in w:
        shutil.rmtree(d, ignore_errors=True)
    return rc


def setup():
    artifacts()
