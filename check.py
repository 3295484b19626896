#!/usr/bin/env python3
"""Deterministic simulation checks.

  check.py --build                 build the simulator for every property
  check.py PROP [quick|thorough]   run one property's check (tier defaults to $VERIF_TIER)
  check.py --replay FILE           replay a violation
Seeds come from $VERIF_SEED. Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SIM = os.path.join(VERIF, 'sim')
CXX = 'g++'
COMMON = ['-D__forceinline=inline', '-include', 'cstring', '-I' + os.path.join(REPO, 'include'), '-pthread', '-w']
LIB_FLAGS = ['-std=gnu++11', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize-coverage=trace-pc'] + COMMON
INFRA_FLAGS = ['-std=gnu++17', '-O1', '-g1'] + COMMON
PROP_FLAGS = ['-std=gnu++17', '-O1', '-g1', '-fsanitize=address'] + COMMON
LINK = ['-fsanitize=address', '-no-pie', '-rdynamic', '-pthread']
# A check marked 'fine' (C06) can preempt at every memory access: its library is compiled with -fsanitize=thread
# against the stand-ins in sim/fine.cpp.
INFRA = ['core', 'ref', 'world', 'probes', 'refine', 'gen']
EXECUTORS = ['c16', 'c17', 'c18']     # also used by other checks
JOBS = max(1, min(8, os.cpu_count() or 1))

from checks import CHECKS, COMPONENTS  # noqa: E402


class Trouble(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build
def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def compile_all(tus):
    """tus: [(source, flags, headers digest)] -> object paths, in order."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    version = subprocess.run([CXX, '--version'], capture_output=True, text=True).stdout.splitlines()[0]

    def one(t):
        src, flags, hd = t
        o = os.path.join(BUILD, 'obj', digest(version, read(src), os.path.basename(src), ' '.join(flags), hd) + '.o')
        if not os.path.exists(o):
            tmp = '%s.%d.tmp' % (o, os.getpid())
            r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
            if r.returncode:
                raise Trouble('cannot compile %s:\n%s' % (src, r.stderr[-4000:]))
            os.replace(tmp, o)
        return o
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, tus))


def build(props=None, fine=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hdr = [p for d in ('include', 'src') for p in sorted(glob.glob(os.path.join(REPO, d, '**', '*'), recursive=True)) if re.search(r'\.(h|hpp|hh|inl|ipp)$', p)]
        repo_h = digest(*[x for p in hdr for x in (os.path.relpath(p, REPO), read(p))])
        sim_h = digest(*[x for p in sorted(glob.glob(SIM + '/*.h')) for x in (os.path.basename(p), read(p))])
        srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
        if not srcs:
            raise Trouble('no library sources under %s/src' % REPO)
        fine = fine and bool(props) and all(CHECKS[p].get('fine') for p in props)
        lib = [f.replace('address', 'thread') if fine and f == '-fsanitize=address' else f for f in LIB_FLAGS]
        prop = [f for f in PROP_FLAGS if not (fine and f == '-fsanitize=address')]
        tus = [(s, lib, repo_h) for s in srcs]
        tus += [(os.path.join(SIM, n + '.cpp'), INFRA_FLAGS, repo_h + sim_h) for n in INFRA + (['fine'] if fine else [])]
        names = sorted({CHECKS[p]['tu'] for p in (props or CHECKS)} | set(EXECUTORS))
        tus += [(os.path.join(SIM, n + '.cpp'), prop, repo_h + sim_h) for n in names]
        objs = compile_all(tus)
        exe, retry = os.path.join(BUILD, 'dsim-' + digest(*objs)), False
        if not os.path.exists(exe):
            tmp = '%s.%d.tmp' % (exe, os.getpid())
            r = subprocess.run([CXX] + (LINK[1:] if fine else LINK) + objs + ['-o', tmp, '-ldl'], capture_output=True, text=True)
            if r.returncode and fine:
                retry = True
            elif r.returncode:
                raise Trouble('cannot link the simulator:\n' + r.stderr[-4000:])
            else:
                os.replace(tmp, exe)
        keep = set(objs)
        now = time.time()
        for p in glob.glob(os.path.join(BUILD, 'obj', '*')) + glob.glob(os.path.join(BUILD, 'dsim-*')):
            try:
                if p not in keep and p != exe and now - os.path.getmtime(p) > 3 * 3600:
                    os.unlink(p)
            except OSError:
                pass
    return build(props, False) if retry else exe       # a run-time entry fine.cpp lacks: preempt at basic blocks only


# ------------------------------------------------------------------ running the simulator
def crash_signature(rc, err):
    m = re.search(r'Assertion [`\'](.+?)\' failed', err)
    if m:
        fn = re.search(r':\d+: (.*?): Assertion', err)
        return 'assertion:' + m.group(1)[:80] + (' in ' + re.sub(r'\(.*', '', fn.group(1))[-60:] if fn else '')
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        fn = ''
        for f in re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]+)', err):
            if 'atg_scs' in f:
                fn = re.sub(r'\(.*', '', f.split(' /')[0])
                break
        return 'sanitizer:' + m.group(1) + (' in ' + fn if fn else '')
    m = re.search(r'DSIM-FATAL: ([\w-]+)', err)
    if m:
        return 'fatal:' + m.group(1)
    if 'terminate called' in err:
        m = re.search(r"terminate called after throwing an instance of '(.+?)'", err)
        return 'terminate:' + (m.group(1) if m else '?')
    return 'crash:rc=%d' % rc


def execute(exe, text, work, timeout=120):
    """Run a replay text in a fresh process -> (kind or None, message, hash)."""
    fd, path = tempfile.mkstemp(dir=work, suffix='.plan')
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    try:
        r = subprocess.run([exe, 'exec', path], capture_output=True, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', 'no result within %d s' % timeout, ''
    finally:
        os.unlink(path)
    if r.returncode == 0:
        j = json.loads(r.stdout.strip().splitlines()[-1])
        return (None, '', j['hash']) if j['ok'] else (j['kind'], 'operation %d: %s' % (j['op'], j['msg']), j['hash'])
    sig = crash_signature(r.returncode, r.stderr)
    lines = [l for l in r.stderr.splitlines() if re.search(r'ERROR|Assertion|DSIM-FATAL|terminate', l)]
    return sig, (lines[0].strip() if lines else 'process ended with status %d' % r.returncode), ''


def run_batches(exe, prop, base, total, work, maxs, tag, chunk=0):
    """Runs [0, total) in JOBS ranges; each range in one process, or in a fresh process per `chunk` runs
    (what only happens the first time a process does something needs many processes)."""
    t_end = time.time() + maxs
    found = []

    def batch(start, count, pre):
        left = t_end - time.time()
        if left <= 0 or found and start != found[0]:
            return None
        with open(pre + '.err', 'w') as err:
            for attempt in (0, 1):
                try:
                    rc = subprocess.run([exe, 'batch', prop, str(base), str(start), str(count), pre, '%.1f' % left], stdout=err, stderr=err, timeout=left + 120).returncode
                except subprocess.TimeoutExpired:
                    rc = -999
                if rc not in (-9, -15):                    # ended from outside (memory, an operator): once more
                    break
        if rc or os.path.getsize(pre + '.viol'):
            found.append(start)
        return dict(pre=pre, rc=rc, start=start)

    def one(s):
        n = (total // JOBS) + (1 if s < total % JOBS else 0)
        out, at = [], 0
        while at < n:
            c = min(chunk or n, n - at)
            out.append(batch(s * 10_000_000 + at, c, os.path.join(work, '%s_%s_%d_%d' % (prop, tag, s, at))))
            at += c
        return [x for x in out if x]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [x for r in ex.map(one, range(JOBS)) for x in r]


def gen(exe, prop, base, idx):
    r = subprocess.run([exe, 'gen', prop, str(base), str(idx)], capture_output=True, text=True)
    if r.returncode:
        raise Trouble('plan generation failed: ' + r.stderr[-500:])
    return r.stdout


# ------------------------------------------------------------------ minimisation
def minimise(exe, text, kind, work, budget):
    t_end = time.time() + budget
    lines = [l for l in text.splitlines() if l.strip()]
    # a leading history of other runs, if any, is reduced plan by plan first
    cut = max(i for i, l in enumerate(lines) if l.startswith('plan '))
    history, head, ops = lines[:cut], lines[cut], lines[cut + 1:]

    def join(o, h=None):
        return '\n'.join((history if h is None else h) + [head] + o) + '\n'

    def fails(cands):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            return [k == kind for k, _, _ in ex.map(lambda c: execute(exe, join(c), work, 60), cands)]

    n = 2
    while len(ops) > 1 and time.time() < t_end:          # ddmin on operations
        size = max(1, len(ops) // n)
        cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
        done = False
        for i in range(0, len(cands), JOBS):
            if time.time() > t_end:
                break
            ok = fails(cands[i:i + JOBS])
            if any(ok):
                ops = cands[i + ok.index(True)]
                n = max(2, n - 1)
                done = True
                break
        if not done:
            if size == 1:
                break
            n = min(len(ops), n * 2)

    def num(tok):
        return float.fromhex(tok) if re.search(r'[xX]', tok) else None
    i = 0
    while i < len(ops) and time.time() < t_end:          # simplify numbers
        toks = ops[i].split(' ')
        cands = []
        for j in range(1, len(toks)):
            v = num(toks[j])
            if v is not None:
                for w in (0.0, 1.0, float(round(v)), float('%.2g' % v)):
                    if w != v and (w != 0.0 or toks[0] not in ('MASS',)):
                        cands.append((j, w))
        took = set()
        for c0 in range(0, len(cands), JOBS):
            if time.time() > t_end:
                break
            part = [c for c in cands[c0:c0 + JOBS] if c[0] not in took]
            trial = [ops[:i] + [' '.join(toks[:j] + [w.hex()] + toks[j + 1:])] + ops[i + 1:] for j, w in part]
            if not trial:
                continue
            ok = fails(trial)
            for (j, w), k in zip(part, ok):
                if k and j not in took:
                    took.add(j)
                    cand = toks[:j] + [w.hex()] + toks[j + 1:]
                    if len(took) == 1 or fails([ops[:i] + [' '.join(cand)] + ops[i + 1:]])[0]:
                        toks = cand
        ops = ops[:i] + [' '.join(toks)] + ops[i + 1:]
        i += 1
    return join(ops)


# ------------------------------------------------------------------ one check
def confirm(exe, text, kind, work):
    a = execute(exe, text, work)
    b = execute(exe, text, work)
    return a[0] is not None and a[0] == b[0] and (kind is None or a[0] == kind) and a[2] == b[2], a


def report(exe, prop, base, viols, work, tier):
    """viols: [(idx, kind or None, start of its batch)]. Returns (kind, message, replay path) or None."""
    budget = 60 if tier == 'quick' else 180
    unconfirmed = []
    for idx, kind, start in sorted(viols, key=lambda v: v[0] - v[2]):
        text = gen(exe, prop, base, idx)
        ok, got = confirm(exe, text, kind, work)
        if not ok and idx > start:
            # needs what earlier runs of the same process left behind: replay them as well
            k = 1
            while not ok:
                k = min(k * 4, idx - start)
                text = ''.join(gen(exe, prop, base, i) for i in range(max(start, idx - k), idx + 1))
                ok, got = confirm(exe, text, kind, work)
                if k == idx - start or k > 300:
                    break
        if not ok:
            unconfirmed.append((idx, kind, got))
            continue
        small = minimise(exe, text, got[0], work, budget)
        ok2, got2 = confirm(exe, small, got[0], work)
        if not ok2:
            small, got2 = text, got
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.plan' % (prop, hashlib.sha256(small.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write('# property %s  VERIF_SEED %d  run %d\n# %s: %s\n# replay: python3 check.py --replay %s\n' % (prop, base, idx, got2[0], got2[1].replace('\n', ' '), os.path.relpath(path, VERIF)))
            f.write(small)
        return got2[0], got2[1], path, unconfirmed
    if unconfirmed:
        raise Trouble('a violation did not reproduce in a fresh process: %s' % (unconfirmed[:3],))
    return None


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]
    total = c[tier]
    cap = 420 if tier == 'quick' else 6 * 3600
    exe = build([prop])
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix='dsim_%s_' % prop)
    try:
        t1 = time.time()
        shards = run_batches(exe, prop, seed, total, work, cap, 'a', c.get('chunk', 0))
        sim_wall = time.time() - t1
        viols, died, done, nontrivial, sigs, hashes = [], [], 0, 0, set(), {}
        stats_c, stats_f, pcs = {}, {}, set()
        for s in shards:
            err = open(s['pre'] + '.err', errors='replace').read()
            if s['rc'] == -999:
                raise Trouble('a batch of simulated runs did not end')
            for l in open(s['pre'] + '.viol'):
                j = json.loads(l)
                viols.append((j['idx'], j['kind'], s['start']))
            if s['rc'] != 0:
                prog = struct.unpack('QQ', read(s['pre'] + '.progress'))
                if not prog[1]:
                    raise Trouble('the simulator failed (status %d): %s' % (s['rc'], err[-1500:]))
                viols.append((prog[0], None, s['start']))
                died.append((prog[0], s['rc'], err[-300:]))
                done += prog[0] - s['start'] + 1
                continue
            j = json.load(open(s['pre'] + '.stats'))
            done += j['done']
            for k, v in j['c'].items():
                stats_c[k] = stats_c.get(k, 0) + v
            for k, v in j['f'].items():
                stats_f[k] = stats_f.get(k, 0) + v if k.startswith('sim_') else max(stats_f.get(k, v), v)
            pcs.update(j['pcs'])
            data = read(s['pre'] + '.hash')
            for n in range(len(data) // 24):
                h, g, nt = struct.unpack_from('QQQ', data, 24 * n)
                hashes[s['start'] + n] = h
                nontrivial += nt
                if nt:
                    sigs.add(g)
        try:
            found = report(exe, prop, seed, viols, work, tier) if viols else None
        except Trouble as e:
            raise Trouble('%s; batches that died: %s' % (e, died)) from None
        # determinism: repeat a sample of runs in another process, without their predecessors
        redo, mismatch = 0, 0
        if not viols and hashes:
            start = shards[0]['start']
            n = len([i for i in hashes if start <= i < start + 10_000_000])
            lo = start + n // 2
            cnt = min(n - n // 2, max(5, n // 20))
            again = os.path.join(work, 'again')
            subprocess.run([exe, 'batch', prop, str(seed), str(lo), str(cnt), again, '200'], capture_output=True)
            if os.path.exists(again + '.hash'):
                data = read(again + '.hash')
                for k in range(len(data) // 24):
                    h, _, _ = struct.unpack_from('QQQ', data, 24 * k)
                    redo += 1
                    mismatch += hashes.get(lo + k) != h
        samples = [dict(run=i, plan=gen(exe, prop, seed, i).splitlines()[:60]) for i in (0,)]
        faults = {k[6:]: v for k, v in stats_c.items() if k.startswith('fault.')}
        cov = dict(
            evaluations=done, distinct_nontrivial=len(sigs), rule=c['rule'], samples=samples,
            nontrivial_runs=nontrivial,
            runs_per_hour=int(done / max(sim_wall, 1e-3) * 3600), seeds_per_hour=int(done / max(sim_wall, 1e-3) * 3600),
            simulated_seconds=stats_f.pop('sim_seconds', 0.0),
            faults_injected=faults,
            workload={k: v for k, v in sorted(stats_c.items()) if not k.startswith('fault.')},
            extremes=stats_f,
            library_basic_blocks_reached=len(pcs),
            distinct_structures_measure='FNV hash over the run\'s structural trace (counts, constraint kinds and their positions, fault kinds and outcomes, schedule)',
            determinism=dict(runs_repeated_in_another_process=redo, different=mismatch),
            components=COMPONENTS,
        )
        ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
                  assumptions=c.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if found else 0)
        if found:
            ev['violation'] = dict(kind=found[0], message=found[1], replay=found[2])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        log('%s %s: %d runs (%d deciding, %d distinct) in %.1f s (+%.1f s build), faults %s%s' % (
            prop, tier, done, nontrivial, len(sigs), sim_wall, t_build, json.dumps(faults), ', %d of %d repeats differ' % (mismatch, redo) if mismatch else ''))
        if found:
            log('%s: %s' % (found[0], found[1]))
            log('VIOLATION property=%s replay=%s' % (prop, found[2]))
            return 1
        if nontrivial < c.get('min_nontrivial', 0.5) * done:
            raise Trouble('only %d of %d runs reached the deciding observation' % (nontrivial, done))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    try:
        if argv[:1] == ['--build']:
            build()
            build([p for p in CHECKS if CHECKS[p].get('fine')])
            return 0
        if argv[:1] == ['--replay']:
            text = open(argv[1]).read()
            prop = re.search(r'^plan (\S+)', text, re.M).group(1)
            work = tempfile.mkdtemp(prefix='dsim_replay_')
            try:
                k, m, h = execute(build([prop]), text, work)
            finally:
                shutil.rmtree(work, ignore_errors=True)
            log('%s: %s' % (k, m) if k else 'held')
            if k:
                log('VIOLATION property=%s replay=%s' % (prop, argv[1]))
            return 1 if k else 0
        tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
        return check(argv[0], tier if tier in ('quick', 'thorough') else 'quick')
    except Trouble as e:
        log('error: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
