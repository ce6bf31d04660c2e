"""Exploration core: seeded cases, simulated runs, minimisation, replay, evidence.

One integer decides everything.  A check derives every case from
(VERIF_SEED, property, index); a case is a JSON value; judging a case runs
the simulator (sim/simrun.cpp) one or more times and is a pure function of
the case and the code under test.
"""
import copy, hashlib, json, multiprocessing, os, random, re, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

HEX = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./,=:')


def enc(s):
    if isinstance(s, str):
        s = s.encode('utf-8', 'surrogateescape')
    return ''.join(chr(c) if c in HEX else '%%%02X' % c for c in s)


def dec(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '%':
            if i + 1 >= len(s):
                break
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf-8', 'surrogateescape')
            i += 1
    return bytes(out)


class SimError(Exception):
    pass


class Result:
    def __init__(self, text):
        self.end = None
        self.files, self.modes, self.dirs, self.links, self.nodes = {}, {}, {}, {}, {}
        self.meta = {}
        self.events, self.decs, self.fired, self.stat = [], [], {}, {}
        self.res, self.hash, self.trace, self.left = None, None, [], {}
        for l in text.split('\n'):
            if not l:
                continue
            k, _, r = l.partition(' ')
            w = r.split(' ')
            if k == 'end':
                self.end = (w[0], int(w[1])) if len(w) > 1 else (w[0], 0)
            elif k == 'event':
                self.events.append(r)
            elif k == 'res':
                self.res = dec(r[1:]) if r[:1] == '.' else b''
            elif k == 'file':
                p = dec(w[0]).decode('utf-8', 'surrogateescape')
                self.modes[p] = int(w[1], 8)
                self.meta[p] = (int(w[2]), int(w[3]), int(w[4]))
                d = w[5] if len(w) > 5 else '-'
                self.files[p] = dec(d[1:]) if d[:1] == '.' else b''
            elif k == 'dir':
                p = dec(w[0]).decode('utf-8', 'surrogateescape')
                self.dirs[p] = w[1:]
            elif k == 'link':
                self.links[dec(w[0]).decode('utf-8', 'surrogateescape')] = dec(w[1]).decode('utf-8', 'surrogateescape')
            elif k == 'node':
                self.nodes[dec(w[0]).decode('utf-8', 'surrogateescape')] = w[1:]
            elif k == 'dec':
                self.decs.append(r)
            elif k == 'fired':
                self.fired[w[0]] = self.fired.get(w[0], 0) + int(w[1])
            elif k == 'stat':
                self.stat[w[0]] = w[1]
            elif k == 'left':
                self.left[w[0]] = w[1:]
            elif k == 'hash':
                self.hash = w[0]
            elif k == 'trace':
                self.trace.append(r)
        if self.end is None or self.hash is None:
            raise SimError('no end: ' + text[-300:])

    def ok(self):
        return self.end == ('exit', 0)

    def out(self, p='/dev/out'):
        return self.files.get(p) or b''


class Ctx:
    """What a judge may use: the build and the simulator."""

    def __init__(self, b, tier):
        self.b, self.tier = b, tier
        self.nruns = 0
        self.simns = 0
        self.fired = {}
        self.hashes = set()
        self.checked2 = 0
        self.mism = 0
        self.errors = []
        self.rr = 0
        self.last = []

    def raw(self, text, timeout=300):
        p = subprocess.Popen([self.b.simrun, '/dev/stdin'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env={'PATH': '/usr/bin:/bin'}, cwd='/')
        try:
            o, e = p.communicate(text.encode('utf-8', 'surrogateescape'), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise SimError('simulator timeout')
        if p.returncode != 0:
            raise SimError('simulator failed %d: %s' % (p.returncode, e.decode(errors='replace')[-500:]))
        return o.decode('utf-8', 'surrogateescape')

    def sim(self, lines, timeout=300):
        text = '\n'.join(lines) + '\n'
        o = self.raw(text, timeout)
        r = Result(o)
        self.nruns += 1
        self.simns += int(r.stat.get('simns', 0))
        for k, v in r.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.hashes.add(r.stat.get('pathhash', ''))
        self.rr += 1
        if self.rr % 50 == 7:
            self.checked2 += 1
            if Result(self.raw(text, timeout)).hash != r.hash:
                self.mism += 1
                if len(self.errors) < 3:
                    self.errors.append('nondeterministic run')
                    with open(os.path.join(B.BUILD, 'nondet-%d.scn' % os.getpid()), 'w') as f:
                        f.write(text)
        self.last.append((text, r))
        return r


def fault_lines(case):
    """The schedule and faults of a case: seeded rules, or a recorded list."""
    ls = ['seed %d' % case.get('seed', 1)]
    if case.get('dec') is not None:
        ls += ['listmode'] + ['dec ' + d for d in case['dec']]
    else:
        ls += ['rule ' + r for r in case.get('rules', [])]
    return ls


class Verdict:
    def __init__(self, sig=None, msg='', main=None, key=None, nontrivial=True):
        self.sig, self.msg, self.main, self.key, self.nontrivial = sig, msg, main, key, nontrivial


class Check:
    pid = None
    parts = ('mes',)
    level = 'exploration'
    rule = ''
    real = []
    stub = []
    assumptions = []
    quick_s, thorough_s = 70, 700
    min_cases = 0
    fixed = 0         # the first `fixed` indices are a fixed suite, independent of the seed

    def gen(self, rng, i, ctx):
        raise NotImplementedError

    def judge(self, case, ctx):
        raise NotImplementedError

    def shrink(self, case):
        """Yields simpler cases."""
        return iter(())

    def describe(self, case):
        s = json.dumps(case)
        return s if len(s) < 1500 else s[:1500] + '...'

    def prepare(self, ctx):
        pass


_W = {}


def _winit(check, b, tier, seed, deadline, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _W.update(check=check, ctx=Ctx(b, tier), seed=seed, deadline=deadline, known=known)


def case_rng(seed, pid, i):
    return random.Random('%s/%s/%d' % (seed, pid, i))


def _work(i):
    c, ctx = _W['check'], _W['ctx']
    if time.time() > _W['deadline'] and i >= c.min_cases:
        return ('skip', i)
    n0, s0, f0 = ctx.nruns, ctx.simns, dict(ctx.fired)
    ctx.hashes = set()
    ctx.last = []
    m0, k0 = ctx.mism, ctx.checked2
    try:
        case = c.gen(case_rng(0 if i < c.fixed else _W['seed'], c.pid, i), i, ctx)
        if case is None:
            return ('skip', i)
        v = c.judge(case, ctx)
    except SimError as e:
        return ('error', i, str(e))
    except Exception as e:
        import traceback
        return ('error', i, traceback.format_exc())
    st = dict(runs=ctx.nruns - n0, simns=ctx.simns - s0, hashes=list(ctx.hashes), mism=ctx.mism - m0, ck=ctx.checked2 - k0,
              fired={k: n - f0.get(k, 0) for k, n in ctx.fired.items() if n != f0.get(k, 0)},
              nontrivial=v.nontrivial, key=v.key, exits={})
    for _, r in ctx.last:
        k = '%s %d' % r.end
        st['exits'][k] = st['exits'].get(k, 0) + 1
    return ('case', i, case if (v.sig or i < 400) else None, v.sig, v.msg, st)


def minimise(c, ctx, case, sig, budget):
    t0 = time.time()
    steps = 0

    def bad(x):
        try:
            v = c.judge(x, ctx)
        except Exception:      # a shrunk case need not make sense
            return None
        return v if v.sig == sig else None

    again = True
    while again and time.time() - t0 < budget:
        again = False
        for x in c.shrink(copy.deepcopy(case)):
            if time.time() - t0 > budget:
                break
            steps += 1
            if bad(x):
                case = x
                again = True
                break
    # turn the seeded schedule into an explicit list and minimise that
    v = bad(case)
    if v and v.main is not None and case.get('dec') is None and v.main.decs:
        x = copy.deepcopy(case)
        x['dec'] = list(v.main.decs)
        if bad(x):
            case = x
            n = 2
            ds = case['dec']
            while len(ds) >= 1 and time.time() - t0 < budget:
                k = max(1, (len(ds) + n - 1) // n)
                done = False
                for a in range(0, len(ds), k):
                    if time.time() - t0 > budget:
                        break
                    y = copy.deepcopy(case)
                    y['dec'] = ds[:a] + ds[a + k:]
                    steps += 1
                    if bad(y):
                        case, ds = y, y['dec']
                        n = max(2, n - 1)
                        done = True
                        break
                if not done:
                    if k == 1:
                        break
                    n = min(len(ds), n * 2)
    return case, steps


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('kind') == 'finding':
                    out.append(d)
    return out


def main(check):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--time', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int)
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--keep', action='store_true', help='collect all violation signatures, do not stop at the first')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--shrink', type=float)
    a = ap.parse_args()
    t0 = time.time()
    c = check
    c.seed, c.tier, c.single = a.seed, a.tier, bool(a.replay or a.index is not None)
    b = B.Build().need(*c.parts)
    if a.replay or a.index is not None:
        ctx = Ctx(b, a.tier)
        c.prepare(ctx)
        if a.replay:
            d = json.load(open(a.replay))
            case = d['case']
        else:
            case = c.gen(case_rng(0 if a.index < c.fixed else a.seed, c.pid, a.index), a.index, ctx)
        v = c.judge(case, ctx)
        if a.shrink and v.sig:
            case, _ = minimise(c, ctx, case, v.sig, a.shrink)
            ctx.last = []
            v = c.judge(case, ctx)
            print(json.dumps(case, indent=None)[:3000])
            print(case.get('prog', ''))
        hs = [r.hash for _, r in ctx.last]
        if a.v:
            print(json.dumps(case, indent=1)[:6000])
            for k, (t, r) in enumerate(ctx.last):
                open('/tmp/last%d.scn' % k, 'w').write(t)
                print('run', k, r.end, 'fired', r.fired, 'decs', r.decs[:20], 'hash', r.hash)
        print('hashes', hashlib.sha256(' '.join(hs).encode()).hexdigest()[:16])
        print('signature %s' % v.sig)
        if v.msg:
            print(v.msg)
        if v.sig:
            print('VIOLATION property=%s replay=%s' % (c.pid, a.replay or '(index %d)' % a.index))
            return 1
        return 0
    budget = a.time or (c.quick_s if a.tier == 'quick' else c.thorough_s)
    scale = float(os.environ.get('SIM_TIME_SCALE', '1'))
    budget *= scale
    deadline = time.time() + budget
    known = load_known(c.pid)
    known_sigs = set()
    tool = Ctx(b, a.tier)
    c.prepare(tool)
    for k in known:
        v = c.judge(k['case'], tool)
        if v.sig == k['sig']:
            print('KNOWN-FINDING: property=%s %s' % (c.pid, k['what']))
            known_sigs.add(k['sig'])
        elif v.sig:
            # the listed input fails, but in another way: that is not the listed finding
            return report(c, tool, k['case'], v, a, None, t0, b, budget)
        sys.stdout.flush()
    ag = dict(cases=0, runs=0, simns=0, nontrivial=0, mism=0, ck=0, fired={}, exits={})
    hashes, keys, samples, errors, viol, sigs = set(), set(), [], [], None, {}
    pool = multiprocessing.Pool(a.jobs, _winit, (c, b, a.tier, a.seed, deadline, known))

    def indices():
        i = 0
        while True:
            if time.time() > deadline and i >= c.min_cases:
                return
            yield i
            i += 1
    fh = {}
    sem = threading.Semaphore(a.jobs * 4)
    stop = []

    def gated():
        for i in indices():
            sem.acquire()
            if stop:
                return
            yield i
    try:
        for r in pool.imap_unordered(_work, gated()):
            sem.release()
            if r[0] == 'error':
                errors.append((r[1], r[2]))
                if len(errors) > 5:
                    break
                continue
            if r[0] == 'skip':
                continue
            _, i, case, sig, msg, st = r
            ag['cases'] += 1
            for k in ('runs', 'simns', 'mism', 'ck'):
                ag[k] += st[k]
            for d in ('fired', 'exits'):
                for k, n in st[d].items():
                    ag[d][k] = ag[d].get(k, 0) + n
            hashes.update(st['hashes'])
            if st['nontrivial']:
                keys.add(st['key'] or tuple(sorted(st['hashes'])))
            if case is not None and len(samples) < 3 and st['nontrivial']:
                samples.append(c.describe(case))
            if sig and sig not in known_sigs:
                sigs.setdefault(sig, []).append((i, msg))
                if a.keep:
                    continue
                if viol is None or i < viol[0]:
                    viol = (i, case, sig, msg)
                break
    finally:
        stop.append(1)              # the feeding thread may be waiting for its turn
        sem.release()
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    ex = max(1e-6, wall - getattr(b, 'seconds', 0))
    ev = dict(property=c.pid, tier=a.tier, seed=a.seed, level=c.level, wall_s=round(wall, 2), violations=1 if viol else 0,
              assumptions=list(c.assumptions),
              coverage=dict(evaluations=ag['cases'], distinct_nontrivial=len(keys), rule=c.rule, samples=samples or ['(none)'],
                            simulated_runs=ag['runs'], distinct_execution_paths=len(hashes),
                            path_measure='hash of the sequence of (process, system call, result class) and scheduling decisions of a run',
                            runs_per_hour=int(ag['runs'] * 3600 / ex), seeds_per_hour=int(ag['cases'] * 3600 / ex),
                            simulated_seconds=round(ag['simns'] / 1e9, 3), faults_fired=ag['fired'], run_endings=ag['exits'],
                            determinism_rechecks=ag['ck'], determinism_mismatches=ag['mism'],
                            real_components=list(c.real), stub_components=list(c.stub), known_findings=len(known)))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)

    def write():
        with open(os.path.join(VERIF, 'evidence', c.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    if a.keep:
        for s, l in sorted(sigs.items(), key=lambda x: -len(x[1])):
            print('%5d %s  indices %s: %s' % (len(l), s, [x[0] for x in l[:8]], l[0][1][:600]))
    write()
    print('%s %s: %d cases, %d runs, %d distinct paths, faults %s, endings %s, rechecks %d mismatches %d, %.1fs (build %.1fs)' % (
        c.pid, a.tier, ag['cases'], ag['runs'], len(hashes), ag['fired'], ag['exits'], ag['ck'], ag['mism'], wall, getattr(b, 'seconds', 0)))
    if errors:
        for i, e in errors[:3]:
            print('error at index %d: %s' % (i, e), file=sys.stderr)
        if viol is None:
            return 2
    if viol:
        i, case, sig, msg = viol
        return report(c, tool, case, Verdict(sig, msg), a, i, t0, b, budget)
    if ag['mism']:
        print('nondeterminism: %d of %d rechecks differ' % (ag['mism'], ag['ck']), file=sys.stderr)
    if ag['cases'] == 0:
        return 2
    return 0


def report(c, ctx, case, v, a, i, t0, b, budget):
    sig, msg = v.sig, v.msg
    # gate 1: it must fail again, the same way, with identical histories
    ctx.last = []
    v1 = c.judge(case, ctx)
    h1 = [r.hash for _, r in ctx.last]
    ctx.last = []
    v2 = c.judge(case, ctx)
    h2 = [r.hash for _, r in ctx.last]
    # a check may keep the reference run of the case it judged last
    h1 = h1[-len(h2):] if h2 else h1
    if v1.sig != sig or v2.sig != sig or h1 != h2:
        print('violation did not repeat: %r %r %r' % (sig, v1.sig, v2.sig), file=sys.stderr)
        return 2
    small, steps = minimise(c, ctx, case, sig, 60 if a.tier == 'quick' else 150)
    ctx.last = []
    vs = c.judge(small, ctx)
    if vs.sig != sig:
        small, vs = case, v1
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (c.pid, hashlib.sha256((sig + json.dumps(small, sort_keys=True)).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump(dict(property=c.pid, seed=a.seed, index=i, signature=sig, message=vs.msg, minimise_steps=steps, case=small), f, indent=1)
        f.write('\n')
    # gate 2: a fresh process must reproduce it from the file
    r = subprocess.run([sys.executable, os.path.abspath(sys.argv[0]), '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       cwd=VERIF, timeout=600)
    o = r.stdout.decode(errors='replace')
    if r.returncode != 1 or ('signature %s\n' % sig) not in o:
        print('replay in a fresh process did not reproduce: ' + o[-500:] + r.stderr.decode(errors='replace')[-500:], file=sys.stderr)
        return 2
    print('seed %d, case %s: %s' % (a.seed, i, vs.msg))
    print('VIOLATION property=%s replay=%s' % (c.pid, path))
    return 1


# -- helpers shared by checks -------------------------------------------------

MES_ENV = {'MES_PREFIX': '/repo', 'GUILE_LOAD_PATH': '/repo/module:/repo/mes:/nyacc', 'HOME': '/home', 'PATH': '/bin'}


def mes_world(b, args, env=None, arena=True, exe='mes'):
    """The interpreter in its usual world: source tree read-only, fds 0..2."""
    e = dict(MES_ENV)
    if arena:
        e.update(MES_ARENA='20000000', MES_MAX_ARENA='20000000', MES_STACK='5000000')
    e.update(env or {})
    ls = ['hostfile /bin/mes %s 755' % enc(os.path.join(b.dir, exe)), 'exe /bin/mes', 'arg mes'] + ['arg ' + enc(x) for x in args]
    ls += ['env %s' % enc('%s=%s' % kv) for kv in e.items() if kv[1] is not None]
    ls += ['tree /repo %s ro' % enc(b.src), 'tree /nyacc %s ro' % B.NYACC, 'dir /work 755', 'dir /tmp 777', 'dir /home 755', 'cwd /work']
    return ls


STD = ['dev /dev/null null', 'dev /dev/out sink', 'dev /dev/err sink']
FDS = ['fd 0 /dev/null 0', 'fd 1 /dev/out 1', 'fd 2 /dev/err 1']
