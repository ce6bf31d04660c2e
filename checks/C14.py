#!/usr/bin/env python3
"""C14: signals reach exactly the right handler and disturb nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O

KILL, GETPPID = 62, 110
QUIET = {17, 18, 23, 28}               # ignored by default
STOP = {19, 20, 21, 22}
SIGS = [1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 25, 26, 27, 28, 29, 30, 31, 33, 34, 50, 63, 64]
ASYNC = 10                             # the signal that comes at any moment
OPEN = 0o102


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Death(Exception):
    def __init__(self, sigs):
        self.sigs = sigs


class Unsure(Exception):
    """Several outcomes are right from here on."""


class Model:
    """What one process knows of signals."""
    def __init__(self, kern=None):
        self.disp, self.mask, self.pend, self.count = {}, 0, set(), {}
        self.arm, self.nest, self.kern = {}, {}, kern

    def fork(self):
        m = Model()
        m.disp, m.mask = dict(self.disp), self.mask
        return m

    def execed(self):
        m = Model()
        m.disp, m.mask = {s: d for s, d in self.disp.items() if d == 1}, self.mask
        return m

    def d(self, s):
        return self.disp.get(s, 0)

    def send(self, s):
        self.pend.add(s)
        self.run()

    def run(self):
        while True:
            l = [s for s in sorted(self.pend) if s in (9, 19) or not self.mask >> (s - 1) & 1]
            if not l:
                return
            if len(l) > 1 and any(s in self.arm for s in l):
                raise Unsure()
            s = l[0]
            self.pend.discard(s)
            d = self.d(s)
            if d == 2:
                self.count[s] = self.count.get(s, 0) + 1
                o = self.arm.pop(s, 0)
                if o:
                    # the handler sends o; only s itself is blocked while it runs
                    save, n = self.mask, self.count.get(o, 0)
                    self.mask |= 1 << (s - 1)
                    if self.kern() == 0:
                        self.send(o)
                    self.nest[s] = self.count.get(o, 0) - n + 1
                    self.mask = save
            elif d == 0 and s not in QUIET and s not in STOP:
                raise Death({s})


class C14(Check):
    pid = 'C14'
    parts = ('gccguest', 'mesccguest')
    rule = 'a history counts when at least three signals were delivered'
    real = ['lib/linux/{signal,sigprogmask,kill,settimer}.c, lib/posix/{raise,alarm}.c, lib/stdlib/abort.c with the handler entry and return code of both builds; the rest of the library while it is interrupted']
    stub = ['kernel: signal delivery of sim/simrun.cpp, at system calls and between any two instructions']
    assumptions = ['signals that are pending at the same time may be handled in any order', 'handlers call nothing of the library but kill and getpid']
    quick_s, thorough_s = 55, 600

    # ------------------------------------------------------------ generation
    def gen(self, rng, i, ctx):
        case = dict(seed=rng.randrange(1 << 40), rules=[], var=rng.choice(O.VARIANTS))
        if rng.random() < 0.45:
            case['kind'] = 'async'
            sigs = rng.sample([1, 2, 10, 12, 14, 15, 17, 33, 64], rng.choice([1, 2, 3]))
            ign = rng.sample([3, 16, 29, 28], rng.choice([0, 1]))
            case['sigs'], case['ign'] = sigs, ign
            case['ops'] = ['signal %d 2' % s for s in sigs] + ['signal %d 1' % s for s in ign] + self.work(rng, rng.choice([5, 15, 40]), 0)
            case['rules'] = self.arules(rng, sigs + ign)
            return case
        case['kind'] = 'sync'
        case['ops'] = []
        self.nid = 0
        if rng.random() < 0.5:
            case['ops'].append('signal %d 2' % ASYNC)
            case['rules'] = self.arules(rng, [ASYNC])
        case['ops'] += self.script(rng, rng.choice([4, 10, 25]), 0)
        if rng.random() < 0.2:
            case['rules'].append('sys_err nr=62,13,14 ppm=%d vals=%s' % (rng.choice([50000, 300000]), ','.join(map(str, rng.sample([1, 5, 12, 22, 75], 2)))))
        if rng.random() < 0.4:
            case['rules'].append('sched ppm=%d' % rng.choice([50000, 500000]))
        return case

    def arules(self, rng, sigs):
        r = []
        if rng.random() < 0.85:
            m = rng.choice([3, 30, 300, 3000, 30000])
            r.append('step_signal ppm=%d vals=%s' % (rng.choice([30000, 200000, 800000]), ','.join(str((1 + rng.randrange(m)) * 256 + rng.choice(sigs)) for _ in range(rng.choice([1, 4, 12])))) + ' max=%d' % (3000000 // m))
        if rng.random() < 0.4 or not r:
            r.append('signal ppm=%d vals=%s' % (rng.choice([50000, 400000, 900000]), ','.join(map(str, sigs))))
        return r

    def work(self, rng, n, depth):
        """Calls whose results do not depend on time."""
        o = []
        F = lambda: O.hexs('/work/' + rng.choice('abc'))
        D = lambda: rng.choice(['p%d:%d' % (rng.randrange(80), rng.choice([1, 10, 99, 100, 129, 700, 5000])), O.hexs('line\nnext\n')])
        for _ in range(n):
            k = rng.random()
            if k < 0.15:
                o.append('work %d %d' % (rng.choice([10, 300, 3000]), rng.randrange(1000)))
            elif k < 0.25:
                o += ['=1 open %s %d 420' % (F(), OPEN), 'write $1 ' + D(), 'lseek $1 %d 0' % rng.choice([0, 0, 3]), 'read $1 %d' % rng.choice([1, 10, 200])] + rng.choice([[], ['read $1 7']]) + ['close $1']
            elif k < 0.35:
                o += ['=2 fopen %s x%s' % (F(), rng.choice(['772b', '612b', '722b']).encode().decode()), 'fputs $2 ' + D(), 'fprintf $2 x7a79 %d' % rng.randrange(-99999, 99999), 'fseek $2 0 0', 'fgets $2 80', 'fgetc $2', 'fclose $2']
            elif k < 0.45:
                o += ['=3 malloc %d' % rng.choice([10, 1000, 5000]), '=4 calloc %d 3' % rng.choice([5, 700]), 'free $3', 'free $4']
            elif k < 0.52:
                o += ['setenv x41 %s 1' % D(), 'getenv x41']
            elif k < 0.60:
                o += [rng.choice(['stat ', 'lstat ', 'unlink ']) + F(), 'access %s 4' % F(), 'getcwd 300']
            elif k < 0.68:
                o += ['mkdir x6d 493', '=5 opendir x2e', 'readall $5', 'closedir $5', 'rmdir x6d']
            elif k < 0.76:
                o += ['pipe 6 7', 'write $7 ' + rng.choice(['x616263', 'p3:600']), 'read $6 %d' % rng.choice([2, 50, 1000]), 'close $6', 'close $7']
            elif k < 0.84 and depth < 1:
                o += ['child'] + self.work(rng, rng.choice([1, 3]), 1) + ['emit x2f776f726b2f65%02x' % (48 + rng.randrange(10)), '_exit %d' % rng.randrange(256), 'end', 'wait']
            elif k < 0.9 and depth < 1:
                o += ['pipe 8 9', 'child', 'close $8', 'spew $9 p5:9000 %d' % rng.choice([100, 5000]), '_exit 3', 'end', 'close $9', 'slurp $8 %d' % rng.choice([50, 5000]), 'close $8', 'wait']
            else:
                o += ['puts x68690a', 'seterrno %d' % rng.randrange(30), 'errno', 'getpid']
        return o

    def script(self, rng, n, depth):
        o = []
        S = lambda: rng.choice(SIGS)
        sig = [S() for _ in range(3)] + [17, 13]
        P = lambda: rng.choice(sig) if rng.random() < 0.8 else S()
        def m(s):
            v = (1 << (s - 1)) & ((1 << 63) - 1)
            return v
        for _ in range(n):
            k = rng.random()
            s = P()
            if s == ASYNC:
                s = 12
            if k < 0.30:
                o.append('signal %d %d' % (rng.choice([s] * 12 + [9, 19, 0, 65, -1, 1000]), rng.choice([2, 2, 2, 1, 0])))
            elif k < 0.48:
                o += ['hcount %d' % s, rng.choice(['raise %d', 'raise %d', 'kill $90 %d']) % s, 'hcount %d' % s]
            elif k < 0.57:
                w = 0
                for _ in range(rng.choice([1, 1, 3])):
                    w |= m(P())
                w &= ~m(ASYNC)
                if rng.random() < 0.1:
                    w |= m(9) | m(19)
                o += [rng.choice(['block', 'block', 'unblock', 'unblock', 'setmask']) + ' %d' % w] + ['hcount %d' % x for x in sig]
            elif k < 0.57 + 0.08:
                t = P()
                if t != ASYNC:
                    o += ['hkill %d %d' % (s, t)] + rng.choice([['raise %d' % s], ['raise %d' % s], []]) + ['hnest %d' % s] + ['hcount %d' % x for x in sig]
            elif k < 0.68:
                o += ['setmask 0'] + ['hcount %d' % x for x in sig]
            elif k < 0.73:
                o += ['pipe 1 2', 'close $1', 'write $2 x616263', 'close $2', 'hcount 13']
            elif k < 0.76:
                o += ['kill %s %d' % (rng.choice(['999999', '$90', '$90']), rng.choice([0, 65, -1, 0]))]
            elif k < 0.86 and depth < 2:
                self.nid += 1
                c = self.nid
                j = rng.random()
                if j < 0.4:
                    body = self.script(rng, rng.choice([1, 4]), depth + 1) + ['emit x2f776f726b2f72%02x' % (64 + c)]
                    if rng.random() < 0.5:
                        body += ['exec execve %s x6b %s @3000' % (O.hexs('/bin/op-' + rng.choice(O.VARIANTS)), O.hexs(';'.join(['setmask 0', '=90 getpid'] + ['signal %d 0' % x for x in sorted(set(sig))] + ['emit x2f776f726b2f78%02x' % (64 + c)])))]
                    body.append(rng.choice(['_exit 3', 'raise %d' % P(), 'abort']))
                    if body[-1] == 'abort' and rng.random() < 0.6:
                        body.insert(-1, 'signal 6 %d' % rng.choice([0, 1, 2]))
                    if body[-1][0] != '_':
                        body.append('_exit 44')
                    o += ['child #%d' % c, '=90 getpid'] + body + ['end', 'wait', 'hcount 17']
                else:
                    # another process is told when to expect the signal
                    t = rng.choice([x for x in SIGS if x not in (10, 11, 13, 17)])
                    how = rng.choice([0, 1, 2, 2])
                    o += ['pipe 3 4', '=5 child #%d' % c, 'signal %d %d' % (t, how), 'setmask 0', 'close $3', 'write $4 x72', 'close $4'] + (['waithandler %d 1 10000' % t] if how == 2 else ['getppid'] * 3) + \
                         (['sleep 100'] if how == 0 else []) + ['hcount %d' % t, 'emit x2f776f726b2f72%02x' % (64 + c), '_exit 5', 'end', 'close $4', 'read $3 1', 'close $3', 'kill $5 %d' % t, 'wait', 'hcount 17']
            elif k < 0.89:
                if rng.random() < 0.6:
                    o.append('signal 6 %d' % rng.choice([0, 1, 2, 2]))
                o += ['abort']
            elif k < 0.92:
                o.append('seterrno %d' % rng.randrange(20))
                o.append('errno')
            else:
                o.append('work %d 5' % rng.choice([20, 500]))
        return o

    # ------------------------------------------------------------ running
    def scen(self, case, ctx, rules=None):
        c = case if rules is None else dict(case, rules=rules, dec=None)
        pre = ['=90 getpid'] if case['kind'] == 'sync' else []
        post = ['getppid', 'hlog'] + ['hcount %d' % s for s in case.get('sigs', [ASYNC])]
        ls = fault_lines(c) + O.scenario(ctx, case['var'], pre + [o.split(' #')[0] for o in case['ops']] + post, res=60000, env={'E': '1'}) + STD + FDS + ['logsys %d,%d,13,14' % (GETPPID, KILL), 'maxsys 300000', 'dumpall /work', 'safesig']
        for v in O.VARIANTS:
            ls.append('hostfile /bin/op-%s %s 755' % (v, enc(os.path.join(ctx.b.dir, 'opguest-' + v))))
        return ls

    def judge(self, case, ctx):
        r = ctx.sim(self.scen(case, ctx))
        try:
            if case['kind'] == 'async':
                r0 = ctx.sim(self.scen(case, ctx, []))
                self.asyn(case, r0, r)
            else:
                self.sync(case, r)
        except Unsure:
            pass
        except Bad as b:
            return Verdict(b.sig, '%s (%s; %s)' % (b.msg, case['var'], '; '.join(case['ops'][:60])), r)
        return Verdict(None, '', r, key=r.hash, nontrivial=sum(e.startswith('sig ') for e in r.events) >= 3)

    def delivered(self, r, pid):
        """Signals that the kernel had pid handle, before and after its last getppid."""
        ev = [e.split(' ') for e in r.events]
        ev = [e for e in ev if e[0] in ('sig', 'sys') and int(e[1]) == pid]
        last = max([k for k, e in enumerate(ev) if e[0] == 'sys' and int(e[2]) == GETPPID], default=len(ev))
        return [int(e[2]) for k, e in enumerate(ev) if e[0] == 'sig' and k < last], [int(e[2]) for k, e in enumerate(ev) if e[0] == 'sig' and k > last]

    def hlog(self, case, r, rs, keep):
        a, b = self.delivered(r, 100)
        n = len(case.get('sigs', [ASYNC]))
        l = rs[-n - 1].split(',')
        got, log = int(l[0]), [int(x) for x in l[1:]]
        if log != (a + b)[:len(log)] and sorted(log) != sorted((a + b)[:len(log)]):
            raise Bad('handler', 'the handler ran for %s, the kernel delivered %s' % (log[:20], (a + b)[:20]))
        if got < min(len(a), 300) or got > len(a) + len(b):
            raise Bad('handler', 'the handler ran %d times, the kernel delivered %d signals (and %d at the end)' % (got, len(a), len(b)))
        for s, x in zip(case.get('sigs', [ASYNC]), rs[-n:]):
            if not a.count(s) <= int(x) <= a.count(s) + b.count(s):
                raise Bad('handler', 'the handler counted signal %d %s times, the kernel delivered it %d times (and %d at the end)' % (s, x, a.count(s), b.count(s)))

    def asyn(self, case, r0, r):
        rs0, rs = O.results(r0.res), O.results(r.res)
        if O.hasbad(rs0):
            raise SimError('bad operation')
        if r0.end != ('exit', 0):
            raise Bad('crash', 'without signals the program ended %s %d' % r0.end)
        if r.end != r0.end:
            raise Bad('crash', 'interrupted, the program ended %s %d after %d results of %d' % (r.end + (len(rs), len(rs0))))
        n = len(case['sigs']) + 1
        for k, (x, y) in enumerate(zip(rs0[:-n], rs[:-n])):
            if x != y:
                raise Bad('disturbed', 'result %d is %s, without signals it is %s' % (k, y[:200], x[:200]))
        if len(rs) != len(rs0):
            raise Bad('disturbed', '%d results, without signals %d' % (len(rs), len(rs0)))
        f = lambda q: {k: v for k, v in q.files.items()}
        a, b = f(r0), f(r)
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                raise Bad('disturbed', '%s holds %r, without signals %r' % (k, (b.get(k) or b'')[:100], (a.get(k) or b'')[:100]))
        self.hlog(case, r, rs, None)

    def sync(self, case, r):
        if r.end[0] in ('stall', 'hang', 'limit'):
            raise Bad('stuck', 'no progress (%s)' % r.end[0])
        rs = O.results(r.res)
        if O.hasbad(rs):
            raise SimError('bad operation')
        self.r = r
        self.sys = {}
        for e in r.events:
            w = e.split(' ')
            if w[0] == 'sys':
                self.sys.setdefault(int(w[1]), []).append((int(w[2]), int(w[3])))
        t = O.tree(['=90 getpid'] + case['ops'] + ['getppid', 'hlog', 'hcount %d' % ASYNC])
        ends = self.proc(t, rs, 100, Model(lambda: self.kernel(100, KILL)), case)
        e = ('signal', 'exit')
        if ends is None:
            if r.end != ('exit', 0):
                raise Bad('death', 'the program ended %s %d' % r.end)
            self.hlog(case, r, rs, None)
        elif r.end[0] != 'signal' or r.end[1] not in ends:
            raise Bad('death', 'the program ended %s %d, expected death by signal %s' % (r.end + (sorted(ends),)))

    def kernel(self, pid, nr):
        """The kernel's answer to the next call nr of pid."""
        l = self.sys.get(pid, [])
        while l and l[0][0] == GETPPID:
            l.pop(0)
        if not l or l[0][0] != nr:
            raise Bad('calls', 'the kernel saw %s' % (l[:1] or 'no such call'))
        return l.pop(0)[1]

    def proc(self, t, rs, pid, m, case):
        """None or the set of signals that the process dies of."""
        k = -1
        faults = any('sys_err' in x for x in case['rules']) or case.get('dec') is not None
        for o in t:
            kid = None
            if isinstance(o, list):
                kid, o = o, o[0]
            k += 1
            w = O.word(o)[1]
            dead = None
            want = None
            try:
                got = rs[k] if k < len(rs) else None
                f = got.split(',') if got is not None else None
                if w[0] == 'signal':
                    s, d = int(w[1]), int(w[2])
                    kr = self.kernel(pid, 13) if 1 <= s <= 64 else -22
                    if kr < 0:
                        want = ['-1', str(-kr)]
                        if not faults and s not in (9, 19) and 1 <= s <= 64:
                            raise Bad('signal', '%s: the kernel refused (%d)' % (o, kr))
                    else:
                        want = [str(m.d(s))]
                        m.disp[s] = d
                        if d == 1 or (d == 0 and s in QUIET):
                            m.pend.discard(s)
                elif w[0] == 'raise' or w[0] == 'kill':
                    s = int(w[-1])
                    if w[0] == 'raise' or w[1] == '$90':
                        want = ['0']
                        kr = self.kernel(pid, KILL)
                        if kr < 0:
                            want = ['-1', str(-kr)]
                        elif s:
                            m.send(s)
                    else:
                        kr = self.kernel(pid, KILL)
                        want = [str(kr)] if kr >= 0 else ['-1', str(-kr)]
                        if w[1] == '$5' and kr == 0:
                            self.sent.add(s)
                elif w[0] in ('block', 'unblock', 'setmask'):
                    v = int(w[1])
                    kr = self.kernel(pid, 14)
                    if kr < 0:
                        want = ['-1', str(-kr)]
                    else:
                        want = ['0', str(m.mask)]
                        v &= ~(1 << 8 | 1 << 18)
                        m.mask = m.mask | v if w[0] == 'block' else m.mask & ~v if w[0] == 'unblock' else v
                        m.run()
                elif w[0] == 'hkill':
                    m.arm[int(w[1])] = int(w[2])
                elif w[0] == 'hnest':
                    want = [str(m.nest.pop(int(w[1]), 0))]
                elif w[0] == 'hcount':
                    if int(w[1]) != ASYNC:
                        want = [str(m.count.get(int(w[1]), 0))]
                elif w[0] == 'write' and w[1] == '$2':
                    m.send(13)
                    want = ['-1', '32']
                elif w[0] == 'abort':
                    # the handler runs first, if there is one
                    if faults:
                        raise Death({6, 11})
                    if m.mask >> 5 & 1:
                        raise Death({6, 11})
                    m.send(6)
                    raise Death({6})
                elif kid is not None:
                    if not got or int(f[0]) < 0:
                        raise SimError('fork failed')
                    self.sent = set()
                    last = (int(f[0]), kid[1:], m.fork(), int(kid[0].split('#')[1]))
                elif w[0] == 'wait':
                    kr = None
                    status = self.kid(last, case)
                    if m.d(17) == 1:
                        want = ['-1', '10']
                        m.pend.discard(17)
                    else:
                        if f and (f[0] != str(last[0]) or (status is not None and int(f[1]) not in status)):
                            raise Bad('wait', 'wait gave %s; the child was %d, expected status %s' % (rs[k], last[0], status))
                        m.send(17)
                elif w[0] == 'seterrno':
                    m.errno = int(w[1])
                elif w[0] == 'errno':
                    want = [str(m.errno)] if m.errno else None
            except Death as d:
                dead = d.sigs
            if dead:
                if k < len(rs) and not (pid != 100):
                    raise Bad('survived', '%s did not end the process but gave %s' % (o, rs[k]))
                if k < len(rs):
                    raise Bad('survived', '%s did not end the child but gave %s' % (o, rs[k]))
                return dead
            if got is None:
                if w[0] in ('exec', '_exit'):
                    return None
                raise Bad('death', 'the process stopped in %s' % o)
            if want is not None and f[:len(want)] != want:
                raise Bad('result', '%s gave %s, expected %s (mask %x, handler for %s, pending %s)' % (o, got, ','.join(want), m.mask, m.disp, sorted(m.pend)))
        return None

    def kid(self, last, case):
        """Check a child that has ended; the set of its possible statuses."""
        pid, body, m, n = last
        m.kern = lambda: self.kernel(pid, KILL)
        r = self.r
        d = r.files.get('/work/r%s' % chr(64 + n))
        em = next((k for k, o in enumerate(body) if not isinstance(o, list) and o.startswith('emit ')), len(body))
        rs = O.results(d + b'.') if d is not None else None
        told = any(o == 'write $4 x72' for o in body if not isinstance(o, list))
        if rs is None:
            # ended before the emit: follow it to where the model has it die
            res = self.blind(body[:em], pid, m, case, told)
            return res
        if told:
            s, how = int(body[0].split(' ')[1]), int(body[0].split(' ')[2])
            c = [int(x) for o, x in zip(body, rs) if not isinstance(o, list) and o == 'hcount %d' % s]
            if how == 2 and rs[0].split(',')[0] != '-1' and s in self.sent and c and c[0] != 1:
                raise Bad('handler', 'the child handled signal %d %s times, it was sent once' % (s, c))
            if how != 2 and c and c[0] != 0:
                raise Bad('handler', 'the child handled signal %d %s times' % (s, c))
            return {5 << 8} | ({s} if how == 0 or rs[0].startswith('-1') else set())
        dead = self.proc(body[:em], rs, pid, m, case)
        if dead:
            raise Bad('survived', 'the child went on after signal %s' % sorted(dead))
        x = r.files.get('/work/x%s' % chr(64 + n))
        for o in body[em + 1:]:
            if o.startswith('exec '):
                script = bytes.fromhex(o.split(' ')[4][1:]).decode().split(';')
                me = m.execed()
                if x is None:
                    # what is pending stays so
                    me.pend = set(m.pend)
                    try:
                        me.mask = 0
                        me.run()
                    except Death:
                        return {s for s in m.pend if me.d(s) == 0}
                    raise Bad('exec', 'the program that the child started left no results')
                xr = O.results(x + b'.')
                me.mask = m.mask
                for q, v in zip(script, xr):
                    if q == 'setmask 0' and v != '0,%d' % m.mask:
                        raise Bad('exec-mask', 'the program started by a child with mask %d had %s' % (m.mask, v))
                    if q.startswith('signal ') and v != str(me.d(int(q.split(' ')[1]))) and not v.startswith('-1'):
                        raise Bad('exec-signal', 'in a program that was executed, %s gave %s, expected %d' % (q, v, me.d(int(q.split(' ')[1]))))
                return None
            w = o.split(' ')
            if w[0] == '_exit':
                return {int(w[1]) << 8}
            if w[0] == 'signal':
                if self.kernel(pid, 13) >= 0:
                    m.disp[int(w[1])] = int(w[2])
                continue
            try:
                if w[0] == 'abort':
                    if not m.mask >> 5 & 1:
                        m.send(6)
                    return {6} if not (m.mask >> 5 & 1) and not any('sys_err' in y for y in case['rules']) and case.get('dec') is None else {6, 11}
                kr = self.kernel(pid, KILL)
                if kr == 0:
                    m.send(int(w[1]))
            except Death as d:
                return d.sigs
        return None

    def blind(self, body, pid, m, case, told):
        if told:
            s, how = int(body[0].split(' ')[1]), int(body[0].split(' ')[2])
            if how == 0 or any('sys_err' in x for x in case['rules']) or case.get('dec') is not None:
                return {s} | ({13} if how else set())
            raise Bad('death', 'a child that handles or ignores signal %d left no result' % s)
        try:
            for o in body:
                if isinstance(o, list):
                    return None
                w = O.word(o)[1]
                if w[0] == 'signal':
                    if 1 <= int(w[1]) <= 64 and self.kernel(pid, 13) >= 0:
                        m.disp[int(w[1])] = int(w[2])
                        if int(w[2]) == 1 or (int(w[2]) == 0 and int(w[1]) in QUIET):
                            m.pend.discard(int(w[1]))
                elif w[0] == 'hkill':
                    m.arm[int(w[1])] = int(w[2])
                elif w[0] == 'raise' or (w[0] == 'kill' and w[1] == '$90'):
                    if self.kernel(pid, KILL) >= 0 and int(w[-1]):
                        m.send(int(w[-1]))
                elif w[0] == 'kill':
                    self.kernel(pid, KILL)
                elif w[0] in ('block', 'unblock', 'setmask'):
                    if self.kernel(pid, 14) >= 0:
                        v = int(w[1]) & ~(1 << 8 | 1 << 18)
                        m.mask = m.mask | v if w[0] == 'block' else m.mask & ~v if w[0] == 'unblock' else v
                        m.run()
                elif w[0] == 'write' and w[1] == '$2':
                    m.send(13)
                elif w[0] == 'abort':
                    return {6, 11}
        except Death as d:
            return d.sigs
        raise Bad('death', 'a child left no result')

    def shrink(self, case):
        keep = (lambda o: False)
        for o in O.shrink_ops(case['ops'], keep):
            if case['kind'] == 'async':
                have = {int(x.split(' ')[1]) for x in o if x.startswith('signal ')}
                if not set(case['sigs'] + case['ign']) <= have:
                    continue
            elif any('step_signal' in x or x.startswith('signal') for x in case['rules']) and 'signal %d 2' % ASYNC not in o:
                continue
            w = [x.split(' ')[0] for x in O.tree(o) if not isinstance(x, list)]
            ks = sum(isinstance(x, list) for x in O.tree(o))
            if case['kind'] == 'sync' and (w.count('wait') != ks or sum(x == '=90 getpid' for x in o) != sum('child' in x for x in o) - sum('=5 child' in x for x in o)):
                continue
            if case['kind'] == 'sync' and sum('=5 child' in x for x in o) and len([x for x in o if x in ('write $4 x72', 'close $4', 'read $3 1', 'pipe 3 4', 'close $3', 'setmask 0')]) < 7:
                continue
            yield dict(case, ops=o)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])


if __name__ == '__main__':
    sys.exit(main(C14()))
