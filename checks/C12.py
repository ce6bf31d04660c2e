#!/usr/bin/env python3
"""C12: programs see the clock, sleeps last, elapsed time is right."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O
import schemegen

G = 10 ** 9


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class C12(Check):
    pid = 'C12'
    parts = ('mes', 'gccguest', 'mesccguest')
    rule = 'a history counts when at least three clock readings or timed waits were verified'
    real = ['lib/linux/{time,gettimeofday,clock_gettime,nanosleep,settimer,getrusage}.c, lib/posix/{sleep,alarm}.c, lib/linux/signal.c in both builds; current-time, gettimeofday, get-internal-run-time and gc of the interpreter']
    stub = ['kernel: the clocks and timers of sim/simrun.cpp, which jump, run fast and start at any date']
    assumptions = ['the clock is at or after 1970', 'a whole number of seconds reported as remaining may be rounded either way']
    quick_s, thorough_s = 50, 500

    def wall(self, rng):
        k = rng.random()
        if k < 0.35:
            return rng.choice([0, 1, 2 ** 31 - 1003, 2 ** 31 - 1001, 2 ** 31, 2 ** 32 - 1002, 2 ** 32, 2 ** 32 + 5, 1700000000, 4500000000]) * G + rng.randrange(G)
        return rng.randrange(0, 46 * 10 ** 17)

    def gen(self, rng, i, ctx):
        case = dict(seed=rng.randrange(1 << 40), rules=[], wall=self.wall(rng), tick=rng.choice([1, 100, 1000, 1000, 10 ** 6, 3 * 10 ** 6, 7 * 10 ** 8, 3 * G, 10 ** 11]))
        if rng.random() < 0.5:
            s = rng.choice([1, 60, 3600, 86400 * 400, 10 ** 9])
            case['rules'].append('clockjump ppm=%d vals=%s' % (rng.choice([100000, 400000]), ','.join(str(int(x * s * G)) for x in (1, 0.3, 0.001))))
            if rng.random() < 0.6:       # backwards, never to before 1970
                b = min(case['wall'] // 200, s * G)
                case['rules'][-1] = 'clockjump ppm=300000 max=100 vals=%d,%d,%d' % (-b, b // 2, -b // 3)
        k = rng.random()
        if k < 0.12:
            case.update(kind='scm')
            ops = []
            case['tick'] = rng.choice([1000, 10 ** 6, 3 * 10 ** 6, 10 ** 8])
            case['rules'] = [x.replace('ppm=', 'after=700 ppm=') for x in case['rules']]
            for _ in range(rng.choice([3, 8, 20])):
                ops.append(rng.choice(['ct', 'ct', 'gtod', 'gtod', 'run', 'run', 'gc', 'cons', 'file', 'stats']))
            case['ops'] = ops
            return case
        if k < 0.16:
            case.update(kind='gc', prog=schemegen.Gen(rng).program(1, 4), arena=rng.choice([900000, 1000000, 2000000]), tick=rng.choice([1000, 10 ** 7, G, 10 ** 12]))
            case['rules'] = ['sys_err ppm=%d nr=228 vals=22,14,38' % rng.choice([200000, 1000000])] if rng.random() < 0.5 else []
            return case
        case.update(kind='lib', var=rng.choice(O.VARIANTS))
        ops, armed = [], False
        big = rng.choice([100, 3000000000, 4294967295]) # at most one: the kernel's clocks hold 292 years
        if rng.random() < 0.8:
            ops.append('signal 14 2')
            armed = True
        for _ in range(rng.choice([4, 10, 25])):
            j = rng.random()
            if j < 0.15:
                ops.append('time')
            elif j < 0.2:
                ops.append('time0')
            elif j < 0.35:
                ops.append('gettimeofday')
            elif j < 0.5:
                ops.append('clock_gettime %d' % rng.choice([0, 0, 1, 1, 2, 99, -1]))
            elif j < 0.55:
                ops.append('getrusage %d' % rng.choice([0, 0, 0, -1, 7]))
            elif j < 0.6:
                ops.append(rng.choice(['getpid', '=1 malloc 10000', 'access x2f 0']))
            else:
                c = 'clock_gettime 1'
                j = rng.random()
                S = rng.choice([0, 1, 2, 3, 10, 100, 100000, big])
                if S == big:
                    big = 100
                if j < 0.25:
                    t = 'sleep %d' % S
                elif j < 0.5:
                    t = 'nanosleep %d %d' % (rng.choice([0, 1, 2, 5, 100, 10 ** 7, -1]), rng.choice([0, 1, 1000, 500000000, 999999999, 10 ** 9, -1]))
                elif armed:
                    if j < 0.75:
                        t = 'alarm %d' % rng.choice([0, 1, 2, 3, 10, 50, 100000])
                    else:
                        iv = rng.choice([(0, 0), (0, 0), (1, 0), (3, 500000), (30, 0)])
                        t = 'setitimer %d %d %d %d' % (rng.choice([0, 0, 1, 2, 5, 100, 2000000000]), rng.choice([0, 1, 250000, 999999, 1000000, -1]), iv[0], iv[1])
                else:
                    t = 'time'
                ops += [c, t, c, 'hcount 14']
        if armed:
            ops += ['clock_gettime 1', 'hcount 14']
        case['ops'] = ops
        return case

    def scen(self, case, ctx):
        ls = fault_lines(case) + ['wall %d' % (case['wall'] - 1000 * G), 'tick %d' % case['tick'], 'logclk'] + STD + FDS
        if case['kind'] == 'lib':
            return ls + O.scenario(ctx, case['var'], case['ops'], res=30000)
        P = {'ct': '(write (current-time))', 'gtod': '(write (gettimeofday))', 'run': '(write (get-internal-run-time))', 'gc': '(gc)', 'stats': '(assoc-ref (gc-stats) (quote gc-time))',
             'cons': '(begin (define x (iota 100)) (set! x (map 1+ x)))', 'file': '(access? "/work/p.scm" 4)'}
        prog = '(define x 0)\n' + '\n'.join(P[o] + '(newline)' for o in case['ops'])
        return ls + mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm'], {}) + ['file /work/p.scm 644 ' + enc(prog)]

    def judge(self, case, ctx):
        if case['kind'] == 'gc':
            return self.gc(case, ctx)
        r = ctx.sim(self.scen(case, ctx))
        self.n = 0
        try:
            (self.lib if case['kind'] == 'lib' else self.scm)(case, r)
        except Bad as b:
            return Verdict(b.sig, '%s (%s; clock %d, tick %d; %s)' % (b.msg, case.get('var', 'interpreter'), case['wall'], case['tick'], '; '.join(case['ops'][:40])), r)
        return Verdict(None, '', r, key=r.hash, nontrivial=self.n >= 3)

    def gc(self, case, ctx):
        def run(wall, tick, rules):
            c = dict(case, rules=rules)
            return ctx.sim(fault_lines(c) + mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm'], {'MES_ARENA': str(case['arena']), 'MES_JAM': '600000'})
                           + ['wall %d' % (wall - 1000 * G), 'tick %d' % tick, 'file /work/p.scm 644 ' + enc(case['prog'])] + STD + FDS)
        r0, r1 = run(10 ** 18, 1000, []), run(case['wall'], case['tick'], case['rules'])
        err = lambda r: {k: v for k, v in r.files.items() if k != '/dev/err'}
        if case.get('dec') is not None:
            r0 = ctx.sim(['seed 1'] + mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm'], {'MES_ARENA': str(case['arena']), 'MES_JAM': '600000'}) + ['file /work/p.scm 644 ' + enc(case['prog'])] + STD + FDS)
        if r0.end != r1.end or err(r0) != err(r1):
            return Verdict('gc-time', 'the clock changes what a program does: %s %d / %s %d, %r / %r' % (r0.end + r1.end + (r0.out()[-80:], r1.out()[-80:])), r1)
        return Verdict(None, '', r1, key=r1.hash, nontrivial=len(r1.out()) > 0)

    def log(self, r):
        return [tuple(int(x) for x in e.split(' ')[1:]) for e in r.events if e.startswith('clk ')]

    def find(self, log, at, ok, what):
        """The first reading at or after at that fits."""
        for k in range(at, len(log)):
            if ok(log[k]):
                self.n += 1
                return k + 1
        raise Bad('clock', '%s is not what the kernel said then (next readings: mono/wall/cpu %s)' % (what, [x[2:] for x in log[at:at + 3]]))

    def scm(self, case, r):
        log = self.log(r)
        ls = r.out().decode('latin-1').split('\n')
        if r.end != ('exit', 0) or len(ls) != len(case['ops']) + 1:
            raise Bad('crash', 'the program ended %s %d: %r' % (r.end + (r.files.get('/dev/err', b'')[-200:],)))
        starts = [x[4] for x in log if x[1] == 228][:1] + [x[4] for x in log[:200]]
        worst = None
        for s in starts:                   # the reading get-internal-run-time counts from
            at = 0
            self.n = 0
            try:
                for o, l in zip(case['ops'], ls):
                    if o == 'ct':
                        v = int(l)
                        at = self.find(log, at, lambda e: e[3] // G == v, 'current-time: ' + l)
                    elif o == 'gtod':
                        w = l.strip('()').split(' . ')
                        v = (int(w[0]), int(w[1]))
                        at = self.find(log, at, lambda e: (e[3] // G, e[3] % G // 1000) == v, 'gettimeofday: ' + l)
                    elif o == 'run':
                        v = int(l)
                        at = self.find(log, at, lambda e: e[4] - s == v, 'get-internal-run-time: ' + l)
                return
            except Bad as b:
                worst = worst or b
                if 'run' not in case['ops']:
                    break
        raise worst

    def lib(self, case, r):
        rs = O.results(r.res)
        if O.hasbad(rs):
            raise SimError('bad operation in ' + str(case['ops']))
        log = self.log(r)
        at = 0
        lo = 1000 * G          # a reading of the monotonic clock before the present call
        timer = None           # (earliest expiry, latest expiry, interval) of the alarm
        fired = (0, 0)         # bounds for the number of signals handled by lo
        slack = 40 * case['tick'] + 2000
        ops = case['ops']
        armed = 'signal 14 2' in ops

        def readings(k):       # monotonic clock of the next reading in the history
            for j in range(k + 1, len(ops)):
                if ops[j] == 'clock_gettime 1' and j < len(rs):
                    f = rs[j].split(',')
                    return int(f[1]) * G + int(f[2])
            return None

        def shots(t, base):    # bounds for expirations up to time t
            if timer is None:
                return (0, 0)
            a, b, iv = timer
            def count(x, first):
                if x < first:
                    return 0
                return 1 + ((x - first) // iv if iv else 0)
            return (count(t - slack, b), count(t + slack, a))
        for k, o in enumerate(ops):
            if k >= len(rs):
                raise Bad('crash', 'the program stopped in %s (%s %d)' % (o, r.end[0], r.end[1]))
            w = O.word(o)[1]
            f = [int(x) for x in rs[k].split(',') if x]
            if w[0] in ('sleep', 'alarm') and f:
                f[0] &= 0xffffffff         # unsigned; the driver prints it as an int
            if w[0] in ('time', 'time0'):
                if w[0] == 'time' and f[0] != f[1]:
                    raise Bad('time', 'time returned %d and stored %d' % tuple(f[:2]))
                at = self.find(log, at, lambda e: e[3] // G == f[0], 'time: %d' % f[0])
            elif w[0] == 'gettimeofday':
                if f[0] != 0:
                    raise Bad('gettimeofday', 'gettimeofday gave ' + rs[k])
                at = self.find(log, at, lambda e: (e[3] // G, e[3] % G // 1000) == (f[1], f[2]), 'gettimeofday: %d.%06d' % (f[1], f[2]))
            elif w[0] == 'clock_gettime':
                c = int(w[1])
                if c in (99, -1):
                    if f != [-1, 22]:
                        raise Bad('clock_gettime', '%s gave %s' % (o, rs[k]))
                    continue
                if f[0] != 0:
                    raise Bad('clock_gettime', '%s gave %s' % (o, rs[k]))
                col = {0: 3, 1: 2, 2: 4}[c]
                at = self.find(log, at, lambda e: (e[col] // G, e[col] % G) == (f[1], f[2]), '%s: %d.%09d' % (o, f[1], f[2]))
                if c == 1:
                    lo = f[1] * G + f[2]
            elif w[0] == 'getrusage':
                if w[1] == '7':
                    if f != [-1, 22]:
                        raise Bad('getrusage', '%s gave %s' % (o, rs[k]))
                    continue
                if w[1] == '0':
                    at = self.find(log, at, lambda e: (e[4] // G, e[4] % G // 1000) == (f[1], f[2]), 'getrusage: %d.%06d' % (f[1], f[2]))
                elif f != [0, 0, 0]:
                    raise Bad('getrusage', '%s gave %s' % (o, rs[k]))
            elif w[0] == 'hcount' and armed:
                s = shots(lo, 0)
                b = fired[1] + s[1]
                if case['tick'] * 50 < (timer[2] if timer and timer[2] else G):
                    a = fired[0] + s[0]
                else:
                    a = fired[0] + (1 if s[0] else 0)       # expirations that come faster than calls merge
                if not a <= f[0] <= b:
                    raise Bad('alarm', 'the handler ran %d times by %d, expected %d to %d (timer %s)' % (f[0], lo, a, b, timer))
                self.n += 1
            elif w[0] in ('sleep', 'nanosleep', 'alarm', 'setitimer'):
                hi = readings(k)
                if hi is None:
                    return
                if w[0] in ('sleep', 'nanosleep'):
                    ns = int(w[1]) * G + (int(w[2]) if w[0] == 'nanosleep' else 0)
                    if w[0] == 'nanosleep' and (int(w[1]) < 0 or not 0 <= int(w[2]) < G):
                        if f[:2] != [-1, 22]:
                            raise Bad('nanosleep', '%s gave %s' % (o, rs[k]))
                        continue
                    e = shots(hi, 0)
                    storm = timer and timer[2] and timer[2] < 60 * case['tick']    # handlers alone take all the time
                    if f[0] == 0:
                        if hi - lo < ns:
                            raise Bad('sleep', '%s ended after %d ns' % (o, hi - lo))
                        if hi - lo > ns + slack and not storm:
                            raise Bad('oversleep', '%s lasted %d ns' % (o, hi - lo))
                    else:
                        if case['var'] == 'mescc' and w[0] == 'sleep' and ns >= G << 31 and f[0] * G == ns:
                            raise Bad('sleep-unsigned', '%s returned at once' % o)
                        if not armed or e[1] - shots(lo - slack, 0)[0] < 1:
                            raise Bad('sleep', '%s gave %s although no signal was due' % (o, rs[k]))
                        if w[0] == 'sleep':
                            left = f[0] * G
                            if not 0 < left <= ns or abs(hi - lo + left - ns) > G + slack and not storm:
                                raise Bad('remaining', '%s lasted %d ns and reported %d s left' % (o, hi - lo, f[0]))
                        else:
                            if f[0] != -1 or f[1] != 4:
                                raise Bad('nanosleep', '%s gave %s' % (o, rs[k]))
                            left = f[2] * G + f[3]
                            if not 0 <= left <= ns or abs(hi - lo + left - ns) > slack and not storm:
                                raise Bad('remaining', '%s lasted %d ns and reported %d ns left' % (o, hi - lo, left))
                    self.n += 1
                else:
                    if w[0] == 'alarm':
                        v, u, iv = int(w[1]), 0, 0
                    else:
                        v, u, iv = int(w[1]), int(w[2]), int(w[3]) * G + int(w[4]) * 1000
                        if not 0 <= u < 1000000:
                            if f != [-1, 22]:
                                raise Bad('setitimer', '%s gave %s' % (o, rs[k]))
                            continue
                    # what was left of the timer before
                    s0, s1 = shots(lo, 0), shots(hi, 0)
                    if timer is None:
                        lefts = [(0, 0)]
                    else:
                        a, b, p = timer
                        lefts = []
                        for n in range(s0[0], s1[1] + 1):
                            if p == 0 and n > 0:
                                lefts.append((0, 0))
                            else:
                                lefts.append((a + n * p - hi, b + n * p - lo))
                        lefts = [(max(0, x - slack), max(0, y + slack)) for x, y in lefts if y >= -slack] or [(0, 0)]
                    if w[0] == 'alarm':
                        g = f[0] * G
                        if not any(x - G <= g <= y + G and (g > 0 or x == 0) and (g == 0 or y > 0) for x, y in lefts):
                            raise Bad('alarm', '%s returned %d, left were %s ns' % (o, f[0], lefts))
                    else:
                        if f[0] != 0:
                            raise Bad('setitimer', '%s gave %s' % (o, rs[k]))
                        g = f[1] * G + f[2] * 1000
                        if not any(x - 1000 <= g <= y + 1000 for x, y in lefts):
                            raise Bad('setitimer', '%s: old value %d ns, left were %s ns' % (o, g, lefts))
                    fired = (fired[0] + (1 if s0[0] and case['tick'] * 50 >= (timer[2] or G) else s0[0]), fired[1] + s1[1])
                    ns = v * G + u * 1000
                    timer = (lo + ns, hi + ns, iv) if ns else None
                    self.n += 1
        if r.end != ('exit', 0):
            raise Bad('crash', 'the program ended %s %d' % r.end)

    def shrink(self, case):
        if case['kind'] == 'gc':
            ls = case['prog'].split('\n')
            for a in range(len(ls)):
                yield dict(case, prog='\n'.join(ls[:a] + ls[a + 1:]))
        else:
            for o in O.shrink_ops(case['ops']):
                yield dict(case, ops=o)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
        if case['tick'] != 1000:
            yield dict(case, tick=1000)
        if case['wall'] != 10 ** 18:
            yield dict(case, wall=10 ** 18)


if __name__ == '__main__':
    sys.exit(main(C12()))
