#!/usr/bin/env python3
"""C01: when the collector runs never changes what a Scheme program does."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))
from core import *
import schemegen

NEVER = 1000000000
REPO_TESTS = ['catch', 'closure', 'cwv', 'display', 'fluids', 'getopt-long', 'guile', 'let', 'math', 'module', 'optargs',
              'srfi-1', 'srfi-13', 'srfi-14', 'srfi-16', 'srfi-43', 'srfi-9', 'syntax', 'vector', 'pmatch', 'let-syntax', 'match', 'psyntax']


class C01(Check):
    pid = 'C01'
    parts = ('mes',)
    rule = ('A case is a Scheme program (generated from seeded snippets, a repository test, or a scaffold/boot program) and a collection '
            'schedule: the exact set of collection points (calls of gc_check) at which the collector runs, plus arena size. '
            'Non-trivial: at least one forced collection fell after start-up, and the reference run produced output.')
    real = ['mes interpreter (src/*.c, gcc build, hooks on)', 'Mes C Library', 'mes/module/*.mes, module/*']
    stub = ['kernel: simulated']
    assumptions = ['collections can only be forced at the places where the interpreter checks for one (gc_check) or calls gc itself',
                   'arena large enough for the live data (C02 covers the rest)']
    quick_s, thorough_s = 75, 750

    def prepare(self, ctx):
        pass

    def world(self, case, ctx, gc):
        if case['kind'] == 'test':
            n = case['test']
            args = ['--no-auto-compile', '-L', '/repo/tests', '-L', '/repo/module', '-C', '/repo/module', '-e', '(tests %s)' % n, '-s', '/repo/tests/%s.test' % n]
            ls = mes_world(ctx.b, args, case.get('env'))
        elif case['kind'] == 'boot':
            n = case['test']
            bt = {'5': 'boot-00.scm', '6': 'boot-01.scm'}.get(n[0]) if n[:2] >= '50' and n[0] in '56' else None
            if bt:
                ls = mes_world(ctx.b, [], dict(case.get('env') or {}, MES_BOOT=bt)) + ['file /work/in 644 ' + enc(open(os.path.join(ctx.b.src, 'scaffold/boot', n), 'rb').read())]
                return ls + STD + ['fd 0 /work/in 0', 'fd 1 /dev/out 1', 'fd 2 /dev/err 1', 'gc ' + gc]
            ls = mes_world(ctx.b, [], dict(case.get('env') or {}, MES_BOOT='/repo/scaffold/boot/' + n))
        else:
            ls = mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm'], case.get('env')) + ['file /work/p.scm 644 ' + enc(case['prog'])]
        return ls + STD + FDS + ['gc ' + gc]

    def gen(self, rng, i, ctx):
        k = rng.random()
        case = {}
        if k < 0.72:
            g = schemegen.Gen(rng)
            case.update(kind='prog', prog=g.program(1, 6))
        elif k < 0.9:
            t = rng.choice(REPO_TESTS[:-2] if rng.random() < 0.9 else REPO_TESTS)
            case.update(kind='test', test=t)
        else:
            ts = sorted(f for f in os.listdir(os.path.join(ctx.b.src, 'scaffold/boot')) if f.endswith('.scm'))
            case.update(kind='boot', test=rng.choice(ts))
        # number of collection points of an undisturbed run
        r = ctx.sim(self.world(case, ctx, str(NEVER)))
        pts = NEVER - int(r.stat.get('gcnext', NEVER))
        boot = 74800 if case['kind'] != 'boot' else 0
        boot = min(boot, max(0, pts - 10))
        n = max(1, pts - boot)
        m = rng.random()
        if m < 0.45:                       # a dense window inside the program
            w = rng.choice([60, 200, 600])
            start = boot + rng.randrange(0, max(1, n - w // 2)) if n > w else boot + rng.randrange(0, 8)
            tab = [start] + [0] * min(w, n)
        elif m < 0.75:                     # scattered, through the program
            cnt = rng.choice([20, 100, 300])
            tab = [boot + rng.randrange(0, 30)] + [rng.randrange(0, max(1, 2 * n // cnt) + 1) for _ in range(cnt)]
        elif m < 0.85:                     # regular
            step = rng.choice([1, 2, 3, 7, 31])
            tab = [boot + rng.randrange(0, max(1, n))] + [step] * 300
        elif m < 0.95:                     # during start-up too
            tab = [rng.randrange(0, max(1, pts))] + [rng.choice([0, 0, 1, 5, 400]) for _ in range(150)]
        else:
            tab = [rng.randrange(0, max(1, pts))]
        case['gc'] = tab
        if case['kind'] == 'prog' and rng.random() < 0.25:
            case['env'] = {'MES_ARENA': str(rng.choice([1000000, 2000000, 3000000])), 'MES_JAM': str(rng.choice([500000, 700000]))}
        return case

    def judge(self, case, ctx):
        ref = dict(case)
        ref['env'] = None
        r0 = ctx.sim(self.world(ref, ctx, str(NEVER)))
        pts = NEVER - int(r0.stat.get('gcnext', NEVER))
        r1 = ctx.sim(self.world(case, ctx, ','.join(map(str, case['gc'])) or '-1'))
        sig = msg = None
        o0, o1 = r0.out(), r1.out()
        if r1.end != r0.end:
            sig = 'ending'
            msg = 'with collections the program ends %s %d, without %s %d; stderr %r' % (r1.end + r0.end + (r1.files.get('/dev/err', b'')[-200:],))
        elif o0 != o1:
            sig = 'output'
            k = next((i for i, (x, y) in enumerate(zip(o0, o1)) if x != y), min(len(o0), len(o1)))
            msg = 'output differs at byte %d: %r with collections, %r without' % (k, o1[max(0, k - 30):k + 60], o0[max(0, k - 30):k + 60])
        elif {k: v for k, v in r0.files.items() if k != '/dev/err'} != {k: v for k, v in r1.files.items() if k != '/dev/err'}:
            sig, msg = 'files', 'files differ'
        elif r0.end[0] == 'exit' and r0.files.get('/dev/err') != r1.files.get('/dev/err'):
            sig, msg = 'stderr', 'standard error differs: %r / %r' % (r1.files.get('/dev/err', b'')[-150:], r0.files.get('/dev/err', b'')[-150:])
        nt = bool(case['gc']) and case['gc'][0] < pts and len(o0) > 0
        return Verdict(sig, msg, r1, key=(r1.stat.get('pathhash'), r1.hash), nontrivial=nt)

    def shrink(self, case):
        g = case['gc']
        # fewer collections: cut the tail, then merge gaps
        n = len(g)
        k = n
        while k >= 1:
            for a in range(0, n, k):
                part = g[a:a + k]
                if a + k >= n:
                    y = g[:a]
                else:
                    y = g[:a] + [sum(part) + len(part) + g[a + k]] + g[a + k + 1:]
                if y != g and y:
                    yield dict(case, gc=y)
            if k == 1:
                break
            k = (k + 1) // 2
        if case['kind'] == 'prog':
            ls = case['prog'].split('\n')
            for a in range(len(ls)):
                if ls[a].strip():
                    yield dict(case, prog='\n'.join(ls[:a] + ls[a + 1:]))


if __name__ == '__main__':
    sys.exit(main(C01()))
