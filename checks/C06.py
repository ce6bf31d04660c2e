#!/usr/bin/env python3
"""C06: MesCC output depends only on its input."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))
from core import *
import cgen


class C06(cgen.MesccMixin, Check):
    pid = 'C06'
    parts = ('mes',)
    rule = ('A case is a mescc command on generated C files, run by the interpreter once in a reference world and once in a world that differs in what must not matter: when the collector runs, what lies in directories it was not told of, '
            'arena, jam and stack sizes, the clocks and their jumps, process ids, memory layout and initial contents, unrelated environment variables, descriptor limits, how reads are split '
            'and writes taken, the speed of helpers, the schedule, and leftovers of an earlier run. All files left must be the same. Non-trivial: always.')
    real = ['mes interpreter (src/*.c, gcc build) with the Mes C Library', 'module/mescc/*.scm, scripts/mescc.scm, mes/module/**, Nyacc']
    stub = ['kernel: simulated', 'M1, hex2, blood-elf: stand-ins whose output shows all of their arguments and inputs']
    assumptions = ['memory and descriptors suffice: the interpreter never closes a file']
    quick_s, thorough_s = 95, 750

    def gen(self, rng, i, ctx):
        case = self.pool_case(rng.randrange(self.pool_n) if rng.random() < 0.95 or self.tier == 'quick' else 1000 + rng.randrange(10000))
        case.update(seed=rng.randrange(1 << 30), rules=[], env={}, world=[], stale=False)
        W, R, E = case['world'], case['rules'], case['env']
        dims = rng.sample(['gc', 'arena', 'wall', 'pid', 'layout', 'env', 'reads', 'delay', 'sched', 'jump', 'stale', 'fd', 'litter', 'gc'], rng.choice([1, 1, 2, 4]))
        for d in dims:
            if d == 'gc':
                k = rng.random()
                m = rng.choice([10000, 300000, 2000000])
                W.append('gc ' + ','.join(str(rng.randrange(1, m)) for _ in range(rng.choice([1, 2, 5, 12]))))
            elif d == 'arena':
                n = rng.choice([2200000, 2600000, 4000000, 9000000, 20000000])
                E.update(MES_ARENA='%d' % n, MES_MAX_ARENA='%d' % (n * rng.choice([1, 1, 2])))
                if rng.random() < 0.5:
                    E['MES_STACK'] = str(rng.choice([1500000, 2000000, 5000000]))
                if rng.random() < 0.5:
                    E['MES_JAM'] = str(rng.choice([200000, 400000, 1000000]))
            elif d == 'wall':
                W.append('wall %d' % rng.choice([0, 1, 999999999, 1000000000000000000, 4102444800000000000, 2147483648000000000, rng.randrange(1 << 61)]))
            elif d == 'pid':
                W.append('pid0 %d' % rng.choice([2, 99, 32766, 99999, 4000000]))
                if rng.random() < 0.5:
                    W.append('pidrand')
            elif d == 'layout':
                W += ['brkoff %d' % (4096 * rng.randrange(3000)), 'stkoff %d' % (16 * rng.randrange(5000)), 'fill %d' % rng.randrange(256)]
            elif d == 'env':
                for _ in range(rng.choice([1, 3, 20, 200])):
                    E[rng.choice(['HOME', 'LANG', 'TZ', 'TERM', 'USER', 'LC_ALL', 'EDITOR', 'A', 'Z', 'MES', 'CFLAGS', 'SHELL', 'PWD', 'OLDPWD', 'DATE', 'SOURCE_DATE_EPOCH'] + ['V%d' % rng.randrange(1000)])] = rng.choice(
                        ['', 'x', '/home/u', 'C', 'de_DE.UTF-8', '0', '1', 'a=b', 'y' * 1000])
                E.pop('V', None)
            elif d == 'reads':
                R.append('short_read ppm=%d path=%s vals=%s' % (rng.choice([1000000, 300000, 20000]), rng.choice(['/work/', '/repo/include', '/lib/', '/repo/module', '/']), rng.choice(['1', '1,2,3', '7,100,1000'])))
                if rng.random() < 0.5:
                    R.append('short_write ppm=%d vals=1,2' % rng.choice([1000000, 100000]))
            elif d == 'delay':
                R.append('stub_delay ppm=%d vals=1000,1000000,60000000000' % rng.choice([1000000, 500000]))
            elif d == 'sched':
                R.append('sched ppm=%d' % rng.choice([1000, 500000]))
            elif d == 'jump':
                R.append('clockjump ppm=%d vals=%s' % (rng.choice([100, 10000]), rng.choice(['-3600000000000,3600000000000', '1000,-1000', '86400000000000000'])))
            elif d == 'stale':
                case['stale'] = True
            elif d == 'litter':
                # what lies about where nobody asked mescc to look
                case['litter'] = rng.randrange(1 << 30)
                for k in ('HOME', 'PWD', 'srcdest', 'MES_LIB'):
                    if rng.random() < 0.5:
                        E[k] = {'HOME': '/home', 'PWD': '/work', 'srcdest': '/home/', 'MES_LIB': '/home/lib'}[k]
            elif d == 'fd':
                W.append('maxfd %d' % rng.choice([256, 4096]))
        return case

    def judge(self, case, ctx):
        bend, bfiles, bmodes = self.base(case, ctx)
        ls = cgen.world(case, ctx, case['env'])
        if case['stale']:       # what an earlier, different run left
            ls += ['file %s 755 %s' % (p, enc(b'stale ' * 9000)) for p in sorted(bfiles) if p not in case['files'] and p not in cgen.PRE and '/lib/' not in p]
        litter = self.litter(case, bfiles) if case.get('litter') is not None else {}
        ls += ['file %s 644 %s' % (p, enc(d)) for p, d in sorted(litter.items())]
        r = ctx.sim(ls + case['world'] + fault_lines(case))
        if r.end != bend and b'out of memory' in r.files.get('/dev/err', b''):
            # the collector may come too late for a small arena
            for k in ('MES_ARENA', 'MES_MAX_ARENA'):
                ls = [x for x in ls if not x.startswith('env %s%%3d' % k) and not x.startswith('env %s=' % k)] + ['env ' + enc('%s=20000000' % k)]
            r = ctx.sim(ls + case['world'] + fault_lines(case))
        files = {p: d for p, d in r.files.items() if p.startswith('/work/') and p not in litter}
        sig = msg = None
        if r.end != bend:
            sig, msg = 'ending', 'mescc ends by %s %d, in the reference world by %s %d; stderr %r' % (r.end + bend + (r.files.get('/dev/err', b'')[-200:],))
        elif files != bfiles:
            p = next(p for p in sorted(set(files) | set(bfiles)) if files.get(p) != bfiles.get(p))
            x, y = files.get(p), bfiles.get(p)
            if x is None or y is None:
                sig, msg = 'files', '%s exists only in %s' % (p, 'this world' if x else 'the reference world')
            else:
                n = next((j for j, (a, b) in enumerate(zip(x, y)) if a != b), min(len(x), len(y)))
                sig, msg = 'bytes', '%s differs at byte %d: %r, in the reference world %r' % (p, n, x[max(0, n - 20):n + 60], y[max(0, n - 20):n + 60])
        if sig:
            msg += ' (%s; %s)' % (' '.join(case['args']), case['rules'] + case['world'] + [str(case['env'])[:300]])
        return Verdict(sig, msg, r, key=r.hash + str(case['world']) + str(case['env']), nontrivial=True)

    def litter(self, case, known):
        rng = random.Random(case['litter'])
        o = {}
        for a in ('x86_64', 'x86', 'arm'):
            for d in ('/work/mescc-lib/', '/work/lib/linux/', '/home/lib/', '/home/mescc-lib/', '/home/', '/tmp/', '/work/'):
                for n in ('crt1.o', 'libc.a', 'libc.s', 'libmescc.a', 'libmescc.s', a + '.M1', 'elf64-header.hex2', 'elf32-header.hex2', 'elf64-footer-single-main.hex2', 'elf32-footer-single-main.hex2'):
                    if rng.random() < 0.4:
                        o['%s%s-mes/%s' % (d, a, n)] = b'litter %d\n' % rng.randrange(1000)
        for n in ('/home/.mes', '/home/.guile', '/home/.mesccrc', '/work/.mes', '/work/include/stdio.h', '/work/crt1.o', '/work/libc.a', '/tmp/a.s', '/work/M1', '/work/hex2'):
            if rng.random() < 0.5:
                o[n] = b'(display "litter %d")\n' % rng.randrange(1000)
        return {p: d for p, d in o.items() if p not in case['files'] and p not in known and p not in cgen.PRE}

    def shrink(self, case):
        if case.get('litter') is not None:
            yield {x: y for x, y in case.items() if x != 'litter'}
        for k in ('rules', 'world'):
            for j in range(len(case[k])):
                yield dict(case, **{k: case[k][:j] + case[k][j + 1:]})
        for k in sorted(case['env']):
            yield dict(case, env={a: b for a, b in case['env'].items() if a != k})
        for w in case['world']:
            if w.startswith('gc ') and ',' in w:
                l = w[3:].split(',')
                for j in range(len(l)):
                    yield dict(case, world=[x if x != w else 'gc ' + ','.join(l[:j] + l[j + 1:]) for x in case['world']])
        for f in sorted(case['files']):
            l = case['files'][f].split('\n')
            k = len(l) // 2
            while k >= 1:
                for a in range(0, len(l), k):
                    yield dict(case, files=dict(case['files'], **{f: '\n'.join(l[:a] + l[a + k:])}))
                k //= 2


if __name__ == '__main__':
    sys.exit(main(C06()))
