#!/usr/bin/env python3
"""C05: mescc reports success only for a complete and correct output."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))
from core import *
import cgen


class C05(cgen.MesccMixin, Check):
    pid = 'C05'
    parts = ('mes',)
    rule = ('A case is a mescc command (-S, -c, -E or linking, with -o, -I, -D, -l, -L, -g, -nostdlib and others, for x86_64, x86 and arm) on generated C files and headers, run '
            'by the interpreter under one kind of failure at a seeded moment: files that are missing or cannot be opened or read, outputs that cannot be created or written, '
            'a disk that fills up, forks, execs, waits and dup2s that fail, helpers that fail or are killed before or after writing part of their output, memory that runs out. '
            'Its outcome is compared with that of the same command without faults. Non-trivial: a fault was injected.')
    real = ['mes interpreter (src/*.c, gcc build) with the Mes C Library', 'module/mescc/*.scm, scripts/mescc.scm, mes/module/**, Nyacc']
    stub = ['kernel: simulated', 'M1, hex2, blood-elf: stand-ins whose output is a function of their arguments and inputs, and that fail when an input or their output does']
    assumptions = ['a helper that exits with 0 has written its output', 'a header exists in one place of the search path only']
    quick_s, thorough_s = 95, 750

    def gen(self, rng, i, ctx):
        case = self.pool_case(rng.randrange(self.pool_n) if rng.random() < 0.9 or self.tier == 'quick' else 1000 + rng.randrange(10000))
        case.update(seed=rng.randrange(1 << 30), rules=[], env={}, missing=[], world=[])
        k = rng.random()
        R = case['rules']
        srcs = sorted(case['files'])
        libs = ['/lib/%s-mes/%s' % (case['arch'], f) for f in ('libc.a', 'libmescc.a', 'crt1.o', 'libc.s', 'libmescc.s')] + ['/work/lib/%s-mes/libextra.%s' % (case['arch'], x) for x in 'as']
        tools = ['/bin/M1', '/bin/hex2', '/bin/blood-elf']
        paths = [(rng.choice(srcs), 3), ('/work/', 9), ('/work/', 9), ('/repo/include/', 2), ('/lib/', 2), ('/repo/module', 14), ('/repo/mes', 50), ('/nyacc', 20), ('/', 90)]

        def where(m=1):
            p, n = rng.choice(paths)
            return 'path=%s after=%d' % (p, rng.choice([0, 0, 1, rng.randrange(n * m)]))
        if k < 0.05:
            # a command that cannot succeed: an input of no known kind (made or missing), broken source, a library that nobody has
            case['bad'] = rng.choice([['arg', 'foo.txt'], ['arg', 'foo'], ['arg', 'nosuch'], ['arg', 'sub/x.y.z'], ['arg', 'lib.so'], ['arg', 'nosuch.c'], ['arg', 'nosuch.s'], ['arg', 'nosuch.o'], ['arg', '-lnosuch'], ['arg', '--nosuch'], ['arg', '-o'],
                                      ['src', '}\n'], ['src', '#error stop\n'], ['src', '#include "nosuch.h"\n'], ['src', '/* open\n'], ['src', 'int int;\n']])
            if case['bad'][1] in ('nosuch.s', 'nosuch.o', '-lnosuch', 'nosuch.c') and not (case['mode'] == 'link' or (case['mode'], case['bad'][1]) == ('pre', '-lnosuch') and '-c' not in case['args'] or case['bad'][1] == 'nosuch.c'):
                case['bad'] = ['arg', 'foo.txt']
            if case['bad'] == ['src', '/* open\n'] or case['bad'][0] == 'src' and case['mode'] == 'pre' or case['bad'][0] == 'arg' and case['mode'] == 'E' and case['bad'][1][0] != '-':
                case['bad'] = ['arg', '--nosuch']
        elif k < 0.14:
            used = [p for p in rng.choice([srcs, srcs, libs, tools, list(cgen.PRE)]) if self.used(p, case)]
            case['missing'] = [rng.choice(used or srcs)]
        elif k < 0.24:
            R.append('open_err ppm=1000000 max=%d vals=%s %s' % (rng.choice([1, 1, 1000]), rng.choice(['13', '2', '24', '12', '5', '4']), where()))
        elif k < 0.40:
            R.append('read_err ppm=1000000 max=%d vals=%s %s' % (rng.choice([1, 1, 1000]), rng.choice(['5', '5', '12', '21', '4']), where(4)))
        elif k < 0.52:
            R.append('write_err ppm=1000000 max=%d vals=%s path=%s after=%d' % (rng.choice([1, 1, 1000]), rng.choice(['28', '5', '27', '122', '4']), rng.choice(case['outs'] + ['/work/', '/']), rng.choice([0, 1, 2, 10, rng.randrange(300), rng.randrange(3000)])))
        elif k < 0.58:
            case['world'].append('disk %d' % rng.choice([0, 1, 100, 1000, rng.randrange(30000), rng.randrange(60000)]))
        elif k < 0.62:
            R.append('create_enospc ppm=1000000 max=1 after=%d' % rng.choice([0, 0, 1]))
        elif k < 0.78:
            v = rng.choice(['fork_err ppm=1000000 max=1 vals=11,12', 'exec_err ppm=1000000 max=1 vals=2,13,7,8,12', 'wait_err ppm=1000000 max=1 vals=4,10', 'stub_outcome ppm=1000000 max=1 vals=1,2,127,255,126',
                            'stub_outcome ppm=1000000 max=1 vals=257,265,267,271', 'stub_outcome ppm=1000000 max=1 vals=513,521,523,527', 'sys_err nr=33 ppm=1000000 max=1 vals=9,24', 'sys_err nr=21 ppm=1000000 max=1 vals=13,2 after=%d' % rng.randrange(12)])
            R.append(v + (' after=%d' % rng.choice([0, 0, 1, 2]) if 'after' not in v else ''))
        elif k < 0.88:
            case['env'] = rng.choice([dict(MES_ARENA='%d' % n, MES_MAX_ARENA='%d' % n) for n in (60000, 150000, 300000, 500000, 700000)] + [dict(MES_STACK='%d' % n) for n in (1000, 5000, 20000, 60000)])
        elif k < 0.92:
            R.append('brk_fail ppm=1000000 after=%d' % rng.choice([0, 1, 2, 5, 20, 100, rng.randrange(2000)]))
        else:
            R.append(rng.choice(['short_write ppm=300000', 'short_read ppm=300000 path=/work/', 'sched ppm=300000']))
            R.append(rng.choice(['write_err ppm=300 vals=28,5', 'open_err ppm=20000 vals=13,24', 'read_err ppm=2000 vals=5', 'sys_err ppm=2000 vals=5,12 not=8']))
        return case

    def used(self, p, case):
        """Can the command need this file?"""
        b = p.rsplit('/', 1)[1]
        if p.endswith('.h'):
            return any('"%s"' % b in t for t in case['files'].values())
        if p.startswith('/bin/'):
            return case['mode'] in 'c link pre'
        if p.startswith('/lib/') or 'extra' in p:
            return case['mode'] in ('link', 'pre') and ('extra' not in p or 'extra' in case['args']) and (b[-2:] != '.s' or '-g' in case['args'])
        return b in case['args']

    def judge(self, case, ctx):
        bend, bfiles, _ = self.base(case, ctx)
        bad = case.get('bad')
        run = case
        if bad:
            run = dict(case, args=case['args'] + [bad[1]] if bad[0] == 'arg' else case['args'])
            if bad[0] == 'src':
                f = next(a for a in case['args'] if '/work/' + a in case['files'])
                run['files'] = dict(case['files'], **{'/work/' + f: case['files']['/work/' + f] + bad[1]})
            case = dict(case, world=case['world'] + ['file /work/%s 644 %s' % (f, enc(b'int x;\n')) for f in ('foo.txt', 'foo', 'sub/x.y.z', 'lib.so')])
        r = ctx.sim(cgen.world(run, ctx, case['env'], case['missing']) + case['world'] + fault_lines(case))
        sig = msg = None
        if r.end[0] in ('stall', 'hang'):
            sig, msg = 'hang', 'mescc %ss' % r.end[0]
        elif r.end == ('exit', 0):
            err = r.files.get('/dev/err', b'')[-200:]
            if bend != ('exit', 0):
                sig, msg = 'success', 'mescc exits 0 although the same command without faults ends by %s %d; stderr %r' % (bend + (err,))
            if bad:
                sig, msg = 'bad', 'mescc exits 0 with %s %r; stderr %r' % ({'arg': 'the argument', 'src': 'a source file that ends in'}[bad[0]], bad[1], err)
            for o in case['outs']:
                if sig is None and o not in r.files:
                    sig, msg = 'missing', 'mescc exits 0 without having made %s; stderr %r' % (o, err)
                elif sig is None and r.files[o] != bfiles.get(o):
                    x, y = r.files[o], bfiles.get(o, b'')
                    n = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    sig, msg = 'wrong', 'mescc exits 0 and %s has %d bytes, fault-free %d, first difference at byte %d: %r, expected %r; stderr %r' % (o, len(x), len(y), n, x[n:n + 40], y[n:n + 40], err)
        if sig:
            msg += ' (%s; %s)' % (' '.join(case['args']), case['rules'] or case['missing'] or case.get('bad') or case['env'] or case['world'])
        return Verdict(sig, msg, r, key=r.hash, nontrivial=bool(r.fired or bad or case['missing'] or case['env'] or case['world']))

    def shrink(self, case):
        for f in sorted(case['files']):
            l = case['files'][f].split('\n')
            k = len(l) // 2
            while k >= 1:
                for a in range(0, len(l), k):
                    yield dict(case, files=dict(case['files'], **{f: '\n'.join(l[:a] + l[a + k:])}))
                k //= 2
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])


if __name__ == '__main__':
    sys.exit(main(C05()))
