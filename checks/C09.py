#!/usr/bin/env python3
"""C09: reading a directory returns every entry exactly once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O

GERR = [5, 4, 2, 9]


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Stream:
    def __init__(self, path, present):
        self.path, self.got, self.ended = path, [], False
        self.must = set(present)          # there since the start, so far
        self.may = set(present)


class C09(Check):
    pid = 'C09'
    parts = ('gccguest', 'mesccguest')
    rule = 'a history counts when a directory of at least two names was read to its end'
    real = ['lib/dirent/*.c, lib/linux/getdents.c and the allocation and descriptor calls under them, in both builds']
    stub = ['kernel: directories of sim/simrun.cpp; it chooses how many entries a getdents call returns and may fail it']
    assumptions = ['names that appear or vanish while a directory is read may or may not be returned, at most once']
    quick_s, thorough_s = 45, 450

    def nm(self, rng):
        k = rng.random()
        if k < 0.6:
            return ''.join(rng.choice('abcdefgh.-_0123456789') for _ in range(rng.choice([1, 2, 3, 5, 8, 13, 21, 40])))
        if k < 0.8:
            return 'n%d' % rng.randrange(1000)
        if k < 0.9:
            return rng.choice('xyz') * rng.choice([100, 200, 250, 254, 255])
        return ''.join(rng.choice('abc \t*?\xc3\xa9~#%"') for _ in range(rng.randint(1, 12)))

    def gen(self, rng, i, ctx):
        case = dict(seed=rng.randrange(1 << 40), rules=[], var=rng.choice(O.VARIANTS), dirs={})
        for d in range(rng.randint(1, 3)):
            n = rng.choice([0, 1, 2, 3, 5, 10, 30, 31, 60, 150, 300])
            names = set(self.nm(rng) for _ in range(n)) - {'.', '..', ''}
            case['dirs']['d%d' % d] = sorted([x.encode('utf-8', 'surrogateescape').hex(), rng.choice('ffffdl')] for x in names)
        ops, open_, s = [], {}, 0
        small = {}
        for _ in range(rng.choice([4, 10, 25, 60])):
            k = rng.random()
            if not open_ or (k < 0.12 and len(open_) < 5):
                s += 1
                d = rng.choice(sorted(case['dirs']))
                p = '/work/' + d
                j = rng.random()
                if j < 0.1:
                    ops.append('opendir ' + O.hexs(rng.choice(['/work/none', '/work/file', '/work/%s/none' % d, '', '/work/file/x'])))
                    continue
                if j < 0.25:
                    ops.append('chdir x2f')
                    p = 'work/' + d
                ops.append('=%d opendir %s' % (s, O.hexs(p)))
                open_[s] = d
            elif k < 0.72:
                t = rng.choice(sorted(open_))
                for _ in range(rng.choice([1, 1, 2, 5, 20])):
                    ops.append('readdir $%d' % t)
            elif k < 0.80:
                t = rng.choice(sorted(open_))
                ops.append('readall $%d 400' % t)
                if rng.random() < 0.4:
                    ops += ['readdir $%d' % t] * rng.randint(1, 2)
            elif k < 0.86:
                t = rng.choice(sorted(open_))
                open_.pop(t)
                ops.append('closedir $%d' % t)
            elif k < 0.93:
                d = rng.choice(sorted(case['dirs']))
                x = rng.choice(['new%d' % rng.randrange(5)] + [bytes.fromhex(n[0]).decode('utf-8', 'surrogateescape') for n in case['dirs'][d] if n[1] == 'f'][:8])
                p = O.hexs('/work/%s/%s' % (d, x))
                j = rng.random()
                if j < 0.4:
                    s += 1
                    ops += ['=%d open %s 65 420' % (s, p), 'close $%d' % s]
                elif j < 0.75:
                    ops.append('unlink ' + p)
                elif j < 0.9:
                    ops.append('rename %s %s' % (p, O.hexs('/work/%s/new%d' % (d, rng.randrange(5)))))
                else:
                    ops.append('mkdir %s 493' % O.hexs('/work/%s/dir%d' % (d, rng.randrange(3))))
            else:
                s += 1
                ops += rng.choice([['=%d malloc 3000' % s, 'fill $%d 3000 7' % s], ['seterrno %d' % rng.choice([0, 5, 2])], ['=%d open %s 0 0' % (s, O.hexs('/work/file')), 'read $%d 50' % s, 'close $%d' % s], ['getcwd0 0']])
        for t in sorted(open_):
            ops.append('readall $%d 400' % t)
            if rng.random() < 0.7:
                ops.append('closedir $%d' % t)
        case['ops'] = ops
        k = rng.random()
        if k < 0.75:
            case['rules'].append('getdents_batch ppm=%d' % rng.choice([300000, 700000, 1000000]))
        if rng.random() < 0.3:
            case['rules'].append('getdents_err ppm=%d vals=5,4,2,9 max=%d' % (rng.choice([60000, 300000]), rng.choice([1, 2, 5])))
        if rng.random() < 0.1:
            case['rules'].append('open_err ppm=300000 vals=13,24,23,12,40')
        if rng.random() < 0.1:
            case['rules'].append('brk_fail ppm=300000')
        if rng.random() < 0.1:
            case['rules'].append('sys_err ppm=100000 vals=5,9,12')
        return case

    def scen(self, case, ctx):
        ls = fault_lines(case) + O.scenario(ctx, case['var'], case['ops'], res=100000 + 30000 * sum('readall' in o for o in case['ops'])) + STD + FDS + ['file /work/file 644 data']
        for d, ns in case['dirs'].items():
            ls.append('dir /work/%s 755' % d)
            for n, t in ns:
                p = enc(b'/work/%s/' % d.encode() + bytes.fromhex(n))
                ls.append({'f': 'file %s 644 x', 'd': 'dir %s 755', 'l': 'symlink %s t'}[t] % p)
        return ls

    def judge(self, case, ctx):
        r = ctx.sim(self.scen(case, ctx))
        rs = O.results(r.res)
        if O.hasbad(rs):
            raise SimError('bad operation in ' + str(case['ops']))
        self.full = 0
        try:
            self.follow(case, r, rs)
        except Bad as b:
            return Verdict(b.sig, '%s (%s build; %s)' % (b.msg, case['var'], '; '.join(o[:70] for o in case['ops'][:30])), r)
        return Verdict(None, '', r, key=r.hash, nontrivial=self.full > 0)

    def follow(self, case, r, rs):
        dirs = {'/work/' + d: set([b'.', b'..'] + [bytes.fromhex(n) for n, t in ns]) for d, ns in case['dirs'].items()}
        st, fd = {}, {}
        gerr = r.fired.get('getdents_err', 0)
        oerr = r.fired.get('open_err', 0) + r.fired.get('sys_err', 0) + r.fired.get('brk_fail', 0)
        errs = 0
        faulty = any(x.split(' ')[0] in ('sys_err', 'open_err') for x in case['rules'])
        for k, o in enumerate(case['ops']):
            if k >= len(rs):
                raise Bad('crash', 'the program stopped in %s (%s %d)' % (o, r.end[0], r.end[1]))
            s, w = O.word(o)
            f = rs[k].split(',')

            def path(t):
                p = bytes.fromhex(t[1:])
                return p if p[:1] == b'/' else b'/' + p

            def gone(d, n):
                for x in st.values():
                    if x.path == d:
                        x.must.discard(n)

            def came(d, n):
                for x in st.values():
                    if x.path == d:
                        x.may.add(n)
                        x.must.discard(n)
            if w[0] == 'opendir':
                p = path(w[1]).decode('utf-8', 'surrogateescape') if len(w[1]) > 1 else ''
                v = int(f[0])
                if v == -1:
                    want = {'/work/none': 2, '': 2, '/work/file': 20, '/work/file/x': 20}.get(p)
                    if p.endswith('/none'):
                        want = 2
                    if want is None:
                        errs += 1
                        if oerr == 0:
                            raise Bad('opendir', 'opendir %s failed with errno %s' % (p, f[1]))
                        if int(f[1]) == 0:
                            raise Bad('opendir', 'opendir failed without an errno')
                    elif int(f[1]) != want and not faulty:
                        raise Bad('opendir', 'opendir %s failed with errno %s, expected %d' % (p, f[1], want))
                    if s is not None:
                        st.pop(s, None)
                    continue
                if p not in dirs:
                    raise Bad('opendir', 'opendir %r succeeded' % p)
                if s is None:
                    continue
                st[s] = Stream(p, dirs[p])
            elif w[0] in ('readdir', 'readall'):
                x = st.get(int(w[1][1:]))
                if f[0] == '-3':
                    if x is not None:
                        raise Bad('harness', 'stream lost')
                    continue
                if x is None:
                    continue
                names, end = [], None
                if w[0] == 'readdir':
                    if f[0] == '-1':
                        end = int(f[1])
                    else:
                        if int(f[0]) == 0:
                            raise Bad('inode', 'an entry without a number was returned')
                        names = [bytes.fromhex(f[1])]
                else:
                    q = rs[k].split('/')
                    names = [bytes.fromhex(y) for y in q[:-1]]
                    if q[-1].startswith('-1,'):
                        end = int(q[-1][3:])
                for n in names:
                    if x.ended:
                        raise Bad('after-end', '%r was returned after the end of %s' % (n, x.path))
                    if n in x.got:
                        raise Bad('twice', '%r of %s was returned twice' % (n, x.path))
                    if n not in x.may:
                        raise Bad('unknown', '%r was returned, it was never in %s' % (n[:300], x.path))
                    x.got.append(n)
                if end == 0:
                    lost = [n for n in x.must if n not in x.got]
                    if lost:
                        raise Bad('lost', 'the end of %s was reported before %r and %d more (%d returned)' % (x.path, lost[0], len(lost) - 1, len(x.got)))
                    x.ended = True
                    if len(x.got) >= 2:
                        self.full += 1
                elif end is not None:
                    errs += 1
                    if gerr + oerr == 0:
                        raise Bad('error', 'reading %s failed with errno %d' % (x.path, end))
                elif w[0] == 'readall' and len(names) < 400:
                    raise Bad('error', 'neither an end nor an error')
            elif w[0] == 'closedir':
                x = st.pop(int(w[1][1:]), None)
                if x is not None and f[0] != '0':
                    errs += 1
                    if not oerr:
                        raise Bad('closedir', 'closedir returned %s' % rs[k])
            elif w[0] in ('open', 'mkdir') and int(f[0]) >= 0:
                p = path(w[1])
                d, n = p.rsplit(b'/', 1)
                d = d.decode()
                if d in dirs and n not in dirs[d]:
                    dirs[d].add(n)
                    came(d, n)
            elif w[0] == 'unlink' and f[0] == '0':
                d, n = path(w[1]).rsplit(b'/', 1)
                d = d.decode()
                dirs[d].discard(n)
                gone(d, n)
            elif w[0] == 'rename' and f[0] == '0':
                d, n = path(w[1]).rsplit(b'/', 1)
                d2, n2 = path(w[2]).rsplit(b'/', 1)
                d, d2 = d.decode(), d2.decode()
                dirs[d].discard(n)
                dirs[d2].add(n2)
                if (d, n) != (d2, n2):
                    gone(d, n)
                    came(d2, n2)
        if errs > gerr + oerr:
            raise Bad('errors', '%d errors reported, %d happened' % (errs, gerr + oerr))
        if not faulty and gerr > errs:
            raise Bad('hidden-error', 'the kernel failed %d reads of a directory, the program saw %d errors' % (gerr, errs))
        if r.end != ('exit', 0):
            raise Bad('crash', 'the program ended %s %d' % r.end)

    def shrink(self, case):
        for o in O.shrink_ops(case['ops']):
            yield dict(case, ops=o)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
        for d, ns in case['dirs'].items():
            k = max(1, len(ns) // 2)
            while ns:
                for a in range(0, len(ns), k):
                    yield dict(case, dirs=dict(case['dirs'], **{d: ns[:a] + ns[a + k:]}))
                if k == 1:
                    break
                k //= 2


if __name__ == '__main__':
    sys.exit(main(C09()))
