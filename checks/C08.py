#!/usr/bin/env python3
"""C08: heap blocks are disjoint, aligned and stable; exhaustion gives NULL."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O

SIZES = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 33, 64, 100, 127, 255, 1000, 1024, 4095, 4096, 4097, 5000, 12288, 20000, 32768, 65535, 65536, 70000]
ALIGN = 8


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class State:
    def __init__(self):
        self.live = {}        # slot -> [addr, size, contents]; contents: seed | 'zero' | bytes | None
        self.val = {}         # slot -> result
        self.end = 0

    def copy(self):
        s = State()
        s.live = {k: list(v) for k, v in self.live.items()}
        s.val, s.end = dict(self.val), self.end
        return s


class C08(Check):
    pid = 'C08'
    parts = ('gccguest', 'mesccguest')
    rule = 'a history counts when at least four blocks were obtained and at least one block was verified after a later request'
    real = ['lib/linux/malloc.c, lib/posix/sbrk.c, lib/stdlib/{calloc,realloc,free}.c, lib/string/strdup.c and the library calls that allocate, in both builds']
    stub = ['kernel: brk, fork and files of sim/simrun.cpp; refusals of brk are injected']
    assumptions = ['suitable alignment is that of max_align_t as include/stddef.h declares it (8 bytes)']
    quick_s, thorough_s = 50, 500

    def body(self, rng, n, depth, live):
        out = []
        live = dict(live)
        for _ in range(n):
            k = rng.random()
            if k < 0.36 or not live:
                self.n += 1
                s, sz = self.n, rng.choice(SIZES)
                j = rng.random()
                if j < 0.5:
                    out.append('=%d malloc %d' % (s, sz))
                elif j < 0.75:
                    m = rng.choice([1, 1, 2, 3, 5, 8])
                    out.append('=%d calloc %d %d' % ((s, m, max(1, sz // m)) if rng.random() < 0.5 else (s, max(1, sz // m), m)))
                    sz = max(1, sz // m) * m
                    if rng.random() < 0.6:
                        out.append('zero $%d %d' % (s, sz))
                        live[s] = [sz, None]
                        continue
                elif j < 0.85:
                    sz = rng.choice([0, 1, 7, 8, 9, 30, 31, 100, 255, 256, 4096, 32767, 32768, 65535, 65536, 66000])
                    if sz > 100:
                        seed = rng.randrange(90)
                        out += ['=%d strdup p%d:%d' % (s, seed, sz), 'sum $%d %d' % (s, sz + 1)]
                        live[s] = [sz + 1, None]
                        continue
                    d = O.pat(rng.randrange(90), sz)
                    out += ['=%d strdup %s' % (s, O.hexs(d)), 'peek $%d %d' % (s, sz + 1)]
                    live[s] = [sz + 1, None]
                    continue
                elif j < 0.92:
                    out.append('=%d sbrk %d' % (s, sz))
                elif j < 0.97:
                    out.append('=%d malloc %s' % (s, rng.choice(['-1', '-8', '9223372036854775807', '4611686018427387904', '3000000000', '300000000000000', '-4096'])))
                    continue
                else:
                    m, c = 2 * rng.randrange(1, 1 << rng.randrange(1, 40)) + 1, rng.randrange(1 << rng.randrange(4, 20))
                    z = c * pow(m, -1, 1 << 64) % (1 << 64)            # m * z is c, modulo the word
                    if m * z >> 64 and rng.random() < 0.7:
                        out.append('=%d calloc %d %d' % ((s,) + rng.choice([(m, z), (z, m)])))
                    else:
                        out.append('=%d calloc %s' % (s, rng.choice(['8 2305843009213693953', '2 -1', '4611686018427387904 4', '2305843009213693953 8', '-1 -1', '3037000500 6074001000', '-1 2'])))
                    continue
                seed = rng.randrange(1, 250)
                out.append('fill $%d %d %d' % (s, sz, seed))
                live[s] = [sz, seed]
            elif k < 0.50:
                s = rng.choice(sorted(live))
                sz, seed = live[s]
                if seed is None:
                    continue
                self.n += 1
                t, nz = self.n, rng.choice(SIZES[1:] + [sz + 1, max(1, sz - 1), 2 * sz + 1])
                out += ['=%d realloc $%d %d' % (t, s, nz), 'check $%d %d %d' % (t, min(sz, nz), seed), 'check $%d %d %d' % (s, sz, seed)]
                ns = rng.randrange(1, 250)
                out.append('fill $%d %d %d' % (t, nz, ns))
                live.pop(s)
                live[t] = [nz, ns]
            elif k < 0.58:
                s = rng.choice(sorted(live))
                out.append('free $%d' % s)
                live.pop(s)
            elif k < 0.70:
                s = rng.choice(sorted(live))
                if live[s][1] is not None:
                    out.append('check $%d %d %d' % (s, live[s][0], live[s][1]))
            elif k < 0.76:
                s = rng.choice(sorted(live))
                if live[s][1] is not None:
                    seed = rng.randrange(1, 250)
                    out.append('fill $%d %d %d' % (s, live[s][0], seed))
                    live[s][1] = seed
            elif k < 0.9:
                # library calls that allocate or write memory of their own
                self.n += 1
                out += rng.choice([
                    ['setenv %s %s 1' % (O.hexs('V%d' % rng.randrange(20)), O.hexs(O.pat(5, rng.choice([1, 50, 300]))))],
                    ['getcwd0 %d' % rng.choice([0, 100, 4096])], ['getcwd 300'],
                    ['=%d fopen %s r' % (self.n, O.hexs('/work/f')), 'fgetc $%d' % self.n, 'fgets $%d 60' % self.n, 'fread $%d 1 300' % self.n, 'fclose $%d' % self.n],
                    ['=%d open %s 0 0' % (self.n, O.hexs('/work/f')), 'read $%d 100' % self.n, 'read $%d 17' % self.n, 'lseek $%d 0 1' % self.n, 'close $%d' % self.n],
                    ['=%d opendir %s' % (self.n, O.hexs('/work')), 'readall $%d 20' % self.n, 'closedir $%d' % self.n],
                    ['puts x4142'], ['time0'], ['getrusage 0'], ['atexit 1'], ['seterrno 5']])
            elif depth:
                self.kids += 1
                b = self.body(rng, rng.randint(2, 8), depth - 1, live)
                out += ['child'] + b + ['emit x%s' % (b'/work/c%d' % self.kids).hex(), '_exit 0', 'end']
                if rng.random() < 0.4:
                    out.append('wait')
                else:
                    self.late += 1
        for s in sorted(live):
            if live[s][1] is not None:
                out.append('check $%d %d %d' % (s, live[s][0], live[s][1]))
        return out

    def gen(self, rng, i, ctx):
        self.n = self.kids = self.late = 0
        case = dict(seed=rng.randrange(1 << 40), rules=[], var=rng.choice(O.VARIANTS))
        ops = self.body(rng, rng.choice([5, 12, 30, 60]), 1 if rng.random() < 0.35 else 0, {})
        case['ops'] = ops + ['wait'] * self.late
        k = rng.random()
        if k < 0.45:
            case['rules'].append(rng.choice(['brk_fail ppm=100000', 'brk_fail ppm=500000', 'brk_fail nth=%d max=1' % rng.randint(1, 40), 'brk_fail ppm=400000 after=%d' % rng.randint(1, 40)]))
        if 0.3 < k < 0.7:
            case['limit'] = rng.choice([100, 3000, 8192, 30000, 66000, 100000])
        if rng.random() < 0.5:
            case['brkoff'] = rng.randrange(1, 5000)
        return case

    def scen(self, case, ctx):
        ls = fault_lines(case) + O.scenario(ctx, case['var'], case['ops'], res=60000, env={'A': '1'}) + STD + FDS
        ls += ['file /work/f 644 ' + enc(O.pat(3, 700)), 'dir /work/d1 755', 'file /work/g 644 x']
        if case.get('limit'):
            ls.append('brklimit %d' % case['limit'])
        if case.get('brkoff'):
            ls.append('brkoff %d' % case['brkoff'])
        return ls

    def got(self, st, s, addr, size, zero, name, res, case, r):
        st.val[s] = addr
        if addr == -1 or (name == 'sbrk' and addr == 0):
            st.val[s] = -1
            self.nulls += 1
            if not (case.get('rules') or case.get('dec')) and self.limit is not None:
                need = (st.end - self.base if st.end else 0) + size + 76000 + 5000 * sum(1 for o in case['ops'] if 'opendir' in o or 'getcwd' in o or 'setenv' in o)
                if 0 <= size < 1 << 40 and need <= self.limit:
                    raise Bad('refused', '%s of %d bytes failed with %d of %d bytes in use' % (name, size, st.end and st.end - self.base, self.limit))
            return
        if addr % ALIGN:
            raise Bad('alignment', '%s returned %#x' % (name, addr))
        if size < 0 or size > self.limit:
            raise Bad('impossible', '%s of %d bytes returned a block' % (name, size))
        for t, (a, n, c) in st.live.items():
            if a < addr + size and addr < a + n:
                raise Bad('overlap', '%s of %d bytes returned %#x, inside the live block %#x of %d bytes' % (name, size, addr, a, n))
        if self.outer and addr + size > self.brkend:
            raise Bad('outside', '%s of %d bytes returned %#x, but the heap ends at %#x' % (name, size, addr, self.brkend))
        st.end = max(st.end, addr + size)
        st.live[s] = [addr, size, zero]
        self.blocks += 1

    def walk(self, st, t, rs, case, r, who):
        for k, o in enumerate(t):
            if k >= len(rs):
                raise Bad('crash', '%s stopped in %s (%s %d)' % (who, o if isinstance(o, str) else o[0], r.end[0], r.end[1]))
            res = rs[k]
            if isinstance(o, list):
                if int(res.split(',')[0]) < 0:
                    raise Bad('fork', 'fork failed')
                f = bytes.fromhex(next(x for x in o if x.startswith('emit ')).split(' ')[1][1:]).decode()
                if f not in r.files:
                    raise Bad('crash', 'a child left no result (it ended %s)' % [e for e in r.events if e.startswith('exit')])
                was, self.outer = self.outer, False
                self.walk(st.copy(), [x for x in o[1:] if x.split(' ')[0] not in ('emit', '_exit')], O.results(r.files[f] + b'.'), case, r, 'a child')
                self.outer = was
                continue
            s, w = O.word(o)
            f = res.split(',')
            n = [int(x) if x.lstrip('-').isdigit() else None for x in w]
            if w[0] in ('malloc', 'sbrk'):
                z = n[1]
                if z < 0 and w[0] == 'malloc':
                    z += 1 << 64
                self.got(st, s, int(f[0]), z, None, w[0], res, case, r)
            elif w[0] == 'calloc':
                z = (n[1] % (1 << 64)) * (n[2] % (1 << 64))
                self.got(st, s, int(f[0]), z, 'zero', w[0], res, case, r)
            elif w[0] == 'strdup':
                d = O.pat(*map(int, w[1][1:].split(':'))) if w[1][0] == 'p' else bytes.fromhex(w[1][1:])
                self.got(st, s, int(f[0]), len(d) + 1, d + b'\0', w[0], res, case, r)
            elif w[0] == 'realloc':
                old = int(w[1][1:])
                if st.val.get(old, 0) in (0, -1):
                    continue
                blk = st.live.pop(old, None)
                if blk is None:
                    continue
                try:
                    self.got(st, s, int(f[0]), n[2], blk[2], w[0], res, case, r)
                finally:
                    if int(f[0]) == -1:
                        st.live[old] = blk
            elif w[0] == 'free':
                st.live.pop(int(w[1][1:]), None)
            elif w[0] == 'fill':
                b = st.live.get(int(w[1][1:]))
                if b:
                    b[2] = n[3]
            elif w[0] == 'check':
                b = st.live.get(int(w[1][1:]))
                if b is None or b[2] != n[3] or n[2] > b[1]:
                    continue        # freed, refused or refilled
                self.checks += 1
                if f[0] != '-1':
                    raise Bad('contents', '%s: byte %s of a live block of %d bytes changed' % (who, f[0], b[1]))
            elif w[0] == 'zero':
                b = st.live.get(int(w[1][1:]))
                if b and b[2] == 'zero' and f[0] != '-1':
                    raise Bad('zero', 'byte %s of a block from calloc is not zero' % f[0])
            elif w[0] == 'sum':
                b = st.live.get(int(w[1][1:]))
                if b and isinstance(b[2], bytes):
                    self.checks += 1
                    if f[1] != O.summ(b[2]):
                        raise Bad('strdup', 'the copy of %d bytes is %s, expected %s' % (len(b[2]) - 1, f[1], O.summ(b[2])))
            elif w[0] == 'peek':
                b = st.live.get(int(w[1][1:]))
                if b and isinstance(b[2], bytes) and f[1] != b[2].hex():
                    raise Bad('strdup', 'the copy is %s, expected %s' % (f[1], b[2].hex()))

    def judge(self, case, ctx):
        r = ctx.sim(self.scen(case, ctx))
        self.blocks = self.checks = self.nulls = 0
        self.limit = case.get('limit') or 2 << 30
        self.brkend = int(r.stat['brkend'])
        self.base = self.brkend - int(r.stat['brkmax'])
        self.outer = True
        try:
            rs = O.results(r.res)
            if O.hasbad(rs):
                raise SimError('bad operation in ' + str(case['ops']))
            self.walk(State(), O.tree(case['ops']), rs, case, r, 'the program')
            ref = r.fired.get('brk_fail', 0) + r.fired.get('brk_limit', 0)
            hopeless = sum(1 for o in case['ops'] if o.split(' ')[1:2] and o.split(' ')[1] in ('malloc', 'calloc'))
            if self.nulls > ref + hopeless:
                raise Bad('null', '%d calls returned NULL, %d requests were refused' % (self.nulls, ref))
            if r.end != ('exit', 0):
                raise Bad('crash', 'the program ended %s %d' % r.end)
        except Bad as b:
            return Verdict(b.sig, '%s (%s build; %s)' % (b.msg, case['var'], '; '.join(o[:60] for o in case['ops'][:30])), r)
        return Verdict(None, '', r, key=r.hash, nontrivial=self.blocks >= 4 and self.checks >= 1)

    def shrink(self, case):
        for o in O.shrink_ops(case['ops'], lambda o: o.split(' ')[0] in ('emit', '_exit', 'wait')):
            yield dict(case, ops=o)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
        for k in ('limit', 'brkoff'):
            if case.get(k):
                yield {a: b for a, b in case.items() if a != k}


if __name__ == '__main__':
    sys.exit(main(C08()))
