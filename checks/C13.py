#!/usr/bin/env python3
"""C13: the environment is a map, for any history of changes, in C and in Scheme."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O

NAMES = ['A', 'AB', 'ABC', 'B', 'PATH', 'HOME', 'a', 'A_B', 'LONGER_NAME_THAN_OTHERS', 'X1', 'X10', 'X']


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Model:
    def __init__(self, env):
        self.env = [bytes(e) for e in env]
        self.blocks = {}
        self.slot = {}

    def copy(self):
        m = Model(self.env)
        m.blocks, m.slot = dict(self.blocks), dict(self.slot)
        return m

    def get(self, n):
        for e in self.env:
            if e.startswith(n + b'='):
                return e[len(n) + 1:]
        return None

    def set(self, n, v, over):
        for i, e in enumerate(self.env):
            if e.startswith(n + b'='):
                if over:
                    self.env[i] = n + b'=' + v
                return
        self.env.append(n + b'=' + v)

    def unset(self, n):
        self.env = [e for e in self.env if not e.startswith(n + b'=')]


def sval(t):
    if t[0] == 'x':
        return bytes.fromhex(t[1:])
    if t[0] == 'p':
        a, b = t[1:].split(':')
        return O.pat(int(a), int(b))
    return t.encode()


class C13(Check):
    pid = 'C13'
    parts = ('gccguest', 'mesccguest', 'mes')
    rule = 'a history counts when it changed the environment at least three times and read it back at least three times'
    real = ['lib/posix/{setenv,unsetenv,getenv}.c, lib/linux/{malloc,execve,fork}.c in both library builds', 'src/posix.c getenv/setenv and execlp of the interpreter']
    stub = ['kernel: process start, brk, fork and exec of sim/simrun.cpp']
    assumptions = ['names are non-empty and contain no "="']
    quick_s, thorough_s = 60, 600

    # -- generation --------------------------------------------------------
    def name(self, rng):
        k = rng.random()
        if self.fresh and rng.random() < self.fresh:
            self.nf += 1
            self.names.append('F%d' % self.nf)
            return self.names[-1].encode()
        if k < 0.9:
            return rng.choice(self.names).encode()
        return O.pat(rng.randrange(90), rng.choice([30, 200, 1023, 1024, 1500])).replace(b'=', b'_').replace(b'"', b'q').replace(b'\\', b'b')

    def value(self, rng):
        k = rng.random()
        if k < 0.12:
            return b''
        if k < 0.8:
            return rng.choice([b'1', b'=', b'a=b', b'/bin:/usr/bin', b'x' * rng.randrange(1, 40), b'A=', b'%d' % rng.randrange(100000)])
        return O.pat(rng.randrange(90), rng.choice([63, 64, 255, 1024, 4096, 9000]))

    def ops(self, rng, n, depth, rules):
        out = []
        blocks = []
        late = 0
        for _ in range(n):
            k = rng.random()
            if self.swap and rng.random() < self.swap:
                # the program may have its own array in environ
                out.append(rng.choice(['envnew', 'envnew', 'envguard']))
                continue
            if k < 0.38:
                out.append('setenv %s %s %d' % (O.hexs(self.name(rng)), O.hexs(self.value(rng)), rng.choice([1, 1, 1, 0])))
            elif k < 0.5:
                out.append('unsetenv %s' % O.hexs(self.name(rng)))
            elif k < 0.74:
                out.append('getenv %s' % O.hexs(self.name(rng)))
            elif k < 0.8:
                out.append('environ')
            elif k < 0.84:
                out.append('args')
            elif k < 0.90:
                self.n += 1
                sz = rng.choice([1, 8, 30, 100, 1000])
                out += ['=%d malloc %d' % (self.n, sz), 'fill $%d %d %d' % (self.n, sz, self.n)]
                blocks.append((self.n, sz))
            elif k < 0.93 and blocks:
                s, sz = rng.choice(blocks)
                out.append('check $%d %d %d' % (s, sz, s))
            elif k < 0.96 and depth:
                self.kids += 1
                me = self.kids
                body = self.ops(rng, rng.randint(1, 6), depth - 1, rules)
                out += ['child'] + body + ['emit x%s' % (b'/work/c%d' % me).hex(), '_exit 0', 'end']
                if rng.random() < 0.6:
                    out.append('wait')
                else:
                    late += 1
            elif depth and rng.random() < 0.6:
                self.kids += 1
                me = self.kids
                sub = 'environ;getenv %s;emit x%s' % (O.hexs(self.name(rng)), (b'/work/c%d' % me).hex())
                out += ['child', 'exec %s %s x%s x%s @30000' % (rng.choice(['execve', 'execv', 'execvp']), O.hexs('/bin/op-' + rng.choice(O.VARIANTS)), b'kid'.hex(), sub.encode().hex()), '_exit 7', 'end', 'wait']
        for s, sz in blocks:
            out.append('check $%d %d %d' % (s, sz, s))
        out += ['environ'] + ['wait'] * late
        return out

    def gen(self, rng, i, ctx):
        self.n = self.kids = self.nf = 0
        self.fresh = rng.choice([0.5, 0.9]) if rng.random() < 0.2 else 0
        self.swap = 0.05 if rng.random() < 0.15 else 0
        self.names = list(NAMES)
        case = dict(seed=rng.randrange(1 << 40), rules=[], var=rng.choice(['gcc', 'mescc']) if rng.random() < 0.93 else 'mes')
        env = []
        k = rng.random()
        if k < 0.15:
            n = 0
        elif k < 0.85:
            n = rng.randint(1, 8)
        else:
            n = rng.choice([50, 200])
            self.names += ['V%d' % j for j in range(0, n, 7)]
        for j in range(n):
            m = rng.random()
            if n >= 50:
                env.append(b'V%d=%d' % (j, j))
            elif m < 0.8:
                env.append(self.name(rng) + b'=' + self.value(rng))
            elif m < 0.88:
                env.append(rng.choice(NAMES).encode())          # no '='
            elif env:
                env.append(rng.choice(env).split(b'=')[0] + b'=dup%d' % j)
        if case['var'] == 'mes':
            env = [e for e in env if b'=' in e and len(e) < 3000][:60]
            env = [e for e in env if not any(e.startswith(x + b'=') for x in self.own)]
            self.names = [n for n in self.names if n.encode() not in self.own]
        case['env'] = [e.hex() for e in env]
        if case['var'] == 'mes':
            case['ops'] = [o for o in self.ops(rng, rng.choice([6, 15, 40]), 0, []) if o.split(' ')[0] in ('setenv', 'unsetenv', 'getenv')]
            case['ops'] = [o for o in case['ops'] if not o.startswith('unsetenv')]
            return case
        if rng.random() < 0.3:
            case['rules'].append(rng.choice(['brk_fail ppm=100000', 'brk_fail ppm=400000', 'brk_fail nth=%d max=1' % rng.randint(1, 25), 'brk_fail ppm=300000 pid=100']))
        if rng.random() < 0.15:
            case['brklimit'] = rng.choice([1000, 5000, 20000, 60000])
        n = rng.choice([40, 80, 160]) if self.fresh else rng.choice([5, 12, 30, 60])
        case['ops'] = self.ops(rng, n, 1 if rng.random() < 0.5 else 0, case['rules'])
        return case

    # -- judging -----------------------------------------------------------
    def scen(self, case, ctx):
        env = [bytes.fromhex(e) for e in case['env']]
        if case['var'] == 'mes':
            return self.mes(case, ctx, env)
        ls = fault_lines(case) + O.scenario(ctx, case['var'], case['ops'], res=90000) + STD + FDS
        for v in O.VARIANTS:
            ls.append('hostfile /bin/op-%s %s 755' % (v, enc(os.path.join(ctx.b.dir, 'opguest-' + v))))
        ls += ['env ' + enc(e) for e in env]
        if case.get('brklimit'):
            ls.append('brklimit %d' % case['brklimit'])
        return ls

    def mes(self, case, ctx, env):
        q = lambda b: '"' + b.decode('latin-1').replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
        L = []
        for o in case['ops']:
            w = o.split(' ')
            if w[0] == 'setenv':
                L.append('(setenv %s %s)' % (q(sval(w[1])), q(sval(w[2]))))
            else:
                L.append('(let ((v (getenv %s))) (display (if v (string-append "<" v ">") "#")) (newline))' % q(sval(w[1])))
        L.append('(execlp "/bin/op-gcc" (list "environ;emit /work/c" (make-string 100000 #\\.)))')
        ls = mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm'], None)
        ls += ['file /work/p.scm 644 ' + enc('\n'.join(L).encode('latin-1')), 'hostfile /bin/op-gcc %s 755' % enc(os.path.join(ctx.b.dir, 'opguest-gcc'))]
        # the interpreter's own variables follow the generated ones
        at = next((k for k, l in enumerate(ls) if l.startswith('env ')), len(ls))
        ls[at:at] = ['env ' + enc(e) for e in env]
        return ls + STD + FDS

    def walk(self, m, t, rs, r, who, counts):
        k = 0
        for k, o in enumerate(t):
            if k >= len(rs):
                raise Bad('crash', '%s stopped in %s (%s %d)' % (who, o if isinstance(o, str) else o[0], r.end[0], r.end[1]))
            res = rs[k]
            if isinstance(o, list):
                pid = int(res.split(',')[0])
                if pid < 0:
                    raise Bad('fork', 'fork failed')
                kid = m.copy()
                f = next((bytes.fromhex(x.split(' ')[1][1:]).decode() for x in o[1:] if x.startswith('emit ')), None)
                body = [x for x in o[1:] if x.split(' ')[0] not in ('emit', '_exit')]
                if f is None:
                    w = o[1].split(' ')
                    sub = bytes.fromhex(w[4][1:]).decode().split(';')
                    f = bytes.fromhex(sub[2].split(' ')[1][1:]).decode()
                    body = sub[:2]
                    who2 = 'program started by ' + w[1]
                else:
                    who2 = 'child'
                data = r.files.get(f)
                if data is None:
                    raise Bad('child', '%s left no result (%s)' % (who2, f))
                self.walk(kid, body, O.results(data + b'.'), r, who2, counts)
                continue
            s, w = O.word(o)
            self.step(m, s, w, res, who, counts)

    def step(self, m, s, w, res, who, counts):
        f = res.split(',')
        if w[0] == 'setenv':
            n, v, over = sval(w[1]), sval(w[2]), int(w[3])
            counts['chg'] += 1
            if f[0] == '0':
                m.set(n, v, over)
            elif not self.refusals:
                raise Bad('setenv', 'setenv %r returned %s' % (n, res))
            else:
                counts['null'] += 1
        elif w[0] == 'unsetenv':
            counts['chg'] += 1
            m.unset(sval(w[1]))
        elif w[0] == 'getenv':
            counts['get'] += 1
            want = m.get(sval(w[1]))
            got = None if f[0] == '-1' else f[1]
            if got != (None if want is None else O.summ(want)):
                raise Bad('getenv', '%s: getenv %r is %r, expected %r' % (who, sval(w[1])[:60], got and (bytes.fromhex(got) if ':' not in got else got), want and want[:200]))
        elif w[0] == 'environ':
            counts['get'] += 1
            got = res.split('/')[:-1]
            want = [O.summ(x) for x in m.env]
            if sorted(got) != sorted(want):
                show = lambda x: bytes.fromhex(x.split(':')[0])
                extra = [show(x) for x in got if x not in want][:4]
                lost = [show(x) for x in want if x not in got][:4]
                raise Bad('environ', '%s: environ has %d entries, expected %d; unexpected %r, missing %r' % (who, len(got), len(m.env), extra, lost))
        elif w[0] == 'envnew':
            counts['chg'] += 1
            m.env = []
        elif w[0] == 'envguard':
            if f[0] != '1':
                raise Bad('memory', '%s: the array that the program put in environ was written past its end' % who)
        elif w[0] == 'malloc':
            m.slot[s] = int(f[0])
            if int(f[0]) == -1:
                counts['null'] += 1
        elif w[0] == 'check':
            if f[0] not in ('-1', '-3'):
                raise Bad('memory', '%s: byte %s of a block of %s was changed' % (who, f[0], w[2]))
        elif w[0] == 'args':
            if f[0] != '3' or bytes.fromhex(f[1]) != b'opguest':
                raise Bad('memory', '%s: the arguments are now %s' % (who, res))

    def judge(self, case, ctx):
        r = ctx.sim(self.scen(case, ctx))
        counts = dict(chg=0, get=0, null=0)
        env = [bytes.fromhex(e) for e in case['env']]
        hist = '; '.join(o[:80] for o in case['ops'][:25])
        try:
            if case['var'] == 'mes':
                self.judge_mes(case, r, env, counts)
            else:
                self.refusals = r.fired.get('brk_fail', 0) + r.fired.get('brk_limit', 0)
                rs = O.results(r.res)
                if O.hasbad(rs):
                    raise SimError('bad operation in ' + str(case['ops']))
                m = Model(env)
                self.walk(m, O.tree(case['ops']), rs, r, 'the program', counts)
                if counts['null'] > self.refusals:
                    raise Bad('null', '%d calls failed for want of memory, %d requests were refused' % (counts['null'], self.refusals))
                if r.end != ('exit', 0):
                    raise Bad('crash', 'the program ended %s %d' % r.end)
        except Bad as b:
            return Verdict(b.sig, '%s (%s build; initially %r; %s)' % (b.msg, case['var'], [e[:40] for e in env[:6]], hist), r)
        return Verdict(None, '', r, key=r.hash, nontrivial=counts['chg'] >= 3 and counts['get'] >= 3)

    def judge_mes(self, case, r, env, counts):
        m = Model(env)
        exp = b''
        for o in case['ops']:
            w = o.split(' ')
            if w[0] == 'setenv':
                counts['chg'] += 1
                m.set(sval(w[1]), sval(w[2]), 1)
            else:
                counts['get'] += 1
                v = m.get(sval(w[1]))
                exp += (b'#' if v is None else b'<' + v + b'>') + b'\n'
        if r.out() != exp:
            raise Bad('scheme', 'the Scheme program printed %r, expected %r' % (r.out()[:300], exp[:300]))
        data = r.files.get('/work/c')
        if data is None:
            raise Bad('scheme-child', 'the program started from Scheme left nothing; end %s %d %r' % (r.end + (r.files.get('/dev/err', b'')[-200:],)))
        own = [O.hexs(o)[1:] + '3d' for o in self.own]
        got = [g for g in O.results(data + b'.')[0].split('/')[:-1] if not any(g.startswith(o) for o in own)]
        want = [O.summ(x) for x in m.env]
        if sorted(got) != sorted(want):
            raise Bad('scheme-child', 'the program started from Scheme got %r, expected %r' % ([g for g in got if g not in want][:5], [g for g in want if g not in got][:5]))

    def prepare(self, ctx):
        self.own = set(l[4:].split('%3d')[0].split('=')[0].encode() for l in mes_world(ctx.b, ['x'], None) if l.startswith('env '))

    def shrink(self, case):
        for o in O.shrink_ops(case['ops'], lambda o: o.split(' ')[0] in ('exec', 'emit', '_exit', 'wait')):
            yield dict(case, ops=o)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
        e = case['env']
        k = max(1, len(e) // 2)
        while e:
            for a in range(0, len(e), k):
                yield dict(case, env=e[:a] + e[a + k:])
            if k == 1:
                break
            k //= 2


if __name__ == '__main__':
    sys.exit(main(C13()))
