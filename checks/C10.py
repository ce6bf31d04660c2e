#!/usr/bin/env python3
"""C10: processes: right program, right arguments, right status."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O

FORK, EXEC, WAIT, PIPE = 57, 59, 61, 22
ODD = [5, 12, 11, 4, 1, 122, 75]
LONG = 'q' * 200
IN = bytes(32 + (i * 37 + i // 95) % 95 for i in range(3000))


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


def h(b):
    v = 7
    for c in b:
        v = (v * 31 + c) & 16777215
    return v


def u8(s):
    return s.encode('utf-8', 'surrogateescape')


class C10(Check):
    pid = 'C10'
    parts = ('gccguest', 'mesccguest')
    rule = 'a history counts when at least two child processes were started and collected'
    real = ['lib/linux/{fork,execve,waitpid,pipe,kill}.c, lib/posix/{execv,execvp,execl,execlp,wait}.c, lib/mes/{search-path,__buffered_read}.c and the start-up code of both library builds']
    stub = ['kernel: processes, pipes and the scheduler of sim/simrun.cpp', 'some of the programs started are stubs that record their arguments, environment and descriptors']
    assumptions = ['a program that was executed is the last to read a file it shares: it reads ahead and does not give back at its end',
                   'processes that read the same pipe do so one at a time', 'execl and execlp with MesCC only: variable arguments are documented not to work with GCC on x86_64']
    quick_s, thorough_s = 55, 600

    # ------------------------------------------------------------ the world
    def world(self, rng):
        dirs = ['/bin', '/usr/bin', '/work/p1', '/work', '/work/' + LONG + '/' + LONG, '/opt/x']
        f = []
        for d in dirs:
            for n in ('rec', 'two', 'op'):
                k = rng.random()
                if k < 0.25:
                    f.append([d + '/' + n, 'op', rng.choice(O.VARIANTS), 0o755] if n == 'op' else [d + '/' + n, 'rec', rng.choice([0, 0, 1, 7, 255]), 0o755])
                elif k < 0.33:
                    f.append([d + '/' + n, 'dir', 0, 0o755])
                elif k < 0.40:
                    f.append([d + '/' + n, 'file', 0, 0o644])
                elif k < 0.44 and n != 'op':
                    f.append([d + '/' + n, 'rec', 0, 0o700])
        k = rng.random()
        comp = ['/bin', '/usr/bin', '/work/p1', 'p1', '.', '', '/none', '/' + 'n' * 250, '/work/' + LONG + '/' + LONG, '/opt/x/', '/bin/rec', '/work']
        path = None if k < 0.06 else '' if k < 0.09 else ':'.join(rng.choice(comp) for _ in range(rng.choice([1, 1, 2, 3, 6, 12])))
        return f, path

    def strings(self, rng, n):
        return [rng.choice(['', 'a', '-x', 'arg one', '*', 'A=B', '\udcff\udc80', 'w' * 300, "q'\"\\$", 'x%d' % i, '\n', '--']) for i in range(n)]

    def gen(self, rng, i, ctx):
        self.next, self.done = 0, set()
        files, path = self.world(rng)
        var = rng.choice(O.VARIANTS)
        case = dict(seed=rng.randrange(1 << 40), rules=[], var=var, files=files, path=path, env=rng.choice([{}, {'A': '1'}, {'A': '1', 'HOME': '/', 'PATHX': '/bin:/opt/x', 'ZZ': '/bin:/usr/bin:/work/p1:/work'}]),
                    uid=rng.choice([0, 1000]), pid0=rng.choice([100, 2, 32000]), pidrand=rng.random() < .3, stdin=rng.random() < 0.5)
        case['late'] = rng.random() < 0.5
        faults = rng.random()
        if faults < 0.15:
            case['rules'].append('fork_err ppm=%d vals=11,12' % rng.choice([100000, 400000]))
        if 0.1 < faults < 0.3:
            case['rules'].append('wait_err ppm=%d vals=%d,%d' % (rng.choice([100000, 400000]), rng.choice(ODD), 4))
        if 0.25 < faults < 0.4:
            case['rules'].append('exec_err ppm=%d vals=%d,%d,%d' % (rng.choice([200000, 600000]), *rng.sample(ODD + [7, 26, 40, 8], 3)))
        if 0.35 < faults < 0.45:
            case['rules'].append('sys_err nr=22,62 ppm=300000 vals=%d,%d' % tuple(rng.sample(ODD + [23, 24], 2)))
        if rng.random() < 0.6:
            case['rules'].append('sched ppm=%d' % rng.choice([50000, 300000, 800000]))
        if rng.random() < 0.4:
            case['rules'] += ['short_read ppm=300000', 'short_write ppm=%d' % rng.choice([0, 300000])]
        if rng.random() < 0.3:
            case['rules'].append('stub_delay ppm=600000 vals=1000,100000,100000000')
        case['err'] = faults < 0.45
        case['pipecap'] = rng.choice([65536, 8192, 4096])
        ops = [self.wide(rng) for _ in range(rng.choice([0, 0, 1]))]
        case['body'] = ops + self.body(rng, case, 0)
        return case

    def wide(self, rng):
        return ['setenv', rng.choice(['NEW', 'A', 'B']), rng.choice(['', 'v', 'a b', 'x' * 500])]

    def nid(self):
        self.next += 1
        return self.next

    def body(self, rng, case, depth):
        out = []
        kids = []
        for _ in range(rng.choice([1, 2, 4, 7]) if depth == 0 else rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.45:
                n = self.nid()
                kids.append(n)
                out.append(['fork', n, self.kid(rng, case, depth + 1)])
            elif k < 0.70 and depth < 2:
                out.append(self.pipes(rng, case, depth))
                kids += out[-1][2]
            elif k < 0.80 and depth == 0 and not case['err']:
                a, n = rng.choice([0, 1, 5, 99, 100, 128, 130, 400]), self.nid()
                fd = 0 if case['stdin'] and rng.random() < 0.4 else 3 if case['late'] else None
                if fd is None or fd in self.done:
                    continue
                kids.append(n)
                ex = ['exec', rng.choice(['execve', 'execv']), '/bin/opx-' + rng.choice(O.VARIANTS), ['readf', fd, rng.choice([1, 10, 150])], self.nid()] if rng.random() < 0.5 else None
                if ex:
                    self.done.add(fd)
                out.append(['share', n, fd, a, rng.choice([0, 1, 7, 100, 200]), ex, rng.choice([0, 1, 50, 300])])
            elif k < 0.86 and not any('fork_err' in x for x in case['rules']):
                n = self.nid()
                kids.append(n)
                out += [['fork', n, [['sleep'], ['_exit', 6]]], ['work', rng.choice([1, 50])], ['kill', n, rng.choice([9, 15, 1, 2, 13, 14, 10, 11])]]
            elif k < 0.9:
                out.append(['work', rng.choice([1, 100])])
            elif k < 0.93:
                out.append(self.wide(rng))
            else:
                out.append(['wait'])
            j = rng.random()
            if j < 0.2 and kids:
                out.append(['waitpid', rng.choice(kids), rng.choice([0, 0, 1])])
            elif j < 0.3:
                out.append(['waitpid', -1, rng.choice([0, 1, 1])])
            elif j < 0.33:
                out.append(['waitpid', 'bogus', rng.choice([0, 1])])
            elif j < 0.36:
                out.append(['waitpid', 0, 1])
        if rng.random() < 0.85 or depth == 0:
            out.append(['waitall'])
        return out

    def end(self, rng):
        k = rng.random()
        if k < 0.35:
            return ['_exit', rng.choice([0, 0, 1, 2, 42, 127, 128, 255, 256, 511, -1, 65536])]
        if k < 0.55:
            return ['exit', rng.choice([0, 1, 3, 77, 255, 256, -2])]
        if k < 0.85:
            return ['die', rng.choice([9, 15, 1, 2, 3, 6, 8, 10, 11, 12, 13, 14, 24, 31])]
        if k < 0.9:
            return ['crash']
        return ['abort']

    def kid(self, rng, case, depth):
        out = []
        if rng.random() < 0.3:
            out.append(['work', rng.choice([1, 30])])
        if rng.random() < 0.15:
            out.append(self.wide(rng))
        if rng.random() < 0.1:
            out.append(['unsetenv', rng.choice(['PATH', 'A'])])
        if depth < 3 and rng.random() < 0.25:
            out += self.body(rng, case, depth)
        if rng.random() < 0.5:
            fun = rng.choice(['execv', 'execve', 'execvp', 'execvp', 'execvp'] + (['execl', 'execlp', 'execlp'] if case['var'] == 'mescc' else []))
            k = rng.random()
            args = ([rng.choice(['rec', 'me', '', 'two', '-sh'])] + self.strings(rng, rng.choice([0, 1, 2, 4])))[:5]
            if fun not in ('execl', 'execlp') and rng.random() < 0.2:
                args += self.strings(rng, 15)
            if k < 0.7:
                if fun in ('execvp', 'execlp') and rng.random() < 0.75:
                    prog = rng.choice(['rec', 'rec', 'two', 'op', 'nope'])
                else:
                    fs = [f[0] for f in case['files']] or ['/nothing']
                    prog = rng.choice(fs + ['/bin/opx-gcc', './rec', 'p1/rec', 'p1/../two', '/none', '', '/work', 'rec/x'])
            else:
                prog = '/bin/opx-' + rng.choice(O.VARIANTS)
            if rng.random() < 0.3:
                out.append(['cloexec'])
            if rng.random() < 0.3:                                # a failure, and another environment, first
                out.append(['exec', fun if rng.random() < 0.5 else 'execv', '/none', ['none'], self.nid(), 'fails'])
                for _ in range(rng.choice([1, 1, 2])):
                    out.append(self.wide(rng) if rng.random() < 0.7 else ['unsetenv', rng.choice(['PATH', 'A', 'HOME'])])
            out.append(['exec', fun, prog, args, self.nid()])
        return out + [self.end(rng)]

    def pipes(self, rng, case, depth):
        """A group of processes joined by pipes; all ends are closed by the end."""
        k = rng.choice(['in', 'out', 'pair', 'chain', 'broken'])
        kids = [self.nid() for _ in range({'in': 1, 'out': 1, 'pair': 2, 'chain': rng.choice([3, 4]), 'broken': 2}[k])]
        n = rng.choice([0, 1, 10, 500, 512, 4096, 4097, 30000, 60000]) if k != 'broken' else rng.choice([10, 70000 // 2])
        return ['pipes', k, kids, dict(depth=depth, n=n, s=rng.randrange(80), w=rng.choice([1, 100, 512, 5000, 60000]) if n < 5000 else rng.choice([512, 5000, 60000]),
                                       r=rng.choice([1, 7, 99, 100, 101, 128, 300, 5000]) if n < 5000 else rng.choice([99, 128, 300, 5000]), take=rng.choice([0, 1, 50]))]

    # ------------------------------------------------------------ to ops
    def compile(self, case):
        ops = []
        if case['late']:
            ops.append('open %s 0 0' % O.hexs('/work/in'))
        self.argv, self.bad = {}, set()
        main = dict(id=0, items=[None] * len(ops))
        self.procs = {0: main}
        self.emit(case, case['body'] + [['waitall']], ops, main, 0, [])
        return ops

    def emit(self, case, body, ops, me, id, pipes):
        def op(text, item):
            ops.append(text)
            me['items'].append(item)
        def fork(n, f):
            k = dict(id=n, items=[])
            self.procs[n] = k
            op('=%d child' % (20 + n % 60), ['fork', n])
            f(k)
            ops.append('end')
        def finish(k, e):
            ops.append('emit %s' % O.hexs('/work/r%d' % k['id']))
            k['end'] = e
            if e[0] in ('_exit', 'exit'):
                ops.append('%s %d' % (e[0], e[1]))
            elif e[0] == 'die':
                ops.append('raise %d' % e[1])
            else:
                ops.append(e[0])
            ops.append('_exit 77')
        for it in body:
            t = it[0]
            if t == 'share':           # one file read by parent, child and the program that the child starts, in turn
                n, fd, a, c, ex, d = it[1:]
                self.emit(case, [['readf', fd, a], ['fork', n, [['readf', fd, c]] + [ex] * (ex is not None) + [['_exit', 5]]], ['waitpid', n, 0]] + [['readf', fd, d]] * (ex is None), ops, me, id, pipes)
            elif t == 'fork':
                fork(it[1], lambda k: self.emit(case, it[2], ops, k, it[1], pipes))
            elif t == 'wait':
                op('wait', it)
            elif t == 'waitpid':
                w = it[1]
                op('waitpid %s %d' % (w if w in (-1, 0) else 999999 if w == 'bogus' else '$%d' % (20 + w % 60), it[2]), it)
            elif t == 'waitall':
                op('waitall', it)
            elif t == 'work':
                op('work %d 3' % it[1], None)
            elif t == 'sleep':
                op('sleep 1000000', None)
            elif t == 'kill':
                op('kill $%d %d' % (20 + it[1] % 60, it[2]), it)
            elif t == 'setenv':
                op('setenv %s %s 1' % (O.hexs(it[1]), O.hexs(it[2])), it)
            elif t == 'unsetenv':
                op('unsetenv %s' % O.hexs(it[1]), it)
            elif t == 'readf':
                op('read %d %d' % (it[1], it[2]), it)
            elif t == 'cloexec':
                op('fcntl 1 2 1', it)
            elif t == 'exec':
                a = it[3]
                if len(it) < 6:
                    ops.append('emit %s' % O.hexs('/work/r%d' % id))
                if a and a[0] == 'readf':
                    a = ['kid', 'read %d %d;emit %s' % (a[1], a[2], O.hexs('/work/x%d' % it[4])), None]
                elif it[2].startswith('/bin/opx'):
                    a = a[:1] + ['args;environ;emit %s;_exit 33' % O.hexs('/work/x%d' % it[4]), None] + a[1:3]
                self.argv[it[4]] = a
                op('exec %s %s %s' % (it[1], O.hexs(it[2]), ' '.join('@3000' if x is None else O.hexs(x) for x in a)), it)
                if len(it) < 6:
                    ops.append('emit %s' % O.hexs('/work/f%d' % id))
            elif t == 'pipes':
                self.emit_pipes(case, it, ops, op, fork, finish)
            else:
                finish(me, it)

    def emit_pipes(self, case, it, ops, op, fork, finish):
        k, kids, p = it[1:]
        A = 2 * p['depth'] * 5
        data = 'p%d:%d' % (p['s'], p['n'])
        npipe = len(kids) - 1 if k == 'chain' else 1
        for j in range(npipe):
            op('=%d fcntl -1 1 0' % (A + 2 * j), None)         # -1, should there be no pipe
            op('=%d fcntl -1 1 0' % (A + 2 * j + 1), None)
            op('pipe %d %d' % (A + 2 * j, A + 2 * j + 1), ['pipe', it])
        ends = [A + j for j in range(2 * npipe)]
        def child(n, keep, text, item, code=0):
            def f(c):
                for e in ends:
                    if e not in keep:
                        ops.append('close $%d' % e)
                        c['items'].append(None)
                ops.append(text)
                c['items'].append(item)
                finish(c, ['_exit', code])
            fork(n, f)
        if k == 'in':
            child(kids[0], [A + 1], 'spew $%d %s %d' % (A + 1, data, p['w']), ['spew', it], 4)
            op('close $%d' % (A + 1), None)
            op('slurp $%d %d' % (A, p['r']), ['slurp', it])
            op('close $%d' % A, None)
        elif k == 'out':
            op('signal 13 1', None)
            child(kids[0], [A], 'slurp $%d %d' % (A, p['r']), ['slurp', it], 4)
            op('close $%d' % A, None)
            op('spew $%d %s %d' % (A + 1, data, p['w']), ['spew', it])
            op('close $%d' % (A + 1), None)
            op('signal 13 0', None)
        else:
            if k == 'broken':
                child(kids[0], [A + 1], 'spew $%d %s %d' % (A + 1, data, p['w']), ['spew', it])
                child(kids[1], [A], 'read $%d %d' % (A, p['take']), ['take', it])
            else:
                child(kids[0], [A + 1], 'spew $%d %s %d' % (A + 1, data, p['w']), ['spew', it])
                for j in range(1, npipe):
                    child(kids[j], [A + 2 * j - 2, A + 2 * j + 1], 'copy $%d $%d %d' % (A + 2 * j - 2, A + 2 * j + 1, p['r']), ['copy', it])
                child(kids[-1], [A + 2 * npipe - 2], 'slurp $%d %d' % (A + 2 * npipe - 2, p['r']), ['slurp', it])
            for e in ends:
                op('close $%d' % e, None)

    # ------------------------------------------------------------ judging
    def scen(self, case, ctx):
        ops = self.compile(case)
        env = dict(case['env'])
        if case['path'] is not None:
            env = dict([('PATH', case['path'])] + list(env.items())) if case['seed'] % 2 else dict(list(env.items()) + [('PATH', case['path'])])
        ls = fault_lines(case) + O.scenario(ctx, case['var'], ops, env=env, res=30000) + STD + FDS + ['logsys %d,%d,%d,%d,62' % (FORK, EXEC, WAIT, PIPE), 'pipecap %d' % case['pipecap'], 'pid0 %d' % case['pid0'], 'wall 1700000000000000000', 'maxsys 400000']
        if case['pidrand']:
            ls.append('pidrand')
        for v in O.VARIANTS:
            ls.append('hostfile /bin/opx-%s %s 755' % (v, enc(os.path.join(ctx.b.dir, 'opguest-' + v))))
        for p, k, a, m in case['files']:
            if k == 'op':
                ls.append('hostfile %s %s 755' % (p, enc(os.path.join(ctx.b.dir, 'opguest-' + a))))
            elif k == 'rec':
                ls.append('stub %s record %d' % (p, a))
                if m == 0o700:
                    ls.append('owner %s 0 0 700' % p)
            elif k == 'dir':
                ls.append('dir %s 755' % p)
            else:
                ls.append('file %s 644 x' % p)
        ls += ['dir /work 777', 'owner /work %d 0' % case['uid'], 'file /work/in 644 ' + enc(IN), 'dir /work/p1 755']
        if case['stdin']:
            ls.append('fd 0 /work/in 0')
        if case['uid']:
            ls.append('uid %d %d' % (case['uid'], case['uid']))
        return ls, env

    def find(self, case, fun, prog, env):
        """(path, error set) of the program that the call is to start."""
        def ok(p):
            n = os.path.normpath(os.path.join('/work', p))
            for f in case['files']:
                if f[0] == n:
                    if f[1] == 'dir' or f[1] == 'file' or (f[3] == 0o700 and case['uid']):
                        return 13 if f[1] != 'dir' else -13
                    return 0
            if n in ('/bin/opx-gcc', '/bin/opx-mescc', '/bin/opguest'):
                return 0
            for f in case['files']:
                if n.startswith(f[0] + '/') and f[1] != 'dir':
                    return 20
                if f[0].startswith(n + '/'):
                    return -13
            if n in ('/work', '/bin', '/tmp', '/work/p1', '/dev', '/'):
                return -13
            return 2
        if '/' in prog or fun not in ('execvp', 'execlp'):
            if prog == '':
                return None, {2}
            e = ok(prog)
            return (prog, None) if e == 0 else (None, {abs(e)})
        if 'PATH' not in env or prog == '':
            return None, {2}
        errs = {2}
        for d in env['PATH'].split(':'):
            p = (d or '.').rstrip('/') + '/' + prog
            e = ok(p)
            if e == 0:
                return p, None
            errs.add(abs(e))
        return None, errs

    def judge(self, case, ctx):
        ls, env = self.scen(case, ctx)
        r = ctx.sim(ls)
        self.n = 0
        try:
            self.check(case, r, env)
        except Bad as b:
            return Verdict(b.sig, '%s (%s; seed %d)' % (b.msg, case['var'], case['seed']), r)
        return Verdict(None, '', r, key=r.hash, nontrivial=self.n >= 2)

    def check(self, case, r, env):
        sysl, execs, stubs, status = {}, {}, {}, {}
        for e in r.events:
            w = e.split(' ')
            if w[0] == 'sys':
                sysl.setdefault(int(w[1]), []).append((int(w[2]), int(w[3])))
            elif w[0] == 'exec':
                execs.setdefault(int(w[1]), []).append([dec(x) for x in w[2:]])
            elif w[0] == 'stub':
                stubs.setdefault(int(w[1]), []).append(w[2:])
            elif w[0] == 'stubexit':
                status[int(w[1])] = int(w[2])
        if r.end[0] in ('stall', 'hang', 'limit'):
            raise Bad('stuck', 'the processes stopped making progress (%s)' % r.end[0])
        rs = O.results(r.res)
        if O.hasbad(rs):
            raise SimError('bad operation')
        if r.end != ('exit', 0):
            raise Bad('crash', 'the main process ended %s %d after %d results' % (r.end + (len(rs),)))
        self.r, self.case, self.sysl, self.execs, self.stubs, self.status = r, case, sysl, execs, stubs, status
        self.unsure = {}
        main = self.procs[0]
        self.proc(main, case['pid0'], rs, dict(env), dict(pos={}, cloexec=False), None)

    def take(self, pid, nr, what):
        l = self.sysl.get(pid, [])
        if not l or l[0][0] != nr:
            raise Bad('calls', '%s: the kernel saw %s instead' % (what, l[:1] or 'no such call'))
        return l.pop(0)[1]

    def proc(self, p, pid, rs, env, st, parentpos):
        """Check one process; rs: its results."""
        kids = {}            # pid -> proc, not yet collected
        bypid = {}
        slots = {}
        items = p['items']
        for k, it in enumerate(items):
            if k >= len(rs):
                if it is not None and it[0] == 'exec':
                    return self.execd(p, it, pid, env, st)
                raise Bad('crash', 'process %d stopped at step %d' % (p['id'], k))
            if it is None:
                continue
            f = rs[k].split(',')
            t = it[0]
            if t == 'exec':
                # it came back, so it failed
                kr = self.take(pid, EXEC, it[1]) if self.sysl.get(pid) and self.sysl[pid][0][0] == EXEC else None
                path, errs = self.find(self.case, it[1], it[2], env)
                if f[0] != '-1':
                    raise Bad('exec', '%s %s returned %s' % (it[1], it[2], rs[k]))
                e = int(f[1])
                if kr is not None:
                    if e != -kr:
                        raise Bad('exec-errno', '%s %s failed with errno %d, the kernel said %d' % (it[1], it[2], e, -kr))
                    if path and not any('exec_err' in x for x in self.case['rules']) and self.case.get('dec') is None:
                        raise Bad('exec', '%s %s with PATH %r did not start %s (errno %d)' % (it[1], it[2], env.get('PATH'), path, e))
                elif path or e not in errs:
                    raise Bad('search', '%s %s with PATH %r: errno %d, expected %s' % (it[1], it[2], env.get('PATH'), e, path or errs))
                if path is None and kr is not None and -kr not in errs and not any('exec_err' in x for x in self.case['rules']) and self.case.get('dec') is None:
                    raise Bad('exec', '%s %s: errno %d, expected %s' % (it[1], it[2], -kr, errs))
            elif t == 'fork':
                kr = self.take(pid, FORK, 'fork')
                if kr < 0:
                    if f != ['-1', str(-kr)]:
                        raise Bad('fork', 'fork gave %s, the kernel said %d' % (rs[k], kr))
                    slots[it[1]] = -1
                    self.failed = True
                    st['forkfail'] = True
                    continue
                if f != [str(kr)]:
                    raise Bad('fork', 'fork gave %s, the kernel said %d' % (rs[k], kr))
                slots[it[1]] = kr
                kids[kr] = self.procs[it[1]]
                bypid[kr] = it[1]
                c = self.procs[it[1]]
                c['pid'] = kr
                try:
                    self.child(c, kr, dict(env), st)
                except Bad as b:
                    if b.sig != 'crash':
                        raise
                    c['bad'] = b       # unless the world ended before this process did
            elif t in ('wait', 'waitpid'):
                kr = self.take(pid, WAIT, t)
                target = -1 if t == 'wait' else {'bogus': 999999}.get(it[1], it[1] if it[1] in (-1, 0) else slots.get(it[1], 0))
                self.waited(f, kr, target, t == 'waitpid' and it[2], kids, st)
            elif t == 'waitall':
                j = 0
                while True:
                    kr = self.take(pid, WAIT, 'wait')
                    if j + 1 >= len(f):
                        raise Bad('wait', 'waitall gave ' + rs[k])
                    self.waited(f[j:j + 2], kr, -1, 0, kids, st)
                    j += 2
                    if kr == -10:
                        break
            elif t == 'kill':
                kr = self.take(pid, 62, 'kill')
                want = [str(kr)] if kr >= 0 else ['-1', str(-kr)]
                if f != want:
                    raise Bad('kill', 'kill gave %s, the kernel said %d' % (rs[k], kr))
                c = slots.get(it[1])
                if c in kids and kr == 0:
                    kids[c]['killed'] = it[2]
            elif t == 'pipe':
                kr = self.take(pid, PIPE, 'pipe')
                want = [str(kr)] if kr >= 0 else ['-1', str(-kr)]
                if f[:len(want)] != want:
                    raise Bad('pipe', 'pipe gave %s, the kernel said %d' % (rs[k], kr))
                if kr < 0:
                    self.bad.add(it[1][2][0])
            elif t == 'setenv':
                env[it[1]] = it[2]
            elif t == 'unsetenv':
                env.pop(it[1], None)
            elif t == 'cloexec':
                st = dict(st, cloexec=f[0] == '0')
            elif t == 'readf':
                self.readf(f, it, st)
            elif t in ('slurp', 'spew', 'copy', 'take'):
                self.piped(t, f, it[1], st, rs[k])
        return True

    def readf(self, f, it, st):
        pos = st['pos'].get(it[1], 0)
        want = IN[pos:pos + it[2]]
        if int(f[0]) < 0:
            raise Bad('file', 'read of %d bytes from descriptor %d gave %s' % (it[2], it[1], f))
        got = bytes.fromhex(f[1])
        short = any('short_read' in x for x in self.case['rules']) or self.case.get('dec') is not None
        if got != want[:len(got)] or (len(got) != len(want) and not (short and got)):
            raise Bad('position', 'read of %d bytes from the inherited descriptor %d at %d gave %r, expected %r' % (it[2], it[1], pos, got[:40], want[:40]))
        st['pos'][it[1]] = pos + len(got)

    def piped(self, t, f, it, st, txt):
        p = it[3]
        data = O.pat(p['s'], p['n'])
        k = it[1]
        whole = not st.get('forkfail') and not it[2][0] in self.bad
        if t == 'slurp':
            if it[2][0] in self.bad:
                return
            if int(f[0]) != 0:
                raise Bad('pipe-data', 'reading the pipe to the end gave ' + txt)
            n, s = int(f[1]), int(f[2])
            if n > len(data) or h(data[:n]) != s or (whole and n != len(data)):
                raise Bad('pipe-data', '%s: %d of %d bytes arrived, checksum %d, expected %d' % (k, n, len(data), s, h(data[:n])))
        elif t == 'take':
            if it[2][0] in self.bad:
                return
            if int(f[0]) < 0 or not data.startswith(bytes.fromhex(f[1])) or len(f[1]) // 2 > p['take'] or (whole and data and p['take'] and not f[1]):
                raise Bad('pipe-data', 'reading %d from the pipe gave %s' % (p['take'], txt))
        elif whole and k != 'broken':
            if int(f[0]) < 0 or (t == 'spew' and f[1] != '0') or (t == 'copy' and int(f[1]) != len(data)):
                raise Bad('pipe-data', '%s in %s gave %s' % (t, k, txt))

    def waited(self, f, kr, target, nohang, kids, st):
        if kr < 0:
            if f != ['-1', str(-kr)]:
                raise Bad('wait', 'wait gave %s, the kernel said %d' % (','.join(f), kr))
            if kr == -10 and not any('wait_err' in x for x in self.case['rules']) and self.case.get('dec') is None and (target in kids or (target in (-1, 0) and kids)):
                raise Bad('wait', 'no child to wait for, but %s were not collected' % sorted(kids))
            return
        if f[0] != str(kr):
            raise Bad('wait', 'wait gave %s, the kernel said %d' % (','.join(f), kr))
        if kr == 0:
            if not nohang:
                raise Bad('wait', 'wait returned 0')
            return
        if kr not in kids or (target > 0 and kr != target):
            raise Bad('wait', 'waiting for %d collected %d of %s' % (target, kr, sorted(kids)))
        c = kids.pop(kr)
        if 'bad' in c and not c.get('killed'):
            raise c['bad']
        s = int(f[1])
        want = c.get('want', set())
        if c.get('killed'):
            want = {c['killed']}
        if want and s not in want:
            raise Bad('status', 'process %d (%s) was collected with status %d, expected %s' % (c['id'], c.get('end'), s, sorted(want)))
        self.n += 1

    def statuses(self, c, end):
        t = end[0]
        if t in ('_exit', 'exit'):
            return {(end[1] & 255) << 8}
        if t == 'die':
            return {end[1]}
        if t == 'abort':
            return {6}
        return {11}

    def child(self, c, pid, env, st):
        """Check a child; sets its possible statuses."""
        c['want'] = set()
        r = self.r
        id = c['id']
        def res(n):
            d = r.files.get('/work/%s%d' % (n, id))
            return O.results(d + b'.') if d is not None else None
        ex = next((k for k, it in enumerate(c['items']) if it is not None and it[0] == 'exec'), None)
        kst = dict(st, cloexec=False, forkfail=st.get('forkfail', False))
        kst['pos'] = st['pos']
        rs = res('f') if ex is not None else None
        started = ex is not None and pid in self.execs
        if rs is None:
            rs = res('r')
        if rs is None:                 # it ended before it could say anything
            if 'killed' in c or any(x is None for x in c['items'][:1]) or not c.get('end'):
                return
            if self.possible_kill(c):
                c['want'] = {13, (77 << 8)}
                return
            raise Bad('crash', 'process %d left no results' % id)
        if O.hasbad(rs):
            raise SimError('bad operation in child')
        self.proc(c, pid, rs, env, kst, None)
        if not started:
            c['want'] = self.statuses(c, c['end'])
        st['forkfail'] = kst.get('forkfail', False) or st.get('forkfail', False)

    def possible_kill(self, c):
        return any(it is not None and it[0] in ('spew', 'copy') for it in c['items'])

    def execd(self, c, it, pid, env, st):
        path, errs = self.find(self.case, it[1], it[2], env)
        l = self.execs.get(pid)
        if not l:
            raise Bad('crash', 'process %d did not come back from %s %s and started nothing' % (c['id'], it[1], it[2]))
        got = l[-1]
        gp = os.path.normpath(os.path.join('/work', got[0].decode('utf-8', 'surrogateescape')))
        if path is None or gp != os.path.normpath(os.path.join('/work', path)):
            raise Bad('search', '%s %s with PATH %r started %r, expected %s' % (it[1], it[2], env.get('PATH'), gp, path or errs))
        args = [b'.' * 3000 if a is None else u8(a) for a in self.argv[it[4]]]
        if got[1:] != args:
            raise Bad('args', '%s %s started with arguments %s, expected %s' % (it[1], it[2], [x[:60] for x in got[1:]], [x[:60] for x in args]))
        kind = next((f for f in self.case['files'] if f[0] == gp), None)
        if kind and kind[1] == 'rec':
            w = self.stubs[pid][0]
            e = [dec(x) for x in w[w.index('env') + 1:w.index('fds')]]
            fds = [int(x) for x in w[w.index('fds') + 1:w.index('cwd')]]
            want = sorted(u8('%s=%s' % x) for x in env.items())
            if sorted(e) != want:
                raise Bad('environ', '%s %s passed the environment %s, expected %s' % (it[1], it[2], sorted(x[:50] for x in e), [x[:50] for x in want]))
            base = {0, 1, 2} | ({3} if self.case['late'] else set())
            if st['cloexec']:
                base.discard(1)
            if not base <= set(fds):
                raise Bad('descriptors', '%s %s passed descriptors %s, expected at least %s' % (it[1], it[2], fds, sorted(base)))
            if st['cloexec'] and 1 in fds:
                raise Bad('descriptors', 'a close-on-exec descriptor stayed open')
            c['want'] = {self.status.get(pid, 0)}
            return
        if got[1:2] and it[3] and it[3][0] == 'readf':
            d = self.r.files.get('/work/x%d' % it[4])
            if d is None or len(O.results(d + b'.')) < 1 + (not it[3] or it[3][0] != 'readf'):
                raise Bad('crash', 'the program that process %d started left no result' % c['id'])
            self.readf(O.results(d + b'.')[0].split(','), it[3], st)
            c['want'] = {0}
            return
        if gp.startswith('/bin/opx'):
            d = self.r.files.get('/work/x%d' % it[4])
            if d is None or len(O.results(d + b'.')) < 1 + (not it[3] or it[3][0] != 'readf'):
                raise Bad('crash', 'the program that process %d started left no result' % c['id'])
            rs = O.results(d + b'.')
            a = [x for k, x in enumerate(args) if k not in (1, 2)]
            if rs[0] != ','.join([str(len(args))] + [x.hex() for x in a]):
                raise Bad('args', 'the program started by %s saw the arguments %s, expected %s' % (it[1], rs[0][:200], [x[:50] for x in a]))
            e = sorted(rs[1].split('/')[:-1])
            want = sorted(O.summ(u8('%s=%s' % x)) for x in env.items())
            if e != want:
                raise Bad('environ', 'the program started by %s saw the environment %s, expected %s' % (it[1], e, want))
            c['want'] = {33 << 8}
            return
        c['want'] = set()

    def shrink(self, case):
        def variants(b):
            for k in range(len(b)):
                yield b[:k] + b[k + 1:]
            for k, it in enumerate(b):
                if it[0] == 'fork':
                    for v in variants(it[2]):
                        if v and v[-1][0] in ('_exit', 'exit', 'die', 'crash', 'abort'):
                            yield b[:k] + [['fork', it[1], v]] + b[k + 1:]
        for v in variants(case['body']):
            yield dict(case, body=v)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
        for j in range(len(case['files'])):
            yield dict(case, files=case['files'][:j] + case['files'][j + 1:])
        if case['path'] and ':' in case['path']:
            c = case['path'].split(':')
            for j in range(len(c)):
                yield dict(case, path=':'.join(c[:j] + c[j + 1:]))


if __name__ == '__main__':
    sys.exit(main(C10()))
