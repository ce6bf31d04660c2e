#!/usr/bin/env python3
"""C15: Scheme subprocess and port operations are faithful and well nested."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))
from core import *

DIRS = ['/bin', '/opt/a', '/opt/b']
LINES = ['', 'a', 'hello world', 'x' * 40, '(1 2 3)', '"quoted"', 'tab\there', '#;|', '0']
FORK, EXEC, WAIT, DUP2 = 57, 59, 61, 33


ANY = '\1'       # any diagnostic


def same(x, y):
    if ANY not in y:
        return x == y
    first, *mid, last = y.split(ANY)
    if len(x) < len(first) + len(last) or not x.startswith(first) or not x.endswith(last):
        return False
    p, end = len(first), len(x) - len(last)
    for m in mid:       # the leftmost place for each piece leaves most room for the rest
        q = x.find(m, p, end)
        if q < 0:
            return False
        p = q + len(m)
    return True


class Throw(Exception):
    pass


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


def lit(s):
    return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(c, c) for c in s) + '"'


def wr(s):
    return lit(s)


class C15(Check):
    pid = 'C15'
    parts = ('mes', 'gccguest')
    rule = ('A case is a Scheme program of nested with-output-to-file, with-error-to-file, with-output-to-port, with-output-to-string, with-input-from-file and '
            'with-input-from-string extents, left by returning or by an error, switches of the current ports, reads and writes; and of system*, primitive-fork with '
            'execlp or execl or a Scheme child, waitpid by process or for any child, with programs found along PATH, absent or not executable, that end by exit codes '
            'or signals; under refused forks, execs, waits, dup2s and opens, killed and delayed children, and seeded schedules. Non-trivial: a fault was injected, a '
            'process was started, or extents were nested.')
    real = ['mes interpreter (src/*.c, gcc build)', 'mes/module/mes/{guile,posix,catch,simple-format}.mes', 'fork/exec/wait/dup2 of the Mes C Library', 'child programs linked with the Mes C Library (part of the children)']
    stub = ['kernel: simulated', 'part of the child programs only record their arguments, environment and descriptors']
    assumptions = ['port number 1 means the current output and 2 the current error; the standard output is not made the error port or vice versa',
                   'inside with-output-to-string the current output is not switched to another port directly', 'PATH lists no directory holding a directory of the program\'s name']
    quick_s, thorough_s = 55, 700

    # ------------------------------------------------------------ generation
    def gen(self, rng, i, ctx):
        case = {'rules': [], 'seed': rng.randrange(1 << 30)}
        self.n = 0
        self.strout = False
        self.procs = rng.random() < 0.6
        self.outcome = self.procs and rng.random() < 0.3
        # the programs
        progs = {}
        for k in range(rng.choice([1, 2, 4])):
            for d in rng.sample(DIRS, rng.choice([1, 1, 2])):
                progs['%s/s%d' % (d, k)] = rng.choice([['record', rng.choice([0, 0, 1, 3, 127, 255]), '' if self.outcome else rng.choice(['', 'from %s%d\n' % (d, k)])]] * 4 + [['noexec'], ['text']])
        if rng.random() < 0.4:
            progs['/work/s%d' % rng.randrange(3)] = ['record', rng.choice([0, 5]), '']
        case['progs'] = progs
        case['path'] = rng.choice(['/bin', '/bin:/opt/a:/opt/b', '/opt/b:/opt/a:/bin', '/nodir:/opt/a:/bin', ':/bin', '/bin:', '/opt/a'])
        case['env'] = dict(rng.sample([('FOO', 'bar'), ('EMPTY', ''), ('LONG', 'y' * 300), ('SP', 'a b  c')], rng.randrange(4)))
        case['ins'] = [[rng.choice(LINES) for _ in range(rng.choice([0, 1, 3, 8]))] for _ in range(3)]
        self.ports = ['p%d' % k for k in range(rng.choice([0, 1, 2, 3]))]
        case['ports'] = self.ports
        self.outstanding = []
        self.open_fail = []
        case['ops'] = self.ops(rng, rng.choice([2, 5, 10, 20]), 0, False)
        case['fail'] = self.open_fail
        case['rest'] = rng.random() < 0.8
        if self.procs:
            k = rng.random()
            if k < 0.2:
                case['rules'].append('fork_err ppm=%d vals=11,12' % rng.choice([1000000, 400000, 200000]))
            elif k < 0.4:
                case['rules'].append('exec_err ppm=%d vals=2,7,12,13,5' % rng.choice([1000000, 400000, 200000]))
            elif k < 0.5:
                case['rules'].append('wait_err ppm=%d vals=4,10' % rng.choice([1000000, 300000]))
            elif k < 0.6:
                case['rules'].append('sys_err nr=33 ppm=%d vals=9,4,24' % rng.choice([1000000, 300000]))
            if self.outcome:
                case['rules'].append('stub_outcome ppm=%d vals=%s' % (rng.choice([1000000, 500000]), rng.choice(['0,1,2,42,127,128,137,255', '265,271,262,267', '7,257,270,290'])))
            if rng.random() < 0.4:
                case['rules'].append('stub_delay ppm=500000 vals=1000,100000,1000000000')
            if rng.random() < 0.5:
                case['rules'].append('sched ppm=%d' % rng.choice([1000, 50000, 500000]))
            if rng.random() < 0.3:
                case['rules'].append('!pid0 %d' % rng.choice([2, 100, 32766, 99990]))
            if rng.random() < 0.2:
                case['rules'].append('!pidrand')
        if rng.random() < 0.3:
            case['rules'].append('short_write exe=/bin/mes ppm=%d vals=1,3' % rng.choice([1000000, 100000]))
        if rng.random() < 0.3:
            case['rules'].append('short_read ppm=%d vals=1,3' % rng.choice([1000000, 100000]))
        return case

    def prog(self, rng):
        k = rng.random()
        if k < 0.6:
            return 's%d' % rng.randrange(4)
        if k < 0.8:
            return rng.choice(DIRS) + '/s%d' % rng.randrange(3)
        if k < 0.85:
            return './s%d' % rng.randrange(3)
        return rng.choice(['missing', '/nodir/x', '/opt/a', './nothere', ''])

    def args(self, rng):
        A = ['', 'a', '-o', 'file name', 'x=y', "it's", '"q"', '\\', '*', '$HOME', 'l1\nl2', 'z' * 200, '#t', '()', '\xe9\xff', '--', 's0']
        n = rng.choice([0, 1, 2, 3, 8, 30]) if rng.random() < 0.98 else rng.choice([999, 1000, 300])
        return [rng.choice(A) for _ in range(n)]

    def guest(self, rng):
        """A child made of real library code: what it writes where, and how it ends."""
        o, w = [], []
        for _ in range(rng.choice([0, 1, 2])):
            fd = rng.choice([1, 1, 2])
            s = rng.choice(['g', 'guest line\n', 'q' * 50])
            o.append('write %d x%s' % (fd, s.encode().hex()))
            w.append([fd, s])
        e = rng.choice([['exit', 0], ['exit', 0], ['exit', rng.choice([1, 2, 77, 128, 255])], ['kill', rng.choice([1, 2, 6, 9, 13, 15])]])
        o.append('exit %d' % e[1] if e[0] == 'exit' else 'raise %d' % e[1])
        return '; '.join(o), w, e

    def ops(self, rng, n, depth, cap):
        """cap: the current output goes to a string here."""
        o = []
        for _ in range(n):
            self.n += 1
            i = self.n
            if self.procs and not cap and rng.random() < 0.45:
                k = rng.random()
                if k < 0.45:
                    o.append(['sys', i, self.prog(rng), self.args(rng)])
                elif k < 0.6:
                    o.append(['guest', i] + list(self.guest(rng)))
                elif k < 0.7:
                    o.append(['env', rng.choice(['FOO', 'NEW', 'X1', 'LONG']), rng.choice(['', 'v%d' % i, 'w' * 100])])
                elif k < 0.75:
                    o.append(['env', 'PATH', rng.choice(['/bin', '/opt/b:/bin', '/opt/a:/opt/b', '', '/nodir'])])
                elif k < 0.88:
                    b = rng.choice([['exit', rng.choice([0, 1, 7, 255])], ['execlp', self.prog(rng), self.args(rng)], ['execl', rng.choice(DIRS) + '/s%d' % rng.randrange(3), self.args(rng)],
                                    ['file', 'c%d' % i, 'child %d' % i, rng.choice([0, 9])]])
                    o.append(['fork', i, b])
                    self.outstanding.append(i)
                else:
                    j = rng.choice(self.outstanding) if self.outstanding and rng.random() < 0.6 else rng.choice([-1, -1, 1])
                    o.append(['wait', i, j] if rng.random() < 0.7 else ['wait', i, j, rng.choice([1, 1, 0, 2, 3])])
                continue
            k = rng.random()
            if k < 0.2:
                o.append(['d', rng.choice(['out %d ' % i, 'x', '', 'line %d\n' % i])])
            elif k < 0.28:
                o.append(['e', rng.choice(['err %d ' % i, 'y', 'e\n'])])
            elif k < 0.33 and self.ports:
                o.append(['p', rng.choice(self.ports), 'to port %d\n' % i])
            elif k < 0.45:
                o.append([rng.choice(['rl', 'rl', 'rc', 'pc']), i])
            elif k < 0.50 and not cap:
                o.append(['so', rng.choice(['out'] + self.ports)])
            elif k < 0.54:
                o.append(['se', rng.choice(['err'] + self.ports)])
            elif k < 0.57:
                o.append(['si', i, rng.choice(['in0', 'in1', 'in2', 'str', 'std']), rng.choice(['', 's1\ns2\n', 'no newline', '\n\n'])])
            elif k < 0.62 and depth:
                o.append(['throw', 'k%d' % i])
            elif depth < 4:
                m = rng.randrange(8)
                b = lambda c: self.ops(rng, rng.choice([0, 1, 2, 3, 5]), depth + 1, c)
                if m == 0:
                    o.append(['wf', 'w%d.' % i, b(False)])
                elif m == 1:
                    o.append(['we', 'w%d.' % i, b(cap)])
                elif m == 2 and self.ports and not cap:
                    o.append(['wp', rng.choice(self.ports), b(False)])
                elif m == 3:
                    o.append(['ws', i, b(True)])
                elif m == 4:
                    o.append(['wi', rng.choice(['in0', 'in1', 'in2', 'nofile', 'noopen']), b(cap)])
                elif m == 5:
                    o.append(['wis', rng.choice(['', 'abc', 'l1\nl2\nl3\n', '\n']), b(cap)])
                elif m == 6:
                    o.append(['catch', i, b(cap)])
                elif m == 7 and rng.random() < 0.4:
                    f = 'w%d.' % i
                    self.open_fail.append(f)
                    o.append([rng.choice(['wf', 'we']), f, b(False)])
        return o

    # ------------------------------------------------------------ the program
    def text(self, ops):
        p = []
        for o in ops:
            k = o[0]
            if k == 'd':
                p.append('(display %s)' % lit(o[1]))
            elif k == 'e':
                p.append('(display %s (current-error-port))' % lit(o[1]))
            elif k == 'p':
                p.append('(display %s %s)' % (lit(o[2]), o[1]))
            elif k == 'rl':
                p.append('(log %d (read-line))' % o[1])
            elif k == 'rc':
                p.append('(log %d (read-char))' % o[1])
            elif k == 'pc':
                p.append('(log %d (peek-char))' % o[1])
            elif k == 'so':
                p.append('(set-current-output-port %s)' % {'out': '1'}.get(o[1], o[1]))
            elif k == 'se':
                p.append('(set-current-error-port %s)' % {'err': '2'}.get(o[1], o[1]))
            elif k == 'si':
                p.append('(set-current-input-port %s)' % ('0' if o[2] == 'std' else '(open-input-string %s)' % lit(o[3]) if o[2] == 'str' else '(open-input-file "/in/%s")' % o[2]))
            elif k == 'throw':
                p.append("(throw '%s 1)" % o[1])
            elif k == 'wf':
                p.append('(with-output-to-file "/work/%s" (lambda () #t %s))' % (o[1], self.text(o[2])))
            elif k == 'we':
                p.append('(with-error-to-file "/work/%s" (lambda () #t %s))' % (o[1], self.text(o[2])))
            elif k == 'wp':
                p.append('(with-output-to-port %s (lambda () #t %s))' % (o[1], self.text(o[2])))
            elif k == 'ws':
                p.append('(log %d (with-output-to-string (lambda () #t %s)))' % (o[1], self.text(o[2])))
            elif k == 'wi':
                p.append('(with-input-from-file "/in/%s" (lambda () #t %s))' % (o[1], self.text(o[2])))
            elif k == 'wis':
                p.append('(with-input-from-string %s (lambda () #t %s))' % (lit(o[1]), self.text(o[2])))
            elif k == 'catch':
                p.append("(catch #t (lambda () #t %s) (lambda (k . r) (log %d k)))" % (self.text(o[2]), o[1]))
            elif k in ('sys', 'guest'):
                a = [o[2]] + o[3] if k == 'sys' else ['/bin/op-gcc', o[2], '@300']
                p.append('(try %d (lambda () (let ((s (system* %s))) (list s (status:exit-val s)))))' % (o[1], ' '.join(map(lit, a))))
            elif k == 'env':
                p.append('(setenv %s %s)' % (lit(o[1]), lit(o[2])))
            elif k == 'fork':
                b = o[2]
                c = {'exit': lambda: '#t', 'execlp': lambda: '(execlp %s (list %s))' % (lit(b[1]), ' '.join(map(lit, b[2]))), 'execl': lambda: '(execl %s (list %s))' % (lit(b[1]), ' '.join(map(lit, b[2]))),
                     'file': lambda: '(with-output-to-file "/work/%s" (lambda () (display %s)))' % (b[1], lit(b[2]))}[b[0]]()
                st = {'exit': b[1], 'file': b[-1]}.get(b[0], 77)
                p.append('(set! c%d (primitive-fork)) (if (= c%d 0) (begin (catch #t (lambda () %s) (lambda (k . r) #f)) (exit %d))) (log %d c%d)' % (o[1], o[1], c, st, o[1], o[1]))
            elif k == 'wait':
                p.append('(try %d (lambda () (waitpid %s%s)))' % (o[1], 'c%d' % o[2] if o[2] > 1 else o[2], ' %d' % o[3] if len(o) > 3 else ''))
        return '\n'.join(p)

    def children(self, ops):
        for o in ops:
            if o[0] == 'fork':
                yield o[1]
            elif o[0] in ('wf', 'we', 'wp', 'ws', 'wi', 'wis', 'catch'):
                yield from self.children(o[2])

    def program(self, case):
        p = ['(mes-use-module (mes guile))', '(define L (open-output-file "/work/log"))']
        p += ['(define (log n x) (write n L) (display " " L) (write (if (eof-object? x) (quote eof) x) L) (display "\\n" L))',
              '(define (try n thunk) (log n (catch #t thunk (lambda (k . r) (quote raised)))))']
        p.append('(set-current-input-port 0)')
        p += ['(define %s (open-output-file "/work/%s"))' % (x, x) for x in case['ports']]
        p += ['(define c%d -7)' % x for x in self.children(case['ops'])]
        for o in case['ops']:
            p.append("(catch #t (lambda () %s) (lambda (k . r) (log 'top k)))" % self.text([o]))
        p.append('(set-current-input-port 0) (log 0 (read-line)) (display "END\\n") (display "EEND\\n" (current-error-port))')
        p.append('(exit 0)')
        return '\n'.join(p) + '\n'

    # ------------------------------------------------------------ the world
    def world(self, case, ctx):
        env = dict(case['env'], PATH=case['path'])
        ls = mes_world(ctx.b, ['--no-auto-compile', '/src/p.scm'], env) + ['dir /src 755', 'dir /in 755', 'dir /opt 755', 'dir /opt/a 755', 'dir /opt/b 755', 'dumpall /work', 'cpu 60000000000', 'logwait', 'logsys %d,%d,%d,%d' % (FORK, EXEC, WAIT, DUP2)]
        ls += ['file /src/p.scm 644 ' + enc(self.program(case).encode('latin-1')), 'hostfile /bin/op-gcc %s/opguest-gcc 755' % ctx.b.dir]
        for j, x in enumerate(case['ins']):
            ls.append('file /in/in%d 644 %s' % (j, enc('\n'.join(x) + ('\n' if x and case['rest'] else ''))))
        ls.append('file /in/noopen 644 x')
        ls.append('file /work/stdin 644 ' + enc('stdin 1\nstdin 2\n' * 30))
        for p, v in case['progs'].items():
            if v[0] == 'record':
                ls.append('stub %s record %d%s' % (p, v[1], ' ' + enc(v[2]) if v[2] else ''))
            else:
                ls.append('file %s %s %s' % (p, '755' if v[0] == 'text' else '644', enc('just text\n')))
        ls += ['dev /dev/out sink', 'dev /dev/err sink', 'fd 0 /work/stdin 0', 'fd 1 /dev/out 1', 'fd 2 /dev/err 1']
        ls += [r[1:] for r in case['rules'] if r[0] == '!']
        rules = [r for r in case['rules'] if r[0] != '!'] + ['open_err ppm=1000000 vals=13,28,30,2 path=/work/%s' % f for f in case['fail']] + ['open_err ppm=1000000 vals=13,24,5,40 path=/in/noopen']
        return ls + fault_lines(dict(case, rules=rules))

    # ------------------------------------------------------------ the model
    def resolve(self, name):
        """What execlp runs: None if nothing can be."""
        ok = lambda p: self.case['progs'].get(p, ['none'])[0] in ('record', 'text') or p in ('/bin/op-gcc', '/opt/a', '/opt/b')
        norm = lambda p: '/work/' + p[2:] if p.startswith('./') else p if p.startswith('/') else '/work/' + p
        if '/' in name:
            return name if ok(norm(name)) and name != '/opt/a' and self.kind(name) != 'text' else None
        if name == '':
            return None
        for d in self.env.get('PATH', '').split(':'):
            f = d + '/' + name if d else name
            if ok(norm(f)):
                return f if self.kind(f) != 'text' else None
        return None

    def kind(self, f):
        f = '/work/' + f[2:] if f.startswith('./') else f if f.startswith('/') else '/work/' + f
        return self.case['progs'].get(f, ['none'])[0]

    def take(self, nr, what):
        l = self.sys.get((self.main, nr), [])
        if not l:
            raise Bad('nocall', '%s: the program made no %s' % (what, {FORK: 'fork', WAIT: 'wait'}[nr]))
        return l.pop(0)

    def child(self, pid, what, path, argv, direct):
        """Check what process pid did that was to run path; returns whether it ran it."""
        bad = [x for x in self.sys.get((pid, DUP2), []) + self.sys.get((pid, EXEC), []) if x < 0]
        ex = self.execs.get(pid)
        if path is None or bad:
            if ex and path is None:
                raise Bad('program', '%s runs %s, expected nothing to run' % (what, ex[0]))
            if ex and ex != [path, argv]:
                raise Bad('program', '%s runs %r, expected %r' % (what, ex, [path, argv]))
            if not ex and pid in self.status and (self.status[pid] == 0 or direct == 77 and self.status[pid] != direct << 8):
                raise Bad('failure', '%s could not run its program; the child ends with status %d, expected %s' % (what, self.status[pid], direct << 8 if direct == 77 else 'another than 0'))
            return bool(ex)
        if not ex:
            if pid not in self.status:
                return False        # still at it when the program ended
            raise Bad('program', '%s does not run %s (status %s)' % (what, path, self.status.get(pid)))
        if ex != [path, argv]:
            raise Bad('program', '%s runs %r, expected %r' % (what, ex, [path, argv]))
        st = self.stubs.get(pid)
        if st is not None:
            a, e, f, c = (st.index(x) for x in ('argv', 'env', 'fds', 'cwd'))
            env = sorted(dec(x).decode('latin-1') for x in st[e + 1:f])
            want = sorted('%s=%s' % kv for kv in self.env.items())
            if env != want:
                raise Bad('environment', '%s gets the environment %r, expected %r' % (what, [x for x in env if x not in want], [x for x in want if x not in env]))
            if not {'0', '1', '2'} <= set(st[f + 1:c]) or st[c + 1] != '/work':
                raise Bad('environment', '%s: descriptors or directory differ: %r' % (what, st[f:]))
        return True

    def emit(self, port, s):
        for c in reversed(self.caps):
            if c[0] == port:
                c[1].append(s)
                return
        self.raw(port, s)

    def raw(self, port, s):
        f = {'out': '/dev/out', 'err': '/dev/err'}.get(port) or '/work/' + port
        self.files[f] = self.files.get(f, '') + s

    def readline(self):
        s = self.inp[0]
        if not s:
            return 'eof'
        l, _, self.inp[0] = s.partition('\n')
        return wr(l)

    def log(self, n, v):
        self.exp.append('%s %s' % (n, v))

    def opened(self, f):
        return '\n'.join(self.case['ins'][int(f[2:])]) + ('\n' if self.case['ins'][int(f[2:])] and self.case['rest'] else '')

    def chname(self, c):
        return {' ': '#\\space', '\n': '#\\newline', '\t': '#\\tab', '\0': '#\\nul'}.get(c, '#\\' + c)

    def run(self, ops):
        for o in ops:
            k = o[0]
            if k == 'd':
                self.emit(self.out, o[1])
            elif k == 'e':
                self.emit(self.err, o[1])
            elif k == 'p':
                self.emit(o[1], o[2])
            elif k == 'rl':
                self.log(o[1], self.readline())
            elif k in ('rc', 'pc'):
                s = self.inp[0]
                self.log(o[1], self.chname(s[0]) if s else 'eof')
                if k == 'rc':
                    self.inp[0] = s[1:]
            elif k == 'so':
                self.out = o[1]
            elif k == 'se':
                self.err = o[1]
            elif k == 'si':
                self.inp = self.std if o[2] == 'std' else [o[3] if o[2] == 'str' else self.opened(o[2])]
            elif k == 'throw':
                raise Throw(o[1])
            elif k in ('wf', 'we', 'wp', 'ws', 'wi', 'wis', 'catch'):
                save = self.out, self.err, self.inp
                fin = {'wf': 0, 'we': 1, 'wp': 0, 'wi': 2, 'wis': 2}.get(k)
                if k in ('wf', 'we'):
                    if o[1] in self.case['fail']:
                        self.emit(self.err, ANY)
                        raise Throw('*')
                    self.files['/work/' + o[1]] = ''
                    if k == 'wf':
                        self.out = o[1]
                    else:
                        self.err = o[1]
                elif k == 'wp':
                    self.out = o[1]
                elif k == 'ws':
                    self.caps.append((self.out, []))
                elif k == 'wi':
                    if o[1] in ('nofile', 'noopen'):
                        raise Throw('*')
                    self.inp = [self.opened(o[1])]
                elif k == 'wis':
                    self.inp = [o[1]]
                depth = len(self.caps)
                try:
                    self.run(o[2])
                    if k == 'ws':
                        self.log(o[1], wr(''.join(self.caps[depth - 1][1])))
                except Throw as t:
                    if k != 'catch':
                        raise
                    self.log(o[1], t.args[0])
                finally:
                    if fin == 0:
                        self.out = save[0]
                    elif fin == 1:
                        self.err = save[1]
                    elif fin == 2:
                        self.inp = save[2]
                    if k == 'ws':
                        self.caps = self.caps[:depth - 1]
            elif k in ('sys', 'guest'):
                what = 'op %d (system* %r)' % (o[1], o[2])
                f = self.take(FORK, what)
                self.forks += 1
                if f < 0:
                    self.emit(self.err, ANY)
                    self.log(o[1], 'raised')
                    continue
                w = self.take(WAIT, what)
                how = self.waits.pop(0)
                if how != [str(f), '0']:
                    raise Bad('wait', '%s waits for process %s with options %s, its child is %d' % (what, how[0], how[1], f))
                name, args = (o[2], o[3]) if k == 'sys' else ('/bin/op-gcc', [o[2], '@300'])
                path = self.resolve(name)
                ran = self.child(f, what, path, ['%s' % path] + args, 127)
                if ran and k == 'guest':
                    for fd, s in o[3]:
                        if w < 0:       # the parent did not wait for it
                            self.loose.append((self.out if fd == 1 else self.err, s))
                        else:
                            self.raw(self.out if fd == 1 else self.err, s)
                    e = o[4][1] << 8 if o[4][0] == 'exit' else o[4][1]
                    if self.status.get(f) not in (e, None):
                        raise Bad('status', '%s: the child ends with status %d, expected %d' % (what, self.status[f], e))
                elif ran:
                    v = self.case['progs'].get('/work/' + path[2:] if path.startswith('./') else path if path[0] == '/' else '/work/' + path)
                    if v and len(v) > 2:
                        if w < 0:
                            self.loose.append((self.out, v[2]))
                        else:
                            self.raw(self.out, v[2])
                if w < 0:
                    self.log(o[1], 'raised')
                    self.alive.add(f)
                else:
                    s = self.status.get(f)
                    if w != f:
                        raise Bad('wait', '%s waits for process %d, its child is %d' % (what, w, f))
                    self.log(o[1], '(%d %s)' % (s, '#f' if s & 127 else s >> 8))
            elif k == 'env':
                self.env[o[1]] = o[2]
            elif k == 'fork':
                what = 'op %d (primitive-fork %r)' % (o[1], o[2][:2])
                f = self.take(FORK, what)
                self.forks += 1
                self.pids[o[1]] = f if f > 0 else -1
                if f < 0:
                    self.log(o[1], -1)
                    continue
                self.alive.add(f)
                self.log(o[1], f)
                b = o[2]
                if f not in self.status and not self.execs.get(f):
                    continue        # still running when the program ended
                if b[0] in ('exit', 'file'):
                    e = b[-1]
                    if self.execs.get(f):
                        raise Bad('program', '%s runs a program' % what)
                    if self.status.get(f, e << 8) != e << 8:
                        raise Bad('status', '%s ends with status %d, expected %d' % (what, self.status[f], e << 8))
                    if b[0] == 'file':
                        self.childfiles['/work/' + b[1]] = b[2]
                else:
                    path = self.resolve(b[1])
                    if path and self.kind(path) == 'text':
                        path = None
                    env = dict(self.env)
                    if self.child(f, what, path, ['%s' % path] + b[2], 77):
                        v = self.case['progs'].get('/work/' + path[2:] if path.startswith('./') else path if path[0] == '/' else '/work/' + path)
                        if v and len(v) > 2 and v[2]:
                            self.loose.append(('out', v[2]))
            elif k == 'wait':
                what = 'op %d (waitpid)' % o[1]
                w = self.take(WAIT, what)
                opt = o[3] if len(o) > 3 else 0
                how = [int(x) for x in self.waits.pop(0)]
                if how != [self.pids.get(o[2], -7) if o[2] > 1 else o[2], opt]:
                    raise Bad('wait', '%s: waits for %d with options %d, asked for %s with %d' % (what, how[0], how[1], self.pids.get(o[2], -7) if o[2] > 1 else o[2], opt))
                if w == 0 and opt & 1:
                    self.log(o[1], '(0 . 0)')
                    continue
                if w < 0:
                    self.log(o[1], 'raised')
                else:
                    want = self.pids.get(o[2], -7) if o[2] > 1 else o[2]
                    if w == 0 or want not in (-1, w) or w not in self.alive:
                        raise Bad('wait', '%s returns process %d, asked for %d' % (what, w, want))
                    self.alive.discard(w)
                    self.log(o[1], '(%d . %d)' % (w, self.status[w]))

    def judge(self, case, ctx):
        self.case = case
        r = ctx.sim(self.world(case, ctx))
        self.sys, self.execs, self.stubs, self.status = {}, {}, {}, {}
        self.main, self.waits = None, []
        for e in r.events:
            w = e.split(' ')
            if w[0] == 'exec':
                a = [dec(x).decode('latin-1') for x in w[2:]]
                if self.main is None:
                    self.main = int(w[1])
                else:
                    self.execs[int(w[1])] = [a[0], a[1:]]
            elif w[0] == 'sys':
                if self.main is None:
                    self.main = int(w[1])
                self.sys.setdefault((int(w[1]), int(w[2])), []).append(int(w[3]))
            elif w[0] == 'waiting':
                if self.main is None:
                    self.main = int(w[1])
                if int(w[1]) == self.main:
                    self.waits.append(w[2:])
            elif w[0] == 'stub':
                self.stubs[int(w[1])] = w[2:]
            elif w[0] == 'exit':
                self.status[int(w[1])] = int(w[2])
        if self.main is None:
            self.main = int(r.events[0].split(' ')[1]) if r.events else 0
        self.out, self.err = 'out', 'err'
        self.std = self.inp = ['stdin 1\nstdin 2\n' * 30]
        self.std = self.inp
        self.caps, self.exp, self.files, self.childfiles, self.loose = [], [], {}, {}, []
        self.env = dict(MES_ENV)
        self.env.update(MES_ARENA='20000000', MES_MAX_ARENA='20000000', MES_STACK='5000000')
        self.env.update(case['env'], PATH=case['path'])
        self.env = {k: v for k, v in self.env.items() if v is not None}
        self.pids, self.alive, self.forks = {}, set(), 0
        sig = msg = None
        got = r.files.get('/work/log', b'').decode('latin-1').splitlines()
        try:
            for o in case['ops']:
                try:
                    self.run([o])
                except Throw as t:
                    self.log('top', t.args[0])
            self.inp = self.std
            self.log(0, self.readline())
            self.emit(self.out, 'END\n')
            self.emit(self.err, 'EEND\n')
            if r.end != ('exit', 0):
                raise Bad('ending', 'the program ends by %s %s; stderr %r' % (r.end + (r.files.get('/dev/err', b'')[-150:],)))
            left = [k for k, v in self.sys.items() if k[0] == self.main and k[1] in (FORK, WAIT) and v]
            if left:
                raise Bad('extra', 'the program forks or waits more often than asked')
        except Bad as b:
            sig, msg = b.sig, b.msg
        for x, y in zip(got, self.exp):
            if not same(x, y) and not (y.endswith(' *') and x.startswith(y[:-1])):
                sig, msg = 'log', 'op logs "%s", expected "%s"%s' % (x[:200], y[:200], '; ' + msg if msg else '')
                break
        if sig is None and len(got) != len(self.exp):
            sig, msg = 'log', 'the log has %d lines, expected %d' % (len(got), len(self.exp))
        if sig is None:
            for p, s in self.loose:
                self.files.setdefault({'out': '/dev/out', 'err': '/dev/err'}.get(p) or '/work/' + p, '')
            for f, x in list(self.files.items()):
                y = r.files.get(f, b'').decode('latin-1')
                l = [s for p, s in self.loose if ({'out': '/dev/out', 'err': '/dev/err'}.get(p) or '/work/' + p) == f]
                if l:
                    if ANY not in x and not self.weave(x, l, y):
                        sig, msg = 'output', '%s holds %r, expected %r with %r of children' % (f, y[-300:], x[-300:], l)
                elif not same(y, x):
                    n = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), min(len(x), len(y)))
                    sig, msg = 'output', '%s differs at byte %d: %r, expected %r' % (f, n, y[max(0, n - 40):n + 60], x[max(0, n - 40):n + 60])
            for f, x in self.childfiles.items():
                if r.files.get(f, b'').decode('latin-1') != x and not any(q.startswith('sched') for q in case['rules']) and f[6:] not in case['fail']:
                    if any(self.pids.get(int(f[7:])) in (p,) and p in self.status for p in self.status):
                        sig, msg = 'output', '%s, written by a child, holds %r, expected %r' % (f, r.files.get(f, b'')[:60], x)
        deep = any(o[0] in ('wf', 'we', 'wp', 'ws', 'wi', 'wis', 'catch') and o[2] for o in case['ops'])
        return Verdict(sig, msg, r, key=r.hash, nontrivial=bool(self.forks or deep or r.fired))

    def weave(self, x, l, y):
        """Is y the text x with the pieces of l, or some of them, put in somewhere (short writes may tear them)?"""
        # all characters of x in order, and the rest made of the pieces
        from collections import Counter
        need, have = Counter(x), Counter(y)
        allow = Counter(''.join(l))
        if any(have[c] < need[c] or have[c] - need[c] > allow[c] for c in have | need):
            return False
        p = 0
        for c in x:
            p = y.find(c, p) + 1
            if p == 0:
                return False
        return True

    def shrink(self, case):
        ops = case['ops']
        k = len(ops)
        while k >= 1:
            for a in range(0, len(ops), k):
                yield dict(case, ops=ops[:a] + ops[a + k:])
            k //= 2

        def inner(ops):
            for a, o in enumerate(ops):
                if o[0] in ('wf', 'we', 'wp', 'ws', 'wi', 'wis', 'catch'):
                    yield ops[:a] + o[2] + ops[a + 1:]
                    for b in range(len(o[2])):
                        yield ops[:a] + [o[:2] + [o[2][:b] + o[2][b + 1:]]] + ops[a + 1:]
                    for s in inner(o[2]):
                        yield ops[:a] + [o[:2] + [s]] + ops[a + 1:]
                elif o[0] == 'sys' and o[3]:
                    yield ops[:a] + [o[:3] + [o[3][:len(o[3]) // 2]]] + ops[a + 1:]
        for s in inner(ops):
            yield dict(case, ops=s)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
        for j in range(len(case['ports'])):
            if all(case['ports'][j] not in str(o) for o in ops):
                yield dict(case, ports=case['ports'][:j] + case['ports'][j + 1:])


if __name__ == '__main__':
    sys.exit(main(C15()))
