#!/usr/bin/env python3
"""C17: exit status and exit handlers are faithful."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O
import schemegen

LETTER = {1: 'A', 2: 'B', 3: 'C', 4: 'D', 5: 'E'}
ATMAX = 32
FATAL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 15, 24, 31, 34, 64]


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class C17(Check):
    pid = 'C17'
    parts = ('mes', 'gccguest', 'mesccguest')
    rule = 'a run counts when a handler ran, a process ended abnormally or a status other than 0 was asked for'
    real = ['lib/stdlib/{exit,atexit,__exit,abort}.c, crt1 and _exit of both builds; the ways the interpreter ends (src/mes.c, posix.c, eval-apply.c, boot and catch code)']
    stub = ['kernel: sim/simrun.cpp']
    assumptions = ['handlers return or call _exit', 'after an output failure the interpreter may turn a status of 0 into another']
    quick_s, thorough_s = 50, 500

    # ------------------------------------------------------------ generation
    def gen(self, rng, i, ctx):
        case = dict(seed=rng.randrange(1 << 40), rules=[])
        if rng.random() < 0.3:
            case['kind'] = 'scm'
            self.n = 0
            lossy = rng.random() < 0.3
            body, end = self.scheme(rng, lossy)
            case['prog'] = body
            case['want'] = end
            if lossy:
                case['rules'].append('write_err ppm=%d vals=%s' % (rng.choice([100000, 500000, 1000000]), rng.choice(['5', '28', '28,5,27'])))
                if rng.random() < 0.7:
                    case['rules'][-1] += ' path=/dev/out'
                case['lossy'] = True
            elif rng.random() < 0.3:
                case['rules'].append('short_write ppm=%d vals=1,2' % rng.choice([200000, 1000000]))
            if rng.random() < 0.2:
                case['chunk'] = rng.choice([1, 7, 100])
            return case
        case.update(kind='guest', var=rng.choice(O.VARIANTS))
        self.nid = 0
        case['ops'] = self.proc(rng, 0, 0)
        k = rng.random()
        if k < 0.25:
            case['rules'].append('write_err ppm=%d vals=5,28,27' % rng.choice([200000, 700000, 1000000]))
        if rng.random() < 0.25:
            case['rules'].append(rng.choice(['signal ppm=%d vals=10', 'step_signal ppm=%d vals=' + ','.join(str((1 + rng.randrange(rng.choice([5, 100]))) * 256 + 10) for _ in range(5))]) % rng.choice([100000, 500000]))
            case['ops'].insert(0, 'signal 10 2')
        if rng.random() < 0.3:
            case['rules'].append('sched ppm=%d' % rng.choice([50000, 500000]))
        if rng.random() < 0.2:
            # killed from outside at any moment
            case['kill'] = rng.choice([1, 15, 9, 64])
            m = rng.choice([10, 100, 1000])
            case['rules'].append('step_signal ppm=%d vals=%s' % (rng.choice([10000, 50000, 300000]), ','.join(str((1 + rng.randrange(m)) * 256 + case['kill']) for _ in range(6))))
            case['rules'] = case['rules'][-1:]
        return case

    def reg(self, rng):
        o = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12, 33, 40])):
            o.append('atexit %d' % rng.choice([1, 1, 2, 2, 3, 3, 4] + ([5] if rng.random() < 0.2 else [])))
        return o

    def status(self, rng):
        return rng.choice([0, 0, 1, 2, 3, 42, 77, 99, 127, 128, 129, 255, 256, 257, 512, 1000, -1, -2, 65535, 65536, 2147483647, rng.randrange(-300, 300)])

    def ending(self, rng, depth):
        k = rng.random()
        if k < 0.3:
            return ['exit %d' % self.status(rng)]
        if k < 0.42:
            return ['_exit %d' % self.status(rng)]
        if k < 0.62 and depth == 0:
            return ['return %d' % self.status(rng)]
        if k < 0.70 and depth == 0:
            return []
        if k < 0.78:
            return ['raise %d' % rng.choice(FATAL)]
        if k < 0.84:
            return ['abort']
        if k < 0.88:
            return ['crash']
        if k < 0.94:
            return ['exec execve x2f62696e2f6f702d%s x6b %s @300' % (rng.choice(O.VARIANTS).encode().hex(), O.hexs(';'.join(self.reg(rng)[:3] + [rng.choice(['exit', 'return', '_exit']) + ' %d' % self.status(rng)])))]
        return ['exit %d' % self.status(rng)]

    def proc(self, rng, depth, n):
        o = ['=99 open %s 1089 420' % O.hexs('/work/e%d' % n), '=95 getppid'] if n == 0 else ['=99 open %s 1089 420' % O.hexs('/work/e%d' % n)]
        o += self.reg(rng)
        for _ in range(rng.choice([0, 1, 2, 4])):
            k = rng.random()
            if k < 0.3 and depth < 2 and self.nid < 8:
                self.nid += 1
                o += ['child #%d' % self.nid] + self.proc(rng, depth + 1, self.nid) + ['end', 'wait']
            elif k < 0.5:
                o += self.reg(rng)
            elif k < 0.6:
                o += rng.choice([['signal 12 2', 'raise 12'], ['work 30 4'], ['signal 6 %d' % rng.choice([1, 2])], ['signal 13 1'], ['block %d' % (1 << 5)]])
            elif k < 0.7:
                o += ['setenv x41 x42 1']
            elif k < 0.8:
                o += ['malloc 300']
        return o + self.ending(rng, depth)

    ERR = ['(car 1)', '(car (quote ()))', '(error (quote oops) "text" 1)', "(throw 'foo 1 2)", 'undefined-variable', '(undefined-function 1)', '((lambda (x) x) 1 2)',
           '("not a procedure")', '(vector-ref (vector 1 2) 9)', '(string-ref "abc" 9)', '(/ 1 0)', '(quotient 1 0)', '(modulo 7 0)', '(list-ref (list 1) 7)', '(apply car (list 1 2))',
           '(cons 1)', '(exit "a")', '(exit)', '(string->symbol 3)', '(let loop () (loop-undefined))', "(throw 'quit 0)", "(error \"exit\" 0)", '(set-car! 1 2)', "(hashq-ref 1 2 3)", '(string-append 1 2)']
    CATCHABLE = ['(car 1)', "(throw 'foo 1 2)", '(error (quote oops) "t")', 'undefined-variable', '(/ 1 0)', '(string-ref "abc" 9)', '((lambda (x) x) 1 2)', '(car (quote ()))', '("no")']

    def scheme(self, rng, lossy):
        pre = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            k = rng.random()
            v = rng.randrange(100)
            if k < 0.3:
                pre.append('(display "s%d")(newline)' % v)
            elif k < 0.5:
                pre.append("(catch #t (lambda () %s (display \"not\")) (lambda (key . args) (display \"caught\") %d))" % (rng.choice(self.CATCHABLE), v))
            elif k < 0.6:
                pre.append('(define v%d (map (lambda (x) (+ x %d)) (iota 5)))' % (v, v))
            elif k < 0.7:
                pre.append('(display "e%d" (current-error-port))' % v)
            elif k < 0.9:
                s = self.status(rng)
                e = rng.random()
                body = '(exit %d)' % s if e < 0.6 else rng.choice(self.ERR)
                wrap = rng.choice(['(let ((p (primitive-fork))) (if (= p 0) (begin %s %s)', '(let ((p (primitive-fork))) (if (zero? p) ((lambda () (catch #f (lambda () %s %s) (lambda (k . a) 0))))'])
                wrap = '(let ((p (primitive-fork))) (if (= p 0) (begin %s %s)'
                pre.append(wrap % ('', body) + ' (let ((w (waitpid p 0))) (display (if (= p (car w)) "pid" "other")) (display ":%d:") (display (cdr w)) (newline))))' % (s & 255 if e < 0.6 else -1))
        s = self.status(rng)
        if lossy and rng.random() < 0.5:
            s = rng.choice([0, 256, 512, -256, 65536, 1 << 24])
        k = rng.random()
        x = '(exit %d)' % s
        want = s & 255
        if k < 0.25:
            last = ''
            want = 0
            if rng.random() < 0.4:
                last = rng.choice(['#f', "'()", '5', '"text"', '(if #f #f)', '(lambda (x) x)', '(catch #t (lambda () (car 1)) (lambda (k . a) #f))'])
        elif k < 0.55:
            last = x
        elif k < 0.75:
            last = rng.choice(['(catch #t (lambda () %s) (lambda (k . a) (display "wrong")))', '(catch #t (lambda () (car 1)) (lambda (k . a) %s))', '(for-each (lambda (y) (if (= y 3) %s)) (iota 9))',
                               '(call/cc (lambda (k) %s (k 1)))', '(define (f n) (if (= n 0) %s (+ 1 (f (- n 1))))) (f 50)', '(let loop ((n 100)) (if (= n 0) %s (loop (- n 1))))', '(apply exit (list ' + str(s) + ')) ; %s\n',
                               '(vector-ref (vector %s) 0)', '(catch (quote foo) (lambda () (catch (quote bar) (lambda () (throw (quote foo))) (lambda (k . a) (exit 201)))) (lambda (k . a) %s))',
                               '(begin (display "x") %s)', '(eval-core (quote %s))' if False else '(cond (%s 1) (else 2))']) % x + ' (display "after") (exit 200)'
        else:
            last = rng.choice(self.ERR)
            last = rng.choice(['%s', '%s', '(begin (display "z") %s)', '(map (lambda (y) %s) (list 1 2))', "(catch 'never-thrown (lambda () %s) (lambda (k . a) (exit 0)))", '(catch #t (lambda () %s) (lambda (k . a) (car 5)))',
                               '(let ((p 1)) %s)', "(catch #t (lambda () %s) (lambda (k . a) (apply throw k a)))"]) % last + ' (exit 0)'
            want = -1
        if want >= 0 and rng.random() < 0.3:
            last += rng.choice(['\n; comment\n', ' ', '\n\n'])
        return '\n'.join(pre + [last]) + rng.choice(['', '\n']), want

    # ------------------------------------------------------------ running
    def scen(self, case, ctx):
        ls = fault_lines(case) + STD + FDS
        if case['kind'] == 'scm':
            ls += mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm'], {}) + ['maxsys 400000', 'logsys 1']
            ls.append('file /work/p.scm 644 ' + enc(case['prog']))
            if case.get('chunk'):
                ls.append('rule short_read ppm=1000000 path=/work/p.scm vals=%d' % case['chunk'])
            return ls
        ls += O.scenario(ctx, case['var'], [o.split(' #')[0] for o in case['ops']], res=30000) + ['logsys 1', 'safesig' if not case.get('kill') else 'logsys 1', 'maxsys 100000']
        for v in O.VARIANTS:
            ls.append('hostfile /bin/op-%s %s 755' % (v, enc(os.path.join(ctx.b.dir, 'opguest-' + v))))
        return ls

    def judge(self, case, ctx):
        r = ctx.sim(self.scen(case, ctx))
        try:
            n = self.scm(case, r) if case['kind'] == 'scm' else self.guest(case, r)
        except Bad as b:
            what = case['prog'] if case['kind'] == 'scm' else case['var'] + '; ' + '; '.join(case['ops'][:80])
            return Verdict(b.sig, '%s (%s)' % (b.msg, what), r)
        return Verdict(None, '', r, key=r.hash, nontrivial=n)

    def scm(self, case, r):
        e = r.end
        want = case['want']
        if e[0] in ('stall', 'hang', 'limit'):
            raise Bad('stuck', 'the interpreter made no progress (%s)' % e[0])
        lossy = bool(case.get('lossy'))
        if want < 0:
            if e == ('exit', 0):
                raise Bad('success', 'an uncaught error ended with status 0')
        elif e != ('exit', want) and not (lossy and want == 0 and e != ('exit', 0)):
            raise Bad('status', 'status %d was asked for, the program ended %s %d' % ((want,) + e))
        if lossy and any('path=/dev/out' in x for x in case['rules']) and e == ('exit', 0) and any(x.startswith('sys 100 1 -') for x in r.events):
            raise Bad('lost', 'output of the program was lost and it ended with status 0')
        if not lossy:
            if b'after' in r.out() or b'wrong' in r.out():
                raise Bad('after', 'the program went on after its end')
            for l in r.out().split(b'\n'):
                if b':' in l and (b'pid:' in l or b'other:' in l):
                    a = l[l.index(b'pid:') if b'pid:' in l else l.index(b'other:'):].split(b':')
                    if a[0] != b'pid':
                        raise Bad('wait', 'waitpid returned another process')
                    w, got = int(a[1]), int(a[2])
                    if w >= 0 and got != w << 8 or w < 0 and got == 0:
                        raise Bad('child', 'a child ended with status %d, waitpid gave %d' % (w, got))
        return want != 0

    def guest(self, case, r):
        if r.end[0] in ('stall', 'hang', 'limit'):
            raise Bad('stuck', 'no progress (%s)' % r.end[0])
        if O.hasbad(O.results(r.res)):
            raise SimError('bad operation')
        self.r, self.case = r, case
        self.writes, self.status_of, forks = {}, {}, {}
        for e in r.events:
            w = e.split(' ')
            if w[0] == 'sys':
                self.writes.setdefault(int(w[1]), []).append(int(w[3]))
            elif w[0] == 'exit':
                self.status_of[int(w[1])] = int(w[2])
            elif w[0] == 'fork':
                forks.setdefault(int(w[1]), []).append(int(w[2]))
        self.forks = forks
        self.interesting = False
        self.run(O.tree(case['ops']), 100, [], {}, 0, 0, O.results(r.res) if not any(e.startswith('exec 100 ') for e in r.events) else None)
        return self.interesting

    def run(self, t, pid, stack, disp, mask, n, rs):
        """Follow one process; stack: its handlers."""
        stack, disp = list(stack), dict(disp)
        k = -1
        nfork = 0
        pend = set()
        end = None
        for o in t:
            kid = o if isinstance(o, list) else None
            w = O.word(kid[0] if kid else o)[1]
            k += 1
            got = rs[k] if rs is not None and k < len(rs) else None
            if kid:
                c = self.forks.get(pid, [])
                if nfork >= len(c):
                    if self.case.get('kill'):
                        return
                    raise Bad('lost', 'process %d did not reach %s' % (pid, kid[0]))
                last = c[nfork]
                nfork += 1
                self.run(kid[1:], last, stack, disp, mask, int(kid[0].split('#')[1]), None)
            elif w[0] == 'wait' and got is not None:
                f = [int(x) for x in got.split(',')]
                if f[0] != last or f[1] != self.status_of.get(last):
                    raise Bad('wait', 'wait gave %s, the child %d ended %s' % (got, last, self.status_of.get(last)))
            elif w[0] == 'atexit':
                full = len(stack) >= ATMAX
                if got is not None and (got != '0') != full:
                    raise Bad('atexit', 'atexit gave %s with %d functions registered' % (got, len(stack)))
                if not full:
                    stack.append(int(w[1]))
            elif w[0] == 'signal':
                disp[int(w[1])] = int(w[2])
            elif w[0] == 'block':
                mask |= int(w[1])
            elif w[0] == 'raise':
                s = int(w[1])
                if s != 9 and disp.get(s, 0):
                    continue
                if mask >> (s - 1) & 1:
                    continue
                end = {s}
                stack = None
                break
            elif w[0] == 'abort':
                end = {6, 11}
                stack = None
                break
            elif w[0] == 'crash':
                end = {11}
                stack = None
                break
            elif w[0] in ('exit', 'return', '_exit', 'exec'):
                if w[0] == 'exec':
                    stack = []
                    sc = bytes.fromhex(w[4][1:]).decode().split(';')
                    for x in sc:
                        y = x.split(' ')
                        if y[0] == 'atexit':
                            if len(stack) < ATMAX:
                                stack.append(-int(y[1]))  # its slot 99 is unset: 0
                        else:
                            w = y
                s = int(w[1])
                end = {(s & 255) << 8}
                if w[0] == '_exit':
                    stack = None
                break
        if end is None:
            end = {0} if n == 0 else {99 << 8}
            if n:
                stack = None             # runs off its block: _exit
        letters = []
        if stack is not None:
            while stack:
                f = stack.pop()
                letters.append((LETTER[abs(f)], f > 0))
                if abs(f) == 4:
                    stack.append(1 if f > 0 else -1)
                if abs(f) == 5:
                    # getppid of the first process, which children inherit; an executed program starts with 0
                    end = {1 << 8} if f > 0 else {0}
                    break
        st = self.status_of.get(pid)
        want = ''.join(x for x, _ in letters if _)
        data = self.r.files.get('/work/e%d' % n, b'').decode('latin-1')
        if letters or end != {0}:
            self.interesting = True
        if self.case.get('kill'):
            if st is not None and st != self.case['kill'] and st not in end and (st & 127 or 0) not in end:
                raise Bad('status', 'process %d ended with %d, expected %s or a kill' % (pid, st, sorted(end)))
            if not want.startswith(data):
                raise Bad('handlers', 'process %d ran exit functions %r, registered were %r' % (pid, data, want))
            if st is not None and st != self.case['kill'] and data != want:
                raise Bad('handlers', 'process %d ran exit functions %r, registered were %r' % (pid, data, want))
            return
        if st is None:
            raise Bad('lost', 'process %d did not end' % pid)
        if st not in end and (st & 127 == 0 or (st & 127) not in end):
            raise Bad('status', 'process %d ended with wait status %d, expected %s' % (pid, st, sorted(end)))
        ws = self.writes.get(pid, [])
        if len(letters) != len(ws):
            raise Bad('handlers', 'process %d made %d writes in its exit functions, registered were %r' % (pid, len(ws), ''.join(x for x, _ in letters)))
        want = ''.join(x for (x, mine), q in zip(letters, ws) if mine and q == 1)
        if data != want:
            raise Bad('handlers', 'process %d ran exit functions %r, expected %r' % (pid, data, want))

    def shrink(self, case):
        if case['kind'] == 'scm':
            ls = case['prog'].split('\n')
            for i in range(len(ls) - 1):
                yield dict(case, prog='\n'.join(ls[:i] + ls[i + 1:]))
        else:
            for o in O.shrink_ops(case['ops'], lambda o: o.startswith('=9')):
                ks = sum(isinstance(x, list) for x in O.tree(o))
                ok = self.waits(O.tree(o))
                if ok:
                    yield dict(case, ops=o)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])

    def waits(self, t):
        b = False
        for o in t:
            if isinstance(o, list):
                if b or not self.waits(o[1:]):
                    return False
                b = True
            elif o == 'wait':
                if not b:
                    return False
                b = False
        return not b


if __name__ == '__main__':
    sys.exit(main(C17()))
