#!/usr/bin/env python3
"""C02: running out of memory stops the interpreter, it never falsifies results."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))
from core import *
import schemegen

TESTS = ['cwv', 'display', 'fluids', 'let', 'math', 'module', 'srfi-1', 'srfi-13', 'srfi-14', 'vector', 'closure', 'scm', 'read', 'quasiquote', 'base']
# programs with one large need: (name, template over n, size range)
BIG = [
    ('list', "(define l (iota %(n)d))\n(write (apply + (list-tail l (- %(n)d 5))))\n(newline)\n(write (length l))\n(newline)\n", (100, 60000)),
    ('vector', "(define v (make-vector %(n)d 'x))\n(vector-set! v (- %(n)d 1) 7)\n(write (vector-ref v (- %(n)d 1)))\n(write (vector-ref v 0))\n(write (vector-length v))\n(newline)\n", (100, 200000)),
    ('vecs', "(define (mk n) (if (= n 0) '() (cons (make-vector 100 n) (mk (- n 1)))))\n(define l (mk %(n)d))\n(write (vector-ref (car l) 99))\n(write (vector-ref (car (last-pair l)) 0))\n(newline)\n", (5, 900)),
    ('deep', "(define (f n) (if (= n 0) 0 (+ 1 (f (- n 1)))))\n(display \"go\\n\")\n(write (f %(n)d))\n(newline)\n", (10, 30000)),
    ('deepwrite', "(define (f n x) (if (= n 0) x (f (- n 1) (list x))))\n(define d (f %(n)d 1))\n(display \"go\\n\")\n(write d)\n(newline)\n", (10, 3000)),
    ('equal', "(define (f n x) (if (= n 0) x (f (- n 1) (list x n))))\n(display \"go\\n\")\n(write (equal? (f %(n)d 1) (f %(n)d 1)))\n(write (equal? (f %(n)d 1) (f %(n)d 2)))\n(newline)\n", (10, 3000)),
    ('append', "(define (f n s) (if (= n 0) s (f (- n 1) (string-append s \"0123456789\"))))\n(define s (f %(n)d \"\"))\n(write (string-length s))\n(newline)\n(display (string-append \"<\" s \">\"))\n(newline)\n", (1, 400)),
    ('append2', "(define a (make-string %(n)d #\\a))\n(define b (make-string %(n)d #\\b))\n(display \"go\\n\")\n(define c (string-append a b a b a))\n(write (string-length c))\n(newline)\n(display c)\n(newline)\n", (1, 4000)),
    ('symbol', "(define s (make-string %(n)d #\\q))\n(display \"go\\n\")\n(write (string->symbol s))\n(newline)\n(write (symbol->string (string->symbol s)))\n(newline)\n", (1, 4000)),
    ('ident', "(define %(q)s 5)\n(write (+ 1 %(q)s))\n(newline)\n(write '%(q)s)\n(newline)\n", (1, 4000)),
    ('digits', "(write '(%(d)sx 1))\n(newline)\n(write 'a)(newline)\n", (1, 4000)),
    ('literal', "(define s \"%(s)s\")\n(write (string-length s))\n(newline)\n(display s)\n(newline)\n(display \"more\\n\")\n", (1, 4000)),
    ('l2s', "(define l (map (lambda (i) (integer->char (+ 65 (modulo i 26)))) (iota %(n)d)))\n(display \"go\\n\")\n(display (list->string l))\n(newline)\n", (1, 4000)),
    ('args', "(define (f . l) (length l))\n(write (apply f (iota %(n)d)))\n(newline)\n(write (apply + (iota %(n)d)))\n(newline)\n", (1, 5000)),
    ('callcc', "(define (f n) (if (= n 0) (call-with-current-continuation (lambda (k) (k 1))) (+ 1 (f (- n 1)))))\n(display \"go\\n\")\n(write (f %(n)d))\n(newline)\n", (10, 3000)),
    ('hash', "(define h (make-hash-table 50))\n(for-each (lambda (i) (hashq-set! h i (list i i))) (iota %(n)d))\n(write (hashq-ref h (- %(n)d 1) #f))\n(write (hashq-ref h 0 #f))\n(newline)\n", (5, 3000)),
    ('setenv', "(for-each (lambda (i) (setenv (string-append \"V\" (number->string i)) (number->string (* i i)))) (iota %(n)d))\n(for-each (lambda (i) (write (getenv (string-append \"V\" (number->string i))))) (iota %(n)d))\n(newline)\n", (1, 300)),
    ('ports', "(mes-use-module (mes guile))\n(define (f n) (if (= n 0) '() (cons (with-input-from-string (make-string n #\\z) (lambda () (read-string))) (f (- n 1)))))\n(write (f %(n)d))\n(newline)\n", (1, 60)),
    ('quasi', "(define (f n) (if (= n 0) '() `(,n ,@(f (- n 1)) (x . ,n))))\n(write (f %(n)d))\n(newline)\n", (1, 300)),
    ('file', "(with-output-to-file \"/work/o\" (lambda () (let loop ((i 0)) (if (< i %(n)d) (begin (write (make-vector 20 i)) (newline) (loop (+ i 1)))))))\n(display \"written\\n\")\n", (1, 300)),
]
LITTLE = ['catch', 'guile', 'record']


def caught(rng):
    """A program that goes on after a string that became too long, with
    witnesses (variables, strings, symbols, a file half read) that must
    not notice.  Only the lines that start with R may tell of it."""
    n = int(50 * 80 ** rng.random())
    o = ['(mes-use-module (mes guile))',
         '(define (try t) (display "R ") (display (catch #t t (lambda (k . x) "caught"))) (newline))',
         '(define (rep k s) (if (= k 0) "" (string-append s (rep (- k 1) s))))',
         '(define a (make-string %d #\\a))' % n, '(define b (make-string %d #\\b))' % rng.randrange(1, n + 1)]
    wit = []
    for i in range(rng.randrange(1, 6)):
        w = rng.randrange(4)
        if w == 0:
            o.append('(setenv "W%d" "%s")' % (i, 'v%d' % i * rng.choice([1, 5, 40])))
            wit.append('(begin (write (getenv "W%d")) (newline))' % i)
        elif w == 1:
            o.append('(define s%d (list->string (list #\\s %s)))' % (i, ' '.join('#\\' + rng.choice('abcxyz') for _ in range(rng.choice([1, 5, 30])))))
            wit.append('(begin (write s%d) (newline))' % i)
        elif w == 2:
            o.append('(define p%d (open-input-file "/work/d"))\n(write (begin (set-current-input-port p%d) (list (read-char) (read-char))))\n(newline)' % (i, i))
            wit.append('(begin (set-current-input-port p%d) (write (list (read-char) (read-char) (read-char))) (newline))' % i)
        else:
            wit.append('(begin (write (with-input-from-string "str%d x y" (lambda () (let* ((a (read-char)) (b (read))) (list a b))))) (newline))' % i)
    for _ in range(rng.randrange(1, 6)):
        k = rng.randrange(7)
        l = ' '.join(rng.choice('ab') for _ in range(rng.randrange(2, 7)))
        o.append('(try (lambda () %s))' % [
            '(string-length (string-append %s))' % l,
            '(string-append %s)' % l,
            '(string-length (rep %d a))' % rng.randrange(2, 12),
            '(list->string (append (string->list a) (string->list b) (list #\\z)))',
            '(symbol->string (string->symbol (string-append %s)))' % l,
            '(string-length (with-output-to-string (lambda () (display a) (display b))))',
            '(read-string (open-input-file "/work/d"))'][k])
        o += rng.sample(wit, rng.randrange(len(wit) + 1))
    o += wit + ['(display "end\\n")']
    return '\n'.join(o) + '\n', n


class C02(Check):
    pid = 'C02'
    parts = ('mes',)
    rule = ('A case is a Scheme program (generated snippets, a repository test, or a program with one large need of a random size) and one '
            'setting of the limits: MES_ARENA, MES_JAM, MES_SAFETY, MES_STACK, MES_MAX_STRING, a limit on the heap, single heap requests '
            'refused, or a small C stack. Non-trivial: the limits made the run differ from the unconstrained one (it stopped or collected).')
    real = ['mes interpreter (src/*.c, gcc build)', 'Mes C Library (malloc, brk)', 'mes/module/*.mes']
    stub = ['kernel: simulated']
    assumptions = ['a run that is cut off by the simulator\'s step limit without finishing counts as a hang only if it stops collecting and writing']
    quick_s, thorough_s = 60, 750

    def lines(self, case, ctx, tight):
        env = dict(case['env']) if tight else {}
        base = dict(MES_ARENA='20000000', MES_MAX_ARENA='20000000', MES_STACK='5000000', MES_MAX_STRING='524288')
        if case.get('noarena') and tight:
            base = dict(MES_ARENA=None, MES_MAX_ARENA=None, MES_STACK=None)
        base.update(env)
        if case['kind'] == 'test':
            n = case['test']
            args = ['--no-auto-compile', '-L', '/repo/tests', '-L', '/repo/module', '-C', '/repo/module', '-e', '(tests %s)' % n, '-s', '/repo/tests/%s.test' % n]
            ls = mes_world(ctx.b, args, base)
        else:
            ls = mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm'], base) + ['file /work/p.scm 644 ' + enc(case['prog'])]
        if case.get('caught'):
            ls.append('file /work/d 644 ' + enc(''.join(chr(97 + j % 26) for j in range(3000))))
        ls += STD + FDS + ['dumpall /work', 'cpu 100000000000']
        if tight:
            ls += case.get('lines', []) + fault_lines(case)
        return ls

    def gen(self, rng, i, ctx):
        case = {'kind': 'prog', 'env': {}, 'rules': []}
        k = rng.random()
        strings = False
        if k < 0.12:
            case['prog'], n = caught(rng)
            case['caught'] = 1
            case['big'] = 'caught'
            strings = True
        elif k < 0.36:
            g = schemegen.Gen(rng)
            ns = [s for s in g.snippets() if not any(x in s for x in LITTLE)]
            case['prog'] = g.program(1, 5, ns)
        elif k < 0.46:
            case['kind'] = 'test'
            case['test'] = rng.choice(TESTS)
        else:
            name, t, (a, b) = rng.choice(BIG)
            if b == 4000 and rng.random() < 0.7:
                a, b = 1600, 9000       # start-up needs strings of 1500
            if name == 'append' and rng.random() < 0.7:
                a, b = 160, 900
            n = int(a * (b / a) ** rng.random())
            case['prog'] = '(display "start\\n")\n' + t % dict(n=n, q='q' * n, d='1' * n, s=''.join(rng.choice('abc def\\n') for _ in range(n)).replace('\\', '').replace('n', 'n'))
            case['big'] = name
            strings = name in ('append', 'append2', 'symbol', 'ident', 'literal', 'l2s', 'ports', 'digits')
        m = rng.random()
        e = case['env']
        if strings and m < 0.7:
            e['MES_MAX_STRING'] = str(rng.choice([100, 200, 256, 300, 512, 1000, 1024, 2000, 4096]) + rng.choice([0, 0, 0, 1, -1, 7]))
            if case.get('caught'):
                e['MES_MAX_STRING'] = str(max(1600, int(n * rng.uniform(0.9, 8))))
            elif n * {'append': 10, 'append2': 3}.get(case['big'], 1) > 1500:
                n *= {'append': 10, 'append2': rng.choice([1, 3])}.get(case['big'], 1)
                e['MES_MAX_STRING'] = str(max(1600, rng.choice([n + rng.randrange(-3, 4), int(n * rng.uniform(0.2, 1.1)), int(n * rng.uniform(1, 6))])))
            elif rng.random() < 0.5:
                e['MES_MAX_STRING'] = str(max(60, n + rng.randrange(-3, 4)))
        elif m < 0.6:
            # the arena; start-up needs about 100000 cells
            a = int(60000 * (rng.choice([600000, 600000, 3000000]) / 60000.) ** rng.random())
            e['MES_ARENA'] = str(a)
            if rng.random() < 0.6:
                e['MES_JAM'] = str(int(a * rng.choice([0.01, 0.1, 0.2, 0.3, 0.5, 0.8, 1, 2]) * rng.uniform(0.5, 1.2)) + 1)
            if rng.random() < 0.4:
                e['MES_SAFETY'] = str(rng.choice([0, 10, 100, 1000, 5000, 20000]))
            if rng.random() < 0.2:
                e['MES_MAX_ARENA'] = str(rng.choice([a, 2 * a, 10000000]))
            if rng.random() < 0.6:
                e['MES_STACK'] = str(int(rng.choice([15000, 50000, 100000, 200000]) * rng.uniform(0.7, 1.5)))
        elif m < 0.7:
            e['MES_STACK'] = str(int(100 * 5000 ** rng.random()))
        elif m < 0.8:
            case['lines'] = ['brklimit %d' % int(rng.choice([1000, 100000, 1000000, 10 ** 7, 6 * 10 ** 8, 7 * 10 ** 8, rng.randrange(10 ** 9)]))]
        elif m < 0.9:
            case['rules'] = ['brk_fail ppm=%d max=%d after=%d' % (rng.choice([1000000, 300000, 100000]), rng.choice([1, 2, 50]), rng.choice([0, 1, 2, 3, 5, 8, 12]))]
        elif m < 0.95:
            case['lines'] = ['stack %d' % int(20000 * 400 ** rng.random())]
        else:
            case['noarena'] = True
        case['seed'] = rng.randrange(1 << 30)
        return case

    def judge(self, case, ctx):
        key = (case['kind'], case.get('test'), case.get('prog'))
        if getattr(self, '_k', None) != key:
            self._r = ctx.sim(self.lines(dict(case, rules=[]), ctx, False))
            self._k = key
        r0 = self._r
        r1 = ctx.sim(self.lines(case, ctx, True))
        sig = msg = None
        o0, o1 = r0.out(), r1.out()
        f0 = {k: v for k, v in r0.files.items() if k != '/dev/err'}
        f1 = {k: v for k, v in r1.files.items() if k != '/dev/err'}
        err = r1.files.get('/dev/err', b'')
        if case.get('caught') and '/dev/out' in f1:
            # what was caught stands for the value it would have been
            a, b = f0['/dev/out'].split(b'\n'), f1['/dev/out'].split(b'\n')
            for j, l in enumerate(b[:len(a)]):
                if a[j].startswith(b'R ') and (l == b'R caught' or j == len(b) - 1 and b'R caught'.startswith(l)):
                    b[j] = a[j] if l == b'R caught' else b''
            f1['/dev/out'] = b'\n'.join(b)
        same = r0.end == r1.end
        why = 'limits %s %s %s' % (case['env'], case.get('lines', ''), case['rules'])
        if r0.end[0] in ('limit', 'hang', 'stall'):
            return Verdict(None, None, r1, key=r1.hash, nontrivial=False)
        if r1.end[0] == 'limit':
            # collecting over and over is slow, not a hang
            return Verdict(None, None, r1, key=r1.hash, nontrivial=False)
        if r1.end[0] in ('hang', 'stall'):
            sig, msg = 'hang', 'the program hangs; %s' % why
        elif same and r0.end == ('exit', 0):
            bad = [k for k in set(f0) | set(f1) if f0.get(k) != f1.get(k)]
            if bad:
                k = bad[0]
                a, b = f0.get(k, b'(none)'), f1.get(k, b'(none)')
                n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                sig, msg = 'false', 'exit 0, but %s differs at byte %d: %r, unconstrained %r; %s; stderr %r' % (k, n, b[max(0, n - 30):n + 60], a[max(0, n - 30):n + 60], why, err[-100:])
        elif r1.end == ('exit', 0):
            sig, msg = 'status', 'exit 0, unconstrained it ends %s %d; %s' % (r0.end + (why,))
        else:
            for k in sorted(set(f0) | set(f1)):
                a, b = f0.get(k, b''), f1.get(k, b'')
                if k not in f0 or not a.startswith(b):
                    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    sig, msg = 'prefix', 'ends %s %d, and %s is no prefix of the unconstrained run\'s: at byte %d %r, unconstrained %r; %s; stderr %r' % (
                        r1.end + (k, n, b[max(0, n - 30):n + 60], a[max(0, n - 30):n + 60], why, err[-100:]))
        return Verdict(sig, msg, r1, key=(r1.hash, r1.end), nontrivial=not same or r1.hash != r0.hash)

    def shrink(self, case):
        e = case['env']
        for k in list(e):
            if len(e) > 1:
                yield dict(case, env={a: b for a, b in e.items() if a != k})
        if case['kind'] == 'prog':
            ls = case['prog'].split('\n')
            for a in range(len(ls)):
                if ls[a].strip():
                    yield dict(case, prog='\n'.join(ls[:a] + ls[a + 1:]))


if __name__ == '__main__':
    sys.exit(main(C02()))
