#!/usr/bin/env python3
"""C03: what a Scheme program reads is what the file or stream holds, however the kernel delivers it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))
from core import *
import schemegen

WORDS = ['alpha', 'x', 'foo-bar', 'lambda', 'a1', '*y*', 'call/cc', 'zz->q', '+', '-', '...', '1+', '-1+', '+1b', '4a', 'a.b', '->', '<=', 'x!', 'key:', 'A_b', 'p?', '%z', '~', 'a@b', 'q=r', '-5-']
CHARS = ['space', 'newline', 'tab', 'nul', 'backspace', '(', ')', ';', '"', '#', '\\', "'", '.', '0']
ESC = [('\\n', '\\n'), ('\\t', '\\t'), ('\\\\', '\\\\'), ('\\"', '\\"')]
GAPS = [' ', ' ', '\n', '  ', '\t', ' ; c (\n', ' #| b ) |# ', ' #| c ||# ', ' #||#', '#|#|# ', ' #| |x| |||#\n', ' #! no !!# ', ' #;(hid "den") ', ' #;hidden ', ';;\n', '\f', '\r\n']


def datum(rng, d=2):
    """(text, what write prints)"""
    k = rng.random()
    if d == 0 or k < 0.3:
        m = rng.randrange(9)
        if m == 0:
            n = rng.choice([0, 1, 7, 123, 99999, 2 ** 31, 12345678901])
            return rng.choice(['', '', '', '+', '0']) + str(n), str(n)
        if m == 1:
            n = rng.choice([1, 42, 70000])
            return '-%d' % n, '-%d' % n
        if m == 2 or m == 6:
            w = rng.choice(WORDS)
            return w, w
        if m == 3:
            xs = [rng.choice(ESC) if rng.random() < 0.15 else (c, c) for c in ''.join(rng.choice('ab ()#;x|') for _ in range(rng.randrange(0, 12)))]
            return '"%s"' % ''.join(x for x, _ in xs), '"%s"' % ''.join(y for _, y in xs)
        if m == 4:
            c = rng.choice('abzXY09') if rng.random() < 0.5 else rng.choice(CHARS)
            return '#\\' + c, '#\\' + c
        if m == 7:
            n = rng.choice([0, 1, 9, 255, 4096, 123456])
            g = rng.choice(['', '', '-'])
            return '#' + rng.choice(['x' + g + '%x' % n, 'x' + g + '%X' % n, 'o' + g + '%o' % n, 'b' + g + bin(n)[2:]]), g * (n > 0) + str(n)
        if m == 8:
            w = '#:' + rng.choice(['kw', 'a-b', 'x1'])
            return w, w
        b = rng.random() < 0.5
        return ('#t', '#t') if b else ('#f', '#f')
    if k < 0.4:
        t, w = datum(rng, d - 1)
        q, n = rng.choice([("'", 'quote'), ("'", 'quote'), ('`', 'quasiquote'), (',', 'unquote'), (',@', 'unquote-splicing'), ("#'", 'syntax')])
        if t[0] == '@':
            q, n = "'", 'quote'
        return q + t, '(%s %s)' % (n, w)
    ds = [datum(rng, d - 1) for _ in range(rng.randrange(0, 5))]
    seps = [rng.choice(GAPS) for _ in ds]
    for j in range(len(ds) - 1):
        # two of these need nothing between them
        if rng.random() < 0.15 and ds[j][0][-1] in ')"' and ds[j][0][0] != '#' and ds[j + 1][0][0] in '("':
            seps[j] = ''
        elif rng.random() < 0.1 and ds[j][0][0] not in '#' and ds[j + 1][0][0] in '("':
            seps[j] = ''
    # what hides a datum must not stand alone, a semicolon ends any word
    for j in range(len(ds)):
        if ds[j][0][-1] not in ')"' and seps[j][:1] == '#':
            seps[j] = ' ' + seps[j]
    body, out = ''.join(t + s for (t, _), s in zip(ds, seps)), ' '.join(w for _, w in ds)
    if k > 0.9 and not any(w[:2] == '#(' for _, w in ds):      # write shows #(...) for a vector right in a vector
        return '#(' + body + ')', '#(' + out + ')'
    if k > 0.8 and ds:
        t, w = rng.choice([('z', 'z'), ('12', '12'), ('"end"', '"end"'), ('#(v)', '#(v)'), ('#f', '#f'), ('#t', '#t')])
        if seps[-1] == '':
            body += ' '
        return '(' + body + ' . ' + t + ')', '(' + out + ' . ' + w + ')'
    return '(' + body + ')', '(' + out + ')'


class Src:
    def __init__(self, data, starts):
        self.d, self.starts, self.p, self.eof = data, starts, 0, False

    def char(self):
        if self.p >= len(self.d):
            return -1
        self.p += 1
        return self.d[self.p - 1]


class C03(Check):
    pid = 'C03'
    parts = ('mes',)
    rule = ('A case is a set of input sources (files, pipes, terminals, standard input) with random contents and arrival schedules, and a Scheme '
            'program that reads them by a random history of read-char, peek-char, unread-char, read-byte, read-line, read-string, read and '
            'port switching; or a generated/repository program whose source text arrives split. Reads are split at random and may fail. '
            'Non-trivial: data were read and at least one read was split, delayed or failed.')
    real = ['mes interpreter (src/*.c, gcc build)', 'Mes C Library read-ahead and push-back', 'mes/module/*.mes']
    stub = ['kernel: simulated']
    assumptions = ['at most one character is pushed back between two reads of a port']
    quick_s, thorough_s = 55, 700

    def gen(self, rng, i, ctx):
        case = {'rules': [], 'seed': rng.randrange(1 << 30)}
        if rng.random() < 0.25:
            case['kind'] = 'prog'
            case['prog'] = schemegen.Gen(rng).program(1, 4)
            case['how'] = rng.choice(['file', 'file', 'stdin', 'fifo'])
            if rng.random() < 0.2:
                case['crlf'] = True
            if rng.random() < 0.2:
                case['tail'] = rng.choice(['; the end', ';', ' #| x |#', '#;(gone)', '\r', '\v\f', ';; "', '\n#|#|#\n;'])
            if case['how'] != 'file':
                case['chunks'] = self.chunks(rng, len(case['prog']))
        else:
            case['kind'] = 'ops'
            ns = rng.randrange(1, 5)
            strs = rng.choice([0, 0, 1, 3])
            srcs = []
            for k in range(ns + strs):
                segs = []
                top = 128 if k >= ns else 256
                for _ in range(rng.choice([0, 1, 3, 8, 20])):
                    m = rng.random()
                    if m < 0.45:
                        t, w = datum(rng, 2)
                        bare = t[-1] not in ')'
                        if bare and rng.random() < 0.6:
                            t, w = '(' + t + ')', '(' + w + ')'
                            bare = False
                        segs.append([rng.choice(['', ' ', '\n', '\n\n  ', ' #| c ||# ', ';\n']), t, w])
                        if bare:
                            segs.append(['', rng.choice([' ', '\n', '(', ')', ';', '"', '\t', ' (', '\n\n']), None])
                    elif m < 0.8:
                        segs.append(['', ''.join(chr(rng.choice([97, 98, 99, 32, 10, 40, 34, 35, rng.randrange(0, top), rng.randrange(top // 2, top)])) for _ in range(rng.choice([1, 3, 20, 90, 130, 300]))), None])
                    else:
                        segs.append(['', 'line %d\n' % rng.randrange(1000), None])
                n = sum(len(a) + len(b) for a, b, _ in segs)
                kind = rng.choice(['file', 'file', 'fifo', 'tty', 'stdin' if k == 0 else 'file'])
                if k >= ns:
                    kind = 'str'
                srcs.append({'kind': kind, 'segs': segs, 'chunks': self.chunks(rng, n) if kind not in ('file', 'str') else None})
            case['srcs'] = srcs
            case['ops'] = self.ops(rng, srcs)
        rules = case['rules']
        if rng.random() < 0.75:
            rules.append('short_read ppm=%d%s' % (rng.choice([1000000, 500000, 100000, 10000]), rng.choice(['', ' path=/work/*', ' vals=1', ' vals=1,2,3 path=/work/*'])))
        if rng.random() < 0.35:
            if rng.random() < 0.6:
                rules.append('read_err ppm=%d max=%d vals=%s path=%s' % (rng.choice([1000000, 300000, 30000]), rng.choice([1, 1, 3]), rng.choice(['5', '5', '5,21', '11', '4']),
                                                                       rng.choice(['/work/*', '/work/s*', '/work/p.scm']) + (' after=%d' % rng.choice([0, 0, 1, 2, 5]) if True else '')))
            else:
                rules.append('read_err ppm=1000000 max=1 vals=5 after=%d' % rng.randrange(0, 900))
        return case

    def chunks(self, rng, n):
        out = []
        while n > 0:
            k = min(n, rng.choice([1, 1, 2, 5, 30, 100, 127, 128, 129, 1000]))
            out.append([k, rng.choice([0, 0, 10, 1000000, 10 ** 9])])
            n -= k
        return out

    def ops(self, rng, srcs):
        """Follow the model while choosing, so that read meets data it can read."""
        ms = [self.model(s) for s in srcs]
        ops = []
        cur = None
        for _ in range(rng.choice([3, 8, 20, 45])):
            k = rng.randrange(len(srcs))
            m = ms[k]
            r = rng.random()
            if r < 0.22 or cur is None:
                op = ['sw', k]
            elif r < 0.3:
                op = ['pc', k, rng.randrange(1, 9)]
            elif r < 0.4:
                op = ['rl', k]
            elif r < 0.44:
                op = ['rs', k]
            elif r < 0.49:
                op = ['rdp', k]
            elif r < 0.6:
                op = ['c', rng.randrange(1, 12)]
            elif r < 0.66:
                op = ['peek', rng.randrange(1, 4)]
            elif r < 0.72:
                op = ['un']
            elif r < 0.78:
                op = ['b', rng.randrange(1, 12)]
            elif r < 0.82:
                op = ['pb']
            elif r < 0.95:
                op = ['rd']
            elif r < 0.97:
                op = ['str', rng.randrange(0, 30)]
            elif r < 0.98:
                op = ['more', rng.choice([1, 5, 8, 30, 300])]
            else:
                op = ['file', k]
            if op[0] in ('pc', 'rl', 'rs', 'rdp') and srcs[k]['kind'] == 'str':
                op = ['sw', k]
            if op[0] in ('rd', 'rdp'):
                t = ms[cur if op[0] == 'rd' else k]
                if t.p not in t.starts:
                    continue
            if op[0] == 'file' and srcs[k]['kind'] != 'file':
                continue
            res = self.step(ms, srcs, cur, op)
            if op[0] == 'sw':
                cur = k
            ops.append(op)
        return ops

    def model(self, s):
        d = b''
        starts = {}
        for a, b, w in s['segs']:
            if w is not None:
                starts[len(d)] = (len(d) + len(a) + len(b), w)
            d += (a + b).encode('latin-1')
        return Src(d, starts)

    def step(self, ms, srcs, cur, op):
        """The bytes the program prints for this operation."""
        o = op[0]
        lst = lambda l: '(' + ' '.join(map(str, l)) + ')'
        if o in ('sw', 'more'):
            return ''
        if o in ('pc', 'c', 'b'):
            m, n = (ms[op[1]], op[2]) if o == 'pc' else (ms[cur], op[1])
            return lst([m.char() for _ in range(n)])
        if o == 'rl':
            m = ms[op[1]]
            c = m.char()
            if c == -1:
                return 'eof'
            l = []
            while c not in (-1, 10):
                l.append(c)
                c = m.char()
            return lst(l)
        if o == 'rs':
            m = ms[op[1]]
            l = list(m.d[m.p:])
            m.p = len(m.d)
            return lst(l)
        if o in ('rd', 'rdp'):
            m = ms[cur if o == 'rd' else op[1]]
            if m.p not in m.starts:
                raise KeyError
            m.p, w = m.starts[m.p]
            return w
        if o == 'peek':
            m = ms[cur]
            return lst([m.d[m.p] if m.p < len(m.d) else -1] * op[1])
        if o == 'pb':
            m = ms[cur]
            return str(m.d[m.p] if m.p < len(m.d) else -1)
        if o == 'un':
            m = ms[cur]
            c = m.d[m.p] if m.p < len(m.d) else -1
            m.char()
            return lst([c, c, c])
        if o == 'str':
            return lst(range(97, 97 + op[1] % 26))
        if o == 'file':
            return lst(ms[op[1]].d)
        raise AssertionError(op)

    def scheme(self, op):
        o = op[0]
        p = 'p%s' % op[1] if len(op) > 1 else ''
        if o == 'sw':
            return '(set-current-input-port %s)' % p
        if o == 'more':
            return '(more %d)' % op[1]
        body = {
            'pc': lambda: '(chars %s (lambda () (read-char %s)))' % (op[2], p),
            'c': lambda: '(chars %d (lambda () (read-char)))' % op[1],
            'b': lambda: '(bytes %d (lambda () (read-byte)))' % op[1],
            'rl': lambda: '(let ((l (read-line %s))) (if (eof-object? l) \'eof (codes l)))' % p,
            'rs': lambda: '(codes (read-string %s))' % p,
            'rd': lambda: '(read)',
            'rdp': lambda: '(read %s)' % p,
            'peek': lambda: '(chars %d peek-char)' % op[1],
            'pb': lambda: '(peek-byte)',
            'un': lambda: '(let* ((a (read-char)) (b (begin (unread-char a) (peek-char))) (c (read-char))) (map char->integer (list a b c)))',
            'str': lambda: '(with-input-from-string "%s" (lambda () (codes (read-string))))' % ''.join(chr(97 + j) for j in range(op[1] % 26)),
            'file': lambda: '(with-input-from-file "/work/s%d" (lambda () (codes (read-string))))' % op[1],
        }[o]()
        return '(write %s) (newline)' % body

    PRE = '''(mes-use-module (mes guile))
(define (chars n f) (if (= n 0) '() (let ((c (f))) (cons (char->integer c) (chars (- n 1) f)))))
(define (bytes n f) (if (= n 0) '() (let ((c (f))) (cons c (bytes (- n 1) f)))))
(define (more n) (if (> n 0) (begin (open-input-string "not this one") (more (- n 1)))))
(define (codes s) (map (lambda (c) (modulo (+ 256 (char->integer c)) 256)) (string->list s)))
'''

    def build(self, case):
        """(program text, expected output)"""
        ms = [self.model(s) for s in case['srcs']]
        out, exp, cur = [self.PRE], '', None
        for k, s in enumerate(case['srcs']):
            if s['kind'] == 'str':
                out.append('(define p%d (open-input-string (list->string (map integer->char \'(%s)))))' % (k, ' '.join(map(str, self.model(s).d))))
                continue
            out.append('(define p%d %s)' % (k, '0' if s['kind'] == 'stdin' else '(open-input-file "/work/s%d")' % k))
        for op in case['ops']:
            out.append(self.scheme(op))
            w = self.step(ms, case['srcs'], cur, op)
            if op[0] == 'sw':
                cur = op[1]
            elif op[0] != 'more':
                exp += w + '\n'
        out.append('(display "end\\n")')
        return '\n'.join(out) + '\n', (exp + 'end\n').encode('latin-1')

    def stream(self, path, kind, data, chunks):
        ls = ['stream %s %s' % (path, 'tty' if kind == 'tty' else 'fifo')]
        p = 0
        for n, d in chunks:
            ls.append('chunk %s 0 %d data %s' % (path, d, enc(data[p:p + n])))
            p += n
        return ls + ['chunk %s 0 0 eof' % path]

    def lines(self, case, ctx, faults=True):
        fl = fault_lines(case) if faults else ['seed 1']
        if case['kind'] == 'ops':
            prog, exp = self.build(case)
            ls = mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm']) + STD + ['fd 1 /dev/out 1', 'fd 2 /dev/err 1', 'file /work/p.scm 644 ' + enc(prog)]
            std = False
            for k, s in enumerate(case['srcs']):
                d = self.model(s).d
                if s['kind'] == 'str':
                    pass
                elif s['kind'] == 'file':
                    ls.append('file /work/s%d 644 %s' % (k, enc(d)))
                else:
                    ls += self.stream('/work/s%d' % k, s['kind'], d, s['chunks'])
                if s['kind'] == 'stdin':
                    ls.append('fd 0 /work/s%d 0' % k)
                    std = True
            if not std:
                ls.append('fd 0 /dev/null 0')
            return ls + fl
        how = case['how'] if faults else 'file'
        prog = case['prog']
        if faults:
            prog += case.get('tail', '')
            if case.get('crlf'):
                prog = prog.replace('\n', '\r\n')
        if how == 'file':
            return mes_world(ctx.b, ['--no-auto-compile', '/work/p.scm']) + STD + FDS + ['file /work/p.scm 644 ' + enc(prog)] + fl
        ls = mes_world(ctx.b, ['--no-auto-compile'] + (['/work/p.scm'] if how == 'fifo' else [])) + STD + ['fd 1 /dev/out 1', 'fd 2 /dev/err 1']
        ls += self.stream('/work/p.scm', 'fifo', prog.encode(), case['chunks'] + [[1000000, 0]])
        return ls + ['fd 0 /dev/null 0' if how == 'fifo' else 'fd 0 /work/p.scm 0'] + fl

    def judge(self, case, ctx):
        try:
            if case['kind'] == 'ops':
                exp, end = self.build(case)[1], ('exit', 0)
            else:
                r0 = ctx.sim(self.lines(case, ctx, False))
                exp, end = r0.out(), r0.end
        except (KeyError, TypeError):
            return Verdict(None, None, None, nontrivial=False)
        r = ctx.sim(self.lines(case, ctx))
        out, err = r.out(), r.files.get('/dev/err', b'')
        sig = msg = None
        failed = r.fired.get('read_err', 0)
        n = next((i for i, (x, y) in enumerate(zip(out, exp)) if x != y), min(len(out), len(exp)))
        at = 'at byte %d: %r, expected %r' % (n, out[max(0, n - 40):n + 60], exp[max(0, n - 40):n + 60])
        if r.end[0] in ('stall', 'hang', 'limit'):
            sig, msg = 'hang', 'the program %ss; output so far %r' % (r.end[0], out[-100:])
        elif failed and (r.end != ('exit', 0) or end != ('exit', 0)):
            if not exp.startswith(out):
                sig, msg = 'after-error', 'after a failed read wrong output %s' % at
            elif r.end == ('exit', 0):
                sig, msg = 'error-status', 'a read failed and the program exits 0'
        elif out != exp:
            sig = 'read-error' if failed else 'data'
            msg = '%soutput differs %s; ends %s %d; stderr %r' % ((('%d failed reads, ' % failed) if failed else '', at) + r.end + (err[-100:],))
        elif r.end != end:
            sig, msg = 'ending', 'ends %s %d, expected %s %d; stderr %r' % (r.end + end + (err[-150:],))
        nt = len(exp) > 4 and bool(r.fired or any(s.get('chunks') for s in case.get('srcs', [])) or case.get('chunks'))
        return Verdict(sig, msg, r, key=r.hash, nontrivial=nt)

    def shrink(self, case):
        if case['kind'] == 'ops':
            ops = case['ops']
            n = len(ops)
            k = n
            while k >= 1:
                for a in range(0, n, k):
                    yield dict(case, ops=ops[:a] + ops[a + k:])
                k //= 2
            for j, s in enumerate(case['srcs']):
                if s['chunks']:
                    yield dict(case, srcs=case['srcs'][:j] + [dict(s, kind='file', chunks=None)] + case['srcs'][j + 1:])
                for q in range(len(s['segs'])):
                    t = dict(s, segs=s['segs'][:q] + s['segs'][q + 1:])
                    if t['chunks']:
                        t['chunks'] = [[100000, 0]]
                    yield dict(case, srcs=case['srcs'][:j] + [t] + case['srcs'][j + 1:])
        else:
            for k in ('crlf', 'tail'):
                if case.get(k):
                    yield {x: y for x, y in case.items() if x != k}
            ls = case['prog'].split('\n')
            for a in range(len(ls)):
                if ls[a].strip():
                    yield dict(case, prog='\n'.join(ls[:a] + ls[a + 1:]), **({'chunks': [[1000000, 0]]} if 'chunks' in case else {}))


if __name__ == '__main__':
    sys.exit(main(C03()))
