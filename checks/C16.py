#!/usr/bin/env python3
"""C16: interactive and piped programs make progress and never wait for more than they need."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))
from core import *
import oplib as O

PROMPT = 'mes> '
STAGE = ['/lib%d.scm' % k for k in range(3)]


def sdisp(s):
    return s


class Session:
    """Model of a REPL session: what it prints for each item typed."""

    def __init__(self, case):
        self.vals = []          # what write prints for $0, $1, ...
        self.vars = {}

    def value(self, w):
        self.vals.append(w)
        return '$%d = %s\n' % (len(self.vals) - 1, w)

    def item(self, it):
        """Output printed after the prompt, or None when the item does not apply here; (text, exit status or None)"""
        k, a = it[0], tuple(it[1:])
        sx = lambda d: '[sexp=%s]\n' % d
        if k == 'num':
            return sx(a[0]) + self.value(str(a[0])), None
        if k == 'str':
            return sx(a[0]) + self.value('"%s"' % a[0]), None
        if k == 'add':
            return sx('(+ %d %d)' % a[:2]) + self.value(str(a[0] + a[1])), None
        if k == 'list':
            return sx('(list %d %s x)' % a[:2]) + self.value('(%d "%s" #\\x)' % a[:2]), None
        if k == 'vec':
            return sx('(vector %s)' % ' '.join(map(str, a[0]))) + self.value('#(%s)' % ' '.join(map(str, a[0]))), None
        if k == 'def':
            self.vars[a[0]] = a[1]
            return sx('(define %s %d)' % a[:2]), None
        if k == 'deff':
            self.vars[a[0]] = None
            return sx('(define (%s x) (+ x %d))' % a[:2]), None
        if k == 'callf':
            if a[0] not in self.vars or self.vars[a[0]] is not None:
                return None
            return sx('(%s %d)' % a[:2]) + self.value(str(a[1] + a[2])), None
        if k == 'var':
            if self.vars.get(a[0]) is None:
                if a[0] in self.vars:
                    return None
                return sx(a[0]) + 'exception:unbound-variable:(%s)\n' % a[0], None
            return sx(a[0]) + self.value(str(self.vars[a[0]])), None
        if k == 'set':
            if self.vars.get(a[0]) is None:
                return None
            self.vars[a[0]] = a[1]
            return sx('(begin (set! %s %d) #t)' % a[:2]) + self.value('#t'), None
        if k == 'disp':
            return sx('(begin (display %s) %d)' % a[:2]) + a[0] + self.value(str(a[1])), None
        if k == 'throw':
            return sx('(throw (quote %s) %d)' % a[:2]) + 'exception:%s:(%d)\n' % a[:2], None
        if k == 'deepthrow':
            return sx('(map (lambda (x) (if (= x 2) (throw (quote %s) x) x)) (quote (1 2 3)))' % a[0]) + 'exception:%s:(2)\n' % a[0], None
        if k == 'caught':
            return sx('(catch #t (lambda () (car %d)) (lambda (key . args) (list 1 key)))' % a[0]) + self.value('(1 not-a-pair)'), None
        if k == 'car':
            return sx('(car %d)' % a[0]) + 'exception:not-a-pair:((%d . car))\n' % a[0], None
        if k == 'sref':
            return sx('(string-ref abc %d)' % a[0]) + 'exception:system-error:((value out of range . %d))\n' % a[0], None
        if k == 'ref':
            if a[0] >= len(self.vals):
                return None
            return sx('$%d' % a[0]) + self.value(self.vals[a[0]]), None
        if k == 'nil':
            return (sx('(quote ())') if a[0] else sx('()')) + self.value('()'), None
        if k == 'stray':
            return 'exception:read-error:(unexpected ))\n', None
        if k == 'bool':
            return sx(a[0]) + self.value(a[0]), None
        if k == 'sym':
            return sx('(quote %s)' % a[0]) + self.value(a[0]), None
        if k == 'dot':
            return sx('(quote (%s . %d))' % a[:2]) + self.value('(%s . %d)' % a[:2]), None
        if k == 'quasi':
            return sx('(quasiquote (%d (unquote (+ %d 1)) (unquote-splicing (list %d))))' % (a[0], a[0], a[0])) + self.value('(%d %d %d)' % (a[0], a[0] + 1, a[0])), None
        if k == 'esc':
            return sx('a\n"b"\\%s' % a[0]) + self.value('"a\\n\\"b\\"\\\\%s"' % a[0]), None
        if k == 'unspec':
            return sx('(if #f #f)'), None
        if k == 'loop':
            return sx('(let loop ((i 0)) (if (< i %d) (loop (+ i 1)) i))' % a[0]) + self.value(str(a[0])), None
        if k == 'load':
            self.vars['q%d' % a[0]] = 100 + a[0]
            return sx('(load /lib%d.scm)' % a[0]), None
        if k == 'badload':
            return sx('(load /bad.scm)') + 'exception:not-a-pair:(EOF in list)\n', None
        if k == 'noload':
            return None
        if k == 'use':
            return sx('(mes-use-module (srfi srfi-%d))' % a[0]) + '"/repo/mes/module/srfi/srfi-%d.mes"\n' % a[0], None
        if k == 'cuse':
            return None
        if k == 'readchar':
            return sx('(read-char)') + self.value('#\\newline'), None
        if k == 'read':
            return sx('(read)') + self.value(a[0]), None
        if k == 'exit':
            return sx('(exit %d)' % a[0]), a[0] & 255
        if k == 'quit':
            return sx('(unquote quit)'), 0
        raise AssertionError(it)

    @staticmethod
    def source(it):
        k, a = it[0], tuple(it[1:])
        return {
            'num': lambda: str(a[0]), 'str': lambda: '"%s"' % a[0], 'add': lambda: '(+ %d %d)' % a[:2], 'list': lambda: '(list %d "%s" #\\x)' % a[:2],
            'vec': lambda: '(vector %s)' % ' '.join(map(str, a[0])), 'def': lambda: '(define %s %d)' % a[:2], 'deff': lambda: '(define (%s x) (+ x %d))' % a[:2],
            'callf': lambda: '(%s %d)' % a[:2], 'var': lambda: a[0], 'set': lambda: '(begin (set! %s %d) #t)' % a[:2], 'disp': lambda: '(begin (display "%s") %d)' % a[:2],
            'throw': lambda: "(throw '%s %d)" % a[:2], 'deepthrow': lambda: "(map (lambda (x) (if (= x 2) (throw '%s x) x)) '(1 2 3))" % a[0],
            'caught': lambda: '(catch #t (lambda () (car %d)) (lambda (key . args) (list 1 key)))' % a[0],
            'car': lambda: '(car %d)' % a[0], 'sref': lambda: '(string-ref "abc" %d)' % a[0], 'ref': lambda: '$%d' % a[0], 'nil': lambda: "'()" if a[0] else '()', 'stray': lambda: ')',
            'bool': lambda: a[0], 'sym': lambda: "'" + a[0], 'dot': lambda: "'(%s . %d)" % a[:2], 'quasi': lambda: '`(%d ,(+ %d 1) ,@(list %d))' % (a[0], a[0], a[0]),
            'esc': lambda: '"a\\n\\"b\\"\\\\%s"' % a[0], 'unspec': lambda: '(if #f #f)', 'loop': lambda: '(let loop ((i 0)) (if (< i %d) (loop (+ i 1)) i))' % a[0],
            'load': lambda: '(load "/lib%d.scm")' % a[0], 'badload': lambda: '(load "/bad.scm")', 'use': lambda: '(mes-use-module (srfi srfi-%d))' % a[0],
            'readchar': lambda: '(read-char)', 'read': lambda: '(read)', 'exit': lambda: '(exit %d)' % a[0], 'quit': lambda: ',quit'}[k]()


ATOM = ('num', 'var', 'ref', 'bool', 'sym', 'quit')


class C16(Check):
    pid = 'C16'
    parts = ('mes', 'gccguest', 'mesccguest')
    rule = 'a run counts when at least one piece of input was held back until the output it depends on had appeared'
    real = ['the REPL, reader and ports of the interpreter (src/*.c, mes/module/mes/*.mes), the reading side of the Mes C Library in both builds']
    stub = ['kernel: sim/simrun.cpp; the user or peer at the other end is a script that sends the next piece only when it has seen the answer']
    assumptions = ['a terminal hands over one line per read; its end of file is seen by one read only']
    quick_s, thorough_s = 50, 500

    # ------------------------------------------------------------ generation
    def gen(self, rng, i, ctx):
        case = dict(seed=rng.randrange(1 << 40), rules=[])
        k = rng.random()
        if k < 0.5:
            self.gen_repl(rng, case, i)
        elif k < 0.8:
            self.gen_filter(rng, case)
        else:
            self.gen_guest(rng, case)
        if rng.random() < 0.3:
            case['rules'].append('short_read ppm=%d vals=1,2,5' % rng.choice([100000, 1000000]))
        if rng.random() < 0.3:
            case['rules'].append('short_write ppm=%d vals=1,2' % rng.choice([100000, 1000000]))
        if rng.random() < 0.2:
            case['rules'].append('clockjump ppm=%d vals=-5000000000,5000000000,1000' % rng.choice([10000, 300000]))
        if case['kind'] != 'guest':
            if rng.random() < 0.3:
                case['gc'] = sorted(rng.sample(range(1, 4000), rng.choice([1, 3, 10])))
            if rng.random() < 0.3:
                case['env'] = {'MES_READ_BUFFER': str(rng.choice([0, 1, 2, 7, 64, 128, 500]))}
        return case

    def item(self, rng):
        n = lambda: rng.choice([0, 1, 7, 42, 999, 123456])
        word = lambda: rng.choice(['foo', 'bar', 'x y', '', 'a(b', 'semi;colon', 'long ' * 30])
        k = rng.randrange(32)
        if k == 0:
            return ['num', n()]
        if k == 1:
            return ['str', word()]
        if k in (2, 3):
            return ['add', n(), n()]
        if k == 4:
            return ['list', n(), rng.choice(['x', 'yy'])]
        if k == 5:
            return ['vec', [n() for _ in range(rng.randrange(1, 30))]]
        if k in (6, 7):
            return ['def', 'v%d' % rng.randrange(3), n()]
        if k in (8, 9):
            return ['var', 'v%d' % rng.randrange(4)]
        if k == 10:
            return ['set', 'v%d' % rng.randrange(3), n()]
        if k == 11:
            return ['disp', rng.choice(['hi', 'w' * 200]), n()]
        if k in (12, 13):
            return ['throw', rng.choice(['foo', 'system-error', 'bar']), n()]
        if k == 14:
            return ['deepthrow', 'zap']
        if k == 15:
            return ['caught', n()]
        if k == 16:
            return ['car', n()]
        if k == 17:
            return ['sref', rng.choice([5, 99])]
        if k in (18, 19):
            return ['ref', rng.randrange(6)]
        if k == 20:
            return ['nil', rng.random() < 0.5]
        if k == 21:
            return ['stray']
        if k == 22:
            return ['bool', rng.choice(['#t', '#f'])]
        if k == 23:
            return ['sym', rng.choice(['a', 'foo-bar'])]
        if k == 24:
            return ['unspec']
        if k == 25:
            return ['loop', rng.choice([3, 50])]
        if k == 26:
            return rng.choice([['load', rng.randrange(3)], ['load', rng.randrange(3)], ['badload'], ['use', rng.choice([1, 13])]])
        if k == 27:
            return rng.choice([['var', 'q%d' % rng.randrange(3)], ['deff', 'f%d' % rng.randrange(2), 5]])
        if k == 29:
            return ['dot', rng.choice(['a', 'foo']), n()]
        if k == 30:
            return rng.choice([['quasi', n()], ['esc', rng.choice(['', 'x', 'y z'])]])
        if k == 28:
            return ['callf', 'f%d' % rng.randrange(2), n(), 5]
        return rng.choice([['readchar'], ['read', rng.choice(['(a b)', 'foo', '"str"', '(1 (2) "x")'])]])

    def gen_repl(self, rng, case, i):
        """lines: [[items], layout] ..."""
        case['kind'] = 'repl'
        n = rng.choice([1, 3, 8, 20, 40]) if rng.random() < 0.93 else rng.choice([150, 1200])
        lines, ses = [], Session(case)
        while len(lines) < n:
            its = [self.item(rng) for _ in range(rng.choice([1, 1, 1, 1, 2, 4]))]
            if n > 100:
                its = its[:1]
            if any(it[0] in ('readchar', 'read') for it in its):
                its = [it for it in its if it[0] in ('readchar', 'read')][:1]
            its = [it for it in its if ses.item(it) is not None]
            lay = dict(pre=rng.choice(['', '', '', ' ', '\t', '\n', '; comment (\n', '#| block ) |#', '#| two\nlines ( |# ', '#;(left "out)" (x)) ', '#;word ', '#;#;1 "2" ', '#! bang !# ', '\r\n', '  \n\n']),
                       sep=rng.choice([' ', '  ', '\n', ' ;x\n', '\n\n', '\r\n', ' #;(no) ', ' #| c |# ', ' ; (\r\n']),
                       post=rng.choice(['', '', ' ', ' ; trailing', '\t', '\r', ' #;18', ' #| ) |#']), brk=rng.choice(['', '', '', '', '', '', '\n', '\r\n', ' ;c)\n', ' #| x |# ', ' #;1 ', '\n#;(a b)\n']))
            if its and its[0][0] in ('readchar', 'read'):
                lay.update(post='')
            if lay['pre'][:1] == '#' and (not its or its[0][0] == 'stray'):
                lay.update(pre='')      # read as the empty list
            if '#' in lay['sep'] and any(it[0] == 'stray' for it in its):
                lay.update(sep=' ')
            if '#' in lay['post'] and not its:
                lay.update(post='')
            lay['cut'] = [rng.random() for _ in range(rng.choice([0, 0, 0, 1, 3]))]
            lay['delay'] = rng.choice([0, 0, 1000, 10 ** 9, 3600 * 10 ** 9])
            lay['batch'] = rng.random() < 0.15
            lines.append([its, lay])
        case['lines'] = lines
        k = rng.random()
        if k < 0.25:
            case['last'] = [rng.choice([['exit', rng.choice([0, 1, 3, 255, 77])], ['quit']])]
        elif k < 0.4:
            case['partial'] = rng.choice(['(list 1 2', '(begin', '(', "'(a (b"])
            case['more'] = rng.random() < 0.5
        elif k < 0.5:
            case['noeol'] = True
        if rng.random() < 0.1:
            case['eio'] = True

    def chunks(self, case):
        """[(bytes or None for eof, expected total output before it arrives or -1, delay)], expected output after the welcome, end"""
        ses = Session(case)
        out = PROMPT
        ch = []
        end = None
        text_pending = ''
        first = True
        lines = case['lines'] + ([[case['last'], dict(pre='', sep=' ', post='', brk='', cut=[], delay=0, batch=False)]] if case.get('last') else [])
        wait = 0
        for ln, (its, lay) in enumerate(lines):
            txt = lay['pre']
            res = ''
            done = False
            nits = 0
            for it in its:
                r = ses.item(it)
                if r is None:
                    continue
                s = Session.source(it)
                if lay['brk'] and it[0] not in ATOM and it[0] not in ('str', 'esc', 'list', 'disp', 'sref', 'load', 'badload', 'read', 'readchar'):
                    s = s.replace(' ', lay['brk'], 1)
                if nits:
                    txt += lay['sep']
                txt += s
                nits += 1
                res += r[0]
                if r[1] is not None:
                    end = r[1]
                    done = True
                    break
                if it[0] == 'read':
                    # the rest of the line and the next line with the datum
                    w = len(PROMPT) and len(out + res[:res.index(']\n') + 2])
                    ch.append([txt + '\n', wait, lay['delay'], lay['cut'], lay['batch']])
                    out0 = out
                    wait = w
                    txt = it[1]
                    lay = dict(lay, cut=[])
                res += PROMPT
            post = lay['post']
            if '#' in post:
                # a parenthesis after a block comment is known to read as (); an end of file
                # or a failing read after one is met by the reader, then again by the session
                nxt = next((x[0][0][0] for x in lines[ln + 1:] if x[0]), 'partial' if case.get('partial') else 'stray')
                post = '' if nxt == 'stray' else post
            txt += post + '\n'
            if ln == len(lines) - 1 and case.get('noeol') and its and its[-1][0] not in ATOM + ('nil', 'read', 'readchar') and not post and not txt.rstrip('\n').endswith('\\x'):
                txt = txt[:-1]
            ch.append([txt, wait, lay['delay'], lay['cut'], lay['batch']])
            out += res
            wait = len(out)
            if done:
                break
        if end is None:
            if case.get('partial'):
                ch.append([case['partial'] + '\n', wait, 0, [], False])
                ch.append([None, wait, 0, [], False])
                out += 'exception:not-a-pair:(EOF in list)\n' + PROMPT
                wait = len(out)
                if case.get('more'):
                    ch.append(['(+ 20 3)\n', wait, 0, [], False])
                    out += '[sexp=(+ 20 3)]\n' + ses.value('23') + PROMPT
                    wait = len(out)
            if case.get('eio'):
                ch.append(['EIO', wait, 0, [], False])
                end = 1
                out += 'exception:system-error:(read failed)\n'
            else:
                ch.append([None, wait, 0, [], False])
                end = 0
        return ch, out, end

    # filters: a sequence of requests on several streams
    def gen_filter(self, rng, case):
        case['kind'] = 'filter'
        ns = rng.choice([1, 1, 1, 2, 3])
        case['streams'] = [rng.choice(['fifo', 'tty']) for _ in range(ns)]
        kinds = [rng.choice(['line', 'line', 'datum', 'chars', 'peek', 'bytes']) for _ in range(ns)]
        case['how'] = rng.choice(['file', 'file', 'command'])
        case['stdin'] = rng.random() < 0.7
        case['seq'] = []
        for _ in range(rng.choice([1, 3, 10, 30])):
            s = rng.randrange(ns)
            k = kinds[s]
            if k == 'line':
                a = ''.join(rng.choice('abc ()"\\;#') for _ in range(rng.choice([0, 1, 5, 40, 130, 300])))
            elif k == 'datum':
                a = rng.choice(['(a b)', '(1 (2 3) "x y")', '"str"', '(quote x)', '((((z))))', '(%s)' % ' '.join(map(str, range(rng.choice([5, 60]))))])
            else:
                a = ''.join(rng.choice('abcxyz\n ') for _ in range(rng.choice([1, 1, 2, 9, 128, 129])))
            case['seq'].append([s, k, a, rng.choice([0, 0, 10 ** 6, 10 ** 10]), [rng.random() for _ in range(rng.choice([0, 0, 1, 3]))], rng.random() < 0.15])
        case['end'] = rng.choice(['eof', 'exit', 'eof'])
        if rng.random() < 0.5:
            case['tail'] = ''.join(rng.choice('abc ()"\\;#') for _ in range(rng.choice([1, 5, 40, 130])))
        case['status'] = rng.choice([0, 0, 1, 3, 200])

    FPRE = '''(mes-use-module (mes guile))
(define (chars n) (if (= n 0) '() (let ((c (read-char))) (cons (char->integer c) (chars (- n 1))))))
(define (pchars n) (if (= n 0) '() (let* ((p (peek-char)) (c (read-char))) (if (eq? p c) (cons (char->integer c) (pchars (- n 1))) '(bad)))))
(define (bytes n) (if (= n 0) '() (let ((c (read-byte))) (cons c (bytes (- n 1))))))
(define (codes s) (map char->integer (string->list s)))
'''

    CPRE = FPRE.split('\n', 1)[1] + '''(define (read-line p)
  (let ((c (read-char p)))
    (if (eof-object? c) c
        (list->string (let loop ((c c)) (if (or (eof-object? c) (eq? c #\\newline)) '() (cons c (loop (read-char p)))))))))
'''

    def filter_prog(self, case):
        p = [self.FPRE if case['how'] == 'file' else self.CPRE]
        for s in range(len(case['streams'])):
            p.append('(define p%d %s)' % (s, '0' if s == 0 and case['stdin'] else '(open-input-file "/work/s%d")' % s))
        outs = []
        lst = lambda b: '(' + ' '.join(str(c) for c in b.encode('latin-1')) + ')'
        for s, k, a, *_ in case['seq']:
            if k == 'line':
                p.append('(write (codes (read-line p%d)))' % s)
                outs.append(lst(a))
            else:
                p.append('(set-current-input-port p%d)' % s)
                if k == 'datum':
                    p.append('(write (read))')
                    outs.append(a)
                elif k == 'bytes':
                    p.append('(write (bytes %d))' % len(a))
                    outs.append(lst(a))
                else:
                    p.append('(write (%s %d))' % ('chars' if k == 'chars' else 'pchars', len(a)))
                    outs.append(lst(a))
            p.append('(display "\\n")')
            outs[-1] += '\n'
        fin = ''
        if case['end'] == 'eof' and case['seq']:
            s, k = case['seq'][-1][0], case['seq'][-1][1]
            if k == 'line':
                if case.get('tail'):
                    p.append('(write (codes (read-line p%d)))\n(display "\\n")' % s)
                    fin = lst(case['tail']) + '\n'
                p.append('(write (eof-object? (read-line p%d)))' % s)
                fin += '#t'
            elif k == 'datum':
                p.append("(set-current-input-port p%d) (write (null? (read)))" % s)
                fin = '#t'
            elif k == 'bytes':
                p.append('(set-current-input-port p%d) (write (read-byte))' % s)
                fin = '-1'
            else:
                p.append('(set-current-input-port p%d) (write (eof-object? (read-char)))' % s)
                fin = '#t'
        p.append('(exit %d)' % case['status'])
        return '\n'.join(p) + '\n', outs, fin

    # library clients
    def gen_guest(self, rng, case):
        case['kind'] = 'guest'
        case['var'] = rng.choice(O.VARIANTS)
        case['stream'] = rng.choice(['fifo', 'tty'])
        case['seq'] = []
        for _ in range(rng.choice([1, 4, 12, 25])):
            k = rng.choice(['fgets', 'getc', 'getchar', 'fread', 'read'])
            n = rng.choice([1, 2, 5, 30, 99, 100, 101, 127, 128, 129, 250])
            b = ''.join(rng.choice('abcdefgh') for _ in range(n - 1)) + '\n'
            if k in ('getc', 'getchar') and n > 30:
                k = 'fread'
            case['seq'].append([k, b, rng.choice([0, 1, 50, 300]), rng.choice([0, 0, 10 ** 6, 10 ** 10]), [rng.random() for _ in range(rng.choice([0, 0, 2]))] if k != 'read' else []])
        if rng.random() < 0.4:
            # the last line has no newline
            k = rng.choice(['fgets', 'fgets', 'getc', 'fread', 'read'])
            case['tail'] = [k, ''.join(rng.choice('abcdefgh') for _ in range(rng.choice([1, 2, 7, 30] + [99, 128, 129, 200] * (k != 'getc')))), rng.choice([0, 1, 50, 300])]
        case['eof'] = rng.choice(['fgets 0 50', 'getc 0', 'read 0 10', 'fread 0 1 20'])
        case['status'] = rng.choice([0, 3])

    def guest_prog(self, case):
        ops, exp = [], []
        for k, b, extra, *_ in case['seq']:
            n = len(b)
            h = lambda s: s.encode().hex()
            if k == 'fgets':
                ops.append('fgets 0 %d' % min(n + 1 + extra, 590))
                exp.append('%d,%s' % (n, h(b)))
            elif k in ('getc', 'getchar'):
                for c in b:
                    ops.append('getc 0' if k == 'getc' else 'getchar')
                    exp.append('%d,0' % ord(c))
            elif k == 'fread':
                ops.append('fread 0 1 %d' % n)
                exp.append('%d,%s' % (n, h(b)))
            else:
                ops.append('read 0 %d' % (n + extra))
                exp.append('%d,%s' % (n, h(b)))
            ops.append('write 1 x2e')
            exp.append('1,0')
        if case.get('tail'):
            k, b, extra = case['tail']
            n, h = len(b), b.encode().hex()
            if k == 'getc':
                ops += ['getc 0'] * n
                exp += ['%d,0' % ord(c) for c in b]
            else:
                ops.append({'fgets': 'fgets 0 %d' % min(n + 1 + extra, 590), 'fread': 'fread 0 1 %d' % (n + extra), 'read': 'read 0 %d' % (n + extra)}[k])
                exp.append('%d,%s' % (n, h))
        ops.append(case['eof'])
        exp.append({'f': '-1,0', 'g': '-1,0', 'r': '0,'}[case['eof'][0]] if not case['eof'].startswith('fread') else '0,0')
        ops += ['write 1 x21', 'exit %d' % case['status']]
        exp += ['1,0']
        return ops, exp

    # ------------------------------------------------------------ scenario
    @staticmethod
    def pieces(path, data, wait, delay, cuts):
        data = data.encode('latin-1')
        ps = sorted(set([0, len(data)] + [int(c * len(data)) for c in cuts]))
        ls = []
        for a, b in zip(ps, ps[1:]):
            ls.append('chunk %s %d %d data %s' % (path, wait if a == 0 else -1, delay, enc(data[a:b])))
        return ls or ([] if data else ['chunk %s %d %d data ' % (path, wait, delay)][:0])

    def common(self, case, faults):
        fl = fault_lines(case) if faults else ['seed 1']
        if faults and case.get('gc') and case['kind'] != 'guest':
            fl.append('gc ' + ','.join(map(str, case['gc'])))
        return fl

    def repl_lines(self, case, ctx, welcome, interactive):
        ch, out, end = self.chunks(case)
        ls = mes_world(ctx.b, [], (case.get('env') or {}) if interactive else {}) + ['stream /dev/in tty', 'dev /dev/out tty', 'fd 0 /dev/in 0', 'fd 1 /dev/out 1', 'fd 2 /dev/out 1']
        for k in range(3):
            ls.append('file /lib%d.scm 644 %s' % (k, enc('(define q%d %d)\n(define unused%d 1)\n' % (k, 100 + k, k))))
        ls.append('file /bad.scm 644 ' + enc('(define bad 1)\n(list 1 (2)\n'))
        wait = welcome + len(PROMPT) if interactive else 0
        for data, w, delay, cuts, batch in ch:
            if not interactive:
                w, delay, cuts = -1, 0, []
            elif batch:
                w = -1
            else:
                w = max(w, len(PROMPT)) + welcome
            if data == 'EIO':
                ls += ['chunk /dev/in %d 0 err 5' % w] + ['chunk /dev/in -1 0 err 5'] * 3
            elif data is None:
                ls.append('chunk /dev/in %d %d eof' % (w, delay))
            else:
                ls += self.pieces('/dev/in', data, w, delay, cuts)
        ls.append('chunk /dev/in -1 0 hold')
        return ls + self.common(case, interactive), out, end

    def filter_lines(self, case, ctx, interactive=True):
        prog, outs, fin = self.filter_prog(case)
        std = case['stdin']
        args = ['--no-auto-compile'] + (['-c', prog] if case['how'] == 'command' else ['/work/p.scm'])
        ls = mes_world(ctx.b, args, case.get('env') or {}) + STD + ['fd 1 /dev/out 1', 'fd 2 /dev/err 1', 'file /work/p.scm 644 ' + enc(prog)]
        for s, k in enumerate(case['streams']):
            ls.append('stream /work/s%d %s' % (s, k))
        ls.append('fd 0 %s 0' % ('/work/s0' if std else '/dev/null'))
        total = 0
        held = 0
        last = {}
        for (s, k, a, delay, cuts, batch), o in zip(case['seq'], outs):
            d = a + ('\n' if k == 'line' else '' if k != 'datum' else '')
            if k == 'datum' and last.get(s) is not None:
                d = '\n' + d
            last[s] = 1
            w = total if total and not batch else -1
            held += w > 0
            ls += self.pieces('/work/s%d' % s, d, w, delay, cuts)
            total += len(o)
        for s in range(len(case['streams'])):
            if case['end'] == 'eof' and case.get('tail') and case['seq'] and case['seq'][-1][:2] == [s, 'line']:
                ls += self.pieces('/work/s%d' % s, case['tail'], total, 0, []) + ['chunk /work/s%d -1 0 eof' % s]
            if case['end'] == 'eof':
                ls.append('chunk /work/s%d %d 0 eof' % (s, total))
            ls.append('chunk /work/s%d -1 0 hold' % s)
        return ls + self.common(case, True), ''.join(outs) + fin, held

    def guest_lines(self, case, ctx):
        ops, exp = self.guest_prog(case)
        ls = O.scenario(ctx, case['var'], ops) + STD + ['stream /dev/in ' + case['stream'], 'fd 0 /dev/in 0', 'fd 1 /dev/out 1', 'fd 2 /dev/err 1']
        for j, (k, b, extra, delay, cuts) in enumerate(case['seq']):
            ls += self.pieces('/dev/in', b, j if j else -1, delay, cuts)
        if case.get('tail'):
            ls += self.pieces('/dev/in', case['tail'][1], len(case['seq']), 0, []) + ['chunk /dev/in -1 0 eof']
        ls += ['chunk /dev/in %d 0 eof' % len(case['seq']), 'chunk /dev/in -1 0 hold']
        return ls + self.common(case, True), exp

    # ------------------------------------------------------------ judging
    def prepare(self, ctx):
        r = ctx.sim(mes_world(ctx.b, [], {}) + ['seed 1', 'stream /dev/in tty', 'chunk /dev/in -1 0 eof', 'chunk /dev/in -1 0 hold', 'dev /dev/out tty', 'fd 0 /dev/in 0', 'fd 1 /dev/out 1', 'fd 2 /dev/out 1'])
        o = r.out().decode('latin-1')
        self.start = None
        if not o.endswith(PROMPT) or r.end != ('exit', 0):
            self.start = 'a session without input prints %r and ends %s %d' % ((o[-100:],) + r.end)
        self.welcome = o[:-len(PROMPT)]

    def diff(self, out, exp):
        n = next((i for i, (x, y) in enumerate(zip(out, exp)) if x != y), min(len(out), len(exp)))
        return 'at byte %d: %r, expected %r' % (n, out[max(0, n - 60):n + 80], exp[max(0, n - 60):n + 80])

    def judge(self, case, ctx):
        return getattr(self, 'judge_' + case['kind'])(case, ctx)

    def judge_repl(self, case, ctx):
        if self.start:
            return Verdict('repl-start', self.start, None)
        ls, exp, end = self.repl_lines(case, ctx, len(self.welcome), True)
        exp = self.welcome + exp
        r = ctx.sim(ls)
        out = r.out().decode('latin-1')
        sig = msg = None
        if r.end[0] == 'stall':
            sig, msg = ('overwait', 'the session waits for more input than it needs: ') if exp.startswith(out) else ('session', 'the session goes wrong and stalls: ')
            msg += self.diff(out, exp)
        elif r.end[0] in ('hang', 'limit'):
            sig, msg = 'hang', 'the session %ss: %s' % (r.end[0], self.diff(out, exp))
        elif out != exp:
            sig, msg = 'session', 'the session prints %s; ends %s %d' % ((self.diff(out, exp),) + r.end)
        elif r.end != ('exit', end):
            sig, msg = 'status', 'the session ends %s %d, expected exit %d' % (r.end + (end,))
        return Verdict(sig, msg, r, key=r.hash, nontrivial=len(case['lines']) > 1 or bool(case.get('last')))

    def judge_filter(self, case, ctx):
        ls, exp, held = self.filter_lines(case, ctx)
        r = ctx.sim(ls)
        out = r.out().decode('latin-1')
        err = r.files.get('/dev/err', b'')[-150:]
        sig = msg = None
        if r.end[0] == 'stall':
            sig, msg = ('overwait', 'the filter waits for more input than it needs: ') if exp.startswith(out) else ('filter', 'the filter goes wrong and stalls: ')
            msg += self.diff(out, exp)
        elif r.end[0] in ('hang', 'limit'):
            sig, msg = 'hang', 'the filter %ss: %s' % (r.end[0], self.diff(out, exp))
        elif out != exp:
            sig, msg = 'filter', 'the filter prints %s; ends %s %d; %r' % ((self.diff(out, exp),) + r.end + (err,))
        elif r.end != ('exit', case['status']):
            sig, msg = 'status', 'the filter ends %s %d, expected exit %d; %r' % (r.end + (case['status'], err))
        return Verdict(sig, msg, r, key=r.hash, nontrivial=held > 0)

    def judge_guest(self, case, ctx):
        ls, exp = self.guest_lines(case, ctx)
        r = ctx.sim(ls)
        got = O.results(r.res)
        sig = msg = None
        short = any(x.startswith('short_read') for x in case['rules'])
        if r.end[0] == 'stall':
            sig, msg = 'overwait', '%s library: after %d results the program waits for more input than it needs; last %r' % (case['var'], len(got), got[-2:])
        elif r.end[0] in ('hang', 'limit'):
            sig, msg = 'hang', '%s library: %s' % (case['var'], r.end[0])
        elif not short or not any(q[0] == 'read' for q in case['seq'] + [case.get('tail') or ['']]):
            val = lambda x: x.split(',')[0] if len(x.split(',')) > 1 and x.split(',')[0] in ('-1', '0') or ',0' == x[-2:] else x
            a, b = [val(x) for x in got], [val(x) for x in exp]
            if a != b:
                n = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                sig, msg = 'guest', '%s library: result %d is %r, expected %r' % (case['var'], n, got[n:n + 1], exp[n:n + 1])
            elif r.end != ('exit', case['status']):
                sig, msg = 'status', '%s library: ends %s %d, expected exit %d' % ((case['var'],) + r.end + (case['status'],))
        return Verdict(sig, msg, r, key=r.hash, nontrivial=len(case['seq']) > 1)

    # ------------------------------------------------------------ minimising
    def shrink(self, case):
        key = 'lines' if case['kind'] == 'repl' else 'seq'
        l = case[key]
        k = len(l)
        while k >= 1:
            for a in range(0, len(l), k):
                if len(l) - len(l[a:a + k]) > 0 or case['kind'] == 'repl':
                    yield dict(case, **{key: l[:a] + l[a + k:]})
            k //= 2
        for f in ('gc', 'env', 'partial', 'more', 'noeol', 'eio', 'last', 'tail'):
            if case.get(f):
                yield {a: b for a, b in case.items() if a != f}
        if case['kind'] == 'repl':
            plain = dict(pre='', sep=' ', post='', brk='', cut=[], delay=0, batch=False)
            for j, (its, lay) in enumerate(l):
                if lay != plain:
                    yield dict(case, lines=l[:j] + [[its, plain]] + l[j + 1:])
                if len(its) > 1:
                    for q in range(len(its)):
                        yield dict(case, lines=l[:j] + [[its[:q] + its[q + 1:], lay]] + l[j + 1:])


if __name__ == '__main__':
    sys.exit(main(C16()))
