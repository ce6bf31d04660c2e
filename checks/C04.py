#!/usr/bin/env python3
"""C04: output arrives once and in order, or success is not reported."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim'))
from core import *
import schemegen

ESC = {34: '\\"', 92: '\\\\', 0: '\\0', 7: '\\a', 8: '\\b', 9: '\\t', 10: '\\n', 11: '\\v', 12: '\\f'}
PATHS = {'out': '/dev/out', 'err': '/dev/err'}
SAFE = [c for c in range(32, 127) if c not in (34, 92)]


def path(t):
    return PATHS.get(t) or '/work/' + t


def show(d, wr):
    """What display or write prints for a datum of ours."""
    k, v = d
    if k == 's':
        return '"' + ''.join(ESC.get(ord(c), c) for c in v) + '"' if wr else v
    if k in 'iy':
        return str(v)
    if k == 'c':
        if not wr:
            return v
        return '#\\' + {' ': 'space', '\n': 'newline', '\t': 'tab'}.get(v, v)
    if k == 'b':
        return '#t' if v else '#f'
    if k == 'v':
        return '#(' + ' '.join(show(x, wr) for x in v) + ')'
    if k == 'p':
        x, v = v[:-1], v[-1]
        while v[0] in 'lp':
            x = x + v[1][:-1] if v[0] == 'p' else x + v[1]
            if v[0] == 'l':
                return '(' + ' '.join(show(y, wr) for y in x) + ')'
            v = v[1][-1]
        return '(' + ' '.join(show(y, wr) for y in x) + ' . ' + show(v, wr) + ')'
    return '(' + ' '.join(show(x, wr) for x in v) + ')'


def lit(d):
    """The datum as program text."""
    k, v = d
    if k == 's':
        return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(c, c) for c in v) + '"'
    if k == 'c':
        return '#\\' + {' ': 'space', '\n': 'newline', '\t': 'tab'}.get(v, v)
    if k in 'lv':
        return '#('[k == 'l':] + ' '.join(lit(x) for x in v) + ')'
    if k == 'p':
        return '(' + ' '.join(lit(x) for x in v[:-1]) + ' . ' + lit(v[-1]) + ')'
    return show(d, True)


def subseq(a, b):
    """Is a, piece by piece in order, within b?"""
    p = 0
    for c in a:
        p = b.find(c, p) + 1
        if p == 0:
            return False
    return True


class C04(Check):
    pid = 'C04'
    parts = ('mes',)
    rule = ('A case is a Scheme program that writes by a random history of display, write, newline, write-char, write-byte, format and core:display to '
            'standard output, standard error and files, directly and under set-current-output-port, with-output-to-file, with-output-to-port and '
            'with-output-to-string, or a generated program; and writes that arrive partly or fail, disks and devices that fill up, a closed pipe, '
            'files that cannot be created. Non-trivial: at least one write was short or failed, or ten pieces were written to two places.')
    real = ['mes interpreter (src/*.c, gcc build)', 'Mes C Library output', 'mes/module/*.mes']
    stub = ['kernel: simulated']
    assumptions = ['port number 1 means the current output, as mes defines it; it is used only where both are the same']
    quick_s, thorough_s = 55, 700

    # ------------------------------------------------------------ generation
    def gen(self, rng, i, ctx):
        case = {'rules': [], 'seed': rng.randrange(1 << 30)}
        if rng.random() < 0.2:
            case['kind'] = 'prog'
            case['prog'] = schemegen.Gen(rng).program(1, 4)
            case['ops'] = []
            paths = ['/dev/out']
        else:
            case['kind'] = 'ops'
            self.nw = 0
            self.files = ['f%d' % k for k in range(rng.choice([0, 1, 2, 3]))]
            case['ops'] = self.ops(rng, rng.choice([2, 6, 15, 40]), 0, 'out')
            case['end'] = rng.choice([['fall'], ['fall'], ['exit', 0], ['exit', 0], ['exit', rng.choice([1, 3, 77, 255, 256, 512, 65536])], ['error']])
            paths = ['/dev/out', '/work/*', '/dev/err', '/work/f0', '/work/w*']
            # files that exist before the program makes them
            case['old'] = {f: rng.choice([1, 10, 500, 5000]) for f in self.files + ['w%d' % (k + 1) for k in range(self.nw)] if rng.random() < 0.3}
        k = rng.random()
        if k < 0.6:
            case['rules'].append('short_write ppm=%d%s' % (rng.choice([1000000, 400000, 50000]), rng.choice(['', ' vals=1', ' vals=1,2,5'])))
        k = rng.random()
        if k < 0.35:
            case['rules'].append('write_err ppm=%d max=%d vals=%s path=%s after=%d' % (rng.choice([1000000, 1000000, 100000, 10000]), rng.choice([1, 1, 2, 1000000]), rng.choice(['5', '28', '5,28,122', '32', '11', '4']),
                                                                                      rng.choice(paths), rng.choice([0, 0, 1, 2, 3, 10, 50, rng.randrange(300)])))
        elif k < 0.5:
            case['rules'].append('!disk %d' % rng.choice([0, 1, 5, 20, 100, 500, 3000]))
        elif k < 0.65:
            case['rules'].append('!dev %s sink %d %d' % (rng.choice(['/dev/out', '/dev/out', '/dev/err']), rng.choice([0, 1, 7, 50, 500]), rng.choice([28, 5, 32])))
        elif k < 0.7:
            case['rules'].append('!dev /dev/out full')
        elif k < 0.76 and case['kind'] == 'ops':
            case['rules'].append('open_err ppm=%d vals=%s path=/work/[fw]*' % (rng.choice([1000000, 300000]), rng.choice(['13', '28', '2,30'])))
        elif k < 0.8:
            case['rules'].append('!ignsig 13')
            case['rules'].append('!dev /dev/out sink %d 32' % rng.choice([0, 3, 40]))
        return case

    def datum(self, rng, d=2):
        k = rng.random()
        if d == 0 or k < 0.6:
            m = rng.randrange(8)
            if m < 4:
                n = rng.choice([0, 1, 3, 10, 30, 100, 257])
                return ['s', ''.join(chr(rng.choice([rng.choice(SAFE), rng.choice(SAFE), 10, 34, 92, 9, rng.randrange(160, 256)])) for _ in range(n))]
            if m == 4:
                return ['i', rng.choice([0, 1, -1, 42, -100000, 2 ** 31, rng.randrange(10 ** 9)])]
            if m == 5:
                return ['y', rng.choice(['foo', 'x', 'a->b', 'call/cc', 'zzzzzzzzzzzzzzzzzzzz'])]
            if m == 6:
                return ['c', rng.choice(['a', 'Z', '0', ' ', '\n', '\t'])]
            return ['b', rng.random() < 0.5]
        if k < 0.7:
            return ['p', [self.datum(rng, d - 1) for _ in range(rng.randrange(2, 5))]]
        if k < 0.78:
            # a vector within a vector is not shown, on purpose
            return ['v', [self.datum(rng, 0) for _ in range(rng.randrange(0, 5))]]
        return ['l', [self.datum(rng, d - 1) for _ in range(rng.randrange(0, 6))]]

    def ops(self, rng, n, depth, cur, under=None):
        """cur: the current output, None while it goes to a string instead of under."""
        o = []
        start = cur
        for _ in range(n):
            k = rng.random()
            t = rng.choice([None, None, 'out', 'err'] + self.files * 2)
            if t == 'out' and cur != 'out':
                t = None
            if cur is None and (t == under or (t is not None and rng.random() < 0.5)):
                t = None
            if k < 0.25:
                o.append(['d', t, self.datum(rng)])
            elif k < 0.45:
                o.append(['w', t, self.datum(rng)])
            elif k < 0.52:
                o.append(['c', t, rng.choice(['a', 'Z', '0', '~', '#'])])
            elif k < 0.60:
                o.append(['b', t, rng.choice([0, 1, 10, 65, 127, 128, 200, 254, 255] if cur else [10, 65, 126])])
            elif k < 0.66:
                o.append(['n', t])
            elif k < 0.72 and cur:
                o.append(['cd', rng.choice([['y', 'sym'], ['i', rng.randrange(10 ** 9)], ['s', 'a string of some length\n'], ['l', [['i', 1], ['y', 'b'], ['s', 'c d']]], ['p', [['y', 'b'], ['i', 2]]], ['p', [['i', 3], ['b', False]]], ['b', True]]), rng.random() < 0.5])
            elif k < 0.78:
                o.append(['f', rng.random() < 0.5, rng.choice(['x~ay~s~a\n', '~a', 'plain', '~s~s~s']), [self.datum(rng, 1) for _ in range(3)]])
            elif k < 0.84 and depth < 3 and cur:
                self.nw += 1
                f = 'w%d' % self.nw
                o.append(['wf', f, self.ops(rng, rng.choice([0, 1, 3, 6]), depth + 1, f)])
            elif k < 0.89 and depth < 3 and cur:
                f = rng.choice(['err'] + self.files)
                o.append(['wp', f, self.ops(rng, rng.choice([1, 3]), depth + 1, f)])
            elif k < 0.94 and depth < 3:
                o.append(['ws', self.ops(rng, rng.choice([0, 1, 3]), depth + 1, None, cur or under)])
            elif cur:
                cur = rng.choice(['out', 'err'] + self.files)
                o.append(['sw', cur])
        if depth and cur != start:
            o.append(['sw', start])
        return o

    # ------------------------------------------------------------ the program and what it must write
    def build(self, case):
        files = {'/dev/out': b'', '/dev/err': b''}
        opened = sorted(set(self.used(case['ops'])))
        for f in opened:
            files['/work/' + f] = b''
        strs = []

        def port(t):
            return {'out': '1', 'err': '2'}.get(t, t)

        def emit(cur, t, s):
            s = s.encode('latin-1')
            t = t or cur
            if t is None:
                strs[-1] += s
            else:
                files[path(t)] = files.get(path(t), b'') + s

        def run(ops, cur):
            p = []
            for o in ops:
                k = o[0]
                if k in 'dwcbn':
                    pt = ' ' + port(o[1]) if o[1] else ''
                    # explicitly naming the port that a string stands for
                    if k == 'd':
                        emit(cur, o[1], show(o[2], False))
                        p.append("(display '%s%s)" % (lit(o[2]), pt))
                    elif k == 'w':
                        emit(cur, o[1], show(o[2], True))
                        p.append("(write '%s%s)" % (lit(o[2]), pt))
                    elif k == 'c':
                        emit(cur, o[1], o[2])
                        p.append('(write-char #\\%s%s)' % (o[2], pt))
                    elif k == 'b':
                        emit(cur, o[1], chr(o[2]))
                        p.append('(write-byte %d%s)' % (o[2], pt))
                    else:
                        emit(cur, o[1], '\n')
                        p.append('(newline%s)' % pt)
                elif k == 'cd':
                    emit(cur, None, show(o[1], o[2]))
                    p.append("(%s '%s)" % ('core:write' if o[2] else 'core:display', lit(o[1])))
                elif k == 'f':
                    s, a = o[2], list(o[3])
                    out = ''
                    while s:
                        if s[0] == '~':
                            out += show(a.pop(0), s[1] == 's')
                            s = s[2:]
                        else:
                            out += s[0]
                            s = s[1:]
                    emit(cur, None, out)
                    e = lit(['s', o[2]]) + ''.join(" '" + lit(x) for x in o[3])
                    p.append('(simple-format #t %s)' % e if o[1] else '(display (simple-format #f %s))' % e)
                elif k == 'wf':
                    files[path(o[1])] = b''
                    p.append('(with-output-to-file "/work/%s" (lambda () (let ((%s (current-output-port))) #t %s)))' % (o[1], o[1], ' '.join(run(o[2], o[1])[0])))
                elif k == 'wp':
                    p.append('(with-output-to-port %s (lambda () #t %s))' % (port(o[1]), ' '.join(run(o[2], o[1])[0])))
                elif k == 'ws':
                    strs.append(b'')
                    x = run(o[1], None)[0]
                    s = strs.pop().decode('latin-1')
                    emit(cur, None, s)
                    p.append('(display (with-output-to-string (lambda () #t %s)))' % ' '.join(x))
                else:
                    cur = o[1]
                    p.append('(set-current-output-port %s)' % port(cur))
            return p, cur

        body, cur = run(case['ops'], 'out')
        pre = ['(mes-use-module (mes guile))'] + ['(define %s (open-output-file "/work/%s"))' % (f, f) for f in opened]
        e = case['end']
        post = {'fall': '', 'exit': '(exit %s)' % (e + [0])[1], 'error': "(throw 'some-error 1 2)"}[e[0]]
        return '\n'.join(pre + body + [post]) + '\n', files, (('exit', e[1] & 255) if e[0] == 'exit' else ('exit', 0) if e[0] == 'fall' else None)

    def used(self, ops):
        for o in ops:
            if o[0] in 'dwcbn' and o[1] and o[1] not in PATHS:
                yield o[1]
            elif o[0] in ('wp', 'sw') and o[1][0] == 'f':
                yield o[1]
            if o[0] in ('wf', 'wp'):
                yield from self.used(o[2])
            elif o[0] == 'ws':
                yield from self.used(o[1])

    def lines(self, case, ctx, prog, faults=True):
        rules = [r for r in case['rules'] if r[0] != '!']
        extra = [r[1:] for r in case['rules'] if r[0] == '!'] if faults else []
        std = [x for x in STD if not any(e.startswith(x.split(' sink')[0] + ' ') for e in extra)]
        ls = mes_world(ctx.b, ['--no-auto-compile', '/src/p.scm']) + std + extra + FDS + ['dir /src 755', 'file /src/p.scm 644 ' + enc(prog), 'dumpall /work', 'cpu 60000000000']
        ls += ['file /work/%s 644 %s' % (f, enc('o' * n)) for f, n in sorted(case.get('old', {}).items())]
        return ls + (fault_lines(dict(case, rules=rules)) if faults else ['seed 1'])

    def judge(self, case, ctx):
        if case['kind'] == 'prog':
            r0 = ctx.sim(self.lines(case, ctx, case['prog'], False))
            exp, end = {'/dev/out': r0.out()}, r0.end
            prog = case['prog']
        else:
            prog, exp, end = self.build(case)
        prog = prog.encode('latin-1')
        r = ctx.sim(self.lines(case, ctx, prog))
        got = {p: r.files.get(p, b'') for p in exp}
        if any(x.startswith('!dev /dev/out full') for x in case['rules']):
            got['/dev/out'] = b''
        faults = sum(v for k, v in r.fired.items() if k in ('write_err', 'enospc', 'sink_full', 'open_err', 'create_enospc'))
        for f, n in case.get('old', {}).items():
            # not opened yet when it stopped, or it could not be opened
            if (faults or case['end'][0] == 'error') and got.get('/work/' + f) == b'o' * n:
                got['/work/' + f] = b''
        bad = [p for p in exp if got[p] != exp[p] and not (p == '/dev/err' and (faults or end is None))]
        full = any('full' in x for x in case['rules']) and exp['/dev/out']
        ok = r.end == ('exit', 0)
        sig = msg = None
        def diff(p):
            x, y = got[p], exp[p]
            n = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), min(len(x), len(y)))
            return '%s differs at byte %d: %r, expected %r' % (p, n, x[max(0, n - 30):n + 40], y[max(0, n - 30):n + 40])
        if r.end[0] in ('stall', 'hang', 'limit'):
            sig, msg = 'hang', 'the program %ss' % r.end[0]
        elif not faults and not full:
            if bad:
                sig, msg = 'data', diff(bad[0])
            elif end is not None and r.end != end:
                sig, msg = 'ending', 'ends %s %d, expected %s %d; stderr %r' % (r.end + end + (r.files.get('/dev/err', b'')[-100:],))
            elif end is None and r.end[0] == 'exit' and r.end[1] == 0:
                sig, msg = 'ending', 'a program that ended by an error exits 0'
            elif end is None and not got['/dev/err'].startswith(exp['/dev/err']):
                sig, msg = 'data', diff('/dev/err')
        elif ok and (bad or full):
            sig, msg = 'success', '%d writes failed and the program exits 0: %s' % (faults, diff((bad or ['/dev/out'])[0]))
        elif ok and case.get('end') and case['end'][0] == 'error':
            sig, msg = 'ending', 'a program that ended by an error exits 0'
        elif ok and r.fired.get('write_err', 0) and not any(s in ' '.join(case['rules']) for s in ('vals=4', 'vals=11')):
            sig, msg = 'success', 'a write failed and the program exits 0'
        else:
            for p in exp:
                if p != '/dev/err' and not subseq(got[p], exp[p]):
                    sig, msg = 'order', 'with failing writes, ' + diff(p)
        if end is not None and sig is None and not ok and faults and r.end[0] == 'exit' and end[1] and r.end[1] not in (end[1], 1):
            sig, msg = 'ending', 'ends %s %d, asked for %d' % (r.end + (end[1],))
        if sig and case['kind'] == 'ops':
            msg += ' (ops %s)' % str(case['ops'])[:300]
        return Verdict(sig, msg, r, key=r.hash, nontrivial=bool(r.fired) or (len(case['ops']) >= 10 and sum(1 for p in exp if exp[p]) > 1))

    def shrink(self, case):
        ops = case['ops']
        k = len(ops)
        while k >= 1:
            for a in range(0, len(ops), k):
                yield dict(case, ops=ops[:a] + ops[a + k:])
            k //= 2
        for a, o in enumerate(ops):
            if o[0] in ('wf', 'wp', 'ws'):
                sub = o[-1]
                for b in range(len(sub)):
                    yield dict(case, ops=ops[:a] + [o[:-1] + [sub[:b] + sub[b + 1:]]] + ops[a + 1:])
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])


if __name__ == '__main__':
    sys.exit(main(C04()))
