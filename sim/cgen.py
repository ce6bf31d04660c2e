"""Random small C programs, within what MesCC compiles, and the commands that compile them."""


class C:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def const(self):
        r = self.r
        return r.choice(['0', '1', '2', '-1', '7', '10', '42', '255', '0x7f', '0100', "'a'", "'\\n'", str(r.randrange(100000)), '-%d' % r.randrange(1, 5000), '0x%x' % r.randrange(1 << 31)] + self.consts)

    def expr(self, d, vs):
        r = self.r
        if d == 0 or r.random() < 0.25:
            return r.choice(vs) if vs and r.random() < 0.6 else self.const()
        k = r.randrange(12)
        e = lambda: self.expr(d - 1, vs)
        if k < 5:
            return '(%s %s %s)' % (e(), r.choice(['+', '-', '*', '&', '|', '^', '<<', '>>', '/', '%']), e())
        if k < 7:
            return '(%s %s %s)' % (e(), r.choice(['==', '!=', '<', '>', '<=', '>=', '&&', '||']), e())
        if k == 7:
            return '%s(%s)' % (r.choice(['-', '~', '!']), e())
        if k == 8 and self.funs:
            f, n = r.choice(self.funs)
            return '%s (%s)' % (f, ', '.join(e() for _ in range(n)))
        if k == 9:
            return '(%s ? %s : %s)' % (e(), e(), e())
        if k == 10 and self.macros:
            f, n = r.choice(self.macros)
            return '%s (%s)' % (f, ', '.join(e() for _ in range(n)))
        return 'sizeof (%s)' % r.choice(['int', 'char', 'long', 'void *', 'short'])

    def stmts(self, n, d, vs, loop, ind):
        r, out = self.r, []
        p = '  ' * ind
        asg = [v for v in vs if v[0] in 'vg']
        for _ in range(n):
            k = r.randrange(14)
            b = lambda l: p + '  {\n' + '\n'.join(self.stmts(r.choice([1, 1, 2, 3]), d - 1, vs, l, ind + 2)) + '\n' + p + '  }'
            if k < 4 and asg:
                out.append('%s%s %s %s;' % (p, r.choice(asg), r.choice(['=', '=', '+=', '-=', '*=', '|=', '^=']), self.expr(2, vs)))
            elif k == 4 and asg:
                out.append('%s%s%s;' % (p, r.choice(asg), r.choice(['++', '--'])))
            elif k < 7 and d:
                out.append('%sif (%s)\n%s' % (p, self.expr(2, vs), b(loop)))
                if r.random() < 0.4:
                    out.append('%selse\n%s' % (p, b(loop)))
            elif k == 7 and d:
                out.append('%swhile (%s)\n%s' % (p, self.expr(1, vs), b(True)))
            elif k == 8 and d and asg:
                v = r.choice(asg)
                out.append('%sfor (%s = 0; %s < %s; %s++)\n%s' % (p, v, v, self.const(), v, b(True)))
            elif k == 9 and d:
                out.append('%sdo\n%s\n%swhile (%s);' % (p, b(True), p, self.expr(1, vs)))
            elif k == 10 and d:
                cs = sorted(set(r.randrange(20) for _ in range(r.choice([1, 2, 4]))))
                out.append('%sswitch (%s)\n%s  {\n%s%s  }' % (p, self.expr(1, vs), p, ''.join('%s  case %d:\n%s\n%s    break;\n' % (p, c, '\n'.join(self.stmts(1, d - 1, vs, loop, ind + 2)), p) for c in cs),
                                                            '%s  default:\n%s\n' % (p, '\n'.join(self.stmts(1, 0, vs, loop, ind + 2)))))
            elif k == 11 and loop:
                out.append('%sif (%s)\n%s  %s;' % (p, self.expr(1, vs), p, r.choice(['break', 'continue'])))
            elif k == 12 and self.strs:
                out.append('%sputs (%s);' % (p, r.choice(self.strs)))
            elif self.funs:
                f, m = r.choice(self.funs)
                out.append('%s%s (%s);' % (p, f, ', '.join(self.expr(1, vs) for _ in range(m))))
        if not out:
            out.append('%s;' % p)
        return out

    def header(self, h):
        r = self.r
        g = '_%s_H' % h.upper()
        l = ['#ifndef %s' % g, '#define %s 1' % g, '/* header %s */' % h]
        if r.random() < 0.2:        # something of the system's
            l.append('#include <%s>' % r.choice(['stdint.h', 'stddef.h', 'limits.h', 'mes/lib.h']))
        for _ in range(r.choice([1, 2, 4])):
            k = r.randrange(5)
            if k == 0:
                m = self.name('M')
                self.consts.append(m)
                l.append('#define %s %s' % (m, r.choice(['1', '(2 + 3)', '0xff', "'x'"])))
            elif k == 1:
                m = self.name('F')
                self.macros.append((m, 2))
                l.append('#define %s(a, b) ((a) %s (b))' % (m, r.choice(['+', '-', '&', '*'])))
            elif k == 2:
                e = self.name('e')
                a = [e + '_A', e + '_B', e + '_C']
                self.consts += a
                l.append('enum %s { %s, %s = %d, %s };' % (e, a[0], a[1], r.randrange(100), a[2]))
            elif k == 3:
                s = self.name('s')
                self.structs.append(s)
                l.append('struct %s\n{\n  int a;\n  char *b;\n  struct %s *next;\n  long c[%d];\n};' % (s, s, r.choice([1, 2, 5])))
            else:
                l.append('typedef %s %s;' % (r.choice(['int', 'unsigned', 'char *', 'long']), self.name('t')))
        if r.random() < 0.3:
            l.append('#if %s\nint only_%s (void);\n#else\nint other_%s (int);\n#endif' % (r.choice(['1', '0', 'defined (FOO)', 'FOO > 2']), h, h))
        l.append('#endif')
        return '\n'.join(l) + '\n'

    def cfile(self, main, headers):
        r = self.r
        l = ['#include "%s.h"' % h for h in headers] + ['int puts (char const *s);']
        self.strs = ['"str %d\\n"' % k for k in range(r.choice([0, 1, 3]))]
        gs = []
        for _ in range(r.choice([0, 1, 2, 4])):
            g = self.name('g')
            k = r.randrange(5)
            if k == 0:
                l.append('%sint %s;' % (r.choice(['', 'static ']), g)); gs.append(g)
            elif k == 1:
                l.append('int %s = %s;' % (g, r.choice(['1', '-5', '1000000', "'c'"]))); gs.append(g)
            elif k == 2:
                l.append('char *%s = "global %s\\t%s";' % (g, g, '\\"q\\"')); self.strs.append(g)
            elif k == 3:
                l.append('int %s[] = {%s};' % (g, ', '.join(str(r.randrange(100)) for _ in range(r.choice([1, 3, 9])))))
            elif self.structs:
                l.append('struct %s %s;' % (r.choice(self.structs), g))
        for _ in range(r.choice([0, 1, 2, 3])):
            f, n = self.name('f'), r.choice([0, 1, 2, 3])
            ps = [self.name('p') for _ in range(n)]
            vs = [self.name('v') for _ in range(r.choice([0, 1, 2]))]
            l.append('%sint\n%s (%s)\n{\n%s%s\n  return %s;\n}' % (r.choice(['', '', 'static ']), f, ', '.join('int ' + p for p in ps) or 'void', ''.join('  int %s = %s;\n' % (v, self.const()) for v in vs),
                                                                '\n'.join(self.stmts(r.choice([1, 2, 4]), 2, ps + vs + gs, False, 1)), self.expr(2, ps + vs)))
            self.funs.append((f, n))
        if main:
            v = self.name('v')
            l.append('int\nmain (int argc, char *argv[])\n{\n  int %s = argc;\n%s\n  return %s;\n}' % (v, '\n'.join(self.stmts(r.choice([1, 3]), 2, [v] + gs, False, 1)), self.expr(1, [v])))
        return '\n\n'.join(l) + '\n'


def program(rng):
    """(files, names of the .c files): one to three units with headers."""
    g = C(rng)
    files, cs = {}, []
    nh = rng.choice([0, 1, 1, 2])
    hs, have = [], {}
    g.consts, g.macros, g.structs, g.funs = [], [], [], []
    for k in range(nh):
        hs.append('h%d' % k)
        d = rng.choice(['', '', 'inc/'])
        g.consts, g.macros, g.structs = [], [], []
        files['/work/%sh%d.h' % (d, k)] = g.header('h%d' % k)
        have['h%d' % k] = (g.consts, g.macros, g.structs)
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        g.funs = []
        hh = rng.sample(hs, rng.randrange(len(hs) + 1)) if hs else []
        g.consts, g.macros, g.structs = (sum((have[h][j] for h in hh), []) for j in range(3))
        f = rng.choice(['%s.c', 'mod-%s.c', '%s.x.c']) % 'abc'[k]
        files['/work/' + f] = g.cfile(k == 0, hh)
        cs.append(f)
    return files, cs


def command(rng, cs):
    """(arguments, files that must come out)."""
    a = []
    arch = rng.choice(['x86_64', 'x86_64', 'x86', 'arm'])
    if arch == 'x86':
        a += ['-m', '32']
    elif arch == 'arm':
        a += ['--arch=arm']
    a += ['-I', 'inc']
    if rng.random() < 0.3:
        a += ['-D', rng.choice(['FOO=3', 'BAR=1', 'FOO=1'])]
    if rng.random() < 0.15:
        a += rng.choice([['-nostdinc'], ['-fno-builtin'], ['-static'], ['-O', '2'], ['--align=none'], ['--std=c99']])
    mode = rng.choice(['S', 'S', 'c', 'c', 'E', 'link', 'link', 'pre'])
    if mode == 'pre':       # assembly and objects made before
        pre = rng.choice([['pre.s'], ['pre.o'], ['pre.o', 'pre2.o'], ['pre.s', 'pre.o']])
        if pre == ['pre.s'] and rng.random() < 0.5:
            return a + ['-c'] + pre, ['/work/pre.o'], mode, arch
        return a + rng.choice([[], ['-nostdlib'], ['-l', 'extra', '-L', '/work/lib']]) + ['-o', 'prog'] + pre, ['/work/prog'], mode, arch
    stem = lambda f: f[:-2]
    o = rng.choice([None, None, 'out.x', '/work/sub/o'])
    if mode in 'ScE':
        a.append('-' + mode)
        if o:
            a += ['-o', o]
        cs = cs[:1] if mode == 'E' or rng.random() < 0.7 else cs
        out = o or stem(cs[0]) + {'S': '.s', 'c': '.o', 'E': '.E'}[mode]
    else:
        if o:
            a += ['-o', o]
        k = rng.random()
        if k < 0.15:
            a.append('-nostdlib')
        elif k < 0.25:
            a.append('-nodefaultlibs')
        elif k < 0.35:
            a.append('-nostartfiles')
        elif k < 0.5:
            a += ['-l', 'extra', '-L', '/work/lib']
        if rng.random() < 0.25:
            a.append('-g')
        out = o or 'a.out'
    return a + cs, [out if out[0] == '/' else '/work/' + out], mode, arch


PRE = {'/work/pre.s': 'ASSEMBLY\n', '/work/pre.o': 'OBJECT 1\n', '/work/pre2.o': 'OBJECT 2\n'}


def world(case, ctx, env=None, missing=()):
    """Scenario lines of one run of mescc."""
    from core import mes_world, STD, FDS, enc
    e = dict(MES_ARENA='3000000', MES_MAX_ARENA='3000000', MES_STACK='1000000', includedir='/repo/include', libdir='/lib', prefix='/usr', MES_PREFIX='/repo')
    e.update(env or {})
    ls = mes_world(ctx.b, ['--no-auto-compile', '-e', 'main', '-L', '/repo/module', '-C', '/repo/module', '/repo/scripts/mescc.scm', '--'] + case['args'], e)
    ls += ['stub /bin/M1 asm M1', 'stub /bin/hex2 asm hex2', 'stub /bin/blood-elf asm blood-elf', 'dir /lib 755', 'dir /work/sub 755', 'dir /work/inc 755', 'dir /work/lib 755']
    for a in ('x86_64', 'x86', 'arm'):
        ls += ['tree /lib/%s-mes %s/lib/%s-mes ro' % (a, ctx.b.src, a)]
        ls += ['file /lib/%s-mes/%s 644 %s' % (a, f, enc(('%s %s\n' % (a, f)).encode())) for f in ('libc.a', 'libmescc.a', 'crt1.o', 'libc.s', 'libmescc.s')]
        ls += ['dir /work/lib/%s-mes 755' % a] + ['file /work/lib/%s-mes/%s 644 %s' % (a, f, enc(('%s %s\n' % (a, f)).encode())) for f in ('libextra.a', 'libextra.s')]
    ls += ['tree /lib/linux %s/lib/linux ro' % ctx.b.src]
    ls += ['file %s 644 %s' % (p, enc(t.encode())) for p, t in sorted(list(case['files'].items()) + list(PRE.items()))]
    ls = [l for l in ls if not any(l.startswith(('file %s ' % m, 'stub %s ' % m)) for m in missing)]
    return ls + STD + FDS + ['dumpall /work', 'cpu 300000000000', 'maxsys 100000000']


class MesccMixin:
    """Checks that run commands of a pool of fault-free cases."""
    pool_n = 16

    def pool_case(self, k):
        import random
        rng = random.Random('mescc/%s/%d/%d' % (self.pid, self.seed, k))
        files, cs = program(rng)
        args, outs, mode, arch = command(rng, cs)
        return dict(files=files, args=args, outs=outs, mode=mode, arch=arch)

    def base(self, case, ctx):
        """What the command does without any fault."""
        import json
        key = json.dumps([case['files'], case['args']], sort_keys=True)
        if key not in self.bases:
            ctx1 = ctx
            r = ctx1.sim(world(case, ctx) + ['seed 1'])
            self.bases[key] = (r.end, {p: d for p, d in r.files.items() if p.startswith('/work/')}, sorted(r.modes))
        return self.bases[key]

    def prepare(self, ctx):
        self.bases = {}
        if not self.single:
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda k: self.base(self.pool_case(k), ctx), range(self.pool_n)))
