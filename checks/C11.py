#!/usr/bin/env python3
"""C11: system call wrappers report exactly what the kernel did."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O
import fsmodel as F

ODD = [5, 12, 28, 4, 11, 122, 133, 75, 1, 2, 4000]
NATURAL = {1, 2, 9, 13, 16, 17, 20, 21, 22, 24, 25, 34, 36, 39, 40}
TREE = [('dir', '/work/d', 0o755), ('dir', '/work/d/e', 0o755), ('dir', '/work/priv', 0o700), ('dir', '/work/ro', 0o555), ('dir', '/work/sticky', 0o1777),
        ('file', '/work/f', 0o644, b'hello'), ('file', '/work/d/g', 0o600, b''), ('file', '/work/d/e/h', 0o444, b'x' * 5000),
        ('file', '/work/priv/s', 0o644, b'secret'), ('file', '/work/x', 0o755, b'#!x'), ('file', '/work/none', 0, b'n'), ('file', '/tmp/t', 0o666, b'tmp'),
        ('link', '/work/lf', b'f'), ('link', '/work/ld', b'd'), ('link', '/work/dang', b'nowhere'), ('link', '/work/loop', b'loop'),
        ('link', '/work/d/up', b'..'), ('link', '/work/abs', b'/tmp/t'), ('link', '/work/chain', b'lf')]
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'x', 'lf', 'ld', 'dang', 'loop', 'up', 'abs', 'chain', 'priv', 's', 'ro', 'none', 'sticky', 'n1']
DIRS = ['', 'd', 'd/e', 'priv', 'ro', 'sticky', 'ld', 'ld/e', 'd/up', 'dang', 'f', 'a', 'a/b', 'c', '/work', '/tmp', '/work/d', '/', '..', '../tmp', '.', 'd/..', 'loop']


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Cut(Exception):
    pass


class C11(Check):
    pid = 'C11'
    parts = ('gccguest', 'mesccguest')
    rule = 'a history counts when at least eight calls changed the file system or the descriptor table'
    real = ['the system call wrappers of lib/linux, lib/posix, lib/stdio/remove.c and their syscall layer, in both builds']
    stub = ['kernel: the file system, descriptors and ids of sim/simrun.cpp, which may refuse any call with any error']
    assumptions = ['one process; the model of POSIX in sim/fsmodel.py says what the kernel does with the call as written']
    quick_s, thorough_s = 55, 600

    def path(self, rng):
        k = rng.random()
        if k < 0.03:
            return rng.choice(['', '/', '.', '..', '//', './', '../', '/work', '/work/', '/work/..', ' '])
        if k < 0.05:
            n = rng.choice([254, 255, 256, 300])
            return rng.choice(['', 'd/', '/work/']) + 'L' * n
        if k < 0.06:
            n = rng.choice([1000, 4094, 4095, 4096, 4200])
            return ('./' * n)[:n - 1] + 'f'
        d, n = rng.choice(DIRS), rng.choice(NAMES)
        p = d + ('' if not d or d[-1] == '/' else '/') + n
        if k < 0.12:
            p += rng.choice(['/', '/.', '/..', '//', '/z'])
        if k < 0.15:
            p = p.replace('/', '//')
        if k > 0.97:
            p = n + rng.choice(['\xe9', '\t', ' ', '\x7f\x80', '*'])
        return p

    def gen(self, rng, i, ctx):
        uid = rng.choice([0, 0, 1000, 1000, 77])
        case = dict(seed=rng.randrange(1 << 40), rules=[], var=rng.choice(O.VARIANTS), uid=uid, gid=rng.choice([0, uid, 100, 5000]), own=[], maxfd=rng.choice([256, 256, 256, 6, 9]), pid=rng.choice([7, 300, 32768, 4194303]), umask=18)
        for t in TREE:
            if t[0] != 'link' and rng.random() < (0.6 if uid else 0.2):
                case['own'].append([t[1], rng.choice([uid, uid, uid, 0, 2000, 65534, 4294967294]), rng.choice([case['gid'], 0, 100, 3000000000]), rng.choice([t[2], t[2], 0o777, 0o700, 0o750, 0o705, 0o5, 0o500, 0o300, 0o4755])])
        ops = []
        P = lambda: O.hexs(self.path(rng))
        def fdarg():
            return str(rng.choice([0, 1, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 20, 99, -1, 255, 256, 1048576, 2147483647]))
        mode = lambda: rng.choice([0, 0o777, 0o755, 0o700, 0o644, 0o600, 0o666, 0o444, 0o111, 0o1777, 0o4755, 0o2770, 0o7777, rng.randrange(0o10000)])
        for _ in range(rng.choice([6, 15, 30, 60])):
            k = rng.random()
            if k < 0.16:
                fl = rng.choice([0, 0, 1, 2]) | rng.choice([0, 0, 64, 64, 64 | 128, 64 | 512, 512, 1024, 65536, 131072, 2048]) | rng.choice([0, 0, 0, 0o2000000, 1024])
                ops.append(('open %s %d %d' if fl & 64 or rng.random() < .7 else 'open2 %s %d %d') % (P(), fl, mode()))
                if 'open2' in ops[-1]:
                    ops[-1] = ops[-1].rsplit(' ', 1)[0]
            elif k < 0.20:
                ops.append('close ' + fdarg())
            elif k < 0.23:
                ops.append('write %s %s' % (fdarg(), O.hexs('W' * rng.choice([0, 1, 5, 50]))))
            elif k < 0.36:
                ops.append('%s %s' % (rng.choice(['stat', 'stat', 'lstat']), P()))
            elif k < 0.40:
                ops.append('fstat ' + fdarg())
            elif k < 0.45:
                ops.append('access %s %d' % (P(), rng.choice([0, 1, 2, 4, 6, 7, 5, 8, 255])))
            elif k < 0.51:
                ops.append('mkdir %s %d' % (P(), mode()))
            elif k < 0.55:
                ops.append('rmdir ' + P())
            elif k < 0.59:
                ops.append('unlink ' + P())
            elif k < 0.62:
                ops.append('remove ' + P())
            elif k < 0.67:
                ops.append('rename %s %s' % (P(), P()))
            elif k < 0.71:
                ops.append('link %s %s' % (P(), P()))
            elif k < 0.75:
                ops.append('symlink %s %s' % (P(), P()))
            elif k < 0.79:
                ops.append('readlink %s %d' % (P(), rng.choice([100, 100, 300, 1, 2, 3, 0, -1])))
            elif k < 0.82:
                ops.append('chdir ' + P())
            elif k < 0.85:
                ops.append(rng.choice(['getcwd 500', 'getcwd 500', 'getcwd %d' % rng.randint(0, 20), 'getcwd0 %d' % rng.choice([512, 400, 5, 1, 0, 4096, 600])]))
            elif k < 0.88:
                ops.append('chmod %s %d' % (P(), mode()))
            elif k < 0.905:
                ops.append('mknod %s %d %d' % (P(), mode() | rng.choice([0, 0o100000, 0o10000, 0o10000, 0o20000, 0o60000, 0o40000, 0o140000]), rng.choice([0, 259, 1281])))
            elif k < 0.92:
                ops.append('dup ' + fdarg())
            elif k < 0.94:
                ops.append('dup2 %s %s' % (fdarg(), fdarg()))
            elif k < 0.96:
                ops.append('fcntl %s %s' % (fdarg(), rng.choice(['0 0', '0 10', '0 -1', '0 300', '1 0', '2 1', '2 0', '3 0', '4 1024', '4 2048', '4 0', '1030 5', '99 0'])))
            elif k < 0.97:
                ops.append(rng.choice(['ioctl %s %d' % (fdarg(), rng.choice([0x5401, 0x540f, 0x5413, 0x5402, 1, 0x80045430])), 'isatty ' + fdarg(), 'isatty ' + fdarg()]))
            elif k < 0.98:
                ops.append('fsync ' + fdarg())
            elif k < 0.99:
                ops.append(rng.choice(['getpid', 'getppid', 'getuid', 'geteuid', 'getgid', 'getegid']))
            else:
                ops.append(rng.choice(['setuid %d' % rng.choice([0, uid, 1000, 65534, 4294967294]), 'setgid %d' % rng.choice([0, uid, 100, case['gid'], 4000000000])]))
        if rng.random() < 0.12:          # a deep working directory
            j = rng.randrange(len(ops) + 1)
            ops[j:j] = sum([['mkdir %s 511' % O.hexs('D' * n), 'chdir %s' % O.hexs('D' * n)] for n in rng.choice([[250, 250], [250, 255, 30], [255] * 4, [100] * 3])], []) + rng.choice([['getcwd0 4096'], ['getcwd0 512'], ['getcwd 500'], ['getcwd0 4096', 'getcwd0 600']])
        case['ops'] = ops
        j = rng.random()
        if j < 0.35:
            case['rules'].append('sys_err not=8 ppm=%d vals=%s' % (rng.choice([20000, 100000, 400000]), ','.join(map(str, rng.sample(ODD, rng.choice([1, 3, 5]))))))
        if 0.2 < j < 0.45:
            case['rules'].append('open_err ppm=%d vals=%s' % (rng.choice([50000, 300000]), ','.join(map(str, rng.sample(ODD, 2)))))
        if 0.3 < j < 0.5:
            case['rules'].append('close_err ppm=300000 vals=5,4,28')
        return case

    def scen(self, case, ctx):
        ls = fault_lines(case) + O.scenario(ctx, case['var'], case['ops'], res=30000) + STD + FDS + ['maxfd %d' % case['maxfd'], 'pid0 %d' % case['pid'], 'dev /dev/tty tty', 'dumpall /work', 'dumpall /tmp']
        for t in TREE:
            if t[0] == 'dir':
                ls.append('dir %s %o' % (t[1], t[2]))
            elif t[0] == 'file':
                ls.append('file %s %o %s' % (t[1], t[2], enc(t[3])))
            else:
                ls.append('symlink %s %s' % (t[1], enc(t[2])))
        for p, u, g, m in case['own']:
            ls.append('owner %s %d %d %o' % (p, u, g, m))
        ls.append('owner /work %d %d 755' % (case['uid'], case['gid']))
        if case.get('tty'):
            ls.append('fd 0 /dev/tty 2')
        ls.append('uid %d %d' % (case['uid'], case['gid']))
        return ls

    def model(self, case):
        m = F.Fs(case['uid'], case['gid'], case['maxfd'])
        m.put(b'/work', F.Node(F.S_IFDIR, 0o755))
        m.put(b'/tmp', F.Node(F.S_IFDIR, 0o777))
        m.put(b'/bin/opguest', F.Node(F.S_IFREG, 0o755))
        for k, n in enumerate(('null', 'out', 'err', 'tty')):
            x = F.Node(F.S_IFCHR, 0o666)
            x.tty = n == 'tty'
            m.put(b'/dev/' + n.encode(), x)
            if k < 3:
                m.fds[k] = [F.Of(x, 0 if k == 0 else 1), 0]
        for t in TREE:
            n = F.Node({'dir': F.S_IFDIR, 'file': F.S_IFREG, 'link': F.S_IFLNK}[t[0]], t[2] if t[0] != 'link' else 0o777)
            if t[0] == 'file':
                n.data = t[3]
            elif t[0] == 'link':
                n.target = t[2]
            m.put(t[1].encode(), n)
        for p, u, g, md in case['own'] + [['/work', case['uid'], case['gid'], 0o755]]:
            n = m.root
            for c in p.encode().split(b'/')[1:]:
                n = n.kids[c]
            n.uid, n.gid, n.mode = u, g, md
        m.cwd = m.root.kids[b'work']
        return m

    def expect(self, m, case, w):
        """(result, data or None) of a call; raises F.Err."""
        def S(t):
            return bytes.fromhex(t[1:])
        o = w[0]
        I = lambda k: int(w[k])
        i32 = lambda v: ((v & 0xffffffff) ^ 0x80000000) - 0x80000000
        if o in ('open', 'open2'):
            p = S(w[1])
            try:
                n = m.walk(p, True)[2]
                if n is not None and n.fmt == F.S_IFIFO:
                    raise Cut()
            except F.Err:
                pass
            return m.open(p, I(2), I(3) if o == 'open' else 0), None
        if o == 'close':
            return m.close(I(1)), None
        if o == 'write':
            return m.write(I(1), S(w[2])), None
        if o in ('stat', 'lstat'):
            return 0, m.stat(m.get(S(w[1]), o == 'stat'))
        if o == 'fstat':
            return 0, m.stat(m.fd(I(1))[0].node)
        if o == 'access':
            return m.access(S(w[1]), I(2)), None
        if o == 'mkdir':
            return m.mkdir(S(w[1]), I(2)), None
        if o in ('rmdir', 'unlink', 'remove', 'chdir'):
            return getattr(m, o)(S(w[1])), None
        if o == 'rename':
            return m.rename(S(w[1]), S(w[2])), None
        if o == 'link':
            return m.hard(S(w[1]), S(w[2])), None
        if o == 'symlink':
            return m.symlink(S(w[1]), S(w[2])), None
        if o == 'readlink':
            d = m.readlink(S(w[1]), I(2))
            return len(d), d
        if o == 'getcwd':
            return 1, m.getcwd(I(1))
        if o == 'getcwd0':
            p = m.getcwd(10000)
            if len(p) + 1 > I(1) or len(p) > 511:
                return None, p                 # how large the library's own buffer is does not matter
            return 1, p
        if o == 'chmod':
            return m.chmod(S(w[1]), I(2)), None
        if o == 'mknod':
            return m.mknod(S(w[1]), I(2), I(3)), None
        if o == 'dup':
            return m.dup(I(1)), None
        if o == 'dup2':
            return m.dup2(I(1), I(2)), None
        if o == 'fcntl':
            return m.fcntl(I(1), I(2), I(3)), None
        if o == 'ioctl':
            if not m.fd(I(1))[0].node.tty:
                raise F.Err('NOTTY')
            return 0, None
        if o == 'isatty':
            f = m.fds.get(I(1))
            return (1 if f and f[0].node.tty else 0), None
        if o == 'fsync':
            return m.fsync(I(1)), None
        if o == 'getpid':
            return case['pid'], None
        if o == 'getppid':
            return 1, None
        if o in ('getuid', 'geteuid', 'getgid', 'getegid'):
            return getattr(m, o[3:]), None
        if o in ('setuid', 'setgid'):
            return m.setid(o[3:], I(1)), None
        raise SimError('no such op ' + o)

    def judge(self, case, ctx):
        r = ctx.sim(self.scen(case, ctx))
        rs = O.results(r.res)
        if O.hasbad(rs):
            raise SimError('bad operation in ' + str(case['ops']))
        self.eff = 0
        try:
            self.follow(case, r, rs)
        except Cut:
            return Verdict(None, '', r, key=r.hash, nontrivial=self.eff >= 8)
        except Bad as b:
            return Verdict(b.sig, '%s (%s build; %s)' % (b.msg, case['var'], '; '.join(o[:70] for o in case['ops'][:30])), r)
        return Verdict(None, '', r, key=r.hash, nontrivial=self.eff >= 8)

    def follow(self, case, r, rs):
        m = self.model(case)
        inj = set()
        for x in case['rules']:
            for t in x.split(' '):
                if t[:5] == 'vals=' and x.split(' ')[0] != 'close_err':
                    inj |= set(int(v) for v in t[5:].split(','))
        if case.get('dec') is not None:
            inj |= set(int(d.split(' ')[2]) for d in case['dec'] if d.split(' ')[1] in ('sys_err', 'open_err'))
        fired = r.fired.get('sys_err', 0) + r.fired.get('open_err', 0)
        errs = maybe = cerr = 0
        last = {}
        for k, o in enumerate(case['ops']):
            if k >= len(rs):
                raise Bad('crash', 'the program stopped in %s (%s %d)' % (o[:300], r.end[0], r.end[1]))
            w = O.word(o)[1]
            f = rs[k].split(',')
            name = w[0]
            got = int(f[0])
            # what the fault-free call would do is found on a model that is kept only if the call was not refused
            failed = name != 'isatty' and got == -1
            no = int(f[1]) if failed and len(f) > 1 else None
            if failed and no in inj and fired and name != 'close':
                want = self.natural(m, case, w)
                if want != no:
                    errs += 1
                    continue
                maybe += 1
                continue
            if name == 'isatty' and int(w[1]) in m.fds and not m.fds[int(w[1])][0].node.tty:
                maybe += 1
            if name == 'isatty' and got == 0 and fired and int(w[1]) in m.fds and m.fds[int(w[1])][0].node.tty:
                errs += 1
                continue
            if name == 'close' and failed and no in (4, 5, 28) and r.fired.get('close_err', 0) and int(w[1]) in m.fds:
                cerr += 1
                m.close(int(w[1]))
                continue
            try:
                v, data = self.expect(m, case, w)
            except F.Err as e:
                v, data = -1, e.no
            what = o if len(o) < 200 else o[:200] + '...'
            if v == -1:
                if not failed or no != data:
                    raise Bad(name, '%s gave %s, expected errno %d' % (what, rs[k][:100], data))
                continue
            if v is None:                      # getcwd without a buffer, too long or too small
                if got == -1:
                    if no != 34:
                        raise Bad(name, '%s gave %s' % (what, rs[k][:100]))
                elif bytes.fromhex(f[1]) != data:
                    raise Bad(name, '%s gave %s' % (what, rs[k][:100]))
                continue
            if got != v:
                raise Bad(name, '%s gave %s, expected %d' % (what, rs[k][:100], v))
            if name in ('stat', 'lstat', 'fstat'):
                if 'OVER' in rs[k]:
                    raise Bad(name, '%s wrote beyond struct stat' % what)
                s = tuple(int(x) & (0xffffffff if j > 2 else -1) for j, x in enumerate(f[1:6]))   # MesCC sign-extends unsigned int members
                if s != data:
                    raise Bad(name, '%s gave mode,size,nlink,uid,gid %s, expected %s' % (what, s, data))
            elif name in ('readlink', 'getcwd', 'getcwd0'):
                if 'OVER' in f[1] or bytes.fromhex(f[1]) != data:
                    raise Bad(name, '%s gave %s, expected %s' % (what, rs[k][:200], data.hex()))
            if name in ('open', 'open2', 'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'link', 'symlink', 'chmod', 'mknod', 'dup', 'dup2', 'close', 'chdir'):
                self.eff += 1
        if r.end != ('exit', 0):
            raise Bad('crash', 'the program ended %s %d' % r.end)
        if errs > fired or errs + maybe < fired:
            raise Bad('errors', 'the kernel refused %d calls, %d failures were reported' % (fired, errs))
        if cerr != r.fired.get('close_err', 0):
            raise Bad('close-error', '%d closes failed, %d were reported' % (r.fired.get('close_err', 0), cerr))
        want = {p.decode('utf-8', 'surrogateescape'): v for p, v in m.snapshot().items() if p.startswith((b'/work/', b'/tmp/'))}
        have = {}
        for p, md in r.modes.items():
            have[p] = ('file', md) + r.meta[p] + (r.files[p],)
        for p, v in r.dirs.items():
            have[p] = ('dir', int(v[0], 8), int(v[1]), int(v[2]))
        for p, v in r.links.items():
            have[p] = ('link', v.encode('utf-8', 'surrogateescape'))
        for p, v in r.nodes.items():
            have[p] = ('node', int(v[1], 8))
        have = {p: v for p, v in have.items() if p.startswith(('/work/', '/tmp/'))}
        if want != have:
            for p in sorted(set(want) | set(have)):
                if want.get(p) != have.get(p):
                    raise Bad('effect', 'at the end %s is %s, expected %s' % (p[:200], str(have.get(p))[:200], str(want.get(p))[:200]))

    def natural(self, m, case, w):
        """The errno the call has without a fault (None: succeeds); m is not changed."""
        import copy
        m2 = copy.deepcopy(m)
        try:
            self.expect(m2, case, w)
        except F.Err as e:
            return e.no
        return None

    def shrink(self, case):
        for o in O.shrink_ops(case['ops']):
            yield dict(case, ops=o)
        for j in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
        for j in range(len(case['own'])):
            yield dict(case, own=case['own'][:j] + case['own'][j + 1:])
        if case['uid']:
            yield dict(case, uid=0)


if __name__ == '__main__':
    sys.exit(main(C11()))
