"""Builds, from /repo's current working tree, the programs the simulator runs.

Everything goes to /verif/.build/<hash of the sources>/, never into /repo.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NYACC = '/usr/share/guile/site/3.0'
GUILE_PATH = '/usr/share/guile/3.0:/usr/share/guile/site/3.0'
TOP = ('src', 'lib', 'include', 'mes', 'module', 'scripts', 'build-aux', 'tests', 'scaffold')
TOPFILES = ('configure',)


def fail(msg):
    print('build: ' + msg, file=sys.stderr)
    sys.exit(2)


def repo_files():
    r = subprocess.run(['git', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '-z'],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode == 0 and r.stdout:
        fs = [f for f in r.stdout.decode().split('\0') if f]
    else:
        fs = []
        for t in TOP:
            for d, _, names in os.walk(os.path.join(REPO, t)):
                fs += [os.path.relpath(os.path.join(d, n), REPO) for n in names]
        fs += list(TOPFILES)
    return sorted(f for f in set(fs) if (not f.startswith('doc/')) and os.path.isfile(os.path.join(REPO, f)))


def tree_hash(files, extra=()):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        p = os.path.join(REPO, f)
        h.update(b'x' if os.access(p, os.X_OK) else b'-')
        with open(p, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for p in extra:
        with open(p, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def env(src):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    e.update(LANG='C.UTF-8', GUILE_AUTO_COMPILE='0', V='0', GUILE_LOAD_PATH=GUILE_PATH, SCHEME='guile')
    return e


def sh(cmd, cwd, e=None, check=True, log=None):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL, shell=isinstance(cmd, str), executable='/bin/bash' if isinstance(cmd, str) else None)
    if check and r.returncode:
        sys.stderr.write(r.stdout.decode(errors='replace')[-4000:])
        fail('command failed: %r' % (cmd,))
    return r.stdout.decode(errors='replace')


class Build:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.files = repo_files()
        here = os.path.dirname(os.path.abspath(__file__))
        gd = os.path.join(here, 'guest')
        self.guests = sorted(os.path.join(gd, f) for f in os.listdir(gd) if f.endswith('.c'))
        extra = [os.path.join(here, 'build.py')] + self.guests
        self.dir = os.path.join(BUILD, tree_hash(self.files, extra))
        self.src = os.path.join(self.dir, 'src')
        simsrc = os.path.join(here, 'simrun.cpp')
        self.simsrc = simsrc
        with open(simsrc, 'rb') as fh:
            self.simrun = os.path.join(BUILD, 'simrun-' + hashlib.sha256(fh.read()).hexdigest()[:16])

    # -- locking, so concurrent checks share one build
    def locked(self, fn):
        with open(os.path.join(BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            return fn()

    def done(self, name):
        return os.path.exists(os.path.join(self.dir, name + '.ok'))

    def mark(self, name):
        open(os.path.join(self.dir, name + '.ok'), 'w').close()

    def need(self, *parts):
        def go():
            t = time.time()
            if not os.path.exists(self.simrun):
                sh(['g++', '-O2', '-std=c++17', '-static-pie', '-fno-stack-protector', '-w', '-o', self.simrun + '.tmp', self.simsrc], '/')
                os.rename(self.simrun + '.tmp', self.simrun)
            for p in ('tree',) + parts:
                if not self.done(p):
                    getattr(self, 'build_' + p)()
                    self.mark(p)
            self.seconds = time.time() - t
            self.gc_old()
        self.locked(go)
        return self

    def gc_old(self):
        ds = [d for d in os.listdir(BUILD) if re.fullmatch(r'[0-9a-f]{20}', d)]
        ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)), reverse=True)
        for d in ds[6:]:
            if os.path.join(BUILD, d) != self.dir:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        for d in ds:
            if os.path.join(BUILD, d) == self.dir:
                os.utime(self.dir)

    def build_tree(self):
        if os.path.exists(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.src)
        for f in self.files:
            d = os.path.join(self.src, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), d)
        sh(['bash', './configure', 'CC=gcc', 'CFLAGS=-fno-stack-protector'], self.src, env(self.src))
        s = self.src
        for l in ('gcc-lib', 'mescc-lib'):
            os.makedirs(os.path.join(s, l, 'include', 'mes'), exist_ok=True)
            shutil.copy(os.path.join(s, 'config.sh'), os.path.join(s, l))
            shutil.copy(os.path.join(s, 'include/mes/config.h'), os.path.join(s, l, 'include/mes'))
        for l in ('mes', 'module', 'src'):
            os.symlink('../' + l, os.path.join(s, 'mescc-lib', l))

    def sources(self, compiler):
        out = sh("set +e; cd %s; . ./config.sh >/dev/null; compiler=%s; . ./build-aux/configure-lib.sh; set +eu; echo SRC lib/$mes_kernel/$mes_cpu-mes-$compiler/crt1.c; for c in $libc_mini_SOURCES $libmes_SOURCES $libmescc_SOURCES $libc_SOURCES $libc_tcc_SOURCES $libc_gnu_SOURCES $libtcc1_SOURCES lib/posix/getopt.c; do echo SRC $c; done; for c in $libmescc_SOURCES; do echo MESCC $c; done; for c in $libc_mini_SOURCES; do echo MINI $c; done; for c in $libc_gnu_SOURCES; do echo GNU $c; done; for c in $mes_SOURCES; do echo MES $c; done" % (self.src, compiler), '/', env(self.src))
        r = {}
        for l in out.splitlines():
            w = l.split()
            if len(w) == 2:
                r.setdefault(w[0], [])
                if w[1] not in r[w[0]]:
                    r[w[0]].append(w[1])
        return r

    CPP = ['-D', 'HAVE_CONFIG_H=1', '-I', '../lib', '-I', 'include', '-I', '../include', '-I', '../include/linux/x86_64']
    CF = ['-static', '-nostdinc', '-nostdlib', '-fno-builtin', '-fno-stack-protector', '-w']

    def gcc(self, cwd, c, o, extra=()):
        r = subprocess.run(['gcc', '-c'] + self.CPP + self.CF + list(extra) + ['-o', o, c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return r.stdout.decode(errors='replace')
        return None

    def par(self, jobs):
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(lambda j: j(), jobs) if e]
        if errs:
            sys.stderr.write(errs[0][-3000:])
            fail('compilation failed')

    def build_gcclib(self):
        s = self.sources('gcc')
        d = os.path.join(self.src, 'gcc-lib')
        seen, jobs = {}, []
        for c in s['SRC']:
            o = os.path.basename(c)[:-2] + '.o'
            if o not in seen and c.endswith('.c'):
                seen[o] = c
                jobs.append(lambda c=c, o=o: self.gcc(d, '../' + c, o))
        self.par(jobs)
        objs = [os.path.basename(c)[:-2] + '.o' for c in s['GNU']]
        objs = list(dict.fromkeys(o for o in objs if o in seen))
        sh(['ar', 'crD', 'libc.a'] + objs, d)

    def link_gcc(self, objs, out):
        d = os.path.join(self.src, 'gcc-lib')
        sh(['gcc', '-static', '-nostdlib', '-nostdinc', '-o', out, os.path.join(d, 'crt1.o')] + objs + ['-L', d, '-lc', '-lgcc', '-lc'], d)

    def build_mes(self):
        if not self.done('gcclib'):
            self.build_gcclib()
            self.mark('gcclib')
        s = self.sources('gcc')['MES']
        d = os.path.join(self.src, 'gcc-lib')
        o = os.path.join(self.dir, 'mesobj')
        os.makedirs(o, exist_ok=True)
        objs = [os.path.join(o, os.path.basename(c)[:-2] + '.o') for c in s]
        self.par([lambda c=c, p=p: self.gcc(d, '../' + c, p, ['-D', 'MES_SIM=1']) for c, p in zip(s, objs)])
        self.link_gcc(objs, os.path.join(self.dir, 'mes'))

    def build_gccguest(self):
        if not self.done('gcclib'):
            self.build_gcclib()
            self.mark('gcclib')
        d = os.path.join(self.src, 'gcc-lib')
        for g in self.guests:
            n = os.path.basename(g)[:-2]
            o = os.path.join(self.dir, n + '.gcc.o')
            e = self.gcc(d, g, o)
            if e:
                sys.stderr.write(e[-3000:])
                fail('guest compilation failed')
            self.link_gcc([o], os.path.join(self.dir, n + '-gcc'))

    def build_go(self):
        sh('bash build-aux/build-guile.sh', self.src, env(self.src))

    def mescc(self, cwd, args):
        r = subprocess.run(['timeout', '300', '../pre-inst-env', 'mescc', '-m', '64'] + args, cwd=cwd, env=env(self.src), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if r.returncode:
            return r.stdout.decode(errors='replace') or 'mescc failed'
        return None

    def build_mescclib(self):
        if not self.done('go'):
            self.build_go()
            self.mark('go')
        s = self.sources('mescc')
        d = os.path.join(self.src, 'mescc-lib')
        seen, jobs = {}, []
        for c in s['SRC']:
            o = os.path.basename(c)[:-2] + '.o'
            if o not in seen and c.endswith('.c'):
                seen[o] = c
                jobs.append(lambda c=c, o=o: self.mescc(d, ['-c'] + self.CPP + ['-o', o, '../' + c]))
        self.par(jobs)
        a = os.path.join(d, 'x86_64-mes')
        os.makedirs(a, exist_ok=True)
        def ar(name, lst):
            objs = list(dict.fromkeys(os.path.basename(c)[:-2] + '.o' for c in lst))
            for suf, out in (('.o', '.a'), ('.s', '.s')):
                with open(os.path.join(a, name + out), 'wb') as w:
                    for o in objs:
                        with open(os.path.join(d, o[:-2] + suf), 'rb') as r:
                            w.write(r.read())
        ar('libmescc', s['MESCC'])
        ar('libc', s['GNU'])
        shutil.copy(os.path.join(d, 'crt1.o'), a)
        shutil.copy(os.path.join(d, 'crt1.s'), a)

    def build_mesccguest(self):
        if not self.done('mescclib'):
            self.build_mescclib()
            self.mark('mescclib')
        d = os.path.join(self.src, 'mescc-lib')
        for g in self.guests:
            n = os.path.basename(g)[:-2]
            o = os.path.join(self.dir, n + '.mescc.o')
            e = self.mescc(d, ['-c'] + self.CPP + ['-o', o, g]) or self.mescc(d, ['-o', os.path.join(self.dir, n + '-mescc'), '-L', d, o])
            if e:
                sys.stderr.write(e[-3000:])
                fail('mescc guest compilation failed')


if __name__ == '__main__':
    b = Build()
    b.need(*sys.argv[1:])
    print(b.dir, '%.1fs' % b.seconds)
