"""An executable model of the file system part of POSIX, as one process sees it.

Written for the judging of C library wrappers: every operation returns
(result, errno, data).  Nothing here reads the simulator's state.
"""
E_ = dict(PERM=1, NOENT=2, BADF=9, ACCES=13, BUSY=16, EXIST=17, XDEV=18, NOTDIR=20, ISDIR=21, INVAL=22, MFILE=24, NOTTY=25,
          SPIPE=29, ROFS=30, RANGE=34, NAMETOOLONG=36, NOTEMPTY=39, LOOP=40)
S_IFMT, S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO, S_IFCHR, S_IFBLK = 0o170000, 0o100000, 0o40000, 0o120000, 0o10000, 0o20000, 0o60000
O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_NONBLOCK, O_DIRECTORY, O_NOFOLLOW, O_CLOEXEC = 0o100, 0o200, 0o1000, 0o2000, 0o4000, 0o200000, 0o400000, 0o2000000


class Err(Exception):
    def __init__(self, name):
        self.no = E_[name]


class Node:
    def __init__(self, fmt, mode, uid=0, gid=0):
        self.fmt, self.mode, self.uid, self.gid = fmt, mode, uid, gid
        self.nlink = 2 if fmt == S_IFDIR else 1
        self.kids = {}
        self.data = b''
        self.target = b''
        self.parent = None
        self.name = b''
        self.tty = False
        self.fixed = False         # not followed further (devices, programs)


class Of:
    def __init__(self, node, flags):
        self.node, self.flags, self.pos = node, flags, 0


class Fs:
    def __init__(self, uid=0, gid=0, maxfd=256):
        self.root = Node(S_IFDIR, 0o755)
        self.root.parent = self.root
        self.uid, self.gid, self.umask, self.maxfd = uid, gid, 0o022, maxfd
        self.euid, self.egid = uid, gid
        self.cwd = self.root
        self.fds = {}

    # -- set-up
    def link(self, d, name, n):
        d.kids[name] = n
        n.parent, n.name = d, name
        if n.fmt == S_IFDIR:
            d.nlink += 1

    def put(self, path, n):
        d = self.root
        w = [c for c in path.split(b'/') if c]
        for c in w[:-1]:
            if c not in d.kids:
                self.link(d, c, Node(S_IFDIR, 0o755))
            d = d.kids[c]
        if n.fmt == S_IFDIR and w and w[-1] in d.kids:
            d.kids[w[-1]].mode = n.mode
            return
        self.link(d, w[-1], n)

    # -- look-up
    def may(self, n, want):
        if self.euid == 0:
            return not (want & 1 and n.fmt != S_IFDIR and not n.mode & 0o111)
        b = n.mode >> 6 if n.uid == self.euid else n.mode >> 3 if n.gid == self.egid else n.mode
        return b & want == want

    def walk(self, path, follow, start=None, depth=0):
        """(directory, name, node or None, trailing slash)"""
        if not path:
            raise Err('NOENT')
        if len(path) >= 4096:
            raise Err('NAMETOOLONG')
        if depth > 40:
            raise Err('LOOP')
        d = self.root if path[:1] == b'/' else (start or self.cwd)
        w = [c for c in path.split(b'/') if c]
        slash = path[-1:] == b'/'
        if not w:
            return d, b'/', d, slash
        for i, c in enumerate(w):
            last = i + 1 == len(w)
            if d.fmt != S_IFDIR:
                raise Err('NOTDIR')
            if not self.may(d, 1):
                raise Err('ACCES')
            if len(c) > 255:
                raise Err('NAMETOOLONG')
            n = d if c == b'.' else d.parent if c == b'..' else d.kids.get(c)
            if n is None:
                if last:
                    return d, c, None, slash
                raise Err('NOENT')
            at, nm = d, c
            if n.fmt == S_IFLNK and (not last or follow or slash):
                at, nm, n, _ = self.walk(n.target, True, d, depth + 1)
                if n is None:
                    if last:
                        return at, nm, None, _
                    raise Err('NOENT')
            if last:
                if slash and n.fmt != S_IFDIR:
                    raise Err('NOTDIR')
                return at, nm, n, slash
            d = n

    def get(self, path, follow=True):
        n = self.walk(path, follow)[2]
        if n is None:
            raise Err('NOENT')
        return n

    def full(self, n):
        s = b''
        while n is not self.root:
            s = b'/' + n.name + s
            n = n.parent
        return s or b'/'

    def low(self, frm=0):
        while frm in self.fds:
            frm += 1
        return frm

    def fd(self, k):
        if k not in self.fds:
            raise Err('BADF')
        return self.fds[k]

    def new(self, path, n):
        d, name, old, slash = self.walk(path, False)
        if old is not None:
            raise Err('EXIST')
        if slash and n.fmt != S_IFDIR:
            raise Err('NOENT')
        if not self.may(d, 3):
            raise Err('ACCES')
        n.uid, n.gid = self.euid, self.egid
        return d, name

    # -- calls
    def open(self, path, flags, mode):
        if len(self.fds) >= self.maxfd:
            raise Err('MFILE')
        creat = flags & O_CREAT
        d, name, n, slash = self.walk(path, not (creat and flags & O_EXCL) and not flags & O_NOFOLLOW)
        if n is not None and creat and flags & O_EXCL:
            raise Err('EXIST')
        if n is None:
            if not creat:
                raise Err('NOENT')
            if slash:
                raise Err('ISDIR')
            if not self.may(d, 3):
                raise Err('ACCES')
            n = Node(S_IFREG, mode & ~self.umask & 0o7777, self.euid, self.egid)
            self.link(d, name, n)
        else:
            if n.fmt == S_IFLNK:
                raise Err('LOOP')
            if n.fmt == S_IFDIR and (flags & 3 or creat):
                raise Err('ISDIR')
            if flags & O_DIRECTORY and n.fmt != S_IFDIR:
                raise Err('NOTDIR')
            w = {0: 4, 1: 2, 2: 6, 3: 0}[flags & 3]
            if not self.may(n, w):
                raise Err('ACCES')
            if flags & O_TRUNC and n.fmt == S_IFREG:
                n.data = b''
        k = self.low()
        self.fds[k] = [Of(n, flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC)), 1 if flags & O_CLOEXEC else 0]
        return k

    def close(self, k):
        self.fd(k)
        del self.fds[k]
        return 0

    def write(self, k, data):
        f = self.fd(k)[0]
        if f.flags & 3 == 0:
            raise Err('BADF')
        n = f.node
        if n.fmt == S_IFREG and data:
            if f.flags & O_APPEND:
                f.pos = len(n.data)
            n.data = n.data[:f.pos].ljust(f.pos, b'\0') + data + n.data[f.pos + len(data):]
            f.pos += len(data)
        return len(data)

    def stat(self, n):
        size = len(n.data) if n.fmt == S_IFREG else len(n.target) if n.fmt == S_IFLNK else 4096 if n.fmt == S_IFDIR else 0
        return (n.fmt | n.mode, size, n.nlink, n.uid, n.gid)

    def access(self, path, m):
        if m & ~7:
            raise Err('INVAL')
        n = self.get(path)
        if m and not self.may(n, m):
            raise Err('ACCES')
        return 0

    def mkdir(self, path, mode):
        path = path[:1] + path[1:].rstrip(b'/')
        n = Node(S_IFDIR, mode & ~self.umask & 0o1777)
        d, name = self.new(path, n)
        self.link(d, name, n)
        return 0

    def mknod(self, path, mode, dev):
        fm = mode & S_IFMT
        n = Node(S_IFREG, mode & ~self.umask & 0o7777)
        d, name = self.new(path, n)
        if fm in (S_IFCHR, S_IFBLK):
            if self.euid:
                raise Err('PERM')
            n.fmt = S_IFCHR
        elif fm not in (0, S_IFREG, S_IFIFO):
            raise Err('PERM' if fm == S_IFDIR else 'INVAL')
        elif fm == S_IFIFO:
            n.fmt = S_IFIFO
        self.link(d, name, n)
        return 0

    def drop(self, d, name, n):
        del d.kids[name]
        if n.fmt == S_IFDIR:
            d.nlink -= 1
            n.nlink = 0
        else:
            n.nlink -= 1

    def rmdir(self, path):
        d, name, n, slash = self.walk(path, False)
        if n is None:
            raise Err('NOENT')
        if name == b'.':
            raise Err('INVAL')
        if name == b'..':
            raise Err('NOTEMPTY')
        if n.fmt != S_IFDIR:
            raise Err('NOTDIR')
        if n is self.root:
            raise Err('BUSY')
        if not self.may(d, 3):
            raise Err('ACCES')
        if n.kids:
            raise Err('NOTEMPTY')
        self.drop(d, name, n)
        return 0

    def unlink(self, path):
        d, name, n, slash = self.walk(path, False)
        if n is None:
            raise Err('NOENT')
        if n.fmt == S_IFDIR:
            raise Err('ISDIR')
        if not self.may(d, 3):
            raise Err('ACCES')
        self.drop(d, name, n)
        return 0

    def remove(self, path):
        n = self.get(path, False)
        return self.rmdir(path) if n.fmt == S_IFDIR else self.unlink(path)

    def hard(self, a, b):
        n = self.get(a, False)
        d, name, old, slash = self.walk(b, False)
        if old is not None:
            raise Err('EXIST')
        if n.fmt == S_IFDIR:
            raise Err('PERM')
        if slash:
            raise Err('NOENT')
        if not self.may(d, 3):
            raise Err('ACCES')
        d.kids[name] = n
        n.nlink += 1
        return 0

    def symlink(self, target, path):
        if not target:
            raise Err('NOENT')
        if len(target) >= 4096:
            raise Err('NAMETOOLONG')
        n = Node(S_IFLNK, 0o777)
        d, name = self.new(path, n)
        n.target = target
        self.link(d, name, n)
        return 0

    def readlink(self, path, size):
        if size <= 0:
            raise Err('INVAL')
        n = self.get(path, False)
        if n.fmt != S_IFLNK:
            raise Err('INVAL')
        return n.target[:size]

    def rename(self, a, b):
        da, na, n, sa = self.walk(a, False)
        if na in (b'.', b'..'):
            raise Err('BUSY')
        db, nb, o, sb = self.walk(b, False)
        if nb in (b'.', b'..'):
            raise Err('BUSY')
        if n is None:
            raise Err('NOENT')
        if n is self.root or o is self.root:
            raise Err('BUSY')
        if n.fmt != S_IFDIR and sb:
            raise Err('NOTDIR')
        if not self.may(da, 3) or not self.may(db, 3):
            raise Err('ACCES')
        if n.fmt == S_IFDIR:
            x = db
            while x is not self.root:
                if x is n:
                    raise Err('INVAL')
                x = x.parent
        if o is n:
            return 0
        if o is not None:
            if n.fmt == S_IFDIR and o.fmt != S_IFDIR:
                raise Err('NOTDIR')
            if n.fmt != S_IFDIR and o.fmt == S_IFDIR:
                raise Err('ISDIR')
            if o.kids:
                raise Err('NOTEMPTY')
            self.drop(db, nb, o)
        del da.kids[na]
        if n.fmt == S_IFDIR:
            da.nlink -= 1
        self.link(db, nb, n)
        return 0

    def chdir(self, path):
        n = self.get(path)
        if n.fmt != S_IFDIR:
            raise Err('NOTDIR')
        if not self.may(n, 1):
            raise Err('ACCES')
        self.cwd = n
        return 0

    def getcwd(self, size):
        p = self.full(self.cwd)
        if self.cwd is not self.root and self.cwd.nlink == 0:
            raise Err('NOENT')
        if size < len(p) + 1:
            raise Err('RANGE')
        return p

    def chmod(self, path, mode):
        n = self.get(path)
        if self.euid and self.euid != n.uid:
            raise Err('PERM')
        n.mode = mode & 0o7777
        return 0

    def dup(self, k):
        f = self.fd(k)
        if len(self.fds) >= self.maxfd:
            raise Err('MFILE')
        n = self.low()
        self.fds[n] = [f[0], 0]
        return n

    def dup2(self, k, n):
        if k not in self.fds or n < 0 or n >= 1048576:
            raise Err('BADF')
        if k != n:
            self.fds[n] = [self.fds[k][0], 0]
        return n

    def fcntl(self, k, c, arg):
        f = self.fd(k)
        if c in (0, 1030):
            if arg < 0 or arg >= self.maxfd:
                raise Err('INVAL')
            n = self.low(arg)
            self.fds[n] = [f[0], 1 if c else 0]
            return n
        if c == 1:
            return f[1]
        if c == 2:
            f[1] = arg & 1
            return 0
        if c == 3:
            return f[0].flags
        if c == 4:
            f[0].flags = f[0].flags & ~(O_APPEND | O_NONBLOCK) | arg & (O_APPEND | O_NONBLOCK)
            return 0
        raise Err('INVAL')

    def fsync(self, k):
        f = self.fd(k)[0]
        if f.node.fmt not in (S_IFREG, S_IFDIR, S_IFIFO):
            raise Err('INVAL')
        return 0

    def setid(self, which, n):
        u = getattr(self, which)
        if self.euid == 0:
            setattr(self, which, n)
        elif n != u:
            raise Err('PERM')
        setattr(self, 'e' + which, n)
        return 0

    def snapshot(self, d=None, path=b'', out=None):
        out = {} if out is None else out
        d = d or self.root
        for k in sorted(d.kids):
            n = d.kids[k]
            p = path + b'/' + k
            if n.fmt == S_IFDIR:
                out[p] = ('dir', n.mode, n.uid, n.gid)
                self.snapshot(n, p, out)
            elif n.fmt == S_IFLNK:
                out[p] = ('link', n.target)
            elif n.fmt == S_IFREG:
                out[p] = ('file', n.mode, n.uid, n.gid, n.nlink, n.data)
            else:
                out[p] = ('node', n.mode)
        return out
