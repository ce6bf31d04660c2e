#!/usr/bin/env python3
"""C07: one byte position per file, through the Mes C Library's descriptors and streams.

Random histories of calls run in the real library (both builds) under the
simulator; a small reference model follows the recorded history and says which
results the calls allow.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
from core import *
import oplib as O

EBADF, EINVAL, ESPIPE, ENOENT, ENOSPC, EMFILE = 9, 22, 29, 2, 28, 24
RERR = [5, 4, 11]
WERR = [5, 4, 28]
O_CREAT, O_TRUNC, O_APPEND, O_EXCL = 0o100, 0o1000, 0o2000, 0o200


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Any:
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 0

    def __str__(self):
        return 'any'


class NA(Exception):
    """The history left the modelled subset (only after shrinking or a blocked call)."""


class Node:
    def __init__(self, kind, data=b''):
        self.kind, self.data = kind, bytearray(data)    # reg | null | full | sink | in (stream) | pipe
        self.segs = []                                  # sink: delivered segments
        self.opens = []
        self.used = False
        self.chunks = None


class OF:
    def __init__(self, node, acc, append=False):
        self.node, self.acc, self.append, self.pos, self.refs = node, acc, append, 0, 0
        self.stale = False
        self.fuzzy = None
        self.peek = None
        self.readers = set()
        self.eofs = 0


class Model:
    def __init__(self, case):
        self.case = case
        self.nodes = {}
        for k, v in case['files'].items():
            self.nodes['/work/' + k] = Node('reg', bytes.fromhex(v))
        self.nodes['/dev/null'] = Node('null')
        self.nodes['/dev/full'] = Node('full')
        self.nodes['/dev/out'] = Node('sink')
        self.nodes['/dev/err'] = Node('sink')
        for k, v in case.get('streams', {}).items():
            n = Node('in', b''.join(bytes.fromhex(c[2]) for c in v[1]))
            n.tty = v[0] == 'tty'
            n.chunks = [(c[0], bytes.fromhex(c[2])) for c in v[1]]
            self.nodes['/work/' + k] = n
        self.fd = {}
        self.push = {}
        self.peeked = set()     # feof holds the next byte of these
        self.slot = {}
        self.used = {'read': 0, 'write': 0}
        rules = ' '.join(case.get('rules') or []) + ' '.join(x.split(' ', 1)[1] for x in (case.get('dec') or []))
        self.rerr, self.werr, self.cerr = 'read_err' in rules, 'write_err' in rules, 'close_err' in rules
        self.install(OF(self.nodes[case.get('in', '/dev/null')], 0), 0)
        self.install(OF(self.nodes['/dev/out'], 1), 1)
        self.install(OF(self.nodes['/dev/err'], 1), 2)

    def install(self, of, fd=None):
        if fd is None:
            fd = 0
            while fd in self.fd:
                fd += 1
        self.fd[fd] = of
        self.push.pop(fd, None)
        of.refs += 1
        if of not in of.node.opens:
            of.node.opens.append(of)
        return fd

    def drop(self, fd):
        of = self.fd.pop(fd)
        self.push.pop(fd, None)
        self.peeked.discard(fd)
        if of.peek == fd:
            of.peek = -2                # the byte that feof took is gone
        of.refs -= 1
        if of.refs == 0 and of in of.node.opens:
            of.node.opens.remove(of)

    def num(self, t):
        if t[0] == '$':
            return self.slot.get(int(t[1:]), 0)
        return int(t)

    def s(self, t):
        if t[0] == 'x':
            return bytes.fromhex(t[1:])
        if t[0] == 'p':
            a, b = t[1:].split(':')
            return O.pat(int(a), int(b))
        return t.encode()

    def path(self, t):
        p = self.s(t).decode()
        return p if p[0] == '/' else '/work/' + p

    # -- reading -----------------------------------------------------------
    def readable(self, fd):
        of = self.fd.get(fd)
        if of is None or of.acc == 1:
            return None
        if of.stale:
            raise NA('stale')
        if of.fuzzy is not None:
            raise NA('fuzzy')
        for x in self.push:
            if x != fd and self.fd.get(x) is of:
                raise NA('pushed back on the other descriptor')
        if of.peek is not None and of.peek != fd:
            raise NA('feof on the other descriptor')
        of.peek = None
        if of.node.kind in ('full',):
            raise NA('full')
        return of

    def eofnow(self, of):
        """True when the next byte is the end (False: would block)."""
        n = of.node
        if n.kind == 'pipe':
            return not any(o.acc != 0 for o in n.opens)
        return True

    def take(self, of, fd, k):
        n = of.node
        of.readers.add(fd)
        d = bytes(n.data[of.pos:of.pos + k])
        of.pos += len(d)
        return d

    def sig(self, of, s):
        if of is not None and of.node.kind in ('in', 'pipe') and len(of.readers) > 1:
            return 'dup-stream-readahead'
        return s

    def err(self, kind, errno, what):
        """A result that only an injected error explains."""
        vals = RERR if kind == 'read' else WERR
        ok = self.rerr if kind == 'read' else self.werr
        if not ok or not any(errno == v for v in vals):
            raise Bad(what, '%s failed with errno %s and no such failure happened' % (what, errno))
        self.used[kind] += 1

    # -- writing -----------------------------------------------------------
    def settle(self, of, exactly):
        pass

    def put(self, of, data):
        n = of.node
        if of.fuzzy is not None:
            raise NA('fuzzy')
        if n.kind == 'reg':
            if data:
                # (a write that fails or is empty leaves even the position of an appending descriptor)
                if of.append:
                    of.pos = len(n.data)
                if of.pos > len(n.data):
                    n.data.extend(b'\0' * (of.pos - len(n.data)))
                n.data[of.pos:of.pos + len(data)] = data
                of.pos += len(data)
                for o in n.opens:
                    if o is not of and o.readers:
                        o.stale = True
        elif n.kind == 'sink':
            n.segs.append(('exact', bytes(data)))
        elif n.kind == 'pipe':
            n.data.extend(data)

    def putprefix(self, of, data):
        """A failed formatted write: some proper prefix arrived."""
        n = of.node
        if n.kind == 'sink':
            n.segs.append(('prefix', bytes(data)))
        elif n.kind == 'reg':
            if of.fuzzy is not None:
                raise NA('fuzzy')
            of.fuzzy = bytes(data)
        elif n.kind not in ('null', 'full'):
            raise NA('prefix to a pipe')

    def writable(self, fd, op):
        of = self.fd.get(fd)
        if of is None or of.acc == 0:
            return None
        if of.node.kind == 'in':
            raise NA('write to stream')
        if of.stale:
            raise NA('stale')
        if of.peek is not None and of.peek != fd:
            raise NA('feof on the other descriptor')
        if of.pos > 1 << 20 and not of.append:
            raise NA('beyond the largest file')
        if of.node.kind == 'pipe' and not any(o.acc != 1 for o in of.node.opens):
            raise NA('SIGPIPE')
        if fd in self.push:
            # a write after a pushed-back character: the position is one back
            of.pos -= 1
            del self.push[fd]
            if of.pos < 0:
                raise NA('before start')
        return of

    def formatted(self, op, fd, data, r, e):
        of = self.writable(fd, op)
        if of is None:
            if r >= 0 and data:
                raise Bad(op, '%s on a descriptor not open for writing returned %d' % (op, r))
            return
        if of.node.kind == 'full' and data:
            if r >= 0:
                raise Bad(op, '%s to a full device returned %d' % (op, r))
            return
        if r < 0:
            self.err('write', e, op)
            self.putprefix(of, data)
        else:
            self.put(of, data)

    # -- one call ----------------------------------------------------------
    def expectfd(self, r, what):
        want = 0
        while want in self.fd:
            want += 1
        if r != want:
            raise Bad(what, '%s returned descriptor %d, lowest free is %d' % (what, r, want))

    def step(self, op, res):
        w = op.split(' ')
        into = None
        if ('printf' in op or 'fmtf' in op) and self.case['var'] == 'gcc':
            raise NA('variadic call in the gcc build')
        if w[0][0] == '=':
            into = int(w[0][1:])
            w = w[1:]
        f = res.split(',')
        r = int(f[0])
        e = int(f[1]) if r < 0 and len(f) > 1 else 0
        if self.case.get('env', {}).get('MES_DEBUG'):
            e = Any()
        getattr(self, 'do_' + w[0])(w, r, e, f)
        if w[0] in ('fgetc', 'getc', 'fgets', 'fread', 'read', 'close', 'fclose', 'dup2', 'freopen') and len(w) > 1:
            for x in {'dup2': w[2:3], 'freopen': w[3:4]}.get(w[0], w[1:2]):
                if x[0] in '$0123456789':
                    self.peeked.discard(self.num(x))
        if into is not None:
            self.slot[into] = r

    def do_open(self, w, r, e, f):
        p, fl = self.path(w[1]), int(w[2])
        n = self.nodes.get(p)
        if n is None and not fl & O_CREAT:
            if r != -1 or e != ENOENT:
                raise Bad('open', 'open of a missing file returned %d errno %s' % (r, e))
            return
        if n is not None and (fl & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL):
            if r != -1 or e != 17:
                raise Bad('open', 'exclusive open of an existing file returned %d errno %s' % (r, e))
            return
        self.expectfd(r, 'open')
        if n is None:
            n = self.nodes[p] = Node('reg')
        elif fl & O_TRUNC and n.kind == 'reg':
            if n.data:
                del n.data[:]
                for o in n.opens:
                    o.stale = True
        if n.kind == 'in':
            if n.opens or n.used:
                raise NA('stream opened twice')
            n.used = True
        self.install(OF(n, fl & 3, bool(fl & O_APPEND)))

    MODES = {'r': 0, 'r+': 2, 'w': 1 | O_CREAT | O_TRUNC, 'w+': 2 | O_CREAT | O_TRUNC, 'a': 1 | O_CREAT | O_APPEND, 'a+': 2 | O_CREAT | O_APPEND}

    def do_fopen(self, w, r, e, f, what='fopen'):
        p, fl = self.path(w[1]), self.MODES[w[2].replace('b', '')]
        n = self.nodes.get(p)
        if 0 not in self.fd:
            raise NA('fopen of stdin')
        if n is None and not fl & O_CREAT:
            if r != -1:
                raise Bad(what, '%s %s of a missing file succeeded' % (what, w[2]))
            return
        self.expectfd(r, what)
        if n is None:
            n = self.nodes[p] = Node('reg')
        elif fl & O_TRUNC and n.kind == 'reg' and n.data:
            del n.data[:]
            for o in n.opens:
                o.stale = True
        if n.kind == 'in':
            if n.opens or n.used:
                raise NA('stream opened twice')
            n.used = True
        self.install(OF(n, fl & 3, bool(fl & O_APPEND)))

    def do_freopen(self, w, r, e, f):
        fd = self.num(w[3])
        if fd not in self.fd or fd == 0:
            raise NA('freopen of a closed stream')
        self.drop(fd)
        low = min(x for x in range(600) if x not in self.fd)
        if low == 0:
            raise NA('fopen of stdin')
        if r != -1 and r != fd:
            raise Bad('freopen', 'freopen of stream %d returned stream %d' % (fd, r))
        if r == -1:
            return self.do_fopen([0, w[1], w[2]], r, e, f, 'freopen')
        keep = self.expectfd
        self.expectfd = lambda r, what: None
        k = len(self.fd)
        self.do_fopen([0, w[1], w[2]], r, e, f, 'freopen')
        self.expectfd = keep
        got = low
        if got != fd:
            self.fd[fd] = self.fd.pop(got)

    def do_fdopen(self, w, r, e, f):
        if r != self.num(w[1]):
            raise Bad('fdopen', 'fdopen returned %d' % r)

    def do_fileno(self, w, r, e, f):
        if r != self.num(w[1]):
            raise Bad('fileno', 'fileno returned %d' % r)

    def do_close(self, w, r, e, f):
        fd = self.num(w[1])
        if fd not in self.fd:
            if r != -1 or e != EBADF:
                raise Bad('close', '%s of descriptor %d, not open, returned %d errno %s' % (w[0], fd, r, e))
            return
        of = self.fd[fd]
        if of.fuzzy is not None:
            raise NA('fuzzy')
        self.drop(fd)
        if r == -1 and self.cerr and e in (5, 4):
            return
        if r != 0:
            raise Bad('close', '%s returned %d errno %s' % (w[0], r, e))
    do_fclose = do_close

    def do_read(self, w, r, e, f):
        fd, k = self.num(w[1]), int(w[2])
        of = self.readable(fd)
        if of is None:
            if r != -1 or e != EBADF:
                raise Bad('read', 'read from an unreadable descriptor returned %d errno %s' % (r, e))
            return
        if fd in self.push or fd in self.peeked:
            raise NA('read with pushback')
        if r == -1:
            of.readers.add(fd)
            return self.err('read', e, 'read')
        d = bytes.fromhex(f[1]) if len(f) > 1 else b''
        avail = len(of.node.data) - of.pos
        want = bytes(of.node.data[max(0, of.pos):of.pos + r]) if avail > 0 else b''
        of.readers.add(fd)
        if r > k or len(d) != r or d != want:
            raise Bad(self.sig(of, 'read'), 'read of %d at %d returned %d bytes %r, the file holds %r' % (k, of.pos, r, d, bytes(of.node.data[of.pos:of.pos + k])))
        if r == 0 and avail > 0:
            raise Bad(self.sig(of, 'read'), 'read at %d of %d returned end of file' % (of.pos, len(of.node.data)))
        if r == 0 and not self.eofnow(of):
            raise Bad(self.sig(of, 'read'), 'read returned end of file on a pipe with writers')
        if r < min(k, avail) and of.node.kind == 'reg' and not self.case.get('shorts') and not self.rerr:
            raise Bad('read', 'read of %d returned only %d' % (k, r))
        of.pos += r

    def getone(self, name, fd, r, e):
        of = self.readable(fd)
        if of is None and fd not in self.push:
            if r != -1:
                raise Bad(name, '%s of an unreadable stream returned %d' % (name, r))
            return
        if fd in self.push:
            c = self.push.pop(fd)
            if r != c:
                raise Bad(name, '%s returned %d, %d was pushed back' % (name, r, c))
            return
        avail = len(of.node.data) - of.pos
        of.readers.add(fd)
        if r == -1:
            if avail > 0 or e != 0:
                return self.err('read', e, self.sig(of, name))
            if not self.eofnow(of):
                raise Bad(self.sig(of, name), '%s returned end of file on a pipe with writers' % name)
            return
        if avail <= 0 or r != of.node.data[of.pos]:
            raise Bad(self.sig(of, name), '%s at %d returned %d, the file holds %r' % (name, of.pos, r, bytes(of.node.data[of.pos:of.pos + 8])))
        of.pos += 1

    def do_fgetc(self, w, r, e, f):
        self.getone(w[0], self.num(w[1]), r, e)
    do_getc = do_fgetc

    def do_getchar(self, w, r, e, f):
        self.getone('getchar', 0, r, e)

    def do_ungetc(self, w, r, e, f):
        fd, c = self.num(w[1]), int(w[2])
        if fd in self.push or fd not in self.fd or self.fd[fd].acc == 1:
            raise NA('second pushback')
        if r != c:
            raise Bad('ungetc', 'ungetc returned %d' % r)
        self.push[fd] = c

    def partial(self, name, fd, exp, got, errno, blockable):
        """GOT must be EXP, or with an injected error a prefix of it."""
        of = self.fd.get(fd)
        if got == exp:
            return
        if exp.startswith(got) and self.rerr:
            self.used['read'] += 1
            return
        raise Bad(self.sig(of, name), '%s at %d returned %r, expected %r' % (name, of.pos if of else -1, got, exp))

    def do_fgets(self, w, r, e, f):
        fd, n = self.num(w[1]), int(w[2])
        of = self.readable(fd)
        if of is None:
            if r != -1:
                raise Bad('fgets', 'fgets of an unreadable stream returned data')
            return
        exp = b''
        pos = of.pos
        pb = self.push.get(fd)
        if n > 1 and pb is not None:
            exp = bytes([pb])
        while len(exp) < n - 1 and not exp.endswith(b'\n') and pos < len(of.node.data):
            exp += of.node.data[pos:pos + 1]
            pos += 1
        if b'\0' in exp:
            raise NA('NUL')
        got = bytes.fromhex(f[1]) if r > 0 else b''
        if n < 2:
            raise NA('fgets of nothing')
        if len(exp) < n - 1 and not exp.endswith(b'\n') and not self.eofnow(of) and got == exp:
            if not self.rerr:
                raise Bad(self.sig(of, 'fgets'), 'fgets returned before a line was complete')
            self.used['read'] += 1
        if r < 0 and int(f[1]) != 0:
            self.err('read', int(f[1]), 'fgets')
        else:
            self.partial('fgets', fd, exp, got, 0, False)
        of.readers.add(fd)
        if got and pb is not None:
            del self.push[fd]
            of.pos += len(got) - 1
        else:
            of.pos += len(got)

    def do_fread(self, w, r, e, f):
        fd, size, cnt = self.num(w[1]), int(w[2]), int(w[3])
        of = self.readable(fd)
        if of is None:
            if r != 0:
                raise Bad('fread', 'fread of an unreadable stream returned %d' % r)
            return
        pb = self.push.get(fd)
        exp = (bytes([pb]) if pb is not None else b'') + bytes(of.node.data[max(0, of.pos):])
        exp = exp[:size * cnt]
        got = bytes.fromhex(f[1]) if r > 0 else b''
        whole = len(exp) // size
        if r == whole:
            if got != exp[:whole * size]:
                self.partial('fread', fd, exp[:whole * size], got, 0, False)
            used = len(exp)
            if self.rerr and len(exp) != whole * size:
                raise NA('partial item')
        else:
            self.partial('fread', fd, exp, got, 0, False)
            if size > 1:
                raise NA('partial item')
            used = len(got)
        if used < size * cnt and of.node.kind == 'pipe' and not self.eofnow(of) and not self.rerr:
            raise Bad(self.sig(of, 'fread'), 'fread returned %d before the end of a pipe that has writers' % r)
        of.readers.add(fd)
        if used and pb is not None:
            del self.push[fd]
            used -= 1
        of.pos += used

    def do_write(self, w, r, e, f):
        fd, d = self.num(w[1]), self.s(w[2])
        of = self.writable(fd, 'write')
        if of is None:
            if r != -1 or e != EBADF:
                raise Bad('write', 'write to an unwritable descriptor returned %d errno %s' % (r, e))
            return
        if of.node.kind == 'full' and d:
            if r != -1 or e != ENOSPC:
                raise Bad('write', 'write to a full device returned %d errno %s' % (r, e))
            return
        if r == -1:
            return self.err('write', e, 'write')
        if r > len(d) or (r == 0 and d) or (r < len(d) and not self.case.get('shorts')):
            raise Bad('write', 'write of %d returned %d' % (len(d), r))
        self.put(of, d[:r])

    def do_fwrite(self, w, r, e, f):
        fd, size, cnt, d = self.num(w[1]), int(w[2]), int(w[3]), self.s(w[4])
        d = d[:size * cnt]
        of = self.writable(fd, 'fwrite')
        if of is None or (of.node.kind == 'full' and d):
            if r != 0:
                raise Bad('fwrite', 'fwrite that cannot write returned %d' % r)
            return
        if r == cnt:
            return self.put(of, d)
        if not self.werr or r < 0 or r > cnt:
            raise Bad('fwrite', 'fwrite of %d items returned %d without an error' % (cnt, r))
        self.used['write'] += 1
        self.put(of, d[:r * size])
        if size > 1:
            self.putprefix(of, d[r * size:(r + 1) * size])       # what arrived of the next item

    def do_fputs(self, w, r, e, f):
        self.formatted('fputs', self.num(w[1]), self.s(w[2]), r, e)

    def do_puts(self, w, r, e, f):
        self.formatted('puts', 1, self.s(w[1]) + b'\n', r, e)

    def do_fputc(self, w, r, e, f):
        self.formatted(w[0], self.num(w[1]), bytes([int(w[2])]), r, e)
    do_putc = do_fdputc = do_fputc

    def do_fdputs(self, w, r, e, f):
        self.formatted('fdputs', self.num(w[1]), self.s(w[2]), r, e)

    def do_oputs(self, w, r, e, f):
        self.formatted('oputs', 1, self.s(w[1]), r, e)

    def do_oputc(self, w, r, e, f):
        self.formatted('oputc', 1, bytes([int(w[1])]), r, e)

    def do_fmtf(self, w, r, e, f):
        n, a = int(w[3]), self.s(w[4])
        d = b'%d' % n
        self.formatted('fprintf', self.num(w[1]), {
            0: b'%c|%s' % (n & 127, a), 1: b'%x %X %o %d' % (n, n, n, n), 2: b'[%5d][%-5d][%05d]' % (n, n, n), 3: b'[%10s][%-10s]%%' % (a, a),
            4: a[:3] + b'%' + a, 5: b'%7d%s' % (n, a), 6: d + a + d + b'%', 7: b''}.get(int(w[2]), d), r, e)

    def do_putchar(self, w, r, e, f):
        self.formatted('putchar', 1, bytes([int(w[1])]), r, e)

    def do_fprintf(self, w, r, e, f):
        self.formatted('fprintf', self.num(w[1]), b'<%d:%s>' % (int(w[3]), self.s(w[2])), r, e)

    def do_printf(self, w, r, e, f):
        self.formatted('printf', 1, b'<%d:%s>' % (int(w[2]), self.s(w[1])), r, e)

    def resolve(self, of, r):
        """A position reported after a failed formatted write tells how much arrived."""
        d, of.fuzzy = of.fuzzy, None
        start = len(of.node.data) if of.append else of.pos
        if not start <= r < start + len(d) and not (r == of.pos):
            raise Bad('lseek', 'position %d after a failed write of %d bytes at %d' % (r, len(d), start))
        if of.append and of.pos > start and r == of.pos:
            raise NA('nothing or something arrived')
        if r > start:
            self.put(of, d[:r - start])

    def seek(self, name, fd, off, wh, r, e, ret):
        of = self.fd.get(fd)
        if of is None:
            if r != -1 or e != EBADF:
                raise Bad(name, '%s on a closed descriptor returned %d errno %s' % (name, r, e))
            return
        if of.node.kind in ('pipe', 'in'):
            if r != -1 or e != ESPIPE:
                raise Bad(name, '%s on a pipe returned %d errno %s' % (name, r, e))
            return
        if of.node.kind != 'reg':
            raise NA('seek on a device')
        if of.fuzzy is not None:
            if (off, wh) != (0, 1) or r < 0:
                raise NA('fuzzy')
            return self.resolve(of, r)
        if of.peek is not None and of.peek != fd:
            raise NA('feof on the other descriptor')
        cur = of.pos - (1 if fd in self.push else 0)
        if cur < 0 and wh == 1:
            raise NA('before start')
        base = {0: 0, 1: cur, 2: len(of.node.data)}.get(wh)
        if base is None or base + off < 0:
            if r != -1 or e != EINVAL:
                raise Bad(name, '%s to %d (%d) returned %d errno %s' % (name, off, wh, r, e))
            return
        want = base + off
        if r != (want if ret else 0):
            raise Bad(name, '%s %d %d at %d of %d returned %d errno %s, expected %d' % (name, off, wh, cur, len(of.node.data), r, e, want if ret else 0))
        of.pos = want
        of.stale = False
        of.peek = None
        self.peeked.discard(fd)
        self.push.pop(fd, None)

    def do_lseek(self, w, r, e, f):
        self.seek('lseek', self.num(w[1]), int(w[2]), int(w[3]), r, e, True)

    def do_fseek(self, w, r, e, f):
        fd = self.num(w[1])
        if fd in self.fd and self.fd[fd].fuzzy is not None:
            raise NA('fuzzy')
        self.seek('fseek', fd, int(w[2]), int(w[3]), r, e, False)

    def do_ftell(self, w, r, e, f):
        fd = self.num(w[1])
        of = self.fd.get(fd)
        if of and of.node.kind == 'reg' and of.fuzzy is None:
            cur = of.pos - (1 if fd in self.push else 0)
            if cur < 0:
                raise NA('before start')
            if of.peek is not None and of.peek != fd:
                raise NA('feof on the other descriptor')
            if r != cur:
                raise Bad('ftell', 'ftell returned %d at %d' % (r, cur))
            return
        self.seek('ftell', fd, 0, 1, r, e, True)

    def do_feof(self, w, r, e, f):
        fd = self.num(w[1])
        of = self.readable(fd)
        if of is None:
            raise NA('feof of an output stream')
        of.readers.add(fd)
        if of.refs > 1:
            of.peek = fd
        more = fd in self.push or of.pos < len(of.node.data)
        if r not in (0, 1):
            raise Bad('feof', 'feof returned %d' % r)
        if r == 1 and more:
            if fd in self.push or not self.rerr:
                raise Bad(self.sig(of, 'feof'), 'feof is true at %d of %d' % (of.pos, len(of.node.data)))
            self.used['read'] += 1
        if r == 0:
            self.peeked.add(fd)
        if r == 0 and not more:
            raise Bad(self.sig(of, 'feof'), 'feof is false at the end')

    def do_clearerr(self, w, r, e, f):
        pass

    def do_fflush(self, w, r, e, f):
        of = self.fd.get(self.num(w[1]))
        if of is None:
            return
        if r != 0:
            raise Bad('fflush', 'fflush returned %d errno %s' % (r, e))

    def do_dup(self, w, r, e, f):
        fd = self.num(w[1])
        of = self.fd.get(fd)
        if of is None:
            if r != -1 or e != EBADF:
                raise Bad('dup', 'dup of a closed descriptor returned %d errno %s' % (r, e))
            return
        self.expectfd(r, 'dup')
        self.dupsync(fd)
        self.install(of)

    def dupsync(self, fd):
        of = self.fd[fd]
        if fd in self.push:
            raise NA('dup with pushback')
        if of.fuzzy is not None:
            raise NA('fuzzy')

    def do_dup2(self, w, r, e, f):
        a, b = self.num(w[1]), self.num(w[2])
        if a not in self.fd or b < 0:
            if r != -1 or e != EBADF:
                raise Bad('dup2', 'dup2 of a closed or to an invalid descriptor returned %d errno %s' % (r, e))
            return
        if r != b:
            raise Bad('dup2', 'dup2 returned %d errno %s' % (r, e))
        if a == b:
            return
        self.dupsync(a)
        of = self.fd[a]
        if b in self.fd:
            if self.fd[b].fuzzy is not None:
                raise NA('fuzzy')
            self.drop(b)
        self.install(of, b)

    def do_pipe(self, w, r, e, f):
        if r != 0:
            raise Bad('pipe', 'pipe returned %d' % r)
        n = Node('pipe')
        a = self.install(OF(n, 0))
        b = self.install(OF(n, 1))
        self.slot[int(w[1])], self.slot[int(w[2])] = a, b

    # -- a call that never returned -----------------------------------------
    def blocked(self, op, outn):
        w = [x for x in op.split(' ') if x[0] != '=']
        name = w[0]
        if name not in ('read', 'fgetc', 'getc', 'getchar', 'fgets', 'fread', 'feof'):
            raise Bad('blocked-' + name, '%s never returned' % name)
        fd = 0 if name == 'getchar' else self.num(w[1])
        of = self.readable(fd)
        if of is None:
            raise Bad('blocked-' + name, '%s on an unreadable descriptor never returned' % name)
        have = of.node.data[of.pos:]
        if of.node.chunks:                # bytes whose release condition is met
            tot, n = 0, 0
            for wait, d in of.node.chunks:
                if wait > outn:
                    break
                tot += len(d)
            have = of.node.data[of.pos:tot]
        pb = 1 if fd in self.push else 0
        need = {'read': 1, 'fgetc': 1, 'getc': 1, 'getchar': 1, 'feof': 1}.get(name)
        if name == 'fread':
            need = int(w[2]) * int(w[3])
        if name == 'fgets':
            k = int(w[2]) - 1 - pb
            need = (have.index(b'\n') + 1 if b'\n' in have[:k] else k) + pb
        if len(have) + pb >= need:
            raise Bad(self.sig(of, 'overwait'), '%s waits although %d bytes are there' % (op, len(have)))
        raise NA('blocked')

    def finish(self, r):
        for p, n in self.nodes.items():
            if n.kind == 'reg':
                if any(o.fuzzy is not None for o in n.opens):
                    continue
                got = r.files.get(p)
                if got is None and p[6:] in self.case['files']:
                    got = bytes.fromhex(self.case['files'][p[6:]])     # never written
                if got != bytes(n.data):
                    got = got or b''
                    k = next((i for i, (x, y) in enumerate(zip(got, n.data)) if x != y), min(len(got), len(n.data)))
                    raise Bad('content', 'file %s differs at %d: %r, expected %r (lengths %d %d)' % (p, k, got[k:k + 20], bytes(n.data[k:k + 20]), len(got), len(n.data)))
            elif p == '/dev/out':
                got = r.out(p)
                poss = {0}
                for kind, d in n.segs:
                    nxt = set()
                    for a in poss:
                        if kind == 'exact':
                            if got.startswith(d, a):
                                nxt.add(a + len(d))
                        else:
                            for k in range(len(d)):
                                if got.startswith(d[:k], a):
                                    nxt.add(a + k)
                    poss = nxt
                if len(got) not in poss:
                    raise Bad('output', 'standard output %r, expected %r' % (got[:300], n.segs[:20]))
        for k, rule in (('read', 'read_err'), ('write', 'write_err')):
            if self.used[k] > r.fired.get(rule, 0):
                raise Bad(k + '-errors', '%d %s failures reported, %d happened' % (self.used[k], k, r.fired.get(rule, 0)))


class Gen:
    """Builds a history that stays inside the modelled subset when nothing fails."""

    def __init__(self, rng, case):
        self.r, self.case = rng, case
        self.ops = []
        self.slots = {}       # slot -> [path, acc, kind]
        self.n = 0
        self.pend = set()     # slots with a pushed back character
        self.av = {}          # pipe slot pair -> bytes available
        self.seekonly = set()

    def data(self, n):
        r = self.r
        out = bytearray()
        while len(out) < n:
            out += O.pat(r.randrange(90), r.choice([1, 3, 9, 40, 99, 130]))
            if r.random() < 0.7:
                out += b'\n'
        return bytes(out[:n])

    def add(self, op):
        self.ops.append(op)

    def new(self):
        self.n += 1
        return self.n

    def tofile(self, t):
        return O.hexs(t)

    def anyslot(self, f):
        c = [s for s, v in self.slots.items() if f(v)]
        return self.r.choice(c) if c else None

    def size(self):
        return self.r.choice([1, 1, 2, 3, 5, 8, 13, 50, 98, 99, 100, 101, 102, 126, 127, 128, 129, 130, 200, 256, 300])

    def openone(self):
        r = self.r
        busy = set(v['path'] for v in self.slots.values() if v['wr'])
        inuse = set(v['path'] for v in self.slots.values())
        names = [n for n in self.case['files'] if n not in busy]
        s = self.new()
        k = r.random()
        if k < 0.12:
            self.add('pipe %d %d' % (s, s + 50))
            g = {'n': 0, 'w': 1}
            self.slots[s] = dict(path=None, rd=True, wr=False, kind='pipe', g=g)
            self.slots[s + 50] = dict(path=None, rd=False, wr=True, kind='pipe', g=g)
            return
        if k < 0.16:
            self.add('=%d open %s %d 0' % (s, O.hexs(r.choice(['/dev/full', '/work/missing', '/dev/null'])), r.choice([0, 1])))
            self.slots[s] = dict(path=None, rd=False, wr=False, kind='odd', g=None)
            return
        if not names:
            return
        n = r.choice(names)
        if r.random() < 0.3:
            n = 'new%d' % r.randrange(3)
            if n in busy:
                return
        st = self.case.get('streams', {})
        if st and r.random() < 0.4:
            n = r.choice(sorted(st))
            if n in inuse:
                return
            self.add(r.choice(['=%d open %s 0 0', '=%d fopen %s r']) % (s, O.hexs('/work/' + n)))
            self.slots[s] = dict(path=n, rd=True, wr=False, kind='stream', g=None)
            return
        wr = n not in inuse and r.random() < 0.6
        if not wr:
            self.add(r.choice(['=%d open %s 0 0', '=%d fopen %s r', '=%d fopen %s rb']) % (s, O.hexs(n)))
            self.slots[s] = dict(path=n, rd=True, wr=False, kind='reg', g=None)
        else:
            if r.random() < 0.5:
                m = r.choice(['r+', 'r+', 'w', 'w+', 'a', 'a+', 'r+b', 'wb', 'w+b', 'rb+', 'ab', 'a+b'])
                self.add('=%d fopen %s %s' % (s, O.hexs(n), m))
                rd = '+' in m
            else:
                fl = r.choice([1, 2, 2, 2]) | r.choice([0, O_CREAT, O_CREAT | O_TRUNC, O_CREAT | O_APPEND, O_APPEND, O_CREAT | O_EXCL])
                self.add('=%d open %s %d 420' % (s, O.hexs(n), fl))
                rd = (fl & 3) == 2
            self.slots[s] = dict(path=n, rd=rd, wr=True, kind='reg', g=None)

    def stdio_ok(self, v):
        return True

    def one(self):
        r = self.r
        if self.pend:
            s = r.choice(sorted(self.pend))
            v = self.slots[s]
            self.pend.discard(s)
            k = r.random()
            if k < 0.35:
                return self.add('fgetc $%d' % s)
            if k < 0.5 and v['kind'] == 'reg':
                return self.add('fgets $%d %d' % (s, r.choice([2, 5, 100, 200])))
            if k < 0.65:
                self.take(v, r.choice([1, 2, 5, 100]), lambda k: self.add('fread $%d 1 %d' % (s, k)), extra=1)
                return
            if k < 0.75 and v['kind'] == 'reg':
                self.pend.add(s)
                return self.add('ftell $%d' % s)
            if k < 0.9 and v['kind'] == 'reg':
                return self.add('%s $%d %d %d' % (r.choice(['lseek', 'fseek']), s, r.randrange(0, 30), r.choice([0, 1, 1])))
            if k < 0.95 and v['kind'] == 'reg' and v['wr']:
                self.add('write $%d %s' % (s, O.hexs(self.data(self.size()))))
                return
            return self.add('fgetc $%d' % s)
        k = r.random()
        if not self.slots or (k < 0.13 and len(self.slots) < 12):
            return self.openone()
        if k < 0.17:
            s = self.anyslot(lambda v: True)
            v = self.slots.pop(s)
            if v['g'] and v['wr']:
                v['g']['w'] -= 1
            if v['g'] and v['rd'] and not any(x['g'] is v['g'] and x['rd'] for x in self.slots.values()):
                for t in [t for t, x in self.slots.items() if x['g'] is v['g']]:
                    self.slots.pop(t)
                    self.add('close $%d' % t)
            self.add('%s $%d' % (r.choice(['close', 'fclose']), s))
            if r.random() < 0.15:
                self.add(r.choice(['close $%d', 'fclose $%d', 'read $%d 5', 'write $%d x41', 'lseek $%d 0 1', 'fgetc $%d']) % s)
            return
        if k < 0.22:
            s = self.anyslot(lambda v: v['kind'] in ('reg', 'pipe'))
            if s is None:
                return
            v = self.slots[s]
            if v['kind'] == 'pipe' and v['rd']:
                return
            t = self.new()
            j = r.random()
            if j < 0.5:
                self.add('=%d dup $%d' % (t, s) if j < 0.35 else '=%d dup2 $%d %d' % (t, s, r.choice([40, 127, 128, 255, 256, 300, 510, 511])))
                self.slots[t] = dict(v)
                if v['g'] and v['wr']:
                    v['g']['w'] += 1
            else:
                u = self.anyslot(lambda x: x['kind'] == 'reg')
                if u is None or u == s:
                    return
                self.add('=%d dup2 $%d $%d' % (u, s, u))
                self.slots[u] = dict(v)
                if v['g'] and v['wr']:
                    v['g']['w'] += 1
            return
        if k < 0.25:
            if r.random() < 0.15:
                return self.add('oputs %s' % O.hexs(self.data(r.choice([1, 20, 300]))) if r.random() < 0.7 else 'oputc %d' % r.randrange(1, 256))
            if self.case['var'] == 'gcc':
                return self.add('puts %s' % O.hexs(self.data(r.choice([1, 20]))) if r.random() < 0.7 else 'putchar %d' % r.randrange(33, 90))
            return self.add(r.choice(['printf %s 7', 'puts %s']) % O.hexs(self.data(r.choice([1, 20]))) if r.random() < 0.7 else 'putchar %d' % r.randrange(33, 90))
        if k < 0.27:
            s = self.anyslot(lambda v: v['kind'] != 'odd')
            return self.add('fflush $%d' % s) if s is not None else None
        if k < 0.30:
            if self.case.get('in'):
                return self.add('getchar')
            return self.add(r.choice(['close -1', 'read -1 4', 'write -1 x41', 'lseek -1 0 0', 'close 700', 'read 600 3', 'dup -1', 'dup2 99 1', 'fgetc -1', 'close 512', 'read 511 2']))
        if k < 0.33:
            s = self.anyslot(lambda v: v['kind'] == 'reg')
            if s is None:
                return
            busy = set(v['path'] for v in self.slots.values())
            names = [n for n in self.case['files'] if n not in busy]
            if not names or any(x is not self.slots[s] and x['path'] == self.slots[s]['path'] for x in self.slots.values()):
                return
            n = r.choice(names)
            m = r.choice(['r', 'w', 'a', 'r+', 'w+'])
            self.add('=%d freopen %s %s $%d' % (s, O.hexs(n), m, s))
            self.slots[s] = dict(path=n, rd=m in ('r', 'r+', 'w+'), wr=m != 'r', kind='reg', g=None)
            return
        if k < 0.75:
            s = self.anyslot(lambda v: v['rd'])
            if s is None:
                return
            v = self.slots[s]
            j = r.random()
            if j < 0.3:
                return self.take(v, self.size(), lambda k: self.add('read $%d %d' % (s, k)))
            if j < 0.55:
                c = r.choice([1, 1, 2, 5])
                for _ in range(c):
                    self.take(v, 1, lambda k: self.add('%s $%d' % (r.choice(['fgetc', 'getc']), s)))
                return
            if j < 0.62:
                self.take(v, 1, lambda k: (self.add('fgetc $%d' % s), self.add('ungetc $%d %d' % (s, r.choice([r.randrange(33, 120), 255, 128, 65]))), self.pend.add(s)))
                if s in self.pend and v['g']:
                    v['g']['n'] += 0
                return
            if j < 0.74:
                return self.take(v, self.size(), lambda k: self.add('fgets $%d %d' % (s, k + 1)))
            if j < 0.86:
                return self.take(v, self.size(), lambda k: self.add('fread $%d %d %d' % ((s, 1, k) if k % 4 or r.random() < 0.5 else (s, 4, k // 4))))
            if j < 0.90 and v['kind'] != 'pipe':
                self.add('feof $%d' % s)
                j = r.random()
                return self.add('fgetc $%d' % s if j < 0.4 else 'fread $%d 1 %d' % (s, self.size()) if j < 0.6 else 'fgets $%d %d' % (s, 1 + self.size()) if j < 0.8 else 'ftell $%d' % s)
            if j < 0.94:
                return self.add('ftell $%d' % s)
        s = self.anyslot(lambda v: v['kind'] == 'reg')
        if s is None:
            s = self.anyslot(lambda v: True)
        v = self.slots[s]
        j = r.random()
        if j < 0.35:
            wh = r.choice([0, 0, 1, 1, 1, 2, 2, 5])
            off = r.choice([0, 0, 1, -1, 2, -3, 50, -50, 100, 127, 128, 129, 400, -1000])
            if r.random() < 0.1:
                # positions that do not fit in 31 or 32 bits, and back
                off = r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 31 + 7, 2 ** 32, 2 ** 32 + 3, 2 ** 33 - 2, 5000000000, 2 ** 40, -2 ** 31, -2 ** 32, -2 ** 32 + 1])
                self.add('%s $%d %d %d' % (r.choice(['lseek', 'lseek', 'fseek']), s, off, wh))
                for _ in range(r.choice([1, 2])):
                    self.add(r.choice(['lseek $%d 0 1', 'lseek $%d -1 1', 'lseek $%d 3 1', 'fseek $%d 5 1', 'ftell $%d', 'lseek $%d -2147483648 1'] + (['read $%d 5', 'fgetc $%d'] if v['rd'] and v['g'] is None else [])) % s)
                off, wh = r.choice([0, 1, 30]), 0
            return self.add('%s $%d %d %d' % (r.choice(['lseek', 'fseek']), s, off, wh))
        s = self.anyslot(lambda v: v['wr'])
        if s is None or r.random() < 0.1:
            s = self.anyslot(lambda v: v['kind'] in ('odd', 'reg') or v['wr'])
            if s is None:
                return
        v = self.slots[s]
        n = r.choice([1, 2, 7, 30, 100, 128, 200])
        if v['g'] is not None:
            if v['g']['n'] > 2500 or not v['wr']:
                return
        d = self.data(n)
        j = r.random()
        if j < 0.35:
            self.add('write $%d %s' % (s, O.hexs(d)))
            n = 1 if self.case.get('shorts') else n
        elif j < 0.5:
            sz = r.choice([1, 1, 2, 3, 7, 16, 60])
            if len(d) < sz:
                sz = 1
            d = d[:len(d) // sz * sz]
            n = len(d)
            self.add('fwrite $%d %d %d %s' % (s, sz, len(d) // sz, O.hexs(d)))
            if sz > 1:
                j = 0.5                                          # part of an item may have arrived
        elif j < 0.7:
            self.add('%s $%d %s' % (r.choice(['fputs', 'fputs', 'fdputs']), s, O.hexs(d)))
        elif j < 0.85 and self.case['var'] == 'mescc':
            d = d[:40]
            n = 0
            if r.random() < 0.5:
                self.add('fprintf $%d %s %d' % (s, O.hexs(d), r.choice([0, 5, -17, 123456])))
            else:
                self.add('fmtf $%d %d %d %s' % (s, r.choice([0, 1, 2, 3, 4 if len(d) > 2 else 0, 5, 6, 7, 8]), r.choice([1, 9, 65, 126, 123456]), O.hexs(d)))
        else:
            n = 1
            self.add('%s $%d %d' % (r.choice(['fputc', 'putc', 'fdputc']), s, r.randrange(1, 256)))
        if v['g'] is not None:
            v['g']['n'] += n
        if self.case.get('werr') and v['kind'] == 'reg' and j >= 0.5:
            self.add('lseek $%d 0 1' % s)

    def take(self, v, k, f, extra=0):
        """Consume up to k from a slot; pipes never run dry while they have writers."""
        g = v['g']
        if g is not None and g['w'] > 0:
            k = min(k, g['n'])
            if k <= 0:
                return
            g['n'] -= k
        f(k)


class C07(Check):
    pid = 'C07'
    parts = ('gccguest', 'mesccguest')
    rule = 'a history counts when at least five calls moved data and the reference model followed it to the end'
    real = ['lib/ (all C library sources, built with gcc and with MesCC)', 'sim/guest/opguest.c']
    stub = ['kernel: files, pipes, terminals and descriptors of sim/simrun.cpp']
    assumptions = ['the variadic calls of the library built by GCC for x86_64 (printf family) are documented not to work there (xfail in build-aux/check-mescc.sh) and are exercised with MesCC only',
                   'FILE * is the descriptor number in the Mes C Library, so stream calls and descriptor calls on one number share one position',
                   'feof is answered by looking at the next byte']

    def gen(self, rng, i, ctx):
        case = dict(seed=rng.randrange(1 << 40), var=rng.choice(O.VARIANTS), rules=[], files={}, streams={})
        g = Gen(rng, case)
        for k in range(rng.randint(1, 3)):
            n = rng.choice([0, 1, 30, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400, 700])
            case['files']['f%d' % k] = g.data(n).hex()
        if rng.random() < 0.4:
            tty = rng.random() < 0.5
            cs = []
            for _ in range(rng.randint(1, 5)):
                cs.append([-1, rng.choice([0, 1000, 5000000]), g.data(rng.choice([1, 5, 30, 128, 150])).hex()])
            case['streams']['s0'] = ['tty' if tty else 'fifo', cs]
        m = rng.random()
        if m < 0.35:
            case['shorts'] = 1
            case['rules'] += ['short_read ppm=%d' % rng.choice([100000, 500000, 900000]), 'short_write ppm=%d path=/work/' % rng.choice([100000, 500000])]
            if rng.random() < 0.3:
                case['rules'].append('short_write ppm=300000 path=/dev/out')
        if 0.2 < m < 0.55:
            case['rerr'] = 1
            case['rules'].append('read_err ppm=%d vals=5,4,11 max=%d' % (rng.choice([30000, 150000]), rng.choice([1, 3])))
        if 0.5 < m < 0.75:
            case['werr'] = 1
            case['rules'].append('write_err ppm=%d vals=5,4,28 max=%d path=/work/' % (rng.choice([50000, 200000]), rng.choice([1, 3])))
            if rng.random() < 0.4:
                case['rules'].append('write_err ppm=100000 vals=5,4,28 max=1 path=/dev/out')
        if 0.75 < m < 0.88:
            case['shorts'] = case['werr'] = 1
            case['rules'] += ['short_write ppm=%d path=/work/' % rng.choice([100000, 500000]), 'write_err ppm=%d vals=5,4,28 max=%d path=/work/' % (rng.choice([50000, 200000]), rng.choice([1, 3]))]
        if rng.random() < 0.05:
            case['rules'].append('close_err ppm=200000 vals=5,4')
        if rng.random() < 0.3:
            case['in'] = '/work/f0' if rng.random() < 0.6 or not case['streams'] else '/work/s0'
        if rng.random() < 0.3:
            case['env'] = {'MES_READ_BUFFER': rng.choice(['0', '1', '2', '7', '100', '127', '128', '1000', '-3'])}
        if rng.random() < 0.06:
            case['env'] = {'MES_DEBUG': rng.choice(['1', '2', '5'])}
        if case.get('in', '').endswith('s0'):
            g.case = dict(case, streams={})
        for _ in range(rng.choice([8, 15, 30, 50])):
            g.one()
        case['ops'] = g.ops
        return case

    def scen(self, case, ctx):
        ls = fault_lines(case) + O.scenario(ctx, case['var'], case['ops'], case.get('env'), res=60000) + STD + ['dev /dev/full full']
        for k, v in case['files'].items():
            ls.append('file /work/%s 644 %s' % (k, enc(bytes.fromhex(v))))
        for k, (kind, cs) in case.get('streams', {}).items():
            ls.append('stream /work/%s %s' % (k, kind))
            for wait, delay, d in cs:
                ls.append('chunk /work/%s %d %d data %s' % (k, wait, delay, enc(bytes.fromhex(d))))
            ls.append('chunk /work/%s -1 0 eof' % k)
        ls += ['fd 0 %s 0' % case.get('in', '/dev/null'), 'fd 1 /dev/out 1', 'fd 2 /dev/err 1']
        return ls

    def judge(self, case, ctx):
        r = ctx.sim(self.scen(case, ctx))
        rs = O.results(r.res)
        if O.hasbad(rs):
            raise SimError('bad operation in ' + str(case['ops']))
        m = Model(case)
        k = 0
        try:
            for k, (op, res) in enumerate(zip(case['ops'], rs)):
                m.step(op, res)
            if len(rs) < len(case['ops']):
                k = len(rs)
                if r.end[0] == 'stall':
                    m.blocked(case['ops'][k], len(r.out()))
                raise Bad('crash', 'the program ended %s %d in %s' % (r.end + (case['ops'][k],)))
            if r.end != ('exit', 0):
                raise Bad('crash', 'the program ended %s %d' % r.end)
            k += 1
            if not case.get('env', {}).get('MES_DEBUG'):
                m.finish(r)
        except Bad as b:
            return Verdict(b.sig, '%s (call %d of the %s build, history %s)' % (b.msg, k, case['var'], '; '.join(case['ops'][max(0, k - 8):k + 1])), r)
        except NA:
            return Verdict(None, '', r, nontrivial=False)
        n = sum(1 for o in case['ops'] if o.split(' ')[0] in ('read', 'fgetc', 'getc', 'fgets', 'fread', 'write', 'fwrite', 'fputs', 'fprintf', 'fmtf', 'fdputs', 'fdputc', 'fputc', 'putc', 'puts', 'printf'))
        return Verdict(None, '', r, key=r.hash, nontrivial=n >= 5)

    def shrink(self, case):
        ops = case['ops']
        k = max(1, len(ops) // 2)
        while True:
            for a in range(0, len(ops), k):
                yield dict(case, ops=ops[:a] + ops[a + k:])
            if k == 1:
                break
            k //= 2
        for j in range(len(case.get('rules') or [])):
            yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
        if case.get('env'):
            yield {k: v for k, v in case.items() if k != 'env'}
        for f in case['files']:
            if not any(f.encode().hex() in o for o in ops) and not case.get('in', '').endswith(f):
                yield dict(case, files={k: v for k, v in case['files'].items() if k != f})


if __name__ == '__main__':
    sys.exit(main(C07()))
