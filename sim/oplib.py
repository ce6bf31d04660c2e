"""Scenarios that run an op script against the Mes C Library.

sim/guest/opguest.c is compiled with the library built by GCC and by MesCC;
it executes a script of library calls and records every result in a buffer
that the simulator reads when the process ends.
"""
import os
from core import enc

VARIANTS = ('gcc', 'mescc')


def hexs(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return 'x' + b.hex()


def pat(seed, n):
    return bytes(33 + ((seed + i * 7 + (i // 64)) % 90) for i in range(n))


def scenario(ctx, variant, ops, env=None, res=20000, argv0='opguest', extra_args=()):
    """Lines that run the ops (list of strings) as /bin/opguest."""
    if variant not in VARIANTS:
        raise ValueError(variant)
    p = os.path.join(ctx.b.dir, 'opguest-' + variant)
    ls = ['hostfile /bin/opguest %s 755' % enc(p), 'exe /bin/opguest', 'arg ' + enc(argv0), 'arg ' + enc(';'.join(ops)), 'arg .',
          'resbuf 2 %d' % res, 'dir /work 755', 'dir /tmp 777', 'cwd /work']
    ls += ['arg ' + enc(a) for a in extra_args]
    for k, v in (env or {}).items():
        ls.append('env ' + enc('%s=%s' % (k, v)))
    return ls


def results(res):
    """The result buffer as a list, one string per completed op."""
    s = (res or b'').split(b'.', 1)[0].decode('latin-1')
    return s.split(';')[:-1] if s else []


def hasbad(rs):
    return any('BADOP' in r for r in rs)


def word(op):
    """(slot or None, words) of an op."""
    w = op.split(' ')
    if w[0][0] == '=':
        return int(w[0][1:]), w[1:]
    return None, w


def tree(ops):
    """Nested form: a child block becomes a list."""
    out, stack = [], []
    for o in ops:
        if word(o)[1][0] == 'child':
            c = [o]
            out.append(c)
            stack.append(out)
            out = c
        elif o == 'end':
            out = stack.pop()
        else:
            out.append(o)
    return out


def flat(t):
    out = []
    for o in t:
        if isinstance(o, list):
            out += [o[0]] + flat(o[1:]) + ['end']
        else:
            out.append(o)
    return out


def shrink_ops(ops, keep=lambda o: False):
    """Smaller op lists; child blocks go whole or lose single ops."""
    t = tree(ops)

    def variants(t):
        k = max(1, len(t) // 2)
        while True:
            for a in range(0, len(t), k):
                if any(isinstance(o, str) and keep(o) for o in t[a:a + k]):
                    continue
                yield t[:a] + t[a + k:]
            if k == 1:
                break
            k //= 2
        for i, o in enumerate(t):
            if isinstance(o, list):
                for v in variants(o[1:]):
                    yield t[:i] + [[o[0]] + v] + t[i + 1:]
    for v in variants(t):
        yield flat(v)


def summ(b):
    """What the guest's out_sum writes."""
    if len(b) < 101:
        return b.hex()
    h = 7
    for c in b:
        h = (h * 31 + c) & 16777215
    return '%s:%d:%d' % (b[:30].hex(), len(b), h)
