"""What bad peers send (C07)."""
from wire import *

NAMES = [b'd', b'f', b'g', b'e', b'h', b's', b'd', b'f', b'', b'.', b'..', b'/', b'd/g', b'../..', b'\0', b'new', b'x' * 300,
         b'\xff\xfe', b'a\0b', b'nn', b'n2', b'%s%n', b'keep']
EDGE = {1: [0, 1, 2, 3, 16, 64, 0x11, 255, 128], 2: [0, 1, 0xFFFF, 0x7FFF, 0x8000, 16, 17],
        4: [0, 1, 7, 11, 12, 23, 24, 25, 4096, 8192, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFF4, 2 << 20, (2 << 20) + 24],
        8: [0, 1, 2999, 3000, 4096, 0x7FFFFFFF, 0xFFFFFFFF, 0x100000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF,
            0x7FFFFFFFFFFFFFFF - 100]}
PERMS = [0o644, 0o777, 0, 0o444, 0x80000000 | 0o755, 0x80000000, 0x02000000 | 0o644, 0x00800000, 0x00200000 | 0o644,
         0x00100000 | 0o644, 0x40000000 | 0o644, 0x20000000, 0x08000000, 0xFFFFFFFF, 0x00080000 | 0o755, 0o7777]


def num(r, w, small=True):
    if small and r.randrange(3):
        return le(r.randrange(5), w)
    return le(r.choice(EDGE[w]), w) if r.randrange(6) else rint(r, w)


def fid(r):
    return le(r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 0xFFFFFFFF]), 4)


def name(r):
    return list(r.choice(NAMES)) if r.randrange(20) else rbytes(r, r.choice([0, 1, 5, 255, 256, 4096, 65535]))


def dirbytes(r):
    keep = r.randrange(2)
    f = []
    for j, k in enumerate(DIR):
        if k in W:
            f.append([255] * W[k] if keep and r.randrange(3) else num(r, W[k]))
        elif k == 'qid':
            f.append(dict(t=[255], v=[255] * 4, p=[255] * 8) if keep else rqid(r))
        else:
            f.append([] if r.randrange(2) else name(r))
    if r.randrange(3) == 0:
        f[3] = le(r.choice(PERMS), 4)
    b = encdir(f)
    c = r.randrange(8)
    if c == 0:
        b = b[:r.randrange(len(b))]
    elif c == 1:
        o = r.randrange(len(b))
        b = b[:o] + [r.choice([0, 255, 128, 127])] + b[o + 1:]
    elif c == 2:
        b = b + rbytes(r, 3)
    return b


def one(r, ty):
    """Fields of a request that may well make sense to the file server."""
    if ty == 100:
        return [le(r.choice(EDGE[4]), 4), list(r.choice([b'9P2000', b'9P2000', b'9P2000.u', b'', b'9P', b'unknown', b'x' * 500]))]
    if ty == 104:
        return [fid(r), le(r.choice([0xFFFFFFFF, 0, 1]), 4), list(b'u'), list(r.choice([b'', b'/', b'd', b'..', b'f', b'x\0']))]
    if ty == 108:
        return [num(r, 2)]
    if ty == 110:
        n = r.choice([0, 1, 1, 1, 2, 3, 16, 17, 40])
        return [fid(r), fid(r), [name(r) if n < 20 else [46, 46] for _ in range(n)]]
    if ty == 112:
        return [fid(r), le(r.choice(EDGE[1]), 1)]
    if ty == 114:
        return [fid(r), name(r), le(r.choice(PERMS), 4), le(r.choice(EDGE[1]), 1)]
    if ty == 116:
        return [fid(r), le(r.choice(EDGE[8]), 8), le(r.choice(EDGE[4]), 4)]
    if ty == 118:
        # holes in files are cheap, but not without end
        off = r.choice([0, 1, 100, 4096, 1 << 20, 1 << 63, (1 << 64) - 1, (1 << 63) - 1])
        return [fid(r), le(off, 8), rbytes(r, r.choice([0, 1, 10, 1000]))]
    if ty == 126:
        return [fid(r), dirbytes(r)]
    return [fid(r)]


def request(r, types=REQ):
    ty = r.choice(types)
    return enc(ty, rtag(r), one(r, ty))


def broken(r):
    c = r.randrange(9)
    ty = r.choice(REQ)
    if c <= 3:
        return frame(ty, rtag(r), mutate(r, LAYOUT[ty], one(r, ty)))
    if c == 4:
        t = r.choice([t for t in range(256) if t not in REQ])
        return frame(t, rtag(r), rbytes(r, r.randrange(40)))
    if c == 5:
        return frame(ty, rtag(r), rbytes(r, r.randrange(60)))
    if c == 6:
        m = request(r)
        for _ in range(r.choice([1, 1, 2, 5])):
            o = r.randrange(4, len(m))
            m[o] ^= 1 << r.randrange(8)
        return m
    if c == 7:
        return frame(ty, rtag(r), [])
    t = r.choice([t + 1 for t in REQ] + [107])
    return enc(t, rtag(r), rfields(r, t))


def size(r):
    """A message whose size is not its size."""
    m = request(r)
    n = r.choice([0, 1, 4, 5, 6, len(m) - 1, len(m) + 1, len(m) + 100, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF0, 1 << 30, 1 << 24])
    return le(n % (1 << 32), 4) + m[4:]


def session(r, kind):
    ms = []
    if r.randrange(12):
        ms.append(enc(100, [255, 255], [le(r.choice([8192, 8192, 8192, 4 << 20, 100, 24, 256, 0xFFFFFFFF]), 4), list(b'9P2000')]))
        if r.randrange(12):
            ms.append(enc(104, [1, 0], [le(0, 4), [255] * 4, list(b'u'), []]))
            if r.randrange(2):
                ms.append(enc(110, [1, 0], [le(0, 4), le(1, 4), [list(r.choice([b'd', b'f']))]]))
                ms.append(enc(112, [1, 0], [le(1, 4), [r.choice([0, 1, 2, 16])]]))
    n = r.choice([3, 10, 30, 60])
    for _ in range(n):
        x = r.random()
        if kind == 'deep':
            # one fid or two, many operations
            ms.append(request(r) if x < 0.9 else broken(r))
        elif kind == 'broken':
            ms.append(broken(r) if x < 0.6 else request(r))
        elif kind == 'valid':
            ms.append(request(r, [t for t in REQ if t != 100]))
        elif kind == 'size':
            ms.append(request(r))
    b = [x for m in ms for x in m]
    if kind == 'size':
        b += size(r) + rbytes(r, r.randrange(40))
    if kind == 'cut':
        b += request(r)
        b = b[:r.randrange(1, len(b))]
    if kind == 'noise':
        b = (b if r.randrange(2) else []) + rbytes(r, r.choice([1, 6, 7, 8, 20, 200, 5000]))
    if kind == 'flip':
        for _ in range(r.choice([1, 3, 10])):
            if b:
                b[r.randrange(len(b))] = r.randrange(256)
    return b


KINDS = ['deep', 'deep', 'valid', 'valid', 'broken', 'broken', 'size', 'cut', 'noise', 'flip']


def conn(r, kind=None):
    b = session(r, kind or r.choice(KINDS))
    return dict(B=b, Cuts=[] if r.randrange(3) else [r.choice([1, 3, 7, 8, 50])],
                End=r.choice(['close', 'close', 'reset', 'hold', 'half', 'deaf']), N=1)


def scenario(r, n, back=None):
    return dict(Back=back or r.choice(['ufs', 'ufs', 'ufs', 'echo']), Conns=[conn(r) for _ in range(n)],
                Trace=r.randrange(4) == 0, Debug=r.randrange(6) == 0)


def directed(r):
    out = []
    ver = enc(100, [255, 255], [le(8192, 4), list(b'9P2000')])
    big = enc(100, [255, 255], [le(0xFFFFFFFF, 4), list(b'9P2000')])
    att = enc(104, [1, 0], [le(0, 4), [255] * 4, list(b'u'), []])
    for back in ('ufs', 'echo'):
        # messages said to be huge, on many connections at once
        for n in (0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 1 << 30, 400 << 20):
            for t in (118, 116, 100, 0):
                out.append(dict(Back=back, Conns=[dict(B=ver + le(n, 4) + [t, 1, 0, 0, 0], End='hold', N=12)]))
        # and never ending ones of every length, header or body
        out.append(dict(Back=back, Conns=[dict(B=(ver + att)[:n], End='hold', N=1) for n in range(1, len(ver + att))]))
        out.append(dict(Back=back, Conns=[dict(B=(ver + att)[:n], End='reset', N=1) for n in range(1, len(ver + att))]))
        # peers that do not read what they asked for
        rd = [ver, att, enc(110, [1, 0], [le(0, 4), le(1, 4), [list(b'f')]]), enc(112, [1, 0], [le(1, 4), [0]])]
        rd += [enc(116, [1, 0], [le(1, 4), le(0, 8), le(3000, 4)])] * 4000
        out.append(dict(Back=back, Conns=[dict(B=[x for m in rd for x in m], End='deaf', N=3)]))
        # every type of message, empty, and with counts that promise much
        out.append(dict(Back=back, Conns=[dict(B=ver + att + frame(t, [1, 0], [255] * n), End='close', N=1)
                                          for t in range(98, 130) for n in (0, 2, 4, 6, 12, 40)]))
        # sizes that cannot be, before and after version
        out.append(dict(Back=back, Conns=[dict(B=pre + le(n, 4) + [t, 1, 0] + [0] * 9, End='close', N=1)
                                          for pre in ([], ver, ver + att) for n in range(7) for t in (100, 120, 0)]))
        # reads of as much as one likes
        m = [big, att, enc(110, [1, 0], [le(0, 4), le(1, 4), [list(b'f')]]), enc(112, [1, 0], [le(1, 4), [0]])]
        for cnt in (0x7FFFFFFF, 0xFFFFFFFF, 0xFFFFFFF5, 0x80000000, 1 << 30):
            for fid_ in (0, 1):
                m.append(enc(112, [1, 0], [le(0, 4), [0]]))
                m.append(enc(116, [1, 0], [le(fid_, 4), le(0, 8), le(cnt, 4)]))
        out.append(dict(Back=back, Conns=[dict(B=[x for y in m for x in y], End='close', N=4)]))
    return out


def leaving(r, n):
    """Many peers, one after the other, that open files and then leave."""
    ver = enc(100, [255, 255], [le(8192, 4), list(b'9P2000')])
    att = enc(104, [1, 0], [le(0, 4), [255] * 4, list(b'u'), []])
    out = []
    for back in ('ufs', 'ufs', 'echo'):
        for end in ('close', 'half', 'reset'):
            ms = [ver, att]
            for j, (f, m) in enumerate(r.sample([('f', 0), ('d', 0), ('f', 2), ('f', 1), ('keep', 0), ('d', 0)], 4)):
                ms += [enc(110, [1, 0], [le(0, 4), le(1 + j, 4), [list(f.encode())]]), enc(112, [1, 0], [le(1 + j, 4), [m]])]
            if r.randrange(2):
                ms += [enc(112, [1, 0], [le(1, 4), [0]]), enc(120, [1, 0], [le(2, 4)])]
            b = [x for m in ms for x in m]
            tail = r.choice([[], [], [100, 0, 0, 0, 120, 1, 0, 5], [3, 0, 0, 0, 120, 1, 0]])
            out.append(dict(Back=back, Conns=[dict(B=b + tail, End=end, N=n)]))
            out.append(dict(Back=back, Conns=[dict(B=x, End=end, N=n // 2) for x in ([], ver)]))
    return out


def trace(sc, ev):
    out = []
    for e in ev:
        if e['e'] == 'end':
            e = dict(e='end', crash=bool(e.get('crash')))
        out.append(e)
    return dict(back=sc['Back'], ev=out)
