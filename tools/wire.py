"""9P2000 messages as the drivers need them: random values and bytes to send.
The judge is spec/Wire.tla, not this file."""

T = dict(version=100, attach=104, flush=108, walk=110, open=112, create=114, read=116, write=118, clunk=120,
         remove=122, stat=124, wstat=126)
LAYOUT = {
    100: ['u4', 'str'], 101: ['u4', 'str'], 104: ['u4', 'u4', 'str', 'str'], 105: ['qid'], 107: ['str'],
    108: ['u2'], 109: [], 110: ['u4', 'u4', 'strs'], 111: ['qids'], 112: ['u4', 'u1'], 113: ['qid', 'u4'],
    114: ['u4', 'str', 'u4', 'u1'], 115: ['qid', 'u4'], 116: ['u4', 'u8', 'u4'], 117: ['data'],
    118: ['u4', 'u8', 'data'], 119: ['u4'], 120: ['u4'], 121: [], 122: ['u4'], 123: [], 124: ['u4'],
    125: ['stat'], 126: ['u4', 'stat'], 127: []}
DIR = ['u2', 'u4', 'qid', 'u4', 'u4', 'u4', 'u8', 'str', 'str', 'str', 'str']
REQ = [100, 104, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126]
W = dict(u1=1, u2=2, u4=4, u8=8)


def le(n, w):
    return [(n >> (8 * i)) & 255 for i in range(w)]


def unle(b):
    return sum(x << (8 * i) for i, x in enumerate(b))


def rint(r, w):
    """Edge values, single bits and random ones."""
    bits = 8 * w
    c = r.randrange(8)
    if c == 0:
        return le(r.choice([0, 1, 2]), w)
    if c == 1:
        return le((1 << bits) - 1 - r.choice([0, 1, 2]), w)
    if c == 2:
        return le(1 << r.randrange(bits), w)
    if c == 3:
        return le((1 << r.randrange(bits)) - 1, w)
    if c == 4:
        return le((1 << (bits - 1)) + r.choice([-1, 0, 1]), w)
    if c == 5:
        return [r.choice([0, 127, 128, 255]) for _ in range(w)]
    return [r.randrange(256) for _ in range(w)]


def rbytes(r, n):
    c = r.randrange(5)
    if c == 0:
        return [r.choice([0, 255])] * n
    if c == 1:
        return [(i * 7 + 1) % 251 for i in range(n)]
    if c == 2:
        return [r.choice(b'abcxyz.%s%d/\\ \n') for _ in range(n)]
    if c == 3:
        return list(bytes('\u00e9\u20ac\U0001f600' * n, 'utf8')[:n])
    return list(r.randbytes(n))


def rlen(r, big):
    c = r.randrange(12)
    if c == 0 and big:
        return r.choice(big)
    if c <= 2:
        return 0
    if c == 3:
        return r.choice([255, 256, 257, 127, 128])
    return r.randrange(1, 24)


def rqid(r):
    return dict(t=rint(r, 1), v=rint(r, 4), p=rint(r, 8))


def rfield(r, k, big=()):
    if k in W:
        return rint(r, W[k])
    if k == 'qid':
        return rqid(r)
    if k in ('str', 'stat', 'data'):
        b = [x for x in big if k == 'data' or x <= 65535]
        return rbytes(r, rlen(r, b))
    if k == 'strs':
        n = r.choice([0, 1, 1, 2, 3, 5, 16, 17])
        if big and r.randrange(20) == 0:
            n = r.choice([255, 256, 300])
        return [rbytes(r, rlen(r, ())) for _ in range(n)] if n < 100 else [rbytes(r, r.randrange(3)) for _ in range(n)]
    if k == 'qids':
        n = r.choice([0, 1, 1, 2, 3, 16, 17])
        if big and r.randrange(20) == 0:
            n = r.choice([255, 256, 300])
        return [rqid(r) for _ in range(n)]
    raise ValueError(k)


def rfields(r, ty, big=()):
    return [rfield(r, k, big) for k in LAYOUT[ty]]


def encq(q):
    return q['t'] + q['v'] + q['p']


def encfield(k, v):
    if k in W:
        return list(v)
    if k == 'qid':
        return encq(v)
    if k in ('str', 'stat'):
        return le(len(v), 2) + v
    if k == 'data':
        return le(len(v), 4) + v
    if k == 'strs':
        return le(len(v), 2) + [x for s in v for x in le(len(s), 2) + s]
    if k == 'qids':
        return le(len(v), 2) + [x for q in v for x in encq(q)]


def encfields(ks, f):
    return [x for k, v in zip(ks, f) for x in encfield(k, v)]


def frame(ty, tag, body):
    return le(7 + len(body), 4) + [ty] + tag + body


def enc(ty, tag, f):
    return frame(ty, tag, encfields(LAYOUT[ty], f))


def encdir(f):
    b = encfields(DIR, f)
    return le(len(b), 2) + b


def count_offsets(ks, f):
    """Where in the body the counts are: (offset, width)."""
    o = 0
    out = []
    for k, v in zip(ks, f):
        if k in ('str', 'stat', 'strs', 'qids'):
            out.append((o, 2))
            if k == 'strs':
                p = o + 2
                for s in v:
                    out.append((p, 2))
                    p += 2 + len(s)
        elif k == 'data':
            out.append((o, 4))
        o += len(encfield(k, v))
    return out


def mutate(r, ks, f):
    """A body that is most likely not one: cut, extended, or with a count
    changed."""
    b = encfields(ks, f)
    c = r.randrange(6)
    cnt = count_offsets(ks, f)
    if c == 0 and b:
        return b[:r.randrange(len(b))]
    if c == 1 and b:
        return b[:-1]
    if c == 2:
        return b + rbytes(r, r.choice([1, 1, 2, 4, 13]))
    if c in (3, 4) and cnt:
        o, w = r.choice(cnt)
        n = unle(b[o:o + w])
        m = r.choice([n + 1, n - 1, n + 2, n + 256, 0, (1 << (8 * w)) - 1, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1, n * 2 + 1])
        return b[:o] + le(m % (1 << (8 * w)), w) + b[o + w:]
    if b:
        o = r.randrange(len(b))
        return b[:o] + [r.randrange(256)] + b[o + 1:]
    return b + [0]


def shapes(r, ty, n=1):
    """Field values with nothing in the lists, with one empty thing in them, with
    as little as there can be in each of them, and n random ones."""
    few = dict(str=[[], [97], [97] * 3], data=[[], [1], [1] * 3], stat=[[], [1], [1] * 3], strs=[[], [[]], [[97], []]],
               qids=[[], [rqid(r)], [rqid(r), rqid(r)]])
    out = []
    for j in range(3):
        f = [few[k][j] if k in few else rfield(r, k) for k in LAYOUT[ty]]
        if j == 0 or f != out[0]:
            out.append(f)
    return out + [rfields(r, ty) for _ in range(n)]


def badbodies(r, ks, f, most=80):
    """Bodies that are not f: each way to cut it short, bytes added, counts
    changed."""
    b = encfields(ks, f)
    cut = range(len(b)) if len(b) <= most else sorted(r.sample(range(len(b)), most))
    out = [b[:n] for n in cut]
    out += [b + x for x in ([0], [255], [0, 0], [1, 2, 3, 4], [0] * 12, [0] * 13, [7] * 14, [0] * 26)]
    for o, w in count_offsets(ks, f)[:12]:
        n = unle(b[o:o + w])
        for m in sorted({n + 1, n + 2, max(0, n - 1), 0, n + 256, (1 << 8 * w) - 1, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1}):
            out.append(b[:o] + le(m % (1 << 8 * w), w) + b[o + w:])
    return out


def rtag(r):
    return r.choice([[0, 0], [255, 255], [1, 0], [0, 1], [r.randrange(256), r.randrange(256)],
                     [r.randrange(256), r.randrange(256)]])


# What errors that a program may know say.
KNOWN = [list(x.encode()) for x in ('EOF', 'unexpected EOF', 'file does not exist', 'permission denied', 'file already exists',
                                    'file already closed', 'invalid argument', 'no such file or directory', 'i/o timeout',
                                    'use of closed network connection', 'short write', 'context canceled', 'interrupted system call')]


def ranswers(r, big=()):
    """Answers of a file server, per operation."""
    out = {}
    for t in REQ:
        l = []
        for _ in range(r.choice([1, 2, 3])):
            if r.randrange(4) == 0:
                l.append(dict(Err=rbytes(r, rlen(r, [x for x in big if x <= 65535])) if r.randrange(3) else r.choice(KNOWN)))
            else:
                f = rfields(r, t + 1, big)
                if t == 118:
                    f = [le(r.choice([0, 1, 5, 2147483647, r.randrange(1 << 31)]), 4)]
                l.append(dict(F=f))
        out[str(t)] = l
    return out
