"""Families of scenarios for the codec and the serving loop (C01-C05)."""
from wire import *


def codec_steps(r, n, big=()):
    out = []
    for _ in range(n):
        ty = r.choice(sorted(LAYOUT))
        tag = rtag(r)
        f = rfields(r, ty, big)
        out.append(dict(E='enc', Ty=ty, Tag=tag, F=f))
        body = tag + encfields(LAYOUT[ty], f)
        out.append(dict(E='dec', Ty=ty, B=body))
        for _ in range(2):
            out.append(dict(E='dec', Ty=ty, B=tag + mutate(r, LAYOUT[ty], f)))
        if r.randrange(4) == 0:
            out.append(dict(E='dec', Ty=ty, B=body[:r.randrange(0, 3)]))
        if r.randrange(3) == 0:
            f = [rfield(r, k) for k in DIR]
            if sum(len(x) for x in f[7:]) < 65000:
                out.append(dict(E='encdir', F=f))
                b = encdir(f)
                out.append(dict(E='decdir', B=b))
                out.append(dict(E='decdir', B=b[:r.randrange(len(b))]))
                o, w = r.choice(count_offsets(DIR, f))
                bb = b[2:]
                n2 = unle(bb[o:o + w])
                out.append(dict(E='decdir', B=b[:2] + bb[:o] + le((n2 + r.choice([1, 2, 256, -1])) % 65536, w) + bb[o + w:]))
    return out


def codec_sweep():
    """Every message type: every single bit of every integer field, every
    truncation of one encoding, every length class of counted fields."""
    import random
    r = random.Random(7)
    out = []
    for ty in sorted(LAYOUT):
        st = []
        f = rfields(r, ty)
        tag = [0x34, 0x12]
        ks = LAYOUT[ty]
        for i, k in enumerate(ks):
            if k in W:
                for bit in range(8 * W[k]):
                    g = list(f)
                    g[i] = le(1 << bit, W[k])
                    st.append(dict(E='enc', Ty=ty, Tag=tag, F=g))
                    st.append(dict(E='dec', Ty=ty, B=tag + encfields(ks, g)))
            elif k == 'qid':
                for part, w in (('t', 1), ('v', 4), ('p', 8)):
                    for bit in range(8 * w):
                        g = list(f)
                        q = dict(t=[0], v=[0] * 4, p=[0] * 8)
                        q[part] = le(1 << bit, w)
                        g[i] = q
                        st.append(dict(E='enc', Ty=ty, Tag=tag, F=g))
                        st.append(dict(E='dec', Ty=ty, B=tag + encfields(ks, g)))
            elif k in ('str', 'data', 'stat'):
                for n in (0, 1, 2, 255, 256, 257, 4096, 32767, 32768, 65535) + ((65536, 70000) if k == 'data' else ()):
                    g = list(f)
                    g[i] = [(x * 31 + n) % 256 for x in range(n)]
                    st.append(dict(E='enc', Ty=ty, Tag=tag, F=g))
                    st.append(dict(E='dec', Ty=ty, B=tag + encfields(ks, g)))
            elif k == 'strs':
                for n in (0, 1, 2, 15, 16, 17, 255, 256, 257, 400):
                    g = list(f)
                    g[i] = [[97 + (x + n) % 26] * (x % 3) for x in range(n)]
                    st.append(dict(E='enc', Ty=ty, Tag=tag, F=g))
                    st.append(dict(E='dec', Ty=ty, B=tag + encfields(ks, g)))
                for n in (255, 256, 32768, 65535):
                    g = list(f)
                    g[i] = [[97], [98] * n, [99]]
                    st.append(dict(E='enc', Ty=ty, Tag=tag, F=g))
                    st.append(dict(E='dec', Ty=ty, B=tag + encfields(ks, g)))
            elif k == 'qids':
                for n in (0, 1, 2, 15, 16, 17, 255, 256, 257, 400):
                    g = list(f)
                    g[i] = [dict(t=[x % 256], v=le(x * 77777, 4), p=le(x * 123456789123, 8)) for x in range(n)]
                    st.append(dict(E='enc', Ty=ty, Tag=tag, F=g))
                    st.append(dict(E='dec', Ty=ty, B=tag + encfields(ks, g)))
        for bit in range(16):
            st.append(dict(E='enc', Ty=ty, Tag=le(1 << bit, 2), F=f))
            st.append(dict(E='dec', Ty=ty, B=le(1 << bit, 2) + encfields(ks, f)))
        for g in shapes(r, ty):
            st.append(dict(E='dec', Ty=ty, B=tag + encfields(ks, g)))
            for b in badbodies(r, ks, g, 1000):
                st.append(dict(E='dec', Ty=ty, B=tag + b))
        for n in range(2):
            st.append(dict(E='dec', Ty=ty, B=tag[:n]))
        out.extend(dict(Steps=st[i:i + 40]) for i in range(0, len(st), 40))
    st = []
    f = [rfield(r, k) for k in DIR]
    for i, k in enumerate(DIR):
        if k in W:
            for bit in range(8 * W[k]):
                g = list(f)
                g[i] = le(1 << bit, W[k])
                st.append(dict(E='encdir', F=g))
                st.append(dict(E='decdir', B=encdir(g)))
        elif k == 'str':
            for n in (0, 1, 255, 256, 257, 30000):
                g = list(f)
                g[i] = [(x * 3 + i) % 256 for x in range(n)]
                st.append(dict(E='encdir', F=g))
                st.append(dict(E='decdir', B=encdir(g)))
    b = encdir(f)
    for n in range(len(b)):
        st.append(dict(E='decdir', B=b[:n]))
    out.extend(dict(Steps=st[i:i + 40]) for i in range(0, len(st), 40))
    return out


def cuts(r, n):
    c = r.randrange(7)
    if c == 0:
        return [1]
    if c == 1:
        return [2]
    if c == 2:
        return [r.choice([3, 4, 5, 6, 7, 8, 11])]
    if c == 3:
        return [7, 1]
    if c == 4:
        return [r.randrange(1, 20) for _ in range(20)]
    if c == 5:
        return [r.randrange(1, 6), 1000000]
    return [r.randrange(1, max(2, n)) for _ in range(6)]


def request(r, ty=None, big=()):
    ty = ty or r.choice(REQ)
    return enc(ty, rtag(r), rfields(r, ty, big))


def version(r):
    return enc(100, r.choice([[255, 255], rtag(r)]), [rint(r, 4), r.choice([list(b'9P2000'), rbytes(r, 5), []])])


def unsupported(r):
    ty = r.choice([t for t in range(256) if t not in REQ] + [101, 102, 103, 105, 106, 107, 109, 127, 128, 99] * 10)
    return frame(ty, rtag(r), rbytes(r, rlen(r, ())))


def malformed(r, ty=None):
    ty = ty or r.choice([t for t in REQ if t != 100])
    return frame(ty, rtag(r), mutate(r, LAYOUT[ty], rfields(r, ty)))


def stream(r, kinds, n, gate=True):
    """n messages; kinds are weights of the message makers."""
    makers = dict(ok=request, bad=malformed, unk=unsupported, ver=version)
    names = [k for k, w in kinds.items() for _ in range(w)]
    ms = [version(r)] if gate else []
    for _ in range(n):
        ms.append(makers[r.choice(names)](r))
    return ms


def scenario(r, ms, **kw):
    sc = dict(In=[x for m in ms for x in m], Cuts=[], Gates=[], Eof='eof', Ans=ranswers(r), Trace=r.randrange(3) == 0)
    sc.update(kw)
    return sc


def lockstep(ms):
    """The peer sends a message only when the one before has been answered."""
    g, o = [], 0
    for i, m in enumerate(ms):
        if i > 0:
            g.append([o, i])
        o += len(m)
    return g


def srv_trace(sc, ev):
    ev = [dict(e) for e in ev]
    for e in ev:
        if e['e'] == 'end' and e.get('crash'):
            e.update(late=False, closed=True, rest=[])
    return dict(s=sc['In'], ev=ev)
