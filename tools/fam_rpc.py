"""Scenarios for calls through the client and the serving loop (C06) and
through the debugging file server (C27)."""
from wire import *

BIG = (65535, 40000, 8192, 1025)


def answers(r, big=(), errs=4, both=False):
    """Answers per operation; with both, errors come with results."""
    out = {}
    for t in REQ:
        l = []
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            f = rfields(r, t + 1, big)
            c = r.randrange(errs * 2)
            if c < 2:
                a = dict(Err=rbytes(r, rlen(r, [x for x in big if x <= 65535])) if r.randrange(3) else r.choice(KNOWN))
                if both and r.randrange(2):
                    a['F'] = f
                l.append(a)
            elif c == 2 and both:
                l.append(dict(F=[]))
            else:
                l.append(dict(F=f))
        out[str(t)] = l
    return out


def few(r, ty):
    """Arguments of which there are only a few, so that calls repeat."""
    def one(k):
        if k in W:
            return le(r.randrange(2), W[k])
        if k == 'strs':
            return [[97]] * r.randrange(3)
        return [97] * r.randrange(2)
    return [one(k) for k in LAYOUT[ty]]


def calls(r, n, first=1, types=None, fewness=0.5, big=(), unique=False, nils=False):
    out = []
    for i in range(first, first + n):
        ty = r.choice(types or REQ)
        if unique:
            f = rfields(r, ty, big)
            f[0] = le(40000 + i, 2) if ty == 108 else le(1000000 + i, 4)
        else:
            f = few(r, ty) if r.random() < fewness else rfields(r, ty, big)
        c = dict(I=i, Op=ty, F=f)
        if nils:
            c['Nil'] = [k in ('strs', 'data', 'stat') and len(v) == 0 and r.randrange(2) == 0 for k, v in zip(LAYOUT[ty], f)]
        out.append(c)
    return out


VER = [[0, 32, 0, 0], list(b'9P2000')]


def stats(r):
    """Stat data: whole, cut, with wrong lengths."""
    d = encdir([rfield(r, k) for k in DIR])
    c = r.randrange(5)
    if c == 0:
        return d[:r.randrange(len(d))]
    if c == 1:
        return d + rbytes(r, r.randrange(1, 9))
    if c == 2:
        o = r.randrange(len(d))
        return d[:o] + [r.randrange(256)] + d[o + 1:]
    if c == 3:
        return rbytes(r, r.randrange(60))
    return d


def wire_scenario(r, cut, threads=1, n=20, gate=True, big=(), **kw):
    first = [dict(I=1, Op=100, F=VER)] if gate else calls(r, 3, 1, types=[t for t in REQ if t != 100])
    ths = []
    i = 10
    for _ in range(threads):
        ths.append(calls(r, n, i, unique=threads > 1, big=big))
        i += n
    return dict(dict(Kind='wire', Via=r.choice(['pipe', 'iopipe', 'tcp']), Cuts=cut, Debug=False,
                     Trace=r.randrange(4) == 0, First=first, Threads=ths, Ans=answers(r, big)), **kw)


def wrap_scenario(r, n=25, big=()):
    cs = calls(r, n, 1, nils=True, big=big)
    ans = answers(r, big, both=True)
    for c in cs:
        if c['Op'] == 126 and r.randrange(2):
            c['F'][1] = stats(r)
    ans['124'] += [dict(F=[stats(r)]) for _ in range(3)] + [dict(F=[stats(r)], Err=[120])]
    return dict(Kind='wrap', Threads=[cs], Ans=ans)


def trace(sc, ev):
    out = []
    for e in ev:
        if e['e'] == 'end' and e.get('crash'):
            e = dict(e='end', crash=True, hung=[])
        e = {k: v for k, v in e.items() if k != 'ns'}
        out.append(e)
    return dict(kind=sc['Kind'], ev=out)
