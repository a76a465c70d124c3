"""Scenarios for the client (C08-C12, C02)."""
from wire import *


def callargs(r, i, ty, big=()):
    """Arguments that no other call of the scenario has."""
    f = rfields(r, ty, big)
    if ty == 108:
        f[0] = le(500 + i, 2)
    else:
        f[0] = le(5000 + i, 4)
    return f


def rreply(r, ty, k, big=()):
    if k == 'ok':
        return enc(ty + 1, [0, 0], rfields(r, ty + 1, big))
    if k == 'err':
        return enc(107, [0, 0], [rbytes(r, rlen(r, [x for x in big if x <= 65535]))])
    if k == 'wrong':
        t = r.choice([t + 1 for t in REQ if t != ty] + [ty, 106, 100, 0, 255])
        return enc(t, [0, 0], rfields(r, t)) if t in LAYOUT else frame(t, [0, 0], rbytes(r, r.randrange(20)))
    t = r.choice([ty + 1, ty + 1, ty + 1, 107])
    return frame(t, [0, 0], mutate(r, LAYOUT[t], rfields(r, t)))


def script(r, steps, cuts=(), arm=0.2, big=(), tail=5, **kw):
    """A scenario for abstract steps."""
    types = {}
    out = []
    answered, down, late = set(), False, 0
    for st in steps:
        s = st['s']
        i = st.get('i', 0)
        if down:
            late += 1
            if late > tail:
                break
        if s == 'call':
            ty = st.get('ty') or r.choice(REQ)
            types[i] = ty
            f = callargs(r, i, ty, big)
            out.append(dict(S='call', I=i, Ty=ty, F=f, Key=enc(ty, [0, 0], f)))
        elif s == 'reply':
            answered.add(i)
            b = rreply(r, types[i], st['k'], big)
            if r.random() < arm and not any(x['S'] == 'break' for x in out):
                at = next(j for j, x in enumerate(out) if x['S'] == 'call' and x['I'] == i)
                out.insert(at, dict(S='arm', I=i, B=b))
            else:
                out.append(dict(S='reply', I=i, B=b))
        elif s == 'stray':
            k = st['k']
            ty = r.choice(REQ)
            b = rreply(r, ty, r.choice(['ok', 'err', 'bad']))
            if k == 'dup':
                out.append(dict(S='stray', I=i, B=b))
            else:
                tag = dict(zero=0, notag=65535, free=r.choice([r.randrange(1, 65535), r.randrange(30, 60), 65534, 65533,
                                                                  r.randrange(1, 30) + (1 << r.randrange(6, 16))]))[k]
                out.append(dict(S='stray', I=0, B=b[:5] + le(tag, 2) + b[7:]))
        elif s == 'wait':
            out.append(dict(S='wait', I=i))
        elif s == 'sync':
            out.append(dict(S='sync'))
        elif s == 'break':
            down = True
            k = st['k']
            b = []
            if k in ('mid', 'hdr'):
                full = rreply(r, types.get(i, 120), 'ok' if r.randrange(4) else 'err', big)
                b = full[:r.randrange(7, len(full))] if k == 'mid' and len(full) > 7 else full[:r.randrange(1, 7)]
            elif k == 'eof' and i and r.randrange(2):
                b = rreply(r, types[i], 'ok', big)       # the last reply, just in time
            elif k == 'badsize':
                b = [r.randrange(7), 0, 0, 0, types.get(i, 120) + 1, i % 256, 0] + rbytes(r, r.randrange(12))
            out.append(dict(S='break', K=k, I=i, B=b, N=r.randrange(1, 12)))
            if k in ('werr', 'wpart', 'stall', 'close') and not st.get('last'):
                n = 100 + len(out)
                f = callargs(r, n, 124)
                types[n] = 124
                for n2 in (n, n + 1, n + 2):
                    f = callargs(r, n2, 124)
                    out.append(dict(S='call', I=n2, Ty=124, F=f, Key=enc(124, [0, 0], f)))
        else:
            down = down or s == 'jam'
            out.append(dict(S=s, I=i, N=st['n']))
    if not down:
        rest = [i for i in types if i not in answered]
        r.shuffle(rest)
        for i in rest:
            out.append(dict(S='reply', I=i, B=rreply(r, types[i], 'ok')))
    sc = dict(Steps=out, Cuts=list(cuts), Trace=r.randrange(3) == 0, Seed=r.randrange(1 << 30))
    sc.update(kw)
    return sc


def trace(ev):
    out = []
    for e in ev:
        e = dict(e)
        if e['e'] == 'end' and e.get('crash'):
            e = dict(e='end', crash=True, hung=[], rest=[], busy=False)
        if e['e'] == 'fids':
            e['ids'] = [x - (1 << 31) for x in e['ids']]     # TLC's integers
        out.append(e)
    return dict(ev=out)


def C(i, ty=None):
    return dict(s='call', i=i, ty=ty)


def A(i, k='ok'):
    return dict(s='reply', i=i, k=k)


def W(i):
    return dict(s='wait', i=i)


def d_orders(r):
    """All orders of answering four calls, each type of call with each kind of
    answer."""
    import itertools
    out = []
    for perm in itertools.permutations(range(1, 5)):
        out.append([C(i) for i in range(1, 5)] + [dict(s='sync')] + [A(i) for i in perm] + [C(5), A(5), W(5)])
    for ty in REQ:
        for k in ('ok', 'err'):
            out.append([C(1, ty), C(2, ty), C(3, ty), A(2, k), W(2), A(1, k), C(4, ty), A(4, 'ok'), A(3, k)])
    return out


def d_odd(r):
    """Each type of call with each wrong type of reply, and odd replies with
    calls waiting."""
    out = []
    for ty in REQ:
        st = []
        i = 0
        for k in ('wrong', 'bad', 'bad', 'wrong', 'bad', 'wrong', 'bad', 'ok'):
            i += 2
            st += [C(i, ty), C(i + 1), A(i, k), W(i), A(i + 1), W(i + 1)]
        out.append(st)
    for k in ('zero', 'notag', 'free', 'free', 'free'):
        out.append([dict(s='stray', k=k, i=0), C(1), dict(s='stray', k=k, i=0), A(1), W(1), dict(s='stray', k=k, i=0),
                    C(2), C(3), dict(s='stray', k=k, i=0), A(3), A(2), W(2), W(3)])
    # the same reply twice, once more later, and with other calls in between
    for n in (1, 2, 3):
        out.append([C(1), A(1)] + [dict(s='stray', k='dup', i=1)] * n + [W(1), C(2), dict(s='stray', k='dup', i=1), C(3), A(3), A(2), W(2)])
    return out


def d_break(r):
    """Every kind of failure, with none, one or many calls waiting, some
    answered just before, and calls afterwards."""
    out = []
    for k in ('eof', 'err', 'mid', 'hdr', 'badsize', 'werr', 'wpart', 'stall', 'close'):
        for n in (0, 1, 2, 5):
            for ans in (0, 1):
                if ans > n:
                    continue
                for sync in (0, 1):
                    st = [C(i) for i in range(1, n + 1)]
                    if sync:
                        st.append(dict(s='sync'))
                    if ans:
                        st += [A(1)] + ([W(1)] if sync else [])
                    st.append(dict(s='break', k=k, i=n if n > ans and sync else 0))
                    st += [C(20), C(21), W(20), C(22), W(22)]
                    out.append(st)
    return out


def d_idlebreak(r):
    """A connection that fails while nothing goes on, or just one thing."""
    out = []
    for k in ('eof', 'err', 'hdr', 'badsize', 'close', 'werr', 'wpart'):
        for before in ([], [C(1), A(1), W(1)], [C(1), C(2), A(2), A(1), W(1), W(2)], [C(1), dict(s='sync')]):
            for after in ([], [C(20), W(20)]):
                out.append(script(r, before + [dict(s='break', k=k, i=0)] + after))
    for n in (1, 2, 50):
        for i in (0, 1):
            out.append(script(r, [dict(s='jam', n=n, i=i)]))
            out.append(script(r, [C(1), A(1), W(1), dict(s='jam', n=n, i=i)]))
    return out


def d_kinds(r):
    """Each type of call with each kind of answer, and then all tags at once."""
    out = []
    for part in (REQ[:6], REQ[6:]):
        st, i = [], 0
        for ty in part:
            for k in ('ok', 'err', 'wrong', 'bad', 'bad'):
                i += 1
                st += [C(i, ty), A(i, k), W(i)]
        out.append(st + [dict(s='bulk', n=65534)])
    return out


def d_pause(r, ms):
    """Long silences, with and without calls waiting."""
    p = dict(s='pause', i=0, n=ms)
    st = [C(1), C(2), A(1), W(1), C(3), dict(s='sync'), p, A(3), W(3), C(4), A(4), W(4), C(5), dict(s='sync')]
    return [st[:5] + [A(2), A(3), W(2), W(3), p, C(4), A(4), W(4)], st + [A(2), W(2), A(5), W(5)],
            st + [dict(s='stray', k='dup', i=4), A(5), W(5), dict(s='break', k='eof', i=0), W(2), C(20), W(20)],
            [C(1), A(1), W(1), dict(s='break', k='eof', i=0), C(2), W(2), p, C(20), W(20)]]


def d_types(r, ty):
    """A call of type ty with replies of every type, each with what would be
    right for the right one."""
    st = []
    for t in range(256):
        if t not in (ty + 1, 107):
            f = callargs(r, t + 1, ty)
            st += [dict(S='call', I=t + 1, Ty=ty, F=f, Key=enc(ty, [0, 0], f)),
                   dict(S='reply', I=t + 1, B=frame(t, [0, 0], encfields(LAYOUT[ty + 1], rfields(r, ty + 1)))), dict(S='wait', I=t + 1)]
    return dict(Steps=st, Cuts=[], Trace=False, Seed=1)


def d_bad(r):
    """Each type of call with replies, and errors, that are malformed in every
    way."""
    out = []
    for ty in REQ:
        bs = []
        for t in (ty + 1, 107):
            for f in shapes(r, t):
                bs += [frame(t, [0, 0], b) for b in badbodies(r, LAYOUT[t], f, 30)]
        for j in range(0, len(bs), 40):
            st, i = [], 0
            for b in bs[j:j + 40]:
                i += 1
                f = callargs(r, i, ty)
                st += [dict(S='call', I=i, Ty=ty, F=f, Key=enc(ty, [0, 0], f)), dict(S='reply', I=i, B=b), dict(S='wait', I=i)]
            out.append(dict(Steps=st, Cuts=[], Trace=False, Seed=1))
    return out


def d_mid(r):
    """A reply cut at every place."""
    out = []
    for ty in (116, 110, 120, 124):
        full = rreply(r, ty, 'ok')
        for n in range(0, len(full)):
            f1, f2 = callargs(r, 1, ty), callargs(r, 2, ty)
            out.append(dict(Steps=[dict(S='call', I=1, Ty=ty, F=f1, Key=enc(ty, [0, 0], f1)),
                                   dict(S='sync'),
                                   dict(S='break', K='mid', I=1 if n >= 7 else 0, B=full[:n], N=0),
                                   dict(S='wait', I=1),
                                   dict(S='call', I=2, Ty=ty, F=f2, Key=enc(ty, [0, 0], f2))],
                            Cuts=r.choice([[], [1], [3]]), Trace=False, Seed=1))
    # whole replies that say they are longer
    for ty in REQ:
        for k in ('ok', 'err'):
            for more in (1, 2, 13, 256, 65536, 70000, r.randrange(2, 255) << 16, 1 << 24, 1 << 30, 1 << 31, (1 << 32) - 512):
                if more >= 1 << 26 and ty not in (104, 116, 124):
                    continue
                full = rreply(r, ty, k)
                full = le(len(full) + more, 4) + full[4:]
                f1, f2 = callargs(r, 1, ty), callargs(r, 2, ty)
                out.append(dict(Steps=[dict(S='call', I=1, Ty=ty, F=f1, Key=enc(ty, [0, 0], f1)),
                                       dict(S='sync'),
                                       dict(S='break', K='mid', I=1, B=full, N=0),
                                       dict(S='wait', I=1),
                                       dict(S='call', I=2, Ty=ty, F=f2, Key=enc(ty, [0, 0], f2))],
                                Cuts=r.choice([[], [1], [3]]), Trace=False, Seed=1, Huge=more >= 1 << 26))
    return out
