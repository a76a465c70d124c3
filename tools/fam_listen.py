"""Scenarios for listeners (C28)."""

TEMP = ['temp', 'temp', 'temp', 'temptimeout', 'optemp']
FATAL = ['fatal', 'timeout', 'plain', 'half', 'opfatal']


def history(r, n, length):
    """A random history of n listeners."""
    st = {l: 'idle' for l in range(1, n + 1)}
    run = {l: 0 for l in st}
    steps, conns, c = [], [], 0

    def on():
        return [l for l in st if st[l] == 'on']
    for _ in range(length):
        x = r.random()
        idle = [l for l in st if st[l] == 'idle']
        if idle and (x < 0.2 or not on()):
            l = r.choice(idle)
            steps.append(dict(S='serve', L=l))
            st[l] = 'on'
            if r.randrange(4) == 0:
                # a shutdown at the same time may or may not get it
                steps += [dict(S='pause', N=r.choice([0, 5, 50]))] * r.randrange(2) + [dict(S='shut', Bg=True), dict(S='down')]
                st[l] = 'unknown'
                for m in on():
                    steps.append(dict(S='served', L=m))
                    st[m] = 'over'
            else:
                steps.append(dict(S='asked', L=l))
        elif on() and x < 0.45:
            l = r.choice(on())
            c += 1
            steps += [dict(S='give', L=l, K='conn', C=c), dict(S='asked', L=l)]
            conns.append(c)
            run[l] = 0
        elif on() and x < 0.6:
            l = r.choice(on())
            if run[l] < 5:
                run[l] += 1
                steps.append(dict(S='give', L=l, K=r.choice(TEMP)))
                if r.randrange(4):
                    steps.append(dict(S='asked', L=l))
        elif on() and x < 0.66:
            l = r.choice(on())
            steps += [dict(S='give', L=l, K=r.choice(FATAL)), dict(S='served', L=l)]
            st[l] = 'over'
        elif x < 0.72:
            if r.randrange(2) and on():
                # with something coming in just then
                l = r.choice(on())
                c += 1
                steps.append(dict(S='give', L=l, K=r.choice(['conn', 'conn', 'temp']), C=c))
                conns.append(c)
                st[l] = 'hit'
            two = r.randrange(3) == 0
            steps += [dict(S='shut', Bg=two or r.randrange(2) == 0)] + [dict(S='shut', Bg=True)] * two + [dict(S='down')]
            for l in st:
                if st[l] in ('on', 'hit'):
                    steps.append(dict(S='served', L=l))
                    st[l] = 'over'
        elif x < 0.78:
            c += 1
            steps.append(dict(S='direct', C=c))
            conns.append(c)
        elif x < 0.82 and conns:
            d = r.choice(conns)
            conns.remove(d)
            # its requests are over by then
            steps += [dict(S='tell', C=d), dict(S='drop', C=d)] if r.randrange(2) else []
        elif conns:
            steps.append(dict(S='tell', C=r.choice(conns)))
    steps += [dict(S='tell', C=d) for d in conns]
    return dict(N=n, Steps=steps, Bad=[l for l in st if r.randrange(5) == 0], Trace=r.randrange(3) == 0)


def directed(r, many):
    out = []
    for k in ('temp', 'temptimeout', 'optemp'):
        # temporary errors, one after the other, with and without connections between
        steps = [dict(S='serve', L=1)]
        for _ in range(many):
            steps += [dict(S='give', L=1, K=k), dict(S='asked', L=1)]
        steps += [dict(S='give', L=1, K='conn', C=1), dict(S='tell', C=1), dict(S='asked', L=1), dict(S='shut'), dict(S='served', L=1), dict(S='tell', C=1)]
        out.append(dict(N=1, Steps=steps))
        steps = [dict(S='serve', L=1)]
        for c in range(1, 30):
            steps += [dict(S='give', L=1, K=k), dict(S='give', L=1, K='conn', C=c), dict(S='asked', L=1), dict(S='tell', C=c)]
        steps += [dict(S='tell', C=c) for c in range(1, 30)] + [dict(S='give', L=1, K='fatal'), dict(S='served', L=1)]
        steps += [dict(S='tell', C=c) for c in range(1, 30)]
        out.append(dict(N=1, Steps=steps))
    for k in FATAL:
        for pre in ([], [dict(S='give', L=1, K='conn', C=1), dict(S='asked', L=1)], [dict(S='give', L=1, K='temp')]):
            out.append(dict(N=2, Steps=[dict(S='serve', L=2), dict(S='serve', L=1), dict(S='asked', L=1)] + pre +
                            [dict(S='give', L=1, K=k), dict(S='served', L=1), dict(S='asked', L=2), dict(S='give', L=2, K='conn', C=2),
                             dict(S='tell', C=2), dict(S='asked', L=2)] + [dict(S='tell', C=1)] * any(p.get('C') for p in pre) +
                            [dict(S='shut'), dict(S='served', L=2), dict(S='tell', C=2)]))
    # many connections, that stay or go
    for keep in (0, 1, 2):
        steps, there = [dict(S='serve', L=1)], []
        for c in range(1, 7 * many):
            steps += [dict(S='give', L=1, K='conn', C=c), dict(S='tell', C=c)]
            there.append(c)
            if keep == 0 or keep == 1 and len(there) > 5:
                steps.append(dict(S='drop', C=there.pop(r.randrange(len(there)))))
        steps += [dict(S='tell', C=d) for d in there[::-1]] + [dict(S='asked', L=1), dict(S='shut'), dict(S='served', L=1)]
        steps += [dict(S='tell', C=d) for d in there]
        out.append(dict(N=1, Steps=steps))
    # many listeners, some of which fail to close
    for n in (1, 2, 3, 5):
        for bad in ([], [1], list(range(1, n)), list(range(1, n + 1))):
            steps = [dict(S='serve', L=l) for l in range(1, n + 1)] + [dict(S='asked', L=l) for l in range(1, n + 1)]
            steps += [dict(S='give', L=l, K='conn', C=l) for l in range(1, n + 1)] + [dict(S='asked', L=l) for l in range(1, n + 1)]
            steps += [dict(S='tell', C=l) for l in range(1, n + 1)] + [dict(S='shut')] + [dict(S='served', L=l) for l in range(1, n + 1)]
            steps += [dict(S='tell', C=l) for l in range(1, n + 1)] + [dict(S='direct', C=n + 1), dict(S='tell', C=n + 1), dict(S='shut')]
            # a listener served after a shutdown is served, and shut down by the next
            steps += [dict(S='serve', L=n + 1), dict(S='asked', L=n + 1), dict(S='give', L=n + 1, K='conn', C=n + 2), dict(S='asked', L=n + 1),
                      dict(S='tell', C=n + 2), dict(S='shut'), dict(S='served', L=n + 1), dict(S='tell', C=n + 2), dict(S='tell', C=1)]
            out.append(dict(N=n + 1, Bad=bad, Steps=steps))
    return out


def trace(sc, ev):
    return dict(n=sc['N'], ev=[dict(e='end', crash=True, made=0) if e.get('crash') else e for e in ev])
