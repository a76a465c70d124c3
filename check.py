#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's working tree. See DESIGN.md."""
import os, random, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import fam_wire as fw
import wire
import fam_ufs as fu
import fam_client as fc
import fam_rpc as fr
import fam_hostile as fh
import fam_listen as fl

CHECKS = {}


def pmap(f, xs):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(f, xs))


def check(*ids):
    def deco(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return deco


# -- C01..C05: messages and the serving loop --------------------------------
def srv_family(c, scs, tag=None):
    """Runs connections against the real serving loop and validates them."""
    evs = c.run('srv', scs)
    keep = [i for i in range(len(scs)) if not (evs[i] and evs[i][0].get('e') == 'skipped')]
    scs = [scs[i] for i in keep]
    traces = [fw.srv_trace(s, evs[i]) for s, i in zip(scs, keep)]
    mis = c.validate('ServerTrace', 'ServerTrace.cfg', scs, traces)
    return mis, scs, traces


@check('C01')
def c01(c):
    c.model_bg('ServerMC')
    r = c.rng
    scs = []
    for j in range(c.scale(260, 3000)):
        ms = fw.stream(r, dict(ok=6, bad=1, unk=2, ver=1), r.choice([1, 2, 5, 12, 25]), gate=r.randrange(8) > 0)
        kw = {}
        if j % 3 == 0:
            kw = dict(Gates=fw.lockstep(ms), Eof='open')
        elif j % 3 == 1:
            kw = dict(Eof='open')
        scs.append(fw.scenario(r, ms, **kw))
    # every type byte, before and after the gate
    for lo in range(0, 256, 32):
        ms = [fw.version(r)] + [fw.frame(t, fw.rtag(r), []) for t in range(lo, lo + 32) if t != 100]
        scs.append(fw.scenario(r, ms, Eof='open'))
    # every request type with equal tags, pipelined; big replies and requests
    for tag in ([0, 0], [255, 255], [7, 0]):
        ms = [fw.version(r)] + [wire.enc(t, tag, wire.rfields(r, t)) for t in wire.REQ]
        scs.append(fw.scenario(r, ms, Eof='open'))
    for n in (8191, 65535, 70000):
        ms = [fw.version(r), wire.enc(118, [1, 0], [[1, 0, 0, 0], [0] * 8, [(x * 7) % 256 for x in range(n)]]),
              wire.enc(116, [2, 0], [[1, 0, 0, 0], [0] * 8, [255, 255, 0, 0]]), wire.enc(120, [3, 0], [[1, 0, 0, 0]])]
        ans = fw.ranswers(r)
        ans['116'] = [dict(F=[[(x * 11) % 256 for x in range(n)]])]
        ans['120'] = [dict(Err=[(97 + x % 26) for x in range(n)])]
        scs.append(fw.scenario(r, ms, Ans=ans, Eof='open'))
    # many messages in one go
    ms = [fw.version(r)] + [fw.request(r) for _ in range(c.scale(150, 600))]
    scs.append(fw.scenario(r, ms, Eof='open'))
    # long connections
    for lock in (0, 1):
        ms = [fw.version(r)] + [wire.enc(t, fw.rtag(r), wire.rfields(r, t)) for t in r.choices([120, 122, 108, 116, 124], k=c.scale(4500, 20000))]
        scs.append(fw.scenario(r, ms, Eof='open', Gates=fw.lockstep(ms) if lock else []))
    c.take(*srv_family(c, scs), 'srv', 'ServerTrace')


@check('C02')
def c02(c):
    c.model_bg('ServerMC')
    r = c.rng
    whole, cut = [], []
    for j in range(c.scale(110, 1200)):
        ms = fw.stream(r, dict(ok=6, bad=1, unk=1, ver=1), r.choice([1, 2, 4, 8]), gate=r.randrange(8) > 0)
        s = [x for m in ms for x in m]
        end = r.choice(['eof', 'eof', 'err', 'tail', 'open'])
        c3 = r.randrange(3)
        if c3 == 0:
            s = s[:r.randrange(len(s) + 1)]
        elif c3 == 1 and r.randrange(2):
            # a size that cannot be, with more behind it
            s = s + r.choice([[n, 0, 0, 0, 120, 1, 0, 5, 0, 0, 0] for n in range(7)]) + fw.request(r, 120)
        base = fw.scenario(r, [s], Eof=end)
        whole.append(base)
        for _ in range(3):
            cut.append((len(whole) - 1, dict(base, Cuts=fw.cuts(r, len(s)))))
    # every split point and every end of one short conversation
    ms = [fw.version(r), fw.request(r, 120), wire.enc(110, [5, 0], [[1, 0, 0, 0], [2, 0, 0, 0], [[97], [98, 99]]])]
    s = [x for m in ms for x in m]
    base = fw.scenario(r, [s], Eof='eof')
    for n in range(1, len(s)):
        whole.append(dict(base, In=s[:n]))
        cut.append((len(whole) - 1, dict(base, In=s[:n], Cuts=[1])))
        cut.append((len(whole) - 1, dict(base, In=s, Cuts=[n, 1 << 20])))
    # messages that say they are longer than what comes
    for j in range(c.scale(60, 600)):
        ms = fw.stream(r, dict(ok=6, ver=1), r.choice([0, 1, 3]))
        m = fw.request(r)
        more = r.choice([1, 2, 256, 65536, 70000, r.randrange(1, 255) << 16, 1 << 24, r.randrange(1, 255) << 24, (1 << 31) + 65536, (1 << 32) - 1 - len(m)])
        m = wire.le(len(m) + more, 4) + m[4:]
        base = fw.scenario(r, ms + [m] + ([fw.request(r)] if more > 60000 and r.randrange(2) else []), Eof=r.choice(['eof', 'err', 'open']),
                           Huge=more >= 1 << 26)
        whole.append(base)
        cut.append((len(whole) - 1, dict(base, Cuts=fw.cuts(r, 60))))
    scs = whole + [x for _, x in cut]
    mis, scs, traces = srv_family(c, scs)
    c.take(mis, scs, traces, 'srv', 'ServerTrace')
    # what happens whole happens in pieces
    bad = {m['i'] for m in mis}
    nw = len(whole)
    if len(scs) == nw + len(cut):
        for j, (w, _) in enumerate(cut):
            if nw + j in bad and w not in bad:
                m = next(m for m in mis if m['i'] == nw + j)
                if 'C02' not in m['blame']:
                    m['blame'] = list(m['blame']) + ['C02']
                    c.take([m], scs, traces, 'srv', 'ServerTrace')


    # the client's half
    sts = client_gen(c, 'plain', c.scale(50, 500), 16) + client_gen(c, 'break', c.scale(70, 500), 12)
    seeds = [r.randrange(1 << 30) for _ in sts]
    whole = [fc.script(random.Random(x), st) for x, st in zip(seeds, sts)]
    scs = whole + [dict(w, Cuts=fw.cuts(r, 60)) for w in whole] + [dict(w, Cuts=[1]) for w in whole] + fc.d_mid(r)
    mis, scs, traces = client_run(c, scs)
    bad = {m['i'] for m in mis}
    for m in mis:
        if len(whole) <= m['i'] < 3 * len(whole) and len(scs) >= 3 * len(whole) and m['i'] % len(whole) not in bad:
            m['blame'] = sorted(set(m['blame']) | {'C02'})
    c.take(mis, scs, traces, 'client', 'ClientTrace')


def c03_scenarios(c, num):
    r = c.rng
    scs = []
    for j in range(num):
        ms = fw.stream(r, dict(ok=2, bad=6), r.choice([2, 5, 10]))
        kw = dict(Eof='open')
        if j % 2:
            kw['Gates'] = fw.lockstep(ms)
        scs.append(fw.scenario(r, ms, **kw))
    # every truncation of one request of each type, and every wrong count
    for t in wire.REQ:
        for f in wire.shapes(r, t, 2):
            ms = [fw.version(r)]
            ms += [fw.frame(t, fw.rtag(r), b) for b in wire.badbodies(r, wire.LAYOUT[t], f)]
            ms.append(wire.enc(120, [9, 9], [[1, 2, 3, 4]]))
            scs.append(fw.scenario(r, ms, Eof='open'))
    return scs


@check('C03')
def c03(c):
    c.model_bg('WireMC')
    c.take(*srv_family(c, c03_scenarios(c, c.scale(220, 2500))), 'srv', 'ServerTrace')


@check('C04')
def c04(c):
    c.model_bg('ServerMC')
    r = c.rng
    scs = []
    for j in range(c.scale(200, 2000)):
        ms = fw.stream(r, dict(ok=6, bad=1, unk=1), r.choice([1, 3, 8]), gate=False)
        if r.randrange(3):
            ms += [fw.version(r)] + fw.stream(r, dict(ok=6, ver=1), r.choice([1, 4]), gate=False)
        kw = dict(Eof='open')
        if j % 2:
            kw['Gates'] = fw.lockstep(ms)
        scs.append(fw.scenario(r, ms, **kw))
    for t in wire.REQ:
        if t != 100:
            for tag in ([0, 0], [255, 255], [1, 2]):
                ms = [wire.enc(t, tag, wire.rfields(r, t)) for _ in range(3)]
                scs.append(fw.scenario(r, ms + [fw.version(r)] + ms, Eof='open'))
    for lo in range(0, 256, 32):
        ms = [fw.frame(t, fw.rtag(r), []) for t in range(lo, lo + 32) if t != 100]
        scs.append(fw.scenario(r, ms, Eof='open'))
    # version requests that are refused, before and after one that is not
    for t in wire.REQ:
        good = fw.version(r)
        odd = [fw.malformed(r, 100), wire.enc(100, fw.rtag(r), [wire.rint(r, 4), wire.rbytes(r, 4)]),
               wire.enc(100, fw.rtag(r), [wire.rint(r, 4), []]), fw.frame(100, fw.rtag(r), [])]
        for x in odd:
            scs.append(fw.scenario(r, [good, x, wire.enc(t, fw.rtag(r), wire.rfields(r, t)), fw.request(r)], Eof='open'))
            scs.append(fw.scenario(r, [x, wire.enc(t, fw.rtag(r), wire.rfields(r, t)), good, x, fw.request(r, t)], Eof='open'))
        # and one the file server refuses
        ans = fw.ranswers(r)
        ans['100'] = [dict(Err=list(b'no')), dict(F=wire.rfields(r, 101)), dict(Err=list(b'no'))]
        ms = [fw.version(r), fw.request(r, t), fw.version(r), fw.request(r, t), fw.version(r), fw.request(r, t)]
        scs.append(fw.scenario(r, ms, Ans=ans, Eof='open'))
    # many refused ones do not open the gate
    ms = [fw.request(r, r.choice([t for t in wire.REQ if t != 100])) for _ in range(c.scale(120, 600))]
    scs.append(fw.scenario(r, ms, Eof='open'))
    c.take(*srv_family(c, scs), 'srv', 'ServerTrace')


def c05_scenarios(c, num):
    scs = fw.codec_sweep()
    for j in range(num):
        scs.append(dict(Steps=fw.codec_steps(c.rng, 8, big=(65535, 40000, 32768) if j % 20 == 0 else ())))
    return scs


def codec_run(c, scs):
    evs = c.run('codec', scs)
    keep = [i for i in range(len(scs)) if evs[i] and evs[i][0].get('e') != 'skipped']
    scs = [scs[i] for i in keep]
    traces = [dict(ev=evs[i]) for i in keep]
    return c.validate('CodecTrace', 'CodecTrace.cfg', scs, traces), scs, traces


@check('C05')
def c05(c):
    c.model_bg('WireMC')
    c.take(*codec_run(c, c05_scenarios(c, c.scale(150, 3000))), 'codec', 'CodecTrace')


LEVELS = {}


# -- C13..C26: the file server ------------------------------------------------
def ufs_run(c, scs):
    """Runs histories against the real file server and validates them."""
    evs = c.run('ufs', [s['sc'] for s in scs])
    keep = [i for i in range(len(scs)) if not (evs[i] and evs[i][0].get('e') == 'skipped')]
    scs = [scs[i] for i in keep]
    traces = [fu.trace(s, evs[i]) for s, i in zip(scs, keep)]
    mis = c.validate('UfsTrace', 'UfsTrace.cfg', scs, traces)
    return mis, [s['sc'] for s in scs], traces


def ufs_gen(c, focus, num, length, conns=1, fids=4, hosting=False):
    gen = c.generate('UfsGen', 'UfsGen.cfg', num, length + 5,
                     env=dict(FOCUS=focus, LEN=str(length), CONNS=str(conns), FIDS=str(fids),
                             HOSTING=str(int(hosting))))
    opss = [fu.expand(g['ops']) for g in gen]
    return [fu.scenario(c.rng, g['init'], ops + fu.exam(ops)) for g, ops in zip(gen, opss)]


def some(c, hs, n):
    return hs if c.thorough or len(hs) <= n else c.rng.sample(hs, n)


UFS = {
    # property: connections in the random histories, directed histories
    'C13': (2, lambda c: fu.d_fids(c.rng) + fu.d_idle(c.rng, c.scale(6000, 90000)) + fu.d_open(c.rng, 0.3) + fu.d_crowd(c.rng)),
    'C14': (1, lambda c: fu.d_walk(c.rng) + some(c, fu.d_links(c.rng), 120)),
    'C15': (2, lambda c: fu.d_open(c.rng) + some(c, fu.d_links(c.rng), 120)),
    'C16': (1, lambda c: fu.d_io(c.rng, c.thorough)),
    'C17': (1, lambda c: fu.d_dir(c.rng)),
    'C18': (1, lambda c: fu.d_escape(c.rng) + some(c, fu.d_links(c.rng), 120)),
    'C19': (1, lambda c: fu.d_create(c.rng, c.scale(0.6, 1)) + some(c, fu.d_links(c.rng), 120)),
    'C20': (2, lambda c: fu.d_remove(c.rng) + some(c, fu.d_links(c.rng), 120)),
    'C21': (1, lambda c: fu.d_wstat(c.rng, c.scale(0.15, 1)) + some(c, fu.d_links(c.rng), 120)),
    'C22': (1, lambda c: fu.d_dir(c.rng, 30) + fu.d_create(c.rng, 0.1) + fu.d_wstat(c.rng, 0.03) + fu.d_touch(c.rng) + fu.d_links(c.rng)),
    'C23': (1, lambda c: fu.d_msize(c.rng)),
    'C24': (2, lambda c: fu.d_version(c.rng)),
    'C31': (2, lambda c: fu.d_links(c.rng)),
    'C26': (1, lambda c: fu.d_create(c.rng, 0.25) + fu.d_wstat(c.rng, 0.06) + fu.d_remove(c.rng) + fu.d_walk(c.rng)[::3]
            + some(c, fu.d_links(c.rng), 150)),
}


@check(*UFS)
def c_ufs(c):
    big = c.scale('', '-big')
    c.model_bg('UfsMC', 'UfsMC-io%s.cfg' % big, workers=2)
    c.model_bg('UfsMC', 'UfsMC-tree%s.cfg' % big, workers=2)
    if c.prop == 'C31':
        c.model_bg('UfsMC', 'UfsMC-link%s.cfg' % big, workers=2)
    conns, directed = UFS[c.prop]
    scs = ufs_gen(c, c.prop, c.scale(120, 1200), 45, conns=conns) if c.prop != 'C23' else []
    if c.prop != 'C23':
        scs += ufs_gen(c, c.prop, c.scale(80, 800), 45, conns=conns, hosting=True)
    extra = fu.d_special(c.rng) if c.prop not in ('C23', 'C24') else []
    swaps = fu.d_swap(c.rng, c.scale(40, 400)) if c.prop not in ('C18', 'C23', 'C24') else []
    scs += fu.finish(c.rng, directed(c) + extra + swaps, c.prop)
    c.take(*ufs_run(c, scs), 'ufs', 'UfsTrace')


@check('C25')
def c25(c):
    c.model_bg('UfsMC', 'UfsMC-two%s.cfg' % c.scale('', '-big'), workers=2)
    gen = c.generate('UfsGen', 'UfsGen.cfg', c.scale(120, 1200), 70,
                     env=dict(FOCUS='C25', LEN='65', CONNS='3', FIDS='4', HOSTING='0'))
    busy = [fu.d_stress(c.rng, n, c.scale(600, 3000) // n) for n in [8, 4, 2] * c.scale(2, 8)]
    pairs = [fu.confined(c.rng, g, True, 2000) for g in busy] + [fu.confined(c.rng, g, j % 2 == 1) for j, g in enumerate(gen)]
    gen = busy + gen
    scs = [a for a, _ in pairs]
    evs = c.run('ufs', [s['sc'] for s in scs])
    keep = [i for i in range(len(scs)) if not (evs[i] and evs[i][0].get('e') == 'skipped')]
    traces = [fu.trace(scs[i], evs[i]) for i in keep]
    mis = c.validate('UfsTrace', 'UfsTrace.cfg', scs, traces)
    # What goes wrong for a connection on its own as well does not come from
    # the others; what goes wrong on its own but not in its last session alone
    # comes from the one before. Each runs in a process of its own, should the
    # process be what they share.
    def alone(twins):
        """twins are pairs of a mismatch and a scenario; the mismatches that show there too."""
        ss = [s for _, s in twins]
        evs = sum(pmap(lambda s: c.run('ufs', [s['sc']]), ss), [])
        ok = [i for i in range(len(ss)) if not (evs[i] and evs[i][0].get('e') == 'skipped')]
        bad = {ok[m['i']] for m in c.validate('UfsTrace', 'UfsTrace.cfg', ss, [fu.trace(ss[i], evs[i]) for i in ok])}
        return {id(twins[i][0]) for i in range(len(ss)) if i in bad or i not in ok}
    mis = mis[:20]
    first = alone([(m, s) for m in mis for s in pairs[keep[m['i']]][1].values()])
    more = [(m, fu.session(gen[keep[m['i']]], scs[keep[m['i']]], traces[m['i']], m['k'] - 1)) for m in mis if id(m) in first]
    again = [(m, s) for m, s in more if s]
    first = first - {id(m) for m, _ in again} | alone(again)
    for m in mis:
        m['blame'] = ['C25'] if id(m) not in first else [b for b in m['blame'] if b != 'C25']
    c.take(mis, [scs[i]['sc'] for i in keep], traces, 'ufs', 'UfsTrace')


# -- C08..C12: the client -----------------------------------------------------
def client_run(c, scs, heap='6g'):
    evs = c.run('client', scs)
    keep = [i for i in range(len(scs)) if not (evs[i] and evs[i][0].get('e') == 'skipped')]
    scs = [scs[i] for i in keep]
    traces = [fc.trace(evs[i]) for i in keep]
    mis = c.validate('ClientTrace', 'ClientTrace.cfg', scs, traces)
    return mis, scs, traces


def client_gen(c, focus, num, length=26):
    return [g['steps'] for g in c.generate('ClientGen', 'ClientGen.cfg', num, length + 5, env=dict(FOCUS=focus, LEN=str(length)))]


def piece(c):
    return fw.cuts(c.rng, 60) if c.rng.randrange(2) else []


BIG = (65535, 40000, 8168)


@check('C08')
def c08(c):
    c.model_bg('ClientMC', workers=3)
    r = c.rng
    scs = [fc.script(r, st, piece(c)) for st in client_gen(c, 'plain', c.scale(240, 3000)) + fc.d_orders(r)]
    scs += [fc.script(r, st, piece(c), arm=0.9) for st in client_gen(c, 'plain', c.scale(60, 600))]
    scs += [fc.script(r, st, big=BIG) for st in fc.d_orders(r)[:c.scale(6, 24)]]
    scs += [fc.script(r, [dict(s='bulk', n=n)]) for n in (2, 50, 1000, 5000, 65534)]
    scs += pauses(c)
    c.take(*client_run(c, scs), 'client', 'ClientTrace')


def pauses(c):
    """Scenarios with silences."""
    return [fc.script(c.rng, st, arm=0) for n in (1500, 4000, c.scale(11000, 125000)) for st in fc.d_pause(c.rng, n)]


@check('C09')
def c09(c):
    c.model_bg('ClientMC', workers=3)
    c.model_bg('ClientMC', 'ClientMC-big.cfg', workers=3)
    r = c.rng
    scs = [fc.script(r, st) for st in client_gen(c, 'plain', c.scale(120, 1500))]
    scs += [fc.script(r, st) for st in client_gen(c, 'odd', c.scale(60, 800))]
    pin = [fc.C(i) for i in range(1, 9)] + [dict(s='sync')]
    errs = [x for i in range(10, 34) for x in (fc.C(i), fc.A(i, r.choice(['err', 'ok', 'err'])), fc.W(i))]
    scs += [fc.script(r, pin + errs[:30] + [dict(s='churn', n=n)] + errs[30:] + [fc.A(3), fc.W(3), dict(s='churn', n=2000)], arm=0)
            for n in ([66000, 140000] if not c.thorough else [66000, 140000, 300000])]
    # all tags at once, twice, also with some in use already
    scs += [fc.script(r, [dict(s='bulk', n=65534), dict(s='bulk', n=65534)]),
            fc.script(r, pin + [dict(s='bulk', n=65534 - 8)] + [fc.A(1), fc.W(1)] + [dict(s='churn', n=500), dict(s='bulk', n=65534 - 7)], arm=0),
            fc.script(r, pin + [dict(s='bulk', n=1000)] * 70, arm=0)]
    scs += pauses(c)
    # every kind of answer gives its tag back
    scs += [fc.script(r, st, arm=0) for st in fc.d_kinds(r)]
    # more calls than tags
    scs += [fc.script(r, [dict(s='flood', n=n)]) for n in ([70000, 66000] if not c.thorough else [66000, 70000, 140000, 200000])]
    scs += [fc.script(r, pin + [dict(s='flood', n=67000, i=8), fc.A(2), fc.W(2), dict(s='churn', n=100)], arm=0)]
    c.take(*client_run(c, scs), 'client', 'ClientTrace')


@check('C10')
def c10(c):
    c.model_bg('ClientMC', workers=3)
    r = c.rng
    scs = [fc.script(r, st, piece(c)) for st in client_gen(c, 'break', c.scale(300, 3000)) + fc.d_break(r)]
    scs += fc.d_mid(r)
    scs += pauses(c)
    # more calls than the client can queue, and than there are tags
    for n, i in [(70000, 0), (140000, 1)] + c.scale([], [(200000, 0), (68000, 1)]):
        scs.append(fc.script(r, [dict(s='jam', n=n, i=i), fc.C(20), fc.C(21), fc.W(20), fc.W(21)]))
    c.take(*client_run(c, scs), 'client', 'ClientTrace')


@check('C33')
def c33(c):
    c.model_bg('ClientMC', workers=3)
    r = c.rng
    scs = [fc.script(r, st, piece(c)) for st in client_gen(c, 'break', c.scale(250, 2500)) + client_gen(c, 'all', c.scale(60, 600)) + fc.d_break(r)]
    scs += fc.d_mid(r) + fc.d_idlebreak(r)
    for n, i in [(3000, 0), (3000, 1), (70000, 0)]:
        scs.append(fc.script(r, [dict(s='jam', n=n, i=i), fc.C(20), fc.C(21), fc.W(20), fc.W(21)]))
    scs = [dict(s, Split=j % 3 > 0) for j, s in enumerate(scs)]
    c.take(*client_run(c, scs), 'client', 'ClientTrace')


@check('C11')
def c11(c):
    c.model_bg('ClientMC', workers=3)
    r = c.rng
    scs = [fc.script(r, st, piece(c)) for st in client_gen(c, 'odd', c.scale(300, 3000)) + fc.d_odd(r) + fc.d_odd(r)]
    scs += [fc.script(r, st) for st in client_gen(c, 'all', c.scale(60, 600))]
    scs += fc.d_bad(r) + [fc.d_types(r, ty) for ty in wire.REQ]
    c.take(*client_run(c, scs), 'client', 'ClientTrace')


@check('C12')
def c12(c):
    c.model_bg('ClientMC', workers=3)
    r = c.rng
    mix = [x for i in range(1, 20) for x in ([fc.C(i), fc.A(i), dict(s='fids', n=7)] + ([fc.W(i)] if i % 3 == 0 else []))]
    scs = [fc.script(r, [dict(s='fids', n=n)] * k) for n, k in ((20000, 1), (1000, 12), (3, 200))]
    scs += [fc.script(r, st + [dict(s='fids', n=500)]) for st in [mix] * c.scale(8, 60)]
    scs += [fc.script(r, [dict(s='fids', n=n)]) for n in [2500] * c.scale(8, 40)]
    c.take(*client_run(c, scs), 'client', 'ClientTrace')


# -- C06, C27: calls through the wire and through the debugging file server ----
def rpc_run(c, scs):
    evs = c.run('rpc', scs)
    keep = [i for i in range(len(scs)) if not (evs[i] and evs[i][0].get('e') == 'skipped')]
    scs = [scs[i] for i in keep]
    traces = [fr.trace(s, evs[i]) for s, i in zip(scs, keep)]
    mis = c.validate('RpcTrace', 'RpcTrace.cfg', scs, traces)
    return mis, scs, traces


@check('C06')
def c06(c):
    c.model_bg('RpcMC', 'RpcMC-wire.cfg', workers=3)
    r = c.rng
    scs = [fr.wire_scenario(r, piece(c), n=r.choice([5, 20, 40])) for _ in range(c.scale(120, 1500))]
    scs += [fr.wire_scenario(r, piece(c), big=fr.BIG, n=30) for _ in range(c.scale(40, 400))]
    scs += [fr.wire_scenario(r, piece(c), gate=False) for _ in range(c.scale(10, 50))]
    scs += [fr.wire_scenario(r, piece(c), threads=t, n=12, big=b) for t in (2, 3, 8, 30) for b in ((), fr.BIG)
            for _ in range(c.scale(5, 50))]
    # long data, both ways
    for n in (65536, 100000, 1 << 20, (2 << 20) + 5):
        d = [(x * 31 + (x >> 8)) % 256 for x in range(n)]
        ans = fr.answers(r)
        ans['116'] = [dict(F=[d])]
        scs.append(dict(Kind='wire', Via=r.choice(['pipe', 'tcp']), First=[dict(I=1, Op=100, F=fr.VER)], Ans=ans,
                        Threads=[[dict(I=2, Op=118, F=[[1, 0, 0, 0], [0] * 8, d]),
                                  dict(I=3, Op=116, F=[[1, 0, 0, 0], [0] * 8, [255] * 4])]]))
    # as many names and qids as there can be
    for n in (1000, 65535):
        ans = fr.answers(r)
        ans['110'] = [dict(F=[[fr.rqid(r) for _ in range(n)]])]
        scs.append(dict(Kind='wire', Via='pipe', First=[dict(I=1, Op=100, F=fr.VER)], Ans=ans,
                        Threads=[[dict(I=2, Op=110, F=[[1, 0, 0, 0], [2, 0, 0, 0], [[97 + x % 26] for x in range(n)]])]]))
    c.take(*rpc_run(c, scs), 'rpc', 'RpcTrace')


@check('C27')
def c27(c):
    c.model_bg('RpcMC', 'RpcMC-wrap.cfg', workers=3)
    r = c.rng
    scs = [fr.wrap_scenario(r, big=fr.BIG if j % 4 == 0 else ()) for j in range(c.scale(300, 4000))]
    # behind the serving loop, with a client in front
    wired = [fr.wire_scenario(r, piece(c), n=25) for _ in range(c.scale(40, 400))]
    mis, _, _ = rpc_run(c, wired)
    scs += [dict(s, Debug=True) for s in wired]
    bare = len(mis)
    mis, scs, traces = rpc_run(c, scs)
    for m in mis:
        if not bare:
            m['blame'] = sorted(set(m['blame']) | {'C27'})
    c.take(mis, scs, traces, 'rpc', 'RpcTrace')
    # around the real file server: what holds without it holds with it
    scs = [x for f in ('C14', 'C16', 'C17', 'C19', 'C21') for x in ufs_gen(c, f, c.scale(12, 100), 35)]
    scs = [dict(s, sc=dict(s['sc'], Debug=True)) for s in scs]
    mis, ran, traces = ufs_run(c, scs)
    if mis and len(ran) == len(scs):
        plain = [dict(scs[m['i']], sc=dict(scs[m['i']]['sc'], Debug=False)) for m in mis]
        pmis, pran, _ = ufs_run(c, plain)
        if len(pran) == len(plain):
            bad = {m['i'] for m in pmis}
            for j, m in enumerate(mis):
                m['blame'] = [] if j in bad else ['C27']
    c.take(mis, ran, traces, 'ufs', 'UfsTrace')


# -- C07: bad peers -----------------------------------------------------------
@check('C07')
def c07(c):
    c.model_bg('Hostile', workers=2)
    if c.thorough:
        c.model_bg('Hostile', 'Hostile-big.cfg', workers=3)
    r = c.rng
    # with little memory to spend on promises
    little = ('prlimit', '--as=%d' % (3 << 30))
    hostile_run(c, [([fh.scenario(r, 8) for _ in range(c.scale(500, 4000))], little),
                    (fh.directed(r) + [fh.scenario(r, 6) for _ in range(c.scale(8, 80))], little),
                    (fh.leaving(r, c.scale(300, 1500)), ('prlimit', '--nofile=200:200'))])


def hostile_run(c, batches):
    for scs, wrap in batches:
        evs = c.run('hostile', scs, wrap=wrap)
        keep = [i for i in range(len(scs)) if not (evs[i] and evs[i][0].get('e') == 'skipped')]
        scs = [scs[i] for i in keep]
        traces = [fh.trace(s, evs[i]) for s, i in zip(scs, keep)]
        mis = c.validate('HostileTrace', 'HostileTrace.cfg', scs, traces)
        if c.prop == 'C32':
            # who is not served any more for lack of what others had
            for m in mis:
                m['blame'] = ['C32']
        c.take(mis, scs, traces, 'hostile', 'HostileTrace')


# -- C32: the end of connections ------------------------------------------------
@check('C32')
def c32(c):
    c.model_bg('UfsMC', 'UfsMC-two%s.cfg' % c.scale('', '-big'), workers=3)
    r = c.rng
    ends = []
    for eof in ('eof', 'err', 'tail', 'open'):
        for _ in range(c.scale(25, 300)):
            ms = fw.stream(r, dict(ok=4, bad=2, unk=1, ver=1), r.choice([0, 1, 3]), gate=r.randrange(3) > 0)
            s = fw.scenario(r, ms, Eof=eof, Debug=r.randrange(3) == 0)
            k = r.randrange(4)
            if k == 0 and eof != 'open' and s['In']:
                s['In'] = s['In'][:r.randrange(len(s['In']))]
            elif k == 1:
                s['In'] = s['In'] + wire.le(r.randrange(7), 4) + [r.choice([100, 120, 0])] + [0] * r.choice([2, 9])
            ends.append(s)
    c.take(*srv_family(c, ends), 'srv', 'ServerTrace')
    gen = ufs_gen(c, 'C32', c.scale(100, 1000), 60, conns=3) + ufs_gen(c, 'C32', c.scale(40, 400), 60, conns=2, hosting=True)
    cmd = c.command()
    scs = gen + fu.finish(r, fu.d_hangup(r), 'C32')
    over = gen[::3] + fu.finish(r, fu.d_hangup(r), 'C32')
    scs += [dict(s, sc=dict(s['sc'], Cmd=cmd, Net=r.choice(['tcp4', 'tcp', 'unix']))) for s in over]
    for s in scs:
        s['sc']['Debug'] = r.randrange(4) == 0
    c.take(*ufs_run(c, scs), 'ufs', 'UfsTrace')
    hostile_run(c, [([dict(s, NoGC=True) for s in fh.leaving(r, c.scale(300, 1500))], ('prlimit', '--nofile=200:200'))])


# -- C28: listeners -----------------------------------------------------------
@check('C28')
def c28(c):
    c.model_bg('ListenerMC', workers=3)
    if c.thorough:
        c.model_bg('ListenerMC', 'ListenerMC-big.cfg', workers=3)
    r = c.rng
    scs = fl.directed(r, c.scale(24, 60)) + [fl.history(r, r.choice([1, 2, 3, 5]), r.choice([10, 25, 50])) for _ in range(c.scale(300, 4000))]
    evs = c.run('listen', scs, shards=16)
    keep = [i for i in range(len(scs)) if not (evs[i] and evs[i][0].get('e') == 'skipped')]
    scs = [scs[i] for i in keep]
    traces = [fl.trace(s, evs[i]) for s, i in zip(scs, keep)]
    mis = c.validate('ListenerTrace', 'ListenerTrace.cfg', scs, traces)
    c.take(mis, scs, traces, 'listen', 'ListenerTrace')


# -- C29: the generator ---------------------------------------------------------
@check('C29')
def c29(c):
    c.model_bg('WireMC')
    c.model_bg('ServerMC')
    r = c.rng
    batches = [(codec_run, c05_scenarios(c, c.scale(60, 1500)), 'codec', 'CodecTrace'),
               (srv_family, c03_scenarios(c, c.scale(60, 1500)), 'srv', 'ServerTrace'),
               (rpc_run, [fr.wire_scenario(r, piece(c), n=20, big=fr.BIG if j % 4 == 0 else ()) for j in range(c.scale(60, 800))],
                'rpc', 'RpcTrace'),
               (client_run, [fc.script(r, st) for st in client_gen(c, 'odd', c.scale(60, 600))], 'client', 'ClientTrace')]
    made, wrong = c.regenerate()
    if not made:
        c.violation(wrong.split(':')[0], dict(mode='generate', spec='Wire', event=wrong))
        return
    used = c.build()
    for run, scs, mode, spec in batches:
        got = {}
        for h in made, used:
            c.harness = h
            got[h] = run(c, scs)
        # Both run the same; one that deviates where the other does not is not like the other.
        for a, b in (made, used), (used, made):
            mis, ran, traces = got[a]
            if len(ran) != len(scs) and len(got[b][1]) == len(scs):
                c.violation('runs with one of them end', dict(mode=mode, spec=spec, made=a == made))
            elif len(ran) == len(scs) == len(got[b][1]):
                bad = {m['i'] for m in got[b][0]}
                for m in mis:
                    m['blame'] = [] if m['i'] in bad else ['C29']
                c.take([m for m in mis if m['blame']], ran, traces, mode, spec)


# -- C30: the command -------------------------------------------------------------
@check('C30')
def c30(c):
    c.model_bg('UfsMC', 'UfsMC-two%s.cfg' % c.scale('', '-big'), workers=2)
    cmd = c.command()
    r = c.rng
    scs = []
    for focus, conns in (('C13', 3), ('C16', 2), ('C17', 1), ('C18', 1), ('C19', 1), ('C21', 1), ('C15', 3)):
        scs += ufs_gen(c, focus, c.scale(20, 200), 45, conns=conns)
    gen = c.generate('UfsGen', 'UfsGen.cfg', c.scale(30, 300), 70,
                     env=dict(FOCUS='C25', LEN='65', CONNS='3', FIDS='4', HOSTING='0'))
    scs += [fu.confined(r, g, j % 2 == 1)[0] for j, g in enumerate(gen)]
    scs += fu.finish(r, [x for n in (1500, 3500, 7000, c.scale(12000, 120000)) for x in fu.d_idle(r, n)], 'C30')
    scs += fu.finish(r, [x for n, k in [(c.scale(220, 3000), 1), (200, 3), (100, 40), (c.scale(140, 600), c.scale(130, 500))]
                         for x in fu.d_many(r, n, k)], 'C30')
    scs += fu.finish(r, fu.d_msize(r)[::6] + fu.d_version(r)[::4] + fu.d_escape(r)[::12] + fu.d_io(r, False)[::12], 'C30')
    scs = [dict(s, sc=dict(s['sc'], Cmd=cmd, Net=r.choice(['tcp4', 'tcp', 'unix']))) for s in scs]
    mis, ran, traces = ufs_run(c, scs)
    for m in mis:
        m['blame'] = ['C30']
    c.take(mis, ran, traces, 'ufs', 'UfsTrace')


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print('usage: check.py ID; IDs:', ' '.join(sorted(CHECKS)), file=sys.stderr)
        return 2
    c = Ctx(sys.argv[1])
    try:
        CHECKS[c.prop](c)
        return c.finish(LEVELS.get(c.prop, 'model_checking'))
    except CheckError as e:
        print('ERROR:', e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        for t in c.threads:
            t.join()
        c.cleanup()


if __name__ == '__main__':
    sys.exit(main())
