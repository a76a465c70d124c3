"""Histories of the file server: from the specification's abstract requests to
real ones, and from what the real server did to traces for UfsTrace."""
import base64

HARVEY = 6
DMDIR = 0x80000000
MODES = dict(r=0, w=1, rw=2, x=3)

POOLS = [
    {},
    dict(a='x' * 255, x='y' * 255, n1='z' * 254, k1='w' * 255),
    dict(a='dir with spaces', x='...', y='..x', b='-rf', f='caf\u00e9 \u20ac\U0001f600', n1='.hidden', n2='x..', g='a\\b',
         n3='%s%d', k2='$HOME', k1='~'),
    dict(a='A', x='a', b='\n', y='\x01\x7f', f='*', n1='[', n2='\t', n3='"', e="'", d='&'),
    dict(a=b'\xff\xfe', x=b'\x80', f=b'\xc3', n1=b'ok\xe9', y='con', b='nul.', d='.d.'),
    dict(R='rroot', S='R', f='Rf', x='R', a='S', n1='Rx', k1='Sx'),
    dict(R='.r', D='..d', f='0', a='1', x='00', n1='65536'),
]
FIDS = [
    [1, 2, 3, 4, 5, 6, 7, 8, 9, 10],
    [0, 1, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 256, 65535, 0x10001, 0xFFFF0000],
    [0xFFFFFFFE, 0, 0xFFFFFFFD, 0x01000000, 0x00010000, 0x0100, 1, 2, 3, 4],
    [7, 0x107, 0x10007, 0x1000007, 0x80000007, 8, 9, 10, 11, 12],
]
SIZES = [1, 1, 8, 7, 512, 1021, 2000, 3]
FARS = [1 << 31, (1 << 31) - 2, (1 << 32) - 2, 1 << 32, (1 << 32) + 4096, (1 << 33) - 1, (1 << 40) + 5]


def b64(b):
    return base64.b64encode(b).decode()


def enc(n):
    return n if isinstance(n, bytes) else n.encode('utf8')


class Bind:
    """How abstract things are made concrete in one history."""

    def __init__(self, r, plain=False):
        self.r = r
        pool = POOLS[0] if plain or r.randrange(2) == 0 else r.choice(POOLS[1:])
        self.map = {k: enc(v) for k, v in pool.items()}
        self.map.setdefault('R', b'R')
        self.map['Rx'] = self.map['R'] + b'x'
        self.rev = {}
        self.fids = FIDS[0] if plain else r.choice(FIDS)
        self.fids = self.fids + [100000 + 257 * j for j in range(1000)]
        self.S = r.choice(SIZES)
        self.far = r.choice(FARS)
        self.form = r.choice(['', '', 'slash', 'dot', 'up', 'rel', 'here'])
        self.user = r.choice(['harvey', 'harvey', 'harvey', 'glenda', 'u', 'somebody with a longer name'])
        for n in ('R', 'S', 'D', 'Rx', 'o', 'z', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'x', 'y', 'ln', 'n1', 'n2', 'n3',
                  'k1', 'k2', 'k3', 'nope'):
            self.name(n)

    def name(self, n):
        if n in ('', '.', '..'):
            return n.encode()
        if n == 'HOST':
            return b'@HOST@'
        if n not in self.map:
            v = enc(n)
            while v in self.map.values():
                v += b'_'
            self.map[n] = v
        v = self.map[n]
        # two abstract names must not share a concrete one
        while self.rev.get(v, n) != n:
            v += b'_'
            self.map[n] = v
        self.rev[v] = n
        return v

    def back(self, b):
        b = base64.b64decode(b)
        return self.rev.get(b, '?' + b.hex())

    def text(self, comps, ab=False):
        return (b'/' if ab else b'') + b'/'.join(self.name(c) for c in comps)

    def recsize(self, n):
        return 49 + 2 * len(self.user) + len(self.name(n))

    def msize(self, mk):
        S = self.S
        if mk == 'a' and 8168 % S == 0:
            return self.r.choice([8192, 65536, 0x7FFFFFFF, 0xFFFFFFFF, 8193, 1 << 20])
        if mk == 'b':
            return 24 + (4000 // S) * S
        if mk == 'c':
            return 24 + max(1, 400 // S) * S
        return 24 + (8168 // S) * S


def esc(comps):
    return len(comps) > 1 or '..' in comps or 'HOST' in comps


def modebits(r):
    """Bits of open modes that this server has no use for."""
    return 0 if r.randrange(3) else r.choice([32, 64, 128, 32 | 64, 128 | 32])


def concrete(b, o):
    """The real request for abstract request o; completes o."""
    r = b.r
    op = o['op']
    h = dict(C=o['c'], Op=op, Snap=o.pop('snap', True))
    o.setdefault('probe', '')
    o['esc'] = False
    if 'fid' in o:
        h['Fid'] = b.fids[o['fid'] - 1]
    if op == 'version':
        h['Ver'] = b64(b'9P2000' if o['good'] else r.choice([b'9P2000.u', b'', b'9P2000.L', b'9p2000', b'unknown', b'9P2001', b'9P2000 ']))
        ms = o['mk'] if isinstance(o['mk'], int) else r.choice([0, 1, 7, 11, 23, 24]) if o['tiny'] else b.msize(o['mk'])
        h['Msize'] = ms
        o['msize'] = min(ms, 0x7FFFFFFF)
    elif op == 'attach':
        h['Name'] = b64(b.text(o['name'], o['abs']))
        h['Afid'] = r.choice([0, 1, 5, 0xFFFFFFFE]) if o['auth'] else 0xFFFFFFFF
        o['esc'] = '..' in o['name'] or 'HOST' in o['name']
    elif op == 'walk':
        h['New'] = b.fids[o['newfid'] - 1]
        h['Names'] = [b64(b.text(n, o.get('abs') and n != ['..'])) for n in o['names']]
        o['esc'] = any(esc(n) for n in o['names'])
    elif op == 'open':
        h['Mode'] = MODES[o['m']] | (16 if o['trunc'] else 0) | modebits(r)
    elif op == 'create':
        h['Name'] = b64(b.text(o['name'], o['abs']))
        h['Mode'] = MODES[o['m']] | (16 if o['trunc'] else 0) | modebits(r)
        h['Perm'] = o['perm'] | (DMDIR if o['dir'] else 0)
        o['esc'] = esc(o['name'])
    elif op == 'read':
        if o['isdir']:
            h['IsDir'] = True
            h['Cont'] = not o['zero']
            h['Off'] = 0
            names = [n for n in b.map if n not in ('R', 'HOST')]
            ck = o['ck']
            h['Cnt'] = {'big': lambda: r.choice([8168, 65536, 0xFFFFFFFF, 4000]), 'tiny': lambda: r.choice([1, 2, 61]),
                        'mid': lambda: r.choice([90, b.recsize(r.choice(names)), b.recsize(r.choice(names)) - 1]),
                        'zero': lambda: 0, 'huge': lambda: 0xFFFFFFFF}[ck]()
        else:
            h['Off'] = ((1 << 63) + r.choice([0, 5, (1 << 63) - 1 - 5])) if o['neg'] else \
                (b.far if o['hi'] else 0) + o['off'] * b.S
            h['Cnt'] = r.choice([0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0xFFFF0000]) if o['cnt'] >= 1000000 else min(o['cnt'] * b.S, 0xFFFFFFFF)
    elif op == 'write':
        h['Off'] = ((1 << 63) + r.choice([0, 5])) if o['neg'] else (b.far if o['hi'] else 0) + o['off'] * b.S
        h['Blk'] = o['data']
    elif op == 'wstat':
        s = b.text(o['name'], o['abs']) if o['ren'] else b''
        o['ren'] = s != b''
        o['abs'] = s.startswith(b'/')
        o['esc'] = o['ren'] and (esc(o['name']) or o['abs'])
        NO32, NO64 = 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF
        h['W'] = dict(Mode=o['mode'] if o['mode'] >= 0 else NO32, Len=NO64 if o['len'] < 0 else r.choice([1 << 63, NO64 - 1, NO64 - b.S]) if o['neg'] else
                      (b.far if o['hi'] else 0) + o['len'] * b.S,
                      Mtime=int(o['mtime']) if o['mtime'] else NO32, Atime=int(o['atime']) if o['atime'] else NO32,
                      Name=b64(s), User=b64(b'other') if o['own'] and r.randrange(2) else '', Group='',
                      Type=r.choice([0xFFFF, 0]), Dev=r.choice([NO32, 0]), QType=r.choice([255, 0]),
                      QVer=r.choice([NO32, 0]), QPath=r.choice([NO64, 0]))
        if o['own'] and not h['W']['User']:
            h['W']['Group'] = b64(b'other')
    elif op == 'host':
        h.update(What=o['what'], Name=b64(b.text(o['p'])), Names=[b64(b.text(o['q']))], K=o['k'], Perm=o['perm'], Blk=o['data'],
                 To=[b64(b.name(y)) for y in o.setdefault('to', [])], Mtime=int(o['mtime']), Ns=o.pop('ns', r.choice([0, 0, 1, 10, 100, 500, 999]) * 1000000))
    elif op == 'nop':
        h['Cnt'] = o.pop('ms', 0)
    elif op == 'flush':
        h['Cnt'] = r.choice([0, 1, 2, 65535, 12345])
    elif op == 'hangup':
        h['How'] = o.pop('how', '') or r.choice(['close', 'half', 'bad', 'unread', 'eof', 'cut', 'reset'])
        h['Fid'] = b.fids[0]
    return h


def expand(ops):
    """Requests with the probes after them."""
    out = []
    for x in ops:
        o = dict(x['o'])
        out.append(o)
        pb = x.get('pb') or dict(s=[], r=[])
        for c, f in sorted(map(tuple, pb['s'])):
            out.append(dict(op='stat', c=c, fid=f, probe=o['op'], of=len(out)))
        for c, f in sorted(map(tuple, pb['r'])):
            out.append(dict(op='read', c=c, fid=f, off=0, cnt=1000, neg=False, hi=False, isdir=False, zero=True,
                            ck='big', probe=o['op']))
    return out


def scenario(r, init, ops, bind=None, **kw):
    """The scenario for the harness, with what is needed to read its result."""
    b = bind or Bind(r)
    ops = [dict(o) for o in ops]
    hops = [concrete(b, o) for o in ops]
    nodes = [dict(P=[b64(b.name(c)) for c in n['p']], K=n['k'], Perm=n['perm'], Data=n['data'], To=[b64(b.name(y)) for y in n.get('to', ())],
                  Mt=900000000 + 1000 * j + r.randrange(1000)) for j, n in enumerate(init)]
    sc = dict(Init=nodes, Ops=hops, S=b.S, Far=b.far, Root=b64(b.name('R')), Form=b.form, User=b.user)
    sc.update(kw)
    return dict(sc=sc, init=init, ops=ops, bind=b)


def backq(q):
    return dict(t=q['t'], v=q['v'], p=q['p'])


def backrec(b, s):
    return dict(n=b.back(s['n']), dir=s['dir'], perm=s['perm'], mx=min(s['mx'], 1 << 22), len=s['len'], mt=s['mt'], own=s['own'], q=backq(s['q']))


def trace(s, ev):
    """The trace of scenario s for UfsTrace."""
    b = s['bind']
    out = []
    conc = s['sc'].get('Conc')
    refused = False
    done = set()
    snap0 = []
    for n, e in enumerate(ev):
        if e.get('e') == 'end':
            # the process ended during the next request(s)
            left = [j for j in range(len(s['ops'])) if j not in done]
            e = dict(r=dict(ok=False, dead=True), snapd=False, same=False, snap=[], fds=0, j=left[0])
        j = e.get('j', n)
        done.add(j)
        o = dict(s['ops'][j])
        for x in ('ck', 'mk', 'how', 'of'):
            o.pop(x, None)
        r = dict(e['r'])
        r.pop('err', None)
        r.pop('ver', None)
        if r['ok'] and not r['dead']:
            op = o['op']
            if op == 'version':
                r['msize'] = min(r['msize'], 0x7FFFFFFF)
                r['cap'] = max(0, (r['msize'] - 24) // b.S)
                r['top'] = max(0, (r['msize'] - 11) // b.S)
            if 'iounit' in r:
                r['iounit'] = min(r['iounit'], 0x7FFFFF00)
            if 's' in r:
                r['s'] = backrec(b, r['s'])
            if 'ents' in r:
                r['ents'] = [backrec(b, x) for x in r['ents']]
                o['zero'] = r.pop('zero')
                o['room'] = min(r.pop('room'), 0x7FFFFFFF)
                o['size'] = {} if r['ents'] else {n: b.recsize(n) for n in b.map}
        if o['op'] == 'version' and 'cap' not in r:
            r['cap'] = r['top'] = 0
            r['msize'] = 0
        if o['op'] == 'read':
            o.setdefault('room', 0)
            o.setdefault('size', {})
        if not o['probe']:
            refused = not r['ok']
        o['pref'] = bool(o['probe']) and refused
        if 'cnt' in o:
            o['cnt'] = min(o['cnt'], 0x7FFFFFFF)
        o['r'] = r
        o['snapd'] = e['snapd']
        o['same'] = e['same']
        o['snap'] = [dict(x, p=[b.back(c) for c in x['p']]) for x in e['snap']]
        o['fds'] = e['fds']
        out.append(o)
        if r['dead']:
            break
    return dict(init=[dict(p=n['p'], k=n['k'], perm=n['perm'], data=n['data'], to=n.get('to', [])) for n in s['init']], conc=bool(conc), ev=out)


# -- directed histories ----------------------------------------------------
def N(p, k='d', perm=0o755, data=(), to=''):
    return dict(p=p.split('/'), k=k, perm=perm, data=list(data), to=to.split('/') if to else [])


OUTSIDE = [N('R'), N('S', 'f', 0o644, [9]), N('D'), N('D/o', 'f', 0o644, [8, 8]), N('Rx'), N('Rx/z', 'f', 0o644, [7])]
OKR = dict(ok=True)


class H:
    """A history under construction."""

    def __init__(self, tree, conns=(1,), version=True, attach=True, mk='b'):
        self.init = OUTSIDE + list(tree)
        self.ops = []
        self.kw = {}
        for c in conns:
            self.add('connect', c=c)
        for c in conns:
            if version:
                self.version(c=c, mk=mk)
            if version and attach:
                self.attach(1, c=c)

    def add(self, op, c=1, **kw):
        o = dict(op=op, c=c)
        o.update(kw)
        self.ops.append(o)
        return self

    def version(self, c=1, good=True, tiny=False, mk='b', msize=None):
        return self.add('version', c, good=good, tiny=tiny, mk=mk if msize is None else msize)

    def attach(self, fid, name=(), c=1, auth=False, abs=True):
        return self.add('attach', c, fid=fid, name=list(name), auth=auth, abs=abs)

    def walk(self, fid, new, *names, c=1, abs=False):
        return self.add('walk', c, fid=fid, newfid=new, names=[n.split('/') if isinstance(n, str) else list(n) for n in names], abs=abs)

    def open(self, fid, m='r', trunc=False, c=1):
        return self.add('open', c, fid=fid, m=m, trunc=trunc)

    def create(self, fid, name, dir=False, perm=0o644, m='rw', c=1, abs=False, trunc=False):
        return self.add('create', c, fid=fid, name=name.split('/'), dir=dir, perm=perm, m=m, abs=abs, trunc=trunc)

    def clunk(self, fid, c=1):
        return self.add('clunk', c, fid=fid)

    def remove(self, fid, c=1):
        return self.add('remove', c, fid=fid)

    def stat(self, fid, c=1, **kw):
        return self.add('stat', c, fid=fid, **kw)

    def wstat(self, fid, mode=-1, name=None, abs=False, len=-1, mtime='', atime='', own=False, hi=False, neg=False, c=1):
        return self.add('wstat', c, fid=fid, mode=mode, ren=name is not None, name=[] if name is None else name.split('/'),
                        abs=abs, len=len, mtime=mtime, atime=atime, own=own, hi=hi, neg=neg)

    def read(self, fid, off=0, cnt=1000, hi=False, neg=False, c=1, **kw):
        return self.add('read', c, fid=fid, off=off, cnt=cnt, hi=hi, neg=neg, isdir=False, zero=True, ck='big', **kw)

    def readdir(self, fid, zero=False, ck='big', c=1, **kw):
        return self.add('read', c, fid=fid, off=0, cnt=1, hi=False, neg=False, isdir=True, zero=zero, ck=ck, **kw)

    def write(self, fid, data, off=0, hi=False, neg=False, c=1):
        return self.add('write', c, fid=fid, off=off, data=list(data), hi=hi, neg=neg)

    def probe(self, fids=(1, 2, 3), reads=(), c=1):
        """Looks at fids after the last request."""
        op = next(o['op'] for o in reversed(self.ops) if not o.get('probe'))
        for f in fids:
            self.add('stat', c, fid=f, probe=op)
        for f in reads:
            self.read(f, c=c, probe=op)
        return self

    def scenario(self, r, bind=None, **kw):
        k = dict(self.kw)
        k.update(kw)
        return scenario(r, self.init, self.ops, bind=bind, **k)


TREE = [N('R/a'), N('R/a/x', 'f', 0o644, [1, 2, 3]), N('R/a/b'), N('R/a/b/y', 'f', 0o600, [4]), N('R/e'), N('R/f', 'f', 0o644, [5, 6]),
        N('R/ro', 'f', 0o444, [7]), N('R/wo', 'f', 0o222, [8]), N('R/no', 'f', 0, [9]), N('R/rd', 'd', 0o555), N('R/rd/x', 'f', 0o644, [1]),
        N('R/nd', 'd', 0), N('R/xd', 'd', 0o311), N('R/xd/x', 'f', 0o644, [2])]


def d_swap(r, num=60):
    """What a fid designates changes behind its back, into something else or
    nothing, by another fid or on the host, before and after it is opened."""
    out = []
    after = ['stat', 'open', 'walk', 'clone', 'remove', 'wstat', 'create', 'read', 'attach', 'clunk', 'list']
    changes = ['file', 'dir', 'gone', 'over', 'away', 'chmod', 'write', 'touch', 'up', 'hfile', 'hdir', 'hgone', 'hover']
    todo = [(t, ch, op) for t in ('f', 'e') for ch in changes for op in (False, True)]
    todo += [(r.choice('fe'), r.choice(changes), r.randrange(2) == 0) for _ in range(num)]
    for t, ch, opened in todo:
        h = H([N('R/d'), N('R/d/f', 'f', 0o644, [5, 6, 7]), N('R/d/e'), N('R/d/g', 'f', 0o600, [1, 2]), N('R/d/h')])
        h.walk(1, 2, 'd', t)
        if r.randrange(2):
            h.walk(2, 5)
        if opened:
            h.open(2, 'r' if t == 'e' else r.choice(['r', 'rw']))
        tp = ['R', 'd', t]
        host = lambda what, p=tp, q=tp, k='f', perm=0o644, data=(), mtime='1': h.add(
            'host', what=what, p=p, q=q, k=k, perm=perm, data=list(data), mtime=mtime)
        if ch in ('file', 'dir', 'gone'):
            h.walk(1, 3, 'd', t).remove(3)
            if ch != 'gone':
                h.walk(1, 4, 'd').create(4, t, dir=ch == 'dir', m='rw' if ch == 'file' else 'r', perm=0o644 if ch == 'file' else 0o755)
                if ch == 'file':
                    h.write(4, [11, 12], 0)
        elif ch == 'over':
            h.walk(1, 3, 'd', 'g' if t == 'f' else 'h').wstat(3, name='d/' + t, abs=True)
        elif ch == 'away':
            h.walk(1, 3, 'd', t).wstat(3, name='n1')
        elif ch == 'up':
            h.walk(1, 3, 'd').wstat(3, name='n2')
        elif ch == 'chmod':
            host('chmod', perm=r.choice([0, 0o400, 0o200, 0o755, 0o500]))
        elif ch == 'write':
            host('write' if t == 'f' else 'touch', data=[21, 22, 23, 24][:r.randrange(5)])
        elif ch == 'touch':
            host('touch', mtime=r.choice(['1', '1000000001', '2100000000']))
        elif ch == 'hover':
            host('del')
            host('mv', p=['R', 'd', r.choice('gh')], q=tp)
        else:
            host('del')
            if ch != 'hgone':
                host('new', k=ch[1], perm=0o644 if ch == 'hfile' else 0o755, data=[31, 32, 33] if ch == 'hfile' else ())
        for a in r.sample(after, 7):
            f = r.choice((2, 2, 5))
            if a in ('stat', 'clunk', 'remove'):
                h.add(a, fid=f)
            elif a == 'open':
                h.open(f, r.choice(['r', 'r', 'rw', 'w']), trunc=r.randrange(4) == 0)
            elif a == 'walk':
                h.walk(f, 6, r.choice(['x', '..', '../g', '.']))
            elif a == 'clone':
                h.walk(f, 7).open(7, 'r').read(7).read(7, 1, 2)
            elif a == 'wstat':
                h.wstat(f, **r.choice([dict(mode=0o600), dict(len=1), dict(mtime='77'), dict(name='n3')]))
            elif a == 'create':
                h.create(f, 'n1', dir=r.randrange(2) == 0, perm=0o755)
            elif a == 'read':
                h.open(f, 'r').read(f, 0, 100)
            elif a == 'list':
                h.open(f, 'r').read(f).read(f, 2)
            elif a == 'attach':
                h.attach(8, ['d', t])
        h.probe((1, 2, 5), reads=(2, 5))
        out.append(h)
    return out


def d_wstat(r, frac=1.0):
    """All sets of attributes, on all kinds of targets, with all kinds of new names."""
    out = []
    fields = ['mode', 'len', 'mtime', 'atime', 'own']
    for target in (['f'], ['a'], ['ro'], ['no'], [], ['a', 'x'], ['e'], ['rd', 'x'], ['gone']):
        for ren in (None, ('n1', False), ('a', False), ('ro', False), ('a/n1', False), ('../n1', False), ('nope/n1', True), ('a/n1', True),
                    ('a/x', True), ('e', True), ('rd/n1', True), ('f/n1', True), ('..', False), ('f', True), ('S', True), ('../S', True),
                    ('a/b/n1', True)):
            for bits in range(32):
                if r.random() > frac and (bits or frac < 0.1):
                    continue
                w = {fields[j] for j in range(5) if bits >> j & 1}
                h = H(TREE)
                t = target
                if t == ['gone']:
                    h.walk(1, 2, 'f').walk(1, 3, 'f').remove(3)
                else:
                    h.walk(1, 2, *t)
                h.walk(1, 3, 'a', 'x')
                op = r.randrange(3)
                hi = r.randrange(4) == 0
                if op and t not in (['no'], ['gone']):
                    h.open(2, 'r')
                h.wstat(2, mode=r.choice([0o600, 0o444, 0o755, 0]) if 'mode' in w and t not in ([], ['a'], ['e']) else
                        (0o755 if 'mode' in w else -1),
                        len=r.choice([1, 7]) if 'len' in w and hi else r.choice([0, 1, 7]) if 'len' in w else -1, hi=hi, neg='len' in w and r.randrange(8) == 0, mtime=r.choice(['1', '1000000000', '4294967294']) if 'mtime' in w else '',
                        atime='1200000000' if 'atime' in w else '', own='own' in w,
                        name=ren[0] if ren else None, abs=bool(ren and ren[1]))
                h.probe((1, 2, 3))
                if op and t not in (['no'], ['gone'], [], ['a'], ['e']):
                    h.read(2, probe='wstat')
                h.walk(2, 4).stat(4, probe='wstat').remove(2).probe((1, 2, 3, 4))
                out.append(h)
    # lengths in all regions, one after the other
    for far in FARS:
        h = H(TREE)
        h.walk(1, 2, 'f').walk(1, 3, 'f').open(3, 'rw')
        for n, hi in ((1, True), (3, True), (2, True), (4, False), (1, True), (0, False), (2, True)):
            h.wstat(2, len=n, hi=hi).probe((2, 3)).read(3, 0, 3).read(3, 0, 3, hi=True).write(3, [9], 1, hi=r.randrange(2) == 0)
        h.wstat(2, len=1, neg=True).probe((2, 3))
        h.S, h.far = 1, far
        out.append(h)
    return out


def d_create(r, frac=1.0):
    out = []
    for start in ([], ['a'], ['rd'], ['nd'], ['xd'], ['f'], ['e'], ['gone']):
        for name in ('n1', 'f', 'a', 'x', 'ro', 'wo', 'no', '..', '.', '', '../n1', 'a/n1', 'nope/n1', '../../S', '/n1', 'e/n2', '../f'):
            for d in (False, True):
                for m in ('r', 'w', 'rw', 'x'):
                    if r.random() > frac:
                        continue
                    h = H(TREE)
                    if start == ['gone']:
                        h.walk(1, 2, 'e').walk(1, 3, 'e').remove(3)
                    else:
                        h.walk(1, 2, *start)
                    h.walk(1, 3, 'a')
                    if r.randrange(8) == 0:
                        h.open(2, 'r')
                    h.create(2, name, dir=d, perm=r.choice([0o755, 0o700, 0o311, 0] if d else [0o644, 0o400, 0o222, 0, 0o777]), m=m,
                             trunc=r.randrange(4) == 0)
                    h.probe((1, 2, 3))
                    h.write(2, [11, 12], off=1).probe((2,))
                    h.read(2, probe='create')
                    h.create(2, 'n2')
                    h.probe((1, 2, 3))
                    h.walk(2, 4).walk(1, 5, 'n1').open(5, 'r').read(5).clunk(2).clunk(4).probe((1, 2, 3, 4))
                    out.append(h)
    return out


def d_open(r, frac=1.0):
    out = []
    for perm in (0, 0o400, 0o200, 0o600, 0o777, 0o444, 0o222, 0o100, 0o044, 0o066):
        for m in ('r', 'w', 'rw', 'x'):
            for trunc in (False, True):
                for kind in ('f', 'd'):
                    if r.random() > frac:
                        continue
                    t = TREE + [N('R/t', kind, perm, [1, 2, 3] if kind == 'f' else [])]
                    h = H(t)
                    h.walk(1, 2, 't').walk(2, 3).walk(1, 4, 't')
                    h.read(2).write(2, [5])
                    h.open(2, m, trunc).probe((1, 2, 3))
                    rd = (lambda f: h.readdir(f, zero=True)) if kind == 'd' else (lambda f: h.read(f))
                    rd(2)
                    h.write(2, [21, 22], off=1)
                    rd(2)
                    h.open(2, 'r').open(2, 'rw')          # open already
                    rd(2)
                    h.read(3).write(3, [5])               # the others are not open
                    h.walk(2, 5)                          # a clone of an open fid is not open
                    h.read(5).write(5, [6])
                    h.open(5, 'r')
                    h.clunk(5)
                    rd(2)
                    h.write(2, [31], off=0)
                    h.open(4, 'w')
                    h.walk(2, 2)                          # onto itself
                    rd(2)
                    h.walk(2, 2, '..')
                    rd(2)
                    h.remove(4)
                    rd(2)
                    h.write(2, [41], off=2)
                    rd(2)
                    h.create(2, 'n1')
                    h.clunk(2)
                    h.read(2).write(2, [7]).open(2, 'r').probe((1, 2, 3, 4, 5))
                    h.walk(1, 2, 'f').read(2).write(2, [7]).open(2, 'rw').read(2).write(2, [7]).clunk(2)
                    out.append(h)
    return out


def d_remove(r):
    out = []
    for target in (['f'], ['a'], ['e'], ['a', 'b', 'y'], ['rd', 'x'], ['xd', 'x'], [], ['ro'], ['no'], ['nd'], ['rd'], ['gone']):
        for op in ('', 'r', 'w', 'rw'):
            h = H(TREE)
            if target == ['gone']:
                h.walk(1, 2, 'f').walk(1, 3, 'f').walk(1, 4, 'f').open(3, 'rw').remove(4)
            else:
                h.walk(1, 2, *target).walk(1, 3, *target).open(3, 'rw' if target and target[-1] in 'fyx' else 'r')
            if op:
                h.open(2, op)
            h.remove(2).probe((1, 2, 3), reads=(3,) if target and target[-1] in 'fyx' else ())
            h.read(2).write(2, [1]).clunk(2).remove(2).open(2, 'r')
            h.write(3, [51, 52], off=1).read(3)
            h.walk(1, 2, *(target if target != ['gone'] else ['f']))
            h.walk(3, 4).stat(4).remove(3).probe((1, 2, 3, 4)).remove(4).remove(1).probe((1, 2, 3, 4))
            h.attach(2).attach(3, ['a']).remove(3).probe((2, 3))
            out.append(h)
    return out


ESC = ['../S', '../../S', '../Rx/z', 'a/../../S', '../D/o', '../D', '../Rx', '/../S', '@/S', './../D/o', '../n1', '../../../n2', '../R/f',
       '../R/../S', 'a/b/../../../../S', '..', '../..', '../R', '.', '', 'nope/../../S', 'a/x/../../../S', '../D/n3', '..//S', '...', '/',
       'a//x', '/a/x', '../../../../../../../../etc/passwd', '/etc/passwd', 'f/../../S', '../a/x', '..x', '@/R/../S']


def d_escape(r):
    out = []
    for name in ESC:
        comps = name.replace('@', 'HOST').split('/')
        ab = name.startswith('/') or name.startswith('@')
        nm = '/'.join(c for c in comps)
        for start in ([], ['a'], ['a', 'b'], ['f']):
            h = H(TREE)
            h.walk(1, 2, *start)
            h.walk(2, 3, comps, abs=ab).stat(3).open(3, 'r').read(3).clunk(3)
            h.walk(2, 3, comps, 'S', abs=ab).stat(3).clunk(3)
            h.walk(2, 3, '..', comps, abs=ab).stat(3).clunk(3)
            h.walk(2, 3, *(comps * 2 + ['S']))
            h.stat(3).clunk(3)
            h.attach(4, comps, abs=ab).stat(4).walk(4, 5, 'S').stat(5).open(5, 'rw', True).write(5, [66]).remove(5)
            h.walk(4, 5, '..', 'S').stat(5).remove(5).clunk(4)
            h.walk(2, 6).create(6, nm, perm=0o644, abs=ab).write(6, [77]).stat(6).remove(6)
            h.walk(2, 6).create(6, nm, dir=True, perm=0o755, abs=ab).stat(6).remove(6)
            h.walk(1, 6, 'f').wstat(6, name=nm, abs=ab).stat(6).wstat(6, name='f', abs=True).clunk(6)
            h.walk(1, 6, 'a', 'b').wstat(6, name=nm, abs=ab).stat(6).wstat(6, name='a/b', abs=True).clunk(6)
            h.walk(1, 6, 'a', 'b', 'y').wstat(6, name=nm, abs=ab).stat(6).clunk(6)
            h.walk(1, 6, *(comps + ['D', 'o']))
            h.stat(6).open(6, 'rw').write(6, [1]).remove(6)
            h.wstat(1, name=nm, abs=ab).stat(1).remove(2)
            h.attach(7).wstat(7, name='n9').wstat(7, name='../n9').remove(7).attach(7).stat(7)
            # names that come to be elsewhere
            h.walk(7, 8, 'a', 'b').walk(7, 9, 'a').wstat(9, name='e2').walk(8, 10, '..', '..', '..', 'S').stat(10)
            h.walk(8, 9, '..').stat(9)
            out.append(h)
    return out


def d_walk(r):
    out = []
    deep = [N('R/' + '/'.join(['k'] * n)) for n in range(1, 21)] + [N('R/' + '/'.join(['k'] * 5) + '/x', 'f', 0o644, [1])]
    for n in list(range(0, 21)) + [24, 40]:
        for new in (1, 2, 3):
            h = H(deep)
            h.walk(1, 3, 'k', 'k', 'k', 'k', 'k', 'x').probe((1, 2, 3))
            h.walk(1, new, *(['k'] * n)).probe((1, 2, 3))
            h.walk(2, 4, '..').probe((1, 2, 3, 4))
            out.append(h)
    for bad in ('nope', 'f', 'no', 'nd', 'f/y', 'xd', ''):
        for at in range(0, 6):
            for new in (1, 2, 3):
                names = ['a', 'b', '..', '..', 'e', '.'][:at] + [bad, 'x', '..']
                h = H(TREE)
                h.walk(1, 3, 'f').open(3, 'rw')
                h.walk(1, new, *names).probe((1, 2, 3), reads=(3,))
                h.walk(3, 2, *names).probe((1, 2, 3), reads=(3,))
                h.walk(3, 3, *names).probe((1, 2, 3), reads=(3,))
                h.walk(3, 3).probe((1, 2, 3), reads=(3,))
                h.walk(9, 9).walk(9, 8).walk(9, 8, 'a').probe((8, 9))
                h.walk(2, 1, 'a').walk(2, 1).probe((1, 2, 3), reads=(3,))
                out.append(h)
    return out


def d_fids(r):
    """The fid numbers of all kinds, each through its life."""
    out = []
    for j in range(12):
        h = H(TREE, conns=(1, 2) if j % 3 == 0 else (1,))
        for f in range(2, 11):
            h.walk(1, f, r.choice(['f', 'a', 'e', 'ro']))
        h.probe(range(1, 11))
        for f in r.sample(range(2, 11), 9):
            x = r.randrange(6)
            if x == 0:
                h.clunk(f)
            elif x == 1:
                h.remove(f)
            elif x == 2:
                h.walk(f, f, '..')
            elif x == 3:
                h.open(f, 'r')
            elif x == 4:
                h.attach(f)
            else:
                h.walk(1, f, 'a')
            h.probe(range(1, 11))
        for f in range(1, 11):
            h.clunk(f).clunk(f).probe((f,))
        h.attach(3).walk(3, 4, 'a').probe(range(1, 11))
        out.append(h)
    # one fid to another that is in use, whatever the number of those in use
    for n in (2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 100, 260):
        h = H(TREE)
        for f in range(2, n + 1):
            h.walk(r.choice([1, f - 1]), f, *r.choice([[], ['a'], ['f'], []]))
            if r.randrange(3) == 0:
                h.open(f, 'r')
        some = sorted(set([1, 2, n, n - 1, n // 2 + 1] + [r.randrange(1, n + 1) for _ in range(3)]))
        for f in some:
            g = r.choice([x for x in some if x != f])
            for names in ([], ['a'], ['..'], ['a', 'b'], ['nope'], ['a', 'nope']):
                h.walk(f, g, *names)
            h.attach(f).attach(g, ['a']).walk(f, f).probe(some)
        for f in some:
            h.clunk(f).probe(some).walk(n + 1, n + 2)
        h.attach(n + 1).walk(n + 1, some[0], 'a').walk(n + 1, some[0]).walk(n + 1, some[1]).probe(some)
        for o in h.ops:
            o['snap'] = n < 20 and o.get('snap', True)
        out.append(h)
    return out


def d_io(r, thorough=False):
    """Offsets and counts around all boundaries."""
    out = []
    for mk in ('a', 'b', 'c'):
        for n in (0, 1, 5, 30):
            h = H([N('R/f', 'f', 0o644, [1 + j % 200 for j in range(n)]), N('R/g', 'f', 0o600, [3])], mk=mk)
            h.walk(1, 2, 'f').walk(1, 3, 'f').open(2, 'r').open(3, 'rw')
            for off in (0, 1, n - 1, n, n + 1, n + 50):
                if off < 0:
                    continue
                for cnt in (0, 1, 2, n, n + 1, 1000, 1000000):
                    h.read(2, off, cnt)
            for off in (0, 1, n, n + 3, 2):
                for k in (0, 1, 3):
                    h.write(3, [(60 + off + k + i) % 240 + 1 for i in range(k)], off)
                    h.read(2, max(0, off - 1), k + 2)
                    h.read(3, 0, 1000000)
            h.write(3, [9, 9], 0, hi=True).read(2, 0, 5, hi=True).read(2, 0, 40).read(3, 1, 5, hi=True).read(3, n + 8, 3)
            h.write(3, [7], 1, hi=True).read(2, 0, 1000, hi=True)
            h.write(3, [9], neg=True).read(3, neg=True).read(2, 0, 3)
            h.walk(1, 4, 'f').open(4, 'w', True).read(2).read(3).write(4, [99], 2).read(2).read(3, 0, 1, hi=True)
            h.stat(2).clunk(3).read(2).clunk(4).read(2).write(2, [1])
            h.walk(1, 4, 'f').open(4, 'rw', True).read(4).read(2).write(3, [1])
            h.walk(1, 5, 'f').remove(5).read(2).write(4, [12, 13]).read(2)
            out.append(h)
    # whole messages, byte by byte: the limits of the message size
    for ms in (8192, 4096, 100):
        data = [1 + (j * 31 + j // 240) % 240 for j in range(9000)]
        h = H([N('R/f', 'f', 0o644, data)], version=False)
        h.version(msize=ms).attach(1).walk(1, 2, 'f').open(2, 'rw')
        for cnt in (ms - 25, ms - 24, ms - 23, ms - 11, ms, 65536, 1000000):
            for off in (0, 1, 9000 - ms + 24, 8999):
                h.read(2, max(0, off), cnt)
        h.write(2, data[:ms - 24], 3).read(2, 0, 9000).write(2, data[5:6], 9000).read(2, 8990, 1000)
        for o in h.ops:
            o['snap'] = False
        h.S = 1
        out.append(h)
    # large files, large messages, large requests
    for S, ms in ((2000, 0x7FFFFFFF), (4096, 1 << 20), (1021, 200024), (512, 65536 + 24), (65536, 0xFFFFFFFF), (777, 32768)):
        n = (900 if thorough else 300) if S < 5000 else 24
        room = (min(ms, (2 << 20) + 24) - 24) // S
        h = H([N('R/f', 'f', 0o644, [1 + (j * 31 + j // 240) % 240 for j in range(n)]), N('R/g', 'f', 0o600)], version=False)
        h.version(msize=ms).attach(1).walk(1, 2, 'f').open(2, 'rw').walk(1, 3, 'g').open(3, 'rw').walk(1, 4, 'f').open(4, 'r')
        for cnt in (1, 2, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, room - 1, room, n, n + 1, 1000000):
            for off in (0, 1, n // 2, n - 1):
                if cnt > 0:
                    h.read(r.choice([2, 4]), off, cnt)
        for cnt in (1, 15, 33, 63, 129, room):
            d = [(j * 7 + cnt) % 240 + 1 for j in range(min(cnt, room, n))]
            h.write(3, d, r.choice([0, 1, 5])).read(3, 0, 1000000).write(2, d, r.randrange(n)).read(4, 0, 1000000)
            h.read(4, n // 3, 1000000).read(4, n - 2, 1000)
        for o in h.ops:
            o['snap'] = False
        h.S = S
        out.append(h)
    return out


ODD = ['...', '....', '.a', '..a', 'a.', 'a..', '.git', '.DS_Store', '-rf', '--', '~', '~root', '$HOME', '`id`', 'a b', ' ', '  a', 'a ',
       '\t', '\n', '\r\n', 'a\nb', '\x01', '\x7f', '\\', 'a\\b', '*', '?', '[a]', '{a}', '%', '%s', '%00', '%2f', '%2e%2e', '"', "'", '&', '|',
       ';', '#', '#0', '!', '@', '=', '+', ',', ':', 'C:', 'a:b', 'con', 'NUL', 'lost+found', 'A', '\u00e9', 'e\u0301', '\u20ac', '\U0001f600',
       '\u202e', '\ufeff', '\u2215', '\u2024\u2024', '0', '00', '-1', '1e9', 'a' * 255, 'b' * 254, '.' * 255, '.' * 3 + 'x', '\u00e9' * 127,
       'tmp', 'a~', '#a#', '.nfs0001', 'a.swp', 'a' * 100, 'a' * 101, 'null', 'true', '<x>', '(x)']


def d_dir(r, big=300):
    out = []
    names = ['m%03d' % j for j in range(big)]
    for kind in range(4):
        h = H([N('R/d')] + [N('R/d/' + n, 'f' if j % 3 else 'd', 0o755, []) for j, n in enumerate(names[:big if kind else 40])],
              mk='a' if kind != 2 else 'c')
        h.walk(1, 2, 'd').open(2, 'r').walk(1, 3, 'd')
        k = big if kind else 40
        h.readdir(2, zero=True)
        for j in range(k + 3):
            if kind == 0:
                h.readdir(2, ck=r.choice(['tiny', 'mid', 'zero', 'big']))
            elif kind == 3 and j % 20 == 5:
                x = j % 3
                if x == 0:
                    h.walk(1, 4, 'd').create(4, 'q%d' % j, perm=0o600).clunk(4)
                elif x == 1:
                    h.walk(1, 4, 'd', names[(j * 7) % k]).remove(4)
                else:
                    h.walk(1, 4, 'd', names[(j * 11) % k]).wstat(4, name='w%d' % j).clunk(4)
            h.readdir(2)
            if kind == 1 and j == k // 2:
                h.readdir(2, zero=True)
                for _ in range(k + 2):
                    h.readdir(2)
        h.readdir(2).readdir(2, zero=True).readdir(2)
        for o in h.ops:
            o['snap'] = False
        h.names = names
        out.append(h)
    # names of all kinds: not to be taken for something else
    for part in range(4):
        h = H([N('R/d')] + [N('R/d/' + n, r.choice('fdl'), 0o755, []) for n in ODD[part::4] if '/' not in n])
        h.walk(1, 2, 'd').open(2, 'r').readdir(2, zero=True)
        for _ in range(len(ODD) // 4 + 3):
            h.readdir(2)
        for n in ODD[part::4]:
            h.walk(1, 3, ['d'], [n]).stat(3).clunk(3)
        for n in ODD[part::8]:
            if len(enc(n)) == 255:
                continue
            h.walk(1, 3, 'd').add('create', fid=3, name=['o' + n], dir=False, perm=0o644, m='rw', abs=False, trunc=False).clunk(3)
            h.walk(1, 3, ['d'], [n]).add('wstat', fid=3, mode=-1, ren=True, name=['p' + n], abs=False, len=-1, mtime='', atime='', own=False, hi=False, neg=False)
            h.stat(3).remove(3)
        h.readdir(2, zero=True)
        for _ in range(len(ODD) // 4 + 6):
            h.readdir(2)
        h.names = ODD
        out.append(h)
    # two fids reading the same directory do not disturb each other
    h = H(TREE)
    h.walk(1, 2).walk(1, 3).open(2, 'r').open(3, 'r')
    for j in range(40):
        h.readdir(r.choice([2, 3]), zero=j < 2 or r.randrange(12) == 0, ck=r.choice(['big', 'big', 'mid', 'tiny']))
    out.append(h)
    # an empty directory, and one that is removed
    h = H(TREE)
    h.walk(1, 2, 'e').open(2, 'r').readdir(2, zero=True).readdir(2).readdir(2, zero=True).walk(1, 3, 'e').create(3, 'n1').readdir(2)
    h.readdir(2, zero=True).readdir(2).readdir(2, ck='tiny').readdir(2, zero=True, ck='tiny').readdir(2, ck='zero').readdir(2).readdir(2)
    h.remove(3).readdir(2, zero=True).readdir(2)
    out.append(h)
    return out


def d_msize(r):
    out = []
    data = [1 + (j * 31 + j // 240) % 240 for j in range(9000)]
    tree = [N('R/f', 'f', 0o644, data), N('R/d')] + [N('R/d/' + n, 'f', 0o600, []) for n in ('x', 'y', 'n1', 'a', 'b')]

    def body(h, ms, c):
        h.walk(1, 2, 'f', c=c).open(2, 'rw', c=c).walk(1, 3, 'd', c=c).open(3, 'r', c=c)
        for cnt in (0, 1, ms - 25, ms - 24, ms - 23, ms - 11, ms - 10, ms, 2 * ms, 8168, 8192, 9000, 1000000):
            h.read(2, 0, max(0, cnt), c=c)
        for ck in ('big', 'mid', 'huge', 'big', 'tiny', 'big', 'huge', 'big', 'big'):
            h.readdir(3, ck=ck, zero=False, c=c)
        h.walk(1, 4, c=c).create(4, 'z%d' % c, c=c).walk(1, 5, c=c).create(5, 'q%d' % c, dir=True, perm=0o755, c=c)
        h.clunk(2, c=c).clunk(3, c=c).clunk(4, c=c).clunk(5, c=c)
    for ms in list(range(25, 48)) + [64, 85, 86, 87, 100, 128, 255, 256, 1000, 4096, 8000, 8023, 8024, 8025, 8191, 8192, 8193, 8215, 8216, 8217,
                                     16384, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]:
        h = H(tree, version=False)
        h.version(msize=ms).attach(1)
        body(h, ms, 1)
        out.append(h)
    for ms in (0, 1, 7, 11, 18, 19, 23, 24):
        h = H(tree, version=False)
        h.version(msize=ms, tiny=True).version(msize=8192).attach(1)
        body(h, 8192, 1)
        h.version(msize=ms, tiny=True).probe((1, 2))
        h.walk(1, 2, 'f').open(2).read(2, 0, 1000000)
        out.append(h)
    for ms1, ms2 in ((8192, 100), (100, 8192), (64, 65536), (30, 31), (65536, 200)):
        h = H(tree, version=False)
        h.version(msize=ms1).attach(1)
        body(h, ms1, 1)
        h.version(msize=ms2).attach(1)
        h.walk(1, 6, 'z1').remove(6).walk(1, 6, 'q1').remove(6)
        body(h, ms2, 1)
        out.append(h)
        h = H(tree, conns=(1, 2), version=False)
        h.version(msize=ms1, c=1).version(msize=ms2, c=2).attach(1, c=1).attach(1, c=2)
        body(h, ms1, 1)
        body(h, ms2, 2)
        body(h, ms1, 1)
        h.version(good=False, c=1).walk(1, 2, 'f').open(2).read(2, 0, 1000000)
        out.append(h)
    for h in out:
        h.S = 1
        for o in h.ops:
            o['snap'] = False
    return out


def d_idle(r, ms):
    """Sessions that do nothing for a while."""
    h = H(TREE, conns=(1, 2, 3))
    for c in (1, 2):
        h.walk(1, 2, 'f', c=c).open(2, 'rw', c=c).walk(1, 3, 'a', c=c).open(3, 'r', c=c).readdir(3, zero=True, c=c)
    h.add('nop', ms=ms).probe((1, 2, 3)).probe((1, 2, 3), c=2).probe((1, 2), c=3)
    for c in (1, 2):
        h.read(2, c=c).write(2, [c], c, c=c).readdir(3, c=c)
    return [h]


def d_many(r, n, live):
    """n connections, one after the other, of which up to live are there at the
    same time, and that leave in every way."""
    h = H(TREE, conns=())
    there = []
    for j in range(n):
        if len(there) >= live:
            c = there.pop(r.choice([0, -1, r.randrange(len(there))]))
            if r.randrange(3):
                h.stat(2, c=c)
            h.add('hangup', c=c)
        else:
            c = 1 + len(there)
        there.append(c)
        h.add('connect', c=c)
        if r.randrange(8) == 0:
            continue                # says nothing at all
        h.version(c=c, mk=r.choice('abc')).attach(1, c=c)
        if r.randrange(4):
            h.walk(1, 2, r.choice(['f', 'a', 'e']), c=c).stat(2, c=c)
            if r.randrange(2):
                h.open(2, 'r', c=c)
    for c in there:
        h.probe((1, 2), c=c)
    for o in h.ops:
        o['snap'] = False
    h.ops[-1]['snap'] = True
    return [h]


def d_hangup(r, hows=('close', 'half', 'bad', 'unread', 'eof', 'cut', 'reset')):
    """Connections that end, in every way and with everything they may hold."""
    def files(h, c=1):
        for j, (f, m) in enumerate([('f', 'r'), ('f', 'w'), ('a/x', 'rw'), ('ro', 'r'), ('a', 'r'), ('e', 'r'), ('f', 'rw'), ('a/b', 'r')]):
            h.walk(1, 2 + j, *f.split('/'), c=c).open(2 + j, m, c=c)
        return h
    stages = [
        ('attached', lambda h, c: h),
        ('walked', lambda h, c: h.walk(1, 2, 'f', c=c).walk(2, 3, c=c)),
        ('reading', lambda h, c: h.walk(1, 2, 'f', c=c).open(2, 'r', c=c).read(2, c=c)),
        ('writing', lambda h, c: h.walk(1, 2, 'f', c=c).open(2, 'rw', c=c).write(2, [40, 41], 1, c=c)),
        ('truncated', lambda h, c: h.walk(1, 2, 'f', c=c).open(2, 'w', True, c=c)),
        ('dir', lambda h, c: h.walk(1, 2, 'a', c=c).open(2, 'r', c=c)),
        ('dirs', lambda h, c: h.walk(1, 2, c=c).open(2, 'r', c=c).readdir(2, zero=True, ck='tiny', c=c).readdir(2, ck='mid', c=c)),
        ('dirend', lambda h, c: h.walk(1, 2, 'a', c=c).open(2, 'r', c=c).readdir(2, zero=True, c=c).readdir(2, c=c)),
        ('created', lambda h, c: h.walk(1, 2, c=c).create(2, 'n1', c=c).write(2, [50], c=c)),
        ('made', lambda h, c: h.walk(1, 2, c=c).create(2, 'n1', True, 0o755, 'r', c=c)),
        ('removed', lambda h, c: h.walk(1, 2, 'f', c=c).open(2, 'rw', c=c).walk(1, 3, 'f', c=c).remove(3, c=c)),
        ('gone', lambda h, c: h.walk(1, 2, 'a', 'x', c=c).open(2, 'r', c=c).walk(2, 3, c=c).remove(2, c=c)),
        ('renamed', lambda h, c: h.walk(1, 2, 'f', c=c).open(2, 'rw', c=c).wstat(2, name='n2', c=c)),
        ('refused', lambda h, c: h.walk(1, 2, 'f', c=c).open(2, 'r', c=c).open(2, 'r', c=c).write(2, [1], c=c).walk(2, 3, 'x', c=c).attach(2, c=c)),
        ('clunked', lambda h, c: h.walk(1, 2, 'f', c=c).open(2, 'r', c=c).walk(1, 3, 'f', c=c).open(3, 'rw', c=c).clunk(2, c=c)),
        ('moved', lambda h, c: h.walk(1, 2, 'a', c=c).walk(2, 2, 'x', c=c).open(2, 'rw', c=c).walk(1, 3, 'f', c=c).walk(3, 4, c=c).open(4, 'r', c=c)),
        ('many', lambda h, c: files(h, c)),
        ('anew', lambda h, c: files(h, c).version(c=c).attach(1, c=c).walk(1, 2, 'f', c=c).open(2, 'r', c=c)),
        ('fresh', lambda h, c: files(h, c).version(c=c)),
        ('unsupported', lambda h, c: files(h, c).version(good=False, c=c)),
    ]
    out = []
    for name, stage in stages:
        for how in hows:
            if name not in ('reading', 'dirs', 'many', 'anew') and r.randrange(3):
                continue
            h = H(TREE, conns=(1, 2))
            h.walk(1, 2, 'a', 'x', c=2).open(2, 'rw', c=2).walk(1, 3, 'a', c=2).open(3, 'r', c=2)
            stage(h, 1)
            h.add('hangup', c=1, how=how).probe((1, 2, 3), (2,), c=2).write(2, [60], 0, c=2).readdir(3, zero=True, c=2)
            h.add('connect', c=1).version(c=1).probe((1, 2), c=1).attach(1, c=1)
            h.walk(1, 2, 'e', c=1).open(2, 'r', c=1).probe((1, 2, 3), c=1)
            if r.randrange(2):
                h.add('hangup', c=2, how=r.choice(hows)).probe((1, 2), c=1)
            h.add('hangup', c=1, how=r.choice(hows)).add('connect', c=1).version(c=1).probe((1, 2), c=1)
            out.append(h)
    # the first words of a connection may be its last
    for how in hows:
        for upto in range(3):
            h = H(TREE, conns=(2,))
            h.walk(1, 2, 'f', c=2).open(2, 'r', c=2)
            for _ in range(3):
                h.add('connect', c=1)
                if upto > 0:
                    h.version(c=1, good=upto != 2)
                h.add('hangup', c=1, how=how).probe((1, 2), (2,), c=2)
            out.append(h)
    return out


def d_touch(r):
    """Modification times that differ by a little, or by whatever a version
    that is made carelessly loses."""
    out = []
    for t in (['f'], ['a'], ['a', 'x'], []):
        h = H(TREE)
        h.walk(1, 2, *t).stat(2)
        base = r.choice([1, 1000000001, 1234567890, 2100000000])
        last = 0
        for s, ms in [(0, 0), (0, 1), (0, 2), (0, 10), (0, 110), (0, 11), (0, 111), (0, 511), (1, 511), (11, 511), (1, 110), (0, 111), (0, 999), (1, 0), (1, 1), (0, 1), (2, 1), (1, 2), (1, 100),
                      (1, 256), (1, 512), (0, 512), (256, 512), (65, 512), (65, 48), (0, 48), (3600, 48), (86400, 48), (3600, 48)]:
            h.add('host', what='touch', p=['R'] + t, q=['R'], k='f', perm=0, data=[], mtime=str(base + s), ns=ms * 1000000)
            k = r.randrange(4)
            if k == 0 and t != []:
                h.walk(1, 3, *t).open(3, 'r').clunk(3)
            elif k == 1 and t == []:
                h.attach(3)
            h.stat(2)
        out.append(h)
    return out


LINKS = [N('R/a'), N('R/a/x', 'f', 0o644, [1, 2, 3]), N('R/a/b'), N('R/a/b/y', 'f', 0o600, [4, 5]), N('R/f', 'f', 0o644, [6, 7]),
         N('R/ro', 'f', 0o444, [8]), N('R/e'), N('R/no', 'd', 0o600), N('R/no/x', 'f', 0o644, [9]), N('R/rd', 'd', 0o555),
         N('R/d1', 'l', to='R/a'), N('R/d2', 'l', to='R/d1'), N('R/d3', 'l', to='R/e'), N('R/f1', 'l', to='R/f'), N('R/f2', 'l', to='R/d1/x'),
         N('R/f3', 'l', to='R/ro'), N('R/u1', 'l', to='R/n1'), N('R/u2', 'l', to='R/d1/n2'), N('R/u3', 'l', to='R/rd/n1'), N('R/u4', 'l'),
         N('R/o1', 'l', to='R/o1'), N('R/o2', 'l', to='R/o3'), N('R/o3', 'l', to='R/o2'), N('R/p1', 'l', to='R/no/x'), N('R/r1', 'l', to='R'),
         N('R/a/b/up', 'l', to='R/a'), N('R/g1', 'l', to='R/f1')]


def d_links(r, ops=None):
    """Symbolic links of every kind and what is done with them."""
    out = []
    names = [n['p'][1] for n in LINKS if n['k'] == 'l' and len(n['p']) == 2]
    # looking, removing and moving concern the link
    for n in names:
        h = H(LINKS)
        h.walk(1, 2, n).stat(2).walk(2, 3).stat(3).attach(4, [n]).stat(4).open(4, 'r').stat(4)
        h.walk(1, 5, n, 'x').stat(5).open(5, 'r').read(5).walk(1, 6, n, '..', 'f').stat(6).walk(1, 7, n, 'b', 'up', 'x').stat(7)
        h.walk(2, 8, '..').stat(8)
        if n[0] in 'dfgu':
            h.wstat(3, name='n3').stat(3).stat(2).walk(1, 2, n)
            h.remove(3).stat(2).walk(1, 5)
        else:
            h.remove(3).stat(2)
        out.append(h)
        h = H(LINKS)
        h.walk(1, 2, n).wstat(2, name='n3').stat(2).walk(1, 3, n).walk(1, 4, 'n3').stat(4).wstat(4, name='/f', abs=False).stat(4)
        h.walk(1, 5, 'f').wstat(5, name=n).stat(5).walk(1, 6, 'e').wstat(6, name=n).stat(6).wstat(6, name=n + '/n2', abs=True).stat(6)
        h.walk(1, 7, 'ro').wstat(7, name='d1/n1', abs=True).stat(7).probe(range(1, 8))
        out.append(h)
        # opening, attaching, making and changing concern what it leads to
        for m in ('r', 'w', 'rw'):
            for t in (False, True):
                h = H(LINKS)
                look = h.readdir if n[0] in 'dr' else h.read
                h.walk(1, 2, n).open(2, m, trunc=t)
                look(2)
                h.write(2, [21, 22], 1).stat(2)
                look(2)
                look(2)
                look(2)
                h.clunk(2)
                h.walk(1, 3, n).create(3, 'n2', m=m, dir=t, perm=0o700).stat(3).write(3, [5], 0).walk(1, 4, 'a').open(4, 'r').readdir(4, zero=True)
                h.create(1, n, m=m, dir=t).write(1, [23], 0).stat(1)
                look(1)
                out.append(h)
        for w in (dict(mode=0o640), dict(mode=0o700, len=1), dict(len=0), dict(len=5), dict(mtime='77'), dict(atime='78'), dict(mode=0o600, mtime='79'),
                  dict(mtime='5', name='f'), dict(mode=0o600, name='f1'), dict(atime='9', name='a/x', abs=True), dict(name='a/x', abs=True, len=0),
                  dict(len=1, neg=True), dict(mode=0o600, name='d1/n9', abs=True), dict(len=1, name='a'), dict(mode=0o711, name='n1')):
            h = H(LINKS)
            h.walk(1, 2, n).walk(1, 3, n).wstat(2, **w).probe((2, 3))
            out.append(h)
    for h in out[:]:
        if r.randrange(2):
            # the same in a directory one came to by a link
            h.init = [dict(x, p=['R', 'q'] + x['p'][1:] if x['p'][0] == 'R' and len(x['p']) > 1 else x['p'],
                           to=['R', 'q'] + x['to'][1:] if x['to'] else []) for x in h.init] + [N('R/q1', 'l', to='R/q')]
            h.init.insert(next(j for j, x in enumerate(h.init) if x['p'][:2] == ['R', 'q']), N('R/q'))
            first = next(j for j, o in enumerate(h.ops) if o['op'] == 'attach')
            k = r.randrange(3)
            if k == 0:
                h.ops[first]['name'] = ['q1']
            else:
                h.ops[first]['fid'] = 9
                h.ops.insert(first + 1, dict(op='walk', c=1, fid=9, newfid=1, names=[['q1']], abs=False))
            for o in h.ops[first + 1:]:
                if o['op'] == 'attach' or o.get('abs'):
                    o['name'] = [r.choice(['q', 'q1'])] + o['name']
    return out


def d_special(r):
    """Files that are neither regular nor directories nor links."""
    out = []
    tree = [N('R/f', 'f', 0o644, [1, 2]), N('R/s', 's', 0o644), N('R/a'), N('R/a/s', 's', 0o600), N('R/a/x', 'f', 0o644, [3]), N('R/a/t', 's', 0),
            N('R/l', 'l', to='R/s'), N('R/a/e')]
    for n in ('s', 'a/s', 'a/t', 'l'):
        h = H(tree)
        h.walk(1, 2, *n.split('/')).stat(2).walk(2, 3).stat(3).attach(4, n.split('/')).stat(4).walk(2, 5, '..').stat(5).walk(2, 6, 'x').probe((2, 3))
        for m in ('r', 'w', 'rw', 'x'):
            h.open(r.choice([2, 3, 4]), m, trunc=r.randrange(2) == 0).probe((2, 3, 4))
        h.read(2, cnt=3).write(2, [4], 0)
        h.walk(1, 7, 'a').create(7, 's', perm=0o640).probe((7,)).create(7, 's', perm=0o700, dir=True, m='r').probe((7,))
        h.open(7, 'r').readdir(7, zero=True)
        for _ in range(6):
            h.readdir(7)
        for _ in range(6):
            k = r.randrange(7)
            h.wstat(r.choice([2, 3]), **[dict(mode=0o604), dict(len=0), dict(len=2, mode=0o600), dict(mtime='77'), dict(atime='78'),
                                         dict(mtime='5', name='f9'), dict(name='e', mode=0o611)][k]).probe((2, 3))
        h.remove(r.choice([2, 3])).stat(2).stat(3)
        h.walk(1, 8, 'a').open(8, 'r').readdir(8, zero=True)
        for _ in range(6):
            h.readdir(8)
        out.append(h)
        # in the way of others, and on its way
        h = H(tree)
        h.walk(1, 2, 'f').wstat(2, name=n, abs=True).probe((2,)).walk(1, 3, 'a', 'e').wstat(3, name='s', abs=True).probe((3,))
        h.walk(1, 4, 'a', 's').wstat(4, name='x').probe((4,)).wstat(4, name='n1', abs=True).probe((4,)).wstat(4, name='a', abs=True).probe((4,))
        h.walk(1, 5, 'a', 't').remove(5).walk(1, 6, 'a').create(6, 't', perm=0o600).write(6, [7], 0).stat(6).walk(1, 7, 'a', 't').stat(7)
        out.append(h)
        for ch in ('new', 'hover'):
            h = H(tree)
            h.walk(1, 2, 'f').walk(2, 3).open(3, 'rw')
            if ch == 'new':
                h.add('host', what='del', p=['R', 'f'], q=['R', 'f'], k='f', perm=0o644, data=[], mtime='1')
                h.add('host', what='new', p=['R', 'f'], q=['R', 'f'], k='s', perm=0o644, data=[], mtime='1')
            else:
                h.add('host', what='mv', p=['R', 's'], q=['R', 'f'], k='f', perm=0o644, data=[], mtime='1')
            h.stat(2).stat(3).read(3).write(3, [9], 1).read(3).open(2, 'r').probe((2, 3)).clunk(3).wstat(2, len=1).wstat(2, mode=0o600).stat(2).remove(2)
            out.append(h)
    return out


def d_crowd(r):
    """Many fids."""
    out = []
    for n in (17, 33, 70, 200, 400, 900):
        h = H(TREE, conns=(1, 2))
        for f in range(2, n):
            h.walk(r.choice([1, 1, r.randrange(1, f)]) if f > 2 and r.randrange(4) == 0 else 1, f, r.choice(['f', 'a', 'e']))
        for f in range(2, min(n, 40)):
            h.open(f, 'r')
        for f in r.sample(range(2, n), min(n - 2, 60)):
            k = r.randrange(4)
            if k == 0:
                h.clunk(f).walk(1, f, 'a').stat(f)
            elif k == 1:
                h.attach(f).clunk(f).stat(f).walk(1, f)
            elif k == 2:
                h.stat(f, c=2).walk(1, f, 'e', c=2).stat(f, c=2)
            else:
                h.stat(f)
        h.version().probe(range(1, n) if n < 1000 else r.sample(range(1, n), 100))
        h.attach(1).walk(1, n - 1, 'f').probe((n - 1,))
        for o in h.ops:
            o['snap'] = o['op'] == 'version'
        out.append(h)
    return out


def d_version(r):
    out = []
    for j in range(24):
        h = H(TREE, conns=(1, 2), mk=r.choice('abc'))
        for c in (1, 2):
            h.walk(1, 2, 'f', c=c).open(2, 'rw', c=c).walk(1, 3, 'a', c=c).open(3, 'r', c=c).walk(1, 4, 'e', c=c)
            h.readdir(3, zero=True, c=c)
        h.version(good=j % 4 != 0, tiny=j % 4 == 1, mk=r.choice('abc'))
        h.probe((1, 2, 3, 4)).probe((1, 2, 3, 4), c=2)
        h.read(2).write(2, [3]).readdir(3).clunk(4)
        h.read(2, c=2).write(2, [4], c=2).readdir(3, c=2)
        h.attach(r.choice([1, 2, 3])).walk(1, 2, 'a').walk(2, 4).open(2, 'r').walk(1, 3, 'f').open(3, 'rw').probe((1, 2, 3, 4))
        h.read(3).write(3, [8], 1).clunk(2)
        h.version(mk='b').version(good=False).version(mk='a').probe((1, 2, 3, 4))
        h.attach(3).attach(2).attach(1).probe((1, 2, 3, 4))
        out.append(h)
    out += d_crowd(r)
    # what is agreed on, again and again
    for j in range(12):
        h = H(TREE, conns=(1, 2), version=False)
        some = r.sample([100, 131, 300, 8192, 16384, 65536, (1 << 21) + 24, (1 << 24), (1 << 31) - 1], 4)
        for _ in range(14):
            c = r.randrange(1, 3)
            h.version(msize=r.choice(some), c=c)
            if r.randrange(3) == 0:
                h.attach(1, c=c).walk(1, 2, 'f', c=c).open(2, 'rw', c=c).read(2, c=c).probe((1, 2), c=c)
        out.append(h)
    # without a version that was agreed on
    h = H(TREE, version=False)
    h.version(good=False).attach(1).walk(1, 2, 'f').open(2, 'rw').read(2).walk(1, 3, 'a').open(3).readdir(3, zero=True)
    h.version(good=True).probe((1, 2, 3)).attach(1).walk(1, 2, 'f').open(2, 'rw').read(2)
    out.append(h)
    h = H(TREE, version=False)
    h.attach(1).stat(1).walk(1, 2).version(good=False).attach(1).stat(1).version(good=True).stat(1).attach(1).stat(1)
    out.append(h)
    return out


def exam(ops, probe='', most=8):
    """Requests that show what the fids of a history have come to be."""
    seen = []
    last = {o['c']: o['op'] for o in ops}
    for o in ops:
        for f in ('fid', 'newfid'):
            if f in o and last[o['c']] != 'hangup' and (o['c'], o[f]) not in seen:
                seen.append((o['c'], o[f]))
    out = []
    for c, f in seen[:most]:
        out.append(dict(op='open', c=c, fid=f, m='r', trunc=False, probe=probe))
        out.append(dict(op='read', c=c, fid=f, off=0, cnt=1000, hi=False, neg=False, isdir=False, zero=True, ck='big'))
        out.append(dict(op='stat', c=c, fid=f, probe=probe))
        out.append(dict(op='clunk', c=c, fid=f))
        out.append(dict(op='stat', c=c, fid=f))
    return out


FOCUS = {'C13': 'clunk', 'C14': 'walk', 'C15': 'open', 'C19': 'create', 'C20': 'remove', 'C21': 'wstat', 'C24': 'version'}


def finish(r, hs, prop=''):
    """Scenarios for directed histories."""
    out = []
    for h in hs:
        b = Bind(r)
        if not h.kw.get('Conc') and len(h.ops) < 80 and all(o.get('fid', 0) < 20 for o in h.ops):
            snap = all(o.get('snap', True) for o in h.ops)
            h.ops += [dict(o, snap=snap) for o in exam(h.ops, FOCUS.get(prop, ''))]
        b.S = getattr(h, 'S', b.S)
        b.far = getattr(h, 'far', b.far)
        out.append(h.scenario(r, bind=b))
    return out


def confined(r, g, conc, S=None):
    """A history of several connections, each in its own directory, and what
    each of them does on its own."""
    ops = expand(g['ops'])
    b = Bind(r)
    b.S = S or b.S
    if conc:
        first = [o for o in ops if o['op'] == 'connect'][:max(o['c'] for o in ops)]
        rest = [o for o in ops if not any(o is f for f in first)]
        ops = first + rest + [dict(op='nop', c=1)]
    alls = scenario(r, g['init'], ops, bind=b, Conc=conc)
    solo = {}
    for c in sorted({o['c'] for o in ops}):
        mine = [j for j, o in enumerate(ops) if o['c'] == c]
        s = dict(alls)
        s['ops'] = [alls['ops'][j] for j in mine]
        s['sc'] = dict(alls['sc'], Conc=False, Ops=[dict(alls['sc']['Ops'][j], Snap=True) for j in mine])
        solo[c] = s
    return alls, solo


def d_stress(r, conns, n):
    """Connections that read and write their own files, all at the same time."""
    cs = range(1, conns + 1)
    h = H([x for c in cs for x in [N('R/' + 'abcdegxy'[c - 1])] +
           [N('R/%s/%s' % ('abcdegxy'[c - 1], f), 'f', 0o644, [10 * c + j for j in range(4)]) for f in ('f', 'n1', 'n2')]],
          conns=cs, mk='')
    for c in cs:
        d = 'abcdegxy'[c - 1]
        h.walk(1, 2, d, 'f', c=c).open(2, 'rw', c=c).walk(1, 3, d, c=c).open(3, 'r', c=c).readdir(3, zero=True, c=c)
    for j in range(n):
        for c in cs:
            k = r.randrange(12)
            if k < 7:
                h.read(2, r.randrange(4) if r.randrange(3) == 0 else 0, c=c)
            elif k < 9:
                h.write(2, [100 + 10 * c + r.randrange(9)] * r.choice([1, 4]), 0, c=c)
            elif k == 9:
                h.readdir(3, zero=r.randrange(4) == 0, c=c)
            else:
                h.stat(r.choice([1, 2, 3]), c=c)
    return dict(init=h.init, ops=[dict(o=o) for o in h.ops])


def session(g, alls, tr, k):
    """The session of the connection of step k (from 0) by itself, from the
    host tree as it was then; None if it cannot be had."""
    if alls['sc'].get('Conc'):
        return None
    c = alls['ops'][k]['c']
    starts = [j for j in range(k + 1) if alls['ops'][j]['c'] == c and alls['ops'][j]['op'] == 'connect']
    if len(starts) < 2 or not tr['ev'][starts[-1]]['snapd']:
        return None
    j = starts[-1]
    n = j
    while n >= 0 and tr['ev'][n]['same']:
        n -= 1
    snap = tr['ev'][n]['snap']
    if n < 0 or any(x['far'] or not set(x['data']) <= set(range(256)) or x['k'] == '?' for x in snap):
        return None
    init = [dict(p=x['p'], k=x['k'], perm=x['perm'], data=x['data']) for x in snap]
    mine = [i for i in range(j, len(alls['ops'])) if alls['ops'][i]['c'] == c]
    mine = mine[:next((i for i, m in enumerate(mine) if i and alls['ops'][m]['op'] == 'connect'), len(mine))]
    b = alls['bind']
    s = dict(alls, init=init, ops=[alls['ops'][i] for i in mine])
    s['sc'] = dict(alls['sc'], Ops=[dict(alls['sc']['Ops'][i], Snap=True) for i in mine],
                   Init=[dict(P=[b64(b.name(y)) for y in x['p']], K=x['k'], Perm=x['perm'], Data=x['data'], Mt=900000000 + i)
                         for i, x in enumerate(init)])
    return s
