"""Common machinery of the checks: building the harness from /repo, running
it, model checking, trace validation, evidence and verdicts."""
import itertools, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')     # a copy of it, when planting bugs
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NOBODY = 65534


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


STALL = -1000


def watch(cmd, out, work, env, deadline, patience=120):
    """Runs the harness; ends it when nothing comes to be written to out any
    more: then it is stuck in a scenario, and the result is STALL."""
    with tempfile.TemporaryFile() as errf:
        p = subprocess.Popen(cmd, cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=errf)
        size, since = -1, time.time()
        rc = None
        while rc is None:
            try:
                rc = p.wait(0.05 if time.time() - since < 2 else 0.5)
            except subprocess.TimeoutExpired:
                n = os.path.getsize(out) if os.path.exists(out) else 0
                now = time.time()
                if n != size:
                    size, since = n, now
                if now > deadline:
                    p.kill()
                    p.wait()
                    raise
                if now - since > patience:
                    p.send_signal(signal.SIGQUIT)
                    try:
                        p.wait(10)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                    rc = STALL
        errf.seek(0)
        return rc, errf.read()


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='vp-%s-' % prop, dir='/tmp')
        os.chmod(self.dir, 0o755)
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.states = 0
        self.transitions = 0
        self.models = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.threads = []
        self.bgerr = []
        self.steps = {}
        self._n = itertools.count(1)
        self.harness = None

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def tmp(self, name=''):
        return os.path.join(self.dir, '%d%s' % (next(self._n), name))

    def cleanup(self):
        # scratch trees can hold directories without permissions
        subprocess.run(['chmod', '-R', 'u+rwX', self.dir], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- building ---------------------------------------------------------
    def gopath(self, copy=False):
        """A workspace with the repository (or a copy of it) and the harness; the environment to use it."""
        gp = self.tmp('gopath')
        at = gp + '/src/github.com/Harvey-OS/ninep'
        os.makedirs(os.path.dirname(at))
        os.makedirs(gp + '/src/verif')
        if copy:
            shutil.copytree(REPO, at, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        else:
            os.symlink(REPO, at)
        os.symlink(os.path.join(VERIF, 'harness'), gp + '/src/verif/harness')
        env = dict(PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', HOME='/root',
                   GOENV='off', GOPATH=gp, GOCACHE='/root/.cache/go-build', GO111MODULE='off', GOFLAGS='',
                   GOWORK='off', GOPROXY='off', GOTOOLCHAIN='local', GOTELEMETRY='off')
        return gp, at, env

    def go(self, args, cwd, env, timeout=600):
        r = subprocess.run(['go'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=timeout)
        return r.returncode, r.stdout[-4000:]

    def compile(self, what, cwd, env):
        bindir = self.tmp('bin')
        os.mkdir(bindir)
        os.chmod(bindir, 0o755)
        out = os.path.join(bindir, os.path.basename(cwd))
        rc, text = self.go(['build', '-o', out, '.'], cwd, env)
        if rc != 0:
            raise CheckError('building %s failed:\n%s' % (what, text))
        os.chmod(out, 0o755)
        return out

    def build(self):
        gp, at, env = self.gopath()
        self.harness = self.compile('the harness', gp + '/src/verif/harness', env)
        return self.harness

    def command(self):
        """The ufs command."""
        gp, at, env = self.gopath()
        return self.compile('the command', at + '/cmd/ufs', env)

    def regenerate(self):
        """Runs the generator on a copy of the repository and builds the harness with what it makes: the harness and
        what went wrong."""
        gp, at, env = self.gopath(copy=True)
        rc, text = self.go(['generate', './protocol'], at, env)
        if rc != 0:
            return None, 'go generate fails: ' + text
        try:
            return self.compile('the harness', gp + '/src/verif/harness', env), ''
        except CheckError as e:
            return None, 'the generated code does not compile: ' + str(e)

    # -- running the real code ---------------------------------------------
    def run(self, mode, scenarios, shards=8, env=None, timeout=600, wrap=(), crash_ev=None):
        """Runs the scenarios; returns for each the list of its events. A
        scenario during which the process ends gets a last event with
        crash: true."""
        if not self.harness:
            self.build()
        n = len(scenarios)
        if n == 0:
            return []
        # what may take a lot of memory runs one after the other
        huge = [i for i in range(n) if scenarios[i].get('Huge')]
        rest = [i for i in range(n) if not scenarios[i].get('Huge')]
        split = [rest[s::shards] for s in range(shards) if rest[s::shards]] + ([huge] if huge else [])
        shards = len(split)
        res = [None] * n
        work = self.tmp('run')
        os.mkdir(work)
        os.chown(work, NOBODY, NOBODY)
        os.chmod(work, 0o755)
        errs = []

        def shard(s):
            ids = split[s]
            sf = os.path.join(work, 's%d' % s)
            of = os.path.join(work, 'o%d' % s)
            with open(sf, 'w') as f:
                for i in ids:
                    f.write(json.dumps({k: v for k, v in scenarios[i].items() if k != 'Huge'}, separators=(',', ':')) + '\n')
            os.chmod(sf, 0o644)
            first = 0
            deadline = time.time() + timeout
            crashes = 0
            while first < len(ids):
                if os.path.exists(of):
                    os.unlink(of)
                e = dict(PATH='/usr/bin:/bin', HOME=work, TMPDIR=work, GOTRACEBACK='single')
                e.update(env or {})
                cmd = list(wrap) + (['prlimit', '--as=%d' % (3 << 30)] if s == shards - 1 and huge and not wrap else []) + ['setpriv', '--reuid=%d' % NOBODY, '--regid=%d' % NOBODY, '--clear-groups',
                                    '--inh-caps=-all', '--bounding-set=-all',
                                    self.harness, mode, sf, of, str(first)]
                if crashes >= 5:
                    # broken through and through; the rest adds nothing
                    for j in range(first, len(ids)):
                        res[ids[j]] = [dict(e='skipped')]
                    return
                try:
                    rc, err = watch(cmd, of, work, e, deadline)
                except subprocess.TimeoutExpired:
                    errs.append('harness %s timed out' % mode)
                    return
                if rc == STALL:
                    crashes += 2
                started = None
                parts = []
                ended = False
                if os.path.exists(of):
                    with open(of) as f:
                        for line in f:
                            try:
                                o = json.loads(line)
                            except ValueError:
                                break
                            if 'start' in o:
                                started = o['start']
                                parts = []
                            elif 'part' in o:
                                parts.append(o['e'])
                            elif 'i' in o:
                                res[ids[o['i']]] = parts + (o['ev'] or [])
                                started = None
                            elif 'end' in o:
                                ended = True
                if ended:
                    return
                tail = err.decode('utf8', 'replace')
                if rc == 2 and not ('panic' in tail or 'fatal error' in tail or 'goroutine' in tail):
                    errs.append('harness %s failed: %s' % (mode, tail[-2000:]))
                    return
                if rc in (-9, 137) and rc != STALL:
                    errs.append('harness %s was killed' % mode)
                    return
                if started is None:
                    errs.append('harness %s ended (%s) outside a scenario: %s' % (mode, rc, tail[-2000:]))
                    return
                crashes += 1
                last = dict(e='end', crash=True)
                last['stderr'] = tail[:1500]
                res[ids[started]] = parts + [last]
                first = started + 1
        ts = [threading.Thread(target=shard, args=(s,)) for s in range(shards)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise CheckError(errs[0])
        if any(r is None for r in res):
            raise CheckError('harness %s left scenarios without a result' % mode)
        return res

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, args=(), env=None, workers=4, heap='3g', timeout=700, fast=True):
        sd = self.tmp('spec')
        os.mkdir(sd)
        for f in os.listdir(SPEC):
            if f.endswith('.tla') or f.endswith('.cfg'):
                os.symlink(os.path.join(SPEC, f), os.path.join(sd, f))
        if not os.path.exists(os.path.join(sd, cfg)):
            raise CheckError('no config ' + cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m']
        if fast:
            cmd += ['-XX:TieredStopAtLevel=1']
        cmd += ['-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', sd + '/states', '-noGenerateSpecTE',
                '-config', cfg] + list(args) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=sd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s/%s' % (module, cfg))
        shutil.rmtree(sd + '/states', ignore_errors=True)
        return r.returncode, r.stdout

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of a specification; the result adds to the
        evidence. The specification does not depend on /repo, so a failure is
        an error of the check."""
        cfg = cfg or module + '.cfg'
        kw.setdefault('timeout', self.scale(700, 3000))
        rc, out = self.tlc(module, cfg, fast=kw.pop('fast', False), **kw)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
        if rc != 0 or 'No error has been found' not in out or not m:
            raise CheckError('model %s/%s: %s' % (module, cfg, out[-3000:]))
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        self.models.append(dict(module=module, config=cfg, states=int(m.group(2)), transitions=int(m.group(1))))

    def model_bg(self, module, cfg=None, **kw):
        def go():
            try:
                self.model(module, cfg, **kw)
            except Exception as ex:
                self.bgerr.append(ex)
        t = threading.Thread(target=go)
        t.start()
        self.threads.append(t)

    def join_bg(self):
        for t in self.threads:
            t.join()
        self.threads = []
        if self.bgerr:
            raise self.bgerr[0]

    def generate(self, module, cfg, num, depth, env=None, seed=None, timeout=300, parts=4):
        """Behaviours from a specification: TLC simulation of a module that
        prints each as @@GEN JSON."""
        seed = self.seed if seed is None else seed
        outs = [None] * parts
        errs = []

        def go(j):
            try:
                rc, out = self.tlc(module, cfg, ['-simulate', 'num=%d' % ((num + parts - 1) // parts), '-depth', str(depth),
                                                 '-seed', str(seed * 1000 + j)], env=env, workers=1,
                                   timeout=timeout, heap='1g')
                outs[j] = out
            except Exception as ex:
                errs.append(ex)
        ts = [threading.Thread(target=go, args=(j,)) for j in range(parts)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        gen = []
        for out in outs:
            n0 = len(gen)
            for line in out.splitlines():
                if line.startswith('"@@GEN '):
                    gen.append(json.loads(json.loads(line)[6:]))
            if len(gen) == n0:
                raise CheckError('no behaviours from %s: %s' % (module, out[-2000:]))
        return gen[:num]

    def validate(self, module, cfg, scenarios, traces, env=None, workers=6, what='', heap='6g',
                 timeout=700):
        """Trace validation: traces[i] is a dict to be one line of the trace
        file. Returns the list of mismatches (dicts with i 0-based, k, blame,
        exp)."""
        if not traces:
            return []
        tf = self.tmp('trace.ndjson')
        with open(tf, 'w') as f:
            for t in traces:
                f.write(json.dumps(t, separators=(',', ':')) + '\n')
        e = dict(TRACE=tf)
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, workers=workers, heap=heap, timeout=timeout)
        done, hard, dev = set(), set(), {}
        for line in out.splitlines():
            if line.startswith('"@@DONE '):
                done.add(int(line[8:].rstrip('"')) - 1)
            elif line.startswith('"@@MISMATCH ') or line.startswith('"@@SOFT '):
                o = json.loads(json.loads(line).split(' ', 1)[1])
                o['i'] -= 1
                dev.setdefault(o['i'], []).append(o)
                if line.startswith('"@@M'):
                    hard.add(o['i'])
        # of several deviations, the one that concerns this property is the one to show
        mis = {}
        for i, os_ in dev.items():
            os_.sort(key=lambda o: (self.prop not in o['blame'], o['k']))
            mis[i] = dict(os_[0], blame=sorted({b for o in os_ for b in o['blame']}))
        if rc != 0 or len(done) + len(hard) != len(traces):
            keep = os.path.join(VERIF, 'out')
            os.makedirs(keep, exist_ok=True)
            shutil.copy(tf, os.path.join(keep, 'failed-trace.ndjson'))
            i = next((i for i in range(len(traces)) if i not in done and i not in hard), -1)
            raise CheckError('trace validation %s failed (exit %s; %d done, %d mismatches of %d; first missing %d): %s'
                             % (module, rc, len(done), len(hard), len(traces), i, out[-3000:]))
        os.unlink(tf)
        self.traces += len(done) + len(hard)
        m = re.search(r'(\d+) states generated, (\d+) distinct states', out)
        if m:
            self.events += int(m.group(2)) - len(traces)
        for t in traces:
            for e in t.get('ev', []):
                r = e.get('r')
                k = str(e.get('op') or e.get('e') or 'event')
                if isinstance(e.get('b'), list) and len(e['b']) > 4:
                    k += ' type %d' % e['b'][4]
                if isinstance(r, dict) and 'ok' in r:
                    k += ' granted' if r['ok'] else ' refused'
                self.steps[k] = self.steps.get(k, 0) + 1
        if traces and len(self.samples) < 3:
            s = json.dumps(traces[0])
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000] + '...')
        return [mis[i] for i in sorted(mis)]

    # -- verdicts -------------------------------------------------------------
    def violation(self, what, data):
        self.violations.append((what, data))

    def take(self, mismatches, scenarios, traces, mode, spec, only=None):
        """Turns mismatches that concern this property into violations."""
        for m in mismatches:
            if os.environ.get('VERIF_DEBUG'):
                print('DEBUG', m['i'], m['k'], m['blame'], m['exp'][:300], str(traces[m['i']]['ev'][m['k'] - 1])[:700])
            if self.prop in m['blame']:
                i = m['i']
                ev = traces[i].get('ev', [])
                self.violation('step %d of a %s trace is not a step of the specification' % (m['k'], mode),
                               dict(mode=mode, spec=spec, scenario=scenarios[i], trace=traces[i], step=m['k'],
                                    event=ev[m['k'] - 1] if 0 < m['k'] <= len(ev) else None,
                                    properties=sorted(m['blame']), specification_says=m['exp'][:20000]))
            else:
                self.notes.append('a trace deviates in a way that concerns %s' % ','.join(sorted(m['blame'])))

    def finish(self, level, extra=None):
        self.join_bg()
        known = known_findings(self.prop)
        viol = []
        for what, data in self.violations:
            k = next((f for f in known if f['match'](data)), None)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
            else:
                viol.append((what, data))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   trace_events=self.events, models=self.models, samples=self.samples or ['none'],
                   steps=dict(sorted(self.steps.items())))
        cov.update(extra or {})
        if self.notes:
            cov['notes'] = sorted(set(self.notes))[:20]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for x in sorted(set(self.notes)):
            print('note:', x)
        if viol:
            od = os.path.join(VERIF, 'out')
            os.makedirs(od, exist_ok=True)
            rp = os.path.join(od, '%s-seed%d-%s.json' % (self.prop, self.seed, self.tier))
            what, data = min(viol, key=lambda w: len(json.dumps(w[1])))
            with open(rp, 'w') as f:
                json.dump(dict(property=self.prop, what=what, violations=len(viol), **data), f, indent=1)
            print('%d violations; the smallest:' % len(viol), what)
            print(json.dumps({k: v for k, v in data.items() if k in ('event', 'properties', 'specification_says')})[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s held: %d model states, %d traces, %d events, %.1f s'
              % (self.prop, self.states, self.traces, self.events, time.time() - self.t0))
        return 0


def known_findings(prop):
    """Findings listed in known-findings.txt as 'known: property=ID KEY text';
    none is listed at present. A violation matches by its key."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(dict(text=m.group(3), match=lambda d, k=m.group(2): d.get('key') == k))
    return out
