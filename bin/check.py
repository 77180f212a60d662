#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current tree:
 1. model-checks the TLA+ specification (bounded, exhaustive) with TLC;
 2. builds the library from /repo against the virtual kernel;
 3. replays behaviours of the specification (one script per transition of the
    bounded model) and random programs in the real code, recording every event;
 4. has TLC decide for every recorded trace whether it is a behaviour of the
    specification.
A trace that is not is re-run alone; if it is rejected again it is a violation.
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time, threading, atexit

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
import props

REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(HERE, 'spec')
T0 = time.time()
CPUS = 8


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def run_tlc(wd, spec, cfg, workers=1, env=None, timeout=600, xmx='2g', c1=True, extra=()):
    """Runs TLC in the specification's folder; returns its output."""
    meta = tempfile.mkdtemp(prefix='meta', dir=wd)
    e = dict(os.environ)
    e.update(env or {})
    gc = ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if c1 else ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=4']
    cmd = ['java'] + gc + ['-Xmx' + xmx, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-metadir', meta,
           '-noGenerateSpecTE', '-workers', str(workers)] + list(extra) + ['-config', cfg, spec + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b'').decode('utf-8', 'replace') + '\nTIMEOUT\n'
    shutil.rmtree(meta, ignore_errors=True)
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.P = props.PROPS[pid]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1') % 900
        self.wd = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        atexit.register(shutil.rmtree, self.wd, True)
        self.lock = threading.Lock()
        self.states = self.trans = 0
        self.mc_runs = []
        self.traces = self.events = self.scripts = 0
        self.kinds = {}
        self.viol = []
        self.unconf = 0
        self.samples = []
        self.corrupt = [0, 0]
        self.stop = False
        self.built = set()
        self.known = self.load_known()
        self.known_seen = set()

    def load_known(self):
        out = []
        try:
            for l in open(os.path.join(HERE, 'known_findings.txt')):
                m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
                if m and m.group(1) == self.pid:
                    out.append((re.compile(m.group(2)), m.group(3).strip()))
        except FileNotFoundError:
            pass
        return out

    # ------------------------------------------------------------------ build
    def build(self):
        need = {}
        for j in self.P['jobs']:
            need.setdefault(j.get('set', 'core'), set()).update(j['flavours'])
        for st, fl in sorted(need.items()):
            e = dict(os.environ, VERIF_SET=st)
            d = os.path.join(self.wd, st)
            p = subprocess.run(['bash', os.path.join(HERE, 'bin/buildlib.sh'), d] + sorted(fl), env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                print(p.stdout.decode('utf-8', 'replace')[-3000:])
                log('cannot build the library')
                sys.exit(2)
        log('built', {k: sorted(v) for k, v in need.items()})

    def driver(self, job, fl):
        st = job.get('set', 'core')
        return os.path.join(self.wd, st, fl, 'core_drv' if st == 'core' else 'net_drv')

    # ------------------------------------------------------------- one shard
    def drive(self, job, fl, out, seed, n, script=None):
        cmd = [self.driver(job, fl), '--out', out] + list(job.get('args', []))
        if script:
            cmd += ['--script', script, '--seed', str(seed)]
        else:
            cmd += ['--mix', job['mix'], '--seed', str(seed), '--n', str(n)]
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=800)

    def tlc_trace(self, job, path):
        """Index (1-based) of the first event no behaviour explains; 0 if none."""
        spec = job.get('spec', 'CoreTrace')
        for attempt in range(3):
            out = run_tlc(self.wd, spec, spec + '.cfg', env={'TRACE': path}, timeout=500)
            m = re.search(r'"REACHED", (\d+), (\d+)', out)
            if m:
                a, b = int(m.group(1)), int(m.group(2))
                if 'Error:' in out and a > b:
                    a = b
                return (0, '') if a > b else (a, '')
            # an evaluation error is a rejection of the event under evaluation
            m = re.search(r'AT (\d+)', out)
            if 'TIMEOUT' in out or 'OutOfMemory' in out or 'Error:' not in out:
                continue
            err = re.search(r'Error:.*(?:\n.*){0,8}', out)
            depth = re.search(r'REJECT (\d+)', out)
            return (-1, err.group(0) if err else out[-800:])
        raise RuntimeError('TLC gives no answer:\n' + out[-2000:])

    def examine(self, job, fl, path, script=None, base=1, depth=0):
        """Checks a trace file; confirms and reports rejections."""
        lines = open(path).read().split('\n')
        lines = [l for l in lines if l]
        with self.lock:
            self.events += len(lines)
            self.traces += sum('"e":"B"' in l for l in lines)
            for l in lines:
                m = re.match(r'\{"e":"r","c":\d+,"o":"(\w+)","r":(-?\d+),"x":"(\w+)"', l) or \
                    re.match(r'\{"e":"r","c":\d+,"o":"(\w+)","r":(-?\d+)()', l)
                if m:
                    k = m.group(1) + ':' + ('ok' if int(m.group(2)) >= 0 and m.group(3) in ('0', '') else m.group(3) or 'err')
                    self.kinds[k] = self.kinds.get(k, 0) + 1
        guard = 0
        while lines and not self.stop:
            at, err = self.tlc_trace(job, path)
            if at == 0:
                return
            guard += 1
            if at < 0:      # evaluation error: find the scenario by bisection
                at = self.locate(job, lines, err)
                if at == 0:
                    raise RuntimeError(err)
            at = min(at, len(lines))
            b = max([i for i in range(at) if '"e":"B"' in lines[i] and '"rep":0' in lines[i]], default=0)
            nx = min([i for i in range(at, len(lines)) if '"e":"B"' in lines[i] and '"rep":0' in lines[i]],
                     default=len(lines))
            m = re.search(r'"seed":(\d+)', lines[b])
            m2 = re.search(r'"e":"X".*"seed":(\d+)', lines[at - 1])
            seed = int((m2 or m).group(1)) if (m or m2) else None
            self.confirm(job, fl, seed, script, lines, b, at, err)
            if guard > 6:
                return
            lines = lines[nx:]
            if lines:
                path = path + '.c'
                open(path, 'w').write('\n'.join(lines) + '\n')

    def locate(self, job, lines, err):
        """For an evaluation error: the shortest rejected prefix."""
        starts = [i for i in range(len(lines)) if '"e":"B"' in lines[i] and '"rep":0' in lines[i]] + [len(lines)]
        for a, z in zip(starts, starts[1:]):
            p = os.path.join(self.wd, 'loc%d' % threading.get_ident())
            open(p, 'w').write('\n'.join(lines[a:z]) + '\n')
            at, e = self.tlc_trace(job, p)
            if at:
                if at > 0:
                    return a + at
                lo, hi = a, z
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    open(p, 'w').write('\n'.join(lines[a:mid]) + '\n')
                    x, _ = self.tlc_trace(job, p)
                    if x < 0:
                        hi = mid
                    else:
                        lo = mid
                return hi
        return 0

    def confirm(self, job, fl, seed, script, lines, b, at, err):
        """Runs the rejected scenario alone, again."""
        if seed is None:
            with self.lock:
                self.unconf += 1
            return
        if '--duo' in job.get('args', []):
            seed //= 2
        out = os.path.join(self.wd, 'again-%d-%s' % (threading.get_ident(), seed))
        sc = None
        if script:
            ss = open(script).read().strip('\n').split('\n\n')
            sc = out + '.script'
            open(sc, 'w').write(ss[seed - 1] + '\n')
            # the seed decides what the script leaves open
            self.drive(job, fl, out, seed, 1, sc)
        else:
            self.drive(job, fl, out, seed, 1)
        again = [l for l in open(out).read().split('\n') if l]
        r, e2 = self.tlc_trace(job, out)
        if r == 0:
            log('not reproduced: seed', seed, job.get('mix'), fl)
            with self.lock:
                self.unconf += 1
            return
        if r < 0:
            r = self.locate(job, again, e2) or len(again)
        ev = again[min(r, len(again)) - 1] if again else '(no event)'
        what = '%s %s/%s seed %d: event %d is not a step of the specification: %s%s' % (
            job.get('spec', 'CoreTrace'), job.get('mix', 'script'), fl, seed, r, ev, (' ' + e2) if e2 else '')
        for rx, txt in self.known:
            if rx.search(what):
                with self.lock:
                    self.known_seen.add(txt)
                return
        with self.lock:
            if len(self.viol) >= 3:
                self.stop = True
                return
            rd = os.path.join(HERE, 'replays')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%s-%s-%d' % (self.pid, job.get('mix', 'script'), fl, seed))
            with open(rp, 'w') as f:
                f.write('property %s\n%s\n' % (self.pid, what))
                f.write('driver: set=%s flavour=%s args=%s mix=%s seed=%d\n' % (
                    job.get('set', 'core'), fl, job.get('args', []), job.get('mix'), seed))
                if sc:
                    f.write('script:\n' + open(sc).read() + '\n')
                f.write('trace (rejected at event %d, marked):\n' % r)
                for i, l in enumerate(again[:r + 5]):
                    f.write(('>>> ' if i == r - 1 else '    ') + l + '\n')
            self.viol.append((rp, what))
            self.stop = True
        log('REJECTED', what)

    def shard(self, job, fl, seed, n, idx, script=None):
        if self.stop:
            return
        out = os.path.join(self.wd, 't-%s-%s-%d' % (job.get('mix', 'script'), fl, idx))
        self.drive(job, fl, out, seed, n, script)
        self.examine(job, fl, out, script)
        if not self.stop and len(self.samples) < 3 and os.path.exists(out):
            self.samples.append({'job': job.get('mix') or 'script', 'flavour': fl, 'first_events': open(out).read().split('\n')[:25]})
        if idx == 0 and not self.stop and not script and self.corrupt[0] < 4:
            self.corruption(job, out)
        if not self.stop:
            for p in (out,):
                if os.path.exists(p):
                    os.unlink(p)

    def corruption(self, job, out):
        """A trace with one altered result must be rejected."""
        lines = [l for l in open(out).read().split('\n') if l]
        nx = [i for i in range(1, len(lines)) if '"e":"B"' in lines[i] and '"rep":0' in lines[i]]
        lines = lines[:nx[min(len(nx) - 1, 3)]] if nx else lines
        rng = random.Random(self.seed)
        cand = [i for i, l in enumerate(lines) if '"e":"r"' in l and '"o":"now"' not in l]
        if not cand:
            return
        i = rng.choice(cand)
        l = lines[i]
        m = re.search(r'"r":(-?\d+)', l)
        v = int(m.group(1))
        nv = v + 1 if v >= 0 else 0
        l2 = l.replace(m.group(0), '"r":%d' % nv, 1)
        if v < 0:
            l2 = re.sub(r'"x":"\w+"', '"x":"0"', l2)
        p = out + '.corrupt'
        open(p, 'w').write('\n'.join(lines[:i] + [l2] + lines[i + 1:]) + '\n')
        at, err = self.tlc_trace(job, p)
        with self.lock:
            self.corrupt[0] += 1
            self.corrupt[1] += at != 0
        os.unlink(p)

    # ------------------------------------------------------- model checking
    def model(self, mc):
        q = self.tier == 'quick'
        con = dict(mc['const'])
        con.update(mc.get('quick' if q else 'thorough', {}))
        cfg = os.path.join(self.wd, 'mc%d.cfg' % len(self.mc_runs))
        emit = mc.get('emit', True)
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
            for i in mc['inv']:
                f.write('INVARIANT %s\n' % i)
            for i in mc.get('prop', []):
                f.write('PROPERTY %s\n' % i)
            if mc.get('view', True):
                f.write('VIEW View\n')
            f.write('CONSTANTS\n')
            for k, v in con.items():
                f.write(' %s = %s\n' % (k, v))
            if emit:
                f.write(' EMIT = TRUE\n')
        out = run_tlc(self.wd, mc['spec'], cfg, workers=CPUS, timeout=120 if q else 420, xmx='8g', c1=False)
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        tr, st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m:
            mm = re.findall(r'\): ([\d,]+) states generated.*?, ([\d,]+) distinct', out)
            if mm:
                tr, st = [int(x.replace(',', '')) for x in mm[-1]]
        self.states += st
        self.trans += tr
        bad = re.search(r'Error: (Invariant|Action property|Temporal|Property)[^\n]*', out)
        if not bad and 'Error:' in out and 'TIMEOUT' not in out:
            print(out[-3000:])
            raise RuntimeError('model checking failed')
        self.mc_runs.append({'spec': mc['spec'], 'constants': {k: str(v) for k, v in con.items()},
                             'states': st, 'transitions': tr, 'invariants': mc['inv'] + mc.get('prop', []),
                             'complete': 'TIMEOUT' not in out})
        log('model', mc['spec'], con, 'states', st, 'transitions', tr)
        if bad:
            rd = os.path.join(HERE, 'replays')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-model' % self.pid)
            open(rp, 'w').write(out[-20000:])
            self.viol.append((rp, 'the specification itself: ' + bad.group(0)))
            return []
        if not emit:
            return []
        S = set()
        for m in re.finditer(r'<<\s*"SCRIPT",\s*<<(.*?)>>\s*>>', out, re.S):
            S.add(tuple(re.findall(r'"([^"]*)"', m.group(1))))
        pre = set()
        for x in S:
            for i in range(1, len(x)):
                pre.add(x[:i])
        S = sorted(x for x in S if x not in pre)
        random.Random(self.seed).shuffle(S)
        cap = mc.get('scripts_quick', 1600) if q else mc.get('scripts_thorough', 40000)
        return S[:cap]

    # ------------------------------------------------------------------ run
    def run(self):
        q = self.tier == 'quick'
        self.build()
        tasks = []
        for mc in self.P.get('mc', []):
            S = self.model(mc)
            if self.viol:
                break
            if not S:
                continue
            self.scripts += len(S)
            job = mc['job']
            for fl in job['flavours']:
                k = max(1, min(CPUS * (1 if q else 4), len(S) // 100 or 1))
                for i in range(k):
                    part = S[i::k]
                    sc = os.path.join(self.wd, 'sc-%d-%s-%d' % (len(tasks), fl, i))
                    open(sc, 'w').write('\n\n'.join('\n'.join(x) for x in part) + '\n')
                    tasks.append((job, fl, 1, len(part), 1000 + len(tasks), sc))
        for ji, job in enumerate(self.P['jobs']):
            if 'mix' not in job:
                continue
            n = job['n'] if q else job.get('n_thorough', job['n'] * 25)
            per = job.get('per', 40)
            for fl in job['flavours']:
                k = max(1, (n + per - 1) // per)
                for i in range(k):
                    seed = self.seed * 1000000 + ji * 100000 + i * per + 1
                    tasks.append((job, fl, seed, min(per, n - i * per), 0 if i == 0 else len(tasks) + 1, None))
        log(len(tasks), 'shards')
        budget = 400 if q else 760 - (time.time() - T0)
        dl = time.time() + budget
        random.Random(self.seed).shuffle(tasks)
        skipped = [0]
        errs = []

        def go(t):
            if time.time() > dl or self.stop:
                skipped[0] += 1
                return
            try:
                self.shard(*t[:5], script=t[5])
            except Exception as ex:
                errs.append(repr(ex))
                import traceback
                traceback.print_exc()
        with cf.ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(go, tasks))
        if errs and not self.viol:
            log('internal error', errs[0][:2000])
            sys.exit(2)
        self.evidence(skipped[0])
        for t in sorted(self.known_seen):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, t))
        if self.viol:
            for rp, what in self.viol[:1]:
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
                print('  ' + what[:1500])
            sys.exit(1)
        log('held: %d traces, %d events, %d scripts; model %d states' % (self.traces, self.events, self.scripts, self.states))
        sys.exit(0)

    def evidence(self, skipped):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        samples = ['%s x%d' % kv for kv in sorted(self.kinds.items(), key=lambda kv: -kv[1])]
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': props.level(self.pid),
            'coverage': {
                'states': self.states, 'transitions': self.trans,
                'traces_validated_against_impl': self.traces,
                'samples': self.samples[:3] + ['results of calls in the recorded traces: ' + ', '.join(samples[:80])],
                'models': self.mc_runs,
                'events_validated': self.events,
                'scripts_replayed_from_specification': self.scripts,
                'corrupted_traces_rejected': '%d of %d' % (self.corrupt[1], self.corrupt[0]),
                'rejections_not_reproduced': self.unconf,
                'shards_skipped_for_time': skipped,
            },
            'assumptions': self.P.get('assumptions', props.ASSUME),
            'wall_s': round(time.time() - T0, 1),
            'violations': len(self.viol),
        }
        json.dump(ev, open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    Check(sys.argv[1], tier).run()
