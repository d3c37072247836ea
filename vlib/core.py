"""Shared machinery of all checks: building from /repo's working tree, running drivers, running TLC, reporting."""
import atexit
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)


class Infra(Exception):
    """The check itself could not do its work (never reported as a violation)."""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', CGO_ENABLED='0')
    e.setdefault('HOME', '/root')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []      # (key, text, replay object)
        self.known = load_known(prop)
        self.known_hit = {}
        self.n = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tmp(self, name):
        self.n += 1
        return os.path.join(self.scratch, '%03d-%s' % (self.n, name))

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and isinstance(self.notes.get(k), (int, float)):
                self.notes[k] += v
            else:
                self.notes[k] = v

    # ---- violations ----
    def violation(self, key, text, replay):
        """key identifies the failing input, call site or history, for matching against known findings."""
        for k in self.known:
            if re.search(k['match'], key):
                self.known_hit[k['match']] = k['what']
                return
        if len(self.violations) < 20:
            self.violations.append((key, text, replay))

    # ---- Go ----
    def module(self):
        """A private copy of the harness module, so that the go command cannot touch committed files."""
        mod = os.path.join(self.scratch, 'harness')
        if not os.path.isdir(mod):
            shutil.copytree(HARNESS, mod)
            p = os.path.join(mod, 'go.mod')
            s = open(p).read().replace('=> /repo', '=> ' + REPO)
            open(p, 'w').write(s)
            if os.path.exists(os.path.join(REPO, 'go.sum')):
                shutil.copy(os.path.join(REPO, 'go.sum'), os.path.join(mod, 'go.sum'))
        return mod

    def go_build(self, pkg, instrument=(), cover=False, tags=None, extra_overlay=None):
        """Builds the test binary of harness package pkg against /repo's working tree. instrument: source files
        (relative to /repo, globs allowed) that get schedule points."""
        import glob
        t = time.time()
        out = self.tmp('drv.test')
        mod = self.module()
        replace = dict(extra_overlay or {})
        if instrument:
            files = []
            for g in instrument:
                files += [f for f in sorted(glob.glob(os.path.join(REPO, g))) if not f.endswith('_test.go')]
            d = self.tmp('instr')
            os.makedirs(d)
            ov = os.path.join(d, 'overlay.json')
            r = run(['go', 'run', './cmd/instr', '-out', d, '-overlay', ov] + files, cwd=mod, env=goenv(), timeout=300)
            if r.returncode != 0:
                raise Infra('instrumentation failed:\n' + r.stdout + r.stderr)
            got = json.load(open(ov))['Replace']
            for orig, by in replace.items():     # schedule points in a replaced file
                if by in got:
                    replace[orig] = got.pop(by)
            replace.update(got)
        cmd = ['go', 'test', '-c', '-vet=off', '-o', out]
        if tags:
            cmd += ['-tags', tags]
        plain = list(cmd)
        if replace:
            ovf = self.tmp('overlay.json')
            json.dump({'Replace': replace}, open(ovf, 'w'))
            cmd += ['-overlay', ovf]
        r = run(cmd + [pkg], cwd=mod, env=goenv(), timeout=600)
        if r.returncode != 0 and instrument:
            # code the instrumenter cannot handle: fall back to the plain sources (fewer schedules, same verdicts)
            self.log('instrumented build failed, using plain sources:\n' + (r.stdout + r.stderr)[-1500:])
            self.note(instrumented=False)
            if extra_overlay:
                ovf = self.tmp('overlay.json')
                json.dump({'Replace': extra_overlay}, open(ovf, 'w'))
                plain += ['-overlay', ovf]
            r = run(plain + [pkg], cwd=mod, env=goenv(), timeout=600)
        if r.returncode != 0:
            raise Infra('build failed:\n' + (r.stdout + r.stderr)[-4000:])
        self.log('built %s in %.1fs' % (pkg, time.time() - t))
        return out

    def drive(self, binary, total, env=None, nproc=NCPU, first=0, deadline=None, test='TestDrive', timeout=300):
        """Runs scenarios first..first+total-1 in parallel processes; returns {index: [events]}. An unfinished
        scenario of a crashed process gets a final Crash event."""
        deadline = deadline or (time.time() + timeout)
        res = {}
        step = (total + nproc - 1) // nproc
        jobs = [(first + k * step, min(first + total, first + (k + 1) * step)) for k in range(nproc)]

        def job(fromto):
            lo, hi = fromto
            got = {}
            restarts = 0
            while lo < hi and restarts < 400:
                out = self.tmp('drv.out')
                e = goenv()
                e.update(VDRV_OUT=out, VDRV_SEED=str(self.seed), VDRV_FROM=str(lo), VDRV_TO=str(hi), GOMAXPROCS='2')
                e.update(env or {})
                left = deadline - time.time()
                if left <= 1:
                    break
                err = self.tmp('drv.err')
                killed = False
                with open(err, 'wb') as ef:
                    p = subprocess.Popen([binary, '-test.run', '^%s$' % test, '-test.timeout', '0'], env=e, cwd=self.scratch,
                                         stdout=ef, stderr=subprocess.STDOUT, start_new_session=True)
                    try:
                        rc = p.wait(timeout=left)
                    except subprocess.TimeoutExpired:
                        killed = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = -9
                recs, unfinished = parse_drv(out)
                got.update(recs)
                try:
                    os.remove(out)
                except OSError:
                    pass
                if killed or rc == 0:
                    if rc == 0 and not recs and hi > lo:
                        raise Infra('driver produced nothing: ' + open(err, errors='replace').read()[-2000:])
                    break
                done = max(list(recs) + ([unfinished[0]] if unfinished else []) + [lo - 1])
                text = open(err, errors='replace').read()
                if done < lo and re.search(r'^(panic:|fatal error:)', text, re.M) and 'flychain/' in text:
                    unfinished, done = (lo, []), lo
                if done < lo:
                    raise Infra('driver failed: ' + text[-3000:])
                if unfinished:
                    got[unfinished[0]] = unfinished[1] + [{'e': 'Crash', 'msg': text[-6000:]}]
                restarts += 1
                lo = done + 1
            return got

        with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
            for g in ex.map(job, [j for j in jobs if j[0] < j[1]]):
                res.update(g)
        return res

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, workers=1, timeout=300, dfs=False, heap='2g', simulate=None, coverage=False, extra=()):
        d = self.tmp('tlc-' + module)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        open(os.path.join(d, module + '.cfg'), 'w').write(cfg)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m',
               '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + d]
        if dfs:
            cmd += ['-Dtlc2.tool.queue.IStateQueue=StateDeque']
        cmd += ['-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-nowarning',
                '-metadir', os.path.join(d, 'meta'), '-config', module + '.cfg']
        if simulate:
            cmd += ['-simulate', simulate]
        if coverage:
            cmd += ['-coverage', '1']
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        outp = os.path.join(d, 'out')
        t = time.time()
        timed_out = False
        with open(outp, 'wb') as of:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=of, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                timed_out = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -9
        text = open(outp, errors='replace').read()
        shutil.rmtree(os.path.join(d, 'meta'), True)
        m = None
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', text):
            pass
        r = TlcResult(rc, text, timed_out, int(m.group(1)) if m else 0, int(m.group(2)) if m else 0, time.time() - t)
        if simulate:
            m = re.search(r'The number of states generated: (\d+)', text)
            if m:
                r.generated = int(m.group(1))
        return r

    def mc(self, module, cfg, timeout=600, workers=NCPU, heap='8g', expect_ok=True, name=None):
        """Exhaustive model checking of a specification. A failure means the specification is wrong, not the code."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap)
        if r.timed_out:
            raise Infra('model checking %s timed out' % module)
        if r.rc != 0:
            raise Infra('model checking %s failed:\n%s' % (module, r.text[-5000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.note(**{'mc_' + (name or module): '%d distinct states, %d transitions, exhaustive' % (r.distinct, r.generated)})
        self.log('MC %s: %d states, %d transitions, %.1fs' % (name or module, r.distinct, r.generated, r.wall))
        return r

    def accept(self, module, cfg, traces, nproc=NCPU, timeout=240, env=None, heap='3g', chunk=400, count=True):
        """Validates traces (list of dicts with 'ev') with the trace specification. Returns (accepted, rejected,
        undecided) lists of positions."""
        acc, rej, und = set(), set(), set()
        if not traces:
            return acc, rej, und
        chunks = [list(range(k, min(len(traces), k + chunk))) for k in range(0, len(traces), chunk)]
        if len(chunks) < nproc:
            n = max(1, (len(traces) + nproc - 1) // nproc)
            chunks = [list(range(k, min(len(traces), k + n))) for k in range(0, len(traces), n)]
        stop = time.time() + timeout

        def job(idx):
            left = stop - time.time()
            if left < 3:
                return idx, None
            f = self.tmp('traces.ndjson')
            with open(f, 'w') as o:
                for k in idx:
                    o.write(json.dumps(traces[k]) + '\n')
            e = dict(env or {})
            e['VTRACES'] = f
            r = self.tlc(module, cfg, env=e, workers=1, dfs=True, timeout=left, heap=heap)
            os.remove(f)
            return idx, r

        with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
            for idx, r in ex.map(job, chunks):
                if r is None:
                    und.update(idx)
                    continue
                a = {idx[int(x) - 1] for x in re.findall(r'<<"ACC", (\d+)>>', r.text)}
                acc |= a
                rest = set(idx) - a
                if count:
                    self.states += r.distinct
                    self.transitions += r.generated
                if r.timed_out:
                    und |= rest
                elif r.rc != 0:
                    raise Infra('trace validation with %s failed:\n%s' % (module, r.text[-4000:]))
                else:
                    rej |= rest
        # undecided traces get a second, individual chance
        retry = sorted(und)[:NCPU * 2]
        if retry and timeout > 30 and count:
            a, r_, _ = self.accept(module, cfg, [traces[k] for k in retry], nproc, timeout / 2, env, heap, 1, False)
            for k in a:
                acc.add(retry[k])
                und.discard(retry[k])
            for k in r_:
                rej.add(retry[k])
                und.discard(retry[k])
        if count:
            self.traces += len(acc) + len(rej)
        return acc, rej, und

    def culprit(self, module, cfg, trace, env=None):
        """Length of the longest accepted prefix of a rejected trace."""
        ev = trace['ev']
        pre = []
        for n in range(len(ev) + 1):
            t = dict(trace)
            t['ev'] = ev[:n]
            pre.append(t)
        a, _, _ = self.accept(module, cfg, pre, env=env, count=False, timeout=120)
        n = 0
        while n + 1 < len(pre) and (n + 1) in a:
            n += 1
        return n

    def check_traces(self, module, cfg, traces, what, key=None, env=None, timeout=240, maxreport=3, render=None):
        """traces: list of dicts {'id','ev',...}. Reports each rejected one as a violation."""
        acc, rej, und = self.accept(module, cfg, traces, env=env, timeout=timeout)
        self.log('%s: %d traces accepted, %d rejected, %d undecided' % (module, len(acc), len(rej), len(und)))
        if und:
            self.note(undecided_traces=len(und))
        if len(acc) + len(rej) == 0 and traces:
            raise Infra('no trace could be decided')
        for n, k in enumerate(sorted(rej, key=lambda k: len(traces[k]['ev']))[:maxreport * 4]):
            t = traces[k]
            pos = self.culprit(module, cfg, t, env) if n < maxreport else None
            bad = t['ev'][pos] if pos is not None and pos < len(t['ev']) else None
            txt = '%s: history %s refused by %s at event %s: %s' % (what, t.get('id'), module, pos, json.dumps(bad))
            self.violation(key(t, bad) if key else txt, txt, {'kind': 'trace', 'module': module, 'cfg': cfg, 'trace': t,
                                                             'refused_at': pos, 'event': bad, 'seed': self.seed})
        return acc, rej, und

    # ---- records: one evaluation of a pure function each ----
    def check_records(self, module, recs, cfg='', nproc=NCPU, timeout=600, what='', key=None, heap='3g', chunk=None, maxreport=5, env=None):
        """The specification module re-computes each record (a call of the real code with its result) and prints
        "BAD <position> <expected>" for those that disagree. recs: list of dicts."""
        if not recs:
            return 0
        chunk = chunk or max(1, (len(recs) + nproc - 1) // nproc)
        chunks = [list(range(k, min(len(recs), k + chunk))) for k in range(0, len(recs), chunk)]
        stop = time.time() + timeout
        bad = []
        done = 0

        def job(idx):
            left = stop - time.time()
            if left < 3:
                return idx, None
            f = self.tmp('recs.ndjson')
            with open(f, 'w') as o:
                for k in idx:
                    o.write(json.dumps(recs[k]) + '\n')
            e = dict(env or {})
            e['VRECS'] = f
            r = self.tlc(module, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + cfg, env=e, workers=1, timeout=left, heap=heap)
            os.remove(f)
            return idx, r

        with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
            for idx, r in ex.map(job, chunks):
                if r is None or r.timed_out:
                    self.note(records_not_decided=len(idx))
                    if r is None:
                        continue
                elif r.rc != 0:
                    raise Infra('evaluation with %s failed:\n%s' % (module, r.text[-4000:]))
                for m in re.finditer(r'^"BAD (\d+) ?(.*)"$', r.text, re.M):
                    bad.append((idx[int(m.group(1)) - 1], m.group(2)))
                done += max(0, r.distinct - 1) if not r.timed_out else 0
                self.states += r.distinct
                self.transitions += r.generated
                if not r.timed_out:
                    self.traces += len(idx)
        self.log('%s: %d records evaluated, %d disagree' % (module, len(recs), len(bad)))
        for k, exp in bad:
            r = recs[k]
            txt = '%s: %s disagrees with %s%s' % (what, json.dumps(r, ensure_ascii=True)[:600], module, (', expected ' + exp[:300]) if exp else '')
            self.violation(key(r, exp) if key else json.dumps(r, sort_keys=True), txt,
                           {'kind': 'record', 'module': module, 'cfg': cfg, 'record': r, 'expected': exp, 'seed': self.seed})
        return len(bad)

    # ---- end ----
    def finish(self, level='model_checking'):
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ['none'])
        cov.update(self.notes)
        json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                       assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations)),
                  open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        for k, w in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        if not self.violations:
            self.log('holds on everything explored: %d states, %d transitions, %d traces' % (self.states, self.transitions, self.traces))
            return 0
        rd = os.path.join(ev, 'replays')
        os.makedirs(rd, exist_ok=True)
        for n, (key, text, replay) in enumerate(self.violations[:5]):
            replay = dict(replay, property=self.prop, text=text)
            h = hashlib.sha256(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rd, '%s-%s.json' % (self.prop, h))
            json.dump(replay, open(path, 'w'), indent=1)
            print(text[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        return 1


class TlcResult:
    def __init__(self, rc, text, timed_out, generated, distinct, wall):
        self.rc, self.text, self.timed_out, self.generated, self.distinct, self.wall = rc, text, timed_out, generated, distinct, wall


def run(cmd, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, **kw)
    except subprocess.TimeoutExpired as e:
        raise Infra('timed out: %s' % cmd) from e


def parse_drv(path):
    """Returns ({index: events} of finished scenarios, (index, events) of the unfinished one or None)."""
    recs, cur, evs = {}, None, []
    if not os.path.exists(path):
        return recs, None
    with open(path, errors='replace') as f:
        for line in f:
            if line.startswith('E '):
                try:
                    evs.append(json.loads(line[2:]))
                except ValueError:
                    pass
            elif line.startswith('S '):
                cur, evs = int(line[2:].split()[0]), []
            elif line.startswith('X '):
                if cur is not None:
                    recs[cur] = evs
                cur, evs = None, []
    return recs, ((cur, evs) if cur is not None else None)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            r = json.loads(line)
            if r.get('status') == 'known' and r.get('property') == prop:
                out.append(r)
    return out


def trim(events):
    """Splits a scenario into its Init header and the events up to End."""
    h, ev = events[0], []
    for e in events[1:]:
        if e['e'] == 'End':
            break
        ev.append(e)
    return h, ev


def dedupe(traces):
    seen, out = set(), []
    for t in traces:
        k = json.dumps({k: v for k, v in t.items() if k != 'id'}, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out
