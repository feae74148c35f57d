"""Runner shared by all checks: TLC, driver processes, evidence, verdicts."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = ('/opt/veriftools/tla/tla2tools.jar:'
       '/opt/veriftools/tla/CommunityModules-deps.jar')
PY = sys.executable


class CheckError(Exception):
    """The check itself could not be carried out (not a violation)."""


class Violation(Exception):
    def __init__(self, what, payload=None):
        super().__init__(what)
        self.what = what
        self.payload = payload


class TLCResult(object):
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
        self.generated, self.distinct = (
            [int(x.replace(',', '')) for x in m[-1]] if m else (0, 0))
        self.violated = re.findall(
            r'(?:Invariant|Action property|Temporal properties?) ?(\S*) '
            r'(?:is|was|were) violated', out)
        self.finished = 'Model checking completed' in out or \
            'The number of states generated' in out or rc == 0
        self.ok = rc == 0 and not self.violated and 'Error:' not in out


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(
            int(hashlib.sha256(('%s/%s' % (pid, seed)).encode())
                .hexdigest()[:12], 16))
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.t0 = time.time()
        self.states = 0          # distinct states over all TLC runs
        self.transitions = 0     # states generated over all TLC runs
        self.design_states = 0   # distinct states of exhaustive design models
        self.traces = 0          # implementation traces validated
        self.events = 0
        self.behaviours = 0      # spec-generated behaviours replayed
        self.samples = []
        self.notes = {}
        self.known = []
        self.pool = cf.ThreadPoolExecutor(8)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------ TLC
    def tlc(self, spec, cfg, env=None, workers=4, args=(), timeout=600,
            short=True):
        meta = tempfile.mkdtemp(dir=self.scratch)
        cmd = ['java', '-Xmx6g', '-Xss64m', '-XX:+UseParallelGC',
               '-XX:ParallelGCThreads=2', '-Djava.io.tmpdir=' + meta]
        if short:
            cmd += ['-XX:TieredStopAtLevel=1']
        cmd += ['-cp', JAR, 'tlc2.TLC', '-config', cfg, '-workers',
                str(workers), '-metadir', meta, '-noGenerateSpecTE',
                '-deadlock'] + list(args) + [spec]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s %s' % (spec, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = TLCResult(p.returncode, p.stdout)
        for x in ('StackOverflowError', 'OutOfMemoryError'):
            if x in r.out:
                raise CheckError('TLC ran into %s on %s %s' % (x, spec, cfg))
        return r

    def design(self, spec, cfg=None, workers=4, min_states=2, **kw):
        """Exhaustively check a design model; it must be clean."""
        cfg = cfg or spec + '.cfg'
        r = self.tlc(spec, cfg, workers=workers, **kw)
        if not r.ok or r.distinct < min_states:
            raise CheckError('design model %s/%s is not clean:\n%s'
                             % (spec, cfg, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.design_states += r.distinct
        self.notes.setdefault('design_models', []).append(
            dict(spec=spec, cfg=cfg, distinct_states=r.distinct,
                 states_generated=r.generated))
        return r

    def generate(self, spec, cfg=None, simulate=None, depth=None, limit=None,
                 env=None, workers=4, timeout=300):
        """Behaviours printed by a generator spec as <<"B", json>>."""
        cfg = cfg or spec + '.cfg'
        args = []
        if simulate:
            args += ['-simulate', 'num=%d' % simulate,
                     '-depth', str(depth or 100),
                     '-seed', str(self.seed + 1)]
            workers = 1
        r = self.tlc(spec, cfg, env=env, workers=workers, args=args,
                     timeout=timeout)
        if 'Error:' in r.out:
            raise CheckError('generator %s failed:\n%s'
                             % (spec, r.out[-3000:]))
        out, seen = [], set()
        for m in re.finditer(r'^<<"B", "(.*)">>$', r.out, re.M):
            s = m.group(1)
            if s in seen:
                continue
            seen.add(s)
            out.append(json.loads(s.replace('\\"', '"').replace('\\\\', '\\')))
        if not out:
            raise CheckError('generator %s produced nothing:\n%s'
                             % (spec, r.out[-2000:]))
        self.states += r.distinct
        self.transitions += r.generated
        out.sort(key=lambda b: json.dumps(b, sort_keys=True))
        total = len(out)
        if limit and len(out) > limit:
            out = self.rng.sample(out, limit)
        # sorted behaviours would pair like with like when zipped
        random.Random(self.seed).shuffle(out)
        self.notes.setdefault('generators', []).append(
            dict(spec=spec, cfg=cfg, behaviours=total, used=len(out)))
        self.behaviours += len(out)
        return out

    def validate(self, spec, traces, cfg=None, workers=4, timeout=800,
                 env=None, label=None):
        """Validate recorded traces [{cfg:..., ev:[...]}, ...] with TLC.

        Every trace is consumed event by event; the spec computes the set of
        violated clauses of each event and TLC stops at a non-empty one.
        """
        if not traces:
            raise CheckError('no traces for %s' % spec)
        cfg = cfg or 'Trace.cfg'
        fn = tempfile.mktemp(dir=self.scratch, suffix='.json')
        with open(fn, 'w') as f:
            json.dump(traces, f)
        e = {'TRACES': fn}
        e.update(env or {})
        r = self.tlc(spec, cfg, env=e, workers=workers, timeout=timeout)
        nev = sum(len(t['ev']) for t in traces)
        if not r.ok:
            raise Violation(*self._explain(spec, cfg, traces, r))
        if r.distinct != nev + len(traces):
            raise CheckError(
                '%s consumed %d states, expected %d:\n%s'
                % (spec, r.distinct, nev + len(traces), r.out[-2000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(traces)
        self.events += nev
        self.notes.setdefault('trace_validations', []).append(
            dict(spec=spec, traces=len(traces), events=nev,
                 label=label or spec))
        t = traces[len(traces) // 2]
        s = json.dumps(t, sort_keys=True)
        if len(self.samples) < 6:
            self.samples.append(dict(spec=spec, trace=s[:1500]))
        return r

    def _explain(self, spec, cfg, traces, r):
        """Name the failing clause, trace and event of a rejected batch."""
        bad = re.findall(r'/\\ bad = (\{.*?\})\s*$', r.out, re.M | re.S)
        bad = [b.split('\n/\\')[0] for b in bad]
        tid = re.findall(r'/\\ tid = (\d+)', r.out)
        idx = re.findall(r'/\\ i = (\d+)', r.out)
        payload = dict(spec=spec, cfg=cfg, tlc=r.out[-4000:])
        if tid and idx:
            t = traces[int(tid[-1]) - 1]
            i = int(idx[-1])
            if not bad or bad[-1].strip() == '{}':
                i += 1   # evaluation error while consuming the next event
            payload.update(trace=t, index=i)
            ev = t['ev'][i - 1] if 0 < i <= len(t['ev']) else None
            what = '%s: clause %s fails at event %d of trace %s: %s' % (
                spec, ' '.join((bad[-1] if bad else '?').split()), i, tid[-1],
                json.dumps(ev)[:400])
        else:
            what = '%s: %s' % (spec, r.out[-1500:])
            if 'Error:' not in r.out:
                raise CheckError('TLC failed: ' + r.out[-3000:])
        return what, payload

    # -------------------------------------------------------- drivers
    def drive(self, module, func, jobs, shards=8, timeout=400):
        """Run harness.drv.<module>.<func>(job) for every job, in
        subprocesses; returns the results in order.  An exception raised by
        the code under test, a crash or a hang is a violation."""
        jobs = list(jobs)
        shards = max(1, min(shards, len(jobs)))
        parts = [jobs[k::shards] for k in range(shards)]
        futs = [self.pool.submit(self._drive1, module, func, p, timeout)
                for p in parts]
        res = [f.result() for f in futs]
        out = [None] * len(jobs)
        for k, part in enumerate(res):
            for j, x in enumerate(part):
                out[k + j * shards] = x
        return out

    def _drive1(self, module, func, jobs, timeout):
        d = tempfile.mkdtemp(dir=self.scratch)
        inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(inp, 'w') as f:
            json.dump(jobs, f)
        errp = os.path.join(d, 'err.txt')
        with open(errp, 'w') as ef:
            p = subprocess.Popen(
                [PY, '-W', 'ignore', '-m', 'harness.drvmain', module, func,
                 inp, outp], cwd=VERIF, stdout=ef, stderr=ef,
                start_new_session=True,
                env=dict(os.environ, TMPDIR=d, HOME=d))
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = 'hang'
            finally:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        err = open(errp).read()
        if rc != 0 or not os.path.exists(outp):
            cur = None
            try:
                cur = json.load(open(outp + '.cur'))
            except Exception:
                pass
            kind = 'did not terminate' if rc == 'hang' else 'failed'
            raise Violation(
                'driver %s.%s %s (rc=%s): %s' % (
                    module, func, kind, rc, err[-1200:]),
                dict(module=module, func=func, job=cur, stderr=err[-6000:]))
        with open(outp) as f:
            return json.load(f)

    # -------------------------------------------------------- verdict
    def known_findings(self):
        fn = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(fn):
            return []
        return [k for k in json.load(open(fn)).get('findings', [])
                if k['property'] == self.pid]

    def report_known(self, key, what):
        """True iff (property, key) is a listed finding."""
        for k in self.known_findings():
            if k['key'] == key:
                if key not in self.known:
                    self.known.append(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
                return True
        return False

    def write_evidence(self, violations):
        cov = dict(
            states=self.states, transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            trace_events=self.events, design_states=self.design_states,
            spec_behaviours_replayed=self.behaviours,
            samples=self.samples or ['(none: stopped before validation)'])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level='model_checking', coverage=cov,
                  assumptions=self.notes.pop('assumptions', []),
                  wall_s=round(time.time() - self.t0, 2),
                  violations=violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        fn = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(fn + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(fn + '.tmp', fn)

    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.scratch, ignore_errors=True)
