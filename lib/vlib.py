"""Common machinery of the checks: scratch space, TLC runs, verdicts, evidence."""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

HOME = os.environ['VERIF_HOME']
REPO = os.environ['VERIF_REPO']
SCRATCH = os.environ['VERIF_SCRATCH']
PY = '/opt/venv/bin/python'


class MachineryError(Exception):
    """the check itself failed; never a verdict about the code"""


class TlcResult:
    def __init__(self, out, rc, states, distinct):
        self.out, self.rc, self.states, self.distinct = out, rc, states, distinct


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.violations = []      # (clause, replay data)
        self.known = []
        self.level = 'model_checking'
        self._n = 0
        path = os.path.join(HOME, 'known_findings.json')
        self.findings = []
        if os.path.exists(path):
            with open(path) as fp:
                self.findings = [f for f in json.load(fp).get('findings', []) if f['property'] == prop]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def scratch(self, name='d'):
        self._n += 1
        p = os.path.join(SCRATCH, '%s%d' % (name, self._n))
        os.makedirs(p)
        return p

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, files=None, workers=4, simulate=None, timeout=600, ok=(0,), heap='4g', extra=()):
        """run TLC on spec/<module>.tla with the given cfg text; files: name -> object (json) or str"""
        d = self.scratch('tlc')
        for f in os.listdir(os.path.join(HOME, 'spec')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(HOME, 'spec', f), d)
        with open(os.path.join(d, 'M.cfg'), 'w') as fp:
            fp.write(cfg)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fp:
                fp.write(content if isinstance(content, str) else json.dumps(content))
        cmd = ['java', '-Xmx' + heap, '-Xss256m', '-XX:+UseParallelGC', '-cp',
               '/opt/veriftools/tla/tla2tools.jar:' + community_jar(), 'tlc2.TLC',
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', 'M.cfg']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(self.seed + 7)]
        cmd += ['-workers', str(workers)] + list(extra) + [module + '.tla']
        with open(os.path.join(d, 'out.txt'), 'w') as fp:
            try:
                rc = subprocess.call(cmd, cwd=d, stdout=fp, stderr=subprocess.STDOUT, timeout=timeout,
                                     env=dict(os.environ, PATH=os.environ['PATH']))
            except subprocess.TimeoutExpired:
                raise MachineryError('TLC timed out on %s' % module)
        with open(os.path.join(d, 'out.txt'), errors='replace') as fp:
            out = fp.read()
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ',').replace('\xa0', ''))
        states = distinct = 0
        if m:
            states, distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r'The number of states generated: (\d+)', out)
            if m:
                states = distinct = int(m[-1])
        res = TlcResult(out, rc, states, distinct)
        res.dir = d
        if rc not in ok:
            raise MachineryError('TLC failed on %s (rc %s):\n%s' % (module, rc, out[-4000:]))
        return res

    def model_check(self, module, cfg, files=None, **kw):
        """exhaustive check of the specification itself: any violation is an error of the model"""
        r = self.tlc(module, cfg, files=files, **kw)
        if 'No error has been found' not in r.out and not kw.get('simulate'):
            raise MachineryError('model check of %s did not complete:\n%s' % (module, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.states
        return r

    def judge(self, module, cases, cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', name='cases.json', timeout=700,
              files=None, workers=4):
        """validate recorded cases against the trace specification; returns {case index: clause} for rejected ones"""
        if not cases:
            raise MachineryError('no cases to judge')
        fs = {name: [strip(c) for c in cases]}
        fs.update(files or {})
        r = self.tlc(module, cfg, files=fs, timeout=timeout, workers=workers)
        verdicts = {}
        for m in re.finditer(r'"VERDICT (\d+) (.*?)"\s*$', r.out, re.M):
            i = int(m.group(1)) - 1
            v = m.group(2)
            if i not in verdicts or verdicts[i] == 'ok':
                verdicts[i] = v
        missing = [i for i in range(len(cases)) if i not in verdicts]
        if missing:
            raise MachineryError('no verdict for %d cases (first %d)\n%s' % (len(missing), missing[0], r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.states
        self.traces += len(cases)
        return {i: v for i, v in verdicts.items() if v != 'ok'}

    def report(self, cases, rejected, limit=5):
        for i in sorted(rejected)[:limit]:
            self.violation(rejected[i], cases[i])

    # ------------------------------------------------------------- verdicts
    def violation(self, clause, data):
        for f in self.findings:
            if f.get('match') and re.search(f['match'], clause) and \
                    (not f.get('input') or f['input'] in json.dumps(data, sort_keys=True, default=str)):
                if f['id'] not in [k['id'] for k in self.known]:
                    self.known.append(f)
                return
        self.violations.append((clause, data))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def finish(self):
        evdir = os.path.join(HOME, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rc = 0
        if self.violations:
            rc = 1
            for n, (clause, data) in enumerate(self.violations):
                rp = os.path.join(evdir, '%s-violation-%d.json' % (self.prop, n + 1))
                with open(rp, 'w') as fp:
                    json.dump(dict(property=self.prop, clause=clause, case=data), fp, indent=1, default=str)
                print('clause: %s' % clause)
                print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, default=str)
        print('%s %s: %d states, %d transitions, %d traces, %d violations, %.1f s' % (
            self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations),
            time.time() - self.t0))
        return rc


def strip(case):
    """fields starting with '_' are for people only"""
    return {k: v for k, v in case.items() if not k.startswith('_')} if isinstance(case, dict) else case


_CJ = None


def community_jar():
    global _CJ
    if _CJ is None:
        d = '/opt/veriftools/tla'
        js = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.jar') and 'ommunity' in f]
        _CJ = ':'.join(js)
    return _CJ


def digest(data):
    return 'h' + hashlib.sha1(data).hexdigest()[:10]


class Hang(Exception):
    """the code under test did not come to an end"""


class limited:
    """ends what runs in the block after so many seconds of processor time (the code under test may loop)"""
    hung = 0

    def __init__(self, seconds=40):
        self.seconds = seconds if limited.hung < 2 else min(seconds, 8)

    def expired(self, *a):
        limited.hung += 1
        raise Hang('no end after %d s' % self.seconds)

    def __enter__(self):
        self.main = threading.current_thread() is threading.main_thread()
        if self.main:
            self.old = signal.signal(signal.SIGPROF, self.expired)
            signal.setitimer(signal.ITIMER_PROF, self.seconds, 2)   # again if the code under test swallows it

    def __exit__(self, *a):
        if self.main:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, self.old)


def parallel(script, jobs, procs=8, timeout=600, env=None):
    """run lib script <script> in worker processes; jobs is a list of json-able objects; returns list of results.
    A worker that dies or exceeds its time gives {'_crash': reason} for the job it was on."""
    from concurrent.futures import ThreadPoolExecutor

    def one(job):
        try:
            p = subprocess.run([PY, '-W', 'ignore', os.path.join(HOME, 'lib', script)], input=json.dumps(job),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True,
                               timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            return {'_crash': 'timeout'}
        for line in p.stdout.splitlines():
            if line.startswith('@@RESULT '):
                return json.loads(line[len('@@RESULT '):])
        return {'_crash': 'rc %d: %s' % (p.returncode, (p.stderr or p.stdout)[-1500:])}

    with ThreadPoolExecutor(procs) as ex:
        return list(ex.map(one, jobs))


def worker_main(fn):
    job = json.load(sys.stdin)
    res = fn(job)
    sys.stdout.write('\n@@RESULT ' + json.dumps(res) + '\n')
    sys.stdout.flush()
