"""Common machinery of the checks: running TLC, running sessions of the code under test, reporting."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
CLASSPATH = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def scaled(quick, thorough):
    return thorough if THOROUGH else quick


class Tlc:
    """Outcome of a TLC run."""
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.states, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        m = re.search(r'The number of states generated: ([\d,]+)', out)
        if m and not self.states:
            self.states = self.distinct = int(m.group(1).replace(',', ''))
        self.ok = rc == 0
    def lines(self, tag):
        """Lines printed by PrintT("TAG " \\o ToJson(..)), decoded."""
        r = []
        for line in self.out.split('\n'):
            line = line.strip()
            if line.startswith('"' + tag + ' '):
                s = json.loads(line)
                r.append(json.loads(s[len(tag) + 1:]))
        return r


def tlc(module, cfg=None, workers=None, env=None, timeout=800, args=(), heap='6g'):
    meta = tempfile.mkdtemp(prefix='tlc')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', CLASSPATH, 'tlc2.TLC', '-metadir', meta,
           '-noGenerateSpecTE', '-workers', str(workers or NCPU), '-config', cfg or module + '.cfg', *args, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return Tlc(p.returncode, p.stdout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ''
        return Tlc(124, out if isinstance(out, str) else out.decode('utf-8', 'replace'))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_error(out):
    i = out.find('Error:')
    return out[i:i + 2500] if i >= 0 else out[-1500:]


def json_file(data, dir):
    fd, path = tempfile.mkstemp(suffix='.json', dir=dir)
    with os.fdopen(fd, 'w') as f:
        json.dump(data, f)
    return path


def run_sessions(specs, jobs=None, driver='mdriver.py', env=None):
    """Run session specs by a pool of driver processes. Returns the results in the order of specs."""
    jobs = min(jobs or NCPU, max(1, len(specs)))
    todo = list(enumerate(specs))
    todo.reverse()
    lock = threading.Lock()
    results = [None] * len(specs)
    scratch = tempfile.mkdtemp(prefix='vfs')
    e = dict(os.environ)
    e.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MD_SCRATCH': scratch, 'VERIF_REPO': REPO, 'LANG': 'C.UTF-8',
              'HOME': scratch, 'USER': 'root', 'LOGNAME': 'root', 'SHELL': '/bin/bash',
              'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'})
    e.update(env or {})
    def work():
        p = None
        while True:
            with lock:
                if not todo:
                    break
                i, spec = todo.pop()
            if p is None:
                p = subprocess.Popen([PY, os.path.join(VERIF, 'harness', driver)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, env=e, text=True)
            try:
                p.stdin.write(json.dumps(spec) + '\n')
                p.stdin.flush()
                line = p.stdout.readline()
                results[i] = json.loads(line)
            except (OSError, ValueError) as x:
                results[i] = {'id': spec.get('id'), 'fail': f'driver died: {x}', 'results': []}
                p.kill()
                p.wait()
                p = None
        if p:
            p.stdin.close()
            p.wait()
    threads = [threading.Thread(target=work) for _ in range(jobs)]
    for t in threads: t.start()
    for t in threads: t.join()
    shutil.rmtree(scratch, ignore_errors=True)
    return results


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return []


class Check:
    """One run of the check of one property."""
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.start = time.time()
        self.violations = []
        self.known_seen = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.known = [k for k in load_known() if k.get('property') == prop and not k.get('fixed')]
        self.rng = random.Random(f'{prop}-{SEED}')
        self.scratch = tempfile.mkdtemp(prefix=f'vf-{prop}-')
        self.errors = []

    def model(self, t, what, must_pass=True):
        """Account for a TLC run over a model (not over recorded traces)."""
        self.cov['states'] += t.distinct
        self.cov['transitions'] += t.states
        self.cov.setdefault('models', []).append({'model': what, 'states': t.distinct, 'transitions': t.states})
        if must_pass and not t.ok:
            self.errors.append(f'TLC on {what}: rc {t.rc}\n' + tlc_error(t.out))
        return t

    def traces(self, t, n):
        """Account for a TLC run which validated n recorded traces."""
        self.cov['states'] += t.distinct
        self.cov['transitions'] += t.states
        self.cov['traces_validated_against_impl'] += n
        if not t.ok:
            self.errors.append(f'TLC trace validation: rc {t.rc}\n' + tlc_error(t.out))

    def sample(self, s, limit=6):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, replay, key=None):
        """what: one line. replay: anything JSON. key: text known findings are matched against."""
        text = key if key is not None else what
        for k in self.known:
            if re.search(k['match'], text):
                if k['id'] not in [x['id'] for x in self.known_seen]:
                    self.known_seen.append(k)
                return False
        self.violations.append((what, replay))
        return True

    def finish(self):
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.prop + '-'):
                os.unlink(os.path.join(rdir, old))
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.start, 2), 'violations': len(self.violations)}
        if self.errors:
            ev['coverage']['errors'] = self.errors
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known_seen:
            print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
        for n, (what, replay) in enumerate(self.violations[:20]):
            path = os.path.join('evidence', 'replay', f'{self.prop}-{n}.json')
            with open(os.path.join(VERIF, path), 'w') as f:
                json.dump({'what': what, 'replay': replay}, f, indent=1)
            print(f'VIOLATION property={self.prop} replay={path}')
            print('   ', what[:600])
        if self.errors and self.violations:
            print('\n'.join(self.errors))
        if self.violations:
            print(f'{self.prop}: {len(self.violations)} violations')
            sys.exit(1)
        if self.errors:
            # The machinery failed: neither verdict.
            print('\n'.join(self.errors))
            print(f'{self.prop}: check could not be completed')
            sys.exit(3)
        print(f'{self.prop}: ok', {k: v for k, v in self.cov.items() if isinstance(v, int)}, f'{ev["wall_s"]}s')
        sys.exit(0)
