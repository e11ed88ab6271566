"""Session server for the marcel code under test.

usage: python mdriver.py < sessions.ndjson > results.ndjson

Every input line is {"id":..., "steps":[...], "startup": str?}. Every session is run in its own forked
process, with its own scratch HOME and working directory, so that no session sees another.
A step is one of
   {"cmd": text}                 run text as a marcel command, observing stdout / stderr text
   {"py": code}                  run python code in the session (S is the Session); result in S.result
   {"write": [path, text]}       create a file
   {"obs": [what, ...]}          observe something (see Session.observe)
The observation of a step is a JSON object {"out":..., "err":..., "exc":...}.
Only public behaviour is looked at: what a command prints, what it does to files, and the value of
variables as printed by marcel commands.
"""
import contextlib, io, json, os, resource, shutil, signal, sys, tempfile, time, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

STARTUP = '''
from marcel.builtin import *
run_on_startup(\'\'\'
\'\'\')
'''
# What marcel itself puts in a new startup script is used unless the session says otherwise.


class Session:
    def __init__(self, spec, scratch):
        self.spec = spec
        self.scratch = scratch
        self.main = None
        self.env = None
        self.result = None
        self.command_timeout = spec.get('timeout', 20)

    def start(self):
        import marcel.env, marcel.main, marcel.object.workspace, marcel.persistence.storagelayout
        os.environ['HOME'] = self.home = f'{self.scratch}/home'
        os.environ['USER'] = os.environ['LOGNAME'] = 'root'
        os.makedirs(self.home)
        self.cwd = f'{self.scratch}/cwd'
        os.makedirs(self.cwd)
        os.chdir(self.cwd)
        config = self.spec.get('startup')
        marcel.persistence.storagelayout.ensure_current(testing=True, initial_config=config or '')
        ws = marcel.object.workspace.Workspace.default()
        self.env = marcel.env.EnvironmentInteractive.create(workspace=ws)
        self.main = marcel.main.MainInteractive(old_main=None, env=self.env, testing=True)
        self.env.dir_state().change_current_dir(self.cwd)
        self.env.enforce_var_immutability()

    def run_command(self, text):
        import marcel.exception
        out, err = open(f'{self.scratch}/out', 'w+'), open(f'{self.scratch}/err', 'w+')
        exc = None
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    signal.setitimer(signal.ITIMER_REAL, self.command_timeout)
                    try:
                        self.main.parse_and_run_command(text)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except marcel.exception.ReconfigureException as e:
                    self.reconfigure(e)
                except Timeout:
                    exc = 'TIMEOUT'
                except BaseException as e:
                    exc = f'{type(e).__name__}: {e}'
                    if os.environ.get('MD_TRACE'):
                        traceback.print_exc(file=sys.__stderr__)
        finally:
            try:
                out.flush(), err.flush()
            except OSError:
                os.truncate(f'{self.scratch}/out', 0)
                os.truncate(f'{self.scratch}/err', 0)
                exc = 'HUGE OUTPUT'
            out.seek(0), err.seek(0)
            r = {'out': out.read(LIMIT), 'err': err.read(LIMIT)}
            if len(r['out']) == LIMIT or len(r['err']) == LIMIT:
                r, exc = {'out': r['out'][:1000], 'err': r['err'][:1000]}, exc or 'HUGE OUTPUT'
            out.close(), err.close()
        if exc:
            r['exc'] = exc
        return r

    def reconfigure(self, e):
        import marcel.env, marcel.main
        self.main.shutdown(restart=True)
        ws = e.workspace_to_open
        if ws is None:
            ws = self.env.workspace
        self.env = marcel.env.EnvironmentInteractive.create(workspace=ws, trace=self.main.env.trace)
        self.main = marcel.main.MainInteractive(self.main, self.env, testing=True)
        # what MainInteractive.run does first
        self.env.go_to_current_dir()

    def step(self, s):
        if 'cmd' in s:
            return self.run_command(s['cmd'].replace('ROOT', self.cwd) if self.spec.get('subst') else s['cmd'])
        if 'write' in s:
            with open(s['write'][0], 'w') as f:
                f.write(s['write'][1])
            return {}
        if 'py' in s:
            out, err = io.StringIO(), io.StringIO()
            exc = None
            self.result = None
            g = {'S': self}
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    signal.setitimer(signal.ITIMER_REAL, self.command_timeout)
                    try:
                        exec(s['py'], g)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except Timeout:
                    exc = 'TIMEOUT'
                except BaseException as e:
                    exc = f'{type(e).__name__}: {e}'
            r = {'out': out.getvalue(), 'err': err.getvalue(), 'res': self.result}
            if exc:
                r['exc'] = exc
            return r
        raise ValueError(s)


LIMIT = 400000


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


def run_session(spec):
    scratch = tempfile.mkdtemp(prefix='md', dir=os.environ.get('MD_SCRATCH', '/tmp'))
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        os.setpgid(0, 0)
        status = 0
        try:
            signal.signal(signal.SIGALRM, on_alarm)
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
            if 'uid' in spec:
                # as somebody to whom permissions matter
                import marcel.main
                os.chown(scratch, spec['uid'], spec['uid'])
                if os.environ.get('MD_SCRATCH'): os.chmod(os.environ['MD_SCRATCH'], 0o755)
                os.setgroups([]), os.setgid(spec['uid']), os.setuid(spec['uid'])
            s = Session(spec, scratch)
            def emit(doc):
                data = (json.dumps(doc) + '\n').encode('utf-8', 'surrogateescape')
                while data:
                    n = os.write(wfd, data)
                    data = data[n:]
            try:
                s.start()
                for st in spec['steps']:
                    emit(s.step(st))
                emit({'end': True})
            except BaseException as e:
                emit({'end': True, 'fail': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()})
        finally:
            os._exit(status)
    os.close(wfd)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    chunks = []
    deadline = time.time() + spec.get('session_timeout', 240)
    import select
    while True:
        left = deadline - time.time()
        if left <= 0:
            os.killpg(pid, signal.SIGKILL)
            break
        r, _, _ = select.select([rfd], [], [], left)
        if r:
            c = os.read(rfd, 1 << 16)
            if not c:
                break
            chunks.append(c)
            if b'"end": true' in c[-4000:] and c.endswith(b'\n'):
                break
    os.close(rfd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    results = [json.loads(line) for line in b''.join(chunks).split(b'\n')[:-1]]
    doc = {'id': spec['id'], 'scratch': scratch, 'results': [r for r in results if 'end' not in r]}
    if not results or 'end' not in results[-1]:
        doc['fail'] = 'session died or timed out'
    elif 'fail' in results[-1]:
        doc.update({k: v for k, v in results[-1].items() if k != 'end'})
    return (json.dumps(doc) + '\n').encode()


def main():
    # Import once; sessions are forked. None of these may touch HOME.
    import marcel.env, marcel.main, marcel.object.workspace, marcel.persistence.storagelayout
    import marcel.object.color, marcel.op.red, marcel.op.ls
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    for line in sys.stdin:
        line = line.strip()
        if line:
            out.write(run_session(json.loads(line)))
            out.flush()


if __name__ == '__main__':
    main()
