"""Several interactive shells (processes of their own) under control: python wsdriver.py

Reads one JSON request per line, and answers each with one line.
  {"begin": home}                 a new scratch home for the requests that follow; ends the shells of the previous one
  {"start": p, "argv": [...]}     start shell p (or run a script). Answer: as for cmd
  {"cmd": p, "text": command, "kill": n | "pause": n}
        give the command to shell p, which dies (or pauses) just before its n-th change of marcel's files.
        Answer: {"state": "ready" | "paused" | "died" | "ended" | "blocked", "out":, "err":, "n": changes made}
  {"wait": p}                     wait again for a shell which was blocked;   {"resume": p} let it go on
  {"probe": p, "names": [..]}     what these variables are worth, tried out
  {"killed": p}                   SIGKILL;   {"eof": p} end of input
Commands run in the shell's own process, not as jobs.
"""
import builtins, ctypes, io, json, os, select, signal, sys, time

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import marcel.main, marcel.object.workspace, marcel.persistence.storagelayout, marcel.reservoir, marcel.pipeline, marcel.core, marcel.parser, marcel.exception
import multiprocessing
import csv, glob, importlib, tty
for f in sorted(glob.glob(os.path.join(REPO, 'marcel', 'op', '*.py'))):
    # so that not each of the shells has to
    try: importlib.import_module('marcel.op.' + os.path.basename(f)[:-3])
    except Exception: pass

LIMIT = 20
BLOCK = 0.7


class Child:
    """Runs in the shell's process."""

    def __init__(self, home, cfd, rfd):
        self.home, self.cfd, self.rfd = home, os.fdopen(cfd, 'r'), rfd
        self.n, self.stop = 0, None
        self.roots = (os.path.join(home, '.config/marcel'), os.path.join(home, '.local/share/marcel'))

    def report(self, **d):
        for f in (sys.stdout, sys.stderr):
            try: f.flush()
            except Exception: pass
        os.write(self.rfd, (json.dumps(dict(d, n=self.n)) + '\n').encode())

    def mutation(self, path, what):
        try: path = os.path.abspath(os.fspath(path))
        except TypeError: return
        if not path.startswith(self.roots): return
        self.n += 1
        if self.stop and self.stop[1] == self.n:
            kind = self.stop[0]
            self.stop = None
            if kind == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
                time.sleep(60)
            self.report(state='paused', at=f'{what} {path}')
            self.next_request()

    def next_request(self):
        line = self.cfd.readline()
        if not line: os._exit(0)
        return json.loads(line)

    def hooks(self):
        me = self
        def wrap(mod, name, first=True):
            f = getattr(mod, name)
            def g(*a, **k):
                me.mutation(a[0], name)
                return f(*a, **k)
            setattr(mod, name, g)
        for name in ('rename', 'replace', 'unlink', 'remove', 'mkdir', 'rmdir', 'link', 'symlink'): wrap(os, name)
        real_os_open = os.open
        def os_open(path, flags, *a, **k):
            if flags & os.O_CREAT: me.mutation(path, 'open')
            return real_os_open(path, flags, *a, **k)
        os.open = os_open
        real_open = io.open
        class Out:
            """a file being written: what it is given may not have reached the file when the process dies"""
            def __init__(self, f, path): self.f, self.path = f, path
            def __getattr__(self, x): return getattr(self.f, x)
            def __enter__(self): return self
            def __exit__(self, *a): self.close()
            def close(self):
                if not self.f.closed: me.mutation(self.path, 'close')
                self.f.close()
            def __iter__(self): return iter(self.f)
        def opener(path, mode='r', *a, **k):
            if isinstance(mode, str) and any(c in mode for c in 'wax+') and not isinstance(path, int):
                p = os.path.abspath(os.fspath(path))
                if p.startswith(me.roots):
                    me.mutation(p, 'open')
                    return Out(real_open(path, mode, *a, **k), p)
            return real_open(path, mode, *a, **k)
        io.open = builtins.open = opener

    def input(self, *args):
        self.report(state='ready')
        while True:
            r = self.next_request()
            self.stop = None
            if 'probe' in r: self.report(state='ready', values=self.probe(r['names']))
            elif 'eof' in r: raise EOFError()
            else:
                self.n = 0
                self.stop = ('kill', r['kill']) if 'kill' in r else ('pause', r['pause']) if 'pause' in r else None
                return r['text']

    def probe(self, names):
        env = self.main.env
        return {v: self.worth(env, v) for v in names}

    def worth(self, env, v):
        try:
            x = env.workspace.namespace.get(v, None)
            if x is None: return 'none'
            if type(x) is marcel.reservoir.Reservoir:
                if not os.path.exists(x.path): return 'gone'
                n, reader = [], x.reader()
                try:
                    while True: n.append(reader.read())
                except EOFError: pass
                finally: reader.close()
                return f'r{len(n)}'
            if isinstance(x, (marcel.pipeline.Pipeline, marcel.core.Op)) or 'Pipeline' in type(x).__name__:
                # run it
                saved = os.dup(1)
                r, w = os.pipe()
                sys.stdout.flush()
                os.dup2(w, 1)
                try:
                    p = marcel.parser.Parser(v, env).parse()
                    p.ensure_terminal_write(env)
                    marcel.core.Command(v, p).execute(env)
                    sys.stdout.flush()
                finally:
                    os.dup2(saved, 1)
                    os.close(w)
                    os.close(saved)
                out = os.read(r, 10000).decode() if select.select([r], [], [], 0)[0] else ''
                os.close(r)
                return 'p' + out.strip().replace('\n', ',')
            if callable(x): return f'f{x(0)}'
            if type(x).__name__ == 'module': return f'm{x.__name__}'
            return f'{"i" if isinstance(x, int) else "s"}{x}'
        except BaseException as e:
            return f'!{type(e).__name__}: {e}'[:200]


class Shell:
    """A shell, seen from the driver."""

    def __init__(self, home, p, argv=()):
        self.argv = list(argv)
        self.p, self.files = p, [f'{home}/out.{p}', f'{home}/err.{p}']
        self.seen = [0, 0]
        for f in self.files: open(f, 'w').close()
        c_r, c_w = os.pipe()
        r_r, r_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(c_w); os.close(r_r)
            self.child(home, c_r, r_w)
        os.close(c_r); os.close(r_w)
        self.c, self.r, self.buf = c_w, r_r, b''
        self.state = 'busy'

    def child(self, home, cfd, rfd):
        try:
            os.setsid()
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # die with the driver
            for fd, f in zip((1, 2), self.files): os.dup2(os.open(f, os.O_WRONLY | os.O_APPEND), fd)
            os.dup2(os.open('/dev/null', os.O_RDONLY), 0)
            sys.stdin, sys.stdout, sys.stderr = io.open(0, 'r', closefd=False), io.open(1, 'w', closefd=False), io.open(2, 'w', closefd=False)
            os.environ.update(HOME=home, PWD=f'{home}/cwd')
            os.makedirs(f'{home}/cwd', exist_ok=True)
            os.chdir(f'{home}/cwd')
            sys.argv = ['marcel'] + self.argv
            ch = Child(home, cfd, rfd)
            ch.hooks()
            builtins.input = ch.input
            marcel.main.MainInteractive.execute_command = lambda self, command, pipeline: command.execute(self.env)
            run = marcel.main.MainInteractive.run
            def running(main):
                ch.main = main
                return run(main)
            marcel.main.MainInteractive.run = running
            import atexit
            code = 0
            try:
                marcel.main.main()
            except (marcel.exception.KillShellException, marcel.exception.KillCommandException) as e:
                print(str(e), file=sys.stderr)
            except (marcel.exception.ExitException, SystemExit): pass
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            atexit._run_exitfuncs()
            ch.report(state='ended', code=code)
        finally:
            os._exit(0)

    def send(self, d):
        try: os.write(self.c, (json.dumps(d) + '\n').encode())
        except BrokenPipeError: pass
        self.state = 'busy'

    def wait(self, limit):
        end = time.time() + limit
        d = None
        while b'\n' not in self.buf:
            if not select.select([self.r], [], [], max(0, end - time.time()))[0]:
                d = {'state': 'blocked'}
                break
            x = os.read(self.r, 65536)
            if not x:
                d = {'state': 'died'}
                break
            self.buf += x
        if d is None:
            line, self.buf = self.buf.split(b'\n', 1)
            d = json.loads(line)
        self.state = d['state']
        if self.state in ('died', 'ended'): self.reap()
        for i, k in enumerate(('out', 'err')):
            with open(self.files[i], errors='replace') as f:
                f.seek(self.seen[i])
                d[k] = f.read()
            if self.state not in ('blocked', 'paused'): self.seen[i] += len(d[k].encode())
            else: d.pop(k)
        return d

    def reap(self):
        # the process must be gone, and not a zombie, before anything else happens
        try: os.kill(self.pid, signal.SIGKILL)
        except OSError: pass
        try: os.waitpid(self.pid, 0)
        except OSError: pass
        for fd in (self.c, self.r):
            try: os.close(fd)
            except OSError: pass
        self.state = 'died' if self.state != 'ended' else 'ended'
        self.c = self.r = -1


def main():
    multiprocessing.set_start_method('spawn')
    real = multiprocessing.set_start_method
    multiprocessing.set_start_method = lambda *a, **k: None
    shells, home = {}, None
    def end_all():
        for s in shells.values():
            if s.c >= 0: s.reap()
        shells.clear()
    for line in sys.stdin:
        d = json.loads(line)
        a = {}
        try:
            if 'begin' in d:
                end_all()
                home = d['begin']
            elif 'start' in d:
                shells[d['start']] = s = Shell(home, d['start'], d.get('argv', ()))
                a = s.wait(LIMIT if not d.get('race') else BLOCK)
            elif 'cmd' in d:
                s = shells[d['cmd']]
                s.send({k: v for k, v in d.items() if k in ('text', 'kill', 'pause')})
                a = s.wait(BLOCK if d.get('race') else LIMIT)
            elif 'resume' in d:
                s = shells[d['resume']]
                s.send({})
                a = s.wait(LIMIT)
            elif 'wait' in d:
                a = shells[d['wait']].wait(LIMIT)
            elif 'probe' in d:
                s = shells[d['probe']]
                s.send({'probe': 1, 'names': d['names']})
                a = s.wait(LIMIT)
            elif 'killed' in d:
                shells[d['killed']].reap()
                a = {'state': 'died'}
            elif 'eof' in d:
                s = shells[d['eof']]
                s.send({'eof': 1, **{k: v for k, v in d.items() if k in ('kill', 'pause')}})
                a = s.wait(LIMIT)
        except Exception as e:
            import traceback
            a = {'state': 'failed', 'error': f'{type(e).__name__}: {e} {traceback.format_exc()[-500:]}'}
        sys.stdout.write(json.dumps(a) + '\n')
        sys.stdout.flush()
    end_all()


if __name__ == '__main__':
    main()
