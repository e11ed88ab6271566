"""Starts marcel on files of earlier versions.

usage: python migdriver.py < specs.ndjson > results.ndjson
spec: {"id":, "files": [[path, text | null for a directory]], "starts": [n | null, ...]}: paths are below the home directory; each
start brings the files up to date, dying just before its n-th change to the file system. After each start the tree is reported:
{"id":, "trees": [[[path, text | null], ...]], "ends": ["ok" | "died" | message]}
"""
import builtins, io, json, os, shutil, signal, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import marcel.exception, marcel.main


class Dying:
    def __init__(self, root, n):
        self.root, self.left = root, n

    def change(self, path):
        if self.left is None or not isinstance(path, (str, os.PathLike)) or not os.path.abspath(os.fspath(path)).startswith(self.root): return
        self.left -= 1
        if self.left == 0: os.kill(os.getpid(), signal.SIGKILL)

    def install(self):
        me = self
        def wrap(name):
            f = getattr(os, name)
            def g(*a, **k):
                me.change(a[0])
                return f(*a, **k)
            setattr(os, name, g)
        for name in ('rename', 'replace', 'unlink', 'remove', 'mkdir', 'rmdir', 'link', 'symlink', 'chmod'): wrap(name)
        real_os_open, real_open = os.open, io.open
        def os_open(path, flags, *a, **k):
            if flags & os.O_CREAT: me.change(path)
            return real_os_open(path, flags, *a, **k)
        os.open = os_open
        class Out:
            def __init__(self, f, path): self.f, self.path = f, path
            def __getattr__(self, x): return getattr(self.f, x)
            def __enter__(self): return self
            def __exit__(self, *a): self.close()
            def close(self):
                if not self.f.closed: me.change(self.path)
                self.f.close()
        def opener(path, mode='r', *a, **k):
            if isinstance(mode, str) and any(c in mode for c in 'wax+') and not isinstance(path, int):
                me.change(path)
                return Out(real_open(path, mode, *a, **k), path)
            return real_open(path, mode, *a, **k)
        io.open = builtins.open = opener


def tree(home):
    out = []
    for d, ds, fs in os.walk(home):
        for x in ds: out.append([os.path.relpath(os.path.join(d, x), home), None])
        for x in fs:
            with open(os.path.join(d, x), errors='replace') as f: out.append([os.path.relpath(os.path.join(d, x), home), f.read()])
    return sorted(out, key=lambda x: x[0])


def start(home, n, rfile, xdg):
    os.environ.update(HOME=home, USER='root', LOGNAME='root')
    if xdg: os.environ.update(XDG_CONFIG_HOME=home + '/xc', XDG_DATA_HOME=home + '/xd/y')
    os.chdir(home)
    Dying(home, n).install()
    end = 'ok'
    try:
        # what the marcel command does, and then the input ends
        sys.argv = ['marcel']
        os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
        marcel.main.main()
    except (marcel.exception.ExitException, EOFError):
        pass
    except BaseException as e:
        end = f'{type(e).__name__}: {e}'
    os.write(rfile, end.encode())


def run(spec):
    home = os.path.realpath(tempfile.mkdtemp(prefix='mig', dir=os.environ.get('MD_SCRATCH', '/tmp')))
    doc = {'id': spec['id'], 'trees': [], 'ends': []}
    try:
        for p, text in spec['files']:
            p = os.path.join(home, p)
            os.makedirs(p if text is None else os.path.dirname(p), exist_ok=True)
            if text is not None:
                with open(p, 'w') as f: f.write(text)
        doc['trees'].append(tree(home))
        for n in spec['starts']:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1), os.dup2(devnull, 2)
                    start(home, n, w, spec.get('xdg'))
                finally: os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f: end = f.read().decode() or 'died'
            os.waitpid(pid, 0)
            doc['trees'].append(tree(home))
            doc['ends'].append(end)
    finally: shutil.rmtree(home, ignore_errors=True)
    return doc


if __name__ == '__main__':
    for line in sys.stdin:
        if line.strip():
            spec = json.loads(line)
            try: doc = run(spec)
            except BaseException as e: doc = {'id': spec['id'], 'fail': f'{type(e).__name__}: {e}', 'trees': [], 'ends': []}
            print(json.dumps(doc), flush=True)
