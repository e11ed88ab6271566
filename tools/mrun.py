"""Runs marcel commands in one session, with its own scratch HOME and working directory. Copied into seeded/*."""
import atexit, contextlib, os, shutil, signal, sys, tempfile

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix='demo')
PID = os.getpid()
atexit.register(lambda: os.getpid() == PID and shutil.rmtree(SCRATCH, ignore_errors=True))


class Session:
    def __init__(self, startup='', home=None):
        import marcel.env, marcel.main, marcel.object.workspace, marcel.persistence.storagelayout
        self.home = os.environ['HOME'] = home or f'{SCRATCH}/home'
        os.environ['USER'] = os.environ['LOGNAME'] = 'root'
        self.cwd = f'{SCRATCH}/cwd'
        os.makedirs(self.home, exist_ok=True)
        os.makedirs(self.cwd, exist_ok=True)
        os.chdir(self.cwd)
        marcel.persistence.storagelayout.ensure_current(testing=True, initial_config=startup)
        self.env = marcel.env.EnvironmentInteractive.create(workspace=marcel.object.workspace.Workspace.default())
        self.main = marcel.main.MainInteractive(old_main=None, env=self.env, testing=True)
        self.env.dir_state().change_current_dir(self.cwd)
        self.env.enforce_var_immutability()

    def run(self, command, timeout=60):
        """Output and error output of a command."""
        import marcel.exception, marcel.env, marcel.main
        with open(f'{SCRATCH}/out', 'w+') as out, open(f'{SCRATCH}/err', 'w+') as err:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                signal.alarm(timeout)
                try:
                    self.main.parse_and_run_command(command)
                except marcel.exception.ReconfigureException as e:
                    self.main.shutdown(restart=True)
                    ws = e.workspace_to_open or self.env.workspace
                    self.env = marcel.env.EnvironmentInteractive.create(workspace=ws, trace=self.main.env.trace)
                    self.main = marcel.main.MainInteractive(self.main, self.env, testing=True)
                    self.env.go_to_current_dir()
                finally:
                    signal.alarm(0)
            out.seek(0), err.seek(0)
            return out.read(), err.read()

    def out(self, command):
        return self.run(command)[0].split('\n')[:-1]


def expect(actual, expected, what=''):
    if actual != expected:
        print(f'{what}: expected {expected!r}, got {actual!r}')
        sys.stdout.flush()
        sys.exit(1)
