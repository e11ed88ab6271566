"""Run the real interactive shell: python shell.py COMMANDS.json RESULT.json

COMMANDS.json is a list of commands. They are given to marcel's interactive main one at a time, exactly
as marcel reads them when its standard input isn't a terminal; commands run as jobs, in processes of their
own. What each one printed is told apart by markers which the feeder writes to both streams (file
descriptors 1 and 2) whenever marcel asks for the next command. A command can also be a dict:
   {"sleep": s}          wait that long before going on
   {"signal": name, "after": s}   send the signal to this process s seconds from now (from a helper process)
   {"py": code}          run code in the main process (main: the MainInteractive)
   {"do": [action, ...]} carry out actions on the jobs, see act()
   {"cmd": text, "then": [action, ...]}   a command, and actions carried out while the shell is waiting for it
The environment decides HOME and the current directory.
"""
import json, os, signal, subprocess, sys, threading, time

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


LIMIT = 8     # seconds an action may take to have its effect


def proc_state(k):
    try:
        pid = int(open(f'up-{k}').read())
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rsplit(') ', 1)[1][0]
    except (OSError, ValueError):
        return None


def wait(what, ready):
    end = time.time() + LIMIT
    while time.time() < end:
        if ready():
            return
        time.sleep(0.02)
    print(f'TIMEOUT {what}', flush=True)


def the_main():
    import gc, marcel.main
    return [x for x in gc.get_objects() if type(x) is marcel.main.MainInteractive][-1]


def act(a):
    """An action on job k, whose process writes its number to the file up-k and waits for the file go-k."""
    kind = a[0]
    if kind == 'up': wait(a, lambda: os.path.exists(f'up-{a[1]}') and proc_state(a[1]))
    elif kind == 'go': open(f'go-{a[1]}', 'w').close()
    elif kind == 'gone': wait(a, lambda: proc_state(a[1]) in (None, 'Z'))
    elif kind == 'stopped': wait(a, lambda: proc_state(a[1]) == 'T')
    elif kind == 'running': wait(a, lambda: proc_state(a[1]) not in (None, 'T', 'Z'))
    elif kind == 'sig': os.killpg(os.getpgrp(), getattr(signal, 'SIG' + a[1]))
    elif kind == 'kill':
        try:
            os.kill(int(open(f'up-{a[1]}').read()), signal.SIGKILL)
        except (OSError, ValueError) as e:
            print(f'CANNOT {a} {e}', flush=True)
    elif kind == 'var':
        env = the_main().env
        wait(a, lambda: env.getvar(a[1]) == a[2])
    elif kind == 'waiting':
        # until the main thread is waiting for a process
        end = time.time() + 2
        while time.time() < end:
            f = sys._current_frames()[threading.main_thread().ident]
            while f and not (f.f_code.co_name == 'join' and 'multiprocessing' in f.f_code.co_filename):
                f = f.f_back
            if f: break
            time.sleep(0.02)
    elif kind == 'sleep': time.sleep(a[1])
    else: raise ValueError(a)


def feed():
    import builtins
    commands = json.load(open(sys.argv[1]))
    state = {'i': 0, 'results': []}

    def mark(i):
        for fd, f in ((1, sys.stdout), (2, sys.stderr)):
            f.flush()
            os.write(fd, f'\x01{i}\x02'.encode())

    def feeder(*args):
        import marcel.main
        while True:
            i = state['i']
            mark(i)
            if i >= len(commands):
                raise EOFError()
            state['i'] += 1
            c = commands[i]
            if isinstance(c, str):
                return c
            if 'cmd' in c:
                threading.Thread(target=lambda: [act(a) for a in c['then']], daemon=True).start()
                return c['cmd']
            if 'do' in c:
                for a in c['do']:
                    act(a)
            if 'sleep' in c:
                time.sleep(c['sleep'])
            if 'signal' in c:
                subprocess.Popen(['/bin/sh', '-c', f'sleep {c["after"]}; kill -{c["signal"]} {os.getpid()}'])
            if 'py' in c:
                m = the_main()
                try:
                    exec(c['py'], {'main': m, 'env': m.env})
                except BaseException as e:
                    print(f'{type(e).__name__}: {e}', file=sys.stderr)

    builtins.input = feeder


if __name__ == '__main__':
    feed()
    sys.argv = [sys.argv[0]]
    import marcel.main
    try:
        marcel.main.main()
    except (marcel.exception.KillShellException, marcel.exception.KillCommandException) as e:
        print(str(e), file=sys.stderr)
    except marcel.exception.ExitException:
        sys.exit(0)
