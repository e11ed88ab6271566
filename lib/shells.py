"""Running the real interactive shell (harness/shell.py) on lists of commands."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
import vf

# The shell gets a process group of its own, in a session led by another process: job control signals are
# delivered as if typed at a terminal, and stop processes only in a group which is not an orphan.
WRAPPER = 'import subprocess, sys; sys.exit(subprocess.Popen(sys.argv[1:], process_group=0).wait())'


def scratch_env(root):
    return {'HOME': root + '/home', 'USER': 'root', 'LOGNAME': 'root', 'SHELL': '/bin/bash', 'LANG': 'C.UTF-8', 'TERM': 'dumb',
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'VERIF_REPO': vf.REPO, 'PYTHONPATH': vf.REPO,
            'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'}


def session_pids(sid):
    out = []
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open(f'/proc/{d}/stat') as f: rest = f.read().rsplit(') ', 1)[1].split()
            except OSError: continue
            if int(rest[3]) == sid and rest[0] != 'Z': out.append(int(d))
    return out


def clean(text):
    return re.sub('\x1b\\[[0-9;]*m', '', text)


def parts(text):
    """what came before the first prompt, and after each command"""
    ps = re.split('\x01(\\d+)\x02', text)
    return ps[0], {int(ps[i]): clean(ps[i + 1]) for i in range(1, len(ps) - 1, 2)}


def run_shell(commands, startup='', timeout=100, files=(), after=None, root=None):
    """[{out, err}] for each command, and what was left: {'rc', 'left': pids still alive, 'timeout'}"""
    own = root is None
    root = root or tempfile.mkdtemp(prefix='shl')
    for d in ('home', 'cwd'): os.makedirs(f'{root}/{d}', exist_ok=True)
    with open(f'{root}/commands.json', 'w') as f: json.dump(commands, f)
    for name, text in files:
        with open(f'{root}/cwd/{name}', 'w') as f: f.write(text)
    if startup:
        config = f'{root}/home/.config/marcel'
        prepare(root, startup)
    doc = {}
    with open(f'{root}/out', 'wb') as out, open(f'{root}/err', 'wb') as err:
        p = subprocess.Popen([sys.executable, '-c', WRAPPER, vf.PY, os.path.join(vf.VERIF, 'harness', 'shell.py'), f'{root}/commands.json'],
                             cwd=f'{root}/cwd', env=scratch_env(root), stdin=subprocess.DEVNULL, stdout=out, stderr=err, start_new_session=True)
        try: doc['rc'] = p.wait(timeout)
        except subprocess.TimeoutExpired: doc['timeout'] = True
        end = time.time() + 3
        while not doc.get('timeout') and session_pids(p.pid) and time.time() < end: time.sleep(0.05)
        doc['left'] = session_pids(p.pid)
        for pid in doc['left']:
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
        p.wait()
    with open(f'{root}/out', errors='replace') as f: doc['pre_out'], o = parts(f.read())
    with open(f'{root}/err', errors='replace') as f: doc['pre_err'], e = parts(f.read())
    n = max([*o, *e, -1])
    doc['reached'] = n
    results = [{'out': o.get(i, ''), 'err': e.get(i, '')} for i in range(min(n + 1, len(commands)))]
    if after: doc['after'] = after(root)
    if own: shutil.rmtree(root, ignore_errors=True)
    return results, doc


def prepare(root, startup):
    """A new default workspace with this startup script."""
    code = f'''
import os, sys
sys.path.insert(0, {vf.REPO!r})
import marcel.persistence.storagelayout as s
s.ensure_current(testing=True, initial_config={startup!r})
'''
    subprocess.run([vf.PY, '-c', code], env=scratch_env(root), cwd=f'{root}/cwd', check=True, capture_output=True)


def run_shells(specs, jobs=None):
    """specs: keyword arguments of run_shell. Results in the same order."""
    results = [None] * len(specs)
    todo = list(range(len(specs)))[::-1]
    lock = threading.Lock()
    def work():
        while True:
            with lock:
                if not todo: return
                i = todo.pop()
            try:
                results[i] = run_shell(**specs[i])
            except Exception as e:
                results[i] = ([], {'failed': f'{type(e).__name__}: {e}', 'reached': -1, 'left': []})
    ts = [threading.Thread(target=work) for _ in range(jobs or vf.NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    return results
