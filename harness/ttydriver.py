"""Types at marcel through a terminal: python ttydriver.py PLAN.json, in the directory to start in.

PLAN.json: {"keys": [...], "root": dir}: each of the keys is typed once marcel asks for the next command: the prompt, a function set
in the startup script, notes each time it is called, in root/prompts. What commands note is in root/did.
Prints a JSON object: what was noted after each, and whether the shell ended or did not come back.
"""
import json, os, pty, select, signal, sys, time, fcntl, struct, termios

plan = json.load(open(sys.argv[1]))
ROOT = plan['root']


def prompts():
    try: return os.path.getsize(ROOT + '/prompts')
    except OSError: return 0


def did():
    try:
        with open(ROOT + '/did') as f: return f.read()
    except OSError: return ''


pid, fd = pty.fork()
if pid == 0:
    os.execv(sys.executable, [sys.executable, '-m', 'marcel.main'])
fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 50, 400, 0, 0))
seen = b''
ended = False


def pump(seconds):
    global seen, ended
    r, _, _ = select.select([fd], [], [], seconds)
    if r:
        try: data = os.read(fd, 65536)
        except OSError: data = b''
        if data: seen += data
        else: ended = True


def await_prompt(n, limit=40):
    """until there were n prompts, and the last is drawn"""
    end = time.time() + limit
    while prompts() < n and not ended and time.time() < end: pump(0.02)
    if prompts() < n and not ended: return False
    quiet = time.time() + 0.05      # it is drawn after it was asked for
    while time.time() < quiet and not ended: pump(0.02)
    return True


out = {'started': False, 'events': []}
n = prompts()
ok = await_prompt(n + 1)
out['started'] = ok and not ended
before = did()
if out['started']:
    for keys in plan['keys']:
        n = prompts()
        os.write(fd, keys.encode())
        ok = await_prompt(n + 1)
        now = did()
        out['events'].append({'did': now[len(before):], 'stuck': not ok, 'left': ended})
        before = now
        if not ok or ended: break
if not ended:
    os.write(fd, b'\x04')
    end = time.time() + (10 if ok else 0)
    while not ended and time.time() < end: pump(0.05)
if not ended: os.kill(pid, signal.SIGKILL)
os.waitpid(pid, 0)
out['screen'] = seen.decode('utf-8', 'replace')[-3000:]
print(json.dumps(out))
