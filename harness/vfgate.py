"""Functions which sessions import to follow a schedule: every step waits for its turn. The turn is the length of a file."""
import json, os, time

class Died(BaseException): pass

def _turn(dir):
    try: return os.path.getsize(dir + '/turn')
    except OSError: return 0

def _wait(dir, at, limit=4.0):
    end = time.time() + limit
    while _turn(dir) < at and time.time() < end: time.sleep(0.002)

def _pass(dir, at):
    fd = os.open(dir + '/turn', os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, b'x' * max(0, at + 1 - _turn(dir)))
    os.close(fd)

def _plan(dir):
    with open(dir + '/plan.json') as f: return json.load(f)

_mine = {}

def step(dir, branch, n):
    """step n (from 0) of a branch; the last one is its end"""
    plan = _plan(dir)
    places = [k for k, t in enumerate(plan['order']) if t[0] == branch]
    at = places[n] if n < len(places) else len(plan['order'])
    _wait(dir, at)
    kind = plan['order'][at][1] if n < len(places) else 'end'
    _pass(dir, at)
    if kind == 'D': os.kill(os.getpid(), 9)
    if kind == 'e': raise ValueError('step')
    if kind == 'K':
        import marcel.builtin, marcel.exception
        raise marcel.exception.KillCommandException('killed')
    if kind == 'end': return (branch, -1, '')
    return (branch, n + 1, 'x' * plan['pad'])

def take(dir, row):
    """the merging process goes on with a row"""
    plan = _plan(dir)
    n = _mine[dir] = _mine.get(dir, -1) + 1
    places = [k for k, t in enumerate(plan['order']) if t[0] == 0]
    if n < len(places):
        _wait(dir, places[n], 1.0)
        _pass(dir, places[n])
    return True

def slow(ms, x=True):
    time.sleep(ms / 1000)
    return x

def die(x=None):
    os.kill(os.getpid(), 9)

def size(n):
    return 'y' * n

def gens(n):
    for i in range(n): yield i

def doomed(ms, n):
    """a large value, from a process which ends in ms milliseconds"""
    import threading
    threading.Timer(ms / 1000, die).start()
    return 'z' * n
