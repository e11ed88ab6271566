"""Sessions of several shells using workspaces, recorded for spec/WorkspacesTrace.tla."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading
import vf

NAMES = ('v', 'w', 'a b')
VARS = ('x', 'y', 's')
BAD_NAMES = ("''", '.', '..', 'a/b', '/tmp/zz', '__DEFAULT__', "'../w'")
# what these are called in a session instead
OTHER_NAMES = ('v', 'w', 'a b', 'W', '.w', 'w.1', 'a  b', 'ä', 'x=1', '#1', '_', 'workspace', 'broken', '.WORKSPACE')
OTHER_VARS = (('x', 'y', 's'), ('r', 'R', 'rR'), ('r', 'R', 'rR'), ('a', 'ab', 'abc'), ('_x', 'x_', 'x'))
# what a variable is set to: (token, command)
VALUES = [('i3', '{v} = (3)'), ('i-7', '{v} = (-7)'), ('sabc', "{v} = abc"), ("s it's", '{v} = (" it\'s")'), ('f2', '{v} = (q: (q or 0) + 2)'),
          ('f9', '{v} = (lambda q: 9)'), ('p0,1', '{v} = (| gen 2 |)'), ('p5,6,7', '{v} = (| gen 3 5 |)'), ('mmath', 'import -a {v} math'),
          ('i1', 'import -a {v} errno EPERM'), ('s[1, 2]', '{v} = ([1, 2])'), ("s{'k': 1}", "{v} = ({{'k': 1}})"), ('fT', 'import -a {v} operator truth')]
FT = {'fT': 'fFalse'}
CHANGES = {'new': 17, 'open': 7, 'close': 7, 'delete': 9, 'store': 3, 'home': 3, 'exit': 8, 'start': 6, 'set': 1, 'unset': 1}


class Driver:
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='wsd')
        e = {'HOME': self.root, 'USER': 'root', 'LANG': 'C.UTF-8', 'TERM': 'dumb', 'PATH': '/usr/bin:/bin', 'PYTHONDONTWRITEBYTECODE': '1',
             'PYTHONHASHSEED': '0', 'VERIF_REPO': vf.REPO}
        self.p = subprocess.Popen([vf.PY, os.path.join(vf.VERIF, 'harness', 'wsdriver.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, text=True)
        self.n = 0

    def request(self, **d):
        self.p.stdin.write(json.dumps(d) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        return json.loads(line) if line else {'state': 'failed', 'error': 'driver died'}

    def begin(self):
        if self.n: shutil.rmtree(f'{self.root}/h{self.n}', ignore_errors=True)
        self.n += 1
        self.home = f'{self.root}/h{self.n}'
        os.makedirs(self.home)
        self.request(begin=self.home)

    def end(self):
        self.p.stdin.close()
        self.p.wait()
        shutil.rmtree(self.root, ignore_errors=True)


def quoted(n): return f"'{n}'" if set(n) & set(' =#') else n


def text(o, rng):
    op = o['op']
    if op == 'new': return rng.choice(('ws -n {}', 'ws --new {}')).format(quoted(o['n']))
    if op == 'open': return rng.choice(('ws {}', 'ws -o {}', 'ws --open {}')).format(quoted(o['n']))
    if op == 'close': return rng.choice(('ws -c', 'ws --close'))
    if op == 'delete': return rng.choice(('ws -d {}', 'ws --delete {}')).format(quoted(o['n']))
    if op == 'home': return f'ws -h {o["d"]}'
    if op == 'list': return rng.choice(('ws -l', 'ws --list'))
    if op == 'exit': return 'exit'
    if op == 'set': return o['text']
    if op == 'unset': return f'env -d {o["v"]} | select (*_q: False)'
    if op == 'store' and o['k'] == 0: return f'gen 1 | select (*q: False) | store {"-a " if o["app"] else ""}{o["v"]}'
    if op == 'store': return (f'gen {o["k"]} {">>$" if o["app"] else ">$"} {o["v"]}' if rng.random() < .6 else
                              f'gen {o["k"]} | store {"-a " if o["app"] else ""}{o["v"]}')
    raise ValueError(op)


def observe(o, r, back=None):
    """back: what to call the names and variables of the session"""
    back = back or {}
    def called(x): return back.get(x, x)
    err = re.sub('\x1b\\[[0-9;]*m', '', r.get('err', ''))
    err = err.replace('Warning: Input is not a terminal (fd=0).\n', '')
    damaged = []
    m = re.search(r'Damaged workspaces have been detected: (\[.*?\])\.', err)
    if m:
        damaged = [called(n) for n in eval(m.group(1))]
        # the message consists of three lines, and one for each error
        err = re.sub(r'Damaged workspaces have been detected: .*\n.*\n.*\n', '', err)
        err = ''.join(l for l in err.splitlines(True) if not re.search('is missing$|has extraneous files$|not actually a directory$', l.strip()))
    out = r.get('out', '')
    obs = {'state': r['state'], 'refused': bool(err.strip()), 'damaged': damaged, 'list': [], 'vals': {v: '' for v in VARS}, 'ident': ['', '']}
    if 'Traceback' in err or 'Caught <class' in err: obs['state'] = 'crash'
    def ws(l):
        m = re.fullmatch(r'Workspace\((.*?)(?: @ (.*))?\)', l)
        return [m.group(1), m.group(2) or ''] if m else ['?', l]
    if o['op'] == 'list':
        obs['list'] = [ws(l) for l in out.splitlines()]
        if len(set(map(str, obs['list']))) != len(obs['list']) or obs['list'][:1] != [['', '']] or obs['list'] != sorted(obs['list']): obs['state'] = 'bad list'
        obs['list'] = [[called(n), h] for n, h in obs['list'][1:]]
    if o['op'] == 'probe':
        obs['vals'] = {called('$' + v): FT.get(x, x) for v, x in r.get('values', {}).items()} if r.get('values') else obs['vals']
        obs['ident'] = r.get('ident', ['?', '?'])
        obs['ident'] = [called(obs['ident'][0]), obs['ident'][1]]
    return obs, err


class Session:
    """Drives shells, and records what happens."""

    def __init__(self, driver, rng):
        self.d, self.rng = driver, rng
        self.events, self.log = [], []
        self.up, self.paused, self.blocked = set(), {}, {}
        self.name = dict(zip(NAMES, NAMES if rng.random() < .5 else rng.sample(OTHER_NAMES, len(NAMES))))
        self.var = dict(zip(VARS, rng.choice(OTHER_VARS)))
        self.back = {x: n for n, x in self.name.items()} | {'$' + x: v for v, x in self.var.items()}
        driver.begin()

    def note(self, **e): self.events.append(e)

    def finish(self, p, o, r):
        """the result r of operation o of p arrived"""
        obs, err = observe(o, r, self.back)
        self.log.append([p, o['op'], o.get('n', o.get('v', '')), r.get('state'), r.get('out', '')[-200:], err[-400:]])
        if r['state'] == 'died':
            self.note(e='crash', p=p)
            self.up.discard(p)
        else:
            self.note(e='end', p=p, obs=obs)
            if r['state'] == 'ended': self.up.discard(p)
            elif r['state'] == 'ready': self.up.add(p)
            else: self.up.discard(p)

    def do(self, p, o, stop=None):
        """stop: ('kill' | 'pause', n)"""
        if o['op'] == 'probe':
            self.note(e='begin', p=p, op=o)
            r = self.d.request(probe=p, names=list(self.var.values()))
            w = self.d.request(cmd=p, text='ws')
            if r['state'] == 'ready' and w['state'] == 'ready':
                m = re.fullmatch(r'Workspace\((.*?)(?: @ (.*))?\)', w['out'].strip())
                r['ident'] = [m.group(1), m.group(2) or ''] if m else ['?', w['out'] + w['err']]
                r['err'] = r['err'] + w['err']
                # other means
                e = self.d.request(cmd=p, text='env WORKSPACE | map (_, v: v)')
                if e.get('out', '').strip('\n') != r['ident'][0]: r['ident'] = ['?', f'env WORKSPACE: {e.get("out")}']
            else: r = w
            return self.finish(p, o, r)
        op = {k: v for k, v in o.items() if k != 'text'}
        o = dict(o)
        if 'n' in o: o['n'] = self.name.get(o['n'], o['n'])
        if 'v' in o: o['v'] = self.var[o['v']]
        if 'text' in o: o['text'] = o['text'].format(v=o['v'])
        if o['op'] == 'set': op['val'] = FT.get(op['val'], op['val'])
        self.note(e='begin', p=p, op=op)
        args = {'race': True} if self.paused else {}
        if stop: args[stop[0]] = stop[1]
        if o['op'] == 'start': r = self.d.request(start=p, **args)
        elif o['op'] == 'exit' and self.rng.random() < .3: r = self.d.request(eof=p, **args)
        else: r = self.d.request(cmd=p, text=text(o, self.rng), **args)
        if r['state'] == 'paused': self.paused[p] = o; self.log.append([p, o['op'], o.get('n', ''), 'paused', r.get('at')])
        elif r['state'] == 'blocked' and self.paused: self.blocked[p] = o; self.log.append([p, o['op'], o.get('n', ''), 'blocked'])
        else: self.finish(p, o, r)

    def resume(self, p, kill=False):
        o = self.paused.pop(p)
        r = self.d.request(killed=p) if kill else self.d.request(resume=p)
        self.finish(p, o, r)
        for q, oq in list(self.blocked.items()):
            self.blocked.pop(q)
            self.finish(q, oq, self.d.request(wait=q))

    def busy(self): return set(self.paused) | set(self.blocked)


def random_op(rng, names=NAMES, hurry=False):
    k = rng.random()
    n = rng.choice(names)
    if k < .16: return {'op': 'new', 'n': n}
    if k < .40: return {'op': 'open', 'n': n}
    if k < .48: return {'op': 'close'}
    if k < .55: return {'op': 'delete', 'n': n}
    if k < .58: return {'op': 'home', 'd': rng.choice(('/tmp', '/usr', '/'))}
    if k < .63: return {'op': 'list'}
    if k < .66: return {'op': 'exit'}
    v = rng.choice(VARS)
    if k < .80:
        val, t = rng.choice(VALUES)
        return {'op': 'set', 'v': v, 'val': val, 'text': t}
    if k < .92: return {'op': 'store', 'v': v, 'k': rng.randint(0, 3), 'app': rng.random() < .5}
    if k < .95: return {'op': 'unset', 'v': v}
    return {'op': 'probe'}


def generate(driver, rng, kind, length):
    """kind: 'plain' (one shell after the other), 'crash', 'race'"""
    s = Session(driver, rng)
    names = rng.sample(NAMES, rng.choice((1, 2, 2, 3)))
    procs = (1,) if kind == 'single' else (1, 2) if rng.random() < .6 else (1, 2, 3)
    while len(s.events) < 2 * length:
        if s.paused and (rng.random() < .4 or len(s.busy()) >= len(procs)):
            s.resume(rng.choice(sorted(s.paused)), kill=rng.random() < (.3 if kind == 'crash' else .1))
            continue
        free = [p for p in procs if p not in s.busy()]
        p = rng.choice(free)
        if p not in s.up: o = {'op': 'start'}
        else:
            o = random_op(rng, names)
            if rng.random() < .06 and kind != 'race': o = {'op': rng.choice(('new', 'open', 'delete')), 'n': rng.choice(BAD_NAMES)}
            if o['op'] in ('new', 'open', 'close') and rng.random() < .7 and not s.paused:
                # so that there is something to save
                val, t = rng.choice(VALUES)
                v = rng.choice(VARS)
                s.do(p, {'op': 'set', 'v': v, 'val': val, 'text': t})
        stop = None
        if o['op'] in CHANGES and o.get('n', 'v') in NAMES and o['op'] not in ('set', 'unset'):
            if kind == 'crash' and rng.random() < .2: stop = ('kill', rng.randint(1, CHANGES[o['op']]))
            if kind == 'race' and not s.paused and rng.random() < .35 and o['op'] not in ('store',): stop = ('pause', rng.randint(1, CHANGES[o['op']]))
        if kind == 'crash' and rng.random() < .03 and p in s.up:
            s.note(e='crash', p=p)
            s.log.append([p, 'killed'])
            s.d.request(killed=p)
            s.up.discard(p)
            continue
        s.do(p, o, stop)
        if p in s.up and p not in s.busy() and rng.random() < .35 and not s.paused: s.do(p, {'op': 'probe'})
        if s.log and s.log[-1][3:4] and s.log[-1][3] in ('failed', 'crash'): break
    for p in list(s.paused): s.resume(p)
    # what is left, seen by another shell
    if rng.random() < .8 or kind == 'crash':
        for p in sorted(s.up):
            if rng.random() < .5: s.do(p, {'op': 'exit'}) if rng.random() < .5 or kind != 'crash' else (s.note(e='crash', p=p), s.d.request(killed=p), s.up.discard(p))
        p = procs[0]
        if p not in s.up: s.do(p, {'op': 'start'})
        if p in s.up:
            s.do(p, {'op': 'list'})
            for n in names:
                if p in s.up: s.do(p, {'op': 'open', 'n': n})
                if p in s.up: s.do(p, {'op': 'probe'})
    return {'events': s.events, 'log': s.log}


LEAVING = (('close', {'op': 'close'}), ('exit', {'op': 'exit'}), ('open', {'op': 'open', 'n': 'NAME1'}), ('new', {'op': 'new', 'n': 'NAME1'}))
HANDOVERS = [(name, n) for name, _ in LEAVING for n in range(1, CHANGES[name] + 1)]


def handover(driver, rng, which):
    """A shell leaves a workspace that has something to save, and is held up before its n-th change to the files; meanwhile another shell wants the
    workspace, changes something there, and leaves."""
    name, n = which
    s = Session(driver, rng)
    a, b = rng.sample(NAMES, 2)
    leave = {k: b if v == 'NAME1' else v for k, v in dict(LEAVING)[name].items()}
    (v1, t1), (v2, t2), (v3, t3) = rng.sample(VALUES, 3)
    x = rng.choice(VARS)
    y = rng.choice([v for v in VARS if v != x])
    def assign(p, v, val, t):
        if p in s.up and p not in s.busy(): s.do(p, {'op': 'set', 'v': v, 'val': val, 'text': t})
    def when_up(p, o):
        if p in s.up and p not in s.busy(): s.do(p, o)
    s.do(1, {'op': 'start'})
    s.do(2, {'op': 'start'})
    if name == 'open' and 1 in s.up:
        s.do(1, {'op': 'new', 'n': b})
        when_up(1, {'op': 'close'})
    when_up(1, {'op': 'new', 'n': a})
    assign(1, x, v1, t1)
    when_up(1, {'op': 'close'})
    when_up(1, {'op': 'open', 'n': a})
    assign(1, x, v2, t2)
    if 1 in s.up: s.do(1, leave, ('pause', n))
    when_up(2, {'op': 'open', 'n': a})
    when_up(2, {'op': 'probe'})
    assign(2, y, v3, t3)
    if rng.random() < .7: when_up(2, {'op': 'close'})
    if 1 in s.paused: s.resume(1)
    when_up(2, {'op': 'open', 'n': a})
    when_up(2, {'op': 'probe'})
    when_up(2, {'op': 'exit'})
    if 1 not in s.up: s.do(1, {'op': 'start'})
    when_up(1, {'op': 'open', 'n': a})
    when_up(1, {'op': 'probe'})
    return {'events': s.events, 'log': s.log}


def record(specs):
    """specs: [(kind, length, seed)]"""
    results = [None] * len(specs)
    todo = list(range(len(specs)))[::-1]
    lock = threading.Lock()
    def work():
        d = Driver()
        while True:
            with lock:
                if not todo: break
                i = todo.pop()
            kind, length, seed = specs[i]
            try:
                results[i] = handover(d, random.Random(seed), length) if kind == 'handover' else generate(d, random.Random(seed), kind, length)
            except Exception as e:
                import traceback
                results[i] = {'events': [], 'log': [], 'failed': traceback.format_exc()}
                d = Driver()
        d.end()
    ts = [threading.Thread(target=work) for _ in range(vf.NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    return results


def validate(ch, sessions, label):
    path = os.path.join(ch.scratch, 'ws.ndjson')
    with open(path, 'w') as f:
        for s in sessions: f.write(json.dumps({'events': s['events']}) + '\n')
    t = vf.tlc('WorkspacesTrace', env={'TRACES': path})
    ch.traces(t, len(sessions))
    reached = {}
    for a in t.lines('AT'): reached[a['sid']] = max(reached.get(a['sid'], 0), a['k'])
    for i, s in enumerate(sessions):
        if s.get('failed'):
            ch.errors.append(s['failed'])
            continue
        n = reached.get(i + 1, 0)
        if n < len(s['events']):
            e = s['events'][n]
            ops = [x for x in s['events'][:n + 1]]
            b = next((x['op'] for x in reversed(ops) if x['e'] == 'begin' and x['p'] == e['p']), {})
            l = sum(1 for x in ops if x['e'] in ('end', 'crash')) - 1
            ch.violation(f'{label}: shell {e["p"]}: {b} {e["e"]}: {e.get("obs", "")} is not a behaviour of the specification; messages {[x[5] for x in s["log"] if len(x) > 5 and x[5]][-2:]}',
                         {'events': s['events'][:n + 1], 'log': s['log']})
    ch.count('sessions_of_shells', len(sessions))
    ch.count('operations_of_shells', sum(1 for s in sessions for e in s['events'] if e['e'] == 'begin'))
    ch.count('deaths_of_shells', sum(1 for s in sessions for e in s['events'] if e['e'] == 'crash'))
    if sessions: ch.sample([[x[:4]] for x in sessions[0]['log'][:8]])
