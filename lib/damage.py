"""Sessions in which the files of workspaces are damaged, recorded for spec/DamageTrace.tla."""
import glob, json, os, random, re, shutil, threading
import vf, workspaces

DEF = '__DEFAULT__'
NAMES = ('v', 'w')
KINDS = 'c d C D s e p h r R x y m M'.split()
DEAD = 4194300   # above any pid in use


class Files:
    def __init__(self, home):
        self.c, self.d = f'{home}/.config/marcel', f'{home}/.local/share/marcel'

    def config(self, n): return f'{self.c}/workspace/{n}'
    def data(self, n): return f'{self.d}/workspace/{n}'

    def mark(self, n, token):
        """makes the contents of workspace n recognisable"""
        with open(f'{self.config(n)}/startup.py', 'a') as f: f.write(f'\n# {token}\n')
        with open(f'{self.data(n)}/reservoirs/kept{token}', 'w') as f: f.write(token)
        with open(f'{self.data(n)}/history', 'a') as f: f.write(f'\n# 2025-04-02 16:54:22.895547\n+{token}\n')

    def harm(self, n, k, rng):
        c, d = self.config(n), self.data(n)
        def rm(p):
            if os.path.isdir(p): shutil.rmtree(p)
            elif os.path.exists(p): os.remove(p)
        def more(p):
            if not os.path.isdir(p): return
            name = f'{p}/{rng.choice(("junk", "startup.py~", ".DS_Store", "x.txt", "history.bak"))}'
            if os.path.exists(name): pass
            elif rng.random() < .4: os.makedirs(name, exist_ok=True)
            else: open(name, 'w').write('junk')
        if k == 'c': rm(c)
        if k == 'd': rm(d)
        if k == 'C': rm(c); open(c, 'w').write('C')
        if k == 'D': rm(d); open(d, 'w').write('D')
        if k == 's': rm(f'{c}/startup.py')
        if k == 'e': rm(f'{d}/env.pickle')
        if k == 'p': rm(f'{d}/properties.pickle')
        if k == 'h': rm(f'{d}/history')
        if k in 'rR': rm(f'{d}/reservoirs')
        if k == 'R' and os.path.isdir(d): open(f'{d}/reservoirs', 'w').write('R')
        if k == 'x': more(c)
        if k == 'y': more(d)
        if k == 'm':
            for f in glob.glob(f'{c}/.WORKSPACE*'): os.remove(f)
        if k == 'M' and os.path.exists(f'{c}/.WORKSPACE'): os.rename(f'{c}/.WORKSPACE', f'{c}/.WORKSPACE.{DEAD}')

    def tree(self, top, part):
        """what is at top: {relative path: contents}"""
        if os.path.isfile(top): return {f'{part}': open(top).read()}
        r = {}
        for base, dirs, files in os.walk(top):
            if part: r[os.path.normpath(f'{part}/{os.path.relpath(base, top)}')] = ''
            for f in files:
                if f.startswith('.WORKSPACE') or re.match(r'\d+\.', f): continue
                with open(f'{base}/{f}', 'rb') as x: t = x.read()
                r[os.path.normpath(f'{part}/{os.path.relpath(base, top)}/{f}')] = '' if f in ('env.pickle', 'properties.pickle') else t.decode('latin1')
        return r

    def contents(self, n):
        return {**self.tree(self.config(n), 'config'), **self.tree(self.data(n), 'data')}

    def is_there(self, n): return os.path.exists(self.config(n)) or os.path.exists(self.data(n))

    def asides(self):
        """everything moved aside: {(when, name): contents}"""
        r = {}
        for base, part in ((self.c, 'config'), (self.d, 'data')):
            for p in glob.glob(f'{base}/broken/*/*'):
                t = os.path.basename(os.path.dirname(p))
                n = os.path.basename(p)
                inner = f'{p}/{n}' if os.path.exists(f'{p}/{n}') and len(os.listdir(p)) == 1 else p
                r.setdefault((t, n), {}).update(self.tree(inner, part))
        return r


class Session:
    def __init__(self, d, rng):
        self.d, self.rng = d, rng
        d.begin()
        self.f = Files(d.home)
        self.events, self.log = [], []
        self.up, self.cur, self.there, self.n = False, DEF, {DEF}, 0
        self.harmed = {}
        # as left by an earlier session
        self.d.request(start=9)
        self.d.request(eof=9)
        self.f.mark(DEF, 'first')

    def do(self, o):
        f, rng = self.f, self.rng
        if o['op'] == 'harm':
            if rng.random() < .5 and not self.harmed.get(o['n']):
                self.n += 1
                f.mark(o['n'], f't{self.n}')
            f.harm(o['n'], o['k'], rng)
            self.harmed.setdefault(o['n'], set()).add(o['k'])
            self.events.append({'op': o, 'obs': {}})
            self.log.append(o)
            return
        before = {n: f.contents(n) for n in self.there}
        old = f.asides()
        if o['op'] == 'start': r = self.d.request(start=1)
        elif o['op'] == 'exit': r = self.d.request(**rng.choice(({'cmd': 1, 'text': 'exit'}, {'eof': 1})))
        elif o['op'] == 'script':
            path = f'{self.d.home}/script'
            with open(path, 'w') as x: x.write('ws -l\n')
            r = self.d.request(start=2, argv=[path])
        else: r = self.d.request(cmd=1, text=workspaces.text(o, rng))
        err = re.sub('\x1b\\[[0-9;]*m', '', r.get('err', ''))
        damaged = sorted(set(n for m in re.findall(r'Damaged workspaces have been detected: (\[.*?\])\.', err) for n in eval(m)))
        obs = {'state': r['state'], 'refused': 'There is no workspace named' in err or 'already exists' in err, 'damaged': damaged, 'ident': '', 'list': []}
        if r['state'] == 'ended' and (r.get('code') or 'Traceback' in err): obs['state'] = 'crash'
        out = r.get('out', '')
        self.up = obs['state'] == 'ready' if o['op'] != 'script' else self.up
        if self.up and o['op'] != 'script':
            w = self.d.request(cmd=1, text='ws')
            m = re.fullmatch(r'Workspace\((.*)\)', w.get('out', '').strip())
            obs['ident'] = self.cur = (m.group(1) or DEF) if m else '?'
            if o['op'] == 'start': out = self.d.request(cmd=1, text='ws -l').get('out', '')
        elif o['op'] == 'exit': self.cur = DEF
        names = re.findall(r'^Workspace\((.*?)(?: @.*)?\)$', out, re.M)
        obs['list'] = names[1:] if names[:1] == [''] else names if o['op'] not in ('start', 'script') else ['?', out]
        new = {k: t for k, t in f.asides().items() if k not in old}
        obs['kept'] = [n for n in sorted(before) if f.contents(n) == before[n]]
        obs['set'] = [n for _, n in sorted(new) if new[_, n] == before.get(n)]
        if len(obs['set']) != len(new): obs['set'].append('?')
        self.there = {n for n in (DEF,) + NAMES if f.is_there(n)}
        if not obs['refused'] and o['op'] != 'exit' and not (o['op'] in ('open', 'close') and o.get('n', DEF) == self.cur and not damaged): self.harmed = {}
        self.events.append({'op': o, 'obs': obs})
        self.log.append([o, obs, err[-500:]])


def generate(d, rng, length):
    s = Session(d, rng)
    while len(s.events) < length:
        k = rng.random()
        others = [n for n in s.there if not (s.up and n in (DEF, s.cur))]
        findable = lambda n: n in s.there and not s.harmed.get(n, set()) & set('cCm')
        if k < .45 and others:
            n = rng.choice(sorted(others))
            kinds = [x for x in KINDS if not (n == DEF and x in 'epmM')]
            k = rng.choice(kinds)
            if not {'c', 'd'} <= s.harmed.get(n, set()) | {k}: s.do({'op': 'harm', 'n': n, 'k': k})
        elif not s.up: s.do({'op': 'script' if k > .85 else 'start'})
        elif k < .62:
            new = [n for n in NAMES if n not in s.there or findable(n)]
            if new: s.do({'op': 'new', 'n': rng.choice(new)})
        elif k < .80: s.do({'op': 'open', 'n': rng.choice(NAMES)})
        elif k < .87: s.do({'op': 'close'})
        elif k < .90: s.do({'op': 'script'})
        else: s.do({'op': 'exit'})
        if s.events and s.events[-1]['obs'].get('state') in ('crash', 'failed', 'died', 'blocked'): break
    return {'events': s.events, 'log': s.log}


def record(specs):
    results = [None] * len(specs)
    todo = list(range(len(specs)))[::-1]
    lock = threading.Lock()
    def work():
        d = workspaces.Driver()
        while True:
            with lock:
                if not todo: break
                i = todo.pop()
            length, seed = specs[i]
            try: results[i] = generate(d, random.Random(seed), length)
            except Exception:
                import traceback
                results[i] = {'events': [], 'log': [], 'failed': traceback.format_exc()}
                d = workspaces.Driver()
        d.end()
    ts = [threading.Thread(target=work) for _ in range(vf.NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    return results


def validate(ch, sessions):
    path = os.path.join(ch.scratch, 'damage.ndjson')
    with open(path, 'w') as f:
        for s in sessions: f.write(json.dumps({'events': s['events']}) + '\n')
    t = vf.tlc('DamageTrace', env={'TRACES': path})
    ch.traces(t, len(sessions))
    reached = {}
    for a in t.lines('AT'): reached[a['sid']] = max(reached.get(a['sid'], 0), a['k'])
    for i, s in enumerate(sessions):
        if s.get('failed'):
            ch.errors.append(s['failed'])
            continue
        n = reached.get(i + 1, 0)
        if n < len(s['events']):
            ch.violation(f'{s["events"][n]} after {[e["op"] for e in s["events"][max(0, n - 6):n]]} is not a behaviour of the specification; {str(s["log"][n][2:])[-300:]}',
                         {'log': s['log'][:n + 1]})
    ch.count('sessions_with_damage', len(sessions))
    ch.count('damages', sum(1 for s in sessions for e in s['events'] if e['op']['op'] == 'harm'))
    ch.count('moved_aside', sum(len(e['obs'].get('set', ())) for s in sessions for e in s['events']))
    if sessions: ch.sample(sessions[0]['log'][:6])
