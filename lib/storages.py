"""Starts of marcel on the files of earlier versions, killed at any change, judged by spec/StorageTrace.tla."""
import json, os, re, shutil, subprocess, tempfile
import shells, vf

PLACES = {'home': [], 'config': ['.config', 'marcel'], 'data': ['.local', 'share', 'marcel']}
PLACES_XDG = {'home': [], 'config': ['xc', 'marcel'], 'data': ['xd', 'y', 'marcel']}
OLD = {'pt': ['0.32.0', '0.36.9'], 'ws3': ['0.28.0', '0.31.9'], 'ws2': ['0.24.0', '0.9.1'], 'ws1': ['0.20.1', '0.9.0'], 'xdg': ['0.13.6', '0.18.20', '']}

def current():
    code = ('import json, marcel.version, marcel.persistence.defaultinitialconfig as d; print(json.dumps([marcel.version.VERSION, d.CONFIG]))')
    return json.loads(subprocess.run([vf.PY, '-B', '-c', code], env=dict(os.environ, PYTHONPATH=vf.REPO), cwd=vf.REPO, check=True, capture_output=True, text=True).stdout)

class Texts:
    def __init__(self, user, rnd, version, default):
        owners = [''] + user['named']
        old = rnd.choice(OLD.get(user['layout'], ['0.1']))
        self.text = {('empty', ''): '', ('version', 'old'): old, ('version', 'new'): version, ('default', ''): default}
        for w in owners:
            self.text['startup', w] = f'# startup of {w}\nfrom marcel.builtin import *\nmark = "{w}"\n' + rnd.choice(['', '\n', 'x = 1\n', f'run_on_startup("""\nboot_{w} = (17)\n""")\n'])
            self.text['hist', w] = f'ls -l {w}\ngen 3 | map (x: x)\n' + rnd.choice(['', '\n', '# 2x\n'])
            self.text['pthist', w] = f'\n# 2025-04-02 16:54:22.895547\n+ls {w}\n'
            for k in ('env', 'prop', 'res'): self.text[k, w] = f'{k} of {w} {rnd.random()}'
        self.token = {}
        for k, t in self.text.items():
            if k != ('version', 'old'): self.token[t] = list(k)
    def of(self, path, t):
        if t is None: return ['dir', '']
        if path[:2] == ['config', 'VERSION'] and t == self.text['version', 'old']: return ['version', 'old']
        if re.match(r'\n# 2\d\d\d-[-\d :.]+\n\+.*deleted', t): return ['notice', '']
        return self.token.get(t, ['?', t[:60]])

OTHER_NAMES = ['.w', 'a b', 'W', 'x.y', '_', 'ä', '..a', '-v']      # what v and w may be called on the disk

def path_of(p, places, back):
    parts = [back.get(x, x) for x in p.split('/')]
    for name in ('config', 'data'):
        b = places[name]
        if parts[:len(b)] == b: parts = [name] + parts[len(b):]; break
    else:
        if any(parts == b[:len(parts)] for b in places.values()): return None
        parts = ['home'] + parts
    if re.fullmatch(r'VERSION\.\d+', parts[-1]): parts[-1] = 'VERSION.n'
    if re.fullmatch(r'\d+\.env\.pickle', parts[-1]): parts[-1] = 'n.env.pickle'
    return parts

def users(ch):
    return sorted(ch.model(vf.tlc('StorageTrace', 'StorageUsers.cfg'), 'Storage, what users may have').lines('USER'), key=json.dumps)

def check(ch, num):
    rnd = ch.rng
    version, default = current()
    us = users(ch)
    specs, meta = [], []
    order = []
    while len(order) < num:
        batch = list(us)
        rnd.shuffle(batch)
        order += batch
    for n, u in enumerate(order[:num]):
        tx = Texts(u['user'], rnd, version, default)
        xdg = rnd.random() < .2
        places = PLACES_XDG if xdg else PLACES
        called = {} if rnd.random() < .5 else dict(zip('vw', rnd.sample(OTHER_NAMES, 2)))
        files = [['/'.join(places[p[0]] + [called.get(x, x) for x in p[1:]]), None if k == ['dir', ''] else tx.text[tuple(k)]] for p, k in u['files']]
        # the first time with every user: two uninterrupted starts
        deaths = 0 if n < min(len(us), num // 3) else rnd.choice([1, 1, 1, 2, 3])
        starts = [rnd.randint(1, rnd.choice([10, 25, 60])) for _ in range(deaths)] + [None, None]
        specs.append({'id': n, 'files': files, 'starts': starts, 'xdg': xdg})
        meta.append((u['user'], tx, places, {x: n for n, x in called.items()}))
    rs = vf.run_sessions(specs, driver='migdriver.py')
    recs, text = [], []
    for (u, tx, places, back), s, r in zip(meta, specs, rs):
        if r.get('fail'):
            ch.violation(f'starts on files of layout {u["layout"]}: no result: {r["fail"]}', {'spec': s})
            continue
        trees = []
        for t in r['trees']:
            out = []
            for p, c in t:
                q = path_of(p, places, back)
                if q: out.append([q, tx.of(q, c)])
            trees.append(out)
        recs.append({'user': u, 'trees': trees, 'ends': r['ends']})
        text.append((s, u, r))
    dir = tempfile.mkdtemp(prefix='sto')
    try:
        t = vf.tlc('StorageTrace', 'StorageTrace.cfg', env={'TRACE': vf.json_file(recs, dir)})
    finally: shutil.rmtree(dir, ignore_errors=True)
    ch.traces(t, len(recs))
    vs = {v['n']: v['verdict'] for v in t.lines('VERDICT')}
    for n, (s, u, r) in enumerate(text):
        v = vs.get(n)
        if v is None: ch.errors.append(f'no verdict on {n}')
        elif v['what']:
            ch.violation(f'starts on the files of layout {u["layout"]} ({json.dumps(u)}), dying at changes {s["starts"]}: start {v["start"]}: {v["what"]}: ended {r["ends"]}; '
                         f'the tree: {[p for p, c in r["trees"][v["start"]] if c is not None]}', {'spec': s, 'result': r})
    ch.count('starts', sum(len(s['starts']) for s in specs))
    ch.count('deaths', sum(e == 'died' for _, _, r in text for e in r['ends']))
    if specs: ch.sample({'files': [p for p, _ in specs[-1]['files']], 'starts': specs[-1]['starts']})
