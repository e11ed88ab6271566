"""fork: replay of the schedules of spec/Fork.tla, and recorded fork commands for spec/ForkTrace.tla."""
import json, os, shutil, tempfile
import core, shells, vf
from core import enc

HARNESS = os.path.join(vf.VERIF, 'harness')

# ------------------------------------------------------------------ schedules

def schedules(ch, num):
    t = ch.model(vf.tlc('Fork', 'ForkSim.cfg', args=('-simulate', f'num={max(1, num // 8)}', '-depth', '60', '-seed', str(vf.SEED))),
                 'Fork, simulated, 3 branches of 3 steps')
    out = {}
    for h in t.lines('TRACE'): out[json.dumps(h)] = h
    return [out[k] for k in sorted(out)]

def plan(h, pad):
    order = []
    for t in h['hist']:
        if t[0] == 0 and t[1] != 'r': continue       # errors pass by the merging function
        order.append(t)
        if t[1] == 'K': pass
    return {'order': order, 'pad': pad, 'prog': h['prog']}

def sched_items(prog, b, pad):
    out = []
    for n, x in enumerate(prog):
        if x == 'r': out.append(['R', enc((b, n + 1, pad))])
        elif x == 'e': out.append(['E', 'ValueError'])
        elif x == 'K': out.append(['E', '*'])
    return out

def sched_command(d, h, ids=None):
    n = len(h['prog'])
    steps = max(len(p) for p in h['prog']) + 1
    ids = ids or list(range(1, n + 1))
    # a branch which has fewer steps than others stops at its end
    lens = [len(p) + 1 for p in h['prog']]
    return (f'fork ({ids!r}) (| id: gen ({lens!r}[id - 1]) | map (k: vfgate.step({d!r}, id, k)) | select (b, k, s: k > 0) |)'
            f' | select (*x: vfgate.take({d!r}, x)) | map (b, k, s: repr((b, k, len(s))))')

# ------------------------------------------------------------------ recorded commands

ID_SETS = [[0, 1], [0, 1, 2], [3, 1, 2], [5], ['a', 'b'], [1, 1], [(1, 2), (3,)], [None, 2], ['', 'x', 'y'], list(range(5)), [2, 'b', (0,)]]

class ForkGen(core.Gen):
    def command(self):
        ids = self.pick(ID_SETS)
        form = self.pick(['int', 'iter', 'var', 'gen']) if ids == list(range(len(ids))) else self.pick(['iter', 'iter', 'var', 'str', 'gen'])
        if form == 'str' and not all(isinstance(i, str) and len(i) == 1 for i in ids): form = 'iter'
        params = ['id'] if self.chance(.85) else []
        errs = [0.0, .25][self.chance(.4)]
        self.errors = errs
        if self.chance(.2) and self.pipes:
            arg = ['var', self.pick(sorted(p for p in self.pipes))]
        else:
            self.depth = 0
            arg = self.sub(params, maxops=3, kinds=core.Gen.BASIC + ['window', 'red'])
            if self.chance(.35): arg[2].append(self.nested(2))
            if params and self.chance(.6): arg[2].append({'op': 'map', 'e': ['t', [['v', 'id'], ['row']]]})
        tail = []
        if self.chance(.35):
            tail = self.pick([[{'op': 'sort', 'e': ['none']}], [{'op': 'map', 'e': ['c', enc(1)]}, {'op': 'red', 'inc': False, 'fs': ['+']}],
                              [{'op': 'red', 'inc': False, 'fs': ['count']}], [{'op': 'map', 'e': ['len']}, {'op': 'sort', 'e': ['none']}],
                              [{'op': 'map', 'e': ['len']}, {'op': 'sort', 'e': ['none']}, {'op': 'unique', 'c': False}],
                              [{'op': 'select', 'e': ['==', ['len'], ['c', enc(1)]]}, {'op': 'map', 'e': ['len']}]])
        return {'ids': ids, 'form': form, 'arg': arg, 'tail': tail}

def render(c):
    ids = c['ids']
    f = c['form']
    text = (str(len(ids)) if f == 'int' else f'({ids!r})' if f == 'iter' else '(ids)' if f == 'var'
            else f'({"".join(ids)!r})' if f == 'str' else f'((i for i in {ids!r}))')
    tail = ''.join(' | ' + core.pop(o, False) for o in c['tail'])
    return f'fork {text} {core.parg(c["arg"])}{tail}{core.REPR}'

REFUSED = ['fork 0 (| gen 3 |)', 'fork (-1) (| gen 3 |)', 'fork ([]) (| gen 3 |)', 'fork 2 (| a, b: gen 3 |)', 'fork (3.5) (| gen 3 |)', "fork ('') (| x: gen 2 |)",
           'fork (None) (| gen 3 |)', 'gen 3 | fork 2 (| gen 3 |)', 'fork 2', 'fork (| gen 3 |)', 'fork 2 3', 'fork 2 (| gen 3 |) 5', 'fork (lambda: 0) (| gen 3 |)']
# sized and timed: (command, branches as lists of rows)
def special(big):
    rows = lambda b, n, f=lambda b, i: (b, i): [['R', enc(f(b, i))] for i in range(n)]
    out = []
    def add(cmd, branches): out.append((cmd, branches))
    # many branches; more output than a channel holds; branches slow and fast; branches without output
    add('fork 24 (| id: gen 3 | map (x: (id, x)) |) | map (*x: repr(x))', [rows(b, 3) for b in range(24)])
    add(f'fork 3 (| id: gen {big} | map (x: (id, x)) |) | map (*x: repr(x))', [rows(b, big) for b in range(3)])
    add('fork 3 (| id: gen 4 | map (x: (id, x, vfgate.size(300000))) |) | map (b, x, s: repr((b, x, len(s))))', [rows(b, 4, lambda b, i: (b, i, 300000)) for b in range(3)])
    add('fork 4 (| id: gen (id * 2 + 1) | select (x: vfgate.slow(60 * (3 - id))) | map (x: (id, x)) |) | map (*x: repr(x))', [rows(b, b * 2 + 1) for b in range(4)])
    add('fork 4 (| id: gen 3 | select (x: vfgate.slow(id * 120)) | map (x: (id, x)) |) | map (*x: repr(x))', [rows(b, 3) for b in range(4)])
    add('fork 3 (| id: gen 3 | select (x: id == 1) | map (x: (id, x)) |) | map (*x: repr(x))', [[], rows(1, 3), []])
    add('fork 3 (| id: gen 3 | select (x: vfgate.slow(300 if id == 0 else 0)) | map (x: (id, x)) |) | map (*x: repr(x)) | select (x: vfgate.slow(40))', [rows(b, 3) for b in range(3)])
    # a branch which dies: what it had produced, and everything of the others
    add('fork 3 (| id: gen 5 | map (x: vfgate.die() if (id, x) == (1, 2) else (id, x)) |) | map (*x: repr(x))', [rows(0, 5), rows(1, 2), rows(2, 5)])
    add('fork 3 (| id: gen 2 | map (x: vfgate.die() if (id, x) == (0, 0) else (id, x)) |) | map (*x: repr(x))', [[], rows(1, 2), rows(2, 2)])
    add('fork 2 (| id: gen 2 | map (x: vfgate.die()) |) | map (*x: repr(x))', [[], []])
    add('fork 2 (| id: gen 3 | select (x: vfgate.slow(100)) | map (x: (id, x) if id == 0 else (1, vfgate.doomed(600, 10000000))) |)'
        ' | select (a, b: vfgate.slow(1000)) | select (a, b: a == 0) | map (a, b: repr((a, b)))', [rows(0, 3), []])
    # a generator of values
    add('fork (vfgate.gens(3)) (| id: gen 2 | map (x: (id, x)) |) | map (*x: repr(x))', [rows(b, 2) for b in range(3)])
    add('fork (lambda: vfgate.gens(2)) (| id: gen 2 | map (x: (id, x)) |) | map (*x: repr(x))', [rows(b, 2) for b in range(2)])
    # values of any type arrive as they are
    add('fork 2 (| id: gen 1 | map (x: [1.5, None, {"k": (id,)}, ["a", id], True, "t"]) |) | map (*x: repr(tuple(map(str, x))))',
        [[['R', enc(('1.5', 'None', str({'k': (b,)}), str(['a', b]), 'True', 't'))]] for b in range(2)])
    return out

VARS = [('va', 3), ('vb', 'b')]

def vars_of(g):
    return [{'name': n, 'v': enc(v)} for n, v in VARS] + g

def judge(ch, runs, texts, results, what):
    path = vf.json_file(runs, ch.scratch)
    t = vf.tlc('ForkTrace', env={'TRACE': path})
    ch.traces(t, len(runs))
    ch.count('commands', len(runs))
    ch.count('unspecified', len(t.lines('UNSPEC')))
    for b in t.lines('BAD'):
        k = b['n'] - 1
        ch.violation(f'{what}: {b["clause"]}: {texts[k][-1]}   observed {core.show_items(runs[k]["obs"]["items"])[:40]}', {'commands': texts[k], 'observed': results[k], 'verdict': b})
    for k in range(0, len(runs), max(1, len(runs) // 3)): ch.sample({'command': texts[k][-1], 'observed': results[k]['out'][:300]})

def replay(ch, num, pads=(0, 30000, 200000)):
    hs = schedules(ch, num)[:num]
    root = tempfile.mkdtemp(prefix='vfk')
    specs, texts = [], []
    for k, h in enumerate(hs):
        d = f'{root}/{k}'
        os.makedirs(d)
        pad = pads[k % len(pads)]
        with open(d + '/plan.json', 'w') as f: json.dump(plan(h, pad), f)
        cmds = ['import vfgate', sched_command(d, h)]
        texts.append(cmds)
        specs.append({'id': k, 'steps': [{'cmd': c} for c in cmds], 'timeout': 60})
    results = vf.run_sessions(specs, env={'PYTHONPATH': HARNESS})
    shutil.rmtree(root)
    runs, rs = [], []
    for k, (h, r) in enumerate(zip(hs, results)):
        o = r['results'][1] if len(r['results']) > 1 else {'out': '', 'err': '', 'exc': r.get('fail')}
        rs.append(o)
        pad = pads[k % len(pads)]
        runs.append({'branches': [sched_items(p, b + 1, pad) for b, p in enumerate(h['prog'])], 'tail': [], 'refused': False, 'vars': [], 'obs': core.observe(o)})
    judge(ch, runs, texts, rs, 'schedule')
    ch.count('schedules', len(hs))

def recorded(ch, sessions, per):
    specs, meta = [], []
    for n in range(sessions):
        g = ForkGen(ch.rng)
        setup = [f'{n} = ({v!r})' for n, v in VARS]
        pv = []
        for name in ('pp', 'pq'):
            params = ['id'] if ch.rng.random() < .7 else []
            arg = g.sub(params, 3)
            pv.append({'name': name, 'params': params, 'pipe': arg[2]})
            setup.append(f'{name} = {core.parg(arg)}')
            g.pipes[name] = params
        cmds = []
        # branches which call pipelines would need their arguments: only as the pipeline forked
        while len(cmds) < per:
            saved, g.pipes = g.pipes, ({} if ch.rng.random() < .8 else g.pipes)
            c = g.command()
            g.pipes = saved
            # where the number given to gen is not one the command is refused, and says so twice
            text = json.dumps(c['arg'] if c['arg'][0] == 'lit' else pv)
            if '"genv"' in text and not all(type(i) is int for i in c['ids']): continue
            if text.count('"genv"') > (c['arg'][0] == 'lit' and c['arg'][2][0]['op'] == 'genv'): continue
            if c['arg'][0] == 'lit' and ('"call"' in json.dumps(c['arg']) or core.leaks(c['arg'][2], {})): continue
            cmds.append(c)
        steps = [{'cmd': s} for s in setup]
        for c in cmds:
            steps += [{'cmd': f'ids = ({c["ids"]!r})'}, {'cmd': render(c)}]
        specs.append({'id': n, 'steps': steps, 'timeout': 60})
        meta.append((setup, pv, cmds))
    results = vf.run_sessions(specs)
    runs, texts, rs = [], [], []
    for (setup, pv, cmds), r in zip(meta, results):
        for k, c in enumerate(cmds):
            i = len(setup) + 2 * k + 1
            if i >= len(r['results']):
                ch.violation(f'session ended: {render(c)} ({r.get("fail")})', {'commands': setup + [render(x) for x in cmds[:k + 1]]})
                break
            o = r['results'][i]
            runs.append({'ids': [enc(x) for x in c['ids']], 'arg': c['arg'], 'tail': c['tail'], 'refused': False, 'vars': vars_of(pv), 'obs': core.observe(o)})
            texts.append(setup + [render(c)])
            rs.append(o)
    judge(ch, runs, texts, rs, 'command')

def fixed(ch, big):
    sp = special(big)
    cmds = ['import vfgate'] + [c for c, _ in sp] + REFUSED
    def collect(res, where):
        runs, texts, rs = [], [], []
        for k, c in enumerate(cmds[1:]):
            o = res[k + 1] if k + 1 < len(res) else {'out': '', 'err': '', 'exc': 'session ended'}
            refused = k >= len(sp)
            runs.append({'branches': [] if refused else sp[k][1], 'tail': [], 'refused': refused, 'vars': [], 'obs': core.observe(o)})
            texts.append(['import vfgate', c])
            rs.append(o)
        return runs, texts, rs
    r = vf.run_sessions([{'id': n, 'steps': [{'cmd': 'import vfgate'}, {'cmd': c}], 'timeout': 100} for n, c in enumerate(cmds[1:])], env={'PYTHONPATH': HARNESS})
    judge(ch, *collect([{}] + [x['results'][1] if len(x['results']) > 1 else {'out': '', 'err': '', 'exc': x.get('fail')} for x in r], 'session'), 'fixed')
    return cmds, collect

def in_shell(ch, big):
    """the same in the real shell, where commands are jobs"""
    sp = special(big)
    cmds = ['import sys', f'map (*x: sys.path.append({HARNESS!r})) | select (*x: False)', 'import vfgate'] + [c for c, _ in sp]
    half = [cmds[:3] + cmds[3::2], cmds[:3] + cmds[4::2]]
    branches = [[b for _, b in sp[0::2]], [b for _, b in sp[1::2]]]
    root = []
    results = shells.run_shells([{'commands': h, 'timeout': 200} for h in half])
    runs, texts, rs = [], [], []
    for h, bs, (res, doc) in zip(half, branches, results):
        for k, (c, b) in enumerate(zip(h[3:], bs)):
            o = res[k + 3] if k + 3 < len(res) else {'out': '', 'err': '', 'exc': f'not reached {doc}'}
            runs.append({'branches': b, 'tail': [], 'refused': False, 'vars': [], 'obs': core.observe(o)})
            texts.append([c])
            rs.append(o)
        if doc.get('left'): ch.violation(f'processes left behind by fork commands: {len(doc["left"])}', {'commands': h, 'doc': doc})
    judge(ch, runs, texts, rs, 'shell')
