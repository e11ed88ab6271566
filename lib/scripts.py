"""Runs of the real program on scripts, here-documents and typed input, for spec/Script.tla."""
import os, re, shutil, subprocess, tempfile, threading
import vf, shells

MODES = ('script', 'heredoc', 'typed')


def run_one(root, run):
    """out, err, rc of one run; root: the directories which the runs of a session share"""
    for d in ('home', 'cwd'): os.makedirs(f'{root}/{d}', exist_ok=True)
    text = run['text']
    with open(f'{root}/cwd/input', 'w') as f: f.write(text)
    env = shells.scratch_env(root)
    env['PATH'] = f'{root}/bin:' + env['PATH']
    if not os.path.isdir(f'{root}/bin'):
        os.makedirs(f'{root}/bin')
        shutil.copy(os.path.join(vf.VERIF, 'harness', 'sustartup'), f'{root}/bin/sustartup')
    args = [vf.PY, '-m', 'marcel.main'] + (['input'] if run['mode'] == 'script' else [])
    with open(f'{root}/out', 'wb') as out, open(f'{root}/err', 'wb') as err:
        kw = {'stdin': subprocess.DEVNULL}
        if run['mode'] == 'heredoc': kw = {'stdin': subprocess.PIPE}
        elif run['mode'] == 'typed': kw = {'stdin': open(f'{root}/cwd/input')}
        p = subprocess.Popen(args, cwd=f'{root}/cwd', env=env, stdout=out, stderr=err, start_new_session=True, **kw)
        try:
            p.communicate(text.encode() if run['mode'] == 'heredoc' else None, timeout=120)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -99
            for pid in shells.session_pids(p.pid):
                try: os.kill(pid, 9)
                except OSError: pass
            p.wait()
        if run['mode'] == 'typed': kw['stdin'].close()
    with open(f'{root}/out', errors='replace') as f: out = shells.clean(f.read())
    with open(f'{root}/err', errors='replace') as f: err = shells.clean(f.read())
    lines = ['Error' if l.startswith('Error') else 'Stream' if l.startswith('Reservoir(') else l for l in out.split('\n')[:-1]] + out.split('\n')[-1:] * bool(out.split('\n')[-1])
    messages = [l for l in err.split('\n') if l and not l.startswith('Warning: Input is not a terminal')]
    return {'out': lines, 'err': len(messages), 'rc': rc, 'messages': messages}


def run_session(runs):
    root = tempfile.mkdtemp(prefix='scr')
    try: return [run_one(root, r) for r in runs]
    finally: shutil.rmtree(root, ignore_errors=True)


def run_all(sessions):
    results = [None] * len(sessions)
    todo = list(range(len(sessions)))[::-1]
    lock = threading.Lock()
    def work():
        while True:
            with lock:
                if not todo: return
                i = todo.pop()
            results[i] = run_session(sessions[i])
    ts = [threading.Thread(target=work) for _ in range(vf.NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    return results

# ------------------------------------------------------------------ generation

ESC = '\x00'       # for a backslash and a blank, while the lines are made

class Layout:
    def __init__(self, rng): self.rng = rng

    def text(self, commands, mode):
        """the lines of an input which spells the commands"""
        r = self.rng
        lines = []
        for c in commands:
            if r.random() < .15: lines.append(' ' * r.randrange(3))
            if r.random() < .08: lines.append(r.choice(['# nosuch', '#', '  # gen 1 77', '# exit']))
            words = c.split(' ')
            s = ' ' * (r.randrange(3) if r.random() < .3 else 0) + words[0]
            for w in words[1:]: s += ' ' * (1 if r.random() < .8 else r.randrange(1, 4)) + w
            if r.random() < .1: s += ' ' * r.randrange(3)
            if r.random() < .1: s += ' # ' + r.choice(['comment', 'exit', '| reverse', 'gen 1 66'])
            elif mode != 'typed':
                while r.random() < .25 and len(s) > 2 and '#' not in s:
                    # between words, or within one
                    at = [i for i in range(1, len(s)) if s[i] == ' '] if r.random() < .7 else list(range(1, len(s)))
                    if not at: break
                    i = r.choice(at)
                    if not s[i:].strip(' '): break      # the next command would be the rest of the line
                    lines.append(s[:i] + '\\')
                    if r.random() < .25: lines.append(' ' * r.randrange(3))
                    if r.random() < .1: lines.append('\\')
                    s = s[i:]
            lines.append(s)
        if r.random() < .2: lines += [''] * r.randrange(1, 3)
        return [l.replace(ESC, '\\ ') for l in lines]


class Sessions:
    SPACES = ['A', 'B']
    VARS = ['x', 'y']
    FIXED = ['s1', 'x']          # set by startup scripts
    RUN = ['r1', 'y']            # set by commands of startup scripts

    def __init__(self, rng): self.rng, self.n = rng, 0

    def number(self):
        self.n += 1
        return str(self.n)

    def command(self):
        r, p = self.rng, self.rng.random()
        var = r.choice(self.VARS + self.FIXED + self.RUN)
        space = r.choice(self.SPACES)
        if p < .14: return f'gen 1 {self.number()}' + ' | reverse' * r.choice([0, 0, 1, 2])
        # an escaped blank, which may end the line
        if p < .17: return f'{var} = {self.number()}' + r.choice([ESC, ESC, ESC + self.number(), ESC + ESC])
        if p < .3: return f'{var} = ' + r.choice(['({})', '{}']).format(self.number())
        if p < .48: return f'({var})'
        if p < .55: return f'gen 1 {self.number()} >$ {r.choice(["z", "z", "s1", "x"])}'
        if p < .62: return f'ws {space}'
        if p < .7: return f'ws {r.choice(["-n", "--new"])} {space}'
        if p < .74: return f'ws {r.choice(["-c", "--close"])}'
        if p < .77: return f'ws {r.choice(["-d", "--delete"])} {space}'
        if p < .79: return 'ws'
        if p < .8: return 'ws -n a/b'
        if p < .87: return r.choice(['nosuch', 'head 0', '(', 'nosuch 1 2'])
        if p < .985:
            k = r.choice(['-s', '-s', '-r', '-p'])
            v = r.choice(self.FIXED if k == '-s' else self.RUN) if k != '-p' else '-'
            return f'sustartup {k} {r.choice(["__DEFAULT__"] + self.SPACES)} {v} {self.number()}'
        return 'exit'

    def session(self):
        r = self.rng
        runs = []
        for _ in range(r.randrange(2, 5)):
            cmds = [self.command() for _ in range(r.randrange(4, 14))]
            if r.random() < .5 and not runs: cmds = [f'ws -n {r.choice(self.SPACES)}'] + cmds
            if r.random() < .3: cmds = [f'ws {r.choice(self.SPACES)}'] + cmds
            cmds += [f'({v})' for v in sorted(set(self.VARS + self.FIXED + self.RUN))] + ['ws']
            mode = r.choice(MODES)
            lines = Layout(r).text(cmds, mode)
            last = r.random() < .75 or lines[-1] == ''
            runs.append({'mode': mode, 'lines': lines, 'text': '\n'.join(lines) + '\n' * last})
        return runs


def check(ch):
    ch.model(vf.tlc('ScriptLaws', 'ScriptLawsBig.cfg' if vf.THOROUGH else 'ScriptLaws.cfg'), 'ScriptLaws: all texts and runs of a few lines')
    g = Sessions(ch.rng)
    sessions = [g.session() for _ in range(vf.scaled(110, 1600))]
    results = run_all(sessions)
    recorded = [{'runs': [dict(mode=r['mode'], lines=r['lines'], out=o['out'], err=o['err'], rc=o['rc']) for r, o in zip(s, rs)]}
                for s, rs in zip(sessions, results)]
    t = vf.tlc('ScriptTrace', env={'TRACE': vf.json_file(recorded, ch.scratch)})
    ch.traces(t, len(sessions))
    ch.count('runs', sum(map(len, sessions)))
    ch.count('lines', sum(len(r['lines']) for s in sessions for r in s))
    unspec = t.lines('UNSPEC')
    ch.count('unspecified', len(unspec))
    seen = set()
    for b in sorted(t.lines('BAD'), key=lambda b: (b['k'], len(sessions[b['sid'] - 1][b['k'] - 1]['lines']))):
        if b['sid'] in seen: continue        # what follows is judged from the state the specification expects
        seen.add(b['sid'])
        s, k = b['sid'] - 1, b['k'] - 1
        run, o = sessions[s][k], results[s][k]
        ch.violation(f'{b["clause"]}: run {k + 1} ({run["mode"]}) of {run["lines"]}: expected {b["out"]} and {b["err"]} messages, observed {o["out"]}, {o["messages"]}, rc {o["rc"]}',
                     {'runs': [{'mode': r['mode'], 'text': r['text']} for r in sessions[s][:k + 1]], 'expected': b, 'observed': o})
    for s, rs in list(zip(sessions, recorded))[:2]: ch.sample(rs['runs'][0])
