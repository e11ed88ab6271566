"""Sessions typed at the real shell through a terminal, for spec/History.tla."""
import json, os, shutil, subprocess, tempfile, threading
import vf, shells

STARTUP = '''from marcel.builtin import *
import json as _json
def _p():
    with open(_root + '/prompts', 'a') as f: f.write('x')
    return 'P> '
def note(h):
    with open(_root + '/did', 'a') as f: f.write(_json.dumps(f'h {h.id} {h.command}') + '\\n')
    return 0
_root = ROOT
PROMPT = [_p]
EDITOR = 'edcmd'
'''
SAY = '''#!/bin/sh
echo "\\"${0##*/}${*:+ }$*\\"" >> "$VERIF_ROOT/did"
'''
EDCMD = '''#!/opt/venv/bin/python -S
import sys
with open(sys.argv[1]) as f: t = f.read()
with open(sys.argv[1], 'w') as f: f.write(t + ' ed\\n')
'''


def prepare(root):
    for d in ('home', 'cwd', 'bin'): os.makedirs(f'{root}/{d}')
    for name, text in (('say', SAY), ('editx', SAY), ('edcmd', EDCMD)):
        with open(f'{root}/bin/{name}', 'w') as f: f.write(text)
        os.chmod(f'{root}/bin/{name}', 0o755)
    env = shells.scratch_env(root)
    env.update(PATH=f'{root}/bin:' + env['PATH'], TERM='xterm', PROMPT_TOOLKIT_NO_CPR='1', VERIF_ROOT=root)
    env.pop('EDITOR', None)
    subprocess.run([vf.PY, '-c', 'import sys, marcel.persistence.storagelayout as s; s.ensure_current(testing=True, initial_config=sys.argv[1])',
                    STARTUP.replace('ROOT', repr(root), 1).replace('_root = ROOT', '')], env=env, check=True, cwd=f'{root}/cwd')
    return env


def keys(step):
    """what is typed for a step"""
    text = step['text'].replace('\n', '\x1b\r')
    return text + step.get('move', '') + '\r'


def run_session(runs):
    """runs: [[step]]; the events of the session"""
    root = tempfile.mkdtemp(prefix='hst')
    events, screens = [], []
    try:
        env = prepare(root)
        for steps in runs:
            events.append({'run': True, 'text': '', 'did': [], 'stuck': False, 'left': False})
            with open(f'{root}/plan.json', 'w') as f: json.dump({'keys': [keys(s) for s in steps], 'root': root}, f)
            p = subprocess.run([vf.PY, os.path.join(vf.VERIF, 'harness', 'ttydriver.py'), f'{root}/plan.json'], env=env, cwd=f'{root}/cwd',
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            doc = json.loads(p.stdout)
            screens.append(doc['screen'])
            for s, e in zip(steps, doc['events']):
                events.append({'run': False, 'text': s['text'], 'did': [json.loads(l) for l in e['did'].split('\n')[:-1]], 'stuck': e['stuck'], 'left': e['left']})
            if not doc['started']: events.append({'run': False, 'text': '', 'did': [], 'stuck': True, 'left': False})
    finally: shutil.rmtree(root, ignore_errors=True)
    return events, screens


def run_all(sessions):
    results = [None] * len(sessions)
    todo = list(range(len(sessions)))[::-1]
    lock = threading.Lock()
    def work():
        while True:
            with lock:
                if not todo: return
                i = todo.pop()
            results[i] = run_session(sessions[i])
    ts = [threading.Thread(target=work) for _ in range(vf.NCPU + 4)]
    for t in ts: t.start()
    for t in ts: t.join()
    return results


class Sessions:
    NOTED = '| map (h: note(h))'

    def __init__(self, rng): self.rng, self.n = rng, 0

    def say(self):
        self.n += 1
        r = self.rng
        text = f'say {self.n}' + r.choice(['', '', '', ' a', ' b b', '\nc', '\n\nd', ' a\n  e'])
        if r.random() < .1: text = ' ' + text
        if r.random() < .1: text += ' '
        return text

    def history(self):
        r = self.rng
        flags = r.choice(['-a', '-a', '-a', '', '2', '5', '-c say', '-c e 3', '1', '--command run -a', '-a 3', '0', '--all', '-c zz', '25'])
        return f'history {flags} {self.NOTED}'.replace('  ', ' ')

    def ident(self, n):
        r = self.rng
        return str(r.choice([r.randrange(n + 1), max(n - 1, 0), 0, n, n + 1, r.randrange(n + 1)]))

    def step(self, n, seen):
        """n: about how many commands there are to recall"""
        r, p = self.rng, self.rng.random()
        if p < .34: text = self.say()
        elif p < .4: text = r.choice(seen) if seen and not r.choice(seen).startswith('run') else self.say()
        elif p < .52: text = r.choice(['!{}', '!{}', '! {}', ' !{}', '!{} ']).format(self.ident(n))
        elif p < .57: text = r.choice(['!!', '!!', '!', ' !!'])
        elif p < .65: text = 'edit ' + self.ident(n)
        elif p < .68: text = r.choice(['edit', 'edit', ' edit '])
        elif p < .74: text = 'run ' + self.ident(n)
        elif p < .76: text = 'run'
        elif p < .8: self.n += 1; text = r.choice([f'editx {self.n}', f'editx a {self.n}'])
        elif p < .83: text = r.choice(['!abc', '!! 3', '!1 2', 'run x', 'run 1 2', 'nosuch', '', '  ', '!-1', 'ws -c x'])
        elif p < .93: text = self.history()
        elif p < .99: text = r.choice(['ws -n A', 'ws A', 'ws -c', 'ws -n B', 'ws B', 'ws -d A', 'ws -d B', 'ws A'])
        else: text = 'exit'
        s = {'text': text}
        if r.random() < .12: s['move'] = r.choice(['\x01', '\x1b[D', '\x1b[D\x1b[D'])
        return s

    def session(self):
        runs, n, seen = [], 0, []
        r = self.rng
        for _ in range(r.randrange(1, 4)):
            steps = []
            for _ in range(r.randrange(5, 15)):
                s = self.step(n, seen)
                n += 1
                if s['text'].startswith('ws'): n = min(n, 4)
                seen.append(s['text'])
                steps.append(s)
            steps.append({'text': f'history -a {self.NOTED}' + ' ' * (self.n % 7)})
            self.n += 1
            runs.append(steps)
        return runs


def check(ch):
    ch.model(vf.tlc('HistoryLaws', 'HistoryLawsBig.cfg' if vf.THOROUGH else 'HistoryLaws.cfg'), 'HistoryLaws: everything typed in a few commands')
    g = Sessions(ch.rng)
    sessions = [g.session() for _ in range(vf.scaled(32, 700))]
    results = run_all(sessions)
    t = vf.tlc('HistoryTrace', env={'TRACE': vf.json_file([e for e, _ in results], ch.scratch)})
    ch.traces(t, len(sessions))
    ch.count('runs', sum(map(len, sessions)))
    ch.count('commands typed', sum(len(s) for x in sessions for s in x))
    ch.count('unspecified', len(t.lines('UNSPEC')))
    seen = set()
    for b in sorted(t.lines('BAD'), key=lambda b: b['k']):
        if b['sid'] in seen: continue       # what follows is judged from the state the specification expects
        seen.add(b['sid'])
        events, screens = results[b['sid'] - 1]
        e = events[b['k'] - 1]
        ch.violation(f'{b["clause"]}: after {[x["text"] for x in events[:b["k"] - 1][-6:]]}, typing {e["text"]!r}: expected {b["want"]}, observed {e["did"]}',
                     {'runs': sessions[b['sid'] - 1], 'expected': b, 'events': events[:b['k']], 'screens': screens})
    for events, _ in results[:2]: ch.sample([[e['text'], e['did']] for e in events[:8]])
