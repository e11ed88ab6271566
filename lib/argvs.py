"""Operators with arguments (spec/Args.tla): generation of argument vectors in all spellings, and judging."""
import json, os, re
import core, vf
from core import enc, px, ppipe, parg, REPR

SYMBOLS = ['+', '*', 'max', 'min', 'count', 'concat', '.', '^', '&', 'and', 'or']
CORE = ['args', 'filter', 'join', 'difference', 'union', 'intersect', 'expand', 'gen', 'head', 'tail', 'map', 'select', 'sort',
        'reverse', 'squish', 'unique', 'red', 'window']
SAME = ['ls', 'read', 'write', 'env', 'store', 'load', 'bash', 'trace', 'import', 'cd', 'pushd']
REFUSALS = ['bg', 'fg', 'edit', 'exit', 'history', 'jobs', 'popd', 'ps', 'pwd', 'run', 'timer', 'version', 'ws', 'dirs']
FIXTURE = r'''
import os, pickle, json
os.makedirs('d1/d2', exist_ok=True)
for n, t in {'a.csv': 'h,k\n1,2\n3,4\n', 'b.tsv': 'h\tk\n1\t2\n', 'c.json': '[1, 2]\n{"a": 3}\n', 'd1/x.txt': 'x\n', 'd1/d2/y.csv': '5,6\n'}.items():
    with open(n, 'w') as f: f.write(t)
with open('p.pkl', 'wb') as f: pickle.dump((1, 2), f)
os.path.lexists('l') or os.symlink('a.csv', 'l')
os.path.lexists('ld') or os.symlink('d1', 'ld')
'''
FILES = ['a.csv', 'b.tsv', 'c.json', 'p.pkl', 'd1', 'ld', 'l', 'd1/x.txt', 'nosuch']
WORDS = {'ls': FILES + ['*.csv'], 'read': FILES, 'write': ['wf', 'wg'], 'env': ['va', 'vb', 'nosuch'], 'store': ['va', 'vb', 'vc'],
         'load': ['va', 'vb'], 'bash': ['a', 'b', '-i', '-ii', '--interactive', '-x', '--', 'c', '-k'], 'trace': ['tf', 'tg'], 'import': ['ma', 'mb'],
         'cd': ['d1', 'ld'], 'pushd': ['d1', 'ld']}
FORMATS = ['{}-{}', '{}', '<{}:{}>']

# op -> (setup, before the operator, after it, probes)
FRAME = {
    'ls': ([], '', " | (f: repr(str(f)))", []),
    'read': ([], '', REPR, []),
    'write': (['gen 2 | write wf', 'gen 1 | write wg'], 'gen 2 | (x: (x, x + 1)) | write SENT | ', '', ['read wf' + REPR, 'read wg' + REPR]),
    'env': (['va = (1)', 'vb = (2)'], '', ' | (*x: repr(str(x)[:16]))', ["env | select (n, v: n in ('va', 'vb')) | (n, v: repr((n,)))"]),
    'store': (['gen 2 >$ va', 'gen 1 >$ vb', 'gen 1 >$ vc'], 'gen 3 | (x: x + 5) | write SENT | ', '', [f'load {v}{REPR}' for v in ('va', 'vb', 'vc')]),
    'load': (['gen 2 >$ va', 'gen 1 >$ vb'], '', REPR, []),
    'bash': ([], '', REPR, []),
    'trace': (['trace -0'], '', '', ['trace', 'trace -0']),
    'import': ([f'env -d {v}' for v in ('ma', 'mb', 'math', 'pi', 'e')], '', '',
               ["env | select (n, v: n in ('ma', 'mb', 'math', 'pi', 'e')) | (n, v: repr((n, str(v)[:12])))"]),
    'cd': (['cd ROOT'], '', '', ['pwd | (f: repr(str(f)))', 'cd ROOT']),
    'pushd': (['cd ROOT', 'dirs -c'], '', '', ['pwd | (f: repr(str(f)))', 'dirs | (f: repr(str(f)))', 'cd ROOT', 'dirs -c']),
}

def word(t):
    parts = ['-' + c for c in t[1:]] if re.match(r'-[^-]', t) and len(t) > 2 else []
    return {'k': 'w', 't': t, 'codes': [ord(c) for c in t], 'dash': len(t) > 1 and t[0] == '-', 'parts': parts,
            'num': [int(t)] if re.fullmatch(r'-?\d+', t) else []}
def quoted(t): return {'k': 'q', 't': t, 'codes': [ord(c) for c in t]}

def show(a):
    if a['k'] == 'w': return a['t']
    if a['k'] == 'q': return '"' + a['t'] + '"'
    if a['k'] == 'c': return f'({a["v"]})'
    if a['k'] == 'f': return f'(*x: {px(a["e"])})'
    return parg(['lit', a['params'], a['pipe']])


class ArgGen:
    def __init__(self, rng, declared):
        self.rng, self.declared = rng, declared
        self.core = core.Gen(rng, vars=('qa', 'qb'))   # not defined
    def chance(self, p): return self.rng.random() < p
    def pick(self, xs): return self.rng.choice(xs)

    def pre(self, op):
        """rows which suit the operator"""
        self.shape = self.pick(['int', 'int', 'pair', 'kv']) if op not in ('args', 'red', 'expand', 'squish') else self.pick(['int', 'pair'])
        return [] if op == 'gen' else [self.core.source(self.shape, 6)]

    def value(self, op, name, type):
        if type == 'int':
            n = self.pick([1, 2, 3, 4]) if op != 'expand' else self.pick([0, 1])
            if op == 'gen' and name == 'START': n = self.pick([0, 1, 7, 12])
            if op == 'gen' and name == 'pad': n = self.pick([1, 2, 3, 5])
            if op in ('head', 'tail') and self.chance(.3): n = -n
            return {'k': 'c', 'v': n} if self.chance(.3) else word(str(n))
        if type == 'float': return word(self.pick(['1', '2']))
        if type == 'fn':
            if op in ('squish', 'red'): return word(self.pick(SYMBOLS[:6] if op == 'squish' else SYMBOLS[:7]))
            if op in ('select', 'window'): return {'k': 'f', 'e': self.core.pred()}
            if op == 'filter': return {'k': 'f', 'e': self.core.intexpr()}
            return {'k': 'f', 'e': self.core.intexpr() if op == 'sort' else self.core.expr()}
        if type == 'pipe':
            if op == 'args':
                params = self.rng.sample(['u', 'w'], self.pick([1, 1, 2]))
                return {'k': 'p', 'params': params, 'pipe': [{'op': 'map', 'e': ['t', [['v', p] for p in params] + [['c', enc(9)]]]}]}
            s = self.core.side(self.shape)
            return {'k': 'p', 'params': s[1], 'pipe': s[2]}
        if name == 'format': return quoted(self.pick(FORMATS))
        if name == 'pattern' or name == 'command': return word(self.pick(['v', 'va', 'x']))
        if op == 'import' and name == 'MODULE': return word('math')
        if op == 'import' and name == 'SYMBOL': return word(self.pick(['pi', 'e']))
        if op == 'ps': return word(self.pick(['root', '1']))
        ws = WORDS.get(op, ['na', 'nb'])
        t = self.pick(ws)
        return quoted(t) if self.chance(.15) and op not in ('bash',) and not set(t) & set('*-') else word(t)

    def binding(self, op):
        """what to bind: [(flag, value or None)], [values of parameters]"""
        d = self.declared[op]
        p = self.pick([.15, .3, .3, .6])
        chosen = [f for f in d['flags'] if self.chance(p)]
        if self.chance(.85):   # mostly combinations which are not excluded
            for group in d['excl'] + d['one']:
                inside = [f for f in chosen if f['name'] in group]
                for f in inside[1:]:
                    if f in chosen: chosen.remove(f)
        fs = [(f, self.value(op, f['name'], f['type']) if f['arity'] == 'one' or f['arity'] == 'optional' and self.chance(.5) else None) for f in chosen]
        names = {f['name'] for f in chosen}
        ps = []
        for a in d['pos']:
            blocked = any(a['name'] in g and names & set(g) for g in d['excl'] + d['one']) and self.chance(.85)
            required = not a['opt'] or (op == 'gen' and a['name'] == 'COUNT') or any(a['name'] in g and not names & set(g) for g in d['one'])
            if blocked or not (required or self.chance(.6)): break
            ps.append(self.value(op, a['name'], a['type']))
        if d['list']:
            n = self.pick([1, 1, 2, 3]) if op != 'bash' else self.pick([0, 1, 2, 3, 4])
            if op == 'bash': ps.append(word('echo'))
            if op == 'red' and self.shape == 'int': n = 1
            elif op == 'red': n = min(n, 2)
            ps += [self.value(op, 'LIST', d['list']) for _ in range(n if op in ('red', 'union', 'intersect', 'bash') or self.chance(.8) else 0)]
        return fs, ps

    def spell(self, op, binding, canonical=False):
        fs, ps = list(binding[0]), binding[1]
        if not canonical:
            # an optional value must not be taken from what follows
            self.rng.shuffle(fs)
        out = []
        ends = False
        for f, v in fs:
            forms = [x for x in (f['short'], f['long']) if x]
            t = forms[0] if canonical else self.pick(forms)
            # letters of switches can be combined
            if (not canonical and v is None and f['arity'] == 'none' and len(t) == 2 and out and out[-1].get('switch') and self.chance(.5)):
                t = out.pop()['t'] + t[1]
                out.append(dict(word(t), switch=True))
            else:
                out.append(dict(word(t), switch=v is None and f['arity'] == 'none' and len(t) == 2))
            if v is not None: out.append(v)
        out += [self.respell(p, op) if not canonical else p for p in ps]
        return [{k: v for k, v in a.items() if k != 'switch'} for a in out]

    def respell(self, a, op):
        """another way of writing the same value"""
        if a['k'] == 'c': return word(str(a['v'])) if self.chance(.5) and a['v'] >= 0 else a
        if a['k'] == 'w' and a['num'] and a['num'][0] > 0 and self.chance(.3) and op not in ('ps', 'timer') and 'int' in str(self.declared[op]):
            return {'k': 'c', 'v': a['num'][0]}
        return a

    def noise(self, op):
        d = self.declared[op]
        some = [x for f in d['flags'] for x in (f['short'], f['long']) if x]
        shorts = [f['short'] for f in d['flags']]
        return self.pick([lambda: word(self.pick(['-z', '--nope', '-5', '-zy', '--', '-y5'])),
                          lambda: word(self.pick(some)) if some else word('-q'),
                          lambda: word(self.pick(some)) if some else word('--qq'),
                          lambda: word(self.pick(['na', '3', 'nb', '-2'])),
                          lambda: word('-' + ''.join(self.pick(shorts)[-1] for _ in range(2))) if shorts else word('-aa'),
                          lambda: word(self.near(self.pick(some))) if some else word('--q'),
                          lambda: {'k': 'c', 'v': self.pick([2, 3])},
                          lambda: {'k': 'p', 'params': [], 'pipe': [{'op': 'gen', 'n': 2, 'start': 0}]}])()

    def near(self, flag):
        """something like a flag"""
        return self.pick([lambda: flag[:self.rng.randint(2, max(2, len(flag) - 1))], lambda: flag[:-1] if len(flag) > 3 else flag + flag[-1], lambda: flag + 's', lambda: '-' + flag,
                          lambda: flag.upper(), lambda: flag[1:] if flag.startswith('--') else '-' + flag])()

    def mutate(self, op, args):
        args = list(args)
        for _ in range(self.pick([1, 1, 1, 2])):
            flags = [i for i, a in enumerate(args) if a['k'] == 'w' and a['dash'] and len(a['t']) > 1]
            if flags and self.chance(.25):
                i = self.pick(flags)
                args[i] = word(self.near(args[i]['t']))
                continue
            k = self.rng.randrange(5)
            at = self.rng.randrange(len(args) + 1)
            if k <= 1 or not args: args.insert(at, self.noise(op))
            elif k == 2: del args[min(at, len(args) - 1)]
            elif k == 3: args.insert(at, self.pick(args))
            else: self.rng.shuffle(args)
        return args

    def group(self, op):
        """a binding in several spellings, and what mutations make of it"""
        pre = self.pre(op) if op in CORE else []
        b = self.binding(op)
        vs = [self.spell(op, b, True)] + [self.spell(op, b) for _ in range(2)]
        vs += [self.mutate(op, self.pick(vs)) for _ in range(4)]
        return [{'op': op, 'args': a, 'pre': pre, 'mode': 'core' if op in CORE else 'same' if op in SAME else 'refusals',
                 'mayfail': op not in ('store',)} for a in vs]


def text(c):
    t = ' '.join([c['op']] + [show(a) for a in c['args']])
    if c['mode'] == 'core':
        return (f'{t} | write SENT{REPR}' if c['op'] == 'gen' else f'{ppipe(c["pre"])} | write SENT | {t}{REPR}')
    if c['mode'] == 'same':
        before, after = FRAME[c['op']][1:3]
        return before + t + after
    return t

def plan(ch, cmds):
    """which of the commands are bound, by the specification; the declarations"""
    t = vf.tlc('ArgsTrace', cfg='ArgsPlan.cfg', env={'TRACE': vf.json_file(cmds or [], ch.scratch)})
    if not t.ok: ch.errors.append('plan failed: ' + t.out[-3500:])
    return json.loads(json.dumps(t.lines('DECL')[0])), {b['k'] - 1: b['key'] for b in t.lines('BOUND')}

def judge(ch, groups):
    cmds = [c for g in groups for c in g]
    _, bound = plan(ch, cmds)
    n = 0
    sessions = []
    for g in groups:
        s = []
        for c in g:
            is_bound = n in bound
            # writes to the standard output of the session, which the driver replaces for each command
            if is_bound and c['op'] == 'trace' and json.loads(bound[n])[1][1]:
                n += 1
                continue
            n += 1
            if is_bound and c['mode'] == 'refusals': continue
            if is_bound and c['op'] == 'bash' and c['args'] and c['args'][0]['k'] == 'w' and c['args'][0]['t'] in ('-i', '--interactive'): continue
            if is_bound and c['op'] == 'bash' and (not c['args'] or c['args'][0].get('t') != 'echo'): continue
            if is_bound and c['op'] == 'gen' and not counted(c): continue
            s.append(c)
        if s: sessions.append(s)
    # a session has many groups, for the cost of starting it
    merged = [sum(sessions[i:i + 6], []) for i in range(0, len(sessions), 6)]
    specs, marks = [], []
    for n, s in enumerate(merged):
        steps, ms = [{'py': FIXTURE}], []
        for c in s:
            setup, _, _, probes = FRAME.get(c['op'], ([], '', '', [])) if c['mode'] == 'same' else ([], '', '', [])
            steps.append({'py': "import os\nfor n in ('SENT', 'tf', 'tg'):\n    if os.path.exists(n): os.remove(n)"})
            steps += [{'cmd': t} for t in setup]
            at = len(steps)
            steps.append({'cmd': text(c)})
            steps += [{'cmd': t} for t in probes]
            steps.append({'py': "import os\nS.result = os.path.exists('SENT')"})
            ms.append((at, len(probes)))
        specs.append({'id': n, 'steps': steps, 'session_timeout': 300, 'timeout': 10, 'subst': True})
        marks.append(ms)
    results = vf.run_sessions(specs, env={'EDITOR': 'true'})
    recorded = []
    for s, ms, r in zip(merged, marks, results):
        out = []
        for c, (at, probes) in zip(s, ms):
            if at + probes + 1 >= len(r['results']):
                ch.violation(f'session ended abnormally: {text(c)} ({r.get("fail")})', {'command': text(c), 'result': str(r)[-2000:]})
                break
            obs = core.observe(r['results'][at])
            after = [dict(core.observe(x), text=[ord(ch) for ch in x['out']]) for x in r['results'][at + 1:at + 1 + probes]]
            out.append(dict(c, obs=obs, after=after, ran=bool(r['results'][at + 1 + probes]['res'])))
        recorded.append({'cmds': out, 'init': []})
    t = vf.tlc('ArgsTrace', env={'TRACE': vf.json_file(recorded, ch.scratch)})
    ch.traces(t, len(recorded))
    ch.count('commands', sum(len(s['cmds']) for s in recorded))
    for k in t.lines('KIND'): ch.count('bound' if not k[1] else 'refused: ' + k[1])
    for b in sorted(t.lines('BAD'), key=lambda b: len(text(merged[b['sid'] - 1][b['k'] - 1]))):
        s, k = b['sid'] - 1, b['k'] - 1
        c = merged[s][k]
        at, probes = marks[s][k]
        obs = results[s]['results'][at]
        ch.violation(f'{b["clause"]}: {text(c)}   expected {core.show_items(b["expected"])} kill={b["kill"]!r}, '
                     f'observed {obs["out"]!r:.200} err={obs["err"].strip()!r:.200} exc={str(obs.get("exc"))[-200:]}',
                     {'command': text(c), 'verdict': b, 'observed': obs, 'after': recorded[s]['cmds'][k]['after'],
                      'session': [text(x) for x in merged[s][:k + 1]]})
    ch.sample({'commands': [text(c) for c in merged[0][:8]]})

def counted(c):
    """a gen whose count is positive: the first parameter"""
    args = c['args']
    i = 0
    while i < len(args) and args[i]['k'] == 'w' and args[i]['dash']: i += 2
    return i < len(args) and (args[i].get('v', 0) or (args[i].get('num') or [0])[0]) > 0
