"""Programs of the core calculus (spec/Core.tla): rendering as marcel text, decoding of observations, random generation."""
import ast, json, re
import vf, shells

# ------------------------------------------------------------------ values

def enc(v):
    """python value -> tagged JSON value of the specification"""
    if v is None: return ['n']
    if isinstance(v, bool): return ['b', v]
    if isinstance(v, int): return ['i', v]
    if isinstance(v, str): return ['s', [ord(c) for c in v]]
    if isinstance(v, tuple): return ['t', [enc(x) for x in v]]
    if isinstance(v, list): return ['l', [enc(x) for x in v]]
    raise ValueError(f'{type(v)} {v!r}')

def dec(v):
    t = v[0]
    if t == 'n': return None
    if t in ('i', 'b'): return v[1]
    if t == 's': return ''.join(chr(c) for c in v[1])
    if t == 't': return tuple(dec(x) for x in v[1])
    if t == 'l': return [dec(x) for x in v[1]]
    raise ValueError(v)

def show_items(items):
    return [(repr(dec(i[1])) if i[0] == 'R' else f'Error({i[1]})') for i in items]

# ------------------------------------------------------------------ rendering

def px(e):
    """expression -> python text"""
    k = e[0]
    if k == 'c': return repr(dec(e[1]))
    if k == 'v': return e[1]
    if k == 'a': return f'x[{e[1]}]'
    if k == 'row': return 'x'
    if k == 'len': return 'len(x)'
    if k == 'pos': return 'pos()'
    if k in ('+', '*', '%', '//', '==', '<'): return f'({px(e[1])} {k} {px(e[2])})'
    if k == 'f': return f'{e[1]}({px(e[2])})'
    if k == 'not': return f'(not {px(e[1])})'
    if k == 't': return '(' + ''.join(px(x) + ', ' for x in e[1]) + ')'
    if k == 'l': return '[' + ', '.join(px(x) for x in e[1]) + ']'
    raise ValueError(e)

def pcallarg(a):
    if a[0] == 'pv': return parg(['lit', a[1], a[2]])
    if a[0] in ('pg', 'pw'): return f'({a[1]})'
    return f'({px(a)})'

FN = {'last': '(a, b: b)', 'sub': '(a, b: b if a is None else a - b)'}

def parg(pa):
    if pa[0] == 'var': return pa[1]
    params = (', '.join(pa[1]) + ': ') if pa[1] else ''
    return f'(| {params}{ppipe(pa[2])} |)'

def pop(op, first):
    o = op['op']
    if o == 'gen': return f'gen {op["n"]} {op["start"]}' if op['start'] else f'gen {op["n"]}'
    if o == 'genv': return f'gen ({px(op["e"])}) {op["start"]}' if op['start'] else f'gen ({px(op["e"])})'
    if o == 'rows':
        rows = [dec(r) for r in op['rows']]
        return f'gen {len(rows)} | map (_i: {rows!r}[_i])' if rows else 'gen 1 | select (_i: False)'
    if o == 'load': return f'load {op["name"]}'
    if o == 'map':
        return f'(*x: {px(op["e"])})' if op.get('style') else f'map (*x: {px(op["e"])})'
    if o == 'select': return f'select (*x: {px(op["e"])})'
    if o in ('head', 'tail'): return f'{o} {op["n"]}' if not op.get('style') else f'{o} ({op["n"]})'
    if o == 'sort': return 'sort' if op['e'][0] == 'none' else f'sort (*x: {px(op["e"])})'
    if o == 'reverse': return 'reverse'
    if o == 'unique': return 'unique -c' if op['c'] else 'unique'
    if o == 'expand': return 'expand' if op['n'] < 0 else f'expand {op["n"]}'
    if o == 'squish': return 'squish ' + FN.get(op['f'], op['f']) if op['f'] != '+' or op.get('style') else 'squish'
    if o == 'window':
        if op['kind'] == 'p': return f'window (*x: {px(op["e"])})'
        return f'window -{op["kind"]} {op["n"]}'
    if o == 'red': return 'red ' + ('-i ' if op['inc'] else '') + ' '.join(FN.get(f, f) for f in op['fs'])
    if o == 'args': return 'args ' + ('-a ' if op['all'] else '') + parg(op['arg'])
    if o in ('union', 'intersect'): return o + ' ' + ' '.join(parg(a) for a in op['args'])
    if o == 'difference': return f'difference {parg(op["arg"])}'
    if o == 'filter':
        flag = '-d ' if not op['keep'] else ('-k ' if op.get('style') else '')
        key = '' if op['e'][0] == 'none' else f'-c (*x: {px(op["e"])}) '
        return f'filter {flag}{key}{parg(op["arg"])}'
    if o == 'join': return 'join ' + ('-k ' if op['keep'] else '') + parg(op['arg'])
    if o == 'case':
        t = 'case'
        for n, (pred, arg) in enumerate(op['branches']):
            last_default = n == len(op['branches']) - 1 and op.get('default')
            t += (f' {parg(arg)}' if last_default else f' (*x: {px(pred)}) {parg(arg)}')
        return t
    if o == 'call':
        t = op['name']
        for n, a in zip(op['kwnames'], op['kwvals']): t += f' {"--" if op.get("style") else "-"}{n} {pcallarg(a)}'
        for a in op['args']: t += f' {pcallarg(a)}'
        return t
    raise ValueError(op)

def ppipe(pipe):
    return ' | '.join(pop(op, n == 0) for n, op in enumerate(pipe))

REPR = ' | map (*x: repr(x))'

def render(c):
    k = c['c']
    if k == 'run': return ppipe(c['pipe']) + REPR
    if k == 'assign' and 'text' in c: return c['text']
    if k == 'assign': return f'{c["name"]} = ({px(c["e"])})'
    if k == 'assignf': return f'{c["name"]} = (lambda *x: {px(c["e"])})'
    if k == 'same': return c['text']
    if k == 'assignp':
        params = (', '.join(c['params']) + ': ') if c['params'] else ''
        return f'{c["name"]} = (| {params}{ppipe(c["pipe"])} |)'
    if k == 'store':
        st = c.get('style', 0)
        if st: return ppipe(c['pipe']) + (' | store -a ' if c['append'] else ' | store ') + c['name']
        return ppipe(c['pipe']) + (' >>$ ' if c['append'] else ' >$ ') + c['name']
    if k == 'del': return f'env -d {c["name"]}'
    if k == 'defined':
        return "env | select (n, v: n in %r) | map (n, v: repr((n,)))" % (list(c['names']),)
    if k == 'bad': return c['text']
    raise ValueError(c)

# ------------------------------------------------------------------ observations

def parse_items(text):
    items, strange = [], []
    for line in text.split('\n'):
        if not line: continue
        if line.startswith('Error: '):
            m = re.search(r"<class '(?:[\w.]*\.)?(\w+)'>", line)
            items.append(['E', m.group(1) if m else ('short' if 'too short' in line else 'other')])
        else:
            try:
                v = ast.literal_eval(line)
                items.append(['R', enc(v)])
            except (ValueError, SyntaxError):
                strange.append(line)
    return items, strange

def observe(r):
    items, strange = parse_items(r['out'])
    # The repr of a list row shows as the tuple of its elements.
    return {'items': items + [['R', enc(s)] for s in strange], 'kill': bool(r['err'].strip()), 'crash': 'exc' in r}

# ------------------------------------------------------------------ generation

class Gen:
    """Random programs. Everything is drawn from self.rng."""
    def __init__(self, rng, vars=('va', 'vb'), errors=0.0, profile=None):
        self.rng = rng
        self.vars = list(vars)          # data variables that may be referred to
        self.params = []                # visible parameters
        self.errors = errors            # probability of an expression that fails on some rows
        self.pipes = {}                 # pipeline variables: name -> params
        self.res = []                   # stored streams
        self.profile = profile
        self.depth = 0

    def chance(self, p): return self.rng.random() < p
    def pick(self, xs): return self.rng.choice(xs)

    # values
    def scalar(self, kind=None):
        r = self.rng
        kind = kind or self.pick(['i', 'i', 'i', 's'])
        if kind == 'i': return r.choice([0, 1, 2, 3, 4, 5, -1, 7])
        if kind == 's': return r.choice(['', 'a', 'b', 'ab', 'z', 'a', 'b', '1', '0', 'B', 'a b', '\u00e9'])
        return None
    def value(self, shape):
        if shape == 'int': return self.scalar('i')
        if shape == 'str': return self.scalar('s')
        if shape == 'none': return None if self.chance(.3) else self.scalar('i')
        if shape == 'pair': return (self.scalar('i'), self.scalar('i'))
        if shape == 'kv': return (self.rng.randrange(4), self.scalar('s'))
        if shape == 'triple': return (self.rng.randrange(3), self.rng.randrange(3), self.scalar('i'))
        if shape == 'list': return [self.scalar('i') for _ in range(self.rng.randrange(4))]
        if shape == 'nested': return (self.scalar('i'), tuple(self.scalar('i') for _ in range(self.rng.randrange(3))))
        if shape == 'nestedl': return [[self.scalar('i') for _ in range(self.rng.randrange(3))], self.scalar('i')]
        if shape == 'mixed': return self.value(self.pick(['int', 'str', 'pair', 'list', 'nested', 'none', 'wrapped', 'triple']))
        if shape == 'gkey': return (self.pick([1, '1', 2, '2', None, 'None', (1,), (1, 2), '', 0, '0', '(1,)']), self.scalar('i'))
        if shape == 'wrapped': return ([self.scalar('i') for _ in range(self.rng.randrange(3))],)
        raise ValueError(shape)
    SHAPES = ['int', 'int', 'str', 'pair', 'pair', 'kv', 'triple', 'list', 'nested', 'nestedl', 'mixed', 'none', 'wrapped', 'gkey']
    def source(self, shape=None, maxn=6):
        if shape is None and self.chance(.25):
            return {'op': 'gen', 'n': self.rng.randrange(1, maxn + 1), 'start': self.pick([0, 0, 0, 1, -2, 3])}
        if shape is None and self.params and self.chance(.4):
            p = self.pick(self.params)
            return {'op': 'genv', 'e': ['+', ['%', ['*', ['v', p], ['v', p]], ['c', enc(5)]], ['c', enc(1)]], 'start': 0}
        if shape is None and self.res and self.chance(.4):
            return {'op': 'load', 'name': self.pick(self.res)}
        shape = shape or self.pick(self.SHAPES)
        n = self.rng.choice([0, 1, 1, 2, 2, 3, 4, 5, maxn])
        rows = [self.value(shape) for _ in range(n)]
        if rows and self.chance(.4):
            rows = [self.pick(rows) for _ in rows]      # duplicates
        return {'op': 'rows', 'rows': [enc(r) for r in rows]}
    # expressions over a row
    def expr(self, depth=2, row=True):
        leaves = [lambda: ['c', enc(self.scalar('i'))]]
        if row:
            leaves += [lambda: ['a', 0]] * 4 + [lambda: ['len'], lambda: ['a', 1] if self.chance(self.errors) else ['a', 0]]
            if self.profile != 'nopos': leaves.append(lambda: ['pos'])
        if self.vars and self.chance(.3): leaves += [lambda: ['v', self.pick(self.vars)]] * 2
        if self.params: leaves += [lambda: ['v', self.pick(self.params)]] * 4
        if depth == 0 or self.chance(.3): return self.pick(leaves)()
        k = self.pick(['+', '+', '*', '%', '//', 't', 'l', 'leaf', 't'])
        if k == 'leaf': return self.pick(leaves)()
        if k in ('+', '*'): return [k, self.expr(depth - 1, row), self.expr(depth - 1, row)]
        if k in ('%', '//'):
            d = self.expr(0, row) if self.chance(self.errors) else ['c', enc(self.rng.randrange(1, 4))]
            return [k, self.expr(depth - 1, row), d]
        return [k, [self.expr(depth - 1, row) for _ in range(self.rng.randrange(0 if self.chance(.1) else 1, 4))]]
    def intexpr(self, row=True):
        """usually an int, failing on some rows with probability self.errors"""
        base = self.pick([['a', 0], ['a', 0], ['len'], ['pos'] if self.profile != 'nopos' else ['len']]) if row else ['c', enc(self.rng.randrange(4))]
        if self.params and self.chance(.5): base = ['v', self.pick(self.params)]
        if self.chance(self.errors): return ['//', ['c', enc(6)], base]
        if self.chance(self.errors / 2): return ['a', self.rng.randrange(1, 3)]
        return self.pick([base, ['+', base, ['c', enc(self.rng.randrange(-2, 3))]], ['*', base, ['c', enc(2)]], ['%', base, ['c', enc(3)]]])
    def pred(self):
        e = self.intexpr()
        return self.pick([['==', ['%', ['len'], ['c', enc(2)]], ['c', enc(1)]], ['<', ['c', enc(1)], ['a', 0]], ['not', e], e,
                          ['==', e, ['c', enc(self.rng.randrange(4))]], ['<', ['len'], ['c', enc(2)]],
                          ['==', ['%', e, ['c', enc(2)]], ['c', enc(0)]]])
    REDS = ['+', '*', 'max', 'min', 'count', 'concat', 'last', 'sub', 'and', 'or', '+', '^', '&']
    def red(self):
        n = self.pick([1, 1, 1, 2, 2, 3])
        fs = [('.' if self.chance(.35) and n > 1 else self.pick(self.REDS)) for _ in range(n)]
        return {'op': 'red', 'inc': self.chance(.4), 'fs': fs}
    def window(self):
        k = self.pick(['o', 'd', 'p', 'o'])
        return {'op': 'window', 'kind': k, 'n': self.rng.randrange(1, 5) if k != 'p' else 0, 'e': self.pred() if k == 'p' else ['none']}
    def mapop(self):
        return {'op': 'map', 'e': self.expr(), 'style': self.chance(.2)}
    def simple(self, kinds):
        k = self.pick(kinds)
        if k == 'map': return self.mapop()
        if k == 'imap': return {'op': 'map', 'e': self.intexpr()}
        if k == 'pmap': return {'op': 'map', 'e': ['t', [self.intexpr(), self.intexpr()]]}
        if k == 'select': return {'op': 'select', 'e': self.pred()}
        if k in ('head', 'tail'): return {'op': k, 'n': self.pick([1, 2, 3, 4, -1, -2, -3, 8, -8]), 'style': self.chance(.2)}
        if k == 'sort': return {'op': 'sort', 'e': self.pick([['none'], ['none'], self.intexpr(), ['*', ['a', 0], ['c', enc(-1)]], ['%', ['len'], ['c', enc(2)]]])}
        if k == 'reverse': return {'op': 'reverse'}
        if k == 'unique': return {'op': 'unique', 'c': self.chance(.4)}
        if k == 'expand': return {'op': 'expand', 'n': self.pick([-1, -1, 0, 1, 2])}
        if k == 'squish': return {'op': 'squish', 'f': self.pick(['+', '+', 'max', 'min', '*', 'count', 'concat', 'last']), 'style': self.chance(.3)}
        if k == 'window': return self.window()
        if k == 'red': return self.red()
        raise ValueError(k)
    BASIC = ['map', 'map', 'imap', 'pmap', 'select', 'head', 'tail', 'sort', 'reverse', 'unique', 'expand', 'squish']
    # nested
    def sub(self, params=(), maxops=2, source=True, kinds=None):
        """an argument pipeline"""
        saved, self.depth = self.params, self.depth + 1
        self.params = self.params + [p for p in params if p not in self.params]
        pipe = self.pipe(source=source, maxops=maxops, kinds=kinds)
        self.params, self.depth = saved, self.depth - 1
        return ['lit', list(params), pipe]
    def side(self, shape):
        return ['lit', [], [self.source(shape, 5)] + ([self.simple(['select', 'reverse', 'head'])] if self.chance(.3) else [])]
    def bag(self, shape):
        k = self.pick(['union', 'intersect', 'difference', 'filter', 'join'])
        if k in ('union', 'intersect'): return {'op': k, 'args': [self.side(shape) for _ in range(self.pick([1, 1, 2, 3]))]}
        if k == 'difference': return {'op': k, 'arg': self.side(shape)}
        if k == 'filter':
            e = self.pick([['none'], ['none'], ['a', 0], self.intexpr(), ['t', [['a', 0], ['len']]]])
            return {'op': k, 'keep': self.chance(.6), 'style': self.chance(.3), 'e': e, 'arg': self.side(shape if e[0] == 'none' else 'int')}
        return {'op': k, 'keep': self.chance(.4), 'arg': self.side(shape)}
    PARAM_NAMES = ['u', 'w', 'y', 'z']
    def nested(self, maxops=2, kinds=None):
        k = self.pick(['args', 'args', 'case', 'bag'] + (['call'] if self.pipes else []))
        if k == 'args':
            all = self.chance(.2)
            params = self.rng.sample(self.PARAM_NAMES, 1 if all or self.chance(.6) else self.rng.randrange(1, 4))
            arg = self.sub(params, maxops, kinds=kinds)
            if all:   # the parameter is a list
                arg = ['lit', params, [{'op': 'map', 'e': ['v', params[0]]}] + arg[2][1:]]
            return {'op': 'args', 'all': all, 'arg': arg}
        if k == 'case':
            n = self.rng.randrange(1, 4)
            br = [[self.pred(), self.sub((), maxops, source=False, kinds=kinds)] for _ in range(n)]
            default = self.chance(.5)
            if default: br.append([['c', enc(1)], self.sub((), maxops, source=False, kinds=kinds)])
            return {'op': 'case', 'branches': br, 'default': default}
        if k == 'call': return self.call()
        return self.bag(self.pick(['int', 'int', 'pair', 'kv']))
    def call(self, name=None):
        name = name or self.pick(sorted(self.pipes))
        params = self.pipes[name]
        n = self.rng.randrange(len(params) + 1)
        rest = [p for p in params[n:] if self.chance(.7)]
        self.rng.shuffle(rest)
        simple = lambda: self.pick([['c', enc(self.rng.randrange(4))], ['c', enc(self.rng.randrange(4))]] + [['v', v] for v in self.vars + self.params])
        return {'op': 'call', 'name': name, 'args': [simple() for _ in range(n)], 'kwnames': rest, 'kwvals': [simple() for _ in rest]}
    def pipe(self, source=True, maxops=3, kinds=None, nest=0.0, shape=None):
        ops = [self.source(shape)] if source else []
        n = self.rng.randrange(0 if source else 1, maxops + 1)
        for _ in range(n):
            if self.chance(nest) and self.depth < 2: ops.append(self.nested(kinds=kinds))
            else: ops.append(self.simple(kinds or self.BASIC))
        return ops

# ------------------------------------------------------------------ validation

def size(o):
    return len(json.dumps(o))

# A parameter of a pipeline is visible to the operators following the execution of that pipeline (known finding
# S07-leak): commands where that makes a difference are left to the probe of that finding.

def bound_in(op, pv):
    """parameters bound by running op, however deep"""
    out = set()
    def arg(a):
        if a[0] == 'var': out.update(pv.get(a[1], ((), ()))[0])
        else:
            out.update(a[1])
            for o in a[2]: out.update(bound_in(o, pv))
    if 'arg' in op: arg(op['arg'])
    for a in op.get('args', []) if op['op'] != 'call' else []: arg(a)
    for b in op.get('branches', []): arg(b[1])
    if op['op'] == 'call': out.update(pv.get(op['name'], ((), ()))[0])
    return out

def refs_in(x, pv):
    """variables referred to in x (operator, expression, ...)"""
    out = set()
    if isinstance(x, dict):
        for v in x.values(): out |= refs_in(v, pv)
        if x.get('op') == 'call': out |= pv.get(x['name'], ((), set()))[1] | {x['name']}
        if x.get('op') == 'load': out.add(x['name'])
    elif isinstance(x, list):
        if len(x) == 2 and x[0] == 'v' and isinstance(x[1], str): return {x[1]}
        if len(x) == 2 and x[0] == 'var' and isinstance(x[1], str): return pv.get(x[1], ((), set()))[1] | {x[1]}
        if len(x) == 2 and x[0] == 'c': return out
        for v in x: out |= refs_in(v, pv)
    return out

def leaks(pipe, pv):
    for n, op in enumerate(pipe):
        for later in pipe[n + 1:]:
            if bound_in(op, pv) & refs_in(later, pv): return True
        subs = [op['arg']] if 'arg' in op else op['args'] if op['op'] != 'call' and 'args' in op else [b[1] for b in op.get('branches', [])]
        if any(a[0] == 'lit' and leaks(a[2], pv) for a in subs): return True
    return False

def without_leaks(session):
    pv, out = {}, []
    for c in session:
        if 'pipe' in c and leaks(c['pipe'], pv): continue
        if c['c'] == 'assignp':
            bound = set(c['params'])
            for op in c['pipe']: bound |= bound_in(op, pv)
            refs = set()
            for op in c['pipe']: refs |= refs_in(op, pv)
            old = pv.get(c['name'], (set(), set()))
            pv[c['name']] = (bound | old[0], refs | old[1])
        out.append(c)
    return out

def run_core(check, sessions, startup=None, init=(), probes=(), real=False):
    """Run sessions (lists of commands) on the code and have TLC judge what they did. Reports violations to check.
    real: in the real shell, where commands run as jobs."""
    n_before = sum(map(len, sessions))
    sessions = [without_leaks(s) for s in sessions] + list(probes)
    check.count('left_to_probe', n_before - sum(map(len, sessions)))
    texts = [[render(c) for c in s] for s in sessions]
    specs = [{'id': n, 'steps': [{'cmd': t} for t in ts], 'startup': startup, 'session_timeout': 400} for n, ts in enumerate(texts)]
    if real:
        rs = shells.run_shells([{'commands': ts, 'startup': startup or '', 'timeout': 300} for ts in texts])
        results = [{'results': [dict(o) for o in r], 'fail': doc} for r, doc in rs]
    else:
        results = vf.run_sessions(specs)
    recorded = []
    for s, ts, r in zip(sessions, texts, results):
        cmds = []
        for n, c in enumerate(s):
            if n < len(r['results']):
                obs = observe(r['results'][n])
            else:
                # session died here
                check.violation(f'session ended abnormally: {ts[n]} ({r.get("fail")})', {'commands': ts, 'result': r})
                break
            if c['c'] == 'same':
                first = ts.index(ts[n])
                c = dict(c, want=obs['items'] if first == n else cmds[first]['obs']['items'])
            cmds.append(dict(c, obs=obs))
        recorded.append({'cmds': cmds, 'init': [{'name': n, 'v': enc(v)} for n, v in init]})
    path = vf.json_file(recorded, check.scratch)
    t = vf.tlc('CoreTrace', env={'TRACE': path})
    check.traces(t, len(sessions))
    n_cmds = sum(len(s['cmds']) for s in recorded)
    check.count('commands', n_cmds)
    check.count('unspecified', len(t.lines('UNSPEC')))
    bad = sorted(t.lines('BAD'), key=lambda b: size(sessions[b['sid'] - 1][b['k'] - 1]))
    for b in bad:
        s, k = b['sid'] - 1, b['k'] - 1
        obs = results[s]['results'][k]
        what = (f'{b["clause"]}: {texts[s][k]}   expected {show_items(b["expected"])} kill={b["kill"]!r}, '
                f'observed {obs["out"].split(chr(10))[:-1]} err={obs["err"].strip()!r} exc={obs.get("exc")}')
        check.violation(what, {'commands': texts[s][:k + 1], 'expected': show_items(b['expected']), 'observed': obs, 'verdict': b})
    for s in texts[:2]:
        check.sample({'commands': s[:4], 'observed': [r['out'] for r in results[texts.index(s)]['results'][:4]]})
    # the trace validation must have visited every command
    want = n_cmds + len(recorded)
    if t.ok and t.distinct < len(recorded):
        check.errors.append(f'trace validation visited {t.distinct} states for {n_cmds} commands')
    return bad
