"""The Python API: programs of the core calculus rendered as API calls."""
import json
import core, vf
from core import px, dec, enc

RED = {'+': 'r_plus', '*': 'r_times', '^': 'r_xor', '&': 'r_bit_and', '|': 'r_bit_or', 'and': 'r_and', 'or': 'r_or', 'max': 'r_max',
       'min': 'r_min', 'count': 'r_count', 'concat': 'r_concat', 'last': '(lambda a, b: b)', 'sub': '(lambda a, b: b if a is None else a - b)'}

def arg(pa, function=False):
    if pa[0] == 'var': return pa[1] if function else f'{pa[1]}()'
    return (f'lambda {", ".join(pa[1])}: ' if function else '') + pipe(pa[2])

def f(e): return f'lambda *x: {px(e)}'

def op(o):
    k = o['op']
    if k == 'gen': return f'gen({o["n"]}, {o["start"]})' if o['start'] else f'gen({o["n"]})'
    if k == 'genv': return f'gen(lambda: {px(o["e"])}, {o["start"]})'
    if k == 'rows':
        rows = [dec(r) for r in o['rows']]
        return f'gen({len(rows)}) | map(lambda _i: {rows!r}[_i])' if rows else 'gen(1) | select(lambda _i: False)'
    if k == 'load': return f'load({o["name"]})'
    if k == 'map': return f'map({f(o["e"])})'
    if k == 'select': return f'select({f(o["e"])})'
    if k in ('head', 'tail'): return f'{k}({o["n"]})' if not o.get('style') else f'{k}(lambda: {o["n"]})'
    if k == 'sort': return 'sort()' if o['e'][0] == 'none' else f'sort({f(o["e"])})'
    if k == 'reverse': return 'reverse()'
    if k == 'unique': return 'unique(consecutive=True)' if o['c'] else 'unique()'
    if k == 'expand': return 'expand()' if o['n'] < 0 else f'expand({o["n"]})'
    if k == 'squish': return 'squish()' if o['f'] == '+' and not o.get('style') else f'squish({RED[o["f"]]})'
    if k == 'window':
        return f'window({f(o["e"])})' if o['kind'] == 'p' else f'window({"overlap" if o["kind"] == "o" else "disjoint"}={o["n"]})'
    if k == 'red': return f'red({", ".join("r_group" if g == "." else RED[g] for g in o["fs"])}{", incremental=True" if o["inc"] else ""})'
    if k == 'args': return f'args({arg(o["arg"], True)}{", all=True" if o["all"] else ""})'
    if k in ('union', 'intersect'): return f'{k}({", ".join(arg(a) for a in o["args"])})'
    if k == 'difference': return f'difference({arg(o["arg"])})'
    if k == 'filter':
        more = '' if o['e'][0] == 'none' else f', compare={f(o["e"])}'
        more += ', discard=True' if not o['keep'] else ', keep=True' if o.get('style') else ''
        return f'filt({arg(o["arg"])}{more})'
    if k == 'join': return f'join({arg(o["arg"])}{", keep=True" if o["keep"] else ""})'
    if k == 'case':
        xs = []
        for n, (pred, a) in enumerate(o['branches']):
            if not (o.get('default') and n == len(o['branches']) - 1): xs.append(f(pred))
            xs.append(arg(a))
        return f'case({", ".join(xs)})'
    if k == 'call': return f'{o["name"]}({", ".join([px(a) for a in o["args"]] + [f"{n}={px(a)}" for n, a in zip(o["kwnames"], o["kwvals"])])})'
    raise ValueError(o)

def pipe(p): return ' | '.join(op(o) for o in p)

MODES = ['run', 'gather', 'gather', 'gatheru', 'list', 'again', 'again', 'part', 'first', 'first', 'prefix']

def render(c):
    k = c['c']
    if k == 'run':
        if c['mode'] == 'run': return {'api': 'run', 'code': pipe(c['pipe']) + ' | map(lambda *x: repr(x))'}
        return {'api': c['mode'], 'code': pipe(c['pipe']), 'n': c.get('n', 0)}
    if k == 'assign': return {'pre': f'{c["name"]} = {px(c["e"])}'}
    if k == 'assignp': return {'pre': f'{c["name"]} = lambda {", ".join(p + "=None" for p in c["params"])}: {pipe(c["pipe"])}'}
    if k == 'store': return {'pre': 'if "rr" not in globals(): rr = reservoir("rr")', 'api': 'store', 'code': f'{pipe(c["pipe"])} | store({c["name"]}{", append=True" if c["append"] else ""})'}
    raise ValueError(c)

class ApiGen(core.Gen):
    def session(self, n):
        r = self.rng
        out = [{'c': 'assign', 'name': 'va', 'e': ['c', enc(r.randrange(1, 5))]}, {'c': 'assign', 'name': 'vb', 'e': ['c', enc(r.choice(['b', 3, (1, 2)]))]},
               {'c': 'store', 'name': 'rr', 'append': False, 'pipe': [self.source()]}]
        self.res = ['rr']
        for name in ('pp', 'pq'):
            params = r.sample(self.PARAM_NAMES, r.randrange(3))
            saved = dict(self.pipes)
            self.pipes = {}
            a = self.sub(params, 2)
            out.append({'c': 'assignp', 'name': name, 'params': params, 'pipe': a[2]})
            self.pipes = dict(saved, **{name: params})
        while len(out) < n:
            self.errors = r.choice([0, 0, .25])
            k = r.random()
            if k < .12:
                self.res, self.pipes, saved = [], {}, self.pipes       # a reservoir being read is not written
                out.append({'c': 'store', 'name': 'rr', 'append': r.random() < .5, 'pipe': self.pipe(nest=.2)})
                self.res, self.pipes = ['rr'], saved
            elif k < .17: out.append({'c': 'assign', 'name': 'va', 'e': ['c', enc(r.randrange(-2, 5))]})
            elif k < .25: out.append({'c': 'run', 'mode': r.choice(MODES), 'pipe': [self.call()] + self.pipe(source=False)})
            else:
                self.pipes, saved = {}, self.pipes                     # calls come first
                out.append({'c': 'run', 'mode': r.choice(MODES), 'n': r.randrange(1, 4), 'pipe': self.pipe(maxops=4, nest=.35)})
                self.pipes = saved
        return out

def no_vars(o):
    """pipeline variables as arguments: those without parameters"""
    return '"var"' not in json.dumps(o)

# first(): how much of the input is looked at. (pipeline code, first row, rows generated at most)
FIRST = [('gen(10**9) | map(lambda x: (N.append(x), x)[1])', (0,), 1), ('gen(10**9, 5) | map(lambda x: (N.append(x), x)[1]) | select(lambda x: x > 8)', (9,), 5),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | window(disjoint=3)', (0, 1, 2), 3),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | args(lambda a: gen(3) | map(lambda y: (a, y)))', (0, 0), 1),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | case(lambda x: x == 3, map(lambda x: "three"))', ('three',), 4),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | map(lambda x: (x, x)) | expand(0)', (0, 0), 1),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | red(r_plus, incremental=True)', (0, 0), 1),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | unique()', (0,), 1),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | filt(gen(9, 4))', (4,), 5),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | join(gen(9, 2))', (2,), 3),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | union(gen(3))', (0,), 1),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | difference(gen(3))', (3,), 4),
         ('gen(10**9) | map(lambda x: (N.append(x), x)[1]) | intersect(gen(3, 2))', (2,), 3),
         ('gen(10**9) | map(lambda x: (N.append(x), 6 // (x - 2))[1]) | select(lambda x: x > 0)', 'E', 3),
         ('gen(10**9) | args(lambda a: gen(10**9) | map(lambda x: (N.append(x), x)[1]))', (0,), 1),
         ('gen(0) | fork(1, lambda i: gen(1))' if False else 'fork(2, lambda i: gen(100000)) | map(lambda x: (N.append(x), x)[1])', (0,), 1)]
# functions with local variables, pipelines used twice and within themselves: (code, rows)
USES = [('gen(3) | args(loc)', [(0,), (0,), (1,), (0,), (1,), (2,)]), ('fork(2, loc) | sort()', [(0,), (0,), (1,)]),
        ('gen(3) | args(lambda a: gen(len([i for i in range(a + 1)])))', [(0,), (0,), (1,), (0,), (1,), (2,)]),
        ('b | union(b)', [(0,), (1,), (2,), (0,), (1,), (2,)]), ('b | intersect(b)', [(0,), (1,), (2,)]), ('b | join(b)', [(0,), (1,), (2,)]),
        ('b | args(lambda a: b | map(lambda x: (a, x)))', [(x, y) for x in range(3) for y in range(3)]), ('gen(3) | m | m | m', [(3,), (4,), (5,)]),
        ('b | map(lambda x: (x, gather(b)))', [(x, [0, 1, 2]) for x in range(3)]), ('b | map(lambda x: (x, first(b | select(lambda y: y >= x))))', [(x, x) for x in range(3)]),
        ('b | map(lambda x: (x, list(b)))', [(x, [0, 1, 2]) for x in range(3)]), ('b | case(lambda x: x > 0, m, m)', [(1,), (2,), (3,)]),
        ('b | m | union(b | m)', [(1,), (2,), (3,), (1,), (2,), (3,)]), ('gen(3) | h | h', [(0,), (1,)]), ('gen(4) | args(lambda a: gen(a + 1) | h) | h', [(0,), (0,)]),
        ('b | filt(b | h) | union(b | h)', [(0,), (1,), (0,), (1,)]), ('b', [(0,), (1,), (2,)]), ('map(lambda: 7) | union(b)', [(7,), (0,), (1,), (2,)]),
        ('gen(5) | u | map(lambda x: x // 2) | u', [(0,), (1,), (2,)]), ('b | a | a', [(0,), (0,), (0,), (1,), (0,), (0,), (1,), (0,), (1,), (2,)])]
SETUP = '''
def loc(a):
    n = a + 1
    return gen(n)
b = gen(3)
m = map(lambda x: x + 1)
h = head(2)
u = unique()
a = args(lambda a: gen(a + 1))
'''

def check(ch, sessions, per):
    plans = []
    for _ in range(sessions):
        g = ApiGen(ch.rng)
        s = [c for c in core.without_leaks(g.session(per)) if no_vars(c)]
        plans.append(s)
    specs = [{'id': n, 'steps': [render(c) for c in s], 'session_timeout': 300} for n, s in enumerate(plans)]
    uses = [{'c': 'same', 'mode': m, 'n': 2, 'rows': rows, 'code': code} for m in ('gather', 'again', 'part', 'first', 'prefix') for code, rows in USES]
    specs.append({'id': len(plans), 'steps': [{'pre': SETUP}] + [{'api': c['mode'], 'n': 2, 'code': c['code']} for c in uses]})
    firsts = [{'c': 'lazy', 'mode': 'first', 'code': code, 'most': n, 'rows': [row]} for code, row, n in FIRST]
    specs.append({'id': len(plans) + 1, 'steps': [{'pre': 'import os'}] + [{'api': 'first', 'code': c['code']} for c in firsts]})
    results = vf.run_sessions(specs, driver='apidriver.py')
    recorded = []
    def text(st): return f'{st["api"]}: {st["code"]}' if 'api' in st else st['pre']
    fixed = [[{'c': 'pre'}] + uses, [{'c': 'pre'}] + firsts]
    for s, sp, r in zip(plans + fixed, specs, results):
        cmds = []
        for n, c in enumerate(s):
            if n >= len(r['results']):
                ch.violation(f'session ended: {text(sp["steps"][n])} ({r.get("fail")})', {'steps': sp['steps'][:n + 1], 'result': r})
                break
            o = r['results'][n]
            items, strange = core.parse_items(o['out']) if c.get('mode') == 'run' or c['c'] == 'store' else ([], [])
            parts = [items + [['R', enc(x)] for x in strange]] if c.get('mode') == 'run' or c['c'] == 'store' else o['parts']
            obs = {'parts': parts, 'kill': bool(o['err'].strip()), 'crash': 'exc' in o, 'n': o['n']}
            e = {k: v for k, v in c.items() if k not in ('rows', 'code')}
            if 'rows' in c: e['want'] = [['E', 'ZeroDivisionError'] if x == 'E' else ['R', enc(x)] for x in c['rows']]
            cmds.append(dict(e, obs=obs))
        recorded.append({'cmds': cmds, 'init': []})
    path = vf.json_file(recorded, ch.scratch)
    t = vf.tlc('ApiTrace', env={'TRACE': path})
    ch.traces(t, len(recorded))
    ch.count('pipelines', sum(len([c for c in s['cmds'] if 'mode' in c]) for s in recorded))
    ch.count('unspecified', len(t.lines('UNSPEC')))
    for b in sorted(t.lines('BAD'), key=lambda b: len(json.dumps(recorded[b['sid'] - 1]['cmds'][b['k'] - 1]))):
        s, k = b['sid'] - 1, b['k'] - 1
        o = results[s]['results'][k]
        what = f'{b["clause"]}: {text(specs[s]["steps"][k])}   expected {core.show_items(b["expected"])} observed {[core.show_items(p) for p in recorded[s]["cmds"][k]["obs"]["parts"]]} n={o["n"]} err={o["err"].strip()[:100]!r} exc={o.get("exc")}'
        ch.violation(what, {'steps': specs[s]['steps'][:k + 1], 'verdict': b, 'observed': o})
    for s in specs[:2]:
        ch.sample({'steps': s['steps'][5:8], 'observed': results[specs.index(s)]['results'][5:8]})
