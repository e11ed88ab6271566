"""Commands as text (spec/Text.tla): generation of texts, running them, judging what they did with spec/TextTrace.tla."""
import json, os, re, shutil
import core, vf
from core import enc

OPS = ['gen', 'map', 'select', 'head', 'tail', 'reverse', 'unique', 'sort', 'squish', 'expand', 'args', 'union', 'difference',
       'intersect', 'load', 'store', 'window', 'join', 'case', 'filter', 'red']
NAMES = ['va', 'vb', 'vc', 'u', 'v', 'fa', 'fb', 'pa', 'pb', 'pc', 'rs', 'rt', 'undef']
FILES = ['f1', 'f2', 'f 3', 'none']
OTHER_OPS = {'assign', 'bash', 'bg', 'cd', 'dirs', 'download', 'edit', 'env', 'exit', 'fg', 'fork', 'help', 'history', 'import', 'jobs', 'ls',
             'popd', 'ps', 'pushd', 'pwd', 'read', 'remote', 'run', 'sql', 'sudo', 'timer', 'trace', 'upload', 'version', 'write', 'ws', 'gather', 'first'}
C = lambda v: ['c', enc(v)]
A0 = ['a', 0]
VALS = [('1 + 2', ['+', C(1), C(2)]), ('2', C(2)), ('va', ['v', 'va']), ('(va)', ['v', 'va']), (' vb ', ['v', 'vb']), ("'a)b'", C('a)b')),
        ('"(" + "|)"', C('(|)')), ('\'\'\'q\'"#\'\'\'', C('q\'"#')), ('"\\")"', C('")')), ("len('((')", C(2)), ("'it\\'s ('", C("it's (")),
        ("['#'][0]", C('#')), ('{1: (2, 3)}[1][0]', C(2)), ('"""a"b)"""', C('a"b)')), ('lambda: (va)', ['v', 'va']), ('"\\\\"', C('\\')), (': va', ['v', 'va']),
        ('0 - va', ['+', C(0), ['*', C(-1), ['v', 'va']]]), ('u', ['v', 'u']), ('va // 0', ['//', ['v', 'va'], C(0)]),
        ('"#=>,"', C('#=>,')), ("''", C(''))]
FNS = [('*x: x[0]', A0), ('*x: (x[0], len(x))', ['t', [A0, ['len']]]), ('lambda *x: len(x)', ['len']), ('*x: (x[0] + va) % 3', ['%', ['+', A0, ['v', 'va']], C(3)]),
       ('*x: (x[0] + 1) % 2', ['%', ['+', A0, C(1)], C(2)]), ("*x: x[0] if '(' else 0", A0), ('*x: u', ['v', 'u']), ('*x: (u, v)', ['t', [['v', 'u'], ['v', 'v']]]),
       ('*x: (u, x[0])', ['t', [['v', 'u'], A0]]), ('*x: [x[0], va]', ['l', [A0, ['v', 'va']]]), ('*x: len("|)")', C(2)),
       ('*x, y=2: x[0]', A0), ("lambda *x, y={0: ')', 1: (2, 3)}: x[0]", A0), ('  *x, y=lambda a, b=1: 7, **z: len(x)', ['len']),
       ('*x: (x[0] + u) % 2', ['%', ['+', A0, ['v', 'u']], C(2)])]
SHOWS = ['*x: repr(x)', 'lambda *x: repr(x)', ' *x: (repr(x)) ']
TABLES = {'words': [{'w': w, 'codes': [ord(c) for c in w]} for w in OPS + NAMES],
          'exprs': [{'codes': [ord(c) for c in t], 'kind': kind, 'e': e}
                    for kind, xs in (('fn', [('*x: x[0] == u', ['==', A0, ['v', 'u']])]), ('val', [v for v in VALS if not v[0].startswith(('lambda', ':'))]), ('fn0', [v for v in VALS if v[0].startswith(('lambda', ':'))]), ('fn', FNS), ('show', [(s, ['none']) for s in SHOWS])) for t, e in xs]}
SYMS = ['(|', '|)', '|', '=', ',', ':', '>', '>>', '>$', '>>$', '<', '<$']
SPECIAL = set(' \t\n()|=,:<>#\'"\\')
ORDER = {n: k for k, n in enumerate(['fa', 'fb', 'pa', 'pb', 'pc'])}


class TextGen:
    def __init__(self, rng): self.rng = rng
    def chance(self, p): return self.rng.random() < p
    def pick(self, xs): return self.rng.choice(xs)

    # --- tokens: ('part', text) and ('sym', text)
    def quote(self, v):
        """some way of writing the string v"""
        if v == '': return self.pick(["''", '""'])
        out, i = '', 0
        while i < len(v):
            j = i + self.rng.randrange(1, 4) if self.chance(.5) else len(v)
            s, style = v[i:j], self.pick(['raw', 'sq', 'dq', 'dq'])
            if style == 'sq' and "'" in s: style = 'dq'
            if style == 'sq': out += "'" + s + "'"
            elif style == 'dq':
                t = ''
                for n, c in enumerate(s):
                    if c == '"': t += '\\"'
                    elif c == '\\': t += '\\\\' if n + 1 == len(s) or s[n + 1] in '"\\' or self.chance(.5) else '\\'
                    else: t += c
                out += '"' + t + '"'
            else:
                out += ''.join('\\' + c if c in SPECIAL or (c in '!@-' and not out) or self.chance(.1) else c for c in s)
            i = j
        return out
    def plain(self, v):
        return v if v and not (set(v) & SPECIAL) and v[0] not in '!@-' and self.chance(.6) else self.quote(v)
    def value(self):
        if self.chance(.3): return self.pick(['a', 'ab', 'a b', "it's", 'x=1', '#', '(|', 'a|b', '\\', '3', '-', '-u', 'c:d', '!', '@h', '"', '$', '', ' ', 'a\\', '\t'])
        return ''.join(self.pick('ab z\'"\\|#=(),:<>$!@-\u00e9*{}\n\t' if self.chance(.7) else 'abc') for _ in range(self.rng.randrange(0, 6)))
    def expr(self, xs): return ('part', '(' + self.pick(xs)[0] + ')')
    def show(self): return ('part', '(' + self.pick(SHOWS) + ')')
    def w(self, t): return ('part', t)
    def s(self, t): return ('sym', t)
    def cat(self):
        t, last = '', None
        for _ in range(self.rng.randrange(2, 4)):
            if self.chance(.5): t += '(' + self.pick(VALS)[0] + ')'
            else:
                q = self.quote(self.value())
                t += q
        return ('part', t)
    def arg(self):
        k = self.rng.random()
        if k < .55: return [self.w(self.plain(self.value()))]
        if k < .75: return [self.expr(VALS)]
        if k < .9: return [self.cat()]
        return self.lit()
    def lit(self, params=None):
        if params is None: params = self.pick([[], [], ['u'], ['u', 'v']])
        ps = []
        for n, p in enumerate(params): ps += ([self.s(',')] if n else []) + [self.w(p)]
        return [self.s('(|')] + ps + ([self.s(':')] if params else []) + self.pipe(source=self.chance(.8), maxops=1) + [self.s('|)')]
    def source(self):
        k = self.rng.random()
        if k < .5: return [self.w('gen'), self.w(self.pick(['1', '2', '3', '5', '12', '(1 + 2)', '(2)']))] + ([self.w(self.pick(['1', '7', '0']))] if self.chance(.3) else [])
        if k < .6: return [self.w('load'), self.w(self.pick(['rs', 'rt']))]
        if k < .75: return [self.w(self.pick(['pa', 'pb', 'pc']))]
        if k < .85: return [self.expr(VALS)]
        if k < .95: return [self.w(self.pick(['fa', 'fb']))] + [t for _ in range(self.rng.randrange(1, 3)) for t in self.arg()]
        return [self.w('undef')]
    def op(self):
        k = self.pick(['map', 'map', 'select', 'head', 'tail', 'plain', 'plain', 'args', 'union', 'call', 'call', 'case', 'expand', 'difference', 'value'])
        if k == 'map': return ([self.w('map')] if self.chance(.5) else []) + [self.expr(FNS)]
        if k == 'value': return ([self.w('map')] if self.chance(.5) else []) + [self.expr(VALS)]
        if k == 'select': return [self.w('select'), self.expr(FNS)]
        if k in ('head', 'tail'): return [self.w(k), self.w(self.pick('1234'))]
        if k == 'plain': return [self.w(self.pick(['reverse', 'unique', 'sort', 'squish', 'expand']))]
        if k == 'args': return [self.w('args')] + self.lit(self.pick([['u'], ['u', 'v']]))
        if k in ('union', 'difference'): return [self.w(k)] + self.lit([])
        if k == 'case': return [self.w('case'), self.expr(FNS)] + self.lit([])
        if k == 'expand': return [self.w('expand'), self.w(self.pick('01'))]
        return [self.w(self.pick(['fa', 'fb', 'pb', 'pc']))] + [t for _ in range(self.rng.randrange(0, 3)) for t in self.arg()]
    def pipe(self, source=True, maxops=2):
        ops = [self.source()] if source else [self.op()]
        for _ in range(self.rng.randrange(maxops + 1)): ops.append(self.op())
        out = []
        for n, o in enumerate(ops): out += ([self.s('|')] if n else []) + o
        return out
    def file(self): return self.w(self.plain(self.pick(FILES[:3])))
    def sentence(self):
        k = self.rng.random()
        if k < .12: return [self.w(self.pick(['va', 'vb', 'vc'])), self.s('=')] + self.pick([[self.w(self.plain(self.value()))], [self.expr(VALS)], [self.cat()]])
        if k < .18:
            name = self.pick(['pa', 'pb', 'pc'])
            return [self.w(name), self.s('=')] + self.lit()
        if k < .26: return self.pipe() + [self.s(self.pick(['>$', '>>$']))] + [self.w(self.pick(['rs', 'rt']))]
        if k < .34: return self.pipe() + [self.s(self.pick(['>', '>>'])), self.file()]
        if k < .44:   # redirected input
            t = self.pick([[self.w(self.pick(['rs', 'rt'])), self.s('<$')], [self.file(), self.s('<')]])
            if self.chance(.3): t += [tok for tok in self.op()] + [self.s('|')]
            if self.chance(.8): return t + [self.show()]
            return t + self.pick([[], [self.s('>$'), self.w('rt')], [self.s('>'), self.w('f2')], self.op() + [self.s('>$'), self.w('rt')]])
        if k < .60:   # strings, as they arrive
            return [self.w(self.pick(['fa', 'fb']))] + [t for _ in range(self.rng.randrange(1, 3)) for t in self.arg()] + [self.s('|'), self.show()]
        return self.pipe(maxops=3) + [self.s('|'), self.show()]
    def layout(self, toks):
        out = self.pick(['', '', '', ' '])
        for n, (kind, t) in enumerate(toks):
            if n:
                prev = toks[n - 1][0]
                need = .97 if kind == prev == 'part' else .6 if kind == prev == 'sym' else .35
                if t.startswith('(') and prev == 'sym': need = .9
                if self.chance(need): out += self.pick([' ', ' ', ' ', '  ', '\t', ' \t '])
            out += t
        out += self.pick(['', '', '', '', ' ', '\t', ' # c', '#', '# (| " ) | \' x', ' #'])
        return out
    def mutate_tokens(self, toks):
        toks = list(toks)
        for _ in range(self.pick([1, 1, 1, 2])):
            n = self.rng.randrange(len(toks) + 1)
            k = self.pick(['del', 'ins', 'ins', 'dup', 'swap', 'sub'])
            new = self.s(self.pick(SYMS)) if self.chance(.7) else self.pick([self.w(self.pick(NAMES + OPS[1:])), self.expr(VALS), self.expr(FNS), self.w(self.quote(self.value()))])
            if k == 'ins' or not toks: toks.insert(n, new)
            else:
                n = min(n, len(toks) - 1)
                if k == 'del': del toks[n]
                elif k == 'dup': toks.insert(n, toks[n])
                elif k == 'sub': toks[n] = new
                else:
                    m = self.rng.randrange(len(toks))
                    toks[n], toks[m] = toks[m], toks[n]
        return toks
    def mutate_chars(self, text):
        for _ in range(self.pick([1, 1, 2])):
            n = self.rng.randrange(len(text) + 1)
            c = self.pick('()|=,:<>#\'"\\ \'"\\()$')
            k = self.pick(['ins', 'ins', 'del', 'sub'])
            if k == 'ins': text = text[:n] + c + text[n:]
            elif n < len(text) and not text[n].isalnum(): text = text[:n] + ('' if k == 'del' else c) + text[n + 1:]
        return text
    def text(self):
        while True:
            toks = self.sentence()
            k = self.rng.random()
            if k < .3: toks = self.mutate_tokens(toks)
            t = self.layout(toks)
            if k > .82: t = self.mutate_chars(t)
            if safe(t): return t

_which = {}
def executable(w):
    if w not in _which: _which[w] = shutil.which(w) is not None
    return _which[w]

def safe(t):
    """Not a command which would not end, or could run something else than operators and pipelines."""
    for m in re.finditer(r'gen', t):
        if not re.match(r'gen\s+([1-9]\d?\b|\((2|1 \+ 2)\))', t[m.start():]): return False
    for w in set(re.findall(r'[A-Za-z_]\w*', t)) | set(re.findall(r'[^\s()|=,:<>#\'"\\]+', t)):
        if w in OPS or w in NAMES: continue
        if w in OTHER_OPS or executable(w): return False
    # pipelines do not call themselves
    m = re.search(r'(\w+)\s*=\s*\(\|', t)
    if m and any(ORDER.get(w, -1) >= ORDER.get(m.group(1), 99) for w in re.findall(r'\w+', t[m.end():])): return False
    if m and m.group(1) not in ORDER: return False
    return '\n' not in t or True

SETUP = ['va = (1 + 2)', 'vb = "b c"', 'fa = (| u: (*x: u) |)', 'fb = (| u, v: map (*x: (u, v)) |)', 'pa = (| gen 3 |)',
         'pb = (| u: select (*x: x[0] == u) |)', 'gen 3 | (*x: (x[0] + 1) % 2) >$ rs', 'gen 2 > f1']

def codes(t): return [ord(c) for c in t]

def judge(ch, sessions):
    """sessions: lists of texts"""
    specs = [{'id': n, 'steps': [{'cmd': t} for t in ts], 'session_timeout': 400} for n, ts in enumerate(sessions)]
    results = vf.run_sessions(specs)
    recorded = []
    for ts, r in zip(sessions, results):
        cmds = []
        for n, t in enumerate(ts):
            if n >= len(r['results']):
                ch.violation(f'session ended abnormally: {t!r} ({r.get("fail")})', {'commands': ts[:n + 1], 'result': r})
                break
            cmds.append({'text': codes(t), 'obs': core.observe(r['results'][n])})
        recorded.append({'cmds': cmds, 'init': []})
    tables = os.path.join(ch.scratch, 'tables.json')
    with open(tables, 'w') as f: json.dump(TABLES, f)
    t = vf.tlc('TextTrace', env={'TRACE': vf.json_file(recorded, ch.scratch), 'TABLES': tables})
    ch.traces(t, len(sessions))
    ch.count('commands', sum(len(s['cmds']) for s in recorded))
    for k in t.lines('KIND'): ch.count('texts ' + '/'.join(x for x in k if x))
    for b in sorted(t.lines('BAD'), key=lambda b: len(sessions[b['sid'] - 1][b['k'] - 1])):
        s, k = b['sid'] - 1, b['k'] - 1
        obs = results[s]['results'][k]
        ch.violation(f'{b["clause"]}: {sessions[s][k]!r}   expected {core.show_items(b["expected"])} kill={b["kill"]!r}, '
                     f'observed {obs["out"]!r:.200} err={obs["err"].strip()!r:.200} exc={str(obs.get("exc"))[-200:]}',
                     {'commands': sessions[s][:k + 1], 'verdict': b, 'observed': obs})
    return recorded
