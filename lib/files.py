"""Sessions writing and reading files (spec/Files.tla): generation, rendering, observation."""
import ast, re
import core, vf
from core import enc, dec

STARTUP = '''
def obs(*x):
    def plain(v):
        if v is None or isinstance(v, (int, str)): return v
        if type(v) in (tuple, list): return type(v)(plain(e) for e in v)
        return str(v)
    if len(x) == 1 and hasattr(x[0], '_fields'):
        return ascii(('N', x[0]._fields, tuple(plain(v) for v in x[0])))
    return ascii(('R', tuple(plain(v) for v in x)))
'''
OBS = 'map (*x: obs(*x))'
NAMES = {1: 'f1', 2: 'f2', 3: 'f3', 4: 'f4.csv'}
MISSING = 'nodir/f'

def fmt_text(parts):
    return ''.join(t[1].replace('{', '{{').replace('}', '}}') if t[0] == 't' else '{%d}' % (t[1] - 1) for t in parts)

def enc_fmt(fmt):
    return [fmt[0]] + ([[[p[0], [ord(c) for c in p[1]] if p[0] == 't' else p[1]] for p in fmt[1]]] if fmt[0] == 'format' else [])

def flags(fmt, style):
    return {'default': '', 'csv': ('-c ', '--csv ')[style], 'tsv': ('-t ', '--tsv ')[style], 'pickle': ('-p ', '--pickle ')[style]}.get(fmt[0]) \
        if fmt[0] != 'format' else ('-f ', '--format ')[style] + repr(fmt_text(fmt[1])) + ' '

def pathname(p): return NAMES.get(p, MISSING)

def write_op(w):
    if w['style'] == 2 and w['fmt'] == ['default']: return (' >> ' if w['append'] else ' > ') + pathname(w['path'])
    s = w['style'] % 2
    return ' | write ' + flags(w['fmt'], s) + (('-a ', '--append ')[s] if w['append'] else '') + pathname(w['path'])

def render(c):
    """A step of a session"""
    if c['c'] == 'raw': return {'py': f'open({pathname(c["path"])!r}, "w", newline="", encoding="utf-8").write({c["text"]!r})'}
    if c['c'] == 'bytes':
        return {'py': f'import os\nS.result = ascii(open({pathname(c["path"])!r}, newline="", encoding="utf-8", errors="replace").read(100000)) if os.path.exists({pathname(c["path"])!r}) else None'}
    if c['c'] == 'write':
        # the rows are written by the session itself: what they are is not the question here
        items = c['rows']
        src = f'gen {len(items)} | map (_i: R[_i])' if items else 'gen 1 | select (_i: False)'
        if any(i is ERR for i in items): src = f'gen {len(items)} | map (_i: R[_i] if R[_i] != "ERR!" else 1 // 0)'
        t = src
        for w in c['ops']: t += write_op(w)
        last = c['ops'][-1]
        if last['style'] != 2 or last['fmt'] != ['default']: t += ' | ' + OBS
        return {'rows': [i if i is not ERR else 'ERR!' for i in items], 'cmd': t}
    if c['c'] == 'repeat':
        return {'cmd': f'gen {c["n"]} | args (| _i: gen {c["m"]} (_i * 10){write_op(dict(c["op"], style=0))} |) | {OBS}'}
    if c['c'] == 'read':
        o = c['o']
        s = c['style']
        f = {'default': '', 'csv': ('-c', '--csv')[s], 'tsv': ('-t', '--tsv')[s], 'pickle': ('-p', '--pickle')[s]}[o['fmt']]
        parts = [f] + [x for b, x in ((o['headings'], ('-h', '--headings')[s]), (o['skip'], ('-s', '--skip-headings')[s]), (o['label'], ('-l', '--label')[s])) if b]
        names = [pathname(p) for p in c['p']]
        if c['pipe']: return {'cmd': f'ls {" ".join(names)} | read {" ".join(x for x in parts if x)} | {OBS}'}
        if c.get('redir'): return {'cmd': f'{names[0]} < {OBS}'}
        if c.get('expr'): names = [f'({n!r})' for n in names]
        return {'cmd': f'read {" ".join(x for x in parts + names if x)} | {OBS}'}
    raise ValueError(c)

ERR = object()

def items(text):
    """The text of an Error may have several lines."""
    out = []
    for l in text.split('\n')[:-1]:
        if l.startswith(('Error: ', "('R', ", "('N', ")) or not out or not out[-1].startswith('Error: '): out.append(l)
    return [item(l) for l in out]

def item(line):
    if line.startswith('Error: '): return ['E']
    v = ast.literal_eval(line)
    if type(v) is not tuple: raise ValueError(v)
    # an Error in a pickle file comes back as a value, one in a text file as a line
    if v[0] == 'R': return ['R', enc(error_text(v[1]))]
    return ['N', [[ord(c) for c in n] for n in v[1]], enc(error_text(v[2]))]

def error_text(row):
    return tuple(re.sub('Error: Running.*', 'E!', e) if isinstance(e, str) else e for e in row)

def observe(c, r):
    o = {'kill': False, 'crash': 'exc' in r, 'items': []}
    if o['crash']: return o
    if c['c'] == 'bytes':
        o['items'] = [['R', enc((re.sub('Error: Running.*', 'E!', ast.literal_eval(r['res'])),))]] if r['res'] is not None else [['E']]
        return o
    try:
        o['items'] = items(r['out'])
    except (ValueError, SyntaxError, TypeError, IndexError):
        o['crash'] = True
    o['kill'] = bool(r['err'].strip())
    return o

def spec_form(c):
    c = dict(c)
    if c['c'] == 'raw': return {'c': 'raw', 'path': c['path'], 'codes': [ord(x) for x in c['text']]}
    if c['c'] == 'bytes': return {'c': 'bytes', 'path': c['path']}
    w = lambda o: {'fmt': enc_fmt(o['fmt']), 'append': o['append'], 'path': o['path']}
    if c['c'] == 'write':
        quiet = c['ops'][-1]['style'] == 2 and c['ops'][-1]['fmt'] == ['default']
        return {'c': 'write', 'quiet': quiet, 'writes': [w(o) for o in c['ops']], 'items': [['E'] if r is ERR else ['R', enc(r if type(r) in (tuple, list) else (r,))] for r in c['rows']]}
    if c['c'] == 'repeat': return {'c': 'repeat', 'n': c['n'], 'm': c['m'], 'write': w(c['op'])}
    return {'c': 'read', 'opts': c['o'], 'paths': c['p'], 'names': [[ord(x) for x in NAMES[p]] for p in sorted(NAMES)]}


class Gen:
    CHARS = 'aab1"\',\t\n\r é\\ ,""{'
    def __init__(self, rng): self.rng = rng
    def pick(self, xs): return self.rng.choice(xs)
    def chance(self, p): return self.rng.random() < p
    def text(self, maxn=4, chars=None):
        return ''.join(self.pick(chars or self.CHARS) for _ in range(self.rng.randrange(maxn + 1)))
    def value(self):
        r = self.rng.random()
        if r < .6: return self.text()
        if r < .75: return self.rng.randrange(-20, 200)
        if r < .83: return None
        if r < .88: return self.chance(.5)
        if r < .94: return (self.text(2), self.rng.randrange(5))
        return [self.rng.randrange(5), self.text(2)]
    def row(self, width=None):
        n = width if width is not None else self.rng.randrange(4)
        t = tuple(self.value() for _ in range(n))
        return list(t) if self.chance(.1) else t
    def rows(self):
        n = self.pick([0, 1, 1, 2, 3, 4])
        if self.chance(.5):
            w = self.pick([1, 2, 3])
            return [self.row(w) for _ in range(n)]
        return [self.row() for _ in range(n)]
    def fmt(self, f=None):
        f = f or self.pick(['default', 'csv', 'csv', 'tsv', 'pickle', 'format'])
        if f != 'format': return [f]
        parts = [['t', self.text(2, 'ab, {}"é-')]]
        for _ in range(self.rng.randrange(3)): parts += [['a', self.rng.randrange(1, 4)], ['t', self.text(2, 'ab, {}"-')]]
        # an empty format is no format
        return ['format', parts] if fmt_text(parts) else ['format', [['t', '-']]]
    def write_ops(self, kind):
        n = self.pick([1, 1, 1, 2])
        paths = self.rng.sample([1, 2, 3, 4], n)
        return [{'fmt': self.fmt(kind.get(p) if self.chance(.85) else None), 'append': self.chance(.45), 'path': p, 'style': self.rng.randrange(3)} for p in paths]
    def raw(self):
        r = self.rng.random()
        if r < .4: return self.text(14, 'aab,,"\n\t\r"')
        if r < .5: return self.text(10, 'a\n\n')
        # something with headings
        d = self.pick([',', '\t'])
        n = self.rng.randrange(1, 4)
        head = d.join(self.pick(['a', 'b', 'c', ' a', 'b ', 'a b', 'é', 'c+', '1', '_a', 'if', '', 'LABEL', '"a"', '"b,c"', 'a1', 'A']) for _ in range(n))
        body = [d.join(self.pick(['x', '1', '"', '"x,y"', '"x\ny"', '', 'y z', '"q""r"']) for _ in range(max(0, n + self.pick([0, 0, 0, -1, 1])))) for _ in range(self.rng.randrange(4))]
        return self.pick(['\n', '\n', '\n', '\r\n']).join([head] + body) + self.pick(['\n', ''])
    def session(self, n):
        out = []
        kind = {1: self.pick(['csv', 'tsv']), 2: self.pick(['default', 'csv', 'format']), 3: 'pickle', 4: self.pick(['csv', 'tsv', 'default'])}
        # reading the format, mostly
        def rfmt(p):
            k = kind[p]
            return 'default' if k == 'format' else k
        for _ in range(n):
            r = self.rng.random()
            if r < .4:
                rows = self.rows()
                ops = self.write_ops(kind)
                if self.chance(.2): rows = rows + [ERR] + self.rows()
                for o in ops:
                    if o['fmt'][0] in ('default', 'csv', 'tsv', 'pickle'): kind[o['path']] = o['fmt'][0]
                    elif o['fmt'][0] == 'format': kind[o['path']] = 'default'
                if self.chance(.04): ops = [dict(ops[0], path=0)]
                for o in ops[:-1]:
                    if o['style'] == 2: o['style'] = 1
                out.append({'c': 'write', 'rows': rows, 'ops': ops})
                ps = [o['path'] for o in ops if o['path']]
                if self.chance(.5) and ps: out.append({'c': 'bytes', 'path': self.pick(ps)})
            elif r < .5:
                p = self.pick([1, 2, 4])
                kind[p] = self.pick(['csv', 'tsv', 'default'])
                out.append({'c': 'raw', 'path': p, 'text': self.raw()})
            elif r < .57:
                p = self.pick([1, 2, 3, 4])
                f = self.fmt(kind[p] if self.chance(.8) else None)
                if f[0] != 'format': kind[p] = f[0]
                out.append({'c': 'repeat', 'n': self.rng.randrange(1, 4), 'm': self.rng.randrange(1, 4), 'op': {'fmt': f, 'append': self.chance(.6), 'path': p, 'style': 0}})
                out.append({'c': 'bytes', 'path': p})
            p = self.pick([1, 2, 3, 4])
            f = rfmt(p) if self.chance(.9) else self.pick(['default', 'csv', 'tsv', 'pickle'])
            ps = [p] if self.chance(.55) else [q for q in self.rng.sample([1, 2, 3, 4], 4) if rfmt(q) == f or self.chance(.08)] or [p]
            if self.chance(.1): ps = ps + [self.pick(ps)]
            delim = f in ('csv', 'tsv')
            hs = self.pick(['', '', 'h', 's', 'h']) if delim else self.pick([''] * 30 + ['h', 's'])
            o = {'fmt': f, 'headings': hs == 'h', 'skip': hs == 's' or (hs == 'h' and self.chance(.03)), 'label': self.chance(.35)}
            c = {'c': 'read', 'o': o, 'p': ps, 'style': self.rng.randrange(2), 'pipe': len(set(ps)) == len(ps) and self.chance(.2), 'expr': self.chance(.1)}
            if o == {'fmt': 'default', 'headings': False, 'skip': False, 'label': False} and len(ps) == 1 and self.chance(.4): c['redir'] = True
            out.append(c)
        return out


def check(ch, n_sessions, n_cmds=25):
    g = Gen(ch.rng)
    sessions = [g.session(n_cmds) for _ in range(n_sessions)]
    steps = []
    for s in sessions:
        st = []
        for c in s:
            x = render(c)
            if 'rows' in x:
                st.append({'py': f'S.env.setvar("R", {x["rows"]!r})'})
                x = {'cmd': x['cmd']}
            else: st.append({'py': 'pass'})
            st.append(x)
        steps.append(st)
    rs = vf.run_sessions([{'id': n, 'steps': st, 'startup': STARTUP} for n, st in enumerate(steps)])
    recorded = []
    for s, st, r in zip(sessions, steps, rs):
        doc = []
        for k, c in enumerate(s):
            if 2 * k + 1 >= len(r['results']):
                ch.violation(f'files: session ended abnormally at {st[2 * k + 1]}: {r.get("fail")}', {'steps': st, 'fail': r.get('fail')})
                break
            doc.append(dict(spec_form(c), obs=observe(c, r['results'][2 * k + 1])))
        recorded.append(doc)
    t = vf.tlc('FilesTrace', env={'TRACE': vf.json_file(recorded, ch.scratch)})
    ch.traces(t, len(recorded))
    ch.count('commands', sum(map(len, recorded)))
    ch.count('unspecified', len(t.lines('UNSPEC')))
    ch.count('refused', sum(1 for s in recorded for c in s if c['obs']['kill']))
    for b in sorted(t.lines('BAD'), key=lambda b: b['k']):
        i, k = b['sid'] - 1, b['k'] - 1
        o = rs[i]['results'][2 * k + 1]
        ch.violation(f'files: {b["clause"]}: {steps[i][2 * k + 1]} {sessions[i][k].get("rows", "")}  expected {show(b["expected"])} kill={b["kill"]!r}, observed {o}',
                     {'steps': steps[i][:2 * k + 2], 'expected': show(b['expected']), 'observed': o})
    ch.sample([x for x in steps[0] if x.get('py') != 'pass'][:8])

def show(items):
    def s(codes): return ''.join(map(chr, codes))
    return [i[0] if i[0] == 'E' else repr(dec(i[1])) if i[0] == 'R' else (tuple(s(n) for n in i[1]), dec(i[2])) for i in items]
