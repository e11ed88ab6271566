"""B01: external programs in pipelines. What a program does is a sequence of steps (Bash.tla); harness/extprog.py does it
with units of real size, and what the pipeline and the program saw of each other is judged by BashTrace.tla."""
import json, os, random, re, shlex
import shells, vf

EXT, SHOW = (os.path.join(vf.VERIF, 'harness', f) for f in ('extprog.py', 'showargs.py'))
SIZES = [(1, 3), (1, 3), (2, 0), (3, 40), (1, 70000), (1, 200000), (900, 90), (9000, 2)]   # lines in a unit, length
NOTE = "map (*x: open('OUT', 'a').write(str(x[0])[:20] + ' ' + str(len(x[0]) if len(x) == 1 else -1) + chr(10)))"


def units(lines, m, pad, extra=0, cut=False):
    """lines, as 'prefix length', to units. cut: the last unit may be incomplete, it does not count then"""
    out, n = [], 0
    while n < len(lines):
        g = re.match(r'([in])(\d+):0:', lines[n])
        if g:
            want = [f'{g[1]}{g[2]}:{i}:' + 'x' * pad for i in range(m)]
            if [f'{w[:20]} {len(w) + extra}' for w in want] == lines[n:n + m]:
                out.append(['in' if g[1] == 'i' else 'new', int(g[2])])
                n += m
                continue
            if cut and [f'{w[:20]} {len(w) + extra}' for w in want[:len(lines) - n]] == lines[n:]: return out
        out.append(['bad', n])
        n = next((k for k in range(n + 1, len(lines)) if re.match(r'[in]\d+:0:', lines[k])), len(lines))
    return out


def case(rnd, n):
    prog = [rnd.choice('rRpppecccCCxb' if rnd.random() < .3 else 'rRpppecccCC') for _ in range(rnd.randrange(6))]
    if rnd.random() < .25: prog = rnd.choice([['C'], ['C'], ['p', 'C'], ['c', 'x', 'p'], ['R', 'p', 'p'], ['e', 'C', 'e'], ['c'], ['p'] * 5])
    if 'b' in prog and prog.index('b') < len(prog) - 1: prog.remove('b')
    c = {'kind': 'pipe', 'prog': prog, 'n': rnd.choice([0, 1, 1, 2, 3, 4, 6, 8]), 'first': False, 'upfail': False, 'downfail': 0, 'times': 1}
    where = rnd.choice(['mid', 'mid', 'mid', 'first', 'last', 'args', 'case', 'var', 'two', 'union', 'up', 'down', 'down'])
    # what is printed by the shell is limited in size
    m, pad = rnd.choice(SIZES[:4] if where == 'last' else SIZES[:5] + SIZES[6:7] if 'e' in prog else SIZES)
    row = f"'i%d:%d:%s' % (x[0] // {m} + 1, x[0] % {m}, 'x' * {pad})"
    if where == 'first': c.update(n=0, first=True)
    if where == 'up': c['upfail'] = True
    if where == 'down': c['downfail'] = rnd.randrange(1, 4)
    src = f'gen {c["n"] * m} | map (*x: {row})' if c['n'] else 'gen 1 | select (*x: False)'
    if c['upfail']: src = f'gen {c["n"] * m + 1} | map (*x: {row} if x[0] < {c["n"] * m} else [x[0]]) | unique'
    plan = {'m': m, 'pad': pad, 'steps': prog, 'open_end': rnd.random() < .3, 'status': rnd.choice([0, 0, 1, 3])}
    program = f'/usr/bin/python3 {EXT} plan{n}.json log{n}'
    program = {0: program, 1: f'bash {program}', 2: f'bash "{program}"'}[rnd.randrange(3)]
    note = NOTE.replace('OUT', f'out{n}') + ' | select (*x: False)'
    pipes = {'mid': f'{src} | {program} | {note}', 'first': f'{program} | {note}', 'last': f'{src} | {program}',
             'up': f'{src} | {program} | {note}',
             'down': f'{src} | {program} | map (*x: [x[0]] if pos() >= {(c["downfail"] - 1) * m} else x[0]) | unique | {note}',
             'args': f'gen 2 | args (| u: {src} | {program} |) | {note}',
             'case': f'{src} | case (*x: True) (| {program} |) | {note}',
             'var': f'prog (| {program} |) | {note}' if False else f'{src} | thru (| {program} |) | {note}',
             'two': f'{src} | {program} | bash cat | {note}',
             'union': f'gen 0 1 | head 0 | union (| {src} | {program} |) | {note}' if False else f'gen 1 | select (*x: False) | union (| {src} | {program} |) | {note}'}
    if where == 'args': c['times'] = 2
    if where == 'two' and ('b' in prog or not (c['n'] or prog)): where = 'mid'
    c.update(where=where, cmd=pipes[where], m=m, pad=pad)
    return c, plan


CHARS = ['a', 'b', ' ', '  ', '\t', '"', "'", '\\', '$HOME', '*', '?', '|', '(', ')', '#', ';', '&', '>', '<', '!', '~', '{a,b}', '[', ']', '\r', 'é', '日本', '\x01', '-n', '%s', '`', '=', ',', ':']


def text(rnd, extra=()):
    return ''.join(rnd.choice(CHARS + list(extra)) for _ in range(rnd.randrange(6)))


def value(rnd, depth):
    """a value other than a text of any kind, as BashTrace has it, and its Python text"""
    k = rnd.randrange(6 if depth else 4)
    if k < 2: m = rnd.choice([0, 1, 7, 10, -3, -25, 1234]); return {'k': 'i', 'n': m}, str(m)
    if k == 2: t = rnd.choice(['', 'a', 'b c', 'é', '0', '()']); return {'k': 's', 's': [ord(c) for c in t]}, repr(t)
    if k == 3: return {'k': 'none'}, 'None'
    return seq(rnd, depth - 1)


def seq(rnd, depth):
    of = [value(rnd, depth) for _ in range(rnd.choice([0, 1, 1, 2, 2, 3]))]
    k = rnd.choice('tl')
    inner = ', '.join(t for _, t in of)
    return {'k': k, 'of': [v for v, _ in of]}, f'[{inner}]' if k == 'l' else f'({inner}{"," if len(of) == 1 else ""})'


def row(rnd):
    if rnd.random() < .3: return seq(rnd, 2)
    if rnd.random() < .2: return value(rnd, 1)
    t = text(rnd, ['\n', '\\n'])
    return {'k': 's', 's': [ord(c) for c in t]}, repr(t)


def text_case(rnd, n):
    rows = [row(rnd) for _ in range(rnd.randrange(1, 6))]
    cmd = f"gen {len(rows)} | map (*x: [{', '.join(t for _, t in rows)}][x[0]]) | {rnd.choice(['cat', 'bash cat', 'bash -c cat' if False else 'cat -u', 'bash cat | cat'])} | " \
          f"map (*x: open('out{n}', 'a').write(repr([ord(c) for c in x[0]]) + chr(10))) | select (*x: False)"
    return {'kind': 'text', 'rows': [v for v, _ in rows], 'cmd': cmd}


FILES = ['a', 'ab', 'abc', 'b c', '.ah', 'x.y', 'd']   # in no order that matters; d is a directory
def args_case(rnd, n):
    words = []
    for _ in range(rnd.randrange(1, 5)):
        w = ''
        for _ in range(rnd.choice([1, 1, 1, 2, 3])):
            t = ''.join(rnd.choice(['a', 'b', 'c', ' ', '  ', "'", '"', '\\', '$x', '*', '?', '|', '(', ')', '#', ';', '&', '>', '<', '!', '~', '{a,b}', '[', ']', 'é', '-n', '`', '=', ':', '(|', '|)'])
                        for _ in range(rnd.randrange(4)))
            style = rnd.randrange(4)
            if style == 0: w += "'" + t.replace("'", '') + "'"
            elif style == 1: w += '"' + re.sub(r'([\\"$`])', r'\\\1', t) + '"'
            elif style == 2: w += ''.join(ch if ch in 'abcé-nx:' else '\\' + ch for ch in t.replace('\n', ''))
            else: w += rnd.choice(['a', 'ab*', '*', '?', 'a?', 'b', 'q*', '*.*', 'x', '--a=b', '-v', '0', '1.5', 'a:b', 'a,b', '%', '@', '+', './a', 'a/b'])
        words.append(w)
    t = rnd.choice([' ', ' ', '  ']).join(words)
    return {'kind': 'args', 'text': [ord(c) for c in t], 'files': [[ord(c) for c in f] for f in sorted(FILES)],
            'cmd': f'/usr/bin/python3 {SHOW} {t}'}


def steps_of(c, plan, n):
    out = []
    if plan: out.append({'py': f'open("plan{n}.json", "w").write({json.dumps(plan)!r})'})
    return out + [{'cmd': c['cmd']}, {'cmd': 'map (70 + 7)'},
                  {'py': f'import os\nS.result = [open(f, newline="").read() if os.path.exists(f) else "" for f in ("out{n}", "log{n}")]'}]


def observe(c, n, o, after, files):
    """the case with what was observed"""
    c = dict(c, hang=o.get('exc') == 'TIMEOUT', crash=bool(o.get('exc')) and o.get('exc') != 'TIMEOUT')
    if c['kind'] == 'text':
        c['out'] = [json.loads(l) for l in files[0].split('\n')[:-1]]
        c['crash'] = c['crash'] or bool(o['err'].strip())
        return c
    if c['kind'] == 'args':
        g = re.search(r'^ARGV (.*)$', o['out'], re.M)
        c['argv'] = json.loads(g[1]) if g else [[0]]
        return c
    m, pad = c['m'], c['pad']
    lines = [l for l in o['out'].split('\n')[:-1]]
    brief = lambda l: f'{l[:20]} {len(l)}'
    cut = c['upfail'] or c['downfail'] > 0
    c['err'] = units([brief(l[7:]) for l in lines if l.startswith('Error: ')], m, pad, 0, cut)
    c['out'] = units([brief(l) for l in lines if not l.startswith('Error: ')] if c['where'] == 'last' else files[0].split('\n')[:-1], m, pad, 0, cut)
    c['runs'] = [{'units': units(r['lines'], m, pad, 1), 'eof': r['eof']} for r in map(json.loads, files[1].split('\n')[:-1])]
    c['reported'] = 'not hashable' in o['err']
    c['usable'] = after.get('out') == '77\n' and not after.get('exc')
    return c


THRU = 'thru = (| prog: prog |)'


def judge(ch, cases, what):
    fields = {'pipe': 'kind prog n first upfail downfail times hang crash err out runs reported usable', 'text': 'kind rows hang crash out',
              'args': 'kind text files hang crash argv'}
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        path = vf.json_file([{k: c[k] for k in fields[c['kind']].split()} for c, _ in cases], d)
        t = vf.tlc('BashTrace', workers=1, env={'BASH_TRACE': path})
    ch.traces(t, len(cases))
    for line in t.lines('VERDICT'):
        v = line['v']
        c, o = cases[line['i'] - 1]
        ch.violation(f'{v} ({what}): {c["cmd"][:300]}   steps={"".join(c.get("prog", ""))} n={c.get("n")} where={c.get("where")} '
                     f'out={str(c.get("out", c.get("argv")))[:120]} runs={str(c.get("runs"))[:160]} err={o["err"][:200]!r} exc={o.get("exc")}',
                     {'case': c, 'observed': {k: str(x)[:2000] for k, x in o.items()}})


def check(ch, num, in_shell):
    rnd = random.Random(vf.SEED)
    plans, n = [], 0
    for _ in range(num):
        p = []
        for k in range(12):
            x = rnd.random()
            p.append((*case(rnd, n), n) if x < .55 else (text_case(rnd, n), None, n) if x < .75 else (args_case(rnd, n), None, n))
            n += 1
        plans.append(p)
    mk = {'py': f'for f in {FILES[:-1]!r}: open(f, "w").close()\nimport os\nos.mkdir("d")'}
    # the text of arguments must not depend on the files of the other cases
    specs = [{'id': k, 'session_timeout': 300, 'timeout': 25,
              'steps': [mk, {'cmd': THRU}] + [s for c, plan, n in p for s in (
                  [{'cmd': 'cd d'}] if c['kind'] != 'args' else []) + steps_of(c, plan, n) + ([{'cmd': 'cd ..'}] if c['kind'] != 'args' else [])]}
             for k, p in enumerate(plans)]
    rs = vf.run_sessions(specs)
    cases = []
    for p, r in zip(plans, rs):
        res, at = r['results'], 2
        for c, plan, n in p:
            at += (1 if plan else 0) + (c['kind'] != 'args')
            if at + 2 >= len(res):
                ch.violation(f'session ended: {c["cmd"][:300]} ({r.get("fail")})', {'case': c})
                break
            cases.append((observe(c, n, res[at], res[at + 1], res[at + 2].get('res') or ['', '']), res[at]))
            at += 3 + (c['kind'] != 'args')
    judge(ch, cases, 'session')
    for k in ('pipe', 'text', 'args'): ch.count(k + '_commands', sum(1 for c, _ in cases if c['kind'] == k))
    ch.sample([c['cmd'][:160] for c, _ in cases][:6])
    shell(ch, in_shell, rnd)


def shell(ch, num, rnd):
    """the real shell, which runs the commands as jobs"""
    specs, plans, n = [], [], 0
    for _ in range(num):
        p, files, commands = [], [(f, '') for f in FILES], [THRU]
        for _ in range(6):
            c, plan = case(rnd, n) if rnd.random() < .6 else (text_case(rnd, n), None)
            if plan: files.append((f'plan{n}.json', json.dumps(plan)))
            p.append((c, n))
            commands += [c['cmd'], 'map (70 + 7)']
            n += 1
        plans.append(p)
        specs.append({'commands': commands, 'files': files, 'timeout': 250, 'after': lambda root: {
            f: open(f'{root}/cwd/{f}', newline='').read() for f in os.listdir(f'{root}/cwd') if re.match('(out|log)[0-9]', f)}})
    rs = shells.run_shells(specs)
    cases = []
    for p, (res, doc) in zip(plans, rs):
        left = doc.get('after') or {}
        for k, (c, n) in enumerate(p):
            if 2 + 2 * k >= len(res):
                ch.violation(f'the shell ended: {c["cmd"][:300]} (rc {doc.get("rc")}, timeout {doc.get("timeout")})', {'case': c})
                break
            cases.append((observe(c, n, res[1 + 2 * k], res[2 + 2 * k], [left.get(f'out{n}', ''), left.get(f'log{n}', '')]), res[1 + 2 * k]))
    judge(ch, cases, 'shell')
    ch.count('shell_commands', len(cases))
