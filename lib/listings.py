"""Trees, ls commands, and what they print, for spec/Listing.tla."""
import re
import vf

NOBODY = 65534
NAMES = ['a', 'b', 'c', 'ab', 'b a', 'a.c', '.h', 'C', '10', 'x-y', 'ba', '_d', 'b+']


def perm_string(m): return ''.join(c if m >> (8 - i) & 1 else '-' for i, c in enumerate('rwxrwxrwx'))


def tree(rng, size):
    """[{path, k, r, x, to, perm, size, target}], parents first; links lead anywhere"""
    nodes = {(): {'k': 'd', 'mode': 0o755}}
    dirs = [()]
    denied = rng.random() < .35
    for _ in range(size):
        d = rng.choice(dirs[-4:]) if rng.random() < .6 else rng.choice(dirs)
        if len(d) >= 4: continue
        p = d + (rng.choice(NAMES),)
        if p in nodes: continue
        r = rng.random()
        if r < .38:
            nodes[p] = {'k': 'd', 'mode': rng.choice([0, 0o300, 0o600, 0o500, 0o755]) if denied and rng.random() < .3 else rng.choice([0o755, 0o755, 0o700, 0o750])}
            dirs.append(p)
        elif r < .76: nodes[p] = {'k': 'f', 'mode': rng.choice([0o644, 0o600, 0o755, 0o400, 0]), 'size': rng.randrange(0, 2000)}
        else: nodes[p] = {'k': 'l', 'mode': 0o777}
    links = [p for p in nodes if nodes[p]['k'] == 'l']
    for p in links:
        d = p[:-1]
        r = rng.random()
        if r < .1: target = 'nowhere'
        elif r < .16: target = p[-1]                      # itself
        else:
            t = rng.choice([q for q in nodes if nodes[q]['k'] == 'd' or rng.random() < .3])
            if rng.random() < .2: target = 'ROOT' + ''.join('/' + c for c in t)
            else:
                i = 0
                while i < min(len(d), len(t)) and d[i] == t[i]: i += 1
                target = '/'.join(['..'] * (len(d) - i) + list(t[i:])) or '.'
        nodes[p]['target'] = target
        comps = target.split('/')
        to = [] if comps[0] == 'ROOT' else list(d)
        for c in comps[comps[0] == 'ROOT':]:
            if c == '..': to.pop()
            elif c != '.': to.append(c)
        nodes[p]['to'] = to
    return [{'path': list(p), 'k': n['k'], 'r': bool(n['mode'] & 0o400), 'x': bool(n['mode'] & 0o100), 'to': n.get('to', []), 'perm': perm_string(n['mode']),
             'size': n.get('size', 0), 'target': n.get('target', ''), 'mode': n['mode']} for p, n in sorted(nodes.items(), key=lambda x: len(x[0]))]


def making(nodes):
    return f'''
import os
os.umask(0)
nodes = {[(n['path'], n['k'], n['mode'], n['size'], n['target']) for n in nodes]!r}
for p, k, m, size, target in nodes:
    q = '/'.join(p) or '.'
    if k == 'd': os.path.isdir(q) or os.mkdir(q)
    elif k == 'f': open(q, 'w').write('x' * size)
    else: os.symlink(target.replace('ROOT', os.getcwd()), q)
for p, k, m, size, target in reversed(nodes):
    if k != 'l': os.chmod('/'.join(p) or '.', m)
'''


def pattern(rng, name):
    """a pattern which matches the name, or nearly"""
    r = rng.random()
    i = rng.randrange(len(name))
    if r < .3: return '*'
    if r < .42: return name[:i] + '*' + name[rng.randrange(i, len(name)):]
    if r < .55: return name[:i] + '?' + name[i + 1:]
    if r < .65: return name[:i] + '*'
    if r < .9: return name[:i] + rng.choice(['[{}]', '[!{}]', '[{}z]', '[{}-{}]', '[a-c]', '[!a]', '[A-Z0-9]']).replace('{}', name[i] if name[i] not in '-]!' else 'q') + name[i + 1:]
    return rng.choice(['??', '*[ab]*', '?*', '*.*', '.*', '[ab]*'])


def argument(rng, nodes, cwd):
    """{abs, text}"""
    r = rng.random()
    paths = [n['path'] for n in nodes]
    p = list(rng.choice(paths))
    # through links too
    for _ in range(2):
        if rng.random() < .4:
            ns = [n for n in nodes if n['path'] == p and n['k'] == 'l']
            if ns:
                inside = [q[len(ns[0]['to']):] for q in paths if q[:len(ns[0]['to'])] == ns[0]['to'] and len(q) > len(ns[0]['to'])]
                if inside: p = p + list(rng.choice(inside))
    if r < .08 and p: p[-1] = 'nosuch'
    q = list(p)
    if rng.random() < .45:
        for i in range(len(q)):
            if rng.random() < .5: q[i] = pattern(rng, q[i])
        if rng.random() < .12 and q and not any(n['k'] == 'l' or not (n['r'] and n['x']) for n in nodes): q[rng.randrange(len(q))] = '**'
        if rng.random() < .1: q.append('*')
    ab = rng.random() < .15
    if not ab:
        i = 0
        while i < min(len(cwd), len(q)) and cwd[i] == q[i]: i += 1
        q = ['..'] * (len(cwd) - i) + q[i:]
    out = []
    for c in q:
        if rng.random() < .06: out.append('.')
        if rng.random() < .05: out += [rng.choice(['zz', 'a']), '..']
        out.append(c)
    if not ab and rng.random() < .05: out = ['.'] + out
    return {'abs': ab, 'text': '/'.join(out) or '.'}


def spell(rng, a):
    t = ('ROOT/' if a['abs'] else '') + a['text']
    if t.endswith('/.') and rng.random() < .5: t = t[:-1]
    magic = any(c in t for c in '*?[')
    r = rng.random()
    if r < .15: return f'({t!r})'
    if r < .3 and not magic: return "'" + t + "'"
    if r < .35 and not magic: return '"' + t + '"'
    return t.replace(' ', '\\ ')


def command(rng, nodes, cwd):
    flags = []
    words = []
    if rng.random() < .8:
        d = rng.choice(['0', '1', 'r', 'r', 'r'])
        flags.append(d)
        words.append(rng.choice(['-r', '--recursive']) if d == 'r' else '-' + d)
    for f, k, long in (('f', 'f', 'file'), ('d', 'd', 'dir'), ('s', 'l', 'symlink')):
        if rng.random() < .2:
            flags.append(k)
            words.append(rng.choice([f'-{f}', f'--{long}']))
    rng.shuffle(words)
    short = [w for w in words if len(w) == 2]
    if len(short) == len(words) > 1 and rng.random() < .5: words = ['-' + ''.join(w[1] for w in words)]
    args = [argument(rng, nodes, cwd) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))]
    style = rng.choice(['plain', 'path'])
    text = ' '.join(['ls'] + words + [spell(rng, a) for a in args]) + (' | map (f: str(f.path))' if style == 'path' else '')
    return {'cwd': list(cwd), 'flags': flags, 'args': args, 'style': style}, text


LINE = re.compile(r'^([-dl][-rwx]{9})  +\S+  +\S+ +(\d+)  \d{4} \w{3} [ \d]\d \d\d:\d\d:\d\d  (.*)$')


def items(out, style, root):
    r = []
    for l in out.split('\n')[:-1]:
        if l.startswith('Error'): r.append(['E'])
        elif style == 'path': r.append(['P', l[len(root) + 1:] or '.' if l == root or l.startswith(root + '/') else 'OUTSIDE ' + l])
        else:
            m = LINE.match(l)
            if not m: r.append(['?', l]); continue
            path, _, target = m.group(3).partition('  ->  ')
            r.append(['F', m.group(1), int(m.group(2)) if l[0] == '-' else 0, path, target.replace(root, 'ROOT')])
    return r


def check(ch):
    ch.model(vf.tlc('ListingLaws', 'ListingLawsBig.cfg' if vf.THOROUGH else 'ListingLaws.cfg', timeout=1500), 'ListingLaws: every small tree with links, arguments and flags')
    specs, plans = [], []
    for n in range(vf.scaled(160, 2000)):
        nodes = tree(ch.rng, ch.rng.choice([4, 8, 14, 22]))
        steps = [{'py': making(nodes) + 'S.result = os.getcwd()'}]
        plan = []
        free = [tuple(x['path']) for x in nodes if x['k'] == 'd' and all(y['r'] and y['x'] for y in nodes if y['path'] == x['path'][:len(y['path'])])]
        cwd = ()
        for _ in range(vf.scaled(14, 20)):
            if ch.rng.random() < .2 and () in free:
                cwd = ch.rng.choice(free)
                steps.append({'cmd': "cd 'ROOT" + ''.join('/' + c for c in cwd) + "'"})
                plan.append(None)
            c, text = command(ch.rng, nodes, cwd)
            steps.append({'cmd': text})
            plan.append((c, text))
        specs.append({'id': n, 'uid': NOBODY, 'subst': True, 'steps': steps})
        plans.append((nodes, plan))
    results = vf.run_sessions(specs)
    recorded, where = [], []
    for (nodes, plan), r, spec in zip(plans, results, specs):
        rs = r['results']
        if not rs or 'exc' in rs[0] or len(rs) < len(spec['steps']):
            done = len(rs)
            ch.violation(f'session ended at {spec["steps"][min(done, len(spec["steps"]) - 1)]}: {r.get("fail")}', {'session': spec, 'result': str(r)[:3000]})
            continue
        root = rs[0]['res']
        cmds, wh = [], []
        for x, o, s in zip(plan, rs[1:], spec['steps'][1:]):
            if x is None: continue
            c = dict(x[0], items=items(o['out'], x[0]['style'], root), kill=bool(o['err'].strip()), crash='exc' in o)
            cmds.append(c)
            wh.append((x[1], o))
        recorded.append({'tree': [{k: v for k, v in n.items() if k != 'mode'} for n in nodes], 'cmds': cmds})
        where.append((nodes, wh))
    t = vf.tlc('ListingTrace', env={'TRACE': vf.json_file(recorded, ch.scratch)})
    ch.traces(t, len(recorded))
    ok = t.lines('OK')
    ch.count('commands', sum(len(r['cmds']) for r in recorded))
    ch.count('files_listed', sum(o['n'] for o in ok))
    ch.count('with_errors', sum(o['e'] for o in ok))
    for b in sorted(t.lines('BAD'), key=lambda b: len(where[b['sid'] - 1][0])):
        nodes, wh = where[b['sid'] - 1]
        c = recorded[b['sid'] - 1]['cmds'][b['k'] - 1]
        text, o = wh[b['k'] - 1]
        ch.violation(f'{b["clause"]}: {text} in /{"/".join(c["cwd"])}: expected {b["want"]}, observed {c["items"]} {o["err"].strip()} {o.get("exc", "")}',
                     {'tree': [(n['path'], n['k'], n['perm'], n['target']) for n in nodes], 'command': text, 'in': c['cwd'], 'expected': b['want'], 'observed': o})
    if recorded: ch.sample({'command': where[0][1][0][0], 'items': recorded[0]['cmds'][0]['items'][:4]})
