"""Replay of behaviours of spec/Dirs.tla on the implementation."""
import json, os, random, shutil, subprocess, tempfile
import shells, vf

NOBODY = 65534
DIRS = ['a', 'a/x', 'b', 'b/y', 'p', 'p/z']
MAKE = f'''import os
for d in {DIRS!r}: os.mkdir(d)
for d in {[''] + DIRS!r}: open(os.path.join(d, 'here'), 'w').write(d or '.')
os.symlink('a/x', 'l'), os.symlink(os.getcwd() + '/a', 'b/m'), os.symlink('nosuch', 'k')
open('f', 'w').close()
open(os.environ['HOME'] + '/here', 'w').write('~')
'''
DEFS = ['dcd = (|d: cd (d)|)', 'dhome = (|cd|)', 'dpush = (|d: pushd (d) | map (f: str(f))|)', 'dswap = (|pushd | map (f: str(f))|)', 'dpop = (|popd | map (f: str(f))|)',
        'dclear = (|dirs -c | map (f: str(f))|)']

def behaviours(ch, cfg, num):
    t = ch.model(vf.tlc('Dirs', cfg, args=('-simulate', f'num={max(1, num // 8)}', '-depth', '25', '-seed', str(vf.SEED))), f'Dirs, simulated, 24 actions, {cfg}')
    seen, out = {}, []
    for h in t.lines('TRACE'):
        seen.setdefault(json.dumps(h[:-1]), h)
    return [seen[k] for k in sorted(seen)]

def arg_text(a, root):
    if a[0] == 'rel': return '/'.join(a[1]) or '.'
    if a[0] == 'abs': return '/'.join([root] + a[1])
    if a[0] == 'one': return '?'

def command(c, root, via):
    k = c[0]
    if k == 'cd':
        if c[1][0] == 'home': return 'dhome' if via else 'cd'
        t = arg_text(c[1], root)
        return f"dcd ('{t}')" if via else f'cd {t}'
    if k == 'pushd':
        t = arg_text(c[1], root)
        return f"dpush ('{t}')" if via else f'pushd {t} | map (f: str(f))'
    return {'swap': 'dswap', 'popd': 'dpop', 'clear': 'dclear'}[k] if via else \
           {'swap': 'pushd | map (f: str(f))', 'popd': 'popd | map (f: str(f))', 'clear': 'dirs -c | map (f: str(f))'}[k]

OTHERS = {'rm': "import shutil, os; shutil.rmtree(ROOT + '/%s')", 'mk': "import os; os.mkdir(ROOT + '/%s'); open(ROOT + '/%s/here', 'w').write('%s')",
          'chmod': "import os; os.chmod(ROOT + '/p', %s)"}

def others(c, root):
    if c[0] == 'chmod': code = OTHERS['chmod'] % ('0o000' if c[1] else '0o755')
    else: code = OTHERS[c[0]].replace('%s', '/'.join(c[1]))
    return code.replace('ROOT', repr(root) if root else 'S.cwd')

def plan(h, rnd):
    """[(step, what is expected)]; in arguments and output, the root is written ROOT and the home HOME"""
    out = []
    name = lambda p: 'HOME' if p == ['~'] else '/'.join(['ROOT'] + p)
    for n, s in enumerate(h):
        c = s['c']
        if 'ok' not in s:
            out.append(({'py': others(c, None)}, None))
            continue
        lines = [name(p) for p in reversed(s['stack'])]
        shows = [] if c[0] == 'cd' or not s['ok'] else lines
        out.append(({'cmd': command(c, 'ROOT', rnd.random() < .3)}, {'out': shows, 'ok': s['ok'], 'dropped': s['dropped']}))
        here = name(s['pwd'])
        obs = [('pwd | map (d: str(d))', [here]), ('dirs | map (d: str(d))', lines), ('(PWD)', [here]), ('(list(reversed(DIRS))) | expand', lines)]
        if s['in']:
            obs += [('bash readlink /proc/self/cwd', [here]), ('read here', ['~' if s['pwd'] == ['~'] else '/'.join(s['pwd']) or '.'])]
        # the others are seen at every third command; the last is seen by all
        for k, (q, e) in enumerate(obs):
            if n == len(h) - 1 or k in (0, 1) or rnd.random() < .5: out.append(({'cmd': q}, {'out': e, 'ok': True, 'dropped': False}))
    return out

DROPPED = ['The following directories have been removed from the directory stack because', 'they are no longer accessible:']
def judge(e, o, root, home):
    if e is None: return 'crash' if o.get('exc') else None
    if o.get('exc'): return 'the session failed'
    err = o['err'].strip().split('\n') if o['err'].strip() else []
    if e['dropped'] and DROPPED[0] not in err: return 'dropped entries are not mentioned'
    rest = [l for l in err if l not in DROPPED and not l.startswith(root) or 'not a directory' in l]
    if e['ok'] and (rest or (err and not e['dropped'])): return 'refused, or complains'
    if not e['ok'] and not rest: return 'not refused'
    want = [w.replace('ROOT', root).replace('HOME', home) for w in e['out']]
    got = o['out'].split('\n')[:-1]
    if got != want: return f'output, expected {want}, observed {got}'

def check(ch, num, in_shell):
    rnd = random.Random(vf.SEED)
    hs = behaviours(ch, 'DirsSim.cfg', num)
    plans = [plan(h, rnd) for h in hs]
    ph = {'py': 'S.result = [S.cwd, S.home]'}
    specs = []
    for n, p in enumerate(plans):
        steps = [{'py': MAKE}, ph] + [{'cmd': d} for d in DEFS] + [s for s, _ in p]
        specs.append({'id': n, 'uid': NOBODY, 'steps': steps, 'subst': True})
    rs = vf.run_sessions(specs)
    for h, p, r in zip(hs, plans, rs):
        res = r['results']
        if len(res) < 2: return ch.violation(f'no session: {r.get("fail")} {r.get("tb", "")[-300:]}', {'result': r})
        root, home = res[1]['res']
        compare(ch, p, res[2 + len(DEFS):], root, home, r, 'session')
    ch.cov['traces_validated_against_impl'] += len(hs)
    ch.count('directory_commands', sum(1 for h in hs for s in h if 'ok' in s))
    ch.count('refused', sum(1 for h in hs for s in h if not s.get('ok', True)))
    ch.count('changes_by_others', sum(1 for h in hs for s in h if 'ok' not in s))
    if plans: ch.sample([s.get('cmd', s.get('py')) for s, _ in plans[0]][:16])
    shell(ch, in_shell, rnd)

def compare(ch, p, res, root, home, r, where):
    for n, (s, e) in enumerate(p):
        o = res[n] if n < len(res) else {'exc': f'session ended: {r.get("fail")}', 'err': '', 'out': ''}
        bad = judge(e, o, root, home)
        if bad:
            cmds = [x.get('cmd') or x.get('py') for x, _ in p[:n + 1]]
            ch.violation(f'directories ({where}): {bad}: {s}   err={o["err"].strip()!r} exc={o.get("exc")}   after: {[c for c in cmds if "str(d)" not in c][-6:]}',
                         {'commands': cmds, 'observed': o, 'root': root})
            return

def shell(ch, num, rnd):
    """The real shell: what is defined as a function runs as a job."""
    hs = behaviours(ch, 'DirsSimShell.cfg', num)
    plans, specs = [], []
    for h in hs:
        root = os.path.realpath(tempfile.mkdtemp(prefix='drs'))
        cwd, home = root + '/cwd', root + '/home'
        os.makedirs(cwd), os.makedirs(home)
        subprocess.run([vf.PY, '-c', MAKE], cwd=cwd, env=dict(os.environ, HOME=home), check=True)
        p = plan(h, rnd)
        plans.append((p, root))
        specs.append({'root': root, 'timeout': 300, 'commands': DEFS + [s['cmd'].replace('ROOT', cwd) for s, _ in p]})
    try: rs = shells.run_shells(specs)
    finally:
        for _, root in plans: shutil.rmtree(root, ignore_errors=True)
    for (p, root), (res, doc) in zip(plans, rs):
        compare(ch, p, res[len(DEFS):], root + '/cwd', root + '/home', {'fail': f'{doc.get("rc")} {doc.get("failed", "")}'}, 'shell')
    ch.count('shell_sessions', len(hs))
    ch.cov['traces_validated_against_impl'] += len(hs)
