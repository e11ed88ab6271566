"""Replay of behaviours of spec/Jobs.tla on the real shell."""
import errno, os, re
import shells, vf

STARTUP = '''
def W(k):
    import os, time
    with open(f'up-{k}.tmp', 'w') as f: f.write(str(os.getpid()))
    os.rename(f'up-{k}.tmp', f'up-{k}')
    end = time.time() + 60
    while not os.path.exists(f'go-{k}') and time.time() < end: time.sleep(0.02)
    return k
'''
SLOW = '''
import time, marcel.job
l = marcel.job.JobControl.only.child_listener
handler = l.child_completion_handler
def slow(changes):
    time.sleep(0.4)
    handler(changes)
l.child_completion_handler = slow
'''
VARS = ('a', 'b')

def behaviours(ch, n, length, jobs=4):
    cfg = os.path.join(ch.scratch, 'jobs.cfg')
    with open(cfg, 'w') as f:
        f.write(f'SPECIFICATION Spec\nCONSTANTS MaxJobs = {jobs} MaxLen = {length} Vars <- TwoVars\nINVARIANTS TypeOK OneForeground NoneLeftWaiting VarsFromEnded\n'
                'PROPERTY Applied\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n')
    t = ch.model(vf.tlc('Jobs', cfg, args=('-simulate', f'num={n * 6 // 8}', '-depth', str(length + 1), '-seed', str(vf.SEED))), f'Jobs, simulated, {length} actions')
    hs = sorted(t.lines('TRACE'), key=str)
    # those that do things in many situations are the interesting ones: what is done, to a job in which state, beside jobs in which states
    def situations(h):
        out, jobs = set(), []
        for s in h:
            state = next((j['st'] for j in jobs if j['id'] == s['id']), '')
            others = [j['st'] for j in jobs if j['id'] != s['id'] and j['st'] != 'fg']
            late = any(j['st'] == 'fg' and j['id'] < max(k['id'] for k in jobs) for j in jobs)
            if s['id'] or s['act'] in ('ctrlz', 'ctrlc'): out |= {(s['act'], state, late, o) for o in others + ['']} | {(s['act'], tuple(sorted(others)))}
            jobs = s['jobs']
        return out
    ch.rng.shuffle(hs)
    todo, known, chosen = [(situations(h), h) for h in hs], {}, []
    while todo and len(chosen) < n:
        # each situation is worth half of what it was when last met
        best = max(range(len(todo)), key=lambda i: sum(.5 ** known.get(x, 0) for x in todo[i][0]))
        for x in todo[best][0]: known[x] = known.get(x, 0) + 1
        chosen.append(todo.pop(best)[1])
    ch.count('situations_of_jobs', len(known))
    hs = chosen
    return hs[:n]

def command(k):
    v = VARS[(k * k) % 2]
    w = f'gen 1 | map (_q: W({k}))'
    if k % 3 == 0:
        # sets the variable, and then the command fails
        return f'gen 1 | map (_q: W({k})) | args (| _q: import -a {v} errno {errno.errorcode[k]} | union (| gen 1 | map (z: ([],)) |) |) | difference (| gen 1 |)'
    return f'{w} | args (| _q: import -a {v} errno {errno.errorcode[k]} |)'

def script(h, slow):
    """Commands for the shell, and {index: what has to be seen}"""
    cmds, seen = ([{'py': SLOW}] if slow else []), {}
    before = []          # jobs before the step
    i = 0
    def st(js, k): return next((j['st'] for j in js if j['id'] == k), None)
    def waiting(js): return any(j['st'] == 'fg' for j in js)
    def after(s, before):
        """actions which wait for the effect of step s"""
        acts = []
        for j in before:
            if j['id'] in s['gone']: acts.append(['gone', j['id']])
            if st(before, j['id']) != 'fg' and j['id'] in s['gone'] and s['vars'].get(VARS[j['id'] ** 2 % 2]) == j['id'] and s['act'] in ('release', 'bg'):
                acts.append(['var', VARS[j['id'] ** 2 % 2], j['id']])
        for j in s['jobs']:
            acts.append(['stopped' if j['st'] == 'paused' else 'running', j['id']])
        return acts
    def external(s, before):
        a = s['act']
        if a == 'release': return [['go', s['id']]] + after(s, before)
        if a == 'ctrlz': return [['sig', 'TSTP']] + after(s, before)
        if a == 'ctrlc': return [['sig', 'INT']] + after(s, before)
        if a == 'kill': return [['kill', s['id']]] + after(s, before)
    while i < len(h):
        s = h[i]
        a = s['act']
        if a in ('start', 'fg', 'bg', 'assign'):
            if a == 'start' and s['arg']: cmds.append({'do': [['go', s['id']]]})
            text = command(s['id']) if a == 'start' else f'{a} {s["arg"]}' if a != 'assign' else f'{s["arg"]} = ({s["vars"][s["arg"]]})'
            then = [['up', s['id']], ['waiting']] if a == 'start' else [['waiting']]
            refused = a in ('fg', 'bg') and s['id'] == 0
            last = s
            while waiting(last['jobs']):
                prev = last['jobs']
                i += 1
                last = h[i]
                then += external(last, prev)
            cmds.append({'cmd': text, 'then': then} if len(then) > 1 or a == 'start' else text)
            seen[len(cmds) - 1] = {'refused': refused}
            if a == 'bg': cmds.append({'do': after(s, before)})
            s = last
        else:
            cmds.append({'do': external(s, before)})
        cmds.append('jobs')
        seen[len(cmds) - 1] = {'jobs': s['jobs']}
        for v in VARS:
            cmds.append(f'env {v}')
            seen[len(cmds) - 1] = {'var': v, 'value': s['vars'][v]}
        cmds.append({'do': [['stopped' if j['st'] == 'paused' else 'running', j['id']] for j in s['jobs']]})
        before = s['jobs']
        i += 1
    return cmds, seen

def judge(cmds, seen, results, doc, pids):
    for n, c in enumerate(cmds):
        if n >= len(results): return n, f'the shell ended ({doc})'
        r = results[n]
        if 'TIMEOUT' in r['out'] or 'CANNOT' in r['out']:
            return n, f'{r["out"].strip()}'
        if 'Traceback' in r['err']: return n, 'crash: ' + r['err'].strip()[-300:]
        e = seen.get(n)
        if not e: continue
        if 'refused' in e:
            # a command which fails on its own says so
            fails = isinstance(c, dict) and 'difference' in c['cmd']
            if e['refused'] != ('There is no job' in r['err']): return n, f'refused: {r["err"]!r}'
            if not fails and not e['refused'] and r['err'].strip(): return n, f'message {r["err"]!r}'
        if 'jobs' in e:
            want = [f'{k}({"+" if j["st"] == "bg" else "-"}): {pids.get(j["id"], "?")}' for k, j in enumerate(e['jobs'])]
            got = [' '.join(l.split()[:2]) for l in r['out'].split('\n') if l.strip()]
            if got != want: return n, f'jobs lists {r["out"]!r}, expected {want}'
        if 'var' in e:
            out = r['out'].strip()
            want = f"('{e['var']}', {e['value']})" if e['value'] else ''
            if out != want or ('is undefined' in r['err']) != (not e['value']): return n, f'{e["var"]} is {out or r["err"].strip()!r}, expected {want or "undefined"}'
    if doc.get('left'): return len(cmds), f'{len(doc["left"])} processes left after the end of the shell'
    if doc.get('timeout'): return len(cmds), 'the shell did not end'

def read_pids(root):
    out = {}
    for f in os.listdir(root + '/cwd'):
        m = re.fullmatch(r'up-(\d+)', f)
        if m:
            with open(f'{root}/cwd/{f}') as g: out[int(m.group(1))] = int(g.read())
    return out

def check(ch, n, length):
    hs = behaviours(ch, n, length)
    scripts = [script(h, k % 3 == 0) for k, h in enumerate(hs)]
    rs = shells.run_shells([{'commands': c, 'startup': STARTUP, 'after': read_pids} for c, _ in scripts])
    for h, (cmds, seen), (results, doc) in zip(hs, scripts, rs):
        bad = judge(cmds, seen, results, doc, doc.get('after') or {})
        if bad:
            n, what = bad
            ch.violation(f'jobs: at {str(cmds[n])[:150] if n < len(cmds) else "the end"}: {what}   after {[(s["act"], s["id"] or s["arg"]) for s in h]}',
                         {'behaviour': h, 'commands': cmds, 'results': results, 'doc': doc})
    ch.cov['traces_validated_against_impl'] += len(hs)
    ch.count('job_behaviours_replayed', len(hs))
    ch.count('job_actions', sum(map(len, hs)))
    if hs: ch.sample([(s['act'], s['id'] or s['arg']) for s in hs[0]])

def check_data(ch, n_streams, n_scopes):
    """Behaviours of Streams and Scopes, every command of which is a job (unless it is one the shell itself runs)."""
    import scopes, streams
    hs = streams.behaviours(ch, 16)
    ch.rng.shuffle(hs)
    plans = [streams.plan(h[:6]) for h in hs[:n_streams]]
    ss = [h for h in scopes.behaviours(ch, ('a', 'b', 'c'), 3, 8, simulate=n_scopes * 3) if any(x['act'] == 'enter' for x in h)]
    ch.rng.shuffle(ss)
    splans = [scopes.commands(h, 'args', sorted(h[0]['see'])) for h in ss[:n_scopes]]
    splans = [p for p in splans if len(p) < 60]
    cmds = [[{'py': SLOW}] * (k % 4 == 0) + [e[0] for e in p] for k, p in enumerate(plans + splans)]
    rs = shells.run_shells([{'commands': c, 'timeout': 200} for c in cmds])
    for k, (p, c, (results, doc)) in enumerate(zip(plans + splans, cmds, rs)):
        off = len(c) - len(p)
        for n, e in enumerate(p):
            if n + off >= len(results):
                ch.violation(f'jobs: the shell ended at {e[0]} ({doc})', {'commands': c, 'doc': doc})
                break
            o = results[n + off]
            o['out'] = o['out'].replace('\r', '')
            if 'Traceback' in o['err']: o['exc'] = o['err'][-300:]
            if k < len(plans):
                bad = streams.judge(e, o)
                got, want = streams.items(o['out']), f'{e[1]} refused={e[2]}'
            else:
                got, want = scopes.lines(o['out']), e[1]
                bad = 'exc' in o or got != want or (o['err'].strip() and 'head 0' not in e[0] and 'Argument to head' not in o['err'])
            if bad:
                ch.violation(f'jobs: {e[0]}: expected {want}, observed {got} {o["err"].strip()!r}   in a session of jobs', {'commands': c[:n + off + 1], 'observed': o})
                break
    ch.cov['traces_validated_against_impl'] += len(cmds)
    ch.count('commands_run_as_jobs', sum(map(len, cmds)))
