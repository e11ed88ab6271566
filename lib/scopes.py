"""Replay of behaviours of spec/Scopes.tla as marcel commands."""
import errno, os, re
import vf

CFG = '''SPECIFICATION Spec
CONSTANTS Names = {names} MaxDepth = {depth} MaxLen = {len}
INVARIANT TypeOK
PROPERTY LeaveRestores
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''
NOTHING = 'gen 1 | select (*_q: False)'

def behaviours(ch, names, depth, length, simulate=None):
    cfg = os.path.join(ch.scratch, f'scopes{length}.cfg')
    with open(cfg, 'w') as f:
        f.write(CFG.format(names='{' + ', '.join(f'"{n}"' for n in names) + '}', depth=depth, len=length))
    args = ('-simulate', f'num={simulate}', '-depth', str(length + 1), '-seed', str(vf.SEED)) if simulate else ()
    t = ch.model(vf.tlc('Scopes', cfg, args=args, workers=1 if simulate else None), f'Scopes, {length} actions' + (', simulated' if simulate else ''))
    return t.lines('TRACE')

def show(names):
    return [f'gen 1 | map (*_q: ({n!r}, {n}))' for n in names]

def expected(see):
    return [f"('{n}', {v})" if v else f'{n} undefined' for n, v in sorted(see.items())]

def commands(hist, flavour, names):
    """[(command, expected lines or None)], for a behaviour"""
    out = []
    stack = []          # open scopes: [items, params, first value]
    exp = []
    def close_scope(n_calls=[0]):
        items, params, val = stack.pop()
        body = NOTHING + ' | union ' + ' '.join(f'(| {i} |)' for i in items) if items else NOTHING
        p = ', '.join(params)
        if not stack and flavour == 'call':
            n_calls[0] += 1
            out.append((f'ff{n_calls[0]} = (| {p}: {body} |)', []))
            return f'ff{n_calls[0]} ' + ' '.join(f'({val + k})' for k in range(len(params)))
        return f'gen {len(params)} {val} | args (| {p}: {body} |)'
    def put(text):
        if stack: stack[-1][0].append(text)
        else:
            out.append((text, list(exp)))
            exp.clear()
    for h in hist:
        a = h['act']
        if a == 'enter':
            stack.append([[], h['names'], h['val']])
        elif a == 'assign':
            put(f'import -a {h["names"][0]} errno {errno.errorcode[h["val"]]}')
        elif a == 'delete':
            put(f'env -d {h["names"][0]} | select (*_q: False)')
        elif a == 'leave':
            put(close_scope())
        elif a == 'abort':
            stack[-1][0].append('gen 1 | head 0')
            while stack: t = close_scope(); put(t)
        for text in show(names):
            if stack: stack[-1][0].append(text)
        e = expected(h['see'])
        if stack or h['depth']: exp.extend(e)
        else:
            for text, x in zip(show(names), e): out.append((text, [x]))
    while stack: t = close_scope(); put(t)
    return out

def lines(text):
    r = []
    for l in text.split('\n'):
        if l:
            m = re.search(r"name '(\w+)' is not defined", l)
            r.append(f'{m.group(1)} undefined' if l.startswith('Error') and m else l)
    return r

def check(ch, names=('a', 'b')):
    hists = behaviours(ch, names, 3, vf.scaled(4, 5))
    hists = [h for h in hists if any(x['act'] == 'enter' for x in h)]
    if not vf.THOROUGH: hists = ch.rng.sample(hists, min(len(hists), 1600))
    hists += behaviours(ch, ('a', 'b', 'c'), 4, 14, simulate=vf.scaled(150, 3000))
    def allnames(h): return sorted(h[0]['see'])
    plans = []
    for n, h in enumerate(hists): plans.append(commands(h, 'call' if n % 4 == 0 else 'args', allnames(h)))
    # several behaviours per session, with the variables deleted in between
    batches = [list(range(i, min(i + 12, len(plans)))) for i in range(0, len(plans), 12)]
    specs = []
    for b, ns in enumerate(batches):
        steps = []
        for n in ns:
            for c, _ in plans[n]: steps.append({'cmd': c})
            for v in ('a', 'b', 'c'): steps.append({'cmd': f'env -d {v}'})
        specs.append({'id': b, 'steps': steps})
    for ns, r in zip(batches, vf.run_sessions(specs)):
        it = iter(r['results'])
        for n in ns:
            for c, e in plans[n]:
                o = next(it, None)
                if o is None or 'exc' in o or lines(o['out']) != e or (o['err'] and 'head 0' not in c and 'Argument to head' not in o['err']):
                    ch.violation(f'scopes: {c}   expected {e}, observed {lines(o["out"]) if o else r.get("fail")} {o.get("exc", "") if o else ""} {o["err"][:100] if o else ""}',
                                 {'commands': [x for x, _ in plans[n]], 'behaviour': hists[n], 'observed': o})
                    break
            else:
                for _ in 'abc': next(it, None)
                continue
            break
    ch.cov['traces_validated_against_impl'] += len(hists)
    ch.count('scope_behaviours_replayed', len(hists))
    ch.sample([c for c, _ in plans[-1]][:3])
