"""Replay of behaviours of spec/Streams.tla on the implementation."""
import os
import vf

def behaviours(ch, num):
    t = ch.model(vf.tlc('Streams', 'StreamsSim.cfg', args=('-simulate', f'num={max(1, num // 8)}', '-depth', '11', '-seed', str(vf.SEED))),
                 'Streams, simulated, 10 commands over 3 variables')
    seen, out = set(), []
    for h in t.lines('TRACE'):
        k = str(h)
        if k not in seen:
            seen.add(k)
            out.append(h)
    return sorted(out, key=str)

def pipe(p, depth=0, branch=False, x=None):
    ops = []
    s = p['src']
    if s[0] == 'gen': ops.append(f'gen {s[1]}')
    elif s[0] == 'x' and not branch: ops.append(f'map ({x})')
    elif s[0] == 'load': ops.append(f'load {s[1]}' if depth % 2 == 0 else f'{s[1]} <$ map (i: i)')
    elif s[0] == 'del': ops.append(f'env -d {s[1]} | select (*q: False)')
    m = p['mid']
    if m[0] == 'bad': ops.append('head 0')
    elif m[0] == 'err': ops.append(f'map (i: [i][0 if i != {m[1]} else 5])')
    elif m[0] == 'kill': ops.append(f'map (i: ([],) if pos() == {m[1] - 1} else i) | difference (| gen 1 99 |)')
    elif m[0] == 'args': ops.append(f'args (| x{depth}: {pipe(m[1], depth + 1, x=f"x{depth}")} |)')
    elif m[0] == 'case': ops.append(f'case (i: i == {m[1]}) (| {pipe(m[2], depth + 1, branch=True)} |)')
    k = p['sink']
    text = ' | '.join(ops)
    if k[0] == 'store':
        if depth % 2 == 0 and text: text += f' {">>$" if k[2] else ">$"} {k[1]}'
        else: text += (' | ' if text else '') + ('store -a ' if k[2] else 'store ') + k[1]
    return text or 'map (i: i)'

def command(c):
    if c[0] == 'run': return pipe(c[1])
    if c[0] == 'set': return f'{c[1]} = (7)'
    if c[0] == 'del': return f'env -d {c[1]} | select (*q: False)'
    if c[0] == 'alias': return f'{c[1]} = ({c[2]})'

def items(text):
    return [99 if l.startswith('Error: ') else int(l) if l.lstrip('-').isdigit() else l for l in text.split('\n') if l]

def plan(h):
    """[(command, expected items, expected refusal)]"""
    out = []
    for s in h:
        out.append((command(s['c']), s['out'], bool(s['kill'])))
        for v, x in sorted(s['see'].items()):
            out.append((f'load {v}', x[1] if x[0] == 'res' else [], x[0] != 'res'))
    return out

def judge(e, o):
    if 'exc' in o: return 'crash'
    if bool(o['err'].strip()) != e[2]: return 'not refused' if e[2] else 'refused'
    got = items(o['out'])
    # an argument whose evaluation fails is also reported in the output
    if got != e[1] and not (e[2] and got[:-1] == e[1] and got[-1:] == [99]): return 'output'

def check(ch, num, driver_args={}):
    hs = behaviours(ch, num)
    plans = [plan(h) for h in hs]
    rs = vf.run_sessions([dict({'id': n, 'steps': [{'cmd': c} for c, _, _ in p]}, **driver_args) for n, p in enumerate(plans)])
    done = set()
    for h, p, r in zip(hs, plans, rs):
        for n, e in enumerate(p):
            o = r['results'][n] if n < len(r['results']) else {'exc': f'session ended: {r.get("fail")}', 'err': '', 'out': ''}
            bad = judge(e, o)
            if bad:
                last = max(k for k in range(0, n + 1, 4))
                ch.violation(f'stored streams: {bad}: {e[0]}   expected {e[1]} refused={e[2]}, observed {items(o["out"])} err={o["err"].strip()!r} exc={o.get("exc")}'
                             + (f'   after: {p[last][0]}' if last != n else ''),
                             {'commands': [x for x, _, _ in p[:n + 1]], 'behaviour': h[:n // 4 + 1], 'observed': o})
                break
    ch.cov['traces_validated_against_impl'] += len(hs)
    ch.count('stream_commands', sum(len(h) for h in hs))
    ch.count('refused_commands', sum(1 for h in hs for s in h if s['kill']))
    if plans: ch.sample([c for c, _, _ in plans[0]][:12])
