"""An external program which does what its plan says. Arguments: PLAN (json file), LOG (file to append to).
Unit: m lines, each 'i<k>:<line>:<pad>' for the k-th unit of the input, 'n<k>:...' for one made up in step k."""
import json, os, subprocess, sys, time

plan = json.load(open(sys.argv[1]))
m, pad = plan['m'], 'x' * plan['pad']
inp, out, err = os.fdopen(0, 'rb'), os.fdopen(1, 'wb'), os.fdopen(2, 'wb')
lines, state = [], {'eof': False, 'died': False}


def log():
    with open(sys.argv[2], 'a') as f: f.write(json.dumps({'lines': lines, **state}) + '\n')


def read():
    """a unit, or None at the end"""
    unit = []
    if inp.closed: return None
    while len(unit) < m:
        line = inp.readline()
        if not line:
            state['eof'] = True
            break
        text = line.decode('utf-8', 'replace')
        lines.append(text[:20].rstrip('\n') + f' {len(text)}')
        unit.append(line)
    return b''.join(unit) if unit else None


def put(stream, data):
    try:
        stream.write(data)
        stream.flush()
    except BrokenPipeError:
        state['died'] = True
        log()
        os._exit(1)


for k, step in enumerate(plan['steps'], 1):
    if step == 'r': read()
    elif step == 'R':
        while read(): pass
    elif step in 'pe':
        data = ''.join(f'n{k}:{i}:{pad}\n' for i in range(m)).encode()
        if plan.get('open_end') and k == len(plan['steps']): data = data[:-1]
        put(out if step == 'p' else err, data)
    elif step == 'c':
        unit = read()
        if unit: put(out, unit)
    elif step == 'C':
        while True:
            unit = read()
            if not unit: break
            put(out, unit)
    elif step == 'x': inp.close()
    elif step == 'b': subprocess.Popen(['sleep', '1.5'], stdin=subprocess.DEVNULL)
log()
os._exit(plan.get('status', 0))
