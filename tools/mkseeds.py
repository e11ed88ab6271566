#!/usr/bin/env python3
"""mkseeds.py FILE [ID...]: builds /verif/seeded/<id> from the descriptions in FILE and validates them in scratch copies.

FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo=python text)]. Development tool.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = 'bcd359b'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def one(s):
    log = []
    id = s['id']
    wt = tempfile.mkdtemp(prefix='seed-' + id)
    try:
        copy = f'{wt}/repo'
        sh(f'cp -a /repo {copy}')
        for file, old, new in s['edits']:
            p = f'{copy}/{file}'
            t = open(p).read()
            if t.count(old) != 1:
                return id, f'{file}: {t.count(old)} matches of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh(f'git -C {copy} diff').stdout
        # Lines removed must be lines of the original repository
        for file in {e[0] for e in s['edits']}:
            d = sh(f'git -C {copy} diff -U0 -- {file}').stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', d, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    b = sh(f'git -C {copy} blame -s -L {a},{a+n-1} HEAD -- {file}').stdout
                    for l in b.split('\n'):
                        if l and not l.lstrip('^').startswith(BASE[:6]):
                            log.append('NOT ORIGINAL: ' + l)
        out = f'/verif/seeded/{id}'
        os.makedirs(out, exist_ok=True)
        open(f'{out}/patch.diff', 'w').write(diff)
        shutil.copy('/verif/tools/mrun.py', f'{out}/mrun.py')
        open(f'{out}/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(f'{out}/demo.sh', 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(f'{out}/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
        # Validate
        r = sh(f'cd /repo && bash {out}/demo.sh')
        if r.returncode:
            log.append('demo fails on unchanged tree: ' + r.stdout[-1500:])
        os.makedirs(f'{wt}/tmp'); os.makedirs(f'{wt}/root')
        sh(f'cp -a /root/. {wt}/root/')
        def isolated(cmd):
            script = f'mount --bind {copy} /repo && mkdir -p {wt}/opt && cp -a /opt/vp/. {wt}/opt/ && mount --bind {wt}/opt /opt/vp && mount --bind {wt}/root /root && cp -r {out} {wt}/tmp/seed && mount --bind {wt}/tmp /tmp && {cmd}'
            return subprocess.run(['unshare', '-m', 'bash', '-c', script], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r = isolated('bash /opt/vp/build.sh')
        if r.returncode:
            log.append('build fails: ' + r.stdout[-1500:])
        shutil.rmtree(f'{wt}/tmp/seed', ignore_errors=True)
        r = isolated('cd /repo && bash /tmp/seed/demo.sh')
        log.append(f'demo with patch: rc {r.returncode} {r.stdout[-300:]}')
        if not r.returncode:
            log.append('DEMO PASSES WITH PATCH')
        shutil.rmtree(f'{wt}/tmp/seed', ignore_errors=True)
        isolated('bash /opt/vp/test.sh /tmp/t.json')
        try:
            t = json.load(open(f'{wt}/tmp/t.json'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            passed = set(t.get('passed') or t.get('pass') or [])
            missing = sorted(stable - passed)
            log.append('tests ok' if not missing else f'TESTS FAIL: {missing}')
        except Exception as e:
            log.append(f'TESTS: {e}')
        return id, '\n'.join(log)
    finally:
        shutil.rmtree(wt, ignore_errors=True)

g = {}
exec(open(sys.argv[1]).read(), g)
seeds = [s for s in g['SEEDS'] if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
with ThreadPoolExecutor(5) as ex:
    for id, log in ex.map(one, seeds):
        print(f'== {id}\n{log}', flush=True)
