#!/usr/bin/env python3
"""Regenerate the patches of /verif/seeded which no longer apply to /repo's HEAD, by a three-way merge in a scratch worktree."""
import glob, os, subprocess, sys, tempfile, shutil
def git(d, *a, check=True):
    return subprocess.run(['git', '-C', d, *a], capture_output=True, text=True, check=check)
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    if git('/repo', 'apply', '--check', p, check=False).returncode == 0: continue
    d = tempfile.mkdtemp(prefix='wt')
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    r = git(d, 'apply', '--3way', p, check=False)
    diff = git(d, 'diff', 'HEAD').stdout
    ok = r.returncode == 0 and diff.strip() and '<<<<<<<' not in diff
    if ok: open(p, 'w').write(diff)
    print(('rebased ' if ok else 'CONFLICT ') + p, '' if ok else r.stderr[-300:])
    shutil.rmtree(d)
