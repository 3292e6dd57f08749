#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property (or the given checks) against a scratch worktree with the bug: catch.py [-a] [ID..]
-a: all checks.  The checks see the tree through NECRO_REPO; the registered commands use /repo itself."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug, props, extra):
    work = tempfile.mkdtemp(prefix='catch-')
    r = os.path.join(work, 'repo')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        p = subprocess.run(['git', 'apply', os.path.join(V, 'seeded', bug, 'patch.diff')], cwd=r)
        if p.returncode:
            return bug, [('-', 'does not apply', '')]
        for i in props:
            q = subprocess.run([sys.executable, '-B', os.path.join(V, 'check.py'), i, '--tier', 'quick'] + extra, cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, NECRO_REPO=r, NECRO_OUT=work))
            lines = [l for l in q.stdout.split('\n') if l]
            out.append((i, {0: 'MISSED', 1: 'caught'}.get(q.returncode, 'rc %d' % q.returncode), ' | '.join(l[:160] for l in lines[-3:])))
    finally:
        shutil.rmtree(work)
    return bug, out


def main():
    a = sys.argv[1:]
    every = '-a' in a
    a = [x for x in a if x != '-a']
    extra = []
    if '--' in a:
        k = a.index('--')
        a, extra = a[:k], a[k + 1:]
    bugs = a or sorted(os.listdir(V + '/seeded'))
    checks = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for b in bugs:
        m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
        bug, out = one(b, checks if every else [m['property']], extra)
        for i, verdict, text in out:
            print('%-28s %s %-7s %s' % (bug, i, verdict, text if verdict != 'MISSED' else ''), flush=True)


main()
