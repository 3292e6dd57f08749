#!/usr/bin/env python3
"""Plants the bugs of a list (a python file with BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]) in scratch copies of /repo:
confirms that the patch applies and builds, that the tests pass, and what the demonstration says with and without it; keeps it in /verif/seeded/<id>/."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=600, **k)


def plant(bug, base):
    d = os.path.join(V, 'seeded', bug['id'])
    work = tempfile.mkdtemp(prefix='plant-')
    r = os.path.join(work, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for f, old, new in bug['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit of %s matches %d times' % (f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        patch = sh('git diff', r).stdout
        demo = os.path.join(work, 'demo')
        os.mkdir(demo)
        open(demo + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(demo + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds here\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                                           'dir="$(mktemp -d)"\ntrap \'rm -rf "$dir"\' EXIT\ncd "$dir" && timeout 120 python3 "$here/demo.py"\n')
        # with the patch
        t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3" % r, r)
        if ' passed' not in t.stdout or 'failed' in t.stdout or 'error' in t.stdout:
            return 'tests: ' + t.stdout[-400:]
        got = sh('bash %s/demo.sh' % demo, r)
        if got.returncode == 0:
            return 'the demonstration does not fail with the patch: ' + got.stdout + got.stderr
        sh('git checkout -- .', r)
        got0 = sh('bash %s/demo.sh' % demo, r)
        if got0.returncode != 0:
            return 'the demonstration fails without the patch: ' + got0.stdout + got0.stderr[-600:]
        if sh('git apply --check -', r, input=patch).returncode:
            return 'does not apply'
        os.makedirs(d, exist_ok=True)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(demo + '/' + f, d)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        return 'ok (%s)' % (got.stderr.strip().split('\n')[-1] or got.stdout.strip())[:120]
    finally:
        shutil.rmtree(work)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], plant(b, None), flush=True)


main()
