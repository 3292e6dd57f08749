"""Every planted bug: the patch applies to /repo's HEAD, its demo passes without it and fails with it.  python3 tools/recheck.py [ids]"""
import glob
import os
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    tmp = tempfile.mkdtemp(prefix='recheck')
    try:
        t = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', t], check=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=t)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd=t, env=env, capture_output=True, timeout=300).returncode
        p = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t, capture_output=True).returncode
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=t, env=env, capture_output=True, timeout=300).returncode
        return os.path.basename(d), a == 0 and p == 0 and b != 0, (a, p, b)
    finally:
        shutil.rmtree(tmp)


ids = sys.argv[1:]
dirs = [d for d in sorted(glob.glob(V + '/seeded/*')) if not ids or os.path.basename(d) in ids]
with ThreadPoolExecutor(7) as ex:
    for n, ok, r in ex.map(one, dirs):
        if not ok:
            print('BAD', n, r)
print(len(dirs), 'looked at')
