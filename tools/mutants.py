#!/usr/bin/env python3
"""Mutation survey.  mutants.py make OUT FILE.. [-j N]: small changes of FILEs that the test suite does not notice -> OUT/<n>.json
   mutants.py judge OUT [-j N] [-r RUNS] [IDS..]: which check notices each of them (writes OUT/<n>.res)"""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = ['C05', 'C07', 'C10', 'C09', 'C15', 'C03', 'C17', 'C13', 'C14', 'C08', 'C22', 'C23', 'C02', 'C12', 'C01', 'C06', 'C16', 'C04', 'C21', 'C11', 'C24', 'C25']


def sites(src):
    """(start, end, replacement, kind)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        a, b = pos(n)
        return src[a:b]
    SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.FloorDiv: '*', ast.Mod: '//', ast.BitXor: '|', ast.Pow: '*'}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n)
            yield a, b, '%s %s %s' % (txt(n.left), SWAP[type(n.ops[0])], txt(n.comparators[0])), 'cmp'
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            a, b = pos(n)
            yield a, b, '%s %s %s' % (txt(n.left), BIN[type(n.op)], txt(n.right)), 'bin'
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n)
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield a, b, o.join(txt(v) for v in n.values), 'bool'
            for k in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                yield a, b, o2.join(txt(v) for j, v in enumerate(n.values) if j != k), 'drop'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = pos(n)
            yield a, b, txt(n.operand), 'not'
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            a, b = pos(n)
            yield a, b, str(n.value + 1), 'const'
            if n.value > 1:
                yield a, b, str(n.value - 1), 'const'
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = pos(n)
            yield a, b, str(not n.value), 'const'
        elif isinstance(n, (ast.If, ast.While)):
            a, b = pos(n.test)
            yield a, b, 'True' if isinstance(n, ast.If) else 'False', 'cond'
            yield a, b, 'False', 'cond'
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant) or isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Delete)):
            a, b = pos(n)
            yield a, b, 'pass', 'del'
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = pos(n)
            yield a, b, 'return None', 'ret'


def tests(tree):
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=tree, capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=tree))
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


def make(out, files, jobs):
    os.makedirs(out, exist_ok=True)
    todo = []
    for f in files:
        src = open('/repo/' + f).read()
        seen = set()
        for a, b, t, kind in sites(src):
            new = src[:a] + t + src[b:]
            if new in seen or new == src:
                continue
            seen.add(new)
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                continue
            todo.append((f, a, b, t, kind, src))
    random.Random(5).shuffle(todo)
    print(len(todo), 'mutants', flush=True)

    def one(k):
        tree = trees.pop()
        f, a, b, t, kind, src = todo[k]
        try:
            open(tree + '/' + f, 'w').write(src[:a] + t + src[b:])
            ok = tests(tree)
            open(tree + '/' + f, 'w').write(src)
            if ok:
                json.dump({'file': f, 'a': a, 'b': b, 'new': t, 'old': src[a:b], 'line': src.count('\n', 0, a) + 1, 'kind': kind}, open('%s/%d.json' % (out, k), 'w'))
            return ok
        finally:
            trees.append(tree)
    tmp = tempfile.mkdtemp(prefix='mut-')
    trees = []
    for j in range(jobs):
        subprocess.run(['cp', '-a', '/repo', '%s/%d' % (tmp, j)], check=True)
        trees.append('%s/%d' % (tmp, j))
    with ThreadPoolExecutor(jobs) as ex:
        n = sum(ex.map(one, range(len(todo))))
    shutil.rmtree(tmp)
    print(n, 'survive the tests')


def judge(out, ids, jobs, runs):
    todo = [f for f in sorted(glob.glob(out + '/*.json')) if not os.path.exists(f[:-5] + '.res')]
    tmp = tempfile.mkdtemp(prefix='mut-')
    trees = []
    for j in range(jobs):
        subprocess.run(['cp', '-a', '/repo', '%s/%d' % (tmp, j)], check=True)
        os.makedirs('%s/out%d' % (tmp, j))
        trees.append(j)

    def one(path):
        j = trees.pop()
        tree = '%s/%d' % (tmp, j)
        m = json.load(open(path))
        src = open('/repo/' + m['file']).read()
        res = 'survives'
        try:
            open(tree + '/' + m['file'], 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
            for i in ids:
                n = runs // 4 if i in ('C11', 'C16', 'C06') else runs
                try:
                    p = subprocess.run([sys.executable, '-B', V + '/check.py', i, '--runs', str(n), '--workers', '1', '--minimise', '0', '--wall', '60'], cwd=V, capture_output=True, text=True, timeout=240,
                                       env=dict(os.environ, NECRO_REPO=tree, NECRO_OUT='%s/out%d' % (tmp, j)))
                except subprocess.TimeoutExpired:
                    res = i + ' timeout'
                    break
                if p.returncode == 1:
                    res = i + ' ' + ([l for l in p.stdout.split('\n') if ': ' in l] or [''])[-1][:200]
                    break
                if p.returncode:
                    res = i + ' HARNESS ' + p.stderr[-300:]
                    break
            open(tree + '/' + m['file'], 'w').write(src)
            open(path[:-5] + '.res', 'w').write(res)
            if res == 'survives' or 'HARNESS' in res or 'timeout' in res:
                print('%s %s:%d %s | %s  ->  %s | %s' % (os.path.basename(path), m['file'], m['line'], m['kind'], m['old'][:100].replace('\n', ' '), m['new'][:100].replace('\n', ' '), res), flush=True)
        finally:
            trees.append(j)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(tmp)


def main(argv):
    opt = {}
    args = []
    it = iter(argv)
    for a in it:
        if a in ('-j', '-r'):
            opt[a] = int(next(it))
        else:
            args.append(a)
    if args[0] == 'make':
        make(args[1], args[2:], opt.get('-j', 4))
    else:
        judge(args[1], args[2:] or ORDER, opt.get('-j', 7), opt.get('-r', 250))


main(sys.argv[1:])
