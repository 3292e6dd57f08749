"""Seeded search over simulated runs: plans, isolated execution, minimisation, replay, evidence.

One run is a pure function of its JSON plan; a plan is a pure function of (VERIF_SEED, property, index).  Every run
happens in its own forked child of a pristine worker process that has imported the code under test from /repo's
working tree and carries the simulated disk/clock (dst/shim.c) as LD_PRELOAD."""
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NECRO_REPO', '/repo')
OUT = os.environ.get('NECRO_OUT', VERIF)
RUN_WALL = 20
LINE_BUDGET = 6000000


class Violation(Exception):
    def __init__(self, cls, msg, **detail):
        super().__init__(msg)
        self.cls, self.msg, self.detail = cls, msg, detail


class Invalid(Exception):
    """the plan does not describe a run (only minimisation produces such plans)"""


def rng_of(seed, prop, index):
    h = hashlib.sha256(('%s/%s/%s' % (seed, prop, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


class Ctx:
    """what a property's run() gets"""

    def __init__(self, root, budget=None):
        from .world import World
        self.world = World(root, budget)
        self.budget = budget
        self.info = {}
        self.n = {}

    def violate(self, cls, msg, **detail):
        raise Violation(cls, msg, **detail)

    def check(self, cond, cls, msg, **detail):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg, **detail)

    def count(self, what, n=1):
        self.n[what] = self.n.get(what, 0) + n


def load(prop):
    return importlib.import_module('dst.props.' + prop.lower())


def execute(mod, plan, root, budget=None):
    """run one plan in this process -> result dict"""
    ctx = Ctx(root, budget)
    try:
        os.makedirs(root, exist_ok=True)
        ctx.world.fresh()
        os.chdir(ctx.world.tree)
        tr = None
        if budget:
            from .world import Interrupt
            tr = Interrupt(None, None, budget)
            sys.settrace(tr)
            import threading
            threading.settrace(tr)
        try:
            sig = mod.run(plan, ctx)
        finally:
            sys.settrace(None)
        res = {'ok': 1}
        if sig is not None:
            res['sig'] = sig if isinstance(sig, str) else json.dumps(sig, sort_keys=True, default=str)
    except Violation as v:
        res = {'viol': v.cls, 'msg': v.msg, 'detail': v.detail}
    except Invalid as e:
        res = {'invalid': str(e)}
    except Exception as e:
        where = innermost(e)
        if '/necroassembler/' not in where:
            raise
        # asking the assembler for its result, or constructing it, failed
        res = {'viol': 'crash', 'msg': '%s: %s at %s' % (type(e).__name__, short(e, 300), where), 'detail': {}}
    res['faults'] = ctx.world.faults
    res['n'] = ctx.n
    return res


def innermost(e):
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    name = tb.tb_frame.f_code.co_filename
    return '%s:%s' % (name[name.rfind('/necroassembler/'):] if '/necroassembler/' in name else name, tb.tb_frame.f_code.co_name)


def short(text, n=1500):
    text = str(text)
    return text if len(text) <= n else text[:n] + '... (%d more)' % (len(text) - n)


def isolated(mod, plan_of, root, budget=None, wall=RUN_WALL):
    """fork, run, collect.  plan_of: callable giving the plan (evaluated in the child)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            nul = os.open('/dev/null', os.O_RDWR)
            os.dup2(nul, 0)
            os.dup2(nul, 1)
            try:
                plan = plan_of()
                res = execute(mod, plan, root, budget)
                if 'viol' in res:
                    res['plan'] = plan
            except BaseException:
                res = {'harness': traceback.format_exc()}
            data = json.dumps(res, default=repr).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 97
        os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    chunks = []
    end = time.monotonic() + wall
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if not select.select([r], [], [], left)[0]:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        chunks.append(d)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {'timeout': 1}
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 98:
        return {'viol': 'hang', 'msg': 'a build or session did not end within ' + ('%d executed lines' % budget if budget else 'the executed lines its input allows'), 'detail': {}}
    if not chunks:
        if os.WIFSIGNALED(status):
            return {'viol': 'died', 'msg': 'the interpreter was killed by signal %d' % os.WTERMSIG(status), 'detail': {}}
        return {'harness': 'no result, status %d' % status}
    return json.loads(b''.join(chunks))


def run_one(mod, plan_of, root):
    res = isolated(mod, plan_of, root)
    if 'timeout' in res:
        res = isolated(mod, plan_of, root, LINE_BUDGET, 90)
        if 'timeout' in res:
            res = {'viol': 'hang', 'msg': 'a run did not end (no executed line for a long time)', 'detail': {}}
        if 'viol' in res and 'plan' not in res:
            try:
                res['plan'] = plan_of()
            except Exception as e:
                res = {'harness': repr(e)}
    elif 'viol' in res and 'plan' not in res:
        res['plan'] = plan_of()
    return res


# ---- worker process ------------------------------------------------------------------------------------------------
def setup_imports():
    sys.dont_write_bytecode = True
    real = os.path.realpath(REPO)
    sys.path[:0] = [real, VERIF + '/stub', VERIF]
    import necroassembler
    if not os.path.realpath(necroassembler.__file__).startswith(real + os.sep):
        raise RuntimeError('necroassembler comes from ' + necroassembler.__file__)
    for d in ('cpu', 'platforms'):
        for f in sorted(os.listdir(os.path.join(real, 'necroassembler', d))):
            if f.endswith('.py') and f not in ('__init__.py', 'mz.py'):
                importlib.import_module('necroassembler.%s.%s' % (d, f[:-3]))
    import csv, json, encodings.utf_16, encodings.utf_32, encodings.ascii, encodings.idna  # noqa: used lazily by the code
    import PIL.Image  # noqa


def worker(prop, w, n, seed, tier, root):
    """protocol on stdin/stdout, one JSON per line: {'search':{...}} or {'plan':..}"""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    setup_imports()
    mod = load(prop)
    import gc
    gc.freeze()

    def say(x):
        out.write(json.dumps(x) + '\n')
        out.flush()
    say({'ready': 1})
    for line in sys.stdin:
        cmd = json.loads(line)
        if 'plan' in cmd:
            p = cmd['plan']
            if cmd.get('wall'):      # minimising a run that does not end
                res = isolated(mod, lambda: p, root, None, cmd['wall'])
                if 'timeout' in res:
                    res = {'viol': 'hang', 'msg': 'timeout'}
            else:
                res = run_one(mod, lambda: p, root)
            res.pop('plan', None)
            say(res)
        elif 'search' in cmd:
            c = cmd['search']
            end = time.monotonic() + c['wall']
            i = w
            stat = {'runs': 0, 'sigs': {}, 'faults': {}, 'n': {}, 'invalid': 0, 'harness': [], 'viol': None, 'samples': []}
            stop = c['stop']
            while i < c['limit'] and time.monotonic() < end:
                if os.path.exists(stop):
                    try:
                        if i > int(open(stop).read() or 0):
                            break
                    except ValueError:
                        pass
                res = run_one(mod, lambda: mod.plan(rng_of(seed, prop, i), i, tier), root)
                stat['runs'] += 1
                for k in ('faults', 'n'):
                    for a, b in res.get(k, {}).items():
                        stat[k][a] = stat[k].get(a, 0) + b
                if 'sig' in res:
                    s = hashlib.md5(res['sig'].encode()).hexdigest()[:12]
                    stat['sigs'][s] = stat['sigs'].get(s, 0) + 1
                    if len(stat['samples']) < 1 and len(res['sig']) < 600:
                        stat['samples'].append({'index': i, 'signature': res['sig']})
                if 'invalid' in res:
                    stat['invalid'] += 1
                    if stat['invalid'] < 3:
                        stat['harness_note'] = res['invalid']
                if 'harness' in res and len(stat['harness']) < 3:
                    stat['harness'].append({'index': i, 'trace': res['harness']})
                if 'viol' in res:
                    stat['viol'] = {'index': i, 'res': res}
                    with open(stop + '.%d' % w, 'w') as f:
                        f.write(str(i))
                    try:
                        cur = int(open(stop).read())
                    except (OSError, ValueError):
                        cur = None
                    if cur is None or i < cur:
                        os.replace(stop + '.%d' % w, stop)
                    break
                i += n
            stat['next'] = i
            stat['sigs'] = list(stat['sigs'])
            say(stat)
        else:
            break


class Server:
    def __init__(self, prop, w, n, seed, tier, root):
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'NECRO_REPO', 'TMPDIR')}
        env.update(LD_PRELOAD=shim_path(), PYTHONHASHSEED='0', LC_ALL='C.UTF-8', PYTHONPYCACHEPREFIX='/nonexistent/pycache',
                   PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([sys.executable, '-B', VERIF + '/check.py', prop, '--worker', str(w), str(n), str(seed), tier, root],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')

    def wait_ready(self):
        return self.get()

    def send(self, x):
        self.p.stdin.write((json.dumps(x) + '\n').encode())
        self.p.stdin.flush()

    def get(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('a worker ended (status %s)' % self.p.wait())
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def shim_path():
    src = VERIF + '/dst/shim.c'
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = VERIF + '/build'
    path = '%s/shim-%s.so' % (d, tag)
    if not os.path.exists(path):
        os.makedirs(d, exist_ok=True)
        tmp = '%s.%d' % (path, os.getpid())
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', tmp, src, '-ldl'])
        os.replace(tmp, path)
    return path


# ---- minimisation --------------------------------------------------------------------------------------------------
def paths(x, at=()):
    """(path, value) of every list and int inside a plan, big lists first"""
    if isinstance(x, list):
        yield at, x
        for i, v in enumerate(x):
            yield from paths(v, at + (i,))
    elif isinstance(x, dict):
        for k in x:
            if k not in ('locked', 'v0'):
                yield from paths(x[k], at + (k,))
    elif isinstance(x, int) and not isinstance(x, bool):
        yield at, x


def subst(x, at, new):
    if not at:
        return new
    if isinstance(x, list):
        return [subst(v, at[1:], new) if i == at[0] else v for i, v in enumerate(x)]
    return {k: subst(v, at[1:], new) if k == at[0] else v for k, v in x.items()}


def candidates(plan):
    lists, ints = [], []
    for at, v in paths(plan):
        (lists if isinstance(v, list) else ints).append((at, v))
    lists.sort(key=lambda p: (-len(json.dumps(p[1]))))
    size = 1 << 16
    while size >= 1:
        for at, v in lists:
            if len(v) >= size:
                for i in range(0, len(v), size):
                    yield subst(plan, at, v[:i] + v[i + size:])
        size //= 2
    # hoist: replace a dict's optional parts
    for at, v in lists:
        for i, x in enumerate(v):
            if isinstance(x, dict):
                for k in ('o', 'p', 'c', 'bl', 'j', 'a', 'e'):
                    if k in x:
                        yield subst(plan, at + (i,), {a: b for a, b in x.items() if a != k})
    for at, v in ints:
        for n in (0, 1, v // 2, v - 1):
            if 0 <= n < v:
                yield subst(plan, at, n)


def minimise(servers, plan, cls, seconds):
    end = time.monotonic() + seconds
    tried = 0
    best = plan
    progress = True
    seen = set()
    while progress and time.monotonic() < end:
        progress = False
        gen = candidates(best)
        while time.monotonic() < end:
            batch = []
            for c in gen:
                h = hashlib.md5(json.dumps(c, sort_keys=True).encode()).digest()
                if h in seen:
                    continue
                seen.add(h)
                batch.append(c)
                if len(batch) == len(servers):
                    break
            if not batch:
                break
            for s, c in zip(servers, batch):
                s.send({'plan': c, 'wall': 4} if cls == 'hang' else {'plan': c})
            rs = [s.get() for s, c in zip(servers, batch)]
            tried += len(batch)
            hit = [c for c, r in zip(batch, rs) if r.get('viol') == cls]
            if hit:
                best = min(hit, key=lambda c: len(json.dumps(c)))
                progress = True
                break
    return best, tried


# ---- the check -----------------------------------------------------------------------------------------------------
def known_findings(prop):
    out = {}
    try:
        for line in open(VERIF + '/known_findings.txt'):
            if line.startswith('known: property=%s ' % prop):
                f = line.split(None, 3)
                out[f[2].partition('=')[2]] = f[3].strip() if len(f) > 3 else ''
    except FileNotFoundError:
        pass
    return out


def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='necro-', dir=base)


def write_replay(prop, seed, index, plan, res, tried, tag):
    d = OUT + '/replays'
    os.makedirs(d, exist_ok=True)
    path = '%s/%s-%s.json' % (d, prop, tag)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'index': index, 'violation': {'class': res['viol'], 'message': res['msg'],
                   'detail': res.get('detail')}, 'minimisation_runs': tried, 'plan': plan}, f, indent=1)
        f.write('\n')
    return path


def check(prop, tier, seed, wall=None, limit=None, nworkers=None, first=0, minimal=True):
    t0 = time.monotonic()
    mod = None
    sys.path.insert(0, VERIF)
    meta = load_meta(prop)
    q = meta['quick' if tier == 'quick' else 'thorough']
    wall = wall or q[1]
    limit = limit or q[0]
    n = nworkers or min(8, os.cpu_count() or 2)
    shim_path()
    tmp = scratch()
    servers = []
    violations = []
    lines = []
    known = known_findings(prop)
    try:
        servers = [Server(prop, w, n, seed, tier, '%s/w%d' % (tmp, w)) for w in range(n)]
        for s in servers:
            s.wait_ready()
        # directed runs: repaired defects must stay repaired, recorded findings are announced
        directed = meta['directed']
        dres = []
        for k in range(0, len(directed), n):
            part = directed[k:k + n]
            for s, d in zip(servers, part):
                s.send({'plan': d['plan']})
            dres += [s.get() for s, d in zip(servers, part)]
        harness = []
        for d, r in zip(directed, dres):
            if d.get('known'):
                if r.get('viol') == 'known:' + d['known'] and d['known'] in known:
                    lines.append('KNOWN-FINDING: property=%s %s' % (prop, known[d['known']]))
                    continue
            if 'viol' in r:
                violations.append(('d-' + d['name'], d['plan'], r))
            elif 'harness' in r or 'invalid' in r:
                harness.append({'index': d['name'], 'trace': r.get('harness') or r.get('invalid')})
        stats = []
        search_wall = 0
        if not violations:
            t1 = time.monotonic()
            for s in servers:
                s.send({'search': {'wall': wall, 'limit': limit, 'stop': tmp + '/stop'}})
            stats = [s.get() for s in servers]
            search_wall = time.monotonic() - t1
            found = sorted((x['viol'] for x in stats if x['viol']), key=lambda v: v['index'])
            if found:
                violations.append((found[0]['index'], found[0]['res']['plan'], found[0]['res']))
            for x in stats:
                harness += x['harness']
        tried = 0
        out = []
        for index, plan, res in violations[:1]:
            best, tried = minimise(servers, plan, res['viol'], 25 if tier == 'quick' else 60) if minimal else (plan, 0)
            # the replay must reproduce exactly, in a fresh process
            servers[0].close()
            servers[0] = Server(prop, 0, n, seed, tier, tmp + '/w0')
            servers[0].wait_ready()
            servers[0].send({'plan': best})
            again = servers[0].get()
            if again.get('viol') != res['viol']:
                best = plan
                servers[0].send({'plan': best})
                again = servers[0].get()
            if 'viol' not in again:
                harness.append({'index': index, 'trace': 'a violation did not replay: ' + res['msg']})
                continue
            path = write_replay(prop, seed, index, best, again, tried, '%s-%s' % (seed, index))
            out.append((path, again))
        for s in servers:
            s.close()
        servers = []
        runs = sum(x['runs'] for x in stats)
        faults, counts, sigs = {}, {}, set()
        for x in stats:
            for a, b in x['faults'].items():
                faults[a] = faults.get(a, 0) + b
            for a, b in x['n'].items():
                counts[a] = counts.get(a, 0) + b
            sigs.update(x['sigs'])
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'violations': len(out),
              'wall_s': round(time.monotonic() - t0, 2),
              'assumptions': meta['assumptions'],
              'coverage': {'evaluations': runs + len(directed), 'distinct_nontrivial': len(sigs), 'rule': meta['rule'],
                           'samples': [y for x in stats for y in x['samples']][:8] or [{'directed': [d['name'] for d in directed]}],
                           'simulated_runs': runs, 'directed_runs': len(directed),
                           'runs_per_hour': int(runs / search_wall * 3600) if search_wall else 0,
                           'seeds_per_hour': int(runs / search_wall * 3600) if search_wall else 0,
                           'seed_indexes': [0, max([x['next'] for x in stats] or [0])],
                           'faults_injected': faults, 'measured': counts,
                           'simulated_time': meta['simtime'], 'components': meta['components'],
                           'discarded_plans': sum(x['invalid'] for x in stats)}}
        os.makedirs(OUT + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (OUT, prop), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for l in lines:
            print(l)
        print('%s %s: %d runs (+%d directed), %d distinct, %.0fs, faults %s' %
              (prop, tier, runs, len(directed), len(sigs), time.monotonic() - t0, sum(faults.values())))
        for path, r in out:
            print('%s: %s' % (r['viol'], short(r['msg'])))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        if out:
            return 1
        if harness:
            for h in harness[:3]:
                print('HARNESS ERROR at %s\n%s' % (h['index'], h['trace']), file=sys.stderr)
            return 2
        bad = ev['coverage']['discarded_plans']
        if runs == 0 or bad * 2 > runs:
            print('HARNESS ERROR: %d of %d plans were discarded: %s' % (bad, runs, [x.get('harness_note') for x in stats][:2]), file=sys.stderr)
            return 2
        return 0
    finally:
        for s in servers:
            s.p.kill()
            s.p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


def load_meta(prop):
    """rule etc. are needed in the main process; the property modules do not import the code under test at module level"""
    mod = load(prop)
    return {'quick': getattr(mod, 'QUICK', (10 ** 9, 14)), 'thorough': getattr(mod, 'THOROUGH', (10 ** 9, 480)),
            'rule': mod.RULE, 'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
            'directed': mod.directed() if hasattr(mod, 'directed') else [],
            'components': dict(COMPONENTS, **getattr(mod, 'COMPONENTS', {})),
            'simtime': getattr(mod, 'SIMTIME', 'the code under test reads no clock; progress is measured in executed lines and file operations')}


COMMON_ASSUMPTIONS = [
    'the hand-written instruction tables and reference model in /verif/dst state the documented behaviour',
    'all file access of the process goes through libc symbols (CPython does), which is where the simulated disk sits',
]
COMPONENTS = {
    'real': 'necroassembler (all CPUs, platforms, linker) from the working tree; CPython file objects, csv and json',
    'simulated': 'disk (libc file calls below the scratch root), clock, entropy, process death, asynchronous exceptions',
    'stub': 'PIL.Image (Pillow is not installed): /verif/stub',
}


def replay(prop, path):
    data = json.load(open(path))
    tmp = scratch()
    try:
        s = Server(prop, 0, 1, data.get('seed', 1), 'quick', tmp + '/w0')
        s.wait_ready()
        s.send({'plan': data['plan']})
        r = s.get()
        s.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if 'viol' in r:
        print('%s: %s' % (r['viol'], short(r['msg'], 4000)))
        if r.get('detail'):
            print(json.dumps(r['detail'], indent=1))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if 'harness' in r:
        print(r['harness'])
        return 2
    print('no violation: %s' % {k: v for k, v in r.items() if k != 'faults'})
    return 0
