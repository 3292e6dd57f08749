"""C11: builds are reproducible."""
import os
import subprocess
import sys
from .. import project
from ..engine import Invalid, VERIF, REPO
from ..world import World

RULE = ('one run: a generated project is built once in a plain environment and then again in up to four environments, each changing a random subset of: hash seed '
        '(fresh interpreter), simulated wall clock and entropy, random module seed, environment variables, locale and time zone, working directory and absolute location of the '
        'tree, .log ON, the thread running the build, earlier builds of other programs in the process (some failing), older outputs, modification times, short and interrupted reads and writes. '
        'All output files must be byte-identical. Distinct: by front end and set of changed factors')
QUICK = (3000, 200)
THOROUGH = (10 ** 9, 480)
SIMTIME = 'the simulated clock is set anywhere in 1970..2038 and steps by up to an hour per reading; how often it was read is under measured (CPython itself reads it when it opens a text file or starts a thread)'
FACTORS = ('clock', 'random', 'env', 'location', 'log', 'thread', 'earlier', 'old', 'chunks', 'gc', 'ages')
ENVS = [{'LANG': 'C'}, {'LC_ALL': 'POSIX'}, {'TZ': 'Asia/Tokyo'}, {'HOME': '/nonexistent'}, {'USER': 'somebody', 'LOGNAME': 'x'}, {'PYTHONIOENCODING': 'utf-16'}, {'COLUMNS': '7'},
        {'SOURCE_DATE_EPOCH': '1'}, {'DEBUG': '1', 'VERBOSE': '1'}, {'CI': 'true'}, {'PATH': '/'}, {'TMPDIR': '/nonexistent'}, {'PWD': '/somewhere/else'},
        {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'utf-8'}]


def plan(rng, i, tier):
    p = project.gen(rng, fe=rng.choice(project.FES + project.ELF_FES * 3), data=rng.choice((0, 1, 2)), big=rng.random() < .05)
    if i % 5 == 1:
        # wrong in several places: the same error every time
        p['wrong'] = [rng.choice(('%s_u', 'u%s', 'Und%s', '_%s')) % rng.randrange(100000) for _ in range(rng.choice((1, 2, 3, 6)))]
        p['hashes'] = [rng.randrange(4294967295) for _ in range(2)]
        p['log'] = rng.random() < .5
        return p
    p['variants'] = []
    for n in range(rng.choice((1, 2, 3))):
        v = {f: rng.randrange(1 << 30) for f in FACTORS if rng.random() < .4}
        p['variants'].append(v)
    if i % 3 == 0 or tier == 'thorough' and i % 2:
        p['variants'].append({'hash': rng.choice((1, 2, 7, 12345, rng.randrange(4294967295))), 'env': rng.randrange(1 << 30) if rng.random() < .6 else len(ENVS) - 1, 'location': rng.randrange(1 << 30)})
        if rng.random() < .5:
            p['variants'][-1]['old'] = rng.randrange(1 << 30)
    if rng.random() < .6:
        q = project.gen(rng, fe=p['fe'] if rng.random() < .6 else None, data=0, size=8)
        # the same names for other things
        p['earlier'] = {k: q[k] for k in ('fe', 'stmts', 'data', 'cuts', 'srcs', 'style')}
        p['earlier']['dest'] = 'earlier.out'
        p['earlier']['fail'] = rng.randrange(3)
    return p


def run(plan, ctx):
    w = ctx.world
    m = project.model_of(plan)
    if m is None:
        raise Invalid('program')
    outs = [plan['dest']] + ([plan['dest'] + '.0.nl', plan['dest'] + '.ram.nl'] if plan['fe'] == 'nes' else [])
    project.lay_out(ctx, plan)
    files, argv = project.build_files(plan)
    if 'wrong' in plan:
        return wrong(plan, ctx, files, argv)
    r = w.build(plan['fe'], argv)
    if not r.ok:
        raise Invalid('healthy build fails: %s %s' % (r.exc, r.msg))
    base = {n: w.read(n) for n in outs}
    sig = [plan['fe']]
    for k, v in enumerate(plan['variants']):
        got, ok, note = variant(ctx, plan, v, k, outs)
        sig.append(sorted(v))
        for f in v:
            ctx.count('factor ' + f)
        if not ok:
            ctx.violate('fails', 'the build fails with %s changed: %s' % (sorted(v), note))
        for n in outs:
            if got[n] != base[n]:
                ctx.violate('differs', '%s differs with %s changed: %s' % (n, sorted(v), project.diff(base[n] or b'', got[n])))
    return sig


def wrong(plan, ctx, files, argv):
    w = ctx.world
    add = ''.join('\n.dw %s' % n for n in plan['wrong']) + '\n'
    if plan['log']:
        files[argv[0]] = '.log ON\n' + files[argv[0]]
    files[argv[-2]] = files[argv[-2]] + add
    w.put(files)
    before = w.snapshot()
    res = []
    for h in plan['hashes']:
        r = fresh(plan['fe'], argv, w.tree, {'PYTHONHASHSEED': str(h)})
        res.append((r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')))
    if res[0][0] == 0:
        raise Invalid('not wrong')
    for k, what in enumerate(('exit status', 'log', 'error')):
        if res[0][k] != res[1][k]:
            ctx.violate('error', 'the %s of a build that fails differs between two hash seeds: %s / %s' % (what, str(res[0][k])[-300:], str(res[1][k])[-300:]))
    project.same_tree(ctx, before, w.snapshot(), 'wrong', 'after builds that failed')
    ctx.count('failing builds compared', 2)
    return [plan['fe'], 'wrong', res[0][2][:40]]


def fresh(fe, args, cwd, env):
    e = {'PATH': os.environ.get('PATH', ''), 'PYTHONPYCACHEPREFIX': '/nonexistent/pycache', 'NECRO_REPO': REPO, 'LC_ALL': 'C.UTF-8'}
    e.update(env)
    return subprocess.run([sys.executable, '-B', VERIF + '/dst/fresh.py', fe] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=15)


def variant(ctx, plan, v, k, outs):
    p = plan
    if 'log' in v:
        # a logging build; the directive is a statement of its own
        p = dict(plan, stmts=[{'k': 'log', 'v': 'ON'}] + [s for s in plan['stmts'] if s['k'] != 'log' or s['v'] == 'ON'],
                 srcs=[x + 1 for x in plan['srcs']])
        if len(p['stmts']) != len(plan['stmts']) + 1:
            p['srcs'] = []
            if plan['srcs']:
                p = plan
    w = ctx.world
    root = w.root + '/v%d' % k
    cwd = '.'
    if 'location' in v:
        root = w.root + '/' + ['x', 'a much longer place/with spaces', 'UPPER/lower', 'deep/er/and/deep/er/still', 'v.1;2'][v['location'] % 5] + str(k)
    x = World(root)
    x.fresh()
    files, argv = project.build_files(p)
    x.put(files)
    os.makedirs(os.path.dirname(os.path.join(x.tree, plan['dest'])), exist_ok=True)
    if 'old' in v:
        for n in outs:
            x.put({n: {'rnd': [v['old'], v['old'] % 9000]}})
    if 'ages' in v:
        x.age(v['ages'] + 1, outs)
    if v.get('location', 0) & 8:
        argv = [os.path.join(x.tree, a) for a in argv]
    env = dict(ENVS[v['env'] % len(ENVS)]) if 'env' in v else {}
    if 'hash' in v:
        r = fresh(p['fe'], argv, x.tree, dict(env, PYTHONHASHSEED=str(v['hash'])))
        return {n: x.read(n) for n in outs}, r.returncode == 0, r.stderr.decode('utf-8', 'replace')[-300:]
    rules = []
    if 'chunks' in v:
        n = (1, 3, 17, 1000)[v['chunks'] % 4]
        rules += [{'op': 'read', 'f': '*', 'nth': 0, 'count': 200, 'act': 'short', 'arg': n}, {'op': 'openr', 'f': '*', 'nth': 1, 'count': 2, 'act': 'err', 'arg': 4},
                  {'op': 'write', 'f': '*', 'nth': 0, 'count': 1, 'act': 'err', 'arg': 4}, {'op': 'write', 'f': '*', 'nth': 0, 'count': 100, 'act': 'short', 'arg': n}]
    clock = None
    if 'clock' in v:
        clock = {'now': (v['clock'] % 2147483648) * 10 ** 9, 'tick': (v['clock'] % 3600000) * 10 ** 6, 'rnd': v['clock']}
    earlier = None
    if 'earlier' in v and plan.get('earlier'):
        q = plan['earlier']
        x.put(project.build_files(dict(q, data={n: s for n, s in q['data'].items()}))[0], base=x.root + '/pre')
        earlier = (q, v['earlier'])

    def pre():
        import random
        if 'gc' in v:
            import gc
            (gc.disable, lambda: gc.set_threshold(1), gc.collect)[v['gc'] % 3]()
        if 'random' in v:
            random.seed(v['random'])
        if earlier:
            here = os.getcwd()
            os.chdir(x.root + '/pre')
            q, n = earlier
            from ..world import fe_main
            argv0 = sys.argv
            _, a = project.build_files(q)
            for i in range(1 + n % 3):
                sys.argv = ['x'] + (a if i or q['fail'] else a[:-1] + ['no/such/dir/out'])
                try:
                    fe_main(q['fe'])()
                except Exception:
                    pass
            sys.argv = argv0
            os.chdir(here)
    if 'clock' in v:
        ctx.count('simulated seconds spanned by clocks', v['clock'] % 3600)
    r = x.build(p['fe'], argv, rules=rules, env=env, pre=pre, clock=clock, thread='thread' in v)
    for a, b in x.faults.items():
        w.count(a, b)
    if r.clock_reads:
        ctx.count('clock or entropy reads in builds ' + ('with a second thread' if 'thread' in v else 'in one thread'), r.clock_reads)
    return {n: x.read(n) for n in outs}, r.ok, '%s %s' % (r.exc, r.msg)
