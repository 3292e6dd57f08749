"""C21: builds that run at the same time do not influence each other."""
import errno
import os
from .. import project
from ..engine import Invalid
from ..world import expected_files

RULE = ('one run: two or three front end builds as simulated processes over one tree, in lock step at every file operation (open, read, write, close, rename, ..) in an order the seed decides: '
        'of the same sources to different destinations, of the same sources to the same destination, of different projects in directories of their own, some with short transfers, and possibly '
        'one that is wrong, meets a full disk, is interrupted or dies at some operation. Every healthy build has to succeed with the image of the model in its own files and the rest of the '
        'tree stays as it was. Distinct: by front ends, kind, fault and the sequence of (process, operation)')
QUICK = (6000, 200)


def plan(rng, i, tier):
    p = project.gen(rng, data=rng.choice((0, 1, 2)), fe=rng.choice(project.FES + project.ELF_FES * 2), big=rng.random() < .1)
    kind = rng.choice(('other', 'other', 'other', 'same', 'apart'))
    out = {'project': p, 'kind': kind, 'n': rng.choice((2, 2, 3))}
    near = rng.choice((['a/rom', 'b/rom', 'c/rom'], ['rom', 'rom.bin', 'rom.bin.x'], ['r1.bin', 'r2.bin', 'r3.bin'], ['out/r', 'r', 'out/out/r'], ['o.bin', 'o.img', 'o.rom'], ['x', 'X', 'y']))
    out['dests'] = near
    if kind == 'apart':
        out['others'] = [project.gen(rng, data=rng.choice((0, 1)), fe=p['fe'] if rng.random() < .6 else None, size=rng.choice((4, 12))) for _ in range(out['n'] - 1)]
    out['sched'] = schedule(rng, out['n'])
    out['prior'] = [project.prior(rng) if rng.random() < .3 else None for _ in range(out['n'])]
    if rng.random() < .4:
        out['bad'] = bad(rng)
        out['who'] = rng.randrange(out['n'])
    if rng.random() < .3:
        out['short'] = [rng.randrange(out['n']), rng.choice(('read', 'write')), rng.choice((1, 7, 100, 4096)), rng.choice((1, 5, 30))]
    return out


def schedule(rng, n):
    q = rng.random()
    if q < .3:      # one is held at some operation while another one runs as a whole
        a, b = rng.sample(range(n), 2)
        return [[a, rng.randint(0, 12)], [b, 1000000]]
    if q < .5:
        a, b = rng.sample(range(n), 2)
        return [[a, rng.randint(0, 12)], [b, rng.randint(0, 12)], [a, rng.randint(0, 12)], [b, 1000000]]
    step = rng.choice((1, 1, 2, 5))
    return [[rng.randrange(n), rng.randint(1, step)] for _ in range(rng.choice((10, 40, 150)))]


def bad(rng):
    k = rng.choice(('source', 'full', 'open', 'die', 'die', 'interrupt'))
    if k == 'source':
        return {'k': k}
    if k == 'full':
        return {'k': k, 'rule': {'op': 'write', 'nth': rng.choice((0, 0, 1)), 'count': -1, 'act': 'err', 'arg': rng.choice((errno.ENOSPC, errno.EIO))}}
    if k == 'open':
        return {'k': k, 'rule': {'op': rng.choice(('openw', 'openr')), 'nth': rng.choice((0, 0, 1, 2)), 'count': -1, 'act': 'err', 'arg': rng.choice((errno.EACCES, errno.EMFILE))}}
    if k == 'die':
        op = rng.choice(('write', 'close', 'openw', 'openr', 'read', 'any'))
        return {'k': k, 'rule': {'op': op, 'nth': rng.choice((0, 1, rng.randint(0, 12))), 'count': 1, 'act': 'crash', 'arg': rng.choice((0, 1, 100)) if op == 'write' else rng.choice((0, 1))}}
    return {'k': k, 'inject': {'nth': rng.choice((rng.randint(1, 300), rng.randint(1, 5000))), 'exc': rng.choice(('KeyboardInterrupt', 'MemoryError'))}}


def outputs(fe, dest):
    return [dest] + ([dest + '.0.nl', dest + '.ram.nl'] if fe == 'nes' else [])


def alone(w, q):
    """the output of a build that has the machine for itself"""
    w.fresh()
    files, argv = project.build_files(q)
    w.put(files)
    os.makedirs(os.path.dirname(os.path.join(w.tree, q['dest'])), exist_ok=True)
    r = w.build(q['fe'], argv)
    data = w.read(q['dest']) if r.ok else None
    w.fresh()
    return data


def run(plan, ctx):
    w = ctx.world
    n = plan['n']
    kind = plan['kind']
    p = plan['project']
    ps = [p] + (plan['others'] if kind == 'apart' else [p] * (n - 1))
    if len(ps) != n:
        raise Invalid('projects')
    procs, want, own, todo = [], [], [], []
    wrong = plan.get('who') if plan.get('bad') else None
    if wrong is not None and (kind == 'same' or wrong >= n):
        wrong = None
    for k in range(n):
        q = ps[k]
        m = project.model_of(q)
        if m is None:
            raise Invalid('program')
        dest = plan['dests'][0 if kind in ('same', 'apart') else k]
        q = dict(q, dest=dest)
        cwd = 'p%d' % k if kind == 'apart' else '.'
        files, argv = project.build_files(q)
        if k == wrong and plan['bad']['k'] == 'source':
            argv = ['wrong.s'] + argv[1:]
            files['wrong.s'] = files[project.build_files(q)[1][0]] + '\n.nonsense 1\n'
        if q['fe'] in project.ELF_FES:
            exp = {'': alone(w, q)}
        else:
            exp = expected_files(q['fe'], m.link()[0], m.label_addresses())
        if exp is None or None in exp.values():
            raise Invalid('front end')
        todo.append((files, os.path.normpath(os.path.join(w.tree, cwd)), dest, plan['prior'][k]))
        rules, inject = [], None
        if k == wrong:
            if 'rule' in plan['bad']:
                rules.append(dict(plan['bad']['rule'], f='*'))
            inject = plan['bad'].get('inject')
        s = plan.get('short')
        if s and s[0] == k:
            rules.append({'op': s[1], 'f': '*', 'nth': 0, 'count': s[3], 'act': 'short', 'arg': s[2]})
        procs.append({'fe': q['fe'], 'argv': argv, 'cwd': cwd, 'rules': rules, 'inject': inject})
        pre = '' if cwd == '.' else cwd + '/'
        want.append({pre + dest + x: v for x, v in exp.items()})
        own.append([os.path.normpath(pre + x) for x in outputs(q['fe'], dest)])
    flat = [x for o in own for x in o]
    if kind != 'same' and len(set(flat)) != len(flat):
        raise Invalid('destinations meet')
    for files, base, dest, prior in todo:
        w.put(files, base=base)
        os.makedirs(os.path.dirname(os.path.join(base, dest)), exist_ok=True)
        if prior is not None:
            w.put({dest: prior}, base=base)
    before = w.snapshot()
    res, trace = w.race(procs, plan['sched'])
    after = w.snapshot()
    switches = sum(a[0] != b[0] for a, b in zip(trace, trace[1:]))
    ctx.count('file operations in lock step', len(trace))
    ctx.count('switches between processes', switches)
    for k, r in enumerate(res):
        project.escaped(ctx, r)
        if k == wrong:
            ctx.count('builds with a fault of their own')
            continue
        if not r.ok:
            ctx.violate('fails', 'build %d (%s) of %d failed while the others ran: %s %s' % (k, procs[k]['fe'], n, r.exc, r.msg[:300]))
        for f, data in want[k].items():
            got = w.read(f)
            if got != data:
                ctx.violate('image', 'build %d (%s) of %d succeeded, but %s has %s' % (k, procs[k]['fe'], n, f, project.diff(data, got)))
    project.same_tree(ctx, before, after, 'others', 'after builds that ran at the same time', ignore=set(flat))
    return [[q['fe'] for q in procs], kind, wrong is not None and plan['bad']['k'], hash(tuple(trace)) & 0xFFFFFFFF]
