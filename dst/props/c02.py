"""C02: a build reported as successful has written its complete image."""
import errno
import os
from .. import project
from ..world import World
from ..engine import Invalid

RULE = ('one run: one to four consecutive command line builds (different versions of a generated program, every front end) to the same destination over prior outputs, '
        'files and outputs of any age, each under its own write-side faults: short writes of any size, EINTR, disk full after a byte count, EIO/EDQUOT/EFBIG at the nth write, open and close errors. '
        'After each build: success => every output file is exactly the expected bytes; a persistent output error or close error => no success. '
        'Non-trivial: a fault fired or an older output was replaced. Distinct: by front end, size class of the image, fault list and how each build ended')
QUICK = (10000, 200)
HARD = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EROFS]
HARMLESS = ('short', 'eintr', 'eintr1')


def fault(rng, outs):
    k = rng.choice(('short', 'short', 'eintr', 'eintr1', 'full', 'full', 'write', 'write', 'open', 'close', 'close', 'trunc'))
    f = {'k': k, 'f': rng.choice(outs + ['*'])}
    if k == 'short':
        f['n'] = rng.choice((1, 2, 7, 100, 511, 4096, 8192))
        f['count'] = rng.choice((1, 3, 60)) if f['n'] < 100 else rng.choice((1, 5, 2000))
    elif k in ('eintr', 'eintr1'):
        f['nth'], f['count'] = rng.choice((0, 0, 1, 2)), rng.choice((1, 2, 5))
    elif k == 'full':
        f['n'] = rng.choice((0, 1, 8, 100, 2048, 4096, 20000))
        f['e'] = rng.choice((errno.ENOSPC, errno.EDQUOT))
    elif k == 'write':
        f['nth'], f['count'], f['e'] = rng.choice((0, 0, 1, 2, 5)), rng.choice((1, -1)), rng.choice(HARD)
    elif k == 'open':
        f['nth'], f['count'], f['e'] = 0, rng.choice((1, -1)), rng.choice((errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS, errno.EISDIR))
    elif k == 'close':
        f['nth'], f['count'], f['e'] = 0, -1, rng.choice((errno.EIO, errno.ENOSPC, errno.EDQUOT))
    return f


def plan(rng, i, tier):
    p = project.gen(rng, fe=rng.choice(project.FES + project.ELF_FES), big=rng.random() < .12, cuts=rng.random() < .3,
                    size=rng.choice((None, None, 4)), min_size=rng.choice((0, 0, 0, 0, 5000, 9000, 40000, 140000)))
    m = project.model_of(p)
    n = len(m.link()[0])
    if rng.random() < .3 and not (m.end and m.pc <= m.end):
        # blocks of one value, up to a boundary and beyond
        size = rng.choice((512, 1024, 4096, 4096, 8192, 65536))
        q = dict(p, stmts=p['stmts'] + [{'k': 'fill', 'n': -n % size + size * rng.choice((0, 1, 1, 2, 3)) + rng.choice((0, 0, 0, 2)), 'v': rng.choice((0, 0, 0, 0xFF, None))}])
        if project.model_of(q) is not None and n % 2 == 0:
            p = q
    p['prior'] = project.prior(rng)
    p['others'] = project.neighbours(rng, p)
    outs = ['', '.0.nl', '.ram.nl'] if p['fe'] == 'nes' else ['']
    p['steps'] = []
    for n in range(rng.choice((1, 1, 2, 3, 4))):
        p['steps'].append({'drop': [rng.randrange(200) for _ in range(rng.choice((0, 0, 3, 10)))] if n or rng.random() < .2 else [],
                           'age': rng.randrange(1, 100000) if rng.random() < .5 else 0,
                           'faults': [fault(rng, outs) for _ in range(rng.choice((0, 1, 1, 2, 3)))]})
    return p


def rules_of(plan, step):
    out = []
    for f in step['faults']:
        name = 't/' + project.glob(os.path.normpath(plan['dest'] + (f['f'] if f['f'] != '*' else ''))) + ('*' if f['f'] == '*' else '')
        k = f['k']
        if k == 'short':
            out.append({'op': 'write', 'f': name, 'nth': 0, 'count': f['count'], 'act': 'short', 'arg': max(1, f['n'])})
        elif k in ('eintr', 'eintr1'):
            out.append({'op': 'openw' if k == 'eintr1' else 'write', 'f': name, 'nth': f['nth'], 'count': f['count'], 'act': 'err', 'arg': errno.EINTR})
        elif k == 'full':
            if f['n']:
                out.append({'op': 'write', 'f': name, 'nth': 0, 'count': 1, 'act': 'short', 'arg': f['n']})
            out.append({'op': 'write', 'f': name, 'nth': 1 if f['n'] else 0, 'count': -1, 'act': 'err', 'arg': f['e'], 'hard': 1})
        elif k in ('write', 'open', 'close'):
            out.append({'op': {'write': 'write', 'open': 'openw', 'close': 'close'}[k], 'f': name, 'nth': f['nth'], 'count': f['count'], 'act': 'err',
                        'arg': f['e'], 'hard': 1 if f['count'] == -1 else 0})
    return out


def run(plan, ctx):
    w = ctx.world
    sig = [plan['fe']]
    nontrivial = bool(plan['prior'])
    ref = World(w.root + '/ref')
    versions = []
    for step in plan['steps']:
        p = dict(plan)
        if step['drop']:
            keep = [s for n, s in enumerate(plan['stmts']) if n not in set(step['drop'])]
            if project.model_of(dict(plan, stmts=keep, srcs=[])) is not None:
                p = dict(plan, stmts=keep, srcs=[])
        m = project.model_of(p)
        if m is None:
            raise Invalid('program')
        if plan['fe'] in project.ELF_FES:
            ref.fresh()
            files, argv = project.build_files(p)
            ref.put(files)
            os.makedirs(os.path.dirname(os.path.join(ref.tree, p['dest'])), exist_ok=True)
            if not ref.build(p['fe'], argv).ok:
                raise Invalid('healthy build fails')
            want = {p['dest']: ref.read(p['dest'])}
        else:
            want = project.expected(p, m)
            if want is None:
                raise Invalid('not buildable')
        versions.append((p, step, want))
    first = True
    for p, step, want in versions:
        if first:
            files, argv = project.lay_out(ctx, p)
        else:
            files, argv = project.build_files(p)
            w.put(files)
        first = False
        had = w.read(p['dest'])
        if step.get('age'):
            w.age(step['age'], [os.path.normpath(p['dest'] + x) for x in ('', '.0.nl', '.ram.nl')])
        rules = rules_of(p, step)
        r = w.build(p['fe'], argv, rules=rules)
        project.escaped(ctx, r)
        hard = [x for x, n in zip(rules, r.fired) if n and x.get('hard')]
        sig.append([len(want[p['dest']]).bit_length(), bool(had), [(x['op'], x['act'], x['arg'], min(n, 3)) for x, n in zip(rules, r.fired) if n], r.ok, r.exc])
        nontrivial |= any(r.fired)
        if not r.ok:
            if not any(r.fired):
                raise Invalid('healthy build fails: %s %s' % (r.exc, r.msg))
            ctx.count('builds that reported an error')
            continue
        ctx.count('builds that reported success')
        for n, data in sorted(want.items()):
            got = w.read(n)
            if got != data:
                ctx.violate('incomplete', 'the build of %s succeeded, but %s has %s' % (p['fe'], n, project.diff(data, got)))
        for x in hard:
            if x['op'] == 'close':
                ctx.violate('close', 'closing an output failed with %s and the build succeeded' % errno.errorcode[x['arg']])
            if x['op'] == 'openw':
                ctx.violate('open', 'opening an output failed with %s and the build succeeded' % errno.errorcode[x['arg']])
    return sig if nontrivial else None
