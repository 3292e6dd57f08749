"""C04: a crash during a build never leaves a hybrid output."""
import os
from .. import project
from ..world import World
from ..engine import Invalid

RULE = ('one run: a healthy build of a generated project under a pattern of short writes gives the list of its file operations; then one to three builds die '
        'at an operation of that list (before it, inside a write after any number of bytes, or after it) or at an executed line, over prior outputs; finally the build is '
        'repeated to the end. After each death: outputs are the old bytes or a prefix of the new file, every other file that existed is unchanged; the last build is exact. '
        'Distinct: by front end, place of death (operation, file role, occurrence, torn or not), prior state')
QUICK = (8000, 200)


def plan(rng, i, tier):
    p = project.gen(rng, fe=rng.choice(project.FES + project.ELF_FES), big=rng.random() < .1, cuts=rng.random() < .4, size=rng.choice((None, 4, 8)),
                    min_size=rng.choice((0, 0, 0, 0, 3000, 9000, 70000)))
    p['prior'] = project.prior(rng)
    p['others'] = project.neighbours(rng, p)
    p['short'] = rng.choice((0, 0, 1, 13, 512, 4096))
    p['crashes'] = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        if rng.random() < .15:
            p['crashes'].append({'line': rng.randrange(1000001)})
        else:
            # most operations of a build are reads: half of the deaths go to the output side
            p['crashes'].append({'op': rng.randrange(1000000), 'side': rng.randrange(2), 'when': rng.randrange(2), 'torn': rng.randrange(1000001)})
    return p


def run(plan, ctx):
    w = ctx.world
    m = project.model_of(plan)
    if m is None:
        raise Invalid('program')
    short = []
    if plan['short']:
        short = [{'op': 'write', 'f': 't/*', 'nth': 0, 'count': 40 if plan['short'] < 100 else 400, 'act': 'short', 'arg': plan['short']}]
    lines = any('line' in c for c in plan['crashes'])
    files, argv = project.lay_out(ctx, plan)
    dry = w.build(plan['fe'], argv, rules=short, inject={'nth': None, 'exc': 'die'} if lines else None)
    if not dry.ok:
        raise Invalid('healthy build fails: %s %s' % (dry.exc, dry.msg))
    outs = [plan['dest']] + ([plan['dest'] + '.0.nl', plan['dest'] + '.ram.nl'] if plan['fe'] == 'nes' else [])
    if plan['fe'] in project.ELF_FES:
        want = {plan['dest']: w.read(plan['dest'])}
    else:
        want = project.expected(plan, m)
        if want is None:
            raise Invalid('not buildable')
    ops = [x for x in dry.log if x[1].startswith('t/')]
    w.fresh()
    files, argv = project.lay_out(ctx, plan)
    sig = [plan['fe'], bool(plan['prior'])]
    died = 0
    old = {n: w.read(n) for n in outs}
    for c in plan['crashes']:
        before = w.snapshot()
        inject, rules = None, list(short)
        if 'line' in c:
            inject = {'nth': 1 + dry.lines * c['line'] // 1000000, 'exc': 'die'}
        else:
            side = [k for k, x in enumerate(ops) if x[0] not in ('openr', 'read')] if c['side'] else list(range(len(ops)))
            last = max(k for k, x in enumerate(ops))
            # closes of inputs count as input side
            side = [k for k in side if not (c['side'] and ops[k][0] == 'close' and ops[k][1][2:] in files)] or [last]
            k = side[c['op'] % len(side)]
            op, name = ops[k][0], ops[k][1]
            nth = sum(1 for x in ops[:k] if x[0] == op and x[1] == name)
            arg = c['when']
            if op == 'write':
                arg = max(0, ops[k][3]) * c['torn'] // 1000000
            rules.insert(0, {'op': op, 'f': project.glob(name), 'nth': nth, 'count': 1, 'act': 'crash', 'arg': arg})
        r = w.build(plan['fe'], argv, rules=rules, inject=inject)
        project.escaped(ctx, r)
        after = w.snapshot()
        if not r.died:
            # earlier deaths can change the course of a build (for example no old file to replace); then it just ended
            sig.append(['ended', r.ok])
            if not r.ok:
                ctx.violate('restart', 'a build after a crash fails: %s %s' % (r.exc, r.msg))
        else:
            died += 1
            if inject:
                w.count('crash:line')
                sig.append(['line', [x[0] for x in r.log[-2:]]])
            else:
                role = 'output' if name[2:] in outs else 'input' if name[2:] in files else 'other'
                sig.append([op, role, nth, 'torn' if op == 'write' and 0 < arg < ops[k][3] else c['when']])
        project.same_tree(ctx, before, {n: after.get(n) for n in before}, 'other-file', 'after a crash at %s' % sig[-1], ignore=outs)
        for n in outs:
            got = w.read(n)
            if got == old[n] or got is not None and want[n].startswith(got):
                old[n] = got
                continue
            ctx.violate('hybrid', 'after a crash at %s, %s is neither the old file nor a prefix of the new one: %s' % (sig[-1], n, project.diff(want[n], got)))
    r = w.build(plan['fe'], argv)
    if not r.ok:
        ctx.violate('restart', 'the build after the crash fails: %s %s' % (r.exc, r.msg))
    for n, data in want.items():
        if w.read(n) != data:
            ctx.violate('restart', 'the build after the crash left %s with %s' % (n, project.diff(data, w.read(n))))
    ctx.count('simulated deaths', died)
    return sig if died else None
