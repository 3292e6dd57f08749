"""C12: no file stays open after a session, whether it worked or failed."""
import errno
import os
from .. import project
from ..backends import B
from ..engine import Invalid
from ..model import text_of, lines_of
from ..session import Sess
from .c03 import src_text, spoiled, raw, NAMES
from .c02 import fault as write_fault, rules_of

RULE = ('one run: either a history of sessions in one process (assemble_file, nested includes, every data directive, save, link; bad data, bad statements inside included files) or a front end '
        'build, under open/read/write/close errors, short transfers and exceptions on entry of arbitrary functions; after every step, while its exception is still held by the caller, the '
        'simulated disk counts the descriptors the process has open below the tree: it must be none. Distinct: by backend/front end, steps, faults fired, outcomes')
QUICK = (16000, 200)
ERR = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.ENOMEM, errno.EINTR]


def rnd_fault(rng):
    k = rng.choice(('err', 'err', 'short', 'line', 'line'))
    if k == 'line':
        return {'k': k, 'nth': rng.choice((rng.randint(1, 10), rng.randint(1, 60), rng.randint(1, 1000))), 'exc': rng.choice(('KeyboardInterrupt', 'MemoryError', 'OSError'))}
    if k == 'short':
        return {'k': k, 'op': rng.choice(('read', 'write')), 'n': rng.choice((1, 100, 4096)), 'count': rng.choice((1, 20))}
    return {'k': k, 'op': rng.choice(('openr', 'openw', 'read', 'read', 'write', 'close')), 'nth': rng.choice((0, 0, 1, 2, 4)), 'count': rng.choice((1, -1)), 'e': rng.choice(ERR)}


def plan(rng, i, tier):
    if rng.random() < .35:
        p = project.gen(rng, fe=rng.choice(project.FES + project.ELF_FES), data=rng.choice((0, 1, 3)))
        p['prior'] = project.prior(rng)
        p['faults'] = [rnd_fault(rng) for _ in range(rng.choice((0, 1, 1, 2)))]
        if rng.random() < .3:
            p['stmts'].insert(rng.randint(0, len(p['stmts'])), {'k': 'raw', 't': rng.choice(('.bad', '.db 999', '.include "none"', 'a b c: x', '.dw missing_label'))})
        return {'project': p}
    b = B[rng.choice(('6502', 'z80', 'lr35902', '8086', 'x86', 'mips32', '68000', 'thumb', 'ppc', 'sms', 'gameboy', 'nes', 'sms', 'gameboy', 'nes'))]
    kinds = project.data_kinds(b) + ['include', 'include', 'file']
    files = {}
    ops = []
    for n in NAMES + ['n%d' % k for k in range(rng.randint(0, 4))]:
        kind = rng.choice(kinds)
        if kind in ('include', 'file'):
            spec = src_text(rng, b)
            body = spec['st']
            for _ in range(rng.choice((0, 1, 2))):
                body.insert(rng.randint(0, len(body)), rng.choice((
                    {'k': 'raw', 't': '.include "%s"' % rng.choice(NAMES)}, {'k': 'raw', 't': '.db 1 2 999'}, {'k': 'raw', 't': 'zzz'}, {'k': 'raw', 't': '.incbin "%s"' % rng.choice(NAMES)},
                    {'k': 'raw', 't': 'q%d:' % rng.randrange(3)}, {'k': 'raw', 't': '.inccsv "%s"' % rng.choice(NAMES)}, {'k': 'raw', 't': 'a b: c'})))
        elif rng.random() < .4 and kind != 'incbin':
            spec = spoiled(rng, kind)
        else:
            spec = project.data_spec(rng, b, kind)
        if rng.random() < .93:
            files[n] = spec
    names = sorted(set(list(files) + NAMES))
    for _ in range(rng.choice((1, 3, 6, 12))):
        k = rng.choice(kinds + ['save', 'save', 'save', 'link', 'new', 'chain'])
        o = {'op': k, 'f': rng.choice(names), 'key': rng.choice(('data', 'a.b', 'x')), 'faults': [rnd_fault(rng) for _ in range(rng.choice((0, 0, 1, 1, 2)))]}
        ops.append(o)
    return {'b': b.name, 'files': files, 'ops': ops}


def compile_faults(faults):
    rules, inject = [], None
    for f in faults:
        if f['k'] == 'line':
            inject = {'nth': f['nth'], 'exc': f['exc'], 'entry': True}
        elif f['k'] == 'short':
            rules.append({'op': f['op'], 'f': 't/*', 'nth': 0, 'count': f['count'], 'act': 'short', 'arg': max(1, f['n'])})
        else:
            rules.append({'op': f['op'], 'f': 't/*', 'nth': f['nth'], 'count': 3 if f['e'] == errno.EINTR else f['count'], 'act': 'err', 'arg': f['e']})
    return rules, inject


def run(plan, ctx):
    w = ctx.world
    if 'project' in plan:
        p = plan['project']
        files, argv = project.lay_out(ctx, p)
        rules, inject = compile_faults(p['faults'])
        r = w.build(p['fe'], argv, rules=rules, inject=inject)
        ctx.count('front end builds that ' + ('worked' if r.ok else 'failed'))
        if r.nopen:
            ctx.violate('open', 'the %s build %s; %d files are still open: %s' % (p['fe'], 'worked' if r.ok else 'failed with ' + r.exc, r.nopen, still(r.log)))
        return [p['fe'], r.ok, r.exc, r.injected, [(x['op'], x['act'], min(n, 2)) for x, n in zip(rules, r.fired)]]
    b = B[plan['b']]
    os.makedirs(os.path.join(w.tree, 'dir/sub'), exist_ok=True)
    w.put({n: raw(b, s) for n, s in plan['files'].items()})
    s = Sess(ctx, b)
    sig = [b.name]
    held = []
    for o in plan['ops']:
        k = o['op']
        f = o['f']
        if k == 'new':
            s = Sess(ctx, b)
            continue
        rules, inject = compile_faults(o['faults'])
        if k == 'file':
            fn = lambda: s.asm.assemble_file(f)     # noqa: E731
        elif k == 'save':
            fn = lambda: s.asm.save('saved.bin')    # noqa: E731
        elif k == 'link':
            fn = lambda: s.asm.link()               # noqa: E731
        else:
            if k in ('include', 'chain'):
                text = '.include "%s"\n' % f * (2 if k == 'chain' else 1)
            else:
                text = lines_of(b, {'k': k, 'f': f, 'key': o['key']})[0]
            fn = lambda: s.asm.assemble(text)       # noqa: E731
        r = s.call(fn, rules=rules, inject=inject, disk=True)
        held.append(r)       # the caller keeps the exceptions
        sig.append([k, type(r.exc).__name__, r.injected, [(x['op'], x['act'], min(n, 2)) for x, n in zip(rules, r.fired)]])
        ctx.count('steps that ' + ('worked' if r.ok else 'failed'))
        if r.nopen:
            ctx.violate('open', '%s of %s %s; %d files are still open: %s' % (k, f, 'worked' if r.ok else 'failed: %r' % r, r.nopen, still(r.log)))
    return sig if len(sig) > 1 else None


def still(log):
    n = {}
    for op, name, arg, ret, err, rule in log:
        if op in ('openr', 'openw') and not err:
            n[name] = n.get(name, 0) + 1
        elif op == 'close':
            n[name] = n.get(name, 0) - 1
    return [k for k, v in n.items() if v > 0]
