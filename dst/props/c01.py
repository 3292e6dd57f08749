"""C01: a failing build changes no file."""
import errno
from .. import project
from ..gen import plant
from ..model import Model, Bad, Skip
from ..world import fe_backend, fe_main
from ..engine import Invalid

RULE = ('one run: a generated program spread over source, include and data files, built by a random front end into a tree with prior outputs and '
        'neighbour files, with one cause of failure (bad statement, unlinkable reference, missing file, bad data, include cycle, persistent open/read '
        'error, KeyboardInterrupt/MemoryError at one executed line before the output is opened); the whole tree is compared before and after. '
        'Non-trivial: the build failed for the injected cause. Distinct: by front end, cause, place of the cause and prior state of the outputs')
QUICK = (14000, 200)

BAD_LINES = ['.unknown_directive 1', '.include "not there.inc"', '.incbin "not there.bin"', '.org', '.db 256', '.db', 'nonsense_op 1, 2', '.dw 70000', '.align 0',
             '.fill', '.fill 99999999999999999', '.ram 0', '.repeat 0', '.endrepeat', '.endmacro', '.section "a" Q', 'x y z: .db 1', '.inccsv "not there.csv"',
             '.incjson "not there.json" "a"', '.db_to_ascii 300', '.org 5 2', '.goto nowhere', '.align x', '.fill 3 999', '.export']
KINDS = ('bad', 'bad', 'link', 'link', 'missing', 'data', 'fault', 'fault', 'cycle', 'interrupt', 'interrupt', 'interrupt', 'short')
ERRNOS = [errno.EIO, errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EISDIR, errno.ESTALE]


def plan(rng, i, tier):
    for _ in range(60):
        p = project.gen(rng, fe=rng.choice(project.FES + project.ELF_FES))
        b = fe_backend(p['fe'])
        p['prior'] = project.prior(rng)
        p['others'] = project.neighbours(rng, p)
        kind = rng.choice(KINDS)
        c = {'kind': kind}
        if kind == 'bad':
            line = rng.choice(BAD_LINES + b.bad * 3)
            c['at'] = rng.randint(0, len(p['stmts']))
            if line == '.db':
                continue
            p['stmts'].insert(c['at'], {'k': 'raw', 't': line})
        elif kind == 'link':
            d = p['data']
            st = plant(rng, b, p['stmts'], rng.choice(('undef', 'range', 'align', 'neg')), lambda s: project.value(b, s, d.get(s['f'])))
            if st is None or p['fe'] in project.ELF_FES and any('missing_' in repr(s) for s in st):
                continue
            p['stmts'] = st
        elif kind == 'data':
            used = sorted(set(s['f'] for s in p['stmts'] if 'f' in s and s['k'] not in ('incbin', 'ref')))
            if not used:
                continue
            n = rng.choice(used)
            p['data'][n] = dict(p['data'][n], **{'spoil': rng.randrange(6)})
            c['f'] = n
        elif kind in ('missing', 'fault', 'cycle'):
            c['f'] = rng.randrange(100)
            if kind == 'fault':
                op = rng.choice(('openr', 'read', 'read'))
                c['rule'] = {'op': op, 'nth': rng.choice((0, 0, 0, 1)) if op == 'read' else 0, 'count': -1, 'act': 'err',
                             'arg': errno.EIO if op == 'read' and rng.random() < .7 else rng.choice(ERRNOS)}
                c['short'] = rng.choice((0, 0, 1, 3, 64))
        elif kind == 'interrupt':
            c['ppm'] = int(1000000 * rng.random())
            c['exc'] = rng.choice(('KeyboardInterrupt', 'MemoryError'))
        elif kind == 'short':
            if p['fe'] not in ('gba', 'genesis', 'cpu:gameboy'):
                continue
            p['stmts'] = [s for s in p['stmts'] if s['k'] in ('ins', 'label')][:rng.randint(0, 6)]
            p['data'] = {}
        p['cause'] = c
        if kind not in ('interrupt', 'short') and rng.random() < .15:
            # nowhere to put the output
            p['dest'] = rng.choice(('gone/out.bin', 'gone/away/o', './not/rom.img'))
            p['nodir'] = 1
            p['prior'] = None
        return p
    raise RuntimeError('no plan')


SPOIL = {
    'csv': [b'1,2,zz\n', b'1,2,300000\n', b'1,,2\n', b'\xff\xfe\n', b'1,2\n3,label\n', b'-70000'],
    'json': [b'{', b'[{"data": [1], "a": {"b": [1]}}]', b'{"data": {"zz": 1}, "a": [{"b": [1]}, {"b": [2]}], "layers": [{"map": {"data": [1]}}]}', b'{"data": "zz", "a": "b", "layers": {"map": [{"data": [3]}]}}', b'', b'{"data": [1, 2, 300], "a": {"b": [1, 999]}, "layers": {"map": {"data": [256]}}}', b'[]', b'{"data": [1, "q"], "a": {"b": ["q"]}, "layers": {"map": {"data": [{}]}}}', b'{"x": 1}'],
    'img': [b'', b'IMGP', b'IMGP\x09\x00\x08\x00' + bytes(72), b'IMGR\x08\x00\x08\x00' + bytes(64), b'IMGP\x08\x00\x08\x00' + b'\x40' * 64, b'IMGP\x08\x00\x08\x00' + bytes(63)],
}


def files_read(plan):
    """every input file of the build, in no particular order, that is certainly read"""
    f, argv = project.build_files(plan)
    used = set(s['f'] for s in plan['stmts'] if s['k'] in ('incbin', 'inccsv', 'inccsv_le16', 'incjson', 'tiles', 'chr_pattern_table'))
    return sorted(n for n in f if n in used or n not in plan['data'])


def run(plan, ctx):
    w = ctx.world
    c = plan['cause']
    kind = c['kind']
    b = fe_backend(plan['fe'])
    base = dict(plan)
    if kind in ('missing', 'fault', 'cycle', 'interrupt'):
        if project.model_of(plan) is None:
            raise Invalid('program')
    elif kind == 'link':
        m = Model(b, lambda s: project.value(b, s, plan['data'].get(s['f'])))
        try:
            for src in project.sources(plan):
                m.run(src)
                m.finish()
        except (Bad, Skip, KeyError):
            raise Invalid('program')
        if m.link()[1] != 'bad':
            raise Invalid('links')
        if plan['fe'] in project.ELF_FES and any(r.item['l'] not in m.labels for r in m.refs):
            raise Invalid('elf undefined')
    elif kind == 'bad':
        if not any(s['k'] == 'raw' for s in plan['stmts']):
            raise Invalid('nothing bad')
        rest = dict(plan, stmts=[s for s in plan['stmts'] if s['k'] != 'raw'])
        if project.model_of(rest) is None:
            raise Invalid('program')
    over = {}
    if kind == 'data':
        spec = dict(plan['data'].get(c['f']) or {})
        if 'spoil' not in spec or not any(s.get('f') == c['f'] for s in plan['stmts']):
            raise Invalid('unused')
        over[c['f']] = SPOIL[spec['k']][spec['spoil']]
        d2 = {n: {k: v for k, v in s.items() if k != 'spoil'} for n, s in plan['data'].items()}
        if project.model_of(plan, d2) is None:
            raise Invalid('program')
    rules = []
    reads = files_read(plan)
    target = None
    if kind in ('missing', 'fault', 'cycle'):
        target = reads[c['f'] % len(reads)]
    files, argv = project.lay_out(ctx, plan, over)
    import os
    where = ''
    if kind == 'missing':
        os.unlink(os.path.join(w.tree, target))
        where = kind_of(target)
    elif kind == 'cycle':
        target = argv[c['f'] % (len(argv) - 1)]
        with open(os.path.join(w.tree, target), 'ab') as f:
            f.write(b'\n.include "%s"\n' % target.encode())
    elif kind == 'fault':
        r = dict(c['rule'], f='t/' + project.glob(os.path.normpath(target)))
        if c['short']:
            rules.append({'op': 'read', 'f': 't/*', 'nth': 0, 'count': 1, 'act': 'short', 'arg': c['short']})
        rules.append(r)
        where = kind_of(target)
    inject = None
    if kind == 'interrupt':
        dry = w.build(plan['fe'], argv, inject={'nth': None, 'exc': c['exc']})
        reads = sum(x[0] == 'openr' and x[3] == 0 for x in dry.log)
        if not dry.ok:
            raise Invalid('does not build: %s %s' % (dry.exc, dry.msg))
        w.fresh()
        project.lay_out(ctx, plan, over)
        inject = {'nth': 1 + dry.lines * c['ppm'] // 1000000, 'exc': c['exc']}
    before = w.snapshot()
    r = w.build(plan['fe'], argv, rules=rules, inject=inject)
    after = w.snapshot()
    project.escaped(ctx, r)
    if kind == 'interrupt':
        if not r.injected:
            return None
        if any(x[0] == 'openw' and x[3] == 0 for x in r.log) and sum(x[0] == 'openr' and x[3] == 0 for x in r.log) >= reads:
            ctx.count('interrupts after the output was opened (not judged)')
            return None
        where = r.injected
    elif kind == 'fault' and not r.fired[-1]:
        raise Invalid('fault not reached')
    if r.ok:
        if kind == 'short':
            return None
        ctx.violate('accepted', 'the build succeeded in spite of: %s %s' % (kind, c))
    project.same_tree(ctx, before, after, 'changed', 'after a failed build (%s, %s: %s)' % (kind, r.exc, r.msg[:200]))
    ctx.count('failed builds: ' + kind)
    return [plan['fe'], kind, where, r.exc, bool(plan['prior']), len(plan.get('others', ())), c.get('at'), c.get('rule')]


def kind_of(n):
    return n.rpartition('.')[2]
