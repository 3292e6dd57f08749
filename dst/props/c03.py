"""C03: external data enters the image exactly or the build fails."""
import copy
import errno
import os
from .. import project
from ..backends import B
from ..engine import Invalid
from ..model import Bad, Skip, text_of
from ..session import Sess

RULE = ('one run: a history of sessions on one CPU/platform in which directives that read files (.include, .incbin, .inccsv, .inccsv_le16, .incjson, tile images, '
        'assemble_file) alternate with an outside party creating, replacing (also keeping the modification time), deleting, relinking files and moving the working directory, some of the directives being in files of other directories with files of the same name beside them, under short reads, EINTR and '
        'open/read errors; after each step the image must have grown by exactly the independent conversion of the content at that moment, or the step must have failed. '
        'Distinct: by backend, sequence of steps, data kind, size class, faults fired and outcome')
QUICK = (14000, 200)
NAMES = ['f0', 'dir/f1', 'f 2.dat', 'dir/sub/f3.x']
BENIGN = ('short', 'eintr')


def spoiled(rng, kind):
    from .c01 import SPOIL
    k = {'inccsv': 'csv', 'inccsv_le16': 'csv', 'incjson': 'json', 'tiles': 'img', 'chr_pattern_table': 'img'}[kind]
    return {'k': k, 'raw': rng.choice(SPOIL[k]).hex()}


ODD = (1.5, 2.0, 0.0, -1.0, 1e2, None, [], [1], {}, {'data': 1}, '', 'zz', 'a b', '1.5', '1 2', 'lab', '--1', '0x', '256', '-129')


def beyond(rng, b, kind, spec):
    """one value just outside of what the directive can take"""
    k = spec['k']
    if k == 'img' and rng.random() < .3:
        # not the size it has to have
        w, h = rng.choice(((120, 128), (128, 120), (136, 128), (128, 136), (64, 64), (256, 256), (8, 128))) if kind == 'chr_pattern_table' else rng.choice(((8, 12), (12, 8), (9, 8), (8, 9), (4, 8), (8, 4), (64, 60)))
        spec.update({'w': w, 'h': h, 'px': {'hex': bytes(w * h).hex()}})
    elif k == 'img' and rng.random() < .25:
        spec['mode'] = rng.choice('L1RA')       # without a palette
    elif k == 'img':
        px = bytearray(project.pixels(spec))
        depth = 4 if b.name == 'sms' else 2
        px[rng.randrange(len(px))] = rng.choice((1 << depth, 1 << depth, (1 << depth) + 1, 2 << depth, 255))
        spec['px'] = {'hex': px.hex()}
    elif k == 'csv' and spec['rows']:
        w = 8 if kind == 'inccsv' else 16
        r = rng.choice(spec['rows'])
        r[rng.randrange(len(r))] = rng.choice((1 << w, (1 << w) + 5, -(1 << (w - 1)) - 1, 1 << (w + 3)))
    elif k == 'json' and spec['v']:
        spec['v'][rng.randrange(len(spec['v']))] = rng.choice(ODD) if rng.random() < .5 else rng.choice((256, 257, 1000, 65536) + ((-129,) if spec['f'] != 'i' else (-1,)))


def same_size(spec):
    """other content of the same size"""
    spec = copy.deepcopy(spec)
    k = {'csv': 'rows', 'json': 'v', 'src': 'st'}.get(spec['k'])
    if k in spec:
        spec[k].reverse()
    elif 'px' in spec:
        spec['px'] = {'hex': bytes.fromhex(spec['px']['hex'])[::-1].hex()}
    elif 'rnd' in spec.get('d', ()):
        spec['d']['rnd'][0] += 1
    return spec


def src_text(rng, b):
    """a small source file: data statements only, so that it can be read any number of times"""
    st = []
    for _ in range(rng.choice((0, 1, 2, 5, 30, 400))):
        k = rng.choice(('db', 'dw', 'dd', 'ins', 'fill'))
        if k == 'ins':
            st.append({'k': 'ins', 'i': rng.randrange(len(b.plain))})
        elif k == 'fill':
            st.append({'k': 'fill', 'n': rng.choice((1, 3)), 'v': rng.randrange(256)})
        else:
            st.append({'k': k, 'it': [{'t': 'n', 'v': rng.randrange(256), 'f': rng.choice('dhb')} for _ in range(rng.randint(1, 6))]})
        if rng.random() < .2:
            st[-1]['c'] = rng.choice((' comment', ' "x" :'))
        if rng.random() < .1:
            st[-1]['bl'] = rng.randint(1, 30)
    return {'k': 'src', 'st': st, 'style': {'nl': rng.choice(('\n', '\r\n', '\r')), 'last': rng.randrange(2), 'ind': rng.choice(('', '  '))}}


def plan(rng, i, tier):
    b = B[rng.choice(('6502', 'z80', 'lr35902', '8086', 'x86', 'mips32', '68000', 'thumb', 'ppc', 'sms', 'gameboy', 'nes', 'psx', 'sms', 'gameboy', 'nes', 'simbe', 'simle'))]
    kinds = project.data_kinds(b) + ['include', 'include', 'file']
    big = rng.random() < .1
    ops = []
    have, specs = {}, {}
    for _ in range(rng.choice((3, 6, 10, 18))):
        q = rng.random()
        if q < .06:
            ops.append({'op': 'new'})
        elif q < .12:
            ops.append({'op': 'cd', 'to': rng.choice(('.', 'dir', 'dir/sub'))})
        elif q < .2 and have:
            ops.append({'op': 'del', 'f': rng.choice(sorted(have))})
        elif q < .24:
            ops.append({'op': 'ln', 'f': rng.choice(NAMES), 'to': rng.choice(NAMES)})
        elif q < .3 and have:
            ops.append({'op': 'dir', 'f': rng.choice(NAMES)})
        else:
            kind = rng.choice(kinds)
            n = rng.choice(NAMES)
            if have.get(n) != kind or rng.random() < .5:
                old = specs.get(n)
                if old and have.get(n) == kind and rng.random() < .4:
                    spec = same_size(old)
                elif kind in ('include', 'file'):
                    spec = src_text(rng, b)
                elif rng.random() < .08 and kind != 'incbin':
                    spec = spoiled(rng, kind)
                else:
                    spec = project.data_spec(rng, b, kind, big and rng.random() < .5)
                    if rng.random() < .12:
                        beyond(rng, b, kind, spec)
                ops.append({'op': 'put', 'f': n, 'spec': spec, 'how': rng.choice(('write', 'rename')), 'time': rng.choice((None, 10 ** 9))})
                have[n] = kind
                specs[n] = spec
            o = {'op': 'use', 'kind': kind, 'f': n, 'times': rng.choice((1, 1, 1, 2, 3)), 'abs': rng.random() < .1}
            if rng.random() < .2:
                # the directive is in a file of another directory
                o['wrap'] = rng.choice(('wrapd', 'dir', 'dir/sub', 'wrapd/x y'))
                if rng.random() < .7:
                    o['decoy'] = src_text(rng, b) if kind in ('include', 'file') else project.data_spec(rng, b, kind)
            if kind == 'incjson':
                o['key'] = rng.choice(('data', 'a.b', 'layers.map.data'))
                for p in ops:
                    if p['op'] == 'put' and p['f'] == n and p['spec']['k'] == 'json' and 'key' in p['spec'] and rng.random() < .9:
                        o['key'] = p['spec']['key']
            f = rng.random()
            if f < .5:
                k = rng.choice(('short', 'short', 'eintr', 'eio', 'eio', 'open', 'swap'))
                if k == 'short':
                    o['fault'] = {'k': k, 'n': rng.choice((1, 2, 5, 100, 1000, 4096)), 'count': rng.choice((1, 2, 50, 1000))}
                elif k == 'eintr':
                    o['fault'] = {'k': k, 'op': rng.choice(('read', 'openr')), 'nth': rng.choice((0, 1)), 'count': rng.choice((1, 3))}
                elif k == 'eio':
                    o['fault'] = {'k': k, 'nth': rng.choice((0, 0, 1, 2)), 'e': rng.choice((errno.EIO, errno.EISDIR, errno.ESTALE, errno.ENOMEM)), 'short': rng.choice((0, 1, 50, 4096))}
                elif k == 'open':
                    o['fault'] = {'k': k, 'e': rng.choice((errno.EACCES, errno.EMFILE, errno.ENOENT, errno.ELOOP, errno.ENOMEM))}
                else:
                    o['fault'] = {'k': k, 'spec': src_text(rng, b) if kind in ('include', 'file') else project.data_spec(rng, b, kind), 'at': rng.choice(('openr', 'read'))}
            ops.append(o)
    return {'b': b.name, 'ops': ops}


def raw(b, spec):
    if 'raw' in spec:
        return bytes.fromhex(spec['raw'])
    if spec['k'] == 'src':
        return text_of(b, spec['st'], spec['style']).encode()
    return project.raw(b, spec)


def contribution(b, s, kind, o, spec):
    """bytes the use has to add; raises Bad if it has to fail, Skip if unknown"""
    if spec is None:
        raise Bad()
    if kind in ('include', 'file'):
        if spec['k'] != 'src':
            raise Skip()
        from ..model import Model
        m = Model(b)
        m.run(spec['st'])
        return bytes(m.out)
    if 'raw' in spec:
        if kind == 'incbin':
            return raw(b, spec)
        if spec['k'] != {'inccsv': 'csv', 'inccsv_le16': 'csv', 'incjson': 'json', 'tiles': 'img', 'chr_pattern_table': 'img'}[kind]:
            raise Skip()
        if kind == 'inccsv_le16' and spec['raw'] == b'1,2,300000\n'.hex():
            raise Bad()
        raise Bad()
    if kind == 'incbin':
        return raw(b, spec)
    return project.value(b, s, spec)


def run(plan, ctx):
    b = B[plan['b']]
    w = ctx.world
    for d in ('dir/sub',):
        os.makedirs(os.path.join(w.tree, d), exist_ok=True)
    w.b = b
    s = Sess(ctx, b)
    want = bytearray()
    specs = {}       # name -> spec | ('link', name) | ('dir',)
    cwd = '.'
    sig = [b.name]
    uses = 0
    os.chdir(w.tree)

    def drop(n):
        p = os.path.join(w.tree, n)
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            os.rmdir(p)

    def resolve(n, depth=0):
        x = specs.get(n)
        if isinstance(x, tuple):
            return resolve(x[1], depth + 1) if x[0] == 'link' and depth < 8 else None
        return x
    for o in plan['ops']:
        k = o['op']
        if k == 'new':
            s = Sess(ctx, b)
            want = bytearray()
        elif k == 'cd':
            cwd = o['to']
            os.chdir(os.path.join(w.tree, cwd))
        elif k == 'del':
            drop(o['f'])
            specs.pop(o['f'], None)
        elif k == 'dir':
            drop(o['f'])
            os.mkdir(os.path.join(w.tree, o['f']))
            specs[o['f']] = ('dir',)
        elif k == 'ln':
            drop(o['f'])
            os.symlink(os.path.join(w.tree, o['to']), os.path.join(w.tree, o['f']))
            specs[o['f']] = ('link', o['to'])
        elif k == 'put':
            p = os.path.join(w.tree, o['f'])
            if isinstance(specs.get(o['f']), tuple):
                drop(o['f'])
            if o['how'] == 'rename':
                with open(p + '.new', 'wb') as f:
                    f.write(raw(b, o['spec']))
                os.replace(p + '.new', p)
            else:
                with open(p, 'wb') as f:
                    f.write(raw(b, o['spec']))
            if o.get('time') is not None:
                os.utime(p, (o['time'], o['time']))
            specs[o['f']] = o['spec']
        else:
            one_use(ctx, s, b, o, resolve(o['f']), want, cwd, sig, specs)
            uses += 1
    r = s.link() if not (b.name == 'gameboy' and len(want) < 0x150) else None
    if r is not None:
        ctx.check(r.ok, 'link', lambda: 'linking data only fails: %r' % r)
        final = bytearray(want)
        if b.name == 'gameboy':
            from ..model import gb_fix
            gb_fix(final)
        if s.bytes() != final:
            ctx.violate('wrong-data', 'the linked image has ' + project.diff(bytes(final), s.bytes()))
    return sig if uses else None


def wrapped(w, o, name, text, cwd):
    """the text as a source file of its own in another directory; names stay relative to the working directory"""
    d = os.path.join(w.tree, o['wrap'])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'wrap.s'), 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    w.decoy = None
    if o.get('decoy') and not os.path.isabs(name):
        p = os.path.normpath(os.path.join(d, name))
        if not os.path.lexists(p) and os.path.relpath(p, w.tree) not in NAMES and p.startswith(w.tree + '/'):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(raw(w.b, o['decoy']))
            w.decoy = p
            w.count('a file of that name beside the including file')
    return '.include "%s"\n' % os.path.relpath(os.path.join(d, 'wrap.s'), os.path.join(w.tree, cwd))


def unwrap(w, o):
    os.unlink(os.path.join(w.tree, o['wrap'], 'wrap.s'))
    if w.decoy:
        os.unlink(w.decoy)


def one_use(ctx, s, b, o, spec, want, cwd, sig, specs):
    w = ctx.world
    kind = o['kind']
    name = os.path.relpath(os.path.join(w.tree, o['f']), os.path.join(w.tree, cwd))
    if o.get('abs'):
        name = os.path.join(w.tree, o['f'])
    st = {'k': kind, 'f': name, 'key': o.get('key')}

    def value(sp):
        return contribution(b, dict(st), kind, o, sp)
    try:
        add = [value(spec) * o['times']]
    except Bad:
        add = []
    except Skip:
        return
    f = o.get('fault')
    rules = []
    must_fail = False
    real = o['f']
    seen = set()
    while isinstance(specs.get(real), tuple) and specs[real][0] == 'link' and real not in seen:
        seen.add(real)
        real = specs[real][1]
    pat = 't/' + project.glob(o['f'])
    if f:
        k = f['k']
        if k == 'short':
            rules = [{'op': 'read', 'f': pat, 'nth': 0, 'count': f['count'], 'act': 'short', 'arg': max(1, f['n'])}]
        elif k == 'eintr':
            rules = [{'op': f['op'], 'f': pat, 'nth': f['nth'], 'count': f['count'], 'act': 'err', 'arg': errno.EINTR}]
        elif k == 'eio':
            if f['short']:
                rules = [{'op': 'read', 'f': pat, 'nth': 0, 'count': f['nth'], 'act': 'short', 'arg': f['short']}] if f['nth'] else []
            rules = [{'op': 'read', 'f': pat, 'nth': f['nth'], 'count': -1, 'act': 'err', 'arg': f['e'], 'hard': 1}] + rules
        elif k == 'open':
            rules = [{'op': 'openr', 'f': pat, 'nth': 0, 'count': -1, 'act': 'err', 'arg': f['e'], 'hard': 1}]
        elif k == 'swap' and not isinstance(specs.get(o['f']), tuple) and o['times'] == 1 and spec is not None:
            side = os.path.join(w.root, 'side', 'swap')
            with open(side, 'wb') as fh:
                fh.write(raw(b, f['spec']))
            rules = [{'op': f['at'], 'f': pat, 'nth': 0, 'count': 1, 'act': 'replace', 'extra': 't/%s=%s' % (o['f'], side)}]
    if kind == 'file':
        def fn():
            for _ in range(o['times']):
                s.asm.assemble_file(name)
    else:
        from ..model import lines_of
        if kind == 'include':
            text = '.include "%s"\n' % name
        else:
            text = lines_of(b, st)[0] + '\n'

        text *= o['times']
        if o.get('wrap'):
            text = wrapped(w, o, name, text, cwd)

        def fn():
            s.asm.assemble(text)
    before = s.bytes()
    r = s.call(fn, rules=rules, disk=True)
    hard = any(n and x.get('hard') for x, n in zip(rules, r.fired))
    swapped = rules and rules[0]['act'] == 'replace' and r.fired[0]
    if swapped:
        try:
            new = value(f['spec'])
            # replaced before the open: the new content; while being read: the old or the new one, but all of it
            add = [new] if f['at'] == 'openr' else add + [new]
        except Bad:
            add = [] if f['at'] == 'openr' else add
        specs[o['f']] = f['spec']
    if o.get('wrap') and kind != 'file':
        unwrap(w, o)
    got = s.bytes()
    sig.append([kind, o['times'], len(add[0]).bit_length() if add else 'bad', [(x['op'], x['act'], min(n, 2)) for x, n in zip(rules, r.fired) if n], type(r.exc).__name__])
    what = '%s of %s (%s)' % (kind, o['f'], f)
    if got[:len(before)] != before:
        ctx.violate('damaged', '%s changed bytes before it' % what)
    grown = got[len(before):]
    if r.ok:
        ctx.count('reads that succeeded')
        if hard:
            ctx.violate('unreadable', '%s: reading failed, the step went on and added %d bytes' % (what, len(grown)))
        if not add:
            ctx.violate('accepted', '%s: unusable or missing data was accepted, it added %s' % (what, grown[:20].hex()))
        if grown not in add:
            ctx.violate('wrong-data', '%s: contributed %s' % (what, project.diff(add[0], grown)))
        want += grown
    else:
        ctx.count('reads that failed')
        if add and not any(r.fired) and o['times'] >= 1:
            ctx.violate('refused', '%s: healthy data was refused: %r' % (what, r))
        if not isinstance(r.exc, Exception):
            ctx.violate('refused', '%s: %r' % (what, r))
        # uses completed before the failing one stay; nothing partial of a single data directive may
        each = (add[0][:len(add[0]) // o['times']] if add else b'')
        full = [each * n for n in range(o['times'])]
        if kind not in ('include', 'file') and grown not in full:
            ctx.violate('partial', '%s: failed with %r but left %d bytes of a partial read' % (what, r, len(grown)))
        want += grown
