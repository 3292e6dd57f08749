"""A project is a front end, a program, the files it is spread over and the data files it includes.  Plan form:
 {'fe':.., 'stmts':[..], 'srcs':[statement index..], 'cuts':[{'a':line,'n':lines,'in':[cuts]}..] (line ranges that become include
  files), 'style':{..}, 'data':{name: data spec}, 'dest':name}
Everything else (texts, expected image, expected files) is derived when the run starts."""
import json
from .backends import B
from .gen import program
from .model import Model, Bad, Skip, lines_of
from .world import content, fe_backend, multi_source, expected_files

FES = ['cpu:' + n for n in ('6502', 'z80', 'lr35902', '8086', 'x86', 'mips32', '68000', 'thumb', 'ppc', 'sms', 'gameboy')] + \
      ['nes', 'gba', 'genesis', 'psx', 'nes', 'psx']
ELF_FES = ['i386', 'x64', 'ppc']
INC_NAMES = ['a.inc', 'lib/b.s', 'part two.s', 'lib/deep/er/c.asm', 'd', 'x.S.inc', 'lib/../e.inc', './f.s', 'UPPER.INC', 'g-1.s', 'h_2.s', 'i.s', '$HOME.s', '~/j.s', '%d{0}.s', "k'l.inc", '#m.s', 'n*.s']


# ---- data files ----------------------------------------------------------------------------------------------------
def pixels(spec):
    return content(spec['px'])


def raw(b, spec):
    """file bytes of a data spec"""
    k = spec['k']
    if k == 'bin':
        return content(spec['d'])
    if k == 'csv':
        nl = spec.get('nl', '\n')
        text = nl.join(','.join(('"%s"' if spec.get('q') else '%s') % b.number(v, spec.get('f', 'd')) for v in row) for row in spec['rows'])
        return (text + (nl if spec.get('last', 1) else '')).encode()
    if k == 'json':
        v = '[' + (', ' if not spec.get('nl') else ',\n  ').join(
            json.dumps(x) if spec.get('f', 'i') == 'i' or type(x) is not int else '"%s"' % b.number(x, spec['f']) for x in spec['v']) + ']'
        parts = spec['key'].split('.')
        for p in reversed(parts):
            v = '{"other": [1, 2], "%s": %s, "zz": "x"}' % (p, v)
        return v.encode()
    if k == 'img':
        return b'IMG' + spec.get('mode', 'P').encode() + bytes([spec['w'] & 255, spec['w'] >> 8, spec['h'] & 255, spec['h'] >> 8]) + pixels(spec)
    if k == 'text':
        return content(spec['d'])
    raise AssertionError(k)


def value(b, s, spec):
    """what the directive has to contribute; Bad if the build has to fail"""
    k = s['k']
    if spec is None:
        raise Bad()
    if k == 'incbin':
        return raw(b, spec)
    if k in ('inccsv', 'inccsv_le16'):
        if spec['k'] != 'csv':
            raise Skip()
        w = 1 if k == 'inccsv' else 2
        out = b''
        for row in spec['rows']:
            for v in row:
                if not -(1 << (8 * w - 1)) <= v < 1 << (8 * w):
                    raise Bad()
                out += (v & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
        return out
    if k == 'incjson':
        if spec['k'] != 'json':
            raise Skip()
        if s['key'] != spec['key']:
            raise Bad()
        out = b''
        for v in spec['v']:
            if type(v) is not int:
                raise Bad()
            if not (-128 if spec.get('f', 'i') != 'i' else 0) <= v < 256:
                raise Bad()
            out += bytes([v & 255])
        return out
    if spec['k'] != 'img':
        raise Skip()
    px, w, h = pixels(spec), spec['w'], spec['h']
    if spec.get('mode', 'P') != 'P' or len(px) < w * h:
        raise Bad()
    if k == 'chr_pattern_table':
        if (w, h) != (128, 128):
            raise Bad()
    elif w % 8 or h % 8:
        raise Bad()
    depth = 4 if b.name == 'sms' else 2
    out = bytearray()
    for cy in range(0, h, 8):
        for cx in range(0, w, 8):
            cell = [px[(cy + y) * w + cx:(cy + y) * w + cx + 8] for y in range(8)]
            if max(max(r) for r in cell) >= 1 << depth:
                raise Bad()
            rows = [[sum(((r[x] >> d) & 1) << (7 - x) for x in range(8)) for d in range(depth)] for r in cell]
            if k == 'chr_pattern_table':
                out += bytes([r[0] for r in rows]) + bytes([r[1] for r in rows])
            else:
                for r in rows:
                    out += bytes(r)
    return bytes(out)


SIZES = (0, 1, 2, 7, 100, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, 20000)
BIG = (65535, 65536, 65537, 131072, 131073, 200001)


def data_spec(rng, b, kind, big=False):
    if kind == 'incbin':
        n = rng.choice(BIG) if big else rng.choice(SIZES)
        q = rng.random()
        if q < .2:
            return {'k': 'bin', 'd': {'cat': [{'rep': [rng.choice((0, 10, 13, 26, 255)), n // 2]}, {'rnd': [rng.randrange(1 << 30), n - n // 2]}]}}
        if q < .4:
            return {'k': 'bin', 'd': ''.join(rng.choice(('line\n', 'crlf\r\n', 'cr\r', '\x1a', '; c', 'x: y')) for _ in range(rng.randint(0, 30)))}
        return {'k': 'bin', 'd': {'rnd': [rng.randrange(1 << 30), n]}}
    if kind in ('inccsv', 'inccsv_le16'):
        w = 8 if kind == 'inccsv' else 16
        rows = [[rng.choice((0, (1 << w) - 1, rng.randrange(1 << w), -rng.randint(1, 1 << (w - 1)) if rng.random() < .3 else rng.randrange(200)))
                 for _ in range(rng.randint(1, 12))] for _ in range(rng.choice((0, 1, 2, 5, 40, 900 if big else 3)))]
        return {'k': 'csv', 'rows': rows, 'f': rng.choice('ddh'), 'nl': rng.choice(('\n', '\r\n')), 'last': rng.randrange(2), 'q': rng.random() < .2}
    if kind == 'incjson':
        f = rng.choice('iidh')
        return {'k': 'json', 'v': [rng.choice((0, 255, rng.randrange(256), 128)) for _ in range(rng.choice((0, 1, 3, 30, 3000 if big else 9)))],
                'key': rng.choice(('data', 'a.b', 'layers.map.data')), 'f': f, 'nl': rng.randrange(2)}
    if kind == 'chr_pattern_table':
        w = h = 128
    else:
        w, h = 8 * rng.randint(1, 4), 8 * rng.randint(1, 3)
    depth = 4 if b.name == 'sms' else 2
    if kind == 'tiles' and (big or rng.random() < .1):
        w = 8 * rng.choice((rng.randint(8, 31), 32, 33, 40, 64))
    elif kind == 'tiles' and rng.random() < .1:
        w, h = 8, 8 * rng.choice((32, 33, 50))
    px = bytes(x & ((1 << depth) - 1) for x in rng.randbytes(w * h)) if rng.random() < .9 else bytes(w * h)
    return {'k': 'img', 'w': w, 'h': h, 'px': {'hex': px.hex()}}


def data_kinds(b):
    kinds = ['incbin', 'incbin', 'inccsv', 'inccsv_le16', 'incjson']
    if b.name in ('sms', 'gameboy'):
        kinds.append('tiles')
    if b.name == 'nes':
        kinds.append('chr_pattern_table')
    return kinds


EXT = {'incbin': '.bin', 'inccsv': '.csv', 'inccsv_le16': '.csv', 'incjson': '.json', 'tiles': '.png', 'chr_pattern_table': '.png'}


def data_set(rng, b, n, big=False, kinds=None):
    data, uses = {}, []
    for i in range(n):
        kind = rng.choice(kinds or data_kinds(b))
        name = '%s%d%s' % (rng.choice(('d', 'gfx/t', 'my data ', 'D')), i, EXT[kind])
        data[name] = spec = data_spec(rng, b, kind, big and rng.random() < .5)
        u = {'k': kind, 'f': name}
        if kind == 'incjson':
            u['key'] = spec['key']
        uses.append(u)
    return data, uses


# ---- projects ------------------------------------------------------------------------------------------------------
def random_cuts(rng, depth=0):
    out = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        out.append({'a': rng.randrange(40), 'n': rng.choice((0, 1, 1, 2, 5, 12, 40)), 'in': random_cuts(rng, depth + 1) if depth < 4 and rng.random() < .5 else []})
    return out


def gen(rng, fe=None, feats=None, size=None, data=None, cuts=True, srcs=True, big=False, min_size=0):
    fe = fe or rng.choice(FES)
    b = fe_backend(fe)
    d, uses = data_set(rng, b, rng.randint(0, 3) if data is None else data, big)
    need = {'gba': 0xC0, 'genesis': 0x200}.get(fe, 0)

    multi = rng.random() < .3

    def extra(g):
        g.cfg.multiline = multi
        if fe in ELF_FES:
            g.add({'k': 'section', 'n': '.text', 'p': 'RX', 'o': None})     # exported labels need one
            g.cfg.exports = rng.random() < .6
            if g.cfg.exports:
                g.cfg.feats = set(g.cfg.feats) | {'section'}
                for _ in range(rng.choice((0, 2, 5, 12))):
                    g.free.append(g.newname())
                    g.names.append(g.free[-1])
                g.cfg.all_exports = rng.choice((.3, .8))
        if fe == 'nes' or b.name == 'gameboy':
            if rng.random() < .7:
                cartridge(rng, g)
        if fe == 'nes' and rng.random() < .5:
            for k in range(rng.choice((1, 2, 4))):
                # labels at the limits of the symbol files
                g.add({'k': 'org', 's': rng.choice((0, 0x7FE, 0x7FF, 0x800, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000)), 'e': None})
                g.add({'k': 'label', 'n': g.free[0]} if g.free else None)
                if rng.random() < .5:
                    g.add({'k': 'ram', 'n': rng.choice((1, 2))})
                    g.add({'k': 'label', 'n': g.free[0]} if g.free else None)
        if need and rng.random() < .7:
            g.add({'k': 'fill', 'n': need + rng.randrange(60) * 2, 'v': rng.choice((None, 0, 0x5A))})
    for _ in range(30):
        b, stmts, m = program(rng, b, feats, size, content=lambda s: value(b, s, d.get(s['f'])), extra=extra, files=uses, limit=400000 if big else 60000)
        # pad to what the front end needs
        n = len(m.link()[0])
        pad = max(need - n, min_size - n, 0)
        if fe == 'genesis' and (n + pad) % 2:
            pad += 1
        if pad:
            if m.end and m.pc <= m.end:
                continue
            stmts = stmts + [{'k': 'fill', 'n': pad, 'v': None}]
        plan = {'fe': fe, 'stmts': stmts, 'data': d, 'dest': rng.choice(('out.bin', 'out/rom.img', 'o', 'rom.out.v2', 'sub dir/x.bin')),
                'style': {'nl': rng.choice(('\n', '\n', '\r\n', '\r')), 'last': rng.randrange(2), 'ind': rng.choice(('', '    ', '\t'))},
                'srcs': [], 'cuts': random_cuts(rng) if cuts else [], 'names': rng.choice((0, rng.randrange(len(INC_NAMES))))}
        if srcs and multi_source(fe) and rng.random() < .4:
            plan['srcs'] = sorted(rng.randint(0, len(stmts)) for _ in range(rng.choice((1, 1, 2, 3))))
        if model_of(plan) is not None:
            return plan
    raise RuntimeError('no project for ' + fe)


def cartridge(rng, g):
    b = g.b
    if b.name == 'gameboy':
        if g.m.out or not g.add({'k': 'fill', 'n': 256, 'v': None}):
            return
        g.add({'k': 'cartridge'})
        fields = [('cartridge_title', 16), ('cartridge_license', 2), ('cartridge_cgb', 1), ('cartridge_sgb', 1), ('cartridge_type', 1), ('cartridge_destination', 1), ('cartridge_title', 16)]
        rng.shuffle(fields)
        for d, n in fields:
            if rng.random() < .4:
                g.add({'k': 'cart', 'd': d, 'it': cart_items(rng, n)})
    elif b.name == 'nes':
        g.add({'k': 'cartridge'})
        for d in ('cartridge_prg_roms', 'cartridge_chr_roms'):
            if rng.random() < .5:
                g.add({'k': 'cart', 'd': d, 'it': cart_items(rng, 1)})
        if rng.random() < .7:
            g.add({'k': 'org', 's': rng.choice((0x8000, 0xC000, 0xFF00)), 'e': None})


def cart_items(rng, n):
    if n > 1 and rng.random() < .6:
        return [{'t': 's', 'v': ''.join(rng.choice('ABCXYZ 01') for _ in range(rng.randint(1, n)))}]
    return [{'t': 'n', 'v': rng.randrange(256), 'f': rng.choice('dh')} for _ in range(rng.randint(1, n))]


def sources(plan):
    """statement lists, one per source file"""
    st = plan['stmts']
    at = sorted(min(max(0, x), len(st)) for x in plan.get('srcs', ()))
    at = [0] + at + [len(st)]
    return [st[a:b] for a, b in zip(at, at[1:])]


def model_of(plan, data=None):
    """the model after all sources; None if the program is not acceptable"""
    b = fe_backend(plan['fe'])
    data = plan['data'] if data is None else data
    m = Model(b, lambda s: value(b, s, data.get(s['f'])))
    try:
        for src in sources(plan):
            m.run(src)
            m.finish()
    except (Bad, Skip, KeyError):
        return None
    if m.link()[0] is None:
        return None
    return m


def physical(b, stmts, style):
    """source lines with their statement numbers: [(text, statement index)..]"""
    out = []
    ind = style.get('ind', '')
    glue = False
    for n, s in enumerate(stmts):
        for i, l in enumerate(lines_of(b, s)):
            if s['k'] != 'label':
                l = ind + l
            if s.get('c') and i == 0 and s['k'] != 'note':
                l += ' ;' + s['c']
            if glue and s['k'] not in ('note',):
                l = out.pop()[0] + ' ' + l
            glue = False
            out.append((l, n))
        if s['k'] == 'label' and s.get('j') and not s.get('c') and not s.get('bl') and n + 1 < len(stmts) and stmts[n + 1]['k'] not in ('note', 'macro'):
            glue = True
        for _ in range(s.get('bl', 0)):
            out.append(('', n))
    return out


def render(b, stmts, plan, name, files, names, where=None):
    """write the text of a source and its includes into files; where: collects statement -> [(file, line)]"""
    style = plan.get('style', {})
    nl = style.get('nl', '\n')

    def put(fname, lines, cuts):
        out = []
        pos = 0
        for c in sorted(cuts, key=lambda c: c['a']):
            a = min(c['a'], len(lines))
            if a < pos or not names:
                continue
            out += lines[pos:a]
            inc = names.pop(0)
            out.append(('.include "%s"' % inc, None))
            put(inc, lines[a:a + c['n']], c.get('in', ()))
            pos = min(a + c['n'], len(lines))
        out += lines[pos:]
        if where is not None:
            for i, (l, n) in enumerate(out):
                if n is not None:
                    where.setdefault(n, []).append((fname, i + 1, l))
        # (a string may go on over several lines)
        text = nl.join(l.replace('\n', nl) for l, _ in out)
        if style.get('last', 1) and out:
            text += nl
        files[fname] = text
    put(name, physical(b, stmts, style), plan.get('cuts', ()))


def build_files(plan, where=None):
    """-> (files, argv)"""
    b = fe_backend(plan['fe'])
    files = {n: raw(b, s) for n, s in plan['data'].items() if s is not None}
    k = plan.get('names', 0) % len(INC_NAMES)
    names = INC_NAMES[k:] + INC_NAMES[:k]
    argv = []
    for i, src in enumerate(sources(plan)):
        name = ('main.s', 'second.s', 'src/third.s', 'fourth')[i] if i < 4 else 'src%d.s' % i
        render(b, src, plan, name, files, names, where)
        argv.append(name)
    argv.append(plan['dest'])
    return files, argv


def expected(plan, m):
    """{file: bytes} for the destination and its symbol files"""
    res = expected_files(plan['fe'], m.link()[0], m.label_addresses())
    return None if res is None else {plan['dest'] + k: v for k, v in res.items()}


PRIORS = ('none', 'none', 'short', 'long', 'same', 'readonly')


def prior(rng):
    k = rng.choice(('none', 'none', 'short', 'long', 'long', 'long', 'empty'))
    if k == 'empty':
        return {'rep': [0, 0]}
    return None if k == 'none' else {'rnd': [rng.randrange(1 << 20), rng.randint(1, 60) if k == 'short' else rng.choice((3000, 70000, 9000, 65536, 256 * rng.randint(1, 9), 2048))]}


def neighbours(rng, plan):
    """other files lying around, some with the names of outputs"""
    d = plan['dest']
    out = {}
    for n in (d + '.0.nl', d + '.ram.nl', d + '.bak', d + '.tmp', d + '~', 'notes.txt', 'unused.s', d + '.map', d + '.sym', '.' + d.rpartition('/')[2] + '.swp'):
        if rng.random() < .25:
            out[n] = {'rnd': [rng.randrange(1 << 20), rng.choice((0, 3, 40, 300, 5000))]}
    return out


def lay_out(ctx, plan, files=None):
    """write the tree of a project; -> (files, argv)"""
    f, argv = build_files(plan)
    if files:
        f.update(files)
    w = ctx.world
    w.put(plan.get('others', {}))
    w.put(f)
    if plan.get('prior') is not None:
        w.put({plan['dest']: plan['prior']})
    if not plan.get('nodir'):
        import os
        os.makedirs(os.path.dirname(os.path.join(w.tree, plan['dest'])), exist_ok=True)
    return f, argv


def same_tree(ctx, before, after, cls, why, ignore=()):
    for n in sorted(set(before) | set(after)):
        if n in ignore:
            continue
        if before.get(n) != after.get(n):
            ctx.violate(cls, '%s: %s %s' % (why, n, describe(before.get(n), after.get(n))))


def describe(a, b):
    if a is None:
        return 'was created (%s)' % size(b)
    if b is None:
        return 'was deleted'
    if a[0] != b[0] or a[1] != b[1]:
        return 'changed type or mode'
    i = next((i for i, (x, y) in enumerate(zip(a[2], b[2])) if x != y), min(len(a[2]), len(b[2])))
    return 'changed: %d bytes before, %d after, first difference at %d' % (len(a[2]), len(b[2]), i)


def size(x):
    return '%d bytes' % len(x[2]) if x[0] == 'f' else x[0]


def diff(want, got):
    if got is None:
        return 'missing, %d bytes expected' % len(want)
    i = next((i for i, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
    return '%d bytes, expected %d, first difference at 0x%x: %s instead of %s' % (len(got), len(want), i, got[i:i + 8].hex(), want[i:i + 8].hex())


def escaped(ctx, b):
    for op, name, arg, ret, err, rule in b.log:
        if op == 'escape':
            ctx.violate('escape', 'the build tried to change %s outside of the tree' % name)


def glob(name):
    return name.replace('[', '[[]').replace('*', '[*]').replace('?', '[?]')
