"""C14: ELF output is internally consistent."""
import struct
from .. import play, project
from ..backends import B, CPUS
from ..engine import Invalid
from ..gen import program, plant
from ..model import Bad, Skip
from ..session import Sess

RULE = ('one run: several sessions (calls, includes, rejected statements, failed and interrupted links, short reads) are linked with one or two ELF linker objects, 32/64 bit, little/big endian, in generated '
        'order and interleaving, or one build of an ELF front end under short/interrupted transfers; each image is taken apart by an independent reader of the format and compared with the sections, '
        'labels and bytes that the reference model predicts. Distinct: by class, endianness, section shapes, symbols and history')
QUICK = (20000, 200)
MACHINE = {'i386': (32, 0, 3), 'x64': (64, 0, 0x3E), 'ppc': (32, 1, 0x14)}
FEATS = ('org', 'bounded', 'ram', 'goto', 'repeat', 'macro', 'define', 'log', 'asc', 'expr', 'align', 'comment')
SECNAMES = ('.text', '.data', '.rodata.str1.4', 'x', '.bss', 'text', '.text.hot', '.symtab.user', 'Sec tion', '_s', '.init_array')


def weaver(rng, b, **k):
    base = play.weave(rng, b, **k)
    ns, ne = rng.choice((.05, .15, .3)), rng.choice((.05, .2, .4))
    names = list(SECNAMES)
    rng.shuffle(names)

    def section(g):
        n = names.pop() if names and rng.random() < .8 else '.s%d' % rng.randrange(10000)
        q = rng.random()
        o = None if g.m.end or q < .6 else g.m.pc + rng.choice((0, 1, 16, 0x1000)) if q < .9 else rng.choice((0x100, 0x8000, 0x400000, 0x10000000))
        g.add({'k': 'section', 'n': n, 'p': rng.choice(('R', 'RW', 'RX', 'RWX', 'E', 'W', 'RE', 'XR', 'RR', 'WRE')), 'o': o})

    def w(g):
        if rng.random() < ns:
            section(g)
        if rng.random() < ne and g.m.cur is not None:
            # labels before the first section have no section; the others may be defined later
            c = [n for n in g.names if n not in g.m.exports and (n not in g.m.labels or g.m.labels[n][1] is not None)]
            if c:
                g.add(dict(g.export(rng.choice(c))))
        base(g)
    return w, section


def gen(rng, b, front):
    w, section = weaver(rng, b, cut=0 if front else .1, trip=0 if front else .05)
    bare = rng.random() < .06

    def extra(g):
        if bare:
            return
        if rng.random() < .25:
            g.add({'k': 'fill', 'n': rng.randint(1, 9), 'v': 0x11})
        section(g)
    feats = set(f for f in FEATS if rng.random() < .5)
    return program(rng, b, feats, rng.choice((2, 6, 12, 25)), extra=extra, weave=None if bare else w)


def plan(rng, i, tier):
    if rng.random() < .3:
        fe = rng.choice(sorted(MACHINE))
        b, st, m = gen(rng, B[{'i386': '8086', 'x64': 'x86', 'ppc': 'ppc'}[fe]], True)
        return {'fe': fe, 'stmts': st, 'data': {}, 'dest': rng.choice(('out.o', 'o/x.elf')), 'cuts': project.random_cuts(rng), 'prior': project.prior(rng),
                'style': {'nl': rng.choice(('\n', '\r\n')), 'last': rng.randrange(2), 'ind': ''}, 'chunks': rng.choice((0, 0, 1, 7, 100)), 'eintr': rng.choice((0, 1)),
                'srcs': sorted(rng.randint(0, len(st)) for _ in range(rng.choice((0, 0, 1, 2))))}
    linkers = [{'bits': rng.choice((32, 64)), 'big': rng.randrange(2), 'type': rng.choice((1, 1, 2, 3)), 'machine': rng.choice((3, 0x3E, 0x14, 8, 40, 243, 0xFFFF)),
                'align': rng.choice((0, 1, 4, 16))} for _ in range(rng.choice((1, 1, 2)))]
    progs = []
    for _ in range(rng.choice((1, 2, 2, 3, 4))):
        b = B[rng.choice(CPUS + ['simle', 'simbe'])]
        b, st, m = gen(rng, b, False)
        kind = None
        if rng.random() < .15:
            bad = plant(rng, b, st, rng.choice(('undef', 'range', 'neg')))
            if bad is not None:
                st, kind = bad, 1
        inj = []
        for _ in range(rng.choice((0, 0, 0, 1, 2))):
            inj.append({'nth': rng.choice((rng.randint(1, 20), rng.randint(1, 400), rng.randint(1, 3000))), 'exc': rng.choice(('KeyboardInterrupt', 'MemoryError'))})
        progs.append({'b': b.name, 'stmts': st, 'bad': kind, 'l': rng.randrange(len(linkers)), 'inj': inj, 'early': rng.random() < .25})
    # order in which the calls of the sessions alternate
    turns = [rng.randrange(len(progs)) for _ in range(40)] if rng.random() < .5 else []
    return {'linkers': linkers, 'progs': progs, 'turns': turns, 'style': {'nl': rng.choice(('\n', '\r\n')), 'last': 1, 'ind': ''}}


# ---- the independent reader ----------------------------------------------------------------------------------------
def read_elf(ctx, raw, what):
    """-> dict, from the generic ABI alone"""
    def need(c, cls, msg):
        ctx.check(c, cls, lambda: '%s: %s' % (what, msg() if callable(msg) else msg))
    need(len(raw) >= 52 and raw[:4] == b'\x7fELF', 'ident', lambda: 'starts with %s' % raw[:8].hex())
    need(raw[4] in (1, 2) and raw[5] in (1, 2) and raw[6] == 1 and raw[7:16] == bytes(9), 'ident', lambda: 'ident is %s' % raw[:16].hex())
    wide, e = raw[4] == 2, '<>'[raw[5] - 1]
    need(len(raw) >= 64 or not wide, 'header', 'file is too short')
    f = struct.unpack_from(e + ('HHIQQQIHHHHHH' if wide else 'HHIIIIIHHHHHH'), raw, 16)
    h = dict(zip(('type', 'machine', 'version', 'entry', 'phoff', 'shoff', 'flags', 'ehsize', 'phentsize', 'phnum', 'shentsize', 'shnum', 'shstrndx'), f))
    h['bits'], h['big'] = 64 if wide else 32, raw[5] == 2
    need(h['version'] == 1 and h['ehsize'] == (64 if wide else 52) and h['phnum'] == 0 and h['phoff'] == 0, 'header', lambda: 'header says %s' % h)
    need(h['shentsize'] == (64 if wide else 40), 'header', lambda: 'section header entries of %d bytes' % h['shentsize'])
    need(h['shoff'] >= h['ehsize'] and h['shoff'] + h['shnum'] * h['shentsize'] <= len(raw), 'header', lambda: 'section header table at %(shoff)d, %(shnum)d entries' % h)
    need(0 < h['shstrndx'] < h['shnum'], 'header', lambda: 'section names in section %d of %d' % (h['shstrndx'], h['shnum']))
    secs = []
    for i in range(h['shnum']):
        s = dict(zip(('name', 'type', 'flags', 'addr', 'offset', 'size', 'link', 'info', 'align', 'entsize'),
                     struct.unpack_from(e + ('IIQQQQIIQQ' if wide else 'IIIIIIIIII'), raw, h['shoff'] + i * h['shentsize'])))
        if s['type'] not in (0, 8):
            need(s['offset'] >= h['ehsize'] and s['offset'] + s['size'] <= len(raw), 'bounds', lambda: 'section %d is at %d..%d of a file of %d bytes' % (i, s['offset'], s['offset'] + s['size'], len(raw)))
            s['data'] = raw[s['offset']:s['offset'] + s['size']]
        secs.append(s)
    need(not any(secs[0].values()), 'null', lambda: 'section header 0 is %s' % secs[0])

    def string(s, at, of):
        need(s['type'] == 3, 'strings', lambda: 'section %d is no string table' % secs.index(s))
        t = s['data']
        need(t[:1] == b'\0' and t[-1:] == b'\0', 'strings', 'a string table does not start and end with a zero')
        need(at < len(t), 'strings', lambda: 'the name of %s is at %d of a string table of %d bytes' % (of, at, len(t)))
        return t[at:t.index(b'\0', at)].decode('ascii', 'replace')
    for i, s in enumerate(secs):
        s['n'] = string(secs[h['shstrndx']], s['name'], 'section %d' % i)
        s['i'] = i
    syms = []
    tabs = [s for s in secs if s['type'] == 2]
    need(len(tabs) == 1, 'symtab', lambda: '%d symbol tables' % len(tabs))
    t = tabs[0]
    size = 24 if wide else 16
    need(t['entsize'] == size and len(t['data']) % size == 0 and t['data'], 'symtab', lambda: 'symbol table of %d bytes with entries of %d' % (len(t['data']), t['entsize']))
    need(0 < t['link'] < h['shnum'], 'symtab', lambda: 'symbol names in section %d' % t['link'])
    for at in range(0, len(t['data']), size):
        v = struct.unpack_from(e + ('IBBHQQ' if wide else 'IIIBBH'), t['data'], at)
        y = dict(zip(('name', 'info', 'other', 'shndx', 'value', 'size') if wide else ('name', 'value', 'size', 'info', 'other', 'shndx'), v))
        y['n'] = string(secs[t['link']], y['name'], 'symbol %d' % (at // size))
        syms.append(y)
    need(not any(v for k, v in syms[0].items() if k != 'n'), 'symtab', lambda: 'the reserved symbol is %s' % syms[0])
    # everything from the first global symbol on is global, and nothing before it
    need(t['info'] == next((i for i, y in enumerate(syms) if y['info'] >> 4), len(syms)), 'symtab', lambda: 'the first global symbol is said to be %d' % t['info'])
    return {'h': h, 'secs': secs, 'syms': syms[1:], 'symtab': t, 'raw': raw}


def verify(ctx, raw, m, image, want, what):
    """want: bits, big, machine, type"""
    x = read_elf(ctx, raw, what)
    h = x['h']
    for k in ('bits', 'big', 'machine', 'type'):
        if k in want and h[k] != want[k]:
            ctx.violate('header', '%s: %s is %s instead of %s' % (what, k, h[k], want[k]))
    own = [s for s in x['secs'][1:] if s is not x['symtab'] and s['i'] not in (h['shstrndx'], x['symtab']['link'])]
    names = [s['n'] for s in own]
    if sorted(names) != sorted(m.sections):
        ctx.violate('sections', '%s: sections are %s instead of %s' % (what, names[:8], sorted(m.sections)[:8]))
    base = None
    used = []
    for s in own:
        d = m.sections[s['n']]
        flags = 0
        for c in d['perms']:
            flags |= {'R': 2, 'W': 1, 'X': 4, 'E': 4}[c]
        ctx.check(s['size'] == d['size'], 'section', lambda: '%s: section %s has %d bytes, %d were assembled in it' % (what, s['n'], s['size'], d['size']))
        ctx.check(s['type'] in (1, 8) and (s['type'] == 1 or not s['size']), 'section', lambda: '%s: section %s of %d bytes has type %d' % (what, s['n'], s['size'], s['type']))
        ctx.check(s['flags'] == flags, 'section', lambda: '%s: section %s (%s) has flags %x' % (what, s['n'], d['perms'], s['flags']))
        ctx.check(s['addr'] == d['start'], 'section', lambda: '%s: section %s starts at %x, its address is %x' % (what, s['n'], d['start'], s['addr']))
        if 'align' in want:
            ctx.check(s['align'] == want['align'], 'section', lambda: '%s: section %s has alignment %d' % (what, s['n'], s['align']))
        if s['size']:
            data = image[d['offset']:d['offset'] + d['size']]
            ctx.check(s['data'] == data, 'bytes', lambda: '%s: section %s contains %s' % (what, s['n'], project.diff(data, s['data'])))
            b = s['offset'] - d['offset']
            ctx.check(base in (None, b), 'section', lambda: '%s: section %s is at %d of the image, not at %d' % (what, s['n'], s['offset'] - (base or 0), d['offset']))
            base = b
            used.append((s['offset'], s['offset'] + s['size'], s['n']))
    used.append((0, h['ehsize'], 'the header'))
    used.append((h['shoff'], h['shoff'] + h['shnum'] * h['shentsize'], 'the section headers'))
    used += [(s['offset'], s['offset'] + s['size'], s['n']) for s in x['secs'] if s['type'] in (2, 3) and s['size']]
    used.sort()
    for p, q in zip(used, used[1:]):
        ctx.check(p[1] <= q[0], 'overlap', lambda: '%s: %s (%d..%d) and %s (%d..%d) overlap' % ((what, p[2], p[0], p[1], q[2], q[0], q[1])))
    exp = sorted(set(m.exports) & set(m.labels))
    have = sorted(y['n'] for y in x['syms'])
    if have != exp:
        ctx.violate('symbols', '%s: symbols are %s instead of %s' % (what, have[:8], exp[:8]))
    for y in x['syms']:
        addr, sec, _ = m.labels[y['n']]
        ctx.check(0 < y['shndx'] < h['shnum'] and x['secs'][y['shndx']]['n'] == sec, 'symbol', lambda: '%s: symbol %s is in section %d, it was defined in %s' % (what, y['n'], y['shndx'], sec))
        v = addr - m.sections[sec]['start']
        ctx.check(y['value'] == v, 'symbol', lambda: '%s: symbol %s has value %x, it is %x after the start of %s' % (what, y['n'], y['value'], v, sec))
        ctx.check(y['info'] >> 4 == 1 and y['info'] & 15 <= 2 and not y['size'], 'symbol', lambda: '%s: symbol %s has info %x size %d' % (what, y['n'], y['info'], y['size']))
    ctx.count('ELF images checked')
    return [h['bits'], h['big'], [(s['size'] > 0, s['flags']) for s in own][:6], len(exp)]


def representable(m, bits):
    """values the format cannot hold make the link fail"""
    for n in m.exports:
        if n in m.labels:
            a, sec, _ = m.labels[n]
            if sec is None or not 0 <= a - m.sections[sec]['start'] < 1 << bits:
                return False
    return all(s['start'] < 1 << bits for s in m.sections.values())


def run(plan, ctx):
    if 'fe' in plan:
        return run_front(plan, ctx)
    from necroassembler.linker import ELF
    ls = []
    for l in plan['linkers']:
        ls.append(ELF(l['bits'], bool(l['big']), l['type'], machine=l['machine'], alignment=l['align']))
    todo = []
    for p in plan['progs']:
        s = Sess(ctx, p['b'])
        todo.append({'p': p, 's': s, 'pl': play.Player(s, plan['style']), 'g': list(play.groups(p['stmts'])), 'log': []})
    turns = list(plan['turns'])
    sigs = []
    while any(t['g'] is not None for t in todo):
        live = [t for t in todo if t['g'] is not None]
        t = live[turns.pop(0) % len(live)] if turns else live[0]
        advance(plan, ctx, t, ls, sigs)
    return sigs


def advance(plan, ctx, t, ls, sigs):
    p, s = t['p'], t['s']
    if t['g']:
        st, end = t['g'].pop(0)
        r = t['pl'].group(st, end)
        if r is not None and not r.ok and not (end and end['k'] == 'trip'):
            raise Invalid('rejected: %r' % r)
        if not t['g']:
            return
        if p['early'] and end and end['k'] == 'cut':
            # a link that fails leaves the session and the linker usable
            m = s.model.clone()
            if m.link()[1] == 'bad':
                r = s.link(ls[p['l'] % len(ls)])
                if r.ok:
                    ctx.violate('linked', 'an ELF link with undefined or unrepresentable references succeeded')
                t['log'].append('early')
        return
    t['g'] = None
    l = plan['linkers'][p['l'] % len(ls)]
    m = s.model
    image, why = m.link()
    if why == 'skip' or not representable(m, l['bits']):
        raise Invalid('values')
    for inj in p['inj']:
        r = s.link(ls[p['l'] % len(ls)], inject=inj)
        if r.ok:
            if image is None:
                ctx.violate('linked', 'an ELF link with undefined or unrepresentable references succeeded')
            break
        t['log'].append('interrupted')
    else:
        r = s.link(ls[p['l'] % len(ls)])
    if image is None:
        ctx.check(not r.ok, 'linked', 'an ELF link with undefined or unrepresentable references succeeded')
        sigs.append('failed')
        return
    if not r.ok:
        ctx.violate('rejected', 'an ELF link of %d sections, %d exports (program %d of this linker) fails: %r' % (len(m.sections), len(m.exports), len(sigs), r))
    want = {'bits': l['bits'], 'big': bool(l['big']), 'machine': l['machine'], 'type': l['type'], 'align': l['align']}
    sigs.append([p['b'], p['l'], t['log'], t['pl'].sig, verify(ctx, s.bytes(), m, image, want, 'link %d' % (len(sigs) + 1))])


def run_front(plan, ctx):
    import errno
    w = ctx.world
    m = project.model_of(plan)
    bits, big, machine = MACHINE[plan['fe']]
    if m is None or not representable(m, bits):
        raise Invalid('program')
    files, argv = project.lay_out(ctx, plan)
    rules = []
    if plan['chunks']:
        rules += [{'op': o, 'f': 't/*', 'nth': 0, 'count': 300, 'act': 'short', 'arg': plan['chunks']} for o in ('read', 'write')]
    if plan['eintr']:
        rules.insert(0, {'op': 'write', 'f': 't/*', 'nth': plan['eintr'] - 1, 'count': 2, 'act': 'err', 'arg': errno.EINTR})
    r = w.build(plan['fe'], argv, rules=rules)
    if not r.ok:
        ctx.violate('rejected', 'the %s build of %d sections, %d exports fails: %s %s' % (plan['fe'], len(m.sections), len(m.exports), r.exc, r.msg))
    raw = w.read(plan['dest'])
    ctx.check(raw is not None, 'missing', 'no output file')
    return [plan['fe'], verify(ctx, raw, m, m.link()[0], {'bits': bits, 'big': bool(big), 'machine': machine, 'type': 1}, 'the %s output' % plan['fe']),
            plan['chunks'], bool(plan['prior']), len(plan['srcs']), len(m.out) // 8]
