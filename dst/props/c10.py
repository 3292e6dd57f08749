"""C10: every reference receives the final value of its label, or linking fails."""
import json
import os
from .. import play
from ..backends import B, ALL, CPUS, Form
from ..engine import Invalid
from ..gen import program, plant
from ..model import Model, Bad, Skip
from ..project import data_set, value, raw, diff
from ..session import Sess

RULE = ('four kinds of run, all as a session of several calls, includes, rejected statements, failed and interrupted links: (program) a generated program, with or without a planted reference that cannot be '
        'resolved; (edge) references whose value or distance lies at and around the limits and alignment of the field, alone and with expressions; (wide) statements of the whole operand range of a CPU '
        '(5300 templates) against the same statements with the number written, and with labels whose values differ in a bit; (api) own instructions that declare references of any size, field, shift, base and alignment. Distinct: by kind, backend, statements and outcomes')
QUICK = (24000, 200)
_WIDE = {}


def wide():
    if not _WIDE:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'wide.json')) as f:
            _WIDE.update(json.load(f))
    return _WIDE


def plan(rng, i, tier):
    q = rng.random()
    if q < .3:
        return plan_program(rng)
    if q < .55:
        return plan_edge(rng)
    if q < .68:
        return plan_api(rng)
    return plan_wide(rng)


# ---- programs ------------------------------------------------------------------------------------------------------
def plan_program(rng):
    b = B[rng.choice(ALL)]
    data, uses = data_set(rng, b, rng.choice((0, 0, 0, 1)))

    def ev(g):
        return {'e': 'link', 'inj': {'nth': rng.choice((rng.randint(1, 12), rng.randint(1, 300))), 'exc': rng.choice(('KeyboardInterrupt', 'MemoryError'))} if rng.random() < .4 else None}

    def content(s):
        return value(b, s, data.get(s['f']))
    b, stmts, m = program(rng, b, None, rng.choice((None, 8, 20, 40)), content=content, files=uses,
                          weave=play.weave(rng, b, cut=.12, trip=.08, ev=(rng.choice((0, .08, .2)), ev)))
    kind = None
    if rng.random() < .4:
        kind = rng.choice(('undef', 'range', 'align', 'neg'))
        bad = plant(rng, b, stmts, kind, content)
        if bad is None:
            kind = None
        else:
            stmts = bad
    return {'t': 'program', 'b': b.name, 'stmts': stmts, 'data': data, 'bad': kind, 'style': {'nl': rng.choice(('\n', '\r\n')), 'last': 1, 'ind': ''}}


# ---- edges ---------------------------------------------------------------------------------------------------------
def around(rng, f, b):
    """a value for the field"""
    unit = max(1 << f.shift, f.align)
    k = rng.random()
    lo, hi = f.mn, f.mx - f.mx % unit
    if k < .25:
        v = rng.choice((lo, hi, 0, unit, -unit))
    elif k < .6:
        v = rng.choice((lo, hi, hi, f.rep[1])) + rng.choice((-unit, unit, 1, -1, 2, 3, 2 * unit))
    elif k < .75:
        v = rng.choice((hi * 2, hi + 1, hi * 4, 1 << rng.randint(4, 34), -(1 << rng.randint(4, 34)), lo * 2, hi + (1 << rng.randint(0, 32))))
    else:
        v = rng.randint(lo, max(lo, hi))
    return v


def plan_edge(rng):
    b = B[rng.choice(CPUS * 2 + ['psx', 'simle', 'simbe', 'gameboy', 'nes'])]
    refs = []
    for _ in range(rng.choice((1, 2, 5, 9))):
        if rng.random() < .2:
            refs.append({'d': rng.choice(('db', 'dw', 'dd', 'asc1', 'asc2')), 'v': 0})
            w = {'db': 8, 'dw': 16, 'dd': 32, 'asc1': 8, 'asc2': 16}[refs[-1]['d']]
            refs[-1]['v'] = rng.choice(((1 << w) - 1, 1 << w, (1 << w) + 1, 0, 1, 1 << (w - 1), rng.getrandbits(w), rng.getrandbits(w + 2)))
        else:
            f = rng.randrange(len(b.forms))
            refs.append({'f': f, 'v': around(rng, b.forms[f], b)})
            if b.forms[f].kind != 'zp' and rng.random() < .04:
                refs[-1]['v'] = -rng.choice((1, 2, 4, 16, 100, 128, 256, 32768, 1 << 31))
        refs[-1]['first'] = rng.randrange(2)
        if 'd' in refs[-1] and rng.random() < .3:
            refs[-1]['v'] = -rng.choice((1, 2, 10, 84, 127, 128, 129, 255, 256, 32768, 65536, 1 << 31, 1 << 32))
        refs[-1]['x'] = rng.choice((0, 0, 0, 1, -1, 4, -4, 8)) if refs[-1]['v'] >= 0 or rng.random() < .3 else refs[-1]['v'] - rng.choice((0, 0, 3, 16))
        refs[-1]['gap'] = rng.choice((0, 0, 0, 1, 2, 16)) * b.unit
    org = rng.choice((0, 0, 0, 0x100, 0x1000, 0x8000, 0x8000, 0x10000, 0x400000, 0x7ffffff0, 0x80010000, rng.getrandbits(rng.randint(4, 31)))) & ~15
    if not org and rng.random() < .5:
        # a relative operand at address zero
        f = rng.choice([i for i, f in enumerate(b.forms) if f.rel is not None])
        x = b.forms[f]
        refs[0] = dict(refs[0], f=f, v=around(rng, x, b) if rng.random() < .4 else rng.randint(x.mx, 2 * x.mx) & -max(x.align, 1 << x.shift), gap=0)
        refs[0].pop('d', None)
    return {'t': 'edge', 'b': b.name, 'org': org, 'refs': refs,
            'only': rng.choice(('ok', 'ok', 'bad')), 'pick': rng.randrange(64), 'cuts': [rng.choice(play.HOW) for _ in range(3)], 'again': rng.randrange(2),
            'trip': play.bads(rng, b, ['elab0'], []) if rng.random() < .3 else None}


def edge_program(plan, b, keep):
    """-> (statements before, statements of references, statements after).  keep: indexes of plan['refs'] used"""
    before, mid, after = [], [{'k': 'org', 's': plan['org'], 'e': None}], []
    m = Model(b)
    m.step(mid[0])
    for i in keep:
        r = plan['refs'][i]
        name = 'elab%d' % i
        if r['gap']:
            mid.append({'k': 'fill', 'n': r['gap'], 'v': None})
            m.step(mid[-1])
        it = {'t': 'r', 'l': name}
        if r['x']:
            it['o'] = [['+' if r['x'] > 0 else '-', abs(r['x'])]]
        f = None
        if 'd' in r:
            target = r['v']
            s = {'k': 'asc', 'w': int(r['d'][3]), 'z': 0, 'it': [it]} if r['d'][:3] == 'asc' else {'k': r['d'], 'it': [it]}
        else:
            f = b.forms[r['f'] % len(b.forms)]
            s = {'k': 'ref', 'f': r['f'], 'it': [it]}
            target = r['v']
            if f.rel == 'pc4':
                target += (m.pc + 4) & ~2
            elif f.rel is not None:
                target += m.pc + f.rel
        a = target - r['x']
        if a < 0 or target < 0 and f is not None and f.rel is not None:
            raise Invalid('negative address')
        d = [{'k': 'org', 's': a, 'e': None}, {'k': 'label', 'n': name}]
        if r['first']:
            before += d
            m.labels[name] = (a, None, 0)
        else:
            after += d
        mid.append(s)
        m.step(s)
        if b.unit > 1 and m.pc % b.unit:
            mid.append({'k': 'align', 'n': b.unit})
            m.step(mid[-1])
    return before, mid, after


def verdict_of(plan, b, i):
    try:
        m = Model(b)
        for part in edge_program(plan, b, [i]):
            m.run(part)
        m.finish()
        return m.link()[1] or 'ok'
    except (Bad, Skip, Invalid):
        return 'skip'


def run_edge(plan, ctx):
    b = B[plan['b']]
    vs = [verdict_of(plan, b, i) for i in range(len(plan['refs']))]
    keep = [i for i, v in enumerate(vs) if v == 'ok']
    if plan['only'] == 'bad':
        bad = [i for i, v in enumerate(vs) if v == 'bad']
        if bad:
            keep = sorted(keep + [bad[plan['pick'] % len(bad)]])
    try:
        before, mid, after = edge_program(plan, b, keep)
    except (Bad, Skip, Invalid):
        return None
    stmts = list(before)
    for part, how in zip((mid, after), plan['cuts']):
        stmts.append({'k': 'cut', 'how': how, 'sh': 0})
        if plan['trip'] and part is mid:
            stmts.append({'k': 'trip', 't': plan['trip'], 'how': how})
        stmts += part
        if part is mid and plan['again']:
            stmts.append({'k': 'ev', 'e': 'link', 'inj': None})
    out = session(ctx, b, stmts, {}, None, {})
    return None if out is None else [b.name, keep, [plan['refs'][i] for i in keep], out]


# ---- sessions ------------------------------------------------------------------------------------------------------
def session(ctx, b, stmts, data, tail, style):
    s = Sess(ctx, b, data)
    p = play.Player(s, style)
    sig = []
    for part, end in play.groups(stmts):
        r = p.group(part, end)
        if r is not None and not r.ok and (end is None or end['k'] != 'trip'):
            raise Invalid('rejected: %r' % r)
        if end is not None and end['k'] == 'ev':
            one_link(ctx, s, end.get('inj'), sig)
    if s.bytes() != bytes(s.model.out) and s.model.link()[1] is None and not any(isinstance(x, str) and x == 'ok' for x in sig):
        raise Invalid('bytes before the link differ')
    one_link(ctx, s, None, sig)
    return sig + [p.sig]


def one_link(ctx, s, inj, sig):
    image, why = s.model.link()
    n = len(s.bytes())
    r = s.link(inject=inj)
    if inj and r.injected:
        sig.append('interrupted')
        return
    ctx.count('links that ' + ('succeeded' if r.ok else 'failed'))
    ctx.count('references linked' if why is None else 'links of programs with a bad reference', len(s.model.refs) if why is None else 1)
    if why == 'skip':
        sig.append('skip')
        return
    if why == 'bad':
        if r.ok:
            ctx.violate('linked', 'a link succeeded although a reference is undefined, out of range or misaligned')
        sig.append('bad')
        return
    if not r.ok:
        ctx.violate('refused', 'every reference fits, the link fails: %r' % r)
    if len(s.bytes()) != n or s.bytes() != image:
        ctx.violate('value', 'the linked image has ' + diff(image, s.bytes()))
    sig.append('ok')


# operands that take one half of a value
HALVES = ('LHI ', 'LLO ', 'LUI ')


# ---- wide ----------------------------------------------------------------------------------------------------------
def plan_wide(rng):
    w = wide()
    name = rng.choice(['6502', 'z80', 'lr35902', '68000', '68000', '8086', 'x86', 'x86', 'mips32', 'thumb', 'ppc'])
    ctx = rng.choice(('', '.bits 32\n', '.bits 16\n')) if name == 'x86' else ''
    entries = [e for e in w[name] if ctx in e[2]]
    P = rng.choice((0x1000, 0x1004, 0x8000, 0x20, 0, 0x7ff0, 0x10000, rng.getrandbits(rng.randint(8, 24)) & ~3 or 4))
    items = []
    for _ in range(rng.choice((3, 12, 30, 30))):
        e = rng.choice(entries) if rng.random() < .6 else max(entries, key=lambda x: len(x[3]))
        t = rng.choice(e[3])
        if e[0] in ('rel', 'fix'):
            f = form_of(e[1])
            v = around(rng, f, B[name])
        else:
            v = rng.choice((rng.choice((0xFF, 0x100, 0x80, 0xFFFF, 0x10000, 0x8000, 0xFFFFFFFF, 0x100000000, 0x80000000, 0x1FF, 0x1FFFF, 0x1FFFFFFFF)), rng.choice((0, 4, 0x7C, 0x7F, 0x80, 0xFF, 0x100, 0x104, 0x7FFC, 0x7FFF, 0x8000, 0xFFFC, 0xFFFF, 0x10000, 0x10004, 0x1000000, 0xFFFFFFFF, 0x100000000)),
                            rng.getrandbits(rng.randint(1, 8)), rng.getrandbits(rng.randint(8, 16)), rng.getrandbits(rng.randint(16, 33)), rng.getrandbits(10) * 4))
        items.append([e[0], e[1], t, v, rng.randrange(2), rng.choice((0, 0, 0, 1, -1, 4, -4, 100))])
    return {'t': 'wide', 'b': name, 'ctx': ctx, 'P': P, 'items': items, 'cuts': [rng.randrange(1, 9) for _ in range(3)], 'how': [rng.choice(play.HOW) for _ in range(4)],
            'early': rng.randrange(2), 'inj': {'nth': rng.randint(1, 200), 'exc': 'KeyboardInterrupt'} if rng.random() < .3 else None,
            'twin': [rng.randrange(33) if rng.random() < .4 else rng.choice((7, 8, 15, 16, 31, 32)) for _ in range(rng.choice((0, 3)))]}


def form_of(x):
    off, size, hi, lo, shift, rel, mn, mx, align = x
    bits = hi - lo + 1 + shift
    if rel == 'pc4':
        rep = None
    elif rel is None:
        rep = (0, (1 << bits) - 1)
    else:
        rep = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    return Form('', '', off, size, hi, lo, shift=shift, rel=rel, mn=mn, mx=mx, align=align, rep=rep)


def run_wide(plan, ctx):
    b = B[plan['b']]
    P = plan['P']

    def num(v):
        return b.number(v, 'h')
    head = plan['ctx'] + '.org %s\n' % num(P)
    # with numbers
    lit = Sess(ctx, b)
    if not lit.assemble(head).ok:
        raise Invalid('head')
    use, refuse = [], []
    probe = Sess(ctx, b)
    probe.assemble(head)
    want = bytearray()
    at = []
    for rule, field, t, v, first, x in plan['items']:
        pc = P + len(want)
        if rule in ('abs', 'zp'):
            if v - x < 0 or v < 0:
                continue
            r = lit.assemble(t.format(num(v)) + '\n')
            n = len(want)
            if not r.ok:
                refuse.append((t, v, first, x))
                continue
            got = lit.bytes()[n:]
            if rule == 'zp' and v < 0x100 and not first and len(got) == 2:
                # the label comes later: the long form
                o = Sess(ctx, b)
                o.assemble(t.format(num(0x1234)) + '\n')
                if len(o.bytes()) != 3:
                    raise Invalid('form')
                got = o.bytes()[:1] + v.to_bytes(2, 'little')
                lit = Sess(ctx, b)
                lit.assemble(head)
                lit.assemble('.fill %d\n' % (n + 3))
            blob = got
        else:
            f = form_of(field)
            origin = 0 if f.rel is None else (pc + 4) & ~2 if f.rel == 'pc4' else pc + f.rel
            target = v + origin
            if target < 0 or target - x < 0:
                continue
            verdict = f.verdict(v, target)
            if verdict == 'bad':
                o = 0 if f.rel is None else (P + 4) & ~2 if f.rel == 'pc4' else P + f.rel
                if v + o - x >= 0 and v + o >= 0 and f.verdict(v, v + o) == 'bad':
                    refuse.append((t, v + o, first, x))
                continue
            if verdict != 'ok':
                continue
            o = Sess(ctx, b)
            o.assemble(head)
            if not o.assemble(t.format('wother') + '\n').ok:
                continue
            blob = bytearray(o.bytes())
            f.store(blob, 0, v, b.big)
            v = target
            lit.assemble('.fill %d\n' % len(blob))
        name = 'wlab%d' % len(use)
        use.append((t.format(name + ('%+d' % x if x else '')), name, v - x, first))
        at.append((len(want), t, v))
        want += blob
    # with labels
    s = Sess(ctx, b)
    p = play.Player(s, {})

    def define(sel):
        return ''.join('.org %s\n%s:\n' % (num(a), n) for t, n, a, first in use if first == sel)
    r = p.deliver(define(1) + head, plan['how'][0])
    if not r.ok:
        raise Invalid('labels')
    lines = [u[0] for u in use]
    k = 0
    while lines:
        n = plan['cuts'][k % 3] if plan['cuts'] else 9
        r = p.deliver('\n'.join(lines[:max(1, n)]) + '\n', plan['how'][k % len(plan['how'])] if plan['how'] else 'call')
        if not r.ok:
            return ['refused']
        lines = lines[max(1, n):]
        k += 1
    if plan['early'] and any(not u[3] for u in use):
        r = s.link()
        if r.ok:
            ctx.violate('undefined', 'a link with undefined labels succeeded')
    r = p.deliver(define(0), plan['how'][-1] if plan['how'] else 'call')
    if not r.ok:
        raise Invalid('labels')
    if plan['inj']:
        r = s.link(inject=plan['inj'])
    r = s.link()
    if not r.ok:
        ctx.violate('refused', 'numbers are accepted, the labels with the same values fail to link: %r (%r)' % (r, use))
    got = s.bytes()
    if got != bytes(want):
        d = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), None)
        where = [a for a in at if d is not None and a[0] <= d]
        ctx.violate('value', '%s with the value %s: bytes %s' % (where[-1][1] if where else '', hex(where[-1][2]) if where else '', diff(bytes(want), got)))
    for t, v, first, x in refuse[:5]:
        o = Sess(ctx, b)
        d = '.org %s\nwlab:\n' % num(v - x)
        o.assemble((d if first else '') + head)
        if not o.assemble(t.format('wlab' + ('%+d' % x if x else '')) + '\n').ok:
            continue
        o.assemble('' if first else d)
        if o.link().ok:
            ctx.violate('truncated', '%s with a label of value %s links to %s; the value is not accepted there' % (t, hex(v), o.bytes().hex()))
    # two labels with different values never encode alike: a bit of one of them would be lost
    twins = [k for k in range(len(use)) if not use[k][0].startswith(HALVES)]
    for k, bit in zip(twins, plan.get('twin') or ()):
        t, n, a, first = use[k]
        outs = []
        for v in (a, a ^ 1 << bit):
            o = Sess(ctx, b)
            d = '.org %s\n%s:\n' % (num(v), n)
            o.assemble((d if first else '') + head)
            if o.assemble(t + '\n').ok and o.assemble('' if first else d).ok and o.link().ok:
                outs.append(o.bytes())
        if len(outs) == 2:
            ctx.count('pairs of values compared')
            if outs[0] == outs[1]:
                ctx.violate('truncated', '%s links to %s with the label at %s and at %s' % (t, outs[0].hex(), hex(a), hex(a ^ 1 << bit)))
    ctx.count('operands compared with numbers', len(use))
    ctx.count('operands that must be refused', len(refuse[:5]))
    if not use and not refuse:
        return None
    return [plan['b'], plan['ctx'], [u[0] for u in use], len(refuse)]


# ---- references of own instructions --------------------------------------------------------------------------------
def api_field(rng, k):
    """one reference: bytes, bits in them, shift, base of the distance"""
    size = rng.choice((1, 1, 2, 2, 3, 4, 4, 8))
    shift = rng.choice((0, 0, 0, 1, 2, 3))
    f = {'size': size, 'shift': shift, 'align': rng.choice((1, 1 << shift, 1 << shift, 2, 4)), 'bits': None, 'rel': None}
    if rng.random() < .65:
        lo = rng.randrange(8 * size)
        hi = rng.randrange(lo, 8 * size)
        f['bits'] = [hi, lo]
        w = hi - lo + 1
    else:
        w = 8 * size
    # the declared number of bits of the value: as many as the field takes, or another number
    f['w'] = max(1, w + shift + rng.choice((0, 0, 0, 0, 1, 4, -1, -3))) if f['bits'] else max(1, 8 * size + min(shift, rng.choice((0, 0, shift))) - rng.choice((0, 0, 0, 1, 3)))
    if rng.random() < .4:
        f['rel'] = rng.choice((0, 2, 4, size))
        f['mask'] = rng.choice((0, 0, 3, 2))
    if f['w'] < 2:
        f['w'] = 2
    f['call'] = rng.randrange(2)
    return f


def api_stored(f, v):
    """what the bits of the field become; None: has to be refused; 'skip': not judged"""
    lo, hi = (-(1 << (f['w'] - 1)), (1 << (f['w'] - 1)) - 1) if f['rel'] is not None else (0, (1 << f['w']) - 1)
    if not lo <= v <= hi:
        return None
    v >>= f['shift']
    n = f['bits'][0] - f['bits'][1] + 1 if f['bits'] else 8 * f['size']
    if f['rel'] is not None and v >= 1 << (n - 1):
        return None if v >= 1 << n else 'skip'
    if v >= 1 << n or v < -(1 << (n - 1)):
        return None
    return v & ((1 << n) - 1)


def plan_api(rng):
    fields = [[api_field(rng, k) for k in range(rng.choice((1, 1, 1, 2, 3)))] for _ in range(rng.choice((1, 2, 4)))]
    refs = []
    for _ in range(rng.choice((1, 2, 5, 9))):
        n = rng.randrange(len(fields))
        f = rng.choice(fields[n])
        top = (1 << f['w']) - 1
        field = (1 << (f['bits'][0] - f['bits'][1] + 1 if f['bits'] else 8 * f['size'])) - 1 << f['shift']
        unit = max(f['align'], 1 << f['shift'])
        edge = rng.choice((top, field, top >> 1, field >> 1))
        v = rng.choice((0, unit, edge - edge % unit, edge + 1, edge + 1 + unit, edge + rng.choice((-2, -1, 1, 2)), rng.randint(0, edge), rng.randint(0, edge) // unit * unit, rng.getrandbits(rng.randint(1, 40))))
        if f['rel'] is not None:
            v = rng.choice((v, v, -v, -v - unit, -(edge + 1)))
        refs.append({'f': n, 'v': v, 'first': rng.randrange(2), 'x': rng.choice((0, 0, 0, 1, -1, 4, 16)), 'gap': rng.choice((0, 0, 0, 1, 3)), 'which': rng.randrange(3)})
    return {'t': 'api', 'b': rng.choice(('6502', 'z80', 'mips32', '68000', 'psx', '8086')), 'fields': fields, 'refs': refs, 'org': rng.choice((0, 0x100, 0x8000, rng.getrandbits(rng.randint(4, 31)))),
            'only': rng.choice(('ok', 'ok', 'bad')), 'pick': rng.randrange(64), 'how': [rng.choice(play.HOW) for _ in range(4)], 'cuts': [rng.randrange(1, 6) for _ in range(3)], 'early': rng.randrange(2),
            'trip': rng.random() < .3, 'fill': rng.choice((0, 0, 1)), 'inj': {'nth': rng.randint(1, 200), 'exc': 'KeyboardInterrupt'} if rng.random() < .3 else None}


def api_bytes(plan, n, big):
    """the unlinked bytes of the instruction, and where its references are"""
    out, at = bytearray(b'\xa5'), []
    for f in plan['fields'][n]:
        at.append(len(out))
        u = 0
        if f['bits'] and plan['fill']:
            hi, lo = f['bits']
            u = ((1 << 8 * f['size']) - 1) & ~(((1 << (hi - lo + 1)) - 1) << lo)
        out += u.to_bytes(f['size'], 'big' if big else 'little')
    return bytes(out + b'\x5a'), at


def run_api(plan, ctx):
    b = B[plan['b']]
    s = Sess(ctx, b)
    asm = s.asm

    def uref(instr):
        n = int(instr.tokens[1][1:])
        blob, at = api_bytes(plan, n, b.big)
        pc = asm.pc
        for f, off in zip(plan['fields'][n], at):
            kw = {}
            if f['shift']:
                kw['filter'] = lambda v, k=f['shift']: v >> k
            if f['bits']:
                kw['bits'] = tuple(f['bits'])
            if f['rel'] is not None:
                kw['relative'] = pc + f['rel']
                if f['mask']:
                    kw['relative_filter'] = lambda v, m=f['mask']: v & ~m
            if f['call']:
                asm.add_label_translation(label=instr.tokens[2], size=f['size'], bits_size=f['w'], offset=off, alignment=f['align'], **kw)
            else:
                asm.parse_integer_or_label(instr.tokens[2], f['size'], f['w'], offset=off, alignment=f['align'], **kw)
        return blob
    asm.register_instruction('UREF', uref)
    num = lambda v: b.number(v, 'h')
    pc = plan['org']
    lines, labels, want, bad, ok = [], [], bytearray(), [], 0
    for k, r in enumerate(plan['refs']):
        fs = plan['fields'][r['f'] % len(plan['fields'])]
        n = r['f'] % len(plan['fields'])
        blob, at = api_bytes(plan, n, b.big)
        here = pc + r['gap']
        lead = fs[r['which'] % len(fs)]
        start = lambda f: 0 if f['rel'] is None else (here + f['rel']) & ~f['mask']
        target = r['v'] + start(lead)
        if target < 0 or target - r['x'] < 0:
            continue
        got = bytearray(blob)
        res = []
        for f, off in zip(fs, at):
            st = None if target % f['align'] else api_stored(f, target - start(f))
            res.append(st)
            if st is None or st == 'skip':
                continue
            u = int.from_bytes(got[off:off + f['size']], 'big' if b.big else 'little') | st << (f['bits'][1] if f['bits'] else 0)
            got[off:off + f['size']] = u.to_bytes(f['size'], 'big' if b.big else 'little')
        if 'skip' in res:
            continue
        name = 'alab%d' % k
        if None in res:
            if plan['only'] != 'bad' or bad:
                continue
            bad.append(name)
        ok += 1
        if r['gap']:
            lines.append('.fill %d 17' % r['gap'])
            want += b'\x11' * r['gap']
        lines.append('UREF k%d %s' % (n, name + ('%+d' % r['x'] if r['x'] else '')))
        labels.append((name, target - r['x'], r['first']))
        want += got
        pc = here + len(blob)
    if not ok:
        return None
    p = play.Player(s, {})

    def define(sel):
        return ''.join('.org %s\n%s:\n' % (num(a), n) for n, a, first in labels if first == sel)
    r = p.deliver(define(1) + '.org %s\n' % num(plan['org']), plan['how'][0])
    if not r.ok:
        raise Invalid('labels')
    k = 0
    total = len(lines)
    while lines:
        n = max(1, plan['cuts'][k % 3] if plan['cuts'] else 9)
        if plan['trip'] and k == 0:
            if p.deliver('UREF k99 gone', 'call').ok:
                raise Invalid('accepted')
        r = p.deliver('\n'.join(lines[:n]) + '\n', plan['how'][k % len(plan['how'])] if plan['how'] else 'call')
        if not r.ok:
            raise Invalid('rejected: %r' % r)
        lines = lines[n:]
        k += 1
    if plan['early'] and any(not x[2] for x in labels):
        if s.link().ok:
            ctx.violate('undefined', 'a link with undefined labels succeeded')
    r = p.deliver(define(0), plan['how'][-1] if plan['how'] else 'call')
    if not r.ok:
        raise Invalid('labels')
    if plan['inj']:
        s.link(inject=plan['inj'])
    r = s.link()
    ctx.count('references of own instructions', ok)
    if bad:
        if r.ok:
            ctx.violate('linked', 'a link succeeded although a reference of an own instruction is out of range or misaligned (%r): %s' % (bad, s.bytes().hex()))
        return ['api', plan['b'], total, 'bad', [plan['refs'], plan['fields']]]
    if not r.ok:
        ctx.violate('refused', 'every reference fits, the link fails: %r' % r)
    if s.bytes() != bytes(want):
        ctx.violate('value', 'the linked image has ' + diff(bytes(want), s.bytes()))
    return ['api', plan['b'], total, 'ok', [plan['refs'], plan['fields']]]


def run(plan, ctx):
    if plan['t'] == 'api':
        return run_api(plan, ctx)
    if plan['t'] == 'program':
        b = B[plan['b']]
        ctx.world.put({n: raw(b, s) for n, s in plan['data'].items()})
        out = session(ctx, b, plan['stmts'], plan['data'], None, plan['style'])
        return [b.name, plan['bad'], out]
    if plan['t'] == 'edge':
        return run_edge(plan, ctx)
    if plan['t'] == 'j':
        return run_j(plan, ctx)
    if plan['t'] == 'elf':
        return run_elf(plan, ctx)
    return run_wide(plan, ctx)


# ---- directed ------------------------------------------------------------------------------------------------------
def run_j(plan, ctx):
    """the recorded finding: j/jal keep bits 27..2 of whatever the target is"""
    for bn in ('mips32', 'psx'):
        for op in ('j', 'jal'):
            for target in plan['targets']:
                s = Sess(ctx, bn)
                if not s.assemble('.org %s\ntarget:\n.org 0x1000\n%s target\n' % (s.b.number(target, 'h'), op)).ok:
                    raise Invalid('rejected')
                if s.link().ok:
                    ctx.violate('known:mips-j-truncated', '%s %s to %#x is linked silently' % (bn, op, target))
    return ['j']


def run_elf(plan, ctx):
    from necroassembler.linker import ELF
    for bits, big, machine in ((32, False, 3), (64, False, 0x3E), (32, True, 0x14)):
        for bn in plan['b']:
            s = Sess(ctx, bn)
            s.assemble('.section ".text" RX\nfoo: .dw 5\n.dd nowhere\n.export foo\n')
            if s.link(ELF(bits, big, 1, machine=machine)).ok:
                ctx.violate('undefined', 'an ELF object with an undefined symbol is reported as linked')
    return ['elf']


def directed():
    return [{'name': 'mips-j', 'plan': {'t': 'j', 'targets': [0x1002, 0x1001, 0x20000000]}, 'known': 'mips-j-truncated'},
            {'name': 'elf-undefined', 'plan': {'t': 'elf', 'b': ['8086', 'x86', 'ppc']}}]
