"""C24: statements that conflict with what was assembled before, or cannot be represented, are rejected in every history."""
from .. import play
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..model import Model, Bad, Skip, text_of, CART
from ..project import data_set, value, raw, diff, cartridge, FES
from ..session import Sess
from ..world import fe_backend

RULE = ('one run: a session (or one front end build) assembling a generated program over several calls, files and includes, with failing and succeeding links, unreadable files and rejected statements in '
        'between; at random points a statement is submitted that conflicts with the state at that point (second definition of a label, section or export; .org, .section, .goto, .upto into what is emitted; '
        'block ends without a block) or that no assembler can represent (values beyond the field, directly, by a define or in a macro; unknown instructions, directives and modes; argument counts; '
        'missing or unreadable files). The state is taken from the reference model. Each has to raise and leave address, bytes and labels as they were. Distinct: by backend, kinds and outcomes')
QUICK = (20000, 200)
STATE = ('label', 'label', 'label', 'section', 'export', 'org', 'org', 'org', 'orgend', 'goto', 'upto', 'end', 'value', 'value', 'fixed', 'fixed', 'fixed', 'args', 'missing', 'few', 'open', 'perm')
# directive: arguments, how many of them it takes
ARGS = {'org': ('16 32', (1, 2)), 'define': ('a_c24 1', (2,)), 'fill': ('4 7', (1, 2)), 'ram': ('4', (1,)), 'align': ('4', (1,)), 'goto': ('900000 5', (1, 2)), 'upto': ('900000 5', (1, 2)),
        'section': ('"s_c24" RX 16000000', (2, 3)), 'export': ('x_c24', (1,)), 'incbin': ('"trip.bin"', (1,)), 'inccsv': ('"trip.csv"', (1,)), 'inccsv_le16': ('"trip.csv"', (1,)), 'include': ('"trip.inc"', (1,)),
        'incjson': ('"trip.json" "data"', (2,)), 'repeat': ('2', (1,)), 'macro': ('', (1, 2, 3, 4))}
OWN = {'x86': {'bits': ('32', (1,))}, 'sms': {'tiles': ('"trip.bin"', (1,))}, 'gameboy': {'tiles': ('"trip.bin"', (1,))}, 'nes': {'chr_pattern_table': ('"trip.bin"', (1,))}}
MORE = ('1', '2', '"q"', 'x', '7')


def some(rng, b, g):
    if rng.random() < .08:
        return dict(play.faulty_read(rng, b), kind='read', how=rng.choice(play.HOW))
    k = rng.choice(STATE + ('cart',) * (3 * (b.name in CART)))
    e = {'kind': k, 'r': [rng.randrange(1 << 20) for _ in range(4)], 'how': rng.choice(play.HOW), 'join': rng.randrange(2), 'rep': int(rng.random() < .25)}
    if k == 'fixed':
        e['t'] = play.bads(rng, b, g.names, [])
        if e['t'] == '.db 0x' and b.num[0] != '0x':
            e['t'] = '.db 256'      # a name there, unknown only at the link
        if e['t'][0] != '.' and e['t'][-1] != ':' and rng.random() < .4:
            e['mac'] = 1
    return e


def resolve(b, m, e):
    """the text of the statement at this point; None: there is no such conflict here"""
    k, r = e['kind'], e.get('r')
    num = lambda v: b.number(v, 'dh'[r[3] % 2])
    if k == 'read':
        return e['t']
    if k == 'fixed':
        return e['t'] if not e.get('mac') else '.macro badmac_%d\n%s\n.endmacro\nbadmac_%d' % (r[0], e['t'], r[0])
    if k == 'label':
        l = sorted(m.labels)
        return l and l[r[0] % len(l)] + ':' + ('', ' .db 1')[r[1] % 2]
    if k == 'section':
        l = sorted(m.sections)
        return l and '.section "%s" %s%s' % (l[r[0] % len(l)], ('RX', 'RW', 'R')[r[1] % 3], '' if r[2] % 3 else ' ' + num(max(m.pc, m.end) + 16))
    if k == 'export':
        return m.exports and '.export ' + ('%s', '"%s"', "'%s'")[r[1] % 3] % m.exports[r[0] % len(m.exports)]
    if k == 'org':
        if not m.end:
            return None
        low = max(m.org, m.pc - 1)
        n = (m.org, low, max(0, m.org - 1), 0, r[0] % (low + 1))[r[1] % 5]
        if r[2] % 4 == 0:
            return '.section "sec_c24_%d" RX %s' % (r[0], num(n))
        return '.org ' + num(n) + ('', ' ' + num(n + 1 + r[0] % 300))[r[2] % 2]
    if k == 'orgend':
        n = max(m.pc, m.end) + 17 + r[0] % 100
        return '.org %s %s' % (num(n), num((n - 1, n - 2, 1, 1 + r[1] % (n - 1))[r[2] % 4]))
    if k in ('goto', 'upto'):
        if not m.out:
            return None
        n = len(m.out)
        return '.%s %s%s' % (k, num((n - 1, 0, r[0] % n)[r[1] % 3]), ('', ' 7')[r[2] % 2])
    if k == 'missing':
        return '.%s "%s"%s' % (('include', 'incbin', 'inccsv', 'inccsv_le16', 'incjson')[r[0] % 5], ('no such file', 'gone/x.inc', '', 'trip.csv/x', 'TRIP.BIN')[r[1] % 5], ' "data"' if r[0] % 5 == 4 else '')
    if k == 'args':
        have = ARGS if r[2] % 5 else OWN.get(b.name, ARGS)
        d = sorted(have)[r[0] % len(have)]
        have, good = have[d]
        n = [x for x in range(5) if x not in good]
        n = n[r[1] % len(n)]
        return ('.' + d + ' ' + (', ', ' ')[r[2] % 2].join((have.split() + [MORE[(r[3] + x) % 5] for x in range(5)])[:n])).rstrip()
    if k == 'cart':
        d = sorted(CART[b.name])[r[0] % len(CART[b.name])]
        if not m.cart and r[1] % 3:
            return '.%s 1' % d
        if r[1] % 4 == 0 and (len(m.out) != 256 if b.name == 'gameboy' else m.out):
            return '.cartridge'
        n = CART[b.name][d][1]
        if not m.cart or r[1] % 4 == 1:
            return '.%s%s' % (d, ('', ' nolabel_x', ' 256', ' -129')[r[2] % 4])
        return '.%s %s' % (d, ('"%s"' % ('ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:n + 1 + r[3] % 5]), ', '.join(['1'] * (n + 1 + r[3] % 3)))[r[2] % 2])
    if k == 'open':
        # a string that is not closed
        return ('.db "abc', ".db 'x", '%s\n.db "a' % b.plain[r[1] % len(b.plain)][0], '.dw 1, "', '.db "a", 2, "b', "FROB 'x", '.incbin "trip.bin', '.log "', '.include "trip.inc', "lopen_%d: .db '" % r[3])[r[0] % 10]
    if k == 'few':
        n = 1 + r[0] % 3
        return '.macro few_c24_%d %s\n%s\n.endmacro\nfew_c24_%d%s' % (r[3], ' '.join('fp%d' % x for x in range(n)), b.plain[r[1] % len(b.plain)][0], r[3], (' ' + ', '.join(['1'] * (r[2] % n))).rstrip())
    if k == 'perm':
        return '.section "sp24_%d" %s' % (r[0], ('RQ', 'QR', 'Z', 'RXN', 'R-X', 'RWXEA', '5', 'R.')[r[1] % 8])
    if k == 'end':
        return ('.endrepeat', '.endmacro')[r[0] % 2]
    if k == 'value':
        d, w = ((('db', 1), ('dw', 2), ('dd', 4), ('byte', 1), ('word', 2), ('dword', 4), ('dl', 4))[r[0] % 7])
        top, low = 1 << (8 * w), -(1 << (8 * w - 1)) - 1
        v = (top, low, top + 1, top << 3, low - 1, low * 3, top + r[1] % 1000)[r[1] % 7]
        t = b.number(v, 'd' if v < 0 else 'dhb'[r[3] % 3])
        if r[2] % 4 == 0 and v > 0:
            return '.define dc24_%d %s\n.%s dc24_%d' % (r[3], t, d, r[3])
        if r[2] % 4 == 1 and v > 0:
            if r[3] % 3 == 0:
                return '.%s %s' % (('org', 'ram', 'fill', 'goto', 'repeat', 'align')[r[1] % 6], b.number((1 << 64) + r[1] % 7, 'dh'[r[3] % 2]))
            return '.fill 2 %s' % b.number((256, 257, 1000, 65536)[r[1] % 4], 'd')
        return '.%s %s' % (d, t)


def plan(rng, i, tier):
    fe = rng.choice(FES) if rng.random() < .2 else None
    b = fe_backend(fe) if fe else B[rng.choice(ALL)]
    data, uses = data_set(rng, b, rng.choice((0, 0, 1)))
    feats = set(f for f in ('org', 'bounded', 'bounded', 'ram', 'goto', 'repeat', 'macro', 'section', 'align', 'define', 'comment', 'log', 'expr') if rng.random() < .55)
    p = rng.choice((.1, .3))

    def ev(g):
        if rng.random() < .15:
            return {'e': 'link'}
        return dict(some(rng, b, g), e='bad')
    w = play.weave(rng, b, cut=.1)

    def weave(g):
        w(g)
        if rng.random() < p:
            g.add(dict(ev(g), k='ev'))
    b, stmts, m = program(rng, b, feats, rng.choice((None, 6, 14, 30)), content=lambda s: value(b, s, data.get(s['f'])), files=uses, weave=weave,
                          extra=lambda g: start(rng, b, g))
    return {'b': b.name, 'fe': fe, 'stmts': stmts, 'data': data, 'nth': rng.randrange(100), 'last': some(rng, b, type('G', (), {'names': sorted(m.labels)})), 'rep': int(rng.random() < .2),
            'style': {'nl': rng.choice(('\n', '\r\n', '\r')), 'last': 1, 'ind': rng.choice(('', '  '))}}


def start(rng, b, g):
    if b.name in CART and rng.random() < .6:
        cartridge(rng, g)
    if rng.random() < .04:
        # many names of one kind
        k = rng.choice(('export', 'section', 'label'))
        for n in range(rng.choice((9, 17, 40, 130, 300))):
            if k == 'label':
                g.free.insert(0, 'many_%d' % n)
            g.add({'export': {'k': 'export', 'n': 'many_%d' % n}, 'section': {'k': 'section', 'n': 'many_%d' % n, 'p': 'RX', 'o': None}, 'label': {'k': 'label', 'n': 'many_%d' % n}}[k])


def show(e, t):
    return '%s%s' % (t.replace('\n', ' / '), ' (conflict: %s)' % e['kind'] if e['kind'] in ('label', 'section', 'export', 'org', 'goto', 'upto') else '')


def hit(e, r):
    if e['kind'] == 'read' and not any(x['act'] == 'err' and x['arg'] > 1 and n for x, n in zip(e['rules'], r.fired)):
        raise Invalid('the fault was not reached')


def front_end(plan, ctx, b):
    """the statement within the only source of a build"""
    w = ctx.world
    ev = [n for n, s in enumerate(plan['stmts']) if s['k'] == 'ev' and s['e'] == 'bad']
    at = ev[plan['nth'] % len(ev)] if ev else len(plan['stmts'])
    e = plan['stmts'][at] if ev else plan['last']
    if e['kind'] == 'open':
        at = len(plan['stmts'])     # any quote that follows would close it
    m = Model(b, lambda s: value(b, s, plan['data'].get(s['f'])))
    real = [s for s in plan['stmts'] if s['k'] not in ('ev', 'cut')]
    head = [s for s in plan['stmts'][:at] if s['k'] not in ('ev', 'cut')]
    try:
        m.run(head)
        t = resolve(b, m, e)
    except (Bad, Skip, KeyError):
        raise Invalid('program')
    if not t:
        return None
    nl = plan['style']['nl']
    text = text_of(b, head, plan['style']) + (t + '\n').replace('\n', nl) + text_of(b, real[len(head):], plan['style'])
    w.put({n: raw(b, s) for n, s in plan['data'].items()})
    w.put(play.TRIP_FILES)
    w.put({'prog.s': text.encode()})
    r = w.build(plan['fe'], ['prog.s', 'out.bin'], e.get('rules', ()))
    if r.ok:
        hit(e, r)
        ctx.violate('accepted', 'a build with %s was accepted' % show(e, t))
    ctx.count('rejected builds')
    return [plan['fe'], e['kind'], r.exc]


def run(plan, ctx):
    b = B[plan['b']]
    if plan['fe']:
        return front_end(plan, ctx, b)
    ctx.world.put({n: raw(b, s) for n, s in plan['data'].items()})
    s = Sess(ctx, b, plan['data'])
    p = play.Player(s, plan['style'])
    sig = []
    nl = plan['style']['nl']
    linked = False
    events = list(play.groups(plan['stmts']))
    events.append(([], {'k': 'ev', 'e': 'bad', **plan['last'], 'final': plan['rep']}))
    for stmts, end in events:
        bad = end is not None and end['k'] == 'ev' and end['e'] == 'bad'
        nested = inside = False
        if bad and end.get('join') and stmts and end['kind'] != 'open':
            # the statement in the same text, right behind the others
            m = s.model
            try:
                m.run(stmts)
                t = resolve(b, m, end)
            except (Bad, Skip, KeyError):
                raise Invalid('program')
            text = text_of(b, stmts, plan['style']) + (t + '\n' if t else '').replace('\n', nl)
            r = p.deliver(text, end['how'], end.get('rules', ()))
            if not t:
                if not r.ok:
                    ctx.violate('refused', 'a valid program was rejected: %r' % r)
                m.finish()
                continue
        else:
            r = p.group(stmts, end)
            if r is not None and not r.ok:
                ctx.violate('refused', 'a valid program was rejected: %r' % r)
            if end is not None and end['k'] == 'ev' and end['e'] == 'link':
                if b.name == 'gameboy' and len(s.model.out) < 0x150:
                    continue
                s.link()
                linked = True
                continue
            if not bad:
                continue
            m = s.model
            t = resolve(b, m, end)
            if not t:
                continue
            if end.get('final') and end['kind'] == 'end':
                t = ('.repeat 2\n.endrepeat\n.endrepeat', '.repeat 2\n.repeat 3', '.repeat 1\n.db 1\n.repeat 1\n.endrepeat\n.endrepeat',
                     '.macro qa_c24\n.macro qb_c24', '.macro qa_c24 x\nlq_c24:\n.endmacro')[end['r'][1] % 5]
                nested = True
            inside = end.get('rep') and not nested and '.macro' not in t and end['kind'] not in ('end', 'args', 'open') and not t.startswith(('.repeat', '.end'))
            if inside:
                t = '.repeat 2\n' + t
            r = p.deliver((t + '\n').replace('\n', nl), end['how'], end.get('rules', ()))
        if r.ok:
            hit(end, r)
            ctx.violate('accepted', '%s was accepted' % show(end, t))
        ctx.count('rejected statements')
        ctx.count('conflicts: ' + end['kind'])
        sig.append([end['kind'], type(r.exc).__name__])
        if nested:
            break
        if inside:
            r = p.deliver('.endrepeat' + nl, 'call')
            if not r.ok:
                ctx.violate('refused', 'the end of the block around %s is rejected: %r' % (show(end, t), r))
        if (s.asm.pc, len(s.bytes())) != (m.pc, len(m.out)):
            ctx.violate('state', 'after %s was rejected the address is 0x%x and there are %d bytes, before 0x%x and %d' % (show(end, t), s.asm.pc, len(s.bytes()), m.pc, len(m.out)))
        if s.labels() != m.label_addresses():
            ctx.violate('state', 'after %s was rejected the labels are %r, before %r' % (show(end, t), s.labels(), m.label_addresses()))
        if not linked and s.bytes() != m.out:
            ctx.violate('state', 'after %s was rejected the session has %s' % (show(end, t), diff(bytes(m.out), s.bytes())))
    return [b.name, sig, sorted(set(x['k'] for x in plan['stmts'])), len(m.out).bit_length() if sig else 0] if sig else None
