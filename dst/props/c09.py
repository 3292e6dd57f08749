"""C09: the location counter always agrees with the bytes emitted."""
from .. import play
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..project import data_set, value, raw, diff
from ..session import Sess

RULE = ('one run: a session on one CPU/platform assembling a generated program (regions, .goto/.upto/.align/.fill/.ram/.repeat, macros, sections, data files) over several calls, files and nested '
        'includes with short reads; in between, statements are rejected (bad operands, unreadable files, impossible sizes, exhausted memory) and links fail or succeed. At every probe inside the '
        'assembly and after every call the address, the number of bytes, the emitted bytes and the label addresses must equal those of the reference model. Distinct: by backend, statement kinds, '
        'faults and outcomes')
QUICK = (24000, 200)


def plan(rng, i, tier):
    b = B[rng.choice(ALL)]
    big = rng.random() < (.1 if tier == 'thorough' else .02)
    data, uses = data_set(rng, b, rng.choice((0, 0, 1, 2)), big)
    feats = None
    if rng.random() < .5:
        feats = set(f for f in ('org', 'bounded', 'ram', 'goto', 'repeat', 'macro', 'section', 'align', 'define', 'comment') if rng.random() < .6)
    b, stmts, m = program(rng, b, feats, rng.choice((None, 6, 14, 30)), content=lambda s: value(b, s, data.get(s['f'])), files=uses,
                          weave=play.weave(rng, b, cut=.1, probe=.35, trip=.12, ev=(.05, lambda g: {'e': rng.choice(('link', 'own', 'own')), 't': play.bads(rng, b, g.names, sorted(g.m.labels))})),
                          limit=400000 if big else 60000)
    return {'b': b.name, 'stmts': stmts, 'data': data, 'style': {'nl': rng.choice(('\n', '\r\n', '\r')), 'last': rng.randrange(2), 'ind': rng.choice(('', '  '))}}


def run(plan, ctx):
    b = B[plan['b']]
    ctx.world.put({n: raw(b, s) for n, s in plan['data'].items()})
    s = Sess(ctx, b, plan['data'])
    seen, want = [], []
    s.asm.register_directive('probe', lambda instr: seen.append((s.asm.pc, len(s.asm.assembled_bytes), len(s.asm.labels))))
    s.model.probe = lambda m: want.append((m.pc, len(m.out), len(m.labels)))
    p = play.Player(s, plan['style'])
    linked = False
    calls = 0
    for stmts, end in play.groups(plan['stmts']):
        del seen[:], want[:]
        before = s.bytes()
        r = p.group(stmts, end)
        calls += r is not None
        if r is not None:
            for n, (g, w) in enumerate(zip(seen, want)):
                for what, x, y in zip(('address', 'number of bytes', 'number of labels'), g, w):
                    if x != y:
                        ctx.violate('location', 'at probe %d of a call the %s is 0x%x, it must be 0x%x' % (n, what, x, y))
            if len(seen) != len(want):
                if end is None or end['k'] != 'trip':
                    ctx.violate('refused', 'a valid statement was rejected: %r' % r)
                ctx.violate('refused', 'a statement before %r was rejected: %r' % (end['t'], r))
            if not r.ok and (end is None or end['k'] != 'trip'):
                ctx.violate('refused', 'a valid program was rejected: %r' % r)
            ctx.count('probes', len(seen))
        m = s.model
        ctx.check(s.asm.pc == m.pc, 'location', lambda: 'after a call the address is 0x%x, it must be 0x%x' % (s.asm.pc, m.pc))
        got = s.bytes()
        ctx.check(len(got) == len(m.out), 'bytes', lambda: 'after a call there are %d bytes, there must be %d' % (len(got), len(m.out)))
        if got[:len(before)] != before:
            ctx.violate('moved', 'bytes emitted by earlier calls changed: ' + diff(before, got[:len(before)]))
        if not linked and got != m.out:
            ctx.violate('bytes', 'the emitted bytes are wrong: ' + diff(bytes(m.out), got))
        if s.labels() != m.label_addresses():
            a, c = s.labels(), m.label_addresses()
            n = next(x for x in list(c) + list(a) if a.get(x) != c.get(x))
            ctx.violate('label', 'label %s has the address %s, it must be %s' % (n, a.get(n), c.get(n)))
        if end is not None and end['k'] == 'ev':
            if end['e'] == 'link':
                if b.name == 'gameboy' and len(m.out) < 0x150:
                    continue
                r = s.link()
                linked = True
                p.sig.append(['link', r.ok])
            else:
                r = p.deliver(end['t'] + '\n', 'call')
                if r.ok:
                    raise Invalid('%r was accepted' % end['t'])
                ctx.count('rejected statements')
            ctx.check(s.asm.pc == m.pc and len(s.bytes()) == len(m.out), 'location', lambda: 'after %s the address is 0x%x and there are %d bytes; before it was 0x%x and %d' %
                      (end['e'], s.asm.pc, len(s.bytes()), m.pc, len(m.out)))
    return [b.name, calls, sorted(set(x['k'] for x in plan['stmts'])), p.sig, len(m.out).bit_length()]
