"""C08: failed, repeated and incremental linking converge."""
from .. import play
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..project import data_set, value, raw, diff
from ..session import Sess

RULE = ('one run: a program assembled over several calls and files with link() called at random points in between - before labels exist (must fail), after (must succeed), again, interrupted by an '
        'exception at a random line of the linker, and after rejected statements; after each complete link the image must be the one of the reference model at that point, at the end the one of the '
        'model and of a fresh session that links once, and linking again must change nothing. Distinct: by backend, sequence of link outcomes and interrupts, number of references')
QUICK = (20000, 200)


def plan(rng, i, tier):
    b = B[rng.choice(ALL + ['gameboy', 'simbe', 'simle', 'mips32', 'thumb', '6502'])]
    data, uses = data_set(rng, b, rng.choice((0, 0, 0, 1)))

    def ev(g):
        e = {'e': 'link', 'again': rng.choice((0, 0, 0, 1, 2))}
        if rng.random() < .3:
            e['inj'] = {'nth': rng.choice((rng.randint(1, 12), rng.randint(1, 80), rng.randint(1, 400))), 'exc': rng.choice(('KeyboardInterrupt', 'MemoryError', 'OSError'))}
        return e
    b, stmts, m = program(rng, b, None, rng.choice((None, 6, 14, 30)), content=lambda s: value(b, s, data.get(s['f'])), files=uses,
                          weave=play.weave(rng, b, cut=.12, trip=.05, ev=(rng.choice((.06, .15, .4)), ev)))
    return {'b': b.name, 'stmts': stmts, 'data': data, 'tail': [ev(None) for _ in range(rng.choice((1, 1, 2, 3)))],
            'style': {'nl': rng.choice(('\n', '\r\n')), 'last': 1, 'ind': rng.choice(('', '  '))}}


def one_link(ctx, s, e, sig, nrefs):
    m = s.model
    image, why = m.link()
    for n in range(1 + e['again']):
        inj = e.get('inj') if n == 0 else None
        state = (s.asm.pc, len(s.bytes()), s.labels())
        r = s.link(inject=inj)
        if (s.asm.pc, len(s.bytes()), s.labels()) != state:
            ctx.violate('state', 'link (%r) changed the address, the number of bytes or the labels' % r)
        if inj and r.injected:
            if r.ok:
                ctx.violate('swallowed', 'an exception raised at %s disappeared, the link reports success' % r.injected)
            sig.append('interrupted')
            ctx.count('links interrupted')
            continue
        sig.append(['ok' if r.ok else 'fail', why])
        ctx.count('links that ' + ('succeeded' if r.ok else 'failed'))
        if why == 'skip':
            continue
        if why == 'bad':
            if r.ok:
                ctx.violate('linked', 'a link with undefined labels succeeded')
            continue
        if not r.ok:
            ctx.violate('refused', 'every label is defined and in range, the link fails: %r' % r)
        if s.bytes() != image:
            ctx.violate('image', 'after this link the image has %s' % diff(image, s.bytes()))


def run(plan, ctx):
    b = B[plan['b']]
    ctx.world.put({n: raw(b, s) for n, s in plan['data'].items()})
    s, once = Sess(ctx, b, plan['data']), Sess(ctx, b, plan['data'])
    p, q = play.Player(s, plan['style']), play.Player(once, plan['style'])
    sig = []
    for stmts, end in play.groups(plan['stmts']):
        r, r2 = p.group(stmts, end), q.group(stmts, end)
        if r is not None and r2.ok != r.ok:
            ctx.violate('refused', 'after earlier links a call ends with %r, without them with %r' % (r, r2))
        if r is not None and not r.ok and (end is None or end['k'] != 'trip'):
            raise Invalid('rejected: %r' % r)
        if end is not None and end['k'] == 'ev':
            one_link(ctx, s, end, sig, len(s.model.refs))
    for e in plan['tail']:
        one_link(ctx, s, e, sig, len(s.model.refs))
    one_link(ctx, s, {'again': 1}, sig, 0)
    if s.model.link()[0] is None:
        raise Invalid('program does not link')
    r = once.link()
    if not r.ok:
        raise Invalid('single link: %r' % r)
    if once.bytes() != s.bytes():
        ctx.violate('diverged', 'a single link at the end gives another image: ' + diff(once.bytes(), s.bytes()))
    return [b.name, sig, len(s.model.refs), len(s.model.labels)]
