"""C23: with .log ON the log tells exactly what is emitted and resolved."""
import re
from .. import play
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..model import Bad, Skip, item_text
from ..project import data_set, value, raw
from ..session import Sess

RULE = ('one run: a session on one CPU/platform with .log switched on and off at generated places of a generated program (regions, macros, repeats, sections, data files) that is delivered over several '
        'calls, files and nested includes with short reads; in between statements are rejected (bad operands, unreadable files) and links fail or succeed. The lines printed are read back: one per statement '
        'processed while the log is on, in order, together they must give every byte the reference model emits at its offset, and after a link every reference with the bytes of its final value. '
        'Distinct: by backend, statement kinds, faults and outcomes')
QUICK = (16000, 200)
DONE = re.compile(r"^assembled (.*) -> \(([0-9a-fx,]*)\) at 0x([0-9a-f]+)$", re.S)
LINK = re.compile(r'^label "(.*)" translated to \(([0-9a-fx,]*)\) at address 0x([0-9a-f]+)$', re.S)


def plan(rng, i, tier):
    b = B[rng.choice(ALL)]
    data, uses = data_set(rng, b, rng.choice((0, 0, 1, 2)))
    feats = set(f for f in ('org', 'bounded', 'ram', 'goto', 'repeat', 'macro', 'section', 'align', 'define', 'comment', 'asc', 'log', 'log', 'log', 'expr') if rng.random() < .6)
    b, stmts, m = program(rng, b, feats, rng.choice((None, 6, 14, 30)), content=lambda s: value(b, s, data.get(s['f'])), files=uses,
                          weave=play.weave(rng, b, cut=.1, trip=.1, ev=(.06, lambda g: {'e': 'link'})))
    if rng.random() < .7:
        stmts = [{'k': 'log', 'v': 'ON'}] + stmts
    return {'b': b.name, 'stmts': stmts, 'data': data, 'style': {'nl': rng.choice(('\n', '\r\n')), 'last': rng.randrange(2), 'ind': rng.choice(('', '  '))}}


def nlines(s):
    if s['k'] == 'note':
        return 0
    if s['k'] in ('macro', 'repeat'):
        return 2 + sum(nlines(x) for x in s['body'])
    return 1


def run(plan, ctx):
    b = B[plan['b']]
    ctx.world.put({n: raw(b, s) for n, s in plan['data'].items()})
    s = Sess(ctx, b, plan['data'])
    p = play.Player(s, plan['style'])
    p.logs = True
    m = s.model
    on = False
    lines = 0
    for stmts, end in play.groups(plan['stmts']):
        r = p.group(stmts, end, model=False)
        if r is not None:
            trip = end is not None and end['k'] == 'trip'
            if not r.ok and not trip:
                ctx.violate('refused', 'a valid program was rejected: %r' % r)
            out = r.out.split('\n')
            if out.pop():
                ctx.violate('line', 'the log ends within a line')
            first = len(m.out)
            for st in stmts:
                n0 = len(m.out)
                try:
                    m.step(st)
                except (Bad, Skip, KeyError):
                    raise Invalid('program')
                if st['k'] == 'log':
                    on = st['v'] == 'ON'
                    if not on:
                        continue
                if not on:
                    continue
                k = nlines(st)
                mine, out = out[:k], out[k:]
                if len(mine) < k:
                    ctx.violate('missing', 'a statement (%s) has %d lines in the log, it must have %d' % (st['k'], len(mine), k))
                pos = covered(ctx, mine, n0, m.out)
                if pos != len(m.out):
                    ctx.violate('bytes', 'the log of a statement (%s) goes up to offset 0x%x, it emitted up to 0x%x' % (st['k'], pos, len(m.out)))
                lines += k
            emitted = len(m.out)
            if on and not trip:
                # the include statements around the text
                k = {'inc': 1, 'deep': 2}.get((end or {}).get('how'), 0)
                for l in out[:k]:
                    if covered(ctx, [l], first, m.out) != emitted:
                        ctx.violate('include', 'the line of an include does not list what it emitted: %s' % l[:200])
                lines += k
                out = out[k:]
            if out:
                ctx.violate('extra', 'there is a line too many in the log: %s' % out[0][:200])
            if not trip:
                m.finish()
            if s.bytes()[first:] != m.out[first:]:
                raise Invalid('image')          # judged elsewhere
        if end is not None and end['k'] == 'ev':
            lines += link(ctx, s, m, b, on, p)
    lines += link(ctx, s, m, b, on, p)
    ctx.count('log lines read back', lines)
    if not lines:
        return None
    return [b.name, sorted(set(x['k'] for x in plan['stmts'])), p.sig, len(m.out).bit_length(), lines.bit_length()]


def covered(ctx, lines, pos, image):
    for l in lines:
        if l.startswith('not assembled '):
            continue
        g = DONE.match(l)
        if not g:
            ctx.violate('line', 'a line of the log does not say what a statement emitted: %s' % l[:200])
        blob = bytes(int(x, 16) for x in g.group(2).split(',') if x)
        at = int(g.group(3), 16)
        if at != pos or not blob:
            ctx.violate('offset', 'the log says 0x%x where the next byte is at 0x%x: %s' % (at, pos, l[:200]))
        if blob != image[pos:pos + len(blob)]:
            ctx.violate('bytes', 'the log says %s at 0x%x, there is %s' % (blob[:40].hex(), at, bytes(image[pos:pos + len(blob)])[:40].hex()))
        pos += len(blob)
    return pos


def link(ctx, s, m, b, on, p):
    if b.name == 'gameboy' and len(m.out) < 0x150:
        return 0
    r = s.link()
    p.sig.append(['link', r.ok])
    out = r.out.split('\n')
    if out.pop():
        ctx.violate('line', 'the log ends within a line')
    want = sorted(ref_name(x) for x in m.refs if logged(b, x))
    # a branch made of two halves may be listed once or as two
    twice = sorted(ref_name(x) for x in m.refs if logged(b, x) and x.form is not None and x.form.kind == 'bl')
    got = []
    image = s.bytes()
    places = set()
    for l in out:
        g = LINK.match(l)
        if not g:
            ctx.violate('line', 'a line of the log of a link is not about a reference: %s' % l[:200])
        blob = bytes(int(x, 16) for x in g.group(2).split(',') if x)
        at = int(g.group(3), 16)
        if at in places:
            ctx.violate('twice', 'the log of a link lists the reference at 0x%x twice' % at)
        places.add(at)
        got.append(g.group(1))
        if r.ok and b.name != 'gameboy' and blob != image[at:at + len(blob)]:
            ctx.violate('value', 'the log says that the reference at 0x%x became %s, it is %s' % (at, blob.hex(), image[at:at + len(blob)].hex()))
    if not on and out:
        ctx.violate('extra', 'the log is off, but a link prints: %s' % out[0][:200])
    if on and r.ok and twice:
        for x in twice:
            if got.count(x) > want.count(x):
                got.remove(x)
    if on and r.ok and sorted(got) != want:
        ctx.violate('references', 'the log of a link lists the references %s, they are %s' % (sorted(got), want))
    if not r.ok:
        rest = list(want) + twice
        for x in got:
            if x not in rest:
                ctx.violate('references', 'the log of a failed link lists a reference %s that does not exist' % x)
            rest.remove(x)
    return len(out)


def ref_name(x):
    return item_text(None, x.item)


def logged(b, x):
    return x.kind != 'asc'
