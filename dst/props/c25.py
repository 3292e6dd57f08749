"""C25: a link that fails because of references blames one of those that are at fault."""
import re
from .. import play
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program, plant
from ..model import Model, Bad, Skip, text_of
from ..project import data_set, value, raw, FES
from ..session import Sess
from ..world import fe_backend

RULE = ('one run: a program with references to labels that are unknown (so far), too far away, misaligned or below zero, given to one session in several calls, files and includes with rejected statements '
        '(their references never count), and linked at several points: with labels still to come, again after they came, after failing links; or one build by a front end. The model says which references '
        'are at fault at that moment; the link has to fail exactly if there is one and its error has to name the label of one of them. Distinct: by backend, kinds of faults and number of them at each link')
QUICK = (16000, 200)
KINDS = ('undef', 'undef', 'range', 'range', 'align', 'neg', 'asc')


def plan(rng, i, tier):
    fe = rng.choice(FES) if rng.random() < .2 else None
    b = fe_backend(fe) if fe else B[rng.choice(ALL)]
    data, uses = data_set(rng, b, rng.choice((0, 0, 1)))
    content = lambda s: value(b, s, data.get(s['f']))
    feats = set(f for f in ('org', 'bounded', 'ram', 'goto', 'repeat', 'macro', 'section', 'align', 'define', 'comment', 'expr', 'moves', 'asc') if rng.random() < .5)
    trip = rng.choice((0, .1, .25)) * (not fe)
    link = rng.choice((.05, .2))

    def ev(g):
        return {'e': 'link'}
    w = play.weave(rng, b, cut=.12 * (not fe), trip=trip, ev=None if fe else (link, ev))
    b, stmts, m = program(rng, b, feats, rng.choice((None, 5, 12, 25)), content=content, files=uses, weave=w)
    for _ in range(rng.choice((1, 1, 2, 3))):
        new = plant(rng, b, stmts, rng.choice(KINDS), content)
        if new:
            stmts = new
    if not fe and rng.random() < .5:
        # the rest of the labels comes after a link
        gone = sorted(set(x['l'] for s in stmts for x in s.get('it', ()) if x.get('l', '').startswith('missing_')))
        stmts = stmts + [{'k': 'ev', 'e': 'link'}] + [{'k': 'label', 'n': n} for n in gone if rng.random() < .7]
    return {'b': b.name, 'fe': fe, 'stmts': stmts, 'data': data, 'style': {'nl': rng.choice(('\n', '\r\n', '\r')), 'last': 1, 'ind': rng.choice(('', '  '))}}


def faults(b, m):
    """-> (texts of the labels at fault, of those that may be, kinds)"""
    sure, maybe, kinds = set(), set(), set()
    for r in m.refs:
        x = m.verdict(r)
        if x == 'ok':
            continue
        names = {r.item['l']} | {a for _, a in r.item.get('o', ()) if isinstance(a, str)}
        unknown = {n for n in names if n not in m.labels}
        if x == 'bad':
            kinds.add('unknown' if unknown else 'value')
            sure.add(frozenset(unknown or names))
        else:
            maybe.add(frozenset(names))
    return sure, maybe, kinds


def judge(ctx, b, m, ok, name, msg, own, what):
    """own: the error is one of the assembler's own"""
    sure, maybe, kinds = faults(b, m)
    if ok:
        if sure:
            ctx.violate('accepted', '%s: with the references to %s at fault it succeeded' % (what, sorted(sorted(x) for x in sure)))
        return [0]
    if not sure:
        if not maybe and not (b.name == 'gameboy' and len(m.out) < 0x150):
            ctx.violate('refused', '%s: every reference can be satisfied, it failed: %s(%s)' % (what, name, msg[:200]))
        return [0]
    ctx.count('failing links')
    for k in kinds:
        ctx.count('faulty references: ' + k)
    words = lambda n: re.search(r'(?<![\w.$])' + re.escape(n) + r'(?![\w.$])', msg)
    if not any(words(n) for s in sure | maybe for n in s):
        ctx.violate('blames', '%s: the references to %s are at fault, the error is %s(%s)' % (what, sorted(sorted(x) for x in sure), name, msg[:200]))
    return [len(sure), sorted(kinds), name]


def front_end(plan, ctx, b):
    w = ctx.world
    m = Model(b, lambda s: value(b, s, plan['data'].get(s['f'])))
    st = [s for s in plan['stmts'] if s['k'] not in ('ev', 'cut', 'trip')]
    try:
        m.run(st)
        m.finish()
    except (Bad, Skip, KeyError):
        raise Invalid('program')
    if not faults(b, m)[0]:
        return None
    w.put({n: raw(b, s) for n, s in plan['data'].items()})
    w.put({'prog.s': text_of(b, st, plan['style']).encode()})
    r = w.build(plan['fe'], ['prog.s', 'out.bin'])
    return [plan['fe'], judge(ctx, b, m, r.ok, r.exc, r.msg, None, 'the build')]


def run(plan, ctx):
    b = B[plan['b']]
    if plan['fe']:
        return front_end(plan, ctx, b)
    ctx.world.put({n: raw(b, s) for n, s in plan['data'].items()})
    s = Sess(ctx, b, plan['data'])
    p = play.Player(s, plan['style'])
    sig = []
    n = 0
    done = False
    for stmts, end in list(play.groups(plan['stmts'])) + [([], {'k': 'ev', 'e': 'link'})]:
        if done:
            break
        r = p.group(stmts, end)
        if r is not None and not r.ok and (end is None or end['k'] != 'trip'):
            ctx.violate('refused', 'a valid program was rejected: %r' % r)
        if end is None or end['k'] != 'ev':
            continue
        n += 1
        m = s.model
        r = s.link()
        sig.append(judge(ctx, b, m, r.ok, type(r.exc).__name__, str(r.exc), None, 'link %d' % n))
        # an image that is complete is not linked again here (C08 does)
        done = r.ok
    return [b.name, sig] if any(x[0] for x in sig) else None
