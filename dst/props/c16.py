"""C16: every build terminates, cyclic includes and macros included."""
import errno
import os
import re
from .. import play, project
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..model import text_of
from ..session import Sess
from ..world import Interrupt, fe_backend, content

RULE = ('one run: a graph of files and macros that use each other (chains, diamonds, cycles of any length, several names and links for one file, defines in between), or the mutated text of a program, given to '
        'sessions and to front ends under short, interrupted and failing reads; the number of executed lines is limited in proportion to the expanded size; a cycle that is reached must end the build with '
        'an error and no image, everything else must come out as the graph says. Distinct: by graph shape, faults fired and outcome')
QUICK = (3000, 200)
STEPS = 260         # executed lines allowed per character of expanded input (about 25 are normal) ..
BASE = 60000        # .. and for anything else
DEEP = 1200         # levels of a cycle that the interpreter can hold, at most


def plan(rng, i, tier):
    q = rng.random()
    if q < .25:
        return plan_soup(rng)
    return plan_graph(rng)


# ---- graphs --------------------------------------------------------------------------------------------------------
FILES = ('a.inc', 'lib/b.s', 'c', 'lib/deep/d.s', 'e e.inc', 'F.INC', 'g.s')


EMPTY = ('', '', '\n', ' ', ';', '; only a comment', '\r\n', '\t\n\n')


def plan_graph(rng):
    fe = rng.choice([f for f in project.FES if f not in ('gba', 'genesis', 'cpu:gameboy')])
    b = fe_backend(fe)
    nf, nm = rng.choice((1, 2, 3, 5, 7)), rng.choice((0, 1, 2, 4))
    shape = rng.choice(('any', 'any', 'forward', 'forward', 'ring', 'chain', 'self'))
    files, macs = [], []
    for k in range(nf):
        files.append([item(rng, b) for _ in range(rng.choice((0, 1, 3)))])
    for k in range(nm):
        macs.append([{'i': rng.randrange(len(b.plain))} for _ in range(rng.choice((0, 1, 2)))])

    def edge(n):
        return {'inc': n, 'as': rng.choice((0, 0, 0, 1, 2, 3, 4, 5))}

    def use(n):
        return {'mac': n, 'case': rng.randrange(3), 'via': rng.random() < .15}

    def put(lst, x):
        lst.insert(rng.randint(0, len(lst)), x)
    for k in range(nf):
        if shape == 'ring':
            put(files[k], edge((k + 1) % nf))
        elif shape == 'chain' and k + 1 < nf:
            put(files[k], edge(k + 1))
        elif shape == 'self' and rng.random() < .4:
            put(files[k], edge(k))
        for _ in range(rng.choice((0, 1, 2)) if shape in ('any', 'forward') else rng.choice((0, 0, 0, 1))):
            n = rng.randint(k + 1, nf) if shape in ('forward', 'chain') else rng.randrange(nf)
            if n < nf:
                put(files[k], edge(n))
        for _ in range(rng.choice((0, 0, 1, 2))):
            if nm:
                put(files[k], use(rng.randrange(nm)))
    ms = rng.choice(('forward', 'forward', 'any', 'ring'))
    for k in range(nm):
        for _ in range(rng.choice((0, 1, 1, 2))):
            n = rng.randint(k + 1, nm) if ms == 'forward' else (k + 1) % nm if ms == 'ring' else rng.randrange(nm)
            if n < nm:
                put(macs[k], use(n))
    deep = rng.choice((0, 0, 0, 10, 30))
    faults = []
    for _ in range(rng.choice((0, 0, 1, 2))):
        k = rng.choice(('short', 'eintr', 'eio', 'open', 'emfile'))
        faults.append({'k': k, 'nth': rng.choice((0, 1, 2, 5, 40, 200)), 'n': rng.choice((1, 3, 50)), 'e': rng.choice((errno.EIO, errno.ESTALE, errno.ENOMEM))})
    return {'t': 'graph', 'fe': fe, 'via': rng.choice(('session', 'session', 'fe')), 'files': files, 'macs': macs, 'deep': deep, 'roots': [rng.randrange(nf) for _ in range(rng.choice((1, 1, 2, 3)))],
            'faults': faults, 'nl': rng.choice(('\n', '\r\n')), 'where': rng.choice(('head', 'head', 'file0')), 'prior': project.prior(rng), 'last': rng.random() < .7, 'log': rng.random() < .25, 'empty': [rng.choice(EMPTY) for _ in range(rng.choice((0, 0, 1, 2)))], 'first': rng.randrange(2), 'rep': rng.choice((0, 0, 0, 3))}


def item(rng, b):
    k = rng.random()
    if k < .5:
        return {'db': [rng.randrange(256) for _ in range(rng.choice((1, 2, 9)))]}
    if k < .75:
        return {'i': rng.randrange(len(b.plain))}
    if k < .82:
        return {'sf': rng.choice((0, 0, 2)), 'op': rng.choice((0, 1))}
    return {'c': rng.choice(('; comment', '', '.log OFF', '.define loop_a loop_b', '.define loop_b loop_a', '.db loop_a_', '; .include "a.inc"', '.org 0x10'[:4] and '; x'))}


SELF = (('K_sf', '.define K_sf K_sf+0'), ('K_s2', '.define K_s2 K_s2 + 0'), ('K_s3', '.define K_s3 >K_s3'))


class Cycle(Exception):
    pass


class Graph:
    def __init__(self, plan, b):
        self.p, self.b = plan, b
        self.size = 0
        self.grow = 0

    def name(self, n):
        return FILES[n]

    def spelled(self, x, root):
        n = self.name(x['inc'])
        d, _, base = n.rpartition('/')
        return [n, './' + n, 'lib/../' + n, 'ln_' + base, root + '/' + n, 'lib/./deep/../../' + n][x['as']]

    def mac(self, x):
        n = 'Cyc%dm' % x['mac']
        return [n, n.upper(), n.lower()][x.get('case', 0)]

    def line(self, x, root):
        if 'db' in x:
            return ['.db ' + ', '.join(self.b.number(v, 'd') for v in x['db'])]
        if 'i' in x:
            return [self.b.plain[x['i'] % len(self.b.plain)][0]]
        if 'sf' in x:
            # a define in terms of its own name: every use is a reference to a label
            n, d = SELF[x['sf']]
            return [d] if x['op'] else ['.db ' + n]
        if 'c' in x:
            return [x['c']] if not x['c'].startswith('.db') else []
        if 'inc' in x:
            return ['.include "%s"' % self.spelled(x, root)]
        if x.get('via'):
            return ['.define GO_%d %s' % (x['mac'], self.mac(x)), 'GO_%d' % x['mac']]
        return [self.mac(x)]

    def macros(self):
        out = []
        for k, body in enumerate(self.p['macs']):
            lines = []
            for x in body:
                # directives inside a body would run at once
                lines += self.line(dict(x, via=False), '')
            out += ['.macro Cyc%dm' % k] + lines + ['.endmacro']
        return out

    def text(self, n, root):
        return [l for x in self.p['files'][n] for l in self.line(x, root)]

    # what comes out
    def emit(self, x, stack, root):
        self.size += sum(len(l) + 2 for l in self.line(x, root))
        if self.size > 60000:
            raise Invalid('size')
        if 'db' in x:
            return bytes(x['db'])
        if 'i' in x:
            return self.b.plain[x['i'] % len(self.b.plain)][1]
        if 'c' in x:
            return b''
        if 'sf' in x:
            if x['op']:
                self.grow += 1
            else:
                self.size += 4 * self.grow
            return b'' if x['op'] else b'\x00'
        key = ('f', x['inc']) if 'inc' in x else ('m', x['mac'])
        if key in stack or len(stack) > 100:
            raise Cycle()
        body = self.p['files'][x['inc']] if 'inc' in x else self.p['macs'][x['mac']]
        if 'inc' in x:
            self.size += 2
        return b''.join(self.emit(y, stack + [key], root) for y in body)


def run_graph(plan, ctx):
    b = fe_backend(plan['fe'])
    w = ctx.world
    root = w.tree
    nf, nm = len(plan['files']), len(plan['macs'])
    for lst in plan['files'] + plan['macs']:
        for x in lst:
            if x.get('inc', 0) >= nf or x.get('mac', 0) >= nm > 0 or 'mac' in x and not nm:
                raise Invalid('graph')
    g = Graph(plan, b)
    files = {}
    head = g.macros()
    for n in range(nf):
        files[FILES[n]] = g.text(n, root)
    top = [n + ':' for n, _ in SELF] if 'sf' in str(plan['files']) else []
    main = top + head
    if plan['where'] == 'file0':
        main = list(top)
        files['head.inc'] = head
        main.append('.include "head.inc"')
    want = b''
    body = []
    cyc = False
    roots = [r for r in plan['roots'] if r < nf] or [0]
    chain = []
    for k in range(plan['deep']):
        files['deep%d.s' % k] = ['.db 1'] + (['.include "deep%d.s"' % (k + 1)] if k + 1 < plan['deep'] else [])
        chain.append(1)
    if chain:
        body.append('.include "deep0.s"')
        want += bytes(chain)
    rep = max(1, plan['rep'])
    try:
        for r in roots:
            x = {'inc': r, 'as': 0}
            l = g.line(x, root)
            body += ['.repeat %d' % rep] + l + ['.endrepeat'] if plan['rep'] else l
            want += g.emit(x, [], root) * rep
    except Cycle:
        cyc = True
    main += body
    last = plan['nl'] if plan.get('last', 1) else ''
    if plan.get('log'):
        main.insert(0, '.log ON')
    text = plan['nl'].join(main) + last
    out = {f: (plan['nl'].join(t) + last).encode() for f, t in files.items()}
    for k, t in enumerate(plan.get('empty', ())):
        out['empty%d.s' % k] = t.encode()
    w.put(out)
    os.makedirs(root + '/lib/deep', exist_ok=True)
    for n in range(nf):
        ln = os.path.join(root, 'ln_' + FILES[n].rpartition('/')[2])
        if not os.path.lexists(ln):
            os.symlink(os.path.join(root, FILES[n]), ln)
    big = max(len(t) for t in out.values())
    total = g.size + sum(len(x) for x in out.values()) + len(text) + 40 * len(want)
    budget = BASE + STEPS * (total + (DEEP * (big + max([0] + [len(head and '\n'.join(head))])) if cyc else 0))
    rules, hard = [], []
    for f in plan['faults']:
        k = f['k']
        if k == 'short':
            rules.append({'op': 'read', 'f': 't/*', 'nth': f['nth'], 'count': 100, 'act': 'short', 'arg': f['n']})
        elif k == 'eintr':
            rules.append({'op': 'read', 'f': 't/*', 'nth': f['nth'], 'count': 5, 'act': 'err', 'arg': errno.EINTR})
        else:
            hard.append(len(rules))
            rules.append({'op': 'read' if k == 'eio' else 'openr', 'f': 't/*', 'nth': f['nth'] + 1, 'count': -1, 'act': 'err',
                          'arg': f['e'] if k == 'eio' else errno.EMFILE if k == 'emfile' else errno.EACCES, 'hard': 1})
    if plan['via'] == 'fe':
        return front(plan, ctx, text, rules, hard, cyc, want, budget, b)
    s = Sess(ctx, b)
    for k in range(len(plan.get('empty', ()))):
        r = bounded(s, lambda: s.asm.assemble_file('empty%d.s' % k), BASE, [])
        if not r.ok or s.bytes():
            ctx.violate('empty', 'a source without statements: %r' % r)
    r = bounded(s, lambda: s.asm.assemble(text), budget, rules)
    judge(ctx, r, [r.fired[i] for i in hard if i < len(r.fired)], cyc, 'a session')
    if r.nopen:
        ctx.violate('open', '%d files stay open after %r' % (r.nopen, r))
    if r.ok:
        if s.bytes() != want:
            ctx.violate('image', 'the session has %s' % project.diff(want, s.bytes()))
        if b.clsname != 'AssemblerNES':
            r2 = bounded(s, lambda: s.asm.assemble('Zq0:\n.dw Zq0, Zq1\n.db Zq0 & 0\nZq1:\n'), budget, [])
            if not r2.ok:
                raise Invalid('labels: %r' % r2)
        for k in range(2):
            r2 = bounded(s, s.asm.link, budget, [])
            judge_link(ctx, r2)
    elif not plan['rep'] and not any(r.fired):
        # the session goes on
        n = len(s.bytes())
        blob = b''
        lines = []
        for k in range(nm):
            try:
                blob += g.emit({'mac': k}, [], root)
                lines.append('Cyc%dm' % k)
            except Cycle:
                r2 = bounded(s, lambda: s.asm.assemble('Cyc%dm\n' % k), budget + STEPS * DEEP * 200, [])
                judge(ctx, r2, [], True, 'a second use')
                n = len(s.bytes())
        if plan['where'] == 'head' and b.clsname != 'AssemblerNES':
            r2 = bounded(s, lambda: s.asm.assemble('\n'.join(lines + ['.db 7', '']).lstrip('\n')), budget, [])
            n0 = len(s.bytes()) - n
            if not r2.ok:
                raise Invalid('after: %r' % r2)
            if s.bytes()[n:] != blob + b'\x07':
                ctx.violate('after', 'after the failure the macros emit %s instead of %s' % (s.bytes()[n:][:20].hex(), (blob + b'\x07')[:20].hex()))
    return ['s', shape(plan), cyc, r.ok, type(r.exc).__name__, [min(n, 3) for n in r.fired], plan['rep'], plan['deep']]


def bounded(s, fn, budget, rules):
    tr = Interrupt(None, None, budget)

    def body():
        import sys
        old = sys.gettrace()
        sys.settrace(tr)
        try:
            return fn()
        finally:
            sys.settrace(old)
            s.ctx.count('executed lines', tr.count)
    return s.call(body, rules=rules, disk=True)


def judge(ctx, r, hard, cyc, what):
    if cyc:
        ctx.count('cycles that ended')
        if r.ok:
            ctx.violate('cycle', '%s with a cycle succeeded' % what)
    elif any(hard):
        if r.ok:
            ctx.violate('fault', '%s whose reads failed succeeded' % what)
    elif not r.ok:
        ctx.violate('failed', '%s without a cycle failed: %r' % (what, r))
    if not r.ok and not isinstance(r.exc, Exception):
        ctx.violate('error', '%s ended with %r' % (what, r))


def judge_link(ctx, r):
    ctx.count('bounded links')
    if not r.ok and not isinstance(r.exc, Exception):
        ctx.violate('link', 'a link ended with %r' % r)


def front(plan, ctx, text, rules, hard, cyc, want, budget, b):
    w = ctx.world
    w.put({'main.s': text.encode()})
    dest = 'out.bin'
    if plan['prior'] is not None:
        w.put({dest: plan['prior']})
    had = w.read(dest)
    keep, w.budget = w.budget, budget
    rules = [dict(x, f='t/*') for x in rules]
    srcs = ['main.s']
    if project.multi_source(plan['fe']):
        e = ['empty%d.s' % k for k in range(len(plan.get('empty', ())))]
        srcs = e + srcs if plan.get('first') else srcs + e
    r = w.build(plan['fe'], srcs + [dest], rules=rules)
    w.budget = keep
    if cyc:
        ctx.count('cycles that ended')
        if r.ok:
            ctx.violate('cycle', 'the build of a program with a cycle succeeded')
    elif any(r.fired[i] for i in hard):
        if r.ok:
            ctx.violate('fault', 'a build whose reads failed succeeded')
    elif not r.ok:
        ctx.violate('failed', 'the build of a program without a cycle failed: %s %s' % (r.exc, r.msg))
    if getattr(r, 'died', False):
        ctx.violate('died', 'the interpreter: %s' % r.exc)
    if not r.ok and w.read(dest) != had:
        ctx.violate('output', 'a failed build left an image')
    if r.ok:
        exp = project.expected_files(plan['fe'], want, {})
        if exp is None:
            raise Invalid('size')
        if w.read(dest) != exp['']:
            ctx.violate('image', 'the output has %s' % project.diff(exp[''], w.read(dest)))
    return ['fe', plan['fe'], shape(plan), cyc, r.ok, r.exc, [min(n, 3) for n in r.fired]]


def shape(plan):
    return [[[x.get('inc', -1), x.get('mac', -1)] for x in l if 'inc' in x or 'mac' in x] for l in plan['files'] + plan['macs']]


# ---- mutated text --------------------------------------------------------------------------------------------------
BITS = ('.macro x\n', '.endmacro\n', '.repeat 3\n', '.endrepeat\n', '.include "soup.inc"\n', '"', "'", '\\', ':', ';', '(', ')', '[', ']', '{', ',', '.', '.define A A\n', '.define A B\n.define B A\nA\n', 'A', '\n', '\r', '\t', '\x00',
        '.org', '.align 0\n', '.align 1\n', '.fill', '.ram', '+', '-', '*', '/0', '&', '|', '<', '>', '>>>>', '0x', '$', '0b', '-1', '.macro m a a\na a\n.endmacro\nm m\n', '.macro r\nr r\n.endmacro\nr\n',
        '.macro p a\na a\n.endmacro\np p\n', '.repeat 2\n.repeat 2\n', '.section "a" RWX\n', '.log\n', '.export x\n', '.goto 9\n', '.upto 9\n', '.endrepeat .endrepeat', 'x:', 'x: y: z:', '.db "', ".db 'a'\n", '.db \'\n', '.db ""\n')
MOVES = ('.org 700\n', '\n.org 999\n.goto 600\n', '\n.ram 90\n.upto 40\n', '\n.org 5 99\n', '\n.org 0\n', '\n.goto 0\n', '\n.upto 800 3\n', '\n.ram 3\n.align 7\n', '\n.org -1\n.goto 3\n', '\n.ram -1\n.align 4\n',
         '.section "b" RX 700\n', '\n.org 7\n.align 4096\n')


def plan_soup(rng):
    b = B[rng.choice(ALL)]
    b, stmts, m = program(rng, b, None, rng.choice((4, 10, 20)))
    muts = []
    for _ in range(rng.choice((1, 2, 4, 9, 20))):
        muts.append([rng.random(), rng.choice(('ins', 'ins', 'del', 'dup', 'swap', 'cut')), rng.choice(MOVES if rng.random() < .25 else BITS), rng.randint(1, 40)])
    return {'t': 'soup', 'b': b.name, 'text': text_of(b, stmts), 'muts': muts, 'inc': rng.choice(('.db 1\n', '.include "soup.inc"\n', '', '.macro zz\n', 'x: .db 1\n')), 'calls': rng.choice((1, 1, 2)),
            'rules': rng.choice(([], [], [['short', 1]], [['eio', 0]]))}


def soup(plan):
    t = plan['text']
    for at, how, bit, n in plan['muts']:
        i = int(at * (len(t) + 1))
        if how == 'ins':
            t = t[:i] + bit + t[i:]
        elif how == 'del':
            t = t[:i] + t[i + n:]
        elif how == 'dup':
            t = t[:i] + t[i:i + n] + t[i:]
        elif how == 'swap':
            t = t[:i] + t[i + n:i + 2 * n] + t[i:i + n] + t[i + 2 * n:]
        else:
            t = t[:i] + '\n' + t[i:]
    return t


def run_soup(plan, ctx):
    t = soup(plan)
    if len(t) > 20000 or re.search(r'\.repeat[ ,\t]+\S{4,}', t, re.I) or re.search(r'[0-9A-Fa-fx]{8,}', t):
        raise Invalid('numbers')
    w = ctx.world
    s = Sess(ctx, plan['b'])
    w.put({'soup.inc': plan['inc'].encode()})
    rules = []
    for k, n in plan['rules']:
        rules.append({'op': 'read', 'f': 't/*', 'nth': n, 'count': 50, 'act': 'short', 'arg': 1} if k == 'short' else
                     {'op': 'read', 'f': 't/*', 'nth': n, 'count': -1, 'act': 'err', 'arg': errno.EIO, 'hard': 1})
    # nothing here expands to more than this: 999 copies of a block, macros of macros as often as their text allows, and
    # recursion as deep as the interpreter can hold
    budget = BASE + STEPS * 40 * len(t) + STEPS * DEEP * (len(plan['inc']) + 200) + 60 * 1000 * (1 + t.lower().count('repeat')) * (1 + len(t) // 20)
    sig = []
    half = len(t) // plan['calls'] + 1
    for k in range(plan['calls']):
        part = t[k * half:(k + 1) * half]
        r = bounded(s, lambda: s.asm.assemble(part), budget, rules)
        sig.append(type(r.exc).__name__)
        if r.nopen:
            ctx.violate('open', '%d files stay open' % r.nopen)
        if not r.ok and not isinstance(r.exc, Exception):
            ctx.violate('error', 'a session ended with %r' % r)
    r = bounded(s, s.asm.link, budget, [])
    sig.append(type(r.exc).__name__)
    return ['soup', plan['b'], sig, len(plan['muts']), len(t) // 40]


def run(plan, ctx):
    return run_graph(plan, ctx) if plan['t'] == 'graph' else run_soup(plan, ctx)
