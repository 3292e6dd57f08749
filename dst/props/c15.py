"""C15: macros, repeats and defines expand to exactly the written-out code."""
import re
from .. import play, project
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..model import lines_of
from ..session import Sess
from . import c10

RULE = ('one run: a program (generated, or statements of the whole operand range of a CPU) whose statements are folded into macros (nested, redefined, opcode/operand/partial arguments), repeats and defines '
        '(redefined), delivered to one or two interleaved sessions in several calls and includes that may cut definitions and blocks, between uses that are rejected (half way, unknown opcode, too few arguments), '
        'interrupted, and statements that are rejected; after each call and after the link everything is compared with a session given the written-out text made by an independent expander. '
        'Distinct: by backend, structure of the definitions and outcomes')
QUICK = (24000, 200)
FORMALS = ('dst', 'src', 'val', 'arg1', 'arg2', 'n_', 'WHAT', 'p0')
NAME = re.compile(r'"[^"]*"|\'[^\']*\'|[A-Za-z0-9_.]+')
TOKEN = re.compile(r'"[^"]*"|(?<![^\s,()])\'[^\']*\'|[^\s,()\[\]{}";]+')
FEATS = ('org', 'bounded', 'ram', 'goto', 'repeat', 'macro', 'define', 'section', 'log', 'asc', 'expr', 'align')


def subst(line, env):
    return NAME.sub(lambda m: env.get(m.group(0), m.group(0)), line) if env else line


class Expander:
    """the written-out lines of nodes"""

    def __init__(self):
        self.macros, self.defines = {}, {}
        self.active = []

    def line(self, text):
        text = subst(text, self.defines)
        toks = text.split(None, 1)
        if not toks or toks[0].upper() not in self.macros:
            return [text]
        formals, body = self.macros[toks[0].upper()]
        actual = re.split(r'[\s,]+', toks[1].strip()) if len(toks) > 1 else []
        if len(actual) < len(formals):
            return ['FROB too few arguments'] if body else []
        env = dict(zip(formals, actual))
        out = []
        if toks[0].upper() in self.active:
            raise Invalid('recursion')
        self.active.append(toks[0].upper())
        for l in body:
            out += self.line(subst(l, env))
        self.active.pop()
        return out

    def node(self, n):
        if 't' in n:
            return self.line(n['t'])
        if 'm' in n:
            self.macros[n['m'].upper()] = (n['args'], n['body'])
        elif 'd' in n:
            self.defines[n['d']] = subst(n['v'], self.defines)
        elif 'r' in n:
            return [l for _ in range(max(1, n['r'])) for x in n['body'] for l in self.node(x)]
        return []


def text(n):
    if 't' in n:
        return [n['t']]
    if 'm' in n:
        return ['.macro ' + ' '.join([n['m']] + n['args'])] + n['body'] + ['.endmacro']
    if 'd' in n:
        return ['.define %s %s' % (n['d'], n['v'])]
    return ['.repeat %d' % max(1, n['r'])] + [l for x in n['body'] for l in text(x)] + ['.endrepeat']


# ---- generation ----------------------------------------------------------------------------------------------------
def nodes_of(b, stmts):
    out = []
    for s in stmts:
        k = s['k']
        if k == 'macro':
            out.append({'m': s['n'], 'args': s['args'], 'body': [l for x in s['body'] for l in lines_of(b, x)]})
        elif k == 'define':
            l = lines_of(b, s)[0].split(None, 2)
            out.append({'d': l[1], 'v': l[2]})
        elif k == 'repeat':
            out.append({'r': s['n'], 'body': nodes_of(b, s['body'])})
        else:
            for l in lines_of(b, s):
                out.append({'t': l, 'i': 1} if k in ('ins', 'ref', 'call') else {'t': l})
    return out


def chunks(rng, line, whole):
    """places in the line that a name can stand for"""
    out = []
    for m in TOKEN.finditer(line):
        if m.group(0)[0] not in '"\'' and (rng.random() < whole or not NAME.search(m.group(0))):
            out.append(m.span())
        else:
            for x in NAME.finditer(m.group(0)):
                if x.group(0)[0] not in '"\'':
                    out.append((m.start() + x.start(), m.start() + x.end()))
    return out


class Fold:
    def __init__(self, rng, b, labels):
        self.r, self.b, self.labels = rng, b, labels
        self.n = 0
        self.names = []         # of macros made here
        self.out = []
        self.live = {}          # name -> formals

    def formal(self, lines, used):
        toks = set(t for l in lines for t in NAME.findall(l))
        pool = [f for f in FORMALS + tuple(self.labels[:3]) if f not in used and f not in toks]
        return self.r.choice(pool) if pool else None

    def macro(self, lines):
        """-> (definition, use line)"""
        r = self.r
        used, env, body = [], {}, list(lines)
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            i = r.randrange(len(body))
            c = [x for x in chunks(r, body[i], .5) if body[i][x[0]:x[1]] not in used and '"' not in body[i][x[0]:x[1]]]
            c = [x for x in c if not set(NAME.findall(body[i][x[0]:x[1]])) & set(used)]
            if not c:
                continue
            lo, hi = r.choice(c)
            was = body[i][lo:hi]
            f = self.formal(body, used)
            if f is None or NAME.fullmatch(f) is None:
                continue
            # what stands next to it must not become part of its name
            body[i] = body[i][:lo] + f + body[i][hi:]
            if f not in NAME.findall(body[i]):
                body[i] = body[i][:lo] + was + body[i][lo + len(f):]
                continue
            used.append(f)
            env[f] = was
        if self.names and r.random() < .3:
            name = r.choice(self.names)
        else:
            self.n += 1
            name = r.choice(('fold%d', 'Put_%d', 'M%dx')) % self.n
            self.names.append(name)
        order = list(used)
        r.shuffle(order)
        call = r.choice((name, name.upper(), name.lower()))
        return {'m': name, 'args': order, 'body': body}, (call + ' ' + r.choice((', ', ' ')).join(env[f] for f in order)).strip()

    def define(self, line, only=None):
        """-> (definition, line)"""
        r = self.r
        c = chunks(r, line, .5)
        if line.startswith('.'):
            c = [x for x in c if x[0] > 0]
        if not c or line.endswith(':'):
            return None, line
        lo, hi = r.choice(c)
        if r.random() < .3 and self.n:
            name = 'K_%d' % r.randint(1, self.n)
        else:
            self.n += 1
            name = 'K_%d' % self.n
        new = line[:lo] + name + line[hi:]
        if name not in NAME.findall(new) or NAME.findall(line).count(name):
            return None, line
        return {'d': name, 'v': line[lo:hi]}, new


def fold(rng, b, nodes, labels, extra=None):
    f = Fold(rng, b, labels)
    out = []
    pm, pd, pr = rng.choice((.1, .3, .5)), rng.choice((0, .1, .3)), rng.choice((0, .15))
    i = 0
    kdefs = {}
    while i < len(nodes):
        n = nodes[i]
        if n.get('i') and rng.random() < pm:
            k = 1
            while k < 4 and i + k < len(nodes) and nodes[i + k].get('i') and rng.random() < .5:
                k += 1
            m, use = f.macro([x['t'] for x in nodes[i:i + k]])
            at = len(out)
            if m['m'] not in kdefs and rng.random() < .3:
                at = rng.randint(0, len(out))
            kdefs[m['m']] = 1
            out.insert(at, m)
            out.append({'t': use, 'i': 1})
            if extra:
                out += extra(m, use)
            i += k
            continue
        if 't' in n and rng.random() < pd:
            d, l = f.define(n['t'])
            if d:
                out.append(d)
                n = dict(n, t=l)
        if extra and n.get('i') and rng.random() < pr:
            n = {'r': rng.choice((1, 2, 3, 9)), 'body': [n] + [x for x in nodes[i + 1:i + 2] if x.get('i')]}
            i += len(n['body']) - 1
        out.append(n)
        i += 1
    return out


def pool(g):
    """loads relative to the rounded address of the copy"""
    forms = [i for i, f in enumerate(g.b.forms) if f.rel == 'pc4']
    if not forms or g.r.random() < .5:
        return
    n = g.free[0]
    body = [g.ins() for _ in range(g.r.choice((0, 1, 2)))]
    body.insert(g.r.randint(0, len(body)), {'k': 'ref', 'f': g.r.choice(forms), 'it': [{'t': 'r', 'l': n}]})
    g.add({'k': 'repeat', 'n': g.r.choice((2, 3, 5)), 'body': body})
    g.add({'k': 'align', 'n': 4})
    g.add({'k': 'label', 'n': n})
    g.add({'k': 'fill', 'n': 4, 'v': None})


def plan_program(rng):
    b = B[rng.choice(ALL)]
    if rng.random() < .04:
        b = B['thumb']
    for _ in range(40):
        feats = set(f for f in FEATS if rng.random() < .4) | set(f for f in ('macro', 'repeat', 'define') if rng.random() < .7)
        b, stmts, m = program(rng, b, feats, rng.choice((6, 12, 20, 30)), extra=pool)
        if not any(x['k'] in ('align', 'org', 'ram', 'label') for s in stmts if s['k'] == 'repeat' for x in s['body']):
            break
    else:
        raise RuntimeError('no program')
    nodes = nodes_of(b, stmts)
    for _ in range(rng.choice((0, 1, 1, 2))):
        nodes = fold(rng, b, nodes, sorted(m.labels))
    return {'b': b.name, 'ctx': '', 'nodes': spice(rng, b, nodes, 'bounded' not in feats)}


def fill(rng, b, t, field):
    if rng.random() < .4:
        v = rng.choice(('wl1', 'wl2', 'wl3', 'wl1+4', 'wl3-2', 'wl2*1', '>wl2', '<wl1'))
        return t.format(v)
    v = rng.choice((0, 1, 2, 4, 4, 8, 12, 64))
    return t.format(b.number(v, rng.choice('dh') if field is None else 'd'))


def plan_text(rng):
    w = c10.wide()
    name = rng.choice([n for n in w])
    b = B[name]
    entry = rng.choice([e for e in w[name] for _ in range(min(4, len(e[3])))])
    temps = entry[3]
    nodes = []
    for _ in range(rng.choice((3, 8, 15))):
        nodes.append({'t': fill(rng, b, rng.choice(temps), entry[1]), 'i': 1})
    toks = [(t, TOKEN.findall(t)) for t in (temps if len(temps) < 300 else rng.sample(temps, 300))]

    def extra(m, use):
        """other uses of the same macro, with arguments that other statements have at that place"""
        out = []
        parts = re.split(r'[\s,]+', use)
        for _ in range(rng.choice((0, 1, 2))):
            new = list(parts)
            for i in range(1, len(parts)):
                if rng.random() < .7:
                    l = next((l for l in m['body'] if m['args'][i - 1] in TOKEN.findall(l)), None)
                    if l is None:
                        new[i] = rng.choice(('wl1', 'wl2', '1', '4', new[i]))
                        continue
                    at = TOKEN.findall(l).index(m['args'][i - 1])
                    c = [t[at] for _, t in toks if len(t) > at and (at == 0 or t[0] == TOKEN.findall(l)[0])]
                    v = rng.choice(c) if c else new[i]
                    new[i] = v.format(rng.choice(('4', 'wl1', 'wl3')))
            out.append({'t': ' '.join(new), 'i': 1})
        return out
    for _ in range(rng.choice((1, 1, 2))):
        nodes = fold(rng, b, nodes, ['wl1', 'wl2'], extra)
    # the labels around the statements
    at = sorted(rng.randint(0, len(nodes)) for _ in range(3))
    for x, l in zip(reversed(at), ('wl3', 'wl2', 'wl1')):
        nodes.insert(x, {'t': l + ':'})
    P = rng.choice((0, 0x20, 0x1000, 0x7ff0))
    return {'b': name, 'ctx': rng.choice(entry[2]) + '.org %s\n' % b.number(P, 'h'), 'nodes': spice(rng, b, nodes, True)}


def spice(rng, b, nodes, cuts_inside):
    """cuts, rejected statements and uses, interruptions"""
    out = []
    macros = {}
    q = rng.choice((0, .05, .15))
    for n in nodes:
        if 'm' in n:
            macros[n['m'].upper()] = n
        if n.get('i') and n['t'].split()[0].upper() in macros and rng.random() < .25:
            m = macros[n['t'].split()[0].upper()]
            parts = re.split(r'[\s,]+', n['t'])
            k = rng.random()
            if k < .35:
                out.append({'int': {'nth': rng.choice((rng.randint(1, 10), rng.randint(1, 60))), 'exc': rng.choice(('KeyboardInterrupt', 'MemoryError'))}, 't': n['t'], 'how': rng.choice(play.HOW)})
            elif k < .5 and m['args'] and len(parts) > len(m['args']):
                out.append({'rej': ' '.join(parts[:-1 if rng.random() < .6 else 1]), 'how': rng.choice(play.HOW)})
            elif m['args'] and len(parts) > 1:
                parts[rng.randrange(1, len(parts))] = rng.choice(('FROBN', 'FROBN', '0x', '(', '1..2', '99999999999999', '"s"'))
                if '(' not in parts and '"s"' not in parts:
                    out.append({'rej': ' '.join(parts), 'how': rng.choice(play.HOW)})
        if rng.random() < q:
            out.append({'rej': play.bads(rng, b, ['lab1'], []), 'how': rng.choice(play.HOW)})
        out.append(n)
        if rng.random() < .12:
            out.append({'cut': rng.choice(play.HOW), 'sh': rng.choice((0, 0, 1, 5))})
        elif ('m' in n or 'r' in n and cuts_inside) and rng.random() < .2:
            n['cut'] = rng.randint(1, 4)
    return out


def plan_bytes(rng):
    """blocks whose bytes are known although they cannot be written out (what they repeat depends on the address)"""
    b = rng.choice(ALL)
    data, uses = project.data_set(rng, B[b], rng.choice((0, 0, 1)))
    for _ in range(40):
        feats = set(f for f in FEATS if rng.random() < .3) | {'repeat', 'moves'} | set(f for f in ('macro', 'define') if rng.random() < .6)
        _, stmts, m = program(rng, b, feats, rng.choice((6, 12, 20)), content=lambda s: project.value(B[b], s, data.get(s['f'])), files=uses, weave=play.weave(rng, B[b], cut=rng.choice((0, .15)), trip=rng.choice((0, .08))))
        if any(s['k'] == 'repeat' for s in stmts):
            break
    return {'bytes': {'b': b, 'stmts': stmts, 'data': data, 'nl': rng.choice(('\n', '\r\n'))}}


def run_bytes(plan, ctx):
    p = plan['bytes']
    s = Sess(ctx, p['b'], p['data'])
    ctx.world.put({n: project.raw(s.b, x) for n, x in p['data'].items()})
    pl = play.Player(s, {'nl': p['nl']})
    m = s.model
    for part, end in play.groups(p['stmts']):
        if not part and end is None:
            continue
        r = pl.group(part, end)
        if r is None:
            continue
        if not r.ok and end is not None and end['k'] == 'trip':
            pass
        elif not r.ok:
            ctx.violate('refused', 'a program with blocks was rejected: %r' % r)
        if s.bytes() != m.out:
            ctx.violate('block', 'the session has %s' % project.diff(bytes(m.out), s.bytes()))
        if s.asm.pc != m.pc:
            ctx.violate('block', 'the address is %x instead of %x' % (s.asm.pc, m.pc))
        if s.labels() != m.label_addresses():
            ctx.violate('labels', 'the labels are %s instead of %s' % (s.labels(), m.label_addresses()))
    r = s.link()
    want, why = m.link()
    if why == 'skip' or want is None and why != 'bad':
        raise Invalid('link')
    if r.ok != (want is not None):
        ctx.violate('link', 'the link: %r' % r)
    if r.ok and s.bytes() != want:
        ctx.violate('image', 'the linked image has %s' % project.diff(want, s.bytes()))
    return ['bytes', p['b'], [[x['k'], x.get('n') if x['k'] == 'repeat' else 0, [y['k'] for y in x.get('body', ())]] for x in p['stmts'] if x['k'] in ('repeat', 'macro', 'cut')], len(m.out)]


def plan(rng, i, tier):
    if rng.random() < .15:
        return plan_bytes(rng)
    progs = [plan_program(rng) if rng.random() < .5 else plan_text(rng) for _ in range(rng.choice((1, 1, 1, 2)))]
    if len(progs) == 2 and rng.random() < .5:
        progs[1] = progs[0]
    return {'progs': progs, 'turns': [rng.randrange(2) for _ in range(30)] if rng.random() < .7 else [], 'style': {'nl': rng.choice(('\n', '\n', '\r\n'))}}


# ---- running -------------------------------------------------------------------------------------------------------
class Pair:
    """the session under test and the one that gets the written-out text"""

    def __init__(self, ctx, p, nl):
        self.ctx, self.p, self.nl = ctx, p, nl
        self.a, self.c = Sess(ctx, p['b']), Sess(ctx, p['b'])
        self.player = play.Player(self.a)
        self.x = Expander()
        self.todo = list(p['nodes'])
        self.sig = [p['b']]
        self.mask = []
        self.over = False
        self.n = 0
        head = p.get('ctx', '')
        if head:
            if not self.a.assemble(head).ok or not self.c.assemble(head).ok:
                raise Invalid('head')

    def compare(self, what):
        ctx = self.ctx
        a, c = self.a.bytes(), self.c.bytes()
        if a != c:
            ctx.violate('expansion', '%s: the session has %s' % (what, diff(c, a)))
        if self.a.asm.pc != self.c.asm.pc:
            ctx.violate('address', '%s: the address is %x, written out it is %x' % (what, self.a.asm.pc, self.c.asm.pc))
        if self.a.labels() != self.c.labels():
            ctx.violate('labels', '%s: the labels are %s, written out they are %s' % (what, self.a.labels(), self.c.labels()))

    def step(self):
        """one call"""
        alines, clines = [], []
        how, rules, end = 'call', [], None
        while self.todo:
            n = self.todo.pop(0)
            if 'cut' in n and len(n) <= 2 and 'sh' in n:
                how = n['cut']
                if n['sh']:
                    rules = [{'op': 'read', 'f': '*', 'nth': 0, 'count': -1, 'act': 'short', 'arg': n['sh']}]
                break
            if 'rej' in n or 'int' in n:
                end = n
                how = n['how']
                break
            if n.get('cut'):
                # the definition or block continues in the next call
                t = text(n)
                k = min(n['cut'], len(t) - 1)
                done = self.x.node(n)
                if 'm' in n:
                    self.deliver(alines + t[:k], clines, 'a definition cut after %d lines' % k, how)
                    alines, clines = t[k:], []
                else:
                    self.deliver(alines + t[:k], clines, None, how)
                    alines, clines = t[k:], done
                if self.over:
                    return
                continue
            alines += text(n)
            clines += self.x.node(n)
        if end is None:
            self.deliver(alines, clines, 'after %d lines' % len(alines), how, rules)
            return
        if 'int' in end:
            self.deliver(alines, clines, 'before an interrupted use', 'call')
            if not self.over:
                self.interrupted(end)
            return
        self.ctx.count('rejected uses and statements')
        self.n += 1
        mark = 'mark_%d' % self.n       # shows that everything before it was accepted
        self.deliver(alines + [mark + ':', end['rej']], clines + [mark + ':'] + self.x.line(end['rej']), 'after %r' % end['rej'], how, last=mark)

    def deliver(self, alines, clines, what, how, rules=(), last=None):
        if not alines and not clines:
            return
        rc = self.c.assemble('\n'.join(clines) + '\n')
        ra = self.player.deliver(self.nl.join(alines) + self.nl, how, rules)
        if what is None:            # inside a block: the bytes are compared when it is complete
            if not ra.ok:
                raise Invalid('rejected inside a block')
            return
        if ra.ok != rc.ok:
            self.ctx.violate('outcome', '%s: %s, written out: %r' % (what, ra, rc))
        if not ra.ok and last not in self.c.labels():
            # rejected somewhere in the middle: what it left open is unknown
            self.sig.append(['rejected', type(rc.exc).__name__])
            if self.a.bytes()[:len(self.c.bytes())] != self.c.bytes() and not any(l.startswith('.repeat') for l in alines):
                self.compare(what)
            self.over = True
            return
        self.sig.append([len(alines), len(clines), how, type(ra.exc).__name__ if not ra.ok else 0])
        self.compare(what)

    def interrupted(self, end):
        lines = self.x.line(end['t'])
        ra = self.a.call(lambda: self.a.asm.assemble(end['t'] + '\n'), inject=dict(end['int'], entry=True))
        if ra.ok or ra.injected is None:
            rc = self.c.assemble('\n'.join(lines) + '\n')
            if ra.ok != rc.ok:
                self.ctx.violate('outcome', 'use %r: %s, written out: %r' % (end['t'], ra, rc))
            self.compare('use %r' % end['t'])
            return
        want = len(self.a.bytes())
        for l in lines:
            if len(self.c.bytes()) >= want:
                break
            if not self.c.assemble(l + '\n').ok:
                raise Invalid('rejected')
        self.sig.append('interrupted')
        self.compare('use %r, interrupted at %s' % (end['t'], ra.injected))
        # whatever the interrupted statement had announced lies here
        self.mask.append(want)
        for s in (self.a, self.c):
            if not s.assemble('.fill 16\n').ok:
                raise Invalid('fill')

    def finish(self):
        if self.over:
            return
        ra, rc = self.a.link(), self.c.link()
        if ra.ok != rc.ok:
            if self.mask:
                raise Invalid('link after an interruption')
            self.ctx.violate('link', 'the link: %s, written out: %r' % (ra, rc))
        self.sig.append('linked' if ra.ok else type(rc.exc).__name__)
        if not ra.ok:
            return
        a, c = bytearray(self.a.bytes()), bytearray(self.c.bytes())
        for m in self.mask:
            for i in range(m, min(m + 16, len(a), len(c))):
                a[i] = c[i] = 0
        if a != c:
            self.ctx.violate('image', 'the linked image has %s' % diff(bytes(c), bytes(a)))
        if not self.mask and self.a.asm.exports != self.c.asm.exports:
            self.ctx.violate('exports', 'exports are %s, written out they are %s' % (self.a.asm.exports, self.c.asm.exports))
        self.ctx.count('linked and compared')


def diff(want, got):
    i = next((i for i, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
    return '%d bytes, written out there are %d, first difference at 0x%x: %s instead of %s' % (len(got), len(want), i, got[i:i + 8].hex(), want[i:i + 8].hex())


def run(plan, ctx):
    if 'bytes' in plan:
        return run_bytes(plan, ctx)
    pairs = [Pair(ctx, p, plan['style']['nl']) for p in plan['progs']]
    turns = list(plan['turns'])
    while any(p.todo and not p.over for p in pairs):
        live = [p for p in pairs if p.todo and not p.over]
        p = live[turns.pop(0) % len(live)] if turns else live[0]
        p.step()
    for p in pairs:
        p.finish()
    shape = [[('m', len(n['args']), len(n['body'])) if 'm' in n else 'd' if 'd' in n else ('r', n['r']) if 'r' in n else 'x' if 'rej' in n else 0 for n in p.p['nodes'] if 't' not in n] for p in pairs]
    return [[p.sig for p in pairs], shape]
