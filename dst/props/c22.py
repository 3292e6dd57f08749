"""C22: handlers, passes, reference hooks and linkers of a user's own assembler are called exactly once per occasion, at the right time."""
import errno
import io
import os
import sys
from ..backends import B
from ..engine import Invalid

RULE = ('one run: an assembler class is made up (own instructions and directives by decorator, by register_instruction/register_directive or added to the object, byte strings, defines, inherited and '
        'overridden handlers and passes, passes that are plain functions, prefixes, byte order, case rules, derived from the bare framework or from a CPU), and one or two objects of it, or its '
        'main(), get a history of calls, files and includes with uses, macro uses, handlers that fail, faults in reading, and links with and without undefined labels, '
        'failing passes and own linkers. Every call of every handler, pass, hook and linker with its arguments and the bytes it sees is compared to an independent model. Distinct: by class and outcome')
QUICK = (9000, 200)
KNOWN = {'z80': ['NOP', 'EXX', 'HALT'], '6502': ['NOP', 'CLC', 'LDA'], 'mips32': ['ADDI', 'ADD'], '68000': ['NOP', 'MOVE', 'RTS'], 'thumb': ['ADD', 'LDR'], 'lr35902': ['NOP', 'HALT', 'LD'], 'ppc': ['ADDI', 'BL'],
         '8086': ['NOP', 'MOV', 'HLT']}
CPUS = ['', '', '', 'z80', '6502', 'mips32', '68000', 'thumb', 'lr35902', 'ppc', '8086']


class Open(str):
    """bytes of which some are open"""

    def __eq__(self, other):
        return isinstance(other, str) and len(other) == len(self) and all(a == b or a == '.' for a, b in zip(self, other))

    def __ne__(self, other):
        return not self == other

    __hash__ = None


class Boom(Exception):
    pass


# ---- the generated class -------------------------------------------------------------------------------------------
def op_spec(rng, i, case):
    n = ['UOP%d' % i, 'u%dx' % i, 'Mix%d' % i]
    if rng.random() < .25:
        # names that begin like others
        n[rng.randrange(3)] = rng.choice(('defb%d', 'define_%d', 'Define%d', 'macro%d', 'endmacro%d', 'endm%d', 'repeat%d', 'endrepeat%d', 'org%d', 'include%d', 'incb%d', 'log%d', 'db%d', 'align%d', 'export%d', 'section%d')) % i
    rng.shuffle(n)
    how = rng.choice(('decor', 'decor', 'decor', 'register', 'runtime', 'inherit', 'override', 'mid', 'override2'))
    kind = rng.choice(('op', 'op', 'dir'))
    ref = {'rel': rng.random() < .3, 'act': rng.choice(('', '', 'hook', 'filter', 'bits')), 'align': rng.choice((1, 1, 1, 2, 4)), 'rf': rng.random() < .3}
    n = n[:rng.choice((1, 1, 2))]
    if how in ('register', 'runtime') and rng.random() < .4:
        n[-1] = 'FILL' if kind == 'dir' else 'SHADOW'
    return {'names': n, 'how': how, 'kind': kind, 'w': rng.choice((1, 2, 2, 4)), 'ref': ref, 'ret': rng.choice((0, 0, 0, 1, 2))}


def plan(rng, i, tier):
    case = rng.random() < .4
    ops = [op_spec(rng, k, case) for k in range(rng.choice((1, 2, 3, 5)))]
    base = rng.choice(CPUS)
    for o in ops:
        # in place of something that exists
        if o['names'][-1] in ('FILL', 'SHADOW'):
            x = rng.choice(('fill', 'upto', 'incjson', 'ram', 'log') if o['kind'] == 'dir' else KNOWN.get(base, ['UNKNOWN']))
            o['names'][-1] = x if not any(x in y['names'] for y in ops) else o['names'][-1] + 'X'
    c = {'base': base, 'case': case, 'big': rng.random() < .5, 'ops': ops,
         'fixed': [[rng.choice(KNOWN.get(base, ['FIX%d' % k])) if k == 0 and rng.random() < .4 else'FIX%d' % k, rng.randbytes(rng.randint(1, 5)).hex()] for k in range(rng.choice((0, 1, 2)))],
         'defines': [['DEF%d' % k, str(rng.choice((1, 7, 100)))] for k in range(rng.choice((0, 1, 2)))],
         'cls': int(rng.random() < .3), 'pre': passes(rng), 'post': passes(rng)}
    hist = []
    labels = ['la%d' % k for k in range(6)]
    defined = []
    for _ in range(rng.choice((1, 2, 4, 7))):
        sts = [stmt(rng, c, labels, defined) for _ in range(rng.choice((1, 3, 8)))]
        h = {'k': 'run', 'how': rng.choice(('call', 'call', 'file', 'include')), 'st': sts, 'nl': rng.choice(('\n', '\r\n', '\n\n'))}
        q = rng.random()
        if q < .12:
            h['bad'] = [rng.randrange(len(c['ops'])), rng.choice(('FAIL', 'WRONG', 'NONE', 'LATE')), [rng.choice(labels + ['1', '2'])][:rng.randrange(2)]]
        elif q < .16 and case:
            h['bad'] = [rng.randrange(len(c['ops'])), 'CASE', []]
        elif q < .2 and h['how'] != 'call':
            h['io'] = {'op': rng.choice(('openr', 'read')), 'e': rng.choice((errno.EIO, errno.ENOENT, errno.EACCES))}
        elif q < .3:
            h['short'] = rng.choice((1, 3, 50))
        hist.append(h)
        while rng.random() < .35:
            hist.append(link(rng, c, labels, defined))
    # what is missing, then links that have to go through
    if rng.random() < .75:
        rest = [x for x in labels if x not in defined]
        hist.append({'k': 'run', 'how': 'call', 'st': [['l', x] for x in rest], 'nl': '\n'})
    answer = rng.choice((None, 0, 8, 64, 200))
    hist += [link(rng, c, labels, defined, answer) for _ in range(rng.choice((1, 1, 2)))]
    return {'c': c, 'h': hist, 'n': rng.choice((1, 1, 2)), 'main': rng.random() < .25}


def passes(rng):
    out = []
    for k in range(rng.choice((0, 1, 1, 2, 3))):
        out.append({'how': rng.choice(('decor', 'decor', 'inherit', 'override', 'mid', 'override2', 'plain', 'bound')), 'act': rng.choice(('', '', 'emit', 'sum')), 'name': 'p%d' % rng.randrange(1000)})
    return out


def h_last(last):
    return last is not False


def link(rng, c, labels, defined, last=False):
    # (what the linker answers for a label stays in the image: only the last links get an answer)
    h = {'k': 'link', 'linker': rng.choice((None, None, 'rec', 'rec')), 'resolve': last if h_last(last) else None}
    if h['linker'] != 'rec':
        h['resolve'] = None
    n = len(c['pre']) + len(c['post'])
    if n and rng.random() < .15 and last is False:
        h['boom'] = rng.randrange(n)
    return h


def stmt(rng, c, labels, defined):
    q = rng.random()
    free = [x for x in labels if x not in defined]
    if q < .2 and free:
        x = rng.choice(free)
        defined.append(x)
        return ['l', x]
    if q < .25:
        return ['g', rng.choice((1, 2, 4))]
    if q < .35 and c['fixed']:
        return ['f', rng.randrange(len(c['fixed'])), rng.randrange(3)]
    if q < .4:
        return ['b', rng.randrange(256)]
    if q < .44:
        return ['s', rng.choice(('RX', 'RW'))]
    o = rng.randrange(len(c['ops']))
    args = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        z = rng.random()
        if z < .45:
            args.append(rng.choice(labels))
        elif z < .55 and c['defines']:
            args.append(rng.choice(c['defines'])[0])
        else:
            args.append(str(rng.choice((0, 1, 5, 127))))
    if rng.random() < .06:
        args.append('EMPTY')
    if c['ops'][o]['kind'] == 'op' and q > .88:
        return ['m', o, args, rng.randrange(3)]
    return ['o', o, args, rng.randrange(3), rng.randrange(2)]


def spelled(name, case, k):
    return name if case else (name, name.upper(), name.lower())[k % 3]


def make(c, AsmMod, base):
    """the class, from its description"""
    rec = {}
    alive = []

    def log(asm, *e):
        alive.append(asm)       # (so that its id stays its own)
        rec.setdefault(id(asm), []).append(list(e))

    def handler(i, o, tag=''):
        r = o['ref']
        scratch = bytearray()

        def h(self, instr):
            toks = [str(t) for t in instr.tokens]
            log(self, 'call', str(i) + tag, toks[0], toks[1:], instr.line, instr.context, bytes(self.assembled_bytes).hex() if len(self.assembled_bytes) < 64 else len(self.assembled_bytes))
            if 'FAIL' in toks:
                raise Boom('handler')
            if 'WRONG' in toks:
                raise AsmMod.InvalidArgumentsForDirective(instr) if o['kind'] == 'dir' else AsmMod.NegativeSignNotAllowed()
            if 'NONE' in toks:
                return None
            out = bytes([0xE0 + i])
            if 'EMPTY' in toks:
                out = b''
            for t in toks[1:] if out else ():
                if t == 'LATE':
                    raise Boom('late')
                kw = {'size': o['w'], 'bits_size': 8 * o['w'], 'offset': len(out), 'alignment': r['align']}
                if r['rel']:
                    kw['relative'] = self.pc
                    if r['rf']:
                        kw['relative_filter'] = lambda x: x & ~3
                if r['act'] == 'hook':
                    kw['hook'] = self.own_hook
                elif r['act'] == 'filter':
                    kw['filter'] = own_filter(self, o['w'])
                elif r['act'] == 'bits':
                    kw['bits'] = (8 * o['w'] - 1, 0)
                v = self.parse_integer_or_label(t, **kw)
                out += (v & ((1 << 8 * o['w']) - 1)).to_bytes(o['w'], 'big' if c['big'] else 'little')
            if o.get('ret') == 1:
                out = bytearray(out)
            elif o.get('ret') == 2:
                # one buffer for all uses
                scratch[:] = out
                out = scratch
            if o['kind'] == 'dir':
                self.append_assembled_bytes(out)
                return None
            return out
        return h

    def own_filter(self, w):
        def f(v):
            log(self, 'filter', v)
            return v ^ 1 if v >= 0 else v
        return f

    def own_hook(self, address, value):
        log(self, 'hook', address, value)
        self.assembled_bytes[address] = 0x5A

    def do_pass(kind, n, p):
        def f(self):
            log(self, kind, n, bytes(self.assembled_bytes).hex())
            if getattr(self, 'boom', None) == [kind, n]:
                raise Boom('pass')
            if p['act'] == 'emit' and kind == 'pre' and not hasattr(self, 'emitted%d' % n):
                setattr(self, 'emitted%d' % n, True)
                self.assemble('pass_label%d:\n.db 77\n' % n)
            elif p['act'] == 'sum' and kind == 'post' and self.assembled_bytes:
                self.assembled_bytes[0] = 0
                self.assembled_bytes[0] = sum(self.assembled_bytes) & 0xFF
        return f

    wrong = lambda tag: (lambda self, *a: log(self, 'stale', tag))
    parent, middle, child = {}, {}, {}
    for i, o in enumerate(c['ops']):
        deco = AsmMod.opcode if o['kind'] == 'op' else AsmMod.directive
        n = 'handler%d' % i
        if o['how'] == 'decor':
            child[n] = deco(*o['names'])(handler(i, o))
        elif o['how'] == 'inherit':
            parent[n] = deco(*o['names'])(handler(i, o))
        elif o['how'] == 'mid':
            parent[n] = deco(*o['names'])(wrong(n))
            middle[n] = deco(*o['names'])(handler(i, o))
        elif o['how'] in ('override', 'override2'):
            parent[n] = deco(*o['names'])(wrong(n))
            if o['how'] == 'override2':
                middle[n] = deco(*o['names'])(wrong(n))
            child[n] = deco(*o['names'])(handler(i, o))
        else:
            child[n] = handler(i, o)
    plain = {'pre': [], 'post': []}
    for kind in ('pre', 'post'):
        deco = AsmMod.pre_link if kind == 'pre' else AsmMod.post_link
        for n, p in enumerate(c[kind]):
            name = '%s_%s_%d' % (p['name'], kind, n)
            f = do_pass(kind, n, p)
            if p['how'] == 'decor':
                child[name] = deco(f)
            elif p['how'] == 'inherit':
                parent[name] = deco(f)
            elif p['how'] == 'mid':
                parent[name] = deco(wrong(name))
                middle[name] = deco(f)
            elif p['how'] in ('override', 'override2'):
                parent[name] = deco(wrong(name))
                if p['how'] == 'override2':
                    middle[name] = deco(wrong(name))
                child[name] = deco(f)
            elif p['how'] == 'bound':
                child[name] = f
                plain[kind].append(name)
            else:
                plain[kind].append(f)

    def regs(kind):
        def f(self):
            getattr(super(K, self), 'register_instructions' if kind == 'op' else 'register_directives')()
            for i, o in enumerate(c['ops']):
                if o['how'] == 'register' and o['kind'] == kind:
                    for n in o['names']:
                        (self.register_instruction if kind == 'op' else self.register_directive)(n, getattr(self, 'handler%d' % i))
            if kind == 'op':
                for n, h in c['fixed']:
                    self.register_instruction(n, (bytearray if len(h) % 4 else bytes).fromhex(h))
        return f

    def defs(self):
        super(K, self).register_defines()
        for n, v in c['defines'] if not c.get('cls') else ():
            self.register_define(n, v)
    if c.get('cls'):
        # the ones of the class replace those of its parents
        parent['defines'] = {'la0': '9', 'la3': '7'}
        child['defines'] = dict(c['defines'])
    P = type('Parent', (base,), dict(parent, case_sensitive=c['case'], big_endian=c['big']))
    P = type('Middle', (P,), middle)
    K = type('Own', (P,), dict(child, own_hook=own_hook, register_instructions=regs('op'), register_directives=regs('dir'), register_defines=defs))
    return K, rec, plain


def ready(asm, c, plain):
    for i, o in enumerate(c['ops']):
        if o['how'] == 'runtime':
            for n in o['names']:
                (asm.register_instruction if o['kind'] == 'op' else asm.register_directive)(n, getattr(asm, 'handler%d' % i))
    for kind in ('pre', 'post'):
        for f in plain[kind]:
            getattr(asm, kind + '_link_passes').append(getattr(asm, f) if isinstance(f, str) else f)


# ---- the model -----------------------------------------------------------------------------------------------------
class Mod:
    def __init__(self, c, fill):
        self.c, self.fill = c, fill
        self.out = bytearray()
        self.labels = {}
        self.refs = []          # (address, label, op, relative base)
        self.emitted = set()
        self.rec = []
        self.dirty = False      # a link failed at a reference: until one succeeds the fields of references are open

    def seen(self):
        return self.image() if len(self.out) < 64 else len(self.out)

    def image(self):
        if not self.dirty:
            return bytes(self.out).hex()
        h = bytes(self.out).hex()
        for pos, l, spec, rel in self.refs:
            h = h[:2 * pos] + '..' * spec['w'] + h[2 * (pos + spec['w']):]
        if any(p['act'] == 'sum' for p in self.c['post']):
            h = '..' + h[2:]
        return Open(h)

    def use(self, o, name, args, line, ctx):
        spec = self.c['ops'][o]
        d = dict(map(tuple, self.c['defines']))
        args = [d.get(a, a) for a in args]
        self.rec.append(['call', str(o), name, args, line, ctx, self.seen()])
        if 'EMPTY' in args:
            return
        pos = len(self.out) + 1
        pc = len(self.out)
        out = bytes([0xE0 + o])
        for a in args:
            if a[0].isdigit():
                v = int(a)
                out += v.to_bytes(spec['w'], 'big' if self.c['big'] else 'little')
            else:
                self.refs.append((pos, a, spec, pc if spec['ref']['rel'] else None))
                out += bytes(spec['w'])
            pos += spec['w']
        self.out += out

    def link(self, h, order):
        """-> expected outcome ok/failed; events in self.rec: in order, but those of one phase in any order"""
        c = self.c
        boom = h.get('boom')
        allp = [('pre', n) for n in range(len(c['pre']))] + [('post', n) for n in range(len(c['post']))]
        bad = allp[boom] if boom is not None else None
        for n in order['pre']:
            self.rec.append(['pre', n, self.image()])
            if bad == ('pre', n):
                return False
            if c['pre'][n]['act'] == 'emit' and n not in self.emitted:
                self.emitted.add(n)
                self.labels['pass_label%d' % n] = len(self.out)
                self.out.append(77)
        phase = []
        self.rec.append(phase)
        for pos, l, spec, rel in self.refs:
            r = spec['ref']
            a = self.labels.get(l)
            v = a
            if a is None:
                if h['linker'] == 'rec':
                    phase.append(['resolve', pos, l])
                if h['resolve'] is None:
                    return None
                a = v = h['resolve']
            elif rel is not None:
                v = a - (rel & ~3 if r['rf'] else rel)
            if a % r['align']:
                return None
            bits = 8 * spec['w']
            if rel is not None and not -(1 << (bits - 1)) <= v < 1 << (bits - 1) or rel is None and not 0 <= v < 1 << bits:
                return None
            if r['act'] == 'hook':
                phase.append(['hook', pos, v])
                self.out[pos] = 0x5A
                continue
            if r['act'] == 'filter':
                phase.append(['filter', v])
                v = v ^ 1 if v >= 0 else v
            v &= (1 << bits) - 1
            old = int.from_bytes(self.out[pos:pos + spec['w']], 'big' if c['big'] else 'little')
            self.out[pos:pos + spec['w']] = (old | v).to_bytes(spec['w'], 'big' if c['big'] else 'little')
        self.dirty = False
        for n in order['post']:
            self.rec.append(['post', n, self.image()])
            if bad == ('post', n):
                return False
            if c['post'][n]['act'] == 'sum' and self.out:
                self.out[0] = 0
                self.out[0] = sum(self.out) & 0xFF
        if h['linker'] == 'rec':
            self.rec.append(['link', self.image()])
        return True


def text(c, sts, fname, line, mod, nl, macros):
    """the source of the statements; (text, [what the model does])"""
    out, todo = [], []
    case = c['case']
    for s in sts:
        line = len(out) * len(nl.replace('\r', '')) + 1
        if s[0] == 'l':
            out.append(s[1] + ':')
            todo.append(('l', s[1]))
        elif s[0] == 'g':
            out.append('.align %d' % s[1])
            todo.append(('g', s[1]))
        elif s[0] == 'f':
            out.append(spelled(c['fixed'][s[1]][0], case, s[2]))
            todo.append(('e', bytes.fromhex(c['fixed'][s[1]][1])))
        elif s[0] == 'b':
            out.append('.db %d' % s[1])
            todo.append(('e', bytes([s[1]])))
        elif s[0] == 's':
            macros.append('.section')
            out.append('.section "s%d" %s' % (len(macros), s[1]))
        else:
            o = c['ops'][s[1]]
            n = spelled(o['names'][s[3] % len(o['names'])], case, s[3])
            dot = '.' if o['kind'] == 'dir' else ''
            if s[0] == 'm':
                m = 'mac%d' % len(macros)
                macros.append(m)
                k = len(s[2])
                body = len(nl.replace('\r', ''))
                out += ['.macro %s %s' % (m, ' '.join('arg_%d' % j for j in range(k))), '%s %s' % (n, ', '.join('arg_%d' % j for j in range(k))), '.endmacro', '%s %s' % (m, ', '.join(s[2]))]
                todo.append(('o', s[1], n, s[2], line + body, fname))
            else:
                out.append('%s%s %s' % (dot, n, (', ', ' ')[s[4]].join(s[2])))
                todo.append(('o', s[1], dot + n, s[2], line, fname))
    return nl.join(out) + nl, todo, len(out) * len(nl.replace('\r', '')) + 1


def run(plan, ctx):
    import necroassembler
    import necroassembler.exceptions as exceptions
    from types import SimpleNamespace
    c = plan['c']
    w = ctx.world
    AsmMod = SimpleNamespace(opcode=necroassembler.opcode, directive=necroassembler.directive, pre_link=necroassembler.pre_link, post_link=necroassembler.post_link,
                             InvalidArgumentsForDirective=exceptions.InvalidArgumentsForDirective, NegativeSignNotAllowed=exceptions.NegativeSignNotAllowed)
    base = B[c['base']].cls() if c['base'] else necroassembler.Assembler
    K, rec, plain = make(c, AsmMod, base)
    names = [n.upper() for o in c['ops'] for n in o['names']] + [n for n, _ in c['fixed']]
    if len(set(names)) != len(names):
        raise Invalid('names')
    a = base()
    exists = set(a.instructions) | set(a.directives)
    known = set(n for o in c['ops'] for n in o['names']) | set(n for n, _ in c['fixed'])
    objs = []
    for k in range(plan['n']):
        a = K()
        ready(a, c, plain)
        rec[id(a)] = []
        fill = a.fill_value
        objs.append((a, Mod(c, fill)))
    sh = w.shim
    sig = [c['base'], [o['how'] + o['kind'] for o in c['ops']], [p['how'] for p in c['pre']], [p['how'] for p in c['post']]]
    old = sys.stdout
    nfile = 0
    macros = []
    links = 0

    def quiet(fn, rules=()):
        sh.reset()
        sh.begin(w.root)
        sh.rules(rules)
        sys.stdout = io.StringIO()
        try:
            fn()
            return None
        except BaseException as e:
            return e
        finally:
            sys.stdout = old
            sh.end()
            w.tally(rules, sh.fired())
    for h in plan['h']:
        if h['k'] == 'run':
            here = None
            name = None
            if h['how'] != 'call':
                name = here = 'f%d.s' % nfile
                nfile += 1
            t, todo, line = text(c, h['st'], here, 1, None, h['nl'], macros)
            bad = h.get('bad')
            if bad:
                o = c['ops'][bad[0] % len(c['ops'])]
                dot = '.' if o['kind'] == 'dir' else ''
                if o['kind'] == 'dir' and bad[1] == 'NONE':
                    bad = None
                elif bad[1] == 'CASE':
                    # the name of another one
                    other = o['names'][0].swapcase()
                    if other in known or other.upper() in exists:
                        raise Invalid('names')
                    t += '%s%s 1\n.db 99\n' % (dot, other)
                else:
                    args = (bad[2] if o['kind'] == 'op' else []) + [bad[1]]
                    t += '%s%s %s\n.db 99\n' % (dot, o['names'][0], ' '.join(args))
            rules = []
            if h.get('short'):
                rules.append({'op': 'read', 'f': '*', 'nth': 0, 'count': -1, 'act': 'short', 'arg': h['short']})
            if h.get('io') and name:
                rules.append({'op': h['io']['op'], 'f': '*' + name, 'nth': 0, 'count': -1, 'act': 'err', 'arg': h['io']['e']})
            if name:
                w.put({name: t.encode()})
            for a, m in objs:
                if h['how'] == 'call':
                    e = quiet(lambda: a.assemble(t), rules)
                elif h['how'] == 'file':
                    e = quiet(lambda: a.assemble_file(name), rules)
                else:
                    e = quiet(lambda: a.assemble('.include "%s"' % name), rules)
                if h.get('io') and name:
                    if e is None:
                        ctx.violate('accepted', 'a source that cannot be read was accepted')
                    continue
                step(ctx, m, todo)
                if bad and bad[1] == 'CASE':
                    if e is None:
                        ctx.violate('case', 'a case sensitive class accepted %s in another case' % o['names'][0])
                elif bad:
                    m.rec.append(['call', str(bad[0] % len(c['ops'])), dot + o['names'][0], args, line, here, m.seen()])
                    if e is None:
                        ctx.violate('accepted', 'a use whose handler failed (%s) was accepted' % bad[1])
                elif e is not None:
                    ctx.violate('rejected', 'assembling %r failed: %s(%s)' % (t[:200], type(e).__name__, e))
        else:
            links += 1
            for a, m in objs:
                allp = [['pre', n] for n in range(len(c['pre']))] + [['post', n] for n in range(len(c['post']))]
                a.boom = allp[h['boom']] if h.get('boom') is not None and h['boom'] < len(allp) else None
                mine = rec[id(a)]
                at = len(mine)
                lk = None
                if h['linker'] == 'rec':
                    lk = Linker(mine, h['resolve'], exceptions)
                e = quiet(lambda: a.link(lk) if lk else a.link())
                # the order of the passes among themselves is not prescribed: take the one that was used, if it is one
                got = mine[at:]
                order = {k: [x[1] for x in got if x[0] == k] for k in ('pre', 'post')}
                for k in order:
                    order[k] += [n for n in range(len(c[k])) if n not in order[k]]
                    if len(set(order[k])) != len(order[k]):
                        ctx.violate('passes', 'a link called its %s_link passes %s' % (k, [x[1] for x in got if x[0] == k]))
                r = m.link(h if h.get('boom') is None or h['boom'] < len(allp) else dict(h, boom=None), order)
                if (e is None) != (r is True):
                    ctx.violate('link', 'the link %s' % ('was accepted' if e is None else 'failed: %s(%s)' % (type(e).__name__, e)))
                if r is None:
                    # which references had been looked at before the failing one is open
                    phase = m.rec.pop()
                    tail = [x for x in mine[len(flat(m.rec)):]]
                    if any(x[0] not in ('hook', 'filter', 'resolve') for x in tail):
                        ctx.violate('failed', 'a link that failed at a reference went on: %s' % tail)
                    compare(ctx, mine[:len(flat(m.rec))], m.rec)
                    rec[id(a)] = mine[:len(flat(m.rec))]
                    m.dirty = True
                    ctx.count('links that failed at a reference')
                    continue
                if r is True and bytes(a.assembled_bytes) != bytes(m.out):
                    ctx.violate('image', 'after the link the image is %s, expected %s' % (bytes(a.assembled_bytes).hex(), bytes(m.out).hex()))
        for a, m in objs:
            compare(ctx, rec[id(a)], m.rec)
            if m.image() != bytes(a.assembled_bytes).hex():
                ctx.violate('bytes', 'the bytes are %s, expected %s' % (bytes(a.assembled_bytes).hex(), m.image()))
    if plan['main'] and not any(o['how'] == 'runtime' for o in c['ops']):
        for k in range(1 + len(plan['h']) % 2):
            objs.append((None, by_main(plan, ctx, K, rec, plain, quiet, macros, exceptions, fill)))
        sig.append('main')
    n = sum(len(flat(m.rec)) for a, m in objs)
    ctx.count('calls of handlers, passes, hooks and linkers compared', n)
    if not n:
        return None
    return sig + [n, links]


def by_main(plan, ctx, K, rec, plain, quiet, macros, exceptions, fill):
    """the front end of the class"""
    c, w = plan['c'], ctx.world
    m = Mod(c, fill)
    argv = []
    parts = [h for h in plan['h'] if h['k'] == 'run']
    for k, h in enumerate(parts):
        name = 'm%d.s' % k
        t, todo, line = text(c, h['st'], name, 1, None, h['nl'], macros)
        w.put({name: t.encode()})
        argv.append(name)
        step(ctx, m, todo)
    h = dict(plan['h'][-1])
    if h['k'] != 'link':
        raise Invalid('no link')
    before = set(rec)
    kw = {}
    for k in ('pre', 'post'):
        fs = [getattr(K, f) if isinstance(f, str) else f for f in plain[k]]
        if fs:
            kw[k + '_link_passes'] = fs
    mine = []
    if h['linker'] == 'rec':
        kw['linker'] = Linker(mine, h['resolve'], exceptions)
    old = sys.argv
    sys.argv = ['own'] + argv + ['m.out']
    try:
        e = quiet(lambda: K.main(**kw))
    finally:
        sys.argv = old
    new = [x for x in rec if x not in before]
    if len(new) > 1:
        ctx.violate('main', 'main() used %d objects' % len(new))
    got = rec[new[0]] if new else []
    order = {k: [x[1] for x in got if x[0] == k] for k in ('pre', 'post')}
    for k in order:
        order[k] += [n for n in range(len(c[k])) if n not in order[k]]
        if len(set(order[k])) != len(order[k]):
            ctx.violate('passes', 'main() called its %s_link passes %s' % (k, [x[1] for x in got if x[0] == k]))
    r = m.link(h, order)
    if (e is None) != (r is True):
        ctx.violate('main', 'main() %s' % ('was accepted' if e is None else 'failed: %s(%s)' % (type(e).__name__, e)))
    # the linker has a record of its own
    want = flat(m.rec)
    split = [[x for x in want if x[0] in ('resolve', 'link')], [x for x in want if x[0] not in ('resolve', 'link')]]
    if r is True:
        for a, b in ((mine, split[0]), (got, split[1])):
            if sorted(map(repr, a)) != sorted(map(repr, b)):
                ctx.violate('main', 'in main() the calls were %s, expected %s' % (a, b))
    out = w.read('m.out')
    if out != (bytes(m.out) if r is True else None):
        ctx.violate('main', 'main() wrote %s, expected %s' % (out and out.hex(), r is True and bytes(m.out).hex()))
    return m


class Linker:
    def __init__(self, rec, value, exceptions):
        self.rec, self.value, self.exceptions = rec, value, exceptions

    def resolve_unknown_symbol(self, assembler, address, data):
        self.rec.append(['resolve', address, data.label])
        if self.value is None:
            raise self.exceptions.UnknownLabel(data.label)
        return self.value

    def link(self, assembler):
        self.rec.append(['link', bytes(assembler.assembled_bytes).hex()])
        return bytearray(assembler.assembled_bytes)


def step(ctx, m, todo):
    for s in todo:
        if s[0] == 'l':
            m.labels[s[1]] = len(m.out)
        elif s[0] == 'e':
            m.out += s[1]
        elif s[0] == 'g':
            m.out += bytes([m.fill]) * (-len(m.out) % s[1])
        else:
            m.use(*s[1:])


def flat(rec):
    out = []
    for x in rec:
        if x and isinstance(x[0], list):
            out += x
        elif x:
            out.append(x)
    return out


def compare(ctx, got, want):
    pos = 0
    for x in want:
        if not x:
            continue
        if isinstance(x[0], list):
            n = len(x)
            if sorted(map(repr, got[pos:pos + n])) != sorted(map(repr, x)):
                ctx.violate('references', 'while references were resolved the calls were %s, expected %s' % (got[pos:pos + n], x))
            pos += n
            continue
        if pos >= len(got):
            ctx.violate('missing', 'no call %s' % x)
        if got[pos] != x:
            ctx.violate('call', 'call %d is %s, expected %s' % (pos, got[pos], x))
        pos += 1
    if pos != len(got):
        ctx.violate('extra', 'unexpected call %s' % got[pos])
