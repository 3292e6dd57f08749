"""Seeded generation of programs.  Every program is validated with the reference model, never with the code under test."""
import copy
from .backends import B
from .model import Model, Bad, Skip

LNAMES = ('lab%d', 'Lab%d', 'L_%d', 'x%dq', '_start%d', 'loop_%d', 'DATA%dz')


class Cfg:
    """swarm configuration of one program"""

    multiline = False
    all_exports = 0

    def __init__(self, rng, feats=None, size=None, files=(), limit=60000, weave=None):
        self.files, self.limit, self.weave = list(files), limit, weave
        self.exports = rng.random() < .25
        self.n = size or rng.choice((4, 8, 12, 20, 35))
        self.feats = feats if feats is not None else set(f for f in ALL_FEATS if rng.random() < 0.55)


ALL_FEATS = ('org', 'bounded', 'ram', 'goto', 'repeat', 'macro', 'define', 'section', 'log', 'asc', 'expr', 'align', 'comment', 'moves')


PLAIN = ('.text', '.data', '.bss', '.rodata', '.comment', '.note', '.file', '.init', '.line', '.debug_x', 'code', 'x', '.a.b', '.eh_frame', '_start')


class Gen:
    def __init__(self, rng, b, cfg, content=None):
        self.r, self.b, self.cfg = rng, b, cfg
        self.m = Model(b, content)
        self.nl = 0
        self.names, self.free0 = [], []
        self.free = [self.newname() for _ in range(rng.randint(1, max(2, cfg.n // 4)))]
        self.names = list(self.free)
        self.defs = []
        self.macs = []
        self.secs = 0
        self.out = []
        self.bound = False

    def newname(self):
        self.nl += 1
        if self.nl > 1 and self.r.random() < .12:
            # the beginning, the end or an extension of another name
            n = self.r.choice(self.names or self.free0)
            n = self.r.choice((n + '_', n + '2', n[:-1], n[1:], n.swapcase()))
            if len(n) > 2 and n not in self.names and n not in self.free0 and not n[0].isdigit():
                self.free0.append(n)
                return n
        self.free0.append(self.r.choice(LNAMES) % self.nl)
        return self.free0[-1]

    # ---- items ----
    def num(self, bits, signed=False):
        r = self.r
        k = r.random()
        if k < .2:
            v = r.choice((0, 1, (1 << bits) - 1, 1 << (bits - 1)))
        elif signed and k < .4:
            return {'t': 'n', 'v': -r.randint(1, 1 << (bits - 1)), 'f': 'd'}
        else:
            v = r.getrandbits(r.randint(1, bits))
        return {'t': 'n', 'v': v, 'f': r.choice('dhb')}

    def label_item(self, rel=False, unit=1, zp=False):
        r = self.r
        it = {'t': 'r', 'l': r.choice(self.names)}
        if 'expr' in self.cfg.feats and r.random() < .4:
            if rel:
                it['o'] = [[r.choice('+-'), unit * r.randint(1, 3)]]
            else:
                k = r.random()
                if k < .25:
                    it['p'] = r.choice(('>', '<', '>>', '<<'))
                if k > .15:
                    it['o'] = []
                    for _ in range(r.choice((1, 1, 2, 3))):
                        op = r.choice('++--&|*/')
                        if not zp and r.random() < .3 and op in '+-':
                            it['o'].append([op, r.choice(self.names)])
                        else:
                            it['o'].append([op, r.choice((1, 2, 3, 4, 8, 16)) if op != '&' else r.choice((0xFF, 0xF0, 0xFFF, 0xFFFF))])
        return it

    def form_item(self, f, allow=('n', 'r', 'd')):
        r = self.r
        if r.random() < .22 and f.lit:
            if not f.glue and self.defs and r.random() < .5:
                return {'t': 'd', 'n': r.choice(self.defs)}
            return self.literal(f)
        return self.label_item(f.rel is not None, 1 << f.shift if f.rel is not None else 1, f.kind == 'zp')

    def literal(self, f):
        r = self.r
        for _ in range(20):
            if r.random() < .4:
                v = r.choice((f.mn, f.mx, 0, 4, 8))
            else:
                v = r.randint(f.mn, min(f.mx if f.litmax is None else f.litmax, f.mn + (1 << r.randint(2, 31))))
            step = max(1 << f.shift, f.align)
            v -= v % step
            if not f.mn <= v <= f.mx or f.litmax is not None and v > f.litmax or any(x <= v <= y for x, y in f.skip):
                continue
            if f.kind == 'j26':
                v &= 0x0FFFFFFC
            return {'t': 'n', 'v': v, 'f': 'd' if f.rel is not None or v < 0 else r.choice('dhb')}
        return {'t': 'n', 'v': 4, 'f': 'd'}

    # ---- statements ----
    def data(self, refs=True, strings=True):
        r = self.r
        k = r.choice(('db', 'db', 'dw', 'dd'))
        w = {'db': 1, 'dw': 2, 'dd': 4}[k]
        its = []
        for _ in range(r.choice((1, 1, 2, 3, 5))):
            q = r.random()
            if refs and q < .35:
                its.append(self.label_item())
            elif strings and k == 'db' and q < .5:
                its.append({'t': 's', 'v': ''.join(r.choice('abcXYZ 019;:,()#' + '\n\n' * self.cfg.multiline) for _ in range(r.randint(1, 9)))})
                if its[-1]['v'][0] in 'aX;':
                    its[-1]['q'] = 1
            elif strings and k != 'db' and q < .43:
                its.append({'t': 's', 'v': ''.join(r.choice('abcXYZ 019é日;:€ü') for _ in range(r.randint(1, 5)))})
                if its[-1]['v'][0] in 'bé;':
                    its[-1]['q'] = 1
            elif self.defs and q < .6:
                its.append({'t': 'd', 'n': r.choice(self.defs)})
            else:
                its.append(self.num(8 * w, True))
        s = {'k': k, 'it': its}
        if r.random() < .2:
            s['a'] = {'db': 'byte', 'dw': 'word', 'dd': r.choice(('dl', 'dword'))}[k]
        return s

    def ins(self):
        return {'k': 'ins', 'i': self.r.randrange(len(self.b.plain))}

    def ref(self):
        f = self.r.randrange(len(self.b.forms))
        return {'k': 'ref', 'f': f, 'it': [self.form_item(self.b.forms[f])]}

    def one(self):
        r, c, m = self.r, self.cfg.feats, self.m
        k = r.random()
        if k < .16 and self.free:
            s = {'k': 'label', 'n': self.free[0]}
            if r.random() < .2:
                s['j'] = 1
            return s
        if k < .34:
            return self.data()
        if k < .44:
            return self.ins()
        if k < .66:
            return self.ref()
        pick = [f for f in c if f not in ('expr', 'comment', 'moves')] + ['fill']
        if self.b.mode:
            pick += ['mode'] * 2
        if self.cfg.files:
            pick += ['file'] * max(2, len(pick) // 2)
        f = r.choice(pick)
        if f == 'file':
            return dict(r.choice(self.cfg.files))
        if f == 'fill':
            return {'k': 'fill', 'n': r.choice((0, 1, 2, 5, 17, 64, 130)) if self.cfg.limit < 100000 or r.random() < .7 else r.choice((65535, 65536, 65537, 70000, 131072)), 'v': r.choice((None, None, 0, 0xFF, r.randrange(256)))}
        if f == 'align':
            return {'k': 'align', 'n': r.choice((1, 2, 3, 4, 8, 16, 10, 64, 7, 100, 24))}
        if f == 'ram':
            return {'k': 'ram', 'n': r.choice((1, 2, 7, 16, 100)) if self.cfg.limit < 100000 or r.random() < .7 else r.choice((65535, 65536, 65537, 70000))}
        if f == 'org':
            if r.random() < .04:
                return {'k': 'org', 's': r.choice((0xFFFFFF00, 0xFFFFFFF0, 0x100000000, (1 << 32) + r.randrange(1 << 20), (1 << 40) + 12, r.randrange(1 << 60))) & ~3, 'e': None}
            if r.random() < .15 and self.b.org_max > 0xF000:
                return {'k': 'org', 's': r.randrange(0x10000, self.b.org_max), 'e': None}
            return {'k': 'org', 's': r.choice((0, 0x10, 0x80, 0xC0, 0xF8, 0x100, 0x200, 0x1000, 0x4000, 0x7FF0, 0x8000, r.randrange(0xF000))) & ~3, 'e': None}
        if f == 'bounded':
            base = r.choice((0, 0x20, 0x80, 0x100, 0x8000)) if m.end == 0 else max(m.pc, m.org + 1) + r.choice((0, 1, 5, 40))
            if m.end and r.random() < .35:
                base = max(m.pc, m.end + r.choice((-1, 0, 0, 1, 2)))
            return {'k': 'org', 's': base, 'e': base + r.choice((0, 1, 3, 7, 15, 31, 63, 255))}
        if f == 'goto':
            if r.random() < .5:
                n = max(len(m.out), m.pc)
                if n - m.pc > 2000:
                    return None
                return {'k': 'goto', 'n': n + r.choice((0, 1, 3, 20)), 'v': r.choice((None, 0, 0x77, 0xFF, r.randrange(256)))}
            n = max(len(m.out), m.ctr)
            if n - m.ctr > 2000:
                return None
            return {'k': 'upto', 'n': n + r.choice((0, 1, 3, 20)), 'v': r.choice((None, 0x33, 0x80, r.randrange(256)))}
        if f == 'repeat' and self.cfg.limit > 100000 and r.random() < .4:
            return {'k': 'repeat', 'n': r.choice((65535, 65536, 65537, 70000)), 'body': [{'k': 'db', 'it': [{'t': 'n', 'v': r.randrange(256), 'f': 'd'}]} if r.random() < .5 else {'k': 'ins', 'i': r.randrange(len(self.b.plain))}]}
        if f == 'repeat':
            body = []
            for _ in range(r.randint(1, 3)):
                q = r.random()
                if q < .3 and 'moves' in c and r.random() < .5:
                    if q < .1 and self.free and not any(x['k'] == 'label' for x in body):
                        body.append({'k': 'label', 'n': self.free[0]})
                    elif q < .2:
                        body.append({'k': 'ram', 'n': r.choice((1, 2, 16)) * self.b.unit})
                    else:
                        body.append({'k': 'org', 's': r.choice((0, 0x40, 0x200, 0x8000)), 'e': None})
                elif q < .12:
                    body.append({'k': 'fill', 'n': r.choice((0, 1, 3, 10)), 'v': r.choice((None, 0x21))})
                elif q < .18:
                    body.append({'k': 'align', 'n': r.choice((2, 4, 8))})
                elif q < .24 and self.cfg.files:
                    body.append(dict(r.choice(self.cfg.files)))
                elif q < .34 and self.macs:
                    mac = r.choice(self.macs)
                    body.append({'k': 'call', 'n': mac['n'], 'it': [self.form_item(self.b.forms[x]) for x in mac['use']]})
                else:
                    body.append(r.choice((self.ins, self.ref, self.data))())
            return {'k': 'repeat', 'n': r.choice((1, 2, 3, 7)) if r.random() < .95 else r.choice((16, 100, 256, 257, 300, 1000, 1000, 4097, 5000)), 'body': body}
        if f == 'define':
            n = 'DF%d_%s' % (len(self.defs), r.choice(('a', 'B', 'zz')))
            if self.defs and r.random() < .3:
                n = r.choice(self.defs)
            if self.defs and r.random() < .2:
                return {'k': 'define', 'n': n, 'it': [{'t': 'd', 'n': r.choice(self.defs)}]}
            it = self.label_item() if r.random() < .4 else {'t': 'n', 'v': r.choice((0, 4, 8, 12, 64)), 'f': r.choice('dh')}
            return {'k': 'define', 'n': n, 'it': [it]}
        if f == 'macro':
            if self.macs and r.random() < .6:
                mac = r.choice(self.macs)
                return {'k': 'call', 'n': mac['n'], 'it': [self.form_item(self.b.forms[x]) for x in mac['use']]}
            return self.macro()
        if f == 'section':
            if r.random() < (.3 if not self.cfg.exports else .75) and self.m.labels:
                return self.export(r.choice(sorted(self.m.labels)))
            self.secs += 1
            n = r.choice(('.text%d', '.data%d', 'sec%d')) % self.secs
            if r.random() < .4:
                q = r.choice(PLAIN)
                if q not in self.m.sections:
                    n = q
            return {'k': 'section', 'n': n, 'p': r.choice(('R', 'RW', 'RX', 'RWX', 'E')),
                    'o': None if self.m.end or r.random() < .7 else r.choice((0, 0x100, 0x400))}
        if f == 'mode':
            return {'k': 'mode', 'n': r.choice((16, 16, 32, 64))}
        if f == 'log':
            return {'k': 'log', 'v': r.choice(('ON', 'OFF')), 'as': r.randrange(4)}
        if f == 'asc':
            w = r.choice((1, 2))
            its = [self.label_item() if r.random() < .5 else {'t': 'n', 'v': r.randrange(1 << (8 * w)), 'f': r.choice('dh')}
                   for _ in range(r.choice((1, 2)))]
            return {'k': 'asc', 'w': w, 'z': r.randrange(2), 'it': its}

    def macro(self):
        r = self.r
        n = len(self.macs)
        args, use, body = [], [], []
        for _ in range(r.randint(1, 4)):
            q = r.random()
            if q < .4:
                f = r.choice([i for i, x in enumerate(self.b.forms) if not x.glue])
                a = 'mp%d_%d' % (n, len(args))
                args.append(a)
                use.append(f)
                body.append({'k': 'ref', 'f': f, 'it': [{'t': 'a', 'n': a}]})
            elif q < .55 and self.macs:
                mac = r.choice(self.macs)
                body.append({'k': 'call', 'n': mac['n'], 'it': [self.form_item(self.b.forms[x]) for x in mac['use']]})
            elif q < .75:
                body.append(self.ins())
            else:
                body.append(self.ref())
        name = r.choice(('MAC%d', 'Mac_%d', 'push_all%d')) % n
        return {'k': 'macro', 'n': name, 'args': args, 'use': use, 'body': body}

    def add(self, s):
        if s is None:
            return False
        keep = self.m.clone()
        try:
            self.m.step(s)
            if len(self.m.out) > self.cfg.limit:
                raise Skip()
        except (Bad, Skip, KeyError):
            self.m = keep
            return False
        r = self.r
        if 'comment' in self.cfg.feats and s['k'] not in ('repeat', 'macro', 'cut', 'ev', 'trip', 'probe'):
            if r.random() < .2:
                s['c'] = r.choice((' note', ' "quoted" text', ' a:b (c', ' .db 1', '', ' naïve – ü 日本'))
            if r.random() < .2:
                s['bl'] = r.randint(1, 2)
        self.out.append(s)
        if s['k'] == 'label':
            self.free.remove(s['n'])
        elif s['k'] == 'define':
            self.defs.append(s['n'])
        elif s['k'] == 'repeat':
            for x in s['body']:
                if x['k'] == 'label':
                    self.free.remove(x['n'])
        elif s['k'] == 'macro':
            self.macs.append(s)
        if self.b.unit > 1 and s['k'] not in ('label', 'org', 'align', 'cut', 'ev', 'trip', 'probe') and self.m.pc % self.b.unit and r.random() < .8:
            self.add({'k': 'align', 'n': self.b.unit})
        return True

    def program(self):
        for _ in range(self.cfg.n):
            for _ in range(5):
                if self.add(self.one()):
                    break
            if self.cfg.weave:
                self.cfg.weave(self)
        for n in list(self.free):
            self.add({'k': 'label', 'n': n})
            if self.r.random() < .7:
                self.add(self.ins())
        if self.cfg.all_exports:
            for n in sorted(self.m.labels):
                if n not in self.m.exports and self.r.random() < self.cfg.all_exports:
                    # anywhere, also before the label
                    self.out.insert(self.r.randint(1, len(self.out)), self.export(n))
        return self.out

    def export(self, n):
        return {'k': 'export', 'n': n, 'q': self.r.choice((0, 0, 1, 2))}


def settle(rng, b, stmts, names, content=None, pre=()):
    """change references until the program links; -> final model or None"""
    for rnd in range(9):
        m = Model(b, content)
        try:
            m.run(pre)
            m.run(stmts)
            m.finish()
        except (Bad, Skip, KeyError):
            return None
        wrong = [r for r in m.refs if m.verdict(r) != 'ok']
        if not wrong:
            if b.name == 'gameboy' and len(m.out) < 0x150:
                stmts.append({'k': 'fill', 'n': 0x150 - len(m.out) + rng.randrange(40), 'v': None})
                continue
            return m
        done = set()
        for r in wrong:
            if id(r.item) in done:
                continue
            done.add(id(r.item))
            if r.item['t'] != 'r':
                continue
            if rnd < 6 or r.form is not None and not r.form.lit:
                if rng.random() < .3:
                    r.item.pop('o', None)
                    r.item.pop('p', None)
                order = list(names)
                rng.shuffle(order)
                for n in order:
                    r.item['l'] = n
                    if m.verdict(r) == 'ok':
                        break
            else:
                v = rng.choice((0, 4, 8))
                r.item.clear()
                r.item.update({'t': 'n', 'v': v, 'f': 'd'})
    return None


def program(rng, b=None, feats=None, size=None, content=None, extra=None, files=(), limit=60000, weave=None):
    """-> (backend, statements, model)"""
    if isinstance(b, str):
        b = B[b]
    for _ in range(50):
        g = Gen(rng, b, Cfg(rng, feats, size, files, limit, weave), content)
        if extra:
            extra(g)
        g.program()
        m = settle(rng, b, g.out, g.names, content)
        if m is not None:
            return b, g.out, m
    raise RuntimeError('no program for %s' % b.name)


def plant(rng, b, stmts, kind, content=None):
    """append/insert statements that make the link fail; kind undef|range|align|asc|neg. -> statements or None"""
    stmts = copy.deepcopy(stmts)
    tag = 'bad%d' % rng.randrange(1000)
    at = rng.randint(0, len(stmts))

    def form(pred):
        c = [i for i, f in enumerate(b.forms) if pred(f)]
        return rng.choice(c) if c else None
    if kind == 'undef':
        f = form(lambda f: 1)
        s = {'k': 'ref', 'f': f, 'it': [{'t': 'r', 'l': 'missing_' + tag}]} if rng.random() < .6 else \
            {'k': rng.choice(('db', 'dw', 'dd')), 'it': [{'t': 'r', 'l': 'missing_' + tag}]}
        stmts.insert(at, s)
    elif kind == 'range':
        f = form(lambda f: f.rel is not None and f.rep[1] < 0x4000 and f.kind != 'bl')
        q = rng.random()
        if f is not None and q < .5:
            far = b.forms[f].rep[1] + 64
            far += -far % 64
            stmts += [{'k': 'align', 'n': 64}, {'k': 'ref', 'f': f, 'it': [{'t': 'r', 'l': tag}]}, {'k': 'align', 'n': 64},
                      {'k': 'ram', 'n': far}, {'k': 'label', 'n': tag}]
            if rng.random() < .5 and b.forms[f].rel != 'pc4':
                stmts = stmts[:-5] + [{'k': 'align', 'n': 64}, {'k': 'label', 'n': tag}, {'k': 'ram', 'n': far + 64},
                                      {'k': 'ref', 'f': f, 'it': [{'t': 'r', 'l': tag}]}]
        elif q < .8:
            stmts += [{'k': 'db', 'it': [{'t': 'r', 'l': tag}]}, {'k': 'ram', 'n': 0x100}, {'k': 'label', 'n': tag}]
        else:
            f = form(lambda f: f.rel is None and f.rep[1] < 0x100)
            if f is None:
                return None
            stmts += [{'k': 'ref', 'f': f, 'it': [{'t': 'r', 'l': tag}]}, {'k': 'ram', 'n': 0x100}, {'k': 'label', 'n': tag}]
    elif kind == 'align':
        f = form(lambda f: f.align > 1 and f.kind != 'j26')
        if f is None:
            return None
        a = b.forms[f].align
        stmts += [{'k': 'align', 'n': 16}, {'k': 'ref', 'f': f, 'it': [{'t': 'r', 'l': tag}]}, {'k': 'align', 'n': a},
                  {'k': 'fill', 'n': rng.randrange(1, a), 'v': None}, {'k': 'label', 'n': tag}, {'k': 'fill', 'n': 16, 'v': None}]
    elif kind == 'asc':
        w = rng.choice((1, 2))
        stmts += [{'k': 'asc', 'w': w, 'z': rng.randrange(2), 'it': [{'t': 'r', 'l': tag}]}, {'k': 'ram', 'n': (0x100, 0x10000)[w - 1]}, {'k': 'label', 'n': tag}]
    elif kind == 'neg':
        stmts += [{'k': 'dw', 'it': [{'t': 'r', 'l': tag, 'o': [['-', 70000]]}]}, {'k': 'label', 'n': tag}]
    m = Model(b, content)
    try:
        m.run(stmts)
        m.finish()
    except (Bad, Skip, KeyError):
        return None
    return stmts if m.link()[1] == 'bad' else None
