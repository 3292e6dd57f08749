"""Independent reference model of the framework: interprets the statement AST directly (no text, no tokenizer) and
predicts location counter, emitted bytes, labels, sections, exports and the linked image.

A program is a list of statement dicts:
  {'k':'label','n':name}
  {'k':'db'|'dw'|'dd','it':[item..]}          {'k':'asc','w':1|2,'z':0|1,'it':[item..]}
  {'k':'fill','n':n,'v':byte|None}            {'k':'align','n':n}   {'k':'ram','n':n}
  {'k':'org','s':start,'e':end|None}          {'k':'goto','n':n,'v':..} {'k':'upto','n':n,'v':..}
  {'k':'repeat','n':n,'body':[..]}            {'k':'define','n':name,'it':[item]}
  {'k':'macro','n':name,'args':[..],'body':[ins/ref/call]}   {'k':'call','n':name,'it':[items]}
  {'k':'ins','i':index}                       {'k':'ref','f':form index,'it':[item]}
  {'k':'section','n':name,'p':perms,'o':org|None}            {'k':'export','n':name}
  {'k':'incbin'|'inccsv'|'inccsv_le16'|'incjson'|'tiles','f':file,'key':..}
  {'k':'log','v':'ON'|'OFF'} {'k':'note'}     {'k':'raw','t':text}  (raw: only for statements that are rejected)
Items:
  {'t':'n','v':int,'f':'d|h|b'}  {'t':'s','v':text}  {'t':'r','l':label,'p':prefix,'o':[[op,int|label]..]}
  {'t':'d','n':define}  {'t':'a','n':macro argument}
"""


class Bad(Exception):
    """the statement has to be rejected, or the link has to fail"""


class Skip(Exception):
    """the model takes no position"""


class Ref:
    __slots__ = ('at', 'form', 'width', 'kind', 'item', 'origin', 'pc')

    def __init__(self, at, kind, item, origin=None, form=None, width=0, pc=0):
        self.at, self.kind, self.item, self.origin, self.form, self.width, self.pc = at, kind, item, origin, form, width, pc

    def moved(self, by):
        o = self.origin
        if o is not None:
            o = (self.pc + by + 4) & ~2 if self.form.rel == 'pc4' else o + by
        return Ref(self.at + by, self.kind, self.item, o, self.form, self.width, self.pc + by)


def apply(item, value, addr_of):
    pre = item.get('p', '')
    if '<' in pre:
        value &= (1 << (8 * pre.count('<'))) - 1
    elif pre:
        value >>= 8 * len(pre)
    for op, arg in item.get('o', ()):
        if isinstance(arg, str):
            arg = addr_of(arg)
        if op == '+':
            value += arg
        elif op == '-':
            value -= arg
        elif op == '*':
            value *= arg
        elif op == '/':
            value //= arg
        elif op == '&':
            value &= arg
        elif op == '|':
            value |= arg
    return value


class Model:
    probe = None
    cart = False

    def __init__(self, backend, content=None):
        self.b = backend
        self.out = bytearray()
        self.org, self.end, self.ctr = 0, 0, 0
        self.labels = {}       # name -> (address, section)
        self.defines = {}
        self.macros = {}
        self.refs = []
        self.sections = {}     # name -> dict
        self.cur = None
        self.exports = []
        self.recording = None
        self.content = content  # callable(stmt) -> bytes, or raises Bad
        self.bumps = 0
        self.mode = backend.mode

    def clone(self):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.out = bytearray(self.out)
        m.labels, m.defines, m.macros = dict(self.labels), dict(self.defines), dict(self.macros)
        m.refs, m.exports = list(self.refs), list(self.exports)
        m.sections = {k: dict(v) for k, v in self.sections.items()}
        return m

    @property
    def pc(self):
        return self.org + self.ctr

    def emit(self, blob):
        self.out += blob
        self.ctr += len(blob)

    # ---- statements ----
    def run(self, stmts):
        for s in stmts:
            self.step(s)

    def finish(self):
        """end of a source: the open region is filled, the open section is measured"""
        if self.end > 0 and self.pc <= self.end:
            self.emit(bytes([self.b.fill]) * (self.end + 1 - self.pc))
        self.measure()

    def measure(self):
        if self.cur is not None:
            s = self.sections[self.cur]
            s['size'] = len(self.out) - s['offset']

    def change_org(self, start, end):
        if end and end < start:
            raise Bad()
        if self.end > 0:
            if self.pc > start or start <= self.org:
                raise Bad()
            stop = min(start, self.end + 1)
            self.out += bytes([self.b.fill]) * (stop - self.pc)
        self.org, self.end, self.ctr = start, end, 0

    def item(self, it, env=None):
        """-> ('n', value) or ('r', item)"""
        t = it['t']
        if t == 'a':
            return self.item(env[it['n']], None)
        if t == 'd':
            return self.item(self.defines[it['n']])
        if t == 'n':
            return 'n', it['v']
        if t == 's':
            return 's', it['v']
        return 'r', it

    def step(self, s, env=None):
        k = s['k']
        b = self.b
        if k == 'label':
            if s['n'] in self.labels:
                raise Bad()
            self.labels[s['n']] = (self.pc, self.cur, self.ctr)
        elif k in ('db', 'dw', 'dd'):
            w = {'db': 1, 'dw': 2, 'dd': 4}[k]
            for it in s['it']:
                t, v = self.item(it, env)
                if t == 's':
                    # wide strings start with a byte order mark, whatever the CPU
                    self.emit(v.encode('ascii') if w == 1 else (b'\xff\xfe' + v.encode('utf-16-le') if w == 2 else b'\xff\xfe\0\0' + v.encode('utf-32-le')))
                elif t == 'n':
                    if not -(1 << (8 * w - 1)) <= v < 1 << (8 * w):
                        raise Bad()
                    self.emit((v & ((1 << 8 * w) - 1)).to_bytes(w, 'big' if b.big else 'little'))
                else:
                    self.refs.append(Ref(len(self.out), 'data', v, width=w))
                    self.emit(bytes(w))
        elif k == 'asc':
            for it in s['it']:
                t, v = self.item(it, env)
                if t == 'n':
                    self.emit(b'%d' % v)
                else:
                    n = 3 if s['w'] == 1 else 5
                    self.refs.append(Ref(len(self.out), 'asc', v, width=n))
                    self.emit(bytes(n))
            if s.get('z'):
                self.emit(b'\0')
        elif k == 'fill':
            self.emit(bytes([b.fill if s.get('v') is None else s['v']]) * s['n'])
        elif k == 'align':
            if self.pc % s['n']:
                self.emit(bytes([b.fill]) * (s['n'] - self.pc % s['n']))
        elif k == 'ram':
            self.ctr += s['n']
        elif k == 'org':
            self.change_org(s['s'], s.get('e') or 0)
        elif k == 'goto':
            if s['n'] < len(self.out):
                raise Bad()
            if s['n'] < self.pc:
                raise Skip()
            self.emit(bytes([b.fill if s.get('v') is None else s['v']]) * (s['n'] - self.pc))
        elif k == 'upto':
            if s['n'] < len(self.out):
                raise Bad()
            if s['n'] < self.ctr:
                raise Skip()
            self.emit(bytes([b.fill if s.get('v') is None else s['v']]) * (s['n'] - self.ctr))
        elif k == 'repeat':
            at, nrefs = len(self.out), len(self.refs)
            moves = any(x['k'] in ('org', 'ram') for x in s['body'])
            if moves and self.end > 0:
                raise Skip()
            for x in s['body']:
                self.step(x, env)
            blob = bytes(self.out[at:])
            new = self.refs[nrefs:]
            if moves and any(r.origin is not None for r in new):
                raise Skip()
            for i in range(1, s['n']):
                self.emit(blob)
                for r in new:
                    self.refs.append(r.moved(i * len(blob)))
        elif k == 'define':
            it = s['it'][0]
            self.defines[s['n']] = self.defines[it['n']] if it['t'] == 'd' else it
        elif k == 'macro':
            self.macros[s['n']] = s
        elif k == 'call':
            m = self.macros[s['n']]
            e = {}
            for a, it in zip(m['args'], s['it']):
                while it['t'] in 'ad':
                    it = env[it['n']] if it['t'] == 'a' else self.defines[it['n']]
                e[a] = it
            for x in m['body']:
                self.step(x, e)
        elif k == 'ins':
            t, blob = b.plain[s['i'] % len(b.plain)]
            self.emit(b.plain_modes.get(self.mode, {}).get(t, blob))
        elif k == 'mode':
            self.mode = s['n']
        elif k == 'ref':
            f = b.forms[s['f'] % len(b.forms)]
            if f.glue and s['it'][0]['t'] in 'da':
                raise Skip()
            self.ref(f, *self.item(s['it'][0], env))
        elif k == 'section':
            if s['n'] in self.sections:
                raise Bad()
            if s.get('o') is not None:
                self.change_org(s['o'], 0)
            self.measure()
            self.cur = s['n']
            self.sections[s['n']] = {'start': self.pc, 'offset': len(self.out), 'perms': s['p'], 'size': 0}
        elif k == 'export':
            if s['n'] in self.exports:
                raise Bad()
            self.exports.append(s['n'])
        elif k in ('incbin', 'inccsv', 'inccsv_le16', 'incjson', 'tiles', 'chr_pattern_table'):
            self.emit(self.content(s))
        elif k == 'cartridge':
            self.cartridge()
        elif k == 'cart':
            at, size = CART[b.name][s['d']]
            blob = b''
            for it in s['it']:
                blob += it['v'].encode() if it['t'] == 's' else bytes([it['v']])
            if len(blob) > size:
                raise Bad()
            self.out[at:at + len(blob)] = blob
        elif k in ('log', 'note', 'ev', 'trip'):
            pass
        elif k == 'cut':
            self.finish()
        elif k == 'probe':
            if self.probe:
                self.probe(self)
        elif k == 'inc':
            for x in s['body']:
                self.step(x, env)
        elif k == 'rej':            # a rejected statement: what it completed before it failed stands
            for x in s['pre']:
                self.step(x, dict(zip(s.get('args', ()), s.get('it', ()))))
        elif k == 'raw':
            raise Bad()
        else:
            raise AssertionError(k)

    def cartridge(self):
        self.cart = True
        if self.b.name == 'nes':
            if self.out:
                raise Bad()
            self.emit(b'NES\x1a\x02\x00' + bytes(10))
        elif self.b.name == 'gameboy':
            if len(self.out) != 256:
                raise Bad()
            self.change_org(0x100, self.end)
            logo = bytes.fromhex('CEED6666CC0D000B03730083000C000D0008111F8889000EDCCC6EE6DDDDD999BBBB67636E0EECCCDDDC999FBBB9333E')
            self.emit(b'\x00\xC3\x50\x01' + logo + bytes(16 + 2 + 2 + 2) + b'\x01\x33' + bytes(4))
        else:
            raise AssertionError()

    def ref(self, f, t, v):
        f = f.modes.get(self.mode, f)
        at, pc = len(self.out), self.pc
        if t == 'n':
            if not f.lit or not f.mn <= v <= (f.mx if f.litmax is None else f.litmax):
                raise Skip()
            if f.kind == 'zp' and 0 <= v <= 0xFF:
                self.emit(f.zp + bytes([v]))
                return
            blob = bytearray(f.base)
            f.store(blob, 0, v, self.b.big)
            self.emit(blob)
            return
        if self.b.clsname in ('AssemblerMOS6502', 'AssemblerNES') and f.size == 2 and v['l'] in self.labels:
            # the size is decided now, so the rest of the expression is needed now
            if any(isinstance(a, str) and a not in self.labels for _, a in v.get('o', ())):
                raise Skip()
        if f.kind == 'zp' and v['l'] in self.labels:
            value = apply(v, self.labels[v['l']][0], self.addr)
            if 0 <= value <= 0xFF:
                self.emit(f.zp + bytes([value]))
                return
        origin = None
        if f.rel == 'pc4':
            origin = (pc + 4) & ~2
        elif f.rel is not None:
            origin = pc + f.rel
        self.refs.append(Ref(at, 'form', v, origin, f, pc=pc))
        self.emit(f.base)

    # ---- linking ----
    def addr(self, name):
        if name not in self.labels:
            raise Bad()
        return self.labels[name][0]

    def value(self, r):
        a = self.addr(r.item['l'])
        target = apply(r.item, a, self.addr)
        return target if r.origin is None else apply(r.item, a - r.origin, self.addr), target

    def verdict(self, r):
        try:
            v, target = self.value(r)
        except Bad:
            return 'bad'
        if r.kind == 'form':
            if r.form.kind == 'j26' and target >> 28 != (r.pc + 4) >> 28:
                return 'skip'       # part of the known finding on j/jal
            return r.form.verdict(v, target)
        bits = {'data': 8 * r.width, 'asc': 8 if r.width == 3 else 16}[r.kind]
        return 'ok' if 0 <= v < 1 << bits else 'bad'

    def link(self):
        """-> (image, None), or (None, the verdict 'bad'/'skip')"""
        out = bytearray(self.out)
        worst = 'ok'
        for r in self.refs:
            x = self.verdict(r)
            if x == 'skip':
                return None, 'skip'
            if x == 'bad':
                worst = 'bad'
                continue
            v, _ = self.value(r)
            if r.kind == 'form':
                r.form.store(out, r.at, v, self.b.big)
            elif r.kind == 'data':
                out[r.at:r.at + r.width] = v.to_bytes(r.width, 'big' if self.b.big else 'little')
            else:
                out[r.at:r.at + r.width] = b'%0*d' % (r.width, v)
        if worst == 'bad':
            return None, 'bad'
        if self.b.name == 'gameboy':
            if len(out) < 0x150:
                return None, 'skip'
            gb_fix(out)
        return bytes(out), None

    def label_addresses(self):
        return {n: a[0] for n, a in self.labels.items()}


CART = {
    'gameboy': {'cartridge_title': (0x134, 16), 'cartridge_license': (0x144, 2), 'cartridge_cgb': (0x143, 1),
                'cartridge_sgb': (0x146, 1), 'cartridge_type': (0x147, 1), 'cartridge_destination': (0x14A, 1)},
    'nes': {'cartridge_prg_roms': (4, 1), 'cartridge_chr_roms': (5, 1)},
}


def gb_fix(out):
    x = 0
    for i in range(0x134, 0x14D):
        x = (x - out[i] - 1) & 0xFF
    out[0x14D] = x
    out[0x14E] = out[0x14F] = 0
    s = sum(out) & 0xFFFF
    out[0x14E], out[0x14F] = s >> 8, s & 0xFF


# ---- text ----------------------------------------------------------------------------------------------------------
def item_text(b, it):
    t = it['t']
    if t == 'n':
        return b.number(it['v'], it.get('f', 'd'))
    if t == 's':
        return ("'%s'" if it.get('q') else '"%s"') % it['v']
    if t in 'da':
        return it['n']
    out = it.get('p', '') + it['l']
    for op, arg in it.get('o', ()):
        out += op + (arg if isinstance(arg, str) else str(arg))
    return out


def opt(b, v):
    return '' if v is None else ' ' + b.number(v, 'h')


def lines_of(b, s):
    """the source lines of one statement (most have one)"""
    k = s['k']
    if k == 'label':
        return [s['n'] + ':']
    if k in ('db', 'dw', 'dd'):
        return ['.' + s.get('a', k) + ' ' + ', '.join(item_text(b, i) for i in s['it'])]
    if k == 'asc':
        return ['.' + ('db' if s['w'] == 1 else 'dw') + '_to_ascii' + ('z' if s.get('z') else '') + ' ' +
                ' '.join(item_text(b, i) for i in s['it'])]
    if k == 'fill':
        return ['.fill ' + str(s['n']) + opt(b, s.get('v'))]
    if k in ('align', 'ram'):
        return ['.%s %d' % (k, s['n'])]
    if k == 'org':
        return ['.org ' + b.number(s['s'], 'h') + opt(b, s.get('e'))]
    if k in ('goto', 'upto'):
        return ['.%s %s%s' % (k, b.number(s['n'], 'h'), opt(b, s.get('v')))]
    if k == 'repeat':
        return ['.repeat %d' % s['n']] + [l for x in s['body'] for l in lines_of(b, x)] + ['.endrepeat']
    if k == 'define':
        return ['.define %s %s' % (s['n'], item_text(b, s['it'][0]))]
    if k == 'macro':
        return ['.macro ' + ' '.join([s['n']] + s['args'])] + [l for x in s['body'] for l in lines_of(b, x)] + ['.endmacro']
    if k == 'call':
        return [s['n'] + ' ' + ', '.join(item_text(b, i) for i in s['it'])]
    if k == 'ins':
        return [b.plain[s['i'] % len(b.plain)][0]]
    if k == 'ref':
        return [b.forms[s['f'] % len(b.forms)].text.format(item_text(b, s['it'][0]))]
    if k == 'section':
        return ['.section "%s" %s%s' % (s['n'], s['p'], opt(b, s.get('o')))]
    if k == 'export':
        return ['.export ' + ('%s', '"%s"', "'%s'")[s.get('q', 0)] % s['n']]
    if k in ('incbin', 'inccsv', 'inccsv_le16', 'tiles', 'chr_pattern_table'):
        return ['.%s "%s"' % (k, s['f'])]
    if k == 'incjson':
        return ['.incjson "%s" "%s"' % (s['f'], s['key'])]
    if k == 'cartridge':
        return ['.cartridge']
    if k == 'cart':
        return ['.%s %s' % (s['d'], ', '.join(item_text(b, i) for i in s['it']))]
    if k == 'mode':
        return ['.bits %d' % s['n']]
    if k == 'log':
        v = (s['v'], s['v'].lower(), s['v'].capitalize(), s['v'])[s.get('as', 0)]
        return ['.log' if s.get('as') == 3 and v == 'ON' else '.log ' + v]
    if k == 'note':
        return ['; ' + s['c']]
    if k in ('raw', 'trip'):
        return [s['t']]
    if k == 'probe':
        return ['.probe']
    if k == 'include':
        return ['.include "%s"' % s['f']]
    raise AssertionError(k)


def text_of(b, stmts, style=None):
    """style: {'nl': newline, 'last': final newline or not, 'ind': indent}"""
    style = style or {}
    nl = style.get('nl', '\n')
    ind = style.get('ind', '')
    out = []
    for s in stmts:
        ls = lines_of(b, s)
        for i, l in enumerate(ls):
            if not l.endswith(':') or s['k'] != 'label':
                l = ind + l
            if s.get('c') and i == 0 and s['k'] != 'note':
                l += ' ;' + s['c']
            out.append(l)
        if s['k'] == 'label' and s.get('j') and len(out) and not s.get('c'):
            out[-1] += '\x00'
        for _ in range(s.get('bl', 0)):
            out.append('')
    text = nl.join(out)
    text = text.replace('\x00' + nl, ' ').replace('\x00', '')
    if style.get('last', 1):
        text += nl
    return text
