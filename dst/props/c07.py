"""C07: a rejected statement leaves no trace."""
import copy
from .. import play, project
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..model import Bad, Skip, lines_of, text_of
from ..project import data_set, value, raw, diff
from ..session import Sess

RULE = ('one run: a session into which rejected statements are woven - wrong operands, duplicate and malformed labels, overlapping origins, failing handlers, missing, unreadable and unconvertible files, memory '
        'exhaustion; directly, inside includes, macro bodies, open repeats and open macro definitions - and a session with the same statements without them; both and the reference model must agree after every call '
        'and after the link. Distinct: by backend and the sequence of rejected statements, where they were and how they were rejected')
QUICK = (24000, 200)


def directive_bads(rng, b, g):
    n = b.number
    known = sorted(g.m.labels)
    secs = sorted(g.m.sections)
    c = ['.db "caf\u00e9"', '.db "\u00e9", 1', '.fill "\u00e9"', '.dw 65536', '.dw -32769', '.db 256', '.db -129', '.dd 4294967296', '.fill -1', '.fill 0 256', '.ram 0', '.align 0', '.align', '.goto', '.upto', '.repeat 0',
         '.repeat 1 2', '.endrepeat', '.endmacro', '.define x', '.define', '.define x 1 2', '.export', '.export a b', '.include', '.incbin', '.inccsv', '.incjson "a"', '.include "gone.s"', '.incbin "gone.bin"',
         '.inccsv "gone.csv"', '.inccsv_le16 "gone.csv"', '.incjson "gone.json" "a"', '.nosuch 1', 'NOSUCH', 'NOSUCH a, b', '.section', '.section "q"', '.section "q" RQ', '.section "q" RX nolabel',
         '.section "q" RX 1 2', '.org', '.org nolabel', '.org 1 2 3', '.fill 99999999999', '.fill 99999999999999999999', '.fill nolabel', '.fill 3 nolabel', '.macro', '.db_to_ascii 256', '.dw_to_ascii 65536',
         '.incbin "half.bin"', '.inccsv "half.csv"', '.inccsv "long.csv"', '.inccsv_le16 "long16.csv"', '.incjson "long.json" "data"', '.include "long.inc"', '.inccsv "notnum.csv"', '.inccsv "wide.csv"', '.inccsv_le16 "wide16.csv"', '.incjson "broken.json" "data"', '.incjson "ok.json" "nokey"', '.incjson "ok.json" "big"',
         '.incjson "ok.json" "word"', '.include "half.inc"', '.include "latin.inc"', '.org 100 99', '7:', 'a-b:', 'a b:'[2:], '.goto nolabel', '.upto nolabel', '.ram nolabel', '.incbin "dir"']
    c = [x for x in c if x != 'b:']
    if known:
        l = rng.choice(known)
        c += [l + ':'] * 8 + ['.org %s' % l]
    if secs:
        c += ['.section "%s" RX' % rng.choice(secs)] * 3 + ['.section "%s" RX 16' % rng.choice(secs)]
    if g.m.exports:
        c += ['.export ' + g.m.exports[-1]] * 3
    if g.m.end:
        c += ['.org %s' % n(g.m.org, 'h')] * 5 + ['.org %s' % n(max(0, g.m.org - 1), 'h'), '.org 0 %s' % n(g.m.org, 'h')]
        if g.m.pc > g.m.org + 12:       # references that are settled later may shrink a little
            c += ['.org %s %s' % (n(g.m.org + 1, 'h'), n(g.m.pc + 10, 'h')), '.section "q" RX %s' % n(g.m.org, 'h')] * 3
    if len(g.m.out) > 2:
        c += ['.goto 0', '.upto 0', '.goto 0 7']
    if len(g.m.out) > 20:
        c += ['.goto %d' % (len(g.m.out) - 12), '.upto %d 9' % (len(g.m.out) - 12)] * 2
    if b.mode:
        c += ['.bits 48', '.bits', '.bits 8', '.bits nolabel', '.bits 0', '.bits 128', '.bits 257'] * 3
    if any(s['k'] == 'cartridge' for s in g.out) and b.name == 'gameboy':
        c += ['.cartridge_title "WAY TOO LONG A TITLE FOR IT"', '.cartridge_title 1, 2, 300', '.cartridge_title "GOOD", 3, nolabel', '.cartridge_title 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17',
              '.cartridge_license "ABC"', '.cartridge_cgb 1, 2', '.cartridge_sgb 256', '.cartridge_type "XY"', '.cartridge_destination 5, 6', '.cartridge_title', '.cartridge_license 7, nolabel'] * 4
    if b.name == 'nes':
        c += ['.chr_pattern_table "gone.png"', '.chr_pattern_table "small.png"', '.chr_pattern_table "low.png"', '.chr_pattern_table "slim.png"', '.chr_pattern_table'] + (['.cartridge'] if g.m.out else [])
    if b.name in ('gameboy', 'sms'):
        c += ['.tiles "gone.png"', '.tiles "odd.png"', '.tiles "deep.png"', '.tiles "rgb.png"']
    if b.name == 'gameboy':
        c += ['.cartridge' if not 150 < len(g.m.out) < 400 else '.nosuch']
    return rng.choice(c)


FILES = {'long.csv': '1,2,3,4\n' * 2100 + '5,300\n', 'long16.csv': '1,2,3,4\n' * 2100 + '5,70000\n', 'long.json': '{"data": [%s, "zz"]}' % ', '.join(['7'] * 9000), 'long.inc': '.db 1,2,3\n' * 0 + '; pad\n' * 3000 + 'FROB\n',
         'half.bin': {'rep': [7, 5000]}, 'half.csv': '1,2,3\n' * 3000, 'notnum.csv': '1,2\n3,abc\n', 'wide.csv': '1,2,255\n256,3\n', 'wide16.csv': '1,65535\n65536\n', 'broken.json': '{"data": [1, 2',
         'ok.json': '{"data": [1,2,3], "big": [1, 2, 256], "word": [1, "zz"]}', 'half.inc': '; comment\n' * 2000, 'latin.inc': {'hex': '2e64622031ff0a'}, 'dir': {'dir': 1},
         'small.png': b'IMGP\x08\x00\x08\x00' + bytes(64), 'low.png': {'cat': [{'hex': '494d475080007800'}, {'rep': [1, 128 * 120]}]}, 'slim.png': {'cat': [{'hex': '494d475078008000'}, {'rep': [1, 128 * 120]}]}, 'odd.png': b'IMGP\x09\x00\x08\x00' + bytes(72), 'deep.png': b'IMGP\x08\x00\x08\x00' + b'\x01' * 40 + b'\xff' * 24, 'rgb.png': b'IMGR\x08\x00\x08\x00' + bytes(192)}
HALF = [{'op': 'read', 'f': 't/half.*', 'nth': 1, 'count': -1, 'act': 'err', 'arg': 5},
        {'op': 'read', 'f': 't/half.*', 'nth': 0, 'count': 1, 'act': 'short', 'arg': 700},
        {'op': 'read', 'f': 't/half.*', 'nth': 0, 'count': -1, 'act': 'err', 'arg': 5}]


def bad_ins(rng, b, g):
    l = rng.choice(g.names) if g.names else 'lab'
    if g.macs and rng.random() < .15 and any(m['args'] for m in g.macs):
        m = rng.choice([m for m in g.macs if m['args'] and m['body'] and m['body'][0]['k'] != 'call'] or [None])
        if m:
            return m['n']           # a macro call without its arguments
    return rng.choice(b.bad).format(l)


def rej(rng, b, g, where='top'):
    """a rejected statement"""
    t = bad_ins(rng, b, g) if rng.random() < .5 else directive_bads(rng, b, g)
    q = rng.random()
    s = {'k': 'rej', 'pre': [], 'kind': 'direct', 't': t}
    if where == 'macrodef':
        s['t'] = rng.choice(('inner:', '.macro zz a', 'lab1:', '.nosuch', '.db 256', '.endrepeat', '.export', '.include "gone.s"'))
        return s
    if where == 'multi':
        d = g.data()
        w = {'db': 8, 'dw': 16, 'dd': 32}[d['k']]
        s.update(kind='multi', pre=[d], t=rng.choice((str(1 << w), str(-(1 << w)), str(1 << w) + ', ' + rng.choice(g.names or ['lab']))))
        return s
    if q < .5:
        return s

    def plain():
        return rng.choice((g.ins, g.ref))()
    if q < .75:
        s['kind'] = 'inc'
        s['deep'] = rng.choice((0, 0, 1, 3))
        s['pre'] = [rng.choice((plain, plain, g.data))() for _ in range(rng.choice((0, 1, 2, 4)))]
        s['suf'] = [plain() for _ in range(rng.choice((0, 1, 3)))]
        return s
    s['kind'] = rng.choice(('mac', 'mac', 'incmac'))
    s['t'] = bad_ins(rng, b, g)
    s['suf'] = [plain() for _ in range(rng.choice((0, 1, 2)))]
    s['args'], s['it'] = [], []
    for _ in range(rng.choice((0, 1, 2, 3))):
        if rng.random() < .5:
            f = rng.choice([i for i, x in enumerate(b.forms) if not x.glue])
            a = 'ra%d' % len(s['args'])
            s['args'].append(a)
            s['it'].append(g.form_item(b.forms[f]))
            s['pre'].append({'k': 'ref', 'f': f, 'it': [{'t': 'a', 'n': a}]})
        else:
            s['pre'].append(plain())
    s['n'] = rng.choice(('RMAC', 'RM1', 'rm_x', 'Rm2'))
    s['nest'] = rng.randrange(2)
    return s


def plan(rng, i, tier):
    if rng.random() < .3:
        return twin_plan(rng)
    b = B[rng.choice(ALL + ['simle', 'simbe'])]
    data, uses = data_set(rng, b, rng.choice((0, 0, 1)))
    p = rng.choice((.1, .25, .5))
    pre_cut = rng.random()

    def weave(g):
        if rng.random() < p:
            g.add(rej(rng, b, g))
        if rng.random() < .1:
            g.add({'k': 'cut', 'how': rng.choice(play.HOW), 'sh': 0})
            for _ in range(rng.choice((0, 0, 1, 2))):
                g.add({'k': 'ev', 'api': rng.choice(('define', 'define', 'file', 'save', 'text', 'org')), 'n': rng.choice(('a b', '1x', '', '-', '7', 'a-b', 'x:', '"q"')), 'v': rng.choice(('1', '2', 'lab'))})
                if rng.random() < .3:
                    g.add({'k': 'cut', 'how': rng.choice(play.HOW), 'sh': 0})
        if rng.random() < p / 4:
            if g.out and g.out[-1]['k'] not in ('cut', 'rej', 'ev'):
                g.add({'k': 'cut', 'how': rng.choice(play.HOW), 'sh': 0})
            g.add(rej(rng, b, g, 'multi'))
        if rng.random() < .05 and (not g.out or g.out[-1]['k'] == 'cut'):
            # a good one
            g.add({'k': 'ev', 'api': 'good', 'n': 'api_%d' % rng.randrange(4), 'v': str(rng.randrange(9))})
        # inside the block that was just added
        last = g.out[-1] if g.out else None
        if last and last['k'] == 'repeat' and rng.random() < .4:
            r = rej(rng, b, g)
            if r['kind'] in ('direct',) and r['t'].split()[0] not in ('.repeat', '.endrepeat', '.endmacro', '.macro', '.goto', '.upto'):
                last['body'].insert(rng.randint(0, len(last['body'])), r)
        if last and last['k'] == 'macro' and rng.random() < .4:
            last['body'].insert(rng.randint(0, len(last['body'])), rej(rng, b, g, 'macrodef'))
    b, stmts, m = program(rng, b, None, rng.choice((None, 6, 14, 25)), extra=lambda g: project.cartridge(rng, g) if b.name in ('gameboy', 'nes') and rng.random() < .7 else None, content=lambda s: value(b, s, data.get(s['f'])), files=uses, weave=weave)
    return {'b': b.name, 'stmts': stmts, 'data': data, 'how': [rng.choice(play.HOW) for _ in range(9)],
            'style': {'nl': rng.choice(('\n', '\r\n')), 'last': 1, 'ind': ''}}


def subst(s, env):
    s = copy.deepcopy(s)
    for n, it in enumerate(s.get('it', ())):
        if it['t'] == 'a' and it['n'] in env:
            s['it'][n] = env[it['n']]
    return s


class Writer:
    """the two versions of the program as lists of ('l', line) / ('r', rejected statement) / ('c', cut)"""

    def __init__(self, b, world, style):
        self.b, self.w, self.style = b, world, style
        self.n = 0
        self.a, self.c = [], []

    def both(self, lines):
        for l in lines:
            self.a.append(('l', l))
            self.c.append(('l', l))

    def put(self, lines):
        self.n += 1
        name = 'rej%d.inc' % self.n
        self.w.put({name: '\n'.join(lines) + '\n'})
        return name

    def body(self, s):
        out = []
        for x in s:
            out += lines_of(self.b, x)
        return out

    def rej(self, s):
        if s['kind'] == 'direct':
            self.a.append(('r', s['t'], s))
            return
        if s['kind'] == 'multi':
            self.a.append(('r', lines_of(self.b, s['pre'][0])[0] + ', ' + s['t'], s))
            self.c.append(('m', s))
            return
        if s['kind'] == 'inc':
            name = self.put(self.body(s['pre']) + [s['t']] + self.body(s.get('suf', ())))
            for _ in range(s.get('deep', 0)):
                name = self.put(['; nested', '.include "%s"' % name, s['t']])
            self.a.append(('r', '.include "%s"' % name, s))
        else:
            name = s['n']
            self.both(['.macro ' + ' '.join([name] + s['args'])] + self.body(s['pre']) + [s['t']] + self.body(s.get('suf', ())) + ['.endmacro'])
            from ..model import item_text
            call = name + ' ' + ', '.join(item_text(self.b, i) for i in s['it'])
            if s.get('nest'):
                self.both(['.macro outer_' + name + ' ' + ' '.join('o' + x for x in s['args']), name + ' ' + ', '.join('o' + x for x in s['args'])] + ['.endmacro'])
                call = 'outer_' + call
            if s['kind'] == 'incmac':
                call = '.include "%s"' % self.put([call] + self.body(s.get('suf', ())))
            self.a.append(('r', call, s))
        env = dict(zip(s.get('args', ()), s.get('it', ())))
        for x in s['pre']:
            for l in lines_of(self.b, subst(x, env)):
                self.c.append(('l', l))

    def add(self, s):
        k = s['k']
        if k == 'rej':
            self.rej(s)
        elif k == 'ev':
            self.a.append(('p', s))
            if s['api'] == 'good':
                self.c.append(('p', s))
        elif k == 'cut':
            self.a.append(('c', s))
            self.c.append(('c', s))
        elif k == 'repeat':
            self.both(['.repeat %d' % s['n']])
            for x in s['body']:
                self.add(x)
            self.both(['.endrepeat'])
        elif k == 'macro':
            self.both(['.macro ' + ' '.join([s['n']] + s['args'])])
            for x in s['body']:
                self.add(x)
            self.both(['.endmacro'])
        else:
            ls = lines_of(self.b, s)
            self.both([self.style.get('ind', '') + ls[0]] + ls[1:])


def sizes(d):
    w = {'db': 1, 'dw': 2, 'dd': 4}[d['k']]
    return [(len(i['v']) if w == 1 else w + w * len(i['v'])) if i['t'] == 's' else w for i in d['it']]


def state(s):
    a = s.asm
    return {'address': a.pc, 'bytes': len(a.assembled_bytes), 'labels': s.labels(), 'defines': dict(a.defines), 'macros': {k: len(getattr(m, 'instructions', ())) for k, m in a.macros.items()},
            'exports': list(a.exports), 'sections': {n: (d['start'], d['offset'], d.get('size')) for n, d in a.sections.items()}, 'instructions': len(a.instructions), 'directives': len(a.directives)}


# ---- statements of any kind ----------------------------------------------------------------------------------------
DIRS = ('.org', '.org', '.macro', '.endmacro', '.define', '.fill', '.ram', '.align', '.repeat', '.endrepeat', '.goto', '.upto', '.section', '.export', '.db', '.dw', '.dd', '.db_to_ascii', '.dw_to_asciiz', '.log',
        '.incbin', '.inccsv', '.inccsv_le16', '.incjson', '.tiles', '.chr_pattern_table', '.cartridge', '.cartridge_title', '.cartridge_license', '.cartridge_type', '.cartridge_prg_roms', '.bits', '.byte', '.DB')


def any_statement(rng, b, g):
    """one line that may be accepted or rejected; a rejected one has no effect.  No directive with several values (some may
    stand), no label in front of something, no macro with several statements"""
    num = lambda: rng.choice((str(rng.choice((0, 1, 2, 3, 5, 8, 16, 100, 255, 256, 300))), b.number(rng.randrange(300), 'h'), b.number(rng.randrange(300), 'h')))
    name = lambda: rng.choice(g.names + ['nolabel_x', 'lab', 'DQ1', 'DQ2', 'DQ3', 'x'])
    q = rng.random()

    def arg():
        z = rng.random()
        if z < .4:
            return num()
        if z < .65:
            return name()
        if z < .75:
            return name() + rng.choice(('+1', '-1', '*2', '+x', '/0', '+', '&', '|' + num()))
        if z < .8:
            return rng.choice('<>') + name()
        return rng.choice(('"s"', "'t'", '""', '-1', '-129', '70000', 'RX', 'Q', 'RWX', 'ON', 'OFF', '16', '32', '(', ')', '"trip.bin"', '"trip.csv"', '"trip.json"', '"data"', '"gone"', '"half.csv"', '"long.csv"', '"long16.csv"', '"broken.json"', '"deep.png"', '#', 'a'))
    if q < .45:
        d = rng.choice(DIRS)
        if d == '.repeat':
            return d + ' ' + rng.choice(('1', '2', '3', '3 4', '', '0', 'nolabel_x', '"2"', '2 x'))
        if d == '.define':
            return d + ' ' + rng.choice(('DQ1', 'DQ2', 'DQ3', name(), '1x', 'a-b', '"q"', '')) + ' ' + rng.choice((num(), name(), arg(), '', num() + ' ' + num()))
        n = rng.choice((0, 1, 1, 2, 2, 3)) if d.lower() not in ('.db', '.dw', '.dd', '.byte', '.db_to_ascii', '.dw_to_asciiz', '.macro') else rng.choice((0, 1))
        return d + ' ' + rng.choice((' ', ', ')).join(arg() for _ in range(n))
    if q < .55:
        return rng.choice((name(), '1x', 'a-b', num())) + ':'
    if q < .6:
        return '.macro QM%d %s' % (rng.randrange(3), rng.choice(('', 'a', 'a b', '1', '"x"')))
    if q < .66:
        return 'QM%d %s' % (rng.randrange(3), rng.choice(('', arg(), arg() + ' ' + arg())))
    if q < .72:
        return rng.choice(('.endrepeat', '.endmacro', '.endrepeat 1', '.endrepeat 1 2', '.endmacro x', '.endmacro 1 2 3', '.endrepeat "a"', '.log', '.log ON', '.log OFF', '.log x', '.log ON x'))
    t = rng.choice([p for p, _ in b.plain] + [f.text.format(arg()) for f in b.forms] + list(b.bad)).format(arg())
    for _ in range(rng.choice((0, 1, 1, 2))):
        w = t.split()
        k = rng.randrange(len(w))
        z = rng.random()
        if z < .4:
            w[k] = arg() if k else w[k]
        elif z < .6:
            w.insert(k + 1, arg())
        elif z < .8 and len(w) > 1:
            w.pop(k)
        else:
            w[k] = w[k][:-1] or arg()
        t = ' '.join(w)
    return t


def twin_plan(rng):
    b = B[rng.choice(ALL + ['simle', 'simbe'])]
    p = rng.choice((.3, .6, .9))

    def weave(g):
        for _ in range(9):
            if rng.random() > p:
                break
            g.add({'k': 'ev', 't': any_statement(rng, b, g), 'lead': rng.randrange(2), 'how': rng.choice(play.HOW + ('call', 'call')), 'f': rng.choice((0, 0, 0, 0, 1))})
    b, stmts, m = program(rng, b, None, rng.choice((3, 8, 15)), weave=weave)
    return {'twin': 1, 'b': b.name, 'stmts': stmts, 'style': {'nl': rng.choice(('\n', '\r\n')), 'last': 1, 'ind': ''}}


def fits(t):
    """no statement of which parts may stand"""
    w = t.split()
    if not w or ':' in t and (t.count(':') > 1 or not t.endswith(':') or len(w) > 1):
        return False
    return not (w[0][0] == '.' and w[0].lower().startswith(('.d', '.byte')) and w[0].lower() != '.define' and len(w) > 2)


def twin(plan, ctx):
    """two sessions; each statement goes to one of them, and to the other one exactly if it was accepted"""
    b = B[plan['b']]
    w = ctx.world
    w.put(FILES)
    w.put(play.TRIP_FILES)
    ss = [Sess(ctx, b), Sess(ctx, b)]
    ps = [play.Player(s, plan['style']) for s in ss]
    ps[1].n = 1000
    nl = plan['style']['nl']
    sig = []
    last = ['nothing', 'nothing']
    todo = []
    for s in plan['stmts']:
        if s['k'] == 'ev':
            todo.append((s['t'], s['lead'], s['how'], s['f']))
        else:
            todo += [(l, len(todo) % 2, 'call', 0) for x in lines_of(b, s) for l in [x + '']]
    todo += [(t, k, 'call', 0) for t in ('.endmacro', '.endrepeat', '.db 1') for k in (0, 1)]
    for t, lead, how, f in todo:
        if not fits(t):
            continue
        a, c = lead, 1 - lead
        rules = [{'op': 'openr', 'f': 't/*', 'nth': 0, 'count': -1, 'act': 'err', 'arg': 13}] if f else HALF
        before = state(ss[a]), ss[a].bytes()
        if len(before[1]) > 60000:
            raise Invalid('size')
        r = ps[a].deliver(t + nl, how, rules)
        if not r.ok:
            last[a] = t
            sig.append([t.split()[0][:10], type(r.exc).__name__])
            ctx.count('rejected statements')
            if (state(ss[a]), ss[a].bytes()) != before:
                if t.split()[0].upper() in ss[a].asm.macros:
                    raise Invalid('macro')
                if t.split()[0].lower() == '.org' and isinstance(r.exc, (MemoryError, OverflowError)):
                    raise Invalid('the region is too large to be filled at the end of the call')
                ctx.violate('trace', 'rejecting %r changed %s' % (t, changed(before[0], state(ss[a]))))
            continue
        q = ps[c].deliver(t + nl, how, HALF)
        if not q.ok:
            ctx.violate('trace', 'one session accepted %r, the other one, which rejected %r before, did not: %r' % (t, last[c], q))
        if state(ss[0]) != state(ss[1]) or ss[0].bytes() != ss[1].bytes():
            ctx.violate('trace', 'after %r two sessions that rejected different statements (%r and %r) differ: %s' % (t, last[0], last[1], changed(state(ss[0]), state(ss[1]))))
        if how == 'call' and r.out != q.out:
            ctx.violate('trace', 'after %r two sessions that rejected different statements (%r and %r) log %r and %r' % (t, last[0], last[1], r.out[:200], q.out[:200]))
    x, y = ss[0].link(), ss[1].link()
    if (x.ok, type(x.exc), str(x.exc)) != (y.ok, type(y.exc), str(y.exc)) or x.out != y.out:
        ctx.violate('link', 'after different rejected statements the links end with %r and %r' % (x, y))
    if ss[0].bytes() != ss[1].bytes():
        ctx.violate('link', 'after different rejected statements the images differ: ' + diff(ss[0].bytes(), ss[1].bytes()))
    return ['twin', b.name, sig[:30], x.ok] if sig else None


def run(plan, ctx):
    if plan.get('twin'):
        return twin(plan, ctx)
    b = B[plan['b']]
    w = ctx.world
    w.put({n: raw(b, s) for n, s in plan['data'].items()})
    w.put(FILES)
    w.put({n: v for n, v in play.TRIP_FILES.items()})
    wr = Writer(b, w, plan['style'])
    sa, sc = Sess(ctx, b, plan['data']), Sess(ctx, b, plan['data'])
    model = sa.model
    pa, pc = play.Player(sa, plan['style']), play.Player(sc, plan['style'])
    pc.n = 1000
    try:
        for s in plan['stmts']:
            if s['k'] == 'macro':
                model.step(dict(s, body=[x for x in s['body'] if x['k'] != 'rej']))
            else:
                model.step(s)
            wr.add(s)
        model.finish()
    except (Bad, Skip, KeyError):
        raise Invalid('program')
    nl = plan['style']['nl']
    sig = []
    hows = plan['how'] or ['call']
    # with the rejected statements: a call ends at each of them
    cur = []
    n = 0
    stands = {}
    marks = []         # states at the cuts, to compare with the other session

    def send(p, lines, how, rules=()):
        return p.deliver(''.join(l + nl for l in lines), how, rules)
    wr.a.append(('c', {'how': 'call'}))
    for x in wr.a:
        if x[0] == 'l':
            cur.append(x[1])
            continue
        n += 1
        if x[0] == 'p':
            if cur:
                raise Invalid('place')
            before = state(sa), sa.bytes()
            r = api(sa, x[1])
            if x[1]['api'] == 'good':
                if not r.ok:
                    ctx.violate('refused', 'register_define(%r) is refused: %r' % (x[1]['n'], r))
                continue
            if r.ok:
                raise Invalid('%r was accepted' % x[1])
            if (state(sa), sa.bytes()) != before:
                ctx.violate('trace', 'a rejected %s changed %s' % (x[1]['api'], changed(before[0], state(sa))))
            sig.append([x[1]['api'], type(r.exc).__name__])
            ctx.count('rejected calls')
            continue
        if x[0] == 'c':
            r = send(pa, cur, x[1]['how'])
            if not r.ok:
                ctx.violate('refused', 'after rejected statements the session refuses %r: %r' % (cur[-3:], r))
            marks.append(state(sa))
        else:
            how = hows[n % len(hows)]
            if cur and x[2]['kind'] == 'multi':
                raise Invalid('place')
            if cur:
                # what the state is just before
                r = send(pa, cur + [x[1]], how, HALF)
            else:
                before = state(sa), sa.bytes()
                r = send(pa, [x[1]], how, HALF)
                if x[2]['kind'] == 'multi':
                    # some of its values may stand
                    grown = len(sa.bytes()) - len(before[1])
                    z = sizes(x[2]['pre'][0])
                    stands[id(x[2])] = [j for j in range(len(z) + 1) if sum(z[:j]) == grown]
                    if not stands[id(x[2])]:
                        ctx.violate('trace', 'rejecting %r left %d bytes' % (x[1], grown))
                if not r.ok and not x[2]['pre'] and (state(sa), sa.bytes()) != before:
                    ctx.violate('trace', 'rejecting %r changed %s' % (x[1], changed(before[0], state(sa))))
            if r.ok:
                raise Invalid('%r was accepted' % x[1])
            sig.append([x[2]['kind'], x[2]['t'].split()[0][:12], type(r.exc).__name__])
            ctx.count('rejected statements')
        cur = []
    # without
    cur = []
    wr.c.append(('c', {'how': 'call'}))
    k = 0
    for x in wr.c:
        if x[0] == 'l':
            cur.append(x[1])
            continue
        if x[0] == 'p':
            api(sc, x[1])
            continue
        if x[0] == 'm':
            j = stands[id(x[1])][-1]
            d = x[1]['pre'][0]
            if j:
                cur.append(lines_of(b, dict(d, it=d['it'][:j]))[0])
            continue
        r = send(pc, cur, x[1]['how'])
        if not r.ok:
            raise Invalid('%r: %r' % (cur[-3:], r))
        if state(sc) != marks[k]:
            ctx.violate('trace', 'after this call the session with rejected statements differs: ' + changed(state(sc), marks[k]))
        k += 1
        cur = []
    if sa.bytes() != sc.bytes():
        ctx.violate('trace', 'with rejected statements the bytes are: ' + diff(sc.bytes(), sa.bytes()))
    la, lc = sa.link(), sc.link()
    if la.ok != lc.ok:
        ctx.violate('link', 'with rejected statements the link ends with %r, without with %r' % (la, lc))
    image, why = model.link()
    if lc.ok and sa.bytes() != sc.bytes():
        ctx.violate('link', 'with rejected statements the linked image has ' + diff(sc.bytes(), sa.bytes()))
    if lc.ok and image is not None and sc.bytes() == image and sa.bytes() != image:
        ctx.violate('link', 'the image has ' + diff(image, sa.bytes()))
    if not sig:
        return None
    return [b.name, sig, lc.ok]


def api(s, x):
    a = s.asm
    return s.call({'define': lambda: a.register_define(x['n'], x['v']), 'good': lambda: a.register_define(x['n'], x['v']), 'file': lambda: a.assemble_file('gone.s'), 'save': lambda: a.save('gone/out.bin'),
                   'text': lambda: a.assemble(None), 'org': lambda: a.change_org(9, 3)}[x['api']], disk=True)


def changed(a, b):
    for k in a:
        if a[k] != b[k]:
            return '%s: %r instead of %r' % (k, b[k], a[k])
    return 'the bytes'
