"""Histories of one session: a program whose statement list is interrupted by
  {'k':'cut','how':d,'sh':n}    end of an assemble()/assemble_file() call; d: how the text before it is delivered, sh: short reads
  {'k':'trip','t':text,..}      a statement that is rejected, as the last one of the call (the call does not complete)
  {'k':'ev',..}                 anything else between calls
  {'k':'probe'}                 observation from inside the assembly (a custom directive)
"""
import errno
import os
from .engine import Invalid
from .model import text_of, lines_of, Bad, Skip

HOW = ('call', 'call', 'call', 'file', 'inc', 'deep')
READ_ERR = (errno.EIO, errno.ESTALE, errno.ENOMEM, errno.EISDIR)
OPEN_ERR = (errno.EACCES, errno.EMFILE, errno.ENOENT, errno.ENFILE)


def bads(rng, b, names, known, n=1):
    """texts of statements that every assembler has to reject without having done anything; names: labels (defined or not),
    known: labels certainly defined"""
    out = []
    for _ in range(n):
        l = rng.choice(names) if names else 'lab'
        q = rng.random()
        if q < .45:
            out.append(rng.choice(b.bad).format(l))
        else:
            c = ['.db 999', '.db %s+nolabel_x+' % l if 0 else '.db 0x', '.dw 70000', '.dd 0x1ffffffff' if b.num[0] == '0x' else '.dd $1ffffffff', '.org 16 8', '.org %s' % 'nolabel_x', '.org', '.org 1 2 3',
                 '.align', '.align nolabel_x', '.align 0', '.fill', '.fill 3 300', '.fill nolabel_x', '.fill 99999999999', '.fill 9223372036854775808', '.ram 0', '.ram', '.ram nolabel_x',
                 '.goto', '.goto nolabel_x', '.goto 70000 300', '.upto', '.upto nolabel_x', '.upto 70000 300', '.include "not there.inc"', '.include', '.incbin "not there.bin"', '.incbin',
                 '.inccsv "not there.csv"', '.inccsv_le16 "not.csv"', '.incjson "not there.json" "data"', '.incjson "x"', '.section "zz" Q', '.section "zz"', '.section "zz" RX nolabel_x', '.bogus 1', '.',
                 'FROB', 'FROB %s' % l, '.endrepeat', '.endmacro', '.repeat 0', '.repeat', '.repeat nolabel_x', '.define', '.define a', '.define a b c', '.export', '.export a b', '(%s)' % l,
                 '.macro', '.db_to_ascii 256', '.dw_to_ascii 65536', '.db "\u00e9"', '12:', 'a-b:', '.db_to_ascii "x"', '.dd 0 1'[:4] + '99999999999', '.org 100 99', '.fill 0 256', '.section "x y" RX 5 6', '.log MAYBE', '.log ONN', '.log 1', '.log nolabel_x', '.log of']
            if b.mode:
                c += ['.bits 48', '.bits', '.bits nolabel_x', '.bits 0', '.bits 257', '.bits 33'] * 3
            if known:
                c += [rng.choice(known) + ':'] * 6
            out.append(rng.choice(c))
    return out if n > 1 else out[0]


def faulty_read(rng, b):
    """a data directive whose file cannot be read (it exists and is healthy)"""
    k = rng.choice(('incbin', 'incbin', 'inccsv', 'incjson', 'include'))
    t = {'incbin': '.incbin "trip.bin"', 'inccsv': '.inccsv "trip.csv"', 'incjson': '.incjson "trip.json" "data"', 'include': '.include "trip.inc"'}[k]
    f = t.split('"')[1]
    if rng.random() < .5:
        rules = [{'op': 'openr', 'f': 't/' + f, 'nth': 0, 'count': -1, 'act': 'err', 'arg': rng.choice(OPEN_ERR), 'hard': 1}]
    else:
        rules = [{'op': 'read', 'f': 't/' + f, 'nth': rng.choice((0, 0, 1)), 'count': -1, 'act': 'err', 'arg': rng.choice(READ_ERR), 'hard': 1},
                 {'op': 'read', 'f': 't/' + f, 'nth': 0, 'count': 1, 'act': 'short', 'arg': rng.choice((1, 7, 50))}]
    return {'t': t, 'rules': rules}


TRIP_FILES = {'trip.bin': {'rnd': [7, 300]}, 'trip.csv': '1,2,3\n' * 40, 'trip.json': '{"data": [1, 2, 3, 4, 5]}', 'trip.inc': '.db 1\nFROB_label:\n.db 2, FROB_label\n' * 1 + '; pad\n' * 60}


def rejected(rng, b, g):
    if rng.random() < .25:
        return faulty_read(rng, b)
    return {'t': bads(rng, b, g.names, sorted(g.m.labels))}


def weave(rng, b, cut=.12, probe=0, trip=0, ev=None):
    def w(g):
        q = rng.random()
        if rng.random() < probe:
            g.add({'k': 'probe'})
        if q < trip:
            g.add(dict(rejected(rng, b, g), k='trip', how=rng.choice(HOW)))
        elif q < trip + cut:
            g.add({'k': 'cut', 'how': rng.choice(HOW), 'sh': rng.choice((0, 0, 0, 1, 3, 100))})
        if ev and rng.random() < ev[0]:
            if g.out and g.out[-1]['k'] not in ('cut', 'trip', 'ev'):
                g.add({'k': 'cut', 'how': rng.choice(HOW), 'sh': 0})
            g.add(dict(ev[1](g), k='ev'))
    return w


def groups(stmts):
    """-> [(statements, terminator or None)]"""
    cur = []
    for s in stmts:
        if s['k'] in ('cut', 'trip', 'ev'):
            yield cur, s
            cur = []
        else:
            cur.append(s)
    yield cur, None


class Player:
    """delivers the groups of a history to a session"""
    logs = False

    def __init__(self, s, style=None):
        self.s, self.style, self.n = s, style, 0
        self.sig = []
        s.ctx.world.put(TRIP_FILES)

    def accepted(self, text):
        """a statement that has to be rejected was not"""
        if text.startswith('.log ') and self.logs:
            self.s.ctx.violate('accepted', '%s was accepted' % text)
        raise Invalid('%r was accepted' % text)

    def deliver(self, text, how, rules=(), name=None):
        s, w = self.s, self.s.ctx.world
        if how == 'call':
            return s.call(lambda: s.asm.assemble(text), rules=rules, disk=True)
        self.n += 1
        f = 'part%d.s' % self.n
        w.put({f: text.encode()})
        if how == 'file':
            return s.call(lambda: s.asm.assemble_file(f), rules=rules, disk=True)
        if how == 'deep':
            w.put({'outer%d.s' % self.n: '\n; outer\n.include "%s"\n' % f})
            f = 'outer%d.s' % self.n
        return s.call(lambda: s.asm.assemble('.include "%s"\n' % f), rules=rules, disk=True)

    def group(self, stmts, end, model=True):
        """one call; -> Out.  A complete group has to be accepted, one that ends in a trip rejected"""
        s, b = self.s, self.s.b
        body = list(stmts)
        rules = []
        trip = end is not None and end['k'] == 'trip'
        if trip:
            body = body + [end]
            rules = end.get('rules', [])
        elif not body and end is not None and end['k'] == 'ev':
            return None
        how = (end or {}).get('how', 'call')
        if (end or {}).get('sh'):
            rules = [{'op': 'read', 'f': '*', 'nth': 0, 'count': -1, 'act': 'short', 'arg': end['sh']}] + list(rules)
        r = self.deliver(text_of(b, body, self.style), how, rules)
        if model:
            try:
                s.model.run(stmts)
                if not trip:
                    s.model.finish()
            except (Bad, Skip, KeyError):
                raise Invalid('program')
        if trip and r.ok:
            self.accepted(end['t'])
        if trip:
            self.sig.append([end['t'].split()[0][:12], type(r.exc).__name__])
            s.ctx.count('rejected statements')
        return r
