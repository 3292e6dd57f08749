"""C06: assemblers do not influence each other under any interleaving."""
import io
import os
import pickle
import re
import sys
from .. import play
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..model import text_of
from ..project import data_set, value, raw
from ..sched import Sched, Buffers
from ..world import EXCS

RULE = ('one run: 2 to 4 sessions (constructor, assemble() and assemble_file() calls with accepted and rejected text, registrations, links; the same and different CPUs, common names, texts and files) in one process, '
        'operation by operation in a random order or in real threads that are switched at random lines or bytecodes of the code under test, with short reads and with asynchronous exceptions in one of them; every '
        'session is compared with itself alone in a fresh process: image, labels, defines, macros, exports, sections, messages, log. Distinct: by backends and the switches that took place')
QUICK = (4500, 200)
ASSUMPTIONS = ['one thread runs at a time (CPython with its global interpreter lock); switches happen between source lines or between bytecodes']
COMPONENTS = {'simulated': 'thread scheduling (one baton, handed over at line or bytecode events), disk, asynchronous exceptions'}


def session_plan(rng, name):
    b = B[name]
    data, uses = data_set(rng, b, rng.choice((0, 0, 1)))

    def ev(g):
        q = rng.random()
        if q < .4:
            return {'e': 'link'}
        if q < .6:
            return {'e': 'def', 'n': rng.choice(('DFX', 'lab1', 'DF0_a', 'NIL2')), 'v': str(rng.randrange(100))}
        if q < .8:
            return {'e': 'ins', 'n': rng.choice(('CUSTOM', 'OTHER')), 'b': rng.randrange(256)}
        if q < .9:
            return {'e': 'fill', 'v': rng.randrange(256)}
        return {'e': 'use', 't': rng.choice(('CUSTOM', 'OTHER', '.db DFX', 'MAC0', 'MAC1 5', 'Mac_0', 'lab1:', '.db lab2', '.custom 1', '.export lab1', '.endmacro', '.endrepeat', '.section "s" R', '.macro EM_c06\n.endmacro\nEM_c06\nEM_c06', '.repeat 3\n.endrepeat\n.db 1'))}
    b, stmts, m = program(rng, b, None, rng.choice((4, 8, 14)), content=lambda s: value(b, s, data.get(s['f'])), files=uses,
                          weave=play.weave(rng, b, cut=.2, trip=rng.choice((0, .1)), ev=(.12, ev)))
    ops = []
    style = {'nl': '\n', 'last': 1, 'ind': ''}
    for part, end in play.groups(stmts):
        if end is not None and end['k'] == 'trip':
            part = part + [{'k': 'raw', 't': end['t']}]
        if part:
            ops.append({'o': rng.choice(('asm', 'asm', 'file', 'inc')), 't': text_of(b, part, style)})
        if end is not None and end['k'] == 'ev':
            ops.append(dict(end, o=end['e']))
    ops.append({'o': 'link'})
    if rng.random() < .3:
        ops.append({'o': 'link', 'elf': 1})
    return {'b': name, 'ops': ops}, data


def same_texts(rng, first, name):
    """another session that is given the same texts, possibly with other names in force"""
    ops = [dict(o) for o in first['ops']]
    words = sorted(set(x for o in ops for x in re.findall(r'[A-Za-z_]\w{2,}', o.get('t', ''))))
    for _ in range(rng.choice((0, 0, 1, 1, 2, 4)) if words else 0):
        at = 0 if rng.random() < .7 else rng.randint(0, len(ops))
        if rng.random() < .7:
            x = {'o': 'def', 'n': rng.choice(words), 'v': rng.choice((str(rng.randrange(100)), rng.choice(words)))}
        else:
            x = {'o': 'asm', 't': rng.choice(('.define %s %d', '.macro %s\n.endmacro ;%d', '%s: ;%d')) % (rng.choice(words), rng.randrange(100))}
        ops.insert(at, x)
    return {'b': name, 'ops': ops}


def variant(rng):
    """a user's own assembler class, made from a shipped one"""
    v = {}
    for k, c in (('hex_prefixes', (['$'], ['0x'], ['$', '0x'], [], ['0h', '0x'])), ('bin_prefixes', (['%'], ['0b'], [])), ('hex_suffixes', (['h'], ['H', 'h'])), ('dec_prefixes', (['#'], ['1'])),
                 ('oct_prefixes', (['0'], ['0o'])), ('fill_value', (0, 0x33, 255)), ('case_sensitive', (True, False)), ('big_endian', (True, False)), ('defines', ({'DFX': '7'}, {'lab1': '5', 'NIL2': '0x10'}))):
        if rng.random() < .3:
            v[k] = rng.choice(c)
    return v


def plan(rng, i, tier):
    n = rng.choice((2, 2, 2, 3, 4))
    names = [rng.choice(ALL) for _ in range(n)]
    if rng.random() < .6:
        fam = rng.choice((['6502', 'nes'], ['z80', 'sms'], ['lr35902', 'gameboy'], ['mips32', 'psx'], ['8086'], ['x86'], ['68000'], ['thumb'], ['ppc'], ['simle', 'simbe']))
        names = [rng.choice(fam) for _ in range(n)]
    sess, files = [], {}
    for k, name in enumerate(names):
        if k and rng.random() < .45 and (B[name].clsname == B[names[0]].clsname or rng.random() < .3):
            sess.append(same_texts(rng, sess[0], name))
            continue
        s, data = session_plan(rng, name)
        for f, spec in data.items():
            files.setdefault(f, [name, spec])
        sess.append(s)
    mode = rng.choice(('ops', 'lines', 'lines', 'lines', 'fine'))
    if rng.random() < .35:
        v = variant(rng)
        for s in sess[rng.randrange(2):]:
            if rng.random() < .7:
                s['var'] = v if rng.random() < .6 else variant(rng)
    if mode == 'ops' and rng.random() < .4:
        for s in sess:
            if rng.random() < .6:
                # a whole front end run with passes of its own, in the same process
                t = [o['t'] for o in s['ops'] if o.get('t') and o['o'] in ('asm', 'file', 'inc')]
                if t:
                    s['ops'].insert(rng.randint(0, len(s['ops'])), {'o': 'main', 't': ''.join(x if x.endswith('\n') else x + '\n' for x in t[:rng.randint(1, 3)]), 'pre': rng.randrange(2), 'post': rng.randrange(2), 'v': rng.randrange(256)})
    p = {'mode': mode, 's': sess, 'files': files, 'short': rng.choice((0, 0, 1, 5, 100))}
    if rng.random() < .12:
        # many sessions that came before
        p['before'] = [rng.randrange(n), rng.choice((3, 10, 30, 70)), rng.choice((3, 6, 40))]
    if mode == 'ops':
        p['order'] = [rng.randrange(n) for _ in range(60)]
    else:
        mean = rng.choice((1, 3, 10, 40, 200, 800)) * (5 if mode == 'fine' else 1)
        p['sw'] = [[1 + int(rng.expovariate(1 / mean)), rng.randrange(n)] for _ in range(rng.choice((10, 60, 300)))]
        if rng.random() < .3:
            p['inj'] = {'s': rng.randrange(n), 'nth': rng.choice((rng.randint(1, 200), rng.randint(1, 4000))), 'exc': rng.choice(('KeyboardInterrupt', 'MemoryError'))}
    return p


class Task:
    classes = {}

    def __init__(self, spec, buffers):
        self.spec, self.b, self.buffers = spec, B[spec['b']], buffers
        self.asm = None
        self.log = []
        self.buf = io.StringIO()
        self.n = 0

    def op(self):
        """the next operation; False at the end"""
        self.buffers.use(self.buf)
        if self.asm is None:
            self.do(self.create)
            return self.asm is not None
        if self.n >= len(self.spec['ops']):
            return False
        op = self.spec['ops'][self.n]
        self.n += 1
        self.do(lambda: self.apply(op))
        return True

    def create(self):
        v = self.spec.get('var')
        cls = self.b.cls()
        if v is not None:
            key = self.b.name + repr(sorted(v.items()))
            if key not in self.classes:
                self.classes[key] = type('User', (cls,), dict(v))
            cls = self.classes[key]
        self.cls = cls
        self.asm = cls()

    def do(self, fn):
        try:
            fn()
            self.log.append('ok')
        except BaseException as e:      # every outcome is compared
            self.log.append([type(e).__name__, str(e)])

    def apply(self, op):
        o = op['o']
        a = self.asm
        if o == 'asm':
            a.assemble(op['t'])
        elif o == 'file':
            a.assemble_file(op['f'])
        elif o == 'inc':
            a.assemble('.include "%s"\n' % op['f'])
        elif o == 'link':
            if op.get('elf'):
                from necroassembler.linker import ELF
                a.link(ELF(32, self.b.big, 1, machine=3))
            else:
                a.link()
        elif o == 'def':
            a.register_define(op['n'], op['v'])
        elif o == 'ins':
            a.register_instruction(op['n'], lambda instr: bytes([op['b'], 0xEE]))
            a.register_directive('custom', lambda instr: a.append_assembled_bytes(bytes([op['b']])))
        elif o == 'fill':
            a.fill_value = op['v']
        elif o == 'use':
            a.assemble(op['t'] + '\n')
        elif o == 'main':
            self.main(op)

    def main(self, op):
        calls = []

        def pre(asm):
            calls.append('pre %d' % len(asm.labels))
            asm.append_assembled_bytes(bytes([op['v'], 0xAB]))

        def post(asm):
            calls.append('post %d' % len(asm.assembled_bytes))
            asm.assembled_bytes += bytes([op['v'], 0xCD])
        old = sys.argv
        sys.argv = ['asm', op['f'], op['f'] + '.out']
        try:
            k = {}
            if op['pre']:
                k['pre_link_passes'] = [pre]
            if op['post']:
                k['post_link_passes'] = [post]
            self.cls.main(**k)
            with open(op['f'] + '.out', 'rb') as f:
                calls.append(f.read().hex())
        finally:
            sys.argv = old
            if os.path.exists(op['f'] + '.out'):
                os.unlink(op['f'] + '.out')
            self.log.append(calls)

    def all(self):
        while self.op():
            pass

    def result(self):
        a = self.asm
        if a is None:
            return {'log': self.log}
        macros = {}
        for n in sorted(a.macros):
            macros[n] = True
        return {'image': bytes(a.assembled_bytes).hex(), 'labels': {n: a.get_label_absolute_address_by_name(n) for n in a.labels}, 'order': list(a.labels),
                'defines': {k: str(v) for k, v in a.defines.items()}, 'macros': sorted(macros), 'exports': list(a.exports),
                'sections': {n: [d.get('start'), d.get('offset'), d.get('size'), d.get('permissions')] for n, d in a.sections.items()}, 'pc': a.pc,
                'directives': sorted(a.directives), 'instructions': sorted(a.instructions), 'passes': [len(a.pre_link_passes), len(a.post_link_passes)],
                'log': self.log, 'out': self.buf.getvalue()}


def alone(spec):
    """the session in a fresh process (a fork of this one, which has not used the code yet)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            bufs = Buffers()
            sys.stdout = bufs
            t = Task(spec, bufs)
            t.all()
            data = pickle.dumps(t.result())
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        chunks.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    if not chunks:
        raise Invalid('a session alone did not end')
    return pickle.loads(b''.join(chunks))


def run(plan, ctx):
    w = ctx.world
    w.put({n: raw(B[bn], spec) for n, (bn, spec) in plan['files'].items()})
    w.put(play.TRIP_FILES)
    specs = []
    n = 0
    texts = {}
    for s in plan['s']:
        ops = []
        for op in s['ops']:
            if op['o'] in ('file', 'inc', 'main'):
                t = op['t']
                if t not in texts:      # the same text is the same file
                    texts[t] = 'p%d.s' % n
                    w.put({texts[t]: t.encode()})
                    n += 1
                op = dict(op, f=texts[t])
            ops.append(op)
        specs.append({'b': s['b'], 'ops': ops, 'var': s.get('var')})
    if not specs:
        raise Invalid('no sessions')
    want = [alone(s) for s in specs]
    bufs = Buffers()
    old = sys.stdout
    sys.stdout = bufs
    Task.classes = {}
    if plan.get('before'):
        k, times, ops = plan['before']
        s = specs[k % len(specs)]
        for _ in range(times):
            Task(dict(s, ops=s['ops'][:ops]), bufs).all()
        ctx.count('sessions before', times)
    tasks = [Task(s, bufs) for s in specs]
    rules = [{'op': 'read', 'f': '*', 'nth': 0, 'count': -1, 'act': 'short', 'arg': plan['short']}] if plan['short'] else []
    sh = w.shim
    sh.reset()
    sh.begin(w.root)
    sh.rules(rules)
    skip = None
    sig = [[s['b'] for s in specs], plan['mode']]
    try:
        if plan['mode'] == 'ops':
            for k in plan['order']:
                tasks[k % len(tasks)].op()
            for t in tasks:
                t.all()
            sig.append(plan['order'])
        else:
            inj = plan.get('inj')
            sc = Sched(plan['sw'], plan['mode'] == 'fine', {inj['s'] % len(tasks): (inj['nth'], EXCS[inj['exc']])} if inj else None)
            sc.run([t.all for t in tasks])
            if sc.injected:
                skip = inj['s'] % len(tasks)
                w.count('interrupt:' + inj['exc'])
            sig.append(sc.taken)
            ctx.count('thread switches', len(sc.taken))
            ctx.count('events executed', sc.total)
            ctx.count('stalled schedules', sc.stalls)
    finally:
        sys.stdout = old
        sh.end()
        w.tally(rules, sh.fired())
    ctx.count('sessions', len(tasks))
    for k, t in enumerate(tasks):
        if k == skip:
            continue
        got = t.result()
        for what in want[k]:
            if got.get(what) != want[k][what]:
                ctx.violate('influenced', 'session %d (%s): its %s differ from the session alone in a fresh process: %s' % (k, specs[k]['b'], what, first(want[k][what], got.get(what))))
    return sig


def first(a, b):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return 'entry %d is %r instead of %r' % (i, y, x)
    if isinstance(a, dict) and isinstance(b, dict):
        for x in sorted(set(a) | set(b), key=str):
            if a.get(x) != b.get(x):
                return '%r is %r instead of %r' % (x, b.get(x), a.get(x))
    i = next((i for i, (x, y) in enumerate(zip(str(a), str(b))) if x != y), 0)
    return '%r instead of %r' % (str(b)[max(0, i - 20):i + 60], str(a)[max(0, i - 20):i + 60])
