"""C17: errors name the place of the statement that caused them."""
import ast
import errno
import os
import re
from .. import play, project
from ..backends import B, ALL
from ..engine import Invalid
from ..session import Sess
from ..world import fe_backend, multi_source

RULE = ('one run: sources, included files, macro definitions and uses, repeats and renamings with statements to be rejected in several of them, given to one session in several calls (text, file, named text, '
        'include) or to a front end as several arguments, under short, interrupted and failing reads; a walk over the structure says which statement is rejected first, in every call. Distinct: by front '
        'end, the way to the rejected statements, their kinds and the faults fired')
QUICK = (30000, 200)
NAMES = ('one.s', 'lib/two.inc', 'lib/one.s', 'three three.s', 'One.s', './lib/deep/one.s', 'lib/../seven.x')
PADS = ('', '', ' ', '\t', '; FROB at line 99 of none.s: x', ';', '   ; "open', ".db ';'", '.db "a;b:c"', '.db "a\\"b" ; "', '.log OFF', ';;; \'', '.db "two\nrows"', '.db 1, 2', '.db "x" ;y:', '.define Un_used 77')
ENDS = ('', '', '', ' ', '\t; why: not', ';FROB', ' ; at line 7 of x.s: "')
DIRS = ('.', '.align', '.align nolabel_x', '.bogus 1', '.define', '.define a', '.define a b c', '.endmacro', '.endrepeat', '.export', '.export a b', '.fill', '.fill nolabel_x', '.goto', '.goto nolabel_x',
        '.incbin', '.incjson "x"', '.include', '.org', '.org 1 2 3', '.org nolabel_x', '.ram', '.ram 0', '.ram nolabel_x', '.repeat', '.repeat 0', '.repeat nolabel_x', '.section "zz"', '.section "zz" Q',
        '.section "zz" RX nolabel_x', '.upto', '.upto nolabel_x', '.macro')
MORE = {'x86': ('.bits', '.bits 16 32', '.bits 64, 16'), 'sms': ('.tiles', '.tiles "a.png" 2'), 'gameboy': ('.tiles', '.tiles "a.png" "b.png"', '.cartridge_title 1'),
        'nes': ('.chr_pattern_table', '.chr_pattern_table "a.png" 2', '.cartridge_prg_roms 1')}
COUNT = (2,) * 9 + (0, 1, 3)
SEP = re.compile(r'[()\[\]{}]|[^\s,()\[\]{}]+')


def plan(rng, i, tier):
    fe = rng.choice(project.FES + project.ELF_FES)
    b = fe_backend(fe)
    via = 'fe' if rng.random() < .35 else 'session'
    nf = rng.choice((0, 1, 2, 3, 5))
    nm = rng.choice((0, 1, 2, 3))
    state = {'lab': 0, 'mdef': []}
    heavy = rng.choice((.05, .12, .3))
    files = []

    def bad():
        q = rng.random()
        if q < .12:
            return {'dir': rng.choice(DIRS if rng.random() < .7 else MORE.get(b.name, DIRS))}
        if q < .5:
            return {'bad': rng.choice(b.bad).format(rng.choice(('lab', 'Lost_1')))}
        if q < .6:
            return {'bad': rng.choice(('FROB', 'FROB 1, 2', 'frob (x', 'FROB x y z', 'Frob [a],{b}', 'frob1 FROB2'))}
        if q < .68:
            return {'badlab': rng.choice(('12', 'a-b', '99', 'x!', '+')), 'tail': rng.random() < .3}
        if q < .72:
            return {'tok': rng.choice(('x y:', 'FROB lab:', ':', 'lab :', 'x: y z:', 'NOP NOP:'))}
        if q < .84:
            return {'ren': rng.choice(('FROB', 'FROB2')), 'n': rng.randrange(100)}
        if q < .9:
            return {'rep': rng.choice(b.bad).format('lab'), 'pre': rng.choice((0, 1, 3))}
        return {'dup': rng.randrange(4)}

    def fine():
        q = rng.random()
        if q < .5:
            return {'c': rng.choice(PADS)}
        if q < .8:
            return {'i': rng.randrange(len(b.plain))}
        state['lab'] += 1
        return {'lab': 'place%d' % state['lab'], 'same': rng.random() < .5, 'k': rng.choice((1, 1, 2))}

    def body(k, n):
        out = []
        for _ in range(n):
            q = rng.random()
            if q < heavy:
                x = bad()
            elif q < heavy + .15 and k < nf:
                x = {'inc': rng.randrange(k, nf)}
            elif q < heavy + .25 and nm:
                x = {'use': rng.randrange(nm), 'args': [rng.choice(('FROB', 'nop', 'NOP', '1', 'lost')) for _ in range(rng.choice(COUNT))]}
            elif q < heavy + .35 and nm:
                x = mdef(rng.randrange(nm))
            else:
                x = fine()
            x['ind'] = rng.choice(('', '', '  ', '\t'))
            x['end'] = rng.choice(ENDS)
            out.append(x)
        return out

    def mdef(m):
        lines = []
        for _ in range(rng.choice((1, 2, 4))):
            q = rng.random()
            if q < .4:
                lines.append({'i': rng.randrange(len(b.plain))})
            elif q < .5:
                lines.append({'c': rng.choice(PADS[:7])})
            elif q < .6 and m + 1 < nm:
                lines.append({'use': rng.randrange(m + 1, nm), 'args': ['par_a', rng.choice(('1', 'par_b', 'FROB')), 'x'][:rng.choice(COUNT)]})
            elif q < .75:
                lines.append({'bad': rng.choice(('FROB par_a', 'par_a', 'par_a par_b', 'frob (par_b'))})
            elif q < .85:
                lines.append({'bad': rng.choice(b.bad).format('lost_q')})
            elif q < .9:
                lines.append({'inlab': 'inner%d' % rng.randrange(3)})
            else:
                lines.append({'i': rng.randrange(len(b.plain))})
        return {'mdef': m, 'lines': lines}
    for k in range(nf):
        files.append(body(k + 1, rng.choice((1, 3, 6, 10))))
    calls = []
    for _ in range(rng.choice((1, 2, 3, 4)) if via == 'session' or multi_source(fe) else 1):
        calls.append({'how': rng.choice(('call', 'file', 'named', 'inc')), 'body': body(0, rng.choice((2, 5, 9))), 'sh': rng.choice((0, 0, 1, 3, 100)), 'eintr': rng.random() < .15,
                      'flaky': rng.randrange(nf) if nf and rng.random() < .12 else None, 'nl': rng.choice(('\n', '\n', '\r\n')), 'open': rng.random() < .3,
                      'leave': rng.random() < .12, 'late': rng.random() < .5})
    return {'fe': fe, 'via': via, 'files': files, 'calls': calls, 'nl': rng.choice(('\n', '\r\n', '\r')), 'open': rng.random() < .3}


class Reject(Exception):
    """the statement (file, line, accepted token lists)"""

    def __init__(self, file, line, *tokens):
        self.file, self.line, self.tokens = file, line, [list(t) for t in tokens]


class Flaky(Exception):
    pass


def toks(t):
    return SEP.findall(t)


class Walk:
    def __init__(self, plan, b):
        self.p, self.b = plan, b
        self.labels, self.macros, self.defs = set(), {}, set()
        self.rec = self.rep = False
        self.way = []
        self.size = 0

    # entry -> physical lines (before the line ends are chosen)
    def lines(self, x):
        ind, end = x.get('ind', ''), x.get('end', '')
        if 'c' in x:
            return (ind + x['c']).split('\n')
        if 'i' in x:
            t = [self.b.plain[x['i'] % len(self.b.plain)][0]]
        elif 'bad' in x:
            t = [x['bad']]
        elif 'tok' in x:
            t = [x['tok']]
        elif 'dir' in x:
            t = [x['dir']]
        elif 'badlab' in x:
            t = [x['badlab'] + ':' + (' ' + self.b.plain[0][0] if x['tail'] else '')]
        elif 'ren' in x:
            t = ['.define REN_%d %s' % (x['n'], x['ren']), 'REN_%d lost' % x['n']]
        elif 'rep' in x:
            t = ['.repeat 2'] + [self.b.plain[0][0]] * x['pre'] + [x['rep'], '.endrepeat']
        elif 'dup' in x:
            t = ['dup%d: dup%d:' % (x['dup'], x['dup'])]
        elif 'lab' in x:
            t = [' '.join(x['lab'] + '_%d:' % k for k in range(x['k'])) + (' ' + self.b.plain[0][0] if x['same'] else '')]
        elif 'inc' in x:
            t = ['.include "%s"' % NAMES[x['inc']]]
        elif 'use' in x:
            t = ['mac_%d %s' % (x['use'], ', '.join(x['args']))]
        elif 'mdef' in x:
            t = ['.macro mac_%d par_a par_b' % x['mdef']]
            for y in x['lines']:
                t += [y['inlab'] + ':'] if 'inlab' in y else self.lines(y)
            t.append('.endmacro')
        elif 'raw' in x:
            t = [x['raw']]
        return [ind + l + end if '"' not in l or l.startswith('.include') else l for l in t]

    def text(self, body, nl, open_end=False):
        out = [l for x in body for l in self.lines(x)]
        # line ends inside strings are line ends too
        return nl.join(out) + ('' if open_end and out and out[-1].strip() else nl)

    def source(self, body, file, stack=()):
        """the assembly of one source; raises for the first rejected statement"""
        self.size += len(body)
        if self.size > 3000:
            raise Invalid('size')
        n = 1
        for x in body:
            if 'tok' in x:
                t = x['tok'].replace('x: ', '')
                raise Reject(file, n, toks(t.partition(':')[0]))
            n += len(self.lines(x))
        n = 1
        for x in body:
            self.entry(x, file, n)
            n += len(self.lines(x))

    def label(self, name, file, n):
        if self.rec or name in self.labels:
            raise Reject(file, n, [name])
        self.labels.add(name)

    def instr(self, t, subst, file, n, ok=False):
        """one instruction; it is recorded, expanded, or assembled"""
        t = toks(t)
        if self.rec:
            raise Invalid('recording')
        new = [re.sub(r'\w+', lambda m: subst.get(m.group(), m.group()), x) for x in t]
        name = new[0].upper()
        if name.startswith('MAC_') and name in self.macros:
            self.way.append('m')
            if len(new) < 3:
                raise Reject(file, n, t, new)
            _, lines, mfile = self.macros[name]
            args = dict(zip(('par_a', 'par_b'), new[1:]))
            for l, ln in lines:
                self.instr(l, args, mfile, ln)
            return
        if ok or any(toks(p.upper()) == [x.upper() for x in new] for p, _ in self.b.plain):
            return
        raise Reject(file, n, t, new)

    def block(self, file, n):
        if self.rep:
            raise Reject(file, n, ['.repeat', '2'])
        self.rep = True

    def entry(self, x, file, n):
        if 'c' in x:
            return
        if 'i' in x:
            return self.instr(self.b.plain[x['i'] % len(self.b.plain)][0], {}, file, n, True)
        if 'raw' in x:
            if 'macro' in x['raw']:
                self.rec = False
            elif x['raw'] == '.endrepeat':
                self.rep = False
            else:
                self.block(file, n)
            return
        if 'bad' in x:
            return self.instr(x['bad'], {}, file, n)
        if x.get('dir') == '.endrepeat' and self.rep:
            self.rep = False
            return
        if 'dir' in x:
            raise Reject(file, n, toks(x['dir']))
        if 'badlab' in x:
            raise Reject(file, n, [x['badlab']])
        if 'ren' in x:
            return self.instr('REN_%d lost' % x['n'], {'REN_%d' % x['n']: x['ren']}, file, n + 1)
        if 'rep' in x:
            self.block(file, n)
            self.way.append('r')
            self.instr(x['rep'], {}, file, n + 1 + x['pre'])
            raise Invalid('repeat')
        if 'dup' in x:
            self.label('dup%d' % x['dup'], file, n)
            self.label('dup%d' % x['dup'], file, n)
        elif 'lab' in x:
            for k in range(x['k']):
                self.label('%s_%d' % (x['lab'], k), file, n)
        elif 'inc' in x:
            name = NAMES[x['inc']]
            if self.flaky == x['inc']:
                raise Flaky()
            self.way.append('i')
            self.source(self.p['files'][x['inc']], name)
        elif 'use' in x:
            self.instr('mac_%d ' % x['use'] + ' '.join(x['args']), {}, file, n)
        elif 'mdef' in x:
            self.way.append('d')
            lines = []
            self.macros['MAC_%d' % x['mdef']] = (x, lines, file)
            n += 1
            for y in x['lines']:
                if 'inlab' in y:
                    self.rec = True
                    raise Reject(file, n, [y['inlab']])
                if 'c' in y:
                    n += len(self.lines(y))
                    if y['c'].startswith('.'):
                        raise Invalid('directive')
                    continue
                t = self.b.plain[y['i'] % len(self.b.plain)][0] if 'i' in y else y['bad'] if 'bad' in y else 'mac_%d %s' % (y['use'], ' '.join(y['args']))
                lines.append((t, n))
                n += 1


def run(plan, ctx):
    fe, b = plan['fe'], fe_backend(plan['fe'])
    w = ctx.world
    nf = len(plan['files'])
    for body in plan['files'] + [c['body'] for c in plan['calls']]:
        for x in body:
            if x.get('inc', -1) >= nf:
                raise Invalid('graph')
            for y in [x] + x.get('lines', []):
                if 'ind' not in y:
                    y['ind'] = ''
    wk = Walk(plan, b)
    names = ['main%d.s' % k for k in range(len(plan['calls']))]
    files = {}
    for k, body in enumerate(plan['files']):
        files[os.path.normpath(NAMES[k])] = wk.text(body, plan['nl'], plan['open']).encode()
    for d in ('lib/deep',):
        os.makedirs(os.path.join(w.tree, d), exist_ok=True)
    w.put(files)
    if plan['via'] == 'fe':
        return front(plan, ctx, wk, names)
    s = Sess(ctx, b)
    sig = []
    seen = 0
    for k, c in enumerate(plan['calls']):
        body = list(c['body'])
        if wk.rec:
            body.insert(0, {'raw': '.endmacro'})
        if wk.rep and not c.get('late'):
            body.insert(0, {'raw': '.endrepeat'})
        if c.get('leave'):
            body.append({'raw': '.repeat 2'})
        text = wk.text(body, c['nl'], c['open'])
        how = c['how']
        main = names[k]
        w.put({main: text.encode()})
        wk.flaky = c['flaky']
        wk.way = []
        want = walk(wk, body, None if how == 'call' else main)
        rules = []
        if c['flaky'] is not None:
            rules.append({'op': 'openr', 'f': 't/' + os.path.normpath(NAMES[c['flaky']]), 'nth': 0, 'count': 1, 'act': 'err', 'arg': errno.EACCES, 'hard': 1})
        if c['sh']:
            rules.append({'op': 'read', 'f': 't/*', 'nth': 0, 'count': -1, 'act': 'short', 'arg': c['sh']})
        if c['eintr']:
            rules.append({'op': 'read', 'f': 't/*', 'nth': 1, 'count': 3, 'act': 'err', 'arg': errno.EINTR})
        fn = {'call': lambda: s.asm.assemble(text), 'named': lambda: s.asm.assemble(text, main), 'file': lambda: s.asm.assemble_file(main),
              'inc': lambda: s.asm.assemble('.include "%s"' % main)}[how]
        r = s.call(fn, rules=rules, disk=True)
        if isinstance(want, Flaky):
            if not isinstance(r.exc, OSError):
                raise Invalid('flaky: %r' % r)
            sig.append('E')
            continue
        if want is None:
            if not r.ok:
                raise Invalid('call %d: %r' % (k, r))
            sig.append('ok')
            continue
        seen += 1
        judge(ctx, w, str(r.exc) if r.exc else None, want, 'call %d (%s)' % (k, how), names, k)
        sig.append([how, ''.join(wk.way)[-5:], type(r.exc).__name__, want.tokens[0][:1], [min(n, 3) for n in r.fired]])
    return [b.name, sig] if seen else None


def walk(wk, body, file):
    try:
        wk.source(body, file)
    except (Reject, Flaky) as e:
        return e
    return None


def front(plan, ctx, wk, names):
    w = ctx.world
    want = None
    wk.flaky = None
    for k, c in enumerate(plan['calls']):
        w.put({names[k]: wk.text(c['body'], c['nl'], c['open']).encode()})
        if want is None:
            want = walk(wk, c['body'], names[k])
            at = k
    if want is None:
        return None
    rules = []
    c = plan['calls'][0]
    if c['sh']:
        rules.append({'op': 'read', 'f': 't/*', 'nth': 0, 'count': -1, 'act': 'short', 'arg': c['sh']})
    if c['eintr']:
        rules.append({'op': 'read', 'f': 't/*', 'nth': 1, 'count': 3, 'act': 'err', 'arg': errno.EINTR})
    r = w.build(plan['fe'], names + ['out.bin'], rules=rules)
    judge(ctx, w, None if r.ok else r.msg, want, 'the build', names, at)
    return [plan['fe'], at, ''.join(wk.way)[-5:], r.exc, want.tokens[0][:1], [min(n, 3) for n in r.fired]]


def judge(ctx, w, msg, want, what, names, k):
    ctx.count('rejections judged')
    if msg is None:
        raise Invalid('%s accepted %r' % (what, want.tokens))
    where = 'line %d of %s' % (want.line, want.file)
    # the statement proper
    m = re.search(r'at line (\d+)(?: of (.*?))?: (\[.*\])$', msg, re.S)
    text = msg
    if m:
        try:
            got = ast.literal_eval(m.group(3))
        except (ValueError, SyntaxError):
            got = None
        if got is not None and got not in want.tokens:
            ctx.violate('tokens', '%s: %r instead of the tokens %r of %s' % (what, msg, want.tokens[0], where))
        text = msg[:m.start(3)]
    elif not any(all(t in msg for t in l) for l in want.tokens):
        ctx.violate('tokens', '%s: %r does not have the tokens %r of %s' % (what, msg, want.tokens[0], where))
    found = [int(n) for n in re.findall(r'line\s+(\d+)', text)]
    if not found:
        ctx.violate('line', '%s: %r has no line, expected %s' % (what, msg, where))
    if set(found) != {want.line}:
        ctx.violate('line', '%s: %r instead of %s' % (what, msg, where))
    if len(found) > 1:
        ctx.violate('twice', '%s: %r has the place more than once' % (what, msg))
    if want.file is None:
        for n in list(NAMES) + names:
            if n in text:
                ctx.violate('file', '%s: %r names %s for a text without a name' % (what, msg, n))
    elif m and m.group(2) is not None:
        f = m.group(2)
        if f != want.file and not (os.path.exists(os.path.join(w.tree, f)) and os.path.samefile(os.path.join(w.tree, f), os.path.join(w.tree, want.file))):
            ctx.violate('file', '%s: %r instead of %s' % (what, msg, where))
    elif want.file not in text:
        ctx.violate('file', '%s: %r does not name %s' % (what, msg, want.file))
