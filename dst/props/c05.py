"""C05: splitting a program over files, includes and calls changes nothing."""
import errno
from ..backends import B, ALL
from ..engine import Invalid
from ..gen import program
from ..model import Model, Bad, Skip, text_of, lines_of
from ..project import data_set, value, raw, diff, random_cuts, expected_files, prior, FES
from ..session import Sess
from ..world import fe_backend, multi_source

RULE = ('one run: one program assembled as one text by the reference model and by the code, and the same lines cut at random statement boundaries (also inside macro and repeat bodies) over nested include files '
        '(depth up to 6, the same file included several times, empty files), and over source arguments of a front end or assemble()/assemble_file() calls of a session, with short and interrupted reads '
        'and unreadable files that are retried; compared: unlinked and linked image, label addresses and order, exports, sections, location counter, output file. Distinct: by backend, shape of the split and image')
QUICK = (20000, 200)


def plan(rng, i, tier):
    fe = rng.choice([f for f in FES if multi_source(f)]) if rng.random() < .3 else None
    b = fe_backend(fe) if fe else B[rng.choice(ALL)]
    data, uses = data_set(rng, b, rng.choice((0, 0, 1)))
    shared = []
    for n in range(rng.choice((0, 0, 1, 2))):
        body = []
        for _ in range(rng.randint(0, 4)):
            body.append(rng.choice(({'k': 'ins', 'i': rng.randrange(20)}, {'k': 'db', 'it': [{'t': 'n', 'v': rng.randrange(256), 'f': 'd'}]},
                                    {'k': 'fill', 'n': rng.randrange(9), 'v': None}, {'k': 'note', 'c': 'x'}, {'k': 'align', 'n': 4})))
        shared.append({'k': 'inc', 'f': 'shared %d.inc' % n, 'body': body})

    def content(s):
        return value(b, s, data.get(s['f']))

    multi = rng.random() < .4

    def extra(g):
        g.cfg.multiline = multi
        if 'section' in g.cfg.feats:
            g.add({'k': 'section', 'n': '.start', 'p': 'RX', 'o': None})
    b, stmts, m = program(rng, b, None, rng.choice((None, 8, 20, 40)), content=content, extra=extra, files=uses + shared * 2)
    top = [rng.randrange(200) for _ in range(rng.choice((0, 1, 1, 2, 3, 6)))]
    openat = int(rng.random() < .25)
    if openat and rng.random() < .6:
        top = region(rng, b, stmts, content) + (top[:1] if rng.random() < .2 else [])
    names = rng.choice((['inc%d.s'], ['lib/%d/f.inc', 'i%d'], ['a b %d.s', 'deep/er/x%d.asm']))
    return {'fe': fe, 'b': b.name, 'stmts': stmts, 'data': data, 'names': names,
            'top': top, 'open': openat,
            'how': [rng.choice(('call', 'call', 'file', 'inc')) for _ in range(7)],
            'cuts': [random_cuts(rng) for _ in range(7)],
            'fail': rng.choice((None, None, rng.randrange(6))), 'prior': prior(rng),
            'read': rng.choice((None, None, {'short': rng.choice((1, 2, 13, 100))}, {'intr': rng.randint(1, 4)})),
            'style': {'nl': rng.choice(('\n', '\n', '\r\n', '\r')), 'last': rng.randrange(2), 'ind': rng.choice(('', '  ', '\t'))}}


def region(rng, b, stmts, content):
    """a region with an end, at the end of the program, over several calls -> the lines at which the calls end"""
    m = Model(b, content)
    m.run(stmts)
    m.finish()
    base = max(m.pc, m.org + 1, m.end + 1) if m.end else rng.choice((0, 0x20, 0x100, 0x4000))
    new = [{'k': 'org', 's': base, 'e': base + rng.choice((0, 1, 3, 15, 40, 100))}]
    m.run(new)
    cuts = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        for _ in range(rng.choice((0, 1, 1, 2))):
            k = rng.choice(('upto', 'upto', 'goto', 'fill', 'ins', 'label', 'align', 'ram', 'db'))
            s = {'k': k, 'n': rng.choice((1, 2, 4, 16)), 'v': rng.choice((None, 0x55))}
            if k == 'upto':
                s['n'] = max(len(m.out), m.ctr) + rng.choice((0, 1, 3, 20))
            elif k == 'goto':
                s['n'] = max(len(m.out), m.pc) + rng.choice((0, 1, 3, 20))
            elif k == 'label':
                s = {'k': k, 'n': 'region_%d' % rng.randrange(10000)}
            elif k == 'ins':
                s = {'k': k, 'i': rng.randrange(len(b.plain))}
            elif k in ('align', 'ram'):
                s = {'k': k, 'n': 8}
            elif k == 'db':
                s = {'k': k, 'it': [{'t': 'n', 'v': 7, 'f': 'd'}]}
            keep = m.clone()
            try:
                m.step(s)
                if len(m.out) > 60000 or m.pc > b.org_max:
                    raise Skip()
            except (Bad, Skip, KeyError):
                m = keep
                continue
            new.append(s)
        m.finish()
        cuts.append(len(stmts) + len(new))
    n = len(stmts) + len(new)
    stmts += new
    # a cut is given as a line: every statement is some lines
    lines = lines_with_state(b, stmts, {}, content, check=False)
    at = {k: i for i, (_, _, k) in enumerate(lines) if k is not None}
    return [at[c] for c in cuts if c < n and c in at]


def flatten(stmts, inline):
    out = []
    for s in stmts:
        if s['k'] == 'inc' and inline:
            out += s['body']
        elif s['k'] == 'inc':
            out.append({'k': 'include', 'f': s['f']})
        elif s['k'] == 'repeat':
            out.append(dict(s, body=flatten(s['body'], inline)))
        else:
            out.append(s)
    return out


def shared_of(stmts, out):
    for s in stmts:
        if s['k'] == 'inc':
            out[s['f']] = s['body']
        if s['k'] in ('inc', 'repeat'):
            shared_of(s['body'], out)
    return out


def lines_with_state(b, stmts, style, content, check=True):
    """[(line, may the source end before this line, statement index if at its start)]"""
    m = Model(b, content)
    out = []
    glue = False
    ind = style.get('ind', '')
    try:
        for n, s in enumerate(stmts):
            free = m.end == 0 or m.pc > m.end
            try:
                m.step(s)
            except Bad:
                if check:
                    raise
            after = m.end == 0 or m.pc > m.end
            text = flatten([s], False)[0]
            ls = lines_of(b, text)
            for i, l in enumerate(ls):
                if s['k'] != 'label':
                    l = ind + l
                if s.get('c') and i == 0 and s['k'] not in ('note', 'repeat', 'macro'):
                    l += ' ;' + s['c']
                if glue and s['k'] != 'note':
                    last = out.pop()
                    out.append((last[0] + ' ' + l, last[1], last[2]))
                else:
                    out.append((l, free if i == 0 else free and after, n if i == 0 else None))
                glue = False
            glue = s['k'] == 'label' and bool(s.get('j')) and not s.get('c') and not s.get('bl') and n + 1 < len(stmts) and stmts[n + 1]['k'] not in ('note', 'macro')
            for _ in range(s.get('bl', 0)):
                out.append(('', after, None))
    except (Bad, Skip, KeyError):
        raise Invalid('program')
    return (out, m) if check else out


class Splitter:
    def __init__(self, plan):
        self.plan, self.n, self.files = plan, 0, {}
        self.depth = 0
        self.nl = plan['style']['nl']

    def name(self):
        self.n += 1
        names = self.plan['names'] or ['n%d']
        return names[self.n % len(names)] % self.n

    def text(self, lines, cuts, depth=0):
        self.depth = max(self.depth, depth)
        out = []
        pos = 0
        for c in sorted(cuts, key=lambda c: c['a']):
            a = min(c['a'], len(lines))
            if a < pos:
                continue
            out += lines[pos:a]
            inc = self.name()
            self.files[inc] = self.text(lines[a:a + c['n']], c.get('in', ()), depth + 1)
            out.append('.include "%s"' % inc)
            pos = min(a + c['n'], len(lines))
        out += lines[pos:]
        return '\x01'.join(out) + ('\x01' if self.plan['style']['last'] and out else '')

    def file(self, t):
        # strings may go on over several lines, which end like the others
        return t.replace('\n', self.nl).replace('\x01', self.nl).encode()


def run(plan, ctx):
    fe = plan['fe']
    b = B[plan['b']]
    data = plan['data']

    def content(s):
        return value(b, s, data.get(s['f']))
    stmts = plan['stmts']
    style = plan['style']
    if plan['open']:
        lines = lines_with_state(b, stmts, style, content, check=False)
    else:
        lines, flat_model = lines_with_state(b, stmts, style, content)
        flat_model.finish()
    # where the sources or calls end
    tops = set()
    for t in plan['top']:
        if not lines:
            break
        t %= len(lines) + 1
        if t == len(lines):
            tops.add(t)
        elif plan['open']:
            if lines[t][2] is not None:
                tops.add(t)
        else:
            while t < len(lines) and not lines[t][1]:
                t += 1
            tops.add(t)
    tops = sorted(tops)
    parts = [lines[x:y] for x, y in zip([0] + tops, tops + [len(lines)])]
    if not plan['open']:
        m = flat_model
    else:
        m = Model(b, content)
        at = {lines[t][2] for t in tops if t < len(lines)}
        try:
            for n, s in enumerate(stmts):
                if n in at:
                    m.finish()
                m.step(s)
            m.finish()
        except (Bad, Skip, KeyError):
            raise Invalid('program')
    image, why = m.link()
    if image is None:
        return None
    sp = Splitter(plan)
    texts = []
    for k, p in enumerate(parts):
        cuts = plan['cuts'][k % len(plan['cuts'])] if plan['cuts'] else []
        texts.append(sp.text([l for l, _, _ in p], cuts))
    w = ctx.world
    w.put({n: raw(b, s) for n, s in data.items()})
    w.put({n: text_of(b, body, style) for n, body in shared_of(stmts, {}).items()})
    w.put({n: sp.file(t) for n, t in sp.files.items()})
    read = plan['read'] or {}
    rules = []
    if 'short' in read:
        rules = [{'op': 'read', 'f': '*', 'nth': 0, 'count': -1, 'act': 'short', 'arg': read['short']}]
    elif 'intr' in read:
        rules = [{'op': 'read', 'f': '*', 'nth': read['intr'] - 1, 'count': 2, 'act': 'err', 'arg': errno.EINTR}]
    sig = [plan['b'], fe, len(parts), sp.n, sp.depth, hash_of(image)]
    ctx.count('sources or calls', len(parts))
    ctx.count('include files', sp.n)
    if fe:
        argv = []
        for k, t in enumerate(texts):
            name = 'source%d.s' % k
            w.put({name: sp.file(t)})
            argv.append(name)
        if plan['prior'] is not None:
            w.put({'out.bin': plan['prior']})
        r = w.build(fe, argv + ['out.bin'], rules)
        if not r.ok:
            ctx.violate('refused', 'the split program fails to build: %s %s' % (r.exc, r.msg))
        want = expected_files(fe, image, m.label_addresses())
        if want is None:
            return None
        for suffix, blob in want.items():
            got = w.read('out.bin' + suffix)
            if got != blob:
                ctx.violate('output', 'the output of the split program has ' + diff(blob, got))
        return sig
    s = Sess(ctx, b, data)
    for k, t in enumerate(texts):
        how = plan['how'][k % len(plan['how'])] if plan['how'] else 'call'
        if how == 'call':
            r = s.call(lambda: s.asm.assemble(t.replace('\x01', sp.nl)), rules=rules, disk=True)
        else:
            name = 'part%d.s' % k
            w.put({name: sp.file(t)})
            if plan['fail'] == k and t:
                bad = s.call(lambda: s.asm.assemble_file(name), disk=True, rules=[
                    {'op': 'read', 'f': 't/' + name, 'nth': 0, 'count': -1, 'act': 'err', 'arg': errno.EIO}])
                if bad.ok:
                    ctx.violate('ignored', 'a source file that cannot be read was accepted')
                ctx.count('unreadable sources retried')
            if how == 'file':
                r = s.call(lambda: s.asm.assemble_file(name), rules=rules, disk=True)
            else:
                r = s.call(lambda: s.asm.assemble('.include "%s"' % name), rules=rules, disk=True)
        if not r.ok:
            ctx.violate('refused', 'part %d of the split program is rejected: %r' % (k, r))
    compare(ctx, s, m, 'split')
    if not plan['open']:
        one = Sess(ctx, b, data)
        r = one.call(lambda: one.asm.assemble(text_of(b, flatten(stmts, True), style)), disk=True)
        if not r.ok:
            raise Invalid('flat: %r' % r)
        same(ctx, one, s)
    if s.bytes() != bytes(m.out):
        ctx.violate('bytes', 'before the link the split program has ' + diff(bytes(m.out), s.bytes()))
    r = s.link()
    if not r.ok:
        ctx.violate('link', 'the split program does not link: %r' % r)
    if s.bytes() != image:
        ctx.violate('image', 'the split program has ' + diff(image, s.bytes()))
    return sig


def compare(ctx, s, m, who):
    got = s.labels()
    want = m.label_addresses()
    if list(got) != list(want) or got != want:
        ctx.violate('labels', 'labels of the split program: %r, expected %r' % (got, want))
    if list(s.asm.exports) != m.exports:
        ctx.violate('exports', 'exports of the split program: %r, expected %r' % (s.asm.exports, m.exports))
    if s.asm.pc != m.pc:
        ctx.violate('address', 'the location counter is %#x, expected %#x' % (s.asm.pc, m.pc))
    if list(s.asm.sections) != list(m.sections):
        ctx.violate('sections', 'sections %r, expected %r' % (list(s.asm.sections), list(m.sections)))
    for n, d in m.sections.items():
        x = s.asm.sections[n]
        if (x['start'], x['offset'], x.get('size')) != (d['start'], d['offset'], d['size']):
            ctx.violate('sections', 'section %s is %r, expected %r' % (n, x, d))


def same(ctx, one, s):
    for what, f in (('image', lambda a: a.bytes()), ('labels', lambda a: a.labels()), ('exports', lambda a: a.asm.exports),
                    ('sections', lambda a: a.asm.sections), ('defines', lambda a: a.asm.defines), ('macros', lambda a: sorted(a.asm.macros))):
        if f(one) != f(s):
            ctx.violate('differs', '%s of the split program differ from the ones of the same program in one text' % what)


def hash_of(image):
    import hashlib
    return hashlib.md5(image).hexdigest()[:8]
