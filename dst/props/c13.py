"""C13: console front ends write valid headers, checksums and symbol files."""
import os
import sys
from .. import project
from ..backends import B
from ..engine import Invalid
from ..gen import program, plant
from ..model import Model, Bad, Skip, text_of, gb_fix
from ..session import Sess
from ..world import fe_main, World
import errno

RULE = ('one run: a generated program for a console front end (Game Boy, GBA, Genesis, PSX, NES; images around every size and padding boundary) built once or several times in one process '
        '(earlier builds may fail) under short/interrupted transfers, or a Game Boy session that links any number of times (failing and successful) while it is still growing and then '
        'saves; headers, checksums, padding, symbol files are recomputed independently from the file on disk. Distinct: by front end, size class, header statements, history')
QUICK = (16000, 200)
CFES = ['cpu:gameboy', 'gba', 'genesis', 'psx', 'nes']


def plan(rng, i, tier):
    if rng.random() < .3:
        return gb_plan(rng)
    fe = rng.choice(CFES)
    size = rng.choice((0, 0, 0xBE, 0x150, 0x1FE, 0x200, 0x202, 2046, 2047, 2048, 2049, 4096, 4094, 6144, 40000, 70000))
    p = project.gen(rng, fe=fe, data=rng.choice((0, 0, 1)), min_size=size, big=rng.random() < .1, cuts=rng.random() < .3)
    if fe == 'gba' and rng.random() < .3:
        # the smallest images that have the fields of the header
        n = len(project.model_of(p).link()[0])
        want = rng.choice((0xBE, 0xBE, 0xBF, 0xC0))
        q = [x for x in p['stmts'] if x['k'] != 'fill' or x.get('n', 0) < 100]
        for short in (p['stmts'], q, []):
            t = dict(p, stmts=short)
            m = project.model_of(t)
            if m is None or m.end:
                continue
            n = len(m.link()[0])
            if n < want:
                t = dict(t, stmts=short + [{'k': 'fill', 'n': want - n, 'v': rng.choice((None, 0, 0xFF, 0x80))}], srcs=[])
                if project.model_of(t) is not None:
                    p = t
                    break
    p['prior'] = project.prior(rng)
    p['others'] = project.neighbours(rng, p)
    p['history'] = []
    for _ in range(rng.choice((0, 0, 1, 2))):
        p['history'].append(rng.choice(('same', 'drop', 'missing', 'undef', 'range')))
    p['chunks'] = rng.choice((0, 0, 1, 5, 100, 2048))
    p['eintr'] = rng.choice((0, 0, 1, 3))
    return p


def gb_plan(rng):
    size = rng.choice((None, 4, 12))

    def extra(g):
        if rng.random() < .85:
            project.cartridge(rng, g)
    b, stmts, m = program(rng, 'gameboy', None, size, extra=extra)
    n = len(stmts)
    steps = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        steps.append({'at': rng.randint(0, n), 'k': rng.choice(('link', 'link', 'link', 'bad'))})
    if rng.random() < .4:
        stmts.append({'k': 'fill', 'n': rng.choice((1, 0x8000 - len(m.out) if len(m.out) < 0x8000 else 7, 300)), 'v': rng.choice((None, 0xFF, 0x80))})
    return {'gb': stmts, 'steps': steps, 'chunks': rng.choice((0, 3))}


def verify(ctx, fe, outfile, linked, labels, w, what):
    """recompute every field from the documented formats"""
    got = w.read(outfile)
    if got is None:
        ctx.violate('missing', what + ': no output file')
    kind = fe.partition(':')[2] or fe
    if kind == 'gameboy':
        x = 0
        for c in got[0x134:0x14D]:
            x = (x - c - 1) & 0xFF
        ctx.check(got[0x14D] == x, 'checksum', lambda: '%s: header checksum is %02x, must be %02x' % (what, got[0x14D], x))
        s = (sum(got) - got[0x14E] - got[0x14F]) & 0xFFFF
        ctx.check(got[0x14E] << 8 | got[0x14F] == s, 'checksum', lambda: '%s: global checksum is %02x%02x, must be %04x' % (what, got[0x14E], got[0x14F], s))
    elif kind == 'gba':
        x = (-(0x19 + sum(got[0xA0:0xBD]))) & 0xFF
        ctx.check(got[0xBD] == x, 'checksum', lambda: '%s: header complement is %02x, must be %02x' % (what, got[0xBD], x))
    elif kind == 'genesis':
        s = sum(got[i] << 8 | got[i + 1] for i in range(0x200, len(got) - 1, 2)) & 0xFFFF
        ctx.check(got[0x18E] << 8 | got[0x18F] == s, 'checksum', lambda: '%s: checksum is %02x%02x, must be %04x' % (what, got[0x18E], got[0x18F], s))
    elif kind == 'psx':
        body = len(got) - 0x800
        ctx.check(body >= 0 and body % 2048 == 0 or not linked, 'padding', lambda: '%s: file of %d bytes' % (what, len(got)))
        ctx.check(got[:8] == b'PS-X EXE', 'header', lambda: '%s: starts with %r' % (what, got[:8]))
        ctx.check(int.from_bytes(got[0x1C:0x20], 'little') == max(0, body), 'header', lambda: '%s: header says %d bytes, the image has %d' % (what, int.from_bytes(got[0x1C:0x20], 'little'), body))
    elif kind == 'nes':
        for suffix, lo, hi in (('.0.nl', 0x8000, 0xFFFF), ('.ram.nl', 0, 0x7FF)):
            want = sorted(b'$%04X#%s#' % (a, n.encode()) for n, a in labels.items() if lo <= a <= hi)
            text = w.read(outfile + suffix)
            ctx.check(text is not None, 'symbols', lambda: '%s: no symbol file %s' % (what, suffix))
            have = sorted(text.split(b'\r\n')[:-1]) if text else []
            ctx.check(have == want and (not text or text.endswith(b'\r\n')), 'symbols', lambda: '%s: %s lists %s instead of %s' % (what, suffix, [x for x in have if x not in want][:4], [x for x in want if x not in have][:4]))
    want = project.expected_files(fe, linked, labels)
    if want is not None and got != want['']:
        ctx.violate('image', '%s: the file has %s' % (what, project.diff(want[''], got)))


def run(plan, ctx):
    w = ctx.world
    if 'gb' in plan:
        return run_gb(plan, ctx)
    m = project.model_of(plan)
    if m is None or project.expected(plan, m) is None:
        raise Invalid('program')
    files, argv = project.lay_out(ctx, plan)
    fe = plan['fe']
    hist = plan['history']

    def pre():
        # earlier builds in the same process, to the same and to other destinations
        real = sys.argv
        for h in hist:
            sys.argv = [fe] + argv
            if h == 'drop':
                sys.argv = [fe] + argv[:-1] + ['other.bin']
            elif h == 'missing':
                sys.argv = [fe, 'not there.s', argv[-1]]
            elif h in ('undef', 'range'):
                with open('hist.s', 'w') as f:
                    f.write('%s:\n.db 1, 2, 3\n.dw %s\n' % (next(iter(m.labels), 'lab0'), 'never_defined' if h == 'undef' else next(iter(m.labels), 'lab0') + '+70000'))
                sys.argv = [fe, 'hist.s', argv[-1]]
            try:
                fe_main(fe)()
            except Exception:
                pass
        sys.argv = real
    rules = []
    if plan['chunks']:
        rules += [{'op': o, 'f': 't/*', 'nth': 0, 'count': 300, 'act': 'short', 'arg': plan['chunks']} for o in ('read', 'write')]
    if plan['eintr']:
        rules.insert(0, {'op': 'write', 'f': 't/*', 'nth': plan['eintr'] - 1, 'count': 2, 'act': 'err', 'arg': errno.EINTR})
    r = w.build(fe, argv, rules=rules, pre=pre if hist else None)
    if not r.ok:
        raise Invalid('does not build: %s %s' % (r.exc, r.msg))
    verify(ctx, fe, plan['dest'], m.link()[0], m.label_addresses(), w, 'a %s build' % fe)
    ctx.count('images checked: ' + fe)
    carts = [(s['d'], len(s['it'])) for s in plan['stmts'] if s['k'] == 'cart']
    return [fe, len(m.out) // 2, carts, hist, plan['chunks'], len(m.labels)]


def run_gb(plan, ctx):
    s = Sess(ctx, 'gameboy')
    st = plan['gb']
    links = []
    done = 0
    for x in sorted(plan['steps'], key=lambda x: x['at']) + [None]:
        at = min(x['at'], len(st)) if x else len(st)
        part = st[done:at]
        # a region must not be cut between calls
        if part:
            r = s.assemble(part)
            if not r.ok:
                raise Invalid('rejected: %r' % r)
            try:
                s.model.run(part)
                s.model.finish()
            except (Bad, Skip, KeyError):
                raise Invalid('program')
        done = at
        if x and x['k'] == 'bad':
            s.assemble('.cartridge_title never_a_label\n')
            continue
        image, why = s.model.link()
        r = s.link()
        if why == 'skip':
            links.append(('small', r.ok))
            continue
        if why == 'bad':
            if r.ok:
                ctx.violate('linked', 'a link with undefined or unrepresentable references succeeded')
            links.append('failed')
            continue
        if not r.ok:
            raise Invalid('does not link: %r' % r)
        links.append('linked')
        verify_gb(ctx, s, image, 'link %d' % len(links))
        ctx.count('images checked: gameboy session')
    if links[-1] != 'linked':
        raise Invalid('last link')
    return ['gb', links, [q['d'] for q in st if q['k'] == 'cart'], len(st)]


def verify_gb(ctx, s, image, what):
    w = ctx.world
    rules = []
    r = s.call(lambda: s.asm.save('gb.out'), rules=rules, disk=True)
    if not r.ok:
        raise Invalid('save')
    verify(ctx, 'cpu:gameboy', 'gb.out', image, {}, w, what)
