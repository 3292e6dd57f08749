#!/usr/bin/env python3
"""Writes dst/wide.json: operand templates of every CPU that take a label.  Found by trying every mnemonic with every operand shape on the
repaired tree; a template is kept only if it obeys one of the rules below for a set of addresses, the others are listed for inspection.
  abs: label and number give the same bytes (or both are rejected)
  zp:  the same, but numbers below 0x100 have a shorter form that a label only gets when it is defined before (6502)
  rel: [field] the distance is stored in that field     fix: [field] the address is stored in that field
Run by hand: python3 -B tools/mkwide.py [cpu..]"""
import json
import multiprocessing
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('NECRO_REPO', '/repo'), V, V + '/stub']
sys.dont_write_bytecode = True
from dst.backends import B  # noqa: E402
from dst.props.c10 import form_of as form  # noqa: E402

REGS = {
    '6502': [], 'z80': ['A', 'B', 'C', 'D', 'E', 'H', 'L', 'BC', 'DE', 'HL', 'SP', 'IX', 'IY', 'NZ', 'Z', 'NC', 'PO', 'PE', 'P', 'M', '(HL)', '(SP)', '(C)'],
    'lr35902': ['A', 'B', 'C', 'D', 'E', 'H', 'L', 'BC', 'DE', 'HL', 'NZ', 'Z', 'NC', '(HL)', '(C)'],
    '68000': ['d0', 'a0', '(a0)', '-(a1)'], '8086': ['AL', 'AX', 'BX', 'ES'], 'x86': ['AL', 'AX', 'BX', 'EAX', 'EBX', 'RAX', 'RBX'],
    'mips32': [], 'thumb': [], 'ppc': []}


def shapes(name):
    R = REGS[name]
    if name == '6502':
        return ['{}', '#{}', '{},X', '{},Y', '({})', '({},X)', '({}),Y']
    if name in ('z80', 'lr35902'):
        mem = ['({})', '{}', '(IX+{})', '(IY+{})', '($FF00+{})']
        return mem + [m + ',' + r for m in mem for r in R] + [r + ',' + m for m in mem for r in R]
    if name in ('8086', 'x86'):
        mem = ['[{}]', '[BX + {}]', '[SI + {}]', '[BP + DI + {}]', 'BYTE [{}]', 'WORD [{}]']
        return ['{}'] + [r + ',' + m for m in mem + ['{}'] for r in R] + [m + ',' + r for m in mem for r in R] + mem + [m + ',5' for m in mem]
    if name == '68000':
        mem = ['{}', '#{}', '({}).w', '({}).l', '{}.w', '{}.l', '({},a0)', '({},pc)', '({},a0,d1)', '({},pc,d1)', '{}(a0)', '({},a0,d1.w)', '({},pc,d1.l)']
        return mem + [m + ',' + r for m in mem for r in R] + [r + ',' + m for m in mem for r in R] + ['#5,' + m for m in mem]
    if name == 'mips32':
        return ['{}', '$8,{}', '$8,$9,{}', '$8,{}($9)', '$8,{} ($9)']
    if name == 'thumb':
        return ['{}', 'r0,{}', 'r0,#{}', 'r0,r1,#{}', 'r0,[r1,#{}]']
    return ['{}', 'r3,{}', 'r3,r4,{}', 'r3,{}(r4)', 'cr0,{}', '12,2,{}', '12,0,{}', 'r3,{} (r4)']


VALUES = [0, 4, 0x10, 0x7C, 0x80, 0xFF, 0x100, 0x104, 0x1000, 0x1004, 0x1002, 0x1040, 0x1044, 0x1080, 0x1084, 0x10F0, 0x1200, 0x1204, 0x1400, 0x1800, 0x2000, 0x2008, 0xF80, 0xF84, 0x1F40, 0x7FFC, 0x7FFF, 0x8000, 0x8004, 0x9000,
          0xFFFC, 0xFFFF, 0x10000, 0x12344, 0xFF8000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFC, 0xFFFFFFFF]
PS = (0x1000, 0x1004, 0x8000, 0x20)
EXTRA = {'x86': [[2, 4, 31, 0, 0, 6, -1 << 31, (1 << 31) - 1, 1], [1, 4, 31, 0, 0, 5, -1 << 31, (1 << 31) - 1, 1], [2, 2, 15, 0, 0, 4, -1 << 15, (1 << 15) - 1, 1], [1, 2, 15, 0, 0, 3, -1 << 15, (1 << 15) - 1, 1]],
         'ppc': [[0, 4, 25, 2, 2, None, 0, (1 << 24) - 1, 4], [0, 4, 15, 2, 2, None, 0, (1 << 14) - 1, 4]]}


def fields(b):
    out = []
    for f in b.forms:
        if f.rel is not None and f.kind is None:
            x = [f.off, f.size, f.hi, f.lo, f.shift, f.rel, f.mn, f.mx, f.align]
            if x not in out:
                out.append(x)
    return out + EXTRA.get(b.name, [])


def attempt(b, pre, text, post=''):
    a = b.cls()()
    try:
        a.assemble(pre)
        n = len(a.assembled_bytes)
        a.assemble(text)
        raw = bytes(a.assembled_bytes[n:])
        a.assemble(post)
        a.link()
        return bytes(a.assembled_bytes[n:n + len(raw)]), raw
    except Exception:
        return None, None


def classify(args):
    name, ctx, t = args
    b = B[name]
    num = lambda v: b.number(v, 'h')      # noqa: E731
    rows = []
    for P in PS[:2]:
        for v in VALUES:
            lit = attempt(b, ctx + '.org %s\n' % num(P), t.format(num(v)) + '\n')[0]
            after, raw = attempt(b, ctx + '.org %s\n' % num(P), t.format('labz') + '\n', '.org %s\nlabz:\n' % num(v))
            before, _ = attempt(b, ctx + '.org %s\nlabz:\n.org %s\n' % (num(v), num(P)), t.format('labz') + '\n')
            rows.append((P, v, lit, after, before, raw))
    if not any(r[3] for r in rows):
        return None
    if all(l == a == c for _, _, l, a, c, _ in rows):
        return 'abs', None
    if all(l == c and (l == a or v < 0x100) for _, v, l, a, c, _ in rows):
        return 'zp', None
    for x in fields(b):
        f = form(x)
        good = bad = 0
        for P, v, l, a, c, raw in rows:
            if a != c:
                bad += 1
                break
            origin = 0 if f.rel is None else P + 4 & ~2 if f.rel == 'pc4' else P + f.rel
            verdict = f.verdict(v - origin, v)
            if raw is None or verdict == 'bad':
                bad += a is not None or verdict == 'ok'
                continue
            if f.off + f.size > len(raw):
                bad += 1
                break
            if verdict != 'ok':
                continue
            want = bytearray(raw)
            f.store(want, 0, v - origin, b.big)
            good += bytes(want) == a
            bad += bytes(want) != a
        if good and not bad:
            return 'rel' if f.rel is not None else 'fix', x
    return 'odd', [(hex(P), hex(v), l and l.hex(), a and a.hex(), c and c.hex()) for P, v, l, a, c, _ in rows if not l == a == c][:4]


def merged(entries):
    """the contexts that have the same templates share one entry"""
    out = {}
    for rule, field, ctx, ts in entries:
        out.setdefault(json.dumps([rule, field, ts]), [rule, field, [], ts])[2].append(ctx)
    return list(out.values())


def main():
    out = {}
    if sys.argv[1:]:
        with open(V + '/dst/wide.json') as f:
            out = json.load(f)
    odd = []
    with multiprocessing.Pool(8) as pool:
        for name in sys.argv[1:] or REGS:
            b = B[name]
            jobs = []
            for ctx in [''] if name != 'x86' else ['', '.bits 32\n', '.bits 16\n']:
                a = b.cls()()
                a.assemble(ctx)
                for m in sorted(a.instructions):
                    for s in shapes(name):
                        t = m + ' ' + s
                        if name == 'lr35902' and ('SP' in t.split(None, 1)[1] or m == 'LDHL'):
                            continue
                        try:
                            a.assemble(t.format('labz') + '\n')
                        except Exception:
                            continue
                        if a.labels_addresses and all(x.label == 'labz' for x in a.labels_addresses.values()):
                            jobs.append((name, ctx, t))
                        a.labels_addresses.clear()
            groups = {}
            for (n, ctx, t), r in zip(jobs, pool.map(classify, jobs, 4)):
                if r is None:
                    continue
                if r[0] == 'odd':
                    odd.append((name, ctx, t, r[1]))
                    continue
                groups.setdefault(json.dumps([r[0], r[1], ctx]), []).append(t)
            out[name] = merged([json.loads(k) + [v] for k, v in groups.items()])
            print(name, {k: len(v) for k, v in groups.items()}, flush=True)
    for o in odd:
        print('odd', o)
    with open(V + '/dst/wide.json', 'w') as f:
        f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in out.items()) + '\n}\n')


if __name__ == '__main__':
    main()
