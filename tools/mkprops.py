#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
A = 'necroassembler/assembler.py'
S = 'necroassembler/statements.py'
M = 'necroassembler/macros.py'
T = 'necroassembler/tokenizer.py'
L = 'necroassembler/linker.py'
P = 'necroassembler/platforms/'
CPUS = ['necroassembler/cpu/%s.py' % c for c in (
    'intel8086', 'lr35902', 'mc68000', 'mips32', 'mos6502', 'powerpc', 'thumb', 'x86', 'z80')]
PLATS = [P + '%s.py' % c for c in ('gameboy', 'gba', 'genesis', 'nes', 'psx', 'sms',
                                   'i386_elf32', 'ppc_elf32', 'x86_64_elf64')]
props = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    props.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_text.py')).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(props), 'properties')
