"""What the harness knows about each assembler: how to write numbers and a hand-written table of instruction forms.

The tables were written from the architecture manuals; nothing here is computed by the code under test.

Form (an instruction taking one reference):
    text   template, {0} is the operand
    base   bytes with the operand field zero (hex)
    off    byte offset of the unit that holds the field
    size   size of that unit in bytes (read with the CPU's byte order)
    hi, lo bit range of the field in that unit
    shift  how far the value is shifted right before it is stored
    rel    None: the address itself; int: distance from (address of the instruction + rel)
    mn,mx  values accepted
    align  required alignment of the target address
    rep    values that the field can represent; outside of it the link has to fail.  Values in rep but outside
           mn..mx, and values in `skip`, are not generated (accepting or rejecting them is both fine).
    lit    False: no numeric operand is generated (the encodings of literals are property C18, not simulated)
    litmax highest literal generated
    glue   the operand is part of a longer name token: no define or macro argument there
    modes  {mode: Form} where the encoding depends on the mode of the assembler (x86 .bits)
    kinds  extra behaviour: 'zp' 6502 zero page shortening, 'bl' thumb pair, 'hi16'/'lo16' mips halves
"""
import importlib


class Form:
    __slots__ = ('text', 'base', 'off', 'size', 'hi', 'lo', 'shift', 'rel', 'mn', 'mx', 'align', 'rep', 'skip',
                 'kind', 'zp', 'lit', 'litmax', 'glue', 'modes')

    def __init__(self, text, base, off, size, hi, lo, shift=0, rel=None, mn=0, mx=0, align=1, rep=None, skip=(),
                 kind=None, zp=None, lit=True, litmax=None, glue=False, modes=None):
        self.text = text
        self.base = bytes.fromhex(base)
        self.off, self.size, self.hi, self.lo, self.shift = off, size, hi, lo, shift
        self.rel, self.mn, self.mx, self.align = rel, mn, mx, align
        self.rep = rep or (mn, mx)
        self.skip = skip
        self.kind = kind
        self.zp = zp
        self.lit, self.litmax, self.glue = lit, litmax, glue
        self.modes = modes or {}

    def verdict(self, value, target):
        """'ok', 'bad' (the link has to fail) or 'skip'."""
        if target < 0:
            return 'skip'
        if any(a <= value <= b for a, b in self.skip):
            return 'skip'
        if value < self.rep[0] or value > self.rep[1]:
            return 'bad'
        if target % self.align:
            # mips j/jal: a known finding with its own directed run (see known_findings.txt)
            return 'skip' if self.kind == 'j26' else 'bad'
        if value < self.mn or value > self.mx:
            return 'skip'
        return 'ok'

    def store(self, out, at, value, big):
        if self.kind == 'hi16':
            value >>= 16
        elif self.kind == 'lo16':
            value &= 0xFFFF
        elif self.kind == 'j26':
            value &= 0x0FFFFFFF
        if self.kind == 'bl':
            h = (value >> 12) & 0x7FF
            l = (value >> 1) & 0x7FF
            out[at] |= h & 0xFF
            out[at + 1] |= h >> 8
            out[at + 2] |= l & 0xFF
            out[at + 3] |= l >> 8
            return [at, at + 1, at + 2, at + 3]
        order = 'big' if big else 'little'
        p = at + self.off
        unit = int.from_bytes(out[p:p + self.size], order)
        width = self.hi - self.lo + 1
        unit |= ((value >> self.shift) & ((1 << width) - 1)) << self.lo
        out[p:p + self.size] = unit.to_bytes(self.size, order)
        return list(range(p, p + self.size))


def abs16(t, b, off=1, **k):
    return Form(t, b + '0000', off, 2, 15, 0, mn=0, mx=0xFFFF, **k)


def abs8(t, b, off=1, **k):
    return Form(t, b + '00', off, 1, 7, 0, mn=0, mx=0xFF, **k)


def rel8(t, b, rel=2, off=1, **k):
    return Form(t, b + '00', off, 1, 7, 0, rel=rel, mn=-128, mx=127, **k)


class Backend:
    def __init__(self, name, module, cls, big, num, plain, forms, fill=0, ram=True, bad=(), org_max=0xF000,
                 main=None, unit=1, mode=None, plain_modes=None):
        self.name, self.module, self.clsname, self.big = name, module, cls, big
        self.num = num          # (hex prefix, bin prefix)
        self.plain = [(t, bytes.fromhex(b)) for t, b in plain]
        self.forms = forms
        self.fill = fill
        self.bad = list(bad)
        self.org_max = org_max
        self.main = main
        self.unit = unit
        self.mode = mode        # initial one
        self.plain_modes = {m: {t: bytes.fromhex(x) for t, x in d.items()} for m, d in (plain_modes or {}).items()}

    def cls(self):
        return getattr(importlib.import_module(self.module), self.clsname)

    def number(self, v, fmt):
        c = ['%d' % v]
        if v < 0:
            return c[0]
        x, intel, at = '%X' % v, self.clsname in ('AssemblerIntel8086', 'AssemblerX86'), self.clsname in ('AssemblerMOS6502', 'AssemblerNES', 'AssemblerLR35902', 'AssemblerGameboy')
        # all the notations of the same number; which one depends on the number
        if fmt == 'h':
            c = [self.num[0] + x, self.num[0] + x, self.num[0] + x.lower()]
            if intel:
                c += ['0h' + x, '$0' + x] + [x + 'h'] * (x.isdigit())
        elif fmt == 'b' and self.num[1]:
            c = [self.num[1] + format(v, 'b')]
            if intel:
                c += ['0y%s' % format(v, 'b'), '0o%o' % v, '0q%o' % v] + (['%o%s' % (v, 'oq'[v & 1]), format(v, 'b') + 'by'[v >> 1 & 1]] if v else [])
            elif at:
                c += ['@%o' % v]
        elif intel and fmt == 'd' and v:
            c += c + ['0d%d' % v, '%dd' % v]
        return c[(v ^ v >> 4) * 7 // 3 % len(c)]


B = {}


def add(b):
    B[b.name] = b
    return b


def zp(t, absb, zpb):
    return abs16(t, absb, kind='zp', zp=bytes.fromhex(zpb))


F6502 = [
    abs16('JMP {0}', '4C'), abs16('JSR {0}', '20'), abs16('JMP ( {0} )', '6C'),
    zp('LDA {0}', 'AD', 'A5'), zp('STA {0}', '8D', '85'), zp('LDX {0}', 'AE', 'A6'), zp('INC {0}', 'EE', 'E6'),
    zp('LDA {0},X', 'BD', 'B5'), zp('STA {0},X', '9D', '95'), zp('LDX {0},Y', 'BE', 'B6'), zp('ADC {0}', '6D', '65'),
    zp('LDY {0}', 'AC', 'A4'), zp('STX {0}', '8E', '86'), zp('STY {0}', '8C', '84'), zp('BIT {0}', '2C', '24'),
    zp('CMP {0}', 'CD', 'C5'), zp('DEC {0},X', 'DE', 'D6'), zp('ASL {0}', '0E', '06'), zp('EOR {0}', '4D', '45'),
    abs16('LDA {0},Y', 'B9'), abs16('STA {0},Y', '99'), abs16('CMP {0},Y', 'D9'),
    abs8('LDA #{0}', 'A9'), abs8('LDX #{0}', 'A2'), abs8('LDY #{0}', 'A0'), abs8('CMP #{0}', 'C9'), abs8('AND #{0}', '29'),
    rel8('BNE {0}', 'D0'), rel8('BEQ {0}', 'F0'), rel8('BCC {0}', '90'), rel8('BCS {0}', 'B0'), rel8('BPL {0}', '10'),
    rel8('BMI {0}', '30'), rel8('BVC {0}', '50'), rel8('BVS {0}', '70'),
]
P6502 = [('NOP', 'EA'), ('INX', 'E8'), ('RTS', '60'), ('LDA #$12', 'A912'), ('LDX #255', 'A2FF'), ('STA $2000', '8D0020'),
         ('LDA ($40),Y', 'B140'), ('LDA $10', 'A510'), ('CLC', '18'), ('ROL A', '2A'), ('JMP $C000', '4C00C0')]
add(Backend('6502', 'necroassembler.cpu.mos6502', 'AssemblerMOS6502', False, ('$', '%'), P6502, F6502,
            bad=['LDA #{0},X', 'LDA {0},{0}', 'JMP', 'STA #{0}', 'LDA ({0},Y)', 'BNE', 'LDA # {0}', 'FROB {0}',
                 'LDA #$1FF', 'LDX #{0},Y']))
add(Backend('nes', 'necroassembler.platforms.nes', 'AssemblerNES', False, ('$', '%'), P6502, F6502,
            bad=['LDA #{0},X', 'JMP', 'FROB {0}', 'LDA #300'], main='main'))

FZ80 = [
    abs16('JP {0}', 'C3'), abs16('JP NZ,{0}', 'C2'), abs16('JP Z,{0}', 'CA'), abs16('CALL {0}', 'CD'),
    abs16('CALL NZ,{0}', 'C4'), abs16('LD HL,{0}', '21'), abs16('LD BC,{0}', '01'), abs16('LD DE,{0}', '11'),
    abs16('LD SP,{0}', '31'), abs16('LD A,({0})', '3A'), abs16('LD ({0}),A', '32'), abs16('LD ({0}),HL', '22'),
    abs16('LD HL,({0})', '2A'), abs16('LD IX,{0}', 'DD21', 2), abs16('LD IY,{0}', 'FD21', 2),
    abs16('LD BC,({0})', 'ED4B', 2), abs16('LD ({0}),DE', 'ED53', 2),
    abs8('LD A,{0}', '3E'), abs8('LD B,{0}', '06'), abs8('LD L,{0}', '2E'), abs8('CP {0}', 'FE'), abs8('ADD A,{0}', 'C6'),
    abs8('LD (HL),{0}', '36'), abs8('XOR {0}', 'EE'),
    rel8('JR {0}', '18'), rel8('JR NZ,{0}', '20'), rel8('JR Z,{0}', '28'), rel8('JR NC,{0}', '30'), rel8('DJNZ {0}', '10'),
]
PZ80 = [('NOP', '00'), ('INC A', '3C'), ('RET', 'C9'), ('LD A,$12', '3E12'), ('LD HL,$1234', '213412'), ('PUSH BC', 'C5'),
        ('SET 0,A', 'CBC7'), ('LD A,(HL)', '7E'), ('HALT', '76'), ('JP $4000', 'C30040'), ('LDIR', 'EDB0'), ("EX AF,AF'", '08'), ("LD B,'z'", '067A')]
ZBAD = ['LD A,{0},{0}', 'JP', 'LD Q,Q,{0}', 'FROB {0}', 'LD A,$1FF', 'CALL {0},{0}', 'LD ({0}),({0})', 'SET 9,A']
add(Backend('z80', 'necroassembler.cpu.z80', 'AssemblerZ80', False, ('$', '%'), PZ80, FZ80, bad=ZBAD))
add(Backend('sms', 'necroassembler.platforms.sms', 'AssemblerSegaMasterSystem', False, ('$', '%'), PZ80, FZ80, bad=ZBAD))

FLR = [
    abs16('JP {0}', 'C3'), abs16('JP NZ,{0}', 'C2'), abs16('JP C,{0}', 'DA'), abs16('CALL {0}', 'CD'), abs16('CALL Z,{0}', 'CC'),
    abs16('LD HL,{0}', '21'), abs16('LD BC,{0}', '01'), abs16('LD DE,{0}', '11'), abs16('LD SP,{0}', '31'),
    abs16('LD A,({0})', 'FA', lit=False), abs16('LD ({0}),A', 'EA', lit=False), abs16('LD ({0}),SP', '08'),
    abs8('LD A,{0}', '3E'), abs8('LD B,{0}', '06'), abs8('LD (HL),{0}', '36'), abs8('CP {0}', 'FE'), abs8('AND {0}', 'E6'),
    abs8('LDH ({0}),A', 'E0'), abs8('LDH A,({0})', 'F0'),
    rel8('JR {0}', '18'), rel8('JR NZ,{0}', '20'), rel8('JR Z,{0}', '28'), rel8('JR C,{0}', '38'),
]
PLR = [('NOP', '00'), ('INC A', '3C'), ('RET', 'C9'), ('LD A,$12', '3E12'), ('LD HL,$1234', '213412'), ('PUSH BC', 'C5'),
       ('SWAP A', 'CB37'), ('LD A,(HL+)', '2A'), ('HALT', '76'), ('JP $4000', 'C30040'), ('EI', 'FB')]
LBAD = ['LD A,{0},{0}', 'JP', 'FROB {0}', 'JR NZ,NZ', 'LD A,$1FF', 'LD ({0}),BC', 'LD BC,{0},A', 'PUSH {0}', 'INC {0}',
        'LD AF,{0}', 'SUB A,{0},{0}']
add(Backend('lr35902', 'necroassembler.cpu.lr35902', 'AssemblerLR35902', False, ('$', '%'), PLR, FLR, bad=LBAD))
add(Backend('gameboy', 'necroassembler.platforms.gameboy', 'AssemblerGameboy', False, ('$', '%'), PLR, FLR, bad=LBAD))

F8086 = [
    abs16('MOV AX,{0}', 'B8'), abs16('MOV SI,{0}', 'BE'), abs16('MOV DI,{0}', 'BF'), abs16('ADD AX,{0}', '05'),
    abs16('CMP AX,{0}', '3D'), abs16('MOV AX,[{0}]', 'A1'), abs16('MOV [{0}],AX', 'A3', litmax=255),
    abs8('MOV AL,{0}', 'B0'), abs8('MOV BH,{0}', 'B7'), abs8('ADD AL,{0}', '04'), abs8('CMP AL,{0}', '3C'), abs8('INT {0}', 'CD', skip=((3, 3),)),
    Form('JMP {0}', 'E90000', 1, 2, 15, 0, rel=3, mn=-32768, mx=32767),
    Form('CALL {0}', 'E80000', 1, 2, 15, 0, rel=3, mn=-32768, mx=32767),
    rel8('JZ {0}', '74'), rel8('JNZ {0}', '75'), rel8('JB {0}', '72'), rel8('JG {0}', '7F'), rel8('LOOP {0}', 'E2'), rel8('JCXZ {0}', 'E3'),
    Form('MOV DI,[BX + {0}]', '8BBF0000', 2, 2, 15, 0, mn=0, mx=0x7FFF, rep=(0, 0xFFFF)),
]
P8086 = [('NOP', '90'), ('RET', 'C3'), ('MOV AX,0x1234', 'B83412'), ('INT 0x10', 'CD10'), ('PUSH AX', '50'), ('CLD', 'FC'),
         ('MOV AL,7', 'B007'), ('INC CX', '41'), ('XOR AX,AX', '31C0'), ('STOSB', 'AA'), ('HLT', 'F4')]
add(Backend('8086', 'necroassembler.cpu.intel8086', 'AssemblerIntel8086', False, ('0x', '0b'), P8086, F8086,
            bad=['MOV {0},AX,BX', 'JMP', 'FROB {0}', 'ADD {0},{0}', 'MOV AL,[{0}', 'ADD AX', 'MOV AX,0x12345',
                 'INT', 'MOV [{0}],{0}', 'PUSH {0},{0}']))

def x86(text, op, op16, size16=None, rel=False, **k):
    """op: bytes in 32 and 64 bit mode, op16: in 16 bit mode; the operand follows"""
    def form(op, size):
        n = len(op) // 2
        if rel:
            return dict(base=op + '00' * size, off=n, size=size, hi=8 * size - 1, lo=0, rel=n + size, mn=-(1 << 8 * size - 1), mx=(1 << 8 * size - 1) - 1)
        return dict(base=op + '00' * size, off=n, size=size, hi=8 * size - 1, lo=0, mn=0, mx=(1 << 8 * size) - 1)
    size = 2 if ' AX' in text else 4
    return Form(text, modes={16: Form(text, **form(op16, 2 if rel else size), **k)}, **form(op, size), **k)


FX86 = [
    x86('MOV EAX,{0}', 'B8', '66B8'), x86('MOV EBX,{0}', 'BB', '66BB'), x86('JMP {0}', 'E9', 'E9', rel=True), x86('CALL {0}', 'E8', 'E8', rel=True), x86('MOV AX,{0}', '66B8', 'B8'),
    x86('ADD EAX,{0}', '05', '6605'), x86('JZ {0}', '0F84', '0F84', rel=True, lit=False), x86('ADD AX,{0}', '6605', '05'),
]
PX86 = [('NOP', '90'), ('RET', 'C3'), ('MOV EAX,0x12345678', 'B878563412'), ('CLD', 'FC'), ('MOV EBX,7', 'BB07000000'), ('MOV AX,5', '66B80500'), ('XOR EAX,EAX', '31C0'), ('HLT', 'F4')]
add(Backend('x86', 'necroassembler.cpu.x86', 'AssemblerX86', False, ('0x', '0b'), PX86, FX86,
            bad=['MOV {0},EAX,{0}', 'JMP', 'FROB {0}', 'MOV EAX,0x123456789', 'CALL', 'MOV [{0}'], org_max=0x7000, mode=64,
            plain_modes={16: {'MOV EAX,0x12345678': '66B878563412', 'MOV EBX,7': '66BB07000000', 'MOV AX,5': 'B80500', 'XOR EAX,EAX': '6631C0'}}))

FMIPS = [
    Form('beq $t0,$t1,{0}', '11090000', 0, 4, 15, 0, 2, rel=4, mn=-131072, mx=131071, align=4),
    Form('bne $t0,$0,{0}', '15000000', 0, 4, 15, 0, 2, rel=4, mn=-131072, mx=131071, align=4),
    Form('bgtz $t0,{0}', '1D000000', 0, 4, 15, 0, 2, rel=4, mn=-131072, mx=131071, align=4),
    Form('j {0}', '08000000', 0, 4, 25, 0, 2, mn=0, mx=0xFFFFFFFF, align=4, kind='j26'),
    Form('jal {0}', '0C000000', 0, 4, 25, 0, 2, mn=0, mx=0xFFFFFFFF, align=4, kind='j26'),
    Form('addi $t0,$0,{0}', '20080000', 0, 4, 15, 0, mn=0, mx=0x7FFF, rep=(0, 0xFFFF)),
    Form('ori $t1,$t1,{0}', '35290000', 0, 4, 15, 0, mn=0, mx=0xFFFF, litmax=0x7FFF),
    Form('addiu $t1,$t1,{0}', '25290000', 0, 4, 15, 0, mn=0, mx=0x7FFF, rep=(0, 0xFFFF)),
    Form('lui $t0,{0}', '3C080000', 0, 4, 15, 0, mn=0, mx=0xFFFFFFFF, kind='hi16'),
    Form('llo $t0,{0}', '60080000', 0, 4, 15, 0, mn=0, mx=0xFFFFFFFF, kind='lo16'),
    Form('sll $t0,$t0,{0}', '00084000', 0, 4, 10, 6, mn=0, mx=31),
]
PMIPS = [('addi $t0,$t1,5', '21280005'), ('addu $t0,$t1,$t2', '012A4021'), ('jr $ra', '03E00008'), ('lw $t0,4($sp)', '8FA80004'),
         ('sw $t0,-4($sp)', 'AFA8FFFC'), ('syscall', '0000000C'), ('lui $t0,0x12340000', '3C081234'), ('slt $v0,$a0,$a1', '0085102A')]
MBAD = ['addi $t0,{0}', 'beq $t0,{0}', 'FROB {0}', 'j', 'addi $t0,$0,0x12345', 'lw $t0,{0}($sp)', 'sll $t0,$t0,99', 'j {0},{0}', 'addi {0},$0,{0}',
        'lb $t0,{0}($t1)']
add(Backend('mips32', 'necroassembler.cpu.mips32', 'AssemblerMIPS32', True, ('0x', '0b'), PMIPS, FMIPS, bad=MBAD, unit=4))


def swap4(h):
    b = bytes.fromhex(h)
    return b''.join(b[i:i + 4][::-1] for i in range(0, len(b), 4)).hex()


FPSX = []
for f in FMIPS:
    g = Form.__new__(Form)
    for s in Form.__slots__:
        setattr(g, s, getattr(f, s))
    g.base = f.base[::-1]
    FPSX.append(g)
add(Backend('psx', 'necroassembler.platforms.psx', 'AssemberPSX', False, ('0x', '0b'), [(t, swap4(h)) for t, h in PMIPS], FPSX,
            bad=MBAD, main='main', unit=4))

F68K = [
    Form('bne.w {0}', '66000000', 2, 2, 15, 0, rel=2, mn=-32768, mx=32767, align=2),
    Form('beq {0}', '67000000', 2, 2, 15, 0, rel=2, mn=-32768, mx=32767, align=2),
    Form('bne.b {0}', '6600', 0, 2, 7, 0, rel=2, mn=-128, mx=127, align=2, skip=((-1, 0),)),
    Form('dbra d1,{0}', '51C90000', 2, 2, 15, 0, rel=2, mn=-32768, mx=32767, align=2),
    Form('jmp {0}', '4EF900000000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
    Form('jsr {0}', '4EB900000000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
    Form('jmp {0}.w', '4EF80000', 2, 2, 15, 0, mn=0, mx=0x7FFF, rep=(0, 0xFFFF), glue=True),
    Form('lea {0},a0', '41F900000000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
    Form('lea ({0},PC),a1', '43FA0000', 2, 2, 15, 0, rel=2, mn=-32768, mx=32767),
    Form('lea ({0},PC,d0.w),a1', '43FB0000', 2, 2, 7, 0, rel=2, mn=-128, mx=127),
    Form('move.w {0},d0', '303900000000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
    Form('move.w #{0},d0', '303C0000', 2, 2, 15, 0, mn=0, mx=0xFFFF),
    Form('move.l #{0},d0', '203C00000000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
    Form('move.b #{0},d0', '103C0000', 2, 2, 7, 0, mn=0, mx=0xFF),
    Form('move.w d0,{0}', '33C000000000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
    Form('addi.w #{0},d1', '06410000', 2, 2, 15, 0, mn=0, mx=0xFFFF),
    Form('cmpi.l #{0},d1', '0C8100000000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
    Form('move.w ({0},a0),d1', '32280000', 2, 2, 15, 0, mn=0, mx=0x7FFF, rep=(0, 0xFFFF)),
    Form('move.w #$1234,{0}', '33FC123400000000', 4, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
    Form('move.l {0},$1000', '23F90000000000001000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
]
P68K = [('nop', '4E71'), ('rts', '4E75'), ('move.w #$1234,d0', '303C1234'), ('move.l d0,d1', '2200'), ('move.w (a0)+,d0', '3018'),
        ('jmp $1000', '4EF900001000'), ('move.w d0,-(a7)', '3F00'), ('lea $2000,a0', '41F900002000')]
KBAD = ['move.l {0},#5', 'FROB {0}', 'bne', 'move.b #$1FF,d0', 'move.w #{0},#{0}', 'lea {0},d0', 'jmp #{0}', 'movea.w {0},d0',
        'dbra {0},{0}', 'addi.w #{0},#2', 'lea #{0},a0']
add(Backend('68000', 'necroassembler.cpu.mc68000', 'AssemblerMC68000', True, ('$', '%'), P68K, F68K, bad=KBAD, unit=2))

FTHUMB = [
    Form('b {0}', '00E0', 0, 2, 10, 0, 1, rel=4, mn=-2048, mx=2047, align=2),
    Form('beq {0}', '00D0', 0, 2, 7, 0, 1, rel=4, mn=-256, mx=255, align=2),
    Form('bne {0}', '00D1', 0, 2, 7, 0, 1, rel=4, mn=-256, mx=255, align=2),
    Form('blt {0}', '00DB', 0, 2, 7, 0, 1, rel=4, mn=-256, mx=255, align=2),
    Form('bl {0}', '00F000F8', 0, 4, 0, 0, rel=4, mn=-4194304, mx=4194303, align=2, kind='bl', lit=False),
    Form('ldr r1,[pc,#{0}]', '0049', 0, 2, 7, 0, 2, rel='pc4', mn=0, mx=127, align=4, rep=(0, 1020)),
]
PTHUMB = [('mov r0,#5', '0520'), ('add r0,r1,r2', '8818'), ('lsl r0,r1,#3', 'C800'), ('cmp r0,#255', 'FF28'), ('bx lr', '7047'),
          ('swi 17', '11DF'), ('mul r0,r1', '4843'), ('and r2,r3', '1A40')]
add(Backend('thumb', 'necroassembler.cpu.thumb', 'AssemblerThumb', False, ('0x', '0b'), PTHUMB, FTHUMB,
            bad=['mov r0,{0}', 'FROB {0}', 'b', 'mov r9,#1', 'mov r0,#256', 'beq {0},{0}', 'ldr r1,[r9,#{0}]', 'bl {0},{0}', 'ldr r1,[pc,#{0}', 'add r0,#{0}'],
            unit=2, org_max=0x7000))

FPPC = [
    Form('b {0}', '48000000', 0, 4, 25, 2, 2, rel=0, mn=-(1 << 23), mx=(1 << 23) - 1, align=4, lit=False),
    Form('bl {0}', '48000001', 0, 4, 25, 2, 2, rel=0, mn=-(1 << 23), mx=(1 << 23) - 1, align=4, lit=False),
    Form('beq {0}', '41820000', 0, 4, 15, 2, 2, rel=0, mn=-8192, mx=8191, align=4, rep=(-32768, 32767), lit=False),
    Form('bne {0}', '40820000', 0, 4, 15, 2, 2, rel=0, mn=-8192, mx=8191, align=4, rep=(-32768, 32767), lit=False),
    Form('bdnz {0}', '42000000', 0, 4, 15, 2, 2, rel=0, mn=-8192, mx=8191, align=4, rep=(-32768, 32767), lit=False),
    Form('li r3,{0}', '38600000', 0, 4, 15, 0, mn=0, mx=0x7FFF, rep=(0, 0xFFFF)),
    Form('addi r3,r4,{0}', '38640000', 0, 4, 15, 0, mn=0, mx=0x7FFF, rep=(0, 0xFFFF)),
    Form('ori r3,r4,{0}', '60830000', 0, 4, 15, 0, mn=0, mx=0xFFFF),
    Form('lis r3,{0}', '3C600000', 0, 4, 15, 0, mn=0, mx=0xFFFF),
    Form('ba {0}', '48000002', 0, 4, 25, 2, 2, mn=0, mx=(1 << 24) - 1, align=4, rep=(0, (1 << 25) - 1), lit=False),
]
PPPC = [('nop', '60000000'), ('blr', '4E800020'), ('addi r3,r4,5', '38640005'), ('add r3,r4,r5', '7C642A14'), ('li r5,0x1234', '38A01234'),
        ('ori r3,r4,7', '60830007')]
add(Backend('ppc', 'necroassembler.cpu.powerpc', 'AssemblerPowerPC', True, ('0x', None), PPPC, FPPC,
            bad=['li {0}', 'FROB {0}', 'addi r3,{0}', 'b', 'li r3,0x12345', 'addi r99,r4,{0}', 'add r3,r4,{0}', 'b {0},{0}', 'beq {0},{0},{0}'], unit=4))


# ---- a client of the framework written for the harness, both byte orders --------------------------------------------
def sim_class(big, module_assembler=None):
    from necroassembler import Assembler, opcode
    from necroassembler.utils import pack_byte

    def enc(v, n):
        return bytes((v >> (8 * i)) & 0xFF for i in (range(n - 1, -1, -1) if big else range(n)))

    class AssemblerSim(Assembler):
        hex_prefixes = ('0x',)
        bin_prefixes = ('0b',)
        big_endian = big
        fill_value = 0x5A

        @opcode('NIL')
        def _nil(self, instr):
            if len(instr.tokens) == 1:
                return b'\x01'

        @opcode('ONE')
        def _one(self, instr):
            if len(instr.tokens) == 2:
                return b'\x02' + enc(self.parse_integer_or_label(instr.tokens[1], size=1, bits_size=8, offset=1), 1)

        @opcode('TWO')
        def _two(self, instr):
            if len(instr.tokens) == 2:
                return b'\x03' + enc(self.parse_integer_or_label(instr.tokens[1], size=2, bits_size=16, offset=1), 2)

        @opcode('THREE')
        def _three(self, instr):
            if len(instr.tokens) == 2:
                return b'\x04' + enc(self.parse_integer_or_label(instr.tokens[1], size=3, bits_size=24, offset=1), 3)

        @opcode('FAR')
        def _far(self, instr):
            if len(instr.tokens) == 2:
                return b'\x05\x00' + enc(self.parse_integer_or_label(instr.tokens[1], size=4, bits_size=32, offset=2), 4)

        @opcode('NIB')
        def _nib(self, instr):
            # a 12 bit field in the middle of 24 bits
            if len(instr.tokens) == 2:
                v = self.parse_integer_or_label(instr.tokens[1], size=3, bits_size=12, bits=(15, 4), offset=0)
                return enc(0x060000 | (v << 4) | 0x9, 3)

        @opcode('REL')
        def _rel(self, instr):
            if len(instr.tokens) == 2:
                v = self.parse_integer_or_label(instr.tokens[1], size=2, bits_size=16, offset=1, relative=self.pc + 3)
                return b'\x07' + enc(v & 0xFFFF, 2)

        @opcode('SCL')
        def _scl(self, instr):
            # word distance in 12 of 16 bits, target aligned to 4
            if len(instr.tokens) == 2:
                v = self.parse_integer_or_label(instr.tokens[1], size=2, bits_size=14, bits=(11, 0), alignment=4,
                                                filter=lambda x: x >> 2, relative=self.pc + 2)
                return enc(0x8000 | ((v >> 2) & 0xFFF), 2)

        @opcode('PAIR')
        def _pair(self, instr):
            # two operands, two fields
            if len(instr.tokens) == 3:
                a = self.parse_integer_or_label(instr.tokens[1], size=2, bits_size=16, offset=1)
                b = self.parse_integer_or_label(instr.tokens[2], size=1, bits_size=8, offset=3)
                return b'\x08' + enc(a, 2) + enc(b, 1)

        @opcode('BOOM')
        def _boom(self, instr):
            self.parse_integer_or_label(instr.tokens[1], size=2, bits_size=16, offset=0)
            raise ZeroDivisionError('handler bug')

        @opcode('NOMEM')
        def _nomem(self, instr):
            self.parse_integer_or_label(instr.tokens[1], size=2, bits_size=16, offset=0)
            raise MemoryError()
    AssemblerSim.__name__ = 'AssemblerSimBE' if big else 'AssemblerSimLE'
    return AssemblerSim


def sim_forms(big):
    def u(h):
        return h
    nib = '060009' if big else '090006'
    scl = '8000' if big else '0080'
    return [
        Form('ONE {0}', '0200', 1, 1, 7, 0, mn=0, mx=255),
        Form('TWO {0}', '030000', 1, 2, 15, 0, mn=0, mx=65535),
        Form('THREE {0}', '04000000', 1, 3, 23, 0, mn=0, mx=0xFFFFFF),
        Form('FAR {0}', '050000000000', 2, 4, 31, 0, mn=0, mx=0xFFFFFFFF),
        Form('NIB {0}', nib, 0, 3, 15, 4, mn=0, mx=0xFFF),
        Form('REL {0}', '070000', 1, 2, 15, 0, rel=3, mn=-32768, mx=32767),
        Form('SCL {0}', scl, 0, 2, 11, 0, 2, rel=2, mn=-8192, mx=8191, align=4),
        Form('PAIR {0},7', '08000007', 1, 2, 15, 0, mn=0, mx=65535),
        Form('PAIR 0x1122,{0}', '08112200' if big else '08221100', 3, 1, 7, 0, mn=0, mx=255),
    ]


class SimBackend(Backend):
    _cache = {}

    def cls(self):
        if self.big not in self._cache:
            self._cache[self.big] = sim_class(self.big)
        return self._cache[self.big]


for _big in (False, True):
    b = SimBackend('simbe' if _big else 'simle', 'necroassembler', 'Assembler', _big, ('0x', '0b'),
                   [('NIL', '01'), ('ONE 5', '0205'), ('FAR 0x11223344', '050011223344' if _big else '050044332211')],
                   sim_forms(_big), fill=0x5A, bad=['BOOM {0}', 'NOMEM {0}', 'PAIR {0},300', 'PAIR {0}', 'FROB {0}', 'ONE 256', 'ONE', 'PAIR {0},{0},{0}', 'NIB 5000'])
    add(b)

CPUS = ['6502', 'z80', 'lr35902', '8086', 'x86', 'mips32', '68000', 'thumb', 'ppc']
PLATFORMS = ['nes', 'sms', 'gameboy', 'psx']
SIMS = ['simle', 'simbe']
ALL = CPUS + PLATFORMS + SIMS
