"""Sharp LR35902 (Game Boy CPU) reference, rebuilt from the bit fields of the
opcode map (Game Boy CPU manual / Pan Docs)."""
import re
from ..harness import import_repo
import_repo()
from necroassembler.cpu.lr35902 import AssemblerLR35902
from ..forms import Form, Imm, Rel, Cpu
from ..toy import Num

R = ['B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A']
RP = ['BC', 'DE', 'HL', 'SP']
RP2 = ['BC', 'DE', 'HL', 'AF']
CC = ['NZ', 'Z', 'NC', 'C']
ALU = [('ADD', 'A,'), ('ADC', 'A,'), ('SUB', ''), ('SBC', 'A,'), ('AND', ''), ('XOR', ''), ('OR', ''), ('CP', '')]
ROT = ['RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SWAP', 'SRL']
FIXED = {'NOP': '00', 'RLCA': '07', 'RRCA': '0F', 'RLA': '17', 'RRA': '1F', 'DAA': '27', 'CPL': '2F', 'SCF': '37', 'CCF': '3F', 'HALT': '76', 'DI': 'F3', 'EI': 'FB',
         'RET': 'C9', 'RETI': 'D9', 'STOP': '1000', 'STOP 0': '1000', 'JP (HL)': 'E9', 'LD SP,HL': 'F9',
         'LD (BC),A': '02', 'LD (DE),A': '12', 'LD A,(BC)': '0A', 'LD A,(DE)': '1A', 'LD (HL+),A': '22', 'LD (HL-),A': '32', 'LD A,(HL+)': '2A', 'LD A,(HL-)': '3A',
         'LD ($FF00+C),A': 'E2', 'LD (C),A': 'E2', 'LD A,(C)': 'F2', 'ADD (HL)': '86'}


def w(v):
    return bytes([v & 255, v >> 8 & 255])


def forms():
    out = []

    def put(text, slots, enc):
        texts = [text]
        if '(' in text:
            texts.append(text.replace('(', '[').replace(')', ']'))
        for t in texts:
            out.append(Form(t.replace('{0}', 'n'), t, slots, enc))

    def fix(text, *b):
        put(text, [], lambda v, b=bytes(b): b)

    def imm8(text, *b):
        put(text, [Imm(8)], lambda v, b=bytes(b): b + bytes([v[0] & 255]))

    def imm16(text, *b):
        put(text, [Imm(16)], lambda v, b=bytes(b): b + w(v[0]))

    def rel(text, *b):
        put(text, [Rel(8, 2)], lambda v, b=bytes(b): b + bytes([v[0] & 255]))

    for t, h in FIXED.items():
        fix(t, *bytes.fromhex(h))
    for y in range(8):
        fix('RST %02XH' % (y * 8), 0xC7 | y << 3)
        fix('INC ' + R[y], 0x04 | y << 3)
        fix('DEC ' + R[y], 0x05 | y << 3)
        imm8('LD %s,{0}' % R[y], 0x06 | y << 3)
        m, a = ALU[y]
        imm8('%s %s{0}' % (m, a), 0xC6 | y << 3)
        for z in range(8):
            if (y, z) != (6, 6):
                fix('LD %s,%s' % (R[y], R[z]), 0x40 | y << 3 | z)
            fix('%s %s%s' % (m, a, R[z]), 0x80 | y << 3 | z)
            if m in ('OR', 'CP') or m == 'XOR' and z == 7:
                fix('%s A,%s' % (m, R[z]), 0x80 | y << 3 | z)
            fix('%s %s' % (ROT[y], R[z]), 0xCB, y << 3 | z)
            fix('BIT %d,%s' % (y, R[z]), 0xCB, 0x40 | y << 3 | z)
            fix('RES %d,%s' % (y, R[z]), 0xCB, 0x80 | y << 3 | z)
            fix('SET %d,%s' % (y, R[z]), 0xCB, 0xC0 | y << 3 | z)
    imm8('OR A,{0}', 0xF6)
    imm8('XOR A,{0}', 0xEE)
    imm8('SUB A,{0}', 0xD6)
    imm8('SBC {0}', 0xDE)
    for y in range(4):
        fix('RET ' + CC[y], 0xC0 | y << 3)
        imm16('JP %s,{0}' % CC[y], 0xC2 | y << 3)
        imm16('CALL %s,{0}' % CC[y], 0xC4 | y << 3)
        rel('JR %s,{0}' % CC[y], 0x20 | y << 3)
        imm16('LD %s,{0}' % RP[y], 0x01 | y << 4)
        fix('ADD HL,' + RP[y], 0x09 | y << 4)
        fix('INC ' + RP[y], 0x03 | y << 4)
        fix('DEC ' + RP[y], 0x0B | y << 4)
        fix('PUSH ' + RP2[y], 0xC5 | y << 4)
        fix('POP ' + RP2[y], 0xC1 | y << 4)
    rel('JR {0}', 0x18)
    imm16('JP {0}', 0xC3)
    imm16('CALL {0}', 0xCD)
    imm16('LD ({0}),SP', 0x08)
    imm16('LD ({0}),A', 0xEA)
    imm16('LD A,({0})', 0xFA)
    imm8('LDH ({0}),A', 0xE0)
    imm8('LDH A,({0})', 0xF0)
    for t, op in (('LD ($FF00+{0}),A', 0xE0), ('LD A,($FF00+{0})', 0xF0)):
        s = Imm(8)
        s.dec_lo = 0
        s.outside = lambda rng: [256, 300, 0x1234, 65536]
        s.values = lambda rng, n: [0, 1, 2, 0x0F, 0x40, 0x7F, 0x80, 0xFE, 0xFF] + [rng.randrange(256) for _ in range(n)]
        put(t, [s], lambda v, op=op: bytes([op, v[0] & 255]))
    put('ADD SP,{0}', [Imm(8, signed=True, label=False)], lambda v: bytes([0xE8, v[0] & 255]))
    # written with the sign
    s = Imm(8, signed=True, label=False)
    s.dec_lo = 0
    s.values = lambda rng, n: [0, 1, 2, 0x40, 0x7F] + [rng.randrange(128) for _ in range(n)]
    s.outside = lambda rng: [128, 129, 255, 256, 300]
    put('LD HL,SP+{0}', [s], lambda v: bytes([0xF8, v[0] & 255]))
    s = Imm(8, label=False, hexneg=False)
    s.dec_lo, s.dec_hi, s.hex_hi = 1, 128, -1
    s.values = lambda rng, n: [1, 2, 0x40, 0x7F, 0x80] + [rng.randrange(1, 129) for _ in range(n)]
    s.outside = lambda rng: [129, 130, 255, 256, 300]
    put('LD HL,SP-{0}', [s], lambda v: bytes([0xF8, -v[0] & 255]))
    return out


VOCAB = ['A', 'B', 'F', 'H', 'BC', 'HL', 'SP', 'AF', '(HL)', '(BC)', '(SP)', '(C)', '(A)', '(HL+)', '(DE)', '(AF)', 'HL+', 'HL-', '[HL-]', '[HL]', '5', '(5)', 'NZ', 'C', 'Z', '3',
         'SP+1', 'SP-2', '(H)', '[L]', '(F)', '(0)', '[$]', '+', '($FF00+3)', '($FF00+C)', '8', '08H', '09H', '256', '70000']
MNEMONICS = sorted({t.split()[0] for t in FIXED} | {'RST', 'JP', 'JR', 'CALL', 'INC', 'DEC', 'BIT', 'RES', 'SET', 'PUSH', 'POP', 'LDH', 'LD'} | set(ROT) | {m for m, _ in ALU})


def negatives(rng):
    pats = []
    for f in forms():
        big = any(s.kind == 'imm' and s.bits == 16 for s in f.slots)
        num = r'(?:0|1|2|3|5|8|256|\$FF00\+3)' if big else r'(?:0|1|2|3|5|8)'
        pats.append(re.escape(f.template).replace(r'\{0\}', num))
    legal = re.compile('^(?:' + '|'.join(pats) + ')$')
    yield 'BRA'
    for m in MNEMONICS:
        ops = [''] + [' ' + a for a in VOCAB] + [' %s,%s' % (a, b) for a in VOCAB for b in VOCAB] + [' A,B,C', ' 5,5,5', ' A,5,5', ' HL,5,5', ' 1,A,A', ' (HL),A,A', ' NZ,5,5']
        for o in ops:
            if not legal.match(m + o):
                yield m + o


def cpu():
    return Cpu('lr35902', AssemblerLR35902, forms(), Num.of(AssemblerLR35902), False, ('NOP', b'\x00'), negatives)
