"""Zilog Z80 reference, rebuilt from the x/y/z/p/q decomposition of the
opcode bytes in the Z80 CPU user manual."""
from ..harness import import_repo
import_repo()
from necroassembler.cpu.z80 import AssemblerZ80
from ..forms import Form, Imm, Rel, Cpu, Reg
from ..toy import Num

R = ['B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A']
RP = ['BC', 'DE', 'HL', 'SP']
RP2 = ['BC', 'DE', 'HL', 'AF']
CC = ['NZ', 'Z', 'NC', 'C', 'PO', 'PE', 'P', 'M']
ALU = ['ADD A,', 'ADC A,', 'SUB ', 'SBC A,', 'AND ', 'XOR ', 'OR ', 'CP ']
ROT = ['RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SLL', 'SRL']

FIXED = {'NOP': '00', 'RLCA': '07', 'RRCA': '0F', 'RLA': '17', 'RRA': '1F', 'DAA': '27', 'CPL': '2F', 'SCF': '37', 'CCF': '3F',
         'HALT': '76', 'RET': 'C9', 'EXX': 'D9', 'DI': 'F3', 'EI': 'FB', 'NEG': 'ED44', 'RETN': 'ED45', 'RETI': 'ED4D',
         'RRD': 'ED67', 'RLD': 'ED6F', 'LDI': 'EDA0', 'CPI': 'EDA1', 'INI': 'EDA2', 'OUTI': 'EDA3', 'LDD': 'EDA8', 'CPD': 'EDA9',
         'IND': 'EDAA', 'OUTD': 'EDAB', 'LDIR': 'EDB0', 'CPIR': 'EDB1', 'INIR': 'EDB2', 'OTIR': 'EDB3', 'LDDR': 'EDB8',
         'CPDR': 'EDB9', 'INDR': 'EDBA', 'OTDR': 'EDBB', "EX AF,AF'": '08', 'EX DE,HL': 'EB', 'EX (SP),HL': 'E3', 'EX (SP),IX': 'DDE3',
         'EX (SP),IY': 'FDE3', 'JP (HL)': 'E9', 'JP (IX)': 'DDE9', 'JP (IY)': 'FDE9', 'LD SP,HL': 'F9', 'LD SP,IX': 'DDF9',
         'LD SP,IY': 'FDF9', 'LD I,A': 'ED47', 'LD R,A': 'ED4F', 'LD A,I': 'ED57', 'LD A,R': 'ED5F', 'IM 0': 'ED46', 'IM 1': 'ED56',
         'IM 2': 'ED5E', 'LD (BC),A': '02', 'LD (DE),A': '12', 'LD A,(BC)': '0A', 'LD A,(DE)': '1A', 'OUT (C),0': 'ED71',
         'PUSH IX': 'DDE5', 'PUSH IY': 'FDE5', 'POP IX': 'DDE1', 'POP IY': 'FDE1'}


def w(v):
    return bytes([v & 255, v >> 8 & 255])


def forms():
    out = []

    def fix(text, *b):
        out.append(Form(text, text, [], lambda v, b=bytes(b): b))

    def imm8(text, *b):
        out.append(Form(text.format('n'), text, [Imm(8)], lambda v, b=bytes(b): b + bytes([v[0] & 255])))

    def imm16(text, *b):
        out.append(Form(text.format('nn'), text, [Imm(16)], lambda v, b=bytes(b): b + w(v[0])))

    def rel(text, *b):
        out.append(Form(text.format('e'), text, [Rel(8, 2)], lambda v, b=bytes(b): b + bytes([v[0] & 255])))

    def idx(text, pre, suf=b'', aliases=None):
        """text has one {0} standing for the sign and displacement"""
        # written with '+': any signed value; labels allowed
        pos = Imm(8, signed=True)
        pos.values = lambda rng, n: [0, 1, 2, 5, 0x40, 0x7E, 0x7F] + [rng.randrange(128) for _ in range(n)]
        pos.dec_lo = 0
        pos.outside = lambda rng: [128, 129, 200, 255, 256, 300]
        out.append(Form(text.format('+d'), text.format('+{0}'), [pos], lambda v, p=pre, s=suf: p + bytes([v[0] & 255]) + s))
        neg = Reg({str(k): k for k in (1, 2, 5, 127, 128, 64)})
        out.append(Form(text.format('-d'), text.format('-{0}'), [neg], lambda v, p=pre, s=suf: p + bytes([-v[0] & 255]) + s))

    for t, h in FIXED.items():
        fix(t, *bytes.fromhex(h))
    for y in range(8):
        fix('RST %XH' % (y * 8), 0xC7 | y << 3)
        fix('RET ' + CC[y], 0xC0 | y << 3)
        imm16('JP %s,{0}' % CC[y], 0xC2 | y << 3)
        imm16('CALL %s,{0}' % CC[y], 0xC4 | y << 3)
        fix('INC ' + R[y], 0x04 | y << 3)
        fix('DEC ' + R[y], 0x05 | y << 3)
        imm8('LD %s,{0}' % R[y], 0x06 | y << 3)
        imm8(ALU[y] + '{0}', 0xC6 | y << 3)
        if y != 6:
            fix('IN %s,(C)' % R[y], 0xED, 0x40 | y << 3)
            fix('OUT (C),%s' % R[y], 0xED, 0x41 | y << 3)
        for z in range(8):
            if (y, z) != (6, 6):
                fix('LD %s,%s' % (R[y], R[z]), 0x40 | y << 3 | z)
            fix(ALU[y] + R[z], 0x80 | y << 3 | z)
            fix('%s %s' % (ROT[y], R[z]), 0xCB, y << 3 | z)
            fix('BIT %d,%s' % (y, R[z]), 0xCB, 0x40 | y << 3 | z)
            fix('RES %d,%s' % (y, R[z]), 0xCB, 0x80 | y << 3 | z)
            fix('SET %d,%s' % (y, R[z]), 0xCB, 0xC0 | y << 3 | z)
    for y in range(4):
        rel('JR %s,{0}' % CC[y], 0x20 | y << 3)
    rel('JR {0}', 0x18)
    rel('DJNZ {0}', 0x10)
    imm16('JP {0}', 0xC3)
    imm16('CALL {0}', 0xCD)
    imm8('OUT ({0}),A', 0xD3)
    imm8('IN A,({0})', 0xDB)
    imm16('LD ({0}),A', 0x32)
    imm16('LD A,({0})', 0x3A)
    for p in range(4):
        imm16('LD %s,{0}' % RP[p], 0x01 | p << 4)
        fix('ADD HL,' + RP[p], 0x09 | p << 4)
        fix('INC ' + RP[p], 0x03 | p << 4)
        fix('DEC ' + RP[p], 0x0B | p << 4)
        fix('PUSH ' + RP2[p], 0xC5 | p << 4)
        fix('POP ' + RP2[p], 0xC1 | p << 4)
        fix('ADC HL,' + RP[p], 0xED, 0x4A | p << 4)
        fix('SBC HL,' + RP[p], 0xED, 0x42 | p << 4)
        if RP[p] == 'HL':
            imm16('LD ({0}),HL', 0x22)
            imm16('LD HL,({0})', 0x2A)
        else:
            imm16('LD ({0}),%s' % RP[p], 0xED, 0x43 | p << 4)
            imm16('LD %s,({0})' % RP[p], 0xED, 0x4B | p << 4)
    for pre, ix in ((0xDD, 'IX'), (0xFD, 'IY')):
        imm16('LD %s,{0}' % ix, pre, 0x21)
        imm16('LD ({0}),%s' % ix, pre, 0x22)
        imm16('LD %s,({0})' % ix, pre, 0x2A)
        fix('INC ' + ix, pre, 0x23)
        fix('DEC ' + ix, pre, 0x2B)
        for p in range(4):
            fix('ADD %s,%s' % (ix, ix if p == 2 else RP[p]), pre, 0x09 | p << 4)
        hl = {4: ix + 'H', 5: ix + 'L'}
        m = '(' + ix + '{0})'
        for y in (4, 5):
            fix('INC ' + hl[y], pre, 0x04 | y << 3)
            fix('DEC ' + hl[y], pre, 0x05 | y << 3)
            imm8('LD %s,{0}' % hl[y], pre, 0x06 | y << 3)
        for y in range(8):
            for z in range(8):
                if y == 6 and z == 6:
                    continue
                if y == 6 or z == 6:
                    if y == 6:
                        idx('LD %s,%s' % (m, R[z]), bytes([pre, 0x70 | z]))
                    else:
                        idx('LD %s,%s' % (R[y], m), bytes([pre, 0x46 | y << 3]))
                elif y in hl or z in hl:
                    fix('LD %s,%s' % (hl.get(y, R[y]), hl.get(z, R[z])), pre, 0x40 | y << 3 | z)
            for z in (4, 5):
                fix(ALU[y] + hl[z], pre, 0x80 | y << 3 | z)
            idx(ALU[y] + m, bytes([pre, 0x86 | y << 3]))
            idx('%s %s' % (ROT[y], m), bytes([pre, 0xCB]), bytes([0x06 | y << 3]))
            idx('BIT %d,%s' % (y, m), bytes([pre, 0xCB]), bytes([0x46 | y << 3]))
            idx('RES %d,%s' % (y, m), bytes([pre, 0xCB]), bytes([0x86 | y << 3]))
            idx('SET %d,%s' % (y, m), bytes([pre, 0xCB]), bytes([0xC6 | y << 3]))
        idx('INC ' + m, bytes([pre, 0x34]))
        idx('DEC ' + m, bytes([pre, 0x35]))
        # two operands: displacement and immediate
        for sign in '+-':
            d = Imm(8, signed=True) if sign == '+' else Reg({str(k): -k for k in (1, 2, 127, 128)})
            if sign == '+':
                d.values = lambda rng, n: [0, 1, 2, 5, 0x40, 0x7E, 0x7F] + [rng.randrange(128) for _ in range(n)]
                d.dec_lo = 0
                d.outside = lambda rng: [128, 200, 255, 256, 300]
            out.append(Form('LD (%s%sd),n' % (ix, sign), 'LD (%s%s{0}),{1}' % (ix, sign), [d, Imm(8)],
                            lambda v, pre=pre: bytes([pre, 0x36, v[0] & 255, v[1] & 255])))
    return out


VOCAB = ['A', 'B', 'H', 'I', 'R', 'IXH', 'IYL', 'BC', 'HL', 'SP', 'AF', 'IX', 'IY', '(HL)', '(BC)', '(SP)', '(C)', '(IX+1)', '(IY-2)',
         '(IX)', '5', '(5)', 'NZ', 'C', 'PE', '3']
MNEMONICS = sorted({t.split()[0] for t in FIXED} | {'RST', 'JP', 'JR', 'CALL', 'DJNZ', 'IN', 'OUT', 'INC', 'DEC', 'ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR',
                                                    'OR', 'CP', 'BIT', 'RES', 'SET', 'PUSH', 'POP', 'IM'} | set(ROT))


def negatives(rng):
    """every mnemonic with 0..2 operands of the vocabulary that match none of its forms"""
    import re
    pats = []
    for f in forms():
        t = f.template
        num = r'\d+'
        rx = re.escape(t).replace(r'\{0\}', num).replace(r'\{1\}', num)
        pats.append(rx)
    legal = re.compile('^(?:' + '|'.join(pats) + ')$')
    for m in MNEMONICS:
        ops = [''] + [' ' + a for a in VOCAB] + [' %s,%s' % (a, b) for a in VOCAB for b in VOCAB]
        for o in ops:
            if not legal.match(m + o):
                yield m + o


def cpu():
    return Cpu('z80', AssemblerZ80, forms(), Num.of(AssemblerZ80), False, ('NOP', b'\x00'), negatives)
