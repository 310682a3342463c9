"""MIPS32 reference: fields of the three instruction formats (MIPS32
Architecture for Programmers, volume II). lhi, llo and trap are the names of
the older MIPS tables; lui, lhi and llo take a 32-bit value and encode the
half of it they load."""
import re
from ..harness import import_repo
import_repo()
from necroassembler.cpu.mips32 import AssemblerMIPS32
from necroassembler.platforms.psx import AssemberPSX
from ..forms import Form, Imm, Rel, Cpu, Reg
from ..toy import Num

NAMES = ['zero', 'at', 'v0', 'v1', 'a0', 'a1', 'a2', 'a3', 't0', 't1', 't2', 't3', 't4', 't5', 't6', 't7', 's0', 's1', 's2', 's3', 's4', 's5', 's6', 's7', 't8', 't9',
         'k0', 'k1', 'gp', 'sp', 'fp', 'ra']
G = {}
for _i, _n in enumerate(NAMES):
    G['$' + _n] = _i
    G['$%d' % _i] = _i

RRR = {'add': 0x20, 'addu': 0x21, 'sub': 0x22, 'subu': 0x23, 'and': 0x24, 'or': 0x25, 'xor': 0x26, 'nor': 0x27, 'slt': 0x2A, 'sltu': 0x2B}
SHV = {'sllv': 4, 'srlv': 6, 'srav': 7}
SH = {'sll': 0, 'srl': 2, 'sra': 3}
MD = {'mult': 0x18, 'multu': 0x19, 'div': 0x1A, 'divu': 0x1B}
I16 = {'addi': (8, True), 'addiu': (9, False), 'slti': (10, True), 'sltiu': (11, None), 'andi': (12, False), 'ori': (13, False), 'xori': (14, False)}
MEM = {'lb': 0x20, 'lh': 0x21, 'lw': 0x23, 'lbu': 0x24, 'lhu': 0x25, 'sb': 0x28, 'sh': 0x29, 'sw': 0x2B}
BR2 = {'beq': 4, 'bne': 5}
BR1 = {'blez': 6, 'bgtz': 7}
J = {'j': 2, 'jal': 3, 'trap': 0x1A}


def forms(order):
    out = []

    def put(fid, text, slots, enc):
        out.append(Form(fid, text, slots, lambda v, enc=enc: (enc(v) & 0xFFFFFFFF).to_bytes(4, order)))
    r = lambda: Reg(G)
    for m, f in RRR.items():
        put(m, m + ' {0}, {1}, {2}', [r(), r(), r()], lambda v, f=f: v[1] << 21 | v[2] << 16 | v[0] << 11 | f)
    for m, f in SHV.items():
        put(m, m + ' {0}, {1}, {2}', [r(), r(), r()], lambda v, f=f: v[2] << 21 | v[1] << 16 | v[0] << 11 | f)
    for m, f in SH.items():
        put(m, m + ' {0}, {1}, {2}', [r(), r(), Imm(5)], lambda v, f=f: v[1] << 16 | v[0] << 11 | (v[2] & 31) << 6 | f)
    for m, f in MD.items():
        put(m, m + ' {0}, {1}', [r(), r()], lambda v, f=f: v[0] << 21 | v[1] << 16 | f)
    for m, (op, signed) in I16.items():
        s = Imm(16, signed=signed is True)
        put(m, m + ' {0}, {1}, {2}', [r(), r(), s], lambda v, op=op: op << 26 | v[1] << 21 | v[0] << 16 | v[2] & 0xFFFF)
    for m, (op, sh) in {'lui': (15, 16), 'lhi': (0x19, 16), 'llo': (0x18, 0)}.items():
        put(m, m + ' {0}, {1}', [r(), Imm(32)], lambda v, op=op, sh=sh: op << 26 | v[0] << 16 | (v[1] >> sh) & 0xFFFF)
    for m, op in BR2.items():
        put(m, m + ' {0}, {1}, {2}', [r(), r(), Rel(18, 4, align=4)], lambda v, op=op: op << 26 | v[0] << 21 | v[1] << 16 | v[2] >> 2 & 0xFFFF)
    for m, op in BR1.items():
        put(m, m + ' {0}, {1}', [r(), Rel(18, 4, align=4)], lambda v, op=op: op << 26 | v[0] << 21 | v[1] >> 2 & 0xFFFF)
    for m, op in J.items():
        # the upper four bits of the target are those of the program counter
        s = Imm(32, ok=lambda v: v % 4 == 0, lmax=0xFFFFFFFF, ok_refuse=False, extra=(0x0FFFFFFC, 0x8000000, 0x04000000, 0x10000, 0x10000000, 0x80010000, 0xBFC00000, -4))
        put(m, m + ' {0}', [s], lambda v, op=op: op << 26 | (v[0] & 0x0FFFFFFF) >> 2)
    put('jr', 'jr {0}', [r()], lambda v: v[0] << 21 | 8)
    put('jalr', 'jalr {0}', [r()], lambda v: v[0] << 21 | 31 << 11 | 9)
    for m, op in MEM.items():
        put(m, m + ' {0}, {1}({2})', [r(), Imm(16, signed=True, label=False), r()], lambda v, op=op: op << 26 | v[2] << 21 | v[0] << 16 | v[1] & 0xFFFF)
    put('mfhi', 'mfhi {0}', [r()], lambda v: v[0] << 11 | 0x10)
    put('mflo', 'mflo {0}', [r()], lambda v: v[0] << 11 | 0x12)
    put('mthi', 'mthi {0}', [r()], lambda v: v[0] << 21 | 0x11)
    put('mtlo', 'mtlo {0}', [r()], lambda v: v[0] << 21 | 0x13)
    put('syscall', 'syscall', [], lambda v: 12)
    put('break', 'break', [], lambda v: 13)
    return out


VOCAB = ['$t0', '$0', '$31', '$ra', '$32', '$33', '$x9', '$t10', '$', '5', '4($sp)', '4(5)', '($sp)', '$t0($sp)', '4($32)', '(']


def negatives(rng):
    g = r'\$(?:t0|0|31|ra|sp)'
    pats = []
    for f in forms('big'):
        p = re.escape(f.template).replace(r',\ ', ',')
        for k, s in enumerate(f.slots):
            p = p.replace(r'\{%d\}' % k, g if s.kind == 'reg' else '[45]')
        pats.append(p)
    # branch displacements and jump targets of one or five bytes are not words
    legal = re.compile('^(?:' + '|'.join(pats) + ')$')
    skip = set(BR2) | set(BR1) | set(J)
    for m in sorted({f.id for f in forms('big')}):
        ops = [''] + [' ' + a for a in VOCAB] + [' %s,%s' % (a, b) for a in VOCAB for b in VOCAB]
        ops += [' %s,%s,%s' % (a, b, c) for a in VOCAB[:11] for b in VOCAB[:6] + VOCAB[9:11] for c in VOCAB]
        ops += [' $t0,$t0,$t0,$t0', ' $t0,$t0,5,5', ' $t0,4($sp),5']
        for o in ops:
            line = m + o
            if not legal.match(line) and not legal.match(line.replace(',(', '(')):
                yield line


def cpus():
    return [Cpu('mips32', AssemblerMIPS32, forms('big'), Num.of(AssemblerMIPS32), True, ('sll $0, $0, 0', bytes(4)), negatives, max_addr=0x0FFFFFF0),
            Cpu('mips32le', AssemberPSX, forms('little'), Num.of(AssemberPSX), False, ('sll $0, $0, 0', bytes(4)), negatives, max_addr=0x0FFFFFF0)]
