"""8086 reference: opcode map and ModR/M byte of the Intel 8086 Family User's
Manual for the forms the assembler has. Memory operands are written with
blanks around + and - ([BX + SI - 2]); displacements are 16 bits wide; [BP]
needs one (mod 00 with rm 110 is a direct address). Where the manual offers
several encodings of an instruction the one listed here is the one the
assembler uses."""
from ..harness import import_repo
import_repo()
from necroassembler.cpu.intel8086 import AssemblerIntel8086
from ..forms import Form, Imm, Rel, Cpu, Reg
from ..toy import Num

R8 = ['AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH']
R16 = ['AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI']
SEG = ['ES', 'CS', 'SS', 'DS']
RM = ['BX + SI', 'BX + DI', 'BP + SI', 'BP + DI', 'SI', 'DI', 'BP', 'BX']
ALU = ['ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP']
JCC = {'JO': 0x70, 'JNO': 0x71, 'JB': 0x72, 'JNB': 0x73, 'JZ': 0x74, 'JNZ': 0x75, 'JBE': 0x76, 'JA': 0x77, 'JS': 0x78, 'JNS': 0x79, 'JPE': 0x7A,
       'JPO': 0x7B, 'JL': 0x7C, 'JGE': 0x7D, 'JLE': 0x7E, 'JG': 0x7F, 'LOOPNZ': 0xE0, 'LOOPZ': 0xE1, 'LOOP': 0xE2, 'JCXZ': 0xE3}
PLAIN = {'DAA': 0x27, 'DAS': 0x2F, 'AAA': 0x37, 'AAS': 0x3F, 'NOP': 0x90, 'CBW': 0x98, 'CWD': 0x99, 'WAIT': 0x9B, 'PUSHF': 0x9C, 'POPF': 0x9D,
         'SAHF': 0x9E, 'LAHF': 0x9F, 'MOVSB': 0xA4, 'MOVSW': 0xA5, 'CMPSB': 0xA6, 'CMPSW': 0xA7, 'STOSB': 0xAA, 'STOSW': 0xAB, 'LODSB': 0xAC,
         'LODSW': 0xAD, 'SCASB': 0xAE, 'SCASW': 0xAF, 'RET': 0xC3, 'RETF': 0xCB, 'INTO': 0xCE, 'IRET': 0xCF, 'XLAT': 0xD7, 'LOCK': 0xF0,
         'REPNZ': 0xF2, 'REPZ': 0xF3, 'HLT': 0xF4, 'CMC': 0xF5, 'CLC': 0xF8, 'STC': 0xF9, 'CLI': 0xFA, 'STI': 0xFB, 'CLD': 0xFC, 'STD': 0xFD}


def table(names):
    t = {n: i for i, n in enumerate(names)}
    t[names[2].lower()] = 2
    t[names[3].capitalize()] = 3
    return t


B, W, S = table(R8), table(R16), table(SEG)
# memory operands without a symbolic displacement: (mod, rm, displacement)
MEM = {'[%s]' % r: (0, i, b'') for i, r in enumerate(RM)}
MEM['[BP]'] = (2, 6, b'\0\0')
for _i, _r in enumerate(RM):
    _d = (1, 2, 127, 128, 300, 32767, 32768, 5)[_i]
    MEM['[%s - %d]' % (_r, _d)] = (2, _i, (-_d & 0xFFFF).to_bytes(2, 'little'))
MEM['[bx + di]'] = (0, 1, b'')
MEM['[ si ]'] = (0, 4, b'')
BASES = {r: i for i, r in enumerate(RM)}


def le(v, n=2):
    return (v & (1 << 8 * n) - 1).to_bytes(n, 'little')


def forms():
    out = []

    def put(fid, text, slots, enc, known=None):
        out.append(Form(fid, text, slots, lambda v, enc=enc: bytes(enc(v))))
        out[-1].known = known

    def mem(fid, text, slots, enc):
        """text has %s for the memory operand; enc(values, reg field -> bytes)"""
        n = len(slots)

        def modrm(v, reg):
            m, rm, d = v[n]
            return bytes([m << 6 | reg << 3 | rm]) + d

        def modrm_disp(v, reg):
            return bytes([2 << 6 | reg << 3 | v[n]]) + le(v[n + 1])
        put(fid + '/mem', text % ('{%d}' % n), slots + [Reg(MEM)], lambda v: enc(v, lambda reg: modrm(v, reg)))
        put(fid + '/mem+d', text % ('[{%d} + {%d}]' % (n, n + 1)), slots + [Reg(BASES), Imm(16, signed=True)],
            lambda v: enc(v, lambda reg: modrm_disp(v, reg)))
    rr = lambda d, s: 0xC0 | s << 3 | d
    b, w, s = (lambda: Reg(B)), (lambda: Reg(W)), (lambda: Reg(S))
    for k, m in enumerate(ALU):
        o = k << 3
        put(m + ' r8,r8', m + ' {0}, {1}', [b(), b()], lambda v, o=o: [o, rr(v[0], v[1])])
        put(m + ' r16,r16', m + ' {0}, {1}', [w(), w()], lambda v, o=o: [o + 1, rr(v[0], v[1])])
        mem(m + ' m,r8', m + ' %s, {0}', [b()], lambda v, f, o=o: bytes([o]) + f(v[0]))
        mem(m + ' m,r16', m + ' %s, {0}', [w()], lambda v, f, o=o: bytes([o + 1]) + f(v[0]))
        mem(m + ' r8,m', m + ' {0}, %s', [b()], lambda v, f, o=o: bytes([o + 2]) + f(v[0]))
        mem(m + ' r16,m', m + ' {0}, %s', [w()], lambda v, f, o=o: bytes([o + 3]) + f(v[0]))
        put(m + ' AL,i', m + ' AL, {0}', [Imm(8)], lambda v, o=o: [o + 4, v[0] & 0xFF])
        put(m + ' AX,i', m + ' AX, {0}', [Imm(16)], lambda v, o=o: bytes([o + 5]) + le(v[0]))
    for m, o in (('TEST', 0x84), ('XCHG', 0x86)):
        put(m + ' r8,r8', m + ' {0}, {1}', [b(), b()], lambda v, o=o: [o, rr(v[1], v[0])])
        put(m + ' r16,r16', m + ' {0}, {1}', [w(), w()], lambda v, o=o: [o + 1, rr(v[1], v[0])])
        mem(m + ' r8,m', m + ' {0}, %s', [b()], lambda v, f, o=o: bytes([o]) + f(v[0]))
        mem(m + ' r16,m', m + ' {0}, %s', [w()], lambda v, f, o=o: bytes([o + 1]) + f(v[0]))
    put('TEST AL,i', 'TEST AL, {0}', [Imm(8)], lambda v: [0xA8, v[0] & 0xFF])
    put('TEST AX,i', 'TEST AX, {0}', [Imm(16)], lambda v: b'\xA9' + le(v[0]))
    put('MOV r8,r8', 'MOV {0}, {1}', [b(), b()], lambda v: [0x88, rr(v[0], v[1])])
    put('MOV r16,r16', 'MOV {0}, {1}', [w(), w()], lambda v: [0x89, rr(v[0], v[1])])
    mem('MOV m,r8', 'MOV %s, {0}', [b()], lambda v, f: b'\x88' + f(v[0]))
    mem('MOV m,r16', 'MOV %s, {0}', [w()], lambda v, f: b'\x89' + f(v[0]))
    mem('MOV r8,m', 'MOV {0}, %s', [b()], lambda v, f: b'\x8A' + f(v[0]))
    mem('MOV r16,m', 'MOV {0}, %s', [w()], lambda v, f: b'\x8B' + f(v[0]))
    put('MOV r16,s', 'MOV {0}, {1}', [w(), s()], lambda v: [0x8C, rr(v[0], v[1])])
    mem('MOV m,s', 'MOV %s, {0}', [s()], lambda v, f: b'\x8C' + f(v[0]))
    put('MOV s,r16', 'MOV {0}, {1}', [s(), w()], lambda v: [0x8E, rr(v[1], v[0])])
    mem('MOV s,m', 'MOV {0}, %s', [s()], lambda v, f: b'\x8E' + f(v[0]))
    put('MOV r8,i', 'MOV {0}, {1}', [b(), Imm(8)], lambda v: [0xB0 + v[0], v[1] & 0xFF])
    put('MOV r16,i', 'MOV {0}, {1}', [w(), Imm(16)], lambda v: bytes([0xB8 + v[0]]) + le(v[1]))
    mem('MOV m,i', 'MOV %s, {0}', [Imm(8)], lambda v, f: b'\xC6' + f(0) + le(v[0], 1))
    put('MOV AL,[a]', 'MOV AL, [{0}]', [Imm(16)], lambda v: b'\xA0' + le(v[0]))
    put('MOV AX,[a]', 'MOV AX, [{0}]', [Imm(16)], lambda v: b'\xA1' + le(v[0]))
    put('MOV [a],AL', 'MOV [{0}], AL', [Imm(16)], lambda v: b'\xA2' + le(v[0]))
    put('MOV [a],AX', 'MOV [{0}], AX', [Imm(16)], lambda v: b'\xA3' + le(v[0]))
    put('INC', 'INC {0}', [w()], lambda v: [0x40 + v[0]])
    put('DEC', 'DEC {0}', [w()], lambda v: [0x48 + v[0]])
    put('PUSH', 'PUSH {0}', [w()], lambda v: [0x50 + v[0]])
    put('POP', 'POP {0}', [w()], lambda v: [0x58 + v[0]])
    put('PUSH s', 'PUSH {0}', [s()], lambda v: [0x06 + 8 * v[0]])
    put('POP s', 'POP {0}', [Reg({n: i for n, i in S.items() if i != 1})], lambda v: [0x07 + 8 * v[0]])
    mem('POP m', 'POP %s', [], lambda v, f: b'\x8F' + f(0))
    mem('LEA', 'LEA {0}, %s', [w()], lambda v, f: b'\x8D' + f(v[0]))
    put('LES', 'LES {0}, [{1}]', [w(), Imm(16)], lambda v: bytes([0xC4, v[0] << 3 | 6]) + le(v[1]))
    put('LDS', 'LDS {0}, [{1}]', [w(), Imm(16)], lambda v: bytes([0xC5, v[0] << 3 | 6]) + le(v[1]))
    for m, op, reg in (('MUL', 0xF7, 4), ('DIV', 0xF7, 6)):
        put(m + ' r16', m + ' {0}', [w()], lambda v, op=op, reg=reg: [op, rr(v[0], reg)])
        mem(m + ' m', m + ' %s', [], lambda v, f, op=op, reg=reg: bytes([op]) + f(reg))
    for m, reg in (('SHL', 4), ('SHR', 5)):
        put(m + ' r8', m + ' {0}, 1', [b()], lambda v, reg=reg: [0xD0, rr(v[0], reg)])
        put(m + ' r16', m + ' {0}, 1', [w()], lambda v, reg=reg: [0xD1, rr(v[0], reg)])
        mem(m + ' m', m + ' %s, 1', [], lambda v, f, reg=reg: b'\xD0' + f(reg))
    for m, op in JCC.items():
        put(m, m + ' {0}', [Rel(8, 2)], lambda v, op=op: [op, v[0] & 0xFF])
    put('CALL near', 'CALL {0}', [Rel(16, 3)], lambda v: b'\xE8' + le(v[0]))
    put('JMP near', 'JMP {0}', [Rel(16, 3)], lambda v: b'\xE9' + le(v[0]))
    put('CALL far', 'CALL {0}:{1}', [Imm(16), Imm(16)], lambda v: b'\x9A' + le(v[1]) + le(v[0]))
    put('JMP far', 'JMP {0}:{1}', [Imm(16), Imm(16)], lambda v: b'\xEA' + le(v[1]) + le(v[0]))
    put('RET i', 'RET {0}', [Imm(16)], lambda v: b'\xC2' + le(v[0]))
    put('RETF i', 'RETF {0}', [Imm(16)], lambda v: b'\xCA' + le(v[0]))
    put('INT 3', 'INT 3', [], lambda v: b'\xCC')
    put('INT', 'INT {0}', [Imm(8, ok=lambda v: v != 3, ok_refuse=False)], lambda v: [0xCD, v[0] & 0xFF])
    put('IN AL,i', 'IN AL, {0}', [Imm(8)], lambda v: [0xE4, v[0] & 0xFF])
    put('IN AX,i', 'IN AX, {0}', [Imm(8)], lambda v: [0xE5, v[0] & 0xFF])
    put('OUT i,AL', 'OUT {0}, AL', [Imm(8)], lambda v: [0xE6, v[0] & 0xFF])
    put('OUT i,AX', 'OUT {0}, AX', [Imm(8)], lambda v: [0xE7, v[0] & 0xFF])
    for k, t in enumerate(('IN AL, DX', 'IN AX, DX', 'OUT DX, AL', 'OUT DX, AX')):
        put(t, t, [], lambda v, k=k: [0xEC + k])
    for m, op in (('AAM', 0xD4), ('AAD', 0xD5)):
        known = ('operand byte', lambda v, op=op: bytes([op]))
        put(m, m, [], lambda v, op=op: [op, 10], known)
        put(m + ' 10', m + ' {0}', [Reg({'10': 10, '0x0A': 10, '0ah': 10})], lambda v, op=op: [op, 10], known)
        put(m + ' i', m + ' {0}', [Imm(8, label=False, ok=lambda v: v != 10, ok_refuse=False)], lambda v, op=op: [op, v[0] & 0xFF])
    for m, op in PLAIN.items():
        put(m, m, [], lambda v, op=op: [op])
    return out


KINDS = {'b': ['AL', 'CL', 'BH'], 'w': ['AX', 'BX', 'DX', 'SP', 'SI'], 's': ['DS', 'ES'], 'm': ['[BX]', '[BP + DI]', '[SI + 4]', '[BX + SI - 3]', '[5]'], 'i': ['5'],
         'x': ['[AX]', '[BX + BP]', '[SI + DI]', '[SP]', '[BX + SI + DI]', '[DX + 4]', '[BX +]', '[+]', '[', ']', '[]', '[BX', 'BX]', '+', '[AL]', '[DS]']}
# what the manual has, supported by the assembler or not; u: one, CL counts; f: far
LEGAL = {}
for _m in ALU:
    LEGAL[_m] = {'bb', 'ww', 'bm', 'wm', 'mb', 'mw', 'bi', 'wi', 'mi'}
LEGAL['TEST'] = {'bb', 'ww', 'bm', 'wm', 'mb', 'mw', 'bi', 'wi', 'mi'}
LEGAL['XCHG'] = {'bb', 'ww', 'bm', 'wm', 'mb', 'mw'}
LEGAL['MOV'] = LEGAL['TEST'] | {'ws', 'ms', 'sw', 'sm'}
LEGAL['PUSH'] = {'w', 's', 'm'}
LEGAL['POP'] = {'w', 's', 'm'}
LEGAL['INC'] = LEGAL['DEC'] = LEGAL['MUL'] = LEGAL['DIV'] = {'b', 'w', 'm'}
LEGAL['LEA'] = LEGAL['LES'] = LEGAL['LDS'] = {'wm'}
for _m in JCC:
    LEGAL[_m] = {'i'}
LEGAL['CALL'] = LEGAL['JMP'] = {'i', 'w', 'm'}
LEGAL['RET'] = LEGAL['RETF'] = {'', 'i'}
LEGAL['INT'] = {'i'}
LEGAL['AAM'] = LEGAL['AAD'] = {'', 'i'}
for _m in PLAIN:
    LEGAL.setdefault(_m, {''})


def negatives(rng):
    items = [(k, t) for k, ts in KINDS.items() for t in ts]
    for m, legal in sorted(LEGAL.items()):
        lists = [()] + [(a,) for a in items] + [(a, b) for a in items for b in items]
        lists += [tuple(rng.choice(items) for _ in range(3)) for _ in range(30)]
        for ops in lists:
            k = ''.join(o[0] for o in ops)
            # commas are blanks: fragments of brackets can make up an operand
            if k not in legal and sum(o[1].count('[') != o[1].count(']') for o in ops) < 2:
                yield (m + ' ' + ', '.join(o[1] for o in ops)).strip()
    for m in ('SHL', 'SHR'):
        for k, t in items:
            for c in ('', ', 2', ', 5', ', 0', ', AL', ', CX', ', [BX]', ', 1, 1'):
                yield '%s %s%s' % (m, t, c)
        for k in 'six':
            for t in KINDS[k]:
                yield '%s %s, 1' % (m, t)
    for m, ok in (('IN', lambda a, b: a in ('AL', 'AX') and b in ('5', 'DX')), ('OUT', lambda a, b: b in ('AL', 'AX') and a in ('5', 'DX'))):
        for a in items:
            yield '%s %s' % (m, a[1])
            for b in items:
                if not ok(a[1], b[1]):
                    yield '%s %s, %s' % (m, a[1], b[1])
    for t in ('CALL 1:', 'JMP 1:2:3', 'JMP :2', 'JMP 1:2, 3', 'CALL 65536:1', 'CALL 1:65536', 'JMP AX:5', 'JMP 5:BX', 'MOV AX, 1:2', 'JZ 1:2', 'JMP [1:2]'):
        yield t


def cpu():
    return Cpu('8086', AssemblerIntel8086, forms(), Num.of(AssemblerIntel8086), False, ('NOP', b'\x90'), negatives)
