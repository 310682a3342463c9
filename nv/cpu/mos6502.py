"""MOS 6502 reference, from the opcode matrix of the programming manual."""
from ..harness import import_repo
import_repo()
from necroassembler.cpu.mos6502 import AssemblerMOS6502
from ..forms import Form, Imm, Rel, Cpu
from ..toy import Num

IMPLIED = {'BRK': 0x00, 'PHP': 0x08, 'CLC': 0x18, 'PLP': 0x28, 'SEC': 0x38, 'RTI': 0x40, 'PHA': 0x48, 'CLI': 0x58,
           'RTS': 0x60, 'PLA': 0x68, 'SEI': 0x78, 'DEY': 0x88, 'TXA': 0x8A, 'TYA': 0x98, 'TXS': 0x9A, 'TAY': 0xA8,
           'TAX': 0xAA, 'CLV': 0xB8, 'TSX': 0xBA, 'INY': 0xC8, 'DEX': 0xCA, 'CLD': 0xD8, 'INX': 0xE8, 'NOP': 0xEA, 'SED': 0xF8}
BRANCH = {'BPL': 0x10, 'BMI': 0x30, 'BVC': 0x50, 'BVS': 0x70, 'BCC': 0x90, 'BCS': 0xB0, 'BNE': 0xD0, 'BEQ': 0xF0}

# group one: aaabbb01
G1 = {'ORA': 0, 'AND': 1, 'EOR': 2, 'ADC': 3, 'STA': 4, 'LDA': 5, 'CMP': 6, 'SBC': 7}
G1_MODES = {'indx': 0, 'zp': 1, 'imm': 2, 'abs': 3, 'indy': 4, 'zpx': 5, 'absy': 6, 'absx': 7}
MODES = {}
for _m, _a in G1.items():
    MODES[_m] = {k: (_a << 5) | (b << 2) | 1 for k, b in G1_MODES.items() if not (_m == 'STA' and k == 'imm')}
# group two: aaabbb10
G2 = {'ASL': 0, 'ROL': 1, 'LSR': 2, 'ROR': 3, 'STX': 4, 'LDX': 5, 'DEC': 6, 'INC': 7}
for _m, _a in G2.items():
    b = {'zp': 1, 'abs': 3, 'zpx': 5, 'absx': 7}
    if _m in ('ASL', 'ROL', 'LSR', 'ROR'):
        b['acc'] = 2
    if _m == 'LDX':
        b = {'imm': 0, 'zp': 1, 'abs': 3, 'zpy': 5, 'absy': 7}
    if _m == 'STX':
        b = {'zp': 1, 'abs': 3, 'zpy': 5}
    MODES[_m] = {k: (_a << 5) | (v << 2) | 2 for k, v in b.items()}
# group three: aaabbb00
G3 = {'BIT': (1, {'zp': 1, 'abs': 3}), 'JMP': (2, {'abs': 3}), 'STY': (4, {'zp': 1, 'abs': 3, 'zpx': 5}),
      'LDY': (5, {'imm': 0, 'zp': 1, 'abs': 3, 'zpx': 5, 'absx': 7}), 'CPY': (6, {'imm': 0, 'zp': 1, 'abs': 3}),
      'CPX': (7, {'imm': 0, 'zp': 1, 'abs': 3})}
for _m, (_a, b) in G3.items():
    MODES[_m] = {k: (_a << 5) | (v << 2) for k, v in b.items()}
MODES['JMP']['ind'] = 0x6C
MODES['JSR'] = {'abs': 0x20}

SYNTAX = {'imm': '{0} #{1}', 'zp': '{0} {1}', 'abs': '{0} {1}', 'zpx': '{0} {1},X', 'absx': '{0} {1},X', 'zpy': '{0} {1},Y',
          'absy': '{0} {1},Y', 'ind': '{0} ({1})', 'indx': '{0} ({1},X)', 'indy': '{0} ({1}),Y', 'acc': '{0} A'}
PAIR = {'abs': 'zp', 'absx': 'zpx', 'absy': 'zpy'}


def forms():
    out = []
    for m, op in IMPLIED.items():
        out.append(Form(m, m, [], lambda v, op=op: bytes([op])))
    for m, op in BRANCH.items():
        out.append(Form(m, m + ' {0}', [Rel(8, 2)], lambda v, op=op: bytes([op, v[0] & 255])))
    for m, modes in MODES.items():
        for mode, op in modes.items():
            t = SYNTAX[mode].replace('{0}', m).replace('{1}', '{0}')
            if mode == 'acc':
                out.append(Form(m + ' acc', t, [], lambda v, op=op: bytes([op])))
            elif mode == 'imm':
                out.append(Form(m + ' imm', t, [Imm(8)], lambda v, op=op: bytes([op, v[0] & 255])))
            elif mode in ('zp', 'zpx', 'zpy', 'indx', 'indy'):
                # chosen for known values that fit a byte; labels are handled by zp_programs()
                has_abs = mode in ('zp', 'zpx', 'zpy') and {'zp': 'abs', 'zpx': 'absx', 'zpy': 'absy'}[mode] in modes
                s = Imm(16, label=False, ok=lambda v: 0 <= v <= 255, refuse=not has_abs)
                out.append(Form(m + ' ' + mode, t, [s], lambda v, op=op: bytes([op, v[0]]), tags=('zp',)))
            else:
                alt = PAIR.get(mode) in modes
                s = Imm(16, ok=(lambda v: v > 255 or v < 0) if alt else None, label_ok=(lambda v: v > 255) if alt else None,
                        ok_refuse=False, extra=(256, 257, 0x1FF))
                f = Form(m + ' ' + mode, t, [s], lambda v, op=op: bytes([op, v[0] & 255, v[0] >> 8 & 255]))
                out.append(f)
    return out


def negatives(rng):
    """every mnemonic with every addressing syntax it does not have"""
    for m, modes in MODES.items():
        for mode, t in SYNTAX.items():
            if mode in modes:
                continue
            if mode in ('zp', 'zpx', 'zpy') and {'zp': 'abs', 'zpx': 'absx', 'zpy': 'absy'}[mode] in modes:
                continue  # falls back to the absolute form
            if mode in PAIR and PAIR[mode] in modes:
                vals = [256, 0xFFFF, 0x1234]
            elif mode in ('zp', 'zpx', 'zpy') or mode in ('indx', 'indy', 'imm'):
                vals = [0, 1, 0x44, 255]
            else:
                vals = [0, 0x44, 255, 256, 0xFFFF]
            for v in vals:
                yield t.replace('{0}', m).replace('{1}', rng.choice(('$%x' % v, str(v))))
    for m in IMPLIED:
        for t in ('A', '#1', '$10', '($10,X)', '$10,X', '$1234'):
            yield m + ' ' + t
    for m in BRANCH:
        for t in ('#1', '$10,X', '(1)', 'A,1', ''):
            yield (m + ' ' + t).strip()
    for m in MODES:
        if 'acc' not in MODES[m]:
            yield m + ' A'
        yield m
        yield m + ' #'
        yield m + ' $10,Z'
        yield m + ' ($10,Y)'
        yield m + ' ($10),X'
        yield m + ' $10,X,Y'


def cpu():
    return Cpu('6502', AssemblerMOS6502, forms(), Num.of(AssemblerMOS6502), False, ('NOP', b'\xEA'), negatives)
