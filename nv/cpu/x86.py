"""x86 reference in its three code sizes: opcode map, ModR/M and SIB bytes,
operand-size, address-size and REX prefixes of the Intel manual (volume 2) for
the forms the assembler has. Memory operands are written with blanks around +
and - ([EBX + ESI - 2]) and always carry full displacements. Where the manual
offers several encodings the one listed here is the one the assembler uses."""
from ..harness import import_repo
import_repo()
from necroassembler.cpu.x86 import AssemblerX86
from ..forms import Form, Imm, Rel, Cpu, Reg
from ..toy import Num

R16 = ['AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI']
NAMES = {16: R16, 32: ['E' + r for r in R16], 64: ['R' + r for r in R16]}
ALU = ['ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP']
CC = [('O',), ('NO',), ('B', 'NAE', 'C'), ('NB', 'AE', 'NC'), ('Z', 'E'), ('NZ', 'NE'), ('BE', 'NA'), ('NBE', 'A'), ('S',), ('NS',), ('P', 'PE'), ('NP', 'PO'),
      ('L', 'NGE'), ('NL', 'GE'), ('LE', 'NG'), ('NLE', 'G')]
PLAIN = {'NOP': '90', 'PAUSE': 'F390', 'FWAIT': '9B', 'WAIT': '9B', 'SAHF': '9E', 'LAHF': '9F', 'INSB': '6C', 'OUTSB': '6E', 'MOVSB': 'A4', 'CMPSB': 'A6',
         'STOSB': 'AA', 'LODSB': 'AC', 'SCASB': 'AE', 'RETN': 'C3', 'RET': 'C3', 'LEAVE': 'C9', 'RETF': 'CB', 'XLATB': 'D7', 'INT1': 'F1', 'ICEBP': 'F1',
         'HLT': 'F4', 'CMC': 'F5', 'CLC': 'F8', 'STC': 'F9', 'CLI': 'FA', 'STI': 'FB', 'CLD': 'FC', 'STD': 'FD', 'LOCK': 'F0',
         'VMCALL': '0F01C1', 'VMLAUNCH': '0F01C2', 'VMRESUME': '0F01C3', 'VMXOFF': '0F01C4', 'MONITOR': '0F01C8', 'MWAIT': '0F01C9', 'XGETBV': '0F01D0',
         'XSETBV': '0F01D1', 'RDTSCP': '0F01F9', 'CLTS': '0F06', 'INVD': '0F08', 'WBINVD': '0F09', 'UD2': '0F0B', 'WRMSR': '0F30', 'RDTSC': '0F31',
         'RDMSR': '0F32', 'RDPMC': '0F33', 'SYSENTER': '0F34', 'SYSEXIT': '0F35', 'GETSEC': '0F37', 'EMMS': '0F77', 'CPUID': '0FA2', 'RSM': '0FAA',
         'LFENCE': '0FAEE8', 'MFENCE': '0FAEF0', 'SFENCE': '0FAEF8',
         'FCOM': 'D8D1', 'FCOMP': 'D8D9', 'FXCH': 'D9C9', 'FUCOMPP': 'DAE9', 'FNCLEX': 'DBE2', 'FCLEX': '9BDBE2', 'FNINIT': 'DBE3', 'FINIT': '9BDBE3',
         'FNENI': 'DBE0', 'FENI': '9BDBE0', 'FNDISI': 'DBE1', 'FDISI': '9BDBE1', 'FNSETPM': 'DBE4', 'FSETPM': '9BDBE4', 'FUCOM': 'DDE1', 'FUCOMP': 'DDE9',
         'FADDP': 'DEC1', 'FMULP': 'DEC9', 'FCOMPP': 'DED9', 'FSUBRP': 'DEE1', 'FSUBP': 'DEE9', 'FDIVRP': 'DEF1', 'FDIVP': 'DEF9'}
for _n, _v in zip('FNOP FCHS FABS FTST FXAM FLD1 FLDL2T FLDL2E FLDPI FLDLG2 FLDLN2 FLDZ F2XM1 FYL2X FPTAN FPATAN FXTRACT FPREM1 FDECSTP FINCSTP FPREM FYL2XP1 '
                  'FSQRT FSINCOS FRNDINT FSCALE FSIN FCOS'.split(),
                  bytes.fromhex('D0E0E1E4E5E8E9EAEBECEDEEF0F1F2F3F4F5F6F7F8F9FAFBFCFDFEFF')):
    PLAIN[_n] = 'D9%02X' % _v
NOT64 = {'DAA': '27', 'DAS': '2F', 'AAA': '37', 'AAS': '3F', 'INTO': 'CE', 'AAM': 'D40A', 'AAD': 'D50A', 'SALC': 'D6', 'SETALC': 'D6'}
ONLY64 = {'SYSCALL': '0F05', 'SYSRET': '0F07', 'SWAPGS': '0F01F8'}
# mnemonic: (opcode, operand size)
SIZED = {'INSW': (0x6D, 16), 'INSD': (0x6D, 32), 'OUTSW': (0x6F, 16), 'OUTSD': (0x6F, 32), 'CBW': (0x98, 16), 'CWDE': (0x98, 32), 'CDQE': (0x98, 64),
         'CWD': (0x99, 16), 'CDQ': (0x99, 32), 'CQO': (0x99, 64), 'IRET': (0xCF, 16), 'IRETD': (0xCF, 32), 'IRETQ': (0xCF, 64)}
for _n, _o in (('MOVS', 0xA5), ('CMPS', 0xA7), ('STOS', 0xAB), ('LODS', 0xAD), ('SCAS', 0xAF)):
    for _c, _b in (('W', 16), ('D', 32), ('Q', 64)):
        SIZED[_n + _c] = (_o, _b)
STACK = {'PUSHF': (0x9C, 16), 'POPF': (0x9D, 16), 'PUSHFD': (0x9C, 32), 'POPFD': (0x9D, 32), 'PUSHFQ': (0x9C, 64), 'POPFQ': (0x9D, 64),
         'PUSHA': (0x60, 16), 'POPA': (0x61, 16), 'PUSHAD': (0x60, 32), 'POPAD': (0x61, 32)}
REPS = {'REP': 0xF3, 'REPE': 0xF3, 'REPZ': 0xF3, 'REPNE': 0xF2, 'REPNZ': 0xF2}


def le(v, n):
    return (v & (1 << 8 * n) - 1).to_bytes(n, 'little')


def regs(bits, skip=()):
    t = {n: i for i, n in enumerate(NAMES[bits]) if n not in skip}
    t[NAMES[bits][6].lower()] = 6
    t[NAMES[bits][3].capitalize()] = 3
    return t


def addresses(mode):
    """memory operands without a symbolic displacement: text -> (address size, ModR/M with reg 0 ...)"""
    out = {}
    if mode != 64:
        for i, r in enumerate(('BX + SI', 'BX + DI', 'BP + SI', 'BP + DI', 'SI', 'DI', 'BP', 'BX')):
            out['[%s]' % r] = (16, bytes([i]) if r != 'BP' else b'\x86\0\0')
            d = (1, 2, 127, 128, 300, 32767, 32768, 5)[i]
            out['[%s - %d]' % (r, d)] = (16, bytes([0x80 | i]) + le(-d, 2))
            out['[%s + %d]' % (r.lower(), i * 4000)] = (16, bytes([0x80 | i]) + le(i * 4000, 2))
    for size in (32, 64):
        if size == 64 and mode != 64:
            continue
        n = NAMES[size]
        for i in range(8):
            tail = b'\x24' if i == 4 else b''
            out['[%s]' % n[i]] = (size, bytes([i]) + tail if i != 5 else b'\x85\0\0\0\0')
            d = (1, 2, 127, 128, 32768, 0x7FFFFFFF, 0x80000000, 77777)[i]
            out['[%s - %d]' % (n[i], d)] = (size, bytes([0x80 | i]) + tail + le(-d, 4))
            for x in range(8):
                if x == 4:
                    continue
                sib = bytes([x << 3 | i])
                out['[%s + %s]' % (n[i], n[x])] = (size, b'\x04' + sib if i != 5 else b'\x84' + sib + b'\0\0\0\0')
                out['[%s + %s + %d]' % (n[i], n[x].lower(), 0x12345 * (i + x))] = (size, b'\x84' + sib + le(0x12345 * (i + x), 4))
    return out


def bases(mode, size):
    """bases for a symbolic displacement: text -> bytes before it"""
    if size == 16:
        return {r: bytes([0x80 | i]) for i, r in enumerate(('BX + SI', 'BX + DI', 'BP + SI', 'BP + DI', 'SI', 'DI', 'BP', 'BX'))}
    n = NAMES[size]
    out = {n[i]: bytes([0x80 | i]) + (b'\x24' if i == 4 else b'') for i in range(8)}
    out.update({'%s + %s' % (n[i], n[x]): b'\x84' + bytes([x << 3 | i]) for i, x in ((0, 1), (3, 6), (4, 5), (5, 7), (7, 2))})
    return out


def forms(mode):
    out = []
    sizes = (16, 32) if mode != 64 else (16, 32, 64)
    addr_sizes = (16, 32) if mode != 64 else (32, 64)

    def put(fid, text, slots, enc):
        out.append(Form(fid, text, slots, lambda v, enc=enc: bytes(enc(v))))

    def opsize(bits):
        """(prefix, REX)"""
        return (b'\x66' if bits != 64 and (bits == 16) != (mode == 16) else b'', b'\x48' if bits == 64 else b'')

    def instr(bits, addr, addr_first, op, tail):
        """op: bytes with a mandatory prefix F3 first, if it has one"""
        p66, rex = opsize(bits) if bits else (b'', b'')
        p67 = b'\x67' if addr and addr != mode else b''
        pre = p66 + p67 if addr_first else p67 + p66    # (their order has no meaning for the processor)
        if op[0] == 0xF3:
            return pre + op[:1] + rex + op[1:] + tail
        return pre + rex + op + tail

    def mem(fid, text, slots, enc):
        """enc(values, address size, first, f) with f(reg) = ModR/M bytes"""
        n = len(slots)
        first = text.index('%s') < text.index('{') if '{' in text else True

        def with_reg(b, reg):
            return bytes([b[0] | reg << 3]) + b[1:]
        put(fid + '/m', text % ('{%d}' % n), slots + [Reg(addresses(mode))], lambda v: enc(v, v[n][0], first, lambda r: with_reg(v[n][1], r)))
        for a in addr_sizes:
            b = a // 8 if a == 16 else 4
            d = Imm(16, signed=True) if a == 16 else Imm(32, signed=True, lmax=0x7FFFFFFF, lbad=1 << 32)
            put(fid + '/m%d+d' % a, text % ('[{%d} + {%d}]' % (n, n + 1)), slots + [Reg(bases(mode, a)), d],
                lambda v, a=a, b=b: enc(v, a, first, lambda r: with_reg(v[n], r) + le(v[n + 1], b)))

    def rr(rm, reg):
        return bytes([0xC0 | reg << 3 | rm])

    for z in sizes:
        R = lambda *skip: Reg(regs(z, skip))
        s = '/%d' % z

        def rm_r(m, op, mems=True):
            put(m + s + ' rm,r', m + ' {0}, {1}', [R(), R()], lambda v, op=op, z=z: instr(z, 0, 0, op, rr(v[0], v[1])))
            if mems:
                mem(m + s + ' rm,r', m + ' %s, {0}', [R()], lambda v, a, first, f, op=op, z=z: instr(z, a, first, op, f(v[0])))

        def r_rm(m, op, both=True):
            if both:
                put(m + s + ' r,rm', m + ' {0}, {1}', [R(), R()], lambda v, op=op, z=z: instr(z, 0, 0, op, rr(v[1], v[0])))
            mem(m + s + ' r,rm', m + ' {0}, %s', [R()], lambda v, a, first, f, op=op, z=z: instr(z, a, first, op, f(v[0])))
        for k, m in enumerate(ALU):
            rm_r(m, bytes([k * 8 + 1]))
            r_rm(m, bytes([k * 8 + 3]), both=False)
            if z != 64:
                put(m + s + ' a,i', '%s %s, {0}' % (m, NAMES[z][0]), [Imm(z)], lambda v, k=k, z=z: instr(z, 0, 0, bytes([k * 8 + 5]), le(v[0], z // 8)))
                put(m + s + ' r,i', m + ' {0}, {1}', [R(NAMES[z][0]), Imm(z)], lambda v, k=k, z=z: instr(z, 0, 0, b'\x81', rr(v[0], k) + le(v[1], z // 8)))
        rm_r('TEST', b'\x85')
        r_rm('XCHG', b'\x87')
        rm_r('MOV', b'\x89')
        r_rm('MOV', b'\x8B', both=False)
        r_rm('LEA', b'\x8D', both=False)
        if z != 64:
            put('TEST%s a,i' % s, 'TEST %s, {0}' % NAMES[z][0], [Imm(z)], lambda v, z=z: instr(z, 0, 0, b'\xA9', le(v[0], z // 8)))
            put('TEST%s r,i' % s, 'TEST {0}, {1}', [R(NAMES[z][0]), Imm(z)], lambda v, z=z: instr(z, 0, 0, b'\xF7', rr(v[0], 0) + le(v[1], z // 8)))
            put('IMUL%s r,rm,i' % s, 'IMUL {0}, {1}, {2}', [R(), R(), Imm(z)], lambda v, z=z: instr(z, 0, 0, b'\x69', rr(v[1], v[0]) + le(v[2], z // 8)))
            n3 = Imm(z)
            mt = addresses(mode)
            put('IMUL%s r,m,i' % s, 'IMUL {0}, {1}, {2}', [R(), Reg(mt), n3],
                lambda v, z=z: instr(z, v[1][0], False, b'\x69', bytes([v[1][1][0] | v[0] << 3]) + v[1][1][1:] + le(v[2], z // 8)))
        put('MOV%s r,i' % s, 'MOV {0}, {1}', [R(), Imm(z, lmax=0xFFFFFFFF, lbad=1 << z) if z == 64 else Imm(z)],
            lambda v, z=z: instr(z, 0, 0, bytes([0xB8 | v[0]]), le(v[1], z // 8)))
        for k, m in ((2, 'NOT'), (3, 'NEG'), (4, 'MUL'), (5, 'IMUL'), (6, 'DIV'), (7, 'IDIV')):
            put(m + s, m + ' {0}', [R()], lambda v, k=k, z=z: instr(z, 0, 0, b'\xF7', rr(v[0], k)))
        for k, m in enumerate(('INC', 'DEC')):
            put(m + s, m + ' {0}', [R()], lambda v, k=k, z=z: instr(z, 0, 0, b'\xFF', rr(v[0], k)))
        r_rm('IMUL', b'\x0F\xAF')
        for c, names in enumerate(CC):
            for n in names:
                r_rm('CMOV' + n, bytes([0x0F, 0x40 + c]))
        for m, o in (('BT', 0xA3), ('BTS', 0xAB), ('BTR', 0xB3), ('BTC', 0xBB), ('CMPXCHG', 0xB1), ('XADD', 0xC1)):
            rm_r(m, bytes([0x0F, o]))
        for m, op in (('BSF', b'\x0F\xBC'), ('BSR', b'\x0F\xBD'), ('POPCNT', b'\xF3\x0F\xB8')):
            r_rm(m, op)
        if z != 16:
            put('BSWAP' + s, 'BSWAP {0}', [R()], lambda v, z=z: instr(z, 0, 0, bytes([0x0F, 0xC8 | v[0]]), b''))
        if z != 32:
            for m, o in (('PUSH', 0x50), ('POP', 0x58)):
                put(m + s, m + ' {0}', [R()], lambda v, o=o, z=z: (opsize(16)[0] if z == 16 else b'') + bytes([o | v[0]]))
    if mode != 64:
        cr = Reg({'CR%d' % i: i for i in range(8)} | {'cr3': 3})
        put('MOV r,CR', 'MOV {0}, {1}', [Reg(regs(32)), cr], lambda v: b'\x0F\x20' + rr(v[0], v[1]))
        put('MOV CR,r', 'MOV {0}, {1}', [cr, Reg(regs(32))], lambda v: b'\x0F\x22' + rr(v[1], v[0]))
    rb = 2 if mode == 16 else 4
    rel = lambda n: Rel(8 * rb, n + rb)
    put('CALL', 'CALL {0}', [rel(1)], lambda v: b'\xE8' + le(v[0], rb))
    put('JMP', 'JMP {0}', [rel(1)], lambda v: b'\xE9' + le(v[0], rb))
    for c, names in enumerate(CC):
        for n in names:
            put('J' + n, 'J%s {0}' % n, [rel(2)], lambda v, c=c: bytes([0x0F, 0x80 + c]) + le(v[0], rb))
    direct = {16: b'\x06', 32: b'\x05', 64: b'\x04\x25'}[mode]
    d = Imm(8 * rb) if mode != 64 else Imm(32, signed=True, lmax=0x7FFFFFFF, lbad=1 << 32)
    for k, m in enumerate(('SGDT', 'SIDT', 'LGDT', 'LIDT')):
        put(m, m + ' [{0}]', [d], lambda v, k=k: b'\x0F\x01' + bytes([direct[0] | k << 3]) + direct[1:] + le(v[0], rb))
    for m, op, k in (('INVLPG', b'\x0F\x01', 7), ('XSAVE', b'\x0F\xAE', 4), ('XRSTOR', b'\x0F\xAE', 5)):
        mem(m, m + ' %s', [], lambda v, a, first, f, op=op, k=k: instr(0, a, first, op, f(k)))
    plain = dict(PLAIN, **(NOT64 if mode != 64 else ONLY64))
    simple = {m: bytes.fromhex(h) for m, h in plain.items()}
    for m, (o, z) in SIZED.items():
        if z in sizes:
            simple[m] = b''.join(opsize(z)) + bytes([o])
    for m, (o, z) in STACK.items():
        if z == 64:
            if mode == 64:
                simple[m] = bytes([o])
        elif mode != 64 or z == 16 and m in ('PUSHF', 'POPF'):
            simple[m] = opsize(z)[0] + bytes([o])
    for m, b in simple.items():
        put(m, m if len(m) % 3 else m.lower(), [], lambda v, b=b: b)
        if m[:4] in ('MOVS', 'STOS', 'LODS', 'CMPS', 'SCAS', 'INSB', 'INSW', 'INSD') or m[:4] == 'OUTS':
            for r, p in REPS.items():
                put(r + ' ' + m, r + ' ' + m, [], lambda v, b=b, p=p: bytes([p]) + b)
    return out


def negatives_of(mode):
    sizes = (16, 32) if mode != 64 else (16, 32, 64)
    items = []
    for z in (16, 32, 64):
        r, m = {16: (('BX', 'ax'), ('[BX + SI]', '[BP]', '[DI + 5]')), 32: (('ECX', 'Eax'), ('[EBX]', '[ESP]', '[EAX + EDX - 1]')),
                64: (('RDX', 'rax'), ('[RBP]', '[RSI + RBX]', '[RDI + 9]'))}[z]
        ok = z in sizes
        items += [('r%d' % z if ok else '?', t) for t in r]
        mok = ok if z != 16 else mode != 64
        items += [('m' if mok else '?', t) for t in m]
    items += [('i', '5'), ('c', 'CR0')]
    items += [('?', t) for t in ('[AX]', '[SI + BX]', '[BX + BX]', '[EBX + SI]', '[BX + ESI]', '[EAX + ESP]', '[5 + 5]', '(BX)', 'BX]', '[BX', '[]', '[ESI * 2]', '[EBX + ECX + EDX]',
                                 '[SP]', '[BX + 70000]', '[SI - 40000]', '[EBX + 4294967296]', '[BX EBX]', '[BX + ]', '[BX - SI]')]
    legal = {}

    def ok(ms, *patterns):
        for m in ms.split():
            s = legal.setdefault(m, set())
            for p in patterns:
                if '*' in p:
                    s |= {p.replace('*', str(z)) for z in sizes}
                else:
                    s.add(p)
    ok(' '.join(ALU), 'r* r*', 'm r*', 'r* m', 'r* i')
    ok('TEST XCHG', 'r* r*', 'm r*', 'r* m')
    ok('TEST', 'r* i')
    ok('MOV', 'r* r*', 'm r*', 'r* m', 'r* i', 'c r32', 'r32 c', 'c r64', 'r64 c')
    ok('LEA', 'r* m')
    ok('NOT NEG MUL IMUL DIV IDIV INC DEC', 'r*')
    ok('IMUL', 'r* r*', 'r* m', 'r* i', 'r* r* i', 'r* m i')
    for names in CC:
        for n in names:
            ok('CMOV' + n, 'r* r*', 'r* m')
            ok('J' + n, 'i')
    ok('BT BTS BTR BTC', 'r* r*', 'm r*', 'r* i')
    ok('CMPXCHG XADD', 'r* r*', 'm r*')
    ok('BSF BSR POPCNT', 'r* r*', 'r* m')
    ok('BSWAP', 'r*')
    ok('PUSH POP', 'r16', 'r%d' % mode, 'm', 'i')
    if mode == 16:
        ok('PUSH POP', 'r32')
    ok('INVLPG XSAVE XRSTOR', 'm')
    ok('SGDT SIDT LGDT LIDT', 'm')
    ok('CALL JMP', 'i', 'r*', 'm', 'i i')
    for m in list(PLAIN) + list(SIZED) + ['PUSHF', 'DAA']:
        if m not in ('FCOM', 'FCOMP', 'FXCH', 'FUCOM', 'FUCOMP', 'LOCK', 'NOP'):
            ok(m, '')
    none = [m for m in legal if legal[m] == {''}]
    two = [m for m in legal if m not in none]

    def negatives(rng):
        for z in (16, 32, 64):
            if z not in sizes:
                for m, (o, s) in sorted(SIZED.items()) + [('PUSHFQ', (0, 64))]:
                    if s == z:
                        yield m
        for t in ('REP', 'REP 5', 'MOV', 'CALL', 'INC', 'LEA AX', 'SGDT', 'JZ', 'IMUL'):
            yield t
        for m in none:
            yield m + ' EAX, EAX'
            yield m + ' 5, 5'
        for m in two:
            lists = [()] + [(a,) for a in items] + [(a, b) for a in items for b in items]
            lists += [tuple(rng.choice(items) for _ in range(3)) for _ in range(60)]
            for ops in lists:
                k = ' '.join(o[0] for o in ops)
                if k not in legal[m] and k.count('?') < 2 and not (m in ('CALL', 'JMP') and k != '?') \
                        and not (ops and m in ('SGDT', 'SIDT', 'LGDT', 'LIDT') and k == '?'):
                    yield (m + ' ' + ', '.join(o[1] for o in ops)).strip()
    return negatives


def cpus():
    num = Num.of(AssemblerX86)
    return [Cpu('x86', AssemblerX86, forms(64), num, False, ('NOP', b'\x90'), negatives_of(64), max_addr=0xFFFFF0),
            Cpu('x86 32', AssemblerX86, forms(32), num, False, ('NOP', b'\x90'), negatives_of(32), max_addr=0xFFFFF0, prelude='.bits 32'),
            Cpu('x86 16', AssemblerX86, forms(16), num, False, ('NOP', b'\x90'), negatives_of(16), prelude='.bits 16')]
