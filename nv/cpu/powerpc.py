"""PowerPC reference: instruction fields of the PowerPC User Instruction Set
Architecture (book I, with the POWER bridge instructions of the 601) and of
books II/III for the cache and system forms. Only operand classes the
assembler declares support for are described: forms with displacement(base),
vector or named condition register operands are not.

Bit numbers in comments and encoders count from the least significant bit."""
import re
from ..harness import import_repo
import_repo()
from necroassembler.cpu.powerpc import AssemblerPowerPC
from ..forms import Form, Imm, Rel, Cpu, Reg
from ..toy import Num

GPR = {}
for _i in range(32):
    GPR['r%d' % _i] = _i
GPR['R7'] = 7
GPR['R31'] = 31
GPR0 = dict(GPR, **{'0': 0})
FPR = {'f%d' % _i: _i for _i in range(32)}
FPR['F9'] = 9

XO = {'add': 266, 'addc': 10, 'adde': 138, 'divw': 491, 'divwu': 459, 'mullw': 235, 'mull': 235, 'subf': 40, 'subfc': 8, 'subfe': 136,
      'doz': 264, 'mul': 107, 'div': 331, 'divs': 363}
XO_HIGH = {'mulhw': 75, 'mulwd': 75, 'mulhwu': 11}            # no overflow bit
XO_SWAP = {'sub': 40, 'subc': 8}                              # subf with the sources swapped
XO_2 = {'addme': 234, 'addze': 202, 'neg': 104, 'subfme': 232, 'subfze': 200, 'abs': 360, 'nabs': 488}
LOGIC = {'and': 28, 'andc': 60, 'eqv': 284, 'nand': 476, 'nor': 124, 'or': 444, 'orc': 412, 'slw': 24, 'srw': 536, 'sraw': 792, 'xor': 316,
         'rrib': 537, 'maskg': 29, 'maskir': 541, 'slq': 152, 'srq': 664, 'sllq': 216, 'srlq': 728, 'sle': 153, 'sre': 665, 'sleq': 217,
         'sreq': 729, 'sraq': 920, 'srea': 921}
SHIMM = {'srawi': 824, 'sliq': 184, 'sriq': 696, 'slliq': 248, 'srliq': 760, 'sraiq': 952}
LOGIC1 = {'cntlzw': 26, 'extsb': 954, 'extsh': 922}
MEMX = {'lbzx': 87, 'lhzx': 279, 'lhax': 343, 'lwzx': 23, 'stbx': 215, 'sthx': 407, 'stwx': 151, 'lhbrx': 790, 'lwbrx': 534, 'sthbrx': 918,
        'stwbrx': 662, 'lswx': 533, 'stswx': 661, 'lwarx': 20, 'lscbx': 277, 'eciwx': 310, 'ecowx': 438}
MEMUX = {'lbzux': 119, 'lhzux': 311, 'lhaux': 375, 'lwzux': 55, 'stbux': 247, 'sthux': 439, 'stwux': 183}
FMEMX = {'lfsx': 535, 'lfdx': 599, 'stfsx': 663, 'stfdx': 727, 'stfiwx': 983}
FMEMUX = {'lfsux': 567, 'lfdux': 631, 'stfsux': 695, 'stfdux': 759}
CACHE = {'icbi': 982, 'dcbt': 278, 'dcbtst': 246, 'dcbz': 1014, 'dcbst': 54, 'dcbf': 86, 'dcba': 758, 'dcbi': 470}
TRAPS = {'lt': 16, 'le': 20, 'eq': 4, 'ge': 12, 'gt': 8, 'nl': 12, 'ne': 24, 'ng': 20, 'llt': 2, 'lle': 6, 'lge': 5, 'lgt': 1, 'lnl': 5, 'lng': 6}
# condition: (BO, bit of the condition register field)
CONDS = {'lt': (12, 0), 'le': (4, 1), 'eq': (12, 2), 'ge': (4, 0), 'gt': (12, 1), 'nl': (4, 0), 'ne': (4, 2), 'ng': (4, 1), 'so': (12, 3),
         'ns': (4, 3), 'un': (12, 3), 'nu': (4, 3)}
CRL = {'crand': 257, 'crandc': 129, 'creqv': 289, 'crnand': 225, 'crnor': 33, 'cror': 449, 'crorc': 417, 'crxor': 193}
SPR = {'xer': 1, 'lr': 8, 'ctr': 9}
FREG2 = {'fmr': 72, 'fabs': 264, 'fneg': 40, 'fnabs': 136, 'frsp': 12, 'fctiw': 14, 'fctiwz': 15}


def spr(n):
    return (n & 31) << 16 | (n >> 5) << 11


def forms():
    out = []

    def put(m, ops, slots, enc, tag=''):
        text = m + (' ' + ', '.join('{%d}' % k for k in range(ops)) if ops else '')
        out.append(Form(m + tag, text, slots, lambda v, enc=enc: (enc(v) & 0xFFFFFFFF).to_bytes(4, 'big')))
    r = lambda: Reg(GPR)
    r0 = lambda: Reg(GPR0)
    f = lambda: Reg(FPR)
    # a label in a signed immediate is its sixteen bits
    si = lambda: Imm(16, signed=True, hexneg=True)
    ui = lambda: Imm(16)
    num = lambda n: Imm(n)
    d3 = lambda op: lambda v: op << 26 | v[0] << 21 | v[1] << 16 | v[2] & 0xFFFF
    # fixed point immediates
    for m, op in {'addic': 12, 'addic.': 13, 'subfic': 8, 'dozi': 9, 'mulli': 7}.items():
        put(m, 3, [r(), r(), si()], d3(op))
    put('addi', 3, [r(), r0(), si()], d3(14))
    put('addis', 3, [r(), r0(), ui()], d3(15))
    put('li', 2, [r(), si()], lambda v: 14 << 26 | v[0] << 21 | v[1] & 0xFFFF)
    put('lis', 2, [r(), ui()], lambda v: 15 << 26 | v[0] << 21 | v[1] & 0xFFFF)
    for m, op in {'ori': 24, 'oris': 25, 'xori': 26, 'xoris': 27, 'andi.': 28, 'andis.': 29}.items():
        put(m, 3, [r(), r(), ui()], lambda v, op=op: op << 26 | v[1] << 21 | v[0] << 16 | v[2] & 0xFFFF)
    # compares
    for m, op, imm, long in (('cmpwi', 11, si, 0), ('cmpdi', 11, si, 1), ('cmplwi', 10, ui, 0), ('cmpldi', 10, ui, 1)):
        put(m, 2, [r(), imm()], lambda v, op=op, l=long: op << 26 | l << 21 | v[0] << 16 | v[1] & 0xFFFF, '/2')
        put(m, 3, [num(3), r(), imm()], lambda v, op=op, l=long: op << 26 | (v[0] & 7) << 23 | l << 21 | v[1] << 16 | v[2] & 0xFFFF, '/crf')
    for m, op, imm in (('cmpi', 11, si), ('cmpli', 10, ui)):
        put(m, 3, [num(3), r(), imm()], lambda v, op=op: op << 26 | (v[0] & 7) << 23 | v[1] << 16 | v[2] & 0xFFFF, '/crf')
        put(m, 4, [num(3), num(1), r(), imm()],
            lambda v, op=op: op << 26 | (v[0] & 7) << 23 | (v[1] & 1) << 21 | v[2] << 16 | v[3] & 0xFFFF, '/crf,L')
    for m, xo, long in (('cmpw', 0, 0), ('cmpd', 0, 1), ('cmplw', 32, 0), ('cmpld', 32, 1)):
        put(m, 2, [r(), r()], lambda v, xo=xo, l=long: 31 << 26 | l << 21 | v[0] << 16 | v[1] << 11 | xo << 1, '/2')
        put(m, 3, [num(3), r(), r()], lambda v, xo=xo, l=long: 31 << 26 | (v[0] & 7) << 23 | l << 21 | v[1] << 16 | v[2] << 11 | xo << 1, '/crf')
    for m, xo in (('cmp', 0), ('cmpl', 32)):
        put(m, 3, [num(3), r(), r()], lambda v, xo=xo: 31 << 26 | (v[0] & 7) << 23 | v[1] << 16 | v[2] << 11 | xo << 1, '/crf')
        put(m, 4, [num(3), num(1), r(), r()],
            lambda v, xo=xo: 31 << 26 | (v[0] & 7) << 23 | (v[1] & 1) << 21 | v[2] << 16 | v[3] << 11 | xo << 1, '/crf,L')
    # traps
    put('twi', 3, [num(5), r(), si()], lambda v: 3 << 26 | (v[0] & 31) << 21 | v[1] << 16 | v[2] & 0xFFFF)
    put('tw', 3, [num(5), r(), r()], lambda v: 31 << 26 | (v[0] & 31) << 21 | v[1] << 16 | v[2] << 11 | 4 << 1)
    for c, to in TRAPS.items():
        put('tw' + c, 2, [r(), r()], lambda v, to=to: 31 << 26 | to << 21 | v[0] << 16 | v[1] << 11 | 4 << 1)
        put('tw%si' % c, 2, [r(), si()], lambda v, to=to: 3 << 26 | to << 21 | v[0] << 16 | v[1] & 0xFFFF)
    # XO form arithmetic: o sets OE (bit 10), the dot sets Rc (bit 0)
    for table, regs in ((XO, 'dab'), (XO_SWAP, 'dba'), (XO_2, 'da'), (XO_HIGH, 'dab')):
        for m, xo in table.items():
            for oe in ((0,) if table is XO_HIGH else (0, 1)):
                for rc in (0, 1):
                    sh = [{'d': 21, 'a': 16, 'b': 11}[x] for x in regs]
                    put(m + 'o' * oe + '.' * rc, len(sh), [r() for _ in sh],
                        lambda v, sh=sh, low=oe << 10 | xo << 1 | rc: 31 << 26 | sum(x << s for x, s in zip(v, sh)) | low)
    put('clcs', 2, [r(), r()], lambda v: 31 << 26 | v[0] << 21 | v[1] << 16 | 531 << 1)
    # X form logic: rS is the second operand
    for m, xo in LOGIC.items():
        for rc in (0, 1):
            put(m + '.' * rc, 3, [r(), r(), r()], lambda v, low=xo << 1 | rc: 31 << 26 | v[1] << 21 | v[0] << 16 | v[2] << 11 | low)
    for m, xo in SHIMM.items():
        for rc in (0, 1):
            put(m + '.' * rc, 3, [r(), r(), num(5)], lambda v, low=xo << 1 | rc: 31 << 26 | v[1] << 21 | v[0] << 16 | (v[2] & 31) << 11 | low)
    for m, xo in LOGIC1.items():
        for rc in (0, 1):
            put(m + '.' * rc, 2, [r(), r()], lambda v, low=xo << 1 | rc: 31 << 26 | v[1] << 21 | v[0] << 16 | low)
    # indexed loads and stores
    def memx(m, xo, a, b, rc=0):
        put(m, 3, [a(), b(), r()], lambda v, low=xo << 1 | rc: 31 << 26 | v[0] << 21 | v[1] << 16 | v[2] << 11 | low)
    for m, xo in MEMX.items():
        memx(m, xo, r, r0)
    memx('lscbx.', 277, r, r0, 1)
    memx('stwcx.', 150, r, r0, 1)
    for m, xo in MEMUX.items():
        memx(m, xo, r, r)
    for m, xo in FMEMX.items():
        memx(m, xo, f, r0)
    for m, xo in FMEMUX.items():
        memx(m, xo, f, r)
    for m, xo in {'lswi': 597, 'stswi': 725}.items():
        put(m, 3, [r(), r0(), num(5)], lambda v, xo=xo: 31 << 26 | v[0] << 21 | v[1] << 16 | (v[2] & 31) << 11 | xo << 1)
    for m, xo in CACHE.items():
        put(m, 2, [r0(), r()], lambda v, xo=xo: 31 << 26 | v[0] << 16 | v[1] << 11 | xo << 1, '/2')
    put('dcbzl', 2, [r0(), r()], lambda v: 31 << 26 | 1 << 21 | v[0] << 16 | v[1] << 11 | 1014 << 1)
    put('dcbt', 3, [r0(), r(), num(4)], lambda v: 31 << 26 | (v[2] & 15) << 21 | v[0] << 16 | v[1] << 11 | 278 << 1, '/th')
    for m, xo, t in (('dst', 342, 0), ('dstt', 342, 1), ('dstst', 374, 0), ('dststt', 374, 1)):
        put(m, 3, [r(), r(), num(2)], lambda v, xo=xo, t=t: 31 << 26 | t << 25 | (v[2] & 3) << 21 | v[0] << 16 | v[1] << 11 | xo << 1)
    put('dss', 1, [num(2)], lambda v: 31 << 26 | (v[0] & 3) << 21 | 822 << 1)
    put('tlbld', 1, [r()], lambda v: 31 << 26 | v[0] << 11 | 978 << 1)
    put('tlbli', 1, [r()], lambda v: 31 << 26 | v[0] << 11 | 1010 << 1)
    # branches
    rel = lambda n: Rel(n, 0, align=4)

    def absolute(n):
        # the processor extends the sign
        return Imm(n, signed=True, ok=lambda v: v % 4 == 0, lmax=(1 << n - 1) - 1, lalign=4, extra=(4, 8, 0x100, (1 << n - 1) - 4))
    for m, low in (('b', 0), ('bl', 1)):
        put(m, 1, [rel(26)], lambda v, low=low: 18 << 26 | v[0] & 0x3FFFFFC | low)
        put(m + 'a', 1, [absolute(26)], lambda v, low=low: 18 << 26 | v[0] & 0x3FFFFFC | 2 | low)
        put('bc' + m[1:], 3, [num(5), num(5), rel(16)], lambda v, low=low: 16 << 26 | (v[0] & 31) << 21 | (v[1] & 31) << 16 | v[2] & 0xFFFC | low)
        put('bc' + m[1:] + 'a', 3, [num(5), num(5), absolute(16)],
            lambda v, low=low: 16 << 26 | (v[0] & 31) << 21 | (v[1] & 31) << 16 | v[2] & 0xFFFC | 2 | low)
    simple = {'b' + c: bo << 21 | bi << 16 for c, (bo, bi) in CONDS.items()}
    simple['bdnz'] = 16 << 21
    simple['bdz'] = 18 << 21
    for m, hi in simple.items():
        for lk in (0, 1):
            s = m + 'l' * lk
            put(s, 1, [rel(16)], lambda v, hi=hi, lk=lk: 16 << 26 | hi | v[0] & 0xFFFC | lk)
            put(s + 'a', 1, [absolute(16)], lambda v, hi=hi, lk=lk: 16 << 26 | hi | v[0] & 0xFFFC | 2 | lk)
            put(m + 'lr' + 'l' * lk, 0, [], lambda v, hi=hi, lk=lk: 19 << 26 | hi | 16 << 1 | lk)
            if m not in ('bdnz', 'bdz'):
                put(m + 'ctr' + 'l' * lk, 0, [], lambda v, hi=hi, lk=lk: 19 << 26 | hi | 528 << 1 | lk)
    for m, xo in (('blr', 16), ('bctr', 528), ('bclr', 16), ('bcctr', 528)):
        for lk in (0, 1):
            s = m + 'l' * lk
            if m in ('blr', 'bctr'):
                put(s, 0, [], lambda v, xo=xo, lk=lk: 19 << 26 | 20 << 21 | xo << 1 | lk)
                put(s, 1, [num(2)], lambda v, xo=xo, lk=lk: 19 << 26 | 20 << 21 | (v[0] & 3) << 11 | xo << 1 | lk, '/bh')
            else:
                put(s, 3, [num(5), num(5), num(2)],
                    lambda v, xo=xo, lk=lk: 19 << 26 | (v[0] & 31) << 21 | (v[1] & 31) << 16 | (v[2] & 3) << 11 | xo << 1 | lk, '/bh')
            if m != 'blr':
                put(s, 2, [num(5), num(5)], lambda v, xo=xo, lk=lk: 19 << 26 | (v[0] & 31) << 21 | (v[1] & 31) << 16 | xo << 1 | lk, '/bo,bi')
    for m, bo in (('bdnzlr', 16), ('bdzlr', 18)):
        for lk in (0, 1):
            put(m + 'l' * lk, 1, [num(2)], lambda v, bo=bo, lk=lk: 19 << 26 | bo << 21 | (v[0] & 3) << 11 | 16 << 1 | lk, '/bh')
    # condition register
    for m, xo in CRL.items():
        put(m, 3, [num(5), num(5), num(5)], lambda v, xo=xo: 19 << 26 | (v[0] & 31) << 21 | (v[1] & 31) << 16 | (v[2] & 31) << 11 | xo << 1)
    put('mcrf', 2, [num(3), num(3)], lambda v: 19 << 26 | (v[0] & 7) << 23 | (v[1] & 7) << 18)
    put('mcrfs', 2, [num(3), num(3)], lambda v: 63 << 26 | (v[0] & 7) << 23 | (v[1] & 7) << 18 | 64 << 1)
    put('mcrxr', 1, [num(3)], lambda v: 31 << 26 | (v[0] & 7) << 23 | 512 << 1)
    # special registers
    put('mfcr', 1, [r()], lambda v: 31 << 26 | v[0] << 21 | 19 << 1)
    put('mfmsr', 1, [r()], lambda v: 31 << 26 | v[0] << 21 | 83 << 1)
    put('mtmsr', 1, [r()], lambda v: 31 << 26 | v[0] << 21 | 146 << 1)
    for n, no in SPR.items():
        put('mf' + n, 1, [r()], lambda v, no=no: 31 << 26 | v[0] << 21 | spr(no) | 339 << 1)
        put('mt' + n, 1, [r()], lambda v, no=no: 31 << 26 | v[0] << 21 | spr(no) | 467 << 1)
    for n, rd, wr in (('mq', 0, 0), ('rtcl', 5, 21), ('rtcu', 4, 20)):
        put('mf' + n, 1, [r()], lambda v, no=rd: 31 << 26 | v[0] << 21 | spr(no) | 339 << 1)
        put('mt' + n, 1, [r()], lambda v, no=wr: 31 << 26 | v[0] << 21 | spr(no) | 467 << 1)
    put('mttbl', 1, [r()], lambda v: 31 << 26 | v[0] << 21 | spr(284) | 467 << 1)
    put('mttbu', 1, [r()], lambda v: 31 << 26 | v[0] << 21 | spr(285) | 467 << 1)
    put('mftb', 1, [r()], lambda v: 31 << 26 | v[0] << 21 | spr(268) | 371 << 1)
    put('mftbu', 1, [r()], lambda v: 31 << 26 | v[0] << 21 | spr(269) | 371 << 1)
    put('mtsrin', 2, [r(), r()], lambda v: 31 << 26 | v[0] << 21 | v[1] << 11 | 242 << 1)
    put('mfsrin', 2, [r(), r()], lambda v: 31 << 26 | v[0] << 21 | v[1] << 11 | 659 << 1)
    # floating point: the suffix s uses opcode 59
    def fp(m, xo, fields, single):
        for op, s in ((63, ''),) + (((59, 's'),) if single else ()):
            for rc in (0, 1):
                sh = [{'d': 21, 'a': 16, 'b': 11, 'c': 6}[x] for x in fields]
                put(m + s + '.' * rc, len(sh), [f() for _ in sh],
                    lambda v, op=op, sh=sh, low=xo << 1 | rc: op << 26 | sum(x << s for x, s in zip(v, sh)) | low)
    for m, xo in {'fadd': 21, 'fsub': 20, 'fdiv': 18}.items():
        fp(m, xo, 'dab', True)
    fp('fmul', 25, 'dac', True)
    for m, xo in {'fmadd': 29, 'fmsub': 28, 'fnmadd': 31, 'fnmsub': 30}.items():
        fp(m, xo, 'dacb', True)
    fp('fsel', 23, 'dacb', False)
    for m, xo in FREG2.items():
        fp(m, xo, 'db', False)
    fp('frsqrte', 26, 'db', False)
    fp('fsqrt', 22, 'db', True)
    for rc in (0, 1):
        put('fres' + '.' * rc, 2, [f(), f()], lambda v, rc=rc: 59 << 26 | v[0] << 21 | v[1] << 11 | 24 << 1 | rc)
        put('mffs' + '.' * rc, 1, [f()], lambda v, rc=rc: 63 << 26 | v[0] << 21 | 583 << 1 | rc)
        put('mtfsfi' + '.' * rc, 2, [num(3), num(4)], lambda v, rc=rc: 63 << 26 | (v[0] & 7) << 23 | (v[1] & 15) << 12 | 134 << 1 | rc)
        put('mtfsf' + '.' * rc, 2, [num(8), f()], lambda v, rc=rc: 63 << 26 | (v[0] & 255) << 17 | v[1] << 11 | 711 << 1 | rc)
        put('mtfsb0' + '.' * rc, 1, [num(5)], lambda v, rc=rc: 63 << 26 | (v[0] & 31) << 21 | 70 << 1 | rc)
        put('mtfsb1' + '.' * rc, 1, [num(5)], lambda v, rc=rc: 63 << 26 | (v[0] & 31) << 21 | 38 << 1 | rc)
    put('fcmpu', 3, [num(3), f(), f()], lambda v: 63 << 26 | (v[0] & 7) << 23 | v[1] << 16 | v[2] << 11)
    put('fcmpo', 3, [num(3), f(), f()], lambda v: 63 << 26 | (v[0] & 7) << 23 | v[1] << 16 | v[2] << 11 | 32 << 1)
    # no operands
    for m, word in {'nop': 24 << 26, 'sc': 17 << 26 | 2, 'sync': 31 << 26 | 598 << 1, 'lwsync': 31 << 26 | 1 << 21 | 598 << 1,
                    'ptesync': 31 << 26 | 2 << 21 | 598 << 1, 'trap': 31 << 26 | 31 << 21 | 4 << 1, 'isync': 19 << 26 | 150 << 1,
                    'eieio': 31 << 26 | 854 << 1, 'rfi': 19 << 26 | 50 << 1, 'tlbia': 31 << 26 | 370 << 1, 'tlbsync': 31 << 26 | 566 << 1,
                    'dssall': 31 << 26 | 1 << 25 | 822 << 1}.items():
        put(m, 0, [], lambda v, word=word: word)
    put('sync', 1, [num(2)], lambda v: 31 << 26 | (v[0] & 3) << 21 | 598 << 1, '/l')
    put('attn', 1, [num(15)], lambda v: (v[0] & 0x7FFF) << 11 | 256 << 1)
    return out


VOCAB = ['r3', 'r0', 'f4', 'f31', 'r32', 'f32', 'cr0', '4(r3)', 'r3(4)', '(r3)', '-', '5']


def negatives(rng):
    """operand lists of the wrong kinds or number. Only mnemonics all of whose
    architected forms are described are used."""
    fs = forms()
    by = {}
    for fm in fs:
        by.setdefault(fm.template.split()[0], []).append(fm)
    # these have further architected forms (named or omitted condition fields)
    more = {'b' + c + s for c in list(CONDS) + ['dnz', 'dz'] for s in ('', 'l', 'a', 'la', 'lr', 'lrl', 'ctr', 'ctrl')}
    more |= {'bctr', 'bctrl', 'blr', 'blrl', 'mcrf', 'mcrfs', 'mcrxr', 'mtfsfi', 'mtfsfi.', 'mftb', 'mffs', 'mtfsf', 'mtfsf.'}
    more |= {m for m in by if m.startswith(('cmp', 'fcmp', 'dcb', 'tlb', 'sync', 'mfcr', 'rfi', 'sc'))}

    def fits(fm, ops):
        if len(ops) != len(fm.slots):
            return False
        for o, s in zip(ops, fm.slots):
            if s.kind == 'reg':
                if o not in s.table:
                    return False
            elif not o.isdigit() or s.kind == 'rel' or not s.legal(int(o)):
                # names could be labels, but none is defined; 5 is no word displacement
                return False
        return True
    for m in sorted(by):
        if m in more:
            continue
        lists = [[]] + [[a] for a in VOCAB] + [[a, b] for a in VOCAB for b in VOCAB]
        lists += [[rng.choice(VOCAB) for _ in range(n)] for n in (3, 3, 3, 3, 3, 3, 4, 4, 5) for _ in range(12)]
        for ops in lists:
            if not any(fits(fm, ops) for fm in by[m]):
                yield (m + ' ' + ', '.join(ops)).strip()


def cpu():
    return Cpu('powerpc', AssemblerPowerPC, forms(), Num.of(AssemblerPowerPC), True, ('nop', bytes([0x60, 0, 0, 0])), negatives, max_addr=0x7FF0)
