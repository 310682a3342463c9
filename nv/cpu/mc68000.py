"""68000 reference: effective addresses and instruction words of the M68000
Programmer's Reference Manual, for the instructions the assembler has.
(xxx).W holds a sign-extended address: label values below 0x8000 are used."""
from ..harness import import_repo
import_repo()
from necroassembler.cpu.mc68000 import AssemblerMC68000
from ..forms import Form, Imm, Rel, Cpu, Reg
from ..toy import Num

D = {'d%d' % i: i for i in range(8)}
D['D5'] = 5
A = {'a%d' % i: i for i in range(8)}
A['A6'] = 6
X = {}
for _i in range(8):
    X['d%d' % _i] = _i << 12
    X['a%d' % _i] = 8 + _i << 12
    X['d%d.w' % _i] = _i << 12
    X['d%d.l' % _i] = _i << 12 | 0x800
    X['A%d.L' % _i] = 8 + _i << 12 | 0x800
    X['a%d.W' % _i] = 8 + _i << 12
X['D2'] = 2 << 12
X['A7'] = 15 << 12
CONDS = ['t', 'f', 'hi', 'ls', 'cc', 'cs', 'ne', 'eq', 'vc', 'vs', 'pl', 'mi', 'ge', 'lt', 'gt', 'le']
SIZES = {'': 2, '.b': 1, '.w': 2, '.l': 4}


def be(v, n):
    return (v & (1 << 8 * n) - 1).to_bytes(n, 'big')


# name: (template, number of slots, slots(size), (mode, register, extension)(values, size))
def _ext8(x, d):
    return be(x | d & 0xFF, 2)


EA = {
    'Dn': ('%s', lambda z: [Reg(D)], lambda v, z: (0, v[0], b'')),
    'An': ('%s', lambda z: [Reg(A)], lambda v, z: (1, v[0], b'')),
    '(An)': ('(%s)', lambda z: [Reg(A)], lambda v, z: (2, v[0], b'')),
    '(An)+': ('(%s)+', lambda z: [Reg(A)], lambda v, z: (3, v[0], b'')),
    '-(An)': ('-(%s)', lambda z: [Reg(A)], lambda v, z: (4, v[0], b'')),
    '(d16,An)': ('(%s, %s)', lambda z: [Imm(16, signed=True), Reg(A)], lambda v, z: (5, v[1], be(v[0], 2))),
    '(d8,An,Xn)': ('(%s, %s, %s)', lambda z: [Imm(8, signed=True), Reg(A), Reg(X)], lambda v, z: (6, v[1], _ext8(v[2], v[0]))),
    '(xxx).W': ('(%s).w', lambda z: [Imm(16, lmax=0x7FFF, lbad=0x10000)], lambda v, z: (7, 0, be(v[0], 2))),
    'xxx.W': ('%s.W', lambda z: [Imm(16, lmax=0x7FFF, lbad=0x10000)], lambda v, z: (7, 0, be(v[0], 2))),
    '(xxx).L': ('(%s).L', lambda z: [Imm(32)], lambda v, z: (7, 1, be(v[0], 4))),
    'xxx.L': ('%s.l', lambda z: [Imm(32)], lambda v, z: (7, 1, be(v[0], 4))),
    'xxx': ('%s', lambda z: [Imm(32)], lambda v, z: (7, 1, be(v[0], 4))),
    '(d16,PC)': ('(%s, PC)', lambda z: [Rel(16, 2)], lambda v, z: (7, 2, be(v[0], 2))),
    '(d8,PC,Xn)': ('(%s, pc, %s)', lambda z: [Rel(8, 2), Reg(X)], lambda v, z: (7, 3, _ext8(v[1], v[0]))),
    '#': ('#%s', lambda z: [Imm(8 * z)], lambda v, z: (7, 4, be(v[0] & (1 << 8 * z) - 1, max(2, z)))),
}
ALL = list(EA)
DATA_ALTERABLE = ['Dn', '(An)', '(An)+', '-(An)', '(d16,An)', '(d8,An,Xn)', '(xxx).W', 'xxx.W', '(xxx).L', 'xxx.L', 'xxx']
CONTROL = ['(An)', '(d16,An)', '(d8,An,Xn)', '(xxx).W', 'xxx.W', '(xxx).L', 'xxx.L', 'xxx', '(d16,PC)', '(d8,PC,Xn)']


def ea(name, first, size):
    t, slots, enc = EA[name]
    s = slots(size)
    n = len(s)
    return t % tuple('{%d}' % (first + k) for k in range(n)), s, lambda v: enc(v[first:first + n], size)


def forms():
    out = []

    def put(fid, text, slots, enc):
        out.append(Form(fid, text, slots, enc))
    for sz, n in SIZES.items():
        code = {1: 1, 2: 3, 4: 2}[n]
        for s in ALL:
            if s == 'An' and n == 1:
                continue
            st, ss, se = ea(s, 0, n)
            for d in DATA_ALTERABLE:
                dt, ds, de = ea(d, len(ss), n)

                def enc(v, se=se, de=de, code=code):
                    (sm, sr, sx), (dm, dr, dx) = se(v), de(v)
                    return be(code << 12 | dr << 9 | dm << 6 | sm << 3 | sr, 2) + sx + dx
                put('move%s %s,%s' % (sz, s, d), 'move%s %s, %s' % (sz, st, dt), ss + ds, enc)
            if n == 1:
                continue
            for m in ('move', 'movea'):
                k = len(ss)

                def enc(v, se=se, code=code, k=k):
                    sm, sr, sx = se(v)
                    return be(code << 12 | v[k] << 9 | 1 << 6 | sm << 3 | sr, 2) + sx
                put('%s%s %s,An' % (m, sz, s), '%s%s %s, {%d}' % (m, sz, st, k), ss + [Reg(A)], enc)
        for m, op in {'ori': 0, 'andi': 2, 'subi': 4, 'addi': 6, 'eori': 10, 'cmpi': 12}.items():
            it, is_, ie = ea('#', 0, n)
            for d in DATA_ALTERABLE:
                dt, ds, de = ea(d, 1, n)

                def enc(v, ie=ie, de=de, op=op, n=n):
                    dm, dr, dx = de(v)
                    return be(op << 8 | {1: 0, 2: 1, 4: 2}[n] << 6 | dm << 3 | dr, 2) + ie(v)[2] + dx
                put('%s%s #,%s' % (m, sz, d), '%s%s %s, %s' % (m, sz, it, dt), is_ + ds, enc)
    for m, op in {'ori': 0, 'andi': 2, 'eori': 10}.items():
        put(m + ' ccr', m + ' #{0}, ccr', [Imm(8)], lambda v, op=op: be(op << 8 | 0x3C, 2) + be(v[0] & 0xFF, 2))
        put(m + ' sr', m + ' #{0}, SR', [Imm(16)], lambda v, op=op: be(op << 8 | 0x7C, 2) + be(v[0], 2))
    for m, op in (('jmp', 0x4EC0), ('jsr', 0x4E80), ('lea', 0x41C0), ('lea.l', 0x41C0)):
        for s in CONTROL:
            st, ss, se = ea(s, 0, 4)
            k = len(ss)
            if m.startswith('lea'):
                def enc(v, se=se, op=op, k=k):
                    sm, sr, sx = se(v)
                    return be(op | v[k] << 9 | sm << 3 | sr, 2) + sx
                put('%s %s' % (m, s), '%s %s, {%d}' % (m, st, k), ss + [Reg(A)], enc)
            else:
                def enc(v, se=se, op=op):
                    sm, sr, sx = se(v)
                    return be(op | sm << 3 | sr, 2) + sx
                put('%s %s' % (m, s), '%s %s' % (m, st), ss, enc)
    word = lambda: Rel(16, 2, align=2, lit_align_refuse=False)
    for c, name in enumerate(CONDS):
        if c > 1:
            for sz in ('', '.w'):
                put('b' + name + sz, 'b%s%s {0}' % (name, sz), [word()], lambda v, c=c: be(0x6000 | c << 8, 2) + be(v[0], 2))
            put('b%s.b' % name, 'b%s.b {0}' % name, [Rel(8, 2, align=2, lit_align_refuse=False, nonzero=True)], lambda v, c=c: be(0x6000 | c << 8 | v[0] & 0xFF, 2))
        for n in (name, 'ra') if c == 1 else (name,):
            for sz in ('', '.w'):
                put('db' + n + sz, 'db%s%s {0}, {1}' % (n, sz), [Reg(D), word()], lambda v, c=c: be(0x50C8 | c << 8 | v[0], 2) + be(v[1], 2))
    put('nop', 'nop', [], lambda v: b'\x4E\x71')
    put('rts', 'RTS', [], lambda v: b'\x4E\x75')
    return out


KINDS = {'D': ['d3', 'D0'], 'A': ['a2'], 'I': ['(a2)'], 'P': ['(a3)+'], 'M': ['-(a4)'], 'd': ['(4, a2)'], 'x': ['(4, a2, d1)'], 'w': ['(4).w', '4.w'],
         'l': ['(4).l', '4.l', '4'], 'q': ['(4, PC)'], 'r': ['(4, PC, a1.l)'], '#': ['#4'], 'lI': ['5(a0)', '-4(a0)'],
         '?': ['(a0', 'a0)', '(d0)', '(d0)+', '-(d0)', '(4, d0)', '(4, a0, 5)', '(4, a0, d8)', '(4, 5)', '()', '(a0, 4)', '((a0))', '#', '(PC)', 'd8', 'a8', 'pc',
               '(4).b', '(4, a0).w', '(4, PC, 5)', '(4, PC, PC)', '#d0', '(#4)', '(#4, a0)', '-(a0)+', '(4, a0, d1.b)', 'd0.w']}
_S = set('DAIPMdxwlqr#')
_DA = set('DIPMdxwl')
LEGAL = {}
for _z in SIZES:
    LEGAL['move' + _z] = {a + b for a in _S for b in _DA | {'A'} if _z != '.b' or 'A' not in a + b}
    for _m in ('ori', 'andi', 'subi', 'addi', 'eori', 'cmpi'):
        LEGAL[_m + _z] = {'#' + b for b in _DA}
for _m in ('movea', 'movea.w', 'movea.l'):
    LEGAL[_m] = {a + 'A' for a in _S}
for _m in ('jmp', 'jsr'):
    LEGAL[_m] = set('Idxwlqr')
LEGAL['lea'] = LEGAL['lea.l'] = {a + 'A' for a in 'Idxwlqr'}
for _c in CONDS[2:]:
    for _z in ('', '.b', '.w'):
        LEGAL['b' + _c + _z] = set('l')
for _c in CONDS + ['ra']:
    for _z in ('', '.w'):
        LEGAL['db' + _c + _z] = {'Dl'}
LEGAL['nop'] = LEGAL['rts'] = {''}


def negatives(rng):
    items = [(k, t) for k, ts in KINDS.items() for t in ts]
    for m, legal in sorted(LEGAL.items()):
        lists = [()] + [(a,) for a in items] + [(a, b) for a in items for b in items]
        lists += [tuple(rng.choice(items) for _ in range(3)) for _ in range(30)]
        for ops in lists:
            k = ''.join(o[0] for o in ops)
            # commas are blanks: two fragments can make up an operand
            if k not in legal and k.count('?') < 2:
                yield (m + ' ' + ', '.join(o[1] for o in ops)).strip()
    for m, legal in sorted(LEGAL.items()):
        if m.endswith('.b') and m[0] != 'd':
            for r in [c + str(n) for c in 'aA' for n in range(8)]:
                for k, ts in items:
                    if k != '?':
                        yield '%s %s, %s' % (m, r, ts)
                        yield '%s %s, %s' % (m, ts, r)
    for t in ('movea.b d0, a0', 'lea.w (a0), a1', 'jmp.l (a0)', 'nop.w', 'bne.l 4', 'dbra.b d0, 4', 'move.x d0, d1', 'ori.b #256, ccr', 'ori #65536, sr'):
        yield t


def cpu():
    return Cpu('68000', AssemblerMC68000, forms(), Num.of(AssemblerMC68000), True, ('nop', b'\x4E\x71'), negatives, max_addr=0xFFFFF0)
