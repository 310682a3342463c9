"""C37: the predefined names of the console front ends stand for the documented addresses."""
import importlib
from ..harness import Check, execute, hx
from ..cpu import all_cpus
from .. import jobs as J

# documented addresses of the consoles (Pan Docs, NESdev wiki, SMS Power)
NAMES = {
    'gameboy': {'VRAM': 0x8000, 'LCDC': 0xFF40, 'STAT': 0xFF41, 'SCY': 0xFF42, 'SCX': 0xFF43, 'LY': 0xFF44, 'LYC': 0xFF45, 'WY': 0xFF4A, 'WX': 0xFF4B,
                'TMAP0': 0x9800, 'TMAP1': 0x9C00, 'WRAM': 0xC000, 'WRAM0': 0xC000, 'WRAM1': 0xD000, 'HRAM': 0xFF80},
    'nes': {'PPUCTRL': 0x2000, 'PPUMASK': 0x2001, 'PPUSTATUS': 0x2002, 'OAMADDR': 0x2003, 'OAMDATA': 0x2004, 'PPUSCROLL': 0x2005, 'PPUADDR': 0x2006, 'PPUDATA': 0x2007, 'OAMDMA': 0x4014},
    'sms': {'RAM': 0xC000, 'JOY1': 0xDC, 'JOY2': 0xDD, 'PSG': 0x7F, 'VDPDATA': 0xBE, 'VDPADDR': 0xBF, 'CMD_VRAM': 0x40, 'CMD_REG': 0x80, 'CMD_CRAM': 0xC0},
    'psx': {},
}
# instructions taking the name: (text, bytes)
w = lambda v: bytes((v & 255, v >> 8))  # noqa: E731
USES = {
    'gameboy': [('LD A, (%s)', lambda v: b'\xFA' + w(v)), ('LD (%s), A', lambda v: b'\xEA' + w(v)), ('LD HL, %s', lambda v: b'\x21' + w(v)), ('LD DE, %s+1', lambda v: b'\x11' + w(v + 1)),
                ('LD SP, %s', lambda v: b'\x31' + w(v)), ('LD A, <%s', lambda v: b'\x3E' + w(v)[:1]), ('LD A, [%s]', lambda v: b'\xFA' + w(v))],
    'nes': [('LDA %s', lambda v: b'\xAD' + w(v)), ('STA %s', lambda v: b'\x8D' + w(v)), ('STX %s', lambda v: b'\x8E' + w(v)), ('BIT %s', lambda v: b'\x2C' + w(v)), ('STA %s, X', lambda v: b'\x9D' + w(v)),
            ('LDA #<%s', lambda v: b'\xA9' + w(v)[:1]), ('LDA #>%s', lambda v: b'\xA9' + w(v)[1:])],
    'sms': [('LD HL, %s', lambda v: b'\x21' + w(v)), ('LD BC, %s', lambda v: b'\x01' + w(v)), ('LD A, <%s', lambda v: b'\x3E' + w(v)[:1]), ('LD (%s), A', lambda v: b'\x32' + w(v))],
    'psx': [],
}
PORTS = [('OUT (%s), A', lambda v: bytes((0xD3, v))), ('IN A, (%s)', lambda v: bytes((0xDB, v))), ('LD A, %s', lambda v: bytes((0x3E, v))), ('OR %s', lambda v: bytes((0xF6, v)))]

# the Game Boy front end always stores the checksums of the header
HEADS = {'gameboy': ('.org 0\n.fill 336\n.org 2000\n', 336)}


def main():
    chk = Check('C37', 'every predefined name of every front end in data and in the operands of instructions, alone and in expressions, with whole-name boundaries, other letter case, redefinition '
                'by the program, use as macro argument and in includes of other front ends; names of one front end used in all others; the addresses come from the documentation of the '
                'consoles; every use is non-trivial', 1500)
    rng = chk.rng
    classes = {k: J.cls_of(('platform', k)) for k in NAMES}
    order = list(classes)

    def check(cls, who, src, want, mech):
        head, skip = HEADS.get(who, ('', 0))
        r = execute(cls, head + src)
        chk.case((who, src), '%s: %s' % (who, src))
        chk.expect(r.ok and r.data[skip:] == want, mech + '/' + who, lambda: '%s: %r gives %s, expected [%s]' % (who, src, r.brief(), hx(want)), {'platform': who, 'source': src})
    for rnd in range(chk.n(3, 40)):
        rng.shuffle(order)
        for who in order:
            cls = classes[who]
            for name, v in sorted(NAMES[who].items()):
                chk.see('names', (who, name))
                check(cls, who, '.dw %s' % name, w(v), 'word')
                check(cls, who, '.dd 1, %s, 2' % name, b'\1\0\0\0' + v.to_bytes(4, 'little') + b'\2\0\0\0', 'dword')
                check(cls, who, '.db <%s' % name, w(v)[:1], 'low')
                check(cls, who, '.db >%s' % name, w(v)[1:], 'high')
                k = rng.randrange(1, 30)
                check(cls, who, '.dw %s+%d, %s-%d' % (name, k, name, k), w(v + k) + w((v - k) % 65536), 'expression')
                check(cls, who, '.org %s\nhere:\n.dw here' % name, w(v), 'origin')
                check(cls, who, '.repeat 2\n.dw %s\n.endrepeat' % name, w(v) * 2, 'repeat')
                check(cls, who, '.define mine %s\n.dw mine' % name, w(v), 'alias')
                n2 = rng.randrange(65536)
                check(cls, who, '.dw %s\n.define %s %d\n.dw %s' % (name, name, n2, name), w(v) + w(n2), 'redefined')
                check(cls, who, '.db "%s"' % name, name.encode(), 'text')
                for other in (name + 'X', 'X' + name, name + '_1', name + '.1', name + '0', '_' + name):
                    if other in NAMES[who]:
                        continue
                    check(cls, who, '.dw %s\n.org %d\n%s:' % (other, n2, other), w(n2), 'longer-name')
                uses = list(USES[who]) + (PORTS if who == 'sms' and v < 256 else [])
                for text, f in uses:
                    if '+1' in text and v == 65535:
                        continue
                    check(cls, who, text % name, f(v), 'operand')
                    check(cls, who, '.macro put x\n%s\n.endmacro\nput %s' % (text % 'x', name), f(v), 'macro')
                    check(cls, who, '.macro put x\n%s\n.endmacro\nput 5' % (text % name), f(v), 'macro-body')
                # nothing of it in the other front ends, whatever ran before
                for o in order:
                    if name in NAMES[o]:
                        continue
                    head, skip = HEADS.get(o, ('', 0))
                    r = execute(classes[o], head + '.dw %s\n.org %d\n%s:' % (name, n2, name))
                    chk.case((o, name, rnd, n2))
                    big = getattr(classes[o], 'big_endian', False)
                    chk.expect(r.ok and r.data[skip:skip + 2] == n2.to_bytes(2, 'big' if big else 'little'), 'leaked/' + o, lambda: '%s of %s means something in %s: %s' % (name, who, o, r.brief()),
                               {'platform': o, 'name': name})
        for cpu in all_cpus():
            for who in NAMES:
                for name in NAMES[who]:
                    chk.case((cpu.name, name))
                    r = execute(cpu.factory, '.dw %s' % name)
                    chk.expect(not r.ok, 'leaked/' + cpu.name, lambda: '%s of %s means something for the plain %s: %s' % (name, who, cpu.name, r.brief()), {'cpu': cpu.name, 'name': name})
    chk.require('names', 33)
    chk.finish()
