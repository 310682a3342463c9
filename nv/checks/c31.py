"""C31: NES images and their symbol files."""
import os
import re
import tempfile
from ..harness import Check, execute, hx
from ..cpu import all_cpus
from .c01 import cpu_lines
from .c18 import run_inside
from necroassembler.platforms.nes import AssemblerNES


def spell(rng, v):
    return rng.choice(('%d', '$%x', '$00%x', '$%02X')) % v


def case_of(rng, t):
    return rng.choice((t, t.upper(), t.title()))


def program(rng, cpu):
    """-> (lines, header, body, labels {name: address})"""
    lines, img, labels = [], bytearray(), {}
    uses = []
    names = ['start', 'nmi', 'irq', 'loop', 'buf', 'player_x', 'Score', 'zp0', 'tmp', 'io', 'wram', 'end_of_bank', 'a1', 'Z9', '_nmi', '__tmp', '_', 'x_', 'ram', 'RAM_top', 'nl', 'a_rather_long_name_of_a_label_0123456789']
    rng.shuffle(names)
    names = names[:rng.randrange(1, len(names) + 1)]
    pending = list(names)

    def ram_part(out):
        at = rng.choice((0, 1, 0x10, 0x200, 0x300, 0x7F0, 0x7FF, 0x800, 0x6000, 0x1FFF))
        out.append('.org %s' % spell(rng, at))
        for _ in range(rng.randrange(1, 4)):
            if pending and rng.random() < .8:
                n = pending.pop()
                labels[n] = at
                out.append(n + ':')
            k = rng.choice((1, 1, 2, 16, 255, 256))
            if rng.random() < .06:
                k = rng.choice((0x5FFF, 0x7FFF, 0x8000, 0x8001, 0x9000)) if at < 0x6000 else k     # up to another kind of memory
            out.append('.ram %s' % spell(rng, k))
            at += k

    bounded = rng.random() < .4
    low = 0x8000
    while rng.random() < .5:
        ram_part(lines)
    if bounded:
        while len(pending) > 3:
            ram_part(lines)
    lines.append(case_of(rng, '.cartridge'))
    header = bytearray(b'NES\x1a\x02' + bytes(11))
    setters = []
    for _ in range(rng.randrange(0, 5)):
        which = rng.choice((('prg', 4), ('chr', 5)))
        v = rng.choice((0, 1, 2, 4, 8, 16, 255, rng.randrange(256)))
        if rng.random() < .2:
            c = rng.choice('A1z !@~')
            v = ord(c)
            t = '"%s"' % c
        else:
            t = spell(rng, v)
        setters.append((case_of(rng, '.cartridge_%s_roms' % which[0]) + ' ' + t, which[1], v))
    si = 0
    pc = None
    zone = None             # (base, size) of a bounded origin
    for _ in range(rng.randrange(1, 30)):
        while si < len(setters) and rng.random() < .4:
            t, at, v = setters[si]
            lines.append(t)
            header[at] = v
            si += 1
        r = rng.random()
        if r < .2 or pc is None and r < .6:
            base = rng.choice((0x8000, 0xC000, 0xFFFA, 0x7FFF, 0x8010, rng.randrange(0x7000, 0xF000)))
            if bounded:
                if low > 0xF000:
                    continue
                base = low + rng.choice((0, 0, 1, 0x10, rng.randrange(0x800)))
                if zone and rng.random() < .3 and pc < zone[0] + zone[1] - 2:
                    base = rng.randrange(pc + 1, zone[0] + zone[1])        # inside of the previous one
                    img += bytes(base - pc)
                    zone = None
            if zone:
                img += bytes(zone[1] - (pc - zone[0]))
                zone = None
            if bounded:
                size = rng.choice((0x100, 0x400, 64))
                low = max(low, base + size)
                lines.append('.org %s %s' % (spell(rng, base), spell(rng, base + size - 1)))
                zone = (base, size)
            else:
                lines.append('.org %s' % spell(rng, base))
            pc = base
        elif r < .28 and not bounded:
            ram_part(lines)
            pc = None
        elif r < .45 and pending and pc is not None and pc <= 0xFFFF:
            n = pending.pop()
            labels[n] = pc
            lines.append(n + ':' + rng.choice(('', ' NOP')) if not zone else n + ':')
            if lines[-1].endswith('NOP'):
                img.append(0xEA)
                pc += 1
        else:
            room = zone[1] - (pc - zone[0]) if zone else 0x10000 - pc if pc is not None else 100
            q = rng.random()
            if q < .3 and room >= 2:
                n = rng.choice(names)
                uses.append((len(img), n))
                lines.append('.dw ' + n)
                k, d = 2, bytes(2)
            elif q < .5 and cpu and room >= 12:
                d = b''
                for l, b in cpu_lines(rng, cpu, rng.randrange(1, 4)):
                    lines.append(l)
                    d += b
            else:
                d = bytes(rng.randrange(256) for _ in range(min(rng.randrange(1, 20), max(room, 0))))
                if d:
                    lines.append('.db ' + ', '.join(spell(rng, v) for v in d))
            img += d
            if pc is not None:
                pc += len(d)
    if bounded:
        for n in list(pending):
            if pc is not None and pc <= 0xFFFF:
                labels[n] = pc
                lines.append(n + ':')
            else:
                names.remove(n)
                labels[n] = rng.randrange(0x800)
                k = lines.index([l for l in lines if l.lower() == '.cartridge'][0])
                lines[k:k] = ['.org %d' % labels[n], n + ':']
    if zone:
        img += bytes(zone[1] - (pc - zone[0]))
        pc = None
        zone = None
    for t, at, v in setters[si:]:
        lines.append(t)
        header[at] = v
    for n in pending if not bounded else ():
        at = rng.choice((0, 0x7FF, 0x800, 0x7FFF, 0x8000, 0xFFFF, 0x3000))
        labels[n] = at
        lines += ['.org %s' % spell(rng, at), n + ':']
    if rng.random() < .1 and not bounded:
        k = rng.choice((1, 2)) * 0x4000
        lines.append('.fill %d $%x' % (k, 7))
        img += bytes([7]) * k
    if rng.random() < .25 and not bounded:
        # sections and exports say nothing about the addresses
        for k in range(rng.randrange(1, 3)):
            lines.insert(rng.randrange(len(lines) + 1), '.section %s%d %s' % (rng.choice(('code', 'RAM', 'zp', 'chr')), k, rng.choice(('RX', 'RW', 'RWX'))))
        if labels:
            lines.insert(rng.randrange(len(lines) + 1), '.export ' + rng.choice(sorted(labels)))
    for at, n in uses:
        img[at:at + 2] = labels[n].to_bytes(2, 'little')
    return lines, bytes(header), bytes(img), labels


def symbols(labels, lo, hi):
    return sorted(b'$%04X#%s#' % (a, n.encode()) for n, a in labels.items() if lo <= a <= hi)


def main():
    chk = Check('C31', 'random NES programs (RAM variables, code, data, plain and bounded origins, labels in every address range) with header directives in any order and number; '
                'image compared byte by byte with an own 16-byte header plus the program; the same programs through the front end, whose name list files are parsed and '
                'compared with the labels of the generator; refusals of misplaced or malformed header directives; every program is non-trivial', 1200)
    rng = chk.rng
    cpu = [c for c in all_cpus() if c.name == '6502']
    cpu = cpu[0] if cpu else None
    tmp = tempfile.TemporaryDirectory()
    for i in range(chk.n(1600, 12000)):
        lines, header, body, labels = program(rng, cpu)
        src = '\n'.join(lines) + '\n'
        chk.case(src, src[:300])
        chk.count('images')
        want = header + body
        rep = {'source': src, 'expected': want.hex()}
        if i % 4:
            r = execute(AssemblerNES, src)
            if not chk.expect(r.ok, 'refused', lambda: '%r refused: %s' % (src[:500], r.brief()), rep):
                continue
            g = r.data
            for n, v in labels.items():
                x = r.asm.get_label_absolute_address_by_name(n)
                chk.expect(x == v, 'label', lambda: 'label %s is %r, expected %x in %r' % (n, x, v, src[:400]), rep)
        else:
            p, o = os.path.join(tmp.name, 's.asm'), os.path.join(tmp.name, 'o.nes')
            with open(p, 'w') as f:
                f.write(src)
            code, text = run_inside('platforms.nes', [p, o])
            chk.count('front_end_runs')
            if not chk.expect(code == 0, 'front-end', lambda: 'front end fails: %s for %r' % (text[-300:], src[:500]), rep):
                continue
            with open(o, 'rb') as f:
                g = f.read()
            for suffix, lo, hi in (('.0.nl', 0x8000, 0xFFFF), ('.ram.nl', 0, 0x7FF)):
                try:
                    with open(o + suffix, 'rb') as f:
                        nl = f.read()
                except OSError:
                    nl = b'missing'
                ls = nl.split(b'\r\n')
                got = sorted(l for l in ls if l)
                chk.count('symbol_lines', len(got))
                chk.expect(nl == b'' or nl.endswith(b'\r\n') and all(re.fullmatch(rb'\$[0-9A-F]{4}#[^#]+#', l) for l in got), 'symbol-format' + suffix,
                           lambda: '%s is %r' % (suffix, nl), rep)
                w = symbols(labels, lo, hi)
                chk.expect(got == w, 'symbols' + suffix, lambda: '%s has %s, expected %s for %r' % (suffix, got, w, src[:600]), rep)
            for fn in os.listdir(tmp.name):
                os.unlink(os.path.join(tmp.name, fn))
        chk.expect(g[:4] == b'NES\x1a', 'magic', lambda: 'image starts with %s' % hx(g[:4]), rep)
        chk.expect(g[4:5] == header[4:5], 'prg', lambda: 'PRG banks %s, expected %s' % (hx(g[4:5]), hx(header[4:5])), rep)
        chk.expect(g[5:6] == header[5:6], 'chr', lambda: 'CHR banks %s, expected %s' % (hx(g[5:6]), hx(header[5:6])), rep)
        chk.expect(g[6:16] == bytes(10), 'flags', lambda: 'flags %s' % hx(g[6:16]), rep)
        chk.expect(g[16:] == body, 'program', lambda: 'program differs at %x of %x/%x: %r' % (
            next((k for k, (a, b) in enumerate(zip(g[16:], body)) if a != b), -1), len(g) - 16, len(body), src[:600]), rep)
    # refusals
    bad = ['.db 1\n.cartridge', 'NOP\n.cartridge', '.cartridge\n.cartridge', '.org $10 $1F\n.org $8000\n.cartridge', '.fill 1\n.cartridge']
    for which in ('prg', 'chr'):
        d = '.cartridge_%s_roms' % which
        bad += ['.org $8000\n.fill %d\n%s 1' % (k, d) for k in (1, 4, 5, 6, 16, 17, 16384)]
        bad += [d + ' 1', d + ' 1\n.cartridge', '.cartridge\n' + d]
        bad += ['.cartridge\n%s %s' % (d, a) for a in ('1 2', '1, 2', '"AB"', '256', '$100', 'banks', '"A" 1', '1000', '-129', '"A" "B"')]
    for b in bad:
        for pre in ('', '.define X 1\n', '; note\n\n'):
            for post in ('', '\n.org $8000\nNOP', '\nbanks: NOP'):
                s = pre + b + post + '\n'
                r = execute(AssemblerNES, s)
                chk.case(s)
                chk.count('refusals')
                chk.expect(not r.ok, 'accepted', lambda: '%r must be refused, gives %s' % (s, r.brief()), {'source': s})
    chk.require('symbol_lines', 500)
    chk.require('front_end_runs', 200)
    chk.finish()
