"""C30: Game Boy images."""
from ..harness import Check, execute, hx
from ..cpu import all_cpus
from . import platform_oracle as P
from .c01 import cpu_lines
from necroassembler.platforms.gameboy import AssemblerGameboy
from necroassembler.cpu.lr35902 import AssemblerLR35902

LOGO = bytes.fromhex('CEED6666CC0D000B03730083000C000D0008111F8889000EDCCC6EE6DDDDD999BBBB67636E0EECCCDDDC999FBBB9333E')
FIELDS = {'title': (0x134, 16), 'license': (0x144, 2), 'cgb': (0x143, 1), 'sgb': (0x146, 1), 'type': (0x147, 1), 'destination': (0x14A, 1)}


def spell(rng, v):
    return rng.choice(('%d', '$%x', '$00%x', '$%02X')) % v


def field(rng):
    """a header directive -> (text, address, bytes)"""
    k = rng.choice(list(FIELDS))
    at, size = FIELDS[k]
    n = rng.choice((1, size, rng.randrange(1, size + 1)))
    data = bytes(rng.choice(b'ABCZ 09!;,(') for _ in range(n))
    if rng.random() < .5:
        text = '"%s"' % data.decode()
    elif rng.random() < .5:
        data = bytes(rng.randrange(256) for _ in range(n))
        text = ', '.join(spell(rng, v) for v in data)
    else:
        k2 = rng.randrange(0, n)
        tail = bytes(rng.randrange(256) for _ in range(n - k2))
        data = data[:k2] + tail
        text = ('"%s" ' % data[:k2].decode() if k2 else '') + ' '.join(spell(rng, v) for v in tail)
    return '.%s %s' % (rng.choice(('cartridge_%s', 'CARTRIDGE_%s', 'Cartridge_%s')) % k, text), at, data


def main():
    chk = Check('C30', 'random Game Boy programs (code, data, label references before and after the header, plain and bounded origins, 0x150 bytes to 64 KB) with random header '
                'directives in any order and place; image compared byte by byte with the plain program, an own header and checksums computed by an independent statement '
                'of the format; refusals of misplaced or malformed header directives; every program is non-trivial', 1200)
    rng = chk.rng
    cpu = [c for c in all_cpus() if c.name == 'lr35902']
    chk.expect(True, 'none', '')
    for i in range(chk.n(1500, 15000)):
        # the first 256 bytes, the part after the header, and label uses in both
        style = rng.choice(('plain', 'bounded whole', 'bounded own', 'other origin', 'bounded before'))
        uses = []       # (image offset, name)
        labels = {}
        pre, img = [], bytearray()
        pre.append({'plain': '.org 0', 'bounded whole': '.org 0 %d' % 0x7FFF, 'bounded own': '.org 0 %d' % 0xFF, 'other origin': '.org $4000', 'bounded before': '.org 0 $FF'}[style])
        size = 0x8000 if style == 'bounded whole' else 0
        base = 0x4000 if style == 'other origin' else 0
        left = 256 if style != 'bounded own' or rng.random() < .5 else rng.randrange(200, 257)
        names = ['start', 'vec', 'tail', 'mid']
        while len(img) < left:
            r = rng.random()
            if r < .1 and 'vec' not in labels:
                labels['vec'] = base + len(img)
                pre.append('vec:')
            if r < .4 and left - len(img) >= 2:
                n = rng.choice(names)
                pre.append('.dw ' + n)
                uses.append((len(img), n))
                img += bytes(2)
            else:
                k = min(left - len(img), rng.randrange(1, 40))
                d = bytes(rng.randrange(256) for _ in range(k))
                pre.append('.db ' + ', '.join(spell(rng, v) for v in d))
                img += d
        lines = pre[:]
        if style == 'bounded own':
            img += bytes(256 - len(img))
            lines.append('.org $100 %d' % rng.choice((0x14F, 0x1FF, 0x3FFF)))
            size = int(lines[-1].split()[-1]) + 1
        lines.append(rng.choice(('.cartridge', '.CARTRIDGE', '.Cartridge')))
        header = bytearray(b'\x00\xC3\x50\x01' + LOGO + bytes(22) + b'\x01\x33' + bytes(4))
        assert len(header) == 0x50
        img += header
        body = []
        pc = 0x150
        fields = [field(rng) for _ in range(rng.randrange(0, 6))]
        fi = 0
        room = size - 0x150 if size else 10 ** 6
        bank = None
        for _ in range(rng.randrange(0, 14)):
            if fi < len(fields) and rng.random() < .5:
                body.append(fields[fi][0])
                fi += 1
            r = rng.random()
            if r < .2:
                todo = [n for n in names if n not in labels]
                if todo:
                    labels[todo[0]] = pc
                    body.append(todo[0] + ':')
            elif r < .45 and room >= 2:
                n = rng.choice(names)
                body.append('.dw ' + n)
                uses.append((len(img), n))
                img += bytes(2)
                pc += 2
                room -= 2
            elif r < .6 and cpu and room >= 20:
                for l, b in cpu_lines(rng, cpu[0], rng.randrange(1, 5)):
                    body.append(l)
                    img += b
                    pc += len(b)
                    room -= len(b)
            else:
                d = bytes(rng.randrange(256) for _ in range(rng.randrange(0, min(60, max(1, room)))))
                if d:
                    body.append('.db ' + ', '.join(spell(rng, v) for v in d))
                    img += d
                    pc += len(d)
                    room -= len(d)
        body += [f[0] for f in fields[fi:]]
        if rng.random() < .1 and not size:
            k = rng.choice((0x8000, 0xFFF0)) - len(img)
            body.append('.fill %d $%x' % (k, rng.randrange(256)))
            img += bytes([int(body[-1].split('$')[1], 16)]) * k
            pc += k
        for n in names:
            if n not in labels:
                labels[n] = pc
                body.append(n + ':')
        lines += body
        if size:
            img += bytes(size - len(img))
        for at, n in uses:
            img[at:at + 2] = labels[n].to_bytes(2, 'little')
        plain = bytes(img)
        for _, at, d in fields:
            img[at:at + len(d)] = d
        want = P.gameboy(img)
        src = '\n'.join(lines) + '\n'
        r = execute(AssemblerGameboy, src)
        chk.case(src, src[:200] + ' ...')
        chk.count('images')
        chk.see('styles', style)
        rep = {'source': src, 'expected': want.hex(), 'observed': r.brief(), 'header': hx(r.data[0x100:0x150]) if r.ok else None}
        if not chk.expect(r.ok, 'refused/' + style, lambda: '%r refused: %s' % (src[-400:], r.brief()), rep):
            continue
        g = r.data
        chk.expect(len(g) == len(want), 'size', lambda: 'image has %d bytes, expected %d' % (len(g), len(want)), rep)
        chk.expect(g[0x104:0x134] == LOGO, 'logo', lambda: 'logo is %s' % hx(g[0x104:0x134]), rep)
        chk.expect(g[0x134:0x14D] == want[0x134:0x14D], 'fields', lambda: 'header fields %s, expected %s for %s' % (hx(g[0x134:0x14D]), hx(want[0x134:0x14D]), [f[0] for f in fields]), rep)
        chk.expect(g[0x14D:0x14E] == want[0x14D:0x14E], 'header-checksum', lambda: 'header checksum %s, expected %s' % (hx(g[0x14D:0x14E]), hx(want[0x14D:0x14E])), rep)
        chk.expect(g[0x14E:0x150] == want[0x14E:0x150], 'global-checksum', lambda: 'global checksum %s, expected %s' % (hx(g[0x14E:0x150]), hx(want[0x14E:0x150])), rep)
        chk.expect(g == want, 'program', lambda: 'first difference at %x' % next((k for k, (a, b) in enumerate(zip(g, want)) if a != b), -1), rep)
        for n, v in labels.items():
            x = r.asm.get_label_absolute_address_by_name(n)
            chk.expect(x == v, 'label', lambda: 'label %s is %r, expected %x in %r' % (n, x, v, src[-300:]), rep)
        # the same program without header directives on the plain CPU
        if i % 10 == 0:
            p = execute(AssemblerLR35902, '\n'.join(l if not l.lower().startswith('.cartridge') else ('.db ' + ', '.join(map(str, header)) if l.lower() == '.cartridge' else '') for l in
                                                   [x if x.lower() != '.cartridge' else x for x in lines]) + '\n') if style not in ('other origin', 'bounded before') else None
            if p is not None:
                chk.count('plain_programs_compared')
                chk.expect(p.ok and p.data == plain, 'oracle', lambda: 'plain CPU gives %s' % p.brief(), rep)
    # where and how header directives are refused
    for n in list(range(0, 20)) + [254, 255, 257, 258, 300, 0x14F, 0x150, 0x200] + [rng.randrange(258, 5000) for _ in range(20)]:
        for org in ('', '.org 0\n', '.org $100\n', '.org $4000\n'):
            if n == 256:
                continue
            src = org + '.fill %d\n.cartridge\n.fill $400\n' % n
            r = execute(AssemblerGameboy, src)
            chk.case(src, src)
            chk.count('misplaced_headers')
            chk.expect(not r.ok, 'misplaced', lambda: '.cartridge accepted at rom offset %d (%r)' % (n, src), {'source': src})
    H = '.fill 256\n.cartridge\n'
    # fields before (or without) the header, also where the image is long enough to hold them
    for text in ('title "X"', 'license "AB"', 'cgb 128', 'sgb 3', 'type 1', 'destination 0'):
        for n in (0, 1, 255, 256, 0x133, 0x134, 0x144, 0x150, 0x200, 0x8000, rng.randrange(1, 0x9000)):
            for tail in ('', '.cartridge\n') if n == 256 else ('',):
                src = '.fill %d\n.cartridge_%s\n%s.fill $400\n' % (n, text, tail)
                r = execute(AssemblerGameboy, src)
                chk.case(src, src)
                chk.count('fields_without_header')
                chk.expect(not r.ok, 'no-header', lambda: '%r accepted without a header' % src, {'source': src})
    # a header written as data has its checksums computed as well
    for i in range(chk.n(60, 600)):
        head = bytearray(b'\x00\xC3\x50\x01' + LOGO + bytes(rng.randrange(256) for _ in range(28)))
        body = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))
        n = rng.choice((0x8000, 0x8000, 0x4000, 0x150 + len(body), 0x10000))
        pre = rng.choice(('.fill 256\n', '.org 0 255\n.org $100\n', '.fill 255\nNOP\n'))
        src = pre + '.db %s\n' % ', '.join(map(str, head))
        if rng.random() < .5:
            k = rng.randrange(1, 0x50)
            src = pre + '.db %s\n.db %s\n' % (', '.join(map(str, head[:k])), ', '.join(map(str, head[k:])))
        src += '.db %s\n.fill %d $FF\n' % (', '.join(map(str, body)), n - 0x150 - len(body))
        want = P.gameboy(bytearray(256) + head + body + b'\xff' * (n - 0x150 - len(body)))
        r = execute(AssemblerGameboy, src)
        chk.case(src, None)
        chk.count('headers_as_data')
        chk.expect(r.ok and r.data == want, 'data-header', lambda: '%r gives %s, expected checksums %s' % (src[:300], r.ok and hx(r.data[0x14D:0x150]) or r.brief()[:200], hx(want[0x14D:0x150])), {'source': src})
    # banks: many origins, up to 2 MB
    for i in range(chk.n(24, 200)):
        banks = rng.choice((2, 3, 4, 5, 8, 16, 17, 32, 64, 128))
        fields = [field(rng) for _ in range(rng.randrange(0, 4))]
        lines = ['.org 0 255', '.org $100 $3FFF', '.cartridge']
        lines += [f[0] for f in fields]
        img = bytearray(0x4000)
        img[0x100:0x150] = b'\x00\xC3\x50\x01' + LOGO + bytes(22) + b'\x01\x33' + bytes(4)
        for _, at, d in fields:
            img[at:at + len(d)] = d
        at = {}
        for b in range(1, banks):
            fill = rng.choice((0, 255, rng.randrange(256)))
            lines += ['.org $4000', 'bank%d: .db %d' % (b, b), '.dw bank%d, main' % rng.randrange(1, banks)]
            body = bytes([b]) + b'\x00\x40\x50\x01'
            k = 0x4000 - 5
            lines.append(rng.choice(('.fill %d %d' % (k, fill), '.goto $8000 %d' % fill, '.upto $4000 %d' % fill)))
            img += body + bytes([fill]) * k
        lines.insert(3 + len(fields), 'main:')
        src = '\n'.join(lines) + '\n'
        want = P.gameboy(img)
        r = execute(AssemblerGameboy, src)
        chk.case((i, src), src[:200])
        chk.count('banked_images')
        chk.expect(r.ok and r.data == want, 'banks', lambda: '%d banks: %s, first difference at %s' % (
            banks, r.brief()[:100], r.ok and next((hex(k) for k, (a, b) in enumerate(zip(r.data, want)) if a != b), 'end')), {'source': src[:20000]})
    bad = ['.fill 256\n.cartridge_title "X"\n.cartridge', H + '.cartridge', H + '.cartridge_title', H + '.cartridge_title "12345678901234567"', H + '.cartridge_title "1234567890123456" 1',
           H + '.cartridge_title label\nlabel:', H + '.cartridge_title 256', H + '.cartridge_license "ABC"', H + '.cartridge_cgb 1 2', H + '.cartridge_sgb "ab"', H + '.cartridge_type 0 1',
           H + '.cartridge_destination 300', H + '.cartridge_license 1 2 3', H + '.cartridge_type', H + '.cartridge_cgb -129', H + '.cartridge_cgb x']
    for src in bad:
        r = execute(AssemblerGameboy, src + '\n.fill 16\n')
        chk.case(src, src)
        chk.count('malformed_fields')
        chk.expect(not r.ok, 'malformed', lambda: '%r accepted' % src, {'source': src})
    chk.require('styles', 5)
    chk.finish()
