"""C32: GBA, Genesis and PlayStation images."""
import os
import tempfile
from ..harness import Check, hx
from ..cpu import all_cpus
from . import platform_oracle as P
from .c01 import cpu_lines
from .c18 import run_inside

# front end -> (reference CPU, first number of bytes the format needs, big endian data, origins)
FRONTS = {'gba': ('thumb', 0xBE, False, (0x08000000, 0)), 'genesis': ('68000', 0x190, True, (0,)), 'psx': ('mips32le', 0, False, (0x80010000, 0))}
PREFIX = {'gba': '0x', 'genesis': '$', 'psx': '0x'}


def program(rng, front, cpu, size):
    """about size bytes -> (lines, image)"""
    _, _, big, origins = FRONTS[front]
    order = 'big' if big else 'little'
    lines, img, labels, uses = [], bytearray(), {}, []
    base = rng.choice(origins)
    if rng.random() < .8 or base:
        lines.append('.org %d' % base)
    else:
        base = 0
    names = ['start', 'main', 'loop', 'table', 'end']
    todo = list(names)
    style = rng.random()
    while len(img) < size:
        room = size - len(img)
        r = rng.random()
        if r < .15 and todo:
            n = todo.pop(0)
            labels[n] = base + len(img)
            lines.append(n + ':')
        elif r < .3 and room >= 4:
            n = rng.choice(names)
            lines.append('.dd ' + n)
            uses.append((len(img), n))
            img += bytes(4)
        elif r < .45 and cpu is not None and room >= 40:
            for l, b in cpu_lines(rng, cpu, rng.randrange(1, 4)):
                lines.append(l)
                img += b
        elif r < .55 and room >= 16:
            k = min(room, rng.choice((16, 64, 300, 1000, 2048)) if size < 0x20000 else rng.choice((64, 0x1001, 0x8000, 0x1FFFF)))
            v = rng.choice((0, 0xFF, rng.randrange(256)))
            lines.append('.fill %d %d' % (k, v))
            img += bytes([v]) * k
        else:
            k = min(room, rng.randrange(1, 33))
            d = bytes(rng.choice((0, 255, rng.randrange(256))) if style < .5 else rng.randrange(256) for _ in range(k))
            lines.append('.db ' + ', '.join((str(v) if rng.random() < .5 else PREFIX[front] + '%x' % v) for v in d))
            img += d
    for n in todo:
        labels[n] = base + len(img)
        lines.append(n + ':')
    for at, n in uses:
        img[at:at + 4] = labels[n].to_bytes(4, order)
    return lines, bytes(img)


def main():
    chk = Check('C32', 'random GBA, Genesis and PlayStation programs (code, data, label references; sizes around the header fields, odd sizes, around the 2048 byte sector and up to 1 MB) '
                'through the front ends, and the file compared byte by byte with the generated program plus an independent statement of the header pass; images too short for '
                'their header refused without output; every program is non-trivial', 800)
    rng = chk.rng
    refs = {c.name: c for c in all_cpus()}
    tmp = tempfile.TemporaryDirectory()
    p, o = os.path.join(tmp.name, 's.asm'), os.path.join(tmp.name, 'o.bin')
    for i in range(chk.n(900, 9000)):
        front = ('gba', 'genesis', 'psx')[i % 3]
        ref, least, _, _ = FRONTS[front]
        size = rng.choice((least, least + 1, least + 2, least + rng.randrange(0x100), 0x1FE, 0x1FF, 0x200, 0x201, 0x202, 0x203, 0x7FF, 0x800, 0x801, 0x1000, 0xFFF,
                           rng.randrange(0x200, 0x3000), rng.choice((0x8000, 0x10001, 0x10200, 0x1FFFF)), 1, 0, 3))
        if i % 60 < 3:
            # cartridges and programs of real sizes
            size = rng.choice((0x20000, 0x20001, 0x20200, 0x3FFFE, 0x40000, 0x40001, 0x80001, 0x80202, 0x100000))
            chk.count('big_images')

        lines, img = program(rng, front, refs.get(ref), size)
        src = '\n'.join(lines) + '\n'
        with open(p, 'w') as f:
            f.write(src)
        if os.path.exists(o):
            os.unlink(o)
        code, text = run_inside('platforms.' + front, [p, o])
        chk.case((front, src), src[:200])
        chk.count('images/' + front)
        rep = {'front_end': front, 'source': src[:5000], 'size': len(img), 'exit': code, 'output': text[-300:]}
        if len(img) < least:
            chk.count('short_images')
            chk.expect(code != 0, 'short/' + front, lambda: '%s: an image of %d bytes, too short for its header, is accepted' % (front, len(img)), rep)
            chk.expect(not os.path.exists(o), 'short-saved/' + front, lambda: '%s: an image of %d bytes, too short for its header, is saved' % (front, len(img)), rep)
            continue
        if not chk.expect(code == 0 and os.path.exists(o), 'fails/' + front, lambda: '%s: %d bytes fail: %s' % (front, len(img), text[-300:]), rep):
            continue
        with open(o, 'rb') as f:
            g = f.read()
        if front == 'psx':
            body = P.psx_body(img)
            want = bytearray(2048)
            want[0:8] = b'PS-X EXE'
            for at, v in ((0x10, 0x80010000), (0x18, 0x80010000), (0x1C, len(body)), (0x30, 0x801FFFF0)):
                want[at:at + 4] = v.to_bytes(4, 'little')
                chk.expect(g[at:at + 4] == want[at:at + 4], 'psx-header-%x' % at, lambda: 'header field at %#x is %s, expected %#x for %d bytes' % (at, hx(g[at:at + 4]), v, len(img)), rep)
            chk.expect(g[:8] == want[:8], 'psx-magic', lambda: 'magic is %r' % g[:8], rep)
            chk.expect(g[0x20:0x30] == bytes(16) and g[0x34:0x4C] == bytes(24) and g[8:16] == bytes(8), 'psx-reserved', lambda: 'unused header fields: %s' % hx(g[:0x4C]), rep)
            chk.expect(g[0x4C:0x4C + 18] == b'Sony Computer Ente', 'psx-marker', lambda: 'marker is %r' % g[0x4C:0x90], rep)
            chk.expect(len(g) % 2048 == 0, 'psx-sectors', lambda: 'the file has %d bytes' % len(g), rep)
            chk.expect(g[2048:] == body, 'psx-program', lambda: 'program of %d bytes differs at %x (file has %d bytes)' % (
                len(img), next((k for k, (a, b) in enumerate(zip(g[2048:], body)) if a != b), -1), len(g)), rep)
        elif front == 'gba':
            want = P.gba(img)
            chk.expect(g[0xBD:0xBE] == want[0xBD:0xBE], 'gba-checksum', lambda: 'header check is %s, expected %s' % (hx(g[0xBD:0xBE]), hx(want[0xBD:0xBE])), rep)
            chk.expect((sum(g[0xA0:0xBE]) + 0x19) % 256 == 0, 'gba-sum', lambda: 'header does not sum to zero', rep)
            chk.expect(g[:0xBD] + g[0xBE:] == img[:0xBD] + img[0xBE:], 'gba-program', lambda: 'other bytes changed: first at %x' % next(
                (k for k, (a, b) in enumerate(zip(g, want)) if a != b), -1), rep)
        else:
            want = P.genesis(img)
            chk.expect(g[0x18E:0x190] == want[0x18E:0x190], 'genesis-checksum', lambda: 'checksum of %d bytes is %s, expected %s' % (len(img), hx(g[0x18E:0x190]), hx(want[0x18E:0x190])), rep)
            chk.expect(g[:0x18E] + g[0x190:] == img[:0x18E] + img[0x190:], 'genesis-program', lambda: 'other bytes changed: first at %x' % next(
                (k for k, (a, b) in enumerate(zip(g, want)) if a != b), -1), rep)
    # every remainder of the sector a program can leave
    for size in range(1 if chk.thorough else rng.randrange(1, 4), 2049 if chk.thorough else 2052, 1 if chk.thorough else 3):
        size += rng.choice((0, 0, 0, 2048, 4096))
        v = rng.randrange(1, 256)
        with open(p, 'w') as f:
            f.write('.org 0x80010000\n.fill %d %d\n' % (size, v))
        code, text = run_inside('platforms.psx', [p, o])
        chk.case(('sector', size, v), None)
        chk.count('sector_remainders')
        with open(o, 'rb') as f:
            g = f.read()
        chk.expect(code == 0 and g[2048:] == P.psx_body(bytes([v]) * size), 'psx-sector', lambda: 'psx: a program of %d bytes gives a file of %d bytes (%s)' % (size, len(g), text[-200:]),
                   {'size': size, 'exit': code})
    chk.require('short_images', 20)
    chk.require('big_images', 30)
    chk.finish()
