"""C33: imported images. Pillow is replaced by a stand-in that serves the generated pixels."""
import os
import sys
import tempfile
import types
from ..harness import Check, execute, hx, import_repo

SERVED = {}         # real path -> FakeImage
OPENED = []


class _Access:
    def __init__(self, im):
        self.im = im

    def __getitem__(self, xy):
        return self.im.getpixel(xy)


class FakeImage:
    """the reading part of PIL.Image.Image"""
    format = 'BMP'

    def __init__(self, mode, size, pixels):
        self.mode, self.size, self.pixels = mode, size, pixels
        self.width, self.height = size
        self.info = {}
        self.palette = None

    def getpixel(self, xy):
        x, y = xy
        w, h = self.size
        if x < 0:
            x += w
        if y < 0:
            y += h
        if not (0 <= x < w and 0 <= y < h):
            raise IndexError('image index out of range')
        v = self.pixels[y * w + x]
        return (v, v, v) if self.mode == 'RGB' else v

    def load(self):
        return _Access(self)

    def getdata(self, band=None):
        return [self.getpixel((k % self.width, k // self.width)) for k in range(len(self.pixels))]

    get_flattened_data = getdata

    def tobytes(self, *a):
        return bytes(self.pixels)

    def getbbox(self):
        return (0, 0) + self.size

    def getbands(self):
        return tuple(self.mode)

    def getextrema(self):
        return (min(self.pixels), max(self.pixels))

    def getcolors(self, maxcolors=256):
        return [(self.pixels.count(v), v) for v in sorted(set(self.pixels))]

    def histogram(self):
        return [self.pixels.count(v) for v in range(256)]

    def getpalette(self, *a):
        return [v for k in range(256) for v in (k, k, k)]

    def copy(self):
        return FakeImage(self.mode, self.size, list(self.pixels))

    def crop(self, box):
        x0, y0, x1, y1 = box
        return FakeImage(self.mode, (x1 - x0, y1 - y0), [self.getpixel((x, y)) for y in range(y0, y1) for x in range(x0, x1)])

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def fake_open(fp, mode='r', formats=None):
    if hasattr(fp, 'name'):
        fp = fp.name
    path = os.path.realpath(os.fspath(fp))
    OPENED.append(path)
    if path not in SERVED:
        raise FileNotFoundError(2, 'No such file or directory', str(fp))
    return SERVED[path]


PIL = types.ModuleType('PIL')
IMAGE = types.ModuleType('PIL.Image')
IMAGE.open = fake_open
IMAGE.Image = FakeImage
PIL.Image = IMAGE
PIL.__path__ = []
sys.modules['PIL'] = PIL
sys.modules['PIL.Image'] = IMAGE

import_repo()
from necroassembler.platforms.gameboy import AssemblerGameboy  # noqa: E402
from necroassembler.platforms.nes import AssemblerNES  # noqa: E402
from necroassembler.platforms.sms import AssemblerSegaMasterSystem  # noqa: E402


def decode(console, data, width, height):
    """pixels of the tile data as the video chip reads it, row by row of tiles"""
    size = {'gb': 16, 'nes': 16, 'sms': 32}[console]
    px = [None] * (width * height)
    for t in range(width * height // 64):
        tile = data[t * size:t * size + size]
        tx, ty = t % (width // 8) * 8, t // (width // 8) * 8
        for y in range(8):
            if console == 'gb':
                planes = tile[2 * y:2 * y + 2]
            elif console == 'sms':
                planes = tile[4 * y:4 * y + 4]
            else:
                planes = bytes((tile[y], tile[8 + y]))
            for x in range(8):
                px[(ty + y) * width + tx + x] = sum((p >> (7 - x) & 1) << k for k, p in enumerate(planes))
    return px


KINDS = {'gb': (AssemblerGameboy, '.tiles', 4, 16, True), 'sms': (AssemblerSegaMasterSystem, '.tiles', 16, 32, True), 'nes': (AssemblerNES, '.chr_pattern_table', 4, 16, False)}


def picture(rng, w, h, colors):
    k = rng.random()
    n = w * h
    if k < .5:
        return [rng.randrange(colors) for _ in range(n)]
    if k < .6:
        return [rng.choice((0, colors - 1)) for _ in range(n)]
    if k < .7:
        c = rng.randrange(colors)
        return [c] * n
    if k < .8:
        c, d, at = rng.randrange(colors), rng.randrange(colors), rng.randrange(n)
        return [c] * at + [d] + [c] * (n - at - 1)
    if k < .9:
        return [(i % w + i // w) % colors for i in range(n)]
    return [(i % w // 8 + i // w // 8 * (w // 8)) % colors for i in range(n)]


def main():
    chk = Check('C33', 'random indexed images (many sizes, pixel patterns, single deviating pixels) served by a stand-in for Pillow to the tile directives of the Game Boy, Master '
                'System and NES front ends inside of programs with data and labels around them; the emitted bytes are decoded by an independent model of each video '
                'chip and compared with the pixels; refusals: wrong modes, sizes, one pixel outside of the format, missing files, wrong arguments', 600,
                assumptions=['Pillow is not installed here: a stand-in with its reading interface serves the pixels, so decoding of image files is not exercised'])
    rng = chk.rng
    tmp = tempfile.TemporaryDirectory()
    sizes = [(8, 8), (16, 8), (8, 16), (24, 16), (16, 24), (40, 8), (8, 40), (64, 32), (112, 16), (128, 128), (160, 144), (256, 16)]
    wide = [(264, 8), (8, 264), (512, 16), (16, 520), (1024, 8), (8, 2048), (2056, 8), (256, 256), (264, 24)]

    def serve(name, im):
        p = os.path.join(tmp.name, name)
        if not os.path.exists(p):
            with open(p, 'wb') as f:
                f.write(b'BM')
        SERVED[os.path.realpath(p)] = im
        return p

    def wrap(console, body, after):
        pre = '.org 0\n'
        k = rng.randrange(1, 30)
        if console == 'gb':
            k += 0x150
        pre += '.fill %d 85\n' % k
        return pre + 'first:\n' + body + '\nlast:\n' + after + '\n', k

    for i in range(chk.n(420, 4000)):
        console = ('gb', 'sms', 'nes')[i % 3]
        cls, directive, colors, tsize, anysize = KINDS[console]
        d = rng.choice((directive, directive.upper(), directive.title()))
        ims = []
        body = []
        SERVED.clear()
        for j in range(rng.choice((1, 1, 2)) if console != 'nes' else 1):
            w, h = rng.choice(sizes) if anysize else (128, 128)
            if w * h > 8192 and anysize and rng.random() < .7:
                w, h = rng.choice(sizes[:9])
            if anysize and (j == 0 and i // 3 < len(wide) or rng.random() < .12):
                w, h = wide[i // 3] if j == 0 and i // 3 < len(wide) else rng.choice(wide)
                chk.count('wide_images')
            im = FakeImage('P', (w, h), picture(rng, w, h, colors))
            ims.append(im)
            fn = serve(rng.choice(('a%d.bmp', 'my image %d.png', 'Tiles;%d.gif', 'x,y (%d).bmp', 'UPPER%d.BMP')) % j, im)
            body.append('%s "%s"' % (d, fn))
        src, k = wrap(console, '\n'.join(body), '.db 1, 2, 3\n.dd first, last')
        size = sum(im.width * im.height // 64 * tsize for im in ims)
        r = execute(cls, src)
        chk.case((src, [tuple(im.pixels) for im in ims]), '%s %s' % (src[-200:], [im.size for im in ims]))
        chk.count('tiles_decoded', size // tsize)
        chk.see('sizes', (console, tuple(im.size for im in ims)))
        rep = {'console': console, 'source': src, 'images': [(im.size, im.pixels[:4096]) for im in ims], 'observed': r.brief()[:3000]}
        if not chk.expect(r.ok, 'refused/' + console, lambda: '%s: image %s refused: %s' % (console, [im.size for im in ims], r.brief()), rep):
            continue
        g = r.data
        chk.expect(len(g) == k + size + 11, 'size/' + console, lambda: '%s: %s gives %d bytes, expected %d' % (console, [im.size for im in ims], len(g) - k - 11, size), rep)
        pos = k
        for im in ims:
            n = im.width * im.height // 64 * tsize
            data = g[pos:pos + n]
            pos += n
            px = decode(console, data, im.width, im.height) if len(data) == n else None
            chk.expect(px == im.pixels, 'pixels/' + console, lambda: '%s: image %s decodes to other pixels: first at %s' % (
                console, im.size, None if px is None else next((divmod(q, im.width)[::-1], a, b) for q, (a, b) in enumerate(zip(px, im.pixels)) if a != b)), rep)
        tail = b'\x01\x02\x03' + k.to_bytes(4, 'little') + (k + size).to_bytes(4, 'little')
        chk.expect(g[-11:] == tail, 'around/' + console, lambda: '%s: bytes after the tiles are %s, expected %s' % (console, hx(g[-11:]), hx(tail)), rep)
        head = bytearray([85]) * k
        got = bytearray(g[:k])
        if console == 'gb':
            got[0x14D:0x150] = head[0x14D:0x150]
        chk.expect(got == head, 'around/' + console, lambda: '%s: bytes before the tiles changed' % console, rep)

    def refuse(console, why, im, text=None):
        cls, directive = KINDS[console][:2]
        SERVED.clear()
        p = serve('bad.bmp', im) if im else os.path.join(tmp.name, 'missing.bmp')
        src, _ = wrap(console, (text or '%s "{0}"' % directive).format(p), '.db 1')
        r = execute(cls, src)
        chk.case((console, why, im and im.size, im and tuple(im.pixels), text))
        chk.count('refusals')
        rep = {'console': console, 'source': src, 'why': why, 'image': im and (im.mode, im.size)}
        chk.expect(not r.ok, 'accepted/%s/%s' % (console, why.split()[0]), lambda: '%s: %s must be refused, gives %d bytes' % (console, why, len(r.data)), rep)

    for console, (cls, directive, colors, tsize, anysize) in KINDS.items():
        for mode in ('L', 'RGB', '1', 'RGBA', 'PA', 'I', 'I;16', 'F', 'LA', 'CMYK'):
            refuse(console, 'mode ' + mode, FakeImage(mode, (128, 128), [rng.randrange(2) for _ in range(128 * 128)]))
        bad = [(7, 8), (8, 7), (9, 8), (8, 9), (12, 12), (16, 4), (4, 16), (127, 128), (128, 127), (129, 128), (128, 129), (1, 1), (136, 12), (12, 136), (132, 128), (128, 132)]
        if not anysize:
            bad += [(128, 120), (120, 128), (136, 128), (128, 136), (128, 256), (256, 128), (256, 256), (64, 64), (64, 256), (256, 64), (8, 8), (128, 8)]
        for w, h in bad:
            refuse(console, 'size %dx%d' % (w, h), FakeImage('P', (w, h), [rng.randrange(colors) for _ in range(w * h)]))
        for j in range(chk.n(60, 400)):
            w, h = rng.choice(sizes[:8] if j % 4 else wide[:5]) if anysize else (128, 128)
            px = picture(rng, w, h, colors)
            at = rng.choice((0, w * h - 1, min(w * h, w + 256) - 1, w - 1, w * (h - 1), rng.randrange(w * h)))
            px[at] = rng.choice((colors, colors + 1, colors * 2, colors * 4, 16, 255, 128))
            refuse(console, 'pixel %d at %d of %dx%d' % (px[at], at, w, h), FakeImage('P', (w, h), px))
        good = FakeImage('P', (128, 128), picture(rng, 128, 128, colors))
        refuse(console, 'missing file', None)
        refuse(console, 'arguments: none', good, directive)
        refuse(console, 'arguments: two', good, directive + ' "{0}" "{0}"')
        refuse(console, 'arguments: extra', good, directive + ' "{0}" 1')
        # more sizes and arguments
        for _ in range(chk.n(60, 600)):
            w, h = rng.randrange(1, 140), rng.randrange(1, 140)
            if rng.random() < .4 and not anysize:
                w, h = rng.choice(((128, h), (w, 128), (8 * w % 136 or 8, 8 * h % 136 or 8)))
            elif rng.random() < .5:
                w = w // 8 * 8 + 8
            if (w, h) == (128, 128) or anysize and w % 8 == h % 8 == 0:
                continue
            refuse(console, 'size %dx%d' % (w, h), FakeImage('P', (w, h), [rng.randrange(colors) for _ in range(w * h)]))
        for _ in range(chk.n(40, 200)):
            more = ' '.join(rng.choice((str(rng.randrange(999)), '"%d.bmp"' % rng.randrange(99), 'name%d' % rng.randrange(99), '"{0}"')) for _ in range(rng.randrange(1, 4)))
            refuse(console, 'arguments: more', good, rng.choice((directive, directive.upper())) + ' "{0}" ' + more)
    chk.require('refusals', 250)
    chk.require('wide_images', 15)
    chk.require('tiles_decoded', 10000)
    chk.finish()
