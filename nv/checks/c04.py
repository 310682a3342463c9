"""C04: data directives."""
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare
from .. import model, gen
from ..model import lit, lab
from ..cpu import all_cpus

NAMES = {1: ('db', 'byte', 'DB', 'Byte'), 2: ('dw', 'word', 'DW', 'Word'), 4: ('dd', 'dl', 'dword', 'DD', 'DL', 'dWord')}


def raw_string(rng, quote):
    """(source, bytes) with escapes and every delimiter inside"""
    src, out = quote, b''
    n = rng.randrange(1, 14)
    for _ in range(n):
        r = rng.random()
        if r < .2:
            c = rng.choice('\\"\'')
            src += '\\' + c
        elif r < .3:
            c = rng.choice('nt0rxabz;:,')
            src += '\\' + c
        elif r < .6:
            c = rng.choice(';:,.()[]{} \t#$%@+-*/&|<>=!\n\r' + ("'" if quote == '"' else '"'))
            src += c
        else:
            c = rng.choice(gen.PRINT.replace('\\', '').replace(quote, ''))
            src += c
        out += c.encode()
    return src + quote, out


def main():
    chk = Check('C04', 'random operand lists (literals in every notation, labels defined before or after, quoted text with escapes and every '
                'delimiter inside) for each data directive under each of its names, both byte orders, on toy and shipped CPUs; decimal-text '
                'directives over the full range of values and label addresses; non-trivial = each distinct source', 3000)
    rng = chk.rng
    tg = targets()
    for i in range(chk.n(4000, 40000)):
        t = rng.choice(tg)
        pool = ['d%d' % k for k in range(3)]
        vals = [rng.choice((0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x8000, 0xFFFF, 0x10000, 0xFFFFFFFF, rng.randrange(1 << 16), rng.randrange(1 << 32))) for _ in pool]
        lines, flat = [], []
        defs = []
        for n, v in zip(pool, vals):
            defs.append((['.org %d' % v, n + ':'], [('org', v, None), ('label', n)]))
        when = rng.choice(('before', 'after', 'mixed'))
        k0 = {'before': 3, 'after': 0, 'mixed': rng.randrange(4)}[when]
        for a, b in defs[:k0]:
            lines += a
            flat += b
        org = rng.choice((0, 0x10, 0x4000))
        lines.append('.org %d' % org)
        flat.append(('org', org, None))
        for _ in range(rng.randrange(1, 5)):
            w = rng.choice((1, 1, 2, 4))
            items, texts = [], []
            for _k in range(rng.randrange(1, 9)):
                r = rng.random()
                fits = [n for n, v in zip(pool, vals) if v < (1 << (8 * w))]
                if r < .35 and w == 1:
                    s, b = raw_string(rng, rng.choice('"\''))
                    items.append(b)
                    texts.append(s)
                elif r < .45 and w > 1:
                    # text with its byte order mark, in the order of the target
                    s, b = raw_string(rng, rng.choice('"\''))
                    order = 'be' if t.big else 'le'
                    if rng.random() < .1:
                        # a mark that is part of the text
                        s, b = s[0] + '\ufeff' + s[1:], '\ufeff'.encode() + b
                    items.append(('\ufeff' + b.decode()).encode('utf-%d-%s' % (8 * w, order)))
                    texts.append(s)
                elif r < .6 and fits:
                    a = lab(rng.choice(fits))
                    items.append(a)
                    texts.append(a[1])
                else:
                    a = gen.rand_literal(rng, t.num, 8 * w)
                    items.append(a)
                    texts.append(a[2])
            sep = rng.choice((', ', ',', ' '))
            lines.append('.%s %s' % (rng.choice(NAMES[w]), sep.join(texts)))
            flat.append(('data', w, items))
        for a, b in defs[k0:]:
            lines += a
            flat += b
        src = '\n'.join(lines) + '\n'
        chk.case((t.name, src), src)
        chk.count('data_items', sum(len(s[2]) for s in flat if s[0] == 'data'))
        compare(chk, t, flat, 'data', src)
    # every byte value, every 16-bit boundary, every printable character
    for t in tg:
        src = '\n'.join('.db %s' % t.num.spell(rng, v)[0] for v in range(256))
        chk.case((t.name, 'allbytes'))
        r = execute(t.cls, src)
        chk.expect(r.ok and r.data == bytes(range(256)), 'bytes', lambda: 'byte values: ' + r.brief(), {'source': src})
        for c in range(32, 127):
            ch = chr(c)
            e = '\\' + ch if ch in '"\'\\' else ch
            for q in '"\'':
                src = '.db %s%s%s' % (q, e, q)
                r = execute(t.cls, src)
                chk.case((t.name, src))
                chk.expect(r.ok and r.data == bytes([c]), 'char', lambda: '%r gives %s' % (src, r.brief()), {'source': src})
    # decimal text
    for t in tg[:3]:
        for w, d, width, top in ((1, 'db', 3, 256), (2, 'dw', 5, 65536)):
            vals = list(range(256)) if w == 1 else [0, 1, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535]
            vals += [rng.randrange(top) for _ in range(40)]
            for v in vals:
                for z in ('', 'z'):
                    txt = t.num.spell(rng, v)[0]
                    src = '.%s_to_ascii%s %s\nNOP' % (d, z, txt)
                    want = str(v).encode() + (b'\0' if z else b'') + b'\xEA'
                    r = execute(t.cls, src)
                    chk.case((t.name, src), src)
                    chk.expect(r.ok and r.data == want, 'decimal/literal', lambda: '%r gives %s, expected [%s]' % (src, r.brief(), hx(want)), {'source': src})
                    q = rng.choice('"\'')
                    src = '.%s_to_ascii%s %s%s%d%s\nNOP' % (d, z, q, '0' * rng.randrange(3), v, q)
                    r = execute(t.cls, src)
                    chk.case((t.name, src), src)
                    chk.expect(r.ok and r.data == want, 'decimal/quoted', lambda: '%r gives %s, expected [%s]' % (src, r.brief(), hx(want)), {'source': src})
                    for fwd in (True, False):
                        use = ['.org 0', 'NOP', '.%s_to_ascii%s v' % (d, z), 'NOP']
                        de = ['.org %d' % v, 'v:']
                        src = '\n'.join(use + de if fwd else de + use)
                        want = b'\xEA' + str(v).zfill(width).encode() + (b'\0' if z else b'') + b'\xEA'
                        r = execute(t.cls, src)
                        chk.case((t.name, src), src)
                        chk.expect(r.ok and r.data == want, 'decimal/label', lambda: '%r gives %s, expected [%s]' % (src, r.brief(), hx(want)), {'source': src})
            # several operands: one NUL at the end
            for _ in range(chk.n(60, 600)):
                items = [rng.randrange(top) for _ in range(rng.randrange(1, 5))]
                labelled = [rng.random() < .4 for _ in items]
                z = rng.choice(('', 'z'))
                src = '.%s_to_ascii%s %s\nNOP\n' % (d, z, ', '.join('v%d' % k if l else str(v) for k, (v, l) in enumerate(zip(items, labelled))))
                for k, v in enumerate(items):
                    src += '.org %d\nv%d:\n' % (v, k)
                want = b''.join((str(v).zfill(width) if l else str(v)).encode() for v, l in zip(items, labelled)) + (b'\0' if z else b'') + b'\xEA'
                r = execute(t.cls, src)
                chk.case((t.name, src), src)
                chk.expect(r.ok and r.data == want, 'decimal/list', lambda: '%r gives %s, expected [%s]' % (src, r.brief(), hx(want)), {'source': src})
            for z in ('', 'z'):
                src = '.%s_to_ascii%s\nNOP' % (d, z)
                want = (b'\0' if z else b'') + b'\xEA'
                r = execute(t.cls, src)
                chk.case((t.name, src))
                chk.expect(r.ok and r.data == want, 'decimal/empty', lambda: '%r gives %s, expected [%s]' % (src, r.brief(), hx(want)), {'source': src})
            for v in (top, top + 1, top * 10):
                src = '.%s_to_ascii %d' % (d, v)
                r = execute(t.cls, src)
                chk.case((t.name, src))
                chk.expect(not r.ok, 'decimal/accepted', lambda: '%r gives %s' % (src, r.brief()), {'source': src})
                src = '.%s_to_ascii v\nNOP\n.org %d\nv:' % (d, v)
                r = execute(t.cls, src)
                chk.case((t.name, src))
                chk.expect(not r.ok, 'decimal/label-accepted', lambda: '%r gives %s' % (src, r.brief()), {'source': src})
    # byte order of every shipped CPU
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        order = 'big' if cpu.big else 'little'
        for i in range(chk.n(60, 600)):
            src, want, defs = '', b'', ''
            for k in range(rng.randrange(1, 6)):
                w = rng.choice((1, 2, 4))
                v = gen.interesting(rng, 8 * w)
                if w > 1 and rng.random() < .2:
                    text = ''.join(rng.choice('abzXYZ019 _') for _ in range(rng.randrange(1, 6)))
                    src += '.%s "%s"\n' % (rng.choice(NAMES[w]), text)
                    want += ('\ufeff' + text).encode('utf-%d-%s' % (8 * w, 'be' if cpu.big else 'le'))
                    continue
                if rng.random() < .4:
                    src += '.%s lb%d\n' % (rng.choice(NAMES[w]), k)
                    defs += '.org %d\nlb%d:\n' % (v, k)
                else:
                    src += '.%s %s\n' % (rng.choice(NAMES[w]), cpu.num.spell(rng, v)[0])
                want += v.to_bytes(w, order)
            r = execute(cpu.factory, src + defs)
            chk.case((cpu.name, src + defs), src)
            chk.expect(r.ok and r.data == want, 'cpu/' + cpu.name, lambda: '%s: %r gives %s, expected [%s]' % (cpu.name, src + defs, r.brief(), hx(want)),
                       {'cpu': cpu.name, 'source': src + defs})
    scale.long_data(chk, tg)
    chk.require('cpus', 2)
    chk.finish()
