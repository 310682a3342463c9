"""C19: sections, exports and ELF output."""
import os
import shutil
import struct
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from ..harness import Check, execute, hx
from ..core import targets
from .. import gen
from necroassembler.linker import ELF


class BadElf(Exception):
    pass


def read_elf(b):
    """reader of the parts of ELF objects this framework writes (System V gABI)"""
    def need(c, why):
        if not c:
            raise BadElf(why)
    need(b[:4] == b'\x7fELF', 'magic')
    need(b[4] in (1, 2) and b[5] in (1, 2) and b[6] == 1, 'ident')
    bits = 32 * b[4]
    e = '<' if b[5] == 1 else '>'
    need(b[7:16] == bytes(9), 'ident padding')
    if bits == 32:
        fmt = e + 'HHIIIIIHHHHHH'
    else:
        fmt = e + 'HHIQQQIHHHHHH'
    (typ, mach, ver, entry, phoff, shoff, flags, ehsize, phentsize, phnum, shentsize, shnum, shstrndx) = struct.unpack_from(fmt, b, 16)
    need(ehsize == 16 + struct.calcsize(fmt), 'e_ehsize')
    need(ver == 1, 'e_version')
    need(phnum == 0 and phoff == 0, 'program headers')
    sfmt = e + ('IIIIIIIIII' if bits == 32 else 'IIQQQQIIQQ')
    need(shentsize == struct.calcsize(sfmt), 'e_shentsize')
    need(shoff + shnum * shentsize <= len(b) and shoff >= ehsize, 'section header table out of the file')
    secs = []
    for i in range(shnum):
        keys = ('name', 'type', 'flags', 'addr', 'offset', 'size', 'link', 'info', 'align', 'entsize')
        s = dict(zip(keys, struct.unpack_from(sfmt, b, shoff + i * shentsize)))
        if s['type'] not in (0, 8):
            need(s['offset'] + s['size'] <= len(b), 'section %d out of the file' % i)
            s['data'] = b[s['offset']:s['offset'] + s['size']]
        else:
            s['data'] = b''
        secs.append(s)
    need(shnum > 0 and all(v == 0 for k, v in secs[0].items() if k != 'data'), 'null section')
    need(shstrndx < shnum and secs[shstrndx]['type'] == 3, 'e_shstrndx')

    def text(table, off):
        need(off < len(table) and 0 in table[off:], 'string out of the table')
        return table[off:table.index(0, off)].decode()
    for i, s in enumerate(secs):
        s['name'] = text(secs[shstrndx]['data'], s['name']) if i else ''
    spans = sorted((s['offset'], s['offset'] + s['size'], s['name']) for s in secs if s['type'] not in (0, 8) and s['size'])
    spans.insert(0, (0, ehsize, 'header'))
    spans.insert(1, (shoff, shoff + shnum * shentsize, 'section headers'))
    spans.sort()
    for a, c in zip(spans, spans[1:]):
        need(a[1] <= c[0], '%s and %s overlap in the file' % (a[2], c[2]))
    symtabs = [s for s in secs if s['type'] == 2]
    need(len(symtabs) == 1, 'symbol table')
    st = symtabs[0]
    yfmt = e + ('IIIBBH' if bits == 32 else 'IBBHQQ')
    need(st['entsize'] == struct.calcsize(yfmt) and st['size'] % st['entsize'] == 0, 'symbol size')
    need(st['link'] < shnum and secs[st['link']]['type'] == 3, 'sh_link of the symbol table')
    strs = secs[st['link']]['data']
    for t in (strs, secs[shstrndx]['data']):
        need(t[:1] == b'\0' and t[-1:] == b'\0', 'string table ends')
    syms = []
    for i in range(st['size'] // st['entsize']):
        v = struct.unpack_from(yfmt, st['data'], i * st['entsize'])
        if bits == 32:
            name, value, size, info, other, shndx = v
        else:
            name, info, other, shndx, value, size = v
        if i == 0:
            need(not any(v), 'first symbol is not the undefined one')
            continue
        need(shndx < shnum or shndx == 0xFFF1, 'symbol section')
        need(i < st['info'] or info >> 4 != 0, 'local symbol after sh_info')
        need(i >= st['info'] or info >> 4 == 0, 'global symbol before sh_info')
        syms.append(dict(name=text(strs, name), value=value, size=size, bind=info >> 4, type=info & 15, other=other, shndx=shndx))
    need(st['info'] >= 1 and st['info'] <= len(syms) + 1, 'sh_info')
    return dict(bits=bits, big=b[5] == 2, type=typ, machine=mach, entry=entry, flags=flags, sections=secs, symbols=syms)


class Program:
    """random sectioned program and what must be recorded about it"""

    def __init__(self, rng, t, d, huge=False):
        self.rng, self.t = rng, t
        order = 'big' if t.big else 'little'
        img = bytearray()
        org, cnt, end = 0, 0, 0
        sections = []       # name, perms, start, offset, size
        labels = {}         # name -> (address, section)
        lines = []
        patches = []
        names = gen.Names(rng)
        pool = [names.new() for _ in range(rng.randrange(1, 8) if not huge else rng.choice((40, 260, 300)))]
        # names that start or end with one another
        for n in pool[:]:
            if rng.random() < .25:
                for k in rng.sample(('_' + n, n + '_', n + '0', 'z' + n, n[:-1], n[1:], 'x.' + n, n + '.x'), 2):
                    if k not in pool and (k[:1].isalpha() or k[:1] == '_'):
                        pool.append(k)
        if rng.random() < .3:
            pool += [n for n in rng.sample(('.loop', '.L1', '_start', '..', '.text', '_', 'a.b', 'Main.', '.strtab', 'ABS'), rng.randrange(1, 4)) if n not in pool]
        rng.shuffle(pool)
        exports = [n for n in pool if rng.random() < .6]
        order_exp = exports[:]
        rng.shuffle(order_exp)
        late = [n for n in order_exp if rng.random() < .5]
        early = [n for n in order_exp if n not in late]
        secnames = rng.sample(['.text', '.data', 'rom', '.rodata', 'a.very.long.section.name', 'x', '.bss', 'TEXT', 'Text', 'code_1', 'donn\u00e9es', '\u30b3\u30fc\u30c9', 'two words', '.shstr', 'a,b', 'x;y', '0', '$1'], 10)
        if rng.random() < .5:
            org = rng.choice((0, 0x100, 0x8000, 0x12345))
            lines.append('.org %d' % org)
        for n in early:
            lines.append('.export ' + rng.choice(('%s', '"%s"')) % n)
        todo = list(pool)
        nsec = rng.randrange(0, 6)
        if huge:
            nsec = rng.choice((9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 255, 256, 257, 300))
            stem = rng.choice(('.s', 'sec_', '.text.' + 'long' * 20, 'Z' * 300))
            secnames = ['%s%d' % (stem, k) for k in range(nsec + 1)]
            rng.shuffle(secnames)

        fill = t.fill
        self.bounded = 0

        def emit(b):
            nonlocal cnt
            img.extend(b)
            cnt += len(b)

        def move(a, to=0):
            # leaving a bounded origin pads it, as part of the section it is in
            nonlocal org, cnt, end
            if end:
                img.extend(bytes([fill]) * ((end + 1 if a > end else a) - (org + cnt)))
            org, cnt, end = a, 0, to

        def reachable(a):
            return not end or a > org and a >= org + cnt
        if rng.random() < .25:
            to = org + rng.randrange(200)
            if to > 0:
                lines.append('.org %d %d' % (org, to))
                end = to
                self.bounded += 1
        for k in range(nsec + 1):
            if k:
                name = secnames[k]
                perms = ''.join(rng.sample('RWXE', rng.randrange(1, 5)))
                plain = not any(c in name for c in ' ,;')
                text = '.section %s %s' % (rng.choice(('%s', '"%s"', "'%s'") if plain else ('"%s"', "'%s'")) % name, perms)
                if rng.random() < .5:
                    a = rng.choice((0, 0x40, 0x1000, 0x7FF0, 0xC000, rng.randrange(1 << 31)))
                    if end and rng.random() < .7:
                        a = rng.choice((end + 1, end + rng.randrange(1, 100), end, org + cnt, org + cnt + 1))
                    if reachable(a):
                        text += ' %s' % rng.choice((str(a), '0x%x' % a if t.style != 'x' else str(a)))
                        move(a)
                lines.append(text)
                if sections:
                    sections[-1][4] = len(img) - sections[-1][3]
                sections.append([name, perms, org + cnt, len(img), None])
            for _ in range(rng.choice((0, 0, 1, 2, 4, 7))):
                r = rng.random()
                if r < .35 and todo:
                    n = todo.pop(0)
                    lines.append(n + ':')
                    labels[n] = (org + cnt, sections[-1][0] if sections else None)
                elif r < .5:
                    lines.append('NOP')
                    emit(b'\xEA')
                elif r < .7:
                    v = [rng.randrange(256) for _ in range(rng.randrange(1, 9))]
                    lines.append('.db ' + ', '.join(map(str, v)))
                    emit(bytes(v))
                elif r < .8:
                    n = rng.choice(pool)
                    lines.append('.dd ' + n)
                    patches.append((len(img), n))
                    emit(bytes(4))
                elif r < .73 and sections:
                    # an origin of its own inside the section
                    a = rng.choice((org + cnt, org + cnt + rng.randrange(40), (end or 0) + 1 + rng.randrange(9)))
                    to = a + rng.randrange(60)
                    if reachable(a) and to > 0 and a >= sections[-1][2]:
                        move(a, to)
                        lines.append('.org %d %d' % (a, to))
                        self.bounded += 1
                elif r < .9:
                    m = rng.randrange(0, 40) if not huge or rng.random() < .95 else rng.choice((4096, 65535, 65536, 70000))
                    lines.append('.fill %d 9' % m)
                    emit(b'\x09' * m)
                else:
                    m = rng.randrange(1, 40)
                    lines.append('.ram %d' % m)
                    cnt += m
        for n in todo:
            lines.append(n + ':')
            labels[n] = (org + cnt, sections[-1][0] if sections else None)
        for n in late:
            lines.append('.export ' + n)
        if end and org + cnt <= end:
            img.extend(bytes([fill]) * (end + 1 - org - cnt))
        if sections:
            sections[-1][4] = len(img) - sections[-1][3]
        for off, n in patches:
            img[off:off + 4] = labels[n][0].to_bytes(4, order)
        self.lines, self.image, self.sections, self.labels, self.exports = lines, bytes(img), sections, labels, exports
        # one source or several, some of it included
        self.sources = ['\n'.join(lines) + '\n']
        if len(lines) > 3 and rng.random() < .4 and not self.bounded:
            k = rng.randrange(1, len(lines))
            self.sources = ['\n'.join(lines[:k]) + '\n', '\n'.join(lines[k:]) + '\n']
        elif len(lines) > 3 and rng.random() < .4:
            k = rng.randrange(1, len(lines))
            p = os.path.join(d, 'inc%d.inc' % rng.randrange(50))
            with open(p, 'w') as f:
                f.write('\n'.join(lines[k:]))
            self.sources = ['\n'.join(lines[:k]) + '\n.include "%s"\n' % p]


FLAGS = {'R': 2, 'W': 1, 'X': 4, 'E': 4}


def main():
    chk = Check('C19', 'random sectioned programs (none to five sections with and without an address, all permissions, labels inside and outside, exports before and after the label, '
                'RAM, several sources, includes) linked raw and to ELF 32/64, both byte orders, all file types, with fresh and reused linkers, read back by an independent ELF reader '
                'and, in part, by readelf; non-trivial = at least one section', 2000)
    rng = chk.rng
    tg = targets()
    tmp = tempfile.TemporaryDirectory()
    reused = {}
    for_readelf = []
    for i in range(chk.n(3000, 30000)):
        t = rng.choice(tg)
        huge = i % 100 == 7
        p = Program(rng, t, tmp.name, huge)
        chk.count('bounded_origins', p.bounded)
        if huge:
            chk.count('huge_programs')
            chk.see('section_counts', len(p.sections))
        src = p.sources
        rep = {'target': t.name, 'sources': src, 'sections': p.sections, 'labels': p.labels, 'exports': p.exports}
        r = execute(t.cls, src)
        chk.case((t.name, p.lines), '\n'.join(p.lines), nontrivial=bool(p.sections))
        if not chk.expect(r.ok, 'refused', lambda: '%r refused: %s' % (src, r.brief()), rep):
            continue
        chk.expect(r.data == p.image, 'image', lambda: '%r gives %s, expected %s' % (src, hx(r.data), hx(p.image)), rep)
        got = [(n, s.get('start'), s.get('offset'), s.get('size')) for n, s in r.asm.sections.items()]
        want = [(s[0], s[2], s[3], s[4]) for s in p.sections]
        chk.count('sections_compared', len(want))
        chk.expect(got == want, 'sections', lambda: '%r: sections %s, expected %s' % (src, got, want), rep)
        if got:
            total = sum(s[3] or 0 for s in got)
            chk.expect(total == len(r.data) - want[0][2], 'account', lambda: '%r: sections hold %d bytes, %d were emitted since the first' % (src, total, len(r.data) - want[0][2]), rep)
        for bits in (32, 64):
            big = rng.random() < .5
            typ = rng.choice((1, 1, 1, 2, 3))
            mach = rng.choice((3, 0x14, 0x3E, 8, 40, 4, 0xFFFF))
            entry = rng.choice((0, 0, 0x1000, 0xFFFFFFFF))
            al = rng.choice((0, 1, 4))
            relocatable = typ == 1
            vals = {n: a - ([s[2] for s in p.sections if s[0] == sec][0] if relocatable and sec is not None else 0) for n, (a, sec) in p.labels.items()}
            key = (bits, big, typ, mach, al)
            use_old = rng.random() < .4 and key in reused

            def linker():
                if use_old:
                    ln = reused[key]
                else:
                    ln = ELF(bits, big, typ, mach, al)
                    reused[key] = ln
                ln.entry_point = entry
                return ln
            e = execute(t.cls, src, linker=linker())
            chk.count('elf_links')
            chk.count('elf_links_with_reused_linker', 1 if use_old else 0)
            rep2 = dict(rep, elf=dict(bits=bits, big=big, type=typ, machine=mach, align=al, entry=entry, reused=use_old))
            if not chk.expect(e.ok, 'elf-refused', lambda: 'ELF link of %r refused: %s' % (src, e.brief()), rep2):
                continue
            try:
                o = read_elf(e.data)
            except (BadElf, struct.error, UnicodeDecodeError, IndexError) as x:
                chk.expect(False, 'elf-malformed', lambda: 'ELF%d of %r cannot be read: %s' % (bits, src, x), rep2)
                continue
            head = (o['bits'], o['big'], o['type'], o['machine'], o['entry'], o['flags'])
            chk.expect(head == (bits, big, typ, mach, entry, 0), 'elf-header', lambda: 'ELF header %s, expected %s' % (head, (bits, big, typ, mach, entry, 0)), rep2)
            mine = [s for s in o['sections'][1:] if s['name'] not in ('.shstrtab', '.strtab', '.symtab')]
            chk.expect([s['name'] for s in mine] == [s[0] for s in p.sections], 'elf-section-names', lambda: 'ELF sections %s, expected %s' % ([s['name'] for s in mine], [s[0] for s in p.sections]), rep2)
            chk.expect(sorted(s['name'] for s in o['sections'][1:] if s not in mine) == ['.shstrtab', '.strtab', '.symtab'], 'elf-tables', lambda: 'tables of the ELF: %s' % [s['name'] for s in o['sections']], rep2)
            for s, w in zip(mine, p.sections):
                fl = 0
                for c in w[1]:
                    fl |= FLAGS[c]
                exp = p.image[w[3]:w[3] + w[4]]
                chk.count('elf_sections')
                chk.expect(s['addr'] == w[2] and s['size'] == w[4] and s['data'] == exp, 'elf-section', lambda: 'ELF section %s at %x size %d data %s, expected %x %d %s' % (
                    s['name'], s['addr'], s['size'], hx(s['data']), w[2], w[4], hx(exp)), rep2)
                chk.expect(s['flags'] == fl, 'elf-permissions', lambda: 'ELF section %s %s has flags %x' % (w[0], w[1], s['flags']), rep2)
                chk.expect(s['type'] == 1 or (s['type'] == 8 and w[4] == 0), 'elf-section-type', lambda: 'ELF section %s has type %d' % (w[0], s['type']), rep2)
                chk.expect(s['align'] == al, 'elf-alignment', lambda: 'ELF section %s has alignment %d' % (w[0], s['align']), rep2)
            index = {s['name']: k for k, s in enumerate(o['sections'])}
            gots = sorted((y['name'], y['value'], y['bind'], y['shndx']) for y in o['symbols'])
            wants = sorted((n, vals[n], 1, index.get(p.labels[n][1], 0) if p.labels[n][1] is not None else 0xFFF1) for n in p.exports)
            chk.count('elf_symbols', len(wants))
            chk.expect(all(y['size'] == 0 and y['other'] == 0 and y['type'] == 0 for y in o['symbols']), 'elf-symbol-rest', lambda: 'ELF symbols (name, size, type, other) %s for %r' % (
                [(y['name'], y['size'], y['type'], y['other']) for y in o['symbols']], src), rep2)
            chk.expect(gots == wants, 'elf-symbols', lambda: 'ELF symbols (name, value, binding, section) %s, expected %s for %r' % (gots, wants, src), rep2)
            if len(for_readelf) < chk.n(64, 600) and p.sections:
                for_readelf.append((e.data, rep2))
        # names used twice
        if p.sections and i % 4 == 0:
            s = rng.choice(p.sections)
            r2 = execute(t.cls, src + ['.section "%s" R%s\n' % (s[0], rng.choice(('', ' 4096')))])
            chk.case((i, 'twice'))
            chk.count('repeated_names')
            chk.expect(not r2.ok, 'section-twice', lambda: 'section %s accepted twice: %r' % (s[0], src), rep)
        if p.exports and i % 4 == 1:
            n = rng.choice(p.exports)
            r2 = execute(t.cls, src + ['.export %s\n' % n])
            chk.case((i, 'twice'))
            chk.count('repeated_names')
            chk.expect(not r2.ok, 'export-twice', lambda: 'export of %s accepted twice: %r' % (n, src), rep)
        if i % 4 == 2:
            r2 = execute(t.cls, src + ['.dd not_defined_anywhere\n'], linker=ELF(32, t.big, 1, 3))
            chk.case((i, 'undefined'))
            chk.expect(not r2.ok, 'elf-undefined', lambda: 'ELF link with an undefined label gives %s' % r2.brief()[:200], rep)
    # addresses that only the 64 bit files can hold
    for i in range(chk.n(150, 1500)):
        t = rng.choice(tg)
        base = rng.choice((1 << 32, (1 << 32) - 3, (1 << 32) - 2, (1 << 40) + 5, 1 << 62, (1 << 32) + rng.randrange(1 << 20)))
        inside = rng.random() < .7
        n = rng.randrange(1, 9)
        src = ('.section far RX %d\n' % base if inside else '.org %d\n' % base) + 'first: NOP\n.fill %d\nlast:\nNOP\n.export first\n.export last\n' % n
        big, typ = rng.random() < .5, rng.choice((1, 2))
        vals = {'first': base, 'last': base + n + 1}
        for bits in (32, 64):
            off = base if typ == 1 and inside else 0
            fits = bits == 64 or (max(vals.values()) - off < 1 << 32 and (not inside or base < 1 << 32))
            e = execute(t.cls, src, linker=ELF(bits, big, typ, 3, 0))
            chk.case((t.name, src, bits, typ))
            chk.count('far_addresses')
            rep = {'source': src, 'bits': bits, 'big_endian': big, 'type': typ, 'observed': e.brief()}
            if not chk.expect(e.ok == fits, 'far-address', lambda: 'ELF%d of %r: %s' % (bits, src, e.brief()[:200]), rep) or not fits:
                continue
            try:
                o = read_elf(e.data)
            except (BadElf, struct.error, UnicodeDecodeError, IndexError) as x:
                chk.expect(False, 'elf-malformed', lambda: 'ELF%d of %r cannot be read: %s' % (bits, src, x), rep)
                continue
            got = sorted((y['name'], y['value']) for y in o['symbols'])
            chk.expect(got == sorted((k, v - off) for k, v in vals.items()), 'far-symbols', lambda: 'ELF%d of %r has the symbols %s' % (bits, src, got), rep)
            if inside:
                chk.expect(o['sections'][1]['addr'] == base, 'far-section', lambda: 'ELF%d of %r has a section at %x' % (bits, src, o['sections'][1]['addr']), rep)
    for bad in ('.section "a"', '.section', '.section a Q', '.section a r', '.section a RW x', '.section a RW 1 2', '.export', '.export a b'):
        for t in tg:
            r = execute(t.cls, bad)
            chk.case((t.name, bad))
            chk.expect(not r.ok, 'bad-directive', lambda: '%r accepted' % bad, {'source': bad})
    tool = shutil.which('readelf') or shutil.which('llvm-readelf-18')
    if tool:
        def probe(k):
            data, _ = for_readelf[k]
            fn = os.path.join(tmp.name, 'r%d.o' % k)
            with open(fn, 'wb') as f:
                f.write(data)
            q = subprocess.run([tool, '-h', '-S', '-s', '-W', fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return q.returncode, q.stdout.decode('latin-1')
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(probe, range(len(for_readelf))))
        for (code, text), (data, rep) in zip(outs, for_readelf):
            chk.count('readelf_runs')
            bad = [l for l in text.splitlines() if 'arning' in l or 'rror' in l]
            chk.expect(code == 0 and not bad, 'readelf', lambda: 'readelf: %s' % bad[:4], rep)
    tmp.cleanup()
    chk.require('sections_compared', 2000)
    chk.require('elf_symbols', 3000)
    chk.require('elf_links_with_reused_linker', 50)
    chk.finish()
