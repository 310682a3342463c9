"""C09: bounded origins."""
import os
import tempfile
from ..harness import Check, execute, hx
from ..core import targets, compare, with_probe
from .. import model, gen
from ..model import lit, lab
from ..cpu import all_cpus


def content(rng, num, room, names, ram=False):
    """statements emitting at most room bytes"""
    out, used = [], 0
    while used < room and rng.random() < .8:
        k = rng.choice(('nop', 'data', 'fill', 'ins', 'label', 'word') + (('ram', 'goto', 'upto') if ram else ()))
        if k == 'nop':
            s, n = ('ins', 'NOP'), 1
        elif k == 'data':
            b = [lit(rng.randrange(256)) for _ in range(rng.randrange(1, 6))]
            s, n = ('data', 1, b), len(b)
        elif k == 'fill':
            n = rng.randrange(0, 20)
            s = ('fill', n, rng.choice((None, 0x11)))
        elif k == 'ins':
            s, n = ('ins', 'U16', lit(rng.randrange(65536))), 3
        elif k == 'ram':
            n = rng.randrange(1, 12)
            s = ('ram', n)
        elif k in ('goto', 'upto'):
            n = rng.randrange(0, 12)
            s = (k, used + n, rng.choice((None, 0x77)))        # from the start of the region, moved by the caller
        elif k == 'word':
            if not names:
                continue
            s, n = ('data', 4, [lab(rng.choice(names))]), 4
        else:
            s, n = None, 0
        if used + n > room:
            continue
        if s:
            out.append(s)
        used += n
    r = rng.random()
    if r < .15:
        out.append(('fill', room - used, 0x22))      # exactly full
        used = room
    elif r < .3 and room - used > 1:
        out.append(('fill', room - used - 1, 0x33))  # one byte short
        used = room - 1
    return out, used


def main():
    chk = Check('C09', 'random chains of bounded and plain origins: adjacent, with gaps, nested start (next origin inside the previous bounds), exact, '
                'one byte short, empty and one-byte regions; end of source, of several sources and of included files; stepping back, overlapping '
                'and inverted bounds must be refused; non-trivial = at least one bounded region followed by something', 1500)
    rng = chk.rng
    tg = targets()
    for i in range(chk.n(3500, 35000)):
        t = rng.choice(tg)
        prog = []
        nreg = rng.randrange(1, 6)
        names = ['r%d' % k for k in range(nreg)]
        start = rng.choice((0, 1, 0x10, 0x100, 0x8000, rng.randrange(0x4000)))
        ram = rng.random() < .2
        adjacent = not ram
        first = start
        for k in range(nreg):
            size = rng.choice((1, 2, 3, 8, 16, 17, 100, rng.randrange(1, 300)))
            end = start + size - 1
            if end == 0:
                end = 1     # an end of zero means no end
                size = 2
            prog.append(('org', start, end))
            prog.append(('probe',))
            prog.append(('label', names[k]))
            body, used = content(rng, t.num, size, names[:k + 1], ram)
            body = [('goto', s[1] + start, s[2]) if s[0] == 'goto' else s for s in body]
            prog += body
            r = rng.random()
            if r < .6:
                start = end + 1
            elif r < .75:
                start = end + 1 + rng.randrange(1, 100)
                adjacent = False
            elif r < .9 and used < size - 1:
                start = prog[-len(body) - 3][1] + used + rng.randrange(1 if used == 0 else 0, size - used)
                if start == prog[-len(body) - 3][1]:
                    start += 1
            else:
                start = end + 1
            if rng.random() < .1:
                prog.append(('org', start, None))
                prog.append(('probe',))
                prog.append(('ins', 'NOP'))
                adjacent = False
                start = start + rng.randrange(1, 50)
        tail = rng.random()
        if tail < .12:
            # a last region that goes wrong
            bad = rng.choice(('inverted', 'back', 'same', 'overlap', 'overflow'))
            lo, hi = [(s[1], s[2]) for s in prog if s[0] == 'org'][-1]
            if bad == 'inverted':
                prog.append(('org', (hi or lo) + 50, (hi or lo) + 49))
            elif hi is not None:
                if bad == 'back' and lo > 0:
                    prog.append(('org', rng.randrange(lo), rng.choice((None, lo + 500))))
                elif bad == 'same':
                    prog.append(('org', lo, rng.choice((None, hi))))
                elif bad == 'overflow':
                    # more bytes than the region holds, running into the next one
                    im = model.Image(t.big, t.fill)
                    for s in prog:
                        im.statement(s)
                    prog.append(('fill', hi + 1 - im.pc + rng.choice((1, 1, 2, 9)), 0x44))
                    prog.append(('org', hi + 1, rng.choice((None, hi + 20))))
                elif bad == 'overlap':
                    im = model.Image(t.big, t.fill)
                    for s in prog:
                        im.statement(s)
                    if im.pc - 1 > lo:
                        prog.append(('org', im.pc - 1, None))
            prog.append(('ins', 'NOP'))
            adjacent = False
        src = model.source(prog, rng)
        if rng.random() < .3:
            # sections that start somewhere leave a bounded origin as an origin does; others change nothing
            ls = []
            for l in src.split('\n'):
                w = l.split(' ')
                if rng.random() < .07:
                    ls.append('.section "s%d" R' % len(ls))
                if w[0] == '.org' and len(w) == 2 and rng.random() < .7:
                    l = '.section "t%d" RX %s' % (len(ls), w[1])
                    chk.count('regions_left_by_a_section')
                ls.append(l)
            src = '\n'.join(ls)
        chk.case((t.name, src), src, nontrivial=nreg > 1)
        good = compare(chk, t, prog, 'regions', src, trace=True)
        if good and adjacent and all(s[0] != 'org' or s[2] is not None for s in prog):
            # independent statement of the property: every label sits at file offset address - first
            r = execute(t.cls, src, setup=with_probe)
            chk.count('adjacent_chains')
            last_end = [s[2] for s in prog if s[0] == 'org'][-1]
            chk.expect(r.ok and len(r.data) == last_end + 1 - first, 'adjacent/length', lambda: '%r: %d bytes, expected %d' % (
                src, len(r.data or b''), last_end + 1 - first), {'source': src})
            for pc, off in r.events:
                chk.expect(off == pc - first, 'adjacent/offset', lambda: '%r: address %#x at offset %#x' % (src, pc, off), {'source': src})
    # included files inside a region; several sources in one assembler
    with tempfile.TemporaryDirectory() as d:
        for i in range(chk.n(300, 3000)):
            t = rng.choice(tg)
            lo = rng.choice((0, 0x40, 0x1000))
            size = rng.randrange(20, 120)
            parts = [bytes(rng.randrange(256) for _ in range(rng.randrange(0, 6))) for _ in range(3)]
            inc = os.path.join(d, 'a%d.inc' % i)
            deep = os.path.join(d, 'b%d.inc' % i)
            with open(deep, 'w') as f:
                f.write('\n'.join('.db %d' % b for b in parts[2]))
            with open(inc, 'w') as f:
                f.write('\n'.join('.db %d' % b for b in parts[1]) + '\n.include "%s"\n' % deep)
            src = '.org %d %d\n' % (lo, lo + size - 1) + '\n'.join('.db %d' % b for b in parts[0]) + '\n.include "%s"\nz: .dd z\n' % inc
            second = rng.random() < .5
            if second:
                src += '.org %d %d\nNOP' % (lo + size, lo + size + 9)
            blob = b''.join(parts)
            order = 'big' if t.big else 'little'
            want = blob + (lo + len(blob)).to_bytes(4, order)
            want = want + bytes([t.fill]) * (size - len(want))
            if second:
                want += b'\xEA' + bytes([t.fill]) * 9
            r = execute(t.cls, src)
            chk.case((t.name, src), src)
            chk.count('included_in_region')
            chk.expect(r.ok and r.data == want, 'include', lambda: '%r gives %s, expected [%s]' % (src, r.brief(), hx(want)), {'source': src, 'included': [p.hex() for p in parts]})
            os.unlink(inc)
            os.unlink(deep)
    # the fill value and word order of every shipped CPU
    for cpu in all_cpus():
        fill = cpu.factory().fill_value
        pre = cpu.prelude + '\n' if cpu.prelude else ''
        for _ in range(chk.n(8, 60)):
            a, b = rng.randrange(2, 60), rng.randrange(2, 60)
            ka, kb = rng.randrange(0, a + 1), rng.randrange(0, b + 1)
            src = pre + '.org %d %d\n' % (0x100, 0x100 + a - 1) + '.db 7\n' * ka + '.org %d %d\n' % (0x100 + a, 0x100 + a + b - 1) + '.db 9\n' * kb
            want = b'\7' * ka + bytes([fill]) * (a - ka) + b'\x09' * kb + bytes([fill]) * (b - kb)
            r = execute(cpu.factory, src)
            chk.case((cpu.name, src))
            chk.expect(r.ok and r.data == want, 'cpu/' + cpu.name, lambda: '%s: %r gives %s' % (cpu.name, src, r.brief()), {'source': src})
    chk.require('adjacent_chains', 200)
    chk.require('regions_left_by_a_section', 50)
    chk.finish()
