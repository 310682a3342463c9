"""C02: literals mean their value in every notation."""
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare
from ..toy import FIELDS, FIELD
from .. import model
from ..model import lit, Bad
from ..cpu import all_cpus
from ..forms import LiteralDriver, reg_combos, fill_operands

DATA = {1: ('db', 'byte'), 2: ('dw', 'word'), 4: ('dd', 'dl', 'dword')}


def literal_atoms(num, v, chars=True):
    if v < 0:
        return [lit(v)]
    return [lit(v, t, dec) for t, dec, _ in num.spellings(v, chars)]


def main():
    chk = Check('C02', 'boundary and random values x every notation a CPU declares (toy CPUs with prefix, suffix and plain notations, and the '
                'literal operands of every shipped CPU) x every operand field and data width, values outside the field included; '
                'non-trivial = each distinct (target, field, spelling)', 5000)
    rng = chk.rng
    tg = targets()
    # one statement at a time
    for t in tg:
        for f in FIELDS:
            b = f.bits_size
            top = 1 << b
            sg = f.signed or f.relative is not None
            vals = {0, 1, 2, 9, 10, 15, 16, top // 2 - 1, top // 2, top - 1, -1, -2, -(top // 2), -(top // 2) - 1, -top, -top + 1, top, top + 1, 2 * top, top * 255 + 3,
                    top << 64, 97, 122, 0xAB & (top - 1), 0xDEADBEEF & (top - 1), 0xB1 & (top - 1), 0xD0 & (top - 1)}
            vals |= {0xE9, 0x20AC, 0x1F600, 0x416}
            if b >= 8:
                vals |= {65, 48, 35, 43, 45, 62}
            for _ in range(chk.n(3, 40)):
                vals.add(rng.randrange(-(top // 2), top))
            for v in sorted(vals):
                if v >= 0 and v % f.alignment:
                    continue
                if v < 0:
                    v = v // f.alignment * f.alignment
                for a in literal_atoms(t.num, v):
                    p = [('ins', 'NOP'), ('ins', f.name, a), ('ins', 'NOP')]
                    chk.case((t.name, f.name, a[2]), model.source(p))
                    chk.see('spellings', (t.style, f.bits_size, a[2]))
                    compare(chk, t, p, 'field/' + f.name)
        for w, names in DATA.items():
            top = 1 << (8 * w)
            vals = [0, 1, 2, 9, 10, 63, top // 2 - 1, top // 2, top - 1, -1, -(top // 2), -(top // 2) - 1, -top, top, top + 1, top * 256, 99, 102, 0xB, 0xBB, 0xDD, 0xDB, 0x1B, 0x1D]
            vals += [rng.randrange(-(top // 2), top) for _ in range(chk.n(4, 60))]
            for v in vals:
                for a in literal_atoms(t.num, v, chars=False):
                    for name in names:
                        src = '.%s %s\n' % (name, a[2])
                        chk.case((t.name, src), src)
                        compare(chk, t, [('data', w, [a])], 'data/%d' % w, src)
        # sizes, addresses and fill values
        for v in (1, 2, 3, 16, 31, 255, 256, 257, 1000, 4096):
            for a in literal_atoms(t.num, v, chars=False):
                for st in (('fill', v, None), ('goto', v, None), ('upto', v, None)):
                    src = '.%s %s\nend:\n' % (st[0], a[2])
                    chk.case((t.name, src))
                    compare(chk, t, [st, ('label', 'end')], 'directive/' + st[0], src)
                for k, prog in (('org', [('org', v, None), ('label', 'x')]), ('ram', [('ram', v), ('label', 'x')]),
                                ('align', [('ins', 'NOP'), ('align', v), ('label', 'x')])):
                    src = ('NOP\n' if k == 'align' else '') + '.%s %s\nx:\n' % (k, a[2])
                    chk.case((t.name, src))
                    compare(chk, t, prog, 'directive/' + k, src)
                if v < 256:
                    src = '.fill 3, %s\n' % a[2]
                    compare(chk, t, [('fill', 3, v)], 'directive/fillvalue', src)
                else:
                    src = '.fill 3, %s\n' % a[2]
                    r = execute(t.cls, src)
                    chk.expect(not r.ok, 'directive/fillvalue/accepted', '%r accepted: %s' % (src, r.brief()), {'source': src})
                if v <= 16:
                    src = '.repeat %s\nNOP\n.endrepeat\n' % a[2]
                    compare(chk, t, [('ins', 'NOP')] * v, 'directive/repeat', src)
        # not numbers at all: never silently a value
        for bad in ('$', '%', '0x', '%12', '%2', '$xyz', '$G', '0b2', '0o8', '0xg', '1h2', '12q4', "'", '5x', '5five', '1.5', '1e3', '-', '-x1', '--1', '#', '-$10', '-0x10', '-%1', '12h5'):
            for ins in ('U8', 'U16', 'S16', 'R16'):
                src = '%s %s\n' % (ins, bad)
                r = execute(t.cls, src)
                chk.case((t.name, src))
                chk.count('malformed_literals')
                chk.expect(not r.ok, 'malformed', lambda: '%s: %r accepted: %s' % (t.name, src, r.brief()), {'target': t.name, 'source': src})
    # literal operands of the shipped CPUs
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        d = LiteralDriver(chk, cpu, 'cpu/' + cpu.name)
        fs = [f for f in cpu.forms if f.known is None and any(s.kind == 'imm' and s.lit for s in f.slots) and all(s.kind == 'reg' or s.lit for s in f.slots)]
        widths = {}
        for f in fs:
            for s in f.slots:
                if s.kind == 'imm':
                    widths.setdefault((s.bits, s.signed), []).append(f)
        chosen = []
        for k, l in widths.items():
            chosen += rng.sample(l, min(len(l), chk.n(12, 200)))
        for f in dict.fromkeys(chosen):
            rc = reg_combos(f, rng, 3)
            for si, s in enumerate([s for s in f.slots if s.kind != 'reg']):
                if s.kind != 'imm':
                    continue
                vals = [v for v in s.values(rng, 3) if v >= 0]
                for v in rng.sample(vals, min(len(vals), chk.n(8, 20))):
                    for text, dec, _n in cpu.num.spellings(v, chars=False):
                        nums = []
                        for sj, o in enumerate([o for o in f.slots if o.kind != 'reg']):
                            if sj == si:
                                nums.append((text, v))
                            else:
                                w = next(x for x in (o.values(rng, 2) if o.kind == 'imm' else [0]) if o.kind == 'rel' or o.legal(x, True))
                                nums.append((str(w), w))
                        texts, vs = fill_operands(f, rng.choice(rc), nums)
                        line = f.text(texts)
                        if s.legal(v, dec):
                            chk.case((cpu.name, line), line)
                            d.accept(f, line, f.encode(vs), vs)
                            chk.see('cpu_spellings', (cpu.name, _n))
                        elif s.refuse and (s.dec_hi < v if dec else s.hex_hi < v):
                            chk.case((cpu.name, line), line)
                            d.refuse(f.id, line, 'does not fit')
        # data directives under this CPU's notations and byte order
        for w, names in DATA.items():
            top = 1 << (8 * w)
            for v in [0, 1, 10, top // 2 - 1, top // 2, top - 1, 0x1B, 0xDB & (top - 1), rng.randrange(top), rng.randrange(top), -1, -(top // 2)]:
                for text in ([x[0] for x in cpu.num.spellings(v, chars=False)] if v >= 0 else [str(v)]):
                    src = '.%s %s' % (rng.choice(names), text)
                    want = (v % top).to_bytes(w, 'big' if cpu.big else 'little')
                    r = execute(cpu.factory, src)
                    chk.case((cpu.name, src))
                    chk.expect(r.ok and r.data == want, 'cpudata/' + cpu.name, lambda: '%s: %r gives %s, expected [%s]' % (cpu.name, src, r.brief(), hx(want)),
                               {'cpu': cpu.name, 'source': src})
            for v in (top, top + 1, -(top // 2) - 1, -top, top << 8):
                for text in ([x[0] for x in cpu.num.spellings(v, chars=False)] if v >= 0 else [str(v)]):
                    src = '.%s %s' % (names[0], text)
                    r = execute(cpu.factory, src)
                    chk.case((cpu.name, src))
                    chk.expect(not r.ok, 'cpudata/' + cpu.name + '/accepted', lambda: '%s: %r accepted: %s' % (cpu.name, src, r.brief()), {'cpu': cpu.name, 'source': src})
    scale.texts_in_roles(chk, tg)
    chk.require('cpus', 2)
    chk.finish()
