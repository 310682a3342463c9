"""C10: padding directives."""
from ..harness import Check, execute, hx
from ..core import targets, compare
from .. import model, gen, scale
from ..model import lit
from ..cpu import all_cpus


def main():
    chk = Check('C10', 'fill, align, goto and upto with and without a value, at counters reached through plain and bounded origins, RAM reservations, '
                'emitted bytes and earlier padding, with targets equal to, one past, far past and behind the position; non-trivial = each distinct program', 3000)
    rng = chk.rng
    tg = targets()
    for i in range(chk.n(6000, 60000)):
        t = rng.choice(tg)
        prog = []
        im = model.Image(t.big, t.fill)

        def add(s):
            prog.append(s)
            im.statement(s)
        bounded = rng.random() < .25
        if bounded:
            lo = rng.randrange(0, 0x800)
            add(('org', lo, lo + 4000))
        elif rng.random() < .7:
            add(('org', rng.choice((0, 1, 3, 0x10, 0x7FF, 0x1000, rng.randrange(0x10000))), None))
        try:
            for _ in range(rng.randrange(1, 7)):
                add(('probe',))
                r = rng.random()
                val = rng.choice((None, None, 0, 1, 0x7F, 0x80, 0xFF))
                if r < .2:
                    add(('ins', rng.choice(('NOP', 'HLT3'))))
                elif r < .3:
                    add(('data', 1, [lit(rng.randrange(256)) for _ in range(rng.randrange(1, 9))]))
                elif r < .37 and not bounded:
                    add(('ram', rng.randrange(1, 50)))
                elif r < .45 and not bounded:
                    add(('org', rng.randrange(0x4000), None))
                elif r < .6:
                    add(('fill', rng.choice((0, 1, 2, 3, 7, 64, 255, 256, 257)), val))
                elif r < .75:
                    add(('align', rng.choice((1, 2, 3, 4, 5, 7, 8, 10, 16, 64, 100, 256))))
                elif r < .88:
                    add(('goto', im.pc + rng.choice((0, 1, 2, 5, 100, -1, -2, 0, 30)), val))
                else:
                    add(('upto', im.counter + rng.choice((0, 1, 2, 5, 100, -1, -2, 0, 30)), val))
                if prog[-1][0] in ('goto', 'upto') and prog[-1][1] < 0:
                    prog.pop()
        except model.Bad:
            pass
        add_end = [('probe',), ('label', 'end')]
        prog += add_end
        prog = [s for s in prog if not (s[0] in ('goto', 'upto') and s[1] < 0)]
        src = model.source(prog)
        chk.case((t.name, src), src)
        for s in prog:
            chk.count('directive_' + s[0])
        compare(chk, t, prog, 'padding', src, trace=True)
    # exhaustive small cases
    for t in tg:
        for base in range(0, 9):
            for n in range(0, 5):
                body = [('ins', 'NOP')] * n
                for k in range(1, 9):
                    compare(chk, t, [('org', base, None)] + body + [('align', k), ('label', 'z'), ('ins', 'NOP')], 'align')
                    chk.case((t.name, base, n, 'align', k))
                for k in range(0, 12):
                    compare(chk, t, [('org', base, None)] + body + [('goto', k, None), ('label', 'z')], 'goto')
                    compare(chk, t, [('org', base, None)] + body + [('upto', k, 3), ('label', 'z')], 'upto')
                    chk.case((t.name, base, n, 'goto', k))
    # far from the origin
    for t in tg:
        for far in (0x7FFD, 0xFFFD, 0x10001, 0x12345):
            n = far + rng.randrange(3)
            for st in (('goto', n + 0x103, 7), ('upto', n + 3, None), ('upto', n, 2), ('align', 0x100), ('align', 3), ('fill', 0x10003, 4), ('goto', 0x100 + n - 1, None), ('upto', n - 1, None)):
                p = [('org', 0x100, None), ('fill', n, 1), ('probe',), st, ('probe',), ('label', 'z'), ('ins', 'NOP')]
                chk.case((t.name, n, st))
                chk.count('far_cases')
                compare(chk, t, p, 'far', trace=True)
        for st in (('goto', 0x1FFFF, 7), ('upto', 0x1FFFF, 7), ('upto', 0x10000, None), ('align', 0x10000), ('ram', 9)):
            p = [('org', 0x20, None), ('ram', 0xFFFE), ('probe',), st, ('probe',), ('label', 'z'), ('data', 4, [model.lab('z')])]
            chk.case((t.name, 'ram', st))
            compare(chk, t, p, 'far', trace=True)
    scale.far_fills(chk, tg)
    # fill values outside a byte, wrong operand counts, non numbers
    for t in tg:
        for src in ('.fill 3, 256', '.fill 3, -129', '.fill', '.fill 1, 2, 3', '.fill x', '.align', '.align 2, 3', '.align x', '.goto', '.goto 5, 256', '.goto 1,2,3',
                    '.goto x', '.upto', '.upto 4, 300', '.upto x', '.upto 1, 2, 3', '.ram', '.ram 0', '.ram -1', '.ram -200', '.fill -1', '.repeat -2', '.goto -1', '.upto -1', '.align -4', '.ram x', '.ram 1, 2', '.fill 3, x', '.goto 3, x', '.upto 3, x', '.align 0',
                    '.org', '.org x', '.org 1, x', '.org 1 2 3'):
            r = execute(t.cls, 'NOP\n' + src + '\nNOP')
            chk.case((t.name, src), src)
            chk.count('bad_directives')
            chk.expect(not r.ok, 'accepted', lambda: '%r accepted: %s' % (src, r.brief()), {'source': src})
            if r.asm is not None:
                chk.expect(bytes(r.asm.assembled_bytes) == b'\xEA', 'partial', lambda: '%r emitted %s' % (src, hx(r.asm.assembled_bytes)), {'source': src})
    for cpu in all_cpus():
        fill = cpu.factory().fill_value
        pre = cpu.prelude + '\n' if cpu.prelude else ''
        for k in (1, 2, 4, 16):
            for n in range(0, 6):
                src = pre + '.org 256\n' + '.db 1\n' * n + '.align %d\n.db 2\n.fill 2\n.goto 300\n.db 3\n.upto 60\n.db 4' % k
                body = b'\1' * n + bytes([fill]) * (-n % k) + b'\2' + bytes([fill]) * 2
                body += bytes([fill]) * (44 - len(body)) + b'\3'
                body += bytes([fill]) * (60 - len(body)) + b'\4'
                r = execute(cpu.factory, src)
                chk.case((cpu.name, src))
                chk.expect(r.ok and r.data == body, 'cpu/' + cpu.name, lambda: '%s: %r gives %s expected %s' % (cpu.name, src, r.brief(), hx(body)), {'source': src})
    chk.finish()
