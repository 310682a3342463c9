from ..harness import Check, execute, hx
from ..forms import drive_places, drive_names, drive_negated, drive_literals, collect_labels, check_label_items, check_label_refusals
from ..cpu import mos6502


def main():
    chk = Check('C21', 'every mnemonic x addressing mode of the 6502 opcode matrix (rebuilt from its aaabbbcc bit fields) x boundary and '
                'random operand values x notations, as literals and as labels defined before and after; every mode a mnemonic lacks; '
                'non-trivial = each distinct line', 3000)
    rng = chk.rng
    cpu = mos6502.cpu()
    d = drive_literals(chk, cpu, values=chk.n(12, 200), per_form=chk.n(30, 300))
    for line in mos6502.negatives(rng):
        chk.case(line)
        d.refuse('illegal-mode', line, 'no such addressing mode')
    drive_places(chk, cpu)
    drive_names(chk, cpu, chk.n(4000, 40000))
    drive_negated(chk, cpu, chk.n(500, 5000))
    # labels: absolute and immediate operands, branches
    good, bad = collect_labels(chk, cpu, None, values=chk.n(6, 60), spell=.4)
    check_label_items(chk, cpu, good, 'label')
    check_label_refusals(chk, cpu, bad, 'label', limit=chk.n(600, 3000))
    # choice between zero page and absolute for labels: earlier definitions only
    abs_of = {'zp': 'abs', 'zpx': 'absx', 'zpy': 'absy'}
    for rnd in range(chk.n(2, 20)):
        for m, modes in mos6502.MODES.items():
            for mode in ('zp', 'zpx', 'zpy', 'indx', 'indy'):
                pair = abs_of.get(mode)
                if mode not in modes and (pair is None or pair not in modes):
                    continue
                zp_op, abs_op = modes.get(mode), modes.get(pair)
                t = mos6502.SYNTAX[mode].replace('{0}', m).replace('{1}', 'ptr')
                for v in (0, 1, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x1FF, 0xFFFF, rng.randrange(256), rng.randrange(65536)):
                    for backward in (True, False):
                        if backward and v <= 255 and zp_op is not None:
                            want = bytes([zp_op, v])
                        elif abs_op is not None:
                            want = bytes([abs_op, v & 255, v >> 8])
                        else:
                            want = None
                        src = '.org %d\nptr:\n.org $c000\n%s\n' % (v, t) if backward else '.org $c000\n%s\n.org %d\nptr:\n' % (t, v)
                        r = execute(cpu.factory, src)
                        chk.case((t, v, backward), src)
                        chk.count('zero_page_choices')
                        rep = lambda: {'source': src, 'expected': hx(want) if want else 'refused', 'observed': r.brief()}
                        if want is None:
                            chk.expect(not r.ok, 'zp/%s/accepted' % m, lambda: '%r must be refused, got %s' % (src, r.brief()), rep)
                        else:
                            chk.expect(r.ok and r.data == want, 'zp/%s' % m, lambda: '%r: expected [%s], %s' % (src, hx(want), r.brief()), rep)
    # the same choice for expressions: their value decides, and only when every label in them is known
    shapes = [('ptr+1', lambda v, w: v + 1), ('ptr-1', lambda v, w: v - 1), ('<ptr', lambda v, w: v & 255), ('>ptr', lambda v, w: v >> 8), ('ptr&255', lambda v, w: v & 255),
              ('ptr+two', lambda v, w: v + w), ('ptr-two', lambda v, w: v - w), ('ptr*2', lambda v, w: v * 2), ('>ptr+two', lambda v, w: (v >> 8) + w), ('<<ptr', lambda v, w: v & 65535)]
    for m, modes in mos6502.MODES.items():
        for mode in ('zp', 'zpx', 'zpy', 'indx', 'indy'):
            pair = abs_of.get(mode)
            if mode not in modes and (pair is None or pair not in modes):
                continue
            zp_op, abs_op = modes.get(mode), modes.get(pair)
            for _ in range(chk.n(8, 80)):
                e, f = rng.choice(shapes)
                v = rng.choice((1, 2, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x1234, 0xFF00, rng.randrange(1, 256), rng.randrange(256, 65535)))
                w = rng.choice((0, 1, 3, 0x80, 0xFF, 0x100))
                value = f(v, w)
                if not 0 <= value <= 0xFFFF:
                    continue
                t = mos6502.SYNTAX[mode].replace('{0}', m).replace('{1}', e)
                defs = ['.org %d\nptr:\n' % v, '.org %d\ntwo:\n' % w if 'two' in e else '']
                use = '.org $c000\n%s\n' % t
                order = rng.choice(('known', 'known', 'later', 'partly'))
                if order == 'partly' and not defs[1]:
                    order = 'later'
                src = {'known': defs[0] + defs[1] + use, 'later': use + defs[0] + defs[1], 'partly': defs[0] + use + defs[1]}[order]
                if order == 'known' and value <= 255 and zp_op is not None:
                    want = bytes([zp_op, value])
                elif abs_op is not None:
                    want = bytes([abs_op, value & 255, value >> 8])
                else:
                    want = None
                r = execute(cpu.factory, src)
                chk.case((t, v, w, order), src)
                chk.count('zero_page_expressions')
                rep = lambda: {'source': src, 'expected': hx(want) if want else 'refused', 'observed': r.brief()}
                if want is None:
                    chk.expect(not r.ok, 'zp-expr/%s/accepted' % m, lambda: '%r must be refused, got %s' % (src, r.brief()), rep)
                else:
                    chk.expect(r.ok and r.data == want, 'zp-expr/%s' % m, lambda: '%r: expected [%s], %s' % (src, hx(want), r.brief()), rep)
    chk.require('forms', 150)
    chk.finish()
