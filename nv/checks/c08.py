"""C08: labels that do not fit are refused, those that fit accepted, nothing is saved."""
import os
import tempfile
from ..harness import Check, execute
from ..core import targets, compare
from ..toy import FIELDS
from ..forms import collect_labels, check_label_items, check_label_refusals
from .. import model
from ..model import lab, expr, lit
from ..cpu import all_cpus


def main():
    chk = Check('C08', 'every label-taking operand of every shipped CPU, of the toy CPU and of the data directives x label values just inside and '
                'just outside the field, far outside, negative (by expressions), misaligned, and undefined, defined before and after; a saved '
                'image is only allowed after a successful link; non-trivial = each distinct (form, address, order)', 3000)
    rng = chk.rng
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        good, bad = collect_labels(chk, cpu, None, values=1)
        limit = chk.n(600, 20000)
        if len(good) > limit:
            keep = {}
            rng.shuffle(good)
            for g in good:
                keep.setdefault(g[4].id, g)
            good = list(keep.values()) + good[:limit // 2]
        check_label_items(chk, cpu, good, 'fits', modes=(True, False) if chk.thorough else (rng.random() < .5,))
        if len(bad) > chk.n(900, 20000):
            keep = {}
            rng.shuffle(bad)
            for g in bad:
                keep.setdefault(g[4].id, g)
            bad = list(keep.values()) + bad[:chk.n(500, 20000)]
        check_label_refusals(chk, cpu, bad, 'refuse', limit=len(bad))
        # undefined labels and negative expressions in every label-taking form
        seen = set()
        for line, pc, target, want, form in good:
            key = form.id
            if key in seen:
                continue
            seen.add(key)
            pre = cpu.prelude + '\n' if cpu.prelude else ''
            src = pre + '.org %d\n%s\nother:\n' % (pc, line.replace('@', 'missing'))
            r = execute(cpu.factory, src)
            chk.case((cpu.name, src), src)
            chk.count('undefined_label_uses')
            chk.expect(not r.ok, 'undefined/%s/%s' % (cpu.name, form.id), lambda: '%s: %r accepted: %s' % (cpu.name, src, r.brief()), {'cpu': cpu.name, 'source': src})
            if any(s.kind == 'imm' and s.label for s in form.slots) and not any(s.kind == 'rel' for s in form.slots) and '#@' not in line:
                src = pre + '.org %d\n%s\n.org 16\nsmall:\n' % (pc, line.replace('@', 'small-32'))
                r = execute(cpu.factory, src)
                chk.case((cpu.name, src), src)
                chk.count('negative_label_uses')
                chk.expect(not r.ok, 'negative/%s/%s' % (cpu.name, form.id), lambda: '%s: %r accepted: %s' % (cpu.name, src, r.brief()), {'cpu': cpu.name, 'source': src})
    for t in targets():
        for f in FIELDS:
            if f.relative is not None:
                continue
            top = 1 << f.bits_size
            vals = [0, f.alignment, top - f.alignment, top - 1, top, top + 1, top + f.alignment, top * 2, top * 256, 3, 5, 6, top // 2, top // 2 - 1, (top << 32) + 4]
            vals += [rng.randrange(top) for _ in range(chk.n(6, 60))] + [rng.randrange(top, top * 4) for _ in range(chk.n(4, 40))]
            for v in vals:
                if f.signed and top // 2 <= v < top:
                    continue
                exprs = [(lab('t'), v)]
                k = rng.randrange(0, 5) * f.alignment
                exprs.append((expr(lab('t'), '', [('+', lit(k))]), v - k))
                exprs.append((expr(lab('t'), '', [('-', lit(k))]), v + k))
                for e, at in exprs:
                    if at < 0:
                        continue
                    use = [('org', 0x40, None), ('ins', f.name, e), ('ins', 'NOP')]
                    de = [('org', at, None), ('label', 't')]
                    for p in (use + de, de + use):
                        chk.case((t.name, model.source(p)), model.source(p))
                        chk.count('toy_fixups')
                        compare(chk, t, p, 'toy/' + f.name)
            for at in (0, 1, 4, 8):
                e = expr(lab('t'), '', [('-', lit(at + rng.choice((4, 8, 256))))])
                use = [('org', 0x40, None), ('ins', f.name, e)]
                de = [('org', at, None), ('label', 't')]
                for p in (use + de, de + use):
                    chk.case((t.name, model.source(p)))
                    compare(chk, t, p, 'toy-negative/' + f.name)
        for w, names in ((1, ('db', 'byte')), (2, ('dw', 'word')), (4, ('dd', 'dl', 'dword'))):
            top = 1 << (8 * w)
            for v in (0, 1, top // 2, top - 1, top, top + 1, top * 2, top * 256):
                for n in names:
                    use, de = '.%s 1, t, 2\n' % n, '.org %d\nt:\n' % v
                    p_use, p_de = [('data', w, [lit(1), lab('t'), lit(2)])], [('org', v, None), ('label', 't')]
                    compare(chk, t, p_use + p_de, 'data', use + de)
                    chk.case((t.name, n, v), use + de)
                    compare(chk, t, p_de + p_use, 'data', de + use)
                    for op, a, at in (('+', 1, v - 1), ('-', 3, v + 3), ('+', 200, v - 200), ('|', 0, v), ('/', 2, 2 * v + 1), ('&', top * 2 - 1, v)):
                        if at < 0 or op == '&' and v >= top * 2:
                            continue
                        e = expr(lab('t'), '', [(op, lit(a))])
                        p_use2, p_de2 = [('data', w, [lit(1), e, lit(2)])], [('org', at, None), ('label', 't')]
                        s_use, s_de = '.%s 1, t%s%d, 2\n' % (n, op, a), '.org %d\nt:\n' % at
                        chk.case((t.name, n, v, op), s_use + s_de)
                        compare(chk, t, p_use2 + p_de2, 'data-expr', s_use + s_de)
                        compare(chk, t, p_de2 + p_use2, 'data-expr', s_de + s_use)
    # one bad fix-up among many good ones, and nothing saved
    with tempfile.TemporaryDirectory() as d:
        dst = os.path.join(d, 'out.bin')
        for i in range(chk.n(150, 1500)):
            t = rng.choice(targets())
            n = rng.randrange(2, 30)
            badpos = rng.randrange(n)
            kind = rng.choice(('wide', 'undefined', 'negative', 'misaligned', 'reach'))
            lines = []
            for k in range(n):
                if k != badpos:
                    lines.append(rng.choice(('U16 ok', '.dw ok', 'R16 ok', 'U32 ok+1', '.dd ok')))
                else:
                    lines.append({'wide': 'U8 big', 'undefined': rng.choice(('U16 nope', '.dw nope+1', '.dd ok+nope', 'R8 nope')), 'negative': 'U16 ok-%d' % 70000,
                                  'misaligned': 'J26 odd', 'reach': 'R8 big'}[kind])
            src = '.org 0\n' + '\n'.join(lines) + '\n.org %d\nok:\n.org 65280\nbig:\n.org 4097\nodd:\n' % rng.choice((0x100, 0x200))
            r = execute(t.cls, src)
            chk.case((t.name, src), src)
            chk.count('one_bad_among_many')
            chk.expect(not r.ok, 'mixed/' + kind, lambda: '%r accepted: %s' % (src, r.brief()), {'source': src})
    chk.require('cpus', 2)
    chk.finish()
