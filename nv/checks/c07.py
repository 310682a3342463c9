"""C07: pc-relative operands."""
from .. import scale
from ..harness import Check, execute
from ..core import targets, compare
from ..toy import FIELDS
from ..forms import collect_labels, collect_misplaced, check_label_items, check_label_refusals
from .. import model
from ..model import lab, expr, lit
from ..cpu import all_cpus


def main():
    chk = Check('C07', 'every pc-relative form of every shipped CPU and of the toy CPU (8/11/16/32-bit fields, scaled and not) x displacements at '
                'and next to both ends of the reach, zero, the instruction itself, random, x origins x target before / after the branch; targets '
                'beyond the reach or misaligned must be refused, as must branches from addresses at which the distance does not fit the scale of the field; non-trivial = each distinct (form, pc, target, order)', 2000)
    rng = chk.rng
    for cpu in all_cpus():
        good, bad = collect_labels(chk, cpu, None, kinds=('rel',), combos=4, values=chk.n(8, 120), spell=.4)
        if not good:
            continue
        chk.see('cpus_with_branches', cpu.name)
        limit = chk.n(1500, 30000)
        if len(good) > limit:
            keep = {}
            rng.shuffle(good)
            for g in good:
                keep.setdefault(g[4].id, g)
            good = list(keep.values()) + good[:limit]
        check_label_items(chk, cpu, good, 'branch', modes=(True, False, 'mixed'))
        check_label_refusals(chk, cpu, bad, 'beyond', limit=chk.n(300, 4000))
        misplaced = collect_misplaced(chk, cpu, chk.n(3, 40))
        chk.count('branches_from_unaligned_addresses', len(misplaced))
        check_label_refusals(chk, cpu, misplaced, 'misplaced', limit=chk.n(600, 6000), modes=(True, False, 'mixed'))
        loops(chk, cpu, rng)
    for t in targets():
        for f in [f for f in FIELDS if f.relative is not None]:
            lo, hi = -(1 << (f.bits_size - 1)), (1 << (f.bits_size - 1)) - 1
            ds = [lo, lo + f.alignment, -f.relative, -f.alignment, 0, f.alignment, hi // f.alignment * f.alignment,
                  lo - f.alignment, lo - 1, hi + 1, (hi + 1) // f.alignment * f.alignment + f.alignment, hi + 2, lo * 2, hi * 2, hi * 4 + 4]
            ds += [rng.randrange(lo, hi) for _ in range(chk.n(10, 100))]
            for d in ds:
                for base in (0, 4, 0x100, 0x1234, 0x10000):
                    pc = base // 4 * 4
                    pc += max(0, -(d + f.relative) - pc + 3) // 4 * 4 + (4 if d + f.relative < 0 else 0)
                    target = pc + f.relative + d
                    use = [('org', pc, None), ('ins', f.name, lab('t'))]
                    de = [('org', target, None), ('label', 't')]
                    for p in (use + de, de + use):
                        chk.case((t.name, model.source(p)), model.source(p))
                        chk.count('toy_branches')
                        compare(chk, t, p, 'toy/' + f.name)
    scale.far_branches(chk, targets())
    chk.require('branches_from_unaligned_addresses', 200)
    chk.require('cpus_with_branches', 1)
    chk.finish()


def loops(chk, cpu, rng):
    """realistic loops: code between the branch and its label"""
    forms = [f for f in cpu.forms if len(f.slots) == 1 and f.slots[0].kind == 'rel']
    ntext, nbytes = cpu.nop
    for _ in range(chk.n(60, 600)):
        if not forms:
            return
        f = rng.choice(forms)
        s = f.slots[0]
        ilen = len(f.encode([0]))
        n = rng.randrange(0, 40)
        pad = n * len(nbytes)
        base = rng.choice((0, 0x100, 0x2000))
        # backward
        d = -(pad + s.base)
        if s.lo <= d and d % s.align == 0 and (d or not s.nonzero) and base % s.lalign == 0:
            src = (cpu.prelude + '\n' if cpu.prelude else '') + '.org %d\nloop:\n' % base + (ntext + '\n') * n + f.text(['loop']) + '\n'
            want = nbytes * n + f.encode([d])
            judge(chk, cpu, f, src, want)
        d = pad + ilen - s.base
        if s.lo <= d <= s.hi and d % s.align == 0 and (d or not s.nonzero) and (base + pad + ilen) % s.lalign == 0:
            src = (cpu.prelude + '\n' if cpu.prelude else '') + '.org %d\n' % base + f.text(['fwd']) + '\n' + (ntext + '\n') * n + 'fwd:\n' + ntext
            want = f.encode([d]) + nbytes * (n + 1)
            judge(chk, cpu, f, src, want)


def judge(chk, cpu, f, src, want):
    r = execute(cpu.factory, src)
    chk.case((cpu.name, src), src[:100])
    chk.expect(r.ok and r.data == want, 'loop/%s/%s' % (cpu.name, f.id), lambda: '%s: %r gives %s, expected [%s]' % (cpu.name, src[:200], r.brief(), want.hex(' ')),
               {'cpu': cpu.name, 'source': src})
