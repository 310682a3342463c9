"""C06: label == its address, forward == backward."""
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare
from ..toy import FIELDS
from ..forms import collect_labels, check_label_items, fill_operands, reg_combos, spell_number, addresses
from .. import model, gen
from ..model import lit, lab
from ..cpu import all_cpus


def numeric_twins(chk, cpu, items):
    """the same program with the address written as a number (absolute operands)"""
    rng = chk.rng
    for line, pc, target, want, form in items:
        slots = [s for s in form.slots if s.kind == 'imm' and s.label]
        if not slots or not any(s.lit and s.legal(target, True) for s in slots):
            continue
        a = execute(cpu.factory, (cpu.prelude + '\n' if cpu.prelude else '') + '.org %d\n%s' % (pc, line.replace('@', str(target))))
        mode = rng.random() < .5
        d, u = '.org %d\nlbl:\n' % target, '.org %d\n%s\n' % (pc, line.replace('@', 'lbl'))
        src = (cpu.prelude + '\n' if cpu.prelude else '') + (d + u if mode else u + d)
        b = execute(cpu.factory, src)
        chk.case((cpu.name, line, target, 'twin'))
        chk.count('numeric_twins')
        if not a.ok:
            continue   # a number with no literal form here; judged by the CPU property
        chk.expect(b.ok and a.data == b.data, 'twin/%s/%s' % (cpu.name, form.id), lambda: '%s: %r with lbl = %d gives %s, with the number %s' % (
            cpu.name, line, target, b.brief(), a.brief()), lambda: {'cpu': cpu.name, 'source': src})


def multi(chk, cpu, rounds):
    """instructions with two label operands: both must be patched, each in its place"""
    rng = chk.rng
    for form in cpu.forms:
        idx = [i for i, s in enumerate(form.slots) if (s.kind == 'imm' and s.label) or s.kind == 'rel']
        if len(idx) < 2 or 'zp' in form.tags:
            continue
        if any(s.kind != 'reg' and i not in idx and not s.lit for i, s in enumerate(form.slots)):
            continue
        for _ in range(rounds):
            pc = rng.choice((0, 0x40, 0x1000))
            combo = rng.choice(reg_combos(form, rng, 4))
            nums, defs = [], ''
            for i, s in enumerate(form.slots):
                if s.kind == 'reg':
                    continue
                if i in idx:
                    if s.kind == 'imm':
                        t = rng.choice(addresses(s, rng, cpu, 2)[0])
                        v = t
                    else:
                        v = rng.randrange(0, min(s.hi, 0x1000)) // s.align * s.align
                        t = pc + s.base + v
                    nums.append(('l%d' % i, v))
                    defs += '.org %d\nl%d:\n' % (t, i)
                else:
                    v = rng.choice([x for x in s.values(rng, 2) if s.legal(x, True)]) if s.kind == 'imm' else 0
                    nums.append((str(v), v))
            texts, vals = fill_operands(form, combo, nums)
            line = form.text(texts)
            want = form.encode(vals)
            u = '.org %d\n%s\n' % (pc, line)
            pre = cpu.prelude + '\n' if cpu.prelude else ''
            for src in (pre + defs + u, pre + u + defs):
                r = execute(cpu.factory, src)
                chk.case((cpu.name, src), src)
                chk.count('two_label_instructions')
                chk.expect(r.ok and r.data == want, 'multi/%s/%s' % (cpu.name, form.id), lambda: '%s: %r gives %s, expected [%s]' % (cpu.name, src, r.brief(), hx(want)),
                           lambda: {'cpu': cpu.name, 'source': src})


def main():
    chk = Check('C06', 'every instruction form of every shipped CPU (and of a toy CPU covering every field shape) and every data directive that takes '
                'an absolute address or constant x boundary and random label addresses x label defined before / after the use, alone and in '
                'programs of 40 adjacent uses, compared with the encoding of the number; non-trivial = each distinct (form, registers, address, order)', 4000)
    rng = chk.rng
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        good, _ = collect_labels(chk, cpu, None, kinds=('imm',), values=chk.n(1, 20))
        good = [g for g in good if 'zp' not in g[4].tags]
        limit = chk.n(1600, 30000)
        if len(good) > limit:
            keep = {}
            rng.shuffle(good)
            for g in good:
                keep.setdefault(g[4].id, g)
            good = list(keep.values()) + good[:limit]
        check_label_items(chk, cpu, good, 'label', modes=(True, False, 'mixed'))
        numeric_twins(chk, cpu, rng.sample(good, min(len(good), chk.n(250, 4000))))
        multi(chk, cpu, chk.n(2, 30))
    # toy CPU: whole programs, label or number, before or after
    tg = targets()
    for i in range(chk.n(1500, 15000)):
        t = rng.choice(tg)
        names = ['v%d' % k for k in range(rng.randrange(1, 5))]
        vals = {n: gen.interesting(rng, rng.choice((5, 8, 8, 16, 28, 32))) // 4 * 4 if rng.random() < .5 else gen.interesting(rng, rng.choice((5, 8, 16, 32))) for n in names}
        body_l, body_n = [], []
        for _ in range(rng.randrange(1, 14)):
            f = rng.choice([f for f in FIELDS if f.relative is None])
            hi = 1 << f.bits_size
            ok = [n for n in names if vals[n] < (hi // 2 if f.signed else hi) and vals[n] % f.alignment == 0]
            r = rng.random()
            if r < .6 and ok:
                n = rng.choice(ok)
                body_l.append(('ins', f.name, lab(n)))
                body_n.append(('ins', f.name, lit(vals[n])))
            elif r < .8:
                w = rng.choice((1, 2, 4))
                its_l, its_n = [], []
                for _k in range(rng.randrange(1, 5)):
                    ok = [n for n in names if vals[n] < (1 << (8 * w))]
                    if ok and rng.random() < .6:
                        n = rng.choice(ok)
                        its_l.append(lab(n))
                        its_n.append(lit(vals[n]))
                    else:
                        v = lit(rng.choice((0, 1, 255)))
                        its_l.append(v)
                        its_n.append(v)
                body_l.append(('data', w, its_l))
                body_n.append(('data', w, its_n))
            elif r < .92:
                a = [n for n in names if vals[n] < 256]
                b = [n for n in names if vals[n] < 65536]
                if a and b:
                    x, y = rng.choice(a), rng.choice(b)
                    body_l.append(('two', lab(x), lab(y)))
                    body_n.append(('two', lit(vals[x]), lit(vals[y])))
            else:
                body_l.append(('ins', 'NOP'))
                body_n.append(('ins', 'NOP'))
        defs = []
        for n in names:
            defs += [('org', vals[n], None), ('label', n)]
        base = ('org', rng.choice((0, 0x100, 0x8000)), None)
        numbers = execute(t.cls, model.source([base] + body_n))
        for p in (defs + [base] + body_l, [base] + body_l + defs):
            src = model.source(p)
            chk.case((t.name, src), src)
            compare(chk, t, p, 'toy')
            r = execute(t.cls, src)
            chk.expect(numbers.ok and r.ok and numbers.data == r.data, 'toy-twin', lambda: '%r gives %s, with numbers %s' % (src, r.brief(), numbers.brief()), {'source': src})
    scale.big_images(chk, targets())
    chk.require('cpus', 2)
    chk.require('numeric_twins', 200)
    chk.finish()
