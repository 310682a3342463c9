from ._cpu import run
from ..cpu import thumb
from ..harness import execute, hx


def halfwords(chk):
    """label operands of instructions that do not start on a word"""
    rng = chk.rng
    cpu = thumb.cpu()
    for f in cpu.forms:
        if not any(s.kind == 'rel' for s in f.slots):
            continue
        s = f.slots[-1]
        for _ in range(chk.n(12, 150)):
            pc = rng.choice((2, 6, 0x102, 0x8002, 0x10000, 0x10002, 0x8000006))
            base = (pc + 4) & ~3 if isinstance(s, thumb.Literal) else pc + 4
            lo = max(s.lo, -base)
            d = rng.choice([0, s.align, 2 * s.align, s.hi - s.hi % s.align, lo + -lo % s.align, rng.randrange(lo, s.hi + 1) // s.align * s.align])
            if d < s.lo:
                continue
            texts, vals = [], []
            for x in f.slots:
                if x is s:
                    texts.append('there')
                    vals.append(d)
                else:
                    t, v = rng.choice(list(x.table.items()))
                    texts.append(t)
                    vals.append(v)
            line = f.text(texts)
            want = f.encode(vals)
            parts = ['.org %d\n%s' % (pc, line), '.org %d\nthere:' % (base + d)]
            src = '\n'.join(parts if rng.random() < .5 else parts[::-1]) + '\n'
            r = execute(cpu.factory, src)
            chk.case(src, src)
            chk.count('halfword_references')
            chk.expect(r.ok and r.data == want, 'halfword/' + f.id, lambda: '%r gives %s, the manual says [%s]' % (src, r.brief(), hx(want)), {'source': src})


def main():
    run('C26', [thumb.cpu()], 'the instruction formats of the ARM7TDMI data sheet the assembler has, rebuilt from their bit fields', extra=halfwords, min_forms=75, combos=(600, 600), per_form=(400, 1000), rounds=12)
