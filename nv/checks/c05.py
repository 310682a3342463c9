import os
import tempfile
from .. import scale
from ..harness import Check, execute
from ..core import targets, compare, with_probe
from ..rich import Rich
from .. import gen, model
from ..cpu import all_cpus
from .c01 import cpu_lines


def main():
    chk = Check('C05', 'random statement sequences (labels, instructions with literal and label operands, data, strings, fill, align, goto, upto, '
                'RAM, plain and bounded origins, repeats, macros, includes, imported files) on six configurations of a CPU declared through the '
                'public interface and on every shipped CPU, a probe directive reading the location counter and image length before every '
                'statement; non-trivial = more than six statements', 1500)
    rng = chk.rng
    tg = targets()
    for i in range(chk.n(1500, 15000)):
        t = rng.choice(tg)
        p = gen.flat_program(rng, t.num, rng.randrange(3, 25))
        # padding that depends on the counter
        pos = 0
        for k in range(rng.randrange(0, 3)):
            at = rng.randrange(len(p) + 1)
            im = model.Image(t.big, t.fill)
            for s in p[:at]:
                im.statement(s)
            kind = rng.choice(('goto', 'upto'))
            here = im.pc if kind == 'goto' else im.counter
            p.insert(at, (kind, here + rng.choice((0, 0, 1, 2, 50)), rng.choice((None, 3))))
            # later statements are unaffected unless they depend on the counter; keep only consistent programs
            try:
                model.run(p, t.big, t.fill)
            except model.Bad:
                p.pop(at)
        if rng.random() < .4:
            # several sources given to one assembler one after the other
            for _ in range(rng.randrange(1, 3)):
                p.insert(rng.randrange(len(p) + 1), ('eos',))
        if rng.random() < .4:
            # (and one that ends in a bounded origin, whose padding counts)
            lo = rng.randrange(0x8000, 0x9000)
            body = [('ins', 'NOP')] * rng.randrange(0, 4) + [('data', 1, [model.lit(rng.randrange(256)) for _ in range(rng.randrange(1, 5))])]
            n = len(body) - 1 + len(body[-1][2])
            p += [('org', lo, lo + n - 1 + rng.choice((0, 1, 2, 30)))] + body + [('probe',), ('eos',), ('probe',), ('label', 'behind'), ('ins', 'U16', model.lab('behind')), ('probe',)]
            if rng.random() < .5:
                p += [('org', lo + 0x800, None), ('probe',), ('label', 'last'), ('ins', 'NOP')]
        for s in p:
            if s[0] == 'eos':
                chk.count('further_sources')
        chk.case(p, model.source(p), nontrivial=len(p) > 6)
        for s in p:
            chk.see('statement_kinds', s[:2] if s[0] == 'ins' else s[0])
        compare(chk, t, p, 'program', trace=True, rng=rng)
    # reservations of any size, also past the end of a bounded origin
    for i in range(chk.n(300, 3000)):
        t = rng.choice(tg)
        lo = rng.choice((0, 0x100, 0x8000, 0xC000, 0x10000, rng.randrange(1 << 20)))
        end = lo + rng.randrange(0, 40) if rng.random() < .5 else None
        p = [('org', lo, end), ('probe',), ('label', 'l0')]
        for k in range(1, rng.randrange(2, 7)):
            r = rng.random()
            if r < .5:
                p.append(('ram', rng.choice((1, 2, 7, 30, 41, 255, 256, 4096, 65535, 65536, 1 << 20, (1 << 24) + 5, rng.randrange(1, 1 << 28)))))
            elif r < .8:
                p.append(('data', 1, [model.lit(rng.randrange(256)) for _ in range(rng.randrange(1, 9))]))
            else:
                p.append(('ins', 'NOP'))
            p += [('probe',), ('label', 'l%d' % k)]
        p += [('data', 4, [model.lab(s[1]) for s in p if s[0] == 'label']), ('probe',)]
        if rng.random() < .3:
            p += [('eos',), ('probe',), ('ins', 'NOP'), ('label', 'z'), ('probe',)]
        chk.case(p, model.source(p))
        chk.count('reservations', sum(s[0] == 'ram' for s in p))
        compare(chk, t, p, 'reserve', trace=True)
    with tempfile.TemporaryDirectory() as d:
        for i in range(chk.n(700, 7000)):
            t = rng.choice(tg)
            R = Rich(rng, t.num, d, features=('define', 'macro', 'repeat', 'include', 'import', 'org', 'pad'))
            lines = R.block(rng.randrange(2, 18))
            bounded = rng.random() < .3
            R.write_files()
            src = '\n'.join(lines) + '\n'
            flat = R.flat
            if bounded and not any(s[0] in ('org', 'ram') for s in flat):
                im = model.Image(t.big, t.fill)
                for s in flat:
                    im.statement(s)
                lo = rng.randrange(0, 0x4000)
                end = lo + len(im.out) + 64 + rng.randrange(0, 40)
                if not any(s[0] in ('align', 'goto', 'upto') for s in flat):
                    nxt = end + rng.choice((1, 1, 5, 0x100))
                    src = '.org %d %d\n' % (lo, end) + src + '.org %d\n.probe\nafter:\nNOP\n' % nxt
                    flat = [('org', lo, end)] + flat + [('org', nxt, None), ('probe',), ('label', 'after'), ('ins', 'NOP')]
            for k in R.kinds:
                chk.see('constructs', k)
            chk.case(src, src)
            compare(chk, t, flat, 'structured', src, trace=True)
            for n in R.files:
                os.unlink(n)
    # shipped CPUs: the counter follows the emitted instruction lengths
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        for i in range(chk.n(30, 300)):
            items = cpu_lines(rng, cpu, rng.randrange(3, 30))
            pc = base = rng.choice((0, 0x100, 0x4000))
            src = (cpu.prelude + '\n' if cpu.prelude else '') + '.org %d\n' % base
            trace, off, want, labels = [], 0, b'', {}
            for n, (l, b) in enumerate(items):
                src += '.probe\nl%d:\n%s\n' % (n, l)
                trace.append((pc, off))
                labels['l%d' % n] = pc
                pc += len(b)
                off += len(b)
                want += b
                if rng.random() < .15:
                    k = rng.randrange(1, 30)
                    src += '.ram %d\n' % k
                    pc += k
            r = execute(cpu.factory, src, setup=with_probe)
            chk.case(src, None)
            rep = lambda: {'cpu': cpu.name, 'source': src, 'observed': r.brief()}
            if not r.ok:
                chk.expect(False, 'cpu-refused/' + cpu.name, '%s: valid instruction stream refused: %s' % (cpu.name, r.brief()), rep)
                continue
            if r.data != want:
                # encodings are judged by the per-CPU properties; here lengths only
                chk.count('encoding_differs')
            chk.count('probe_events', len(r.events))
            chk.expect(r.events == trace, 'cpu-counter/' + cpu.name, lambda: '%s: counter trace differs in %r: %s instead of %s' % (
                cpu.name, src[:300], r.events[:10], trace[:10]), rep)
            got = {k: r.asm.get_label_absolute_address_by_name(k) for k in labels}
            chk.expect(got == labels, 'cpu-label/' + cpu.name, lambda: '%s: labels differ in %r' % (cpu.name, src[:300]), rep)
    scale.big_images(chk, tg)
    chk.require('further_sources', 500)
    chk.require('reservations', 200)
    chk.require('constructs', 8)
    chk.finish()
