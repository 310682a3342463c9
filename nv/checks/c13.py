"""C13: repeat blocks."""
import os
import tempfile
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare, with_probe
from .. import model, gen
from ..toy import FIELDS, FIELD
from ..model import lit, lab, expr, render
from ..cpu import all_cpus
from .c01 import cpu_lines


def body_statement(rng, t, names):
    r = rng.random()
    if r < .3:
        f = rng.choice([f for f in FIELDS if f.name in ('R16', 'R32', 'U16', 'U32', 'R8', 'B16', 'J26', 'B11')])
        n = rng.choice(names)
        e = lab(n) if rng.random() < .7 else expr(lab(n), '', [('+', lit(rng.choice((0, 4, 8))))])
        return ('ins', f.name, e)
    if r < .4:
        return ('ins', rng.choice(('NOP', 'HLT3')))
    if r < .5:
        return ('two', lit(rng.randrange(256)), lab(rng.choice(names)))
    if r < .8:
        w = rng.choice((1, 2, 4))
        return ('data', w, [lab(rng.choice(names)) if w > 1 and rng.random() < .5 else gen.rand_literal(rng, t.num, 8 * w) for _ in range(rng.randrange(1, 4))])
    if r < .87:
        return ('data', 1, [gen.rand_string(rng)])
    if r < .91:
        return ('ram', rng.randrange(1, 9))
    return ('fill', rng.randrange(0, 6), rng.choice((None, 9)))


def main():
    chk = Check('C13', 'random repeat blocks (bodies of instructions, data, strings, RAM reservations, padding by fill, label references and relative branches to labels '
                'before, after and between blocks, macro calls and imports inside; counts 1..300; several blocks, plain and bounded origins) compared '
                'with the body written out, with a probe after every block; non-trivial = count above one and a non-empty body', 2500)
    rng = chk.rng
    tg = targets()
    for i in range(chk.n(3500, 35000)):
        t = rng.choice(tg)
        names = ['l%d' % k for k in range(3)]
        lines, flat = [], []
        base = rng.choice((0, 4, 0x40, 0x1000))
        end = None
        if rng.random() < .2:
            end = base + 6000
        lines.append('.org %d' % base + (' %d' % end if end else ''))
        flat.append(('org', base, end))
        place = sorted(rng.randrange(0, 5) for _ in names)
        deep = 0
        for step in range(5):
            if not end and rng.random() < .3:
                # counter and image length part
                s = ('ram', rng.randrange(1, 40)) if rng.random() < .5 else ('org', rng.choice((0, 8, 0x100, 0x2000)), None)
                lines.append(render(s, rng))
                flat.append(s)
                chk.count('moved_counters')
            if rng.random() < .1:
                lines.append('.section s%d RX' % step)
            if rng.random() < .1:
                lines.append(model.EOS)
                flat.append(('eos',))
            for n, p in zip(names, place):
                if p == step:
                    if rng.random() < .6:
                        lines.append('.align 4')
                        flat.append(('align', 4))
                    lines.append(n + ':')
                    flat.append(('label', n))
            if rng.random() < .6:
                n = rng.choice((1, 2, 2, 3, 4, 7, 16, 50 if rng.random() < .2 else 5))
                body = [body_statement(rng, t, names) for _ in range(rng.randrange(0, 6))]
                if len(body) and n > 1:
                    deep += 1
                lines.append('.%s %s' % (rng.choice(('repeat', 'REPEAT')), t.num.spell(rng, n)[0]))
                lines += [render(s, rng) for s in body]
                lines.append('.endrepeat')
                flat += body * n
            else:
                s = body_statement(rng, t, names)
                lines.append(render(s, rng))
                flat.append(s)
            lines.append('.probe')
            flat.append(('probe',))
        src = '\n'.join(lines) + '\n'
        chk.case((t.name, src), src, nontrivial=deep > 0)
        chk.count('repeat_blocks', deep)
        compare(chk, t, flat, 'repeat', src, trace=True)
    # macros, includes and imports inside a block
    with tempfile.TemporaryDirectory() as d:
        for i in range(chk.n(300, 3000)):
            t = rng.choice(tg)
            n = rng.randrange(1, 8)
            blob = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 9)))
            p = os.path.join(d, 'x%d.bin' % i)
            q = os.path.join(d, 'x%d.inc' % i)
            with open(p, 'wb') as f:
                f.write(blob)
            with open(q, 'w') as f:
                f.write('U16 far\nNOP\n')
            parts = rng.sample(['.incbin "%s"' % p, '.include "%s"' % q, 'mm 3', '.dw far', 'R16 far', '.dw_to_ascii far', '.db_to_ascii <far+7', '.dw_to_asciiz far*3-1', '.db_to_asciiz >far', '.db <far, >far', '.dd far|5'], rng.randrange(1, 7))
            fwd = rng.random() < .5
            de = '.org 512\nfar:\n'
            src_h = '.macro mm a\nU8 a\nU32 far\nU8 a+1\n.endmacro\n'
            body = '\n'.join(parts) + '\n'
            tail = '.org 0\n'
            a = src_h + ('' if fwd else de) + tail + '.repeat %d\n' % n + body + '.endrepeat\nNOP\n' + (de if fwd else '')
            b = src_h + ('' if fwd else de) + tail + body * n + 'NOP\n' + (de if fwd else '')
            ra, rb = execute(t.cls, a), execute(t.cls, b)
            chk.case((t.name, a), a)
            chk.count('composed_blocks')
            chk.expect(rb.ok and ra.ok and ra.data == rb.data, 'composed', lambda: '%r gives %s, written out %s' % (a, ra.brief(), rb.brief()), {'source': a, 'written_out': b})
            os.unlink(p)
            os.unlink(q)
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        rels = [f for f in cpu.forms if len(f.slots) == 1 and f.slots[0].kind == 'rel' and not f.slots[0].nonzero]
        abss = [f for f in cpu.forms if any(s.kind == 'imm' and s.label and s.lbits >= 16 for s in f.slots) and all(s.kind == 'reg' or (s.kind == 'imm' and s.lit) for s in f.slots)
                and 'zp' not in f.tags]
        for i in range(chk.n(80, 800)):
            n = rng.randrange(1, 7)
            body = [l for l, _ in cpu_lines(rng, cpu, rng.randrange(0, 3))]
            extra = []
            for _ in range(rng.randrange(0, 3)):
                if rels and rng.random() < .6:
                    extra.append(rng.choice(rels).text([rng.choice(('top', 'bottom'))]))
                elif abss:
                    f = rng.choice(abss)
                    k = [x for x, s in enumerate(f.slots) if s.kind == 'imm' and s.label and s.lbits >= 16][0]
                    texts = []
                    for x, s in enumerate(f.slots):
                        if s.kind == 'reg':
                            texts.append(rng.choice(list(s.table)))
                        elif x == k:
                            texts.append(rng.choice(('top', 'bottom')))
                        else:
                            texts.append(str(rng.choice([v for v in s.values(rng, 2) if s.legal(v, True)])))
                    extra.append(f.text(texts))
            body += extra
            rng.shuffle(body)
            pre = cpu.prelude + '\n' if cpu.prelude else ''
            mid = '\n'.join(body) + '\n'
            a = pre + '.org 4096\ntop:\n.repeat %d\n' % n + mid + '.endrepeat\nbottom:\n' + cpu.nop[0]
            b = pre + '.org 4096\ntop:\n' + mid * n + 'bottom:\n' + cpu.nop[0]
            ra, rb = execute(cpu.factory, a), execute(cpu.factory, b)
            chk.case((cpu.name, a), a)
            chk.count('cpu_blocks')
            if not rb.ok:
                chk.expect(not ra.ok, 'cpu-accepted/' + cpu.name, lambda: '%s: %r accepted (%s), written out refused: %s' % (cpu.name, a[:400], ra.brief(), rb.brief()), {'source': a})
                chk.count('cpu_blocks_refused')
                continue
            chk.expect(ra.ok and ra.data == rb.data, 'cpu/' + cpu.name, lambda: '%s: %r gives %s, written out %s' % (cpu.name, a[:400], ra.brief(), rb.brief()),
                       {'cpu': cpu.name, 'source': a, 'written_out': b})
    scale.big_blocks(chk, tg)
    chk.require('moved_counters', 500)
    for t in tg:
        for src, why in (('.repeat 2\n.repeat 3\nNOP\n.endrepeat\n.endrepeat', 'nested'), ('.endrepeat', 'no start'), ('NOP\n.repeat 0\nNOP\n.endrepeat', 'zero'),
                         ('.repeat -1\nNOP\n.endrepeat', 'negative'), ('.repeat x\nNOP\n.endrepeat', 'not a number'), ('.repeat\nNOP\n.endrepeat', 'no count'),
                         ('.repeat 2 3\nNOP\n.endrepeat', 'two counts'), ('.repeat 2\nNOP', 'no end'), ('.repeat 2\nNOP\n.endrepeat\n.endrepeat', 'two ends'),
                         ('.repeat 3\nU16 nowhere\n.endrepeat', 'undefined label'), ('.repeat 2\nBOGUS\n.endrepeat', 'faulty body'),
                         ('.repeat 70\nR8 far\n.endrepeat\n.fill 100\nfar:', 'out of reach from the first copies'),
                         ('near:\n.repeat 70\nR8 near\n.endrepeat\n', 'out of reach from the last copies')):
            r = execute(t.cls, src)
            chk.case((t.name, src), src)
            chk.count('faulty_blocks')
            chk.expect(not r.ok, 'fault/' + why.replace(' ', '-'), lambda: '%r (%s) accepted: %s' % (src, why, r.brief()), {'source': src})
            if r.asm is not None and why in ('nested', 'zero', 'negative', 'no start', 'two ends', 'not a number', 'no count'):
                expect = {'two ends': b'\xEA\xEA', 'zero': b'\xEA'}.get(why, b'')
                chk.expect(bytes(r.asm.assembled_bytes) == expect, 'fault-emitted/' + why.replace(' ', '-'), lambda: '%r emitted %s' % (src, hx(r.asm.assembled_bytes)), {'source': src})
        for n in (1, 2, 255, 256, 300):
            r = execute(t.cls, '.org 0\n.repeat %d\n.db 1\n.dw end\n.endrepeat\nend:' % n)
            want = (b'\1' + (3 * n).to_bytes(2, 'big' if t.big else 'little')) * n
            chk.case((t.name, 'count', n))
            chk.expect(r.ok and r.data == want, 'count', lambda: 'repeat %d gives %s' % (n, r.brief()[:200]), {'n': n})
    chk.finish()
