"""C01: layout changes nothing."""
import os
import tempfile
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare, with_probe
from ..rich import Rich
from ..layout import relayout
from .. import model
from ..cpu import all_cpus
from ..forms import reg_combos, fill_operands, spell_number

QUOTED = ["';'", "':'", "'('", "','", "' '", '"a;b:c,d(e)[f]{g}"', '"tab\there"', '";"', '" lead trail "', '"it\'s"', "'\"'", '".org 5"', '"x:"',
          '"a\\"b;c"', '"\\\\"', "'\\''"]


def cpu_lines(rng, cpu, n):
    out = []
    forms = [f for f in cpu.forms if f.known is None]
    while len(out) < n:
        f = rng.choice(forms)
        nums = []
        if any(s.kind != 'reg' and not s.lit for s in f.slots):
            continue
        for s in f.slots:
            if s.kind == 'reg':
                continue
            if s.kind == 'imm':
                v = rng.choice([v for v in s.values(rng, 3) if s.legal(v, True)])
                nums.append((spell_number(cpu, rng, v, s)[0], v))
            else:
                v = rng.randrange(0, s.hi) // s.align * s.align
                if s.lit_ok and not s.lit_ok(v) or s.nonzero and v == 0:
                    v = s.align * 2
                nums.append((str(v), v))
        combo = rng.choice(reg_combos(f, rng, 8))
        texts, vals = fill_operands(f, combo, nums)
        out.append((f.text(texts), f.encode(vals)))
    return out


def main():
    chk = Check('C01', 'random structured programs (labels, instructions, data, quoted text, padding, defines, macros, repeats, origins) and '
                'instruction streams of every shipped CPU, each rendered in a canonical and in several random layouts (blank lines, indentation, '
                'tabs, comma/blank separators, blanks around brackets, LF/CRLF/CR, comments, labels inline, letter case, no final newline); '
                'non-trivial = the layout differs from the canonical text', 1500)
    rng = chk.rng
    tg = targets()
    with tempfile.TemporaryDirectory() as d:
        for i in range(chk.n(450, 5000)):
            t = rng.choice(tg)
            R = Rich(rng, t.num, d, features=('define', 'macro', 'repeat', 'org', 'pad'), probes=rng.random() < .5)
            lines = R.block(rng.randrange(1, 14))
            for _ in range(rng.randrange(0, 3)):
                q = rng.choice(QUOTED)
                k = rng.randrange(len(lines) + 1) if not any(l.startswith(('.macro', '.repeat')) for l in lines) else len(lines)
                if k == len(lines):
                    lines.append('.db ' + q)
                    R.flat.append(('data', 1, [unquote(q)]))
            for _ in range(3):
                src = relayout(rng, lines)
                chk.case(src, src, nontrivial=src != '\n'.join(lines) + '\n')
                compare(chk, t, R.flat, 'layout', src, trace=True)
        cpus = all_cpus()
        for cpu in cpus:
            chk.see('cpus', cpu.name)
            for i in range(chk.n(40, 400)):
                items = cpu_lines(rng, cpu, 25)
                lines = [x[0] for x in items]
                want_labels = {}
                pc = 0
                full = []
                for n, (l, b) in enumerate(items):
                    if rng.random() < .3:
                        full.append('lb%d:' % n)
                        want_labels['lb%d' % n] = pc
                    full.append(l)
                    pc += len(b)
                if cpu.prelude:
                    full = cpu.prelude.split('\n') + full
                ref = execute(cpu.factory, '\n'.join(full) + '\n')
                if not ref.ok:
                    chk.count('canonical_refused')
                    continue
                for _ in range(2):
                    src = relayout(rng, full)
                    r = execute(cpu.factory, src)
                    chk.case(src, src)
                    rep = lambda: {'cpu': cpu.name, 'canonical': full, 'source': src, 'expected': hx(ref.data), 'observed': r.brief()}
                    if not (r.ok and r.data == ref.data):
                        # name the line responsible
                        what = None
                        for l in full:
                            a = execute(cpu.factory, l, link=False)
                            for _k in range(6):
                                s1 = relayout(rng, [l])
                                b = execute(cpu.factory, s1, link=False)
                                if a.ok and (not b.ok or a.data != b.data):
                                    what = '%r -> %s but %r -> %s' % (l, a.brief(), s1, b.brief())
                        chk.expect(False, 'cpu/' + cpu.name, '%s: %s' % (cpu.name, what or 'layout changes the image: ' + r.brief()), rep)
                        continue
                    chk.count('oracle_comparisons')
                    for k, v in want_labels.items():
                        g = r.asm.get_label_absolute_address_by_name(k)
                        chk.expect(g == v, 'cpu-label/' + cpu.name, lambda: '%s: label %s is %r, expected %r' % (cpu.name, k, g, v), rep)
    # quoted text: separators, brackets, colons and semicolons inside quotes are text
    for t in tg:
        for q in QUOTED:
            for pre in ('', '\n\n', 'x: ', '  ', 'NOP ; c\n'):
                for post in ('', '\n', ' ; c', ', 1', ' 1\nNOP', '\r\ny: NOP', '\ry: NOP', ' ; c\ry: NOP\r'):
                    flat = []
                    if 'x:' in pre:
                        flat.append(('label', 'x'))
                    if 'NOP' in pre:
                        flat.append(('ins', 'NOP'))
                    items = [unquote(q)]
                    if '1' in post:
                        items.append(model.lit(1))
                    flat.append(('data', 1, items))
                    if 'y:' in post:
                        flat.append(('label', 'y'))
                    if 'NOP' in post:
                        flat.append(('ins', 'NOP'))
                    src = pre + '.db ' + q + post
                    chk.case((t.name, src))
                    compare(chk, t, flat, 'quoted', src)
    # a CPU declared case sensitive keeps names as written
    scale.long_lines(chk, tg)
    chk.require('cpus', 2)
    chk.finish()


def unquote(q):
    out = ''
    i = 1
    while i < len(q) - 1:
        if q[i] == '\\':
            i += 1
        out += q[i]
        i += 1
    return out.encode()
