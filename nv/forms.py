"""Instruction forms: an independent description of what each CPU's assembler
accepts and of the bytes the processor manual prescribes, plus the generic
drivers that observe the real assembler against them."""
import itertools
import re
from .harness import execute, hx
from .layout import flip


class Reg:
    """operand chosen from fixed spellings: {text: code}"""
    kind = 'reg'

    def __init__(self, table):
        self.table = dict(table)


class Imm:
    """numeric operand. bits: field range. signed: decimals are signed.
    ok: optional predicate on values inside the range (scale, exclusions);
    label: whether a label may stand here, lbits/lalign/label_ok its limits."""
    kind = 'imm'

    def __init__(self, bits, signed=False, ok=None, label=True, lbits=None, lalign=1, lmax=None, label_ok=None,
                 hexneg=True, extra=(), lit=True, decimal_only=False, lo=None, hi=None, refuse=True, ok_refuse=True, lbad=None):
        self.lbad = lbad            # first label value that must be refused (default: just above the limit)
        self.bits, self.signed, self.ok = bits, signed, ok
        self.label, self.lalign = label, lalign
        self.lbits = lbits or bits
        self.lmax = lmax if lmax is not None else (1 << self.lbits) - 1
        self.label_ok = label_ok
        self.hexneg = hexneg        # hex literals may use the sign bit of a signed field
        self.extra = tuple(extra)
        self.lit = lit
        self.ok_refuse = ok_refuse  # values failing ok() must be refused (else another form takes them)
        self.refuse = refuse        # values outside must be refused (else not exercised)
        top = 1 << bits
        self.dec_lo = lo if lo is not None else -(top // 2)
        self.dec_hi = hi if hi is not None else (top // 2 - 1 if signed else top - 1)
        self.hex_hi = hi if hi is not None else (top - 1 if hexneg or not signed else top // 2 - 1)

    def legal(self, v, decimal=True):
        """True / False: the literal must be accepted / refused"""
        if decimal:
            inside = self.dec_lo <= v <= self.dec_hi
        else:
            inside = 0 <= v <= self.hex_hi
        return inside and (self.ok is None or self.ok(v))

    def values(self, rng, n):
        b = self.bits
        top = 1 << b
        c = {0, 1, 2, 3, 4, top // 2 - 1, top // 2, top - 1, top - 2, top // 4, -1, -2, -(top // 2), -(top // 2) + 1,
             0xA5A5A5A5A5A5A5A5 & (top - 1), 0x5A5A5A5A5A5A5A5A & (top - 1), self.dec_hi, self.dec_lo}
        c |= {(top // 2 - 1) & ~3, (top - 1) & ~3, (top - 1) & ~1, top // 2 & ~3}
        c |= set(self.extra)
        c = sorted(c)
        for _ in range(n):
            c.append(rng.randrange(self.dec_lo, self.dec_hi + 1))
        return c

    def outside(self, rng):
        top = 1 << self.bits
        c = [self.dec_hi + 1, self.dec_lo - 1, top, top + 1, top * 2, -top, -top - 1, top * 256 + 1, self.dec_hi + 257]
        c += [self.dec_hi + 1 + rng.randrange(top // 2), self.dec_hi + 1 + rng.randrange(16), self.dec_lo - 1 - rng.randrange(top // 2), self.dec_lo - 1 - rng.randrange(16),
              rng.randrange(top, top << rng.randrange(1, 12)), -rng.randrange(top, top << rng.randrange(1, 12))]
        return [v for v in c if not (self.dec_lo <= v <= self.dec_hi)]


class Rel:
    """pc-relative operand: literal = displacement, label = target address"""
    kind = 'rel'

    def __init__(self, bits, base, align=1, lit=True, lit_ok=None, lit_bits=None, lalign=None, hexneg=False, lit_align_refuse=True, nonzero=False):
        self.nonzero = nonzero      # a zero displacement has no encoding
        self.lit_align_refuse = lit_align_refuse
        self.bits, self.base, self.align, self.lit, self.lit_ok = bits, base, align, lit, lit_ok
        self.lo, self.hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        self.lit_bits = lit_bits or bits
        self.lalign = lalign or align
        self.palign = align if lit_align_refuse else 1      # addresses the instruction can be at
        self.hexneg = hexneg


class Form:
    def __init__(self, fid, template, slots, encode, tags=()):
        self.id = fid
        self.template = template
        self.slots = slots
        self.encode = encode        # encode(values) -> bytes; Rel values are displacements
        self.tags = tags
        self.known = None           # (name of a recorded defect, the bytes it gives)

    def text(self, parts):
        return self.template.format(*parts)

    def __repr__(self):
        return 'Form(%s)' % self.id


class Cpu:
    def __init__(self, name, factory, forms, num, big, nop, negatives=(), max_addr=0xFFFF, setup=None, prelude=''):
        self.name, self.factory, self.forms, self.num, self.big = name, factory, forms, num, big
        self.nop = nop              # (text, bytes)
        self.negatives = negatives  # callable(rng) -> iterable of lines the CPU has no encoding for
        self.max_addr = max_addr
        self.prelude = prelude


def reg_combos(form, rng, limit):
    """all combinations of the register operands, or a sample of them"""
    tables = [list(s.table.items()) for s in form.slots if s.kind == 'reg']
    total = 1
    for t in tables:
        total *= len(t)
    if total <= limit:
        return list(itertools.product(*tables))
    combos = []
    # every register in every position at least once, then random
    longest = max(len(t) for t in tables)
    offs = [rng.randrange(len(t)) for t in tables]
    for i in range(longest):
        combos.append(tuple(t[(i + o) % len(t)] for t, o in zip(tables, offs)))
    while len(combos) < limit:
        combos.append(tuple(rng.choice(t) for t in tables))
    return combos[:limit]


def fill_operands(form, combo, nums):
    """-> (texts, values) with nums = list of (text, value) for non-register slots"""
    texts, vals = [], []
    ci = ni = 0
    for s in form.slots:
        if s.kind == 'reg':
            t, v = combo[ci]
            ci += 1
        else:
            t, v = nums[ni]
            ni += 1
        texts.append(t)
        vals.append(v)
    return texts, vals


def spell_number(cpu, rng, v, slot):
    """a spelling of v acceptable in that slot -> (text, decimal)"""
    if v < 0:
        return str(v), True
    choices = [o for o in cpu.num.spellings(v, chars=False)]
    if slot.kind == 'imm':
        ok = [o for o in choices if slot.legal(v, o[1])]
        choices = ok or choices
    t, d, _ = rng.choice(choices)
    return t, d


WORD = re.compile(r"(?<![\w'\"])\$[0-9A-Fa-f]+\b|(?<![\w'\"])[A-Za-z_]\w*")


def recase_text(cpu, rng, text):
    number = '$' in cpu.num.a['hex_prefixes']
    return WORD.sub(lambda m: m.group() if m.group()[0] == '$' and number else flip(rng, m.group()), text)


def upper_text(cpu, rng, text):
    return WORD.sub(lambda m: m.group().upper(), text)


def lower_text(cpu, rng, text):
    number = '$' in cpu.num.a['hex_prefixes']
    return WORD.sub(lambda m: m.group() if m.group()[0] == '$' and number else m.group().lower(), text)


STYLES = (None, upper_text, lower_text, recase_text)


def recase(cpu, rng, form, texts, style=recase_text):
    """the line with mnemonic, registers and fixed words in another letter case
    (numbers and label names as they are)"""
    def words(t):
        return style(cpu, rng, t)
    return words(form.template).format(*(words(t) if s.kind == 'reg' else t for s, t in zip(form.slots, texts)))


def styled(cpu, rng, form, texts):
    """the line as the manual writes it (mostly), in upper, lower or mixed case"""
    style = STYLES[min(int(rng.random() * 7), 6) - 3] if rng.random() < .7 else None
    return form.text(texts) if style is None else recase(cpu, rng, form, texts, style)


class LiteralDriver:
    """assembles lines one by one on a shared instance, reading the bytes each adds"""

    def __init__(self, chk, cpu, mech, renew=400):
        self.chk, self.cpu, self.mech, self.renew = chk, cpu, mech, renew
        self.asm = None
        self.used = 0
        self.dirty = None
        self.dirty_used = 0

    def one(self, line):
        if self.asm is None or self.used >= self.renew:
            self.asm = self.cpu.factory()
            if self.cpu.prelude:
                self.asm.assemble(self.cpu.prelude)
            self.used = 0
        self.used += 1
        before = len(self.asm.assembled_bytes)
        fixups = None
        try:
            self.asm.assemble(line)
            err = None
        except Exception as e:
            err = e
        new = bytes(self.asm.assembled_bytes[before:])
        if err is not None:
            self.asm = None
        return new, err

    def accept(self, form, line, want, vals=()):
        new, err = self.one(line)
        chk = self.chk
        chk.count('instructions_assembled')
        rep = lambda: {'cpu': self.cpu.name, 'source': line, 'expected': hx(want), 'observed': repr(err) if err else hx(new)}
        if err is None and new != want and form.known is not None and new == form.known[1](vals):
            # recorded in known_findings.json
            return chk.expect(False, '%s/%s/%s' % (self.mech, form.id, form.known[0]), lambda: '%s: %r assembles to [%s], manual says [%s]' % (
                self.cpu.name, line, hx(new), hx(want)), rep)
        if err is not None:
            return chk.expect(False, '%s/%s/refused' % (self.mech, form.id), '%s: supported form refused: %r (%s: %s)' % (
                self.cpu.name, line, type(err).__name__, str(err)[:200]), rep)
        return chk.expect(new == want, '%s/%s/bytes' % (self.mech, form.id), lambda: '%s: %r assembles to [%s], manual says [%s]' % (
            self.cpu.name, line, hx(new), hx(want)), rep)

    def fresh(self):
        asm = self.cpu.factory()
        if self.cpu.prelude:
            asm.assemble(self.cpu.prelude)
        return asm

    def refuse(self, fid, line, why):
        chk = self.chk
        chk.count('refusals_observed')
        new, err = b'', None
        # an instance that refused other lines before; only a refusal counts there
        if self.dirty is None or self.dirty_used >= 60:
            self.dirty, self.dirty_used = self.fresh(), 0
        self.dirty_used += 1
        try:
            self.dirty.assemble(line)
        except Exception as e:
            err = e
        if err is None:
            # a label-like operand is only judged at link time
            asm = self.fresh()
            before = len(asm.assembled_bytes)
            try:
                asm.assemble(line)
                new = bytes(asm.assembled_bytes[before:])
                asm.link()
            except Exception as e:
                err = e
        rep = lambda: {'cpu': self.cpu.name, 'source': line, 'expected': 'refused: ' + why, 'observed': hx(new)}
        return chk.expect(err is not None, '%s/%s/accepted' % (self.mech, fid), lambda: '%s: %r must be refused (%s) but gives [%s]' % (
            self.cpu.name, line, why, hx(new)), rep)


def drive_literals(chk, cpu, forms=None, combos=24, values=3, per_form=80, mech='enc', refuse=True):
    """every form x registers x literal values in every notation"""
    rng = chk.rng
    d = LiteralDriver(chk, cpu, mech)
    for form in forms or cpu.forms:
        nslots = [s for s in form.slots if s.kind != 'reg']
        if any(s.kind != 'reg' and not s.lit for s in form.slots):
            continue
        chk.see('forms', form.id)
        rc = reg_combos(form, rng, max([combos] + [len(s.table) for s in form.slots if s.kind == 'reg']))
        if not nslots:
            for combo in rc:
                texts, vals = fill_operands(form, combo, [])
                for style in STYLES if len(rc) <= 16 else (rng.choice(STYLES),):
                    line = form.text(texts) if style is None else recase(cpu, rng, form, texts, style)
                    chk.case((cpu.name, line), line)
                    d.accept(form, line, form.encode(vals), vals)
            continue
        # values per numeric slot
        cand = []
        for s in nslots:
            if s.kind == 'imm':
                cand.append([v for v in s.values(rng, values) if s.legal(v, True) or s.legal(v, False)])
            else:
                vs = [s.lo, s.lo + s.align, -s.align, 0, s.align, 2 * s.align, s.hi - s.hi % s.align]
                vs += [rng.randrange(s.lo, s.hi + 1) // s.align * s.align for _ in range(values)]
                cand.append([v for v in vs if s.lo <= v <= s.hi and (s.lit_ok is None or s.lit_ok(v)) and (v or not s.nonzero)])
        todo = []
        longest = max(len(c) for c in cand)
        for i in range(max(longest, len(rc))):
            todo.append((rc[i % len(rc)], [c[(i * (1 + 2 * j) + j) % len(c)] for j, c in enumerate(cand)]))
        while len(todo) < per_form and (len(nslots) > 1 or len(rc) > 1):
            todo.append((rng.choice(rc), [rng.choice(c) for c in cand]))
        for combo, vs in todo[:max(per_form, longest, len(rc))]:
            nums = []
            for s, v in zip(nslots, vs):
                t, dec = spell_number(cpu, rng, v, s)
                nums.append((t, v))
            texts, vals = fill_operands(form, combo, nums)
            line = styled(cpu, rng, form, texts)
            chk.case((cpu.name, line), line)
            d.accept(form, line, form.encode(vals), vals)
        if refuse:
            for si, s in enumerate(nslots):
                if s.kind == 'imm' and s.refuse:
                    bad = s.outside(rng)
                    if s.ok is not None and s.ok_refuse:
                        bad += [v for v in s.values(rng, 6) if not s.legal(v, True) and s.dec_lo <= v <= s.dec_hi][:8]
                elif s.kind == 'rel':
                    bad = [s.hi + 1, s.lo - 1, 2 * s.hi + 2, 4 * s.lo, s.hi + 1 + rng.randrange(s.hi), s.hi + 1 + rng.randrange(16), s.lo - 1 - rng.randrange(s.hi), s.lo - 1 - rng.randrange(16)]
                    if s.lit_align_refuse:
                        bad += [k * s.align + d for k in (0, 1, 5, -3) for d in range(1, s.align)]
                    bad = [v for v in bad if not s.lo <= v <= s.hi or v % s.align]
                    if s.nonzero:
                        bad.append(0)
                else:
                    bad = []
                for v in bad:
                    nums = []
                    for j, s2 in enumerate(nslots):
                        if j == si and v == 0:
                            nums.append((rng.choice(['0', '-0'] + [o[0] for o in cpu.num.spellings(0, chars=False)]), 0))
                        elif j == si:
                            nums.append((str(v) if rng.random() < .6 or v < 0 or s.kind == 'rel' else rng.choice(
                                [o for o in cpu.num.spellings(v, chars=False) if not s.legal(v, o[1])])[0], v))
                        else:
                            v2 = rng.choice(cand[j])
                            nums.append((spell_number(cpu, rng, v2, s2)[0], v2))
                    texts, vals = fill_operands(form, rng.choice(rc), nums)
                    line = styled(cpu, rng, form, texts)
                    chk.case((cpu.name, line), None)
                    d.refuse(form.id, line, 'value %d outside its field' % v)
    return d


def drive_places(chk, cpu, each=3):
    """every form as the first statement of a program and at remarkable addresses:
    the bytes of literals do not depend on the place"""
    rng = chk.rng
    d = LiteralDriver(chk, cpu, 'enc')
    spots = [0, 1, 2, 0x100, 0x7F, 0x80, 0xFF, 0x7FFE, 0x8000, 0xFF00, 0xFFF0, cpu.max_addr & ~15, cpu.max_addr // 2 & ~15]
    for form in cpu.forms:
        if any(s.kind != 'reg' and not s.lit for s in form.slots):
            continue
        rc = reg_combos(form, rng, each)
        for i in range(each):
            nums = []
            for s in form.slots:
                if s.kind == 'imm':
                    v = rng.choice([v for v in s.values(rng, 2) if s.legal(v, True)])
                elif s.kind == 'rel':
                    v = rng.choice([v for v in (s.lo + -s.lo % s.align, -s.align, s.align, 4 * s.align, s.hi - s.hi % s.align)
                                    if s.lo <= v <= s.hi and (s.lit_ok is None or s.lit_ok(v))])
                else:
                    continue
                nums.append((str(v), v))
            texts, vals = fill_operands(form, rng.choice(rc), nums)
            line = styled(cpu, rng, form, texts)
            if i:
                line = '.org %d\n%s' % (rng.choice(spots), line)
            else:
                d.asm = None        # nothing before it
            chk.case((cpu.name, line, i), line)
            chk.count('places_observed')
            d.accept(form, line, form.encode(vals), vals)


def addresses(slot, rng, cpu, n):
    """label values for an absolute slot: (must be accepted, must be refused)"""
    top = min(slot.lmax, (1 << slot.lbits) - 1)
    good = {0, 1, 2, 3, 4, top, top - 1, top // 2, top // 2 + 1, 1 << (slot.lbits // 2), (1 << (slot.lbits // 2)) - 1, 0x10, 0x80, 0xFF, 0x100, 0x7F}
    for _ in range(n):
        good.add(rng.randrange(top + 1))
    good = {g // slot.lalign * slot.lalign for g in good if 0 <= g <= top}
    if slot.label_ok:
        good = {g for g in good if slot.label_ok(g)}
    lim = top if slot.lbad is None else slot.lbad - 1
    bad = [lim + slot.lalign + (-(lim + slot.lalign) % slot.lalign), (lim + 1) * 2, (lim + 1) * 256]
    if slot.lalign > 1:
        g = [x for x in sorted(good) if x + 1 <= top]
        bad += [x + d for x in rng.sample(g, min(3, len(g))) for d in range(1, slot.lalign)]
    return sorted(good), bad


RESERVED = {}
# register names that should not be given to labels although no form of the table has them
X86 = {p + s for p in ('', 'E', 'R') for s in 'AX BX CX DX SI DI BP SP IP'.split()} | {a + b for a in 'ABCD' for b in 'HLX'}
X86 |= {a + 'L' for a in ('SI', 'DI', 'BP', 'SP')} | {'ES', 'CS', 'SS', 'DS', 'FS', 'GS', 'ST'}
X86 |= {p + str(n) + s for p in ('R', 'ST', 'MM', 'XMM', 'CR', 'DR') for n in range(16) for s in ('', 'B', 'W', 'D')}
NUMBERED = {p + str(n) for p in ('R', 'D', 'A', 'F', 'S', 'T', 'V', 'K', 'CR', 'FR') for n in range(32)}
REGISTERS = {'6502': {'A', 'X', 'Y', 'S', 'P'}, 'z80': set('A B C D E F H L I R M Z P'.split()), '8086': X86, 'x86': X86, 'lr35902': {'F'}}


def reserved(cpu):
    """the words (in upper case) that are not free to name labels on a CPU, and
    those of them that are registers"""
    if cpu.name not in RESERVED:
        words, regs = set(), set()
        for f in cpu.forms:
            ops = f.template.split(None, 1)[1:]
            for t in [x for s in f.slots if s.kind == 'reg' for x in s.table] + ops:
                for w in re.findall(r'[A-Za-z_$][\w.]*', t):
                    words.add(w.upper())
                    regs.add(w.strip('$'))
        words |= {f.template.split()[0].upper() for f in cpu.forms}
        words |= REGISTERS.get(cpu.name.split()[0], NUMBERED | {'SP', 'PC', 'SR', 'CCR', 'USP', 'LR', 'CTR', 'XER'})
        words |= {w.split('.')[0] for w in words} | {w.strip('$') for w in words}
        RESERVED[cpu.name] = words, sorted(r for r in regs if r.isalnum() and r[0].isalpha())
    return RESERVED[cpu.name]


def hostile_names(cpu):
    """label names that resemble the registers, conditions and notations of the CPU"""
    if cpu.name in NAMES:
        return NAMES[cpu.name]
    words, regs = reserved(cpu)
    out = list('abcdefghijklmnopqrstuvwxyz') + 'and_ not org byte_ptr FF00 h_ x0h_ e5 ptr_ T pos _ _1 a_b $F_ FFh_'.split()
    for r in regs:
        out += [r + e for e in ('data', '_1', '_', 'x', 'end', '0a', '.w')] + [e + r for e in ('g', 'x', '_', 'not', 'ADD')]
    seen, names = set(), []
    for n in out:
        for name in (n, n.upper(), n.lower(), n.capitalize()):
            if name not in seen and free(name, words):
                seen.add(name)
                names.append(name)
    NAMES[cpu.name] = names
    return names


def free(name, words):
    return name.upper() not in words and not name.startswith('$') and '.' not in name


NAMES = {}


def hostile_name(cpu, rng):
    return rng.choice(hostile_names(cpu))


def spelling(cpu, rng, slot, target):
    """-> (expression with @ for the name, address of the name, name or None):
    another way to write a label operand of that value"""
    name = hostile_name(cpu, rng) if rng.random() < .3 else None
    if rng.random() < .5:
        return '@', target, name
    j, k = rng.choice(((1, 1), (3, 1), (1, 5), (16, 4), (255, 2), (256, 256), (rng.randrange(1, 4096), rng.randrange(1, 64))))
    ways = []
    if target >= j:
        ways.append(('@+%d' % j, target - j))
    if target + k - j >= 0:
        ways.append(('@+%d-%d' % (j, k), target + k - j))
    ways.append(('@-%d' % j, target + j))
    ways.append(('@-%d-%d' % (j, k), target + j + k))
    if target + j - k - 1 >= 0:
        ways.append(('@-%d+%d+1' % (j, k), target + j - k - 1))
    if slot.kind == 'imm':
        # (on a relative operand these would apply to the displacement)
        if target % 2 == 0:
            ways.append(('@*2', target // 2))
        ways.append(('@/2', target * 2 + rng.randrange(2)))
        if target % 6 == 2:
            ways.append(('@*3+1*2', (target // 2 - 1) // 3))
        ways.append(('>@', target << 8 | rng.randrange(256)))
        if target < 256:
            ways.append(('<@', target | rng.choice((0, 0x100, 0xFF00, 0x1200))))
        if target < 65536:
            ways.append(('@&65535', target | rng.choice((0, 0x10000))))
    ways = [w for w in ways if w[1] <= 0xFFFFFFFF]
    e, a = rng.choice(ways or [('@', target)])
    return e, a, name


def label_program(cpu, items, forward):
    """items: [(line with @ for the label, pc, target, want, form[, spelling])] -> source, expected bytes"""
    defs, uses, want = [], [], b''
    taken = set()
    for i, (line, pc, target, blob, _, *more) in enumerate(items):
        expr, address, name = more[0] if more and more[0] else ('@', target, None)
        if name is None or name in taken:
            name = 'lbl_%d' % i
        taken.add(name)
        defs.append('.org %d\n%s:' % (address, name))
        uses.append('.org %d\n%s' % (pc, line.replace('@', expr.replace('@', name))))
        want += blob
    if forward == 'mixed':
        src = []
        for i, (u, f) in enumerate(zip(uses, defs)):
            src += [u, f] if i % 2 else [f, u]
    else:
        src = uses + defs if forward else defs + uses
    pre = cpu.prelude + '\n' if cpu.prelude else ''
    return pre + '\n'.join(src) + '\n', want


def collect_labels(chk, cpu, forms, kinds=('imm', 'rel'), combos=2, values=3, spell=0):
    """instruction instances with one label operand: good and bad lists"""
    rng = chk.rng
    good, bad = [], []
    for form in forms or cpu.forms:
        for si, s in enumerate(form.slots):
            if s.kind == 'reg' or s.kind not in kinds:
                continue
            if s.kind == 'imm' and not s.label:
                continue
            others_ok = all(o.kind == 'reg' or o is s or o.lit for o in form.slots)
            if not others_ok:
                continue
            rc = reg_combos(form, rng, combos)
            if s.kind == 'imm':
                g, b = addresses(s, rng, cpu, values)
                if 'zp' in form.tags:
                    b = []
                cases = [(rng.randrange(0, cpu.max_addr) & ~15, t, True) for t in g] + [(rng.randrange(0, 0x1000) & ~15, t, False) for t in b]
            else:
                cases = []
                dist = [s.lo, s.lo + s.align, s.hi - s.hi % s.align, s.hi - s.hi % s.align - s.align, 0, s.align, -s.align, -s.base if -s.base >= s.lo else 0]
                dist += [rng.randrange(s.lo, s.hi + 1) for _ in range(values)]
                out = [s.lo - s.align, s.hi + 1 - (s.hi + 1) % s.align, s.lo * 2, (s.hi + 1) * 2, s.hi + s.align + 1 - (s.hi + 1) % s.align]
                out = [o for o in out if not s.lo <= o <= s.hi]
                dist = [o for o in dist if s.lo <= o <= s.hi]
                for dd, okk in [(x, True) for x in dist] + [(x, False) for x in out]:
                    dd = dd // s.align * s.align
                    if s.nonzero and dd == 0:
                        okk = False
                    low = max(0, -(dd + s.base))
                    places = [low + rng.choice((0, 0x100, 0x1000, 0x4000))]
                    # across the middle and up to the end of the address space
                    size = len(form.encode([0] * len(form.slots))) if spell else 0
                    if spell:
                        places += [p for p in (rng.choice((0x7FFE, 0x7FFC, 0x8000, 0xFFF0)), cpu.max_addr + 1 - size - rng.choice((0, 0, s.lalign)))
                                   if p >= low and p + s.base + dd <= cpu.max_addr and p + size <= cpu.max_addr + 1]
                    for pc in places:
                        pc = (pc + s.lalign - 1) // s.lalign * s.lalign
                        t = pc + s.base + dd
                        if s.lalign and t % s.lalign:
                            continue
                        cases.append((pc, t, okk))
                if s.lalign > 1:
                    pc = 0x400
                    for m in range(1, s.lalign):
                        cases.append((pc, 0x440 + m, False))
            for pc, t, okk in cases:
                combo = rng.choice(rc)
                nums = []
                for o in form.slots:
                    if o.kind == 'reg':
                        continue
                    if o is s:
                        nums.append(('@', (t - (pc + s.base)) if s.kind == 'rel' else t))
                    elif o.kind == 'imm':
                        v = rng.choice([v for v in o.values(rng, 2) if o.legal(v, True)])
                        nums.append((str(v), v))
                    else:
                        nums.append(('0', 0))
                texts, vals = fill_operands(form, combo, nums)
                item = (styled(cpu, rng, form, texts), pc, t, form.encode(vals) if okk else b'', form)
                (good if okk else bad).append(item)
                if spell and rng.random() < spell:
                    (good if okk else bad).append(item + (spelling(cpu, rng, s, t),))
    return good, bad


def collect_misplaced(chk, cpu, values=3):
    """branches from addresses whose distance to the target does not fit the scale of the field"""
    rng = chk.rng
    bad = []
    for form in cpu.forms:
        for s in form.slots:
            if s.kind != 'rel' or s.palign < 2 or any(o.kind not in ('reg', 'rel') for o in form.slots):
                continue
            for d in [0, s.align, 4 * s.align, s.hi // 2, s.lo // 2, s.hi - 3 * s.align, s.lo + 3 * s.align] + [rng.randrange(s.lo // 2, s.hi // 2) for _ in range(values)]:
                if not s.lo <= d <= s.hi:
                    continue
                d = d // s.align * s.align
                pc = (max(0, -(d + s.base)) + 7) // 4 * 4 + rng.choice((0, 0x100, 0x2000))
                for m in range(1, s.palign):
                    texts, vals = fill_operands(form, rng.choice(reg_combos(form, rng, 8)), [('@', d)])
                    bad.append((styled(cpu, rng, form, texts), pc + m, pc + s.base + d, b'', form))
    return bad


def drive_names(chk, cpu, total, mech='label'):
    """every form with a label operand x label names that resemble registers; each
    form sees as many of the names as the budget allows, short forms first"""
    rng = chk.rng
    pairs = [(f, s) for f in cpu.forms for s in f.slots if s.kind == 'rel' or s.kind == 'imm' and s.label]
    pairs = [(f, s) for f, s in pairs if all(o.kind == 'reg' or o is s or o.lit for o in f.slots)]
    pairs = pairs if len(pairs) <= total else rng.sample(pairs, total)
    each = max(1, total // max(1, len(pairs)))
    items = []
    for form, s in pairs:
        names = rng.sample(hostile_names(cpu), min(each, len(hostile_names(cpu))))
        for name in names:
            if s.kind == 'rel':
                pc = 0x400
                d = rng.choice((4 * s.align, 8 * s.align))
                t = pc + s.base + d
                if t % s.lalign:
                    continue
            else:
                pc = 0x400
                g, _ = addresses(s, rng, cpu, 1)
                d = t = rng.choice(g)
            nums = []
            for o in form.slots:
                if o is s:
                    nums.append(('@', d))
                elif o.kind == 'imm':
                    v = rng.choice([v for v in o.values(rng, 1) if o.legal(v, True)])
                    nums.append((str(v), v))
                elif o.kind == 'rel':
                    nums.append(('0', 0))
            texts, vals = fill_operands(form, rng.choice(reg_combos(form, rng, 4)), nums)
            items.append((styled(cpu, rng, form, texts), pc, t, form.encode(vals), form, ('@', t, name)))
            chk.see('label_names', (cpu.name, name))
    chk.count('labels_named_like_registers', len(items))
    check_label_items(chk, cpu, items, mech, modes=(rng.random() < .5, 'mixed'))


def drive_negated(chk, cpu, limit, mech='label'):
    """a minus sign in front of a label operand: refused, or the negated value"""
    rng = chk.rng
    jobs = []
    for form in cpu.forms:
        k = -1
        for i, s in enumerate(form.slots):
            if s.kind == 'imm' and s.label and not any(o.kind == 'rel' for o in form.slots):
                jobs.append((form, i, s, False))
                if re.search(r'(?<!\$FF00)\+ ?\{%d\}' % i, form.template):
                    jobs += [(form, i, s, True)] * 2
    if len(jobs) > limit:
        jobs = rng.sample(jobs, limit)
    for form, i, s, sign in jobs:
        g, _ = addresses(s, rng, cpu, 1)
        t = rng.choice([x for x in g if x] or [4])
        nums = []
        for o in form.slots:
            if o is s:
                nums.append(('neg_label' if sign else '-neg_label', -t))
            elif o.kind == 'imm':
                v = rng.choice([v for v in o.values(rng, 1) if o.legal(v, True)])
                nums.append((str(v), v))
        texts, vals = fill_operands(form, rng.choice(reg_combos(form, rng, 4)), nums)
        template = re.sub(r'\+( ?)(\{%d\})' % i, r'-\1\2', form.template) if sign else form.template
        line = template.format(*texts)
        use, place = '.org 1024\n%s\n' % line, '.org %d\nneg_label:\n' % t
        src = (cpu.prelude + '\n' if cpu.prelude else '') + (use + place if rng.random() < .5 else place + use)
        r = execute(cpu.factory, src)
        try:
            want = form.encode(vals)
        except Exception:
            want = None
        chk.case((cpu.name, src), line)
        chk.count('negated_labels_observed')
        chk.expect(not r.ok or r.data == want, '%s/%s/%s/negated' % (mech, cpu.name, form.id), lambda: '%s: %r with neg_label = %#x must be refused or use the negated value, got %s' % (
            cpu.name, line, t, r.brief()), lambda: {'cpu': cpu.name, 'source': src, 'expected': 'error or %s' % (hx(want) if want else ''), 'observed': r.brief()})


def check_label_items(chk, cpu, items, mech, batch=40, modes=(True, False, 'mixed'), relative=None):
    """runs good items in batches; a failing batch is re-run item by item"""
    rng = chk.rng
    rng.shuffle(items)
    for i in range(0, len(items), batch):
        part = items[i:i + batch]
        for mode in modes:
            src, want = label_program(cpu, part, mode)
            r = execute(cpu.factory, src)
            for p in part:
                chk.case((cpu.name, p[:3], p[5:], mode), '%s ; @=%d' % (p[0], p[2]))
                if len(p) > 5:
                    chk.count('labels_inside_expressions')
                chk.see('label_forms', (cpu.name, p[4].id))
            chk.count('label_fixups_observed', len(part))
            if r.ok and r.data == want:
                chk.count('oracle_comparisons')
                continue
            found = False
            for p in part:
                s1, w1 = label_program(cpu, [p], mode)
                r1 = execute(cpu.factory, s1)
                if not (r1.ok and r1.data == w1):
                    found = True
                    rep = {'cpu': cpu.name, 'source': s1, 'expected': hx(w1), 'observed': r1.brief()}
                    chk.expect(False, '%s/%s/%s/%s' % (mech, cpu.name, p[4].id, 'bytes' if r1.ok else 'refused'),
                               '%s: %r at %#x with label = %#x%s (%s reference): expected [%s], %s' % (
                                   cpu.name, p[0], p[1], p[2], ' written %r' % (p[5],) if len(p) > 5 else '', {True: 'forward', False: 'backward'}.get(mode, 'mixed'), hx(w1), r1.brief()), rep)
            if not found:
                rep = {'cpu': cpu.name, 'source': src, 'expected': hx(want), 'observed': r.brief()}
                chk.expect(False, '%s/%s/batch' % (mech, cpu.name),
                           '%s: label program of %d instructions differs although each alone is right: %s' % (cpu.name, len(part), r.brief()), rep)


def check_label_refusals(chk, cpu, items, mech, limit=400, modes=(True, False)):
    rng = chk.rng
    rng.shuffle(items)
    for n, p in enumerate(items[:limit]):
        mode = modes[n % len(modes)]
        src, _ = label_program(cpu, [p], mode)
        r = execute(cpu.factory, src)
        chk.case((cpu.name, p[:3], p[5:], mode, 'bad'), None)
        chk.count('link_refusals_observed')
        chk.expect(not r.ok, '%s/%s/%s/accepted' % (mech, cpu.name, p[4].id), lambda: '%s: %r at %#x with label = %#x must be refused, got %s' % (
            cpu.name, p[0], p[1], p[2], r.brief()), lambda: {'cpu': cpu.name, 'source': src, 'expected': 'error', 'observed': r.brief()})
