"""Workload generators shared by the language-core checks."""
from .toy import FIELDS, FIELD
from .model import lit, lab, expr

WORDS = ('start', 'loop', 'end', 'data', 'tbl', 'msg', 'isr', 'main', 'x', 'ptr', 'buf', 'vec')


def interesting(rng, bits):
    """a value biased to the limits of a field of that width (non-negative)"""
    top = 1 << bits
    r = rng.random()
    if r < 0.5:
        return max(0, rng.choice((0, 1, 2, top // 2 - 1, top // 2, top // 2 + 1, top - 2, top - 1)))
    if r < 0.75:
        return (1 << rng.randrange(bits)) - rng.choice((0, 1))
    return rng.randrange(top)


class Names:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def new(self):
        self.n += 1
        r = self.rng.random()
        w = self.rng.choice(WORDS)
        if r < 0.1:
            # letters that are digits elsewhere, with the ends of suffixed numbers
            k, t = self.n, ''
            while k:
                t, k = t + 'abcdefABC'[k % 9], k // 9
            return t + self.rng.choice(('h', 'b', 'y', 'o', 'q', 'd', 'H'))
        if r < 0.13:
            # long ones that differ only at their end
            return ('a_very_long_name_' * 20)[:self.rng.choice((15, 31, 32, 63, 64, 127, 255, 300))] + str(self.n)
        if r < 0.2:
            return '_%s%d' % (w, self.n)
        if r < 0.3:
            return '%s.%d' % (w.upper(), self.n)
        if r < 0.4:
            return '%s_%s_%d' % (w.capitalize(), self.rng.choice(WORDS), self.n)
        return '%s%d' % (w, self.n)


def rand_literal(rng, num, bits, signed=False):
    """literal atom that fits (decimal possibly negative)"""
    v = interesting(rng, bits)
    if rng.random() < 0.15:
        v = rng.randrange(1, (1 << (bits - 1)) + 1)
        return lit(-v)
    t, dec, _ = num.spell(rng, v)
    if dec and signed and v >= (1 << (bits - 1)):
        v &= (1 << (bits - 1)) - 1
        t, dec, _ = num.spell(rng, v)
    return lit(v, t, dec)


def small_ops(rng, num, names_known, n=3, ops='+-*/&|'):
    out = []
    for _ in range(rng.randrange(1, n + 1)):
        op = rng.choice(ops)
        r = rng.random()
        if r < 0.12:
            a = None
        elif r < 0.3 and names_known:
            a = lab(rng.choice(names_known))
        else:
            v = rng.choice((0, 1, 2, 3, 4, 7, 8, 15, 16, 255, 256, 1000))
            if op == '/' and v == 0:
                v = 3
            t, dec, _ = num.spell(rng, v)
            a = lit(v, t, dec)
        out.append((op, a))
    return out


def statement(rng, num, names, known, pool, weights=None):
    """one random flat statement (no regions, no padding); pool: label names
    that exist somewhere in the program, known: already defined"""
    k = rng.choices(('ins', 'lab', 'd1', 'd2', 'd4', 'str', 'nop', 'two', 'ram', 'fill', 'align', 'probe'),
                    weights or (20, 0, 10, 10, 10, 8, 8, 6, 3, 5, 5, 0))[0]
    if k == 'ins':
        f = rng.choice(FIELDS)
        if f.relative is not None or f.name in ('J26', 'W6', 'I5', 'U8', 'S8'):
            hi = f.bits_size - (1 if f.signed or f.relative is not None else 0)
            return ('ins', f.name, lit((interesting(rng, hi) >> f.shift) << f.shift))
        if pool and rng.random() < 0.6 and not f.signed:
            return ('ins', f.name, lab(rng.choice(pool)))
        return ('ins', f.name, rand_literal(rng, num, f.bits_size, f.signed))
    if k == 'nop':
        return ('ins', rng.choice(('NOP', 'HLT3')))
    if k == 'two':
        return ('two', rand_literal(rng, num, 8), lab(rng.choice(pool)) if pool else lit(7))
    if k in ('d1', 'd2', 'd4'):
        w = int(k[1])
        items = []
        for _ in range(rng.randrange(1, 5)):
            if w > 1 and pool and rng.random() < 0.4:
                items.append(lab(rng.choice(pool)))
            else:
                items.append(rand_literal(rng, num, 8 * w))
        return ('data', w, items)
    if k == 'str':
        return ('data', 1, [rand_string(rng)] + ([rand_literal(rng, num, 8)] if rng.random() < .5 else []))
    if k == 'ram':
        return ('ram', rng.randrange(1, 40))
    if k == 'fill':
        return ('fill', rng.choice((0, 1, 2, 3, 17, 64)), rng.choice((None, 0, 1, 0x7F, 0xFF)))
    if k == 'align':
        return ('align', rng.choice((1, 2, 3, 4, 8, 16, 10, 256)))
    return ('probe',)


PRINT = ''.join(chr(c) for c in range(32, 127))


def rand_string(rng, n=12, alphabet=PRINT):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randrange(1, n + 1))).encode('ascii')


def flat_program(rng, num, size, origins=True, ram=True, probes=True, max_addr=0x8000):
    """labels, instructions, data, padding, unbounded origins; 16/32-bit label uses"""
    names = Names(rng)
    n_labels = rng.randrange(1, 6)
    pool = [names.new() for _ in range(n_labels)]
    slots = sorted(rng.randrange(size) for _ in pool)
    prog = []
    known = []
    li = 0
    for i in range(size):
        if probes:
            prog.append(('probe',))
        while li < len(slots) and slots[li] == i:
            prog.append(('label', pool[li]))
            known.append(pool[li])
            li += 1
        if origins and rng.random() < 0.12:
            prog.append(('org', rng.randrange(0, max_addr), None))
            continue
        s = statement(rng, num, names, known, pool)
        if s[0] == 'ram' and not ram:
            continue
        if s[0] == 'ins' and len(s) > 2 and s[2][0] == 'l' and FIELD[s[1]].alignment > 1:
            continue
        prog.append(s)
    while li < len(slots):
        prog.append(('label', pool[li]))
        li += 1
    if probes:
        prog.append(('probe',))
    return prog
