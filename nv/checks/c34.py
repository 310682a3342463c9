"""C34: operand fields are filled exactly as a CPU declares them."""
from ..harness import Check, execute, hx
from ..toy import STYLES, Num, import_repo
from .. import gen, model
from ..model import Bad, expr, lab, lit, literal_field, label_field, is_label_expr, text_of, labels_in, eval_expr
import_repo()
from necroassembler import Assembler, opcode  # noqa: E402

FILTERS = [
    ('none', lambda k: None), ('none', lambda k: None), ('none', lambda k: None),
    ('shift', lambda k: lambda x: x >> (k % 4 + 1)),
    ('low', lambda k: lambda x: x & ((1 << (k % 12 + 1)) - 1)),
    ('high', lambda k: lambda x: (x >> (k % 12 + 1)) & 0xFF),
    ('complement', lambda k: lambda x: -x - 1),
    ('add', lambda k: lambda x: x + k % 5 - 2),
    ('const', lambda k: lambda x: k % 7),
]


class Open(Exception):
    """nothing is promised"""


class F:
    def __init__(self, rng, total, taken, keys, big, like=None):
        """a field inside an instruction of that many bytes, outside the taken bits"""
        for _ in range(200):
            self.size = rng.choice((1, 1, 2, 2, 3, 4, 4, 6, 8))
            if self.size > total:
                continue
            self.offset = rng.randrange(total - self.size + 1)
            self.bits = None
            if like:
                self.size, self.offset = like.size, like.offset
            if rng.random() < .6 or like:
                hi = rng.randrange(8 * self.size)
                lo = rng.randrange(hi + 1)
                self.bits = (hi, lo)
                if rng.random() < .3:
                    self.bits = (8 * self.size - 1, lo)
            width = self.bits[0] - self.bits[1] + 1 if self.bits else 8 * self.size
            self.mask = ((1 << width) - 1) << (self.bits[1] if self.bits else 0)
            self.big = big
            m = int.from_bytes(self.spread(self.mask, total), 'big')
            if m & taken or (self.offset, self.bits) in keys:
                continue
            self.taken = taken | m
            break
        else:
            raise LookupError
        keys.add((self.offset, self.bits))
        self.width = width
        self.bits_size = rng.choice((width, width, width, min(64, width + rng.randrange(5)), rng.randrange(1, 33), 8, 16, 32))
        self.alignment = rng.choice((1, 1, 1, 2, 4, 8, 3, 16))
        self.relative = rng.choice((None, None, 0, total, 2, 4, -1, 8, 'zero'))
        self.signed = rng.random() < .3
        k = rng.randrange(1000)
        self.filter_name, make = rng.choice(FILTERS)
        self.filter = make(k)
        self.hook = rng.random() < .15
        self.positional = rng.random() < .3

    def spread(self, v, total):
        b = bytearray(total)
        b[self.offset:self.offset + self.size] = v.to_bytes(self.size, 'big' if self.big else 'little')
        return bytes(b)

    def encode(self, v):
        """the unit with this value in the field"""
        if self.filter:
            v = self.filter(v)
        if self.bits:
            if not -(1 << (self.width - 1)) <= v < (1 << self.width):
                raise Bad('the filtered value does not fit the bits')
            return (v % (1 << self.width)) << self.bits[1]
        return v % (1 << (8 * self.size))

    def describe(self):
        return {k: (v if not callable(v) else self.filter_name) for k, v in vars(self).items() if k not in ('mask', 'taken')}


def hook_mark(v, size):
    return (v * 5 + 0x5A) % (1 << (8 * size))


class Instr:
    def __init__(self, rng, name, big):
        self.name = name
        self.total = rng.randrange(1, 11)
        taken, keys, self.fields = 0, set(), []
        for _ in range(rng.randrange(1, 5)):
            try:
                f = F(rng, self.total, taken, keys, big, self.fields[-1] if self.fields and self.fields[-1].bits and rng.random() < .8 else None)
            except LookupError:
                break
            taken = f.taken
            self.fields.append(f)
        if not self.fields:
            self.__init__(rng, name, big)
            return
        # a hook takes its whole unit
        for f in self.fields:
            if f.hook and len(self.fields) > 1:
                f.hook = False
        rnd = rng.randrange(1 << (8 * self.total)) & ~taken
        self.prefix = rnd.to_bytes(self.total, 'big')


class World:
    def __init__(self, rng):
        self.big = rng.random() < .5
        self.style = rng.choice(('prefix', 'suffix', 'plain'))
        self.num = Num(STYLES[self.style])
        self.fill = rng.choice((0, 0xFF, 0x5A))
        self.instrs = [Instr(rng, 'OP%d' % i, self.big) for i in range(rng.randrange(1, 6))]
        world = self

        def handler(ins):
            def f(asm, instr):
                if len(instr.tokens) != len(ins.fields) + 1:
                    return None
                out = bytearray(ins.prefix)
                for f, tok in zip(ins.fields, instr.tokens[1:]):
                    v = world.ask(asm, f, tok)
                    asm.values.append(v)
                    for i, b in enumerate(f.spread((v & ((1 << f.width) - 1)) << (f.bits[1] if f.bits else 0), ins.total)):
                        out[i] |= b
                return bytes(out)
            return f
        ns = dict(STYLES[self.style], big_endian=self.big, fill_value=self.fill)
        for ins in self.instrs:
            ns['_' + ins.name] = opcode(ins.name)(handler(ins))
        self.cls = type('World', (Assembler,), ns)

    def ask(self, asm, f, token):
        kw = {}
        if f.relative is not None:
            kw['relative'] = 0 if f.relative == 'zero' else asm.pc + f.relative
        if f.signed:
            kw['signed'] = True
        if f.bits:
            kw['bits'] = f.bits
        if f.filter:
            kw['filter'] = f.filter
        if f.alignment != 1:
            kw['alignment'] = f.alignment
        if f.hook:
            def hook(address, value):
                asm.hooked.append((address, value))
                asm.assembled_bytes[address:address + f.size] = hook_mark(value, f.size).to_bytes(f.size, 'big')
            kw['hook'] = hook
        if f.offset or f.positional:
            kw['offset'] = f.offset
        return asm.parse_integer_or_label(token, f.size, f.bits_size, **kw) if f.positional else \
            asm.parse_integer_or_label(label=token, size=f.size, bits_size=f.bits_size, **kw)


def expected(world, prog, external=None, asked=None, answer=lambda e, names, start: eval_expr(e, names) - start):
    """prog: statements, ('rep', n, [ins...]) included -> (image, values, hooked) or Bad.
    external: {label: value} of the names only the linker knows; asked collects those references;
    answer: what the linker says"""
    out, org, counter, labels, fix, values = bytearray(), 0, 0, {}, [], []

    def emit_ins(ins, args, record):
        nonlocal counter
        at, pc = len(out), org + counter
        blob = bytearray(ins.prefix)
        for f, e in zip(ins.fields, args):
            v = 0
            if is_label_expr(e):
                fix.append((at + f.offset, f, e, None if f.relative is None else 0 if f.relative == 'zero' else pc + f.relative))
            else:
                v = literal_field(e, f.bits_size, f.signed or f.relative is not None, labels)
                if v < 0 and not f.signed and f.relative is None:
                    v += 1 << f.bits_size       # two's complement of the declared range
            if record:
                values.append(v)
            for i, b in enumerate(f.spread((v % (1 << f.width)) << (f.bits[1] if f.bits else 0), ins.total)):
                blob[i] |= b
        out.extend(blob)
        counter += len(blob)

    for s in prog:
        if s[0] == 'label':
            labels[s[1]] = org + counter
        elif s[0] == 'org':
            org, counter = s[1], 0
        elif s[0] == 'fill':
            out.extend(bytes([world.fill]) * s[1])
            counter += s[1]
        elif s[0] == 'ram':
            counter += s[1]
        elif s[0] == 'ins':
            emit_ins(s[1], s[2], True)
        elif s[0] == 'rep':
            start = counter
            first_fix = len(fix)
            for ins, args in s[2]:
                emit_ins(ins, args, True)
            base = fix[first_fix:]
            length = counter - start
            blob = bytes(out[len(out) - length:])
            for i in range(1, s[1]):
                for at, f, e, rel in base:
                    # 'zero' is an absolute position given by the CPU: it moves with the copy as every pc does
                    fix.append((at + length * i, f, e, None if rel is None else rel + length * i))
                out.extend(blob)
                counter += length
    hooked = []
    for at, f, e, start in fix:
        if external and labels_in(e) & set(external):
            v = answer(e, external, start or 0)
            asked.append((at, text_of(e), f.size, start, v, f))
            if f.alignment != 1 and start is not None and v % f.alignment:
                raise Open
            if v % f.alignment or not (-(1 << (f.bits_size - 1)) <= v < (1 << (f.bits_size - 1)) if start is not None else 0 <= v < (1 << f.bits_size)):
                raise Bad('what the linker answers does not suit the field')
        else:
            v = label_field(e, f.bits_size, start is not None, f.alignment, labels, start or 0)
        if f.hook:
            hooked.append((at, v))
            out[at:at + f.size] = hook_mark(v, f.size).to_bytes(f.size, 'big')
            continue
        unit = f.encode(v).to_bytes(f.size, 'big' if world.big else 'little')
        for i, b in enumerate(unit):
            out[at + i] |= b
    return bytes(out), values, sorted(hooked)


def render(prog, rng):
    lines = []
    for s in prog:
        if s[0] == 'label':
            lines.append(s[1] + ':')
        elif s[0] in ('org', 'fill', 'ram'):
            lines.append('.%s %d' % s)
        elif s[0] == 'ins':
            lines.append('%s %s' % (s[1].name, ', '.join(text_of(e) for e in s[2])))
        else:
            lines.append('.repeat %d' % s[1])
            lines += ['%s %s' % (ins.name, ', '.join(text_of(e) for e in args)) for ins, args in s[2]]
            lines.append('.endrepeat')
    return lines


def good_target(rng, f, pc):
    """a label value that probably suits the field"""
    b = f.bits_size
    if f.relative is None:
        v = rng.choice((0, 1, (1 << b) - 1, 1 << (b - 1), rng.randrange(1 << b), rng.randrange(1 << min(b, f.width))))
    else:
        h = 1 << (b - 1)
        v = (0 if f.relative == 'zero' else pc + f.relative) + rng.choice((0, -1, 1, -h, h - 1, rng.randrange(-h, h)))
    if rng.random() < .85:
        v -= v % f.alignment
    elif rng.random() < .3:
        v += rng.choice((1, -1, 1 << b))
    return max(0, v)


def program(rng, w):
    """a random program -> (statements, [(label, value it should have)])"""
    prog, tail, pc = [], [], 0
    org = rng.choice((0, 0, 0x10, 0x1000, 0x80000000, 7))
    prog.append(('org', org))
    pc = org
    pending = []
    fresh = 0

    def operand(f):
        nonlocal fresh
        r = rng.random()
        if r < .25:
            top = 1 << f.bits_size
            v = rng.choice((0, 1, top // 2 - 1, top // 2, top - 1, rng.randrange(top), rng.randrange(33, 127) % top, rng.randrange(max(1, top // 2))))
            if rng.random() < .04:
                v = top
            if rng.random() < .15:
                v = -rng.randrange(1, top // 2 + 1) if top > 1 else 0
                return lit(v, decimal=True)
            t, dec = w.num.spell(rng, v, True)[:2]
            return lit(v, t, dec)
        n = 'l%d' % fresh
        k = 0
        if pending and rng.random() < .45:
            # a label used before, often in the same instruction
            n, v = rng.choice(pending[-2:])
            d = v if f.relative is None else v - (0 if f.relative == 'zero' else pc + f.relative)
            h = 1 << (f.bits_size - 1)
            if (0 <= d < 2 * h if f.relative is None else -h <= d < h) and v % f.alignment == 0:
                if not f.bits or d < (1 << f.width):
                    return lab(n)
            n = 'l%d' % fresh
        fresh += 1
        v = good_target(rng, f, pc)
        e = lab(n)
        if rng.random() < .2:
            k = rng.choice((1, 2, 16, f.alignment))
            if v >= k:
                e = expr(lab(n), ops=(('+', lit(k)),))
                v -= k
        pending.append((n, v))
        return e
    for _s in range(rng.randrange(1, 6)):
        r = rng.random()
        if r < .15:
            n = rng.randrange(1, 6)
            prog.append(('fill', n))
            pc += n
        elif r < .22:
            n = rng.randrange(1, 20)
            prog.append(('ram', n))
            pc += n
        elif r < .4:
            body = []
            for _b in range(rng.randrange(1, 4)):
                ins = rng.choice(w.instrs)
                body.append((ins, [operand(f) for f in ins.fields]))
                pc += ins.total
            n = rng.randrange(1, 4)
            prog.append(('rep', n, body))
            pc += (n - 1) * sum(x.total for x, _ in body)
        else:
            ins = rng.choice(w.instrs)
            prog.append(('ins', ins, [operand(f) for f in ins.fields]))
            pc += ins.total
    return prog, pending


def main():
    chk = Check('C34', 'random CPUs written against the public interface (one to five instructions of one to ten bytes with up to four operand fields of random unit size, offset, bits, '
                'value range, alignment, pc base, filter or hook, several fields in one unit, both byte orders) and random programs for them: literals, labels before and after their use, '
                'expressions, origins, reserved memory, repeat blocks; image, values seen by the handlers and hook calls compared with a reference; every program is non-trivial', 2000)
    rng = chk.rng
    for i in range(chk.n(4000, 80000)):
        w = World(rng)
        for _ in range(4):
            prog, pending = program(rng, w)
            defs = []
            for n, v in pending:
                defs += [('org', v), ('label', n)]
            full = prog + defs if rng.random() < .6 else defs + prog
            lines = render(full, rng)
            cut = rng.randrange(len(lines) + 1)
            text = '\n'.join(lines) + '\n'
            src = [text]
            if rng.random() < .2 and not any('repeat' in l for l in lines):
                src = ['\n'.join(lines[:cut]) + '\n', '\n'.join(lines[cut:]) + '\n']
            try:
                want, values, hooked = expected(w, full)
                bad = None
            except Bad as e:
                bad = str(e)

            def setup(asm, out):
                asm.values, asm.hooked = [], []
            r = execute(w.cls, src, setup=setup)
            chk.case((text, [f.describe() for ins in w.instrs for f in ins.fields]), text)
            rep = lambda: {'source': text, 'big_endian': w.big, 'instructions': {ins.name: {'prefix': ins.prefix.hex(), 'fields': [f.describe() for f in ins.fields]} for ins in w.instrs},
                           'expected': bad or hx(want), 'observed': r.brief()}
            for ins in w.instrs:
                for f in ins.fields:
                    chk.see('field_shapes', (f.size, f.bits is None, f.relative is None, f.alignment, f.filter_name, f.hook, w.big))
            if bad:
                chk.count('refusals')
                chk.expect(not r.ok, 'accepted', lambda: 'accepted although %s: %r gives %s' % (bad, text, r.brief()), rep)
                continue
            chk.count('images')
            chk.count('labels_placed', len(pending))
            if not chk.expect(r.ok, 'refused', lambda: 'refused: %r: %s' % (text, r.brief()), rep):
                continue
            chk.expect(r.data == want, 'image', lambda: '%r gives %s, expected %s' % (text, hx(r.data), hx(want)), rep)
            chk.expect(r.asm.values == values, 'values', lambda: 'the handlers saw %s, expected %s for %r' % (r.asm.values, values, text), rep)
            chk.count('hook_calls', len(hooked))
            chk.expect(sorted(r.asm.hooked) == hooked, 'hooks', lambda: 'hooks were called with %s, expected %s for %r' % (r.asm.hooked, hooked, text), rep)
    chk.require('images', 1500)
    chk.require('refusals', 100)
    chk.require('hook_calls', 100)
    chk.require('field_shapes', 200)
    chk.finish()
