"""A small CPU written against the framework's public extension interface
(decorators, registration, parse_integer_or_label, ...). Its operand fields
cover every shape the shipped CPUs use, so the framework services can be
observed without depending on one CPU's quirks."""
import sys
from .harness import import_repo
import_repo()
from necroassembler import Assembler, opcode, directive  # noqa: E402


class Field:
    """One operand field: where its bits live in the instruction."""

    def __init__(self, name, prefix, total, offset, size, bits_size, relative=None, alignment=1,
                 bits=None, shift=0, signed=False):
        self.name = name            # mnemonic
        self.prefix = prefix        # value of the fixed bits, as an integer over total bytes
        self.total = total          # instruction length
        self.offset = offset        # byte offset of the patched unit
        self.size = size            # bytes of the patched unit
        self.bits_size = bits_size  # range of the value
        self.relative = relative    # distance from instruction start to pc base, or None
        self.alignment = alignment
        self.bits = bits            # (hi, lo) inside the unit or None
        self.shift = shift
        self.signed = signed

    # ---- the oracle's own encoding (independent of the repo) -------------
    def place(self, value, big):
        """bytes of the instruction holding this (already range-checked) value"""
        v = value >> self.shift
        if self.bits:
            hi, lo = self.bits
            v = (v % (1 << (hi - lo + 1))) << lo
        else:
            v = v % (1 << (8 * self.size))
        order = 'big' if big else 'little'
        unit = v.to_bytes(self.size, order)
        base = bytearray(self.prefix_bytes(big))
        for i, b in enumerate(unit):
            base[self.offset + i] |= b
        return bytes(base)

    def prefix_bytes(self, big):
        return self.prefix


def _u(total, *head):
    return bytes(head) + bytes(total - len(head))


FIELDS = [
    Field('U8', _u(2, 0xA1), 2, 1, 1, 8),
    Field('U16', _u(3, 0xA2), 3, 1, 2, 16),
    Field('U32', _u(5, 0xA4), 5, 1, 4, 32),
    Field('S8', _u(2, 0xB1), 2, 1, 1, 8, signed=True),
    Field('S16', _u(4, 0xB2, 0x55), 4, 2, 2, 16, signed=True),
    Field('R8', _u(2, 0xC1), 2, 1, 1, 8, relative=2),
    Field('R16', _u(4, 0xC2, 0x77), 4, 2, 2, 16, relative=4),
    Field('R32', _u(5, 0xC4), 5, 1, 4, 32, relative=5),
    # word-sized units with bit fields (fixed bits are set by the encoder)
    Field('J26', bytes(4), 4, 0, 4, 28, alignment=4, bits=(25, 0), shift=2),
    Field('B16', bytes(4), 4, 0, 4, 18, relative=4, alignment=4, bits=(15, 0), shift=2),
    Field('B11', bytes(2), 2, 0, 2, 12, relative=4, alignment=2, bits=(10, 0), shift=1),
    Field('I5', bytes(2), 2, 0, 2, 5, bits=(10, 6)),
    Field('W6', bytes(2), 2, 0, 2, 8, alignment=4, bits=(13, 8), shift=2),
]
UNIT_FIXED = {'J26': 0xD8000000, 'B16': 0xDDAA0000, 'B11': 0xE000, 'I5': 0x703F, 'W6': 0x40C3}
FIELD = {f.name: f for f in FIELDS}


def fixed_bytes(f, big):
    if f.name in UNIT_FIXED:
        return UNIT_FIXED[f.name].to_bytes(f.size, 'big' if big else 'little')
    return f.prefix


for _f in FIELDS:
    _f.prefix_bytes = (lambda f: lambda big: fixed_bytes(f, big))(_f)


def _twos(value, nbytes, big):
    return (value % (1 << (8 * nbytes))).to_bytes(nbytes, 'big' if big else 'little')


class _ToyBase(Assembler):
    """Operand handling through the public services only."""

    def _field(self, f, token):
        kw = {}
        if f.relative is not None:
            kw['relative'] = self.pc + f.relative
        if f.signed:
            kw['signed'] = True
        if f.bits:
            kw['bits'] = f.bits
        if f.shift:
            kw['filter'] = lambda x: x >> f.shift
        value = self.parse_integer_or_label(label=token, size=f.size, bits_size=f.bits_size,
                                            offset=f.offset, alignment=f.alignment, **kw)
        return f.place(value, self.big_endian)

    def register_instructions(self):
        self.register_instruction('NOP', b'\xEA')
        self.register_instruction('HLT3', b'\xF1\xF2\xF3')
        for f in FIELDS:
            self.register_instruction(f.name, self._make(f))
        self.register_instruction('TWO', self._two)
        self.register_instruction('ECHO', self._echo)

    def _make(self, f):
        def op(instr):
            if len(instr.tokens) != 2:
                return None
            return self._field(f, instr.tokens[1])
        return op

    def _two(self, instr):
        # two independent label-taking operands in one instruction
        if len(instr.tokens) != 3:
            return None
        a = self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1)
        b = self.parse_integer_or_label(label=instr.tokens[2], size=2, bits_size=16, offset=2)
        return bytes([0x22, a]) + _twos(b, 2, self.big_endian)

    def _echo(self, instr):
        # makes the tokens an opcode receives visible in the output
        blob = b'\xEC'
        for t in instr.tokens[1:]:
            e = t.encode('utf-8')
            blob += bytes([len(e)]) + e
        return blob + b'\xCE'


STYLES = {
    'prefix': dict(hex_prefixes=('$', '0x'), bin_prefixes=('%', '0b'), oct_prefixes=('@', '0o')),
    'suffix': dict(hex_prefixes=('0x', '0h'), hex_suffixes=('h',), bin_prefixes=('0b', '0y'), bin_suffixes=('b', 'y'),
                   oct_prefixes=('0o', '0q'), oct_suffixes=('o', 'q'), dec_prefixes=('0d',), dec_suffixes=('d',)),
    'plain': dict(hex_prefixes=('0x',)),
}


def make(style='prefix', big_endian=False, fill_value=0, case_sensitive=False, base=_ToyBase, **extra):
    attrs = dict(STYLES[style], big_endian=big_endian, fill_value=fill_value, case_sensitive=case_sensitive)
    attrs.update(extra)
    return type('Toy_' + style, (base,), attrs)


def mixed(t):
    """hex digits in both letter cases, None without two letters"""
    up = True
    out = ''
    for c in t:
        out += c.upper() if c.isalpha() and up else c
        up = not up if c.isalpha() else up
    return out if out not in (t, t.upper()) else None


class Num:
    """How to spell literals in a notation style."""

    def __init__(self, style_attrs):
        self.a = {k: tuple(style_attrs.get(k, ())) for k in (
            'hex_prefixes', 'hex_suffixes', 'bin_prefixes', 'bin_suffixes',
            'oct_prefixes', 'oct_suffixes', 'dec_prefixes', 'dec_suffixes')}

    @classmethod
    def of(cls, assembler_class):
        return cls({k: getattr(assembler_class, k, ()) for k in (
            'hex_prefixes', 'hex_suffixes', 'bin_prefixes', 'bin_suffixes',
            'oct_prefixes', 'oct_suffixes', 'dec_prefixes', 'dec_suffixes')})

    def spellings(self, v, chars=True):
        """every spelling of a non-negative value: (text, is_decimal, notation)"""
        out = [(str(v), True, 'dec')]
        for p in self.a['hex_prefixes']:
            if p == '$0':
                out.append(('$0%x' % v, False, 'hexpre $0'))
                continue
            out.append((p + '%x' % v, False, 'hexpre ' + p))
            out.append((p + '%X' % v, False, 'hexpre ' + p))
            out.append((p + '000%x' % v, False, 'hexpre ' + p))
            if mixed('%x' % v):
                out.append((p + mixed('%x' % v), False, 'hexpre ' + p))
        for p in self.a['bin_prefixes']:
            out.append((p + bin(v)[2:], False, 'binpre ' + p))
        for p in self.a['oct_prefixes']:
            out.append((p + oct(v)[2:], False, 'octpre ' + p))
        for p in self.a['dec_prefixes']:
            out.append((p + str(v), True, 'decpre ' + p))
        for s in self.a['hex_suffixes']:
            t = '%x' % v
            if not t[0].isdigit():
                t = '0' + t
            out.append((t + s, False, 'hexsuf ' + s))
            out.append((t.upper() + s, False, 'hexsuf ' + s))
            if mixed(t):
                out.append((mixed(t) + s, False, 'hexsuf ' + s))
        for s in self.a['bin_suffixes']:
            out.append((bin(v)[2:] + s, False, 'binsuf ' + s))
        for s in self.a['oct_suffixes']:
            out.append((oct(v)[2:] + s, False, 'octsuf ' + s))
        for s in self.a['dec_suffixes']:
            out.append((str(v) + s, True, 'decsuf ' + s))
        # a suffixed number that starts like a prefixed one ('0b', '0d') is ambiguous
        pres = [p for k, ps in self.a.items() if k.endswith('prefixes') for p in ps]
        out = [o for o in out if o[2][3:6] != 'suf' or o[2].startswith('hex')
               or not any(o[0].startswith(p) for p in pres)]
        if chars and 33 <= v < 127 and chr(v) not in '\'"\\':
            out.append(("'%s'" % chr(v), False, 'char'))
        elif chars and 0xA1 <= v < 0x110000 and not 0xD800 <= v < 0xE000 and chr(v).isprintable() and not chr(v).isspace():
            out.append(("'%s'" % chr(v), False, 'char'))
        return out

    def spell(self, rng, v, chars=False):
        return rng.choice(self.spellings(v, chars))
