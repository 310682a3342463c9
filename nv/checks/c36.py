"""C36: the packing services store every value exactly or refuse it."""
import struct
from ..harness import Check, import_repo
import_repo()
from necroassembler import utils as U  # noqa: E402
from necroassembler.exceptions import AssemblerException  # noqa: E402

PACKERS = {'pack_byte': (1, 'little'), 'pack_8s': (1, 'little'), 'pack_le16u': (2, 'little'), 'pack_le16s': (2, 'little'), 'pack_be16u': (2, 'big'), 'pack_be16s': (2, 'big'),
           'pack_le32u': (4, 'little'), 'pack_le32s': (4, 'little'), 'pack_be32u': (4, 'big'), 'pack_be32s': (4, 'big'), 'pack_le64u': (8, 'little'), 'pack_le64s': (8, 'little')}
BITS = {'pack_bits': None, 'pack_bits_le32u': (4, 'little'), 'pack_bits_le16u': (2, 'little'), 'pack_bits_be16u': (2, 'big')}


def call(f, *args):
    try:
        return f(*args), None
    except AssemblerException as e:
        return None, e
    except (TypeError, ValueError, struct.error, OverflowError, IndexError, ZeroDivisionError, NameError) as e:
        return type(e).__name__, e


def main():
    chk = Check('C36', 'every byte and 16-bit value and its negative, the boundaries of every width up to 64 bits and random values, in lists of any length with missing values, for '
                'each packing function; bit packing with every (high, low) pair of 32 bits around the boundaries of the field, several fields per word and invalid ranges; range tests '
                'for every width from 1 to 64; the expected bytes come from integer arithmetic; non-trivial = each distinct call', 20000)
    rng = chk.rng

    def near(n):
        p = 1 << n
        return [0, 1, -1, p // 2 - 1, p // 2, p // 2 + 1, p - 1, p, p + 1, -(p // 2), -(p // 2) - 1, -(p // 2) + 1, -p, rng.randrange(p), -rng.randrange(p), rng.randrange(-p * 4, p * 4)]

    for name, (n, order) in PACKERS.items():
        f = getattr(U, name, None)
        if f is None:
            continue
        top = 1 << (8 * n)
        lists = [[]] + [[v] for v in range(-260, 520)] + [[v] for v in near(8 * n)]
        if n == 2:
            lists += [[v] for v in range(-65536, 131072, 1 if chk.thorough else 7)]
        for _ in range(chk.n(1500, 15000)):
            lists.append([rng.choice((None, rng.choice(near(8 * n)), rng.randrange(-top, top))) for _ in range(rng.randrange(1, 7))])
        for vals in lists:
            want = b''.join(((v or 0) % top).to_bytes(n, order) for v in vals)
            got, e = call(f, *vals)
            chk.case((name, tuple(vals)), '%s%r' % (name, tuple(vals)))
            chk.count('calls/' + name)
            chk.expect(got == want, 'bytes/' + name, lambda: '%s%r gives %r (%r), expected %r' % (name, tuple(vals), got, e, want), {'function': name, 'values': vals})
    # any layout
    codes = {'B': (1, 0), 'b': (1, 1), 'H': (2, 0), 'h': (2, 1), 'I': (4, 0), 'i': (4, 1), 'Q': (8, 0), 'q': (8, 1)}
    for _ in range(chk.n(3000, 30000)):
        order = rng.choice('<>')
        fmt, vals, want = order, [], b''
        for _k in range(rng.randrange(1, 7)):
            if rng.random() < .12:
                n = rng.randrange(1, 6)
                b = rng.randbytes(rng.randrange(0, n + 1))
                fmt += '%ds' % n
                vals.append(b)
                want += b.ljust(n, b'\0')
                continue
            c = rng.choice(list(codes))
            n, signed = codes[c]
            lo = -(1 << (8 * n - 1)) if signed else 0
            v = rng.choice((None, 0, 1, lo, lo + (1 << (8 * n)) - 1, rng.randrange(lo, lo + (1 << (8 * n)))))
            fmt += c
            vals.append(v)
            want += ((v or 0) % (1 << (8 * n))).to_bytes(n, 'little' if order == '<' else 'big')
        got, e = call(U.pack, fmt, *vals)
        chk.case(('pack', fmt, tuple(vals)))
        chk.count('calls/pack')
        chk.expect(got == want, 'bytes/pack', lambda: 'pack(%r, *%r) gives %r (%r), expected %r' % (fmt, vals, got, e, want), {'format': fmt, 'values': vals})
    for name, enc in BITS.items():
        f = getattr(U, name, None)
        if f is None:
            continue
        width = 64 if enc is None else 8 * enc[0]

        def expected(base, fields):
            v = base
            for (hi, lo), x in fields:
                if hi < lo:
                    return None
                n = hi - lo + 1
                if not -(1 << (n - 1)) <= x < (1 << n):
                    return None
                v |= (x % (1 << n)) << lo
            return v if enc is None else (v % (1 << (8 * enc[0]))).to_bytes(enc[0], enc[1])
        cases = []
        for hi in range(width):
            for lo in range(min(width, hi + 3)):
                n = hi - lo + 1
                if n <= 0:
                    cases.append((0, [((hi, lo), 0)]))
                    continue
                for x in (near(n) if chk.thorough or enc is None else rng.sample(near(n), 5)):
                    cases.append((rng.choice((0, 0, rng.randrange(1 << width))), [((hi, lo), x)]))
        if enc is None:
            # words wider than any register
            for _ in range(chk.n(1500, 30000)):
                lo = rng.randrange(130)
                hi = lo + rng.randrange(70)
                fs = [((hi, lo), rng.choice(near(hi - lo + 1)))]
                if rng.random() < .4:
                    fs.append(((7, 0), rng.randrange(256)))
                cases.append((rng.choice((0, rng.randrange(1 << 128))), fs))
        for _ in range(chk.n(3000, 60000)):
            base, fields, used = rng.randrange(1 << width), [], 0
            for _k in range(rng.randrange(0, 6)):
                hi = rng.randrange(width)
                lo = rng.randrange(hi + 1)
                n = hi - lo + 1
                x = rng.randrange(-(1 << (n - 1)), 1 << n)
                if rng.random() < .06:
                    x = rng.choice((1 << n, -(1 << (n - 1)) - 1, (1 << n) + 5))
                if rng.random() < .03 and hi > lo:
                    hi, lo = lo, hi
                fields.append(((hi, lo), x))
            cases.append((base, fields))
        for base, fields in cases:
            want = expected(base, fields)
            got, e = call(f, base, *fields)
            chk.case((name, base, tuple(fields)), '%s(%r, %r)' % (name, base, fields))
            chk.count('calls/' + name)
            if want is None:
                chk.count('refusals')
                chk.expect(got is None and e is not None, 'accepted/' + name, lambda: '%s(%#x, %r) gives %r, it must be refused' % (name, base, fields, got), {'fields': fields})
            else:
                chk.expect(e is None and got == want, 'bits/' + name, lambda: '%s(%#x, %r) gives %r (%r), expected %r' % (name, base, fields, got, e, want), {'fields': fields})
    for _ in range(chk.n(4000, 40000)):
        base = rng.randrange(1 << 16)
        fs = [(rng.randrange(32), rng.choice((0, 1))) for _k in range(rng.randrange(0, 4))]
        want = base
        for b, v in fs:
            want |= v << b
        got, e = call(U.pack_bit, base, *fs)
        chk.case(('pack_bit', base, tuple(fs)))
        chk.expect(got == want, 'bits/pack_bit', lambda: 'pack_bit(%#x, %r) gives %r, expected %#x' % (base, fs, got, want), {'fields': fs})
    for n in range(1, 65):
        vals = sorted(set(near(n) + near(n) + list(range(-40, 300)) + [rng.randrange(-(2 << n), 2 << n) for _ in range(30)]))
        for v in vals:
            chk.case(('range', n, v))
            chk.count('range_questions', 3)
            for what, got, want in (('in_bit_range', call(U.in_bit_range, v, n)[0], 0 <= v < (1 << n)),
                                    ('signed', call(lambda: U.in_bit_range_decimal(v, n, signed=True))[0], -(1 << (n - 1)) <= v < (1 << (n - 1))),
                                    ('unsigned', call(lambda: U.in_bit_range_decimal(v, n, signed=False))[0], -(1 << (n - 1)) <= v < (1 << n))):
                chk.expect(bool(got) == want, 'range/' + what, lambda: '%s of %d in %d bits says %r, expected %r' % (what, v, n, got, want), {'value': v, 'bits': n})
            if 0 <= v < (1 << n):
                got = call(U.neg_fix, v, n)[0]
                want = v - (1 << n) if v >> (n - 1) else v
                chk.expect(got == want, 'neg_fix', lambda: 'neg_fix(%d, %d) gives %r, expected %d' % (v, n, got, want), {'value': v, 'bits': n})
    # names: letters, digits, underscore and dot
    ok = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.'
    for c in range(0, 0x250):
        for s in (chr(c), 'a' + chr(c), chr(c) + 'Z', 'x' + chr(c) + '9'):
            chk.case(('name', s))
            got, want = U.is_valid_name(s), all(x in ok for x in s)
            chk.expect(bool(got) == want, 'name', lambda: 'is_valid_name(%r) says %r' % (s, got), {'name': s})
    chk.require('refusals', 300)
    chk.finish()
