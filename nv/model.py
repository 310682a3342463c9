"""Independent reference of the assembly language core (oracle of C02..C10).

Programs are lists of tuples built by the generators; the model computes the
image and label values straight from the intended meaning, never from text."""
from .toy import FIELD, fixed_bytes


class Bad(Exception):
    """the program is faulty: the real assembler must refuse it"""


# ---- expressions: ('x', prefixes, base, [(op, arg|None), ...])
# base/arg: ('n', value, text, decimal) or ('l', name)

def lit(value, text=None, decimal=True):
    return ('n', value, str(value) if text is None else text, decimal)


def lab(name):
    return ('l', name)


def expr(base, prefixes='', ops=()):
    return ('x', prefixes, base, tuple(ops))


def text_of(e):
    if e[0] == 'n':
        return e[2]
    if e[0] == 'l':
        return e[1]
    _, pre, base, ops = e
    return pre + text_of(base) + ''.join(op + ('' if a is None else text_of(a)) for op, a in ops)


def is_label_expr(e):
    if e[0] == 'x':
        return e[2][0] == 'l'
    return e[0] == 'l'


def labels_in(e):
    if e[0] == 'l':
        return {e[1]}
    if e[0] == 'x':
        s = labels_in(e[2])
        for op, a in e[3]:
            if a is not None:
                s |= labels_in(a)
        return s
    return set()


def apply_prefix(pre, v):
    """'>' drops the low byte, each further one another; '<' keeps the low byte, each further one more."""
    keep = pre.count('<')
    drop = pre.count('>')
    v = v >> (8 * drop)
    if keep:
        v = v % (1 << (8 * keep))
    return v


def apply_ops(v, ops, value_of):
    for op, a in ops:
        k = 1 if a is None else value_of(a)
        if op == '+':
            v = v + k
        elif op == '-':
            v = v - k
        elif op == '*':
            v = v * k
        elif op == '/':
            if k == 0:
                raise Bad('division by zero')
            v = v // k
        elif op == '&':
            v = v & k
        elif op == '|':
            v = v | k
    return v


def value_of_atom(labels):
    def f(a):
        if a[0] == 'n':
            return a[1]
        if a[1] not in labels:
            raise Bad('unknown label ' + a[1])
        return labels[a[1]]
    return f


def eval_expr(e, labels, start=0):
    """value of a label-based or literal expression (start subtracted from the leading label)"""
    vo = value_of_atom(labels)
    if e[0] == 'n':
        return e[1]
    if e[0] == 'l':
        return vo(e) - start
    _, pre, base, ops = e
    v = vo(base) - (start if base[0] == 'l' else 0)
    return apply_ops(apply_prefix(pre, v), ops, vo)


def literal_field(e, bits, signed, labels):
    """value of a literal-based operand in a field of that width; Bad if it does not fit"""
    v = eval_expr(e, labels)
    base = e if e[0] == 'n' else e[2]
    decimal = base[3]
    top = 1 << bits
    if not decimal:
        if v < 0:
            raise Bad('negative non-decimal')
        if v >= top:
            raise Bad('too wide')
        return v
    if v < -(top // 2):
        raise Bad('too negative')
    if signed:
        if v >= top // 2:
            raise Bad('too wide (signed)')
    elif v >= top:
        raise Bad('too wide')
    return v


def label_field(e, bits, relative, alignment, labels, start=0):
    for name in labels_in(e):
        if name not in labels:
            raise Bad('unknown label ' + name)
    absolute = eval_expr(e, labels)
    if absolute % alignment:
        raise Bad('misaligned')
    if relative:
        v = eval_expr(e, labels, start)
        if not -(1 << (bits - 1)) <= v < (1 << (bits - 1)):
            raise Bad('out of reach')
        return v
    if absolute < 0 or absolute >= (1 << bits):
        raise Bad('does not fit')
    return absolute


class Image:
    """statement interpreter for flat programs"""

    def __init__(self, big=False, fill=0):
        self.big = big
        self.fill = fill
        self.out = bytearray()
        self.org = 0
        self.end = 0
        self.counter = 0
        self.labels = {}
        self.fix = []       # (offset, function(labels) -> bytes, length)
        self.trace = []     # (pc, offset) of every probe

    @property
    def pc(self):
        return self.org + self.counter

    def emit(self, blob):
        self.out += blob
        self.counter += len(blob)

    def twos(self, v, n):
        return (v % (1 << (8 * n))).to_bytes(n, 'big' if self.big else 'little')

    def operand(self, e, size, bits, signed=False):
        """data item: literal now, label later"""
        if is_label_expr(e):
            at = len(self.out)
            self.fix.append((at, lambda labels: self.twos(label_field(e, bits, False, 1, labels), size)))
            self.emit(bytes(size))
        else:
            self.emit(self.twos(literal_field(e, bits, signed, self.labels), size))

    def statement(self, s):
        k = s[0]
        if k == 'label':
            if s[1] in self.labels:
                raise Bad('duplicate label')
            self.labels[s[1]] = self.pc
        elif k == 'ins':
            f = FIELD.get(s[1])
            if f is None:
                self.emit({'NOP': b'\xEA', 'HLT3': b'\xF1\xF2\xF3'}[s[1]])
                return
            e = s[2]
            if is_label_expr(e):
                at = len(self.out)
                start = self.pc + f.relative if f.relative is not None else 0
                self.fix.append((at, lambda labels, f=f, e=e, start=start: f.place(
                    label_field(e, f.bits_size, f.relative is not None, f.alignment, labels, start), self.big)))
                self.emit(bytes(f.total))
            else:
                v = literal_field(e, f.bits_size, f.signed or f.relative is not None, self.labels)
                self.emit(f.place(v, self.big))
        elif k == 'two':
            a, b = s[1], s[2]
            at = len(self.out)

            def late(labels, a=a, b=b):
                va = label_field(a, 8, False, 1, labels) if is_label_expr(a) else literal_field(a, 8, False, labels)
                vb = label_field(b, 16, False, 1, labels) if is_label_expr(b) else literal_field(b, 16, False, labels)
                return b'\x22' + self.twos(va, 1) + self.twos(vb, 2)
            for e in (a, b):
                if not is_label_expr(e):
                    literal_field(e, 8 if e is a else 16, False, self.labels)
            self.fix.append((at, late))
            self.emit(bytes(4))
        elif k == 'data':
            for item in s[2]:
                if isinstance(item, bytes):
                    self.emit(item)
                else:
                    self.operand(item, s[1], 8 * s[1])
        elif k == 'org':
            self.change_org(s[1], s[2])
        elif k == 'fill':
            self.emit(bytes([self.fill if s[2] is None else s[2]]) * s[1])
        elif k == 'align':
            self.emit(bytes([self.fill]) * (-self.pc % s[1]))
        elif k == 'goto':
            if s[1] < self.pc:
                raise Bad('goto backwards')
            self.emit(bytes([self.fill if s[2] is None else s[2]]) * (s[1] - self.pc))
        elif k == 'upto':
            if s[1] < self.counter:
                raise Bad('upto backwards')
            self.emit(bytes([self.fill if s[2] is None else s[2]]) * (s[1] - self.counter))
        elif k == 'ram':
            if s[1] < 1:
                raise Bad('ram size')
            self.counter += s[1]
        elif k == 'probe':
            self.trace.append((self.pc, len(self.out)))
        elif k == 'echo':
            out = b'\xEC'
            for t in s[1]:
                out += bytes([len(t)]) + t.encode('utf-8')
            self.emit(out + b'\xCE')
        elif k == 'eos':       # end of a source, another one follows
            self.finish()
        elif k == 'blob':      # imported or repeated bytes
            self.emit(s[1])
        else:
            raise AssertionError(k)

    def change_org(self, start, end):
        end = end or 0
        if end and end < start:
            raise Bad('end below start')
        if self.end:
            pend, pstart, pc = self.end, self.org, self.pc
            if pc > start:
                raise Bad('overlap')
            if start <= pstart:
                raise Bad('overlap')
            stop = pend + 1 if start > pend else start
            self.out += bytes([self.fill]) * (stop - pc)
        self.org, self.end, self.counter = start, end, 0

    def finish(self):
        if self.end and self.pc <= self.end:
            self.emit(bytes([self.fill]) * (self.end + 1 - self.pc))

    def resolve(self):
        for at, f in self.fix:
            blob = f(self.labels)
            self.out[at:at + len(blob)] = blob


def run(program, big=False, fill=0):
    """-> (bytes, labels, trace) or raises Bad"""
    im = Image(big, fill)
    for s in program:
        im.statement(s)
    im.finish()
    im.resolve()
    return bytes(im.out), im.labels, im.trace


DATA_NAMES = {1: ('db', 'byte'), 2: ('dw', 'word'), 4: ('dd', 'dl', 'dword')}


def quote(b, q='"'):
    s = ''
    for ch in b.decode('ascii'):
        if ch in (q, '\\'):
            s += '\\'
        s += ch
    return q + s + q


def render(s, rng=None):
    """one statement as source text (one line)"""
    k = s[0]
    pick = (lambda t: rng.choice(t)) if rng else (lambda t: t[0])
    if k == 'label':
        return s[1] + ':'
    if k == 'ins':
        return s[1] if len(s) < 3 else s[1] + ' ' + text_of(s[2])
    if k == 'two':
        return 'TWO %s, %s' % (text_of(s[1]), text_of(s[2]))
    if k == 'data':
        items = []
        for it in s[2]:
            if isinstance(it, bytes):
                items.append(quote(it, pick(('"', "'")) if b"'" not in it and b'"' not in it else '"'))
            else:
                items.append(text_of(it))
        return '.%s %s' % (pick(DATA_NAMES[s[1]]), ', '.join(items))
    if k == 'org':
        return '.org %d' % s[1] + (' %d' % s[2] if s[2] is not None else '')
    if k in ('fill', 'goto', 'upto'):
        return '.%s %d' % (k, s[1]) + (', %d' % s[2] if s[2] is not None else '')
    if k == 'align':
        return '.align %d' % s[1]
    if k == 'ram':
        return '.ram %d' % s[1]
    if k == 'probe':
        return '.probe'
    if k == 'eos':
        return EOS
    if k == 'echo':
        return 'ECHO ' + ', '.join(s[1])
    raise AssertionError(k)


EOS = '; --- next source ---'


def source(program, rng=None):
    return '\n'.join(render(s, rng) for s in program) + '\n'
