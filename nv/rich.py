"""Structured programs (defines, macros, repeats, includes, imports, regions)
with, for each, the flat program it must be equivalent to."""
import json
import os
import re
from .model import lit, lab, expr, render
from .toy import FIELD, FIELDS
from . import gen

INS_WIDE = ('U16', 'U32', 'R32', 'R16')
MACRO_FIELDS = ('U8', 'U16', 'U32', 'S8', 'S16', 'I5')


class Rich:
    def __init__(self, rng, num, directory, features=('define', 'macro', 'repeat', 'include', 'import', 'org'), probes=True,
                 labels=4, undefined=False):
        self.rng, self.num, self.dir = rng, num, directory
        self.features = features
        self.probes = probes
        self.names = gen.Names(rng)
        self.pool = [self.names.new() for _ in range(labels)]
        self.pending = list(self.pool)
        self.known = []
        self.defines = {}       # name -> (value, text, decimal)
        self.macros = {}        # upper name -> (args, body)
        self.files = {}
        self.flat = []
        self.uid = 0
        self.kinds = set()

    # ---- atoms: (source atom, flat atom)
    def literal(self, bits, signed=False):
        rng = self.rng
        if self.defines and rng.random() < .35:
            fits = [(n, d) for n, d in self.defines.items()
                    if 0 <= d[0] < (1 << (bits - (1 if signed else 0)))]
            if fits:
                n, (v, t, dec) = rng.choice(fits)
                self.kinds.add('define-use')
                return lit(v, n, dec), lit(v, t, dec)
        a = gen.rand_literal(rng, self.num, bits, signed)
        return a, a

    def operand(self, f):
        rng = self.rng
        if f.relative is not None and f.name in ('R16', 'R32') and self.pool and rng.random() < .8:
            n = rng.choice(self.pool)
            return lab(n), lab(n)
        if f.relative is not None or f.shift or f.name in ('I5',):
            hi = f.bits_size - (1 if f.signed or f.relative is not None else 0)
            a = lit((gen.interesting(rng, hi) >> f.shift) << f.shift)
            return a, a
        if f.name in ('U16', 'U32') and self.pool and rng.random() < .5:
            n = rng.choice(self.pool)
            if rng.random() < .3:
                ops = [('+', lit(rng.randrange(9)))]
                return expr(lab(n), '', ops), expr(lab(n), '', ops)
            return lab(n), lab(n)
        if rng.random() < .3 and not f.signed:
            s, a = self.literal(max(2, f.bits_size - 2))
            if a[1] >= 0:
                k = rng.randrange(1, 4)
                ops = [rng.choice((('+', lit(k)), ('|', lit(k)), ('&', lit(0x3F)), ('*', lit(2))))]
                e = expr(a, '', ops)
                return expr(s, '', ops), e
        return self.literal(f.bits_size, f.signed)

    def simple(self, ram=True, org_free=True):
        """one byte producing statement -> (src statement, flat statement)"""
        rng = self.rng
        r = rng.random()
        if r < .4:
            f = rng.choice(FIELDS)
            s, a = self.operand(f)
            return ('ins', f.name, s), ('ins', f.name, a)
        if r < .5:
            t = ('ins', rng.choice(('NOP', 'HLT3')))
            return t, t
        if r < .6:
            s, a = self.literal(8)
            n = lab(rng.choice(self.pool)) if self.pool else lit(1)
            return ('two', s, n), ('two', a, n)
        if r < .85:
            w = rng.choice((1, 2, 4))
            src, flat = [], []
            for _ in range(rng.randrange(1, 5)):
                if w == 1 and rng.random() < .3:
                    b = gen.rand_string(rng)
                    src.append(b)
                    flat.append(b)
                elif w > 1 and self.pool and rng.random() < .4:
                    n = lab(rng.choice(self.pool))
                    src.append(n)
                    flat.append(n)
                else:
                    s, a = self.literal(8 * w)
                    src.append(s)
                    flat.append(a)
            return ('data', w, src), ('data', w, flat)
        if r < .9 and ram:
            t = ('ram', rng.randrange(1, 40))
            return t, t
        t = ('fill', rng.choice((0, 1, 2, 3, 17)), rng.choice((None, 0, 1, 0x7F, 0xFF)))
        return t, t

    def fresh(self, stem):
        self.uid += 1
        return '%s_%d' % (stem, self.uid)

    def nameless(self, names):
        """a literal without parts that are one of these names ($b has the part b)"""
        while True:
            a = self.literal(5)[1]
            if not set(re.split(r'[^A-Za-z0-9_.]+', a[2])) & set(names):
                return a

    # ---- macros
    def define_macro(self):
        rng = self.rng
        reuse = [m for m in self.macros] if rng.random() < .25 else []
        name = rng.choice(reuse).lower() if reuse else self.rng.choice(('mac', 'Push_all', 'COPY.w', 'm')) + '_%d' % len(self.macros)
        nargs = rng.randrange(0, 4)
        if reuse:
            # callers inside other macros keep their number of operands
            nargs = len(self.macros[name.upper()][0])
        stems = rng.choice((('a', 'b', 'c'), ('dst', 'src', 'n'), ('x', 'xx', 'xxx'), ('r.1', 'r.2', 'r'), ('p_', 'p_1', 'P_')))
        args = list(stems[:nargs])
        body = []   # (src text, function(bindings) -> flat statement)
        lines = ['.macro ' + ' '.join([name] + args)]
        for _ in range(rng.randrange(0, 5)):
            r = rng.random()
            callable_ = [m for m in self.macros if m != name.upper() and not self.macros[m][3]]
            if r < .2 and callable_ and not reuse:
                inner = rng.choice(callable_)
                iargs = self.macros[inner][0]
                binds = []
                for _a in iargs:
                    if args and rng.random() < .6:
                        binds.append(('arg', rng.randrange(nargs)))
                    else:
                        a = self.nameless(args)
                        binds.append(('atom', lit(a[1], a[2], a[3])))
                txt = inner + ' ' + ' '.join(args[b[1]] if b[0] == 'arg' else b[1][2] for b in binds)
                body.append((txt, ('call', inner, binds)))
                self.kinds.add('nested-macro')
                continue
            if r < .35:
                toks = []
                for _ in range(rng.randrange(1, 4)):
                    if args and rng.random() < .7:
                        i = rng.randrange(nargs)
                        form = rng.choice(('%s', '#%s', '%s+1', '1+%s', '-%s', '<%s', '%sz', 'z%s', '%s_', '#%s*2'))
                        toks.append((form, i))
                    else:
                        toks.append((rng.choice(('q', '#7', 'zz+1')), None))
                body.append(('ECHO ' + ', '.join(t if i is None else t % args[i] for t, i in toks), ('echo', toks)))
                continue
            f = FIELD[rng.choice(MACRO_FIELDS)]
            if args and rng.random() < .75:
                i = rng.randrange(nargs)
                k = rng.choice((None, None, '+1', '|1', '&7'))
                body.append((f.name + ' ' + args[i] + (k or ''), ('field', f.name, i, k)))
            else:
                a = self.nameless(args)
                body.append((f.name + ' ' + a[2], ('fixed', f.name, lit(a[1] if a[1] >= 0 else a[1], a[2], a[3]))))
        lines += [t for t, _ in body]
        lines.append('.endmacro')
        self.macros[name.upper()] = (args, [b for _, b in body], name, bool(reuse))
        self.kinds.add('macro-redefined' if reuse else 'macro')
        return lines

    def expand(self, key, atoms):
        args, body = self.macros[key][:2]
        out = []
        for b in body:
            if b[0] == 'call':
                out += self.expand(b[1], [atoms[x[1]] if x[0] == 'arg' else x[1] for x in b[2]])
            elif b[0] == 'echo':
                toks = []
                for form, i in b[1]:
                    if i is None:
                        toks.append(form)
                    elif form in ('%sz', 'z%s', '%s_'):
                        toks.append(form % args[i])      # part of a longer name: left alone
                    else:
                        toks.append(form % atoms[i][2])
                out.append(('echo', toks))
            elif b[0] == 'field':
                a = atoms[b[2]]
                if b[3]:
                    k = lit(int(b[3][1:]))
                    a = expr(a, '', [(b[3][0], k)])
                out.append(('ins', b[1], a))
            else:
                out.append(('ins', b[1], b[2]))
        return out

    def call_macro(self):
        rng = self.rng
        key = rng.choice(list(self.macros))
        args = self.macros[key][0]
        src, flat = [], []
        for _ in args:
            v = rng.choice((0, 1, 2, 3, 7, 15, 9, 11))
            t, dec, _n = self.num.spell(rng, v)
            src.append(t)
            flat.append(lit(v, t, dec))
        self.kinds.add('macro-call')
        name = gen_case(rng, key)
        return name + (' ' + rng.choice((', ', ' ')).join(src) if src else ''), self.expand(key, flat)

    # ---- files
    def new_file(self, data, ext):
        self.uid += 1
        name = os.path.join(self.dir, 'f%d%s' % (self.uid, ext))
        self.files[name] = data
        return name

    def imported(self):
        rng = self.rng
        k = rng.choice(('incbin', 'inccsv', 'inccsv_le16', 'incjson'))
        self.kinds.add(k)
        if k == 'incbin':
            b = bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 5, 300))))
            return '.incbin "%s"' % self.new_file(b, '.bin'), ('blob', b)
        w = 2 if k.endswith('16') else 1
        vals = [gen.interesting(rng, 8 * w) for _ in range(rng.randrange(1, 20))]
        blob = b''.join(v.to_bytes(w, 'little') for v in vals)
        if k == 'incjson':
            path = rng.choice(('data', 'a.b', 'layers.tiles.data'))
            doc = [v if rng.random() < .7 else self.num.spell(rng, v)[0] for v in vals]
            for p in reversed(path.split('.')):
                doc = {'other': [1, 2], p: doc, 'z': 3}
            return '.incjson "%s" "%s"' % (self.new_file(json.dumps(doc).encode(), '.json'), path), ('blob', blob)
        text = ''
        for i, v in enumerate(vals):
            text += self.num.spell(rng, v)[0]
            text += rng.choice((',', ',', '\n', '\r\n')) if i < len(vals) - 1 else rng.choice(('', '\n'))
        return '.%s "%s"' % (k, self.new_file(text.encode(), '.csv')), ('blob', blob)

    # ---- blocks
    def block(self, size, depth=0):
        """-> list of source lines; appends to self.flat"""
        rng = self.rng
        lines = []
        feats = self.features
        for _ in range(size):
            if self.probes:
                lines.append('.probe')
                self.flat.append(('probe',))
            if self.pending and rng.random() < .35:
                n = self.pending.pop(0)
                self.known.append(n)
                lines.append(n + ':')
                self.flat.append(('label', n))
            r = rng.random()
            if r < .1 and 'define' in feats:
                if self.defines and rng.random() < .3:
                    n = rng.choice(list(self.defines))
                    self.kinds.add('redefine')
                else:
                    n = rng.choice(('SIZE', 'k', 'Mode.x', '_v', 'loopcount', 'sta', 'W')) + str(len(self.defines))
                v = rng.choice((0, 1, 2, 3, 5, 9, 17, 31, 200, 60000))
                t, dec, _n = self.num.spell(rng, v)
                lines.append('.define %s %s' % (n, t))
                self.defines[n] = (v, t, dec)
                self.kinds.add('define')
            elif r < .2 and 'macro' in feats:
                lines += self.define_macro()
            elif r < .35 and 'macro' in feats and self.macros:
                t, fl = self.call_macro()
                lines.append(t)
                self.flat += fl
            elif r < .45 and 'repeat' in feats:
                n = rng.choice((1, 2, 3, 7))
                body_src, body_flat = [], []
                for _k in range(rng.randrange(0, 5)):
                    if 'macro' in feats and self.macros and rng.random() < .2:
                        t, fl = self.call_macro()
                        body_src.append(t)
                        body_flat += fl
                        continue
                    s, a = self.simple()
                    body_src.append(render(s, rng))
                    body_flat.append(a)
                lines += ['.repeat %d' % n] + body_src + ['.endrepeat']
                self.flat += body_flat * n
                self.kinds.add('repeat')
            elif r < .53 and 'include' in feats and depth < 4:
                sub = self.block(rng.randrange(0, 6), depth + 1)
                text = '\n'.join(sub) + rng.choice(('', '\n', '\n\n'))
                lines.append('.include "%s"' % self.new_file(text.encode('latin-1'), '.inc'))
                self.kinds.add('include%d' % depth)
            elif r < .6 and 'import' in feats:
                t, fl = self.imported()
                lines.append(t)
                self.flat.append(fl)
            elif r < .68 and 'org' in feats:
                a = rng.randrange(0, 0x8000)
                lines.append('.org %d' % a)
                self.flat.append(('org', a, None))
            elif r < .74 and 'pad' in feats:
                s = ('align', rng.choice((1, 2, 3, 4, 16, 10)))
                lines.append(render(s, rng))
                self.flat.append(s)
            else:
                s, a = self.simple()
                lines.append(render(s, rng))
                self.flat.append(a)
        if depth == 0:
            for n in self.pending:
                lines.append(n + ':')
                self.flat.append(('label', n))
            self.pending = []
            if self.probes:
                lines.append('.probe')
                self.flat.append(('probe',))
        return lines

    def write_files(self):
        for n, d in self.files.items():
            with open(n, 'wb') as f:
                f.write(d)


def gen_case(rng, s):
    return ''.join(rng.choice((c.upper(), c.lower())) for c in s)
