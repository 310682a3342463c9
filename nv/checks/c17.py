"""C17: custom opcodes, directives, defines and link passes."""
import os
import sys
import tempfile
from ..harness import Check, execute, hx
from ..cpu import all_cpus
from ..toy import STYLES
from necroassembler import Assembler, opcode, directive, pre_link, post_link

ALL_NAMES = ['add', 'ADDI', 'ld.w', 'x', 'Mov', 'jmp_far', 'b.eq', '_raw', 'tas2', 'o.o', 'Zz9', 'swap', 'hlt', 'LEA', 'q']
DIRS = ['table', 'TEXT', 'Pad.to', 'x', 'res_b', 'emit', 'bank2', 'hlt', 'a.b.c', 'd1', 'd2', 'Frame', 'END.of', 'zz', 'byte_', 'list']


def parts_of(tokens):
    return b''.join(bytes([len(t)]) + t.encode() for t in tokens)


class Plan:
    """a random subclass with, for every name it declares, the bytes it must give"""

    def __init__(self, rng, base, sensitive, style, prefix=''):
        NAMES = [prefix + n for n in ALL_NAMES]
        self.NAMES = NAMES
        self.rng = rng
        self.log = []
        self.ops = {}       # canonical name -> (kind, tag)
        self.dirs = {}
        self.defs = {}
        self.passes = []    # (when, id) declared by classes
        self.sensitive = sensitive
        self.n = 0
        used_o, used_d = set(), set()
        attrs = dict(case_sensitive=sensitive)
        if style:
            attrs.update(STYLES[style])
        levels = rng.randrange(1, 4)
        cls = base
        bases = ()
        self.cls = None
        for lv in range(levels):
            ns = dict(attrs) if lv == 0 else {}
            if lv == 0 or rng.random() < .4:
                dd = dict(self.defs) if rng.random() < .5 else {}
                self.defs = dict(dd)
                for _ in range(rng.randrange(0, 3)):
                    k = rng.choice(('PORT', 'mode', 'K.1', '_d')) + str(rng.randrange(4))
                    dd[k] = self.defs[k] = rng.choice(('7', '0x10', 'other', '(', '200'))
                ns['defines'] = dd
            for _ in range(rng.randrange(1, 5)):
                names = self.fresh(NAMES, used_o, rng.choice((1, 1, 2, 3, 5)))
                if names:
                    self.declare(ns, 'op', names)
            for _ in range(rng.randrange(0, 4)):
                names = self.fresh(DIRS, used_d, rng.choice((1, 1, 2, 3, 5)))
                if names:
                    self.declare(ns, 'dir', names)
            for when in ('pre', 'post'):
                for _ in range(rng.randrange(0, 3)):
                    self.declare_pass(ns, when)
            # registration hooks, always extending the inherited ones
            self.hooks(ns, used_o, used_d, lv)
            mixin = ()
            if rng.random() < .3:
                mns = {}
                names = self.fresh(NAMES, used_o, 1)
                if names:
                    self.declare(mns, 'op', names)
                self.declare_pass(mns, rng.choice(('pre', 'post')))
                mixin = (type('Mixin%d' % lv, (), mns),)
            cls = type('Custom%d' % lv, mixin + (cls,), ns)
        self.cls = cls
        self.names_o, self.names_d = used_o, used_d

    def key(self, n):
        return n if self.sensitive else n.upper()

    def fresh(self, pool, used, k):
        out = []
        for n in self.rng.sample(pool, len(pool)):
            n = self.rng.choice((n, n, n.upper(), n.lower()))
            if self.key(n) not in used:
                used.add(self.key(n))
                out.append(n)
            if len(out) == k:
                break
        return out

    def handler(self, kind, tag):
        log = self.log
        plan = self
        if kind == 'op':
            def f(self, instr):
                log.append((tag, list(instr.tokens), self.pc, len(self.assembled_bytes)))
                return plan.result(tag, instr.tokens)
        else:
            def f(self, instr):
                log.append((tag, list(instr.tokens), self.pc, len(self.assembled_bytes)))
                self.append_assembled_bytes(plan.result(tag, instr.tokens))
        return f

    def result(self, tag, tokens):
        if tag % 7 == 0:
            return b''
        b = bytes([tag & 255]) + parts_of(tokens[1:])
        return bytearray(b) if tag % 5 == 0 else b

    def new(self):
        self.n += 1
        return self.n

    def declare(self, ns, kind, names):
        tag = self.new()
        f = self.handler(kind, tag)
        deco = opcode if kind == 'op' else directive
        ns['_h%d' % tag] = deco(*names)(f)
        for n in names:
            (self.ops if kind == 'op' else self.dirs)[self.key(n)] = ('call', tag)

    def declare_pass(self, ns, when):
        tag = self.new()
        log = self.log

        def f(self):
            log.append((when, tag, bytes(self.assembled_bytes)))
        ns['_p%d' % tag] = (pre_link if when == 'pre' else post_link)(f)
        self.passes.append((when, tag))

    def hooks(self, ns, used_o, used_d, lv):
        rng = self.rng
        regs = []
        for n in self.fresh(self.NAMES, used_o, rng.randrange(0, 3)):
            if rng.random() < .5:
                b = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 5)))
                self.ops[self.key(n)] = ('fixed', b)
                regs.append(('o', n, b))
            else:
                tag = self.new()
                self.ops[self.key(n)] = ('call', tag)
                regs.append(('o', n, self.handler('op', tag)))
        for n in self.fresh(DIRS, used_d, rng.randrange(0, 2)):
            tag = self.new()
            self.dirs[self.key(n)] = ('call', tag)
            regs.append(('d', n, self.handler('dir', tag)))
        defs = []
        for _ in range(rng.randrange(0, 2)):
            defs.append(('REG%d%d' % (lv, rng.randrange(3)), rng.choice(('5', 'zero', '0x1F'))))
        name = 'Custom%d' % lv
        self.regdefs = getattr(self, 'regdefs', {})
        self.regdefs.update(dict(defs))
        holder = {}

        def bind(self, fn):
            return (lambda instr: fn(self, instr)) if callable(fn) else fn

        def register_instructions(self):
            super(holder['c'](self), self).register_instructions()
            for k, n, f in regs:
                if k == 'o':
                    self.register_instruction(n, bind(self, f))

        def register_directives(self):
            super(holder['c'](self), self).register_directives()
            for k, n, f in regs:
                if k == 'd':
                    self.register_directive(n, bind(self, f))

        def register_defines(self):
            super(holder['c'](self), self).register_defines()
            for n, v in defs:
                self.register_define(n, v)

        def find(self):
            return [c for c in type(self).__mro__ if c.__name__ == name][0]
        holder['c'] = find
        ns['register_instructions'] = register_instructions
        ns['register_directives'] = register_directives
        ns['register_defines'] = register_defines


class Recorder:
    """a linker that records when it is asked for what"""

    def __init__(self, log, extra=b''):
        self.log, self.extra = log, extra

    def resolve_unknown_symbol(self, assembler, address, data):
        self.log.append(('unknown', data.label))
        from necroassembler.exceptions import UnknownLabel
        raise UnknownLabel(data.label)

    def link(self, assembler):
        self.log.append(('linker', bytes(assembler.assembled_bytes)))
        return bytes(assembler.assembled_bytes) + self.extra


def main():
    chk = Check('C17', 'random class hierarchies (one to three levels, mixins) over the bare framework and over every shipped CPU, declaring opcodes, directives, defines and link passes '
                'by decorator under one to three names, by registration of callables and of fixed bytes, and on the instance; random programs using them directly, in macros, '
                'repeats, with defines; a log of every call with its tokens and the location counter is compared with the expected one; non-trivial = at least one custom name used', 1500)
    rng = chk.rng
    cpus = all_cpus()
    tmp = tempfile.TemporaryDirectory()
    for i in range(chk.n(4000, 40000)):
        cpu = rng.choice(cpus) if rng.random() < .25 else None
        sensitive = rng.random() < .3 and cpu is None
        plan = Plan(rng, cpu.factory if cpu else Assembler, sensitive, None if cpu else rng.choice(('prefix', 'suffix', 'plain')), 'zz_' if cpu else '')
        asm_class = plan.cls
        big = getattr(asm_class, 'big_endian', False)
        inst_regs = []
        ops, dirs = dict(plan.ops), dict(plan.dirs)
        defs = dict(plan.defs)
        defs.update(plan.regdefs)
        if rng.random() < .4:
            for n in rng.sample(['zz_late', 'zz_x'] if cpu else ['late', 'ADDI', 'add', 'hlt'], 2):
                if rng.random() < .5:
                    b = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 4)))
                    inst_regs.append((n, b))
                    ops[plan.key(n)] = ('fixed', b)
                else:
                    tag = plan.new()
                    inst_regs.append((n, tag))
                    ops[plan.key(n)] = ('call', tag)
        nprog = rng.randrange(1, 12)
        lines, expect, image = [], [], bytearray()
        org = rng.choice((0, 0, 0x100, 0x8000))
        pc = org
        if org:
            lines.append('.org %d' % org)

        def subst(t):
            return defs.get(t, t)

        def name_case(n):
            return n if sensitive else rng.choice((n, n.lower(), n.upper()))

        def emit(b):
            nonlocal pc
            image.extend(b)
            pc += len(b)

        def statement(key, kind, operands, bind=None):
            """expected effect of a statement with these raw operand tokens"""
            table = ops if kind == 'op' else dirs
            what, v = table[key]
            if what == 'fixed':
                emit(v)
                chk.count('fixed_opcodes')
                return
            toks = [subst((bind or {}).get(t, t)) for t in operands]
            expect.append((v, toks, pc, len(image)))
            chk.count('custom_calls')
            emit(plan.result(v, [None] + toks))
        labels = {}
        fixups = []
        used = 0
        faulty = False
        for s in range(nprog):
            r = rng.random()
            operands = [rng.choice(('a', '5', '0x10', '(', ')', 'label_x', '#7', 'x+1', '"str"', "'c'") + tuple(defs)) for _ in range(rng.randrange(0, 5))]
            if r < .55 and ops:
                k = rng.choice(list(ops))
                if k in defs or any(name_case(k) in defs for _ in range(4)):
                    continue
                if ops[k][0] == 'fixed':
                    operands = []
                n = name_case(k)
                if n in defs or not_plain(n):
                    continue
                lines.append(n + ' ' + rng.choice((' ', ', ')).join(operands))
                statement(k, 'op', operands)
                used += 1
            elif r < .75 and dirs:
                k = rng.choice(list(dirs))
                lines.append('.' + name_case(k) + ' ' + ' '.join(operands))
                statement(k, 'dir', operands)
                used += 1
            elif r < .83 and ops:
                k = rng.choice(list(ops))
                if ops[k][0] == 'fixed':
                    operands = []
                m = 'mc%d' % s
                args = ['p', 'p1']
                body = [rng.choice(args + ['5', '(']) for _ in operands]
                bind = dict(zip(args, [rng.choice(('3', 'r1', '[')), rng.choice(('9', 'zz'))]))
                lines += ['.macro %s p p1' % m, k + ' ' + ' '.join(body), '.endmacro', '%s %s' % (m, ' '.join(bind[a] for a in args))]
                statement(k, 'op', body, bind)
                used += 1
            elif r < .9:
                lab = 'lb%d' % s
                labels[lab] = pc
                lines.append(lab + ':')
            elif r < .95 and labels:
                lab = rng.choice(list(labels))
                lines.append('.dd ' + lab)
                fixups.append((len(image), lab))
                emit(bytes(4))
            else:
                n = 'D%d' % rng.randrange(3)
                v = rng.choice(('42', 'sub', '0x7'))
                lines.append('.define %s %s' % (n, v))
                defs[n] = v
        raw = bytes(image)
        for off, lab in fixups:
            image[off:off + 4] = labels[lab].to_bytes(4, 'big' if big else 'little')
        # link passes: declared by the classes, added to the instance, added by main()
        log = plan.log
        inst_passes = []
        want_pre = [t for w, t in plan.passes if w == 'pre']
        want_post = [t for w, t in plan.passes if w == 'post']
        asm_box = []
        tail = rng.random() < .3

        def setup(a, out):
            asm_box.append(a)
            for n, v in inst_regs:
                a.register_instruction(n, v if isinstance(v, bytes) else (lambda h: lambda instr: h(a, instr))(plan.handler('op', v)))
            for when in ('pre', 'post'):
                for _ in range(rng.randrange(0, 3)):
                    tag = plan.new()
                    style = rng.choice(('function', 'object', 'lambda', 'bound'))
                    lst = a.pre_link_passes if when == 'pre' else a.post_link_passes
                    (want_pre if when == 'pre' else want_post).append(tag)

                    def f(x, tag=tag, when=when):
                        if x is a:
                            log.append((when, tag, bytes(x.assembled_bytes)))
                        else:
                            log.append(('wrong argument', tag, repr(x)))
                    if style == 'object':
                        class Pass:
                            def __call__(self, x, f=f):
                                f(x)
                        lst.append(Pass())
                    elif style == 'bound':
                        class Other:
                            def run(self, x, f=f):
                                f(x)
                        lst.append(Other().run)
                    else:
                        lst.append(f)
            if tail:
                # a pass can still add code and labels
                tag = plan.new()
                a.pre_link_passes.append(lambda x: x.assemble('tail_label: .db 7\n.dd tail_label\n'))
        rec = Recorder(log, rng.choice((b'', b'\xEE\xEE')))
        src = '\n'.join(lines) + '\n'
        r = execute(asm_class, src, linker=rec, setup=setup)
        chk.case((i, src), src, nontrivial=used > 0)
        chk.see('bases', cpu.name if cpu else 'framework')
        rep = {'source': src, 'base': cpu.name if cpu else 'Assembler', 'case_sensitive': sensitive, 'expected_calls': expect, 'log': [x for x in log][:60], 'observed': r.brief()}
        if not chk.expect(r.ok, 'refused', lambda: '%r refused: %s' % (src, r.brief()), rep):
            continue
        calls = [x for x in log if isinstance(x[0], int)]
        got = [(c[0], c[1][1:], c[2], c[3]) for c in calls]
        chk.expect(got == expect, 'calls', lambda: '%r: calls %s, expected %s' % (src, got, expect), rep)
        t_off = len(raw)
        want_img = bytes(image)
        want_raw = raw
        if tail:
            want_img += b'\x07' + pc.to_bytes(4, 'big' if big else 'little')
        chk.expect(r.data == want_img + rec.extra, 'image', lambda: '%r: image %s, expected %s' % (src, hx(r.data), hx(want_img + rec.extra)), rep)
        pres = [x for x in log if x[0] == 'pre']
        posts = [x for x in log if x[0] == 'post']
        links = [x for x in log if x[0] == 'linker']
        chk.count('pre_link_calls', len(pres))
        chk.count('post_link_calls', len(posts))
        chk.expect(sorted(x[1] for x in pres) == sorted(want_pre), 'pre-passes', lambda: 'pre-link passes run %s, declared %s' % (sorted(x[1] for x in pres), sorted(want_pre)), rep)
        chk.expect(sorted(x[1] for x in posts) == sorted(want_post), 'post-passes', lambda: 'post-link passes run %s, declared %s' % (sorted(x[1] for x in posts), sorted(want_post)), rep)
        chk.expect(not [x for x in log if x[0] == 'wrong argument'], 'pass-argument', 'a pass got something else than the assembler', rep)
        for x in pres:
            chk.expect(x[2] == want_raw, 'pre-state', lambda: 'pre-link pass sees %s, expected the unresolved %s' % (hx(x[2]), hx(want_raw)), rep)
        for x in posts:
            chk.expect(x[2] == want_img, 'post-state', lambda: 'post-link pass sees %s, expected the resolved %s' % (hx(x[2]), hx(want_img)), rep)
        order = [x[0] for x in log if x[0] in ('pre', 'post', 'linker')]
        chk.expect(order == sorted(order, key=('pre', 'post', 'linker').index) and len(links) == 1 and links[0][1] == want_img, 'order',
                   lambda: 'order of the link is %s' % order, rep)
        # undefined labels: no post pass, no packaging
        if i % 5 == 0:
            del log[:]
            want_pre2, want_post2 = [], []
            r2 = execute(asm_class, src + '.dd never_defined\n', linker=Recorder(log))
            chk.case((i, 'undefined'))
            chk.expect(not r2.ok and not [x for x in log if x[0] in ('post', 'linker')], 'undefined', lambda: 'undefined label: %s, log %s' % (r2.brief()[:100], [x[0] for x in log]), rep)
        # the same class through its command line entry point
        if i % 9 == 0 and not inst_regs and not tail:
            s, o = os.path.join(tmp.name, 's.s'), os.path.join(tmp.name, 'o.bin')
            with open(s, 'w') as f:
                f.write(src)
            del log[:]
            argv = sys.argv
            sys.argv = ['x', s, o]
            seen = []
            try:
                asm_class.main(pre_link_passes=[lambda a: seen.append('pre')], post_link_passes=[lambda a: (seen.append('post'), a.assembled_bytes.append(0x77))])
            finally:
                sys.argv = argv
            with open(o, 'rb') as f:
                b = f.read()
            chk.case((i, 'main'))
            chk.count('main_runs')
            chk.expect(b == bytes(image) + b'\x77' and seen == ['pre', 'post'], 'main', lambda: 'main with passes gives %s, passes %s' % (hx(b), seen), rep)
            got = sorted(x[1] for x in log if x[0] in ('pre', 'post'))
            chk.expect(got == sorted(t for _, t in plan.passes), 'main-passes', lambda: 'passes run by main: %s, declared %s' % (got, plan.passes), rep)
    # fixed bytes take no operands; opcodes that give None are refused
    class Tiny(Assembler):
        @opcode('may')
        def _may(self, instr):
            return None if len(instr.tokens) > 1 else b'\x01'

        def register_instructions(self):
            self.register_instruction('fix', b'\xAA\xBB')
    for src, want in (('may', b'\1'), ('may x', None), ('fix', b'\xAA\xBB'), ('fix 1', None), ('FIX', b'\xAA\xBB'), ('fix\nmay\nfix', b'\xAA\xBB\1\xAA\xBB')):
        r = execute(Tiny, src)
        chk.case(src)
        chk.expect(r.ok == (want is not None) and (want is None or r.data == want), 'tiny', lambda: '%r gives %s' % (src, r.brief()))
    replaced(chk, cpus)
    # the last registration of a name counts
    for i in range(chk.n(60, 600)):
        seq = [(rng.choice(('K', 'k', 'K2')), rng.choice(('1', '2', '33', 'K', 'k+1'))) for _ in range(rng.randrange(1, 7))]
        final = dict(seq)

        def go(a, o):
            for n, v in seq:
                a.register_define(n, v)
        used = [n for n in final if final[n].isdigit()]
        src = ''.join('.db %s\n' % n for n in used)
        r = execute(Tiny, src, setup=go)
        chk.case((tuple(seq),))
        chk.count('registered_again')
        chk.expect(r.ok and r.data == bytes(int(final[n]) for n in used), 'define-again', lambda: 'after register_define of %s, %r gives %s' % (seq, src, r.brief()), {'registered': seq, 'source': src})
    # names given to register_define are plain names
    for n in ('a-b', 'a b', '(', "x'", '$1'):
        r = execute(Tiny, '', setup=lambda a, o: a.register_define(n, '1'))
        chk.case(n)
        chk.expect(not r.ok, 'define-name', lambda: 'register_define(%r) accepted' % n)
    tmp.cleanup()
    chk.require('custom_calls', 3000)
    chk.require('pre_link_calls', 500)
    chk.require('post_link_calls', 500)
    chk.finish()


BUILT_IN = ['db', 'dw', 'dd', 'byte', 'word', 'fill', 'align', 'org', 'define', 'ram', 'log', 'include', 'incbin', 'export', 'section', 'goto', 'upto', 'repeat']


def replaced(chk, cpus):
    """the last registration of a name counts: directives and opcodes of the framework, of a
    base class or of the same object, registered anew by a derived class or on the object"""
    rng = chk.rng
    for i in range(chk.n(300, 3000)):
        cpu = rng.choice(cpus) if rng.random() < .3 else None
        base = cpu.factory if cpu else Assembler
        sensitive = cpu is None and rng.random() < .3
        names = rng.sample(BUILT_IN, 3) + ['own', 'zz_two']
        ops = ['zz_op', 'zz_nop', 'zz_b']
        log = []

        def handler(tag, kind):
            def f(instr):
                log.append((tag, list(instr.tokens[1:])))
                return bytes([tag]) if kind == 'op' else None
            return f
        plan_d, plan_o = {}, {}
        levels = []
        tag = 0
        for lv in range(rng.randrange(1, 4)):
            regs = []
            for _ in range(rng.randrange(0, 5)):
                tag += 1
                if rng.random() < .6:
                    n = rng.choice(names)
                    regs.append(('d', n if sensitive else rng.choice((n, n.upper(), n.title())), tag))
                    plan_d[n] = tag
                else:
                    n = rng.choice(ops)
                    regs.append(('o', n if sensitive else rng.choice((n, n.upper(), n.title())), tag))
                    plan_o[n] = tag
            levels.append(regs)

        def apply(a, regs):
            for kind, n, t in regs:
                if kind == 'd':
                    a.register_directive(n, handler(t, 'dir'))
                else:
                    a.register_instruction(n, handler(t, 'op') if t % 3 else bytes([t]))
        cls = base
        attrs = {'case_sensitive': sensitive} if cpu is None else {}
        for lv, regs in enumerate(levels[:-1]):
            def make(cls, regs):
                def register_directives(self):
                    cls.register_directives(self)
                    apply(self, [r for r in regs if r[0] == 'd'])

                def register_instructions(self):
                    cls.register_instructions(self)
                    apply(self, [r for r in regs if r[0] == 'o'])
                return type('Level%d' % lv, (cls,), dict(attrs, register_directives=register_directives, register_instructions=register_instructions))
            cls = make(cls, regs)
        lines, want, image = [], [], b''
        for _ in range(rng.randrange(1, 8)):
            if rng.random() < .6 and plan_d:
                n = rng.choice(list(plan_d))
                lines.append('.%s a 5' % (n if sensitive else rng.choice((n, n.upper()))))
                want.append((plan_d[n], ['a', '5']))
            elif plan_o:
                n = rng.choice(list(plan_o))
                t = plan_o[n]
                lines.append((n if sensitive else rng.choice((n, n.upper()))) + (' x' if t % 3 else ''))
                image += bytes([t])
                if t % 3:
                    want.append((t, ['x']))
        src = '\n'.join(lines) + '\n'
        r = execute(cls, src, setup=lambda a, o: apply(a, levels[-1]))
        chk.case((i, src), src, nontrivial=bool(lines))
        chk.count('replaced_names', len(plan_d) + len(plan_o))
        chk.expect(r.ok and r.data == image and log == want, 'replaced', lambda: '%r with %s gives %s and calls %s, expected [%s] and %s' % (src, levels, r.brief(), log, hx(image), want),
                   {'source': src, 'registrations': levels, 'base': cpu.name if cpu else 'Assembler'})


def not_plain(n):
    return not n or n[0] in '.0123456789'
