"""C11: macro calls equal their bodies written by hand."""
import re
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare, Target
from ..toy import make
from ..rich import Rich, gen_case
from .. import model, gen
from ..cpu import all_cpus
from .c01 import cpu_lines
from ..forms import reg_combos, fill_operands, spell_number


NAME = re.compile(r'[A-Za-z0-9_.]+')


def subst(text, binds):
    """whole names only, all at once"""
    return NAME.sub(lambda m: binds.get(m.group(0), m.group(0)), text)


ARGSETS = (('a', 'b', 'c'), ('x', 'xx', 'x_x'), ('n', 'n1', '1n'), ('dst', 'src', 'len'), ('A', 'a', 'aA'), ('arg', 'arg.0', 'arg_0'), ('r0', 'r1', 'r10'), ('_', '__', '_1'))
SHAPES = ('%s', '#%s', '%s+1', '1+%s', '-%s', '<%s', '>>%s', '(%s)', '[%s]', '(%s+%s)', '%s*%s', '%s|%s&%s', '#%s/2', '%s%%', '@%s', 'zz+%s', '%s-%s+%s', '{%s}', '=%s')
NEAR = ('%sz', 'z%s', '_%s', '%s_', '%s.b', '%s1', '9%s')


def echo_lines(rng, args, depth_macros, n):
    """random ECHO lines over the arguments"""
    out = []
    for _ in range(n):
        toks = []
        for _k in range(rng.randrange(1, 5)):
            r = rng.random()
            if not args or r < .15:
                toks.append(rng.choice(('q', '7', '#9', 'foo.bar', '(k)')))
            elif r < .8:
                s = rng.choice(SHAPES)
                toks.append(s.replace('%%', '\0') % tuple(rng.choice(args) for _ in range(s.replace('%%', '').count('%s'))) if s.replace('%%', '').count('%s') else s)
                toks[-1] = toks[-1].replace('\0', '%')
            else:
                toks.append(rng.choice(NEAR) % rng.choice(args))
        out.append('ECHO ' + ', '.join(toks))
    return out


def hand(rng, macros, name, actuals, depth=0, key=str.upper):
    """body lines with the arguments written in, nested calls expanded"""
    args, body = macros[key(name)]
    binds = dict(zip(args, actuals))
    out = []
    for l in body:
        head, _, rest = l.partition(' ')
        l2 = subst(l, binds)
        h2 = key(l2.split(' ')[0])
        if h2 in macros and depth < 6:
            ops = [o for o in re.split(r'[ ,]+', l2.partition(' ')[2]) if o]
            out += hand(rng, macros, h2, ops, depth + 1, key)
        else:
            out.append(l2)
    return out


def main():
    chk = Check('C11', 'random sets of macros (0..3 arguments with similar and overlapping names, composite operands, nested calls, redefinitions, any letter '
                'case) called repeatedly with actual operands that are numbers, labels, expressions and names of other arguments; each program '
                'compared with the same program with every call written out by a separate textual expander, on a toy CPU whose ECHO instruction '
                'emits its operands and on every shipped CPU; non-trivial = at least one call of a macro with a body', 2500)
    rng = chk.rng
    tg = targets()
    exact = []
    for style, big in (('prefix', True), ('suffix', False), ('plain', False)):
        t = Target(style, big, 0)
        t.cls = make(style, big, 0, case_sensitive=True)
        t.name += '/exact'
        exact.append(t)
    for i in range(chk.n(3400, 34000)):
        t = rng.choice(tg + exact)
        sens = t in exact
        key = str if sens else str.upper
        cased = (lambda n: n) if sens else (lambda n: gen_case(rng, n))
        macros = {}
        lines, plain = [], []
        labels = ['lab%d' % k for k in range(3)]
        calls = 0
        for step in range(rng.randrange(2, 9)):
            r = rng.random()
            if r < .45 or not macros:
                fresh = not macros or rng.random() < .75
                if fresh:
                    name = rng.choice(('mac', 'PUSHALL', 'Copy', 'm.w', 'nop2')) + str(len(macros))
                    if sens and macros and rng.random() < .3:
                        name = rng.choice(list(macros)).swapcase()      # another macro
                    if rng.random() < .15:
                        name = rng.choice(('HLT3', 'S8', 'S16'))        # instead of an instruction from here on
                        chk.count('macros_named_like_instructions')
                if fresh and key(name) not in macros:
                    nargs = rng.randrange(0, 4)
                else:
                    name = name if fresh else rng.choice(list(macros))
                    nargs = len(macros[key(name)][0])
                args = list(rng.choice(ARGSETS)[:nargs])
                if any(a.upper() in macros or a.upper() in ('ECHO', 'U8', 'U16', 'U32', 'NOP', 'R16', 'R8') for a in args):
                    continue
                body = []
                for _ in range(rng.randrange(0, 5)):
                    r2 = rng.random()
                    inner = [m for m in macros if m != key(name) and not uses(macros, m, key(name), key=key)]
                    if r2 < .55:
                        body += echo_lines(rng, args, macros, 1)
                    elif r2 < .7 and inner:
                        m = rng.choice(inner)
                        ia = [rng.choice(args) if args and rng.random() < .7 else rng.choice(('5', 'k', '0x1F', 'lab0+1', 'x')) for _ in macros[m][0]]
                        body.append(cased(m) + (' ' + ', '.join(ia) if ia else ''))
                    elif args and r2 < .85:
                        body.append(rng.choice(('U32 %s', 'U16 %s+1', 'U16 %s')) % rng.choice(args) if False else 'ECHO %s' % rng.choice(args))
                    else:
                        body.append(rng.choice(('NOP', 'U16 lab1', 'R16 lab0', 'U8 7', 'R32 lab2', 'U32 lab2+4')))
                lines += ['.macro ' + ' '.join([cased(name)] + args)] + body + ['.endmacro']
                macros[key(name)] = (args, body)
            else:
                m = rng.choice(list(macros))
                acts = []
                for _ in macros[m][0]:
                    acts.append(rng.choice(('1', '0x1F', 'lab0', 'lab1+2', '<lab2', 'a', 'b', 'x', 'xx', 'src', 'dst', 'n', 'arg', 'r1', 'q*2', '#3', '-1', "'c'", '"s t"', 'A')))
                acts = [a if not (a.startswith(('"', "'")) and macro_composes(macros, m)) else 'w' for a in acts]
                nest = any(key(l.split(' ')[0]) in macros for l in macros[m][1])
                if nest:
                    acts = [a if ' ' not in a else 'w' for a in acts]
                call = cased(m) + (' ' + rng.choice((', ', ' ')).join(acts) if acts else '')
                lines.append(call)
                plain += hand(rng, macros, m, acts, key=key)
                calls += 1
            if rng.random() < .15:
                # a define counts for the calls after it, wherever the macro was written
                w = rng.choice(('q', 'k', 'foo', 'zz', 'x1'))
                # (a define names another one only as text)
                v = rng.choice(('k', 'foo', 'x1', 'zz')) if w in ('foo', 'zz') and rng.random() < .5 else str(rng.randrange(10, 99))
                lines.append('.define %s %s' % (w, v))
                plain.append(lines[-1])
                chk.count('defines_between')
            if rng.random() < .3:
                l = rng.choice(('NOP', 'NOP', 'HLT3', 'S8 5'))
                w = l.split(' ')[0]
                if w in macros and len(macros[w][0]) <= l.count(' '):
                    plain += hand(rng, macros, w, l.split(' ')[1:], key=key)
                    lines.append(l)
                elif w not in macros:
                    lines.append(l)
                    plain.append(l)
        tail = ['.org 0x40' , 'lab0:', 'NOP', 'lab1:', 'NOP', 'lab2:', 'NOP'] if t.style != 'x' else []
        tail[0] = '.org 64'
        first = rng.random() < .5
        base = ['.org 16']
        a = '\n'.join((tail + base if first else base) + lines + ([] if first else tail)) + '\n'
        b = '\n'.join((tail + base if first else base) + plain + ([] if first else tail)) + '\n'
        ra, rb = execute(t.cls, a), execute(t.cls, b)
        chk.case((t.name, a), a, nontrivial=calls > 0)
        chk.count('macro_calls', calls)
        judge(chk, 'toy', t.name, a, b, ra, rb)
    # data-model programs: macro bodies with numeric operands against the reference interpreter
    for i in range(chk.n(800, 8000)):
        t = rng.choice(tg)
        R = Rich(rng, t.num, '/nonexistent', features=('define', 'macro', 'repeat', 'org'), probes=True)
        lines = R.block(rng.randrange(4, 20))
        for k in R.kinds:
            chk.see('constructs', k)
        src = '\n'.join(lines)
        chk.case(src, src, nontrivial='macro-call' in R.kinds)
        compare(chk, t, R.flat, 'model', src, trace=True)
    # shipped CPUs: operands of real instructions as macro arguments
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        for i in range(chk.n(50, 500)):
            items = cpu_lines(rng, cpu, rng.randrange(1, 5))
            pre = cpu.prelude.split('\n') if cpu.prelude else []
            body, acts, args = [], [], []
            for l, _b in items:
                words = [w for w in NAME.findall(l.partition(' ')[2])]
                l2 = l
                if words and rng.random() < .8:
                    w = rng.choice(words)
                    k = len(args)
                    arg = 'zqarg%d' % k
                    head, _, rest = l.partition(' ')
                    n = NAME.sub(lambda m: arg if m.group(0) == w else m.group(0), rest)
                    # the argument must stand as a name of its own
                    if subst(n, {arg: w}) == rest:
                        l2 = head + ' ' + n
                        args.append(arg)
                        acts.append(w)
                body.append(l2)
            reps = rng.randrange(1, 4)
            a = '\n'.join(pre + ['.macro DoIt ' + ' '.join(args)] + body + ['.endmacro'] + ['doit ' + ' '.join(acts)] * reps)
            b = '\n'.join(pre + [l for l, _ in items] * reps)
            ra, rb = execute(cpu.factory, a), execute(cpu.factory, b)
            chk.case((cpu.name, a), a)
            judge(chk, 'cpu', cpu.name, a, b, ra, rb)
    scale.big_macros(chk, tg)
    shadowing(chk, tg, exact)
    whole_lines(chk, tg, exact)
    faults(chk, tg)
    chk.require('shadowed_names', 400)
    chk.require('whole_line_arguments', 300)
    chk.require('macro_calls', 1000)
    chk.require('macros_named_like_instructions', 100)
    chk.finish()


def shadowing(chk, tg, exact):
    """arguments named like macros, instructions or their own macro, put where a mnemonic stands"""
    rng = chk.rng
    for i in range(chk.n(700, 7000)):
        t = rng.choice(tg + exact)
        key = str if t in exact else str.upper
        macros = {key('INNER'): (['v'], ['ECHO in, v']), key('Other'): (['v'], ['ECHO ot, v', 'NOP'])}
        lines = ['.macro INNER v', 'ECHO in, v', '.endmacro', '.macro Other v', 'ECHO ot, v', 'NOP', '.endmacro']
        plain = []
        args = rng.sample(('INNER', 'inner', 'OTHER', 'Other', 'OUTER', 'Outer', 'ECHO', 'echo', 'U8', 'op'), rng.randrange(1, 4))
        body = []
        for _ in range(rng.randrange(1, 5)):
            r = rng.random()
            head = rng.choice(args + ['INNER', 'Other', 'ECHO', 'inner', 'other'])
            if head.upper() == 'OUTER' and head not in args:
                continue
            body.append('%s %s' % (head, rng.choice(('7', 'w', rng.choice(args), rng.choice(args) + '+1'))))
        lines += [' '.join(['.macro Outer'] + args)] + body + ['.endmacro']
        macros[key('Outer')] = (args, body)
        late = False
        for _ in range(rng.randrange(1, 5)):
            acts = [rng.choice(('ECHO', 'U8', 'U16', 'INNER', 'other', 'Other', 'echo')) if rng.random() < .8 else rng.choice(('5', 'w')) for _a in args]
            extra = [rng.choice(('9', 'INNER', 'ECHO'))] if rng.random() < .15 else []
            lines.append('Outer ' + ', '.join(acts + extra))
            plain += hand(rng, macros, 'Outer', acts, key=key)
            if not late and rng.random() < .3:
                # a macro under the name of an argument, written after the one that takes it
                late = True
                n = rng.choice(args)
                if key(n) not in macros and key(n) not in ('ECHO', 'U8'):
                    lines += ['.macro ' + n + ' v', 'ECHO late, v', '.endmacro']
                    macros[key(n)] = (['v'], ['ECHO late, v'])
        if any(len(l) > 4000 for l in plain) or len(plain) > 400:
            continue
        chk.count('shadowed_names', len(plain))
        a, b = '\n'.join(lines) + '\nw:\n', '\n'.join(plain) + '\nw:\n'
        ra, rb = execute(t.cls, a), execute(t.cls, b)
        chk.case((t.name, a), a)
        judge(chk, 'shadowing', t.name, a, b, ra, rb)


def whole_lines(chk, tg, exact):
    """arguments that are a whole statement of the body: instructions and macros without operands"""
    rng = chk.rng
    for i in range(chk.n(250, 2500)):
        t = rng.choice(tg + exact)
        key = str if t in exact else str.upper
        macros = {key('MARK'): ([], ['ECHO mark', 'NOP']), key('Pair'): ([], ['NOP', 'HLT3'])}
        lines = ['.macro MARK', 'ECHO mark', 'NOP', '.endmacro', '.macro Pair', 'NOP', 'HLT3', '.endmacro']
        args = list(rng.choice((('op',), ('op', 'op2'), ('a', 'b', 'c'), ('x', 'xx'), ('NOP',), ('MARK', 'op'), ('Pair', 'NOP'), ('ECHO', 'do.it'))))
        body = []
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r < .6:
                body.append(rng.choice(args))
            elif r < .8:
                body.append(rng.choice(('NOP', 'HLT3', 'MARK', 'Pair')))
            else:
                body.append('U8 %d' % rng.randrange(256))
        lines += ['.macro Run ' + ' '.join(args)] + body + ['.endmacro']
        macros[key('Run')] = (args, body)
        plain = []
        for _ in range(rng.randrange(1, 4)):
            acts = [rng.choice(('NOP', 'nop', 'HLT3', 'MARK', 'Pair', 'ECHO') if key is not str else ('NOP', 'HLT3', 'MARK', 'Pair', 'ECHO')) for _a in args]
            lines.append('Run ' + rng.choice((' ', ', ')).join(acts))
            plain += hand(rng, macros, 'Run', acts, key=key)
        chk.count('whole_line_arguments', len(plain))
        a, b = '\n'.join(lines), '\n'.join(plain)
        ra, rb = execute(t.cls, a), execute(t.cls, b)
        chk.case((t.name, a), a)
        judge(chk, 'whole-line', t.name, a, b, ra, rb)


def uses(macros, m, target, seen=None, key=str.upper):
    seen = seen or set()
    if m in seen:
        return False
    seen.add(m)
    for l in macros[m][1]:
        h = key(l.split(' ')[0])
        if h == target or (h in macros and uses(macros, h, target, seen, key)):
            return True
    return False


def macro_composes(macros, m):
    return True


def judge(chk, kind, name, a, b, ra, rb):
    rep = lambda: {'target': name, 'source': a, 'written_out': b, 'observed': ra.brief(), 'expected': rb.brief()}
    if rb.ok:
        chk.expect(ra.ok and ra.data == rb.data, kind + '/bytes', lambda: '%s: %r gives %s; written out: %s' % (name, a[:500], ra.brief(), rb.brief()), rep)
        if ra.ok:
            la = {k: ra.asm.get_label_absolute_address_by_name(k) for k in ra.asm.labels}
            lb = {k: rb.asm.get_label_absolute_address_by_name(k) for k in rb.asm.labels}
            chk.expect(la == lb, kind + '/labels', lambda: '%s: labels %s instead of %s in %r' % (name, la, lb, a[:400]), rep)
    else:
        chk.count('bad_bodies')
        chk.expect(not ra.ok, kind + '/accepted', lambda: '%s: %r accepted (%s) although the written out body is refused: %s' % (name, a[:500], ra.brief(), rb.brief()), rep)


def faults(chk, tg):
    for t in tg[:3]:
        for src, why in (('.macro m\n.macro k\n.endmacro\n.endmacro', 'nested definition'), ('.macro m\nfoo:\n.endmacro', 'label in a body'),
                         ('.endmacro', 'end without start'), ('.macro m\nNOP', 'no end'), ('.macro m a\nU8 a\n.endmacro\nm', 'missing operand'),
                         ('.macro m a b\nU8 a\n.endmacro\nm 1', 'missing operand'), ('.macro m\nBOGUS\n.endmacro\nm', 'faulty body'),
                         ('.macro m a\nU8 a\n.endmacro\nm 256', 'faulty operand'), ('.macro m a\nU8 a\n.endmacro\nm zork', 'undefined label'),
                         ('m 1\n.macro m a\nU8 a\n.endmacro', 'call before definition'), ('.macro', 'no name'),
                         ('.macro m\nNOP\n.endmacro\n.endmacro', 'two ends'), ('NOP\n.macro m\nNOP\nx: NOP\n.endmacro', 'label in a body')):
            r = execute(t.cls, src)
            chk.case((t.name, src), src)
            chk.expect(not r.ok, 'fault/' + why.replace(' ', '-'), lambda: '%r (%s) accepted: %s' % (src, why, r.brief()), {'source': src})
        # recording emits nothing, even when the body is faulty or the macro never called
        for src in ('.macro m\nBOGUS 1,2\nU8 999\n.endmacro', '.macro m a\nU8 a\nNOP\n.endmacro', '.macro NOP2\n.endmacro\nNOP2\nnop2'):
            r = execute(t.cls, src)
            chk.case((t.name, src))
            chk.expect(r.ok and r.data == b'', 'recording', lambda: '%r gives %s' % (src, r.brief()), {'source': src})
        # a failed call does not change the macro for later calls
        asm = t.cls()
        asm.assemble('.macro m a b\nU8 a\nU8 b\n.endmacro')
        for bad in ('m 300 1', 'm 1', 'm 1 999', 'm 1 999 3', 'm 300 1 9 m', 'm 300 1' + ' 2' * 40, 'm "x" 999 b'):
            try:
                asm.assemble(bad)
                ok = True
            except Exception:
                ok = False
            chk.expect(not ok, 'fault/call', '%r accepted' % bad)
            at = len(asm.assembled_bytes)
            err = None
            try:
                asm.assemble('m 17 34')
            except Exception as e:
                err = e
            got = bytes(asm.assembled_bytes[at:])
            chk.case((t.name, bad, 'again'))
            chk.expect(err is None and got == b'\xA1\x11\xA1\x22', 'after-failure', 'after the failed call %r, m 17 34 gives %s %r' % (bad, hx(got), err),
                       {'source': ['.macro m a b\nU8 a\nU8 b\n.endmacro', bad, 'm 17 34']})
