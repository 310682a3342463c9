"""C12: defines replace whole names from there on."""
import re
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare, Target
from ..toy import make
from ..rich import Rich
from .. import model, gen
from ..layout import lex
from ..cpu import all_cpus
from .c01 import cpu_lines

NAME = re.compile(r'[A-Za-z0-9_.]+')


def subst_line(line, defs, skip):
    """whole names replaced once in the words of a line from word `skip` on; quoted text is not made of names"""
    toks = lex(line)
    out = []
    for i, (k, t) in enumerate(toks):
        if i >= skip and k == 'w':
            t = defs[t] if t in defs else NAME.sub(lambda m: defs.get(m.group(0), m.group(0)), t)
        out.append(t)
    return out[0] + ' ' + ', '.join(out[1:]) if len(out) > 1 else (out[0] if out else '')


def expand(line, defs, macros, sens=False):
    """the lines a line stands for"""
    if line.startswith('.'):
        return [subst_line(line, defs, 1)]
    p = subst_line(line, defs, 0)
    word = p.split(' ')[0]
    word = word if sens else word.upper()
    if word in macros:
        return [subst_line(b, defs, 0) for b in macros[word]]
    return [p]


NAME_IN = re.compile(r'[A-Za-z_][A-Za-z0-9_.]*')
NAMES = ('x', 'X', 'xx', 'x1', 'foo', 'FOO', 'foo.bar', 'foo_bar', '_f', 'bar', 'N', 'Nn', 'reg', 'U', 'U8', 'nop', 'k9', 'lab0', 'a.b', 'ECHO2')
VALUES = ('5', '0x10', '7+1', 'foo', 'bar', 'x', 'xx', 'lab1', 'q', '<lab1', '#3', '(5)', '255', 'N', 'foo+1', 'x*2+N', '<lab1+q', 'x+x', 'bar-N', '-foo', 'lab1+foo.bar', 'foo|x')
SHAPES = ('%s', '%s+1', '1+%s', '#%s', '<%s', '(%s)', '[%s+%s]', '%s*%s', '-%s', '%s-%s', '@%s', '=%s|%s', '{%s}')
NEAR = ('%sx', 'x%s', '%s_', '_%s', '%s.z', '%s2', '3%s')


def main():
    chk = Check('C12', 'random sequences of defines, redefinitions and statements whose operands (plain, composite, in brackets, in quotes, merely '
                'containing a name) use the defined names, labels with defined names included; each program is compared with the one a separate '
                'textual replacer produces, on a toy CPU that emits its operands and on every shipped CPU; non-trivial = a define applies', 2500)
    rng = chk.rng
    tg = targets()
    # assemblers where the letter case of mnemonics, directives and macros counts
    exact = []
    for style, big in (('prefix', True), ('suffix', False), ('plain', False)):
        t = Target(style, big, 0)
        t.cls = make(style, big, 0, case_sensitive=True)
        t.name += '/exact'
        exact.append(t)
    for i in range(chk.n(4600, 46000)):
        t = rng.choice(tg + exact)
        sens = t in exact
        defs = {}
        lines, plain = [], []
        used = 0
        labels = set()
        macros = {}
        for _ in range(rng.randrange(2, 14)):
            r = rng.random()
            if r < .3:
                n, v = rng.choice(NAMES), rng.choice(VALUES)
                if '(' in v:
                    v = '9'
                lines.append('.%s %s %s' % ('define' if sens else rng.choice(('define', 'DEFINE', 'Define')), n, v))
                # the value is itself an operand: earlier defines apply to it once
                w = defs[v] if v in defs else NAME.sub(lambda m: defs.get(m.group(0), m.group(0)), v)
                defs[n] = w
                continue
            if r < .4:
                n = rng.choice(NAMES)
                if n in labels or n in ('lab0', 'lab1', 'lab2') or n.isdigit() or n == 'U8':
                    continue
                labels.add(n)
                lines.append(n + ':')
                plain.append(n + ':')
                continue
            if r < .46:
                # macros under a name that may be (or become) a defined one
                n = rng.choice(NAMES)
                n2 = subst_line('.macro ' + n, defs, 1)[7:]
                if not NAME.fullmatch(n2) or n2[0] in '.0123456789':
                    continue
                body = ['ECHO %s, %d' % (rng.choice(NAMES), rng.randrange(99)) for _k in range(rng.randrange(1, 3))]
                lines += ['.macro ' + n] + body + ['.endmacro']
                macros[n2 if sens else n2.upper()] = body
                # the value at the call counts, not the one where the body was read
                if rng.random() < .5:
                    k = rng.choice(NAMES + tuple(w for w in NAME_IN.findall(' '.join(body)) if w != 'ECHO'))
                    v = rng.choice(('1', '33', 'lab1', 'q'))
                    lines.append('.define %s %s' % (k, v))
                    defs[k] = defs.get(v, v)
                if rng.random() < .6:
                    lines.append(rng.choice((n, n2)))
                    plain += expand(lines[-1], defs, macros, sens)
                    used += 1
                continue
            if r < .76:
                toks = []
                for _k in range(rng.randrange(1, 5)):
                    q = rng.random()
                    if q < .65:
                        s = rng.choice(SHAPES)
                        toks.append(s % tuple(rng.choice(NAMES) for _ in range(s.count('%s'))))
                    elif q < .8:
                        toks.append(rng.choice(NEAR) % rng.choice(NAMES))
                    elif q < .9:
                        toks.append(rng.choice(('"%s"', "'%s'")) % rng.choice((' ', '', '+', ',', ';', ':')).join(rng.choice(NAMES) for _ in range(2)))
                    else:
                        toks.append("'%s'" % rng.choice(('x', 'X', 'N', 'U')))
                line = 'ECHO ' + ', '.join(toks)
            elif r < .86:
                line = rng.choice(('.db %s', '.dw %s', '.dd %s', '.db "%s"', ".db 'x', %s")) % rng.choice(('5', '9', 'k9', 'foo', 'N', 'x'))
            else:
                line = rng.choice(('U8 5', 'U16 lab1', 'U8 9', 'nop', 'NOP', 'U16 lab0', 'R16 lab2'))
            lines.append(line)
            ps = expand(line, defs, macros, sens)
            if [p.replace(' ', '') for p in ps] != [line.replace(' ', '')]:
                used += 1
            plain += ps
        tail = ['.org 64', 'lab0:', 'NOP', 'lab1:', 'NOP', 'lab2:', 'NOP']
        head = tail + ['.org 16'] if rng.random() < .4 else ['.org 16']
        # the trailing labels come after defines: their names are not replaced, the mnemonic is
        end_a = [] if len(head) > 1 else tail
        end_b = [] if len(head) > 1 else [x for l in tail for x in (expand(l, defs, macros, sens) if not l.endswith(':') and not l.startswith('.') else [l])]
        if any(n in defs and not defs[n].isdigit() for n in ('64', '16')):
            continue
        a = '\n'.join(head + lines + end_a) + '\n'
        b = '\n'.join(head + plain + end_b) + '\n'
        ra, rb = execute(t.cls, a), execute(t.cls, b)
        chk.case((t.name, a), a, nontrivial=used > 0)
        chk.count('lines_with_replacement', used)
        rep = lambda: {'target': t.name, 'source': a, 'replaced_by_hand': b, 'observed': ra.brief(), 'expected': rb.brief()}
        if rb.ok:
            chk.expect(ra.ok and ra.data == rb.data, 'toy/bytes', lambda: '%r gives %s, by hand %s' % (a, ra.brief(), rb.brief()), rep)
            if ra.ok:
                la = {k: ra.asm.get_label_absolute_address_by_name(k) for k in rb.asm.labels}
                lb = {k: rb.asm.get_label_absolute_address_by_name(k) for k in rb.asm.labels}
                chk.expect(la == lb and set(ra.asm.labels) == set(rb.asm.labels), 'toy/labels', lambda: '%r: labels %s, by hand %s' % (a, la, lb), rep)
        else:
            chk.count('refused_by_hand_too')
            chk.expect(not ra.ok, 'toy/accepted', lambda: '%r accepted (%s), by hand refused: %s' % (a, ra.brief(), rb.brief()), rep)
    # macros with arguments between chains of defines: the call is replaced once, and the lines it stands for once
    for i in range(chk.n(700, 7000)):
        t = rng.choice(tg + exact)
        chain = ['x%d' % k for k in range(5)]
        defs = {}
        macros = {}
        lines, plain = [], []
        for _ in range(rng.randrange(3, 14)):
            r = rng.random()
            if r < .4:
                k = rng.randrange(4)
                n, v = chain[k], rng.choice((chain[k + 1], chain[k + 1] + '+1', '7', 'q', chain[rng.randrange(5)]))
                lines.append('.define %s %s' % (n, v))
                defs[n] = defs[v] if v in defs else NAME.sub(lambda m: defs.get(m.group(0), m.group(0)), v)
            elif r < .6:
                n = rng.choice(('MA', 'MB'))
                args = rng.sample(('p', 'q', 'x1', 'x3'), rng.randrange(1, 3))
                # (the words of the definition itself are operands, too)
                args2 = [defs[a] if a in defs else a for a in args]
                body = ['ECHO %s' % ', '.join(rng.choice((rng.choice(args2), rng.choice(args2) + '+x2', rng.choice(chain), 'z')) for _k in range(rng.randrange(1, 4)))
                        for _k in range(rng.randrange(1, 3))]
                if any(not NAME.fullmatch(a) or a[0].isdigit() for a in args2) or len(set(args2)) < len(args2):
                    continue
                lines += ['.macro %s %s' % (n, ', '.join(args))] + body + ['.endmacro']
                macros[n] = (args2, body)
            elif macros:
                n = rng.choice(list(macros))
                args, body = macros[n]
                acts = [rng.choice(chain + ['5', 'q', 'x1+x2', '(x0)'[1:-1]]) for _a in args]
                lines.append('%s %s' % (n, ', '.join(acts)))
                once = [defs[a] if a in defs else NAME.sub(lambda m: defs.get(m.group(0), m.group(0)), a) for a in acts]
                binds = dict(zip(args, once))
                for b in body:
                    plain.append(subst_line(subst_line(b, binds, 0), defs, 0))
                chk.count('chained_calls')
            else:
                lines.append('ECHO x0, x1+x2')
                plain.append(subst_line(lines[-1], defs, 0))
        a, b = '\n'.join(lines) + '\n', '\n'.join(plain) + '\n'
        ra, rb = execute(t.cls, a), execute(t.cls, b)
        chk.case((t.name, a), a)
        chk.expect(rb.ok and ra.ok and ra.data == rb.data, 'chain', lambda: '%r gives %s, by hand %s' % (a, ra.brief(), rb.brief()),
                   {'target': t.name, 'source': a, 'replaced_by_hand': b, 'observed': ra.brief(), 'expected': rb.brief()})
    chk.require('chained_calls', 800)
    # numeric programs against the reference interpreter
    for i in range(chk.n(800, 8000)):
        t = rng.choice(tg)
        R = Rich(rng, t.num, '/nonexistent', features=('define', 'macro', 'repeat', 'org'), probes=False)
        lines = R.block(rng.randrange(4, 25))
        src = '\n'.join(lines)
        chk.case(src, src, nontrivial='define-use' in R.kinds)
        compare(chk, t, R.flat, 'model', src)
    # unused defines and near misses never change a program
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        for i in range(chk.n(60, 600)):
            items = cpu_lines(rng, cpu, rng.randrange(1, 8))
            pre = cpu.prelude.split('\n') if cpu.prelude else []
            body = [l for l, _ in items]
            words = [w for l in body for w in NAME.findall(l)]
            extra = []
            for _ in range(rng.randrange(1, 5)):
                w = rng.choice(words)
                near = rng.choice((w + '_', '_' + w, w + 'q', 'q' + w, w[:-1], w[1:], w + '.', 'unused'))
                if near and near not in words and not near.isspace():
                    extra.append('.define %s %s' % (near, rng.choice(('99', 'zz', '0'))))
            a = '\n'.join(pre + extra + body)
            b = '\n'.join(pre + body)
            ra, rb = execute(cpu.factory, a), execute(cpu.factory, b)
            chk.case((cpu.name, a), a)
            chk.count('near_misses', len(extra))
            rep = lambda: {'cpu': cpu.name, 'source': a, 'observed': ra.brief(), 'expected': rb.brief()}
            chk.expect(rb.ok == ra.ok and ra.data == rb.data, 'cpu-unaffected/' + cpu.name, lambda: '%s: %r gives %s, without the defines %s' % (cpu.name, a[:400], ra.brief(), rb.brief()), rep)
            # a real operand or mnemonic behind a name
            head = body[0].split(' ')[0]
            w = rng.choice(words)
            fresh = 'zq_def'
            lines = []
            for l in body:
                l2 = NAME.sub(lambda m: fresh if m.group(0) == w else m.group(0), l)
                # keep lines where the name stands alone only
                back = subst_line(l2, {fresh: w}, 0)
                lines.append(l2 if back.replace(' ', '').replace(',', '') == l.replace(' ', '').replace(',', '') else l)
            a = '\n'.join(pre + ['.define %s %s' % (fresh, w)] + lines)
            if w.startswith('.'):
                continue
            ra = execute(cpu.factory, a)
            chk.case((cpu.name, a), a)
            chk.expect(rb.ok == ra.ok and ra.data == rb.data, 'cpu-replaced/' + cpu.name, lambda: '%s: %r gives %s, expected %s' % (cpu.name, a[:400], ra.brief(), rb.brief()), rep)
    for src in ('.define', '.define x', '.define x 1 2', '.define x 1, 2'):
        for t in tg:
            r = execute(t.cls, src)
            chk.case((t.name, src))
            chk.expect(not r.ok, 'accepted', '%r accepted' % src, {'source': src})
    scale.many_defines(chk, tg)
    chk.require('lines_with_replacement', 1000)
    chk.finish()
