"""C03: operand expressions."""
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare
from ..toy import FIELD
from ..forms import collect_labels, LiteralDriver, reg_combos, fill_operands
from ..cpu import all_cpus
from .. import model, gen
from ..model import lit, lab, expr, Bad


def safe(e, labels, start=0):
    """value, or None when the expression divides a negative number or by zero (not defined by the property)"""
    vo = model.value_of_atom(labels)
    if e[0] != 'x':
        return model.eval_expr(e, labels, start)
    _, pre, base, ops = e
    v = vo(base) - (start if base[0] == 'l' else 0)
    v = model.apply_prefix(pre, v)
    for op, a in ops:
        k = 1 if a is None else vo(a)
        if op == '/' and (v < 0 or k <= 0):
            return None
        v = model.apply_ops(v, [(op, a)], vo)
    return v


def chain(rng, num, names, n=5):
    out = []
    for _ in range(rng.randrange(0, n + 1)):
        op = rng.choice('+-*/&|+-')
        r = rng.random()
        if r < .15:
            a = None
        elif r < .4 and names:
            a = lab(rng.choice(names))
        else:
            v = rng.choice((0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 100, 255, 256, 4095, 65535, rng.randrange(1 << 20)))
            if op == '*' and v > 300:
                v = 3
            if rng.random() < .12:
                # operands far wider than any field, up to 64 bits
                v = rng.choice((1 << 32, (1 << 33) - 1, 1 << 33, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 256, rng.randrange(1 << 33, 1 << 64)))
                op = rng.choice('&&/+')
            t, dec, _ = num.spell(rng, v)
            a = lit(v, t, dec)
            if v >= 1 << 32 and op == '+':
                k = rng.randrange(4)
                out.append((op, a))
                op, a = '-', lit(v - k)
        out.append((op, a))
    return out


def label_expression(rng, t, rel, n):
    """(text, {label: address}) of an expression on labels that has the value t"""
    a, b = 'la_%d' % n, 'lb_%d' % n
    k = rng.choice((1, 2, 3, 8, 0x10, 0xFF, 0x100, 0x1234))
    kinds = ['id+', 'pre-'] + (['plus', 'both'] if t >= k else [])
    if not rel:
        kinds += ['mul', 'and', 'or', 'low', 'high', 'div', 'sub']
    kind = rng.choice(kinds)
    if kind == 'id+':
        return a + '+%d-%d' % (k, k), {a: t}
    if kind == 'pre-':
        return a + '-%d' % k, {a: t + k}
    if kind == 'plus':
        return a + '+%d' % k, {a: t - k}
    if kind == 'both':
        return a + '+' + b, {a: t - k, b: k}
    if kind == 'sub':
        return a + '-' + b, {a: t + k, b: k}
    if kind == 'mul':
        f = next((f for f in (2, 3, 4, 5, 7, 1) if t % f == 0))
        return a + '*%d' % f, {a: t // f}
    if kind == 'div':
        return a + '/%d' % k, {a: t * k + rng.randrange(k)}
    if kind == 'and':
        return a + '&%d' % ((1 << t.bit_length()) - 1), {a: t | 1 << t.bit_length() + rng.randrange(3)}
    if kind == 'or':
        m = t & rng.randrange(1 << 16)
        return a + '|%d' % m, {a: t & ~m}
    if kind == 'low':
        c = max(1, (t.bit_length() + 7) // 8)
        return '<' * c + a, {a: t | rng.randrange(1, 200) << 8 * c}
    c = rng.randrange(1, 3)
    return '>' * c + a, {a: t << 8 * c | rng.randrange(1 << 8 * c)}


def cpu_expressions(chk, cpu, values, combos, limit):
    """expressions on labels in every operand of a shipped CPU that takes labels, defined before, after or around it"""
    rng = chk.rng
    good, _ = collect_labels(chk, cpu, None, values=values, combos=combos)
    good = [g for g in good if 'zp' not in g[4].tags]
    rng.shuffle(good)
    if len(good) > limit:
        first = {}
        for g in good:
            first.setdefault(g[4].id, g)
        good = list(first.values()) + good[:limit]
    pre = cpu.prelude + '\n' if cpu.prelude else ''

    def source(part, mode):
        before, use, after = [], [], []
        for (line, pc, t, want, form), (text, labels) in part:
            for i, (name, v) in enumerate(labels.items()):
                d = '.org %d\n%s:' % (v, name)
                (before if mode == 0 or mode == 2 and i == 0 else after).append(d)
            use.append('.org %d\n%s' % (pc, line.replace('@', text)))
        return pre + '\n'.join(before + use + after) + '\n'

    for i in range(0, len(good), 40):
        part = []
        for n, g in enumerate(good[i:i + 40]):
            rel = any(s.kind == 'rel' for s in g[4].slots)
            part.append((g, label_expression(rng, g[2], rel, n)))
        for mode in (0, 1, 2):
            want = b''.join(g[3] for g, _ in part)
            r = execute(cpu.factory, source(part, mode))
            chk.count('cpu_expressions', len(part))
            for g, e in part:
                chk.case((cpu.name, g[0], g[2], e, mode))
                chk.see('cpu_forms', (cpu.name, g[4].id))
            if r.ok and r.data == want:
                chk.count('oracle_comparisons')
                continue
            for one in part:
                src = source([one], mode)
                r = execute(cpu.factory, src)
                chk.expect(r.ok and r.data == one[0][3], 'cpu-expr/%s/%s' % (cpu.name, one[0][4].id), lambda: '%s: %r: expected [%s], %s' % (
                    cpu.name, src, hx(one[0][3]), r.brief()), {'cpu': cpu.name, 'source': src})


def literal_expression(rng, v):
    """text of a literal expression of value v (which fits as a decimal)"""
    k = rng.choice((1, 2, 7, 16, 100, 255))
    out = ['%d-%d' % (v + k, k)]
    if v >= 0:
        c = max(1, (v.bit_length() + 7) // 8)
        out += ['%d/%d' % (v * k + k - 1, k), '%d|%d' % (v & 0x55555555555, v & ~0x55555555555), '<' * c + '%d' % (v | 3 << 8 * c), '>%d' % (v << 8 | 0x5A),
                '%d-%d+%d' % (v + k + 1, k + 2, 1), '%d&%d' % (v | 1 << v.bit_length() + 1, (1 << v.bit_length()) - 1)]
    if v >= k:
        out += ['%d+%d' % (v - k, k), '%d+%d*1' % (v - k, k)]
    if v > 0:
        out += ['%d+' % (v - 1)]
    return rng.choice(out)


def cpu_literal_expressions(chk, cpu, values, per_form):
    rng = chk.rng
    d = LiteralDriver(chk, cpu, 'cpu-lit')
    for form in cpu.forms:
        slots = [s for s in form.slots if s.kind != 'reg']
        if not slots or form.known is not None or any(not s.lit for s in slots) or '-{' in form.template.replace(' ', ''):
            # (a sign written in front of an expression belongs to its leading operand)
            continue
        rc = reg_combos(form, rng, 4)
        for _ in range(per_form):
            nums = []
            for s in slots:
                if s.kind == 'imm':
                    vs = [v for v in s.values(rng, values) if s.legal(v, True)]
                else:
                    vs = [v for v in (s.lo // s.align * s.align, 0, s.align, 5 * s.align) if s.lo <= v <= s.hi and (s.lit_ok is None or s.lit_ok(v)) and (v or not s.nonzero)]
                v = rng.choice(vs)
                nums.append((literal_expression(rng, v), v))
            texts, vals = fill_operands(form, rng.choice(rc), nums)
            line = form.text(texts)
            chk.case((cpu.name, line), line)
            chk.count('cpu_literal_expressions')
            d.accept(form, line, form.encode(vals), vals)


def main():
    chk = Check('C03', 'random expressions (leading literal or label, < and > prefixes, up to five chained operations over literals and labels, '
                'missing operands) in data directives of each width, in one-operand fields and in sizes of directives; labels defined before and '
                'after; non-trivial = expression with a prefix or at least one operation', 3000)
    rng = chk.rng
    tg = targets()
    addresses = (0, 1, 2, 7, 0x10, 0x7F, 0x80, 0xFF, 0x100, 0x1234, 0x8000, 0xFFFF, 0x12345, 0x00ABCDEF, 0x7FFFFFFF)
    todo = chk.n(9000, 90000)
    done = tries = 0
    while done < todo and tries < todo * 6:
        tries += 1
        t = rng.choice(tg)
        nl = rng.randrange(1, 4)
        names = ['l%d' % i + rng.choice(('', '_x', '.y', 'A')) for i in range(nl)]
        vals = {n: rng.choice(addresses) if rng.random() < .7 else rng.randrange(1 << 16) for n in names}
        from_label = rng.random() < .6
        if from_label:
            base = lab(rng.choice(names))
        else:
            v = rng.choice((0, 1, 5, 100, 0xFF, 0x1234, 0xABCDEF, 0x12345678, rng.randrange(1 << 32)))
            s, dec, _ = t.num.spell(rng, v)
            base = lit(v, s, dec)
            if rng.random() < .15:
                v = -rng.randrange(1, 200)
                base = lit(v)
        pre = rng.choice(('', '', '', '>', '>>', '>>>', '<', '<<', '<<<', '<<<<', '>>>>>'))
        if base[0] == 'n' and base[1] < 0:
            pre = ''
        ops = chain(rng, t.num, names)
        e = expr(base, pre, ops)
        v = safe(e, vals)
        if v is None:
            continue
        # choose a place the value fits most of the time
        places = [('data', w) for w in (1, 2, 4) if v < (1 << (8 * w)) and v >= -(1 << (8 * w - 1))]
        places += [('ins', n) for n in ('U8', 'U16', 'U32', 'I5') if -(1 << (FIELD[n].bits_size - 1)) <= v < (1 << FIELD[n].bits_size)]
        if not places or rng.random() < .05:
            places = [('data', rng.choice((1, 2, 4)))]
        kind, w = rng.choice(places)
        st = ('data', w, [e]) if kind == 'data' else ('ins', w, e)
        if kind == 'data' and rng.random() < .3:
            st = ('data', w, [lit(7), e, lit(9)])
        st_probe = [st]
        defs = []
        for n in names:
            defs += [('org', vals[n], None), ('label', n)]
        here = rng.choice((0, 0x10, 0x4000))
        use = [('org', here, None)] + st_probe + [('ins', 'NOP')]
        if not from_label:
            # literal-led expressions are evaluated on the spot: labels must be known
            if model.labels_in(e):
                orders = ['after-defs']
            else:
                orders = ['after-defs', 'before-defs']
        else:
            orders = ['after-defs', 'before-defs', 'split']
        done += 1
        chk.count('expressions')
        chk.see('shapes', (bool(from_label), pre, ''.join(o for o, _ in ops)))
        for o in orders:
            if o == 'after-defs':
                p = defs + use
            elif o == 'before-defs':
                p = use + defs
            else:
                k = 2 * rng.randrange(0, len(names) + 1)
                p = defs[:k] + use + defs[k:]
            chk.case(model.source(p), model.source(p), nontrivial=bool(pre or ops))
            compare(chk, t, p, 'expr/' + ('label' if from_label else 'literal'))
        # relative fields: only sums keep their meaning
        if from_label and rng.random() < .3:
            rops = [(op, a) for op, a in ops if op in '+-' and (a is None or a[0] == 'n')]
            e2 = expr(base, '', rops)
            f = rng.choice(('R32', 'R16'))
            p = [('org', rng.choice((0, 0x100, 0x1000)), None), ('ins', 'NOP'), ('ins', f, e2)] + defs
            if rng.random() < .5:
                p = defs + p[:3]
            chk.case(model.source(p), None)
            compare(chk, t, p, 'expr/relative')
        # an expression naming a label that never gets defined
        if rng.random() < .15:
            missing = lab(rng.choice(('nowhere', 'l0x', 'L0', 'l')))
            ops3 = list(ops)
            where = rng.randrange(len(ops3) + 1)
            if from_label and rng.random() < .4:
                e3 = expr(missing, pre, ops3)
            else:
                ops3.insert(where, (rng.choice('+-|&'), missing))
                e3 = expr(base, pre, ops3)
            st3 = ('data', 4, [e3])
            p = defs + [st3] if rng.random() < .5 else [st3] + defs
            src = model.source(p)
            r = execute(t.cls, src)
            chk.case(src)
            chk.count('undefined_labels')
            chk.expect(not r.ok, 'undefined', lambda: '%r accepted: %s' % (src, r.brief()), {'source': src})
    # literal expressions as sizes and addresses of directives
    for i in range(chk.n(600, 6000)):
        t = rng.choice(tg)
        v = rng.randrange(1, 300)
        s, dec, _ = t.num.spell(rng, v)
        e = expr(lit(v, s, dec), '', [(op, a) for op, a in chain(rng, t.num, [], 3)])
        val = safe(e, {})
        if val is None or not 1 <= val <= 2000:
            continue
        k = rng.choice(('fill', 'org', 'ram', 'goto', 'upto', 'repeat', 'align'))
        prog = {'fill': [('fill', val, None)], 'org': [('org', val, None)], 'ram': [('ram', val)], 'goto': [('goto', val, None)],
                'upto': [('upto', val, None)], 'repeat': [('ins', 'NOP')] * val, 'align': [('ins', 'NOP'), ('align', val)]}[k] + [('label', 'z')]
        src = {'repeat': '.repeat %s\nNOP\n.endrepeat\nz:\n', 'align': 'NOP\n.align %s\nz:\n'}.get(k, '.' + k + ' %s\nz:\n') % model.text_of(e)
        chk.case(src, src)
        compare(chk, t, prog, 'expr/directive', src)
    # worked examples with hand-computed values
    for text, want in (('2+3*4', 20), ('10-2-3', 5), ('100/7/2', 7), ('1|2&3', 3), ('7&12|1', 5), ('5+', 6), ('5+-3', 3), ('8/*2', 16), ('9--', 7), ('-5+8', 3),
                       ('>4660', 0x12), ('<4660', 0x34), ('<4660+1', 0x35), ('>4660*2', 0x24), ('>>1193046', 0x12), ('2*3+4*5', 50)):
        r = execute(tg[0].cls, '.dw %s' % text)
        chk.case(text, text)
        chk.expect(r.ok and r.data == want.to_bytes(2, 'little'), 'worked/' + text, '.dw %s gives %s, expected %d' % (text, r.brief(), want), {'source': text})
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        cpu_literal_expressions(chk, cpu, 2, chk.n(1, 10))
        cpu_expressions(chk, cpu, chk.n(1, 4), chk.n(1, 4), chk.n(400, 4000))
    scale.long_expressions(chk, tg)
    chk.require('cpu_forms', 1000)
    chk.require('expressions', todo // 2)
    chk.finish()
