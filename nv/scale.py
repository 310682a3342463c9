"""Programs far beyond the sizes people try by hand: long names, lines, lists,
blocks, files, images above 64 KB, and the same text used in many roles."""
import os
from .harness import execute, hx
from .core import compare
from .toy import FIELDS, FIELD
from . import model, gen
from .model import lit, lab, expr, Bad

LIMITS = (8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300)
BIG = (511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097)


def many(rng, big=.15):
    return rng.choice(BIG if rng.random() < big else LIMITS)


def stem(rng, n):
    """a name of n characters"""
    w = ''
    while len(w) < n:
        w += rng.choice(('name', 'x', '_', 'LoNg', 'a.b', 'q7'))
    return ('n' + w)[:n]


def judge(chk, t, src, want, mech, info=''):
    r = execute(t.cls, src)
    chk.case((t.name, mech, src[:3000], len(src)), None)
    chk.count('large_programs')
    chk.expect(r.ok and r.data == want, mech, lambda: '%s: %r... (%d characters, %s) gives %s, expected [%s]' % (
        t.name, src[:200], len(src), info, r.brief()[:300], hx(want)[:300]), lambda: {'target': t.name, 'source': src[:100000], 'observed': r.brief()[:5000]})
    return r


def order(t):
    return 'big' if t.big else 'little'


def texts_in_roles(chk, tg):
    """C02: the same spellings in fields of different widths and signs, in one program"""
    rng = chk.rng
    for _ in range(chk.n(500, 6000)):
        t = rng.choice(tg)
        vals = [rng.choice((0, 1, 9, 10, 100, 127, 128, 129, 200, 255, 256, 1000, 32767, 32768, 60000, 65535, 65536, -1, -2, -100, -127, -128, -129, -32768))
                for _ in range(rng.randrange(1, 4))]
        atoms = [lit(v) if v < 0 else lit(v, *(t.num.spell(rng, v)[:2])) for v in vals]
        p, misfits = [], []
        for _ in range(rng.randrange(4, 24)):
            a = rng.choice(atoms)
            if rng.random() < .4:
                w = rng.choice((1, 2, 4))
                s = ('data', w, [a])
                fits = (8 * w, False)
            else:
                f = rng.choice(FIELDS)
                if a[1] % f.alignment:
                    continue
                s = ('ins', f.name, a)
                fits = (f.bits_size, f.signed or f.relative is not None)
            try:
                model.literal_field(a, *fits, {})
                p.append(s)
            except Bad:
                misfits.append(s)
        if misfits and rng.random() < .5:
            # (a value that does not fit is refused wherever it was accepted before)
            p.append(rng.choice(misfits))
            chk.count('misfits_after_fits')
        chk.case((t.name, model.source(p)), model.source(p))
        chk.count('texts_in_several_roles')
        compare(chk, t, p, 'roles')


def long_expressions(chk, tg):
    """C03"""
    rng = chk.rng
    for _ in range(chk.n(150, 1500)):
        t = rng.choice(tg)
        names = [stem(rng, rng.choice((3, 8, 40, 130))) + str(k) for k in range(3)]
        base = rng.choice((lab(names[0]), lit(rng.randrange(1 << 16))))
        ops = []
        v = 0
        for _k in range(rng.choice((6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 40, 64, 65, 100))):
            op = rng.choice('+-+-+-|&*')
            k = rng.choice((1, 2, 3, 9, 255, 4096)) if op in '+-' else rng.choice((1, 2, 5)) if op == '*' else rng.choice((1, 0x10, 0xFFFFFF)) if op == '|' else 0xFFFFFFF
            a = lit(k, *t.num.spell(rng, k)[:2]) if rng.random() < .8 else lab(rng.choice(names))
            ops.append((op, a))
        e = expr(base, '', ops)
        p = [('org', 0x123, None), ('label', names[0]), ('org', 0x45, None), ('label', names[1]), ('org', 0x2000, None), ('label', names[2]),
             ('data', 4, [e]), ('ins', 'U32', e)]
        labels = {names[0]: 0x123, names[1]: 0x45, names[2]: 0x2000}
        try:
            v = model.eval_expr(e, labels)
        except Bad:
            continue
        if not 0 <= v < 1 << 31:
            continue
        chk.case((t.name, model.source(p)), None)
        chk.count('long_expressions')
        compare(chk, t, p, 'long')
    for _ in range(chk.n(60, 600)):
        t = rng.choice(tg)
        pre = '>' * rng.choice((0, 0, 1, 2, 3, 4, 9)) + '<' * rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 12))
        v = rng.randrange(1 << 32)
        e = expr(lab('far') if rng.random() < .5 else lit(v, *t.num.spell(rng, v)[:2]), pre)
        if not 0 <= model.apply_prefix(pre, v) < 1 << 32:
            continue
        p = [('org', v, None), ('label', 'far'), ('org', 0, None), ('data', 4, [e])]
        chk.case((t.name, pre, v), None)
        compare(chk, t, p, 'long-prefix')


def long_data(chk, tg):
    """C04"""
    rng = chk.rng
    for _ in range(chk.n(120, 1200)):
        t = rng.choice(tg)
        w = rng.choice((1, 2, 4))
        n = many(rng)
        items = []
        for k in range(n):
            v = rng.randrange(1 << (8 * w))
            items.append(lit(v, *t.num.spell(rng, v)[:2]) if w == 1 or rng.random() < .9 else lab('here'))
        p = [('org', 0x77, None), ('label', 'here'), ('data', w, items), ('data', 1, [lit(0xEE)])]
        chk.case((t.name, 'operands', w, n), None)
        chk.count('long_lists')
        compare(chk, t, p, 'long/operands')
        n = many(rng, .4)
        s = gen.rand_string(rng, 1, 'abc') + bytes(rng.choice(b'abcdefgh XYZ;,:()') for _k in range(n - 1))
        q = rng.choice('"\'')
        for w, enc in ((1, None), (2, 'utf-16'), (4, 'utf-32')):
            blob = s if enc is None else ('\ufeff' + s.decode()).encode(enc + ('-be' if t.big else '-le'))
            judge(chk, t, '.%s %s%s%s\nNOP' % (model.DATA_NAMES[w][0], q, s.decode(), q), blob + b'\xEA', 'long/text', '%d characters' % n)
    for n in (65535, 65536, 65537, 70001):
        t = rng.choice(tg)
        judge(chk, t, '.db "%s", 1\n.dw end\nend:' % ('z' * n), b'z' * n + b'\1' + ((n + 3) % 65536).to_bytes(2, order(t)) if n + 3 < 65536 else b'', 'long/text64k') if n + 3 < 65536 else \
            judge(chk, t, '.db "%s", 1\n.dd end\nend:' % ('z' * n), b'z' * n + b'\1' + (n + 5).to_bytes(4, order(t)), 'long/text64k')
        judge(chk, t, '.fill %d, 7\n.dd end\nend:' % n, b'\7' * n + (n + 4).to_bytes(4, order(t)), 'long/fill64k')


def big_images(chk, tg):
    """C05 / C06: references on both sides of every 64 KB boundary; many labels with long names"""
    rng = chk.rng
    for _ in range(chk.n(14, 100)):
        t = rng.choice(tg)
        step = rng.choice((256, 4096, 32768, 65536, 65536, 65536, 131072, 1 << 20))
        names = [stem(rng, rng.choice((1, 20, 31, 32, 63, 64, 127, 255, 256))) for _k in range(3)]
        names = [n + str(k) for k, n in enumerate(names)] + [names[0] + '0z', names[1] + '1z']
        p = [('org', rng.choice((0, 0, 0x1000, 0x12345)), None)]
        pos = 0
        for k in range(5):
            body = [('label', names[k]), ('probe',), ('data', 4, [lab(names[4 - k])]), ('ins', 'U32', lab(names[(k + 2) % 5])), ('ins', 'R32', lab(names[(k + 1) % 5])), ('probe',)]
            p += body
            p.append(('fill', step - 14, rng.choice((0, 0xEE))))
        chk.case((t.name, step, tuple(names)), None)
        chk.count('big_images')
        compare(chk, t, p, 'big-image', trace=True)
    for _ in range(chk.n(10, 80)):
        t = rng.choice(tg)
        n = rng.choice((255, 256, 257, 300, 1000, 1025))
        s = stem(rng, rng.choice((1, 12, 32, 64, 128, 255)))
        names = ['%s%d' % (s, k) for k in range(n)]
        p = []
        for k, nm in enumerate(names):
            p += [('label', nm), ('data', 2, [lab(names[rng.randrange(n)])])]
            if k % 50 == 0:
                p.append(('probe',))
        chk.case((t.name, n, s), None)
        chk.count('many_labels', n)
        compare(chk, t, p, 'many-labels', trace=True)


def far_branches(chk, tg):
    """C07: one target, branches 64 KB and more apart"""
    rng = chk.rng
    for _ in range(chk.n(60, 600)):
        t = rng.choice(tg)
        k = rng.randrange(0, 64) * 4
        p = [('org', 0x20000, None), ('label', 't')]
        starts = [s * 0x10000 + k for s in rng.sample((0, 1, 2, 3, 5, 16, 256, 0x1000), 4)]
        if rng.random() < .5:
            p = []
        for s in starts:
            p += [('org', s, None), ('ins', 'R32', lab('t')), ('ins', 'R32', expr(lab('t'), '', [('+', lit(4))]))]
            d = 0x20000 - s - 4
            if -32768 <= d - 9 and d < 32768:
                p.append(('ins', 'R16', lab('t')))
        if p[0][1] != 0x20000 or p[1][0] != 'label':
            p += [('org', 0x20000, None), ('label', 't')]
        chk.case((t.name, model.source(p)), None)
        chk.count('far_branches')
        compare(chk, t, p, 'far')


def long_lines(chk, tg):
    """C01: lines of thousands of words, deep bracket nests, long comments, runs of blank lines"""
    rng = chk.rng
    for _ in range(chk.n(80, 800)):
        t = rng.choice(tg)
        n = many(rng, .3)
        vals = [rng.randrange(256) for _k in range(n)]
        sep = rng.choice((',', ' ', ', ', '\t', ' , '))
        pad = rng.choice(('', ' ' * many(rng), '\t' * many(rng), '\n' * many(rng), '\r\n' * many(rng), ';' + 'comment ' * many(rng) + '\n'))
        tail = rng.choice(('', ' ;' + "it's a \"long\" comment " * many(rng), ' ' * many(rng)))
        judge(chk, t, pad + '.db ' + sep.join(map(str, vals)) + tail + rng.choice(('\n', '\r\n')) + pad + 'NOP' + tail, bytes(vals) + b'\xEA', 'long-line')
        words = [rng.choice(('a', 'bb', 'c-d', '(', ')', '[', ']', '#5', stem(rng, 20), stem(rng, 250))) for _k in range(n)]
        blob = b'\xEC' + b''.join(bytes([len(w)]) + w.encode() for w in words) + b'\xCE'
        text = ''
        for w in words:
            text += rng.choice((' ', ',', '\t', ' , ')) + w
        judge(chk, t, 'ECHO' + (text if text[0] in ' \t' else ' ' + text), blob, 'long-words')


def big_macros(chk, tg):
    """C11"""
    rng = chk.rng
    for _ in range(chk.n(60, 600)):
        t = rng.choice(tg)
        n = rng.choice((5, 8, 9, 10, 11, 12, 16, 17, 26, 32, 33, 64, 100))
        s = rng.choice(('a', 'arg', 'p_', stem(rng, 30), stem(rng, 200)))
        args = ['%s%d' % (s, k) for k in range(n)]
        m = many(rng)
        body, picks = [], []
        for _k in range(m):
            i = rng.randrange(n)
            body.append(rng.choice(('U8 %s', 'U16 %s+256', 'ECHO %s')) % args[i])
            picks.append((body[-1].split(' ')[0], i))
        name = stem(rng, rng.choice((2, 30, 100, 255)))
        src = '.macro %s %s\n' % (name, rng.choice((' ', ', ')).join(args)) + '\n'.join(body) + '\n.endmacro\n'
        want = b''
        for call in range(rng.randrange(1, 4)):
            acts = [rng.randrange(200) for _k in range(n)]
            src += name + ' ' + ', '.join(map(str, acts)) + '\n'
            for k, i in picks:
                want += {'U8': bytes([0xA1, acts[i]]), 'U16': b'\xA2' + (acts[i] + 256).to_bytes(2, order(t)),
                         'ECHO': b'\xEC' + bytes([len(str(acts[i]))]) + str(acts[i]).encode() + b'\xCE'}[k]
        judge(chk, t, src, want, 'big-macro', '%d operands, %d lines' % (n, m))
    for _ in range(chk.n(8, 60)):
        t = rng.choice(tg)
        n = many(rng)
        names = ['m%d' % k for k in range(n)]
        src = ''.join('.macro %s x\nU16 x+%d\n.endmacro\n' % (m, k) for k, m in enumerate(names))
        calls = rng.sample(range(n), min(n, 60)) + [0, n - 1]
        src += ''.join('%s 1\n' % names[k].upper() for k in calls)
        judge(chk, t, src, b''.join(b'\xA2' + (k + 1).to_bytes(2, order(t)) for k in calls), 'many-macros', '%d' % n)
    for _ in range(chk.n(8, 60)):
        # calls of calls of calls
        t = rng.choice(tg)
        n = rng.choice((5, 10, 16, 17, 33, 60))
        src = '.macro c0 x\nU8 x\n.endmacro\n' + ''.join('.macro c%d x\nc%d x+1\n.endmacro\n' % (k, k - 1) for k in range(1, n + 1)) + 'c%d 3\nc%d 5\n' % (n, n)
        judge(chk, t, src, bytes([0xA1, 3 + n, 0xA1, 5 + n]), 'deep-macro', '%d' % n)


def many_defines(chk, tg):
    """C12"""
    rng = chk.rng
    for _ in range(chk.n(40, 400)):
        t = rng.choice(tg)
        n = many(rng)
        s = rng.choice(('K', 'def_', stem(rng, 30), stem(rng, 200)))
        vals = [rng.choice(('%d' % rng.randrange(60000), '+'.join(['1'] * many(rng, 0)))) for _k in range(n)]
        vals[0] = '+'.join(['1'] * 400)
        src = ''.join('.define %s%d %s\n' % (s, k, v) for k, v in enumerate(vals))
        use = rng.sample(range(n), min(n, 30)) + [0, n - 1]
        src += ''.join('.dw %s%d\n' % (s, k) for k in use)
        src += '.dw ' + ', '.join('%s%d' % (s, k) for k in use) + '\n'
        want = b''.join(sum(map(int, vals[k].split('+'))).to_bytes(2, order(t)) for k in use)
        judge(chk, t, src, want * 2, 'many-defines', '%d names' % n)
        words = [stem(rng, 6) if rng.random() < .7 else 'swap' for _k in range(many(rng))]
        src = '.define swap %s\nECHO ' % stem(rng, 100) + ' '.join(words) + '\n'
        real = src.split('\n')[0].split(' ')[2]
        want = b'\xEC' + b''.join(bytes([len(w)]) + w.encode() for w in [real if w == 'swap' else w for w in words]) + b'\xCE'
        judge(chk, t, src, want, 'long-line-defines')


def big_blocks(chk, tg):
    """C13: blocks above 64 KB and counts above 64 K"""
    rng = chk.rng
    for _ in range(chk.n(10, 80)):
        t = rng.choice(tg)
        pad = rng.choice((250, 4090, 32760, 65530, 65536, 65537, 70000, 131072))
        n = rng.choice((2, 3, 4, 5))
        pre = rng.choice((0, 3, 65536))
        body = [('data', 4, [lab('top')]), ('fill', pad, 0), ('ins', 'R32', lab('bottom')), ('ins', 'U32', lab('bottom'))]
        p = [('org', 0, None), ('fill', pre, 1), ('label', 'top')] + body * n + [('label', 'bottom'), ('ins', 'NOP')]
        src = '.org 0\n.fill %d, 1\ntop:\n.repeat %d\n.dd top\n.fill %d, 0\nR32 bottom\nU32 bottom\n.endrepeat\nbottom: NOP\n' % (pre, n, pad)
        chk.case((t.name, src), None)
        chk.count('big_blocks')
        compare(chk, t, p, 'big-block', src)
    for n in (255, 256, 257, 300, 513):
        # many copies of a long body
        t = rng.choice(tg)
        pad = rng.choice((251, 252, 253, 300, 1020))
        body = [('data', 4, [lab('top')]), ('fill', pad, 0), ('ram', 1), ('ins', 'U32', lab('bottom'))]
        p = [('org', 0, None), ('label', 'top')] + body * n + [('label', 'bottom'), ('ins', 'NOP')]
        src = '.org 0\ntop:\n.repeat %d\n.dd top\n.fill %d, 0\n.ram 1\nU32 bottom\n.endrepeat\nbottom: NOP\n' % (n, pad)
        chk.case((t.name, src), None)
        chk.count('many_long_copies')
        compare(chk, t, p, 'many-long-copies', src)
    for n in (1000, 4097, 65535, 65536, 65537, 70000):
        t = rng.choice(tg)
        judge(chk, t, '.org 0\n.repeat %d\n.db 3\n.endrepeat\n.dd end\nend:' % n, b'\3' * n + (n + 4).to_bytes(4, order(t)), 'big-count')
    for _ in range(chk.n(8, 80)):
        t = rng.choice(tg)
        k, n = many(rng), rng.choice((2, 3, 17))
        names = ['w%d' % j for j in range(7)]
        body = [('data', 2, [lab(rng.choice(names))]) for _k in range(k)]
        p = [('label', x) for x in names[:3]] + body * n + [('label', x) for x in names[3:]]
        src = '\n'.join([model.render(s) for s in p[:3]] + ['.repeat %d' % n] + [model.render(s) for s in body] + ['.endrepeat'] + [model.render(s) for s in p[-4:]])
        chk.case((t.name, src), None)
        compare(chk, t, p, 'many-references', src)


def big_files(chk, tg, d):
    """C14"""
    rng = chk.rng
    p = os.path.join(d, 'big file')
    for n in (1000, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 100000, 300001, 1048575, 1048577, 2100000):
        t = rng.choice(tg)
        b = rng.randbytes(n)
        with open(p, 'wb') as f:
            f.write(b)
        judge(chk, t, '.incbin "%s"\n.dd end\nend:' % p, b + (n + 4).to_bytes(4, order(t)), 'big-incbin')
    for _ in range(chk.n(24, 200)):
        t = rng.choice(tg)
        w = rng.choice((1, 2))
        rows = [[rng.randrange(1 << (8 * w)) for _c in range(many(rng))] for _r in range(rng.choice((1, 2, 20, 65, 257)) if rng.random() < .5 else 1)]
        with open(p, 'w') as f:
            f.write('\n'.join(','.join(map(str, r)) for r in rows))
        blob = b''.join(v.to_bytes(w, 'little') for r in rows for v in r)
        judge(chk, t, '.%s "%s"\nNOP' % ('inccsv' if w == 1 else 'inccsv_le16', p), blob + b'\xEA', 'big-csv')
        vals = [rng.randrange(256) for _k in range(many(rng, .5))]
        with open(p, 'w') as f:
            f.write('{"data": %s}' % vals)
        judge(chk, t, '.incjson "%s" "data"\nNOP' % p, bytes(vals) + b'\xEA', 'big-json')
        # a long source written in another file, with text outside ASCII
        word = rng.choice(('é', 'żółw', '日本語', '😀', 'ß', 'naïve café'))
        lines = ['.dw "%s"' % word, '.dd "%s"' % word, '; %s' % word, 'ECHO %s' % word] + ['.db %d' % rng.randrange(256) for _k in range(many(rng))]
        rng.shuffle(lines)
        text = '\n'.join(lines) + '\n'
        with open(p, 'w', encoding='utf-8') as f:
            f.write(text)
        a = execute(t.cls, text)
        if not chk.expect(a.ok, 'big-source/refused', lambda: '%r... refused: %s' % (text[:200], a.brief())):
            continue
        judge(chk, t, 'NOP\n.include "%s"\nNOP' % p, b'\xEA' + a.data + b'\xEA', 'big-include')
    # a chain of includes
    for n in (5, 6, 7, 8, 9, 10, 16, 17, 33):
        t = rng.choice(tg)
        names = [os.path.join(d, 'chain%d' % k) for k in range(n)]
        want = b''
        for k, name in enumerate(names):
            with open(name, 'w') as f:
                f.write('.db %d\n' % k + ('.include "%s"\n' % names[k + 1] if k + 1 < n else '') + '.dw in%d\nin%d: .db %d' % (k, k, k + 100))
        at = n
        want = bytes(range(n))
        for k in reversed(range(n)):
            at += 2
            want += at.to_bytes(2, order(t)) + bytes([k + 100])
            at += 1
        end = rng.choice((None, n * 4 + 40))
        judge(chk, t, ('.org 0 %d\n' % end if end else '.org 0\n') + '.include "%s"\n' % names[0],
              want + (bytes([t.fill]) * (end + 1 - len(want)) if end else b''), 'include-chain', '%d deep' % n)
        for name in names:
            os.unlink(name)
    os.unlink(p)


def far_fills(chk, tg):
    """C10: fill, align, goto, upto and ram over more than 64 KB, inside and outside of sections"""
    rng = chk.rng
    for _ in range(chk.n(60, 500)):
        t = rng.choice(tg)
        org = rng.choice((0, 0, 0x100, 0x8000, 0x12345, 0x7FFFFF00))
        how = rng.choice(('', 'section', 'section at'))
        end = rng.random() < .3
        room = 1 << 21
        lines = {'': ['.org %d' % org], 'section': ['.org %d' % org, '.section one RX'], 'section at': ['.section one RX %d' % org]}[how]
        if how == '' and end:
            lines = ['.org %d %d' % (org, org + room - 1)]
        else:
            end = False
        img = bytearray()
        cnt = 0
        labels = []
        for k in range(rng.randrange(1, 5)):
            v = rng.choice((None, 0, 7, 255))
            f = t.fill if v is None else v
            n = rng.choice((1, 255, 256, 4096, 65534, 65535, 65536, 65537, 70000, 131072, 200000))
            what = rng.choice(('fill', 'goto', 'upto', 'align', 'ram'))
            if what == 'fill':
                lines.append('.fill %d' % n)
            elif what == 'goto':
                lines.append('.goto %d' % (org + cnt + n))
            elif what == 'upto':
                lines.append('.upto %d' % (cnt + n))
            elif what == 'align':
                a = rng.choice((256, 65536, 131072, 0x18000))
                n = -(org + cnt) % a
                lines.append('.align %d' % a)
            else:
                if end:
                    continue
                lines.append('.ram %d' % n)
                cnt += n
                n = None
            if n is not None:
                if v is not None and what != 'align':
                    lines[-1] += ' %d' % v
                elif what == 'align':
                    f = t.fill
                img += bytes([f]) * n
                cnt += n
            lines.append('at%d: .dd at%d' % (k, k))
            img += (org + cnt).to_bytes(4, order(t))
            cnt += 4
        if end:
            img += bytes([t.fill]) * (room - cnt)
        src = '\n'.join(lines)
        judge(chk, t, src, bytes(img), 'far-fill', src)
