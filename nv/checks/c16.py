"""C16: faulty source always fails, and the error names the faulty statement."""
import os
import re
import shutil
import tempfile
from ..harness import Check, execute, hx
from ..core import targets
from .. import model, gen
from ..model import render
from ..toy import FIELDS
from ..cpu import all_cpus
from .c01 import cpu_lines
from ..layout import flip

# in front of every faulty toy program: one macro, one label, one define
HEAD = ['.macro pair p q', 'U8 p', 'U16 q', '.endmacro', '.macro inner v', 'NOP', 'U8 v', 'NOP', '.endmacro', 'taken: NOP', '.define known 3']
HEAD_SOURCE = 'taken: NOP\n'


def toy_faults(rng):
    """(text of the statement, kind, named): named = the error must carry line and file"""
    f = rng.choice(FIELDS)
    big = 1 << f.bits_size
    out = [
        ('BOGUS', 'unknown mnemonic', True), ('BOGUS a, b', 'unknown mnemonic', True), ('nopp', 'unknown mnemonic', True), ('U8.w x', 'unknown mnemonic', True),
        ('NOP x', 'operands of a fixed opcode', True), ('HLT3 (x)', 'operands of a fixed opcode', True),
        (f.name, 'no operand', True), (f.name + ' taken, taken', 'two operands', True), ('TWO taken', 'one operand of two', True), ('TWO', 'no operands', True),
        ('%s %d' % (f.name, big), 'out of range', True), ('%s -%d' % (f.name, big), 'out of range', True), ('%s 0x%x' % (f.name, big), 'out of range', True),
        ('U8 0x-1' if rng.random() < .5 else 'U16 0x', 'malformed number', True),
        ('pair x', 'missing macro argument', True), ('pair', 'missing macro argument', True), ('PAIR taken', 'missing macro argument', True),
        ('U16 5+nowhere', 'unknown name in an expression', True), ('U16 5/0', 'division by zero', True),
        ('U16 "quoted"', 'string operand', 'link'),
        ('taken:', 'duplicate label', True), ('taken: NOP', 'duplicate label', True), ('a-b:', 'malformed label', True), ('a b:', 'malformed label', True),
        ('NOP late:', 'malformed label', True), ('"q":', 'malformed label', True), ('q+x:', 'malformed label', True), ('a/b:', 'malformed label', True),
        ('#x:', 'malformed label', True), ('(x):', 'malformed label', True), (':', 'malformed label', True), (': NOP', 'malformed label', True),
        ('a$:', 'malformed label', True), ('0x10:', 'numeric label', True), ('77777:', 'numeric label', True), ('taken :', 'malformed label', True),
        ('.bogus', 'unknown directive', True), ('.bogus x, y', 'unknown directive', True), ('.db2 x', 'unknown directive', True), ('..db x', 'unknown directive', True),
        ('.endmacro', 'end without macro', False), ('.endrepeat', 'end without repeat', False),
        ('.define x', 'define', False), ('.define x y z', 'define', False), ('.repeat', 'repeat without count', False), ('.repeat x', 'repeat of a name', False),
        ('.repeat 0', 'repeat zero times', False), ('.repeat -7', 'repeat a negative count', False),
        ('.org', 'origin', False), ('.org taken', 'origin', False), ('.org 7 x', 'origin', False), ('.org 900 899', 'origin', False), ('.fill', 'fill', False),
        ('.fill x', 'fill', False), ('.fill 7 x', 'fill', False), ('.fill 7 256', 'fill', False), ('.align', 'align', False), ('.align x', 'align', False),
        ('.align 0', 'align', False), ('.goto', 'goto', False), ('.goto x', 'goto', False), ('.upto x', 'upto', False), ('.ram', 'ram', False), ('.ram x', 'ram', False),
        ('.ram 0', 'ram', False), ('.ram -2', 'ram', False), ('.log maybe', 'log', False), ('.include', 'include', False), ('.include "/nowhere/x.s"', 'include', False),
        ('.incbin "/nowhere/x.bin"', 'incbin', False), ('.inccsv "/nowhere/x.csv"', 'inccsv', False), ('.incjson "/nowhere/x.json" "k"', 'incjson', False),
        ('.section x', 'section', False), ('.section x Q', 'section', False), ('.section zz RW taken', 'section', False), ('.section zz RW nowhere', 'section', False), ('.org 7 6', 'origin', False), ('.org 5 1', 'origin', False), ('.export', 'export', False), ('.macro', 'macro without name', False),
        ('.db taken:"x"', 'colon before a string', 'link'), (".db 1, taken:'x'", 'colon before a character', 'link'), ('ECHO2 taken:"x"', 'colon before a string', True),
        ('.db 256', 'out of range', False), ('.dw 65536', 'out of range', False), ('.dd -2147483649', 'out of range', False), ('.db_to_ascii 256', 'out of range', False),
    ]
    for form in COUNTED:
        # one operand too many, or one missing
        out.append((form + rng.choice((' 1', ', 2', ' "x"', ' taken')), 'extra directive operand', False))
        out.append((form.split()[0], 'missing directive operand', False))
    out += [('.fill 0 taken', 'fill', False), ('.goto 9999 taken', 'goto', False), ('.goto 9999 256', 'goto', False), ('.upto 9999 taken', 'upto', False), ('.upto 9999 256', 'upto', False)]
    # files with contents that are no bytes
    for name in ('names', 'wide', 'empty'):
        out.append(('.inccsv "%s/%s.csv"' % (FILES, name), 'bad csv', False))
        out.append(('.incjson "%s/bad.json" "%s"' % (FILES, name), 'bad json', False))
    out += [('.inccsv_le16 "%s/names.csv"' % FILES, 'bad csv', False), ('.inccsv_le16 "%s/wide.csv"' % FILES, 'bad csv', False), ('.incjson "%s/bad.json" "none"' % FILES, 'bad json', False)]
    return out


FILES = tempfile.mkdtemp(prefix='c16')
COUNTED = ['.org 900 999', '.fill 7 9', '.goto 9999 7', '.upto 9999 7', '.align 4', '.ram 3', '.repeat 2', '.define x 3', '.export zz', '.section zz RW 999',
           '.include "%s/ok.inc"' % FILES, '.incbin "%s/ok.bin"' % FILES, '.inccsv "%s/ok.csv"' % FILES, '.inccsv_le16 "%s/ok.csv"' % FILES, '.incjson "%s/ok.json" "k"' % FILES]


def write_files():
    for name, text in (('ok.inc', 'NOP\n'), ('deep.inc', '\n\nNOP\n.include "%s/deep2.inc"\nNOP' % FILES), ('deep2.inc', '\n.include "%s/ok.inc"\n\n\n.include "%s/ok.inc"' % (FILES, FILES)), ('ok.bin', 'abc'), ('ok.csv', '1,2\n3,4\n'), ('ok.json', '{"k": [1, 2]}'), ('names.csv', '1,2\n3,taken\n'),
                       ('wide.csv', '1,2\n3,65536\n'), ('empty.csv', '1,,2\n'), ('bad.json', '{"names": [1, "taken"], "wide": [1, 256], "empty": [1, ""], "k": [1]}')):
        with open(os.path.join(FILES, name), 'w') as f:
            f.write(text)


# text over several lines counts its lines
TALL = ['.db "a\nb"', '.db "\n\n\n"', '.db "x;\n\\"y\n"', ".db 'p\nq'", '.db 1, "top\n", 2', '.db "a\\\nb"', ".db 'a\\\nb', '\n'"]
FAULT_LINES = ['BOGUS', '.bogus', '.db 256', 'a-b:', '.endmacro', '.endrepeat', '.org 9 3', 'NOP NOP', '.dw nowhere_at_all', '.fill', '.log maybe', '.define x',
               'NOP late:', '.repeat 0', '.dd 1+nowhere']
OPEN = ['.db "never closed', ".db 'x", 'U8 \'a', '.db "a\\"', ".db '\\'", '.include "x']


def word(rng):
    return rng.choice('abcdefghijklmnopqrstuvwxyzQWERTYZ_') + ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLM0123456789__') for _ in range(rng.choice((2, 3, 5, 8, 12))))


def wordy(rng, num):
    """-> (statement, kind, lines in front of it)"""
    k = rng.randrange(7)
    w = word(rng) + '_zz'
    if k == 0:
        return w + rng.choice(('', ' 1', ' %s, 2' % word(rng), ' (x)', ' "t"', ' taken')), 'unknown mnemonic', []
    if k == 1:
        return '.' + w + rng.choice(('', ' 1', ' %s, 2' % word(rng), ' "t"', ' taken')), 'unknown directive', []
    if k == 2:
        j = rng.randrange(len(w) + 1)
        return w[:j] + rng.choice('!@#^&*+-/|<>=~`?$%\xe9\u4e2d') + w[j:] + ':' + rng.choice(('', ' NOP')), 'malformed label', []
    if k == 3:
        v = rng.randrange(1 << rng.choice((4, 8, 16, 32)))
        ways = [o[0] for o in num.spellings(v, chars=False)]
        ways = [x for x in ways if re.fullmatch(r'[\w.]+', x)]
        return rng.choice(ways) + ':', 'numeric label', []
    if k == 4:
        n = rng.randrange(2, 6)
        args = ['%s%d' % (word(rng), i) for i in range(n)]
        m = [rng.choice((str(rng.randrange(256)), 'taken', 'known', word(rng), "'c'", '<taken', 'taken+1')) for _ in range(rng.randrange(n))]
        return flip(rng, w) + ' ' + ', '.join(m), 'missing macro argument', ['.macro %s %s' % (w, rng.choice((' ', ', ')).join(args)), 'U8 ' + args[0], '.endmacro']
    if k == 5:
        return w + ':' + rng.choice(('', ' NOP')), 'duplicate label', [rng.choice(('%s:', '%s: NOP', '.org 4096\n%s:')) % w]
    return w + ':' + rng.choice(('', ' NOP')), 'label in macro', ['.macro %s' % word(rng), 'NOP']


def messy(rng, lines, eol):
    """joins lines with blank lines and comments between them; returns the text
    and, for every line, the number of the line it ends up on"""
    text, where, n = '', [], 1

    def end():
        nonlocal n, text
        text += eol
        n += 1
    for l in lines:
        while rng.random() < .3:
            text += rng.choice(('', '   ', '\t', '; note', ';', '  ; a:b "c" .db', "; it's", '; \\'))
            end()
        n += l.count('\n')
        where.append(n)
        text += rng.choice(('', '', '  ', '\t')) + l + rng.choice(('', '', ' ', ' ; tail', '\t;x:y', " ; don't"))
        end()
    return text, where


def names_line(text, n):
    return re.search(r'(?<![0-9A-Za-z_.$])%d(?![0-9A-Za-z_])' % n, text) is not None


def main():
    chk = Check('C16', 'valid programs of the toy CPU and of every shipped CPU with one faulty statement put at a random place (unknown mnemonics and '
                'directives, operands without a form, out of range values, bad macro calls, faults inside macro bodies, duplicate and malformed labels, misused block '
                'directives, quotes left open, undefined labels), as text, as a file and inside included files, with blank lines, comments, LF and CRLF; every '
                'program is non-trivial', 3000)
    rng = chk.rng
    tg = targets()
    tmp = tempfile.TemporaryDirectory()
    d = tmp.name
    write_files()

    mids = [os.path.join(d, 'mid%s.inc' % c) for c in 'abcdefghijkl']

    def one(cls, name, prefix, fault, suffix, kind, named, line_of_fault=None, setup=None, tag='toy'):
        """prefix, fault, suffix: lists of lines; the fault must be reported"""
        eol = rng.choice(('\n', '\n', '\r\n'))
        # keep the number of the faulty line away from the numbers in the statement
        pad = rng.choice((0, 0, 3, 40, 95, 250))
        if rng.random() < .03:
            pad = rng.choice((990, 1020, 4090, 8190, 9990, 9999, 10000, 12345, 32760, 65530, 70001, 99990, 131070))
            chk.count('far_lines')
        text, where = messy(rng, prefix + fault + suffix, eol)
        text = eol * pad + text
        k = len(prefix) if line_of_fault is None else line_of_fault
        line = pad + where[k]
        mode = rng.choice(('text', 'named text', 'file', 'include', 'include2', 'include2'))
        fname = os.path.join(d, rng.choice(('main.s', 'a b.asm', 'prog.inc')))
        extra = 0
        src_prefix = '\n'.join(prefix) + '\n'
        main_text = text
        # a source before it, under another name
        other = os.path.join(d, 'before_it.s') if rng.random() < .25 else None
        if other:
            how = rng.choice(('file', 'named', 'include'))
            with open(other, 'w') as f:
                f.write('; nothing\n.define q_other 1\n')
            chk.count('sources_before')
        want_name = None
        if mode != 'text':
            want_name = fname
        if mode in ('file', 'include', 'include2'):
            with open(fname, 'w', newline='') as f:
                f.write(text)
        if mode.startswith('include'):
            main_text = '\n; top\n.include "%s"\n' % fname
            if mode == 'include2':
                for q in mids[:rng.choice((1, 1, 2, 3, 4, 5, 8, 12))]:
                    with open(q, 'w') as f:
                        f.write('\n\n\n' + main_text)
                    main_text = '.include "%s"\n' % q

        def create():
            a = cls()
            if setup:
                setup(a)
            if other:
                if how == 'file':
                    a.assemble_file(other)
                elif how == 'named':
                    a.assemble('.define q_other 1\n', other)
                else:
                    a.assemble('.include "%s"\n' % other)
            return a
        if mode == 'file':
            asm_box = []

            def create_file():
                a = create()
                asm_box.append(a)
                a.assemble = (lambda orig: lambda *x, **kw: orig(*x, **kw) if len(x) + len(kw) > 1 else a.assemble_file(fname))(a.assemble)
                return a
            r = execute(create_file, main_text)
        elif mode == 'named text':
            r = execute(create, main_text, context=fname)
        elif mode == 'text':
            r = execute(create, main_text)
        else:
            r = execute(create, main_text, context=os.path.join(d, 'outer.s'))
        p = execute(create, src_prefix, link=False)
        chk.case((name, text.lstrip(), pad, mode), main_text[-3000:])
        chk.count('faults/' + tag)
        chk.see('kinds', kind)
        chk.see('modes', mode)
        rep = {'target': name, 'kind': kind, 'mode': mode, 'source': text[-20000:], 'fault': fault, 'line': line, 'observed': r.brief()}
        if not p.ok:
            chk.expect(False, 'prefix/' + tag, '%s: the valid part is refused: %r -> %s' % (name, src_prefix[-400:], p.brief()), rep)
            return
        if not chk.expect(not r.ok, 'accepted/%s/%s' % (tag, kind), lambda: '%s: %r (%s) accepted, gives %s' % (name, fault, kind, r.brief()[:200]), rep):
            return
        if named != 'link' and named != 'body' and r.stage == 'assemble' and named:
            got = bytes(r.asm.assembled_bytes)
            # (an error found while tokenizing comes before anything is emitted)
            chk.expect(got in (b'', bytes(p.asm.assembled_bytes)), 'emitted/%s/%s' % (tag, kind),
                       lambda: '%s: %r (%s) failed but the image is %s instead of %s' % (name, fault, kind, hx(got)[-200:], hx(p.asm.assembled_bytes)[-200:]), rep)
        if named and named != 'link':
            msg = str(r.exc)
            if r.stage == 'link':
                # taken as the name of a label: the error of the link has the name
                chk.count('reported_at_link')
                names = re.findall(r'"([^"]+)"', msg) + re.split(r'[^\w$.]+', msg.split(' label ')[-1])
                chk.expect(any(n and n in fault[0] for n in names), 'link-name/' + tag,
                           lambda: '%s: %r (%s) fails at link with %r' % (name, fault, kind, msg[:300]), rep)
                return
            chk.count('positions_compared')
            chk.expect(names_line(msg, line), 'line/%s/%s' % (tag, kind),
                       lambda: '%s: %r (%s) is on line %d, the error says %r' % (name, fault, kind, line, msg[:300]), rep)
            if other:
                chk.expect(other not in msg, 'other-file/%s/%s' % (tag, kind),
                           lambda: '%s: %r (%s) is not in %r, the error says %r' % (name, fault, kind, other, msg[:300]), rep)
            if want_name:
                chk.expect(want_name in msg, 'file/%s/%s' % (tag, kind),
                           lambda: '%s: %r (%s) is in %r, the error says %r' % (name, fault, kind, want_name, msg[:300]), rep)
        for q in [fname, os.path.join(d, 'before_it.s')] + mids:
            if os.path.exists(q):
                os.unlink(q)

    rounds = chk.n(45, 450)
    for i in range(rounds):
        for fault, kind, named in toy_faults(rng):
            t = rng.choice(tg)
            prog = [s for s in gen.flat_program(rng, t.num, rng.randrange(1, 9), probes=False)]
            lines = [render(s, rng) for s in prog]
            k = rng.randrange(len(lines) + 1)
            pre = HEAD + lines[:k]
            if rng.random() < .3:
                pre.insert(rng.randrange(len(HEAD), len(pre) + 1), rng.choice(TALL))
                chk.count('text_over_lines')
            if rng.random() < .25:
                pre.insert(rng.randrange(len(HEAD), len(pre) + 1), '.include "%s/%s.inc"' % (FILES, rng.choice(('ok', 'deep'))))
                chk.count('includes_before')
            if rng.random() < .25 and kind not in ('end without repeat', 'repeat without count', 'repeat of a name', 'repeat zero times', 'repeat a negative count', 'extra directive operand', 'missing directive operand'):
                pre = pre + ['.repeat 2', 'NOP']
            stmt = [fault]
            one(t.cls, t.name, pre, stmt, lines[k:], kind, named)
    # the same faults in many words
    for i in range(chk.n(1200, 12000)):
        t = rng.choice(tg)
        prog = gen.flat_program(rng, t.num, rng.randrange(1, 5), probes=False)
        fault, kind, more = wordy(rng, t.num)
        chk.count('wordy_faults')
        one(t.cls, t.name, HEAD + [render(s, rng) for s in prog] + more, [fault], ['NOP'], kind, True)
    # faults in the body of a macro are reported at the faulty line of the body
    for i in range(chk.n(150, 1500)):
        t = rng.choice(tg)
        bad, kind = rng.choice((('BOGUS', 'mnemonic'), ('NOP v', 'operand of a fixed opcode'), ('U8 65537', 'out of range'), ('TWO v', 'missing operand'), ('U8 v+nowhere', 'unknown name')))
        pre = ['.macro broken v'] + ['NOP'] * rng.randrange(0, 4)
        at = len(pre)
        pre2 = pre + [bad] + ['NOP'] * rng.randrange(0, 3) + ['.endmacro', 'NOP']
        one(t.cls, t.name, pre2, ['broken 1'], ['NOP'], 'macro body ' + kind, 'body', line_of_fault=at)
        # value passed by the call does not fit
        one(t.cls, t.name, ['.macro good v', 'U8 v', '.endmacro', 'good 2'], ['good ' + rng.choice(('256', '-129', '0x100'))], ['NOP'], 'macro argument', 'body', line_of_fault=1)
    # labels, directives that open blocks inside macros
    for i in range(chk.n(60, 600)):
        t = rng.choice(tg)
        one(t.cls, t.name, ['NOP', '.macro m', 'NOP'], ['inside:'], ['.endmacro', 'NOP'], 'label in macro', True)
        one(t.cls, t.name, ['NOP', '.macro m', 'NOP'], ['.macro n'], ['.endmacro', 'NOP'], 'nested macro', False)
        one(t.cls, t.name, ['NOP', '.repeat 3', 'NOP'], ['.repeat 2'], ['.endrepeat', 'NOP'], 'nested repeat', False)
        way = rng.choice((['.section s1 R', 'twice: NOP', '.section s2 RW'], ['twice:', '.section s2 RW 4096'], ['.org 16', 'twice: NOP', '.org 256'], ['.org 16 31', 'twice:', '.org 32'],
                          ['.org 16', 'twice:', '.org 16'], ['twice:', '.define twice_2 1', '.ram 9']))
        one(t.cls, t.name, way, ['twice:'], ['NOP'], 'duplicate label elsewhere', True)
        one(t.cls, t.name, ['NOP', 'NOP'], ['.macro m'], ['NOP', 'NOP'], 'unterminated macro', 'link')
        one(t.cls, t.name, ['NOP', 'NOP'], ['.repeat 3'], ['NOP', 'NOP'], 'unterminated repeat', 'link')
        one(t.cls, t.name, ['.org 16 31', '.fill 16', '.org 32 40'], ['.org 20'], ['NOP'], 'overlap', False)
        one(t.cls, t.name, ['.org 16 31'], ['.fill 17', '.org 32'], [], 'overflow', False)
        one(t.cls, t.name, ['.org 256', '.fill 17'], ['.goto 272'], [], 'goto back', False)
        one(t.cls, t.name, ['.org 256', '.fill 17'], ['.upto 16'], [], 'upto back', False)
        one(t.cls, t.name, ['.section "s" R'], ['.section "s" R'], [], 'section twice', False)
        one(t.cls, t.name, ['.export a', 'a: NOP'], ['.export a'], [], 'export twice', False)
        q = rng.choice(OPEN)
        if rng.random() < .5 and q.startswith('.db'):
            q = '.db ' + ', '.join(rng.choice(('1', '"abc"', "'d'", 'taken', '0', '""')) for _ in range(rng.randrange(1, 6))) + ',' + q[3:]
        r = execute(t.cls, 'NOP\ntaken: NOP\n' + q + rng.choice(('', '\n', '\nNOP\n', '\r\nNOP ; x', '\n' * 3 + 'NOP\n' * 40, '\n.db 2\n.org 5\nx:\n')))
        chk.case((t.name, q, i))
        chk.count('open_quotes')
        chk.expect(not r.ok, 'accepted/open-quote', lambda: '%r accepted: %s' % (q, r.brief()), {'source': q})
    # labels that are never defined
    for i in range(chk.n(400, 4000)):
        t = rng.choice(tg)
        prog = gen.flat_program(rng, t.num, rng.randrange(1, 9), probes=False)
        lines = [render(s, rng) for s in prog]
        name = rng.choice(('nowhere', 'Nowhere.2', '_n', 'taken2', 'Taken', 'TAKEN', 'take'))
        f = rng.choice(FIELDS)
        use = rng.choice(('%s %s' % (f.name, name), '%s %s+4' % (f.name, name), '%s <%s' % (f.name, name), '.db ' + name, '.dw 1, ' + name, '.dd ' + name, '.db_to_ascii ' + name,
                          '.dw_to_asciiz ' + name, 'TWO 1, ' + name, 'TWO %s, 2' % name, 'pair 1, ' + name, 'U32 taken+' + name, '.dd taken*2-' + name))
        lines.insert(rng.randrange(len(lines) + 1), use)
        src = '\n'.join(HEAD + lines) + '\n'
        r = execute(t.cls, src)
        chk.case((t.name, src), src)
        chk.count('undefined_labels')
        chk.expect(not r.ok, 'accepted/undefined', lambda: '%r accepted: %s' % (src[-300:], r.brief()), {'source': src})
        if not r.ok:
            chk.expect(name in str(r.exc), 'undefined-name', lambda: 'error for the undefined %s is %r' % (name, str(r.exc)), {'source': src})
    # every shipped CPU
    for cpu in all_cpus():
        chk.see('cpus', cpu.name)
        # (BRA on the LR35902 is a known finding of C23)
        neg = [x for x in cpu.negatives(rng) if x.upper() != 'BRA'] if cpu.negatives else []
        n = chk.n(130, 1300)
        pool = rng.sample(neg, min(n, len(neg)))
        pool = [(x, 'illegal operands') for x in pool]
        pool += [(x, 'unknown mnemonic') for x in ('BOGUSX', 'ZZZ 1', 'qqq (a), b', 'NOPE')] * 8
        pool += [(x, 'label') for x in ('a-b:', 'NOP x:', 'first:', ':')] * 8
        setup = getattr(cpu, "setup", None)
        for fault, kind in pool:
            lines = [l for l, _ in cpu_lines(rng, cpu, rng.randrange(0, 5))]
            if re.match(r'\w+(\s+(\w+|[(#\[].*))?$', fault) is None and kind == 'illegal operands' and ':' in fault:
                continue
            pre = ([cpu.prelude] if cpu.prelude else []) + ['first: ' + cpu.nop[0]] + lines
            if rng.random() < .2:
                pre.append(rng.choice(TALL))
            one(cpu.factory, cpu.name, pre, [fault], lines[:2], kind, True, tag=cpu.name)
    tmp.cleanup()
    shutil.rmtree(FILES)
    chk.require('kinds', 50)
    chk.finish()
