"""C14: includes and imports."""
import csv
import io
import json
import os
import tempfile
from .. import scale
from ..harness import Check, execute, hx
from ..core import targets, compare, with_probe
from ..rich import Rich
from .. import model, gen
from ..cpu import all_cpus
from .c01 import cpu_lines


def split_includes(rng, lines, d, depth, files):
    """replaces random runs of lines by an include of a file holding them"""
    if len(lines) < 2 or depth > 5:
        return lines
    out = []
    i = 0
    while i < len(lines):
        if rng.random() < .25:
            n = rng.randrange(0, min(8, len(lines) - i) + 1)
            part = lines[i:i + n]
            # macro and repeat blocks may span files but quotes may not; keep blocks whole for half of the runs
            sub = split_includes(rng, part, d, depth + 1, files)
            name = os.path.join(d, '%s%d%s' % (rng.choice(('inc', 'sub dir', 'part;', 'x,y ', "it's ", 'p(1)')), len(files), rng.choice(('.inc', '.S', ''))))
            files.append(name)
            with open(name, 'w', newline='') as f:
                f.write(rng.choice(('\n', '\r\n')).join(sub) + rng.choice(('', '\n', '\n\n', '\n; end of file', ' ; c')))
            out.append('.%s "%s"' % (rng.choice(('include', 'INCLUDE')), name))
            i += n
        else:
            out.append(lines[i])
            i += 1
    return out


def main():
    chk = Check('C14', 'random structured programs cut into files at random places and nested up to six deep (plain and bounded origins, labels, defines, '
                'macros and repeats crossing file boundaries, CRLF files, no final newline, odd file names), and binary / CSV / JSON imports of random and '
                'boundary content compared with the content written in place; malformed imports; non-trivial = at least one file', 1200)
    rng = chk.rng
    tg = targets()
    with tempfile.TemporaryDirectory() as d:
        for i in range(chk.n(900, 9000)):
            t = rng.choice(tg)
            R = Rich(rng, t.num, d, features=('define', 'macro', 'repeat', 'include', 'import', 'org', 'pad'), probes=True)
            lines = R.block(rng.randrange(2, 16))
            R.write_files()
            files = []
            cut = split_includes(rng, lines, d, 0, files)
            flat = R.flat
            if rng.random() < .3 and not any(s[0] in ('org', 'ram') for s in flat):
                try:
                    im = model.Image(t.big, t.fill)
                    im.statement(('org', 0, 1 << 16))
                    for s in flat:
                        im.statement(s)
                    end = len(im.out) + rng.randrange(1, 60)
                    cut = ['.org 0 %d' % end] + cut + ['.org %d' % (end + 1), 'NOP']
                    flat = [('org', 0, end)] + flat + [('org', end + 1, None), ('ins', 'NOP')]
                    chk.count('inside_bounded_origin')
                except model.Bad:
                    pass
            src = '\n'.join(cut)
            chk.case((t.name, '\n'.join(lines), src.count('include')), src, nontrivial=bool(files or R.files))
            chk.count('included_files', len(files))
            for k in R.kinds:
                chk.see('constructs', k)
            compare(chk, t, flat, 'include', src, trace=True)
            for f in list(R.files) + files:
                os.unlink(f)
        for cpu in all_cpus():
            chk.see('cpus', cpu.name)
            for i in range(chk.n(20, 200)):
                items = cpu_lines(rng, cpu, rng.randrange(3, 15))
                lines = (cpu.prelude.split('\n') if cpu.prelude else []) + [x[0] for x in items]
                files = []
                cut = split_includes(rng, lines, d, 0, files)
                ra, rb = execute(cpu.factory, '\n'.join(cut)), execute(cpu.factory, '\n'.join(lines))
                chk.case((cpu.name, tuple(lines)), None)
                chk.expect(ra.ok == rb.ok and ra.data == rb.data, 'cpu/' + cpu.name, lambda: '%s: cut into files %s, in place %s' % (cpu.name, ra.brief(), rb.brief()),
                           {'source': cut, 'in_place': lines})
                for f in files:
                    os.unlink(f)
        scale.big_files(chk, tg, d)
        imports(chk, tg, d)
        recovered(chk, tg, d)
        places(chk, tg, d)
    chk.require('shared_files', 300)
    chk.require('missing_files', 200)
    chk.require('constructs', 8)
    chk.finish()


def recovered(chk, tg, d):
    """a source is included; it fails; the program that runs the assembler goes on with another source"""
    rng = chk.rng
    good, broken, outer = (os.path.join(d, x) for x in ('good.inc', 'broken.inc', 'outer.inc'))
    for i in range(chk.n(240, 2400)):
        t = rng.choice(tg)
        fault = rng.choice(('BOGUS', '.bogus', '.include "%s/not there"' % d, '.db 256', '.incbin "%s/not there"' % d, 'U8 999', 'taken:', '.org 5 2', '.db "open', 'a-b:'))
        with open(broken, 'w') as f:
            f.write(rng.choice(('', '; x\n\n')) + fault + rng.choice(('', '\n')))
        with open(outer, 'w') as f:
            f.write('.include "%s"\n' % broken)
        n = rng.randrange(1, 9)
        with open(good, 'w') as f:
            f.write('.db 1\n.fill %d, 2\nlast: .db 3' % n)
        at, size = rng.choice((0, 16, 256)), rng.randrange(n + 2, n + 40)
        first = rng.choice(('taken: NOP\n', '.org 0\ntaken: NOP\nNOP\n', '.org 0 9\ntaken: NOP\n.org 10\n'))
        rest = '.org %d %d\n.include "%s"\n' % (at, at + size - 1, good)
        tail = rng.choice(('', '.org %d\nNOP\n' % (at + size)))

        def go(asm, out):
            asm.assemble(first)
            for _ in range(rng.randrange(1, 4)):
                try:
                    how = rng.randrange(3)
                    if how == 0:
                        asm.assemble('.include "%s"' % rng.choice((broken, outer)))
                    elif how == 1:
                        asm.assemble_file(outer)
                    else:
                        asm.assemble_file(broken)
                except Exception:
                    out.events.append('failed')
            asm.assemble(rest + tail)
        r = execute(t.cls, [], setup=go)
        start = b'\xEA' if first[0] == 't' else b'\xEA\xEA' if 'NOP\nNOP' in first else b'\xEA' + bytes([t.fill]) * 9
        want = start + b'\1' + b'\2' * n + b'\3' + bytes([t.fill]) * (size - n - 2) + (b'\xEA' if tail else b'')
        chk.case((t.name, i, fault), None)
        chk.count('failed_includes', len(r.events))
        rep = lambda: {'first': first, 'fault': fault, 'then': rest + tail, 'good': 'db 1, fill %d' % n, 'observed': r.brief()}
        chk.expect(r.events and r.ok and r.data == want, 'recovered', lambda: 'after a failed include of %r, %r gives %s, expected [%s]' % (fault, rest + tail, r.brief(), hx(want)), rep)
        chk.expect(not r.ok or r.asm.labels.get('last') is not None and r.asm.get_label_absolute_address_by_name('last') == at + n + 1, 'recovered-label',
                   lambda: 'after a failed include of %r the label is %r' % (fault, r.asm.get_label_absolute_address_by_name('last')), rep)


def imports(chk, tg, d):
    rng = chk.rng

    def run(t, line, want, mech, data):
        # (an origin of just the size of it all makes no difference)
        src = '.org 16%s\nNOP\n%s\n.probe\nend:\nNOP' % (' %d' % (17 + len(want)) if rng.random() < .3 else '', line)
        r = execute(t.cls, src, setup=with_probe)
        full = b'\xEA' + want + b'\xEA'
        chk.case((t.name, mech, repr(data)[:200]), '%s of %r' % (line, repr(data)[:80]))
        chk.count('imports_' + mech)
        rep = lambda: {'source': src, 'file': repr(data)[:2000], 'observed': r.brief()}
        if chk.expect(r.ok and r.data == full, mech + '/bytes', lambda: '%s of %r gives %s, expected [%s]' % (line, repr(data)[:300], r.brief(), hx(full)[:300]), rep):
            chk.expect(r.events == [(17 + len(want), 1 + len(want))] and r.asm.get_label_absolute_address_by_name('end') == 17 + len(want),
                       mech + '/counter', lambda: '%s: counter after the import %r' % (line, r.events), rep)

    def refuse(t, line, mech, data):
        src = '.org 16\nNOP\n' + line
        r = execute(t.cls, src)
        chk.case((t.name, mech, repr(data)[:200]))
        chk.count('bad_imports')
        rep = lambda: {'source': src, 'file': repr(data)[:2000], 'observed': r.brief()}
        chk.expect(not r.ok, mech + '/accepted', lambda: '%s of %r accepted: %s' % (line, repr(data)[:300], r.brief()), rep)
        chk.expect(bytes(r.asm.assembled_bytes) == b'\xEA', mech + '/partial', lambda: '%s of %r emitted %s' % (line, repr(data)[:300], hx(r.asm.assembled_bytes)), rep)
    p = os.path.join(d, 'data file')

    def put(b):
        with open(p, 'wb') as f:
            f.write(b)
    for i in range(chk.n(250, 2500)):
        t = rng.choice(tg)
        n = rng.choice((0, 1, 2, 3, 255, 256, 257, 1000, rng.randrange(70000) if rng.random() < .05 else 9))
        b = rng.choice((bytes(rng.randrange(256) for _ in range(n)), b'\r\n' * (n // 2), b'\0' * n, b'\x1a' * n, bytes(range(256)), b'\xff\xfe' * n, b'\xef\xbb\xbfabc'))
        if rng.random() < .3:
            # bytes a text file would lose
            e = rng.choice((b'\x1a', b'\0', b'\r', b'\n', b' ', b'\t', b'\r\n', b'\x0c', b'\xff')) * rng.randrange(1, 3)
            b = rng.choice((b + e, e + b, e + b + e))
        put(b)
        run(t, '.incbin "%s"' % p, b, 'incbin', b)
    for i in range(chk.n(700, 7000)):
        t = rng.choice(tg)
        w = rng.choice((1, 2))
        rows = [[gen.interesting(rng, 8 * w) if rng.random() < .9 else -rng.randrange(1, 1 << (8 * w - 1)) for _ in range(rng.randrange(1, 8))] for _ in range(rng.randrange(1, 6))]
        text = ''
        for row in rows:
            text += ','.join(rng.choice((q(t, rng, v), str(v), '"%d"' % v)) for v in row) + rng.choice(('\n', '\n', '\r\n'))
        if rng.random() < .4:
            text = text.rstrip()
        if rng.random() < .2:
            text += '\n\n'
        put(text.encode())
        want = b''.join((v % (1 << (8 * w))).to_bytes(w, 'little') for row in rows for v in row)
        run(t, '.%s "%s"' % ('inccsv' if w == 1 else 'inccsv_le16', p), want, 'inccsv%d' % (8 * w), text)
        # a bad value anywhere
        r = rng.randrange(len(rows))
        c = rng.randrange(len(rows[r]))
        cells = [[str(v) for v in row] for row in rows]
        cells[r][c] = rng.choice((str(1 << (8 * w)), str((1 << (8 * w)) + 7), str(-(1 << (8 * w - 1)) - 1), 'abc', '1.5', '', 'end', '12 13', str(1 << 40), 'x1'))
        put('\n'.join(','.join(row) for row in cells).encode())
        if cells[r][c] == '' and len(cells[r]) == 1:
            continue    # an empty line holds no value
        refuse(t, '.%s "%s"' % ('inccsv' if w == 1 else 'inccsv_le16', p), 'inccsv%d' % (8 * w), cells)
    for i in range(chk.n(500, 5000)):
        t = rng.choice(tg)
        vals = [gen.interesting(rng, 8) for _ in range(rng.randrange(0, 20))]
        path = rng.choice(('data', 'a.b', 'a.b.c.d', 'layers', 'x_y.z', '0', 'maps.0', 'a.1.b', '-1', 'A', 'len', 'a b.c', 'k.keys'))
        items = [v if rng.random() < .7 else q(t, rng, v) for v in vals]

        def doc(items):
            x = items
            for k in reversed(path.split('.')):
                x = {'before': [9, 9], k: x, 'after': {'data': [1]}}
            if '.' in path and rng.random() < .2:
                # the path goes through the objects, whatever else is called like it
                x[path] = [77]
                chk.count('dotted_keys')
            return json.dumps(x, indent=rng.choice((None, 1))).encode()
        put(doc(items))
        run(t, '.incjson "%s" "%s"' % (p, path), bytes(vals), 'incjson', items)
        bad = list(items)
        bad.insert(rng.randrange(len(bad) + 1), rng.choice((256, 257, 1000, -1, -129, 'abc', '256', None, [1], {'a': 1}, 1.5, '1.5', '', '-129', 1 << 33)))
        put(doc(bad))
        refuse(t, '.incjson "%s" "%s"' % (p, path), 'incjson', bad)
        if rng.random() < .1:
            put(doc(items))
            for missing in ('nope', path + '.nope', 'after.nope'):
                refuse(t, '.incjson "%s" "%s"' % (p, missing), 'incjson-path', missing)
            put(b'{"data": [1, 2')
            refuse(t, '.incjson "%s" "data"' % p, 'incjson-malformed', '')
    # one bad value far into a long file
    for i in range(chk.n(16, 120)):
        t = rng.choice(tg)
        w = rng.choice((1, 2))
        n = rng.choice((300, 4097, 8200, 40000, 70000, 140000))
        at = rng.choice((n - 1, n // 2, n - 2, rng.randrange(n)))
        vals = [rng.randrange(100) for _ in range(n)]
        vals[at] = rng.choice((1 << (8 * w), 'abc', -(1 << (8 * w - 1)) - 1, '1.5'))
        if rng.random() < .5:
            put(json.dumps({'k': vals if w == 1 else vals[:at] + [256] + vals[at + 1:]}).encode())
            refuse(t, '.incjson "%s" "k"' % p, 'long-incjson', (n, at, vals[at]))
        else:
            k = rng.choice((1, 16, 1000, n))
            put('\n'.join(','.join(map(str, vals[j:j + k])) for j in range(0, n, k)).encode())
            refuse(t, '.%s "%s"' % ('inccsv' if w == 1 else 'inccsv_le16', p), 'long-inccsv', (n, at, vals[at]))
        chk.count('long_bad_imports')
    for t in tg:
        for line in ('.incbin', '.include', '.inccsv', '.inccsv_le16', '.incjson', '.incjson "%s"' % p, '.incbin "%s" 1' % p, '.include "%s" 2' % p,
                     '.incbin "%s.missing"' % p, '.include "%s.missing"' % p, '.inccsv "%s.missing"' % p, '.inccsv_le16 "%s.missing"' % p, '.incjson "%s.missing" "a"' % p):
            refuse(t, line, 'operands', line)


def q(t, rng, v):
    return t.num.spell(rng, v)[0] if v >= 0 else str(v)


def places(chk, tg, d):
    """trees of files of the same names in several directories, every one included any number of times;
    a name means the file of that name seen from the working directory, wherever the including source is"""
    rng = chk.rng
    root = os.path.join(d, 'tree')
    dirs = ('.', 'sub', 'sub/sub', 'other', 'cwd', 'cwd/sub')
    for x in dirs:
        os.makedirs(os.path.join(root, x), exist_ok=True)
    cwd = os.path.join(root, 'cwd')
    old = os.getcwd()
    os.chdir(cwd)
    try:
        for i in range(chk.n(500, 5000)):
            t = rng.choice(tg)
            names = rng.sample(['a.inc', 'b.inc', 'a', 'lib.s', 'main.s', 'x.asm', 'a.inc.inc', 'c', 'c.bin', 'data.csv', 'data', 'A.INC'], rng.randrange(2, 7))
            files = {}
            for x in dirs:
                for n in names:
                    if rng.random() < .6:
                        files[os.path.normpath(os.path.join(root, x, n))] = None
            order = list(files)
            rng.shuffle(order)

            def spell(path):
                rel = os.path.relpath(path, cwd)
                r = rng.random()
                if r < .5:
                    return rel
                if r < .65:
                    return './' + rel
                if r < .8:
                    return path
                return '../cwd/' + rel
            kinds = {p: rng.choice(('src', 'src', 'bin', 'csv')) for p in order}
            text, value, bad = {}, {}, {}
            uses = {}
            # later files use earlier ones only
            for k, p in enumerate(order):
                ctx = os.path.dirname(p)
                if kinds[p] == 'bin':
                    b = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 4)))
                    text[p], value[p], bad[p] = b, b, False
                    continue
                if kinds[p] == 'csv':
                    v = [rng.randrange(10) for _ in range(rng.randrange(1, 4))]
                    text[p], value[p], bad[p] = ','.join(map(str, v)).encode(), bytes(v), False
                    continue
                lines, val, wrong = [], b'', False
                for _ in range(rng.randrange(1, 6)):
                    r = rng.random()
                    if r < .3:
                        v = rng.randrange(256)
                        lines.append('.db %d' % v)
                        val += bytes([v])
                        continue
                    if r < .34:
                        # a name that is there only from another directory or with another ending
                        n = rng.choice(names) + rng.choice(('', '', '.inc', '.s', '.bin', '.csv', '.zz'))
                        if os.path.join(cwd, n) in files:
                            continue
                        lines.append('.%s "%s"' % (rng.choice(('include', 'incbin', 'inccsv')), n))
                        wrong = True
                        chk.count('missing_in_tree')
                        continue
                    if not k:
                        continue
                    # preferably one that also exists beside the including file
                    q = rng.choice(order[:k])
                    twin = [x for x in order[:k] if os.path.dirname(x) == cwd and os.path.join(ctx, os.path.basename(x)) in files]
                    if twin and rng.random() < .5:
                        q = rng.choice(twin)
                        chk.count('same_name_beside')
                    lines.append('.%s %s' % ({'src': 'include', 'bin': 'incbin', 'csv': 'inccsv'}[kinds[q]], '"%s"' % spell(q)))
                    val += value[q]
                    wrong = wrong or bad[q]
                    uses[q] = uses.get(q, 0) + 1
                    if uses[q] == 2:
                        chk.count('shared_files')
                text[p], value[p], bad[p] = '\n'.join(lines).encode(), val, wrong
            for p, b in text.items():
                with open(p, 'wb') as f:
                    f.write(b)
            srcs = [p for p in order if kinds[p] == 'src']
            for p in srcs[-3:]:
                if len(value[p]) > 100000:
                    continue
                rel = os.path.relpath(p, cwd)

                def go(asm, out):
                    asm.assemble_file(rel)
                r = execute(t.cls, [], setup=go)
                chk.case((t.name, i, p), None, nontrivial=True)
                chk.count('trees')
                rep = lambda: {'tree': {os.path.relpath(x, root): repr(b)[:500] for x, b in text.items()}, 'working directory': 'cwd', 'assembled': rel, 'observed': r.brief()}
                if bad[p]:
                    chk.expect(not r.ok, 'place/accepted', lambda: '%s accepted although it names a missing file: %s' % (rel, r.brief()), rep)
                else:
                    chk.expect(r.ok and r.data == value[p], 'place/bytes', lambda: '%s gives %s, expected %s' % (rel, r.brief(), hx(value[p])[:300]), rep)
            for p in text:
                os.unlink(p)
        # a missing file, with others of similar names around, under every directive
        for t in tg:
            for verb, tail, body in (('include', '', b'.db 7'), ('incbin', '', b'7'), ('inccsv', '', b'7'), ('inccsv_le16', '', b'7'), ('incjson', ' "a"', b'{"a": [7]}')):
                for near in ('f.bin', 'f.s', 'f.S', 'f.inc', 'f.asm', 'f.txt', 'f.csv', 'f.json', 'f.h', 'f.i', 'f.z80', 'F', 'sub/f', '../f', 'f~', '.f', 'f/f', 'f '):
                    if near == 'f/f':
                        os.makedirs('f')
                    with open(near, 'wb') as f:
                        f.write(body)
                    r = execute(t.cls, 'NOP\n.%s "f"%s\n' % (verb, tail))
                    chk.case((t.name, verb, near))
                    chk.count('missing_files')
                    chk.expect(not r.ok, 'place/missing', lambda: '.%s "f" with only %r there gives %s' % (verb, near, r.brief()), {'directive': verb, 'file': near})
                    os.unlink(near)
                    if near == 'f/f':
                        os.rmdir('f')
    finally:
        os.chdir(old)
