"""C20: the listing mode."""
import contextlib
import io
import os
import re
import tempfile
from ..harness import Check, execute, hx
from ..core import targets
from ..rich import Rich
from ..cpu import all_cpus
from ..toy import FIELD
from .c01 import cpu_lines
from .c16 import FAULT_LINES
from . import c34

ENTRY = re.compile(r'^assembled (.*) -> \(((?:0x[0-9a-f]{2})(?:,0x[0-9a-f]{2})*)\) at 0x([0-9a-f]+)$', re.S)
LABEL = re.compile(r'^label "(.*)" translated to \(((?:0x[0-9a-f]{2})(?:,0x[0-9a-f]{2})*)\) at address 0x([0-9a-f]+)$', re.S)


def hexes(t):
    return bytes(int(x, 16) for x in t.split(','))


def listed(text):
    """-> [(line, bytes, offset)], [(label, bytes, place)]"""
    entries, labels = [], []
    for l in text.split('\n'):
        m = ENTRY.match(l)
        if m:
            n = re.search(r'(?:at )?line (\d+)', m.group(1))
            entries.append((int(n.group(1)) if n else None, hexes(m.group(2)), int(m.group(3), 16)))
            continue
        m = LABEL.match(l)
        if m:
            labels.append((m.group(1), hexes(m.group(2)), int(m.group(3), 16)))
    return entries, labels


def run(factory, src, log=None, context=None):
    out = io.StringIO()

    def setup(a, o):
        if log is not None:
            a.log = log
    with contextlib.redirect_stdout(out):
        r = execute(factory, src, context=context, setup=setup)
    return r, out.getvalue()


def state(r):
    a = r.asm
    return (bytes(a.assembled_bytes), sorted((k, v['org'] + v['base']) for k, v in a.labels.items()), dict(a.defines), a.pc, r.exc_type, str(r.exc) if r.exc else None)


def steps(factory, lines):
    """(bytes added by every line) seen from outside, one line at a time, without the log"""
    a = factory()
    out = []
    for l in lines:
        n = len(a.assembled_bytes)
        a.assemble(l + '\n')
        out.append((n, bytes(a.assembled_bytes[n:])))
    return out


def main():
    chk = Check('C20', 'random structured programs (toy CPU: defines, macros, repeats, includes, imports, padding, labels) and instruction streams of every shipped CPU, with the log '
                'off, turned on by the API, and switched on and off at random places, valid and faulty; the listing captured from stdout is compared with the bytes each statement '
                'was seen to add and with the resolved labels; non-trivial = something was listed', 1200)
    rng = chk.rng
    tg = targets()
    cpus = all_cpus()
    tmp = tempfile.TemporaryDirectory()
    for i in range(chk.n(900, 9000)):
        if rng.random() < .75:
            t = rng.choice(tg)
            factory, name = t.cls, t.name
            R = Rich(rng, t.num, tmp.name, features=('define', 'macro', 'repeat', 'include', 'import', 'org', 'pad'), probes=False)
            lines = R.block(rng.randrange(1, 14))
            R.write_files()
        else:
            cpu = rng.choice(cpus)
            factory, name = cpu.factory, cpu.name
            lines = ([cpu.prelude] if cpu.prelude else []) + ['.org 4096', 'first:'] + [l for l, _ in cpu_lines(rng, cpu, rng.randrange(1, 8))]
            lines += ['.dw first, last', '.db "text; -> (0x00) at 0x1"', '.dd last', 'last:']
        # blank lines where .log statements can be put without moving anything
        spaced = []
        for l in lines:
            if rng.random() < .4:
                spaced.append('')
            spaced.append(l)
        spaced += ['', '']
        if rng.random() < .2:
            spaced.insert(rng.randrange(len(spaced)), rng.choice(FAULT_LINES))
        base = '\n'.join(spaced) + '\n'
        plain, text0 = run(factory, base)
        rep = {'target': name, 'source': base, 'observed': plain.brief()}
        chk.expect(text0 == '', 'noise', lambda: 'with the log off %r was printed' % text0[:200], rep)
        # 1. switching the log changes nothing
        variants = [('api on', base, True), ('api off', base, False)]
        for k in range(3):
            v = list(spaced)
            for n, l in enumerate(v):
                if l == '' and rng.random() < .6:
                    v[n] = rng.choice(('.log', '.log on', '.log off', '.LOG ON', '.log OFF', '.log On'))
            variants.append(('switched', '\n'.join(v) + '\n', None))
        outs = {}
        for how, src, log in variants:
            r, text = run(factory, src, log)
            chk.case((name, src, log), src, nontrivial='assembled' in text)
            chk.count('variants')
            chk.expect(state(r) == state(plain), 'changed/' + how, lambda: '%s: %s: %s instead of %s for %r' % (name, how, state(r), state(plain), src), dict(rep, variant=src))
            outs[how] = (r, text)
            if how == 'switched' and plain.ok:
                # only the statements that run while the log is on, each exactly once
                got, _ = listed(text)
                want = expect_entries(factory, src.split('\n')[:-1], None)
                if want is not None:
                    chk.count('entries_compared', len(want))
                    chk.expect(match(got, want), 'entries/switched', lambda: '%s: listed %s, expected %s for %r' % (name, show(got), show(want), src), dict(rep, variant=src, listing=text))
        if not plain.ok:
            chk.count('faulty_programs')
            continue
        # 2. everything that emits is listed once, in order
        r, text = outs['api on']
        got, labels = listed(text)
        want = expect_entries(factory, spaced, True)
        if want is not None:
            chk.count('entries_compared', len(want))
            chk.expect(match(got, want), 'entries/on', lambda: '%s: listed %s, expected %s for %r' % (name, show(got), show(want), base), dict(rep, listing=text))
        for lab, b, at in labels:
            chk.count('labels_listed')
            chk.expect(r.data[at:at + len(b)] == b, 'label-bytes', lambda: '%s: label %s listed as %s at %x, the image has %s' % (name, lab, hx(b), at, hx(r.data[at:at + len(b)])), dict(rep, listing=text))
    # labels: every use with its place
    for i in range(chk.n(700, 7000)):
        t = rng.choice(tg)
        order = 'big' if t.big else 'little'
        names = ['l%d' % k for k in range(3)]
        defs = {}
        lines, uses, pc = [], [], 0
        todo = list(names)
        for k in range(rng.randrange(3, 12)):
            if todo and rng.random() < .4:
                defs[todo[0]] = pc
                lines.append(todo.pop(0) + ':')
            n = rng.choice(names)
            kind = rng.choice(('.dw', '.dd', 'U16', 'U32', 'R16', 'TWO', 'NOP', '.ram', '.db_to_ascii'))
            x = rng.choice(('', '', '+4', '+1*2'))
            if kind == '.ram':
                lines.append('NOP')
                pc += 1
            elif kind == 'NOP':
                lines.append('.fill 5 1')
                pc += 5
            elif kind in ('.dw', '.dd'):
                lines.append('%s %s%s, 1' % (kind, n, x))
                w = 2 if kind == '.dw' else 4
                uses.append((n + x, pc, w))
                pc += 2 * w
            elif kind == 'TWO':
                lines.append('TWO 1, ' + n + x)
                uses.append((n + x, pc + 2, 2))
                pc += 4
            elif kind == '.db_to_ascii':
                lines.append('.db_to_ascii 7')
                pc += 1
            else:
                f = FIELD[kind]
                lines.append('%s %s%s' % (kind, n, x))
                uses.append((n + x, pc + f.offset, f.size))
                pc += f.total
        for n in todo:
            defs[n] = pc
            lines.append(n + ':')
        lines.insert(0, '.log on') if rng.random() < .5 else lines.append('.log')
        src = '\n'.join(lines) + '\n'
        r, text = run(t.cls, src)
        chk.case((t.name, src), src, nontrivial=bool(uses))
        if not chk.expect(r.ok, 'label-refused', lambda: '%r: %s' % (src, r.brief()), {'source': src}):
            continue
        _, labels = listed(text)
        want = sorted((n, r.data[at:at + w], at) for n, at, w in uses)
        chk.count('label_uses', len(uses))
        chk.expect(sorted(labels) == want, 'labels', lambda: 'labels listed %s, expected %s for %r' % (show(sorted(labels)), show(want), src), {'source': src, 'listing': text})
    # statements that emit a lot
    blob = os.path.join(tmp.name, 'big.bin')
    for i in range(chk.n(36, 300)):
        t = rng.choice(tg)
        lines, want, pc = [], [], 0
        for k in range(rng.randrange(1, 5)):
            n = rng.choice((255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8193, 20000, 65536, 70000))
            how = rng.randrange(5)
            if how == 0:
                v = rng.randrange(256)
                lines.append('.fill %d %d' % (n, v))
                b = bytes([v]) * n
            elif how == 1:
                b = rng.randbytes(n)
                with open('%s%d' % (blob, k), 'wb') as f:
                    f.write(b)
                lines.append('.incbin "%s%d"' % (blob, k))
            elif how == 2:
                n = min(n, 20000)
                b = rng.randbytes(n)
                lines.append('.db ' + ', '.join(map(str, b)))
            elif how == 3:
                b = b'x' * n
                lines.append('.db "%s"' % ('x' * n))
            else:
                lines.append('NOP')
                b = b'\xEA'
            want.append((None, b, pc))
            pc += len(b)
        src = '\n'.join(lines) + '\n'
        plain, _ = run(t.cls, src)
        r, text = run(t.cls, src, True)
        chk.case((t.name, i), None)
        chk.count('long_entries', len(want))
        got, _ = listed(text)
        rep = {'source': src[:20000]}
        chk.expect(state(r) == state(plain) and r.ok, 'changed/long', lambda: '%r: %s instead of %s' % (src[:200], r.brief()[:200], plain.brief()[:200]), rep)
        chk.expect([g[1:] for g in got] == [w[1:] for w in want], 'entries/long', lambda: '%r: listed (size, place) %s, expected %s' % (
            src[:200], [(len(g[1]), g[2]) for g in got], [(len(w[1]), w[2]) for w in want]), rep)
    # the log switched inside of included sources
    for i in range(chk.n(150, 1500)):
        t = rng.choice(tg)
        files = []

        def part(depth):
            out = []
            for _ in range(rng.randrange(1, 7)):
                r = rng.random()
                if r < .3:
                    out.append(rng.choice(('.log', '.log on', '.log off', '.LOG OFF', '')))
                elif r < .5 and depth < 4:
                    p = os.path.join(tmp.name, 'part%d.inc' % len(files))
                    files.append(p)
                    body = part(depth + 1)
                    with open(p, 'w') as f:
                        f.write('\n'.join(body) + rng.choice(('', '\n')))
                    out.append('.include "%s"' % p)
                else:
                    out.append(rng.choice(('NOP', '.db 1, 2', '.fill 3 7', 'HLT3', '.ram 2', '.db "a"', '.define q 4', 'U8 5', '.align 4')))
            return out
        lines = part(0)
        if not files:
            continue
        src = '\n'.join(lines) + '\n'
        r, text = run(t.cls, src)
        want = expect_entries(t.cls, lines, None)
        chk.case((t.name, src, len(files), text), src, nontrivial='assembled' in text)
        if not chk.expect(r.ok and want is not None, 'refused/included', lambda: '%r: %s' % (src, r.brief()), {'source': src}):
            continue
        got, _ = listed(text)
        chk.count('entries_in_included_sources', len(want))
        chk.expect(match(got, want), 'entries/included', lambda: '%s: listed %s, expected %s for %r' % (t.name, show(got), show(want), src), {'source': src, 'files': {f: open(f).read() for f in files}, 'listing': text})
    # CPUs of any shape: the log never changes what is resolved
    for i in range(chk.n(300, 3000)):
        w = c34.World(rng)
        prog, pending = c34.program(rng, w)
        defs = []
        for n, v in pending:
            defs += [('org', v), ('label', n)]
        lines = c34.render(prog + defs if rng.random() < .6 else defs + prog, rng)

        def go(ls):
            out = io.StringIO()

            def setup(asm, o):
                asm.values, asm.hooked = [], []
            with contextlib.redirect_stdout(out):
                r = execute(w.cls, '\n'.join(ls) + '\n', setup=setup)
            return r, out.getvalue()
        plain, _ = go([''] + lines)
        logged, text = go(['.log'] + lines)
        chk.case(lines, None, nontrivial='assembled' in text)
        chk.count('other_cpus')
        rep = {'source': lines, 'observed': logged.brief(), 'expected': plain.brief()}
        chk.expect(state(plain) == state(logged) and (plain.asm.values, plain.asm.hooked) == (logged.asm.values, logged.asm.hooked), 'changed/other-cpu',
                   lambda: 'with the log on %r gives %s instead of %s' % (lines, logged.brief(), plain.brief()), rep)
        if not plain.ok or not logged.ok:
            continue
        entries, labels = listed(text)
        a = b''.join(e[1] for e in entries)
        for lab, b, at in labels:
            chk.count('labels_listed')
            same = [x for x in labels if x[2] < at + len(b) and at < x[2] + len(x[1])]
            # (fields sharing bytes are listed while the others may still be missing)
            if len(same) == 1:
                chk.expect(logged.data[at:at + len(b)] == b, 'label-bytes/other-cpu', lambda: 'label %s listed as %s at %x, the image has %s in %r' % (
                    lab, hx(b), at, hx(logged.data[at:at + len(b)]), lines), rep)
        chk.expect(len(a) >= len(logged.data) if not any('.repeat' in l for l in lines) else True, 'entries/other-cpu', lambda: 'listed %d bytes of %d in %r' % (len(a), len(logged.data), lines), rep)
    tmp.cleanup()
    chk.require('entries_compared', 5000)
    chk.require('labels_listed', 300)
    chk.require('label_uses', 1000)
    chk.require('entries_in_included_sources', 100)
    chk.finish()


def expect_entries(factory, lines, on):
    """the listing of a program, from the outside: each line assembled alone without
    the log. Included files list their own statements before the include itself.
    Lines of a macro or repeat count one by one as well. on: None = by .log statements"""
    a = factory()
    logging = bool(on)
    out = []

    def feed(ls, inner):
        nonlocal logging
        for n, l in enumerate(ls, 1):
            s = l.strip().upper().split()
            if s and s[0] == '.LOG' and on is None:
                logging = len(s) < 2 or s[1] == 'ON'
                continue
            m = re.match(r'\s*\.include "(.*)"\s*$', l, re.I)
            before = len(a.assembled_bytes)
            if m:
                with open(m.group(1), encoding='latin-1') as f:
                    text = f.read()
                feed(text.split('\n'), True)
            else:
                a.assemble(l + '\n')
            new = bytes(a.assembled_bytes[before:])
            if new and logging:
                out.append((n, new, before))
    try:
        feed(lines, False)
    except Exception:
        return None
    return out


def match(got, want):
    return [g[1:] for g in got] == [w[1:] for w in want] and all(g[0] is None or g[0] == w[0] for g, w in zip(got, want))


def show(es):
    return [(n, hx(b)[:60], o) for n, b, o in es][:40]
