"""C39: references the program cannot resolve go to the linker."""
import struct
from ..harness import Check, execute, hx
from ..cpu import all_cpus
from ..forms import fill_operands, reg_combos
from ..model import Bad
from .c19 import BadElf, read_elf
from .c34 import Open, World, expected, program, render
from necroassembler.linker import ELF  # noqa: E402


class Denied(Exception):
    pass


class Linker:
    """answers from a table; everything it is asked is logged"""

    def __init__(self, table, deny=None):
        self.table, self.deny, self.log, self.links = table, deny, [], []

    def resolve_unknown_symbol(self, assembler, address, data):
        self.log.append((address, data.label, data.size, data.relative))
        if self.deny == data.label:
            raise Denied(data.label)
        return self.table(data.label) - (data.relative or 0)

    def link(self, assembler):
        self.links.append(bytes(assembler.assembled_bytes))
        return b'<' + bytes(assembler.assembled_bytes) + b'>'


class Relocating(ELF):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = []

    def relocate(self, address, symbol_data):
        self.log.append((address, symbol_data.label, symbol_data.size, symbol_data.relative))


ELFS = ((32, False, 1, 3), (32, True, 1, 20), (64, False, 1, 62), (64, True, 2, 43))


def worlds(chk):
    """random CPUs, some names known only to the linker"""
    rng = chk.rng
    used = {}
    for i in range(chk.n(2500, 40000)):
        w = World(rng)
        for _ in range(3):
            prog, pending = program(rng, w)
            names = [n for n, _ in pending]
            outside = {n: v for n, v in pending if rng.random() < rng.choice((.3, .9))}
            defs = []
            for n, v in pending:
                if n not in outside:
                    defs += [('org', v), ('label', n)]
            full = prog + defs if rng.random() < .6 else defs + prog
            lines = render(full, rng)
            elf = rng.choice(ELFS) if rng.random() < .4 else None
            asked, bad, want, hooked = [], None, None, None
            answer = {} if elf is None else {'answer': lambda e, names, start: 0}
            if elf is not None:
                lines.insert(0, '.section ".text" RX')
            text = '\n'.join(lines) + '\n'
            try:
                want, values, hooked = expected(w, full, outside, asked, **answer)
            except Bad as e:
                bad = str(e)
            except Open:
                continue
            table = {}
            for at, t, size, start, v, f in asked:
                table[t] = v + (start or 0)
            deny = rng.choice(asked)[1] if asked and elf is None and rng.random() < .1 else None
            below = [a[1] for a in asked if a[5].relative is None] if elf is None and not deny and not bad and rng.random() < .3 else []
            if below:
                # addresses are not negative, whoever gives them
                table[rng.choice(below)] = -rng.choice((1, 2, 4, 16, 128, 256, 4096))
                bad = 'the linker answers a negative address'
                chk.count('negative_answers')
            linker = Linker(lambda label: table.get(label, 0), deny) if elf is None else Relocating(elf[0], elf[1], elf[2], machine=elf[3])
            if elf in used and rng.random() < .6:
                # a linker that has linked other programs
                linker = used[elf]
                del linker.log[:]
                chk.count('linkers_used_again')
            rounds = []

            def setup(asm, out):
                asm.values, asm.hooked = [], []
                asm.post_link_passes.append(lambda a: rounds.append((len(linker.log), bytes(a.assembled_bytes))))
            r = execute(w.cls, text, linker=linker, setup=setup)
            chk.case((text, sorted(outside), elf, deny, [f.describe() for ins in w.instrs for f in ins.fields]), text)
            if elf is not None:
                used[elf] = linker
                if not r.ok:
                    del used[elf]
            rep = lambda: {'source': text, 'names the linker knows': outside, 'elf': elf, 'big_endian': w.big,
                           'instructions': {ins.name: {'prefix': ins.prefix.hex(), 'fields': [f.describe() for f in ins.fields]} for ins in w.instrs},
                           'expected': bad or hx(want), 'asked': linker.log, 'observed': r.brief()}
            if bad or deny:
                chk.count('refusals')
                chk.expect(not r.ok, 'accepted', lambda: 'accepted although %s: %r gives %s' % (bad or 'the linker refuses ' + deny, text, r.brief()), rep)
                if deny and not bad:
                    chk.count('denials')
                    chk.expect(isinstance(r.exc, Denied) and not linker.links, 'denied', lambda: 'the linker refuses %s: %s' % (deny, r.brief()), rep)
                continue
            chk.count('external_references', len(asked))
            chk.count('label_twice_in_a_unit', len(asked) - len({(a[0], a[1]) for a in asked}))
            if not chk.expect(r.ok, 'refused', lambda: 'refused: %r: %s' % (text, r.brief()), rep):
                continue
            log = sorted((a, t, s, 0 if rel is None else rel, rel is None) for a, t, s, rel in linker.log)
            exp = sorted((a, t, s, 0 if rel is None else rel, rel is None) for a, t, s, rel, v, f in asked)
            for at, t, size, start, v, f in asked:
                chk.see('field_shapes', (f.size, f.bits is None, f.relative is None, f.filter_name, f.hook, elf is not None))
            what = 'relocate' if elf else 'resolve_unknown_symbol'
            chk.expect(log == exp, 'asked/' + what, lambda: '%s was called for %s, expected %s: %r' % (what, log, exp, text), rep)
            chk.expect(sorted(r.asm.hooked) == hooked, 'hooks', lambda: 'hooks were called with %s, expected %s for %r' % (r.asm.hooked, hooked, text), rep)
            if elf is None:
                chk.count('custom_links')
                chk.expect(rounds == [(len(asked), want)], 'passes', lambda: 'the pass after resolving saw %s, expected %s' % (rounds, (len(asked), hx(want))), rep)
                chk.expect(linker.links == [want], 'linked', lambda: 'the linker got %s, expected %s' % ([hx(x) for x in linker.links], hx(want)), rep)
                chk.expect(r.data == b'<' + want + b'>', 'result', lambda: 'the result is %s, expected what the linker returned for %s' % (hx(r.data), hx(want)), rep)
            else:
                chk.count('relocated_objects')
                try:
                    e = read_elf(r.data)
                    got = [s['data'] for s in e['sections'] if s['name'] == '.text']
                except (BadElf, struct.error, UnicodeDecodeError, IndexError) as x:
                    got = [str(x)]
                chk.expect(got == [want] or not want, 'object', lambda: 'the section holds %s, expected %s' % (got, hx(want)), rep)


def shipped(chk):
    """every instruction form of every CPU with operands: names known to the linker = names defined in the source"""
    rng = chk.rng
    for cpu in all_cpus():
        for form in cpu.forms:
            idx = [k for k, s in enumerate(form.slots) if s.kind == 'rel' or s.kind == 'imm' and s.label]
            if not idx:
                continue
            for combo in reg_combos(form, rng, chk.n(1, 4)):
                org = rng.choice((0x100, 0x400, 0x40))
                values = {}
                nums = []
                for k, s in enumerate(form.slots):
                    if s.kind == 'reg':
                        continue
                    if k in idx:
                        n = 'ext_%d' % k
                        if s.kind == 'rel':
                            d = rng.choice((0x10, 0x20, 0x40, -0x20))
                            values[n] = org + d
                        else:
                            top = min(s.lmax, (1 << s.lbits) - 1)
                            v = rng.randrange(0, top + 1)
                            v -= v % s.lalign
                            values[n] = v
                        nums.append((n, values[n]))
                    else:
                        v = rng.choice([v for v in s.values(rng, 3) if s.legal(v)] or [0])
                        nums.append((str(v), v))
                texts, vals = fill_operands(form, combo, nums)
                line = form.text(texts)
                head = (cpu.prelude + '\n' if cpu.prelude else '') + '.org %d\n' % org
                defs = ''.join('.org %d\n%s:\n' % (v, n) for n, v in values.items())
                if any('*' in t or '(' in t for t in nums):
                    continue
                inside = execute(cpu.factory, head + line + '\n' + defs)
                linker = Linker(lambda label: values.get(label, 0))
                out = execute(cpu.factory, head + line + '\n', linker=linker)
                chk.case((cpu.name, line, org, sorted(values.items())), line)
                chk.see('forms', cpu.name + '/' + form.id)
                rep = lambda: {'cpu': cpu.name, 'source': head + line, 'values': values, 'defined': inside.brief(), 'linked': out.brief(), 'asked': linker.log}
                if not inside.ok:
                    chk.count('not_placeable')
                    continue
                chk.count('placed')
                if not chk.expect(out.ok, 'refused/%s/%s' % (cpu.name, form.id), lambda: '%s: refused with the names only the linker knows: %s: %s' % (cpu.name, line, out.brief()), rep):
                    continue
                chk.expect(out.data == b'<' + inside.data + b'>', 'bytes/%s/%s' % (cpu.name, form.id),
                           lambda: '%s: %s with linker answers %s gives %s, with the names defined in the source %s' % (cpu.name, line, values, hx(out.data), hx(inside.data)), rep)
                asked = {l for _, l, _, _ in linker.log}
                chk.expect(len(linker.log) == len({(a, l, s) for a, l, s, _ in linker.log}) and (asked <= set(values)), 'asked/%s/%s' % (cpu.name, form.id),
                           lambda: '%s: %s: the linker was asked for %s' % (cpu.name, line, linker.log), rep)


def main():
    chk = Check('C39', 'random CPUs and programs of C34 and every label-taking instruction form of every shipped CPU, where some or all names are known only to a custom linker or to a relocating ELF subclass; '
                'the requests made to the linker, the link pass after them, what the linker receives and what becomes of its result are compared with a reference; '
                'every program is non-trivial', 2000)
    worlds(chk)
    shipped(chk)
    chk.require('external_references', 3000)
    chk.require('custom_links', 1000)
    chk.require('relocated_objects', 500)
    chk.require('denials', 20)
    chk.require('negative_answers', 20)
    chk.require('linkers_used_again', 200)
    chk.require('label_twice_in_a_unit', 30)
    chk.require('forms', 200)
    chk.finish()
