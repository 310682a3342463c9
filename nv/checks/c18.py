"""C18: the command line front ends."""
import contextlib
import importlib
import io
import os
import re
import runpy
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from ..harness import Check, REPO, hx
from ..cpu import all_cpus
from .. import jobs as J
from . import platform_oracle as P
from .c01 import cpu_lines

# front end -> (class key, takes several sources, reference CPU)
FRONTS = {
    'cpu.mos6502': (('cpu', '6502'), True, '6502'), 'cpu.z80': (('cpu', 'z80'), True, 'z80'), 'cpu.lr35902': (('cpu', 'lr35902'), True, 'lr35902'),
    'cpu.intel8086': (('cpu', '8086'), True, '8086'), 'cpu.mips32': (('cpu', 'mips32'), True, 'mips32'), 'cpu.thumb': (('cpu', 'thumb'), True, 'thumb'),
    'cpu.mc68000': (('cpu', '68000'), True, '68000'), 'cpu.powerpc': (('cpu', 'powerpc'), True, 'powerpc'), 'cpu.x86': (('cpu', 'x86'), True, 'x86'),
    'platforms.gameboy': (('platform', 'gameboy'), True, 'lr35902'), 'platforms.sms': (('platform', 'sms'), True, 'z80'),
    'platforms.nes': (('platform', 'nes'), False, '6502'), 'platforms.gba': (('cpu', 'thumb'), False, 'thumb'),
    'platforms.genesis': (('cpu', '68000'), False, '68000'), 'platforms.psx': (('platform', 'psx'), False, 'mips32le'),
    'platforms.i386_elf32': (('cpu', '8086'), True, '8086'), 'platforms.ppc_elf32': (('cpu', 'powerpc'), True, 'powerpc'), 'platforms.x86_64_elf64': (('cpu', 'x86'), True, 'x86'),
}
ELFS = {'platforms.i386_elf32': (32, False, 1, 3, 0), 'platforms.ppc_elf32': (32, True, 1, 0x14, 4), 'platforms.x86_64_elf64': (64, False, 1, 0x3E, 0)}
FAULTS = ['BOGUS', '.bogus', '.db 256', 'dup: .db 1\ndup:', '.dw nowhere', '.db "open', '.org 9 3', '.macro m', '.repeat 2', '.dd 1+nowhere', '.fill', 'x-y:']


def make_sources(rng, front, cpu, several):
    n = rng.choice((1, 1, 2, 3)) if several else 1
    out = []
    pad = {'platforms.gba': 0xC0, 'platforms.genesis': 0x200, 'platforms.gameboy': 0x150}.get(front, 0)
    for k in range(n):
        lines = []
        if k == 0 and cpu is not None and cpu.prelude:
            lines.append(cpu.prelude)
        if k == 0 and front == 'platforms.gameboy':
            lines += ['.org 0', '.fill 256 201', '.cartridge', '.cartridge_title "T%d"' % rng.randrange(99)]
        elif k == 0 and front == 'platforms.nes' and rng.random() < .7:
            lines += ['.cartridge', '.cartridge_prg_roms 1', '.org 32768']
        elif k == 0 and pad:
            lines += ['.org 0'] + ['.db ' + ', '.join(str(rng.randrange(256)) for _ in range(16))] * (pad // 16)
        elif k == 0:
            lines += ['.org %d' % rng.choice((0, 0x100, 0x4000))]
        if k == 0 and front in ELFS:
            lines.append('.section ".text" RX')
        if k == 0:
            lines += ['.define shared %d' % rng.randrange(256), '.macro mm a', '.endmacro']
        if rng.random() < .3 and front not in ELFS:
            lines += ['.org %d %d' % (0x9000 + 0x100 * k, 0x9000 + 0x100 * k + rng.randrange(20, 60))]
            lines += ['.db %d' % rng.randrange(256)]
            lines += ['L%d: .dw L%d, %d' % (k, k, rng.randrange(65536))]
        else:
            lines += ['L%d:' % k]
            if cpu is not None:
                lines += [l for l, _ in cpu_lines(rng, cpu, rng.randrange(1, 6))]
            lines += ['.dw L%d, %d' % (rng.randrange(n), rng.randrange(65536))]
            if k:
                lines += ['.db shared', 'mm 1']
        if rng.random() < .3:
            word = rng.choice(('é', 'naïve café', 'żółw', '日本', 'Ünïcode ß', '🙂'))
            lines += ['; %s' % word, '.dw "%s"' % word] if front not in ELFS or rng.random() < .5 else ['; ' + word, '.dd "%s"' % word]
        if front in ELFS and k == n - 1 and rng.random() < .5:
            lines.append('.export L0')
        out.append('\n'.join(lines) + rng.choice(('', '\n')))
    return out


def expected(front, sources, d):
    """(image, {extra file suffix: contents}) or None when assembling or linking fails"""
    key = FRONTS[front][0]
    asm = J.cls_of(key)()
    try:
        for s in sources:
            asm.assemble(s)
        if front in ELFS:
            from necroassembler.linker import ELF
            b, big, typ, mach, al = ELFS[front]
            asm.link(ELF(b, big, typ, machine=mach, alignment=al))
        else:
            asm.link()
        data = bytes(asm.assembled_bytes)
        extra = {}
        if front == 'platforms.gba':
            data = P.gba(data)
        elif front == 'platforms.genesis':
            data = P.genesis(data)
        elif front == 'platforms.psx':
            data = P.psx_body(data)
        elif front == 'platforms.nes':
            rom, ram = P.nes_symbols({n: asm.get_label_absolute_address_by_name(n) for n in asm.labels})
            extra = {'.0.nl': rom, '.ram.nl': ram}
        return data, extra
    except Exception:
        return None


def run_inside(front, argv):
    """the front end as a script, in this process -> (exit code, text)"""
    old = sys.argv
    sys.argv = ['necro'] + argv
    err = io.StringIO()
    name = 'necroassembler.' + front
    saved = sys.modules.pop(name, None)
    try:
        with contextlib.redirect_stdout(err), contextlib.redirect_stderr(err):
            runpy.run_module(name, run_name='__main__')
        return 0, err.getvalue()
    except SystemExit as e:
        return (e.code if isinstance(e.code, int) else (0 if e.code is None else 1)), err.getvalue()
    except BaseException as e:
        return 1, '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv = old
        if saved is not None:
            sys.modules[name] = saved


def run_outside(front, argv):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-m', 'necroassembler.' + front] + argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=120)
    return p.returncode, p.stdout.decode('latin-1')


def main():
    chk = Check('C18', 'every CPU and platform front end run as a script, in process and as a real process, with one to three valid or faulty sources (faults in the first, middle or last '
                'source, at assembly and at link, missing files) and a destination that does or does not exist; the file written is compared with the image of the '
                'same sources assembled in one assembler plus an independent statement of the platform pass; every run is non-trivial', 700)
    rng = chk.rng
    refs = {}
    for c in all_cpus():
        refs[c.name] = c
    tmp = tempfile.TemporaryDirectory()
    count = [0]

    def prepare(front):
        key, several, ref = FRONTS[front]
        cpu = refs.get(ref)
        sources = make_sources(rng, front, cpu, several)
        fault = None
        r = rng.random()
        if r < .35:
            k = rng.randrange(len(sources))
            fault = rng.choice(FAULTS)
            ls = sources[k].split('\n')
            at = rng.randrange(len(ls) + 1)
            sources[k] = '\n'.join(ls[:at] + [fault] + ls[at:])
        elif r < .42:
            fault = 'missing file'
        count[0] += 1
        d = os.path.join(tmp.name, str(count[0]))
        os.mkdir(d)
        paths = []
        for k, s in enumerate(sources):
            p = os.path.join(d, rng.choice(('s%d.s', 'a b %d.asm')) % k)
            with open(p, 'w') as f:
                f.write(s)
            paths.append(p)
        if fault == 'missing file':
            os.unlink(rng.choice(paths))
        if FRONTS[front][1] and rng.random() < .2:
            # the same file a second time, and a data file any number of times
            if rng.random() < .8:
                p = os.path.join(d, 'again.inc')
                with open(p, 'w') as f:
                    f.write('.db %d, "again"\n' % rng.randrange(256))
                for _ in range(rng.choice((1, 2, 2, 3))):
                    at = rng.randrange(1, len(paths) + 1)
                    paths.insert(at, p)
                    sources.insert(at, open(p).read())
            else:
                at = rng.randrange(len(paths))
                paths.append(paths[at])
                sources.append(sources[at])
        want = None if fault == 'missing file' else expected(front, sources, d)
        dest = os.path.join(d, 'out.bin')
        old = None
        if rng.random() < .5:
            old = b'previous contents' * rng.choice((1, 10, 3000))
            with open(dest, 'wb') as f:
                f.write(old)
        return dict(front=front, sources=sources, paths=paths, want=want, dest=dest, old=old, fault=fault, dir=d)

    def judge(c, code, text, how):
        front = c['front']
        chk.case((front, c['sources'], how), c['sources'])
        chk.count('runs/' + how)
        chk.see('fronts', front)
        rep = {'front_end': front, 'sources': c['sources'], 'fault': c['fault'], 'exit': code, 'output': text[-600:]}
        exists = os.path.exists(c['dest'])
        data = None
        if exists:
            with open(c['dest'], 'rb') as f:
                data = f.read()
        if c['want'] is None:
            chk.count('failing_runs')
            chk.expect(code != 0, 'status/' + front, lambda: '%s: exit status 0 for sources that fail (%s): %r' % (front, c['fault'], c['sources']), rep)
            chk.expect(data == c['old'], 'destination-on-failure/' + front,
                       lambda: '%s: failed run (%s) left the destination %s instead of %s' % (front, c['fault'], describe(data), describe(c['old'])), rep)
            left = sorted(set(os.listdir(c['dir'])) - {os.path.basename(p) for p in c['paths']} - {'out.bin'})
            chk.expect(not left, 'stray-files/' + front, lambda: '%s: a failed run left %s' % (front, left), rep)
        else:
            chk.count('successful_runs')
            img, extra = c['want']
            chk.expect(code == 0, 'fails/' + front, lambda: '%s: valid sources end with status %s: %s' % (front, code, text[-300:]), rep)
            if front == 'platforms.psx' and data is not None:
                head, data = data[:2048], data[2048:]
                for off, want in P.PSX_HEADER_FIELDS + ((0x1C, len(img).to_bytes(4, 'little')),):
                    chk.expect(head[off:off + len(want)] == want, 'psx-header', lambda: 'PS-X header at %x is %s' % (off, hx(head[off:off + len(want)])), rep)
            chk.expect(data == img, 'image/' + front, lambda: '%s: the destination is %s, expected %s for %r' % (front, describe(data), describe(img), c['sources']), rep)
            for suf, want in extra.items():
                try:
                    with open(c['dest'] + suf, 'rb') as f:
                        got = f.read()
                except OSError:
                    got = None
                chk.expect(got is not None and sorted(got.split(b'\r\n')) == sorted(want.split(b'\r\n')), 'extra-file/' + front, lambda: '%s: %s is %r, expected %r' % (front, suf, got, want), rep)
        for fn in os.listdir(c['dir']):
            os.unlink(os.path.join(c['dir'], fn))
        os.rmdir(c['dir'])

    fronts = sorted(FRONTS)
    for i in range(chk.n(35, 350)):
        for front in fronts:
            c = prepare(front)
            code, text = run_inside(front, c['paths'] + [c['dest']])
            judge(c, code, text, 'in process')
    cases = [prepare(f) for _ in range(chk.n(8, 60)) for f in fronts]
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda c: run_outside(c['front'], c['paths'] + [c['dest']]), cases))
    for c, (code, text) in zip(cases, results):
        judge(c, code, text, 'process')
    # relative paths, destination in another directory, sources given twice
    for front in fronts:
        d = os.path.join(tmp.name, 'rel')
        os.makedirs(os.path.join(d, 'out'))
        c = prepare(front)
        for _ in range(50):
            if c['want'] is None:
                c = prepare(front)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            rel = [os.path.relpath(p, d) for p in c['paths']]
            code, text = run_inside(front, rel + ['out/x.img'])
        finally:
            os.chdir(cwd)
        p = os.path.join(d, 'out', 'x.img')
        if os.path.exists(p):
            os.rename(p, c['dest'])
            for suf in ('.0.nl', '.ram.nl'):
                if os.path.exists(p + suf):
                    os.rename(p + suf, c['dest'] + suf)
        elif os.path.exists(c['dest']):
            os.unlink(c['dest'])
        judge(c, code, text, 'relative paths')
        os.rmdir(os.path.join(d, 'out'))
        os.rmdir(d)
    # the installed commands
    with open(os.path.join(REPO, 'setup.py')) as f:
        entries = re.findall(r'''["'](necro_\w+)\s*=\s*([\w.]+)\s*:\s*([\w.]+)["']''', f.read())
    chk.count('installed_commands', len(entries))
    for name, mod, attr in entries:
        chk.case(('entry', name))
        try:
            obj = importlib.import_module(mod)
            for a in attr.split('.'):
                obj = getattr(obj, a)
            ok = callable(obj)
            why = 'not callable'
        except Exception as e:
            ok, why = False, '%s: %s' % (type(e).__name__, e)
        if not chk.expect(ok, 'command/' + name, lambda: 'the installed command %s (%s:%s) cannot be run: %s' % (name, mod, attr, why), {'command': name}):
            continue
        front = mod.replace('necroassembler.', '')
        for _ in range(3):
            c = prepare(front)
            old = sys.argv
            sys.argv = [name] + c['paths'] + [c['dest']]
            code, text = 0, ''
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    obj()
            except SystemExit as e:
                code = e.code or 0
            except BaseException as e:
                code, text = 1, repr(e)
            finally:
                sys.argv = old
            judge(c, code, text, 'command')
    tmp.cleanup()
    chk.require('fronts', 18)
    chk.require('failing_runs', 150)
    chk.require('successful_runs', 300)
    chk.finish()


def describe(b):
    return 'absent' if b is None else '%d bytes %s' % (len(b), hx(b[:64]))
