"""C38: assembling any text ends, and does nothing but read the files it names."""
import contextlib
import csv  # noqa: F401 (imported before the monitor looks)
import io
import json  # noqa: F401
import os
import random
import re
import signal
import shutil
import sys
import tempfile
from ..harness import Check, Outcome, hx, REPO
from ..core import targets
from ..rich import Rich
from ..cpu import all_cpus
from .. import jobs as J, gen
from .c01 import cpu_lines

LIMIT = 45      # seconds one text may take


class Watch:
    """records what the process does while it assembles"""
    QUIET = ('os.listdir', 'os.scandir', 'os.walk', 'os.fspath', 'os.stat')

    def __init__(self):
        self.on = False
        self.events = []
        self.reads = []
        self.total = 0
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        self.total += 1
        if event == 'open':
            path, mode, flags = args
            writes = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if writes:
                self.events.append(('open for writing', str(path)))
            else:
                self.reads.append(path if isinstance(path, (str, int)) else os.fsdecode(path))
        elif event in ('compile', 'exec'):
            # modules imported now are no effect; text turned into code is
            name = args[1] if event == 'compile' else getattr(args[0], 'co_filename', '')
            if not os.path.isabs(str(name)) and not str(name).startswith('<frozen'):
                self.events.append((event, str(name)))
        elif event in ('import', 'marshal.loads', 'object.__getattr__', 'object.__setattr__', 'object.__delattr__', 'sys._getframe', 'builtins.id', 'code.__new__', 'sys.excepthook',
                       'cpython.run_file', 'glob.glob', 'gc.get_objects') or event in self.QUIET:
            pass
        elif event.startswith(('os.', 'subprocess.', 'shutil.', 'socket.', 'ctypes.', 'signal.', 'fcntl.', 'mmap.', 'pty.', 'ftplib.', 'urllib.', 'http.', 'resource.', 'tempfile.',
                               'sqlite3.', 'webbrowser.', 'smtplib.', 'sys.', 'builtins.', 'syslog.', 'winreg.', '_thread.', 'threading.')):
            self.events.append((event, repr(args)[:200]))


class TooLong(BaseException):
    pass


class Steps:
    """counts the lines of the assembler that run"""

    def __init__(self):
        self.n = 0
        self.mon = getattr(sys, 'monitoring', None)
        self.prefix = os.path.realpath(os.path.join(REPO, 'necroassembler')) + os.sep
        if self.mon is not None:
            self.mon.use_tool_id(4, 'steps')
            self.mon.register_callback(4, self.mon.events.LINE, self.line)
            # loops within a line
            self.mon.register_callback(4, self.mon.events.JUMP, self.jump)

    def line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return self.mon.DISABLE
        self.n += 1

    def jump(self, code, at, to):
        return self.line(code, at)

    def measure(self, f):
        if self.mon is None:
            return None, f()
        self.n = 0
        self.mon.set_events(4, self.mon.events.LINE | self.mon.events.JUMP)
        try:
            r = f()
        finally:
            self.mon.set_events(4, 0)
        return self.n, r


def tame(text):
    """no number asks for more memory than the sandbox has"""
    def cut(m):
        s = m.group(0)
        return s[:4] if len(s) > 4 else s
    text = re.sub(r'[0-9A-Fa-f]{5,}', cut, text)
    return re.sub(r'[0-9]{5,}', lambda m: m.group(0)[:4], text)


VOCAB = ['.db', '.dw', '.dd', '.org', '.fill', '.align', '.upto', '.goto', '.ram', '.repeat', '.endrepeat', '.macro', '.endmacro', '.define', '.section', '.export', '.include', '.incbin',
         '.inccsv', '.incjson', '.log', '.db_to_ascii', '.dw_to_asciiz', '.cartridge', '.tiles', '.bits', '(', ')', '[', ']', '{', '}', ',', ';', ':', '#', '$', '%', '@', '+', '-', '*', '/', '&',
         '|', '<', '>', '"', "'", '\\', '\n', '\n', '\r\n', '\t', ' ', ' ', '0', '1', '7', '16', '255', '256', '-1', '0x', '0x10', '$FF', '0b1', '0b', '1h', 'h', 'x', 'y', 'label', 'label:', 'm',
         "'a'", "'", '"a', 'a"', '"text"', '\x00', '\x0b', '\x0c', '\u00e9', '\u2028', '\ufeff', '\x85', '=', '!', '~', '.', '..', '_', '\\n', '++', '<<', '>>', '//', '/0', '*0', '-', '--']


def main():
    chk = Check('C38', 'texts of every kind for the toy CPUs, every shipped CPU and every console front end: random bytes and words of the language, valid programs with characters and lines '
                'lost, doubled, swapped or replaced, deep and long constructs, macros and includes that call themselves, names defined by each other; an audit hook watches every file that is '
                'opened and every process, socket or code object that is created, and the lines of the assembler that run are counted while sources grow; non-trivial = each distinct text', 3000)
    rng = chk.rng
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    watch, steps = Watch(), Steps()
    d = os.path.realpath(tempfile.mkdtemp(prefix='c38'))
    os.chdir(d)
    fixed = {'ok.inc': 'NOP\n', 'self.inc': '.include "self.inc"\n', 'a.inc': '.db 1\n.include "b.inc"\n', 'b.inc': '.db 2\n.include "a.inc"\n', 'data.bin': 'abc', 't.csv': '1,2\n', 'j.json': '{"k": [1]}',
             'bad.inc': '.db "never\n', 'empty.inc': '', 'image.png': 'no image'}
    for name, text in fixed.items():
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)
    tg = targets()
    classes = [('toy ' + t.name, t.cls, None) for t in tg] + [(c.name, c.factory, c) for c in all_cpus()]
    classes += [(k, J.cls_of(('platform', k)), None) for k in J.PLATFORMS]
    libs = tuple(os.path.realpath(p) + os.sep for p in sys.path if p and os.path.isdir(p) and os.path.realpath(p) not in ('/', d)) + (sys.prefix, sys.base_prefix)

    def alarm(signum, frame):
        fired.append(1)
        if len(fired) > 5:
            print('VIOLATION property=C38 replay=%s' % last_replay())
            sys.stdout.flush()
            os._exit(1)
        signal.alarm(2)
        raise TooLong()
    fired, current = [], [None]

    def last_replay():
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'replay', 'C38')
        os.makedirs(p, exist_ok=True)
        with open(os.path.join(p, '0.json'), 'w') as f:
            json.dump({'property': 'C38', 'what': 'assembling this text does not end', 'text': current[0]}, f)
        return os.path.join(p, '0.json')

    def state():
        out = {}
        for name in sorted(os.listdir(d)):
            with open(os.path.join(d, name), 'rb') as f:
                out[name] = f.read()
        return out, os.getcwd(), dict(os.environ)
    before = state()

    def run(name, cls, text, tag):
        r = Outcome()
        out, err = io.StringIO(), io.StringIO()
        del watch.events[:], watch.reads[:], fired[:]
        current[0] = (name, text)
        old = signal.signal(signal.SIGALRM, alarm)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                signal.alarm(LIMIT)
                asm = cls()
                watch.on = True
                r.asm = asm
                asm.assemble(text)
                asm.link()
                r.data = bytes(asm.assembled_bytes)
            except TooLong as e:
                r.exc, r.exc_type = e, 'TooLong'
            except Exception as e:
                r.exc, r.exc_type = e, type(e).__name__
            except BaseException as e:
                r.exc, r.exc_type = e, type(e).__name__
                chk.expect(False, 'leaves/' + r.exc_type, '%s: %r ends with %s' % (name, text[:300], r.exc_type), {'target': name, 'text': text})
            finally:
                watch.on = False
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
        chk.case((name, text), text)
        chk.see('outcomes', r.exc_type)
        chk.count('texts/' + tag)
        chk.count('accepted' if r.ok else 'refused')
        rep = {'target': name, 'text': text, 'observed': r.brief()[:500], 'events': list(watch.events), 'reads': [str(x) for x in watch.reads]}
        chk.expect(not fired, 'endless/' + tag, lambda: '%s: %r takes more than %d s' % (name, text[:300], LIMIT), rep)
        if fired:
            chk.finish()
        chk.expect(not watch.events, 'effect', lambda: '%s: assembling %r does %s' % (name, text[:300], watch.events[:5]), rep)
        for path in watch.reads:
            chk.count('files_read')
            if isinstance(path, int):
                continue
            real = os.path.realpath(path)
            named = path and str(path) in text or any(str(path) in t for t in fixed.values())
            chk.expect(named or real.startswith(libs + ('/nonexistent/pycache',)) and not real.startswith(d), 'read', lambda: '%s: assembling %r reads %s, which it does not name' % (name, text[:300], path), rep)
        if not re.search(r'log', text, re.I):
            chk.expect(out.getvalue() == '' and err.getvalue() == '', 'output', lambda: '%s: assembling %r prints %r' % (name, text[:300], (out.getvalue() + err.getvalue())[:300]), rep)
        return r

    def valid(name, cls, cpu):
        if cpu is not None:
            lines = ([cpu.prelude] if cpu.prelude else []) + [l for l, _ in cpu_lines(rng, cpu, rng.randrange(1, 10))]
        elif name.startswith('toy'):
            t = [t for t in tg if t.cls is cls][0]
            R = Rich(rng, t.num, d, features=('define', 'macro', 'repeat', 'org', 'pad'), probes=False)
            lines = R.block(rng.randrange(1, 12))
        else:
            lines = ['.org 0', '.fill 256', '.cartridge', '.db 1, 2', '.dw label', 'label:']
        return '\n'.join(lines) + '\n'

    def mutate(text):
        for _ in range(rng.randrange(1, 6)):
            k = rng.randrange(len(text) + 1)
            r = rng.random()
            if r < .2:
                text = text[:k] + text[k + rng.randrange(1, 4):]
            elif r < .45:
                text = text[:k] + rng.choice(VOCAB) + text[k:]
            elif r < .6:
                text = text[:k] + text[max(0, k - rng.randrange(1, 20)):k] + text[k:]
            elif r < .75:
                ls = text.split('\n')
                a, b = rng.randrange(len(ls)), rng.randrange(len(ls))
                ls[a], ls[b] = ls[b], ls[a]
                text = '\n'.join(ls)
            elif r < .9:
                text = text[:k] + chr(rng.choice((rng.randrange(32, 127), rng.randrange(128), rng.randrange(0x2100)))) + text[k + 1:]
            else:
                text = text[:k]
        return text

    # one of every kind first: modules are loaded on demand
    with contextlib.suppress(Exception):
        from PIL import Image
        Image.init()
        Image.open(os.path.join(d, 'image.png'))
    for i in range(chk.n(9000, 120000)):
        name, cls, cpu = rng.choice(classes)
        r = rng.random()
        if r < .25:
            text, tag = ''.join(chr(rng.choice((rng.randrange(128), rng.randrange(32, 127), rng.randrange(0x2100)))) for _ in range(rng.randrange(60))), 'noise'
        elif r < .55:
            text, tag = ''.join(rng.choice(VOCAB) + rng.choice(('', ' ')) for _ in range(rng.randrange(1, 30))), 'words'
        else:
            text, tag = mutate(valid(name, cls, cpu)), 'mutated'
        run(name, cls, tame(text), tag)
    # constructs that feed on themselves
    for name, cls, cpu in classes:
        nop = cpu.nop[0] if cpu is not None else 'NOP'
        for text in ('.macro m\nm\n.endmacro\nm\n', '.macro m x\n%s\nm x\nm x\n.endmacro\nm 1\n' % nop, '.macro a\nb\n.endmacro\n.macro b\na\n.endmacro\na\n', '.define a b\n.define b a\n.dw a, b\n',
                     '.define a a\n.dw a\n', '.define a a+1\n.dw a\n', '.macro m x\n%s\n.endmacro\nm m m m\n' % nop, '.macro m x\nx x\n.endmacro\nm m\n', '.macro m x y\nx y x\n.endmacro\nm m m\n',
                     '.include "self.inc"\n', '.include "a.inc"\n', '.include "bad.inc"\n', '.include "empty.inc"\n' * 50, '.include "."\n', '.incbin "/"\n', '.incjson "t.csv" "k"\n', '.inccsv "j.json"\n',
                     '.tiles "image.png"\n', '.include ""\n', ".include 'ok.inc'\n" * 3, '.incbin "data.bin"\n' * 3, 'a:\n' * 2, 'x: x: x:', 'a: .dw a+a+a+a-a\n', '.repeat 2\n.repeat 2\n', '.macro\n.macro\n',
                     '.dw ' + '1' + '+1' * 500, '.dw ' + '<' * 300 + '1', '.dw ' + '>' * 300 + '1', '.dw ' + '-' * 300 + '1', '.db "' + '\\' * 401 + '"', "'" * 301, '"' * 301, '\\' * 500, ':' * 300, ';' * 300,
                     '(' * 400 + ')' * 400, nop + ' ' + '(' * 400, nop + ' ' + 'a,' * 400, '.' * 400, ',' * 400, 'x' * 20000, '.db ' + '9' * 4000, '.db 0x' + 'f' * 4000, '%' * 400, '$' * 400, '#' * 400,
                     '\n' * 5000, ' ' * 5000, '\t;' * 2000, '\r' * 300, '.db ' + "'a'," * 400, '.dw ' + '1*' * 300 + '1', '.dw ' + '9*' * 300 + '9', '.dw 7/0', '.dw a/a\na:', '.align 0', '.repeat 0\n.endrepeat',
                     '.org -1', '.org 0 0', '.upto -1', '.ram -1', '.fill -1', '.align -4', '.goto -4', '.org 5 4', '.org 4 4\n.org 5 5\n.org 4'):
            run(name, cls, text, 'construct')
        # padding nobody has the memory for
        for where in ('', '.db 1\n', '.org 7\n', '.org 4 99\n.db 1\n', '.ram 3\n'):
            for pad in ('.align -4', '.align -3', '.align 9223372036854775807', '.align 18446744073709551615', '.fill 9223372036854775807', '.fill -4', '.goto 9223372036854775807', '.goto -4',
                        '.upto 9223372036854775807', '.upto -4', '.align 4611686018427387904', '.org 18446744073709551615', '.ram 9223372036854775807', '.org 5 9223372036854775807\n.org 6',
                        '.org 5 4611686018427387904'):
                run(name, cls, where + pad + '\n', 'absurd')
    after = state()
    chk.expect(before[0] == after[0], 'files-changed', lambda: 'files changed: %s' % sorted(set(before[0].items()) ^ set(after[0].items()))[:5])
    chk.expect(before[1:] == after[1:], 'process-changed', 'the working directory or the environment changed')
    # sources that grow: the work grows with them
    if steps.mon is not None:
        shapes = {
            'statements': lambda n, nop, t: (nop + '\n') * n, 'blank lines': lambda n, nop, t: '\n' * n + nop, 'comments': lambda n, nop, t: ('; ' + 'x' * 20 + '\n') * n, 'long comment': lambda n, nop, t: ';' + 'x' * n,
            'data list': lambda n, nop, t: '.db ' + ', '.join(['1'] * n), 'text': lambda n, nop, t: '.db "' + 'ab;c' * n + '"', 'escapes': lambda n, nop, t: '.db "' + '\\"' * n + '"',
            'labels': lambda n, nop, t: ''.join('l%d: %s\n' % (i, nop) for i in range(n)), 'references': lambda n, nop, t: '.dw x\n' * n + 'x:\n', 'chars': lambda n, nop, t: ".db ';'\n" * n,
            'forward': lambda n, nop, t: ''.join('.dd l%d\n' % i for i in range(n)) + ''.join('l%d:\n' % i for i in range(n)), 'defines': lambda n, nop, t: ''.join('.define d%d %d\n' % (i, i % 200) for i in range(n)) + ''.join('.db d%d\n' % i for i in range(n)),
            'macros': lambda n, nop, t: ''.join('.macro m%d x\n%s\n.endmacro\nm%d 1\n' % (i, nop, i) for i in range(n)), 'macro calls': lambda n, nop, t: '.macro m x\n%s\n%s\n.endmacro\n' % (nop, nop) + 'm 1\n' * n,
            'macro body': lambda n, nop, t: '.macro m x\n' + (nop + '\n') * n + '.endmacro\nm 1\n', 'labels sum': lambda n, nop, t: 'x: .dw ' + '+'.join(['x'] * n), 'operators': lambda n, nop, t: '.dw 1' + '+' * n, 'signs': lambda n, nop, t: '.dw ' + '-' * n + '1', 'shifts': lambda n, nop, t: '.dw ' + '>' * n + '1',
            'low bytes': lambda n, nop, t: '.db ' + '<' * (n % 7 + 1) + '1', 'brackets': lambda n, nop, t: nop + ' ' + '(' * n + ')' * n, 'long name': lambda n, nop, t: 'x' * n + ': .dw ' + 'x' * n, 'dots': lambda n, nop, t: nop + ' ' + 'a.b' * n,
            'quotes': lambda n, nop, t: "a'" * n, 'long number': lambda n, nop, t: '.dw ' + '0' * n + '1', 'sum': lambda n, nop, t: '.dw ' + '+'.join(['1'] * n), 'origins': lambda n, nop, t: ''.join('.org %d %d\n%s\n' % (i * 16, i * 16 + 15, nop) for i in range(1, n)),
            'sections': lambda n, nop, t: ''.join('.section "s%d" R\n%s\n' % (i, nop) for i in range(n)), 'repeat': lambda n, nop, t: '.repeat %d\n%s\n.endrepeat\n' % (n, nop), 'repeats': lambda n, nop, t: ('.repeat 2\n%s\n.endrepeat\n' % nop) * n,
            'repeated references': lambda n, nop, t: 'x: .repeat 2\n.dw x\n.endrepeat\n' + '.repeat 2\n.dw x\n.endrepeat\n' * n,
            'includes': lambda n, nop, t: '.include "ok.inc"\n' * n if t else nop, 'unknown': lambda n, nop, t: 'w' * n + '\n', 'spaces': lambda n, nop, t: nop + ' ' * n + '\n' + ' ' * n + nop,
            'arguments': lambda n, nop, t: '.macro m ' + ' '.join('a%d' % i for i in range(n)) + '\n%s\n.endmacro\nm ' % nop + ' '.join('1' for i in range(n)) + '\n',
        }
        small = 80 if not chk.thorough else 400
        for name, cls, cpu in classes:
            nop = cpu.nop[0] if cpu is not None else 'NOP'
            if name == 'psx':
                nop = 'nop'
            if name == 'nes' or name in J.PLATFORMS and name not in ('psx',):
                nop = 'NOP'
            names = sorted(shapes) if name in (classes[0][0], classes[1][0]) or chk.thorough else rng.sample(sorted(shapes), 6)
            for shape in names:
                make = shapes[shape]
                toy = name.startswith('toy')
                got = []
                for k in (1, small, 8 * small):
                    text = make(k, nop, toy)
                    n, r = steps.measure(lambda: run(name, cls, text, 'growing'))
                    got.append(n)
                one, a, b = got
                chk.count('growth_measured')
                chk.count('steps_counted', a + b)
                chk.see('shapes', shape)
                # eight times the text: about eight times the work, and far from sixty four times
                # (every .endrepeat looks at all the references of the program)
                limit = 100 if shape == 'repeated references' else 24
                grown = (b - one) / max(1, a - one)
                chk.expect(b - one <= limit * max(200, a - one), 'growth/' + shape, lambda: '%s: %s of size %d takes %d steps, of size %d %d steps (%.1f times)' % (
                    name, shape, small, a, 8 * small, b, grown), {'target': name, 'shape': shape, 'steps': got})
    chk.count('audit_events', watch.total)
    os.chdir('/')
    shutil.rmtree(d)
    chk.require('accepted', 200)
    chk.require('refused', 2000)
    chk.require('files_read', 100)
    chk.require('audit_events', 100)
    chk.finish()
