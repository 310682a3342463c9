"""Assembly jobs (class + sources) whose results are compared between executions:
alone in a forked process, interleaved, in threads, in other processes."""
import hashlib
import importlib
import os
import pickle
import random
import sys
from .harness import import_repo
import_repo()
from . import toy  # noqa: E402

PLATFORMS = {
    'gameboy': ('necroassembler.platforms.gameboy', 'AssemblerGameboy', 'lr35902'),
    'nes': ('necroassembler.platforms.nes', 'AssemblerNES', '6502'),
    'sms': ('necroassembler.platforms.sms', 'AssemblerSegaMasterSystem', 'z80'),
    'psx': ('necroassembler.platforms.psx', 'AssemberPSX', None),
}
CPUS = {'6502': ('mos6502', 'AssemblerMOS6502'), 'z80': ('z80', 'AssemblerZ80'), 'lr35902': ('lr35902', 'AssemblerLR35902'),
        '8086': ('intel8086', 'AssemblerIntel8086'), 'mips32': ('mips32', 'AssemblerMIPS32'), 'thumb': ('thumb', 'AssemblerThumb'),
        '68000': ('mc68000', 'AssemblerMC68000'), 'powerpc': ('powerpc', 'AssemblerPowerPC'), 'x86': ('x86', 'AssemblerX86')}


def cls_of(key):
    if key[0] == 'toy':
        return _toy(*key[1:])
    if key[0] == 'cpu':
        m, c = CPUS[key[1]]
        return getattr(importlib.import_module('necroassembler.cpu.' + m), c)
    m, c, _ = PLATFORMS[key[1]]
    return getattr(importlib.import_module(m), c)


_cache = {}


def _toy(style, big, fill):
    k = (style, big, fill)
    if k not in _cache:
        _cache[k] = toy.make(style, big, fill)
    return _cache[k]


def summary(asm, exc):
    """what an execution produced, in a comparable form"""
    def names(d):
        return sorted((str(k), repr(v)) for k, v in d.items())
    out = {'error': None if exc is None else (type(exc).__name__, str(exc)),
           'bytes': bytes(asm.assembled_bytes).hex(),
           'labels': names(asm.labels), 'defines': names(asm.defines), 'macros': sorted(asm.macros),
           'sections': names(asm.sections), 'exports': list(asm.exports), 'pc': asm.pc,
           'instructions': sorted(asm.instructions), 'directives': sorted(asm.directives)}
    return out


def digest(s, text_errors=True):
    s = dict(s)
    if not text_errors and s['error']:
        s['error'] = s['error'][0]
    return hashlib.blake2b(repr(sorted(s.items())).encode(), digest_size=12).hexdigest()


class Run:
    """one job executed in steps: create, one step per line (or the whole text), link"""

    def __init__(self, job, whole):
        self.job, self.whole = job, whole
        self.asm = None
        self.exc = None
        self.steps = ['create'] + ([None] if whole else list(range(len(job['lines'])))) + ['link']
        self.at = 0

    @property
    def done(self):
        return self.at >= len(self.steps)

    def step(self):
        s = self.steps[self.at]
        self.at += 1
        try:
            if s == 'create':
                self.asm = cls_of(self.job['cls'])()
                for n, v in self.job.get('register', ()):
                    self.asm.register_define(n, v)
            elif s == 'link':
                self.asm.link()
            elif s is None:
                self.asm.assemble('\n'.join(self.job['lines']) + '\n')
            else:
                self.asm.assemble(self.job['lines'][s] + '\n')
        except Exception as e:
            self.exc = e
            self.at = len(self.steps)

    def run(self):
        while not self.done:
            self.step()
        return self.result()

    def result(self):
        return summary(self.asm, self.exc)


def alone(jobs, whole):
    """every job in its own process, forked before anything was assembled there"""
    out = []
    for job in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                data = pickle.dumps(Run(job, whole).run())
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else None)
    return out


def main():
    """python3 -m nv.jobs JOBS: prints one digest per job (run in another process)"""
    with open(sys.argv[1], 'rb') as f:
        jobs = pickle.load(f)
    random.seed()
    for j in jobs:
        print(digest(Run(j, True).run()), flush=False)


if __name__ == '__main__':
    main()
