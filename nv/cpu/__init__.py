"""Registry of the CPU references."""
import importlib

NAMES = ('mos6502', 'z80', 'lr35902', 'intel8086', 'mips32', 'thumb', 'mc68000', 'powerpc', 'x86')


def all_cpus():
    out = []
    for n in NAMES:
        try:
            m = importlib.import_module('nv.cpu.' + n)
        except ModuleNotFoundError as e:
            if e.name == 'nv.cpu.' + n:
                continue
            raise
        out += m.cpus() if hasattr(m, 'cpus') else [m.cpu()]
    return out
