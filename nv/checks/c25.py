from ._cpu import run
from ..cpu import mips32


def main():
    run('C25', mips32.cpus(), 'every instruction format of the MIPS32 manual with its fields, in both byte orders', min_forms=45, rounds=6)
