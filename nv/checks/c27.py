from ._cpu import run
from ..cpu import mc68000


def main():
    run('C27', [mc68000.cpu()], 'every effective address of the 68000 manual in every instruction the assembler has', min_forms=500, rounds=3,
        combos=(16, 60), per_form=(40, 200), values=(2, 20))
