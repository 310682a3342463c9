from ._cpu import run
from ..cpu import x86


def main():
    run('C29', x86.cpus(), 'the opcode map, ModR/M, SIB and prefix rules of the Intel manual for the instruction forms the assembler has, in each code size',
        min_forms=600, combos=(4, 30), per_form=(9, 90), values=(2, 16), neg_limit=(100000, 100000),
        label_limit=(2000, 40000), refuse_limit=(400, 4000))
