from ._cpu import run
from ..cpu import intel8086


def main():
    run('C24', [intel8086.cpu()], 'the opcode map and ModR/M tables of the 8086 manual for the instruction forms the assembler has', min_forms=120, rounds=8)
