from ._cpu import run
from ..cpu import powerpc


def main():
    run('C28', [powerpc.cpu()], 'every instruction form of the PowerPC architecture whose operand classes the assembler supports, with its fields', min_forms=400, rounds=5,
        combos=(40, 90), per_form=(80, 300))
