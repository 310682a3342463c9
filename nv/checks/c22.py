from ._cpu import run
from ..cpu import z80


def main():
    run('C22', [z80.cpu()], 'the full Z80 main, CB, ED, DD, FD, DDCB and FDCB maps rebuilt from their bit fields', min_forms=850, rounds=4)
