from ._cpu import run
from ..cpu import lr35902


def main():
    run('C23', [lr35902.cpu()], 'the full LR35902 main and CB maps rebuilt from their bit fields, in both bracket spellings', min_forms=500, neg_limit=(200000, 200000), rounds=8)
