"""Body shared by the per-CPU encoding checks."""
from ..harness import Check
import re
from ..forms import STYLES, drive_places, drive_names, drive_negated, drive_literals, collect_labels, check_label_items, check_label_refusals, LiteralDriver


NUMBERED = {'68000': r'([dDaA])([0-7])', 'mips32': r'(\$)(\d|[12]\d|3[01])', 'powerpc': r'([rRfF])(\d|[12]\d|3[01])', 'thumb': r'([rR])([0-7])'}


def renumber(rng, line, cpu):
    """other registers of the same kinds"""
    for name, pattern in NUMBERED.items():
        if cpu.name.startswith(name):
            top = 8 if name in ('68000', 'thumb') else 32
            return re.sub(r'(?<![\w$-])' + pattern + r'(?![\w-])', lambda m: m.group(1) + str(rng.randrange(top)), line)
    return line


def run(prop, cpus, rule, extra=None, combos=(60, 120), values=(4, 40), per_form=(120, 400), neg_limit=(160000, 200000), min_forms=50,
        label_limit=(6000, 60000), refuse_limit=(800, 6000), spell=.4, rounds=1):
    chk = Check(prop, rule + '; operands: all register classes, boundary and random values in every declared notation, as literals and as '
                'labels defined before / after the use; refusals: out-of-field values and operand combinations that have no encoding; '
                'every distinct line counts as non-trivial', 1000)
    i = 1 if chk.thorough else 0
    rng = chk.rng
    # a thorough run repeats everything with other operands
    for cpu in list(cpus) * (rounds if chk.thorough else 1):
        d = drive_literals(chk, cpu, combos=combos[i], values=values[i], per_form=per_form[i])
        if cpu.negatives:
            neg = list(cpu.negatives(rng))
            chk.count('illegal_combinations_known', len(neg))
            if len(neg) > neg_limit[i]:
                neg = neg[:20] + rng.sample(neg[20:], neg_limit[i])
            for line in neg:
                fid = 'illegal/' + line.split()[0]
                if rng.random() < .4:
                    line = renumber(rng, line, cpu)
                style = rng.choice(STYLES) if rng.random() < .5 else None
                if style:
                    line = style(cpu, rng, line)
                chk.case((cpu.name, line))
                d.refuse(fid, line, 'no such operand combination')
        drive_places(chk, cpu, 3 if not chk.thorough else 12)
        drive_names(chk, cpu, chk.n(4000, 40000))
        drive_negated(chk, cpu, chk.n(500, 5000))
        good, bad = collect_labels(chk, cpu, None, values=values[i], spell=spell)
        if len(good) > label_limit[i]:
            keep = {}
            rng.shuffle(good)
            for g in good:
                keep.setdefault(g[4].id, g)
            good = list(keep.values()) + good[:label_limit[i]]
        check_label_items(chk, cpu, good, 'label', modes=(True, False) if not chk.thorough else (True, False, 'mixed'))
        check_label_refusals(chk, cpu, bad, 'label', limit=refuse_limit[i])
    if extra:
        extra(chk)
    chk.require('forms', min_forms)
    chk.finish()
