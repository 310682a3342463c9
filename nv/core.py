"""Runs an abstract program on the real assembler and on the model."""
from .harness import execute, hx
from . import model
from .model import Bad
from .toy import make, Num, STYLES


def with_probe(asm, out):
    def probe(instr):
        out.events.append((asm.pc, len(asm.assembled_bytes)))
    asm.register_directive('probe', probe)


class Target:
    """a configuration of the toy CPU"""

    def __init__(self, style, big, fill):
        self.cls = make(style, big, fill)
        self.num = Num(STYLES[style])
        self.style, self.big, self.fill = style, big, fill
        self.name = '%s/%s/fill%02x' % (style, 'be' if big else 'le', fill)


def targets():
    return [Target(s, b, f) for s, b, f in (('prefix', False, 0), ('prefix', True, 0xFF),
                                            ('suffix', False, 0x5A), ('suffix', True, 0), ('plain', True, 0xE7), ('plain', False, 1))]


def compare(chk, tgt, program, mech, src=None, trace=False, labels=True, rng=None):
    """runs program both ways; reports any difference under the mechanism name"""
    if src is None:
        src = model.source(program, rng)
    try:
        want, wlabels, wtrace = model.run(program, tgt.big, tgt.fill)
        bad = None
    except Bad as e:
        want, bad = None, str(e)
    got = execute(tgt.cls, src.split(model.EOS), setup=with_probe)
    rep = lambda: {'target': tgt.name, 'source': src, 'expected': bad or hx(want), 'observed': got.brief()}
    if bad is not None:
        chk.count('refusals_expected')
        chk.expect(not got.ok, mech + '/accepted-bad', lambda: 'accepted although %s: %r -> %s' % (bad, src[:300], got.brief()), rep)
        return False
    chk.count('images_compared')
    if not chk.expect(got.ok, mech + '/rejected', lambda: 'valid program refused: %r -> %s' % (src[:300], got.brief()), rep):
        return True
    chk.expect(got.data == want, mech + '/bytes',
               lambda: 'image differs for %r: expected %s, got %s' % (src[:300], hx(want)[:300], hx(got.data)[:300]), rep)
    if trace:
        chk.count('probe_events', len(got.events))
        chk.expect(got.events == wtrace, mech + '/counter',
                   lambda: 'location counter trace differs for %r: expected %s, got %s' % (src[:400], wtrace, got.events), rep)
    if labels and wlabels:
        for name, v in wlabels.items():
            g = got.asm.get_label_absolute_address_by_name(name)
            chk.expect(g == v, mech + '/label', lambda: 'label %s is %r, expected %r in %r' % (name, g, v, src[:400]), rep)
    return True
