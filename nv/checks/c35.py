"""C35: operand patterns match exactly the operands they describe."""
from ..harness import Check, execute, hx
from ..toy import STYLES, import_repo
import_repo()
from necroassembler import Assembler, opcode  # noqa: E402
from necroassembler.utils import match as utils_match  # noqa: E402

WORDS = ['a', 'A', 'b', 'hl', 'HL', 'Hl', 'ix', '(', ')', '[', ']', '#5', '$10', '0x1F', '7', 'sp', 'r0', 'R0', 'r10', 'label', 'Label', '#', '+', 'pc', 'x+1', "'c'", '"s"', 'af', "af'", "AF'", 'b.w', 'hl2']
CALLS = [('upper', str.isupper), ('alpha', str.isalpha), ('hash', lambda t: t.startswith('#')), ('short', lambda t: len(t) == 1), ('never', lambda t: False),
         ('always', lambda t: True), ('truthy', lambda t: t.count('0')), ('none', lambda t: None), ('list', lambda t: [t] if 'l' in t else [])]


class P:
    def __init__(self, rng):
        r = rng.random()
        if r < .2:
            self.kind, self.real, self.test = 'any', None, lambda t: True
        elif r < .5:
            w = rng.choice(WORDS)
            self.kind, self.real, self.test = 'text', w, lambda t: t.upper() == w.upper()
        elif r < .75:
            ws = rng.sample(WORDS, rng.randrange(0, 6) if rng.random() < .8 else rng.randrange(6, len(WORDS)))
            form = rng.choice((tuple, list, set, lambda x: dict.fromkeys(x)))(ws)
            low = {x.upper() for x in ws}
            self.kind, self.real, self.test = 'group', form, lambda t: t.upper() in low
        else:
            n, f = rng.choice(CALLS)
            self.kind, self.real, self.test = 'call ' + n, f, lambda t: bool(f(t))
        self.seen = []

    def pattern(self, log):
        if self.kind.startswith('call'):
            f = self.real

            def wrapped(t):
                log.append(t)
                return f(t)
            return wrapped
        return self.real


def main():
    chk = Check('C35', 'random operand patterns (anything, words, groups of words, functions) asked by random handlers with every kind of operand list and starting place; each answer '
                'is compared with the meaning of the pattern, and the first form that matches decides the emitted bytes; non-trivial = each distinct (patterns, operands)', 3000)
    rng = chk.rng
    for i in range(chk.n(6000, 100000)):
        forms = []
        for _ in range(rng.randrange(1, 7)):
            forms.append((rng.choice(('match', 'match', 'unbound', 'utils')), [P(rng) for _ in range(rng.randrange(0, 5))], rng.choice((1, 1, 1, 0, 2))))
        forms = [(k, ps, st) for k, ps, st in forms if ps or k == 'match']
        if not forms:
            continue
        cases = []
        log = []

        def handler(self, instr):
            toks = list(instr.tokens)
            for k, (kind, ps, st) in enumerate(forms):
                calls = []
                pats = [p.pattern(calls) for p in ps]
                if kind == 'match':
                    got = instr.match(*pats) if st == 1 else instr.match(*pats, start=st)
                elif kind == 'unbound':
                    got = instr.unbound_match(*pats) if st == 1 else instr.unbound_match(*pats, start=st)
                else:
                    got = utils_match(toks[st:], *pats)
                log.append((k, toks, got, calls, list(instr.tokens)))
                if got[0] if kind == 'unbound' else got:
                    fs = [None if rng.random() < .3 else rng.choice((str.upper, len, lambda t: t + '!', lambda t: None, lambda t: '', lambda t: 0, lambda t: [t])) for _ in range(rng.randrange(0, max(1, len(toks) - st)))]
                    if st + len(fs) <= len(toks):
                        res = instr.apply(*fs) if st == 1 and len(fs) < len(toks) else instr.apply(*fs, start=st)
                        s0 = st
                        want = [f(t) for f, t in zip(fs, toks[s0:]) if f is not None]
                        chk.count('applied')
                        chk.expect(res == want, 'apply', lambda: 'apply of %d functions from %d on %s gives %s, expected %s' % (len(fs), s0, toks, res, want), {'tokens': toks})
                    return bytes([k, 0xA5])
            return None
        cls = type('M', (Assembler,), dict(STYLES['prefix'], op=opcode('OP')(handler), case_sensitive=rng.random() < .5))
        for _ in range(6):
            # operands near one of the forms
            kind, ps, st = rng.choice(forms)
            ops = []
            for p in ps:
                if p.kind == 'text' and rng.random() < .85:
                    w = p.real
                    ops.append(w if '"' in w or "'" in w else rng.choice((w, w.upper(), w.lower())))
                elif p.kind == 'group' and p.real and rng.random() < .85:
                    w = rng.choice(sorted(p.real))
                    ops.append(w if '"' in w or "'" in w else rng.choice((w, w.upper(), w.lower())))
                else:
                    ops.append(rng.choice(WORDS))
            if st == 0 and ops:
                ops = ops[1:]
            if st == 2:
                ops.insert(0, rng.choice(WORDS))
            if ops and rng.random() < .25:
                # nearly the word
                k = rng.randrange(len(ops))
                w = ops[k]
                if w not in '()[]' and '"' not in w and w[0].isalnum():
                    ops[k] = rng.choice((w + "'", w + '1', w + '_', w + '.', w + w[-1], w[:-1] or 'q', '_' + w, w + '#', w + '+', w[1:] or 'q', '.' + w, w.rstrip("'")))
                    chk.count('near_words')
            r = rng.random()
            if r < .12:
                ops.append(rng.choice(WORDS))
            elif r < .2 and ops:
                ops.pop()
            elif r < .3 and len(ops) > 1:
                a, b = rng.sample(range(len(ops)), 2)
                ops[a], ops[b] = ops[b], ops[a]
            src = rng.choice(('OP', 'OP')) + ' ' + ', '.join(ops)
            del log[:]
            r = execute(cls, src)
            chk.case((src, [(k, [(p.kind, p.real if isinstance(p.real, (str, tuple, list)) else None) for p in ps], st) for k, ps, st in forms]), src)
            rep = {'source': src, 'forms': [(k, [(p.kind, repr(p.real)) for p in ps], st) for k, ps, st in forms], 'observed': r.brief()}
            if not any("''" in o or o[:1] == '.' and "'" in o for o in ops):
                chk.count('operand_lists')
                chk.expect(bool(log) and log[0][1][1:] == ops, 'operands', lambda: '%r: the operands are %s, the handler got %s: %s' % (src, ops, log[0][1][1:] if log else None, r.brief()), rep)
            first = None
            for k, toks, got, calls, after in log:
                kind, ps, st = forms[k]
                given = toks[st:]
                n = len(ps)
                fits = (len(toks) - st == n if kind == "match" else len(given) == n if kind == "utils" else len(given) >= n) and all(p.test(t) for p, t in zip(ps, given))
                want = (True, st + n) if kind == 'unbound' and fits else (False, None) if kind == 'unbound' else fits
                chk.count('asked/' + kind)
                chk.see('pattern_kinds', tuple(p.kind for p in ps))
                chk.expect(got == want, 'answer/' + kind, lambda: '%s of %s from %d on %s says %s, expected %s' % (
                    kind, [(p.kind, p.real) for p in ps], st, toks, got, want), rep)
                chk.expect(after == toks, 'operands-changed/' + kind, lambda: 'the operands %s became %s' % (toks, after), rep)
                if fits and first is None:
                    first = k
            chk.count('matched' if first is not None else 'unmatched')
            if first is None:
                chk.expect(not r.ok, 'accepted', lambda: '%r: no form matches, but it gives %s' % (src, r.brief()), rep)
            else:
                chk.expect(r.ok and r.data == bytes([first, 0xA5]), 'form', lambda: '%r: form %d matches first, but it gives %s' % (src, first, r.brief()), rep)
    chk.require('matched', 1500)
    chk.require('unmatched', 500)
    chk.require('applied', 500)
    chk.finish()
