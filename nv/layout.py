"""Re-renders source lines with a different layout but the same tokens."""
import random

COMMENTS = ('', ' plain words', ' it\'s "quoted', ' .org 0', ' label: NOP', ' (unbalanced [', ' a ; second', '\tTAB, comma, \'x', '"""', "'", ' \\', ';;;', ' .macro foo', ':', ' $%@#!',
            ' \x0b\x0c', ' caf\xe9')


def lex(line):
    """('w', text) words, ('q', text) quoted with quotes, ('b', bracket); commas and blanks dropped"""
    out = []
    i = 0
    word = ''

    def flush():
        nonlocal word
        if word:
            out.append(('w', word))
        word = ''
    while i < len(line):
        ch = line[i]
        if ch in '"\'' and not (ch == "'" and word[-1:].isalnum()):
            flush()
            j = i + 1
            while line[j] != ch:
                j += 2 if line[j] == '\\' else 1
            out.append(('q', line[i:j + 1]))
            i = j + 1
            continue
        if ch in ' \t,':
            flush()
        elif ch in '()[]{}':
            flush()
            out.append(('b', ch))
        else:
            word += ch
        i += 1
    flush()
    return out


def flip(rng, word):
    r = rng.random()
    if r < 0.3:
        return word.upper()
    if r < 0.6:
        return word.lower()
    return ''.join(rng.choice((c.upper(), c.lower())) for c in word)


def gap(rng, wide=True):
    return ''.join(rng.choice((' ', '\t', '  ', ' \t ')) for _ in range(rng.randrange(1, 3)))


def relayout_line(rng, line, flip_head=True):
    toks = lex(line)
    if not toks:
        return ''
    out = ''
    prev = None
    for n, (k, t) in enumerate(toks):
        if n == 0 and k == 'w' and flip_head:
            t = flip(rng, t)
        if prev is not None:
            if 'b' in (k, prev):
                # brackets end a word by themselves
                sep = rng.choice(('', '', ' ', '\t', '  '))
                if n == 1:
                    sep = rng.choice(('', ' ', '\t'))
                elif rng.random() < .25:
                    sep = rng.choice((',', ' ,', ', ', ' , '))
            elif n == 1:
                sep = gap(rng)
            else:
                sep = rng.choice((',', ', ', ' ,', ' , ', ' ', '\t', '  ', ',\t', '\t,'))
            if k == 'q' and t[0] == "'" and sep == '':
                sep = ' '
            if prev == 'q' and sep == '':
                sep = ' '
            out += sep
        out += t
        prev = k
    return out


def relayout(rng, lines, flip_head=True, crlf=None, labels_inline=True):
    """lines: list of source lines; a line 'name:' is a label. -> text"""
    if crlf is None:
        crlf = rng.choice(('\n', '\r\n', '\r', 'mix'))

    def eol():
        return crlf if crlf != 'mix' else rng.choice(('\n', '\r\n', '\r'))

    def tail():
        c = rng.choice(('', '', ' ', '\t', '  '))
        if rng.random() < .35:
            c += ';' + rng.choice(COMMENTS)
        return c
    text = ''
    pending = ''
    last = len(lines) - 1
    for i, line in enumerate(lines):
        while rng.random() < .2:
            if pending:
                break
            text += rng.choice(('', ' ', '\t', ';' + rng.choice(COMMENTS), '  ;' + rng.choice(COMMENTS))) + eol()
        indent = rng.choice(('', '', ' ', '\t', '    '))
        if line.endswith(':') and '"' not in line and "'" not in line and ' ' not in line:
            pending += (indent if not pending or rng.random() < .5 else '') + line
            if labels_inline and rng.random() < .6 and i != last:
                pending += rng.choice(('', ' ', '\t'))
                continue
            text += pending + tail() + eol()
            pending = ''
            continue
        text += pending + indent + relayout_line(rng, line, flip_head)
        pending = ''
        if i == last and rng.random() < .5:
            if rng.random() < .4:
                text += rng.choice((' ', '\t', ' ;' + rng.choice(COMMENTS)))
            return text
        text += tail() + eol()
    return text + pending
