"""Specification of the edits: which candidates are tried for a misspelled word."""


def replchars(word, reptable):
    """One replacement by the table; with a space in the result, also the separate words"""
    if len(word) >= 2:
        for pattern in reptable:
            for start, end in pattern.spots(word):
                text = word[:start] + pattern.replacement.replace('_', ' ') + word[end:]
                yield text
                if ' ' in text:
                    yield text.split(' ', 2)


def mapchars(word, maptable):
    if len(word) >= 2 and maptable:
        yield from mapchars_from(word, maptable, 0)


def mapchars_from(word, maptable, start):
    """Replace the first occurrence (from start on) of some option by another one of its group, and go on after it"""
    if start < len(word):
        for options in maptable:
            for option in options:
                pos = word.find(option, start)
                if pos != -1:
                    for other in options:
                        if other != option:
                            text = word[:pos] + other + word[pos + len(option):]
                            yield text
                            yield from mapchars_from(text, maptable, pos + len(other))


def swapped(word, i, j):
    """i < j"""
    return word[:i] + word[j] + word[i + 1:j] + word[i] + word[j + 1:]


def swapchar(word):
    for i in range(0, len(word) - 1):
        yield swapped(word, i, i + 1)
    if len(word) == 4:
        yield swapped(swapped(word, 0, 1), 2, 3)
    if len(word) == 5:
        yield swapped(swapped(word, 0, 1), 3, 4)
        yield swapped(swapped(word, 1, 2), 3, 4)


def longswapchar(word):
    for i in range(0, len(word)):
        for j in range(i + 2, i + 4):
            if j < len(word):
                yield swapped(word, i, j)


def badcharkey(word, layout):
    for i in range(0, len(word)):
        if word[i] != word[i].upper():
            yield word[:i] + word[i].upper() + word[i + 1:]
        for pos in range(0, len(layout)):
            if layout[pos] == word[i]:
                if pos > 0 and layout[pos - 1] != '|':
                    yield word[:i] + layout[pos - 1] + word[i + 1:]
                if pos + 1 < len(layout) and layout[pos + 1] != '|':
                    yield word[:i] + layout[pos + 1] + word[i + 1:]


def extrachar(word):
    if len(word) >= 2:
        for i in range(0, len(word)):
            yield word[:i] + word[i + 1:]


def forgotchar(word, trystring):
    for k in range(0, len(trystring)):
        for i in range(0, len(word) + 1):
            yield word[:i] + trystring[k] + word[i:]


def movechar(word):
    # forward: the character from i stands before what was at j
    for i in range(0, len(word)):
        for j in range(i + 3, i + 5):
            if j <= len(word):
                yield word[:i] + word[i + 1:j] + word[i] + word[j:]
    # backward, from the last character on, nearest place first
    for back in range(0, len(word)):
        i = len(word) - 1 - back
        for distance in range(2, 4):
            j = i - distance
            if j >= 0:
                yield word[:j] + word[i] + word[j:i] + word[i + 1:]


def badchar(word, trystring):
    for k in range(0, len(trystring)):
        for back in range(0, len(word)):
            i = len(word) - 1 - back
            if word[i] != trystring[k]:
                yield word[:i] + trystring[k] + word[i + 1:]


def doubletwochars(word):
    """abab -> ab"""
    if len(word) >= 5:
        for i in range(0, len(word) - 3):
            if word[i] == word[i + 2] and word[i + 1] == word[i + 3]:
                yield word[:i + 2] + word[i + 4:]


def twowords(word):
    for i in range(1, len(word)):
        yield [word[:i], word[i:]]
