"""Specification of capitalization: types, variants and transformations of a word's letter case."""

from spec.model import CapType


class Casing:
    """Generic rules: one lowercase and one uppercase form per text."""

    def guess(self, word):
        if word.islower():
            return CapType.NO
        if word.isupper():
            return CapType.ALL
        if not word[:1].isupper():
            return CapType.HUH
        return CapType.INIT if word[1:].islower() else CapType.HUHINIT

    def lower(self, word):
        # the dotted capital I cannot be lowercased outside of Turkic languages
        return [] if word == '' or word[0] == 'İ' else [word.lower().replace('i̇', 'i')]

    def upper(self, word):
        return word.upper()

    def capitalize(self, word):
        # first letter upper, the rest lower
        if len(word) == 1:
            return [self.upper(word[0])]
        return [self.upper(word[0]) + rest for rest in self.lower(word[1:])]

    def lowerfirst(self, word):
        return [first + word[1:] for first in self.lower(word[0])]

    def variants(self, word):
        captype = self.guess(word)
        if captype == CapType.INIT:
            return (captype, [word, *self.lower(word)])
        if captype == CapType.HUHINIT:
            return (captype, [word, *self.lowerfirst(word)])
        if captype == CapType.ALL:
            return (captype, [word, *self.lower(word), *self.capitalize(word)])
        return (captype, [word])

    def corrections(self, word):
        captype = self.guess(word)
        if captype == CapType.NO:
            return (captype, [word])
        if captype == CapType.INIT:
            return (captype, [word, *self.lower(word)])
        if captype == CapType.HUH:
            return (captype, [word, *self.lower(word)])
        if captype == CapType.ALL:
            return (captype, [word, *self.lower(word), *self.capitalize(word)])
        return (captype, [word, *self.lowerfirst(word), *self.lower(word), *self.capitalize(word)])

    def coerce(self, word, cap):
        if cap == CapType.ALL:
            return self.upper(word)
        if cap == CapType.INIT or cap == CapType.HUHINIT:
            return self.upper(word[:1]) + word[1:]
        return word


class TurkicCasing(Casing):
    """i/İ and ı/I are letter pairs."""

    def lower(self, word):
        return Casing.lower(self, word.translate({ord('İ'): 'i', ord('I'): 'ı'}))

    def upper(self, word):
        return Casing.upper(self, word.translate({ord('i'): 'İ', ord('ı'): 'I'}))


def sharp_s(text, start):
    """All ways to replace at least one "ss", found left to right from start, by sharp s"""
    pos = text.find('ss', start)
    if pos == -1:
        return []
    replaced = text[:pos] + 'ß' + text[pos + 2:]
    return [replaced, *sharp_s(replaced, pos + 1), *sharp_s(text, pos + 2)]


class GermanCasing(Casing):
    """SS may be lowercased to ß; ß may stay in all-caps text."""

    def lower(self, word):
        lowered = Casing.lower(self, word)
        if 'SS' not in word:
            return lowered
        return [variant for low in lowered for variant in [*sharp_s(low, 0), low]]

    def guess(self, word):
        if 'ß' in word and Casing.guess(self, word.replace('ß', '')) == CapType.ALL:
            return CapType.ALL
        return Casing.guess(self, word)
