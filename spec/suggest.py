"""Specification of suggestions: stages, validity, limits."""

from dataclasses import dataclass, replace

import spec.ngram_suggest as ngram_suggest
import spec.permutations as pmt
import spec.phonet_suggest as phonet_suggest
from spec.model import CapType

MAXPHONSUGS = 2
MAXSUGGESTIONS = 15


@dataclass
class Suggestion:
    text: str
    kind: str

    def replace(self, **changes):
        return replace(self, **changes)


@dataclass
class MultiWordSuggestion:
    words: list
    source: str
    allow_dash: bool = True

    def stringify(self, separator=' '):
        return Suggestion(separator.join(self.words), self.source)


class Suggest:
    def __init__(self, aff, dic, lookup):
        self.aff = aff
        self.dic = dic
        self.lookup = lookup
        self.words_for_ngram = [word for word in dic.words
                                if aff.FORBIDDENWORD not in word.flags and aff.NOSUGGEST not in word.flags
                                and aff.ONLYINCOMPOUND not in word.flags]

    def __call__(self, word):
        yield from [suggestion.text for suggestion in self.suggestions(word)]

    def is_good_suggestion(self, word):
        return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False))

    def is_forbidden(self, word):
        return self.aff.FORBIDDENWORD is not None and self.dic.has_flag(word, self.aff.FORBIDDENWORD)

    def recapitalized(self, text, word, captype):
        """The suggested text in the letter case of the misspelled word"""
        if self.aff.KEEPCASE is not None and self.dic.has_flag(text, self.aff.KEEPCASE) and \
                not (self.aff.CHECKSHARPS and 'ß' in text):
            return text
        coerced = self.aff.casing.coerce(text, captype)
        if coerced != text and self.is_forbidden(coerced):
            coerced = text
        pos = coerced.find(' ')
        if (captype == CapType.HUH or captype == CapType.HUHINIT) and pos != -1 and pos < len(word) \
                and coerced[pos + 1:pos + 2] != word[pos] and coerced[pos + 1:pos + 2].upper() == word[pos]:
            return coerced[:pos + 1] + word[pos] + coerced[pos + 2:]
        return coerced

    def final_texts(self, text, word, captype):
        """Final text of the suggestion; none if it is forbidden"""
        recapitalized = self.recapitalized(text, word, captype)
        if self.is_forbidden(recapitalized):
            return []
        return [recapitalized if self.aff.OCONV is None else self.aff.OCONV(recapitalized)]

    def new_texts(self, text, word, captype, handled, check_inclusion=False):
        return [final for final in self.final_texts(text, word, captype)
                if final not in handled
                and not (check_inclusion and any(previous.lower() in final.lower() for previous in handled))]

    def suggestions(self, word):
        captype, variants = self.aff.casing.corrections(word)

        if self.aff.FORCEUCASE is not None and captype == CapType.NO:
            for capitalized in self.aff.casing.capitalize(word):
                if self.is_good_suggestion(capitalized):
                    for text in self.new_texts(capitalized.capitalize(), word, captype, set()):
                        yield Suggestion(text, 'forceucase')
                    return

        handled = set()     # what was suggested
        good_edits = False
        for i, variant in enumerate(variants):
            if i > 0 and self.is_good_suggestion(variant):
                for text in self.new_texts(variant, word, captype, handled):
                    handled = handled | {text}
                    yield Suggestion(text, 'case')
            nocompound = False
            edits, handled = self.edit_stage(variant, word, captype, handled, False, MAXSUGGESTIONS)
            for edit in edits:
                yield edit
                good_edits = good_edits or edit.kind in ('spaceword', 'uppercase', 'replchars')
                nocompound = nocompound or edit.kind in ('uppercase', 'replchars', 'mapchars')
                if edit.kind == 'spaceword':
                    return
            if not nocompound:
                edits, handled = self.edit_stage(variant, word, captype, handled, True, self.aff.MAXCPDSUGS)
                for edit in edits:
                    yield edit
                    good_edits = good_edits or edit.kind in ('spaceword', 'uppercase', 'replchars')
        if good_edits:
            return

        if '-' in word and not any('-' in text for text in handled):
            chunks = word.split('-')
            for i, chunk in enumerate(chunks):
                if not self.is_good_suggestion(chunk):
                    for text in self(chunk):
                        candidate = '-'.join([*chunks[:i], text, *chunks[i + 1:]])
                        if candidate not in handled and self.lookup(candidate):
                            handled = handled | {candidate}
                            yield Suggestion(candidate, 'dashes')
                    break

        found, handled = self.limited('ngram', self.ngram_suggestions(word, handled), word, captype, handled,
                                      self.aff.MAXNGRAMSUGS)
        yield from found
        found, handled = self.limited('phonet', self.phonet_suggestions(word), word, captype, handled, MAXPHONSUGS)
        yield from found

    def limited(self, kind, candidates, word, captype, handled, limit):
        """(suggestions, everything suggested by then)"""
        found = []
        count = 0
        for candidate in candidates:
            for text in self.new_texts(candidate, word, captype, handled, True):
                found.append(Suggestion(text, kind))
                handled = handled | {text}
                count += 1
            if count >= limit:
                break
        return found, handled

    def edit_stage(self, variant, word, captype, handled, compounds, limit):
        """(suggestions by edits of one variant, everything suggested by then)"""
        found = []
        count = 0
        for candidate in self.good_edits(variant, compounds):
            if count >= limit:
                break
            for text in self.new_texts(candidate.text, word, captype, handled):
                found.append(Suggestion(text, candidate.kind))
                handled = handled | {text}
                count += 1
        return found, handled

    def good_edits(self, word, compounds):
        """Only those edits that are correct words (or sequences of them)"""
        for edit in self.edits(word):
            if isinstance(edit, MultiWordSuggestion):
                if all(self.is_good_edit(part, compounds) for part in edit.words):
                    yield edit.stringify()
                    if edit.allow_dash:
                        yield edit.stringify('-')
            elif self.is_good_edit(edit.text, compounds):
                yield edit

    def is_good_edit(self, word, compounds):
        return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False,
                                          affix_forms=not compounds, compound_forms=compounds))

    def edits(self, word):
        yield Suggestion(self.aff.casing.upper(word), 'uppercase')
        for edit in pmt.replchars(word, self.aff.REP):
            if isinstance(edit, list):
                yield Suggestion(' '.join(edit), 'replchars')
                yield MultiWordSuggestion(edit, 'replchars', allow_dash=False)
            else:
                yield Suggestion(edit, 'replchars')
        for words in pmt.twowords(word):
            yield Suggestion(' '.join(words), 'spaceword')
            if self.use_dash():
                yield Suggestion('-'.join(words), 'spaceword')
        for edit in pmt.mapchars(word, self.aff.MAP):
            yield Suggestion(edit, 'mapchars')
        for edit in pmt.swapchar(word):
            yield Suggestion(edit, 'swapchar')
        for edit in pmt.longswapchar(word):
            yield Suggestion(edit, 'longswapchar')
        for edit in pmt.badcharkey(word, self.aff.KEY):
            yield Suggestion(edit, 'badcharkey')
        for edit in pmt.extrachar(word):
            yield Suggestion(edit, 'extrachar')
        for edit in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(edit, 'forgotchar')
        for edit in pmt.movechar(word):
            yield Suggestion(edit, 'movechar')
        for edit in pmt.badchar(word, self.aff.TRY):
            yield Suggestion(edit, 'badchar')
        for edit in pmt.doubletwochars(word):
            yield Suggestion(edit, 'doubletwochars')
        if not self.aff.NOSPLITSUGS:
            for words in pmt.twowords(word):
                yield MultiWordSuggestion(words, 'twowords', allow_dash=self.use_dash())

    def ngram_suggestions(self, word, handled):
        if self.aff.MAXNGRAMSUGS != 0:
            yield from ngram_suggest.ngram_suggest(
                word.lower(), dictionary_words=self.words_for_ngram, prefixes=self.aff.PFX, suffixes=self.aff.SFX,
                known={text.lower() for text in handled}, maxdiff=self.aff.MAXDIFF, onlymaxdiff=self.aff.ONLYMAXDIFF,
                has_phonetic=self.aff.PHONE is not None)

    def phonet_suggestions(self, word):
        if self.aff.PHONE is not None:
            yield from phonet_suggest.phonet_suggest(word, dictionary_words=self.words_for_ngram, table=self.aff.PHONE)

    def use_dash(self):
        return '-' in self.aff.TRY or 'a' in self.aff.TRY
