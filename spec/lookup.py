"""Specification of lookup: which texts are correct words of a dictionary."""

from spec import permutations as pmt
from spec.model import AffixForm, CapType, CompoundForm, CompoundPos


def is_number(word):
    """digits, optionally one dot and more digits"""
    whole, dot, fraction = word.partition('.')
    return digits(whole) and (dot == '' or digits(fraction))


def digits(text):
    return text != '' and all(c.isdecimal() for c in text)


class Lookup:
    def __init__(self, aff, dic):
        self.aff = aff
        self.dic = dic

    def __call__(self, word, *, capitalization=True, allow_nosuggest=True):
        if self.forbidden(word):
            return False
        word = self.prepared(word)
        return is_number(word) or any(
            all(self.has_good_form(part, capitalization, allow_nosuggest) for part in parts if part)
            for parts in self.break_word(word)
        )

    def forbidden(self, word):
        return self.aff.FORBIDDENWORD is not None and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True)

    def prepared(self, word):
        if self.aff.ICONV is not None:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE is not None:
            word = self.aff.IGNORE.remove(word)
        return word

    def has_good_form(self, word, capitalization, allow_nosuggest):
        return any(self.good_forms(word, capitalization=capitalization, allow_nosuggest=allow_nosuggest))

    def break_word(self, text, depth=0):
        if depth <= 10:
            yield [text]
            for pattern in self.aff.BREAK:
                for start, end in pattern.cuts(text):
                    for rest in self.break_word(text[end:], depth + 1):
                        yield [text[:start], *rest]

    def good_forms(self, word, *, capitalization=True, allow_nosuggest=True, affix_forms=True, compound_forms=True):
        if capitalization:
            captype, variants = self.aff.casing.variants(word)
        else:
            captype, variants = self.aff.casing.guess(word), [word]
        for variant in variants:
            if not self.forbidden(variant):
                if affix_forms:
                    for form in self.affix_forms(variant, captype, allow_nosuggest):
                        if not self.sharp_s_must_be_capitalized(form, captype, word):
                            yield form
                if compound_forms:
                    yield from self.compound_forms(variant, captype, allow_nosuggest)

    def sharp_s_must_be_capitalized(self, form, captype, word):
        # KEEPCASE entry with sharp s under CHECKSHARPS: STRASSE is allowed, STRAßE is not
        return (self.aff.CHECKSHARPS and self.aff.KEEPCASE is not None and 'ß' in form.in_dictionary.stem
                and self.aff.KEEPCASE in form.flags() and captype == CapType.ALL and 'ß' in word)

    def affix_forms(self, word, captype, allow_nosuggest=True, prefix_flags=(), suffix_flags=(), forbidden_flags=(),
                    compoundpos=None, with_forbidden=False):
        for form in self.produce_affix_forms(word, prefix_flags, suffix_flags, forbidden_flags, compoundpos):
            homonyms = self.dic.homonyms(form.stem)

            # a forbidden homonym prevents affixes and compounding
            if (not with_forbidden and self.aff.FORBIDDENWORD is not None
                    and (compoundpos is not None or form.has_affixes())
                    and any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
                return

            good = [candidate for candidate in [form.replace(in_dictionary=homonym) for homonym in homonyms]
                    if self.is_good_form(candidate, compoundpos, captype, allow_nosuggest)]
            yield from good

            capitalized = []
            if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE is not None and captype == CapType.INIT:
                capitalized = [candidate for candidate in [form.replace(in_dictionary=homonym)
                                                           for homonym in self.dic.homonyms(form.stem.lower())]
                               if self.is_good_form(candidate, compoundpos, captype, allow_nosuggest)]
                yield from capitalized

            # all caps: search for the entry in any capitalization
            if (not any(True for _ in good) and not any(True for _ in capitalized) and compoundpos is None
                    and captype == CapType.ALL and self.aff.casing.guess(word) == CapType.NO):
                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
                    candidate = form.replace(in_dictionary=homonym)
                    if self.is_good_form(candidate, compoundpos, captype, allow_nosuggest):
                        yield candidate

    def compound_forms(self, word, captype, allow_nosuggest=True):
        if self.aff.FORBIDDENWORD is not None and any(
                self.aff.FORBIDDENWORD in form.flags()
                for form in self.affix_forms(word, captype, with_forbidden=True)):
            return
        if self.aff.COMPOUNDBEGIN is not None or self.aff.COMPOUNDFLAG is not None:
            for compound in self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
        if len(self.aff.COMPOUNDRULE) > 0:
            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound

    def produce_affix_forms(self, word, prefix_flags, suffix_flags, forbidden_flags, compoundpos=None):
        yield AffixForm(word, word)

        may_suffix = compoundpos is None or compoundpos == CompoundPos.END or len(suffix_flags) > 0
        may_prefix = compoundpos is None or compoundpos == CompoundPos.BEGIN or len(prefix_flags) > 0

        if may_suffix:
            yield from self.desuffix(word, suffix_flags, forbidden_flags)
        if may_prefix:
            for prefixed in self.deprefix(word, prefix_flags, forbidden_flags):
                yield prefixed
                if may_suffix and prefixed.prefix is not None and prefixed.prefix.crossproduct:
                    for suffixed in self.desuffix(prefixed.stem, suffix_flags, forbidden_flags, crossproduct=True):
                        yield suffixed.replace(text=prefixed.text, prefix=prefixed.prefix)

    def desuffix(self, word, required_flags, forbidden_flags, nested=False, crossproduct=False):
        for suffix in self.aff.suffixes_for(word):
            if (suffix.crossproduct or not crossproduct) and flags_allow(suffix, required_flags, forbidden_flags):
                stem = suffix.unapply(word)
                if suffix.fits(stem):
                    yield AffixForm(word, stem, suffix=suffix)
                    if not nested:
                        for inner in self.desuffix(stem, [suffix.flag, *required_flags], forbidden_flags,
                                                   nested=True, crossproduct=crossproduct):
                            yield inner.replace(suffix2=suffix, text=word)

    def deprefix(self, word, required_flags, forbidden_flags, nested=False):
        for prefix in self.aff.prefixes_for(word):
            if flags_allow(prefix, required_flags, forbidden_flags):
                stem = prefix.unapply(word)
                if prefix.fits(stem):
                    yield AffixForm(word, stem, prefix=prefix)
                    if self.aff.COMPLEXPREFIXES and not nested:
                        for inner in self.deprefix(stem, [prefix.flag, *required_flags], forbidden_flags, nested=True):
                            yield inner.replace(prefix2=prefix, text=word)

    def is_good_form(self, form, compoundpos, captype, allow_nosuggest=True):
        return (form.in_dictionary is not None
                and self.suggestible(form, allow_nosuggest)
                and self.case_allowed(form, captype)
                and self.affixes_sufficient(form)
                and self.affixes_licensed(form)
                and self.circumfix_complete(form)
                and self.position_allowed(form, compoundpos))

    def suggestible(self, form, allow_nosuggest):
        return allow_nosuggest or self.aff.NOSUGGEST not in form.in_dictionary.flags

    def case_allowed(self, form, captype):
        word = form.in_dictionary
        return (self.aff.KEEPCASE not in word.flags or captype == word.captype
                or (self.aff.CHECKSHARPS and 'ß' in word.stem))

    def affixes_sufficient(self, form):
        needaffix = self.aff.NEEDAFFIX
        if needaffix is None:
            return True
        if form.is_base():
            return needaffix not in form.in_dictionary.flags
        return any(needaffix not in affix.flags for affix in form.all_affixes())

    def affixes_licensed(self, form):
        return ((form.prefix is None or form.prefix.flag in form.flags())
                and (form.suffix is None or form.suffix.flag in form.flags()))

    def circumfix_complete(self, form):
        circumfix = self.aff.CIRCUMFIX
        if circumfix is None:
            return True
        in_prefix = form.prefix is not None and circumfix in form.prefix.flags
        in_suffix = form.suffix is not None and circumfix in form.suffix.flags
        return in_prefix == in_suffix

    def position_allowed(self, form, compoundpos):
        aff = self.aff
        if compoundpos is None:
            return aff.ONLYINCOMPOUND not in form.flags()
        if aff.COMPOUNDFLAG in form.flags():
            return True
        if compoundpos == CompoundPos.BEGIN:
            return aff.COMPOUNDBEGIN in form.flags()
        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in form.flags()
        return aff.COMPOUNDEND in form.flags()

    def compounds_by_flags(self, word_rest, *, captype, depth=0, allow_nosuggest=True):
        aff = self.aff
        forbidden = [] if aff.COMPOUNDFORBIDFLAG is None else [aff.COMPOUNDFORBIDFLAG]
        permit = [] if aff.COMPOUNDPERMITFLAG is None else [aff.COMPOUNDPERMITFLAG]

        if depth > 0:
            for form in self.affix_forms(word_rest, captype, allow_nosuggest, prefix_flags=permit,
                                         forbidden_flags=forbidden, compoundpos=CompoundPos.END):
                yield CompoundForm([form])

        # this part and at least one more should be allowed
        if aff.COMPOUNDWORDMAX and depth + 2 > aff.COMPOUNDWORDMAX:
            return

        position = CompoundPos.BEGIN if depth == 0 else CompoundPos.MIDDLE
        for size in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            left = word_rest[:size]
            right = word_rest[size:]
            for form in self.affix_forms(left, captype, allow_nosuggest, prefix_flags=[] if depth == 0 else permit,
                                         suffix_flags=permit, forbidden_flags=forbidden, compoundpos=position):
                for others in self.compounds_by_flags(right, captype=captype, depth=depth + 1,
                                                      allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *others.parts])
            if aff.SIMPLIFIEDTRIPLE and left[-1] == right[0]:
                for form in self.affix_forms(left + left[-1], captype, allow_nosuggest,
                                             prefix_flags=[] if depth == 0 else permit, suffix_flags=permit,
                                             forbidden_flags=forbidden, compoundpos=position):
                    for others in self.compounds_by_flags(right, captype=captype, depth=depth + 1,
                                                          allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([form.replace(text=left), *others.parts])

    def compounds_by_rules(self, word_rest, prev_parts=(), rules=None, allow_nosuggest=True):
        aff = self.aff
        if rules is None:
            rules = aff.COMPOUNDRULE

        if len(prev_parts) > 0:
            for word in self.rule_words(word_rest, allow_nosuggest):
                if any(rule.fullmatch([part.flags for part in [*prev_parts, word]]) for rule in rules):
                    yield CompoundForm([AffixForm(word_rest, word_rest)])

        if aff.COMPOUNDWORDMAX and len(prev_parts) + 2 > aff.COMPOUNDWORDMAX:
            return

        for size in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            left = word_rest[:size]
            for word in self.rule_words(left, allow_nosuggest):
                parts = [*prev_parts, word]
                # only the rules that may be continued from here
                possible = [rule for rule in rules if rule.partial_match([part.flags for part in parts])]
                if possible:
                    for others in self.compounds_by_rules(word_rest[size:], parts, possible, allow_nosuggest):
                        yield CompoundForm([AffixForm(left, left), *others.parts])

    def rule_words(self, stem, allow_nosuggest):
        homonyms = self.dic.homonyms(stem)
        if self.aff.FORBIDDENWORD is not None and any(self.aff.FORBIDDENWORD in word.flags for word in homonyms):
            return []
        return [word for word in homonyms if allow_nosuggest or self.aff.NOSUGGEST not in word.flags]

    def is_bad_compound(self, compound, captype):
        aff = self.aff
        return (
            aff.FORCEUCASE is not None and captype != CapType.ALL and captype != CapType.INIT
            and self.dic.has_flag(compound.parts[-1].text, aff.FORCEUCASE)
        ) or any(
            self.is_bad_border(compound.parts[i], compound.parts[i + 1], i == len(compound.parts) - 2, captype)
            for i in range(len(compound.parts) - 1)
        )

    def is_bad_border(self, left_part, right_part, is_last, captype):
        aff = self.aff
        left = left_part.text
        right = right_part.text
        return (
            (aff.COMPOUNDFORBIDFLAG is not None and self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG))
            or any(self.affix_forms(left + ' ' + right, captype))
            or (aff.CHECKCOMPOUNDREP and any(
                isinstance(replaced, str) and any(self.affix_forms(replaced, captype))
                for replaced in pmt.replchars(left + right, aff.REP)))
            or (aff.CHECKCOMPOUNDTRIPLE and (
                same_three(left[-2:] + right[:1]) or same_three(left[-1:] + right[:2])))
            or (aff.CHECKCOMPOUNDCASE and left[-1] != '-' and right[0] != '-'
                and (left[-1] == left[-1].upper() or right[0] == right[0].upper()))
            or any(pattern.match(left_part, right_part) for pattern in aff.CHECKCOMPOUNDPATTERN)
            or (aff.CHECKCOMPOUNDDUP and is_last and left == right)
        )


def flags_allow(affix, required, forbidden):
    return all(flag in affix.flags for flag in required) and not any(flag in affix.flags for flag in forbidden)


def same_three(text):
    return len(text) == 3 and text[0] == text[1] and text[1] == text[2]
