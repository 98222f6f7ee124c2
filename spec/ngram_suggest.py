"""Specification of n-gram suggestions."""

import heapq

import spec.string_metrics as sm

MAX_ROOTS = 100
MAX_GUESSES = 200


def ngram_suggest(misspelling, *, dictionary_words, prefixes, suffixes, known, maxdiff, onlymaxdiff=False,
                  has_phonetic=False):
    roots = heapq.nlargest(MAX_ROOTS, [(word_score(misspelling, word), word) for word in dictionary_words
                                       if abs(len(word.stem) - len(misspelling)) <= 4])
    threshold = detect_threshold(misspelling)
    guesses = heapq.nlargest(MAX_GUESSES, [guess for _, root in roots
                                           for guess in scored_forms(misspelling, root, prefixes, suffixes)
                                           if guess[0] > threshold])
    factor = (10.0 - maxdiff) / 5.0 if maxdiff >= 0 else 1.0
    precise = [(precise_affix_score(misspelling, compared.lower(), factor, base=score, has_phonetic=has_phonetic), real)
               for score, compared, real in guesses]
    yield from filter_guesses(sorted(precise, key=lambda pair: pair[0], reverse=True),
                              known=known, onlymaxdiff=onlymaxdiff)


def word_score(misspelling, word):
    """Score of the stem or of its alternative spelling, whichever is better"""
    return max([root_score(misspelling, text) for text in [word.stem, *word.alt_spellings]])


def scored_forms(misspelling, root, prefixes, suffixes):
    return [(rough_affix_score(misspelling, variant), variant, root.stem) for variant in root.alt_spellings] + \
        [(rough_affix_score(misspelling, form.lower()), form, form)
         for form in forms_for(root, prefixes, suffixes, similar_to=misspelling)]


def root_score(word1, word2):
    return sm.ngram(3, word1, word2.lower(), longer_worse=True) + sm.leftcommonsubstring(word1, word2.lower())


def rough_affix_score(word1, word2):
    return sm.ngram(len(word1), word1, word2, any_mismatch=True) + sm.leftcommonsubstring(word1, word2)


def precise_affix_score(word1, word2, diff_factor, *, base, has_phonetic):
    lcs = sm.lcslen(word1, word2)
    if len(word1) == lcs and len(word2) == lcs:
        return base + 2000
    bigrams = (sm.ngram(2, word1, word2, any_mismatch=True, weighted=True)
               + sm.ngram(2, word2, word1, any_mismatch=True, weighted=True))
    questionable = bigrams < (len(word2) if has_phonetic else len(word1) + len(word2)) * diff_factor
    return (2 * lcs
            - abs(len(word1) - len(word2))
            + sm.leftcommonsubstring(word1, word2)
            + (1 if sm.commoncharacters(word1, word2.lower()) else 0)
            + sm.ngram(4, word1, word2, any_mismatch=True)
            + bigrams
            - (1000 if questionable else 0))


def mangled(word, start):
    """every fourth character from the start replaced"""
    return ''.join('*' if i >= start and (i - start) % 4 == 0 else word[i] for i in range(0, len(word)))


def detect_threshold(word):
    return (0.0 + sm.ngram(len(word), word, mangled(word, 1), any_mismatch=True)
            + sm.ngram(len(word), word, mangled(word, 2), any_mismatch=True)
            + sm.ngram(len(word), word, mangled(word, 3), any_mismatch=True)) // 3 - 1


def forms_for(word, all_prefixes, all_suffixes, *, similar_to):
    stem = word.stem
    suffixes = [suffix for flag in word.flags for suffix in all_suffixes.get(flag, [])
                if suffix.fits(stem) and similar_to.endswith(suffix.add)]
    prefixes = [prefix for flag in word.flags for prefix in all_prefixes.get(flag, [])
                if prefix.fits(stem) and similar_to.startswith(prefix.add)]
    return [
        stem,
        *[stem[:without(stem, suffix)] + suffix.add for suffix in suffixes],
        *[prefix.add + stem[len(prefix.strip):without(stem, suffix)] + suffix.add
          for prefix in prefixes for suffix in suffixes if suffix.crossproduct and prefix.crossproduct],
        *[prefix.add + stem[len(prefix.strip):] for prefix in prefixes],
    ]


def without(stem, suffix):
    """Where the part of the stem the suffix strips begins"""
    return max(len(stem) - len(suffix.strip), 0)


def filter_guesses(guesses, *, known, onlymaxdiff=True):
    """
    Guesses come in decreasing order of score. Those above 1000 (same word but letter case) are offered
    exclusively; questionable one (below -100) only alone.
    """
    found = 0
    alone = False
    for score, value in guesses:
        if score <= 1000 and (alone or (score < -100 and (found > 0 or onlymaxdiff))):
            return
        alone = alone or score > 1000 or score < -100
        if not any(known_word in value for known_word in known):
            found += 1
            yield value
