"""Specification of phonetic suggestions."""

import heapq

import spec.string_metrics as sm
import spec.ngram_suggest as ng

MAX_ROOTS = 100


def phonet_suggest(misspelling, *, dictionary_words, table):
    misspelling = misspelling.lower()
    code = metaphone(table, misspelling)
    guesses = heapq.nlargest(
        MAX_ROOTS, [(2 * sm.ngram(3, code, metaphone(table, word.stem), longer_worse=True), word.stem)
                    for word in dictionary_words
                    if abs(len(word.stem) - len(misspelling)) <= 3 and ng.word_score(misspelling, word) > 2])
    yield from [stem for _, stem in sorted([(score + final_score(misspelling, stem.lower()), stem)
                                            for score, stem in guesses],
                                           key=lambda pair: pair[0], reverse=True)]


def final_score(word1, word2):
    return 2 * sm.lcslen(word1, word2) - abs(len(word1) - len(word2)) + sm.leftcommonsubstring(word1, word2)


def metaphone(table, word):
    """Replacements of the first rules that match, one after another; letters without a rule are left out"""
    word = word.upper()
    res = ''
    pos = 0
    while pos < len(word):
        step = 1
        for rule in table.rules_for(word[pos]):
            size = rule.consumed(word, pos)
            if size is not None:
                res += rule.replacement
                step = max(size, 1)
                break
        pos += step
    return res
