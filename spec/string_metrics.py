"""Specification of string measures."""


def commoncharacters(s1, s2):
    return sum(1 for i in range(0, min(len(s1), len(s2))) if s1[i] == s2[i])


def leftcommonsubstring(s1, s2):
    """Length of the longest common prefix"""
    shorter = min(len(s1), len(s2))
    return next((i for i in range(0, shorter) if s1[i] != s2[i]), shorter)


def ngram_at_size(size, s1, s2, weighted):
    """Contribution of one n-gram size"""
    return sum(
        1 if s1[pos:pos + size] in s2 else
        0 if not weighted else
        -2 if pos == 0 or pos + size == len(s1) else -1
        for pos in range(0, len(s1) - size + 1)
    )


def ngram_sum(max_ngram_size, s1, s2, weighted):
    """Sizes are counted until one of them has too few matches (and that one too)"""
    return sum(
        ngram_at_size(size, s1, s2, weighted)
        for size in range(1, max_ngram_size + 1)
        if weighted or not any(ngram_at_size(smaller, s1, s2, weighted) < 2 for smaller in range(1, size))
    )


def ngram(max_ngram_size, s1, s2, *, weighted=False, any_mismatch=False, longer_worse=False):
    if len(s2) == 0:
        return 0
    penalty = 0
    if longer_worse:
        penalty = len(s2) - len(s1) - 2
    elif any_mismatch:
        penalty = abs(len(s2) - len(s1)) - 2
    return ngram_sum(max_ngram_size, s1, s2, weighted) - max(penalty, 0)


def lcs(s1, s2, i, j):
    """Length of the longest common subsequence of the first i characters of s1 and the first j of s2"""
    if i == 0 or j == 0:
        return 0
    if s1[i - 1] == s2[j - 1]:
        return lcs(s1, s2, i - 1, j - 1) + 1
    return max(lcs(s1, s2, i - 1, j), lcs(s1, s2, i, j - 1))


def lcslen(s1, s2):
    return lcs(s1, s2, len(s1), len(s2))
