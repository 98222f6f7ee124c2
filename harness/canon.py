"""Loaded data of the real code and of the specification as comparable plain values."""

SIMPLE = ['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG', 'MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX',
          'COMPOUNDMIN', 'NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG',
          'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG',
          'COMPOUNDFORBIDFLAG', 'FORCEUCASE', 'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT', 'COMPLEXPREFIXES',
          'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP',
          'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES', 'COMPOUNDSYLLABLE']


def optional(value, fn):
    return None if value is None else fn(value)


def affixes(tables):
    return [(flag, [(affix.flag, affix.crossproduct, affix.strip, affix.add, affix.condition, sorted(affix.flags))
                    for affix in rows]) for flag, rows in tables.items()]


def pairs(rows):
    return [tuple(row) for row in rows]


TABLES = {
    'IGNORE': lambda aff: optional(aff.IGNORE, lambda ignore: sorted(ignore.chars)),
    'BREAK': lambda aff: [pattern.pattern for pattern in aff.BREAK],
    'REP': lambda aff: [(pattern.pattern, pattern.replacement) for pattern in aff.REP],
    'MAP': lambda aff: [list(options) for options in aff.MAP],
    'COMPOUNDRULE': lambda aff: [rule.text for rule in aff.COMPOUNDRULE],
    'CHECKCOMPOUNDPATTERN': lambda aff: [(pattern.left, pattern.right, pattern.replacement) for pattern in aff.CHECKCOMPOUNDPATTERN],
    'ICONV': lambda aff: optional(aff.ICONV, lambda table: pairs(table.pairs)),
    'OCONV': lambda aff: optional(aff.OCONV, lambda table: pairs(table.pairs)),
    'PHONE': lambda aff: optional(aff.PHONE, lambda table: pairs(table.table)),
    'AF': lambda aff: {key: sorted(value) for key, value in aff.AF.items()},
    'AM': lambda aff: {key: sorted(value) for key, value in aff.AM.items()},
    'SFX': lambda aff: affixes(aff.SFX),
    'PFX': lambda aff: affixes(aff.PFX),
}


def canon_aff(aff):
    values = {name: getattr(aff, name) for name in SIMPLE}
    values.update({name: fn(aff) for name, fn in TABLES.items()})
    return values


def canon_word(word):
    return (word.stem, tuple(sorted(word.flags)), tuple(sorted((k, tuple(v)) for k, v in word.data.items())),
            tuple(word.alt_spellings), word.captype.name)


def canon_words(words):
    return [canon_word(word) for word in words]


def canon_dic(dic):
    return canon_words(dic.words)
