"""Per property: the domain the property speaks about, as generator features, and what is asked."""

AFFIXES = {'suffix': 0.9, 'prefix': 0.8, 'flagformat': 0.3, 'aliases': 0.15}
RESTRICT = {'NEEDAFFIX': 0.6, 'CIRCUMFIX': 0.5, 'ONLYINCOMPOUND': 0.5}
FLAGCOMP = {'compound': 1, 'COMPOUNDFLAG': 0.6, 'COMPOUNDBEGIN': 0.5, 'COMPOUNDMIDDLE': 0.5, 'COMPOUNDEND': 0.5,
            'COMPOUNDMIN': 0.85, 'COMPOUNDWORDMAX': 0.3}
BORDER = {'CHECKCOMPOUNDDUP': 0.25, 'CHECKCOMPOUNDREP': 0.25, 'CHECKCOMPOUNDTRIPLE': 0.25, 'CHECKCOMPOUNDCASE': 0.25,
          'CHECKCOMPOUNDPATTERN': 0.25, 'FORCEUCASE': 0.2, 'COMPOUNDFORBIDFLAG': 0.25, 'REP': 0.4, 'spaced': 0.1}
CASE = {'case': 0.8, 'recase': 0.6}
# what other properties speak about, for some of the dictionaries
CASED = (0.12, dict(CASE, KEEPCASE=0.2))
JOINED = (0.1, dict(noversplit=0, BREAK=0.5, join=0.6))
CONVERTED = (0.1, dict(ICONV=1, ignore=0.3))
FORBIDDEN = (0.08, dict(FORBIDDENWORD=1))
RESTRICTED = (0.12, dict(RESTRICT, suffix=0.9, prefix=0.6))
COMPOUND = (0.12, dict(compound=1, COMPOUNDFLAG=1, COMPOUNDMIN=1))
RULED = (0.1, dict(compound=1, COMPOUNDRULE=1, COMPOUNDMIN=1))
TURKIC = (0.08, dict(turkic=1, unicode=1))
SHARPS = (0.08, dict(sharps=1, case=0.5, recase=0.5))
OUTPUT = (0.1, dict(OCONV=1))
EDITS = {'KEY': 0.5, 'TRY': 0.7, 'REP': 0.5, 'MAP': 0.5, 'NOSPLITSUGS': 0.3, 'mutate': 0.9, 'long': 1, 'spaced': 0.15}

PROFILES = {
    'C01': [dict(AFFIXES, COMPLEXPREFIXES=0.3, signs=0.15, noversplit=1, queries=40)],
    'C02': [dict(AFFIXES, **RESTRICT, COMPLEXPREFIXES=0.2, noversplit=1, queries=40,
                 sometimes=[CASED, JOINED, CONVERTED, FORBIDDEN, RULED]),
            dict(AFFIXES, **RESTRICT, **FLAGCOMP, COMPOUNDPERMITFLAG=0.5, noversplit=1, sometimes=[CASED, JOINED])],
    'C03': [dict(AFFIXES, FORBIDDENWORD=0.9, NOSUGGEST=0.4, COMPOUNDRULE=0.2, ICONV=0.15, join=0.2,
                 **dict(CASE, recase=0.3), **dict(FLAGCOMP, COMPOUNDFLAG=0.4, COMPOUNDBEGIN=0.2), queries=35),
            dict(AFFIXES, FORBIDDENWORD=0.8, NOSUGGEST=0.8, TRY=0.7, case=0.4, recase=0.4, mutate=0.7, no_ngram=0.5,
                 OCONV=0.1, ask='suggest', queries=6),
            dict(FORBIDDENWORD=0.8, NOSUGGEST=0.8, TRY=0.7, COMPOUNDRULE=0.6, COMPOUNDFLAG=0.4, COMPOUNDMIN=1, compound=1,
                 mutate=0.7, no_ngram=0.5, ask='suggest', queries=4)],
    'C04': [dict(AFFIXES, **FLAGCOMP, COMPOUNDPERMITFLAG=0.5, COMPOUNDFORBIDFLAG=0.3, SIMPLIFIEDTRIPLE=0.3, noversplit=1,
                 sometimes=[CASED, JOINED, RESTRICTED, (0.1, dict(COMPLEXPREFIXES=1))])],
    'C05': [dict(flagformat=0.5, COMPOUNDRULE=1, compound=1, COMPOUNDMIN=0.9, COMPOUNDWORDMAX=0.3, noversplit=1,
                 words=(3, 6), aliases=0.1, sometimes=[CASED, JOINED, RESTRICTED, FORBIDDEN, COMPOUND])],
    'C06': [dict(suffix=0.3, prefix=0.3, SIMPLIFIEDTRIPLE=0.3, **BORDER, **FLAGCOMP, case=0.3, recase=0.2, noversplit=1,
                 sometimes=[JOINED, RESTRICTED]),
            dict(COMPOUNDRULE=1, compound=1, COMPOUNDMIN=0.95, **BORDER, case=0.3, recase=0.2, noversplit=1, words=(3, 5))],
    'C07': [dict(BREAK=0.75, join=0.8, numbers=0.2, suffix=0.3, words=(2, 5), spaced=0.1, queries=30, many=0.03,
                 sometimes=[CASED, CONVERTED, FORBIDDEN, COMPOUND]),
            dict(noversplit=1, join=0.5, many=0.03, numbers=0.2, words=(2, 5), spaced=0.2)],
    'C08': [dict(suffix=0.3, KEEPCASE=0.4, noversplit=1, **CASE,
                 sometimes=[JOINED, CONVERTED, FORBIDDEN, COMPOUND, RULED]),
            dict(suffix=0.2, KEEPCASE=0.3, noversplit=1, turkic=1, unicode=1, **CASE),
            dict(suffix=0.2, KEEPCASE=0.5, noversplit=1, sharps=1, **CASE)],
    'C09': [dict(suffix=0.4, ICONV=0.7, IGNORE=0, ignore=0.4, noversplit=0.5, words=(3, 10),
                 sometimes=[CASED, JOINED, COMPOUND]),
            dict(OCONV=0.9, ICONV=0.3, ignore=0.2, TRY=0.6, mutate=0.8, no_ngram=0.4, ask='suggest', queries=5)],
    'C10': [dict(EDITS, suffix=0.4, prefix=0.2, NEEDAFFIX=0.2, ONLYINCOMPOUND=0.2, KEEPCASE=0.2, case=0.3, recase=0.4,
                 NOSUGGEST=0.2, FORBIDDENWORD=0.2, OCONV=0.15, no_ngram=1, long=0, ask='suggest', queries=5,
                 sometimes=[TURKIC, SHARPS, CONVERTED, COMPOUND]),
            dict(EDITS, COMPOUNDFLAG=0.6, COMPOUNDRULE=0.4, COMPOUNDMIN=0.8, compound=1, no_ngram=1, join=0.2, long=0,
                 recase=0.3, ask='suggest', queries=4, maxlen=10)],
    'C11': [dict(EDITS, words=(8, 30), case=0.3, recase=0.3, long=0, MAXNGRAMSUGS=0.5, MAXDIFF=0.3, PHONE=0.3,
                 COMPOUNDFLAG=0.3, COMPOUNDRULE=0.2, COMPOUNDMIN=1, MAXCPDSUGS=0.5, no_ngram=0.1, join=0.2,
                 OCONV=0.1, ask='suggest', queries=4, sometimes=[TURKIC, SHARPS, CONVERTED]),
            dict(words=(40, 80), TRY=1, long=0, KEY=0.5, MAP=0.5, no_ngram=0.5, ask='suggest', queries=3)],
    'C12': [dict(EDITS, words=(4, 25), long=0, no_ngram=1, recase=0.1, ask='suggest', queries=4,
                 sometimes=[TURKIC, COMPOUND, (0.1, dict(suffix=0.8))]),
            dict(EDITS, words=(15, 40), no_ngram=1, ask='suggest', queries=4)],
    'C13': [dict(words=(10, 40), long=1, suffix=0.6, prefix=0.5, MAXNGRAMSUGS=0.6, MAXDIFF=0.5, ONLYMAXDIFF=0.3, ph=0.1,
                 case=0.3, recase=0.2, mutate=1, FORBIDDENWORD=0.2, NOSUGGEST=0.2, ONLYINCOMPOUND=0.2, PHONE=0.2,
                 ask='suggest', queries=5, sometimes=[TURKIC, OUTPUT, CONVERTED, JOINED, (0.1, dict(EDITS, long=1)),
                                                      (0.1, dict(NEEDAFFIX=1, KEEPCASE=0.5)), (0.08, dict(COMPLEXPREFIXES=1))]),
            dict(words=(120, 160), long=1, ph=0.05, suffix=0.2, MAXNGRAMSUGS=1, mutate=1, ask='suggest', queries=3)],
    'C15': [dict(words=(10, 40), long=1, PHONE=1, no_ngram=0.7, ph=0.1, case=0.2, recase=0.2, mutate=1, FORBIDDENWORD=0.2,
                 NOSUGGEST=0.2, ONLYINCOMPOUND=0.2, MAXNGRAMSUGS=0.3, ask='suggest', queries=5,
                 sometimes=[TURKIC, OUTPUT, JOINED, (0.1, dict(suffix=0.9)), (0.1, dict(EDITS, long=1))]),
            dict(words=(120, 150), long=1, PHONE=1, no_ngram=1, mutate=1, ask='suggest', queries=3)],
    'C19': [dict(AFFIXES, **RESTRICT, FORBIDDENWORD=0.3, NOSUGGEST=0.3, KEEPCASE=0.3, COMPOUNDFLAG=0.3, COMPOUNDBEGIN=0.2,
                 COMPOUNDRULE=0.3, COMPOUNDMIN=0.8, COMPOUNDWORDMAX=0.3, SIMPLIFIEDTRIPLE=0.3, compound=0.5, join=0.2,
                 turkic=0.15, sharps=0.15, ICONV=0.2, OCONV=0.2, ignore=0.2, PHONE=0.3, KEY=0.4, TRY=0.5, REP=0.4, MAP=0.4,
                 case=0.5, recase=0.5, odd=1, signs=0.1, ask='both', maxlen=8, queries=3, ph=0.1, unicode=1, FORCEUCASE=0.2,
                 CHECKCOMPOUNDCASE=0.2, CHECKCOMPOUNDTRIPLE=0.2, CHECKCOMPOUNDREP=0.2, CHECKCOMPOUNDPATTERN=0.2)],
    'C21': [dict(EDITS, words=(6, 20), long=0, case=0.4, recase=0.5, FORCEUCASE=0.3, COMPOUNDFLAG=0.5, COMPOUNDRULE=0.2,
                 COMPOUNDMIN=1, MAXCPDSUGS=0.3, join=0.35, PHONE=0.4, MAXNGRAMSUGS=0.4, KEEPCASE=0.15, turkic=0.05,
                 FORBIDDENWORD=0.15, ask='suggest', queries=4, sometimes=[SHARPS, OUTPUT, CONVERTED, (0.1, dict(NOSUGGEST=1))])],
}
PROFILES['C18'] = [dict(PROFILES['C19'][0], odd=0.2, queries=5)]
