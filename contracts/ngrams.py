"""Contracts of n-gram and phonetic suggestions."""

from contracts import data as D
from pyvc import types as T
from pyvc.contract import Contract

NGRAM = 'spylls.hunspell.algo.ngram_suggest'
PHONET = 'spylls.hunspell.algo.phonet_suggest'


def register(contracts):
    def ngram(name, *params, returns, **kwargs):
        contracts.add(Contract(f'ngram_suggest.{name}', real=(NGRAM, None, name), spec=('spec.ngram_suggest', None, name),
                               params=params, returns=returns, serves=['C13'], **kwargs))

    pair = [('word1', T.Str), ('word2', T.Str)]
    ngram('root_score', *pair, returns=T.Int)
    ngram('rough_affix_score', *pair, returns=T.Int)
    ngram('precise_affix_score', *pair, ('diff_factor', T.Real), ('base', T.Int), ('has_phonetic', T.Bool), returns=T.Int)
    ngram('detect_threshold', ('word', T.Str), returns=T.Real)
    ngram('forms_for', ('word', D.Word), ('all_prefixes', D.PrefixTables), ('all_suffixes', D.SuffixTables),
          ('similar_to', T.Str), returns=D.Strs)
    ngram('filter_guesses', ('guesses', T.ListOf(T.TupleOf(T.Int, T.Str))), ('known', T.SetOf(T.Str)),
          ('onlymaxdiff', T.Bool, True), returns=D.Strs)
    contracts.add(Contract('phonet_suggest.final_score', real=(PHONET, None, 'final_score'),
                           spec=('spec.phonet_suggest', None, 'final_score'), params=pair, returns=T.Int, serves=['C15']))
    contracts.add(Contract('phonet_suggest.metaphone', real=(PHONET, None, 'metaphone'),
                           spec=('spec.phonet_suggest', None, 'metaphone'),
                           params=[('table', D.PhonetTable), ('word', T.Str)], returns=T.Str, serves=['C15']))
