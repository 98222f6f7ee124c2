"""Contracts of suggestions."""

import z3

from contracts import data as D
from pyvc import types as T
from pyvc.contract import Contract
from pyvc.lib import Every

PERM = 'spylls.hunspell.algo.permutations'
NGRAM = 'spylls.hunspell.algo.ngram_suggest'
PHONET = 'spylls.hunspell.algo.phonet_suggest'
SUGGEST = 'spylls.hunspell.algo.suggest'


def register(contracts):
    contracts.records.update({'Suggestion': D.Suggestion, 'MultiWordSuggestion': D.MultiWordSuggestion})
    for name in ('Suggestion', 'MultiWordSuggestion', 'Suggest'):
        contracts.classes[('real', name)] = (SUGGEST, name)
        contracts.classes[('spec', name)] = ('spec.suggest', name)

    def method(name, *params, returns, serves, **kwargs):
        contracts.add(Contract(f'Suggest.{name}', real=(SUGGEST, 'Suggest', name), spec=('spec.suggest', 'Suggest', name),
                               receiver=D.Suggest, params=params, returns=returns, serves=serves, **kwargs))

    every = ['C03', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15', 'C21']
    # suggestions for parts of the word between dashes are asked for in the same way
    method('__call__', ('word', T.Str), returns=D.Strs, serves=every, group='Suggest',
           variant=lambda suggest, word: 2 * z3.Length(word) + 1)
    method('suggestions', ('word', T.Str), returns=T.ListOf(D.Suggestion), serves=every, group='Suggest',
           variant=lambda suggest, word: 2 * z3.Length(word))
    method('edits', ('word', T.Str), returns=T.ListOf(T.Union(D.Suggestion, D.MultiWordSuggestion)),
           serves=['C10', 'C12', 'C21'])
    method('ngram_suggestions', ('word', T.Str), ('handled', T.SetOf(T.Str)), returns=D.Strs, serves=['C11', 'C13'])
    method('phonet_suggestions', ('word', T.Str), returns=D.Strs, serves=['C15'])
    method('use_dash', returns=T.Bool, serves=['C10', 'C12'])

    no_empty = Every('options not empty', T.Str, lambda option: z3.Length(option) > 0)
    table = Every('table without empty options', D.Strs, no_empty)
    contracts.predicates += [no_empty, table]
    contracts.field_facts.append((D.Aff, 'MAP', table))
    maps = [('word', T.Str), ('maptable', T.ListOf(D.Strs))]
    clean = [lambda interp, receiver, values, st: table(interp.term(values[1], T.ListOf(D.Strs)))]
    contracts.add(Contract('permutations.mapchars', real=(PERM, None, 'mapchars'), spec=('spec.permutations', None, 'mapchars'),
                           params=maps, returns=D.Strs, serves=['C12'], requires=clean))
    contracts.add(Contract('permutations.mapchars_from', real=(PERM, None, 'mapchars.mapchars_internal'),
                           spec=('spec.permutations', None, 'mapchars_from'), params=[*maps, ('start', T.Int)],
                           requires=[*clean, lambda interp, receiver, values, st: interp.term(values[2], T.Int) >= 0],
                           returns=D.Strs, serves=['C12'], variant=lambda word, table, start: z3.Length(word) - start))
    contracts.add(Contract(
        'ngram_suggest.ngram_suggest', real=(NGRAM, None, 'ngram_suggest'), spec=('spec.ngram_suggest', None, 'ngram_suggest'),
        serves=['C13'], params=[
        ('misspelling', T.Str), ('dictionary_words', T.ListOf(D.Word)), ('prefixes', D.PrefixTables),
        ('suffixes', D.SuffixTables), ('known', T.SetOf(T.Str)), ('maxdiff', T.Int), ('onlymaxdiff', T.Bool, False),
        ('has_phonetic', T.Bool, False)], returns=D.Strs))
    contracts.add(Contract(
        'phonet_suggest.phonet_suggest', real=(PHONET, None, 'phonet_suggest'),
        spec=('spec.phonet_suggest', None, 'phonet_suggest'), serves=['C15'], params=[
        ('misspelling', T.Str), ('dictionary_words', T.ListOf(D.Word)), ('table', D.PhonetTable)], returns=D.Strs))
