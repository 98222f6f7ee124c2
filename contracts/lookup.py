"""Contracts of lookup."""

import z3

from contracts import data as D
from pyvc import types as T
from pyvc.contract import Contract
from pyvc.lib import Every
from pyvc.prove import conj, disj
from pyvc.values import Seq, Sym

LOOKUP = 'spylls.hunspell.algo.lookup'
AFF = 'spylls.hunspell.data.aff'
EMPTY = Seq([])
NO_EMPTY = Every('no empty', D.AffixForm, lambda form: z3.Length(D.AffixForm.get(form, 'text')) > 0)


# facts of arguments and results, beside the equality with the specification

def full(compound):
    """At least one part, none of them empty"""
    parts = D.CompoundForm.get(compound, 'parts')
    return conj(z3.Length(parts) > 0, NO_EMPTY(parts))


def same_text(form, args):
    return D.AffixForm.get(form, 'text') == args[1]


def from_dictionary(form, args):
    return D.AffixForm.fields['in_dictionary'].is_some(D.AffixForm.get(form, 'in_dictionary'))


def not_empty(interp, receiver, values, st):
    return z3.Length(interp.term(values[0], T.Str)) > 0


def has_letters(captype, args):
    return z3.Or(z3.Length(args[1]) > 0, captype == D.CapType.const('HUH'))


def found(interp, st, index, key, default=None):
    words = T.ListOf(D.Word)
    items = D.function('Index.of', D.Index, T.Str, words)(index.t, interp.term(key, T.Str))
    return interp.merge(z3.Length(items) > 0, Sym(words, items), default)


def register(contracts):
    contracts.add(Contract('lookup.is_number', real=None, spec=('spec.lookup', None, 'is_number'),
                           params=[('word', T.Str)], returns=T.Bool))
    contracts.predicates.append(NO_EMPTY)
    contracts.regexes[(r'^\d+(\.\d+)?$', 'fullmatch')] = 'lookup.is_number'

    def method(name, *params, returns, serves, requires=(), **kwargs):
        contracts.add(Contract(f'Lookup.{name}', real=(LOOKUP, 'Lookup', name), spec=('spec.lookup', 'Lookup', name),
                               receiver=D.Lookup, params=params, returns=returns, serves=serves, requires=requires,
                               **kwargs))

    forms = T.ListOf(D.AffixForm)
    compounds = T.ListOf(D.CompoundForm)

    method('__call__', ('word', T.Str), ('capitalization', T.Bool, True), ('allow_nosuggest', T.Bool, True),
           returns=T.Bool, serves=['C03', 'C07', 'C09'])
    method('break_word', ('text', T.Str), ('depth', T.Int, 0), returns=T.ListOf(D.Strs), serves=['C07'],
           variant=lambda lookup, text, depth: 11 - depth)
    method('good_forms', ('word', T.Str), ('capitalization', T.Bool, True), ('allow_nosuggest', T.Bool, True),
           ('affix_forms', T.Bool, True), ('compound_forms', T.Bool, True), returns=T.ListOf(D.WordForm),
           serves=['C03', 'C08'])
    method('affix_forms', ('word', T.Str), ('captype', D.CapType), ('allow_nosuggest', T.Bool, True),
           ('prefix_flags', D.Strs, EMPTY), ('suffix_flags', D.Strs, EMPTY), ('forbidden_flags', D.Strs, EMPTY),
           ('compoundpos', T.Opt(D.CompoundPos), None), ('with_forbidden', T.Bool, False), returns=forms,
           serves=['C01', 'C03', 'C08'], each=[same_text, from_dictionary])
    method('compound_forms', ('word', T.Str), ('captype', D.CapType), ('allow_nosuggest', T.Bool, True),
           returns=compounds, serves=['C03', 'C04', 'C05', 'C06'])
    method('produce_affix_forms', ('word', T.Str), ('prefix_flags', D.Strs), ('suffix_flags', D.Strs),
           ('forbidden_flags', D.Strs), ('compoundpos', T.Opt(D.CompoundPos), None), returns=forms,
           serves=['C01', 'C04'], each=[same_text])
    method('desuffix', ('word', T.Str), ('required_flags', D.Strs), ('forbidden_flags', D.Strs),
           ('nested', T.Bool, False), ('crossproduct', T.Bool, False), returns=forms, serves=['C01'],
           each=[same_text], variant=lambda lookup, word, required, forbidden, nested, cross: z3.If(nested, 0, 1))
    method('deprefix', ('word', T.Str), ('required_flags', D.Strs), ('forbidden_flags', D.Strs),
           ('nested', T.Bool, False), returns=forms, serves=['C01'],
           each=[same_text], variant=lambda lookup, word, required, forbidden, nested: z3.If(nested, 0, 1))
    method('is_good_form', ('form', D.AffixForm), ('compoundpos', T.Opt(D.CompoundPos)), ('captype', D.CapType),
           ('allow_nosuggest', T.Bool, True), returns=T.Bool, serves=['C01', 'C02', 'C03', 'C04', 'C08'])
    method('compounds_by_flags', ('word_rest', T.Str), ('captype', D.CapType), ('depth', T.Int, 0),
           ('allow_nosuggest', T.Bool, True), returns=compounds, serves=['C04'],
           requires=[lambda interp, receiver, values, st: interp.term(values[2], T.Int) >= 0,
                     lambda interp, receiver, values, st: disj(interp.term(values[2], T.Int) == 0,
                                                               z3.Length(interp.term(values[0], T.Str)) > 0)],
           each=[lambda compound, args: full(compound)], variant=lambda lookup, rest, *args: z3.Length(rest))
    method('compounds_by_rules', ('word_rest', T.Str), ('prev_parts', T.ListOf(D.Word), EMPTY),
           ('rules', T.Opt(T.ListOf(D.CompoundRule)), None), ('allow_nosuggest', T.Bool, True), returns=compounds,
           serves=['C05'],
           requires=[lambda interp, receiver, values, st: disj(
               z3.Length(interp.term(values[1], T.ListOf(D.Word))) == 0, z3.Length(interp.term(values[0], T.Str)) > 0)],
           each=[lambda compound, args: full(compound)], variant=lambda lookup, rest, *args: z3.Length(rest))
    method('is_bad_compound', ('compound', D.CompoundForm), ('captype', D.CapType), returns=T.Bool, serves=['C06'],
           requires=[lambda interp, receiver, values, st: full(interp.term(values[0], D.CompoundForm))])

    for name in ('fullmatch', 'partial_match'):
        contracts.add(Contract(f'CompoundRule.{name}', real=None, spec=('spec.model', 'CompoundRule', name),
                               receiver=D.CompoundRule, params=[('flag_sets', T.ListOf(D.Flags))], returns=T.Bool))
    contracts.add(Contract('CompoundPattern.match', real=(AFF, 'CompoundPattern', 'match'),
                           spec=('spec.model', 'CompoundPattern', 'match'), receiver=D.CompoundPattern,
                           params=[('left', D.AffixForm), ('right', D.AffixForm)], returns=T.Bool, serves=['C06']))
    contracts.add(Contract('ConvTable.__call__', real=None, spec=None, receiver=D.ConvTable,
                           params=[('word', T.Str)], returns=T.Str, shown_by=['ConvTable()']))
    contracts.add(Contract('permutations.replchars', real=('spylls.hunspell.algo.permutations', None, 'replchars'),
                           spec=('spec.permutations', None, 'replchars'),
                           params=[('word', T.Str), ('reptable', T.ListOf(D.RepPattern))],
                           returns=T.ListOf(T.Union(T.Str, D.Strs)), serves=['C06', 'C12']))

    # found by a key, as put there by read_dic
    for attributes in (('index', 'by_stem'), ('lowercase_index', 'by_lower')):
        for attribute in attributes:
            contracts.adaptors[('Dic', attribute)] = lambda interp, value, st, name=attributes[0]: Sym(
                D.Index, D.function(f'Dic.{name}', D.Dic, D.Index)(value.t))
    contracts.adaptors[('Index', 'get')] = D.method('get', found)
    contracts.add(Contract('Dic.homonyms', real=('spylls.hunspell.data.dic', 'Dic', 'homonyms'),
                           spec=('spec.model', 'Dic', 'homonyms'),
                           receiver=D.Dic, params=[('stem', T.Str), ('ignorecase', T.Bool, False)],
                           returns=T.ListOf(D.Word), serves=['C16']))
    contracts.add(Contract('Dic.has_flag', real=('spylls.hunspell.data.dic', 'Dic', 'has_flag'),
                           spec=('spec.model', 'Dic', 'has_flag'), receiver=D.Dic,
                           params=[('stem', T.Str), ('flag', T.Str), ('for_all', T.Bool, False)], returns=T.Bool,
                           serves=['C03', 'C06']))

    casing = 'spylls.hunspell.algo.capitalization'

    def cased(name, *params, returns, classes=('Casing',), **kwargs):
        for cls in classes:
            contracts.add(Contract(f'{cls}.{name}', real=(casing, cls, name), spec=('spec.casing', cls, name),
                                   receiver=D.Casing, params=params, returns=returns, serves=['C08'],
                                   **kwargs))

    contracts.add(Contract('casing.sharp_s', real=(casing, 'GermanCasing', 'lower.sharp_s_variants'),
                           spec=('spec.casing', None, 'sharp_s'), params=[('text', T.Str), ('start', T.Int, 0)],
                           returns=D.Strs, serves=['C08'],
                           requires=[lambda interp, receiver, values, st: interp.term(values[1], T.Int) >= 0],
                           variant=lambda text, start: z3.Length(text) - start))
    kinds = ('Casing', 'TurkicCasing', 'GermanCasing')
    cased('guess', ('word', T.Str), returns=D.CapType, classes=('Casing', 'GermanCasing'), ensures=[has_letters])
    cased('lower', ('word', T.Str), returns=D.Strs, classes=kinds)
    cased('upper', ('word', T.Str), returns=T.Str, classes=('Casing', 'TurkicCasing'))
    cased('capitalize', ('word', T.Str), returns=D.Strs, requires=[not_empty])
    cased('lowerfirst', ('word', T.Str), returns=D.Strs, requires=[not_empty])
    casings = T.TupleOf(D.CapType, D.Strs)
    for name in ('variants', 'corrections'):
        cased(name, ('word', T.Str), returns=casings,
              ensures=[lambda result, args: has_letters(casings.item(result, 0), args)])
    cased('coerce', ('word', T.Str), ('cap', D.CapType), returns=T.Str)
