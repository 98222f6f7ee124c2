"""Contracts of edits and string measures."""

import z3

from pyvc import types as T
from pyvc.contract import Contract

PERM = 'spylls.hunspell.algo.permutations'
METRICS = 'spylls.hunspell.algo.string_metrics'


def register(contracts):
    def perm(name, *params, returns=T.ListOf(T.Str)):
        contracts.add(Contract(f'permutations.{name}', real=(PERM, None, name), spec=('spec.permutations', None, name),
                               params=[('word', T.Str), *params], returns=returns, serves=['C12']))

    perm('swapchar')
    perm('longswapchar')
    perm('badcharkey', ('layout', T.Str))
    perm('extrachar')
    perm('forgotchar', ('trystring', T.Str))
    perm('movechar')
    perm('badchar', ('trystring', T.Str))
    perm('doubletwochars')
    perm('twowords', returns=T.ListOf(T.ListOf(T.Str)))

    def metric(name, *params):
        contracts.add(Contract(f'string_metrics.{name}', real=(METRICS, None, name),
                               spec=('spec.string_metrics', None, name), params=params, returns=T.Int, serves=['C14']))

    metric('commoncharacters', ('s1', T.Str), ('s2', T.Str))
    metric('leftcommonsubstring', ('s1', T.Str), ('s2', T.Str))
    metric('ngram', ('max_ngram_size', T.Int), ('s1', T.Str), ('s2', T.Str), ('weighted', T.Bool, False),
           ('any_mismatch', T.Bool, False), ('longer_worse', T.Bool, False))

    lcs = contracts.add(Contract('string_metrics.lcs', real=None, spec=('spec.string_metrics', None, 'lcs'),
                                 params=[('s1', T.Str), ('s2', T.Str), ('i', T.Int), ('j', T.Int)], returns=T.Int))

    def filled(view, done):
        """The part of the table the loops went through has lengths of common subsequences, the rest has zeros"""
        table = view.table()
        row, column = z3.Ints('row column')
        return z3.ForAll([row, column], z3.Implies(
            z3.And(row >= 0, row < table.rows, column >= 0, column < table.columns),
            table.at(row, column) == z3.If(z3.And(done(row, column), column < z3.Length(view.s2)),
                                           lcs.function()(view.s1, view.s2, row + 1, column + 1), 0)))

    contracts.add(Contract(
        'string_metrics.lcslen', real=(METRICS, None, 'lcslen'), spec=('spec.string_metrics', None, 'lcslen'),
        params=[('s1', T.Str), ('s2', T.Str)], returns=T.Int, serves=['C14'], unfolds=['string_metrics.lcs'],
        invariants=[
            lambda view, i: filled(view, lambda row, column: row < i),
            lambda view, j: filled(view, lambda row, column: z3.Or(row < view.i, z3.And(row == view.i, column < j))),
        ]))
