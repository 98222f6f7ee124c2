"""Contracts of what is made when directives are read: patterns, tables."""

import z3

from contracts import data as D
from pyvc import types as T
from pyvc.contract import Contract
from pyvc.lib import Every, of_key
from pyvc.values import Mock, Seq, Sym, Unsupported
from spec import model

AFF = 'spylls.hunspell.data.aff'
Pair = T.TupleOf(T.Str, T.Str)
PATTERNS = Every('patterns', Pair, lambda pair: z3.Length(Pair.item(pair, 0)) > 0)
AFFIX = "'F', True, strip, add, condition, set()"


# only [], [^] and . are special in conditions of affixes
CONDITION = r"re.sub(r'[^\w\[\].^]|(?<!\[)\^', r'\\\g<0>', x)"


def index_of(interp, st, cls, args, kwargs):
    """Trie, known by what is at every key"""
    if len(args) != 1 or kwargs or not isinstance(args[0], Seq) or args[0].kind != 'log':
        raise Unsupported('Trie()')
    return Mock('trie', methods={'at': lambda key: of_key(interp, args[0], key)})


def register(contracts):
    def library(name, *params, returns):
        """What a function of the library does"""
        contracts.add(Contract(f'model.{name}', real=None, spec=('spec.model', None, name), params=params, returns=returns))

    def used(name, *params, made, real, spec, returns, where='spec.model', **kwargs):
        """How an object made by its constructor is used, and what that means"""
        names = ', '.join(param[0] for param in params)
        contracts.add(Contract(
            name, real=(AFF, None, f'def use({names}):\n    return {real}'), spec=(where, None, f'def use({names}):\n    return {spec}'),
            params=params, returns=returns, made=made, callable_as=False, **kwargs))

    library('occurrences', ('literal', T.Str), ('start', T.Bool), ('end', T.Bool), ('behind', T.Bool), ('ahead', T.Bool),
            ('text', T.Str), returns=T.ListOf(D.Span))
    library('without', ('chars', T.Str), ('text', T.Str), returns=T.Str)

    library('fits_start', ('condition', T.Str), ('text', T.Str), returns=T.Bool)
    library('fits_end', ('condition', T.Str), ('text', T.Str), returns=T.Bool)
    contracts.templates += [(f"'^' + {CONDITION}", 'model.fits_start'), (f"{CONDITION} + '$'", 'model.fits_end')]

    used('BreakPattern.cuts', ('pattern', T.Str), ('text', T.Str), made=['BreakPattern'],
         real='[(m.start(1), m.end(1)) for m in BreakPattern(pattern).regexp.finditer(text)]',
         spec='BreakPattern(pattern).cuts(text)', returns=T.ListOf(D.Span), serves=['C07'])
    used('RepPattern.spots', ('pattern', T.Str), ('text', T.Str), made=['RepPattern'],
         real="[(m.start(), m.end()) for m in RepPattern(pattern, '').regexp.finditer(text)]",
         spec="RepPattern(pattern, '').spots(text)", returns=T.ListOf(D.Span), serves=['C12'])
    for cls, kind, end in (('Suffix', 'SFX', 'endswith'), ('Prefix', 'PFX', 'startswith')):
        used(f'{cls}.replace_regexp', ('strip', T.Str), ('add', T.Str), ('condition', T.Str), ('text', T.Str),
             made=[cls, 'Affix'], real=f'{cls}({AFFIX}).replace_regexp.sub(lambda _: strip, text)',
             spec=f"Affix('{kind}', {AFFIX}).unapply(text) if text.{end}(add) else text", returns=T.Str, serves=['C01'])
        used(f'{cls}.fits', ('strip', T.Str), ('add', T.Str), ('condition', T.Str), ('text', T.Str),
             made=[cls, 'Affix'], real=f'bool({cls}({AFFIX}).cond_regexp.search(text))',
             spec=f"Affix('{kind}', {AFFIX}).fits(text)", returns=T.Bool, serves=['C01'])
    used('Ignore.remove', ('chars', T.Str), ('text', T.Str), made=['Ignore'], real='text.translate(Ignore(chars).tr)',
         spec='Ignore(chars).remove(text)', where='spec.reading', returns=T.Str, serves=['C09'])
    fields = ', '.join(f'p.{name}' for name in D.CompoundPattern.fields)
    used('CompoundPattern()', ('left', T.Str), ('right', T.Str), made=['CompoundPattern'],
         real=f'(lambda p: ({fields}))(CompoundPattern(left, right))', spec=f'(lambda p: ({fields}))(CompoundPattern(left, right))',
         returns=T.TupleOf(*D.CompoundPattern.fields.values()), serves=['C06'])
    contracts.predicates.append(PATTERNS)
    pairs = T.ListOf(Pair)
    used('ConvTable()', ('pairs', pairs), ('word', T.Str), made=['ConvTable'], real='ConvTable(pairs)(word)',
         spec='ConvTable(pairs)(word)', returns=T.Str, serves=['C09'],
         requires=[lambda interp, receiver, values, st: PATTERNS(interp.term(values[0], pairs))])

    rule = D.function('PhonetTable.parse_rule', T.Str, T.Str, D.PhonetRule)

    def rule_of(interp, st, search, replacement):
        interp.used.add('PhonetTable.parse_rule')
        return Sym(D.PhonetRule, rule(interp.term(search, T.Str), interp.term(replacement, T.Str)))

    contracts.summaries[(AFF, 'PhonetTable.parse_rule')] = contracts.summaries[('spec.model', 'phonet_rule')] = rule_of
    used('PhonetTable.rules_for', ('table', pairs), ('letter', T.Str), made=['PhonetTable'], returns=T.ListOf(D.PhonetRule),
         serves=['C15'], real='PhonetTable(table).rules.get(letter, [])', spec='PhonetTable(table).rules_for(letter)',
         requires=[lambda interp, receiver, values, st: PATTERNS(interp.term(values[0], pairs))])

    contracts.makers['Trie'] = index_of
    for cls in ('Casing', 'GermanCasing', 'TurkicCasing'):
        contracts.makers[cls] = lambda interp, st, _, args, kwargs, cls=cls: Sym(D.Casing, z3.Const(f'{cls}()', D.Casing.sort()))
    used('Aff.casing', ('sharps', T.Bool), ('language', T.Opt(T.Str)), made=['Aff'], returns=D.Casing, serves=['C08'],
         real='Aff(CHECKSHARPS=sharps, LANG=language).casing', spec='casing(sharps, language)')
    for kind, index, tables, affix, key in (('SFX', 'suffixes_index', D.SuffixTables, D.Suffix, 'affix.add[::-1]'),
                                            ('PFX', 'prefixes_index', D.PrefixTables, D.Prefix, 'affix.add')):
        used(f'Aff.{index}', ('tables', tables), ('key', T.Str), made=['Aff'], returns=T.ListOf(affix), serves=['C01'],
             real=f'Aff({kind}=tables).{index}.at(key)',
             spec=f'[affix for table in tables.values() for affix in table if {key} == key]')

    # every directive stays as it was given; without any, they are what Hunspell has
    Given = T.Cls('Given')
    kinds = {name: D.Aff.fields.get(name, Given) for name in (*model.DEFAULTS, *model.TABLES)}
    values = ', '.join(f'made.{name}' for name in kinds)
    used('Aff():given', *kinds.items(), made=['Aff'], returns=T.TupleOf(*kinds.values()), serves=['C17'],
         real=f"(lambda made: ({values}))(Aff({', '.join(f'{name}={name}' for name in kinds)}))", spec=f"({', '.join(kinds)})")
    plain = {name: T.Opt(T.Str) if default is None else {bool: T.Bool, int: T.Int, str: T.Str}[type(default)]
             for name, default in model.DEFAULTS.items()}
    tables = [name for name in model.TABLES if name != 'BREAK']
    values = ', '.join([*[f'made.{name}' for name in plain], *[f'not made.{name}' for name in tables],
                        '[item.pattern for item in made.BREAK]'])
    used('Aff():defaults', made=['Aff', 'BreakPattern'], real=f'(lambda made: ({values}))(Aff())', serves=['C17'],
         spec=f"({', '.join([*map(repr, model.DEFAULTS.values()), *['True'] * len(tables)])}, ['-', '^-', '-$'])",
         returns=T.TupleOf(*plain.values(), *[T.Bool] * len(tables), D.Strs))
