"""Types of the data and what is assumed of it."""

import z3

from pyvc import regex
from pyvc import types as T
from pyvc.prove import conj, simplify
from pyvc.regex import Span
from pyvc.values import Builtin, Mock, RecV, Seq, Sym, TupleV, Unsupported

Strs = T.ListOf(T.Str)
Flags = T.SetOf(T.Str)
OptFlag = T.Opt(T.Str)

CapType = T.Enum('Type', ['NO', 'INIT', 'ALL', 'HUHINIT', 'HUH'])
CompoundPos = T.Enum('CompoundPos', ['BEGIN', 'MIDDLE', 'END'])

Word = T.Cls('Word', {'stem': T.Str, 'flags': Flags, 'alt_spellings': Strs, 'captype': CapType})
AFFIX_FIELDS = {'flag': T.Str, 'crossproduct': T.Bool, 'strip': T.Str, 'add': T.Str, 'condition': T.Str,
                'flags': Flags}
Prefix = T.Cls('Prefix', dict(AFFIX_FIELDS))
Suffix = T.Cls('Suffix', dict(AFFIX_FIELDS))

BreakPattern = T.Cls('BreakPattern', {'pattern': T.Str})
RepPattern = T.Cls('RepPattern', {'pattern': T.Str, 'replacement': T.Str})
CompoundRule = T.Cls('CompoundRule', {'text': T.Str})
CompoundPattern = T.Cls('CompoundPattern', {
    'left_stem': T.Str, 'right_stem': T.Str, 'left_flag': T.Str, 'right_flag': T.Str,
    'left_no_affix': T.Bool, 'right_no_affix': T.Bool})
ConvTable = T.Cls('ConvTable')
Ignore = T.Cls('Ignore')
PhonetTable = T.Cls('PhonetTable')
PhonetRule = T.Cls('PhonetRule', {'replacement': T.Str})
Casing = T.Cls('Casing')
PrefixTables = T.Cls('PrefixTables')
SuffixTables = T.Cls('SuffixTables')

AFF_FLAGS = ['FORBIDDENWORD', 'KEEPCASE', 'NOSUGGEST', 'NEEDAFFIX', 'CIRCUMFIX', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
             'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG',
             'FORCEUCASE']
AFF_SWITCHES = ['CHECKSHARPS', 'COMPLEXPREFIXES', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP',
                'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'NOSPLITSUGS', 'ONLYMAXDIFF', 'FULLSTRIP']
Aff = T.Cls('Aff', {
    **{name: OptFlag for name in AFF_FLAGS}, **{name: T.Bool for name in AFF_SWITCHES},
    'ICONV': T.Opt(ConvTable), 'OCONV': T.Opt(ConvTable), 'IGNORE': T.Opt(Ignore), 'PHONE': T.Opt(PhonetTable),
    'BREAK': T.ListOf(BreakPattern), 'REP': T.ListOf(RepPattern), 'MAP': T.ListOf(Strs),
    'COMPOUNDRULE': T.ListOf(CompoundRule), 'CHECKCOMPOUNDPATTERN': T.ListOf(CompoundPattern),
    'COMPOUNDMIN': T.Int, 'COMPOUNDWORDMAX': T.Opt(T.Int), 'casing': Casing, 'LANG': T.Opt(T.Str),
    'KEY': T.Str, 'TRY': T.Str, 'MAXCPDSUGS': T.Int, 'MAXNGRAMSUGS': T.Int, 'MAXDIFF': T.Int,
    'PFX': PrefixTables, 'SFX': SuffixTables,
})
Dic = T.Cls('Dic', {'words': T.ListOf(Word)})
Index = T.Cls('Index')
Lookup = T.Cls('Lookup', {'aff': Aff, 'dic': Dic})

Suggest = T.Cls('Suggest', {'aff': Aff, 'dic': Dic, 'lookup': Lookup, 'words_for_ngram': T.ListOf(Word)})
Suggestion = T.Rec('Suggestion', {'text': T.Str, 'kind': T.Str})
MultiWordSuggestion = T.Rec('MultiWordSuggestion', {'words': Strs, 'source': T.Str, 'allow_dash': T.Bool})

AffixForm = T.Rec('AffixForm', {
    'text': T.Str, 'stem': T.Str, 'prefix': T.Opt(Prefix), 'suffix': T.Opt(Suffix), 'prefix2': T.Opt(Prefix),
    'suffix2': T.Opt(Suffix), 'in_dictionary': T.Opt(Word)})
CompoundForm = T.Rec('CompoundForm', {'parts': T.ListOf(AffixForm)})
WordForm = T.Union(AffixForm, CompoundForm)


SUFFIXES_FOR = z3.Function('Aff.suffixes_for', Aff.sort(), z3.StringSort(), T.ListOf(Suffix).sort())
PREFIXES_FOR = z3.Function('Aff.prefixes_for', Aff.sort(), z3.StringSort(), T.ListOf(Prefix).sort())


def function(name, *types):
    return z3.Function(name, *[t.sort() for t in types])


def method(name, fn):
    """Attribute that is a function given by its meaning"""
    return lambda interp, value, st: Builtin(name, lambda interp, st, *a, **kw: fn(interp, st, value, *a, **kw))


def spans(cls, name):
    """Places of a text matched by the object's pattern"""
    return function(f'{cls.key}.{name}', cls, T.Str, T.ListOf(Span))


def matches(cls, name, groups):
    """cls.regexp.finditer(text): match objects for the places"""
    def fn(interp, value, st):
        def finditer(text):
            interp.used.add(f'{cls.key}.{name}')
            return regex.found_at(interp, spans(cls, name)(value.t, interp.term(text, T.Str)), groups)
        return Mock('regex', methods={'finditer': finditer})
    return fn


def register(contracts):
    regex.register(contracts)
    contracts.enums.update({'Type': CapType, 'CompoundPos': CompoundPos})
    contracts.records.update({'AffixForm': AffixForm, 'CompoundForm': CompoundForm})
    lookup = 'spylls.hunspell.algo.lookup'
    aff = 'spylls.hunspell.data.aff'
    contracts.classes.update({
        ('real', 'AffixForm'): (lookup, 'AffixForm'), ('spec', 'AffixForm'): ('spec.model', 'AffixForm'),
        ('real', 'CompoundForm'): (lookup, 'CompoundForm'), ('spec', 'CompoundForm'): ('spec.model', 'CompoundForm'),
        ('real', 'Lookup'): (lookup, 'Lookup'), ('spec', 'Lookup'): ('spec.lookup', 'Lookup'),
        ('real', 'CompoundPattern'): (aff, 'CompoundPattern'), ('spec', 'CompoundPattern'): ('spec.model', 'CompoundPattern'),
        ('real', 'Dic'): ('spylls.hunspell.data.dic', 'Dic'), ('spec', 'Dic'): ('spec.model', 'Dic'),
        ('real', 'Casing'): ('spylls.hunspell.algo.capitalization', 'Casing'), ('spec', 'Casing'): ('spec.casing', 'Casing'),
    })

    # flags are never empty texts
    for name in AFF_FLAGS:
        contracts.never_empty.add(f'Aff.{name}')
        contracts.field_facts.append((Aff, name, lambda t: z3.Implies(OptFlag.is_some(t),
                                                                      OptFlag.val(t) != z3.StringVal(''))))
    contracts.field_facts.append((Aff, 'COMPOUNDMIN', lambda t: t >= 1))

    # affixes of a flag
    for cls, affix in ((PrefixTables, Prefix), (SuffixTables, Suffix)):
        def get(interp, st, value, flag, default=None, cls=cls, affix=affix):
            if not isinstance(default, (Seq, TupleV)) or interp.nodes_of(default, st):
                raise Unsupported('default of get')
            return Sym(T.ListOf(affix), function(f'{cls.key}.of', cls, T.Str, T.ListOf(affix))(
                value.t, interp.term(flag, T.Str)))
        contracts.adaptors[(cls.key, 'get')] = method('get', get)

        def values(interp, st, value, cls=cls, affix=affix):
            tables = T.ListOf(T.ListOf(affix))
            return Sym(tables, function(f'{cls.key}.values', cls, tables)(value.t))
        contracts.adaptors[(cls.key, 'values')] = method('values', values)

    # BREAK, REP: patterns compiled from their text
    contracts.adaptors[('BreakPattern', 'regexp')] = matches(BreakPattern, 'cuts', 1)
    contracts.adaptors[('RepPattern', 'regexp')] = matches(RepPattern, 'spots', 0)
    for cls, name in ((BreakPattern, 'cuts'), (RepPattern, 'spots')):
        contracts.adaptors[(cls.key, name)] = method(name, lambda interp, st, value, text, cls=cls, name=name: Sym(
            T.ListOf(Span), spans(cls, name)(value.t, interp.term(text, T.Str))))

    # affixes
    for cls in (Suffix, Prefix):
        key = cls.key

        def unapplied(interp, cls, value, text, strip):
            text = interp.term(text, T.Str)
            add = cls.get(value.t, 'add')
            if cls is Suffix:
                return z3.Concat(z3.SubString(text, 0, z3.Length(text) - z3.Length(add)), strip)
            return z3.Concat(strip, z3.SubString(text, z3.Length(add), z3.Length(text) - z3.Length(add)))

        def replace_regexp(interp, value, st, cls=cls):
            # the text of the affix, at the end (at the start)
            interp.used.add(f'{cls.key}.replace_regexp')
            return RecV(regex.Regex, {
                'literal': Sym(T.Str, cls.get(value.t, 'add')), 'start': cls is Prefix, 'end': cls is Suffix,
                'behind': False, 'ahead': False, 'groups': 0})

        def fits(interp, value, text, cls=cls):
            interp.used.add(f'{cls.key}.fits')
            return function(f'{cls.key}.fits', cls, T.Str, T.Bool)(value.t, interp.term(text, T.Str))

        def cond_regexp(interp, value, st, fits=fits):
            return Mock('regex', methods={'search': lambda text: Mock('match', truthy=fits(interp, value, text))})

        contracts.adaptors[(key, 'replace_regexp')] = replace_regexp
        contracts.adaptors[(key, 'cond_regexp')] = cond_regexp
        contracts.adaptors[(key, 'fits')] = method(
            'fits', lambda interp, st, value, text, fits=fits: Sym(T.Bool, fits(interp, value, text)))
        contracts.adaptors[(key, 'unapply')] = method(
            'unapply', lambda interp, st, value, text, cls=cls, unapplied=unapplied: Sym(
                T.Str, unapplied(interp, cls, value, text, cls.get(value.t, 'strip'))))

    # indexes of affixes: all that are at the end (start) of the text
    class Fake:
        def __init__(self, fn):
            self.fn = fn

        def function(self):
            return self.fn

    contracts.item_facts.append((Fake(SUFFIXES_FOR), lambda item, args: z3.SuffixOf(Suffix.get(item, 'add'), args[1])))
    contracts.item_facts.append((Fake(PREFIXES_FOR), lambda item, args: z3.PrefixOf(Prefix.get(item, 'add'), args[1])))

    reverse = z3.Function('reversed:Str', z3.StringSort(), z3.StringSort())

    def suffixes_index(interp, value, st):
        def lookup(path):
            interp.used.update(['Aff.suffixes_for', 'Aff.suffixes_index'])
            t = interp.term(path, T.Str)
            if z3.is_app(t) and t.decl().eq(reverse):
                return Sym(T.ListOf(Suffix), SUFFIXES_FOR(value.t, t.arg(0)))
            return Sym(T.ListOf(Suffix), function('Trie.lookup(suffixes)', Aff, T.Str, T.ListOf(Suffix))(value.t, t))
        return Mock('trie', methods={'lookup': lookup})

    def prefixes_index(interp, value, st):
        interp.used.update(['Aff.prefixes_for', 'Aff.prefixes_index'])
        return Mock('trie', methods={'lookup': lambda path: Sym(
            T.ListOf(Prefix), PREFIXES_FOR(value.t, interp.term(path, T.Str)))})

    contracts.adaptors[('Aff', 'suffixes_index')] = suffixes_index
    contracts.adaptors[('Aff', 'prefixes_index')] = prefixes_index
    def casing(interp, value, st):
        interp.used.add('Aff.casing')
        return Sym(Casing, simplify(Aff.get(value.t, 'casing')))

    contracts.adaptors[('Aff', 'casing')] = casing
    contracts.adaptors[('Aff', 'suffixes_for')] = method(
        'suffixes_for', lambda interp, st, value, text: Sym(T.ListOf(Suffix),
                                                            SUFFIXES_FOR(value.t, interp.term(text, T.Str))))
    contracts.adaptors[('Aff', 'prefixes_for')] = method(
        'prefixes_for', lambda interp, st, value, text: Sym(T.ListOf(Prefix),
                                                            PREFIXES_FOR(value.t, interp.term(text, T.Str))))

    # IGNORE
    of_ignored = function('Ignore.remove', Ignore, T.Str, T.Str)

    def remove(interp, ignore, text):
        interp.used.add('Ignore.remove')
        return Sym(T.Str, of_ignored(ignore.t, interp.term(text, T.Str)))

    contracts.adaptors[('Ignore', 'tr')] = lambda interp, value, st: Mock('translation', methods={
        'apply': lambda text: remove(interp, value, text)})
    contracts.adaptors[('Ignore', 'remove')] = method(
        'remove', lambda interp, st, value, text: remove(interp, value, text))

    # PHONE: rules of a letter, and how much of the text one of them takes
    rules_for = function('PhonetTable.rules_for', PhonetTable, T.Str, T.ListOf(PhonetRule))
    consumed = function('PhonetRule.consumed', PhonetRule, T.Str, T.Int, T.Opt(T.Int))

    def of_letter(interp, st, table, letter, default=None):
        if default is not None and interp.nodes_of(default, st):
            raise Unsupported('default of get')
        interp.used.add('PhonetTable.rules_for')
        return Sym(T.ListOf(PhonetRule), rules_for(table.t, interp.term(letter, T.Str)))

    def taken(interp, st, rule, text, pos):
        interp.used.add('PhonetRule.consumed')
        return Sym(T.Opt(T.Int), consumed(rule.t, interp.term(text, T.Str), interp.term(pos, T.Int)))

    def match(interp, st, rule, text, pos):
        size = taken(interp, st, rule, text, pos)
        first = interp.term(pos, T.Int)
        found = RecV(regex.Match, {'first': pos, 'last': Sym(T.Int, first + size.ty.val(size.t)), 'groups': 0})
        ty = T.Opt(regex.Match)
        return Sym(ty, z3.If(size.ty.is_some(size.t), ty.some(interp.term(found, regex.Match)), ty.none()))

    contracts.adaptors[('PhonetTable', 'rules')] = lambda interp, table, st: Mock('rules', methods={
        'get': lambda letter, default=None: of_letter(interp, st, table, letter, default)})
    contracts.adaptors[('PhonetTable', 'rules_for')] = method('rules_for', of_letter)
    contracts.adaptors[('PhonetRule', 'match')] = method('match', match)
    contracts.adaptors[('PhonetRule', 'consumed')] = method('consumed', taken)
