"""Contracts of reading."""

import z3

from contracts import data as D
from pyvc import types as T
from pyvc.contract import Contract
from pyvc.interp import Starred, State
from pyvc.lib import b_set
from pyvc.prove import TRUE
from pyvc.store import Store, Value
from pyvc.values import ObjV, Seq, Sym, TupleV, Y

READERS = 'spylls.hunspell.readers'
Line = T.TupleOf(T.Int, T.Str)
Lines = T.ListOf(Line)

Source = T.Cls('Source')
Aliases = T.Cls('Aliases')
Directive = T.Opt(T.TupleOf(T.Str, Value))
Context = T.Rec('Context', {'encoding': T.Str, 'flag_format': T.Str, 'flag_synonyms': Aliases, 'ignore': T.Opt(D.Ignore)})

# objects made of what is read
IgnoreRow = T.Rec('IgnoreRow', {'chars': T.Str})
BreakRow = T.Rec('BreakRow', {'pattern': T.Str})
RepRow = T.Rec('RepRow', {'pattern': T.Str, 'replacement': T.Str})
RuleRow = T.Rec('RuleRow', {'text': T.Str})
PatternRow = T.Rec('PatternRow', {'left': T.Str, 'right': T.Str, 'replacement': T.Opt(T.Str)})
ConvRows = T.Rec('ConvRows', {'pairs': T.ListOf(T.TupleOf(T.Str, T.Str))})
PhonetRows = T.Rec('PhonetRows', {'table': T.ListOf(T.TupleOf(T.Str, T.Str))})
AffixRow = T.Rec('AffixRow', {'kind': T.Str, **D.AFFIX_FIELDS})
FoundAffix = T.Cls('FoundAffix', {'flag': T.Str})
Data = T.Cls('Data')
NO_DATA = z3.Const('no data', Data.sort())
WordRow = T.Rec('WordRow', {'stem': T.Str, 'flags': D.Flags, 'data': Data, 'alt_spellings': D.Strs, 'captype': D.CapType})
ROWS = {'Ignore': IgnoreRow, 'BreakPattern': BreakRow, 'RepPattern': RepRow, 'CompoundRule': RuleRow,
        'CompoundPattern': PatternRow, 'ConvTable': ConvRows, 'PhonetTable': PhonetRows, 'Word': WordRow}

FORMATS = ['short', 'long', 'num', 'UTF-8']

# directive -> how many values it needs
STRINGS = ['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG']
NUMBERS = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX', 'COMPOUNDMIN']
FLAGS = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
         'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE',
         'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT']
SWITCHES = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP',
            'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES']
TABLES = ['BREAK', 'COMPOUNDRULE', 'ICONV', 'OCONV', 'REP', 'MAP', 'CHECKCOMPOUNDPATTERN', 'AF', 'AM', 'PHONE']
DIRECTIVES = {**{name: 0 for name in [*STRINGS, *SWITCHES]}, **{name: 1 for name in [*NUMBERS, *FLAGS, *TABLES, 'IGNORE']},
              'SFX': 3, 'PFX': 3, 'COMPOUNDSYLLABLE': 2}


# of rows with too few columns
MALFORMED = ['index in range', 'unpacking a list of proper size']

# what is read from next
STATE = [('#position', Sym(T.Int, z3.Const('position', z3.IntSort()))),
         ('#encoding', Sym(T.Str, z3.Const('encoding', z3.StringSort())))]


def as_set(interp, value):
    return b_set(interp, State({}, [], None), value)


def taken(interp, st, source, count):
    """The next lines of the source"""
    count = interp.term(count, T.Int)
    position, encoding = [interp.heap.get(cell, initial) for cell, initial in STATE]
    lines = D.function('Source.lines', Source, T.Str, T.Int, T.Int, Lines)(source.t, encoding.t, position.t, count)
    interp.heap['#position'] = Sym(T.Int, position.t + z3.Length(lines))
    return Sym(Lines, lines)


def value_read(interp, st, source, name, *args, context):
    """Call of read_value, whose contracts are those of the directives"""
    for directive in [*DIRECTIVES, 'another']:
        interp.used.add(f'aff.read_value:{directive}')
    values = Seq([node for arg in args for node in (interp.nodes_of(arg.value, st) if isinstance(arg, Starred) else [Y(TRUE, arg)])])
    terms = [interp.heap.get(cell, initial).t for cell, initial in STATE]
    terms += [source.t, interp.term(name, T.Str), interp.term(values, D.Strs), interp.term(context, Context)]
    types = [T.Int, T.Str, Source, T.Str, D.Strs, Context]
    interp.heap['#position'] = Sym(T.Int, D.function('Source.after', *types, T.Int)(*terms))
    return Sym(T.Opt(Value), D.function('read_value', *types, T.Opt(Value))(*terms))


def directive_read(interp, st, source, line, *, context):
    """Call of read_directive by its contract"""
    interp.used.add('aff.read_directive')
    terms = [interp.heap.get(cell, initial).t for cell, initial in STATE]
    terms += [source.t, interp.term(line, T.Str), interp.term(context, Context)]
    types = [T.Int, T.Str, Source, T.Str, Context]
    interp.heap['#position'] = Sym(T.Int, D.function('Source.after directive', *types, T.Int)(*terms))
    return Sym(Directive, D.function('read_directive', *types, Directive)(*terms))


def reset_encoding(interp, st, source, encoding):
    interp.heap['#encoding'] = Sym(T.Str, interp.term(encoding, T.Str))


def from_start(interp, source):
    """Arguments of read_aff: what is read changes the state of the source"""
    for cell, initial in STATE:
        interp.mutable.add(cell)
        interp.heap[cell] = initial
    return [source], {}


def not_blank(line, args):
    """Lines have no blanks around them"""
    return z3.And(z3.Length(Line.item(line, 1)) > 0,
                  *[z3.Not(z3.PrefixOf(z3.StringVal(c), Line.item(line, 1))) for c in ' \t'])


def with_rep(interp, source, aff, context):
    """Arguments of read_dic: entries are added to REP of the affix data"""
    target = ObjV(None, aff)
    target.cells['REP'] = '#REP'
    interp.mutable.add('#REP')
    interp.heap['#REP'] = Seq([])
    return [source], {'aff': target, 'context': context}


def index_of_words(interp, value):
    """Words, and what is found by stems and by lowercase variants"""
    return TupleV([interp.heap[value.cells[name if name in value.cells else other]] for name, other in
                   (('words', 'words'), ('index', 'by_stem'), ('lowercase_index', 'by_lower'))])


def of_data(data, key):
    if z3.is_app_of(data, z3.Z3_OP_ITE):
        return z3.If(data.arg(0), of_data(data.arg(1), key), of_data(data.arg(2), key))
    if data.eq(NO_DATA):
        return z3.Empty(D.Strs.sort())
    return D.function('Data.of', Data, T.Str, D.Strs)(data, key)


def data_item(interp, value, st):
    def item(key):
        found = of_data(value.t, interp.term(key, T.Str))
        interp.safe(st, z3.Length(found) > 0, 'key present')
        return Sym(D.Strs, found)
    return item


def register(contracts):
    contracts.classes.update({
        ('real', 'Context'): (f'{READERS}.aff', 'Context'), ('spec', 'Context'): ('spec.reading', 'Context'),
    })
    contracts.records.update({(side, name): ty for name, ty in ROWS.items() for side in ('real', 'spec')})
    contracts.records.update({('real', 'Suffix'): AffixRow, ('real', 'Prefix'): AffixRow, ('spec', 'Affix'): AffixRow})
    contracts.constants.update({('real', 'Suffix'): {'kind': 'SFX'}, ('real', 'Prefix'): {'kind': 'PFX'}})
    contracts.adaptors[('Source', 'take')] = D.method('take', taken)
    contracts.truths['Aliases'] = lambda interp, value: D.function('Aliases.any', Aliases, T.Bool)(value.t)
    contracts.adaptors[('Aliases', '__getitem__')] = lambda interp, value, st: lambda key: Sym(
        D.Flags, D.function('Aliases.of', Aliases, T.Str, D.Flags)(value.t, interp.term(key, T.Str)))

    def library(name, *uses, returns):
        contracts.add(Contract(f'reading.{name}', real=None, spec=('spec.reading', None, name), params=[('text', T.Str)],
                               returns=returns))
        for use in uses:
            contracts.regexes[use] = f'reading.{name}'

    library('pairs', ('..', 'findall'), returns=D.Strs)
    library('numbers', (r'\d+(?=,|$)', 'findall'), returns=D.Strs)
    library('is_name', (r'^[A-Z]+$', 'match'), returns=T.Bool)
    library('bracketed', (r'(\([^()]+?\)|[^()])', 'findall'), returns=D.Strs)
    library('without_brackets', (r'[()]', 'sub', ''), returns=T.Str)

    def known_format(interp, receiver, values, st):
        context = receiver or values[-1]
        return z3.Or(*[Context.get(context.t, 'flag_format') == z3.StringVal(name) for name in FORMATS])

    contracts.add(Contract('Context.parse_flag', real=(f'{READERS}.aff', 'Context', 'parse_flag'),
                           spec=('spec.reading', 'Context', 'flag'), receiver=Context, params=[('string', T.Str)],
                           returns=T.Str, requires=[known_format], serves=['C17'], callable_as=False,
                           raises=['index in range']))
    contracts.add(Contract('Context.parse_flags', real=(f'{READERS}.aff', 'Context', 'parse_flags'),
                           spec=('spec.reading', 'Context', 'flags'), receiver=Context, params=[('string', T.Str)],
                           returns=D.Flags, requires=[known_format], serves=['C16', 'C17'], callable_as=False, view=as_set,
                           raises=[]))

    for name, needs in DIRECTIVES.items():
        def given(interp, source, *values, name=name, needs=needs):
            return [source, name, *values[:needs], Starred(values[needs])], {'context': values[needs + 1]}

        contracts.add(Contract(
            f'aff.read_value:{name}', real=(f'{READERS}.aff', None, 'read_value'),
            spec=('spec.reading', None, 'read_value'),
            params=[('source', Source), *[(f'value{i}', T.Str) for i in range(needs)], ('rest', D.Strs),
                    ('context', Context)], returns=None, requires=[known_format], serves=['C17'], callable_as=False,
            given=given, state=STATE, raises=MALFORMED))

    contracts.summaries[(f'{READERS}.aff', 'read_value')] = value_read
    contracts.summaries[('spec.reading', 'read_value')] = value_read
    contracts.add(Contract(
        'aff.read_directive', real=(f'{READERS}.aff', None, 'read_directive'), spec=('spec.reading', None, 'read_directive'),
        params=[('source', Source), ('line', T.Str), ('context', Context)], returns=None, requires=[known_format],
        serves=['C17'], callable_as=False, state=STATE, raises=['unpacking a list of proper size']))

    def another(interp, receiver, values, st):
        return z3.And(*[values[1].t != z3.StringVal(name) for name in DIRECTIVES])

    contracts.add(Contract(
        'aff.read_value:another', real=(f'{READERS}.aff', None, 'read_value'), spec=('spec.reading', None, 'read_value'),
        params=[('source', Source), ('name', T.Str), ('rest', D.Strs), ('context', Context)], returns=None,
        requires=[known_format, another], serves=['C17'], callable_as=False, state=STATE, raises=[],
        given=lambda interp, source, name, rest, context: ([source, name, Starred(rest)], {'context': context})))

    # affix files
    contracts.records['Context'] = Context
    contracts.changing.append(Context)
    contracts.empty[Aliases] = z3.Const('no aliases', Aliases.sort())
    contracts.truths['Value'] = lambda interp, value: D.function('Value.truth', Value, T.Bool)(value.t)
    contracts.adaptors[('Value', '__getitem__')] = lambda interp, value, st: lambda index: Sym(
        FoundAffix, D.function('Value.item', Value, T.Int, FoundAffix)(value.t, interp.term(index, T.Int)))
    contracts.adaptors[('Source', 'reset_encoding')] = D.method('reset_encoding', reset_encoding)
    contracts.add(Contract('Aff()', real=None, spec=None, params=[('**', Store)], returns=D.Aff,
                           shown_by=['Aff():given', 'Aff():defaults']))
    for module in (f'{READERS}.aff', 'spec.reading'):
        contracts.summaries[(module, 'read_directive')] = directive_read
    contracts.add(Contract(
        'aff.read_aff', real=(f'{READERS}.aff', None, 'read_aff'), spec=('spec.reading', None, 'read_aff'),
        params=[('source', Source)], returns=None, serves=['C17'], callable_as=False, given=from_start, state=STATE, raises=[]))

    # word lists
    contracts.objects.update({('real', 'Dic'), ('spec', 'Dic')})
    contracts.empty[Data] = NO_DATA
    contracts.adaptors[('Aff', 'AM')] = lambda interp, value, st: Sym(Aliases, D.function('Aff.AM', D.Aff, Aliases)(value.t))
    contracts.adaptors[('Data', '__contains__')] = lambda interp, value, st: lambda key: Sym(
        T.Bool, z3.Length(of_data(value.t, interp.term(key, T.Str))) > 0)
    contracts.adaptors[('Data', '__getitem__')] = data_item
    contracts.adaptors[('Data', 'get')] = D.method('get', lambda interp, st, value, key, default: Sym(
        D.Strs, of_data(value.t, interp.term(key, T.Str))))
    every = contracts.add(Contract('Source.__iter__', real=None, spec=None, receiver=Source, params=[], returns=Lines, each=[not_blank],
                                   shown_by=['FileReader()', 'ZipReader()']))
    contracts.iterations['Source'] = lambda interp, value, st: interp.apply(every, value, [], {}, st)

    library('is_count', (r'^\d+(\s+|$)', 'match'), returns=T.Bool)
    library('tag_start', (r'[ \t]+\w{2}:', 'search'), returns=T.Opt(T.Int))
    library('slashed', (r'(?<!\\)/', 'split', 2), returns=D.Strs)
    # blanks begin a line never
    contracts.by_name['reading.tag_start'].ensures.append(lambda result, args: z3.Implies(
        z3.And(T.Opt(T.Int).is_some(result), z3.Not(z3.Or(*[z3.PrefixOf(z3.StringVal(c), args[0]) for c in ' \t']))),
        z3.And(T.Opt(T.Int).val(result) > 0, T.Opt(T.Int).val(result) < z3.Length(args[0]))))

    parse_data = contracts.add(Contract(
        'dic.parse_data', real=(f'{READERS}.dic', None, 'parse_data'), spec=('spec.reading', None, 'parse_data'),
        params=[('text', T.Str), ('aliases', Aliases)], returns=Data, serves=['C16'], callable_as=False, raises=[]))
    for module in (f'{READERS}.dic', 'spec.reading'):
        contracts.summaries[(module, 'parse_data')] = \
            lambda interp, st, *args, **kwargs: interp.apply(parse_data, None, args, kwargs, st)
    contracts.add(Contract(
        'dic.read_dic', real=(f'{READERS}.dic', None, 'read_dic'), spec=('spec.reading', None, 'read_dic'),
        params=[('source', Source), ('aff', D.Aff), ('context', Context)], returns=None, requires=[known_format],
        serves=['C16'], callable_as=False, given=with_rep, view=index_of_words, state=[('#REP', Seq([]))], raises=[]))
