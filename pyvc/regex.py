"""Regular expressions put together from texts: a literal text between anchors, or a text with a meaning of its own.

The text handed to re.compile is a term. Where it is pieces of constant text around re.escape(x), the constant pieces are
parsed by the parser of Python's re itself (with a letter in place of what is escaped), and what it is looking for is kept:
the literal text, whether it is bound to the beginning and to the end, whether something stands before and after it.
"""

import ast
import itertools
import warnings

import z3

from pyvc import types as T
from pyvc.prove import FALSE, TRUE, conj, disj, fresh, neg
from pyvc.loops import State
from pyvc.values import Builtin, F, FuncV, Mock, ModuleV, RecV, Seq, Sym, TupleV, Undefined, Unsupported, Y

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    from re import _constants as K
    from re import _parser

PLACES = [chr(0xE000 + i) for i in range(20)]
Span = T.TupleOf(T.Int, T.Int)
Match = T.Rec('Match', {'first': T.Int, 'last': T.Int, 'groups': T.Int})
Regex = T.Rec('Regex', {'literal': T.Str, 'start': T.Bool, 'end': T.Bool, 'behind': T.Bool, 'ahead': T.Bool,
                        'groups': T.Int})
ESCAPED = z3.Function('re.escape', z3.StringSort(), z3.StringSort())
OCCURRENCES = 'model.occurrences'


def escape(interp, st, text):
    import re
    return re.escape(text) if isinstance(text, str) else Sym(T.Str, ESCAPED(interp.term(text, T.Str)))


def alternatives(t):
    """[(condition, pieces)]; a piece is a constant text or a term escaped"""
    if z3.is_string_value(t):
        return [(TRUE, [t.as_string()])]
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return [(conj(*[g for g, _ in chosen]), [piece for _, pieces in chosen for piece in pieces])
                for chosen in itertools.product(*[alternatives(c) for c in t.children()])]
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return [(conj(c, g), p) for g, p in alternatives(a)] + [(conj(neg(c), g), p) for g, p in alternatives(b)]
    if t.decl().eq(ESCAPED):
        return [(TRUE, [t.arg(0)])]
    raise Unsupported('regular expression of a text that is not known')


def flattened(items, groups):
    for op, arg in items:
        if op is K.SUBPATTERN:
            group, add, drop, inside = arg
            if add or drop:
                raise Unsupported('flags of a regular expression')
            inside = list(flattened(inside, groups))
            if group is not None:
                groups.append([item for item in inside if item[0] is K.LITERAL])
            yield from inside
        else:
            yield op, arg


def literal(pieces):
    """What the pattern is looking for"""
    places = dict(zip(PLACES, [p for p in pieces if not isinstance(p, str)]))
    order = iter(places)
    text = ''.join(p if isinstance(p, str) else next(order) for p in pieces)
    if sum(not isinstance(p, str) for p in pieces) != sum(text.count(place) for place in places):
        raise Unsupported('regular expression')
    try:
        groups = []
        parsed = list(flattened(_parser.parse(text), groups))
    except Exception as error:
        raise Unsupported(f'regular expression: {error}') from error
    if any(group != [item for item in parsed if item[0] is K.LITERAL] for group in groups):
        raise Unsupported('groups of a regular expression')
    found = {'start': FALSE, 'end': FALSE, 'behind': FALSE, 'ahead': FALSE}
    letters = []
    for op, arg in parsed:
        if op is K.LITERAL:
            if z3.is_true(found['end']) or z3.is_true(found['ahead']):
                raise Unsupported('regular expression')
            letters.append(places.get(chr(arg)) if chr(arg) in places else z3.StringVal(chr(arg)))
            continue
        if op is K.AT and arg in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            what, before = 'start', True
        elif op is K.AT and arg in (K.AT_END, K.AT_END_STRING):
            what, before = 'end', False
        elif op is K.ASSERT and list(arg[1]) == [(K.ANY, None)]:
            what, before = ('behind', True) if arg[0] < 0 else ('ahead', False)
        else:
            raise Unsupported('regular expression other than a literal text')
        if before and letters:
            raise Unsupported('regular expression')
        found[what] = TRUE
    letters = [z3.StringVal('')] * max(0, 2 - len(letters)) + letters
    return {**found, 'literal': z3.Concat(*letters), 'groups': z3.IntVal(len(groups))}


def taken(shape, t, x):
    """What the variable of the shape stands for in the term, None if the term is of another shape"""
    if shape.eq(x):
        return t
    if not (z3.is_app(shape) and z3.is_app(t) and shape.decl().eq(t.decl()) and shape.num_args() == t.num_args()):
        return None
    if not shape.num_args():
        return FALSE if shape.eq(t) else None
    found = [taken(a, b, x) for a, b in zip(shape.children(), t.children())]
    if any(f is None for f in found):
        return None
    found = [f for f in found if not z3.is_false(f)]
    return found[0] if found and all(f.eq(found[0]) for f in found) else None if found else FALSE


def of_shape(interp, pattern):
    """Expression whose text is made of another one (the condition of an affix) in a known way"""
    x = z3.Const('x', z3.StringSort())
    for expression, name in interp.contracts.templates:
        st = State({'x': Sym(T.Str, x), 're': ModuleV('re')}, [], None)
        shape = interp.term(interp.eval(ast.parse(expression, mode='eval').body, st), T.Str)
        found = taken(shape, pattern, x)
        if found is not None and not z3.is_false(found):
            def search(text):
                interp.used.add(name)
                return Mock('match', truthy=interp.contracts.by_name[name].function()(found, interp.term(text, T.Str)))
            return Mock('regex', methods={'search': search})
    return None


def compiled(interp, st, pattern):
    """re.compile of a text that is not constant"""
    known = of_shape(interp, interp.term(pattern, T.Str))
    if known is not None:
        return known
    try:
        found = [(g, literal(pieces)) for g, pieces in alternatives(interp.term(pattern, T.Str))]
    except Unsupported:
        return Mock('regex', methods={})    # may be made, but using it is not known about
    fields = {name: Sym(T.Bool, disj(*[conj(g, parts[name]) for g, parts in found]))
              for name in ('start', 'end', 'behind', 'ahead')}
    for name, ty in (('literal', T.Str), ('groups', T.Int)):
        t = found[-1][1][name]
        for g, parts in reversed(found[:-1]):
            t = z3.If(g, parts[name], t)
        fields[name] = Sym(ty, t)
    return RecV(Regex, fields)


def terms(interp, regex):
    return [interp.term(regex.fields[name], Regex.fields[name]) for name in ('literal', 'start', 'end', 'behind', 'ahead')]


def found_at(interp, places, groups):
    """Match objects for the places"""
    k = fresh(z3.IntSort(), 'k')
    item = T.nth(Span, places, k)
    fields = {'first': Sym(T.Int, Span.item(item, 0)), 'last': Sym(T.Int, Span.item(item, 1)), 'groups': groups}
    return Seq([F(TRUE, z3.Length(places), k, [Y(TRUE, RecV(Match, fields))])], 'gen')


def part(match, field):
    return match.fields[field] if isinstance(match, RecV) else Sym(Match.fields[field], z3.simplify(Match.get(match.t, field)))


def bound(field):
    def fn(interp, st, match, group=0):
        groups = interp.term(part(match, 'groups'), T.Int)
        interp.safe(st, interp.term(group, T.Int) <= groups, 'precondition: group of the match')
        return part(match, field)
    return fn


def finditer(interp, st, regex, text):
    interp.used.add(OCCURRENCES)
    t = interp.contracts.by_name[OCCURRENCES].function()(*terms(interp, regex), interp.term(text, T.Str))
    return found_at(interp, t, regex.fields['groups'])


def anchored(interp, regex, st):
    """(text looked for, at the beginning?) if it can be found at one place only"""
    lit, start, end, behind, ahead = terms(interp, regex)
    interp.safe(st, conj(disj(start, end), neg(behind), neg(ahead)), 'precondition: regular expression bound to one place')
    return lit, start, end


def match(interp, st, regex, text, pos=0):
    lit, start, end, behind, ahead = terms(interp, regex)
    text, pos = interp.term(text, T.Str), interp.term(pos, T.Int)
    stop = pos + z3.Length(lit)
    interp.safe(st, conj(pos >= 0, pos <= z3.Length(text)), 'precondition: position in the text')
    here = interp.term(interp.slice(Sym(T.Str, text), Sym(T.Int, pos), Sym(T.Int, stop), None, st), T.Str)
    return Mock('match', truthy=conj(
        here == lit, disj(neg(start), pos == 0), disj(neg(end), stop == z3.Length(text)),
        disj(neg(behind), pos > 0), disj(neg(ahead), stop < z3.Length(text))))


def search(interp, st, regex, text):
    lit, start, end = anchored(interp, regex, st)
    text = interp.term(text, T.Str)
    return Mock('match', truthy=z3.If(conj(start, end), text == lit, z3.If(start, z3.PrefixOf(lit, text), z3.SuffixOf(lit, text))))


def sub(interp, st, regex, replacement, text):
    lit, start, end = anchored(interp, regex, st)
    text = interp.term(text, T.Str)
    if isinstance(replacement, FuncV):
        put = interp.term(interp.call(replacement, [Undefined(sticky=True)], {}, st), T.Str)
    else:
        put = interp.term(replacement, T.Str)
        interp.safe(st, z3.Not(z3.Contains(put, z3.StringVal('\\'))), 'precondition: no escapes in the replacement')
    size = z3.Length(text) - z3.Length(lit)
    whole = conj(start, end)
    return Sym(T.Str, z3.If(
        whole, z3.If(text == lit, put, text), z3.If(
            start, z3.If(z3.PrefixOf(lit, text), z3.Concat(put, z3.SubString(text, z3.Length(lit), size)), text),
            z3.If(z3.SuffixOf(lit, text), z3.Concat(z3.SubString(text, 0, size), put), text))))


def method(name, fn):
    return lambda interp, value, st: Builtin(name, lambda interp, st, *args: fn(interp, st, value, *args))


def register(contracts):
    for name, fn in (('finditer', finditer), ('match', match), ('search', search), ('sub', sub)):
        contracts.adaptors[('Regex', name)] = method(name, fn)
    contracts.adaptors[('Match', 'start')] = method('start', bound('first'))
    contracts.adaptors[('Match', 'end')] = method('end', bound('last'))
    contracts.adaptors[('Match', 'span')] = method('span', lambda interp, st, match, group=0: TupleV([
        bound('first')(interp, st, match, group), bound('last')(interp, st, match, group)]))
