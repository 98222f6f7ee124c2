"""Contracts of Python's builtins and of the string/list methods the code uses."""

import z3

from pyvc import regex
from pyvc import types as T
from pyvc.prove import FALSE, TRUE, conj, define, disj, exists, free_consts, fresh, neg, quick, simplify
from pyvc.loops import State
from pyvc.terms import depends, subst_value, terms_in
from pyvc.values import (Cases, ClassV, F, FuncV, Builtin, Mock, ObjV, RecV, Seq, SetV, Sym, TupleV, Unsupported, Y, is_const,
                         ty_of, DictV, iter_items)


def lift(fn):
    """Distribute over alternatives of the arguments"""
    def lifted(interp, st, *args, **kwargs):
        for i, a in enumerate(args):
            if isinstance(a, Cases):
                return interp.combine([(g, lifted(interp, st, *args[:i], v, *args[i + 1:], **kwargs))
                                       for g, v in a.alts])
        return fn(interp, st, *args, **kwargs)
    return lifted


def some(interp, st, v):
    """Value that must not be None"""
    if isinstance(v, Sym) and isinstance(v.ty, T.Opt):
        interp.safe(st, v.ty.is_some(v.t), 'not None')
        return Sym(v.ty.of, v.ty.val(v.t))
    if v is None:
        raise Unsupported('None used as a value')
    return v


@lift
def b_len(interp, st, v):
    v = some(interp, st, v)
    if is_const(v):
        return len(v)
    if interp.side == 'real' and (isinstance(v, Seq) and v.kind == 'gen' or isinstance(v, Sym) and v.once):
        raise Unsupported('length of an iterator')
    if isinstance(v, Seq) and v.kind == 'log':
        raise Unsupported('number of lists being built')
    if isinstance(v, TupleV):
        return len(v.items)
    if isinstance(v, Seq):
        return int_value(size(interp, v.nodes))
    if isinstance(v, Sym) and (v.ty == T.Str or isinstance(v.ty, T.ListOf)):
        return Sym(T.Int, z3.Length(v.t))
    if isinstance(v, Sym) and isinstance(v.ty, T.SetOf):
        return Sym(T.Int, z3.Function(f'size:{v.ty}', v.ty.sort(), z3.IntSort())(v.t))
    if isinstance(v, SetV) and len(v.seq.nodes) == 1 and isinstance(v.seq.nodes[0], F):
        node = v.seq.nodes[0]
        if isinstance(node.src, Sym) and node.src.ty == T.Str and z3.is_true(node.g):
            return Sym(T.Int, DISTINCT(node.src.t))
    raise Unsupported(f'len of {v!r}'[:200])


DISTINCT = z3.Function('str.distinct', z3.StringSort(), z3.IntSort())


def distinct_axioms(formulas, done):
    """Number of different characters"""
    new = []
    for t in apps(formulas, {DISTINCT.get_id()}, done):
        s = t.arg(0)
        at = [z3.SubString(s, i, 1) for i in range(3)]
        new.append(z3.Implies(z3.Length(s) == 3, (t == 1) == conj(at[0] == at[1], at[1] == at[2])))
        new.append(z3.Implies(z3.Length(s) == 2, (t == 1) == (at[0] == at[1])))
        new.append(conj(t >= 0, t <= z3.Length(s)))
    return new


class Every:
    """The list has items satisfying the predicate only"""

    def __init__(self, name, of, predicate):
        self.of = of
        self.predicate = predicate
        self.fn = z3.Function(f'every:{name}', T.ListOf(of).sort(), z3.BoolSort())

    def __call__(self, seq):
        return self.fn(seq)

    def axioms(self, formulas, done):
        new = []
        for t in apps(formulas, {self.fn.get_id()}, done):
            s = t.arg(0)
            kind = s.decl().kind() if z3.is_app(s) else None
            if kind == z3.Z3_OP_SEQ_CONCAT:
                new.append(t == conj(*[self.fn(c) for c in s.children()]))
            elif kind == z3.Z3_OP_SEQ_UNIT:
                new.append(t == self.predicate(s.arg(0)))
            elif kind == z3.Z3_OP_SEQ_EMPTY:
                new.append(t)
            elif kind == z3.Z3_OP_ITE:
                new.append(t == z3.If(s.arg(0), self.fn(s.arg(1)), self.fn(s.arg(2))))
            new.append(z3.Implies(z3.Length(s) == 0, t))
        item = z3.Function(f'item:{self.of.key}', T.ListOf(self.of).sort(), z3.IntSort(), self.of.sort())
        for t in apps(formulas, {item.get_id()}, done, self.fn.name()):
            s, at = t.children()
            source = s
            while z3.is_app(source) and source.decl().name().startswith('sorted:'):
                source = source.arg(0)
            new.append(z3.Implies(conj(self.fn(source), at >= 0, at < z3.Length(s)), self.predicate(t)))
        return new


def letter_axioms(formulas, done):
    """Only texts with letters have a case"""
    decls = {z3.Function(f'str.{name}', STR(), z3.BoolSort()).get_id() for name in ('isupper', 'islower', 'isdigit')}
    return [z3.Implies(t, z3.Length(t.arg(0)) > 0) for t in apps(formulas, decls, done)]


def removal_axioms(formulas, done):
    """Where nothing is left of a text without a letter, it starts and ends with the letter"""
    replaced = z3.Function('str.all_replaced', STR(), STR(), STR(), STR())
    new = []
    for t in apps(formulas, {replaced.get_id()}, done, 'removed'):
        text, old, put = t.children()
        new.append(z3.Implies(conj(put == z3.StringVal(''), z3.Length(old) == 1, t == z3.StringVal(''), z3.Length(text) > 0),
                              conj(z3.PrefixOf(old, text), z3.SuffixOf(old, text))))
    return new


def strip_axioms(formulas, done):
    """Nothing is left of the blanks around a text"""
    strip = z3.Function('str.strip1', STR(), STR())
    return [z3.Not(test(z3.StringVal(blank), t)) for t in apps(formulas, {strip.get_id()}, done, 'stripped')
            for blank in (' ', '\t', '\n') for test in (z3.PrefixOf, z3.SuffixOf)]


def split_axioms(formulas, done):
    """Parts of a text that contains the separator are shorter"""
    new = []
    item = z3.Function('item:Str', T.ListOf(T.Str).sort(), z3.IntSort(), STR())
    for t in apps(formulas, {item.get_id()}, done, 'split'):
        source, at = t.children()
        if z3.is_app(source) and source.decl().name() == 'str.split_by':
            text, sep = source.children()[:2]
            new.append(z3.Implies(conj(at >= 0, at < z3.Length(source), z3.Contains(text, sep), z3.Length(sep) > 0,
                                       source.arg(2) != 0),
                                  z3.Length(t) < z3.Length(text)))
    return new


def apps(formulas, decls, done, mark='app'):
    """Applications of the functions, not seen yet"""
    seen = set()
    stack = list(formulas)
    while stack:
        cur = stack.pop()
        if cur.get_id() in seen:
            continue
        seen.add(cur.get_id())
        if z3.is_app(cur):
            if cur.decl().get_id() in decls and (mark, cur.get_id()) not in done:
                done.add((mark, cur.get_id()))
                yield cur
            stack.extend(cur.children())


def size(interp, nodes):
    total = z3.IntVal(0)
    for n in nodes:
        if isinstance(n, Y):
            total = total + (1 if z3.is_true(n.g) else z3.If(n.g, 1, 0))
        elif isinstance(n, F):
            inner = simplify(size(interp, n.body))
            if z3.is_int_value(inner) and inner.as_long() == 1 and z3.is_false(n.stop):
                part = z3.If(n.n > 0, n.n, 0)
            else:
                if not z3.is_false(n.stop):
                    j = fresh(z3.IntSort(), 'k')
                    inner = z3.If(exists(n.k, j, z3.substitute(n.stop, (n.k, j))), 0, inner)
                part = interp.fold('sum', n.n, n.k, inner)
            total = total + (part if z3.is_true(n.g) else z3.If(n.g, part, 0))
        else:
            raise Unsupported('list being built')
    return simplify(total)


def int_value(t):
    t = simplify(t)
    return t.as_long() if z3.is_int_value(t) else Sym(T.Int, t)


def b_range(interp, st, *args):
    if len(args) == 1:
        args = (0, args[0])
    step = args[2] if len(args) == 3 else 1
    if not isinstance(step, int) or isinstance(step, bool) or step == 0:
        raise Unsupported('range step')
    if all(isinstance(a, int) for a in args) and len(range(*args)) <= 4:
        return Seq([Y(TRUE, i) for i in range(*args)])
    lo, hi = [interp.term(some(interp, st, a), T.Int) for a in args[:2]]
    k = fresh(z3.IntSort(), 'k')
    distance = hi - lo if step > 0 else lo - hi
    count = simplify(distance if abs(step) == 1 else (distance + abs(step) - 1) / abs(step))
    numbers = Seq([F(TRUE, count, k, [Y(TRUE, Sym(T.Int, simplify(lo + step * k)))])], 'range')
    numbers.bounds = (lo, step, count)
    return numbers


def view(interp, v, st):
    """(count, item by index) of a sequence"""
    if isinstance(v, (str, TupleV)) or isinstance(v, Seq) and \
            all(isinstance(n, Y) and z3.is_true(n.g) for n in v.nodes):
        return None
    if isinstance(v, Sym) and isinstance(v.ty, T.Opt):
        v = some(interp, st, v)
    if isinstance(v, Sym) and v.ty == T.Str:
        return z3.Length(v.t), lambda k: Sym(T.Str, z3.SubString(v.t, k, z3.IntVal(1)))
    if isinstance(v, Sym) and isinstance(v.ty, T.ListOf):
        return z3.Length(v.t), lambda k: Sym(v.ty.of, T.nth(v.ty.of, v.t, k))
    if isinstance(v, Seq) and len(v.nodes) == 1 and isinstance(v.nodes[0], F):
        node = v.nodes[0]
        if z3.is_true(node.g) and z3.is_false(node.stop) and len(node.body) == 1 and \
                isinstance(node.body[0], Y) and z3.is_true(node.body[0].g):
            from pyvc.interp import subst_value
            return node.n, lambda k: subst_value(node.body[0].v, (node.k, k))
    ty = ty_of(v)
    if isinstance(v, Seq) and isinstance(ty, T.ListOf):
        t = interp.term(v, ty)
        return z3.Length(t), lambda k: Sym(ty.of, T.nth(ty.of, t, k))
    raise Unsupported(f'not an indexable sequence: {v!r}'[:200])


def const_items(v):
    if isinstance(v, str):
        return list(v)
    if isinstance(v, TupleV):
        return v.items
    return [n.v for n in v.nodes]


def smaller(counts):
    n = counts[0]
    for c in counts[1:]:
        n = c if n.eq(c) else z3.If(n <= c, n, c)
    return n


def b_enumerate(interp, st, v, start=0):
    if not isinstance(start, int):
        raise Unsupported('enumerate start')
    got = view(interp, v, st)
    if got is None:
        return Seq([Y(TRUE, TupleV([i + start, x])) for i, x in enumerate(const_items(v))], 'gen')
    n, item = got
    k = fresh(z3.IntSort(), 'k')
    return Seq([F(TRUE, n, k, [Y(TRUE, TupleV([Sym(T.Int, simplify(k + start)), item(k)]))])], 'gen')


def b_zip(interp, st, *args):
    views = [view(interp, v, st) for v in args]
    if all(x is None for x in views):
        return Seq([Y(TRUE, TupleV(list(x))) for x in zip(*map(const_items, args))], 'gen')
    if any(x is None for x in views):
        fixed = min(len(const_items(a)) for a, x in zip(args, views) if x is None)
        rest = [x for x in views if x is not None]
        nodes = []
        for i in range(fixed):
            items = [const_items(a)[i] if x is None else x[1](z3.IntVal(i)) for a, x in zip(args, views)]
            nodes.append(Y(simplify(conj(*[z3.IntVal(i) < x[0] for x in rest])), TupleV(items)))
        return Seq(nodes, 'gen')
    k = fresh(z3.IntSort(), 'k')
    return Seq([F(TRUE, smaller([x[0] for x in views]), k, [Y(TRUE, TupleV([x[1](k) for x in views]))])], 'gen')


def b_reversed(interp, st, v):
    got = view(interp, v, st)
    if got is None:
        return Seq([Y(TRUE, x) for x in reversed(const_items(v))], 'gen')
    n, item = got
    k = fresh(z3.IntSort(), 'k')
    return Seq([F(TRUE, n, k, [Y(TRUE, item(simplify(n - 1 - k)))])], 'gen')


def b_any(interp, st, v):
    return interp.bool_value(interp.any_of(interp.nodes_of(v, st)))


def b_all(interp, st, v):
    return interp.bool_value(neg(interp.any_of(interp.nodes_of(v, st), lambda x: neg(interp.truth(x)))))


def b_sum(interp, st, v, start=0):
    nodes = interp.nodes_of(v, st)
    real = any(ty_of(x) == T.Real for x in iter_items(nodes))
    ty = T.Real if real else T.Int
    return Sym(ty, simplify(interp.term(start, ty) + total(interp, nodes, ty)))


def total(interp, nodes, ty):
    zero = interp.term(0, ty)
    res = zero
    for n in nodes:
        if isinstance(n, Y):
            part = interp.term(n.v, ty)
        elif isinstance(n, F):
            inner = total(interp, n.body, ty)
            if not z3.is_false(n.stop):
                j = fresh(z3.IntSort(), 'k')
                inner = z3.If(exists(n.k, j, z3.substitute(n.stop, (n.k, j))), zero, inner)
            part = interp.fold('sum' if ty == T.Int else 'sumreal', n.n, n.k, simplify(inner))
        else:
            raise Unsupported('list being built')
        res = res + (part if z3.is_true(n.g) else z3.If(n.g, part, zero))
    return res


def extreme(name):
    def fn(interp, st, *args, **kwargs):
        if kwargs:
            raise Unsupported(f'{name} with options')
        if len(args) == 1:
            v = args[0]
            nodes = interp.nodes_of(v, st)
            if len(nodes) == 1 and isinstance(nodes[0], F) and z3.is_true(nodes[0].g) and z3.is_false(nodes[0].stop) \
                    and len(nodes[0].body) == 1 and z3.is_true(nodes[0].body[0].g) and isinstance(nodes[0].body[0], Y):
                node = nodes[0]
                interp.safe(st, node.n > 0, f'{name} of nothing')
                return Sym(T.Int, define(name, node.n, node.k, interp.term(node.body[0].v, T.Int), z3.IntSort()))
            if len(nodes) > 1 and isinstance(nodes[0], Y) and z3.is_true(nodes[0].g) and \
                    any(isinstance(n, F) for n in nodes):
                best = fn(interp, st, Seq([nodes[0]]))
                for node in nodes[1:]:
                    if not z3.is_true(node.g):
                        raise Unsupported(name)
                    if isinstance(node, F):
                        more = fn(interp, State({}, [*st.known(), node.n > 0], st.module), Seq([node]))
                        best = interp.combine([(node.n > 0, fn(interp, st, best, more)), (node.n <= 0, best)])
                    else:
                        best = fn(interp, st, best, node.v)
                return best
            if not all(isinstance(n, Y) and z3.is_true(n.g) for n in nodes):
                raise Unsupported(name)
            args = [n.v for n in nodes]
        if all(is_const(a) for a in args):
            return min(args) if name == 'min' else max(args)
        args = [some(interp, st, a) for a in args]
        ty = T.Real if any(ty_of(a) == T.Real for a in args) else T.Int
        best = interp.term(args[0], ty)
        for a in args[1:]:
            t = interp.term(a, ty)
            best = z3.If(best <= t, best, t) if name == 'min' else z3.If(best >= t, best, t)
        return Sym(ty, simplify(best))
    return fn


def b_abs(interp, st, v):
    if is_const(v):
        return abs(v)
    return Sym(v.ty, z3.If(v.t >= 0, v.t, -v.t))


@lift
def b_list(interp, st, v=None):
    if v is None:
        return Seq([])
    if isinstance(v, Sym) and isinstance(v.ty, T.ListOf):
        return v
    if isinstance(v, ObjV) or isinstance(v, Mock) and v.kind == 'generator':
        interp.exhausting = True
        try:
            return Seq(interp.nodes_of(v, st))
        finally:
            interp.exhausting = False
    return Seq(interp.nodes_of(v, st))


def b_dict(interp, st):
    return DictV({})


def b_iter(interp, st, v):
    if isinstance(v, (Seq, SetV, TupleV)) or isinstance(ty_of(v), T.ListOf):
        return Seq(interp.nodes_of(v, st), 'gen')
    return v


@lift
def b_set(interp, st, v=None):
    if v is None:
        return SetV(Seq([]))
    if isinstance(v, Sym) and isinstance(v.ty, T.SetOf):
        return v
    return SetV(Seq(interp.nodes_of(v, st)))


def b_isinstance(interp, st, v, cls):
    if isinstance(v, Cases):
        return interp.bool_value(disj(*[conj(g, interp.truth(b_isinstance(interp, st, x, cls))) for g, x in v.alts]))
    names = []
    for c in (cls.items if isinstance(cls, TupleV) else [cls]):
        if isinstance(c, Builtin):
            names.append({'str': 'Str', 'int': 'Int', 'bool': 'Bool', 'list': 'List'}.get(c.name, c.name))
        elif isinstance(c, ClassV):
            names.append(c.node.key if isinstance(c.node, T.Enum) else c.node.name)
        else:
            raise Unsupported('isinstance')

    def matches(ty):
        return ty.key in names or isinstance(ty, T.ListOf) and 'List' in names
    ty = ty_of(v)
    if isinstance(v, Seq):
        return 'List' in names
    if isinstance(ty, T.Union):
        return interp.bool_value(disj(*[ty.is_case(i, v.t) for i, of in enumerate(ty.of) if matches(of)]))
    if isinstance(ty, T.Opt):
        return interp.bool_value(conj(ty.is_some(v.t), z3.BoolVal(matches(ty.of))))
    if ty is None:
        if v is None:
            return False
        raise Unsupported('isinstance')
    return matches(ty)


def b_bool(interp, st, v=False):
    return interp.bool_value(interp.truth(v))


def b_float(interp, st, v):
    if is_const(v):
        return float(v)
    return Sym(T.Real, interp.term(v, T.Real))


@lift
def b_int(interp, st, v):
    v = some(interp, st, v)
    if is_const(v):
        return int(v)
    if v.ty == T.Int:
        return v
    if v.ty == T.Real:
        return Sym(T.Int, z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if v.ty == T.Bool:
        return Sym(T.Int, interp.term(v, T.Int))
    if v.ty == T.Str:
        return Sym(T.Int, z3.Function('int', z3.StringSort(), z3.IntSort())(v.t))
    raise Unsupported('int()')


def b_str(interp, st, v):
    if is_const(v):
        return str(v)
    if v.ty == T.Str:
        return v
    if v.ty == T.Int:
        return Sym(T.Str, z3.Function('str:Int', z3.IntSort(), STR())(v.t))
    raise Unsupported('str()')


def b_filter(interp, st, fn, v):
    if isinstance(v, Mock) and v.kind == 'generator':
        return interp.delayed(lambda: b_filter(interp, st, fn, v.methods['iter']()))

    def body(sub, item):
        cond = interp.truth(item if fn is None else interp.call(fn, [item], {}, sub))
        sub.out.append(Y(conj(sub.guard, simplify(cond)), item))
    return gen_loop(interp, st, v, body)


def b_map(interp, st, fn, v):
    if isinstance(v, Mock) and v.kind == 'generator':
        return interp.delayed(lambda: b_map(interp, st, fn, v.methods['iter']()))

    def body(sub, item):
        sub.out.append(Y(sub.guard, interp.call(fn, [item], {}, sub)))
    return gen_loop(interp, st, v, body)


def gen_loop(interp, st, v, body):
    from pyvc.interp import State
    sub = State({}, st.known(), st.module, out=[], parent=st)
    interp.loop(v, sub, body, set())
    return Seq(sub.out, 'gen')


def b_next(interp, st, v, *default):
    """First item"""
    nodes = interp.nodes_of(v, st)
    if not default:
        if isinstance(v, Mock):
            raise Unsupported('next of an iterator')
        interp.safe(st, interp.any_of(nodes, lambda item: TRUE), 'not exhausted')
    alts = []
    none_before = TRUE
    for n in nodes:
        if isinstance(n, Y):
            alts.append((conj(none_before, n.g), n.v))
            none_before = conj(none_before, neg(n.g))
        elif isinstance(n, F) and z3.is_false(n.stop) and all(isinstance(b, Y) for b in n.body):
            from pyvc.interp import subst_value
            cond = simplify(disj(*[b.g for b in n.body]))
            first = define('first', n.n, n.k, cond, z3.IntSort())
            value = subst_value(interp.combine([(b.g, b.v) for b in n.body]), (n.k, first))
            found = conj(n.g, exists(n.n, n.k, cond))
            alts.append((conj(none_before, found), value))
            none_before = conj(none_before, neg(found))
        else:
            raise Unsupported('next of a loop')
    if default:
        alts.append((none_before, default[0]))
    elif not alts:
        raise Unsupported('next of nothing')
    else:
        # there is one
        alts[-1] = (disj(alts[-1][0], none_before), alts[-1][1])
    return interp.combine(alts)


def b_cast(interp, st, ty, v):
    return v


def b_chain(interp, st, *args):
    from pyvc.interp import Starred
    nodes = []
    for a in args:
        nodes.extend(b_from_iterable(interp, st, a.value).nodes if isinstance(a, Starred) else interp.nodes_of(a, st))
    return Seq(nodes, 'gen')


def b_from_iterable(interp, st, v):
    def body(sub, item):
        sub.out.extend(interp.guarded(node, sub.guard) for node in interp.nodes_of(item, sub))
    return gen_loop(interp, st, v, body)


def b_product(interp, st, *args):
    from pyvc.interp import State
    sub = State({}, st.known(), st.module, out=[], parent=st)

    def run(index, inner, chosen):
        if index == len(args):
            inner.out.append(Y(inner.guard, TupleV(chosen)))
            return
        interp.loop(args[index], inner, lambda s, item: run(index + 1, s, [*chosen, item]), set())
    run(0, sub, [])
    return Seq(sub.out, 'gen')


def b_islice(interp, st, v, count):
    if isinstance(v, Sym) and (v.ty.key, 'take') in interp.contracts.adaptors:
        return interp.call(interp.attribute(v, 'take', st), [count], {}, st)
    raise Unsupported('islice')


BUILTINS = {
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'reversed': b_reversed, 'any': b_any,
    'all': b_all, 'sum': b_sum, 'min': extreme('min'), 'max': extreme('max'), 'abs': b_abs, 'list': b_list, 'dict': b_dict,
    'tuple': b_list, 'iter': b_iter, 'set': b_set, 'isinstance': b_isinstance, 'bool': b_bool, 'float': b_float,
    'int': b_int, 'str': b_str, 'filter': b_filter, 'map': b_map, 'next': b_next,
}

def b_replace(interp, st, record, **changes):
    """dataclasses.replace"""
    if isinstance(record, Cases):
        return interp.combine([(g, b_replace(interp, st, v, **changes)) for g, v in record.alts])
    ty = ty_of(record)
    if not isinstance(ty, T.Rec):
        raise Unsupported('replace')
    fields = {name: interp.attribute(record, name, st) for name in ty.fields}
    for name in changes:
        if name not in fields:
            raise Unsupported(f'no field {name}')
    return RecV(ty, {**fields, **changes})


def b_compile(interp, st, pattern, *flags):
    """Regular expression given as text"""
    if flags:
        raise Unsupported('regular expression')
    if not isinstance(pattern, str):
        return regex.compiled(interp, st, pattern)

    def call(kind, returns, text, *more):
        """The specification given for this use of this expression, or else just some function of the text"""
        contract = interp.contracts.regexes.get((pattern, kind, *more))
        text = interp.term(text, T.Str)
        if contract is not None:
            interp.used.add(contract)
            contract = interp.contracts.by_name[contract]
            return Sym(contract.returns, contract.function()(text))
        return Sym(returns, z3.Function(':'.join(['re', kind, pattern, *map(str, more)]), STR(), returns.sort())(text))

    def matcher(kind):
        def fn(text):
            found = call(kind, T.Bool, text)
            if found.ty == T.Bool:
                return Mock('match', truthy=found.t)
            # position
            return Mock('match', truthy=found.ty.is_some(found.t),
                        methods={'start': lambda: Sym(T.Int, found.ty.val(found.t))})
        return fn

    def replace(replacement, text):
        if not isinstance(replacement, str):
            raise Unsupported('replacement')
        return call('sub', T.Str, text, replacement)

    def split(text, maxsplit=0):
        if not isinstance(maxsplit, int):
            raise Unsupported('maxsplit')
        return call('split', T.ListOf(T.Str), text, *([maxsplit] if maxsplit else []))

    return Mock('regex', methods={
        **{kind: matcher(kind) for kind in ('match', 'fullmatch', 'search')}, 'sub': replace, 'split': split,
        'findall': lambda text: call('findall', T.ListOf(T.Str), text)})


def b_defaultdict(interp, st, make):
    """Lists by keys: known as pairs of a key and an item in the order they were put"""
    if not (isinstance(make, Builtin) and make.name == 'list'):
        raise Unsupported('defaultdict')
    return Seq([], 'log')


def of_key(interp, log, key):
    """Items put by this key"""
    def chosen(node):
        if isinstance(node, Y):
            (mine, item), _ = interp.fixed_items(node.v, 2, None)
            return Y(conj(node.g, interp.equal(mine, key)), item)
        if isinstance(node, F):
            return F(node.g, node.n, node.k, [chosen(n) for n in node.body], node.stop)
        raise Unsupported('lists being built')
    return Seq([chosen(node) for node in log.nodes])


def log_get(log):
    """Items put by a key, if there is a list to it"""
    def get(interp, st, key, default=None):
        if not isinstance(default, (Seq, TupleV)) or interp.nodes_of(default, st):
            raise Unsupported('default of get')
        return of_key(interp, log, key)
    return get


def regex_function(name):
    def fn(interp, st, pattern, *args):
        return b_compile(interp, st, pattern).methods[name](*args)
    return fn


def b_maketrans(interp, st, *args):
    if len(args) == 2 and all(isinstance(a, str) for a in args):
        return DictV(str.maketrans(*args))
    if len(args) == 3 and all(isinstance(a, str) for a in args):
        return DictV(str.maketrans(*args))
    if len(args) == 3 and args[:2] == ('', ''):
        removed = interp.contracts.by_name['model.without']
        interp.used.add(removed.name)
        return Mock('translation', methods={'apply': lambda text: Sym(T.Str, removed.function()(
            interp.term(args[2], T.Str), interp.term(text, T.Str)))})
    raise Unsupported('maketrans')


def b_ord(interp, st, c):
    if isinstance(c, str):
        return ord(c)
    raise Unsupported('ord')


BUILTINS['ord'] = b_ord



def items_term(interp, st, items):
    """(type of items, list term)"""
    if isinstance(items, Sym) and isinstance(items.ty, T.ListOf):
        return items.ty, items.t
    found = set()

    def look(nodes):
        for node in nodes:
            if isinstance(node, Y):
                found.add(ty_of(node.v))
            elif isinstance(node, F):
                look(node.body)
            else:
                raise Unsupported('list being built')

    nodes = interp.nodes_of(items, st)
    look(nodes)
    if len(found) != 1 or None in found:
        raise Unsupported('items of different types')
    ty = T.ListOf(found.pop())
    return ty, interp.list_term(nodes, ty.of)


def b_nlargest(interp, st, n, items):
    ty, t = items_term(interp, st, items)
    return Sym(ty, z3.Function(f'nlargest:{ty}', z3.IntSort(), ty.sort(), ty.sort())(interp.term(n, T.Int), t))


def one_by_one(nodes):
    """(list, item of it, chosen, value) if the items are those of a list, each chosen and changed on its own"""
    if len(nodes) != 1 or not isinstance(nodes[0], F):
        return None
    node = nodes[0]
    if not z3.is_true(node.g) or not z3.is_false(node.stop) or len(node.body) != 1 or not isinstance(node.body[0], Y) or \
            not z3.is_app_of(node.n, z3.Z3_OP_SEQ_LENGTH):
        return None
    base = node.n.arg(0)
    item = next((t for t in terms_in(node.body[0]) if t.decl().name().startswith('item:') and t.num_args() == 2 and
                 t.arg(0).eq(base) and t.arg(1).eq(node.k)), None)
    if item is None:
        return None
    return base, item, node.k, node.body[0]


def b_sorted(interp, st, items, key=None, reverse=False):
    if not isinstance(reverse, bool):
        raise Unsupported('sorted')
    found = None if isinstance(items, Sym) else one_by_one(interp.nodes_of(items, st))
    if found is not None:
        # sorting is stable: the same as sorting the list and then choosing and changing the items
        base, item, k, node = found
        any_item = z3.Const(f'item:{item.sort()}', item.sort())
        value = subst_value(node.v, (item, any_item))
        if not depends(value, k) and (key is not None or ty_of(value) is not None):
            by = sort_key(interp, st, value, key, any_item)
            if by is None:
                return sorted_term(interp, st, items, key, reverse)
            t = z3.Function(f'sorted:{base.sort()}:{by}:{reverse}', base.sort(), base.sort())(base)
            at = fresh(z3.IntSort(), 'k')
            pairs = [(item, item.decl()(t, at))]
            if not any(c.eq(k) for c in free_consts(z3.substitute(node.g, (item, any_item)))):
                return Seq([F(TRUE, z3.Length(t), at, [Y(z3.substitute(node.g, *pairs), subst_value(node.v, *pairs))])])
    return sorted_term(interp, st, items, key, reverse)


def sorted_term(interp, st, items, key, reverse):
    ty, t = items_term(interp, st, items)
    item = z3.Const(f'item:{ty.of.sort()}', ty.of.sort())
    by = sort_key(interp, st, Sym(ty.of, item), key, item)
    if by is None:
        raise Unsupported('key')
    return Sym(ty, z3.Function(f'sorted:{ty.sort()}:{by}:{reverse}', ty.sort(), ty.sort())(t))


KEYS = {}       # of sorting


def sort_key(interp, st, value, key, item):
    """The order depends on what the key is of any item; None if on something else, too"""
    if key is not None:
        value = interp.call(key, [value], {}, st)
    kind = ty_of(value)
    if kind is None:
        raise Unsupported('key')
    term = simplify(interp.term(value, kind))
    if any(not c.eq(item) for c in free_consts(term)):
        return None
    return KEYS.setdefault(term.sexpr(), len(KEYS))


def b_itemgetter(interp, st, index):
    return Builtin(f'item {index}', lambda interp, st, value: interp.index(value, index, st))


BUILTINS['sorted'] = b_sorted

FUNCTIONS = {
    'heapq.nlargest': b_nlargest,
    'operator.itemgetter': b_itemgetter,
    'dataclasses.replace': b_replace,
    're.compile': b_compile, 're.escape': regex.escape,
    'typing.cast': b_cast,
    'itertools.chain': b_chain,
    'itertools.chain.from_iterable': b_from_iterable,
    'itertools.product': b_product,
    'itertools.islice': b_islice,
    'collections.defaultdict': b_defaultdict,
    **{f're.{name}': regex_function(name) for name in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall')},
}


# strings

def s_function(name, *sorts):
    return z3.Function(name, *sorts)


STR = z3.StringSort


def unary(name, returns=T.Str):
    def method(interp, value):
        def fn(interp, st):
            if isinstance(value, str):
                return getattr(value, name)()
            return Sym(returns, z3.Function(f'str.{name}', STR(), returns.sort())(value.t))
        return fn
    return method


def str_replace(interp, value):
    def fn(interp, st, old, new, count=-1):
        if all(is_const(x) for x in (value, old, new, count)):
            return value.replace(old, new, count)
        s = interp.term(value, T.Str)
        args = [interp.term(old, T.Str), interp.term(new, T.Str)]
        if count == 1:
            return Sym(T.Str, z3.Replace(s, *args))
        if count != -1:
            raise Unsupported('replace count')
        # (the empty text is everywhere)
        return Sym(T.Str, z3.If(z3.Contains(s, args[0]), z3.Function('str.all_replaced', STR(), STR(), STR(), STR())(s, *args), s))
    return fn


def str_find(interp, value):
    def fn(interp, st, sub, start=0):
        if all(is_const(x) for x in (value, sub, start)):
            return value.find(sub, start)
        start = interp.term(start, T.Int)
        if not quick(st.known(), start >= 0, timeout=2000):
            raise Unsupported('find from a negative position')
        return Sym(T.Int, z3.IndexOf(interp.term(value, T.Str), interp.term(sub, T.Str), start))
    return fn


def str_split(interp, value):
    def fn(interp, st, sep=None, maxsplit=-1):
        if is_const(value) and is_const(sep) and is_const(maxsplit):
            return Seq([Y(TRUE, x) for x in value.split(sep, maxsplit)])
        name = 'str.split' if sep is None else 'str.split_by'
        args = [interp.term(value, T.Str)]
        if sep is not None:
            args.append(interp.term(sep, T.Str))
        args.append(interp.term(maxsplit, T.Int))
        ty = T.ListOf(T.Str)
        return Sym(ty, z3.Function(name, *[a.sort() for a in args], ty.sort())(*args))
    return fn


def affix_test(name):
    def method(interp, value):
        def fn(interp, st, part):
            if is_const(value) and is_const(part):
                return getattr(value, name)(part)
            if isinstance(part, TupleV):
                return interp.bool_value(disj(*[interp.truth(fn(interp, st, p)) for p in part.items]))
            s, p = interp.term(value, T.Str), interp.term(some(interp, st, part), T.Str)
            return interp.bool_value(z3.PrefixOf(p, s) if name == 'startswith' else z3.SuffixOf(p, s))
        return fn
    return method


def str_translate(interp, value):
    def fn(interp, st, table):
        table = some(interp, st, table)
        if isinstance(table, Mock) and table.kind == 'translation':
            return table.methods['apply'](value)
        if isinstance(table, DictV):
            pairs = sorted((k, chr(v) if isinstance(v, int) else v) for k, v in table.items.items())
            return Sym(T.Str, z3.Function(f'str.translate:{pairs}', STR(), STR())(interp.term(value, T.Str)))
        t = interp.term(table, ty_of(table))
        return Sym(T.Str, z3.Function(f'str.translate:{ty_of(table)}', STR(), t.sort(), STR())(
            interp.term(value, T.Str), t))
    return fn


def str_join(interp, value):
    def fn(interp, st, items):
        nodes = interp.nodes_of(items, st)
        if value == '':
            return Sym(T.Str, joined(interp, nodes))
        ty = T.ListOf(T.Str)
        return Sym(T.Str, z3.Function('str.join', STR(), ty.sort(), STR())(
            interp.term(value, T.Str), interp.list_term(nodes, T.Str)))
    return fn


def joined(interp, nodes):
    from pyvc.interp import concat
    parts = []
    for n in nodes:
        if isinstance(n, Y):
            part = interp.term(n.v, T.Str)
        else:
            if not z3.is_false(n.stop):
                raise Unsupported('join of a stopping loop')
            part = interp.fold('concat', n.n, n.k, joined(interp, n.body))
        parts.append(part if z3.is_true(n.g) else z3.If(n.g, part, z3.StringVal('')))
    return concat(*parts)


def str_count(interp, value):
    def fn(interp, st, part):
        if is_const(value) and is_const(part):
            return value.count(part)
        return Sym(T.Int, z3.Function('str.count', STR(), STR(), z3.IntSort())(
            interp.term(value, T.Str), interp.term(part, T.Str)))
    return fn


def str_partition(interp, value):
    def fn(interp, st, sep):
        args = [interp.term(value, T.Str), interp.term(sep, T.Str)]
        s, p = args
        pos = z3.IndexOf(s, p, z3.IntVal(0))
        size = z3.Length(p)
        return TupleV([Sym(T.Str, z3.If(pos < 0, s, z3.SubString(s, 0, pos))),
                       Sym(T.Str, z3.If(pos < 0, z3.StringVal(''), p)),
                       Sym(T.Str, z3.If(pos < 0, z3.StringVal(''), z3.SubString(s, pos + size, z3.Length(s))))])
    return fn


def stripper(name):
    def method(interp, value):
        def fn(interp, st, chars=None):
            args = [interp.term(value, T.Str)]
            if chars is not None:
                args.append(interp.term(chars, T.Str))
            return Sym(T.Str, z3.Function(f'str.{name}{len(args)}', *[a.sort() for a in args], STR())(*args))
        return fn
    return method


STR_METHODS = {
    'upper': unary('upper'), 'lower': unary('lower'), 'islower': unary('islower', T.Bool),
    'isupper': unary('isupper', T.Bool), 'isdigit': unary('isdigit', T.Bool), 'isnumeric': unary('isnumeric', T.Bool),
    'replace': str_replace, 'find': str_find, 'split': str_split, 'startswith': affix_test('startswith'),
    'endswith': affix_test('endswith'), 'translate': str_translate, 'join': str_join, 'count': str_count,
    'partition': str_partition, 'strip': stripper('strip'), 'rstrip': stripper('rstrip'), 'lstrip': stripper('lstrip'),
    'capitalize': unary('capitalize'), 'title': unary('title'), 'casefold': unary('casefold'),
}


def set_intersection(interp, value):
    def fn(interp, st, other):
        if isinstance(value, Sym) and isinstance(value.ty, T.SetOf):
            return Sym(value.ty, z3.SetIntersect(value.t, interp.term(other, value.ty)))
        if isinstance(value, SetV):
            def body(sub, item):
                sub.out.append(Y(conj(sub.guard, simplify(interp.member(item, other, sub))), item))
            return SetV(Seq(gen_loop(interp, st, value, body).nodes))
        raise Unsupported('intersection')
    return fn


def set_union(interp, value):
    def fn(interp, st, *others):
        ty = next((ty_of(v) for v in [value, *others] if isinstance(ty_of(v), T.SetOf)), None)
        if ty is None:
            raise Unsupported('union')
        t = interp.term(value, ty)
        for other in others:
            if isinstance(other, SetV) and all(isinstance(n, Y) for n in other.seq.nodes):
                for n in other.seq.nodes:
                    new = z3.Store(t, interp.term(n.v, ty.of), TRUE)
                    t = new if z3.is_true(n.g) else z3.If(n.g, new, t)
                continue
            other = interp.term(other, ty)
            t = other if t.eq(z3.K(ty.of.sort(), FALSE)) else z3.SetUnion(t, other)
        return Sym(ty, t)
    return fn


def set_issubset(interp, value):
    def fn(interp, st, other):
        nodes = interp.nodes_of(value, st)
        return interp.bool_value(neg(interp.any_of(nodes, lambda x: neg(interp.member(x, other, st)))))
    return fn


def set_isdisjoint(interp, value):
    def fn(interp, st, other):
        return interp.bool_value(neg(interp.any_of(interp.nodes_of(value, st), lambda x: interp.member(x, other, st))))
    return fn


SET_METHODS = {'isdisjoint': set_isdisjoint, 'union': set_union, 'intersection': set_intersection, 'issubset': set_issubset}


def dict_get(interp, value):
    def fn(interp, st, key, default=None):
        if is_const(key):
            return value.items.get(key, default)
        alts = [(interp.equal(key, k), v) for k, v in value.items.items()]
        alts.append((neg(disj(*[g for g, _ in alts])), default))
        return interp.combine(alts)
    return fn


def method(interp, value, name):
    ty = ty_of(value)
    if ty == T.Str and name in STR_METHODS:
        return STR_METHODS[name](interp, value)
    if (isinstance(ty, T.SetOf) or isinstance(value, SetV)) and name in SET_METHODS:
        return SET_METHODS[name](interp, value)
    if isinstance(value, Seq) and value.kind == 'log' and name == 'get':
        return log_get(value)
    if isinstance(value, DictV):
        if name == 'get':
            return dict_get(interp, value)
        if name == 'items':
            return lambda interp, st: Seq([Y(TRUE, TupleV([k, v])) for k, v in value.items.items()])
        if name == 'values':
            return lambda interp, st: Seq([Y(TRUE, v) for v in value.items.values()])
    if isinstance(value, Builtin) and value.name == 'str' and name == 'maketrans':
        return b_maketrans
    return None
