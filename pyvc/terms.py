"""Helpers on terms and values."""

import z3

from pyvc.prove import conjuncts, contains, quick
from pyvc.values import (Builtin, Cases, ClassV, DictV, EnumConst, F, FuncV, Mock, ModuleV, RecV, Seq, SetV, Sym, TupleV,
                         Undefined, Unsupported, Y, is_const)


def char_at(t, i):
    return z3.SubString(t, i, z3.IntVal(1))


def concat(*parts):
    flat = []
    for p in parts:
        if z3.is_string_value(p) and p.as_string() == '':
            continue
        flat.append(p)
    if not flat:
        return z3.StringVal('')
    return flat[0] if len(flat) == 1 else z3.Concat(*flat)


def zmax(a, b, n=None):
    best = z3.If(a >= b, a, b)
    return best if n is None else z3.If(n > 0, best, a)


def max_pieces(t, p):
    """t == max(p, e): e"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        cond, a, b = t.children()
        for mine, other in ((a, b), (b, a)):
            if mine.eq(p) and not contains(other, p):
                if quick([], t == z3.If(p >= other, p, other), timeout=1000):
                    return other
    return None


def subst_value(v, *pairs):
    if is_const(v) or isinstance(v, (EnumConst, FuncV, ClassV, ModuleV, Builtin, Undefined)):
        return v
    if isinstance(v, Sym):
        return Sym(v.ty, z3.substitute(v.t, *pairs))
    if isinstance(v, RecV):
        return RecV(v.ty, {n: subst_value(x, *pairs) for n, x in v.fields.items()})
    if isinstance(v, TupleV):
        return TupleV([subst_value(x, *pairs) for x in v.items])
    if isinstance(v, Cases):
        return Cases([(z3.substitute(g, *pairs), subst_value(x, *pairs)) for g, x in v.alts])
    if isinstance(v, Seq):
        return Seq([subst_node(n, *pairs) for n in v.nodes], v.kind)
    if isinstance(v, SetV):
        return SetV(subst_value(v.seq, *pairs))
    if isinstance(v, DictV):
        return DictV({key: subst_value(x, *pairs) for key, x in v.items.items()})
    if isinstance(v, Mock):
        if not getattr(v, 'rebuild', None):
            raise Unsupported('library object in a loop')
        return v.rebuild(*pairs)
    raise Unsupported(f'substitution in {v!r}'[:200])


def subst_node(n, *pairs):
    if isinstance(n, Y):
        return Y(z3.substitute(n.g, *pairs), subst_value(n.v, *pairs))
    if isinstance(n, F):
        src = subst_value(n.src, *pairs) if n.src is not None else None
        return F(z3.substitute(n.g, *pairs), z3.substitute(n.n, *pairs), n.k,
                 [subst_node(b, *pairs) for b in n.body], z3.substitute(n.stop, *pairs), src)
    return n


def visit_values(items, fn):
    for v in items:
        fn(v)
        if isinstance(v, Y):
            visit_values([v.v], fn)
        elif isinstance(v, F):
            visit_values(v.body, fn)
        elif isinstance(v, Seq):
            visit_values(v.nodes, fn)
        elif isinstance(v, SetV):
            visit_values(v.seq.nodes, fn)
        elif isinstance(v, TupleV):
            visit_values(v.items, fn)
        elif isinstance(v, RecV):
            visit_values(v.fields.values(), fn)
        elif isinstance(v, Cases):
            visit_values([x for _, x in v.alts], fn)


def terms_in(item):
    """All terms that occur in a value"""
    roots = []

    def look(x):
        if isinstance(x, Sym):
            roots.append(x.t)
        elif isinstance(x, Y):
            roots.append(x.g)
        elif isinstance(x, F):
            roots.extend([x.g, x.n, x.stop])
        elif isinstance(x, Cases):
            roots.extend(g for g, _ in x.alts)

    visit_values([item], look)
    seen = set()
    while roots:
        cur = roots.pop()
        if cur.get_id() not in seen and z3.is_app(cur):
            seen.add(cur.get_id())
            yield cur
            roots.extend(cur.children())


def depends(v, const):
    found = [False]

    def look(x):
        if isinstance(x, Sym) and contains(x.t, const):
            found[0] = True
        elif isinstance(x, Y) and contains(x.g, const):
            found[0] = True
        elif isinstance(x, F) and any(contains(t, const) for t in (x.g, x.n, x.stop)):
            found[0] = True
        elif isinstance(x, Cases) and any(contains(g, const) for g, _ in x.alts):
            found[0] = True
    visit_values([v], look)
    return found[0]


def depends_node(n, const):
    return depends(n, const)


def at_least(t, st):
    """A number known without search not to be above the integer term, None if there is none"""
    if z3.is_int_value(t):
        return t.as_long()
    if not z3.is_app(t):
        return None
    kind = t.decl().kind()
    if kind == z3.Z3_OP_SEQ_LENGTH:
        return 0
    if kind == z3.Z3_OP_SEQ_INDEX:
        return -1
    if kind == z3.Z3_OP_ADD:
        parts = [at_least(child, st) for child in t.children()]
        return None if None in parts else sum(parts)
    if kind == z3.Z3_OP_ITE:
        parts = [at_least(child, st) for child in t.children()[1:]]
        return None if None in parts else min(parts)
    if kind == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0 and \
            any(fact.eq(t >= 0) for fact in conjuncts(st.known())):
        return 0
    return None


def nonnegative(t, st):
    bound = at_least(t, st)
    return bound is not None and bound >= 0
