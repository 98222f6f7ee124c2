"""Proof of equality of two results (of the code and of its contract), item by item."""

import z3

from pyvc import types as T
from pyvc.prove import (FALSE, Result, TRUE, check, close, conj, disj, exists, fresh, neg, possible, prove, quick, simplify,
                        instances, kind_of, unfold, unfold_iterate)
from pyvc.values import Cases, F, RecV, Seq, SetV, Sym, TupleV, Undefined, Unsupported, Y, is_const, ty_of

MAX_CASES = 200


class Obligation:
    def __init__(self, what, result):
        self.what = what
        self.result = result

    def __repr__(self):
        return f'{self.result.status}: {self.what}'


class Comparison:
    def __init__(self, interp, timeout=None):
        self.interp = interp
        self.timeout = timeout
        self.obligations = []
        self.level = 0
        self.differ = {}

    def failed(self):
        return [o for o in self.obligations if not o.result]

    def goal(self, ctx, formula, what):
        result = prove(ctx, formula, timeout=self.timeout, lemmas=self.lemmas)
        self.obligations.append(Obligation(what, result))
        if result.status == 'refuted':
            result.ctx = ctx
            result.goal = formula
        return bool(result)

    def easy_goal(self, ctx, formula, what):
        result = quick(ctx, formula)
        if result:
            self.obligations.append(Obligation(what, result))
        else:
            self.goal(ctx, formula, what)

    def holds(self, ctx, formula):
        return bool(prove(ctx, formula, timeout=self.timeout, lemmas=self.lemmas))

    def unknown(self, what):
        self.obligations.append(Obligation(what, Result('unknown', what)))
        return False

    def each(self, nodes, ctx, fact, of, what):
        """The fact holds for every item"""
        for node in nodes:
            if isinstance(node, Y):
                self.goal([*ctx, node.g], fact(self.interp.term(node.v, of)), what)
            else:
                k = node.k
                self.each(node.body, [*ctx, node.g, k >= 0, k < node.n, *no_stop_before(node, k)], fact, of, what)

    # equal folds with equal bodies

    def lemmas(self, formulas, assumptions):
        if self.level > 2:
            return []
        found = {}
        terms = list(instances(formulas, found))
        extra = []
        self.level += 1
        try:
            for i, a in enumerate(terms):
                for b in terms[i + 1:]:
                    if a.decl().eq(b.decl()) and len(a.children()) == 0:
                        continue
                    if kind_of(a) == 'iterate' or kind_of(b) == 'iterate':
                        if kind_of(a) == kind_of(b) and a.sort() == b.sort() and self.same_iteration(a, b, assumptions):
                            extra.append(a == b)
                        continue
                    da, na, body_a = unfold(a)
                    db, nb, body_b = unfold(b)
                    if da.kind != db.kind or a.sort() != b.sort():
                        continue
                    known = [x for x in assumptions]
                    k = fresh(z3.IntSort(), 'k')
                    inside = [*known, k >= 0] if da.kind == 'least' else [*known, k >= 0, k < na]
                    goal = z3.substitute(body_a, (da.k, k)) == z3.substitute(body_b, (db.k, k))
                    if prove(known, z3.Or(na == nb, z3.And(na <= 0, nb <= 0)), timeout=2000) and \
                            prove(inside, goal, timeout=3000, lemmas=self.lemmas):
                        extra.append(a == b)
        finally:
            self.level -= 1
        return extra

    def same_iteration(self, a, b, assumptions):
        da, init_a, count_a, step_a = unfold_iterate(a)
        db, init_b, count_b, step_b = unfold_iterate(b)
        # what was found to differ is not looked at again
        steps = (da, db, step_a.get_id(), step_b.get_id())
        if steps in self.differ:
            return False
        k, state = fresh(z3.IntSort(), 'k'), fresh(a.sort(), 'state')
        if not prove([*assumptions, k >= 0, k < count_a],
                     z3.substitute(step_a, (da.k, k), (da.extra, state)) ==
                     z3.substitute(step_b, (db.k, k), (db.extra, state)), timeout=3000, lemmas=self.lemmas):
            self.differ[steps] = (step_a, step_b)
            return False
        return bool(prove(assumptions, count_a == count_b, timeout=2000, lemmas=self.lemmas) and
                    prove(assumptions, init_a == init_b, timeout=2000, lemmas=self.lemmas))

    # values

    def values(self, v1, v2, ctx, what):
        interp = self.interp
        if isinstance(v1, Undefined) or isinstance(v2, Undefined):
            raise Unsupported('undefined result')
        if isinstance(v1, Cases):
            return all([self.values(v, v2, [*ctx, g], what) for g, v in v1.alts if possible([*ctx, g])])
        if isinstance(v2, Cases):
            return all([self.values(v1, v, [*ctx, g], what) for g, v in v2.alts if possible([*ctx, g])])
        t1, t2 = ty_of(v1), ty_of(v2)
        if isinstance(v1, SetV) and isinstance(v2, SetV):
            return self.sequences(v1.seq.nodes, v2.seq.nodes, ctx, what)
        if is_listy(v1, t1) and is_listy(v2, t2):
            if isinstance(v1, Sym) and isinstance(v2, Sym) and v1.t.eq(v2.t):
                return self.goal(ctx, TRUE, what)
            if isinstance(v1, Seq) and isinstance(v2, Seq) and v1.kind == v2.kind == 'log':
                return self.sequences(v1.nodes, v2.nodes, ctx, what)
            return self.sequences(interp.nodes_of(v1, None), interp.nodes_of(v2, None), ctx, what)
        if isinstance(t1, T.Rec) and t1 == t2:
            if isinstance(v1, Sym) and isinstance(v2, Sym) and v1.t.eq(v2.t):
                return self.goal(ctx, TRUE, what)
            return all([self.values(field(interp, v1, name), field(interp, v2, name), ctx, f'{what}.{name}')
                        for name in t1.fields])
        if isinstance(v1, TupleV) and isinstance(v2, TupleV) and len(v1.items) == len(v2.items):
            return all([self.values(a, b, ctx, f'{what}[{i}]') for i, (a, b) in enumerate(zip(v1.items, v2.items))])
        if isinstance(t1, T.TupleOf) and isinstance(t2, T.TupleOf) and len(t1.of) == len(t2.of):
            items1, items2 = [interp.fixed_items(v, len(t1.of), None)[0] for v in (v1, v2)]
            return all([self.values(a, b, ctx, f'{what}[{i}]') for i, (a, b) in enumerate(zip(items1, items2))])
        return self.goal(ctx, interp.equal(v1, v2), what)

    # sequences

    def prepare(self, nodes, ctx):
        """Nodes that may be present, alternatives of values spread"""
        res = []
        for n in nodes:
            if isinstance(n, Y):
                g = simplify(n.g)
                if z3.is_false(g):
                    continue
                if isinstance(n.v, Cases) and not scalar_cases(n.v):
                    for g2, v in n.v.alts:
                        res.extend(self.prepare([Y(conj(g, g2), v)], ctx))
                    continue
                res.append(Y(g, n.v))
            elif isinstance(n, F):
                g, count = simplify(n.g), simplify(n.n)
                if z3.is_false(g):
                    continue
                if z3.is_int_value(count) and count.as_long() <= 8 and z3.is_false(simplify(n.stop)):
                    from pyvc.interp import subst_node
                    for i in range(count.as_long()):
                        for b in n.body:
                            res.extend(self.prepare([self.interp.guarded(subst_node(b, (n.k, z3.IntVal(i))), g)], ctx))
                    continue
                res.append(F(g, count, n.k, n.body, n.stop, n.src))
            else:
                raise Unsupported('list being built')
        return res

    def sequences(self, nodes1, nodes2, ctx, what):
        nodes1 = self.prepare(nodes1, ctx)
        nodes2 = self.prepare(nodes2, ctx)
        for _ in range(2):
            if len(nodes1) == len(nodes2) and all(isinstance(a, Y) == isinstance(b, Y) for a, b in zip(nodes1, nodes2)):
                if all(self.same_guard(a, b, ctx) for a, b in zip(nodes1, nodes2)):
                    return all([self.node(a, b, [*ctx, a.g], f'{what}#{i}')
                                for i, (a, b) in enumerate(zip(nodes1, nodes2))])
            before = len(nodes1), len(nodes2)
            nodes1, nodes2 = [[n for n in nodes if z3.is_true(n.g) or possible([*ctx, n.g])] for nodes in (nodes1, nodes2)]
            if (len(nodes1), len(nodes2)) == before:
                break
        return self.by_cases(nodes1, nodes2, ctx, what)

    def same_guard(self, a, b, ctx):
        if a.g.eq(b.g):
            return True
        if self.holds(ctx, a.g == b.g):
            return True
        if isinstance(a, F) and isinstance(b, F):
            # both may be left out where there is nothing to repeat
            return self.holds(ctx, z3.And(a.g, a.n > 0) == z3.And(b.g, b.n > 0)) and \
                self.holds([*ctx, a.n > 0], a.g == b.g)
        return False

    def by_cases(self, nodes1, nodes2, ctx, what):
        guards = []
        for n in [*nodes1, *nodes2]:
            if not z3.is_true(n.g) and not any(n.g.eq(g) for g in guards):
                guards.append(n.g)
        cases = [([], list(ctx))]
        for g in guards:
            following = []
            for picked, known in cases:
                for value in (g, neg(g)):
                    if possible_closed([*known, value]):
                        following.append(([*picked, value], [*known, value]))
            cases = following
            if len(cases) > MAX_CASES:
                raise Unsupported(f'too many cases: {what}')
        ok = True
        for picked, known in cases:
            chosen = {g.get_id() for g in picked}
            l1 = [n for n in nodes1 if z3.is_true(n.g) or n.g.get_id() in chosen]
            l2 = [n for n in nodes2 if z3.is_true(n.g) or n.g.get_id() in chosen]
            ok = self.unconditional(l1, l2, known, what) and ok
        return ok

    def unconditional(self, l1, l2, ctx, what):
        """Guards of all nodes hold"""
        l1 = [n for n in l1 if isinstance(n, Y) or possible_closed([*ctx, n.n > 0])]
        l2 = [n for n in l2 if isinstance(n, Y) or possible_closed([*ctx, n.n > 0])]
        if len(l1) == len(l2) and all(isinstance(a, Y) == isinstance(b, Y) for a, b in zip(l1, l2)):
            return all([self.node(a, b, ctx, f'{what}#{i}') for i, (a, b) in enumerate(zip(l1, l2))])
        # short loops, spelled out
        if any(isinstance(n, F) for n in [*l1, *l2]):
            short1, short2 = self.spelled(l1, ctx), self.spelled(l2, ctx)
            if short1 is not None and short2 is not None:
                return self.sequences(short1, short2, ctx, what)
        # one is a loop over the list the other one spells out
        ty = next((t for t in (item_type(l1), item_type(l2)) if t is not None), None)
        if ty is not None:
            try:
                t1 = self.interp.list_term([unguarded(n) for n in l1], ty)
                t2 = self.interp.list_term([unguarded(n) for n in l2], ty)
            except Unsupported:
                return self.unknown(f'{what}: sequences of different shape')
            if not l1 or not l2:
                # an extra item for sure, or an extra loop
                return self.goal(ctx, t1 == t2, f'{what}: same items')
            if self.holds(ctx, t1 == t2):
                return self.goal(ctx, t1 == t2, what)
            if all(isinstance(n, Y) for n in [*l1, *l2]):
                return self.goal(ctx, FALSE, f'{what}: same number of items')
        return self.unknown(f'{what}: sequences of different shape')

    def spelled(self, nodes, ctx):
        from pyvc.interp import subst_node
        res = []
        for n in nodes:
            if isinstance(n, Y):
                res.append(n)
                continue
            if not z3.is_false(simplify(n.stop)):
                return None
            bound = next((b for b in (1, 2, 3, 4, 6, 8) if prove(ctx, n.n <= b, timeout=1000)), None)
            if bound is None:
                return None
            for i in range(bound):
                res.extend(self.interp.guarded(subst_node(b, (n.k, z3.IntVal(i))), simplify(conj(n.g, n.n > i)))
                           for b in n.body)
        return res

    def node(self, a, b, ctx, what):
        if isinstance(a, Y):
            return self.values(a.v, b.v, ctx, what)
        from pyvc.interp import subst_node
        if a.src is not None and b.src is not None and isinstance(a.src, Sym) and isinstance(b.src, Sym) and \
                a.src.t.sort() == b.src.t.sort() and a.src.t.eq(b.src.t) and plain(a) and plain(b):
            return self.goal(ctx, TRUE, what)
        k = fresh(z3.IntSort(), 'k')
        body1 = [subst_node(n, (a.k, k)) for n in a.body]
        body2 = [subst_node(n, (b.k, k)) for n in b.body]
        stop1 = z3.substitute(a.stop, (a.k, k))
        stop2 = z3.substitute(b.stop, (b.k, k))
        if a.n.eq(b.n) or self.holds(ctx, z3.Or(a.n == b.n, z3.And(a.n <= 0, b.n <= 0))):
            inside = [*ctx, k >= 0, k < a.n, *no_stop_before(a, k), *no_stop_before(b, k)]
        else:
            inside = [*ctx, k >= 0, z3.Or(k < a.n, k < b.n), *no_stop_before(a, k), *no_stop_before(b, k)]
            body1 = [self.interp.guarded(n, k < a.n) for n in body1]
            body2 = [self.interp.guarded(n, k < b.n) for n in body2]
            stop1 = conj(stop1, k < a.n)
            stop2 = conj(stop2, k < b.n)
        ok = True
        if not (z3.is_false(stop1) and z3.is_false(stop2)):
            # stopping after the last item or iterating without items is the same
            if not self.holds(inside, stop1 == stop2):
                ok = self.goal(inside, stop1 == stop2, f'{what}: iteration ends in the same place')
        return self.sequences(body1, body2, inside, what) and ok


def no_stop_before(node, k):
    if z3.is_false(node.stop):
        return []
    j = fresh(z3.IntSort(), 'k')
    return [neg(exists(k, j, z3.substitute(node.stop, (node.k, j))))]


def plain(node):
    return z3.is_false(node.stop) and len(node.body) == 1 and isinstance(node.body[0], Y) and \
        z3.is_true(node.body[0].g) and isinstance(node.body[0].v, Sym) and \
        isinstance(node.src.ty, T.ListOf) and \
        node.body[0].v.t.eq(T.nth(node.src.ty.of, node.src.t, node.k))


def unguarded(node):
    if isinstance(node, Y):
        return Y(TRUE, node.v)
    return F(TRUE, node.n, node.k, node.body, node.stop, node.src)


def item_type(nodes):
    ty = ty_of(Seq(nodes))
    return ty.of if ty is not None else None


def is_listy(v, ty):
    return isinstance(v, (Seq,)) or isinstance(ty, T.ListOf) and isinstance(v, Sym)


def scalar_cases(v):
    return ty_of(v) is not None


def field(interp, v, name):
    if isinstance(v, RecV):
        return v.fields[name]
    return Sym(v.ty.fields[name], v.ty.get(v.t, name))


def possible_closed(formulas):
    formulas = [simplify(f) for f in formulas]
    if any(z3.is_false(f) for f in formulas):
        return False
    answer, _ = check(close([f for f in formulas if not z3.is_true(f)]), 1500)
    return answer != z3.unsat
