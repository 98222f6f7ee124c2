"""Loops. One iteration is executed on placeholders of the variables it changes; what the variables are before the
iteration k and after the loop follows from the form of the change: a quantifier or a fold where there is one, otherwise
a recursively defined function of k (`iterate`)."""

import ast

import z3

from pyvc import types as T
from pyvc.prove import FALSE, TRUE, conj, contains, define, define_iterate, disj, exists, free_consts, fresh, neg, quick, simplify
from pyvc.store import Store
from pyvc.terms import depends, max_pieces, subst_node, subst_value, visit_values, zmax
from pyvc.values import Cases, DictV, F, ObjV, PlaceV, RecV, Seq, SetV, Sym, TupleV, Undefined, Unsupported, Y, Z, ty_of

MUTATORS = {'append', 'extend', 'add', 'update', 'pop', 'insert', 'remove', 'clear', 'sort', 'reverse', 'discard',
            'setdefault', 'popitem'}


def assigned_names(stmts):
    names = set()
    for stmt in stmts:
        for node in ast.walk(stmt):
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
                names.add(node.id)
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and \
                    isinstance(node.func.value, ast.Name) and node.func.attr in MUTATORS:
                names.add(node.func.value.id)
            elif isinstance(node, ast.Call) and grouped(node) is not None and isinstance(grouped(node)[0], ast.Name):
                names.add(grouped(node)[0].id)
            elif isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Name) and \
                    getattr(node.func, 'attr', getattr(node.func, 'id', None)) in ('heappush', 'heappushpop'):
                names.add(node.args[0].id)
            elif isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Store):
                while isinstance(node, ast.Subscript):
                    node = node.value
                if isinstance(node, ast.Name):
                    names.add(node.id)
            elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and isinstance(node.value, ast.Name):
                names.add(node.value.id)
    return names


def one_after_another(node):
    """for item in source -> while True: row = source.take(1) ..."""
    head = ast.parse(f'row = {node.iter.id}.take(1)\nif not row:\n    break\nitem = row[0]').body
    head[2].targets = [node.target]
    loop = ast.While(ast.Constant(True), [*head, *node.body], [])
    for part in ast.walk(loop):
        ast.copy_location(part, part if hasattr(part, 'lineno') else node)
    for part in [loop, *[inner for stmt in head for inner in ast.walk(stmt)]]:
        part.lineno, part.col_offset, part.end_lineno, part.end_col_offset = node.lineno, 0, node.lineno, 0
    return ast.fix_missing_locations(loop)


def grouped(call):
    """(items, key, item) of items[key].append(item), items.setdefault(key, []).append(item)"""
    if not (isinstance(call.func, ast.Attribute) and call.func.attr == 'append' and len(call.args) == 1):
        return None
    target = call.func.value
    if isinstance(target, ast.Subscript):
        return target.value, target.slice, call.args[0]
    if isinstance(target, ast.Call) and isinstance(target.func, ast.Attribute) and target.func.attr == 'setdefault' and \
            len(target.args) == 2 and isinstance(target.args[1], ast.List) and not target.args[1].elts:
        return target.func.value, target.args[0], call.args[0]
    return None


class State:
    def __init__(self, env, ctx, module, out=None, parent=None):
        self.env = env
        self.ctx = ctx              # what is known outside of the current level
        self.guard = TRUE           # condition of reaching this point, relative to the level
        self.out = out
        self.brk = FALSE
        self.cont = FALSE
        self.rets = []
        self.ret_heaps = []         # (condition, heap, variables, cells not to be looked at) at return
        self.saved = []             # (condition, variables, heap) at continue and break
        self.module = module
        self.parent = parent        # enclosing scope (for closures)
        self.cls = None
        self.cellnames = {}         # variables shared with functions defined inside: name -> cell in the heap
        self.params = set()
        self.function = None        # definition being run

    def known(self):
        return [*self.ctx, self.guard]


class Loops:
    def stmt_For(self, node, st):
        if node.orelse:
            raise Unsupported('for-else')
        iterable = self.eval(node.iter, st)
        if isinstance(node.iter, ast.Name) and isinstance(iterable, Sym) and (iterable.ty.key, 'take') in self.contracts.adaptors and \
                any(isinstance(n, ast.Name) and n.id == node.iter.id for stmt in node.body for n in ast.walk(stmt)):
            # the body reads from it, too
            self.stmt_While(one_after_another(node), st)
            self.endless.pop()
            return
        if self.filled(node, iterable, st):
            return
        effects = self.consumed(iterable)
        names = assigned_names(node.body) | assigned_names([ast.Assign([node.target], ast.Constant(0))])

        def body(sub, item):
            self.assign(node.target, item, sub)
            self.block(node.body, sub)

        if isinstance(node.iter, ast.Name) and node.iter.id in assigned_names(node.body):
            self.growing(node, iterable, st, body, names)
            return

        # what the generator changes while it runs is not looked at by the body
        frozen = self.frozen
        self.frozen = frozen | effects
        earlier = len(st.ret_heaps)
        try:
            broke = self.loop(iterable, st, body, names)
        finally:
            self.frozen = frozen
        if effects:
            # how far the generator went when the loop was left
            if not z3.is_false(broke):
                self.heap.update({cell: Undefined(sticky=True) for cell in effects})
            st.ret_heaps[earlier:] = [(g, heap, env, lost | effects) for g, heap, env, lost in st.ret_heaps[earlier:]]

    def growing(self, node, items, st, body, names):
        """Loop over a list the body extends: what is added in the first pass is gone through, adding nothing more"""
        name = node.iter.id
        if not isinstance(items, (Seq, Sym)) or getattr(items, 'shared', False) or name in st.params:
            raise Unsupported(f'{name} is changed while gone through')
        uses = [n for stmt in node.body for n in ast.walk(stmt) if isinstance(n, ast.Name) and n.id == name]
        calls = [n for stmt in node.body for n in ast.walk(stmt) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                 and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ('append', 'extend')
                 and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == name]
        if len(uses) != len(calls):
            raise Unsupported(f'{name} is looked at while gone through')
        added = items
        for _ in range(2):
            st.env[name] = Seq([])
            if not z3.is_false(self.loop(added, st, body, names)):
                raise Unsupported(f'leaving a loop over the growing {name}')
            added = st.env[name]
        if not isinstance(added, Seq) or not all(self.absent(n, st.known()) for n in added.nodes):
            raise Unsupported(f'{name} may grow again')
        st.env[name] = Undefined(sticky=True)

    def absent(self, node, known):
        if isinstance(node, Y):
            return quick(known, neg(node.g), timeout=2000)
        if isinstance(node, F):
            inside = [*known, node.g, node.k >= 0, node.k < node.n]
            return quick(known, neg(node.g), timeout=500) or all(self.absent(n, inside) for n in node.body)
        return False

    def filled(self, node, positions, st):
        """for i in positions: items[i] = something"""
        step = node.body[0]
        if not (len(node.body) == 1 and isinstance(step, ast.Assign) and len(step.targets) == 1
                and isinstance(step.targets[0], ast.Subscript) and isinstance(step.targets[0].value, ast.Name)
                and isinstance(step.targets[0].slice, ast.Name) and isinstance(node.target, ast.Name)
                and step.targets[0].slice.id == node.target.id and node.target.id != step.targets[0].value.id
                and isinstance(positions, Seq) and positions.kind == 'range'):
            return False
        name, index = step.targets[0].value.id, node.target.id
        if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(step.value)):
            return False
        items = self.eval(ast.Name(name, ast.Load()), st)
        if not isinstance(items, Seq) or items.kind == 'gen' or name in st.params or getattr(items, 'shared', False):
            return False
        if len(items.nodes) != 1 or not isinstance(items.nodes[0], F):
            return False
        old, = items.nodes
        if not (z3.is_true(old.g) and z3.is_false(old.stop) and len(old.body) == 1 and isinstance(old.body[0], Y)
                and z3.is_true(old.body[0].g)):
            return False
        first, step_size, count = positions.bounds
        if step_size < 1:
            return False
        k = fresh(z3.IntSort(), 'k')
        self.safe(st, disj(count <= 0, conj(first >= 0, first + step_size * (count - 1) < old.n)), 'index in range')
        at = conj(k >= first, k < first + step_size * count, (k - first) % step_size == 0)
        sub = State({**st.env, index: Sym(T.Int, k)}, [*st.known(), at], st.module, parent=st.parent)
        sub.function = st.function
        sub.cls, sub.cellnames, sub.params = st.cls, st.cellnames, st.params
        new = self.eval(step.value, sub)
        before = subst_value(old.body[0].v, [(old.k, k)])
        self.store(name, Seq([F(TRUE, old.n, k, [Y(TRUE, self.combine([(at, new), (neg(at), before)]))])], items.kind), st)
        st.env[index] = Undefined()
        return True

    def stmt_While(self, node, st):
        if node.orelse:
            raise Unsupported('while-else')
        saved = dict(st.env)
        try:
            positions_while(self, node, st)
            return
        except NotPositions:
            st.env = saved
        names = assigned_names(node.body)
        # ends if what is compared comes closer
        closer = isinstance(node.test, ast.Compare) and len(node.test.ops) == 1 and \
            isinstance(node.test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE))
        if not closer:
            self.endless.append(node.lineno)

        def distance(sub):
            sides = [self.term(self.eval(side, sub), T.Int) for side in (node.test.left, node.test.comparators[0])]
            return sides[1] - sides[0] if isinstance(node.test.ops[0], (ast.Lt, ast.LtE)) else sides[0] - sides[1]

        def inner(sub):
            before = distance(sub) if closer else None
            going = simplify(self.cond(node.test, sub))
            sub.brk = neg(going)
            sub.saved.append((neg(going), dict(sub.env), dict(self.heap)))
            sub.guard = going
            self.block(node.body, sub)
            left = disj(sub.brk, *[g for g, _ in sub.rets])
            self.end_of_body(sub)
            if closer:
                sub.ctx = [*sub.ctx, going]
                guard, sub.guard = sub.guard, TRUE
                self.safe(sub, disj(left, distance(sub) < before), f'loop in line {node.lineno} comes to its end')
                sub.guard = guard

        self.run_loop(st, TRUE, None, fresh(z3.IntSort(), 'k'), inner, names)

    def loop(self, iterable, st, body, names):
        """Returns the condition of having been broken"""
        if isinstance(iterable, Cases):
            stopped = FALSE
            for g, v in iterable.alts:
                env, heap = dict(st.env), dict(self.heap)
                broke = [FALSE]

                def run(v=v, broke=broke):
                    broke[0] = self.loop(v, st, body, names)

                goes = self.branch(st, g, run)
                st.env = self.merge_envs(g, st.env, env)
                self.heap = self.merge_envs(g, self.heap, heap)
                st.guard = conj(st.guard, disj(neg(g), goes))
                stopped = disj(stopped, conj(g, broke[0]))
            return stopped
        return self.loop_nodes(self.nodes_of(iterable, st), st, body, names)

    def end_of_body(self, st):
        for g, env, heap in st.saved:
            st.env = self.merge_envs(g, env, st.env)
            self.heap = self.merge_envs(g, heap, self.heap)
        st.saved = []

    def loop_nodes(self, nodes, st, body, names):
        stopped = FALSE
        for node in nodes:
            if isinstance(node, Y):
                cond = simplify(conj(node.g, neg(stopped)))
                env, heap, brk, cont = dict(st.env), dict(self.heap), st.brk, st.cont
                st.brk = st.cont = FALSE
                guard = st.guard

                def once(v=node.v):
                    body(st, v)
                    self.end_of_body(st)
                    # the next iteration follows unless returned
                    st.guard = self.rejoin(st.guard, disj(st.cont, st.brk))
                    st.cont = FALSE

                goes = self.branch(st, cond, once)
                if not z3.is_true(cond):
                    st.env = self.merge_envs(cond, st.env, env)
                    self.heap = self.merge_envs(cond, self.heap, heap)
                st.guard = conj(guard, disj(neg(cond), goes))
                stopped = disj(stopped, st.brk)
                st.brk, st.cont = brk, cont
            elif isinstance(node, F):
                node = self.renamed(node)

                def inner(sub, node=node):
                    sub.brk = self.loop_nodes(node.body, sub, body, names)

                broke = self.run_loop(st, conj(node.g, neg(stopped)), node.n, node.k, inner, names, node.stop)
                stopped = disj(stopped, broke)
            else:
                raise Unsupported('iterating a list being built')
        return stopped

    def rejoin(self, guard, left):
        if z3.is_false(left):
            return guard
        joined = simplify(disj(guard, left))
        return TRUE if z3.is_true(joined) or quick([], joined, timeout=500) else joined

    def renamed(self, node):
        k = fresh(z3.IntSort(), 'k')
        return F(node.g, node.n, k, [subst_node(n, (node.k, k)) for n in node.body],
                 z3.substitute(node.stop, (node.k, k)), node.src)

    def run_loop(self, st, g, n, k, inner, names, source_stop=FALSE):
        """Executes the iteration k < n (any k if n is None: until stopped); returns the condition of having been
        broken"""
        endless = n is None
        if endless:
            n = fresh(z3.IntSort(), 'n')
        carried = {name: st.env[name] for name in sorted(names)
                   if name in st.env and not isinstance(st.env[name], Undefined)}
        cells = {cell: value for cell, value in self.heap.items()
                 if cell in self.mutable and cell not in self.frozen and not isinstance(value, Undefined)}
        before = dict(self.heap)
        inside = [*st.known(), g, k >= 0] + ([] if endless else [k < n])
        # fields of objects the iteration leaves as they are, if it finds them so
        kept = {cell for cell in cells if cell in self.made_cells}
        # numbers that stay above -1
        naturals = {name for name, value in carried.items() if endless and ty_of(value) == T.Int and
                    quick(st.known(), self.term(value, T.Int) >= 0)}
        # types of variables that are None at first
        optional = {}
        marks = len(self.safety), len(self.endless)
        while True:
            env = dict(st.env)
            places = {}
            for name, value in carried.items():
                places[name] = env[name] = self.placeholder(name, value) if name not in optional else \
                    Sym(optional[name], fresh(optional[name].sort(), name))
            for cell, value in cells.items():
                if cell not in kept:
                    places[cell] = self.heap[cell] = self.placeholder('cell', value)
            signs = [places[name].t >= 0 for name in naturals]
            sub = State(env, [*inside, *signs], st.module, out=None if st.out is None else [], parent=st.parent)
            sub.function = st.function
            sub.cls, sub.cellnames, sub.params = st.cls, st.cellnames, st.params
            inner(sub)
            heaps = [self.heap, *[heap for _, heap, _, _ in sub.ret_heaps]]
            changed = {cell for cell in kept if any(heap.get(cell) is not before[cell] for heap in heaps)}
            other = {name for name in naturals if isinstance(sub.env.get(name), Undefined) or
                     not quick([*inside, *signs], self.term(sub.env[name], T.Int) >= 0)}
            found = {name: ty_of(sub.env.get(name)) for name, value in carried.items() if value is None and name not in optional}
            found = {name: ty if isinstance(ty, T.Opt) else T.Opt(ty) for name, ty in found.items() if ty is not None}
            if not changed and not other and not found:
                break
            optional.update(found)
            kept -= changed
            naturals -= other
            del self.safety[marks[0]:], self.endless[marks[1]:]
            self.heap = dict(before)
        cells = {cell: value for cell, value in cells.items() if cell not in kept}
        lost = set()
        for rg, heap, variables, unknown in sub.ret_heaps:
            lost |= unknown | {cell for cell in cells if isinstance(heap.get(cell), Undefined)}
            kept = [cell for cell in cells if not isinstance(heap.get(cell), Undefined)]
            self.heap = {**self.heap, **self.merge_envs(rg, *[{cell: values[cell] for cell in kept}
                                                              for values in (heap, self.heap)])}
            sub.env = {**sub.env, **self.merge_envs(rg, *[{name: values[name] for name in carried if name in values}
                                                          for values in (variables, sub.env)])}
        returned = simplify(disj(*[rg for rg, _ in sub.rets]))
        broken = simplify(sub.brk)
        stop = simplify(disj(source_stop, returned, broken))

        carry = Carry(self, st, n, k, stop, endless, inside)
        for key, init in [*carried.items(), *cells.items()]:
            carry.add(key, init, places[key], sub.env.get(key) if key in carried else self.heap.get(key))
        carry.resolve()

        # everything in terms of what the variables are before the iteration k
        out = [carry.node(o) for o in sub.out or []]
        returned, broken, stop = [carry.formula(f) for f in (returned, broken, stop)]
        rets = [(carry.formula(rg), carry.value(rv)) for rg, rv in sub.rets]
        total = n
        ending = None
        if endless:
            ending = define('least', z3.IntVal(0), k, stop, z3.IntSort())
            total = ending + 1
        elif not z3.is_false(stop):
            ending = define('first', n, k, stop, z3.IntSort())
        finals = left = carry.finals(stop, ending, total)
        if rets and not endless:
            # where the execution goes on, nothing was returned
            others = simplify(disj(carry.formula(source_stop), broken))
            finals = carry.finals(others, None if z3.is_false(others) else define('first', n, k, others, z3.IntSort()), total)
        size = (n, total)
        if endless:
            out = [subst_node(o, size) for o in out]
            rets = [(z3.substitute(rg, size), subst_value(rv, size)) for rg, rv in rets]
            returned, broken = [z3.substitute(f, size) for f in (returned, broken)]
        if out:
            st.out.append(F(conj(st.guard, g), total, k, out, z3.substitute(stop, size)))
        self.heap = before

        def merged(finals):
            env, heap = dict(st.env), dict(before)
            for key, value in finals.items():
                new = value if isinstance(value, Undefined) else \
                    self.merge(g, value, carried[key] if key in carried else cells[key])
                (env if key in carried else heap)[key] = new
            for name in names:
                if name not in carried:
                    env[name] = Undefined(sticky=True)
            return env, heap

        def at_the_end(formula):
            """Condition of an iteration, in the last one"""
            if endless:
                return z3.substitute(formula, (k, ending))
            if formula.eq(stop):
                return exists(n, k, stop)
            return conj(exists(n, k, stop), z3.substitute(formula, (k, ending)))

        if rets:
            happened = conj(g, at_the_end(returned))
            value = rets[0][1]
            if len(rets) > 1 or depends(value, k):
                value = self.combine(rets)
                if depends(value, k):
                    value = subst_value(value, (k, ending))
            env, heap = merged(left)
            st.rets.append((conj(st.guard, happened), value))
            st.ret_heaps.append((conj(st.guard, happened), heap, env, frozenset(lost)))
        st.env, self.heap = merged(finals)
        if rets:
            st.guard = conj(st.guard, neg(happened))
        if z3.is_false(broken) or endless:
            return FALSE        # (the end of a while loop is where it is broken)
        return conj(g, at_the_end(broken))

    def placeholder(self, name, value):
        if isinstance(value, ObjV):
            return value        # what changes are its cells
        if isinstance(value, Seq):
            return Seq([Z(fresh(z3.IntSort(), name).decl().name())], value.kind)
        if isinstance(value, SetV):
            ty = ty_of(value.seq)
            ty = T.SetOf(ty.of if ty is not None else T.Str)
            return Sym(ty, fresh(ty.sort(), name))
        if isinstance(value, DictV):
            return Sym(Store, fresh(Store.sort(), name))
        if isinstance(value, (TupleV, RecV, Cases)) and ty_of(value) is None:
            return PlaceV(name)
        ty = ty_of(value)
        if ty is None:
            return PlaceV(name)
        return Sym(ty, fresh(ty.sort(), name))

    def fold(self, kind, n, k, step):
        sort = {'sum': z3.IntSort(), 'max': z3.IntSort(), 'concat': z3.StringSort(), 'sumreal': z3.RealSort()}[kind]
        if kind == 'sum' and z3.is_int_value(step) and step.as_long() == 0:
            return z3.IntVal(0)
        if kind == 'sum' and z3.is_int_value(step):
            return simplify(z3.If(n > 0, step * n, 0))
        return define(kind, n, k, step, sort)


class Carry:
    """Variables changed by a loop"""

    def __init__(self, interp, st, n, k, stop, endless, inside):
        self.interp = interp
        self.st = st
        self.n = n
        self.k = k
        self.stop = stop
        self.endless = endless
        self.inside = inside
        self.init = {}
        self.place = {}
        self.after = {}
        self.terms = {}         # variables with a term: value after the iteration
        self.whole = {}         # the same, in the last iteration too
        self.pairs = []         # placeholder -> value before the iteration k
        self.at = {}            # variable -> function: number of iterations (not stopped) -> term
        self.final = {}         # variable -> value after the loop, where known at once
        self.late = {}          # changed only where the loop is stopped
        self.bad = set()
        self.j = fresh(z3.IntSort(), 'k')

    def add(self, key, init, place, after):
        self.init[key], self.place[key], self.after[key] = init, place, after
        if after is place or (isinstance(after, Sym) and isinstance(place, Sym) and after.t.eq(place.t)):
            # not changed
            if isinstance(place, Sym):
                try:
                    self.pairs.append((place.t, simplify(self.interp.term(init, place.ty))))
                except Unsupported:
                    self.bad.add(key)
            self.final[key] = init
            return
        if isinstance(place, Sym):
            try:
                if isinstance(after, (Undefined, PlaceV)) or after is None and not isinstance(place.ty, T.Opt):
                    raise Unsupported('no single type')
                self.terms[key] = simplify(self.interp.term(after, place.ty))
                self.interp.term(init, place.ty)
            except Unsupported:
                self.terms.pop(key, None)
                self.bad.add(key)
        elif not isinstance(place, Seq):
            self.bad.add(key)

    def resolve(self):
        """Values before the iteration k of all the variables with terms, those they depend on first"""
        if self.endless:
            # iterations that are followed by others
            going = [(self.stop, FALSE), (neg(self.stop), TRUE)]
            for key, term in self.terms.items():
                step = simplify(z3.substitute(term, *going))
                if not step.eq(term):
                    self.whole[key], self.terms[key] = term, step
        unresolved = dict(self.terms)
        while unresolved:
            for group in self.groups(unresolved):
                self.resolve_group(group)
                for key in group:
                    del unresolved[key]
                break

    def groups(self, unresolved):
        """Strongly connected groups, independent ones first"""
        needs = {key: {other for other in unresolved if contains(term, self.place[other].t)}
                 for key, term in unresolved.items()}
        reach = {}
        for key in unresolved:
            seen = set()
            stack = [key]
            while stack:
                for other in needs[stack.pop()]:
                    if other not in seen:
                        seen.add(other)
                        stack.append(other)
            reach[key] = seen
        for key in unresolved:
            group = [key, *[other for other in unresolved if other != key and other in reach[key] and key in reach[other]]]
            if all(other in group for other in reach[key]):
                yield group
        return

    def known(self, term):
        return z3.substitute(term, *self.pairs) if self.pairs else term

    def touches_bad(self, term):
        return any(isinstance(self.place[key], Sym) and contains(term, self.place[key].t) for key in self.bad)

    def resolve_group(self, group):
        steps = {key: simplify(self.known(self.terms[key])) for key in group}
        if any(self.touches_bad(step) for step in steps.values()):
            self.bad.update(group)
            return
        if len(group) == 1:
            key = group[0]
            if self.pattern(key, steps[key]):
                p = self.place[key].t
                self.pairs.append((p, self.at[key](self.k)))
                return
        self.general(group, steps)

    def general(self, group, steps):
        """The state as a recursively defined function of the number of iterations"""
        interp = self.interp
        group = sorted(group, key=lambda key: (str(self.place[key].ty), str(key)))
        types = [self.place[key].ty for key in group]
        if len(group) == 1:
            key = group[0]
            p = self.place[key].t
            init = interp.term(self.init[key], types[0])
            self.at[key] = lambda i: define_iterate(p, self.k, steps[key], init, i)
            self.pairs.append((p, self.at[key](self.k)))
            return
        ty = T.TupleOf(*types)
        p = fresh(ty.sort(), 'state')
        inside = [(self.place[key].t, ty.item(p, i)) for i, key in enumerate(group)]
        make = ty.sort().constructor(0)
        step = make(*[z3.substitute(steps[key], *inside) for key in group])
        init = make(*[interp.term(self.init[key], self.place[key].ty) for key in group])
        for i, key in enumerate(group):
            self.at[key] = lambda count, i=i: ty.item(define_iterate(p, self.k, step, init, count), i)
        self.pairs.extend([(self.place[key].t, self.at[key](self.k)) for key in group])

    def pattern(self, key, t):
        """Change of a known form"""
        interp, n, k, j = self.interp, self.n, self.k, self.j
        place, init = self.place[key], self.init[key]
        ty, p = place.ty, place.t
        stop = simplify(self.known(self.stop))
        open_stop = any(isinstance(other, Sym) and contains(stop, other.t) for other in self.place.values()) or self.endless

        def before(formula):
            return z3.substitute(formula, (k, j))

        def reached(formula):
            if z3.is_false(stop):
                return formula
            return conj(formula, neg(exists(k, j, before(stop))))

        def found(formula, final, at):
            """formula(k) leads to a value of the variable"""
            self.at[key] = lambda i: simplify(at(exists(i, j, before(formula))))
            if not open_stop:
                self.final[key] = Sym(ty, simplify(final(exists(n, k, reached(formula)))))
            return True

        st = self.st
        first = interp.term(init, ty)
        if ty == T.Bool:
            added = simplify(z3.substitute(t, (p, FALSE)))
            if quick(self.inside, z3.substitute(t, (p, TRUE)), timeout=1000) and not contains(added, p):
                return found(added, lambda e: disj(first, e), lambda e: disj(first, e))
            kept = simplify(z3.substitute(t, (p, TRUE)))
            if quick(self.inside, neg(z3.substitute(t, (p, FALSE))), timeout=1000) and not contains(kept, p):
                return found(neg(kept), lambda e: conj(first, neg(e)), lambda e: conj(first, neg(e)))
        # changed only where the loop ends
        if not z3.is_false(self.stop) and not contains(first, k) and \
                quick([*self.inside, neg(self.known(self.stop)), p == first], t == p, timeout=1000):
            self.at[key] = lambda i: first
            self.late[key] = t
            return True
        if ty in (T.Int, T.Real):
            zero = z3.IntVal(0) if ty == T.Int else z3.RealVal(0)
            step = simplify(z3.substitute(t, (p, zero)))
            kind = 'sum' if ty == T.Int else 'sumreal'
            if not contains(step, p) and quick([], t == p + step, timeout=1000):
                self.at[key] = lambda i: first + (step * i if z3.is_int_value(step) else interp.fold(kind, i, j, before(step)))
                if z3.is_false(stop):
                    self.final[key] = Sym(ty, first + interp.fold(kind, n, k, step))
                elif not open_stop:
                    step = z3.If(exists(k, j, before(stop)), zero, step)
                    self.final[key] = Sym(ty, first + interp.fold(kind, n, k, step))
                return True
        if ty == T.Int:
            pieces = max_pieces(t, p)
            if pieces is not None and z3.is_false(stop):
                self.at[key] = lambda i: zmax(first, interp.fold('max', i, j, before(pieces)), i)
                self.final[key] = Sym(ty, zmax(first, interp.fold('max', n, k, pieces), n))
                return True
        if ty == T.Str:
            step = simplify(z3.substitute(t, (p, z3.StringVal(''))))
            if not contains(step, p) and quick([], t == z3.Concat(p, step), timeout=1000):
                self.at[key] = lambda i: z3.Concat(first, interp.fold('concat', i, j, before(step)))
                return True
        # set anew in every iteration
        if not contains(t, p) and z3.is_expr(t) and not contains(first, k):
            self.at[key] = lambda i: simplify(z3.If(i <= 0, first, z3.substitute(t, (k, i - 1))))
            return True
        # set to a value that is the same in all iterations
        const = overwritten(t, p, k)
        if const is not None:
            cond, new = const
            return found(cond, lambda e: z3.If(e, new, first), lambda e: z3.If(e, new, first))
        return False

    # everything else in terms of the values before the iteration

    def check(self, used):
        for key in self.bad:
            place = self.place[key]
            if used(place):
                raise Unsupported(f'loop depends on its earlier iterations through {key}')

    def formula(self, f):
        self.check(lambda place: isinstance(place, Sym) and contains(f, place.t))
        return simplify(self.known(f))

    def marks(self, value):
        """Placeholders of lists and other objects must not be looked at"""
        places = [place.nodes[0] if isinstance(place, Seq) else place for place in self.place.values()
                  if not isinstance(place, Sym)]

        def look(v):
            if any(v is place for place in places):
                raise Unsupported('loop reads what it builds')
        visit_values([value], look)
        self.check(lambda place: isinstance(place, Sym) and depends(value, place.t))

    def value(self, v):
        self.marks(v)
        return subst_value(v, *self.pairs) if self.pairs else v

    def node(self, n):
        self.marks(n)
        return subst_node(n, *self.pairs) if self.pairs else n

    def finals(self, stop, ending, total):
        """Values after the loop; stop in terms of k"""
        interp, n, k = self.interp, self.n, self.k
        res = {}
        for key in self.init:
            if key in self.final:
                res[key] = self.final[key]
                continue
            place, after = self.place[key], self.after[key]
            if isinstance(place, Seq):
                res[key] = self.built(key, place, after, total, stop)
                continue
            if key in self.bad or not isinstance(place, Sym):
                res[key] = Undefined(sticky=True)
                continue
            if key in self.whole:
                res[key] = Sym(place.ty, simplify(z3.substitute(self.known(self.whole[key]), (k, ending))))
            elif z3.is_false(stop):
                res[key] = Sym(place.ty, self.at[key](n))
            elif key in self.late:
                t = z3.substitute(self.known(self.late[key]), (k, ending))
                first = interp.term(self.init[key], place.ty)
                t = z3.substitute(t, (place.t, first))
                res[key] = Sym(place.ty, simplify(t if self.endless else z3.If(exists(n, k, stop), t, first)))
            else:
                count = total if self.endless else z3.If(exists(n, k, stop), ending + 1, n)
                res[key] = Sym(place.ty, self.at[key](count))
        if self.endless:
            res = {key: value if isinstance(value, Undefined) or value is self.init[key] else subst_value(value, (n, total))
                   for key, value in res.items()}
        return res

    def built(self, key, place, after, total, stop):
        init = self.init[key]
        if not (isinstance(after, Seq) and after.nodes and after.nodes[0] is place.nodes[0]):
            return Undefined(sticky=True)
        try:
            added = [self.node(node) for node in after.nodes[1:]]
        except Unsupported:
            return Undefined(sticky=True)
        return Seq([*init.nodes, F(TRUE, total, self.k, added, stop)], init.kind)


def overwritten(t, p, k):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        cond, a, b = t.children()
        if a.eq(p) and not contains(b, p) and not contains(b, k) and not contains(cond, p):
            return neg(cond), b
        if b.eq(p) and not contains(a, p) and not contains(a, k) and not contains(cond, p):
            return cond, a
    return None


class NotPositions(Unsupported):
    pass


def positions_while(interp, node, st):
    """pos = s.find(c[, 0]); while pos != -1: ...; pos = s.find(c, pos + 1)"""
    if node.orelse:
        raise NotPositions('while-else')
    test = node.test
    name = None
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name):
        op, right = test.ops[0], test.comparators[0]
        value = None
        if isinstance(right, ast.UnaryOp) and isinstance(right.op, ast.USub) and isinstance(right.operand, ast.Constant):
            value = -right.operand.value
        elif isinstance(right, ast.Constant):
            value = right.value
        if (isinstance(op, ast.NotEq) and value == -1) or (isinstance(op, ast.GtE) and value == 0) or \
                (isinstance(op, ast.Gt) and value == -1):
            name = test.left.id
    if name is None:
        raise NotPositions('while loop')
    last = node.body[-1]
    if not (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name)
            and last.targets[0].id == name):
        raise NotPositions('while loop')
    if any(isinstance(n, (ast.Continue,)) for stmt in node.body for n in ast.walk(stmt)):
        raise NotPositions('while loop with continue')
    names = assigned_names(node.body[:-1])
    if name in names:
        raise NotPositions('while loop')
    init = st.env.get(name)
    if not (isinstance(init, Sym) and init.ty == T.Int):
        raise NotPositions('while loop')
    t = simplify(init.t)
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_INDEX):
        raise NotPositions('while loop')
    s, c, start = t.children()
    if not (z3.is_int_value(start) and start.as_long() == 0):
        raise NotPositions('while loop not from the start')
    # the next position
    probe = fresh(z3.IntSort(), name)
    saved = dict(st.env)
    ctx = st.ctx
    st.env[name] = Sym(T.Int, probe)
    st.ctx = [*st.ctx, probe >= 0]
    following = interp.eval(last.value, st)
    st.env = saved
    st.ctx = ctx
    if not (isinstance(following, Sym) and quick([*st.known(), probe >= 0],
                                                following.t == z3.IndexOf(s, c, probe + 1), timeout=3000)):
        raise NotPositions('while loop')
    # all the positions where c is, one after another
    k = fresh(z3.IntSort(), 'k')
    if quick(st.known(), z3.Length(c) == 1, timeout=2000):
        count, found = z3.Length(s), z3.SubString(s, k, z3.IntVal(1)) == c
    else:
        count = z3.Length(s) + 1
        found = conj(k + z3.Length(c) <= z3.Length(s), z3.SubString(s, k, z3.Length(c)) == c)

    def body(sub, pos):
        sub.env[name] = pos
        interp.block(node.body[:-1], sub)

    interp.loop(Seq([F(TRUE, count, k, [Y(found, Sym(T.Int, k))])]), st, body, names | {name})
    st.env[name] = Undefined(sticky=True)
