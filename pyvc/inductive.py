"""Verification of functions filling a table in loops: by invariants of the loops given in the contract."""

import ast

import z3

from pyvc import prove as P
from pyvc import types as T
from pyvc.compare import Obligation
from pyvc.interp import Interp
from pyvc.loops import State, assigned_names
from pyvc.prove import TRUE, conj, disj, fresh, neg, simplify
from pyvc.values import Sym, Unsupported, Y, F


class Table:
    """List of lists of numbers, all of the same size, no two of them the same object"""

    def __init__(self, items, rows, columns):
        self.items = items
        self.rows = rows
        self.columns = columns

    def at(self, row, column):
        return z3.Select(z3.Select(self.items, row), column)

    def __repr__(self):
        return f'Table[{self.rows}, {self.columns}]'


class Row:
    def __init__(self, table, number):
        self.table = table
        self.number = number


CELLS = z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))


class Inductive(Interp):
    def __init__(self, side, root, package, contracts, invariants, unfold):
        super().__init__(side, root, package, contracts)
        self.invariants = list(invariants)
        self.unfold = unfold
        self.obligations = []
        self.facts = []
        self.loop_number = 0

    # tables

    def eval_ListComp(self, node, st):
        inner = node.elt
        if isinstance(inner, ast.ListComp):
            rows, columns = self.constant_size(node, st), self.constant_size(inner, st)
            value = self.eval(inner.elt, st)
            if rows is None or columns is None or not isinstance(value, int):
                raise Unsupported('table')
            row = z3.K(z3.IntSort(), z3.IntVal(value))
            return Table(z3.K(z3.IntSort(), row), rows, columns)
        return super().eval_ListComp(node, st)

    def constant_size(self, node, st):
        """Length of a list made of the same value in every position"""
        if len(node.generators) != 1 or node.generators[0].ifs:
            return None
        loop = node.generators[0]
        if any(isinstance(n, ast.Name) and isinstance(loop.target, ast.Name) and n.id == loop.target.id
               for n in ast.walk(node.elt)):
            return None
        nodes = self.nodes_of(self.eval(loop.iter, st), st)
        if len(nodes) != 1 or not isinstance(nodes[0], F) or not z3.is_true(nodes[0].g) or \
                not z3.is_false(nodes[0].stop) or len(nodes[0].body) != 1 or not isinstance(nodes[0].body[0], Y):
            return None
        return simplify(z3.If(nodes[0].n > 0, nodes[0].n, 0))

    def position(self, i, size, st):
        i = self.term(i, T.Int)
        self.safe(st, conj(i >= -size, i < size), 'index in range')
        return simplify(z3.If(i < 0, i + size, i))

    def index(self, value, i, st):
        if isinstance(value, Table):
            return Row(value, self.position(i, value.rows, st))
        if isinstance(value, Row):
            return Sym(T.Int, value.table.at(value.number, self.position(i, value.table.columns, st)))
        return super().index(value, i, st)

    def assign(self, target, value, st):
        if isinstance(target, ast.Subscript) and isinstance(target.value, ast.Subscript) and \
                isinstance(target.value.value, ast.Name):
            name = target.value.value.id
            table = self.eval(target.value.value, st)
            if isinstance(table, Table):
                row = self.position(self.eval(target.value.slice, st), table.rows, st)
                column = self.position(self.eval(target.slice, st), table.columns, st)
                cells = z3.Store(table.items, row,
                                 z3.Store(z3.Select(table.items, row), column, self.term(value, T.Int)))
                self.store(name, Table(cells, table.rows, table.columns), st)
                return
        super().assign(target, value, st)

    def merge_envs(self, cond, env1, env2):
        tables = {}
        for name in set(env1) & set(env2):
            a, b = env1[name], env2[name]
            if isinstance(a, Table) and isinstance(b, Table) and a is not b:
                tables[name] = Table(z3.If(cond, a.items, b.items), a.rows, a.columns)
        rest1 = {name: value for name, value in env1.items() if name not in tables}
        rest2 = {name: value for name, value in env2.items() if name not in tables}
        return {**super().merge_envs(cond, rest1, rest2), **tables}

    # loops

    def stmt_For(self, node, st):
        if node.orelse or not isinstance(node.target, ast.Name):
            raise Unsupported('loop')
        if any(isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield)) for n in ast.walk(node)):
            raise Unsupported('loop left early')
        if not z3.is_true(simplify(st.guard)):
            raise Unsupported('loop on a condition')
        positions = self.eval(node.iter, st)
        bounds = getattr(positions, 'bounds', None)
        if bounds is None or bounds[1] != 1:
            raise Unsupported('loop not over a range')
        if self.loop_number >= len(self.invariants):
            raise Unsupported('loop without an invariant')
        number, self.loop_number = self.loop_number, self.loop_number + 1
        invariant = self.invariants[number]
        first, _, count = bounds
        last = first + z3.If(count > 0, count, 0)

        def holds(env, at):
            return invariant(View(self, env), simplify(at))

        self.oblige(st.known(), holds(st.env, first), f'invariant {number + 1} holds before the loop')
        env = dict(st.env)
        for name in assigned_names(node.body) | {t.value.value.id for t in ast.walk(node) if table_item(t)}:
            value = env.get(name)
            if isinstance(value, Table):
                env[name] = Table(fresh(CELLS, name), value.rows, value.columns)
            elif name in env:
                if not (isinstance(value, int) or isinstance(value, Sym) and value.ty == T.Int):
                    raise Unsupported(f'variable {name} changed in the loop')
                env[name] = Sym(T.Int, fresh(z3.IntSort(), name))
        at = fresh(z3.IntSort(), node.target.id)
        sub = State({**env, node.target.id: Sym(T.Int, at)},
                    [*st.known(), at >= first, at < last, holds(env, at)], st.module, parent=st.parent)
        sub.params = st.params
        facts, self.facts = self.facts, []
        self.block(node.body, sub)
        self.oblige(sub.known(), holds(sub.env, at + 1), f'invariant {number + 1} is kept')
        self.facts = facts
        st.env = {name: env[name] for name in st.env}
        st.env.pop(node.target.id, None)
        fact = holds(st.env, last)
        st.ctx = [*st.ctx, fact]
        self.facts.append(fact)

    def oblige(self, known, goal, what):
        self.obligations.append(Obligation(what, self.proof(known, goal)))

    def proof(self, known, goal):
        goal = simplify(goal)
        if z3.is_quantifier(goal):
            consts = [fresh(goal.var_sort(i), goal.var_name(i)) for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(consts))
        formulas = [*known, z3.Not(goal)]
        answer, solver = P.check([*formulas, *self.unfold(formulas)])
        if answer == z3.unsat:
            return P.Result('proved')
        # whether the invariant or the code is to blame is not known
        return P.Result('unknown', 'not proved')


def table_item(node):
    return isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Store) and isinstance(node.value, ast.Subscript) \
        and isinstance(node.value.value, ast.Name)


class View:
    """Variables of the function, as terms"""

    def __init__(self, interp, env):
        self.interp = interp
        self.env = env

    def __getattr__(self, name):
        value = self.env.get(name)
        if isinstance(value, Table):
            return value
        if isinstance(value, int):
            return z3.IntVal(value)
        if isinstance(value, Sym):
            return value.t
        raise Unsupported(f'variable {name} of the invariant')

    def table(self):
        found = [value for value in self.env.values() if isinstance(value, Table)]
        if len(found) != 1:
            raise Unsupported('table of the invariant')
        return found[0]


def unfolding(definitions, depth=2):
    """definitions: function -> (parameters, body). Instances for applications that occur, and for those in the instances"""
    def instances(formulas):
        seen, new = set(), []
        stack = [(formula, 0) for formula in formulas]
        visited = set()
        while stack:
            cur, level = stack.pop()
            if (cur.get_id(), level) in visited:
                continue
            visited.add((cur.get_id(), level))
            if z3.is_quantifier(cur) or not z3.is_app(cur):
                continue
            stack.extend((child, level) for child in cur.children())
            known = definitions.get(cur.decl().get_id())
            if known is not None and cur.get_id() not in seen and level < depth:
                seen.add(cur.get_id())
                params, body = known
                instance = simplify(z3.substitute(body, *zip(params, cur.children())))
                new.append(cur == instance)
                stack.append((instance, level + 1))
        return new
    return instances
