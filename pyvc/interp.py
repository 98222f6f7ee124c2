"""Symbolic executor: the meaning of a function, from its source text, as a value over its symbolic parameters."""

import ast
import builtins as python_builtins
import os

import z3

from pyvc import once, store, types as T
from pyvc.prove import (FALSE, TRUE, conj, conjuncts, contains, define, disj, exists, free_consts, fresh, neg, possible, quick,
                        simplify)
from pyvc.loops import Loops, MUTATORS, State, assigned_names, grouped
from pyvc.terms import (char_at, concat, depends, depends_node, max_pieces, nonnegative, subst_node, subst_value,
                        visit_values, zmax)
from pyvc.values import (Builtin, Cases, ClassV, DictV, EnumConst, F, FuncV, Mock, ModuleV, ObjV, PlaceV, RecV, Seq, SetV, Sym,
                         TupleV, Undefined, Unsupported, Y, Z, is_const, ty_of)


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding='utf-8') as file:
            self.tree = ast.parse(file.read())
        self.defs = {}
        self.imports = {}
        for node in self.tree.body:
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                self.defs[node.name] = node
            elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
                self.defs[node.targets[0].id] = node.value
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
                self.defs[node.target.id] = node.value
            elif isinstance(node, ast.Import):
                for alias in node.names:
                    if alias.asname:
                        self.imports[alias.asname] = (alias.name, None)
                    else:
                        self.imports[alias.name.split('.')[0]] = (alias.name.split('.')[0], None)
            elif isinstance(node, ast.ImportFrom):
                source = node.module
                if node.level:
                    package = name.split('.') if path.endswith('__init__.py') else name.split('.')[:-1]
                    source = '.'.join([*package[:len(package) - node.level + 1], *([node.module] if node.module else [])])
                for alias in node.names:
                    self.imports[alias.asname or alias.name] = (source, alias.name)

    def method(self, cls_name, name):
        """Method of the class or of its bases in the same module"""
        cls = self.defs.get(cls_name)
        if not isinstance(cls, ast.ClassDef):
            return None
        for node in cls.body:
            if isinstance(node, ast.FunctionDef) and node.name == name:
                return node
        for base in cls.bases:
            if isinstance(base, ast.Name):
                found = self.method(base.id, name)
                if found is not None:
                    return found
        return None

    def class_attr(self, cls_name, name):
        cls = self.defs.get(cls_name)
        if isinstance(cls, ast.ClassDef):
            for node in cls.body:
                if isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                        isinstance(node.targets[0], ast.Name) and node.targets[0].id == name:
                    return node.value
        return None


SHARED = {}


def scope_nodes(node):
    """Nodes of the function's own scope, and functions defined in it"""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    inner = []
    own = []
    while stack:
        cur = stack.pop()
        if isinstance(cur, (ast.FunctionDef, ast.Lambda)):
            inner.append(cur)
            own.append(cur)
            continue
        own.append(cur)
        stack.extend(ast.iter_child_nodes(cur))
    return own, inner


def arguments_of(node):
    a = node.args
    return {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, *([a.vararg] if a.vararg else []),
                            *([a.kwarg] if a.kwarg else [])]}


def stores(own):
    """Names with the number of times they are set or changed; in a loop counts as many"""
    counts = {}

    def count(name, times):
        counts[name] = counts.get(name, 0) + times

    looped = {id(x) for node in own if isinstance(node, (ast.For, ast.While)) for x in ast.walk(node)}
    for node in own:
        times = 2 if id(node) in looped else 1
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            count(node.id, times)
        elif isinstance(node, ast.FunctionDef):
            count(node.name, times)
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS and \
                isinstance(node.func.value, ast.Name):
            count(node.func.value.id, 2)
        elif isinstance(node, (ast.Subscript, ast.Attribute)) and isinstance(node.ctx, ast.Store) and \
                isinstance(node.value, ast.Name):
            count(node.value.id, 2)
    return counts


def shared_names(node):
    """(variables of the function used in functions defined in it, those of them changed after being set)"""
    if node not in SHARED:
        own, inner = scope_nodes(node)
        counts = stores(own)
        for name in arguments_of(node):
            counts[name] = counts.get(name, 0) + 1
        local = arguments_of(node) | {n.id for n in own if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {n.name for n in own if isinstance(n, ast.FunctionDef)}
        shared, changed = set(), set()
        for function in inner:
            names = {n.id for n in ast.walk(function) if isinstance(n, ast.Name)}
            inside, _ = scope_nodes(function)
            nonlocals = {name for n in inside if isinstance(n, ast.Nonlocal) for name in n.names}
            hidden = arguments_of(function) | {n.id for n in inside if isinstance(n, ast.Name) and
                                               isinstance(n.ctx, ast.Store)} - nonlocals
            names -= hidden
            shared |= names & local
            changed |= {name for name, times in stores([n for n in ast.walk(function)]).items()
                        if name in names and (times > 1 or name in nonlocals)}
        SHARED[node] = (sorted(shared), changed | {name for name in shared if counts.get(name, 0) > 1})
    return SHARED[node]


def heap_call(node, *names):
    func = node.func if isinstance(node, ast.Call) else None
    return getattr(func, 'attr', getattr(func, 'id', None)) in names


def heap_pushes(function, evaluate):
    """
    Statement -> (heap, item) of those that put an item into a heap of the function, maybe dropping the least one when
    the heap is full. Heaps are only asked for so many greatest items as they are sure to keep.
    """
    pushes, uses, full = {}, {}, {}

    def push(call, name):
        if heap_call(call, name) and len(call.args) == 2 and isinstance(call.args[0], ast.Name):
            return call.args[0].id, call.args[1]
        return None

    def single(stmts, name):
        return push(stmts[0].value, name) if len(stmts) == 1 and isinstance(stmts[0], ast.Expr) else None

    def limited(node):
        test = node.test
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call)
                and isinstance(test.left.func, ast.Name) and test.left.func.id == 'len'
                and len(test.left.args) == 1 and isinstance(test.left.args[0], ast.Name)):
            return None
        kind = type(test.ops[0])
        then, other = (node.body, node.orelse) if kind in (ast.Gt, ast.GtE) else (node.orelse, node.body)
        dropping, adding = single(then, 'heappushpop'), single(other, 'heappush')
        if kind not in (ast.Gt, ast.GtE, ast.Lt, ast.LtE) or dropping is None or adding is None or \
                not dropping[0] == adding[0] == test.left.args[0].id or \
                ast.dump(dropping[1]) != ast.dump(adding[1]):
            return None
        return (*adding, test.comparators[0], 1 if kind in (ast.Gt, ast.LtE) else 0)

    def look(node):
        if isinstance(node, ast.If) and limited(node) is not None:
            name, item, bound, more = limited(node)
            bound = evaluate(bound)
            if not isinstance(bound, int):
                raise Unsupported('size of a heap')
            full[name] = min(full.get(name, bound + more), bound + more)
            pushes[node] = (name, item)
            look(item)
            return
        if isinstance(node, ast.Expr) and push(node.value, 'heappush') is not None:
            pushes[node] = push(node.value, 'heappush')
            look(pushes[node][1])
            return
        if heap_call(node, 'nlargest') and len(node.args) == 2 and not node.keywords and isinstance(node.args[1], ast.Name):
            uses.setdefault(node.args[1].id, []).append(node.args[0])
            look(node.args[0])
            return
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and \
                isinstance(node.value, ast.List) and not node.value.elts:
            return
        if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and \
                isinstance(node.value, ast.List) and not node.value.elts:
            return
        if isinstance(node, ast.Name):
            uses.setdefault(node.id, []).append(None)
        for child in ast.iter_child_nodes(node):
            look(child)

    if any(heap_call(node, 'heappush', 'heappushpop') for node in ast.walk(function)):
        for stmt in function.body:
            look(stmt)
        for name in {name for name, _ in pushes.values()}:
            for use in uses.get(name, []):
                size = None if use is None else evaluate(use) if name in full else 0
                if not isinstance(size, int) or size > full.get(name, size):
                    raise Unsupported(f'use of the heap {name}')
    return pushes


def known_first(nodes):
    """How many items at the start are known one by one"""
    return next((i for i, n in enumerate(nodes) if not isinstance(n, Y) or not z3.is_true(n.g)), len(nodes))


def is_iterator(value):
    return isinstance(value, Seq) and value.kind == 'gen' or isinstance(value, Sym) and value.once


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        cur = stack.pop()
        if isinstance(cur, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(cur, (ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(cur))
    return False


class Interp(Loops):
    def __init__(self, side, root, package, contracts):
        """side: 'real' | 'spec'; root: directory; package: dotted prefix of the modules of this side"""
        self.side = side
        self.root = root
        self.package = package
        self.contracts = contracts
        self.modules = {}
        self.safety = []
        self.endless = []
        self.pushes = {}            # statement -> (heap, item)           # loops not known to end
        self.measured = None        # group of contracts and the measure of its arguments in this call
        self.depth = 0
        self.inline_stack = []
        self.used = set()           # contracts of callees relied on
        self.inlined = set()
        self.made = set()       # classes whose constructors are run
        self.made_cells = set()
        self.heap = {}              # variables shared by a function and functions defined in it: cell -> value
        self.mutable = set()        # cells changed after they are set
        self.frozen = frozenset()   # cells changed by a generator being consumed
        self.exhausting = False     # all items of generators are taken
        self.pending = []           # generators with effects not consumed yet

    # modules and names

    def module(self, dotted):
        if dotted not in self.modules:
            base = os.path.join(self.root, *dotted.split('.'))
            path = base + '.py' if os.path.exists(base + '.py') else os.path.join(base, '__init__.py')
            if not os.path.exists(path):
                return None
            self.modules[dotted] = Module(dotted, path)
        return self.modules[dotted]

    def global_value(self, module, name):
        if name in module.defs:
            node = module.defs[name]
            if isinstance(node, ast.FunctionDef):
                return FuncV(node, None, module)
            if isinstance(node, ast.ClassDef):
                return ClassV(node, module)
            enum = self.enum_definition(node)
            if enum is not None:
                return enum
            return self.eval(node, State({}, [], module))
        if name in module.imports:
            dotted, attr = module.imports[name]
            if attr is None:
                return ModuleV(dotted)
            if dotted.startswith(self.package):
                target = self.module(dotted)
                if target is not None and (attr in target.defs or attr in target.imports):
                    return self.global_value(target, attr)
                if self.module(dotted + '.' + attr) is not None:
                    return ModuleV(dotted + '.' + attr)
            return ModuleV(dotted + '.' + attr)
        if name in self.contracts.builtins:
            return self.contracts.builtins[name]
        if hasattr(python_builtins, name):
            from pyvc import lib
            if name in lib.BUILTINS:
                return Builtin(name, lib.BUILTINS[name])
        raise Unsupported(f'name {name}')

    def enum_definition(self, node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'Enum' and \
                len(node.args) == 2 and isinstance(node.args[1], ast.Constant):
            ty = self.contracts.enums.get(node.args[0].value)
            if ty is None or ty.members != node.args[1].value.split():
                raise Unsupported(f'enum {node.args[0].value}')
            return ClassV(ty, None)
        return None

    # functions

    def call_function(self, func, args, kwargs, st, contract_check=True):
        """func: FuncV"""
        node = func.node
        name = getattr(node, 'name', '<lambda>')
        if self.depth > 30:
            raise Unsupported('call depth')
        if any(not isinstance(d, ast.Name) or d.id not in ('staticmethod', 'classmethod', 'property')
               for d in getattr(node, 'decorator_list', ())):
            raise Unsupported(f'decorator of {name}')
        if self.inline_stack.count((func.module.name, name, getattr(node, 'lineno', 0))) > 1:
            raise Unsupported(f'recursion without contract: {name}')
        env = self.bind(node.args, func, args, kwargs, st)
        if isinstance(node, ast.Lambda):
            sub = State(env, st.known(), func.module, parent=func.env)
            return self.eval(node.body, sub)
        generator = is_generator(node)
        sub = State(env, st.known(), func.module, out=[] if generator else None, parent=func.env)
        self.pushes.update(heap_pushes(node, lambda bound: self.eval(bound, State({}, [], func.module))))
        sub.cls = func.cls
        sub.params = set(env)
        sub.function = node
        self.depth += 1
        self.inline_stack.append((func.module.name, name, getattr(node, 'lineno', 0)))
        try:
            self.make_cells(node, sub)
            before = dict(self.heap)
            self.block(node.body, sub)
        finally:
            self.depth -= 1
            self.inline_stack.pop()
        for g, heap, _, lost in sub.ret_heaps:
            heap = {cell: Undefined(sticky=True) if cell in lost else value for cell, value in heap.items()}
            self.heap = self.merge_envs(g, {cell: heap.get(cell, value) for cell, value in self.heap.items()}, self.heap)
        if generator:
            result = Seq(sub.out, 'gen')
            result.effects = frozenset(cell for cell, value in before.items()
                                       if self.heap.get(cell) is not value and cell not in sub.cellnames.values())
            if result.effects:
                self.pending.append(result)
            return result
        alts = list(sub.rets)
        if not z3.is_false(simplify(sub.guard)):
            alts.append((sub.guard, None))
        return self.combine(alts)

    def make_cells(self, node, st):
        """Variables of the function that functions defined in it look at live in the heap"""
        shared, mutable = shared_names(node)
        for name in shared:
            cell = f'{name}#{fresh(z3.IntSort(), "cell")}'
            st.cellnames[name] = cell
            self.heap[cell] = st.env.pop(name, Undefined())
            if name in mutable:
                self.mutable.add(cell)

    def consumed(self, value):
        """Cells changed by the generator, which is consumed right now"""
        effects = getattr(value, 'effects', frozenset())
        if effects:
            self.pending = [gen for gen in self.pending if gen is not value]
        return effects

    def cell_of(self, name, st):
        """Cell of the variable if there is one"""
        cur = st
        while cur is not None:
            if name in cur.cellnames:
                return cur.cellnames[name]
            if name in cur.env:
                return None
            cur = cur.parent
        return None

    def combine(self, alts):
        """Value of exclusive and exhaustive alternatives"""
        if not alts:
            raise Unsupported('no result')
        value = alts[-1][1]
        for g, v in reversed(alts[:-1]):
            value = self.merge(g, v, value)
        return value

    def bind(self, params, func, args, kwargs, st):
        env = {}
        names = [a.arg for a in [*params.posonlyargs, *params.args]]
        args = list(args)
        if func.self_value is not None:
            args = [func.self_value, *args]
        defaults = dict(zip(names[len(names) - len(params.defaults):], params.defaults))
        for a, d in zip(params.kwonlyargs, params.kw_defaults):
            if d is not None:
                defaults[a.arg] = d
        if any(isinstance(value, Starred) for value in args):
            args = self.spread(args, len(names), params.vararg is not None, st)
        for name, value in zip(names, args):
            env[name] = value
        if len(args) > len(names):
            if params.vararg is None:
                raise Unsupported('too many arguments')
            env[params.vararg.arg] = self.rest_of(args[len(names):], st)
        elif params.vararg is not None:
            env[params.vararg.arg] = TupleV([])
        all_names = names + [a.arg for a in params.kwonlyargs]
        extra = {}
        for name, value in kwargs.items():
            if name in all_names:
                env[name] = value
            elif params.kwarg is not None:
                extra[name] = value
            else:
                raise Unsupported(f'unknown argument {name}')
        if params.kwarg is not None:
            env[params.kwarg.arg] = DictV(extra)
        for name in all_names:
            if name not in env:
                if name not in defaults:
                    raise Unsupported(f'missing argument {name}')
                env[name] = self.eval(defaults[name], State({}, st.ctx, func.module, parent=func.env))
        return env

    def spread(self, args, count, more, st):
        """Arguments with a list spread over the parameters"""
        at = next(i for i, value in enumerate(args) if isinstance(value, Starred))
        if at >= count:
            return args
        if at != len(args) - 1:
            raise Unsupported('arguments after a spread list')
        first, rest = self.fixed_items(args[at].value, count - at, st, exact=not more)
        return [*args[:at], *first, *([Starred(rest)] if more else [])]

    def rest_of(self, args, st):
        if not any(isinstance(value, Starred) for value in args):
            return TupleV(args)
        if len(args) == 1:
            return args[0].value
        return Seq([n for value in args
                    for n in (self.nodes_of(value.value, st) if isinstance(value, Starred) else [Y(TRUE, value)])])

    # statements

    def block(self, stmts, st):
        for stmt in stmts:
            if z3.is_false(st.guard):
                return
            self.stmt(stmt, st)

    def stmt(self, node, st):
        method = getattr(self, 'stmt_' + type(node).__name__, None)
        if method is None:
            raise Unsupported(f'statement {type(node).__name__} at line {node.lineno}')
        pending = len(self.pending)
        method(node, st)
        if len(self.pending) > pending:
            raise Unsupported(f'generator with effects used later (line {node.lineno})')

    def stmt_Pass(self, node, st):
        pass

    def stmt_Import(self, node, st):
        for alias in node.names:
            st.env[alias.asname or alias.name.split('.')[0]] = ModuleV(alias.name)

    def stmt_ImportFrom(self, node, st):
        for alias in node.names:
            holder = Module.__new__(Module)
            holder.defs, holder.imports = {}, {alias.name: (node.module, alias.name)}
            st.env[alias.asname or alias.name] = self.global_value(holder, alias.name)

    def stmt_Expr(self, node, st):
        value = node.value
        if isinstance(value, ast.Constant):
            return
        if isinstance(value, ast.Yield):
            item = self.eval(value.value, st)
            self.kept(item)
            st.out.append(Y(st.guard, item))
            return
        if isinstance(value, ast.YieldFrom):
            value = self.eval(value.value, st)
            self.consumed(value)
            for item in self.nodes_of(value, st):
                st.out.append(self.guarded(item, st.guard))
            return
        if isinstance(value, ast.Call) and grouped(value) is not None:
            target, key, item = grouped(value)
            current = self.eval(target, st)
            if isinstance(current, Seq) and current.kind == 'log':
                pair = TupleV([self.eval(key, st), self.eval(item, st)])
                changed = Seq([*current.nodes, Y(TRUE, pair)], 'log')
                if isinstance(target, ast.Name):
                    self.store(target.id, changed, st, outer=True)
                else:
                    self.assign(target, changed, st)
                return
        if isinstance(value, ast.Call) and isinstance(value.func, ast.Attribute) and \
                value.func.attr in MUTATORS and not isinstance(self.object_at(value.func.value, st), ObjV) and \
                 isinstance(value.func.value, (ast.Name, ast.Attribute)):
            target = value.func.value
            current = self.eval(target, st)
            args = [self.eval(a, st) for a in value.args]
            if isinstance(target, ast.Name) and target.id in st.params:
                raise Unsupported(f'argument {target.id} is changed')
            if getattr(current, 'shared', False):
                raise Unsupported(f'{ast.unparse(target)} is changed while it has another name')
            changed = self.mutated(current, value.func.attr, args, st)
            if isinstance(target, ast.Name):
                self.store(target.id, changed, st, outer=True)
            else:
                self.assign(target, changed, st)
            return
        if heap_call(value, 'heappush', 'heappushpop'):
            if node not in self.pushes:
                raise Unsupported('heap')
            self.pushed(*self.pushes[node], st)
            return
        self.eval(value, st)

    def object_at(self, node, st):
        return self.eval(node, st) if isinstance(node, ast.Name) else None

    def pushed(self, name, item, st):
        """The heap is known as the list of everything put into it"""
        current = self.eval(ast.Name(name, ast.Load()), st)
        self.store(name, self.mutated(current, 'append', [self.eval(item, st)], st), st)

    def mutated(self, current, method, args, st):
        if isinstance(current, Seq):
            if method == 'append':
                return Seq([*current.nodes, Y(TRUE, args[0])], current.kind)
            if method == 'extend':
                return Seq([*current.nodes, *self.nodes_of(args[0], st)], current.kind)
        if isinstance(current, SetV) and method == 'add':
            return SetV(Seq([*current.seq.nodes, Y(TRUE, args[0])]))
        if isinstance(current, Sym) and isinstance(current.ty, T.ListOf) and method == 'append':
            return Sym(current.ty, z3.Concat(current.t, z3.Unit(self.term(args[0], current.ty.of))))
        if isinstance(current, Sym) and isinstance(current.ty, T.SetOf) and method == 'add':
            return Sym(current.ty, z3.Store(current.t, self.term(args[0], current.ty.of), TRUE))
        raise Unsupported(f'mutation {method} of {current!r}'[:300])

    def guarded(self, node, g):
        if z3.is_true(g):
            return node
        if isinstance(node, Y):
            return Y(conj(g, node.g), node.v)
        if isinstance(node, F):
            if z3.is_true(node.g) and simplify(g).eq(simplify(node.n > 0)):
                return node
            return F(conj(g, node.g), node.n, node.k, node.body, node.stop, node.src)
        raise Unsupported('guarded placeholder')

    def stmt_Return(self, node, st):
        value = None if node.value is None else self.eval(node.value, st)
        st.rets.append((st.guard, value))
        st.ret_heaps.append((st.guard, dict(self.heap), dict(st.env), frozenset()))
        st.guard = FALSE

    def stmt_Continue(self, node, st):
        st.cont = disj(st.cont, st.guard)
        st.saved.append((st.guard, dict(st.env), dict(self.heap)))
        st.guard = FALSE

    def stmt_Break(self, node, st):
        st.brk = disj(st.brk, st.guard)
        st.saved.append((st.guard, dict(st.env), dict(self.heap)))
        st.guard = FALSE

    def stmt_Raise(self, node, st):
        self.safety.append((node.lineno, st.known(), FALSE, 'raise statement is not reached'))
        st.guard = FALSE

    def stmt_Assert(self, node, st):
        pass

    def stmt_FunctionDef(self, node, st):
        self.store(node.name, FuncV(node, st, st.module, cls=st.cls), st)

    def stmt_Nonlocal(self, node, st):
        raise Unsupported('nonlocal')

    def stmt_Assign(self, node, st):
        value = self.eval(node.value, st)
        if isinstance(node.value, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(value, (Seq, SetV, DictV)):
            value.shared = True
        if isinstance(node.value, ast.Name) and ty_of(value) in [*self.contracts.changing, store.Store]:
            raise Unsupported('another name of an object that is changed')
        for target in node.targets:
            if isinstance(target, ast.Name):
                st.params.discard(target.id)
            self.assign(target, value, st)

    def stmt_AnnAssign(self, node, st):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, st), st)

    def stmt_AugAssign(self, node, st):
        current = self.eval(ast.copy_location(
            ast.Name(node.target.id, ast.Load()) if isinstance(node.target, ast.Name) else node.target, node), st)
        value = self.eval(node.value, st)
        if isinstance(node.op, ast.Add) and isinstance(current, Seq):
            result = Seq([*current.nodes, *self.nodes_of(value, st)], current.kind)
        else:
            result = self.binop(node.op, current, value, st)
        self.assign(node.target, result, st)

    def set_field(self, obj, name, value):
        if name not in obj.cells:
            obj.cells[name] = f'{getattr(obj.cls, "node", None) and obj.cls.node.name}.{name}#{fresh(z3.IntSort(), "cell")}'
            self.mutable.add(obj.cells[name])
            if obj.cls is not None and getattr(obj.cls.node, 'name', None) in self.made:
                self.made_cells.add(obj.cells[name])
        self.heap[obj.cells[name]] = value

    def assign(self, target, value, st):
        if isinstance(target, ast.Attribute) and isinstance(self.object_at(target.value, st), ObjV):
            self.set_field(self.object_at(target.value, st), target.attr, value)
            return
        if isinstance(target, ast.Name):
            self.store(target.id, value, st)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, value, st)
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and \
                isinstance(st.env.get(target.value.id), RecV):
            record = st.env[target.value.id]
            st.env[target.value.id] = RecV(record.ty, {**record.fields, target.attr: value})
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id not in st.params and \
                ty_of(st.env.get(target.value.id)) in self.contracts.changing:
            record = st.env[target.value.id]
            fields = {name: self.attribute(record, name, st) for name in record.ty.fields}
            st.env[target.value.id] = RecV(record.ty, {**fields, target.attr: value})
        elif isinstance(target, ast.Subscript) and based(target) is not None and based(target).id not in st.params and \
                (isinstance(st.env.get(based(target).id), DictV) or ty_of(st.env.get(based(target).id)) == store.Store):
            keys = []
            while isinstance(target, ast.Subscript):
                keys.insert(0, self.eval(target.slice, st))
                target = target.value
            st.env[target.id] = Sym(store.Store, store.changed(self, st.env[target.id], keys, store.as_value(self, value)))
        else:
            raise Unsupported(f'assignment to {ast.unparse(target)}')

    def store(self, name, value, st, outer=False):
        """outer: the variable may be one of an enclosing function"""
        cell = self.cell_of(name, st) if outer else st.cellnames.get(name)
        if outer and cell is None and name not in st.env:
            raise Unsupported(f'change of {name}')
        if cell is None:
            st.env[name] = value
            return
        if cell in self.frozen:
            raise Unsupported('variable of a running generator')
        self.heap[cell] = value

    def unpack(self, targets, value, st):
        if any(isinstance(t, ast.Starred) for t in targets):
            if not isinstance(targets[-1], ast.Starred):
                raise Unsupported('star in the middle')
            items = self.fixed_items(value, len(targets) - 1, st, exact=False)
            for t, v in zip(targets[:-1], items[0]):
                self.assign(t, v, st)
            self.assign(targets[-1].value, items[1], st)
            return
        items, _ = self.fixed_items(value, len(targets), st)
        for t, v in zip(targets, items):
            self.assign(t, v, st)

    def fixed_items(self, value, count, st, exact=True):
        """(first `count` items, rest)"""
        if isinstance(value, Cases):
            alts = [(g, self.fixed_items(v, count, st, exact)) for g, v in value.alts]
            return ([self.combine([(g, items[0][i]) for g, items in alts]) for i in range(count)],
                    None if exact else self.combine([(g, items[1]) for g, items in alts]))
        if isinstance(value, TupleV):
            items = value.items
        elif isinstance(value, Sym) and isinstance(value.ty, T.Opt):
            self.safe(st, value.ty.is_some(value.t), 'not None (unpacking)')
            return self.fixed_items(Sym(value.ty.of, value.ty.val(value.t)), count, st, exact)
        elif isinstance(value, Sym) and isinstance(value.ty, T.TupleOf):
            items = [Sym(t, value.ty.item(value.t, i)) for i, t in enumerate(value.ty.of)]
        elif isinstance(value, Seq) and all(isinstance(n, Y) and z3.is_true(n.g) for n in value.nodes):
            items = [n.v for n in value.nodes]
        elif isinstance(value, Seq) and not exact and known_first(value.nodes) >= count:
            return [n.v for n in value.nodes[:count]], Seq(value.nodes[count:])
        elif isinstance(value, Sym) and isinstance(value.ty, T.ListOf):
            size = z3.Length(value.t)
            self.safe(st, size == count if exact else size >= count, 'unpacking a list of proper size')
            first = [Sym(value.ty.of, T.nth(value.ty.of, value.t, i)) for i in range(count)]
            return first, None if exact else Sym(value.ty, z3.SubSeq(value.t, z3.IntVal(count), size - count))
        else:
            raise Unsupported(f'unpacking {value!r}')
        if exact and len(items) != count or len(items) < count:
            raise Unsupported('unpacking: wrong count')
        return items[:count], Seq([Y(TRUE, i) for i in items[count:]])

    def stmt_If(self, node, st):
        if node in self.pushes:
            self.pushed(*self.pushes[node], st)
            return
        cond = self.cond(node.test, st)
        cond = self.decide(cond, st)
        if z3.is_true(cond):
            self.block(node.body, st)
            return
        if z3.is_false(cond):
            self.block(node.orelse, st)
            return
        env, heap = dict(st.env), dict(self.heap)
        goes1 = self.branch(st, cond, lambda: self.block(node.body, st))
        env1, st.env = st.env, env
        heap1, self.heap = self.heap, heap
        goes2 = self.branch(st, neg(cond), lambda: self.block(node.orelse, st))
        env2 = st.env
        if z3.is_false(goes1):
            st.guard = conj(st.guard, neg(cond), goes2)
        elif z3.is_false(goes2):
            st.env, self.heap = env1, heap1
            st.guard = conj(st.guard, cond, goes1)
        else:
            st.env = self.merge_envs(cond, env1, env2)
            self.heap = self.merge_envs(cond, heap1, self.heap)
            st.guard = conj(st.guard, disj(neg(cond), goes1), disj(cond, goes2))

    def branch(self, st, cond, run):
        """Executes something under the condition; returns when the execution goes on after it"""
        ctx, guard, out, rets, brk, cont, saved = st.ctx, st.guard, st.out, st.rets, st.brk, st.cont, st.saved
        ret_heaps, st.ret_heaps = st.ret_heaps, []
        st.ctx = [*ctx, guard, cond]
        st.guard = TRUE
        st.out = None if out is None else []
        st.rets = []
        st.saved = []
        st.brk = st.cont = FALSE
        run()
        goes = st.guard
        reached = conj(guard, cond)
        if out is not None:
            out.extend(self.guarded(n, reached) for n in st.out)
        rets.extend((conj(reached, g), v) for g, v in st.rets)
        brk = brk if z3.is_false(st.brk) else disj(brk, conj(reached, st.brk))
        cont = cont if z3.is_false(st.cont) else disj(cont, conj(reached, st.cont))
        saved.extend((conj(reached, g), env, heap) for g, env, heap in st.saved)
        ret_heaps.extend((conj(reached, g), *rest) for g, *rest in st.ret_heaps)
        st.ret_heaps = ret_heaps
        st.ctx, st.guard, st.out, st.rets, st.brk, st.cont, st.saved = ctx, guard, out, rets, brk, cont, saved
        return goes

    def decide(self, cond, st):
        """Condition, as a constant if it is decided by simplification"""
        return simplify(cond)

    def merge_envs(self, cond, env1, env2):
        merged = {}
        for name in {**env1, **env2}:
            v1 = env1.get(name, Undefined())
            v2 = env2.get(name, Undefined())
            merged[name] = v1 if v1 is v2 else self.merge(cond, v1, v2)
        return merged

    def merge(self, cond, v1, v2):
        """cond ? v1 : v2"""
        cond = simplify(cond)
        if z3.is_true(cond):
            return v1
        if z3.is_false(cond):
            return v2
        if v1 is v2:
            return v1
        if isinstance(v1, Undefined):
            return v1 if v1.sticky else v2
        if isinstance(v2, Undefined):
            return v2 if v2.sticky else v1
        if is_const(v1) and is_const(v2) and type(v1) is type(v2) and v1 == v2:
            return v1
        if isinstance(v1, Cases) or isinstance(v2, Cases):
            alts = []
            for g, v, c in ((cond, v1, True), (neg(cond), v2, False)):
                if isinstance(v, Cases):
                    alts.extend((simplify(conj(g, g2)), x) for g2, x in v.alts)
                else:
                    alts.append((g, v))
            return self.normal_cases(alts)
        if isinstance(v1, Seq) and isinstance(v2, Seq):
            return self.merge_seqs(cond, v1, v2)
        if isinstance(v1, SetV) and isinstance(v2, SetV):
            return SetV(self.merge_seqs(cond, v1.seq, v2.seq))
        for one, other in ((v1, v2), (v2, v1)):
            if isinstance(one, SetV) and isinstance(other, Sym) and isinstance(other.ty, T.SetOf):
                return Sym(other.ty, z3.If(cond, self.term(v1, other.ty), self.term(v2, other.ty)))
        if isinstance(v1, TupleV) and isinstance(v2, TupleV) and len(v1.items) == len(v2.items):
            return TupleV([self.merge(cond, a, b) for a, b in zip(v1.items, v2.items)])
        if isinstance(v1, RecV) and isinstance(v2, RecV) and v1.ty == v2.ty and set(v1.fields) == set(v2.fields):
            return RecV(v1.ty, {name: self.merge(cond, v, v2.fields[name]) for name, v in v1.fields.items()})
        if isinstance(v1, (Seq, Sym)) and isinstance(v2, (Seq, Sym)) and (isinstance(v1, Seq) or isinstance(v2, Seq)):
            sym, seq = (v1, v2) if isinstance(v1, Sym) else (v2, v1)
            if isinstance(sym.ty, T.ListOf):
                nodes1 = self.nodes_of(v1, None)
                nodes2 = self.nodes_of(v2, None)
                return Seq([*[self.guarded(n, cond) for n in nodes1], *[self.guarded(n, neg(cond)) for n in nodes2]])
        for one, other in ((v1, v2), (v2, v1)):
            if isinstance(one, DictV) and not one.items and isinstance(other, Sym) and other.ty in self.contracts.empty:
                empty = self.contracts.empty[other.ty]
                return Sym(other.ty, z3.If(cond, *[empty if v is one else v.t for v in (v1, v2)]))
        t1, t2 = ty_of(v1), ty_of(v2)
        if t1 is not None and t2 is not None:
            ty = self.join(t1, t2)
            if ty is not None:
                return Sym(ty, z3.If(cond, self.term(v1, ty), self.term(v2, ty)))
        return self.normal_cases([(cond, v1), (neg(cond), v2)])

    def join(self, t1, t2):
        if t1 == t2:
            return t1
        if isinstance(t1, T.Opt) and t1.of == t2:
            return t1
        if isinstance(t2, T.Opt) and t2.of == t1:
            return t2
        if {t1, t2} == {T.Int, T.Real}:
            return T.Real
        if {t1, t2} == {T.Int, T.Bool}:
            return None
        return None

    def normal_cases(self, alts):
        alts = [(g, v) for g, v in alts if not z3.is_false(g)]
        # same types together
        merged = []
        for g, v in alts:
            for i, (g2, v2) in enumerate(merged):
                if v is v2 or (v is None and v2 is None):
                    merged[i] = (disj(g2, g), v2)
                    break
                if v is not None and v2 is not None and ty_of(v) is not None and ty_of(v) == ty_of(v2):
                    ty = ty_of(v)
                    merged[i] = (disj(g2, g), Sym(ty, z3.If(g2, self.term(v2, ty), self.term(v, ty))))
                    break
            else:
                merged.append((g, v))
        if len(merged) == 1:
            return merged[0][1]
        if len(merged) == 2 and any(v is None for _, v in merged):
            (g1, v1), (_, v2) = merged
            other = v2 if v1 is None else v1
            ty = ty_of(other)
            if ty is not None and not isinstance(other, (Seq, RecV)):
                opt = ty if isinstance(ty, T.Opt) else T.Opt(ty)
                return Sym(opt, z3.If(g1, self.term(v1, opt), self.term(v2, opt)))
        return Cases(merged)

    def merge_seqs(self, cond, s1, s2):
        common = 0
        while common < len(s1.nodes) and common < len(s2.nodes) and s1.nodes[common] is s2.nodes[common]:
            common += 1
        return Seq([*s1.nodes[:common],
                    *[self.guarded(n, cond) for n in s1.nodes[common:]],
                    *[self.guarded(n, neg(cond)) for n in s2.nodes[common:]]], s1.kind)

    # sequences

    def nodes_of(self, value, st):
        """Items of an iterable"""
        if isinstance(value, Seq) and value.kind == 'log':
            raise Unsupported('keys of lists being built')
        if isinstance(value, Seq):
            return value.nodes
        if isinstance(value, TupleV):
            return [Y(TRUE, v) for v in value.items]
        if isinstance(value, SetV):
            return value.seq.nodes
        if isinstance(value, DictV):
            return [Y(TRUE, key) for key in value.items]
        if isinstance(value, Cases):
            nodes = []
            for g, v in value.alts:
                nodes.extend(self.guarded(n, g) for n in self.nodes_of(v, st))
            return nodes
        if isinstance(value, str):
            return [Y(TRUE, c) for c in value]
        if isinstance(value, Sym):
            if isinstance(value.ty, T.ListOf):
                k = fresh(z3.IntSort(), 'k')
                return [F(TRUE, z3.Length(value.t), k, [Y(TRUE, Sym(value.ty.of, T.nth(value.ty.of, value.t, k)))], src=value)]
            if value.ty == T.Str:
                k = fresh(z3.IntSort(), 'k')
                return [F(TRUE, z3.Length(value.t), k, [Y(TRUE, Sym(T.Str, char_at(value.t, k)))], src=value)]
            if isinstance(value.ty, T.Opt):
                self.safe(st, value.ty.is_some(value.t), 'iterating None')
                return self.nodes_of(Sym(value.ty.of, value.ty.val(value.t)), st)
            if isinstance(value.ty, T.SetOf):
                # some fixed order of items
                k = fresh(z3.IntSort(), 'k')
                items = z3.Function(f'items:{value.ty}', value.ty.sort(), T.ListOf(value.ty.of).sort())(value.t)
                return [F(TRUE, z3.Length(items), k, [Y(TRUE, Sym(value.ty.of, T.nth(value.ty.of, items, k)))],
                          src=Sym(T.ListOf(value.ty.of), items))]
            method = self.contracts.iterations.get(value.ty.key)
            if method is not None:
                return self.nodes_of(method(self, value, st), st)
        if isinstance(value, Mock) and 'iter' in value.methods:
            return self.nodes_of(value.methods['iter'](), st)
        if isinstance(value, ObjV) and value.cls is not None:
            return self.nodes_of(self.iterated(value, st), st)
        raise Unsupported(f'iterating {value!r}'[:200])

    def iterated(self, obj, st):
        """What the iterator object takes its items from"""
        method = obj.cls.module.method(obj.cls.node.name, '__iter__')
        if method is None or self.call(FuncV(method, None, obj.cls.module, self_value=obj, cls=obj.cls.node.name), [], {}, st) is not obj:
            raise Unsupported('iterating an object')
        method = obj.cls.module.method(obj.cls.node.name, '__next__')
        body = [] if method is None else [stmt for stmt in method.body if not is_docstring(stmt)]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call):
            call = body[0].value
            source = None
            if isinstance(call.func, ast.Name) and call.func.id == 'next' and len(call.args) == 1 and not call.keywords:
                source = call.args[0]
            elif isinstance(call.func, ast.Attribute) and call.func.attr == '__next__' and not call.args:
                source = call.func.value
            if source is not None:
                return self.eval(source, State({method.args.args[0].arg: obj}, st.known(), obj.cls.module))
        raise Unsupported('iterating an object')

    def delayed(self, make):
        """Generator, run when all its items are asked for"""
        made = []

        def items():
            if not self.exhausting:
                raise Unsupported('generator used item by item')
            if not made:
                made.append(make())
                self.consumed(made[0])
            return made[0]

        return Mock('generator', methods={'iter': items})

    def any_of(self, nodes, predicate=None):
        """Whether some item satisfies the predicate"""
        res = FALSE
        for node in nodes:
            if isinstance(node, Y):
                res = disj(res, conj(node.g, (predicate or self.truth)(node.v)))
            elif isinstance(node, F):
                inner = self.any_of(node.body, predicate)
                if not z3.is_false(node.stop):
                    j = fresh(z3.IntSort(), 'k')
                    inner = conj(inner, neg(exists(node.k, j, z3.substitute(node.stop, (node.k, j)))))
                res = disj(res, conj(node.g, exists(node.n, node.k, inner)))
            else:
                raise Unsupported('list being built')
        return res

    def list_term(self, nodes, of):
        """Sequence term of the items"""
        sort = T.ListOf(of).sort()
        parts = []
        for node in nodes:
            if isinstance(node, Y):
                t = z3.Unit(self.term(node.v, of))
                parts.append(t if z3.is_true(node.g) else z3.If(node.g, t, z3.Empty(sort)))
            elif isinstance(node, F):
                t = self.comp_term(node, of)
                parts.append(t if z3.is_true(node.g) else z3.If(node.g, t, z3.Empty(sort)))
            else:
                raise Unsupported('list being built')
        if not parts:
            return z3.Empty(sort)
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def comp_term(self, node, of):
        if z3.is_false(node.stop) and len(node.body) == 1 and isinstance(node.body[0], Y) and \
                z3.is_true(node.body[0].g) and node.src is not None and isinstance(node.src.ty, T.ListOf) and \
                isinstance(node.body[0].v, Sym) and node.body[0].v.t.eq(T.nth(of, node.src.t, node.k)) and node.src.ty.of == of:
            return node.src.t
        inner = self.list_term(node.body, of)
        if not z3.is_false(node.stop):
            j = fresh(z3.IntSort(), 'k')
            inner = z3.If(exists(node.k, j, z3.substitute(node.stop, (node.k, j))), z3.Empty(inner.sort()), inner)
        return define('comp', node.n, node.k, inner, inner.sort())

    # terms

    def term(self, v, ty):
        """SMT term of the value, as of the type"""
        if isinstance(v, Undefined):
            raise Unsupported('undefined variable')
        if isinstance(v, Cases):
            parts = [(g, self.term(x, ty)) for g, x in v.alts]
            t = parts[-1][1]
            for g, x in reversed(parts[:-1]):
                t = z3.If(g, x, t)
            return t
        if isinstance(ty, T.Opt):
            if v is None:
                return ty.none()
            if isinstance(v, Sym) and v.ty == ty:
                return v.t
            return ty.some(self.term(v, ty.of))
        if isinstance(ty, T.Union):
            if isinstance(v, Sym) and v.ty == ty:
                return v.t
            for i, of in enumerate(ty.of):
                if ty_of(v) == of or (isinstance(v, (Seq,)) and isinstance(of, T.ListOf)) or \
                        (isinstance(v, RecV) and v.ty == of):
                    return ty.wrap(i, self.term(v, of))
            raise Unsupported(f'{v!r} is not of {ty}')
        if ty == T.Bool:
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, Sym) and v.ty == T.Bool:
                return v.t
            raise Unsupported(f'{v!r} is not Bool')
        if ty == T.Int:
            if isinstance(v, bool):
                return z3.IntVal(int(v))
            if isinstance(v, int):
                return z3.IntVal(v)
            if isinstance(v, Sym) and v.ty == T.Bool:
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if ty == T.Real:
            if isinstance(v, (int, float)):
                return z3.RealVal(v)
            if isinstance(v, Sym) and v.ty == T.Int:
                return z3.ToReal(v.t)
        if ty == T.Str and isinstance(v, str):
            return z3.StringVal(''.join(c if ord(c) < 128 and c != '\\' else '\\u{%x}' % ord(c) for c in v))
        if isinstance(v, DictV) and not v.items and ty in self.contracts.empty:
            return self.contracts.empty[ty]
        if isinstance(v, DictV) and ty == store.Store:
            return store.as_store(self, v)
        if isinstance(v, Sym):
            if v.ty == ty:
                return v.t
            if v.ty == store.Value:
                return store.as_type(v.t, ty)
            if isinstance(v.ty, T.Opt) and v.ty.of == ty:
                return v.ty.val(v.t)
            if isinstance(v.ty, T.Union) and ty in v.ty.of:
                return v.ty.case(v.ty.of.index(ty), v.t)
            if isinstance(ty, T.ListOf) and isinstance(v.ty, T.ListOf):
                if ty.of != v.ty.of:
                    return self.list_term(self.nodes_of(v, None), ty.of)
        if isinstance(ty, T.ListOf):
            if isinstance(v, (Seq, TupleV, str)):
                return self.list_term(self.nodes_of(v, None), ty.of)
            if isinstance(v, Sym) and v.ty == T.Str and ty.of == T.Str:
                return self.list_term(self.nodes_of(v, None), ty.of)
        if isinstance(ty, T.TupleOf):
            if isinstance(v, TupleV) and len(v.items) == len(ty.of):
                return ty.sort().constructor(0)(*[self.term(i, t) for i, t in zip(v.items, ty.of)])
        if isinstance(ty, T.Rec) and isinstance(v, RecV) and v.ty == ty:
            return ty.construct(*[self.term(v.fields[name], t) for name, t in ty.fields.items()])
        if isinstance(ty, T.SetOf) and isinstance(v, SetV):
            return self.set_term(v.seq.nodes, ty)
        if isinstance(ty, T.Enum) and isinstance(v, EnumConst) and v.ty == ty:
            return ty.const(v.member)
        raise Unsupported(f'{v!r} is not of {ty}'[:300])

    def set_term(self, nodes, ty):
        t = z3.K(ty.of.sort(), FALSE)
        for node in nodes:
            if isinstance(node, Y):
                new = z3.Store(t, self.term(node.v, ty.of), TRUE)
                t = new if z3.is_true(node.g) else z3.If(node.g, new, t)
            elif isinstance(node, F):
                items = self.list_term([F(TRUE, node.n, node.k, node.body, node.stop, node.src)], ty.of)
                part = z3.Function(f'set:{ty}', items.sort(), ty.sort())(items)
                new = part if t.eq(z3.K(ty.of.sort(), FALSE)) else z3.SetUnion(t, part)
                t = new if z3.is_true(node.g) else z3.If(node.g, new, t)
            else:
                raise Unsupported('set')
        return t

    def truth(self, v):
        if isinstance(v, Undefined):
            raise Unsupported('undefined variable')
        if is_const(v):
            return z3.BoolVal(bool(v))
        if isinstance(v, Cases):
            if v.truth is not None:
                return v.truth
            return disj(*[conj(g, self.truth(x)) for g, x in v.alts])
        if isinstance(v, Sym):
            ty = v.ty
            if ty == T.Bool:
                return v.t
            if ty == T.Int or ty == T.Real:
                return v.t != 0
            if ty == T.Str:
                return v.t != z3.StringVal('')
            if isinstance(ty, T.Opt):
                if z3.is_app(v.t) and v.t.decl().name() in self.contracts.never_empty:
                    return ty.is_some(v.t)
                return conj(ty.is_some(v.t), self.truth(Sym(ty.of, ty.val(v.t))))
            if isinstance(ty, T.ListOf):
                if v.once:
                    raise Unsupported('truth of an iterator')
                return z3.Length(v.t) > 0
            if isinstance(ty, T.SetOf):
                return v.t != z3.K(ty.of.sort(), FALSE)
            if isinstance(ty, (T.Cls, T.Rec, T.Enum)):
                custom = self.contracts.truths.get(ty.key)
                return custom(self, v) if custom else TRUE
            if isinstance(ty, T.TupleOf):
                return TRUE
            if isinstance(ty, T.Union):
                return disj(*[conj(ty.is_case(i, v.t), self.truth(Sym(of, ty.case(i, v.t))))
                              for i, of in enumerate(ty.of)])
        if isinstance(v, (RecV, FuncV, ClassV)):
            return TRUE
        if isinstance(v, EnumConst):
            return TRUE
        if isinstance(v, TupleV):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, DictV):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Seq):
            if v.kind == 'gen':
                return TRUE
            return self.any_of(v.nodes, lambda _: TRUE)
        if isinstance(v, SetV):
            return self.any_of(v.seq.nodes, lambda _: TRUE)
        if isinstance(v, Mock) and v.truthy is not None:
            return v.truthy
        raise Unsupported(f'truth of {v!r}'[:200])

    def safe(self, st, formula, text, line=None):
        if st is not None:
            self.safety.append((line, st.known(), formula, text))

    # expressions

    def eval(self, node, st):
        method = getattr(self, 'eval_' + type(node).__name__, None)
        if method is None:
            raise Unsupported(f'expression {type(node).__name__}')
        return method(node, st)

    def eval_Constant(self, node, st):
        return node.value

    def eval_Name(self, node, st):
        cur = st
        while cur is not None:
            if node.id in cur.cellnames or node.id in cur.env:
                if node.id in cur.cellnames:
                    cell = cur.cellnames[node.id]
                    if cell in self.frozen:
                        raise Unsupported('variable of a running generator')
                    value = self.heap[cell]
                else:
                    value = cur.env[node.id]
                if isinstance(value, Undefined):
                    raise Unsupported(f'variable {node.id} has no single value')
                self.taken(value, node, cur.function)
                return self.narrowed(value, st)
            cur = cur.parent
        return self.global_value(st.module, node.id)

    def taken(self, value, node, function):
        """Iterators are used once"""
        if self.side != 'real' or function is None or not is_iterator(value):
            return
        if once.repeated(function, node) or any(
                load is not node and not once.exclusive(function, load, node) for load in value.loads):
            raise Unsupported(f'iterator {node.id} used more than once')
        value.loads = [*value.loads, node]

    def kept(self, value):
        if self.side == 'real' and is_iterator(value):
            raise Unsupported('iterator kept')

    def narrowed(self, value, st):
        """Value of a union type, as of the type it is known to have"""
        if not isinstance(value, Sym) or not isinstance(value.ty, T.Union):
            return value
        possible = set(range(len(value.ty.of)))
        tests = [value.ty.is_case(i, value.t) for i in range(len(value.ty.of))]
        for fact in conjuncts(st.known()):
            for i, test in enumerate(tests):
                if fact.eq(test):
                    possible &= {i}
                elif z3.is_not(fact) and fact.arg(0).eq(test):
                    possible -= {i}
        if len(possible) == 1:
            i = possible.pop()
            return Sym(value.ty.of[i], simplify(value.ty.case(i, value.t)))
        return value

    def eval_NamedExpr(self, node, st):
        value = self.eval(node.value, st)
        self.assign(node.target, value, st)
        return value

    def eval_List(self, node, st):
        return Seq(self.items(node.elts, st))

    def eval_Tuple(self, node, st):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return Seq(self.items(node.elts, st))
        return TupleV([self.eval(e, st) for e in node.elts])

    def eval_Set(self, node, st):
        if len(node.elts) == 1 and isinstance(node.elts[0], ast.Starred):
            from pyvc import lib
            return lib.b_set(self, st, self.eval(node.elts[0].value, st))
        return SetV(Seq(self.items(node.elts, st)))

    def items(self, elts, st):
        nodes = []
        for e in elts:
            if isinstance(e, ast.Starred):
                nodes.extend(self.nodes_of(self.eval(e.value, st), st))
            else:
                nodes.append(Y(TRUE, self.eval(e, st)))
        return nodes

    def eval_Dict(self, node, st):
        items = {}
        for key, value in zip(node.keys, node.values):
            key = self.eval(key, st)
            if not is_const(key):
                raise Unsupported('dictionary key')
            items[key] = self.eval(value, st)
        return DictV(items)

    def eval_Lambda(self, node, st):
        return FuncV(node, st, st.module)

    def eval_IfExp(self, node, st):
        cond = self.decide(self.cond(node.test, st), st)
        if z3.is_true(cond):
            return self.eval(node.body, st)
        if z3.is_false(cond):
            return self.eval(node.orelse, st)
        v1 = self.eval_under(node.body, st, cond)
        v2 = self.eval_under(node.orelse, st, neg(cond))
        return self.merge(cond, v1, v2)

    def eval_under(self, node, st, cond):
        start = st.guard
        heap = dict(self.heap)
        st.guard = conj(start, cond)
        try:
            return self.eval(node, st)
        finally:
            st.guard = start
            if any(self.heap.get(cell) is not value for cell, value in heap.items()):
                self.heap = self.merge_envs(cond, self.heap, heap)

    def cond(self, node, st):
        """Whether the value of the expression is true"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            truths = []
            for operand in node.values:
                start, heap = st.guard, dict(self.heap)
                before = conj(*(truths if is_and else map(neg, truths)))
                if z3.is_false(before):
                    break
                st.guard = conj(start, before)
                try:
                    truths.append(simplify(self.cond(operand, st)))
                finally:
                    st.guard = start
                    if any(self.heap.get(cell) is not value for cell, value in heap.items()):
                        self.heap = self.merge_envs(before, self.heap, heap)
            return conj(*truths) if is_and else disj(*truths)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return neg(self.cond(node.operand, st))
        return self.truth(self.eval(node, st))

    def eval_BoolOp(self, node, st):
        """a and b: falsy a, or b"""
        is_and = isinstance(node.op, ast.And)
        alts = []
        truths = []
        before = TRUE
        for i, operand in enumerate(node.values):
            value = self.eval_under(operand, st, before)
            if i == len(node.values) - 1:
                alts.append((before, value))
                truths.append(value)
                break
            cond = simplify(self.truth(value))
            truths.append(value)
            if z3.is_true(cond) or z3.is_false(cond):
                if z3.is_true(cond) == is_and:
                    continue
                alts.append((before, value))
                break
            end = neg(cond) if is_and else cond
            alts.append((conj(before, end), value))
            before = conj(before, neg(end))
        if all(self.boolish(v) for _, v in alts):
            return Sym(T.Bool, simplify((conj if is_and else disj)(*map(self.truth, truths))))
        result = self.normal_cases(alts)
        if isinstance(result, Cases):
            try:
                result.truth = (conj if is_and else disj)(*map(self.truth, truths))
            except Unsupported:
                pass
        return result

    def boolish(self, v):
        return isinstance(v, bool) or (isinstance(v, Sym) and v.ty == T.Bool)

    def eval_UnaryOp(self, node, st):
        value = self.eval(node.operand, st)
        if isinstance(node.op, ast.Not):
            return self.bool_value(neg(self.truth(value)))
        if isinstance(node.op, ast.USub):
            if is_const(value):
                return -value
            return Sym(value.ty, -value.t)
        raise Unsupported('unary operator')

    def bool_value(self, t):
        t = simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return Sym(T.Bool, t)

    def eval_BinOp(self, node, st):
        return self.binop(node.op, self.eval(node.left, st), self.eval(node.right, st), st)

    def binop(self, op, a, b, st):
        if is_const(a) and is_const(b):
            import operator
            fn = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
                  ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod}.get(type(op))
            if fn is None:
                raise Unsupported('operator')
            return fn(a, b)
        if isinstance(a, Cases):
            return self.combine([(g, self.binop(op, x, b, st)) for g, x in a.alts])
        if isinstance(b, Cases):
            return self.combine([(g, self.binop(op, a, x, st)) for g, x in b.alts])
        ta, tb = ty_of(a), ty_of(b)
        if isinstance(ta, T.Opt):
            self.safe(st, ta.is_some(a.t), 'operand is not None')
            return self.binop(op, Sym(ta.of, ta.val(a.t)), b, st)
        if isinstance(tb, T.Opt):
            self.safe(st, tb.is_some(b.t), 'operand is not None')
            return self.binop(op, a, Sym(tb.of, tb.val(b.t)), st)
        if isinstance(op, ast.Add) and ta == T.Str and tb == T.Str:
            return Sym(T.Str, concat(self.term(a, T.Str), self.term(b, T.Str)))
        if isinstance(op, ast.Add) and (isinstance(a, Seq) or isinstance(b, Seq) or isinstance(ta, T.ListOf)):
            return Seq([*self.nodes_of(a, st), *self.nodes_of(b, st)])
        if isinstance(op, ast.Mult) and {ta, tb} == {T.Str, T.Int}:
            raise Unsupported('string repetition')
        numeric = (T.Int, T.Real, T.Bool)
        if ta in numeric and tb in numeric:
            ty = T.Real if T.Real in (ta, tb) or isinstance(op, ast.Div) else T.Int
            x, y = self.term(a, ty), self.term(b, ty)
            if isinstance(op, ast.Add):
                return Sym(ty, x + y)
            if isinstance(op, ast.Sub):
                return Sym(ty, x - y)
            if isinstance(op, ast.Mult):
                return Sym(ty, x * y)
            if isinstance(op, ast.Div) and is_const(b) and b != 0:
                return Sym(ty, x / y)
            if isinstance(op, ast.FloorDiv) and is_const(b) and b > 0:
                if ty == T.Int:
                    return Sym(ty, x / y)
                return Sym(ty, z3.ToReal(z3.ToInt(x / y)))
            if isinstance(op, ast.Mod) and ty == T.Int and is_const(b) and b > 0:
                return Sym(ty, x % y)
        if isinstance(op, ast.BitOr):
            from pyvc import lib
            return lib.set_union(self, a)(self, st, b)
        raise Unsupported(f'operator on {ta}, {tb}')

    def eval_Compare(self, node, st):
        left = self.eval(node.left, st)
        res = TRUE
        for op, right in zip(node.ops, node.comparators):
            right = self.eval(right, st)
            res = conj(res, self.compare(op, left, right, st))
            left = right
        return self.bool_value(res)

    def compare(self, op, a, b, st):
        if isinstance(a, Sym) and a.ty == T.Int and type(b) is int:
            t = simplify(a.t)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_INDEX and z3.is_int_value(t.arg(2)) \
                    and t.arg(2).as_long() == 0:
                # text.find(part)
                found = z3.Contains(t.arg(0), t.arg(1))
                if (type(op), b) in ((ast.NotEq, -1), (ast.GtE, 0), (ast.Gt, -1)):
                    return found
                if (type(op), b) in ((ast.Eq, -1), (ast.Lt, 0), (ast.LtE, -1)):
                    return neg(found)
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return neg(self.equal(a, b))
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return neg(self.identical(a, b))
        if isinstance(op, ast.In):
            return self.member(a, b, st)
        if isinstance(op, ast.NotIn):
            return neg(self.member(a, b, st))
        if is_const(a) and is_const(b):
            import operator
            fn = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            return z3.BoolVal(fn(a, b))
        if isinstance(a, Cases):
            return disj(*[conj(g, self.compare(op, x, b, st)) for g, x in a.alts])
        if isinstance(b, Cases):
            return disj(*[conj(g, self.compare(op, a, x, st)) for g, x in b.alts])
        ta, tb = ty_of(a), ty_of(b)
        if isinstance(ta, T.Opt):
            self.safe(st, ta.is_some(a.t), 'operand is not None')
            return self.compare(op, Sym(ta.of, ta.val(a.t)), b, st)
        if isinstance(tb, T.Opt):
            self.safe(st, tb.is_some(b.t), 'operand is not None')
            return self.compare(op, a, Sym(tb.of, tb.val(b.t)), st)
        numeric = (T.Int, T.Real, T.Bool)
        if ta in numeric and tb in numeric:
            ty = T.Real if T.Real in (ta, tb) else T.Int
            x, y = self.term(a, ty), self.term(b, ty)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if ta == T.Str and tb == T.Str:
            x, y = self.term(a, T.Str), self.term(b, T.Str)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x,
                    ast.GtE: lambda: y <= x}[type(op)]()
        raise Unsupported(f'comparison of {ta}, {tb}')

    def identical(self, a, b):
        if b is None:
            if a is None:
                return TRUE
            if isinstance(a, Sym) and isinstance(a.ty, T.Opt):
                return neg(a.ty.is_some(a.t))
            if isinstance(a, Cases):
                return disj(*[conj(g, self.identical(x, None)) for g, x in a.alts])
            return FALSE
        if isinstance(b, bool):
            return self.equal(a, b)
        raise Unsupported('is')

    def equal(self, a, b):
        if is_const(a) and is_const(b):
            return z3.BoolVal(a == b)
        if isinstance(a, Cases):
            return disj(*[conj(g, self.equal(x, b)) for g, x in a.alts])
        if isinstance(b, Cases):
            return self.equal(b, a)
        if a is None or b is None:
            other = b if a is None else a
            if isinstance(other, Sym) and isinstance(other.ty, T.Opt):
                return neg(other.ty.is_some(other.t))
            return FALSE
        ta, tb = ty_of(a), ty_of(b)
        if isinstance(a, EnumConst):
            ta = a.ty
        if isinstance(b, EnumConst):
            tb = b.ty
        if ta == store.Value and tb != ta and tb is not None:
            return self.term(a, tb) == self.term(b, tb)
        if tb == store.Value and tb != ta and ta is not None:
            return self.equal(b, a)
        if isinstance(ta, T.Opt) and not isinstance(tb, T.Opt):
            return conj(ta.is_some(a.t), self.equal(Sym(ta.of, ta.val(a.t)), b))
        if isinstance(tb, T.Opt) and not isinstance(ta, T.Opt):
            return self.equal(b, a)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                return FALSE
            return conj(*[self.equal(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, RecV) and isinstance(b, RecV) and a.ty == b.ty:
            return conj(*[self.term(a.fields[n], t) == self.term(b.fields[n], t) for n, t in a.ty.fields.items()])
        if isinstance(ta, T.Union) and ta != tb:
            return self.equal_union(ta, a, b)
        if isinstance(tb, T.Union) and ta != tb:
            return self.equal_union(tb, b, a)
        ty = ta if ta is not None and not isinstance(a, Seq) else tb if tb is not None else ta
        if isinstance(a, Seq) and isinstance(b, Seq) and ty is None:
            if not a.nodes and not b.nodes:
                return TRUE
        if ta is not None and tb is not None and ta != tb:
            ty = self.join(ta, tb)
            if ty is None:
                numeric = (T.Int, T.Bool)
                if ta in numeric and tb in numeric:
                    ty = T.Int
                elif isinstance(ta, T.ListOf) and isinstance(tb, T.ListOf):
                    ty = ta
                else:
                    return FALSE
        if ty is None:
            raise Unsupported(f'comparing {a!r} and {b!r}'[:200])
        return self.term(a, ty) == self.term(b, ty)

    def equal_union(self, ty, u, v):
        for i, of in enumerate(ty.of):
            if ty_of(v) == of or (isinstance(v, Seq) and isinstance(of, T.ListOf)):
                return conj(ty.is_case(i, u.t), ty.case(i, u.t) == self.term(v, of))
        return FALSE

    def member(self, x, coll, st):
        if isinstance(coll, Cases):
            return disj(*[conj(g, self.member(x, c, st)) for g, c in coll.alts])
        if isinstance(coll, str) and isinstance(x, str):
            return z3.BoolVal(x in coll)
        ty = ty_of(coll)
        if isinstance(ty, T.Opt):
            self.safe(st, ty.is_some(coll.t), 'not None')
            return self.member(x, Sym(ty.of, ty.val(coll.t)), st)
        if isinstance(x, Cases):
            return disj(*[conj(g, self.member(y, coll, st)) for g, y in x.alts])
        if ty == T.Str:
            tx = ty_of(x)
            if isinstance(tx, T.Opt):
                self.safe(st, tx.is_some(x.t), 'not None')
            return z3.Contains(self.term(coll, T.Str), self.term(x, T.Str))
        if isinstance(coll, Sym) and isinstance(ty, T.SetOf):
            if x is None:
                return FALSE
            tx = ty_of(x)
            if isinstance(tx, T.Opt) and not isinstance(ty.of, T.Opt):
                return conj(tx.is_some(x.t), z3.Select(coll.t, tx.val(x.t)))
            return z3.Select(coll.t, self.term(x, ty.of))
        if isinstance(coll, DictV):
            return disj(*[self.equal(x, key) for key in coll.items])
        if isinstance(coll, (Seq, TupleV, SetV)) or isinstance(ty, T.ListOf):
            return self.any_of(self.nodes_of(coll, st), lambda item: self.equal(item, x))
        if isinstance(coll, Mock) and 'contains' in coll.methods:
            return coll.methods['contains'](x)
        if isinstance(coll, Sym) and (ty.key, '__contains__') in self.contracts.adaptors:
            return self.truth(self.contracts.adaptors[(ty.key, '__contains__')](self, coll, st)(x))
        raise Unsupported(f'membership in {coll!r}'[:200])

    def eval_Subscript(self, node, st):
        value = self.eval(node.value, st)
        if isinstance(node.slice, ast.Slice):
            parts = [None if p is None else self.eval(p, st)
                     for p in (node.slice.lower, node.slice.upper, node.slice.step)]
            return self.slice(value, *parts, st)
        return self.index(value, self.eval(node.slice, st), st)

    def index(self, value, i, st):
        if isinstance(value, Cases):
            return self.combine([(g, self.index(v, i, st)) for g, v in value.alts])
        if isinstance(value, TupleV) and isinstance(i, int):
            return value.items[i]
        if isinstance(value, str):
            if isinstance(i, int):
                return value[i]
            value = Sym(T.Str, self.term(value, T.Str))
        if isinstance(value, DictV):
            if is_const(i):
                return value.items[i]
            alts = [(self.equal(i, key), v) for key, v in value.items.items()]
            self.safe(st, disj(*[g for g, _ in alts]), 'key is present')
            return self.combine(alts)
        if self.side == 'real' and is_iterator(value):
            raise Unsupported('item of an iterator')
        if isinstance(value, Seq) and value.kind == 'log':
            from pyvc import lib
            return lib.of_key(self, value, i)
        ty = ty_of(value)
        if isinstance(ty, T.Opt):
            self.safe(st, ty.is_some(value.t), 'not None')
            return self.index(Sym(ty.of, ty.val(value.t)), i, st)
        if isinstance(value, Seq) and isinstance(i, int) and \
                all(isinstance(n, Y) and z3.is_true(n.g) for n in value.nodes):
            self.safe(st, z3.BoolVal(-len(value.nodes) <= i < len(value.nodes)), 'index in range')
            return value.nodes[i].v
        if isinstance(value, Seq) and i == 0 and isinstance(i, int) and len(value.nodes) == 1 and isinstance(value.nodes[0], F):
            node = value.nodes[0]
            if z3.is_true(node.g) and z3.is_false(node.stop) and len(node.body) == 1 and isinstance(node.body[0], Y) and \
                    not z3.is_true(node.body[0].g):
                # the first one chosen
                self.safe(st, exists(node.n, node.k, node.body[0].g), 'index in range')
                at = define('first', node.n, node.k, node.body[0].g, z3.IntSort())
                return subst_value(node.body[0].v, (node.k, at))
        if isinstance(value, Seq) and isinstance(i, int) and 0 <= i < known_first(value.nodes):
            return value.nodes[i].v
        if isinstance(value, Seq) and isinstance(i, int) and i >= 0 and len(value.nodes) == 1:
            node, = value.nodes
            if isinstance(node, F) and z3.is_true(node.g) and z3.is_false(node.stop) and len(node.body) == 1 and \
                    isinstance(node.body[0], Y) and z3.is_true(node.body[0].g):
                self.safe(st, node.n > i, 'index in range')
                return subst_value(node.body[0].v, (node.k, z3.IntVal(i)))
        if isinstance(value, Seq) and isinstance(ty, T.ListOf):
            value = Sym(ty, self.term(value, ty))
        if isinstance(ty, T.TupleOf) and isinstance(i, int):
            return Sym(ty.of[i], ty.item(value.t, i))
        if ty == T.Str or isinstance(ty, T.ListOf):
            size = z3.Length(value.t)
            if isinstance(i, int):
                at = z3.IntVal(i) if i >= 0 else size + i
                self.safe(st, size > i if i >= 0 else size >= -i, 'index in range')
            else:
                at = self.term(i, T.Int)
                self.safe(st, conj(at < size, at >= -size), 'index in range')
                if not quick(st.known(), at >= 0, timeout=1500):
                    at = z3.If(at >= 0, at, at + size)
            at = simplify(at)
            if ty == T.Str:
                return Sym(T.Str, char_at(value.t, at))
            return Sym(ty.of, T.nth(ty.of, value.t, at))
        if isinstance(value, Sym) and (ty.key, '__getitem__') in self.contracts.adaptors:
            return self.contracts.adaptors[(ty.key, '__getitem__')](self, value, st)(i)
        raise Unsupported(f'index of {value!r}'[:200])

    def slice(self, value, lower, upper, step, st):
        if isinstance(value, Cases):
            return self.combine([(g, self.slice(v, lower, upper, step, st)) for g, v in value.alts])
        if is_const(value) and all(is_const(p) for p in (lower, upper, step)):
            return value[lower:upper:step]
        if isinstance(value, TupleV) and all(is_const(p) for p in (lower, upper, step)):
            return TupleV(value.items[lower:upper:step])
        if isinstance(value, Seq) and all(is_const(p) for p in (lower, upper, step)) and \
                all(isinstance(n, Y) and z3.is_true(n.g) for n in value.nodes):
            return Seq(value.nodes[lower:upper:step])
        ty = ty_of(value)
        if isinstance(ty, T.Opt):
            self.safe(st, ty.is_some(value.t), 'not None')
            return self.slice(Sym(ty.of, ty.val(value.t)), lower, upper, step, st)
        if ty is None:
            raise Unsupported('slice')
        t = self.term(value, ty)
        if ty != T.Str and not isinstance(ty, T.ListOf):
            raise Unsupported('slice')
        if step is not None:
            if step == -1 and lower is None and upper is None:
                return Sym(ty, z3.Function(f'reversed:{ty}', ty.sort(), ty.sort())(t))
            raise Unsupported('slice step')
        size = z3.Length(t)

        def bound(b, default):
            if b is None:
                return default
            if isinstance(b, int):
                if b >= 0:
                    return z3.IntVal(b)
                return z3.If(size + b > 0, size + b, z3.IntVal(0))
            b = self.term(b, T.Int)
            if nonnegative(b, st) or quick(st.known(), b >= 0, timeout=1500):
                return b
            return z3.If(b >= 0, b, z3.If(size + b > 0, size + b, z3.IntVal(0)))

        lo = bound(lower, z3.IntVal(0))
        hi = bound(upper, size)
        return Sym(ty, simplify(z3.SubString(t, lo, hi - lo)) if ty == T.Str
                   else z3.SubSeq(t, lo, simplify(z3.If(hi - lo >= 0, hi - lo, 0))))

    def eval_JoinedStr(self, node, st):
        parts = []
        for value in node.values:
            if isinstance(value, ast.Constant):
                parts.append(self.term(value.value, T.Str))
            elif isinstance(value, ast.FormattedValue) and value.format_spec is None and value.conversion == -1:
                v = self.eval(value.value, st)
                if isinstance(v, Mock) and 'format' in v.methods:
                    raise Unsupported('format')
                if ty_of(v) != T.Str:
                    raise Unsupported('format')
                parts.append(self.term(v, T.Str))
            else:
                raise Unsupported('format')
        return Sym(T.Str, concat(*parts))

    def eval_GeneratorExp(self, node, st):
        heap = dict(self.heap)
        first = self.eval(node.generators[0].iter, st)
        if isinstance(first, Mock) and first.kind == 'generator':
            return self.delayed(lambda: Seq(self.comprehension(node.generators, node.elt, st, first.methods['iter']()), 'gen'))
        result = Seq(self.comprehension(node.generators, node.elt, st, first), 'gen')
        if any(self.heap.get(cell) is not value for cell, value in heap.items()):
            raise Unsupported('effects in a generator expression')
        return result

    def eval_ListComp(self, node, st):
        return Seq(self.comprehension(node.generators, node.elt, st))

    def eval_SetComp(self, node, st):
        return SetV(Seq(self.comprehension(node.generators, node.elt, st)))

    def eval_DictComp(self, node, st):
        """List of its keys and values"""
        return Seq(self.comprehension(node.generators, ast.Tuple([node.key, node.value], ast.Load()), st), 'dict')

    def comprehension(self, generators, elt, st, first=None):
        if first is None:
            first = self.eval(generators[0].iter, st)
        sub = State({}, st.known(), st.module, out=[], parent=st)
        sub.cls = st.cls
        pending = len(self.pending)
        before = dict(self.heap)

        def run(index, sub):
            if index == len(generators):
                sub.out.append(Y(sub.guard, self.eval(elt, sub)))
                return
            gen = generators[index]
            iterable = self.eval(gen.iter, sub) if index else first

            def body(inner, item):
                self.assign(gen.target, item, inner)
                start = inner.guard
                for cond in gen.ifs:
                    inner.guard = conj(inner.guard, simplify(self.cond(cond, inner)))
                if not z3.is_false(inner.guard):
                    run(index + 1, inner)
                inner.guard = start

            self.loop(iterable, sub, body, set())

        run(0, sub)
        if len(self.pending) > pending or any(self.heap.get(cell) is not value for cell, value in before.items()):
            raise Unsupported('effects in a comprehension')
        return sub.out

    # attributes and calls

    def eval_Attribute(self, node, st):
        return self.attribute(self.eval(node.value, st), node.attr, st)

    def attribute(self, value, name, st):
        from pyvc import lib
        if isinstance(value, Cases):
            alts = [(g, v) for g, v in value.alts]
            if any(v is None for _, v in alts):
                self.safe(st, disj(*[g for g, v in alts if v is not None]), f'not None (.{name})')
                alts = [(g, v) for g, v in alts if v is not None]
            return self.combine([(g, self.attribute(v, name, st)) for g, v in alts])
        if isinstance(value, ObjV):
            if name in value.cells:
                return self.heap[value.cells[name]]
            method = value.cls.module.method(value.cls.node.name, name) if value.cls is not None else None
            if method is not None:
                self.inlined.add(f'{value.cls.node.name}.{name}')
                return self.bound(method, value.cls.module, value, value.cls.node.name, st)
            if value.base is not None:
                return self.attribute(value.base, name, st)
            raise Unsupported(f'attribute {name}')
        if isinstance(value, RecV):
            if (value.ty.key, name) in self.contracts.adaptors:
                return self.contracts.adaptors[(value.ty.key, name)](self, value, st)
            if name in value.fields:
                return value.fields[name]
            return self.method(value, value.ty, name, st)
        if isinstance(value, Sym):
            ty = value.ty
            if isinstance(ty, T.Opt):
                self.safe(st, ty.is_some(value.t), f'not None (.{name})')
                return self.attribute(Sym(ty.of, ty.val(value.t)), name, st)
            if isinstance(ty, (T.Rec, T.Cls)):
                if (ty.key, name) in self.contracts.adaptors:
                    return self.contracts.adaptors[(ty.key, name)](self, value, st)
                if name in ty.fields:
                    return Sym(ty.fields[name], simplify(ty.get(value.t, name)))
                return self.method(value, ty, name, st)
        if isinstance(value, Builtin) and f'{value.name}.{name}' in lib.FUNCTIONS:
            return Builtin(f'{value.name}.{name}', lib.FUNCTIONS[f'{value.name}.{name}'])
        if isinstance(value, ModuleV):
            full = value.name + '.' + name
            if value.name.startswith(self.package):
                module = self.module(value.name)
                if module is not None and (name in module.defs or name in module.imports):
                    return self.global_value(module, name)
                if self.module(full) is not None:
                    return ModuleV(full)
            if full in lib.FUNCTIONS:
                return Builtin(full, lib.FUNCTIONS[full])
            if full in self.contracts.library:
                return Builtin(full, self.contracts.library[full])
            if any(known.startswith(full + '.') for known in self.contracts.library):
                return ModuleV(full)
            raise Unsupported(f'library {full}')
        if isinstance(value, ClassV):
            if isinstance(value.node, T.Enum):
                if name in value.node.members:
                    return EnumConst(value.node, name)
                raise Unsupported(f'{value.node}.{name}')
            attr = value.module.class_attr(value.node.name, name)
            if attr is not None:
                return self.eval(attr, State({}, [], value.module))
            method = value.module.method(value.node.name, name)
            if method is not None:
                bound = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in method.decorator_list)
                return FuncV(method, None, value.module, self_value=value if bound else None, cls=value.node.name)
            for item in value.node.body:
                if isinstance(item, ast.ClassDef) and item.name == name:
                    return ClassV(item, value.module)
        if isinstance(value, Mock):
            if name in value.attrs:
                return value.attrs[name]
            if name in value.methods:
                fn = value.methods[name]
                return Builtin(f'{value.kind}.{name}', lambda interp, st, *a, fn=fn, **kw: fn(*a, **kw))
        if isinstance(value, SuperV):
            owner = value.module.defs[value.cls]
            for base in owner.bases:
                method = value.module.method(base.id, name)
                if method is not None:
                    return self.class_method(value.module, base.id, name, method, value.self_value)
        fn = lib.method(self, value, name)
        if fn is not None:
            return Builtin(name, fn)
        raise Unsupported(f'attribute {name} of {value!r}'[:200])

    def class_method(self, module, cls_name, name, node, self_value):
        """Method of this very class (contracts of methods are those of any subclass)"""
        return FuncV(node, None, module, self_value=self_value, cls=cls_name)

    def bound(self, node, module, value, cls_name, st):
        """Method of the object"""
        kinds = [d.id if isinstance(d, ast.Name) else '?' for d in node.decorator_list]
        if kinds == ['staticmethod']:
            value = None
        elif kinds == ['classmethod']:
            value = ClassV(module.defs[cls_name], module)
        func = FuncV(node, None, module, self_value=value, cls=cls_name)
        if kinds == ['property']:
            return self.call_function(func, [], {}, st)
        if kinds not in ([], ['staticmethod'], ['classmethod']):
            raise Unsupported('decorator')
        return func

    def method(self, value, ty, name, st):
        contract = self.contracts.find(f'{ty.key}.{name}')
        if contract is not None:
            return Builtin(contract.name, lambda interp, st, *a, **kw: interp.apply(contract, value, a, kw, st))
        if isinstance(value, RecV) and name == 'replace' and isinstance(ty, T.Rec) and name not in ty.methods:
            pass
        home = self.contracts.classes.get((self.side, ty.key))
        if home is not None:
            module = self.module(home[0])
            own = st
            while own is not None and own.cls is None:
                own = own.parent
            for cls_name in [*([own.cls] if own is not None and own.module is module else []), *home[1:]]:
                node = module.method(cls_name, name)
                if node is not None:
                    self.inlined.add(f'{cls_name}.{name}')
                    return self.bound(node, module, value, cls_name, st)
                attr = module.class_attr(cls_name, name)
                if attr is not None:
                    return self.eval(attr, State({}, [], module))
        raise Unsupported(f'attribute {ty}.{name}')

    def apply(self, contract, receiver, args, kwargs, st):
        """Result of the call known by the callee's contract"""
        values = contract.arguments(self, args, kwargs, st)
        self.used.add(contract.name)
        terms = []
        if contract.receiver is not None:
            terms.append(self.term(receiver, contract.receiver))
        for (name, ty, _), value in zip(contract.params, values):
            terms.append(self.term(value, ty))
        for pre in contract.requires:
            self.safe(st, pre(self, receiver, values, st), f'precondition of {contract.name}')
        if self.measured is not None and self.measured[0] == contract.group:
            now = contract.variant(*terms)
            self.safe(st, conj(now >= 0, now < self.measured[1]), 'recursion ends')
        result = Sym(contract.returns, contract.function()(*terms))
        node = self.definition(contract)
        if node is not None:
            for (name, _, _), value in zip(contract.params, values):
                if is_iterator(value) and not once.used_once(node, name):
                    raise Unsupported(f'iterator given to {contract.name}')
            result.once = isinstance(contract.returns, T.ListOf) and once.gives_iterator(node, is_generator)
        return result

    def definition(self, contract):
        """What runs when the function is called"""
        if self.side != 'real' or contract.real is None or contract.real[2].startswith('def ') or '.' in contract.real[2]:
            return None
        module = self.module(contract.real[0])
        if module is None:
            return None
        node = module.method(*contract.real[1:]) if contract.real[1] else module.defs.get(contract.real[2])
        return node if isinstance(node, ast.FunctionDef) else None

    def apply_nested(self, contract, func, args, kwargs, st):
        """Call of a function defined in another one: what it sees of that are further arguments"""
        env = self.bind(func.node.args, func, args, kwargs, st)
        values = {name: env[name] if name in env else self.eval(ast.Name(name, ast.Load()), func.env)
                  for name, _, _ in contract.params}
        return self.apply(contract, None, [], values, st)

    def eval_Call(self, node, st):
        from pyvc import lib
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            cur = st
            while cur is not None and 'self' not in cur.env:
                cur = cur.parent
            owner = st
            while owner is not None and owner.cls is None:
                owner = owner.parent
            return SuperV(st.module, owner.cls, cur.env['self'])
        func = self.eval(node.func, st)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                value = self.eval(a.value, st)
                if isinstance(value, TupleV):
                    args.extend(value.items)
                elif isinstance(value, Seq) and all(isinstance(n, Y) and z3.is_true(n.g) for n in value.nodes):
                    args.extend(n.v for n in value.nodes)
                elif isinstance(value, Sym) and isinstance(value.ty, T.TupleOf):
                    args.extend(Sym(t, value.ty.item(value.t, i)) for i, t in enumerate(value.ty.of))
                else:
                    args.append(Starred(value))
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for kw in node.keywords:
            value = self.eval(kw.value, st)
            if kw.arg is None:
                if isinstance(value, Sym) and value.ty == store.Store:
                    kwargs['**'] = value
                    continue
                if not isinstance(value, DictV):
                    raise Unsupported('**')
                kwargs.update(value.items)
            else:
                kwargs[kw.arg] = value
        return self.call(func, args, kwargs, st)

    def call(self, func, args, kwargs, st):
        if isinstance(func, Cases):
            return self.combine([(g, self.call(f, args, kwargs, st)) for g, f in func.alts])
        if isinstance(func, Builtin):
            return func.fn(self, st, *args, **kwargs)
        if isinstance(func, FuncV):
            node = func.node
            if func.env is None and func.self_value is None and isinstance(node, ast.FunctionDef):
                summary = self.contracts.summaries.get((func.module.name, node.name))
                if summary is not None:
                    return summary(self, st, *args, **kwargs)
                short = func.module.name.split('.')[-1]
                contract = self.contracts.find(f'{short}.{node.name}') if func.cls is None else None
                if contract is not None:
                    return self.apply(contract, None, args, kwargs, st)
                self.inlined.add(node.name)
            if func.env is not None and isinstance(node, ast.FunctionDef):
                contract = self.contracts.nested.get((self.side, func.module.name, node.name))
                if contract is not None:
                    return self.apply_nested(contract, func, args, kwargs, st)
            if isinstance(func.self_value, ObjV) and isinstance(node, ast.FunctionDef) and func.cls is not None:
                summary = self.contracts.summaries.get((func.module.name, f'{func.cls}.{node.name}'))
                if summary is not None:
                    return summary(self, st, *args, **kwargs)
            if isinstance(func.self_value, ObjV) and isinstance(node, ast.FunctionDef) and is_generator(node) and \
                    getattr(func.self_value.cls, 'node', None) is not None and func.self_value.cls.node.name in self.made:
                return self.delayed(lambda: self.call_function(func, args, kwargs, st))
            return self.call_function(func, args, kwargs, st)
        if isinstance(func, ClassV):
            return self.construct(func, args, kwargs, st)
        if isinstance(func, ModuleV):
            from pyvc import lib
            if func.name in lib.FUNCTIONS:
                return lib.FUNCTIONS[func.name](self, st, *args, **kwargs)
        if isinstance(func, ObjV) or isinstance(func, Sym) and isinstance(func.ty, (T.Cls, T.Rec)):
            return self.call(self.attribute(func, '__call__', st), args, kwargs, st)
        if isinstance(func, Sym) and isinstance(func.ty, T.Opt):
            self.safe(st, func.ty.is_some(func.t), 'not None (call)')
            return self.call(Sym(func.ty.of, func.ty.val(func.t)), args, kwargs, st)
        raise Unsupported(f'call of {func!r}'[:200])

    def fill(self, obj, args, kwargs, st):
        """A new object"""
        module, name = obj.cls.module, obj.cls.node.name

        def call(method, args, kwargs):
            self.call_function(FuncV(method, None, module, self_value=obj, cls=name), args, kwargs, st)

        if module.method(name, '__init__') is not None:
            call(module.method(name, '__init__'), args, kwargs)
            return obj
        declared = self.dataclass_fields(obj.cls)
        given = {**{field: value for (field, _), value in zip(declared, args)}, **kwargs}
        for field, default in declared:
            if field not in given:
                if default is None:
                    raise Unsupported(f'{name}: no {field}')
                given[field] = self.default(default, obj.cls)
        for field, value in given.items():
            self.set_field(obj, field, value)
        if module.method(name, '__post_init__') is not None:
            call(module.method(name, '__post_init__'), [], {})
        return obj

    def construct(self, cls, args, kwargs, st):
        name = cls.node.name
        contract = self.contracts.find(f'{name}()')
        if contract is not None and name not in self.made:
            return self.apply(contract, None, args, kwargs, st)
        if name in self.contracts.makers and name not in self.made:
            return self.contracts.makers[name](self, st, cls, args, kwargs)
        if (self.side, name) in self.contracts.objects or name in self.made:
            return self.fill(ObjV(cls), args, kwargs, st)
        ty = self.contracts.records.get((self.side, name)) or self.contracts.records.get(name)
        if ty is None:
            raise Unsupported(f'constructing {name}')
        fields = {}
        declared = self.dataclass_fields(cls)
        for (field, _), value in zip(declared, args):
            fields[field] = value
        for field, value in kwargs.items():
            fields[field] = value
        for field, default in declared:
            if field not in fields:
                if default is None:
                    raise Unsupported(f'{name}: no {field}')
                fields[field] = self.default(default, cls)
        fields = {**self.contracts.constants.get((self.side, name), {}), **fields}
        for field in ty.fields:
            if field not in fields:
                raise Unsupported(f'{name}: no {field}')
        for value in fields.values():
            self.kept(value)
        return RecV(ty, {field: fields[field] for field in ty.fields})

    def default(self, node, cls):
        """Default value of a field"""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'field' and \
                not node.args and [kw.arg for kw in node.keywords] == ['default_factory']:
            return self.call(self.eval(node.keywords[0].value, State({}, [], cls.module)), [], {}, State({}, [], cls.module))
        return self.eval(node, State({}, [], cls.module))

    def dataclass_fields(self, cls):
        fields = []
        for base in cls.node.bases:
            if isinstance(base, ast.Name) and isinstance(cls.module.defs.get(base.id), ast.ClassDef):
                fields.extend(self.dataclass_fields(ClassV(cls.module.defs[base.id], cls.module)))
        for node in cls.node.body:
            if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                fields.append((node.target.id, node.value))
        return fields


def based(target):
    """Variable of x[key]..[key]"""
    while isinstance(target, ast.Subscript):
        target = target.value
    return target if isinstance(target, ast.Name) else None


def is_docstring(stmt):
    return isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant) and isinstance(stmt.value.value, str)


class Starred:
    def __init__(self, value):
        self.value = value


class SuperV:
    def __init__(self, module, cls, self_value):
        self.module = module
        self.cls = cls
        self.self_value = self_value
