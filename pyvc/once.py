"""Iterators give their items once: where a second use would find nothing left."""

import ast

ITERATORS = {'iter', 'map', 'filter', 'zip', 'enumerate', 'reversed', 'chain', 'product', 'islice', 'takewhile', 'dropwhile'}
FUNCTIONS = (ast.FunctionDef, ast.Lambda)
COMPREHENSIONS = (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)

_above = {}


def above(function):
    """Node -> its parent"""
    if id(function) not in _above:
        parents = {child: node for node in ast.walk(function) for child in ast.iter_child_nodes(node)}
        _above[id(function)] = (function, parents)
    return _above[id(function)][1]


def path(function, node):
    parents = above(function)
    result = [node]
    while result[-1] in parents:
        result.append(parents[result[-1]])
    return result[::-1]


def exclusive(function, one, other):
    """Just one of the two is reached"""
    first, second = path(function, one), path(function, other)
    if first[0] is not function or second[0] is not function:
        return False
    common = 0
    while common < min(len(first), len(second)) and first[common] is second[common]:
        common += 1
    if common == len(first) or common == len(second):
        return False
    node = first[common - 1]
    if isinstance(node, ast.IfExp):
        return {id(first[common]), id(second[common])} == {id(node.body), id(node.orelse)}
    if isinstance(node, ast.If):
        in_body = [any(part[common] is stmt for stmt in node.body) for part in (first, second)]
        in_else = [any(part[common] is stmt for stmt in node.orelse) for part in (first, second)]
        if in_body[0] and in_else[1] or in_body[1] and in_else[0]:
            return True
    # one is in a branch that is left for good
    for part in (first, second):
        for stmt in part[common:]:
            if isinstance(stmt, ast.If):
                for branch in (stmt.body, stmt.orelse):
                    if any(below in branch for below in part) and isinstance(branch[-1], (ast.Return, ast.Raise)):
                        return True
    return False


def repeated(function, load):
    """In a loop, or in a function of its own, that does not set the variable"""
    steps = path(function, load)
    for node, child in zip(steps[1:], steps[2:]):
        inner = None
        if isinstance(node, (ast.For, ast.While)) and child is not getattr(node, 'iter', None):
            inner = node
        elif isinstance(node, FUNCTIONS):
            inner = node
        elif isinstance(node, COMPREHENSIONS) and child is not node.generators[0] or \
                isinstance(node, ast.comprehension) and child is not node.iter:
            inner = node
        if inner is not None and not any(isinstance(n, ast.Name) and n.id == load.id and isinstance(n.ctx, ast.Store)
                                         for n in ast.walk(inner)):
            return True
    return False


def used_once(function, name):
    """The parameter is looked at once"""
    loads = [n for n in ast.walk(function) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
    return not any(repeated(function, load) for load in loads) and \
        all(exclusive(function, one, other) for i, one in enumerate(loads) for other in loads[:i])


def gives_iterator(function, is_generator):
    """Calls of it give an iterator"""
    if is_generator(function):
        return True
    returned = str(ast.unparse(function.returns)) if function.returns is not None else ''
    if returned.partition('[')[0].rpartition('.')[2] in ('Iterator', 'Generator', 'Iterable'):
        return True
    return any(isinstance(node, ast.Return) and node.value is not None and makes_iterator(node.value) for node in ast.walk(function))


def makes_iterator(value):
    if isinstance(value, ast.IfExp):
        return makes_iterator(value.body) or makes_iterator(value.orelse)
    if isinstance(value, ast.Call):
        name = value.func.id if isinstance(value.func, ast.Name) else getattr(value.func, 'attr', None)
        return name in ITERATORS
    return isinstance(value, ast.GeneratorExp)
