"""What a function may change beside the values it makes itself (its frame)."""

import ast
import os

MUTATORS = {'append', 'extend', 'add', 'update', 'pop', 'insert', 'remove', 'clear', 'sort', 'reverse', 'discard',
            'setdefault', 'popitem', 'appendleft', 'popleft', 'difference_update', 'intersection_update', 'send', 'close',
            'write', 'seek', 'subtract', 'rotate', '__setattr__', '__setitem__'}
HEAP = {'heappush', 'heappop', 'heappushpop', 'heapreplace', 'heapify', 'shuffle', 'insort', 'setattr', 'delattr', 'next'}
MAKERS = {'list', 'set', 'dict', 'sorted', 'tuple', 'str', 'int', 'len', 'range', 'enumerate', 'zip', 'iter', 'map', 'filter',
          'reversed', 'frozenset', 'bool', 'min', 'max', 'sum', 'any', 'all', 'defaultdict', 'deque', 'copy', 'deepcopy', 'abs',
          'float'}
STATEFUL = {'lru_cache', 'cache', 'cached_property'}
_writes = {}


def writes(node):
    """Descriptions of what may be changed from outside the function"""
    if node not in _writes:
        _writes[node] = sorted(set(Frame(node, None).found()))
    return _writes[node]


class Frame:
    def __init__(self, node, outer):
        self.node = node
        self.outer = outer
        a = node.args
        self.params = {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, *filter(None, (a.vararg, a.kwarg))]}
        self.own = []
        self.inner = []
        self.values = {}
        self.declared = set()
        body = node.body if isinstance(node.body, list) else [node.body]
        stack = [*body]
        while stack:
            cur = stack.pop()
            self.own.append(cur)
            if isinstance(cur, (ast.FunctionDef, ast.Lambda)):
                self.inner.append(Frame(cur, self))
                if isinstance(cur, ast.FunctionDef):
                    self.values.setdefault(cur.name, []).append(cur)
                stack.extend([*cur.args.defaults, *[d for d in cur.args.kw_defaults if d]])
                continue
            stack.extend(ast.iter_child_nodes(cur))
        for cur in self.own:
            if isinstance(cur, ast.Assign):
                for target in cur.targets:
                    self.bind(target, cur.value)
            elif isinstance(cur, ast.AnnAssign) and cur.value is not None:
                self.bind(cur.target, cur.value)
            elif isinstance(cur, ast.NamedExpr):
                self.bind(cur.target, cur.value)
            elif isinstance(cur, (ast.For, ast.comprehension)):
                self.bind(cur.target, None)
            elif isinstance(cur, ast.withitem) and cur.optional_vars is not None:
                self.bind(cur.optional_vars, None)
            elif isinstance(cur, (ast.Global, ast.Nonlocal)):
                self.declared.update(cur.names)

    def bind(self, target, value):
        if isinstance(target, ast.Name):
            self.values.setdefault(target.id, []).append(value)
        elif isinstance(target, ast.Starred):
            self.bind(target.value, ast.List([], ast.Load()))
        elif isinstance(target, (ast.Tuple, ast.List)):
            parts = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts) \
                else [None] * len(target.elts)
            for part, given in zip(target.elts, parts):
                self.bind(part, given)

    def is_new(self, name):
        """Everything the name may stand for was made here"""
        if name in self.params:
            return False
        if name in self.values and name not in self.declared:
            return all(made(value) for value in self.values[name])
        if self.outer is not None:
            return self.outer.is_new(name)
        return False

    def found(self):
        for decorator in getattr(self.node, 'decorator_list', ()):
            names = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(decorator)
                     if isinstance(n, (ast.Name, ast.Attribute))}
            if names & STATEFUL:
                yield 'remembered results'
        for cur in self.own:
            if isinstance(cur, ast.Global):
                yield from (f'global {name}' for name in cur.names)
            elif isinstance(cur, (ast.Attribute, ast.Subscript)) and isinstance(cur.ctx, (ast.Store, ast.Del)):
                yield from self.changed(cur.value)
            elif isinstance(cur, ast.Call) and isinstance(cur.func, ast.Attribute) and cur.func.attr in MUTATORS:
                yield from self.changed(cur.func.value)
            elif isinstance(cur, ast.Call) and cur.args and \
                    (cur.func.id if isinstance(cur.func, ast.Name) else getattr(cur.func, 'attr', '')) in HEAP:
                yield from self.changed(cur.args[0])
            elif isinstance(cur, ast.AugAssign) and isinstance(cur.target, ast.Name) and not isinstance(cur.value, ast.Constant):
                if not self.is_new(cur.target.id) and not self.number(cur.value):
                    yield cur.target.id
        for frame in self.inner:
            yield from frame.found()

    def number(self, value):
        return isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id in ('len', 'int', 'min', 'max')

    def changed(self, target):
        if isinstance(target, ast.Name):
            if not self.is_new(target.id):
                yield target.id
        elif isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name) and self.is_new(target.value.id) and \
                all(made_of_new(value) for value in self.values.get(target.value.id, [None])):
            return
        elif not made(target):
            yield ast.unparse(target)


def made_of_new(value):
    """A list whose items were made with it"""
    if isinstance(value, ast.ListComp):
        return made(value.elt) and not isinstance(value.elt, ast.Constant)
    return isinstance(value, ast.List) and all(made(item) for item in value.elts)


def made(value):
    if value is None:
        return False
    if isinstance(value, (ast.List, ast.Set, ast.Dict, ast.Tuple, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp,
                          ast.Constant, ast.BinOp, ast.JoinedStr, ast.Compare, ast.UnaryOp, ast.FunctionDef, ast.Lambda)):
        return True
    if isinstance(value, ast.IfExp):
        return made(value.body) and made(value.orelse)
    if isinstance(value, ast.BoolOp):
        return all(map(made, value.values))
    if isinstance(value, ast.Subscript):
        return isinstance(value.slice, ast.Slice)
    if isinstance(value, ast.Call):
        name = value.func.id if isinstance(value.func, ast.Name) else getattr(value.func, 'attr', '')
        return name in MAKERS or name[:1].isupper()
    return False


IMPLICIT = {'__call__', '__contains__', '__len__', '__iter__', '__next__', '__eq__', '__ne__', '__hash__', '__getitem__', '__bool__',
            '__lt__', '__str__', '__repr__', '__getattr__', '__getattribute__', '__enter__', '__exit__', '__add__', '__format__'}
OUTSIDE = {'random', 'time', 'datetime', 'os', 'sys', 'id', 'hash', 'globals', 'locals', 'vars', 'open', 'input', 'threading',
           'weakref', 'gc', 'uuid', 'secrets', 'socket', 'subprocess', 'exec', 'eval', '__import__'}


class Program:
    """Functions of a package and what they may call, by name"""

    def __init__(self, folder):
        self.folder = folder
        self.by_name = {}
        self.classes = {}
        self.filling = set()        # dictionaries that get new keys when they are read
        for path, _, files in sorted(os.walk(folder)):
            for name in sorted(files):
                if name.endswith('.py'):
                    self.read(os.path.join(path, name))

    def read(self, path):
        with open(path, encoding='utf-8') as file:
            tree = ast.parse(file.read())
        place = os.path.relpath(path, self.folder)
        for node in ast.walk(tree):
            if isinstance(node, (ast.Assign, ast.AnnAssign)) and node.value is not None and any(
                    isinstance(n, ast.Name) and n.id in ('defaultdict', 'Counter') for n in ast.walk(node.value)):
                for target in node.targets if isinstance(node, ast.Assign) else [node.target]:
                    self.filling.add(target.attr if isinstance(target, ast.Attribute) else getattr(target, 'id', ''))
        for node in tree.body:
            if isinstance(node, ast.FunctionDef):
                self.by_name.setdefault(node.name, []).append((place, None, node))
            elif isinstance(node, ast.ClassDef):
                self.classes.setdefault(node.name, []).append((place, node))
                for inner in node.body:
                    if isinstance(inner, ast.FunctionDef):
                        self.by_name.setdefault(inner.name, []).append((place, node.name, inner))

    def reachable(self, roots):
        """All functions that may run when those named (class, function) do"""
        queue = [found for found in self.all() if (found[1], found[2].name) in roots]
        queue += [found for found in self.all() if found[2].name in IMPLICIT]
        seen = []
        while queue:
            found = queue.pop()
            if any(found[2] is other[2] for other in seen):
                continue
            seen.append(found)
            queue.extend(self.used(found[2]))
        return sorted(seen, key=lambda found: (found[0], found[2].lineno))

    def all(self):
        return [found for group in self.by_name.values() for found in group]

    def used(self, function):
        frame = Frame(function, None)
        for cur in code(function):
            if isinstance(cur, ast.Name):
                for found in self.by_name.get(cur.id, ()):
                    if found[1] is None:
                        yield found
                for _ in self.classes.get(cur.id, ()):
                    yield from self.makers(cur.id)
            elif isinstance(cur, ast.Attribute) and isinstance(cur.ctx, ast.Load):
                if cur.attr in MUTATORS and isinstance(cur.value, ast.Name) and frame.is_new(cur.value.id):
                    continue
                yield from self.by_name.get(cur.attr, ())
                for _ in self.classes.get(cur.attr, ()):
                    yield from self.makers(cur.attr)

    def makers(self, cls):
        for found in self.all():
            if found[1] == cls and found[2].name in ('__init__', '__post_init__', '__new__'):
                yield found

    def filled(self, function):
        for cur in code(function):
            if isinstance(cur, ast.Subscript) and isinstance(cur.ctx, ast.Load) and isinstance(cur.value, ast.Attribute) and \
                    cur.value.attr in self.filling and not key_known(function, cur):
                yield ast.unparse(cur)

    def reads_outside(self, function):
        for cur in code(function):
            if isinstance(cur, ast.Name) and isinstance(cur.ctx, ast.Load) and cur.id in OUTSIDE:
                yield cur.id


def key_known(function, subscript):
    """The key was found in the dictionary on the way here"""
    for cur in code(function):
        if not isinstance(cur, ast.If):
            continue
        tests = cur.test.values if isinstance(cur.test, ast.BoolOp) else [cur.test]
        for test in tests:
            if not isinstance(test, ast.Compare) or len(test.ops) != 1 or ast.unparse(test.left) != ast.unparse(subscript.slice) or \
                    ast.unparse(test.comparators[0]) != ast.unparse(subscript.value):
                continue
            alone = len(tests) == 1
            if isinstance(test.ops[0], ast.NotIn) and (alone or isinstance(cur.test.op, ast.Or)) and \
                    cur in function.body and cur.end_lineno < subscript.lineno and \
                    isinstance(cur.body[-1], (ast.Return, ast.Raise)):
                return True
            if isinstance(test.ops[0], ast.In) and (alone or isinstance(cur.test.op, ast.And)) and \
                    any(n is subscript for part in cur.body for n in ast.walk(part)):
                return True
    return False


def code(function):
    """All nodes but annotations"""
    stack = [*function.body, *function.args.defaults, *[d for d in function.args.kw_defaults if d], *function.decorator_list]
    while stack:
        cur = stack.pop()
        yield cur
        if isinstance(cur, ast.FunctionDef):
            stack.extend([*cur.body, *cur.args.defaults, *[d for d in cur.args.kw_defaults if d]])
        elif isinstance(cur, ast.AnnAssign):
            stack.extend([cur.target, *([cur.value] if cur.value is not None else [])])
        else:
            stack.extend(ast.iter_child_nodes(cur))


def frames(folder, roots):
    """(function, place, what else than its own values it changes, what it reads beside its arguments)"""
    program = Program(folder)
    for place, cls, node in program.reachable(roots):
        changed = [*writes(node), *program.filled(node)]
        if node.name in ('__init__', '__post_init__'):
            changed = [what for what in changed if what != 'self']
        yield f'{cls}.{node.name}' if cls else node.name, f'{place}:{node.lineno}', changed, \
            sorted(set(program.reads_outside(node)))
