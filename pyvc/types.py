"""Types of symbolic values and the SMT sorts they are represented by."""

import z3

_cache = {}


class Ty:
    def sort(self):
        if self.key not in _cache:
            _cache[self.key] = self.make()
        return _cache[self.key]

    def __eq__(self, other):
        return isinstance(other, Ty) and self.key == other.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class Prim(Ty):
    def __init__(self, key, make):
        self.key = key
        self.make = make


Int = Prim('Int', z3.IntSort)
Bool = Prim('Bool', z3.BoolSort)
Str = Prim('Str', z3.StringSort)
Real = Prim('Real', z3.RealSort)


class Enum(Ty):
    def __init__(self, name, members):
        self.key = name
        self.members = members

    def make(self):
        sort, consts = z3.EnumSort(self.key, [f'{self.key}.{m}' for m in self.members])
        self._consts = dict(zip(self.members, consts))
        return sort

    def const(self, member):
        self.sort()
        return self._consts[member]


class Opt(Ty):
    def __init__(self, of):
        self.of = of
        self.key = f'Opt[{of.key}]'

    def make(self):
        d = z3.Datatype(self.key)
        d.declare(f'none:{self.of}')
        d.declare(f'some:{self.of}', (f'val:{self.of}', self.of.sort()))
        return d.create()

    def none(self):
        return self.sort().constructor(0)()

    def some(self, t):
        return self.sort().constructor(1)(t)

    def is_some(self, t):
        return self.sort().recognizer(1)(t)

    def val(self, t):
        return self.sort().accessor(1, 0)(t)


class ListOf(Ty):
    def __init__(self, of):
        self.of = of
        self.key = f'List[{of.key}]'

    def make(self):
        return z3.SeqSort(self.of.sort())


class SetOf(Ty):
    def __init__(self, of):
        self.of = of
        self.key = f'Set[{of.key}]'

    def make(self):
        return z3.ArraySort(self.of.sort(), z3.BoolSort())


class TupleOf(Ty):
    def __init__(self, *of):
        self.of = of
        self.key = f'Tuple[{",".join(t.key for t in of)}]'

    def make(self):
        d = z3.Datatype(self.key)
        d.declare(f'tuple:{self.key}', *[(f'item{i}:{self.key}', t.sort()) for i, t in enumerate(self.of)])
        return d.create()

    def item(self, t, i):
        return self.sort().accessor(0, i)(t)


class Union(Ty):
    """One of several types, told apart by isinstance"""

    def __init__(self, *of):
        self.of = of
        self.key = f'Union[{",".join(t.key for t in of)}]'

    def make(self):
        d = z3.Datatype(self.key)
        for i, t in enumerate(self.of):
            d.declare(f'case{i}:{self.key}', (f'as{i}:{self.key}', t.sort()))
        return d.create()

    def wrap(self, i, t):
        return self.sort().constructor(i)(t)

    def is_case(self, i, t):
        return self.sort().recognizer(i)(t)

    def case(self, i, t):
        return self.sort().accessor(i, 0)(t)


class Rec(Ty):
    """Value-like class: equal if all fields are (dataclass)"""

    def __init__(self, name, fields):
        self.key = name
        self.fields = fields        # name -> Ty
        self.methods = {}

    def make(self):
        d = z3.Datatype(self.key)
        d.declare(self.key, *[(f'{self.key}.{name}', t.sort()) for name, t in self.fields.items()])
        return d.create()

    def get(self, t, name):
        return self.sort().accessor(0, list(self.fields).index(name))(t)

    def construct(self, *terms):
        return self.sort().constructor(0)(*terms)


class Cls(Ty):
    """Object known by its (never changing) fields only"""

    def __init__(self, name, fields=None):
        self.key = name
        self.fields = fields or {}
        self._functions = {}

    def make(self):
        return z3.DeclareSort(self.key)

    def get(self, t, name):
        if name not in self._functions:
            self._functions[name] = z3.Function(f'{self.key}.{name}', self.sort(), self.fields[name].sort())
        return self._functions[name](t)


def nth(of, t, k):
    """Item of a sequence term"""
    if isinstance(k, int):
        k = z3.IntVal(k)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        return nth(of, t.arg(0), z3.simplify(t.arg(1) + k))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT and z3.is_int_value(k) and k.as_long() == 0:
        return t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_int_value(k) and k.as_long() >= 0:
        first = t.arg(0)
        if z3.is_app(first) and first.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            if k.as_long() == 0:
                return first.arg(0)
            rest = t.children()[1:]
            return nth(of, rest[0] if len(rest) == 1 else z3.Concat(*rest), k.as_long() - 1)
    return z3.Function(f'item:{of.key}', t.sort(), z3.IntSort(), of.sort())(t, k)
