"""Values the symbolic executor works with. Plain Python ints, strings, bools and None stand for themselves."""

import z3

from pyvc import types as T


class Unsupported(Exception):
    """The construct is outside of the verifier's reach (never a violation)"""


class Sym:
    """Symbolic value of known type"""
    once = False    # an iterator
    loads = ()

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return f'Sym({self.ty}: {self.t})'


class RecV:
    """Record whose fields are values"""

    def __init__(self, ty, fields):
        self.ty = ty
        self.fields = fields

    def __repr__(self):
        return f'{self.ty}({self.fields})'


class TupleV:
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f'TupleV{self.items}'


class SetV:
    """Set literal or comprehension"""

    def __init__(self, seq):
        self.seq = seq


class DictV:
    """Dictionary with known keys"""

    def __init__(self, items):
        self.items = items


class Cases:
    """One of several values of different shape: [(condition, value)], conditions exclusive and exhaustive"""

    def __init__(self, alts):
        self.alts = alts
        self.truth = None       # whether it is true, where that is known from how it was made

    def __repr__(self):
        return f'Cases{self.alts}'


class Y:
    """Sequence item present under a condition"""

    def __init__(self, g, v):
        self.g = g
        self.v = v

    def __repr__(self):
        return f'Y({self.g}: {self.v})'


class F:
    """Concatenation, for k = 0..n-1, of the items of the body; an iteration where `stop` holds is the last one"""

    def __init__(self, g, n, k, body, stop=None, src=None):
        self.g = g
        self.n = n
        self.k = k
        self.body = body
        self.stop = z3.BoolVal(False) if stop is None else stop
        self.src = src

    def __repr__(self):
        return f'F({self.g}: {self.k}<{self.n}: {self.body}; stop {self.stop})'


class Z:
    """Placeholder of the list's value at the start of a loop's iteration"""

    def __init__(self, name):
        self.name = name


class Seq:
    """List, tuple or generator given by its items"""
    loads = ()

    def __init__(self, nodes, kind='list'):
        self.nodes = nodes
        self.kind = kind

    def __repr__(self):
        return f'Seq{self.nodes}'


class FuncV:
    def __init__(self, node, env, module, self_value=None, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.self_value = self_value
        self.cls = cls


class ClassV:
    def __init__(self, node, module):
        self.node = node
        self.module = module


class ObjV:
    """Object that is changed: its fields are cells of the heap; other attributes are those of the base"""

    def __init__(self, cls, base=None):
        self.cls = cls
        self.base = base
        self.cells = {}


class ModuleV:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class Undefined:
    """No value; sticky: some value that is not known"""

    def __init__(self, sticky=False):
        self.sticky = sticky

    def __repr__(self):
        return 'Undefined'


class PlaceV:
    """Placeholder of a value that cannot be a term"""

    def __init__(self, name):
        self.name = name


class Mock:
    """Object of a library (regular expression, match...) with behaviour given by a contract"""

    def __init__(self, kind, attrs=None, methods=None, truthy=None):
        self.kind = kind
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.truthy = truthy


class EnumConst:
    def __init__(self, ty, member):
        self.ty = ty
        self.member = member

    def __repr__(self):
        return f'{self.ty}.{self.member}'


def is_const(v):
    return v is None or isinstance(v, (bool, int, str, float))


def ty_of(v):
    if isinstance(v, bool):
        return T.Bool
    if isinstance(v, int):
        return T.Int
    if isinstance(v, float):
        return T.Real
    if isinstance(v, str):
        return T.Str
    if isinstance(v, (Sym, RecV, EnumConst)):
        return v.ty
    if isinstance(v, TupleV):
        kinds = [ty_of(i) for i in v.items]
        return T.TupleOf(*kinds) if all(kinds) else None
    if isinstance(v, Seq):
        for item in iter_items(v.nodes):
            kind = ty_of(item)
            if kind:
                return T.ListOf(kind)
    if isinstance(v, Cases):
        kinds = {ty_of(x) for _, x in v.alts if x is not None}
        if len(kinds) == 1:
            kind = kinds.pop()
            if kind is None:
                return None
            if any(x is None for _, x in v.alts):
                return kind if isinstance(kind, T.Opt) else T.Opt(kind)
            return kind
    return None


def iter_items(nodes):
    for node in nodes:
        if isinstance(node, Y):
            yield node.v
        elif isinstance(node, F):
            yield from iter_items(node.body)
