"""Contracts: what a function is given and which specification function its result equals to."""

import z3

from pyvc.values import Unsupported

REQUIRED = object()


class Contract:
    def __init__(self, name, *, real, spec, params, returns, receiver=None, requires=(), serves=(), note='',
                 callable_as=True, setup=None, ensures=(), each=(),
                 variant=None, group=None, invariants=(), unfolds=(), given=None, view=None, state=(), raises=None, made=(),
                 shown_by=()):
        self.name = name                # Class.method | module.function
        self.real = real                # (module, class or None, function) in /repo
        self.spec = spec                # the same in the specification
        self.params = [(p + (REQUIRED,))[:3] for p in params]      # (name, type[, default])
        self.returns = returns
        self.receiver = receiver
        self.requires = list(requires)  # predicates of (interp, receiver, values, st)
        self.serves = list(serves)      # properties
        self.note = note
        self.callable_as = callable_as
        self.setup = setup
        self.ensures = list(ensures)    # further facts of (result term, argument terms), proved and known to callers
        self.each = list(each)          # the same for every item of the result
        self.variant = variant          # function of (receiver term, *argument terms) that gets smaller in recursive calls
        self.group = group or name      # functions calling each other, with comparable variants
        self.invariants = list(invariants)  # of loops, in their order: functions of (variables, position)
        self.unfolds = list(unfolds)    # specification functions (contracts) whose definitions are used
        self.given = given              # arguments of the call: function of the parameters -> (args, kwargs)
        self.view = view                # function of (interp, result): what of the result matters
        self.state = list(state)        # cells of the heap (of objects passed to the function) that are results, too
        self.raises = raises            # errors of malformed input (None: of no interest, except where all are)
        self.made = set(made)           # classes whose objects are made as their constructors say
        self.shown_by = list(shown_by)  # contracts of the same, for objects made by their constructors
        self._function = None

    def function(self):
        if self._function is None:
            sorts = [self.receiver.sort()] if self.receiver is not None else []
            sorts += [ty.sort() for _, ty, _ in self.params]
            self._function = z3.Function(self.name, *sorts, self.returns.sort()) if sorts else \
                (lambda c=z3.Const(self.name, self.returns.sort()): c)
        return self._function

    def arguments(self, interp, args, kwargs, st):
        values = {}
        if len(args) > len(self.params):
            raise Unsupported(f'{self.name}: too many arguments')
        for (name, _, _), value in zip(self.params, args):
            values[name] = value
        for name, value in kwargs.items():
            if name not in [n for n, _, _ in self.params]:
                raise Unsupported(f'{self.name}: argument {name}')
            values[name] = value
        res = []
        for name, _, default in self.params:
            if name not in values:
                if default is REQUIRED:
                    raise Unsupported(f'{self.name}: no argument {name}')
                values[name] = default
            res.append(values[name])
        return res


class Contracts:
    def __init__(self):
        self.by_name = {}
        self.builtins = {}
        self.nested = {}        # (side, module, function) -> contract of a function defined in another one
        self.enums = {}
        self.iterations = {}
        self.truths = {}
        self.adaptors = {}      # (type, attribute) -> function(interp, value, st)
        self.classes = {}       # (side, type) -> (module, class...)
        self.records = {}       # class name or (side, class name) -> type
        self.constants = {}     # (side, class name) -> fields of its records that are always the same
        self.objects = set()    # (side, class name): objects filled after they are made
        self.makers = {}        # class name -> function(interp, st, class, args, kwargs): objects known by what they are made of
        self.library = {}       # functions of the library, by their full names
        self.changing = []      # types of records whose fields are changed, known by one name only
        self.empty = {}         # type -> term of its empty value
        self.summaries = {}     # (module, function) -> function(interp, st, arguments): verified case by case
        self.regexes = {}       # (pattern, method) -> contract
        self.templates = []     # (expression of x: text of a regular expression, contract of searching a text for it)
        self.never_empty = set()    # optional fields that are not empty where present
        self.field_facts = []   # (class, field, function(value term) -> formula): invariants of the data
        self.predicates = []    # Every: properties of all items of lists
        self.item_facts = []    # (contract, function(item term, argument terms) -> formula)

    def axioms(self):
        """Instances of the invariants for terms that occur"""
        fields = {}
        for cls, name, fact in self.field_facts:
            cls.get(z3.Const('any', cls.sort()), name)
            fields.setdefault(cls._functions[name].get_id(), []).append(fact)
        items = {}
        for contract, fact in self.item_facts:
            items.setdefault(contract.function().get_id(), []).append(fact)

        results = {}
        for contract in self.by_name.values():
            for fact in contract.each:
                items.setdefault(contract.function().get_id(), []).append(fact)
            for fact in contract.ensures:
                results.setdefault(contract.function().get_id(), []).append(fact)

        def instantiate(formulas, done):
            new = []
            seen = set()
            stack = list(formulas)
            while stack:
                cur = stack.pop()
                if cur.get_id() in seen or not z3.is_app(cur):
                    continue
                seen.add(cur.get_id())
                stack.extend(cur.children())
                for fact in fields.get(cur.decl().get_id(), ()):
                    mark = ('fact', cur.get_id(), id(fact))
                    if mark not in done:
                        done.add(mark)
                        new.append(fact(cur))
                for fact in results.get(cur.decl().get_id(), ()):
                    mark = ('fact', cur.get_id(), id(fact))
                    if mark not in done:
                        done.add(mark)
                        new.append(fact(cur, cur.children()))
                if cur.decl().name().startswith('item:') and z3.is_app(cur.arg(0)):
                    source = cur.arg(0)
                    for fact in items.get(source.decl().get_id(), ()):
                        mark = ('fact', cur.get_id(), id(fact))
                        if mark not in done:
                            done.add(mark)
                            at = cur.arg(1)
                            new.append(z3.Implies(z3.And(at >= 0, at < z3.Length(source)),
                                                  fact(cur, source.children())))
            return new
        return instantiate

    def add(self, contract):
        for side in ('real', 'spec'):
            where = getattr(contract, side)
            if where and '.' in where[2] and not where[2].startswith('def '):
                self.nested[(side, where[0], where[2].split('.')[-1])] = contract
        self.by_name[contract.name] = contract
        return contract

    def find(self, name):
        contract = self.by_name.get(name)
        return contract if contract is not None and contract.callable_as else None
