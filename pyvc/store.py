"""Dictionaries that values are put into under keys that are not known: terms over put and get."""

import z3

from pyvc import types as T
from pyvc.values import DictV, Sym, Unsupported, ty_of

Store = T.Cls('Store')
Value = T.Cls('Value')      # of any type
NOTHING = z3.Const('store:empty', Store.sort())


def function(name, *types):
    return z3.Function(f'store:{name}', *[t.sort() for t in types])


def as_value(interp, v):
    if isinstance(v, DictV):
        return function('value', Store, Value)(as_store(interp, v))
    ty = ty_of(v)
    if ty is None:
        raise Unsupported('value of a dictionary')
    t = interp.term(v, ty)
    return t if ty == Value else function(f'value:{ty}', ty, Value)(t)


def as_type(value, ty):
    """The value, known to be of the type"""
    return function(f'as:{ty}', Value, ty)(value)


def as_store(interp, v):
    if isinstance(v, Sym) and v.ty == Store:
        return v.t
    if isinstance(v, Sym) and v.ty == Value:
        return as_type(v.t, Store)
    if not isinstance(v, DictV) or not all(isinstance(key, str) for key in v.items):
        raise Unsupported('dictionary')
    t = NOTHING
    for key, item in v.items.items():
        t = put(t, interp.term(key, T.Str), as_value(interp, item))
    return t


def put(store, key, value):
    return function('put', Store, T.Str, Value, Store)(store, key, value)


def changed(interp, v, keys, value):
    """The dictionary (of dictionaries) with the value put into it"""
    store = as_store(interp, v)
    key = interp.term(keys[0], T.Str)
    if len(keys) > 1:
        inner = Sym(Value, function('get', Store, T.Str, Value)(store, key))
        value = function('value', Store, Value)(changed(interp, inner, keys[1:], value))
    return put(store, key, value)
