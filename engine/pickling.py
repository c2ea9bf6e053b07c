"""Contract of cloudpickle (dump, dumps, load, loads): the loaded object graph is isomorphic to the dumped one, following the pickle
protocol of every object (__reduce_ex__, __getstate__, __setstate__); functions, classes and modules stand for themselves. Bytes
written to files are real (a token naming the dumped graph)."""
import copyreg
import pickle
import types
import numpy as np
from . import sym
from .sym import SArr, VList, S

TABLE = []
ATOMIC = (type(None), bool, int, float, complex, str, bytes, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, S, np.generic,
          type(Ellipsis), range, np.dtype, np.ufunc, slice)


def clone(x, memo):
    if isinstance(x, ATOMIC) or getattr(type(x), '_vc_opaque', False):
        return x
    if id(x) in memo:
        return memo[id(x)][0]

    def put(y):
        memo[id(x)] = (y, x)
        return y
    if isinstance(x, SArr) or type(x) is np.ndarray:
        y = put(x.copy())
        if type(y) is np.ndarray and y.dtype == object:
            for i in np.ndindex(*y.shape):
                y[i] = clone(y[i], memo)
        return y
    if isinstance(x, VList):
        y = put(VList())
        if x.sym is not None:
            y.sym = x.sym
        else:
            list.extend(y, [clone(v, memo) for v in list.__iter__(x)])
        return y
    t = type(x)
    if t is list:
        y = put([])
        y.extend(clone(v, memo) for v in x)
        return y
    if t is tuple:
        return put(tuple(clone(v, memo) for v in x))
    if t in (set, frozenset):
        return put(t(clone(v, memo) for v in x))
    if t is dict:
        y = put({})
        for k, v in x.items():
            y[clone(k, memo)] = clone(v, memo)
        return y
    if t is types.MethodType:
        return types.MethodType(x.__func__, clone(x.__self__, memo))
    if (t.__module__ or '').split('.')[0] in ('sympy', 'engine', 'scipy', 'io', '_io'):
        return x
    red = copyreg.dispatch_table.get(t)
    rv = red(x) if red else x.__reduce_ex__(2)
    if isinstance(rv, str):
        return x
    fn, args, state, items, pairs = (tuple(rv) + (None,) * 5)[:5]
    y = put(fn(*[clone(a, memo) for a in args]))
    if state is not None:
        state = clone(state, memo)
        if hasattr(y, '__setstate__'):
            y.__setstate__(state)
        else:
            slots = None
            if isinstance(state, tuple) and len(state) == 2:
                state, slots = state
            if state:
                y.__dict__.update(state)
            for k, v in (slots or {}).items():
                setattr(y, k, v)
    for v in items or ():
        y.append(clone(v, memo))
    for k, v in pairs or ():
        y[clone(k, memo)] = clone(v, memo)
    return y


class Token:
    def __init__(self, k):
        self.k = k


def dumps(obj, protocol=None, **kw):
    TABLE.append(clone(obj, {}))
    return pickle.dumps(Token(len(TABLE) - 1))


def dump(obj, file, protocol=None, **kw):
    file.write(dumps(obj))


def _out(x):
    return clone(TABLE[x.k], {}) if isinstance(x, Token) else x


def loads(b, **kw):
    return _out(pickle.loads(b))


def load(file, **kw):
    return _out(pickle.load(file))
