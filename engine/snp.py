"""Contracts (assumed) for the parts of numpy/scipy used by the code, as executable definitions over symbolic values.
With concrete arguments every call is delegated to the real library."""
import contextlib
import math
import types
import numpy as np
from . import terms as T
from .terms import P, ZERO, ONE, num, to_p
from . import sym
from .sym import (S, SArr, SSeq, VList, Unsupported, as_sarr, mkS, a_map, a_sum, a_max, a_prod, a_squeeze, a_reshape,
                  num_ok, dt_of, np_dt, dim_p, fresh, is_sym, as_seq, seq_of, exists)

USED = set()
NANABLE = set()     # names of uninterpreted data arrays that may contain missing values


def has_sym(x, depth=0):
    if isinstance(x, (S, SArr, SSeq)):
        return True
    if isinstance(x, VList) and x.is_sym():
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in list.__iter__(x)) if isinstance(x, list) else any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, dict) and depth < 4:
        return any(has_sym(e, depth + 1) for e in x.values())
    return False


def plain(x):
    """VList -> list recursively, for real numpy"""
    if isinstance(x, VList):
        return [plain(e) for e in list.__iter__(x)]
    if isinstance(x, tuple):
        return tuple(plain(e) for e in x)
    return x


def dims_of(shape):
    if num_ok(shape):
        return (dim_p(shape),)
    if isinstance(shape, SArr):
        n = shape.dims[0].const()
        return tuple(shape.at(num(k)) for k in range(int(n)))
    return tuple(dim_p(s) for s in shape)


def _dt(dtype, default='f'):
    return default if dtype is None else np_dt(dtype)


# ---------------------------------------------------------------------------------------------------- creation
def zeros(shape, dtype=None):
    return SArr.make(dims_of(shape), lambda *i: ZERO, _dt(dtype))


def ones(shape, dtype=None):
    return SArr.make(dims_of(shape), lambda *i: ONE, _dt(dtype))


_empties = [0]


def empty(shape, dtype=None):
    _empties[0] += 1
    nm = 'empty%d' % _empties[0]
    return SArr.make(dims_of(shape), lambda *i: T.app(nm, *i), _dt(dtype))


def full(shape, v, dtype=None):
    p = to_p(v)
    return SArr.make(dims_of(shape), lambda *i: p, dt_of(v) if dtype is None else np_dt(dtype))


def zeros_like(a, dtype=None):
    a = as_sarr(a)
    return SArr.make(a.dims, lambda *i: ZERO, a.dt if dtype is None else np_dt(dtype))


def ones_like(a, dtype=None):
    a = as_sarr(a)
    return SArr.make(a.dims, lambda *i: ONE, a.dt if dtype is None else np_dt(dtype))


def full_like(a, v, dtype=None):
    a = as_sarr(a)
    p = to_p(v)
    return SArr.make(a.dims, lambda *i: p, a.dt if dtype is None else np_dt(dtype))


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    if ndmin:
        raise Unsupported('ndmin')
    if not copy and isinstance(x, SArr) and (dtype is None or np_dt(dtype) == x.dt):
        return x
    a = as_sarr(x)
    r = a.copy()
    if dtype is not None:
        r.buf.dt = np_dt(dtype)
    return r


def asarray(x, dtype=None, order=None):
    if isinstance(x, SArr) and (dtype is None or np_dt(dtype) == x.dt):
        return x
    return array(x, dtype)


def arange(*a, **kw):
    a = list(a)
    if len(a) == 1:
        st, en, sp = 0, a[0], 1
    elif len(a) == 2:
        st, en, sp = a[0], a[1], 1
    else:
        st, en, sp = a
    if to_p(sp) != ONE:
        raise Unsupported('arange step')
    dt = 'f' if 'f' in (dt_of(st), dt_of(en)) else 'i'
    n = to_p(en) - to_p(st)
    if dt == 'f':
        if not n.is_int():
            n = T.app('ceil', n, sort='int', sign='nonneg')
    else:
        if sym.CTX.fork(T.lt0(n)):
            n = ZERO
    s = to_p(st)
    return SArr.make((n,), lambda i: s + i, dt)


def linspace(a, b, n=50):
    pa, pb, pn = to_p(a), to_p(b), to_p(n)
    if sym.CTX.fork(T.eq0(pn - 1)):
        return SArr.make((ONE,), lambda i: pa)
    sym.CTX.div(pn - 1)
    return SArr.make((pn,), lambda i: pa + i * ((pb - pa) / (pn - 1)))


def meshgrid(*arrs, **kw):
    indexing = kw.get('indexing', 'xy')
    A = [as_sarr(a) for a in arrs]
    A = [a if a.dims else SArr.make((ONE,), (lambda a: lambda i: a.at())(a), a.dt) for a in A]
    A = [a if len(a.dims) == 1 else a_reshape(a, (-1,)) for a in A]
    n = len(A)
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    dims = tuple(A[order[k]].dims[0] for k in range(n))
    out = VList()
    for k, a in enumerate(A):
        ax = order.index(k)
        c = a.copy()
        out.append(SArr.make(dims, (lambda c, ax: lambda *i: c.at(i[ax]))(c, ax), a.dt))
    return out


# --------------------------------------------------------------------------------------------------- elementwise
def stored(r, out, cond):
    """out= and where= arguments of a ufunc"""
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        if cond is not None:
            raise Unsupported('where= without out=')
        return r
    out._assign(r if cond is None else where(cond, r, out))
    return out


def lift(f, dt='f'):
    def g(x, *a, **kw):
        if a or 'out' in kw or 'where' in kw:
            out = kw.pop('out', a[0] if a else None)
            return stored(g(x, *a[1:], **{k: v for k, v in kw.items() if k != 'where'}), out, kw.get('where'))
        if kw:
            raise Unsupported('extra ufunc arguments')
        if num_ok(x):
            return mkS(f(to_p(x)), dt if dt != 'same' else dt_of(x))
        x = as_sarr(x)
        r = a_map(f, x, dt if dt != 'same' else x.dt)
        if isinstance(x, sym.SubArr):
            r = r.view(type(x))
            r.__array_finalize__(x)
        return r
    return g


log = lift(T.mk_log)
exp = lift(T.mk_exp)
sqrt = lift(lambda p: T.mk_pow(p, T.Fraction(1, 2)))
absolute = lift(T.mk_abs, 'same')
log10 = lift(lambda p: T.mk_log(p) / T.mk_log(num(10)))
square = lift(lambda p: p * p, 'same')
negative = lift(lambda p: -p, 'same')
ceil = lift(lambda p: T.app('ceil', p, sort='int'))
floor = lift(lambda p: T.app('floor', p, sort='int'))


def _isnan(p):
    if any(a is T.NAN for m in p.t for a, e in m):
        return ONE
    r = ONE
    for m in p.t:
        for a, e in m:
            if a.kind == 'app' and a.args[0] in NANABLE:
                r = r * (ONE - T.bapp('isnan', T.atom_p(a)))
    return ONE - r


def _isfinite(p):
    r = ONE
    for m, c in p.t.items():
        for a, e in m:
            if a is T.NINF:
                return ZERO
            if a.kind == 'log' and T.sign(a.args[0]) != 'pos':
                r = r * T.lt0(-a.args[0])
    return r * (ONE - _isnan(p))


def shan(f):
    return lambda p: T.shannon(p, f)


isnan = lift(shan(_isnan), 'b')
isfinite = lift(shan(_isfinite), 'b')
isinf = lift(shan(lambda p: (ONE - _isfinite(p)) * (ONE - _isnan(p))), 'b')


def binop(op):
    def f(a, b, *x, **kw):
        out = kw.pop('out', x[0] if x else None)
        cond = kw.pop('where', None)
        if x[1:] or kw:
            raise Unsupported('extra ufunc arguments')
        if cond is not None:
            if op == '/':
                b = where(cond, b, 1.)
            return stored(f(a, b), out, cond)
        a = as_sarr(a) if not num_ok(a) else a
        b = as_sarr(b) if not num_ok(b) else b
        if num_ok(a) and num_ok(b):
            r = sym.s_op(op, a, b)
        else:
            r = sym.a_op(op, a, b)
        return stored(r, out, None)
    return f


def bin_p(f, dt='f'):
    def g(a, b, out=None, where=None):
        if out is not None or where is not None:
            return stored(g(a, b), out, where)
        if num_ok(a) and num_ok(b):
            return mkS(f(to_p(a), to_p(b)), dt)
        A, B = as_sarr(a), as_sarr(b)
        dims = sym.broadcast_dims(A.dims, B.dims)
        return SArr.make(dims, lambda *i: f(A.at(*sym.bidx(A, i)), B.at(*sym.bidx(B, i))), dt)
    return g


logaddexp = bin_p(lambda a, b: T.mk_log(T.mk_exp(a) + T.mk_exp(b)))
maximum = bin_p(lambda a, b: T.ite(T.lt0(a - b), b, a))
minimum = bin_p(lambda a, b: T.ite(T.lt0(b - a), b, a))


def where(c, *ab):
    if len(ab) == 0:
        m = sym.truth(as_sarr(c))
        if len(m.dims) != 1:
            raise Unsupported('np.where with one argument')
        p = _position(m)
        if p is not None:
            return (SArr.make((ONE,), lambda j: p, 'i'),)
        v = T.fresh_index()
        ml = T.lam([v], m.at(v), m.dims)
        n = T.mk_sum([v], m.dims, m.at(v))
        return (SArr.make((n,), lambda j: T.app('nth', ml, j, sort='int', sign='nonneg'), 'i'),)
    if len(ab) != 2:
        raise Unsupported('np.where with two arguments')
    a, b = ab
    C, A, B = as_sarr(c), as_sarr(a), as_sarr(b)
    dims = sym.broadcast_dims(sym.broadcast_dims(C.dims, A.dims), B.dims)
    C = sym.truth(C)
    return SArr.make(dims, lambda *i: T.ite(C.at(*sym.bidx(C, i)), A.at(*sym.bidx(A, i)), B.at(*sym.bidx(B, i))),
                     'f' if 'f' in (A.dt, B.dt) else A.dt)


def _axis_of(a):
    """(n, f): the values of the 1-d array a as a function f of a single index i<n, ignoring repetition along the other axes of a
    row-major product grid"""
    if len(a.dims) != 1:
        raise Unsupported('rank')
    k = T.fresh_index()
    body = a.at(k)
    ka = T.the_atom(k)
    u = [x for x in T.subterms(body) if x.kind == 'app' and x.args[0].startswith('unflat') and x.args[1] == k]
    if len(u) == 1:
        i = T.fresh_index()
        r = T.rmap(body, lambda x: i if x is u[0] else None)
        if ka not in r.fv:
            j = int(u[0].args[0][6:])
            ds = u[0].args[2:]
            tot = ONE
            for d in ds:
                tot = tot * d
            if tot == a.dims[0]:
                return ds[j], (lambda y: T.subst(r, {T.the_atom(i): to_p(y)}))
    return a.dims[0], a.at


def unique(a, **kw):
    if kw:
        raise Unsupported('np.unique arguments')
    a = as_sarr(a)
    n, f = _axis_of(a)
    i = T.fresh_index()
    up = T.lt0(f(i) - f(i + 1))
    if up.const() is None and T.the_atom(i) not in up.fv:
        up = ONE if sym.CTX.fork(up) else ZERO
    if up == ONE:
        return SArr.make((n,), f, a.dt)
    if T.lt0(f(i + 1) - f(i)) == ONE or sym.CTX.decide(T.lt0(f(i + 1) - f(i))):
        return SArr.make((n,), lambda j: f(n - 1 - j), a.dt)
    # sorted distinct values of an arbitrary table
    tab = T.lam([i], f(i), [n])
    return SArr.make((T.app('uniqn', tab, sort='int', sign='nonneg'),), lambda j: T.app('uniq', tab, j), a.dt)


def _position(m):
    """m = [uniq(table, j) = d] for a value d that occurs in the table on this path: the one position of d, or None"""
    j = T.fresh_index()
    a = sym.CTX.simp(m.at(j)).as_atom()
    if a is None or a.kind != 'eq':
        return None
    us = [x for x in T.subterms(a.args[0]) if x.kind == 'app' and x.args[0] == 'uniq' and x.args[2] == j]
    if len(us) != 1:
        return None
    u = us[0]
    cu = a.args[0].t.get(((u, 1),))
    if cu not in (1, -1):
        return None
    d = (T.atom_p(u) - a.args[0] * num(cu))
    if T.the_atom(j) in d.fv or u in set(T.subterms(d)) or m.dims[0] != T.app('uniqn', u.args[1], sort='int', sign='nonneg'):
        return None
    (n,), (l,), body = T.the_atom(u.args[1]).args
    # number of occurrences of d in the table, as a sum over the table; one term of it must be 1 on this path
    v = T.fresh_index()
    g = T.mk_sum([v], [n], T.eq0(T.open_lam(T.the_atom(u.args[1]), [v]) - d)).as_atom()
    if g is None or g.kind != 'sum' or len(g.args[0]) != 1:
        return None
    w = [x for x in d.fv if x.sort == 'int']
    for x in w:
        t = T.subst(g.args[2], {T.the_atom(T.bvar(g.args[1][0])): T.atom_p(x)})
        if sym.CTX.decide(t) and sym.CTX.decide(T.lt0(T.atom_p(x) - g.args[0][0])) and sym.CTX.decide(T.le0(-T.atom_p(x))):
            return T.app('uniqpos', u.args[1], d, sort='int', sign='nonneg')
    return None


def sort(a, **kw):
    a = as_sarr(a)
    i = T.fresh_index()
    up = T.le0(a.at(i) - a.at(i + 1))
    if len(a.dims) == 1 and not kw and (up == ONE or sym.CTX.decide(up)):
        return a.copy()
    raise Unsupported('np.sort of values that are not known to be monotone')


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


# ---------------------------------------------------------------------------------------------------- reductions
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False):
    a = as_sarr(a)
    return a_sum(a, axis, keepdims)


def prod(a, axis=None, **kw):
    a = as_sarr(a)
    if not a.dims:
        return mkS(a.at(), a.dt)
    if axis is None and len(a.dims) > 1:
        raise Unsupported('prod')
    return a_prod(a, axis)


def mean(a, axis=None, keepdims=False, dtype=None):
    return as_sarr(a).mean(axis, keepdims)


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    A, W = as_sarr(a), as_sarr(weights)
    if len(W.dims) != len(A.dims):
        if axis is None or len(W.dims) != 1:
            raise Unsupported('average')
        ax = int(axis) % len(A.dims)
        W = W[tuple(slice(None) if k == ax else None for k in range(len(A.dims)))]
    return a_sum(A * W, axis) / a_sum(W, None if len(as_sarr(weights).dims) != len(A.dims) else axis)


def amax(a, axis=None, keepdims=False):
    return as_sarr(a).max(axis, keepdims)


def amin(a, axis=None, keepdims=False):
    return as_sarr(a).min(axis, keepdims)


def np_any(a, axis=None, keepdims=False):
    return as_sarr(a).any(axis, keepdims)


def np_all(a, axis=None, keepdims=False):
    return as_sarr(a).all(axis, keepdims)


def nan_reduce(name):
    def f(a, *x, **kw):
        if x or kw:
            raise Unsupported(name)
        a = as_sarr(a)
        vs = fresh(len(a.dims))
        return mkS(T.app(name, T.lam(vs, a.at(*vs), a.dims)), 'f')
    return f


def diff(a, n=1):
    a = as_sarr(a)
    for _ in range(n):
        a = a[1:] - a[:-1]
    return a


def apply_over_axes(f, a, axes):
    a = as_sarr(a)
    if num_ok(axes):
        axes = [axes]
    for ax in axes:
        r = f(a, ax)
        if not isinstance(r, SArr) or len(r.dims) != len(a.dims):
            r = expand_dims(as_sarr(r), ax)
        a = r
    return a


def expand_dims(a, axis):
    a = as_sarr(a)
    n = len(a.dims) + 1
    axis = int(axis) % n
    k = [slice(None)] * len(a.dims)
    k.insert(axis, None)
    return a[tuple(k)]


def squeeze(a, axis=None):
    return a_squeeze(as_sarr(a), axis)


def ravel(a, order='C'):
    return a_reshape(as_sarr(a), (-1,))


def reshape(a, shape, order='C'):
    return as_sarr(a).reshape(shape, order=order)


def transpose(a, axes=None):
    return as_sarr(a).T if axes is None else as_sarr(a).transpose(*axes)


def tile(a, reps):
    a = as_sarr(a)
    if not isinstance(reps, (tuple, list)) or len(reps) != 2 or to_p(reps[1]) != ONE or len(a.dims) != 1:
        raise Unsupported('tile')
    return SArr.make((dim_p(reps[0]), a.dims[0]), lambda i, j: a.at(j), a.dt)


def append(a, b, axis=None):
    A, B = as_sarr(a), as_sarr(b)
    if axis is None:
        A = A if len(A.dims) == 1 else a_reshape(A, (-1,))
        B = B if len(B.dims) == 1 else a_reshape(B, (-1,))
        axis = 0
    return concatenate([A, B], axis=axis)


def moveaxis(a, src, dst):
    a = as_sarr(a)
    n = len(a.dims)
    src = [int(k) % n for k in (src if isinstance(src, (tuple, list)) else [src])]
    dst = [int(k) % n for k in (dst if isinstance(dst, (tuple, list)) else [dst])]
    order = [k for k in range(n) if k not in src]
    for d, k in sorted(zip(dst, src)):
        order.insert(d, k)
    return a.transpose(*order)


def rows(arrs):
    """the arrays of a sequence of concrete length"""
    if isinstance(arrs, (SArr, SSeq)) or (isinstance(arrs, VList) and arrs.is_sym()):
        s = as_seq(arrs)
        n = to_p(s.n).const()
        if n is None:
            raise Unsupported('joining a symbolic number of arrays')
        return [as_sarr(s.elem(num(k))) for k in range(int(n))]
    return [as_sarr(x) for x in arrs]


def stack(arrs, axis=0, out=None):
    r = array(arrs)
    return stored(moveaxis(r, 0, axis).copy() if axis else r, out, None)


def vstack(arrs):
    A = rows(arrs)
    return concatenate([a if len(a.dims) > 1 else a_reshape(a, (1, -1)) for a in A])


def hstack(arrs):
    A = rows(arrs)
    return concatenate(A, axis=0 if len(A[0].dims) == 1 else 1)


def column_stack(arrs):
    A = rows(arrs)
    return concatenate([a if len(a.dims) > 1 else a_reshape(a, (-1, 1)) for a in A], axis=1)


def repeat(a, n, axis=None):
    a = as_sarr(a)
    if axis is None:
        a, axis = a_reshape(a, (-1,)), 0
    if not num_ok(n):
        raise Unsupported('repeat')
    axis = int(axis) % len(a.dims)
    if a.dims[axis].const() == 1:
        dims = list(a.dims)
        dims[axis] = dim_p(n)
        return SArr.make(dims, lambda *i: a.at(*[ZERO if k == axis else x for k, x in enumerate(i)]), a.dt)
    k = dim_p(n)
    dims = list(a.dims)
    pair = (dims[axis], k)
    dims[axis] = dims[axis] * k
    return SArr.make(dims, lambda *i: a.at(*[sym.unflat(pair, 0, x) if j == axis else x for j, x in enumerate(i)]), a.dt)


def einsum(sub, *ops, **kw):
    if kw or not isinstance(sub, str) or '.' in sub:
        raise Unsupported('einsum')
    sub = sub.replace(' ', '')
    ins, _, out = sub.partition('->')
    if '->' not in sub:
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    A = [as_sarr(o) for o in ops]
    ins = ins.split(',')
    dims = {}
    for s, a in zip(ins, A):
        if len(s) != len(a.dims):
            raise ValueError('einstein sum subscripts do not match')
        for c, d in zip(s, a.dims):
            if c in dims and dims[c] != d and not sym.CTX.fork(T.eq0(dims[c] - d)):
                raise ValueError('operand has a mismatch in its core dimension')
            dims.setdefault(c, d)
    summed = [c for c in dims if c not in out]
    iv = dict(zip(dims, fresh(len(dims))))
    body = ONE
    for s, a in zip(ins, A):
        body = body * a.at(*[iv[c] for c in s])
    r = T.mk_sum([iv[c] for c in summed], [dims[c] for c in summed], body) if summed else body
    dt = 'f' if any(a.dt == 'f' for a in A) else 'i'
    if not out:
        return mkS(r, dt)
    return SArr(sym.Buffer(tuple(dims[c] for c in out), [iv[c] for c in out], r, dt), tuple(dims[c] for c in out))


def outer(a, b):
    A, B = ravel(a), ravel(b)
    return A[:, None] * B[None, :]


def tensordot(a, b, axes=2):
    A, B = as_sarr(a), as_sarr(b)
    n, m = len(A.dims), len(B.dims)
    if num_ok(axes):
        k = int(axes)
        axes = (list(range(n - k, n)), list(range(k)))
    ax, bx = [[x] if num_ok(x) else list(x) for x in axes]
    la = [chr(97 + i) for i in range(n)]
    lb = [chr(97 + n + i) for i in range(m)]
    for i, j in zip(ax, bx):
        lb[j % m] = la[i % n]
    out = [c for c in la if c not in lb] + [c for c in lb if c not in la]
    return einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), A, B)


def indices(dims):
    ds = dims_of(dims)
    return VList([SArr.make(ds, (lambda k: lambda *i: i[k])(k), 'i') for k in range(len(ds))])


def broadcast_to(a, shape):
    return sym.broadcast_to(as_sarr(a), dims_of(shape))


def isin(x, vals, **kw):
    if kw:
        raise Unsupported('isin')
    X = as_sarr(x)
    V = ravel(as_sarr(vals))
    r = sym.a_any(X[tuple([slice(None)] * len(X.dims) + [None])] == V, len(X.dims))
    return r


def count_nonzero(a, axis=None):
    t = sym.truth(as_sarr(a))
    return a_sum(t, axis)


def isclose(a, b, **kw):
    raise Unsupported('isclose')


def concatenate(arrs, axis=0):
    A = [a.copy() for a in rows(arrs)]
    if axis is None:
        A, axis = [ravel(a) for a in A], 0
    if int(axis) % max(1, len(A[0].dims)) != 0:
        return moveaxis(concatenate([moveaxis(a, axis, 0) for a in A]), 0, axis).copy()
    r = A[0]
    for b in A[1:]:
        if len(b.dims) != len(r.dims):
            raise ValueError('all the input array dimensions must match')
        n = r.dims[0]
        r = SArr.make((n + b.dims[0],) + tuple(r.dims[1:]),
                      (lambda r, b, n: lambda i, *x: T.ite(T.lt0(i - n), r.at(i, *x), b.at(i - n, *x)))(r, b, n),
                      'f' if 'f' in (r.dt, b.dt) else r.dt)
    return r


class Pieces:
    """np.array_split(a, n): consecutive pieces; sizes differ by at most one"""
    def __init__(self, a, n):
        self.a, self.n = a, n

    def bound(self, i):
        N, n = self.a.dims[0], to_p(self.n)
        i = to_p(i)
        if i.const() == 0:
            return ZERO
        if i == n:
            return N
        r = T.app('splitpoint', N, n, i, sort='int', sign='nonneg')
        if T.the_atom(r) not in T.SPLITS:
            T.SPLITS.append(T.the_atom(r))
        return r

    def __getitem__(self, i):
        c = sym.CTX
        lo, hi = self.bound(i), self.bound(to_p(i) + 1)
        for p in (T.le0(lo - hi), T.le0(hi - self.a.dims[0])):
            c.assume(p)
        return self.a[mkS(lo, 'i'):mkS(hi, 'i')]

    def __iter__(self):
        n = to_p(self.n).const()
        if n is None:
            raise Unsupported('iteration over array_split')
        for k in range(int(n)):
            yield self[k]


def array_split(a, n):
    return Pieces(as_sarr(a), n)


def shape(a):
    return as_sarr(a).shape


def ndim(a):
    return as_sarr(a).ndim


def roll(a, k):
    a = as_sarr(a)
    vs = fresh(1)
    t = T.lam(vs, a.at(vs[0]), a.dims)
    return SArr.make(a.dims, lambda i: T.app('roll', t, to_p(k), i), a.dt)


def irfft(a):
    a = as_sarr(a)
    vs = fresh(1)
    t = T.lam(vs, a.at(vs[0]), a.dims)
    return SArr.make(((a.dims[0] - 1) * 2,), lambda i: T.app('irfft', t, i), 'f')


def array_equal(a, b):
    A, B = as_sarr(a), as_sarr(b)
    if len(A.dims) != len(B.dims):
        return False
    for x, y in zip(A.dims, B.dims):
        if not sym.CTX.fork(T.eq0(x - y)):
            return False
    return bool((A == B).all())


def isscalar(x):
    return num_ok(x)


def dot(a, b):
    A, B = as_sarr(a), as_sarr(b)
    if not A.dims or not B.dims:
        return A * B
    if len(B.dims) > 2:
        raise Unsupported('dot')
    return tensordot(A, B, ([-1], [0]))


def cumsum(a, axis=None):
    a = as_sarr(a)
    if len(a.dims) != 1:
        raise Unsupported('cumsum')
    return SArr.make(a.dims, lambda i: T.mk_sum([*(v := fresh(1))], [i + 1], a.at(v[0])), a.dt)


class NdMeta(type):
    def __new__(m, name, bases, ns):
        if 'ndarray' in globals() and ndarray in bases:
            return type(name, tuple(sym.SubArr if c is ndarray else c for c in bases), ns)
        return type.__new__(m, name, bases, ns)

    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, np.ndarray))

    def __subclasscheck__(cls, c):
        return issubclass(c, (SArr, np.ndarray))


class ndarray(metaclass=NdMeta):
    pass


TABLE = dict(zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like,
             empty_like=zeros_like, full_like=full_like, array=array, asarray=asarray, arange=arange, linspace=linspace,
             meshgrid=meshgrid, log=log, exp=exp, sqrt=sqrt, abs=absolute, absolute=absolute, fabs=absolute, log10=log10,
             square=square, negative=negative, ceil=ceil, floor=floor, isnan=isnan, isfinite=isfinite, isinf=isinf,
             add=binop('+'), subtract=binop('-'), multiply=binop('*'), divide=binop('/'), true_divide=binop('/'),
             power=binop('**'), less=binop('<'), less_equal=binop('<='), greater=binop('>'), greater_equal=binop('>='),
             equal=binop('=='), not_equal=binop('!='), logical_and=binop('&'), logical_or=binop('|'),
             logaddexp=logaddexp, maximum=maximum, minimum=minimum, where=where, clip=clip, sum=np_sum, prod=prod,
             mean=mean, average=average, amax=amax, max=amax, amin=amin, min=amin, any=np_any, all=np_all,
             nanmax=nan_reduce('nanmax'), nanmin=nan_reduce('nanmin'), nanmean=nan_reduce('nanmean'),
             nanstd=nan_reduce('nanstd'), diff=diff, apply_over_axes=apply_over_axes, expand_dims=expand_dims,
             squeeze=squeeze, unique=unique, sort=sort, ravel=ravel, reshape=reshape, transpose=transpose, tile=tile, append=append,
             concatenate=concatenate, hstack=hstack, column_stack=column_stack, moveaxis=moveaxis,
             swapaxes=lambda a, i, j: as_sarr(a).swapaxes(i, j), repeat=repeat, einsum=einsum, outer=outer, tensordot=tensordot,
             matmul=dot, inner=dot, indices=indices, broadcast_to=broadcast_to, isin=isin, in1d=isin,
             count_nonzero=count_nonzero, nonzero=lambda a: where(a), flatnonzero=lambda a: where(ravel(a))[0],
             float_power=binop('**'), reciprocal=lift(lambda p: ONE / p), product=prod,
             expm1=lift(lambda p: T.mk_exp(p) - 1), log1p=lift(lambda p: T.mk_log(p + 1)),
             log2=lift(lambda p: T.mk_log(p) / T.mk_log(num(2))), positive=lambda a: as_sarr(a).copy(),
             round=lambda a, decimals=0: a.round(decimals), around=lambda a, decimals=0: a.round(decimals),
             array_split=array_split, shape=shape, ndim=ndim, roll=roll,
             array_equal=array_equal, isscalar=isscalar, dot=dot, cumsum=cumsum, atleast_1d=lambda a: as_sarr(a) if as_sarr(a).dims else a_reshape(as_sarr(a), (1,)),
             stack=stack, vstack=vstack, copy=lambda a: as_sarr(a).copy(), invert=lambda a: ~as_sarr(a), logical_not=lambda a: ~as_sarr(a),
             size=lambda a: as_sarr(a).size)
# scalar transcendental functions stay exact on constants
FRESH = {'zeros', 'ones', 'array', 'empty', 'full'}
EXACT = {'log', 'sqrt', 'log10'}


def wrap(name, real):
    f = TABLE.get(name)

    def call(*a, **kw):
        if has_sym(a) or has_sym(kw):
            USED.add('numpy.' + name)
            if f is None:
                raise Unsupported('numpy.%s of symbolic values' % name)
            try:
                return f(*a, **kw)
            except T.TermError as e:
                raise Unsupported('numpy.%s: %s' % (name, e))
        if name in EXACT and len(a) == 1 and num_ok(a[0]) and not kw and a[0] > 0:
            return f(a[0])
        if name == 'array' or name == 'asarray':
            a = (plain(a[0]),) + a[1:]
        else:
            a = plain(a)
        r = real(*a, **{k: plain(v) for k, v in kw.items()})
        if name in FRESH and sym.CTX is not None and r.dtype.kind == 'f' and r.ndim and 0 < r.size <= 64 and np.isfinite(r).all() if name != 'empty' else False:
            return as_sarr(r).copy()         # new arrays may be filled with symbolic values later
        if isinstance(r, list):
            r = VList(r)
        return r
    call.__name__ = name
    call.real = real
    if name in REDUCE:
        def reduce(a, axis=0, dtype=None, out=None, keepdims=False):
            if has_sym(a):
                USED.add('numpy.%s.reduce' % name)
                return REDUCE[name](as_sarr(a), axis, keepdims)
            return real.reduce(plain(a), axis=axis, keepdims=keepdims)

        def outer_(a, b):
            if has_sym((a, b)):
                USED.add('numpy.%s.outer' % name)
                A, B = as_sarr(a), as_sarr(b)
                return f(A[tuple([slice(None)] * len(A.dims) + [None] * len(B.dims))], B)
            return real.outer(plain(a), plain(b))
        call.reduce, call.outer = reduce, outer_
    return call


def _lse(a, axis, keepdims):
    return log(a_sum(exp(a), axis, keepdims))


REDUCE = dict(add=a_sum, multiply=lambda a, ax, k: a.prod(ax, k), maximum=lambda a, ax, k: a.max(ax, k),
              minimum=lambda a, ax, k: a.min(ax, k), logaddexp=_lse, logical_and=lambda a, ax, k: a.all(ax, k),
              logical_or=lambda a, ax, k: a.any(ax, k))


class NP(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.pi = S(T.atom_p(T.PI), 'f')
        self.ndarray = ndarray
        self._c = {}

    def __dir__(self):
        return dir(np)

    def errstate(self, **kw):
        return contextlib.nullcontext()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        c = self.__dict__['_c'].get(name)
        if c is not None:
            return c
        r = getattr(np, name)
        if name == 'fft':
            m = types.SimpleNamespace(irfft=lambda a, *x: irfft(a) if has_sym(a) and not x else np.fft.irfft(a, *x),
                                      rfft=np.fft.rfft)
            self.__dict__['_c'][name] = m
            return m
        if callable(r) and not isinstance(r, type):
            r = wrap(name, r)
        elif isinstance(r, type) and name in ('float64', 'int64', 'float32', 'int32'):
            rr = r

            def conv(x, rr=rr):
                return x if is_sym(x) else rr(x)
            r = rr
        self.__dict__['_c'][name] = r
        return r


snp = NP()
snp.add = wrap('add', np.add)
snp.maximum = wrap('maximum', np.maximum)


# --------------------------------------------------------------------------------------------------------- scipy
def logsumexp(a, axis=None, b=None, keepdims=False, **kw):
    if kw:
        raise Unsupported('logsumexp arguments')
    if not has_sym(a) and not has_sym(b):
        from scipy.special import logsumexp as real
        return real(plain(a), axis=axis, b=plain(b), keepdims=keepdims)
    USED.add('scipy.special.logsumexp')
    e = exp(as_sarr(a))
    return log(np_sum(e if b is None else e * b, axis=axis, keepdims=keepdims))


def factorial(x):
    if not has_sym(x):
        from scipy.special import factorial as real
        return real(x)
    USED.add('scipy.special.factorial')
    T.SIGNS['factorial'] = 'pos'
    return lift(lambda p: T.app('factorial', p))(x)
