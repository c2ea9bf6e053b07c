"""Contracts are written once against a backend:
   Sym   instrumented code of /repo on symbolic values; every ensured equation becomes an obligation for the prover
   Conc  the unmodified code of /repo on the inputs of a random finite model; the same equations are evaluated
         numerically (replay of failed obligations, cross-check of the symbolic executor, vacuity guard)"""
import importlib
import io
import itertools
import os
import sys
import time
import numpy as np
from . import terms as T
from .terms import P, ZERO, ONE, num, to_p, the_atom
from . import sym, prove
from .sym import S, SArr, SSeq, VList, mkS, Unsupported, Infeasible, dt_of, num_ok
from .evalm import Model, EvalError


class SkipModel(Exception):
    """the model does not satisfy the precondition"""


class NotApplicable(Exception):
    """the contract's interface to the code does not fit any more"""


def size(name):
    """a size >= 1"""
    return T.var(name, 'int', 'pos')


class Base:
    def size(self, name):
        return size(name)

    def int(self, name, sign=None):
        return T.var(name, 'int', sign)

    def real(self, name, sign=None):
        return T.var(name, 'real', sign)

    def uf(self, name, sign=None, sort='real', mono=False, inj=False):
        if sign and T.SIGNS.get(name) != 'pos':     # the strongest declaration (made first) counts
            T.SIGNS[name] = sign
        if mono:
            T.MONO.add(name)
        if inj:
            T.INJ.add(name)
        return lambda *a: T.app(name, *a, sort=sort)


class Sym(Base):
    symbolic = True

    def __init__(self, world, res):
        self.world = world
        self.res = res          # shared result collector
        self.obs = []

    def mod(self, name):
        return self.world.module(name)

    def depend(self, lib, attr, fn, users=('core',)):
        """assumed contract fn of a library function"""
        setattr(self.world.lib(lib), attr, fn)
        for u in users:
            if attr in self.mod(u).__dict__:
                setattr(self.mod(u), attr, fn)

    # values
    def val(self, p, dt='f'):
        return mkS(to_p(p), dt)

    def array(self, dims, f, dt='f', nan=None):
        return SArr.make(tuple(to_p(d) for d in dims), f, dt)

    def missing(self, uf_name):
        """values of this uninterpreted array may be NaN; returns the predicate on a value term"""
        from . import snp
        snp.NANABLE.add(uf_name)
        return lambda p: T.bapp('isnan', p)

    def map(self, f, *arrs):
        """elementwise application of a term-level function"""
        A = [sym.as_sarr(a).copy() for a in arrs]
        return SArr.make(A[0].dims, lambda *x: f(*[a.at(*x) for a in A]), 'f')

    def seq(self, n, f):
        return VList.of(SSeq(to_p(n), f))

    def list(self, xs):
        return VList(xs)

    def table(self, x):
        a = sym.as_sarr(x)
        vs = sym.fresh(len(a.dims))
        return T.lam(vs, a.at(*vs), a.dims)

    def term(self, x):
        if isinstance(x, SArr):
            x = x.item()
        return to_p(x)

    def assume(self, p):
        sym.CTX.assume(p)

    def nonzero(self, p):
        """assume that a named number is not zero"""
        T.NONZERO.discard(T.the_atom(p))
        sym.CTX.assume(T.ONE - T.eq0(p))
        T.NONZERO.add(T.the_atom(p))

    def assume_all(self, n, f):
        q = T.fresh_index()
        sym.CTX.quant.append((q, ZERO, to_p(n), to_p(f(q))))

    def fork(self, p):
        return sym.CTX.fork(p)

    def rank(self, x):
        return len(sym.as_sarr(x).dims) if not num_ok(x) else 0

    def call(self, fn, *a, **kw):
        try:
            return 'ok', fn(*a, **kw)
        except (Unsupported, Infeasible):
            raise
        except Exception as e:
            return 'exc', e

    # obligations
    def forall(self, n, f):
        """decide on the current path whether f(k) holds for all 0<=k<n: True/False; undecided paths are split"""
        ctx = sym.CTX
        k = T.fresh_index()
        pr = prove.Prover(ctx)
        ex = sym.box([k], [to_p(n)])
        try:
            if pr.zero(f(k) - 1, tuple(ex)):
                return True
        except prove.GiveUp:
            pass
        cands = set()
        for a in ctx.lits:
            for v in a.fv:
                if v.kind == 'var' and v.sort == 'int':
                    cands.add(v)
        terms = [T.atom_p(v) for v in sorted(cands, key=lambda a: a.id)]
        for a in ctx.lits:
            for x in T.subterms(T.atom_p(a)):
                if x.kind in ('app', 'rec'):
                    for y in x.args:
                        if isinstance(y, P) and y.is_int() and y.t and y not in terms and len(y.t) <= 3 and not any(z.kind == 'bvar' for z in y.fv):
                            terms.append(y)
        for t in terms:
            if pr.holds(T.le0(-t) * T.le0(t - to_p(n) + 1)) and pr.zero(f(t)):
                return False
        for c in (ZERO, to_p(n) - 1):
            if pr.holds(T.le0(-c) * T.le0(c - to_p(n) + 1)) and pr.zero(f(c)):
                return False
        e = T.eq0(T.mk_sum([k], [to_p(n)], ONE - f(k)))
        if ctx.fork(e):
            q = T.fresh_index()
            ctx.quant.append((q, ZERO, to_p(n), to_p(f(q))))
            return True
        return False

    def record(self, name, dims, f):
        pass

    def eq(self, name, value, spec, dims=None, given=None):
        """value (array or number) equals spec(*idx) at every index"""
        t0 = time.time()
        ctx = sym.CTX
        if dims is None:
            dims = ()
        dims = [to_p(d) for d in dims]
        detail = ''
        ok = False
        how = []
        try:
            if isinstance(value, loops_Poison):
                raise Unsupported('unknown value')
            if isinstance(value, np.ndarray) and value.dtype.kind in 'bif' and all(d.const() is not None for d in dims):
                # no symbolic input is involved: evaluate
                if value.shape == tuple(int(d.const()) for d in dims):
                    cs = [(i, to_p(spec(*[num(j) for j in i])).const()) for i in np.ndindex(*value.shape)]
                    if all(c is not None for i, c in cs):
                        ok = all(abs(float(c) - float(value[i])) <= 1e-9 + 1e-9 * abs(float(c)) for i, c in cs)
                        self.res.add(name, ok, ['evaluation'], '' if ok else 'values differ', time.time() - t0)
                        return ok
            if num_ok(value):
                ad, at = [], (lambda *i: to_p(value))
            else:
                a = sym.as_sarr(value)
                ad, at = list(a.dims), a.at
            if len(ad) != len(dims):
                detail = 'rank %d instead of %d' % (len(ad), len(dims))
            else:
                bad = None
                for x, y in zip(ad, dims):
                    r = prove.prove_zero(x - y, ctx)
                    if not r[0]:
                        bad = 'shape %s instead of %s' % (T.show(x)[:80], T.show(y)[:80])
                if bad:
                    detail = bad
                else:
                    vs = sym.fresh(len(dims))
                    one = {T.the_atom(v): ZERO for v, d in zip(vs, dims) if d.const() == 1}
                    body = T.subst(at(*vs), one)
                    ex = tuple(sym.box(vs, dims))
                    sp = T.subst(to_p(spec(*vs)), one)
                    self.obs.append((name, dims, vs, body))
                    r = prove.prove_zero(body - sp, ctx, ex)
                    ok, how = r
                    if not ok:
                        detail = '%s: code %s; specified %s' % (how, T.show(T.canon(body))[:700], T.show(T.canon(sp))[:700])
        except Unsupported as e:
            detail = 'outside the verified subset: %s' % e
        except T.TermError as e:
            detail = 'term error: %s' % e
        self.res.add(name, ok, how if ok else [], detail, time.time() - t0)
        return ok

    def same(self, name, value, other, dims):
        a = sym.as_sarr(other)
        return self.eq(name, value, lambda *i: a.at(*i), dims)

    def true(self, name, cond, detail='', box=()):
        """cond: python bool or 0/1 term that must hold (for all indices of box: pairs of index and size)"""
        t0 = time.time()
        if isinstance(cond, S):
            cond = cond._p_
        if isinstance(cond, P):
            r = prove.prove_zero(cond - 1, sym.CTX, tuple(sym.box([v for v, d in box], [d for v, d in box])))
            self.res.add(name, r[0], r[1] if r[0] else [], detail if not r[0] else '', time.time() - t0)
            return r[0]
        self.res.add(name, bool(cond), ['evaluation'], detail, time.time() - t0)
        return bool(cond)

    def quiet(self, obj, cls=None):
        return obj


class Conc(Base):
    symbolic = False

    def __init__(self, model, res, repo):
        self.m = model
        self.res = res
        self.obs = {}
        self.fails = []
        self.repo = repo
        self.checked = 0

    def mod(self, name):
        if self.repo not in sys.path:
            sys.path.insert(0, self.repo)
        return importlib.import_module('bayesloop.' + name)

    def depend(self, lib, attr, fn, users=('core',)):
        setattr(importlib.import_module(lib), attr, fn)
        for u in users:
            if attr in self.mod(u).__dict__:
                setattr(self.mod(u), attr, fn)

    def val(self, p, dt='f'):
        v = self.m.ev(to_p(p))
        if dt == 'i':
            return int(round(v))
        if dt == 'b':
            return bool(v)
        return float(v)

    def missing(self, uf_name):
        return lambda p: T.bapp('isnan', p)

    def array(self, dims, f, dt='f', nan=None):
        vs = sym.fresh(len(dims))
        a = self.m.array([to_p(d) for d in dims], vs, to_p(f(*vs)))
        if nan is not None:
            a[self.m.array([to_p(d) for d in dims], vs, to_p(nan(*vs))) != 0] = np.nan
        if dt == 'i':
            a = np.rint(a).astype(int)
        elif dt == 'b':
            a = a != 0
        return a

    def map(self, f, *arrs):
        A = [np.asarray(a, dtype=float) for a in arrs]
        out = np.empty(A[0].shape)
        for i in np.ndindex(*A[0].shape):
            out[i] = self.m.ev(to_p(f(*[self.term(a[i]) for a in A])))
        return out

    def seq(self, n, f):
        n = self.m.int(to_p(n))
        return [f(num(k)) for k in range(n)]

    def list(self, xs):
        return list(xs)

    def table(self, x):
        return T.tab(np.asarray(x, dtype=float))

    def term(self, x):
        x = np.asarray(x)
        if x.size == 1:
            x = x.reshape(())[()]
        if isinstance(x, (np.bool_, bool)):
            return ONE if x else ZERO
        if isinstance(x, np.integer):
            return num(int(x))
        return T.num(T.Fraction(float(x))) if np.isfinite(x) else T.from_float(float(x))

    def assume(self, p):
        if self.m.ev(to_p(p)) == 0:
            raise SkipModel()

    def nonzero(self, p):
        self.assume(T.ONE - T.eq0(p))

    def assume_all(self, n, f):
        for k in range(self.m.int(to_p(n))):
            self.assume(f(num(k)))

    def fork(self, p):
        return self.m.ev(to_p(p)) != 0

    def rank(self, x):
        return np.ndim(x)

    def call(self, fn, *a, **kw):
        try:
            return 'ok', fn(*a, **kw)
        except Exception as e:
            return 'exc', e

    def forall(self, n, f):
        return all(self.m.ev(to_p(f(num(k)))) != 0 for k in range(self.m.int(to_p(n))))

    def eq(self, name, value, spec, dims=None, given=None):
        dims = [to_p(d) for d in (dims or ())]
        vs = sym.fresh(len(dims))
        want = self.m.array(dims, vs, to_p(spec(*vs)))
        return self.compare(name, value, want)

    def same(self, name, value, other, dims):
        return self.compare(name, value, np.array(other, dtype=float))

    def compare(self, name, value, want):
        try:
            got = np.array(value, dtype=float)
        except (TypeError, ValueError):
            self.fails.append((name, 'value of type %s' % type(value).__name__))
            return False
        self.checked += 1
        self.obs.setdefault(name, []).append(got)
        if got.shape != want.shape:
            self.fails.append((name, 'shape %s instead of %s' % (got.shape, want.shape)))
            return False
        fin = ~np.isnan(want)
        with np.errstate(all='ignore'):
            bad = fin & ~((got == want) | (np.abs(got - want) <= 1e-9 + 1e-6 * np.abs(want)))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            self.fails.append((name, 'at index %s the code gives %r, specified %r' % (i, got[i].item(), want[i].item())))
            return False
        return True

    def true(self, name, cond, detail=''):
        if isinstance(cond, P):
            cond = self.m.ev(cond) != 0
        self.checked += 1
        if not cond:
            self.fails.append((name, detail or 'does not hold'))
        return bool(cond)


from .loops import Poison as loops_Poison  # noqa: E402
