"""Symbolic values (scalars, arrays of symbolic shape, sequences of symbolic length), path exploration and the
treatment of loops over symbolic ranges."""
import itertools
import math
import numpy as np
from fractions import Fraction
from . import terms as T
from .terms import P, ZERO, ONE, num, to_p, the_atom
from . import smt


class Unsupported(BaseException):
    """construct outside the verified subset: the obligation is undecided"""


class Infeasible(BaseException):
    """the current path cannot happen"""


# ------------------------------------------------------------------------------------------------------ context
class Frame:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []


class Ctx:
    def __init__(self):
        self.lits = {}          # literal atom -> 0/1
        self.trail = []
        self.eqs = []
        self.quant = []         # (var, lo, hi, P) : for all lo<=var<hi P holds
        self.frames = []
        self.divs = {}
        self.writes = None
        self.guards = []
        self.notes = set()
        self.hints = {}         # literal -> preferred
        self.nforks = 0

    # -- facts
    def assume_lit(self, a, v):
        o = self.lits.get(a)
        if o is not None:
            if o != v:
                raise Infeasible()
            return
        self.lits[a] = v
        self.trail.append(a)

    def mark(self):
        return len(self.trail), len(self.quant)

    def undo(self, mk):
        n, q = mk
        while len(self.trail) > n:
            del self.lits[self.trail.pop()]
        del self.quant[q:]

    def assume(self, p):
        """assert a 0/1 polynomial that is a conjunction of literals (or splits by forking)"""
        p = self.simp(to_p(p))
        while p.const() is None:
            ls = T.lits(p)
            done = False
            for a in ls:
                if T.assign_lit(p, a, 0) == ZERO:
                    self.assume_lit(a, 1)
                    p = T.assign_lit(p, a, 1)
                    done = True
                    break
                if T.assign_lit(p, a, 1) == ZERO:
                    self.assume_lit(a, 0)
                    p = T.assign_lit(p, a, 0)
                    done = True
                    break
            if not done:
                if not self.fork(T.atom_p(ls[0])):
                    p = T.assign_lit(p, ls[0], 0)
                else:
                    p = T.assign_lit(p, ls[0], 1)
        if p.const() == 0:
            raise Infeasible()

    def simp(self, p):
        """replace decided top-level literals"""
        for a in T.lits(p):
            v = self.lits.get(a)
            if v is None:
                v = self.implied(a)
            if v is not None:
                p = T.assign_lit(p, a, v)
        return p

    def implied(self, a):
        # quick: only facts sharing a free variable
        rel = self.relevant(a)
        if not rel and a.kind != 'bapp' and not any(x.sign for x in T.subterms(T.atom_p(a))):
            return None
        if a.kind == 'bapp':
            return None
        if smt.sat(rel + [(a, 1)]) == 'unsat':
            return 0
        if smt.sat(rel + [(a, 0)]) == 'unsat':
            return 1
        return None

    def relevant(self, a):
        fv = set(a.fv)
        facts = [(b, v) for b, v in self.lits.items() if b.kind != 'bapp']
        out = []
        changed = True
        used = set()
        while changed:
            changed = False
            for b, v in facts:
                if b not in used and (b.fv & fv):
                    used.add(b)
                    fv |= b.fv
                    out.append((b, v))
                    changed = True
        return out

    # -- decisions
    def choose(self, n, labels=None):
        """decision among n alternatives"""
        f = self.frames[-1]
        i = len(f.taken)
        if i < len(f.prefix):
            c = f.prefix[i]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                f.alts.append(f.taken + [k])
        f.taken.append(c)
        return c

    def fork(self, p):
        p = self.simp(to_p(p))
        while p.const() is None:
            ls = T.lits(p)
            if not ls:
                raise Unsupported('truth value of %s' % T.show(p)[:200])
            a = ls[0]
            self.nforks += 1
            if self.nforks > 4000:
                raise Unsupported('too many case splits')
            v = 1 - self.choose(2)
            self.assume_lit(a, v)
            p = self.simp(T.assign_lit(p, a, v))
        return p.const() != 0

    def decide(self, p):
        """True/False if forced, None otherwise (never forks)"""
        p = self.simp(to_p(p))
        c = p.const()
        return None if c is None else c != 0

    def div(self, p):
        p = to_p(p)
        if p.const() is None and T.sign(p) not in ('pos', 'neg'):
            self.divs[p] = dict(self.lits)


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def explore(fn, limit=400):
    """run fn under every decision sequence; yields (ctx, result)"""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > limit:
            raise Unsupported('too many paths')
        c = Ctx()
        f = Frame(prefix)
        c.frames.append(f)
        set_ctx(c)
        try:
            r = fn()
        except Infeasible:
            r = None
            work.extend(f.alts)
            continue
        work.extend(f.alts)
        yield c, r


# ------------------------------------------------------------------------------------------------------ scalars
def is_sym(x):
    return isinstance(x, (S, SArr, SSeq)) or (isinstance(x, VList) and x.is_sym())


def mkS(p, dt='f'):
    c = p.const()
    if c is not None and (isinstance(c, int) or c.denominator == 1):
        c = int(c)
        if dt == 'b':
            return bool(c)
        if dt == 'i':
            return c
        return float(c) if abs(c) < 2 ** 53 else S(p, dt)
    return S(p, dt)


def dt_of(x):
    if isinstance(x, S):
        return x.dt
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    return 'f'


def join_dt(a, b):
    if 'f' in (a, b):
        return 'f'
    return 'i'


def num_ok(x):
    return isinstance(x, (S, int, float, np.integer, np.floating, np.bool_, Fraction))


def p_pow(a, e):
    """a**e for polynomials"""
    c = e.const()
    if c is not None:
        if c < 0 or not isinstance(c, int):
            if c < 0:
                CTX and CTX.div(a)
        return T.mk_pow(a, c)
    if a.const() == 1:
        return ONE
    # general power: defined for positive bases
    if T.sign(a) != 'pos':
        if CTX is not None:
            CTX.notes.add('power with symbolic exponent: base assumed positive')
    return T.mk_exp(e * T.mk_log(a))


def s_op(op, a, b):
    pa, pb = to_p(a), to_p(b)
    da, db = dt_of(a), dt_of(b)
    if op == '+':
        return mkS(pa + pb, join_dt(da, db))
    if op == '-':
        return mkS(pa - pb, join_dt(da, db))
    if op == '*':
        if da == 'b' and db == 'b':
            return mkS(pa * pb, 'b')
        return mkS(pa * pb, join_dt(da, db))
    if op == '/':
        if CTX is not None:
            CTX.div(pb)
        return mkS(T.canon(pa / pb), 'f')
    if op == '**':
        return mkS(p_pow(pa, pb), join_dt(da, db) if pb.const() is None or pb.const() >= 0 else 'f')
    if op == '<=':
        return mkS(T.le0(pa - pb), 'b')
    if op == '<':
        return mkS(T.lt0(pa - pb), 'b')
    if op == '>=':
        return mkS(T.le0(pb - pa), 'b')
    if op == '>':
        return mkS(T.lt0(pb - pa), 'b')
    if op == '==':
        return mkS(T.eq0(pa - pb), 'b')
    if op == '!=':
        return mkS(ONE - T.eq0(pa - pb), 'b')
    if op == '&':
        return mkS(pa * pb, 'b')
    if op == '|':
        return mkS(T.bor(pa, pb), 'b')
    if op in ('//', '%'):
        ca, cb = pa.const(), pb.const()
        if ca is not None and cb is not None:
            return mkS(num(Fraction(ca) // Fraction(cb) if op == '//' else Fraction(ca) % Fraction(cb)), join_dt(da, db))
        if CTX is not None and cb in (2, 3, 4, 5) and (pa.is_int() or da in 'ib') and not any(str(v.args[0]).startswith('#') for v in pa.fv):
            # case distinction over the remainder
            q = T.app('floordiv', pa, pb, sort='int', sign='nonneg' if T.sign(pa) in ('pos', 'nonneg') else None)
            c = int(cb)
            r = next((k for k in range(c - 1) if CTX.fork(T.eq0(pa - q * c - k))), c - 1)
            CTX.assume(T.eq0(pa - q * c - r))
            return mkS(q, 'i') if op == '//' else mkS(num(r), 'i')
        return mkS(T.app('floordiv' if op == '//' else 'mod', pa, pb, sort='int' if 'f' not in (da, db) else 'real'),
                   join_dt(da, db))
    raise Unsupported('operator ' + op)


class S:
    """symbolic scalar"""
    __slots__ = ('_p_', 'dt')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, p, dt='f'):
        self._p_ = p
        self.dt = dt

    def _bin(self, op, o, rev=False):
        if num_ok(o):
            return s_op(op, o, self) if rev else s_op(op, self, o)
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._bin(op, o.item(), rev)
            o = as_sarr(o)
            return a_op(op, o, self) if rev else a_op(op, self, o)
        return NotImplemented

    def __add__(self, o): return self._bin('+', o)
    def __radd__(self, o): return self._bin('+', o, True)
    def __sub__(self, o): return self._bin('-', o)
    def __rsub__(self, o): return self._bin('-', o, True)
    def __mul__(self, o): return self._bin('*', o)
    def __rmul__(self, o): return self._bin('*', o, True)
    def __truediv__(self, o): return self._bin('/', o)
    def __rtruediv__(self, o): return self._bin('/', o, True)
    def __floordiv__(self, o): return self._bin('//', o)
    def __rfloordiv__(self, o): return self._bin('//', o, True)
    def __mod__(self, o): return self._bin('%', o)
    def __rmod__(self, o): return self._bin('%', o, True)
    def __pow__(self, o): return self._bin('**', o)
    def __rpow__(self, o): return self._bin('**', o, True)
    def __le__(self, o): return self._bin('<=', o)
    def __lt__(self, o): return self._bin('<', o)
    def __ge__(self, o): return self._bin('>=', o)
    def __gt__(self, o): return self._bin('>', o)
    def __and__(self, o): return self._bin('&', o)
    def __rand__(self, o): return self._bin('&', o, True)
    def __or__(self, o): return self._bin('|', o)
    def __ror__(self, o): return self._bin('|', o, True)
    def __invert__(self):
        if self.dt != 'b':
            raise Unsupported('~ on a number')
        return mkS(ONE - self._p_, 'b')

    def __eq__(self, o):
        if num_ok(o) or isinstance(o, np.ndarray):
            return self._bin('==', o)
        if isinstance(o, SArr):
            return NotImplemented
        return False

    def __ne__(self, o):
        if num_ok(o) or isinstance(o, np.ndarray):
            return self._bin('!=', o)
        if isinstance(o, SArr):
            return NotImplemented
        return True

    def __hash__(self):
        return hash(self._p_)

    def __neg__(self):
        return mkS(-self._p_, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkS(T.mk_abs(self._p_), self.dt)

    def __bool__(self):
        if self.dt == 'b':
            return CTX.fork(self._p_)
        return CTX.fork(ONE - T.eq0(self._p_))

    def __index__(self):
        if self.dt == 'f':
            raise TypeError('float used as an index')
        c = self._p_.const()
        if c is not None:
            return int(c)
        for k in range(13):
            if CTX.fork(T.eq0(self._p_ - k)):
                return k
        if CTX.fork(T.eq0(self._p_ + 1)):
            return -1
        raise Unsupported('unbounded integer used as a concrete index')

    def __int__(self):
        c = self._p_.const()
        if c is not None:
            return int(c)
        if self.dt in ('i', 'b'):
            return self.__index__()
        raise Unsupported('int() of a symbolic number')

    def __float__(self):
        c = self._p_.const()
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic number')

    def __len__(self):
        raise TypeError('object of type scalar has no len()')

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return 'S(%s)' % T.show(self._p_)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool)}[self.dt]

    @property
    def shape(self):
        return ()

    ndim = 0

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        return self

    def round(self, n=0):
        CTX.notes.add('rounding of durations to 10 decimals treated as identity')
        return self


# ------------------------------------------------------------------------------------------------------- arrays
_serial = itertools.count()


def mutated(x):
    """x is modified: inside a loop body it must be an object the loop tracks, or one created by this iteration"""
    if CTX is not None:
        for ser, ids in CTX.guards:
            if x.ser < ser and id(x) not in ids:
                raise Unsupported('modification of an object that the loop does not track')


class Buffer:
    __slots__ = ('dims', 'vs', 'body', 'dt', 'ro', 'ser')

    def __init__(self, dims, vs, body, dt='f'):
        self.ser = next(_serial)
        self.ro = False
        self.dims = dims
        self.vs = vs
        self.body = body
        self.dt = dt

    def at(self, idx):
        return T.subst(self.body, {the_atom(v): i for v, i in zip(self.vs, idx)})

    def set(self, body):
        if self.ro:
            raise Unsupported('modification of an element of a symbolic sequence')
        mutated(self)
        self.body = body
        if CTX is not None and CTX.writes is not None:
            CTX.writes.add(id(self))


def split_at(p, d):
    """a bound of a slice computed with an integer division: named, so that parts of a range can be joined again"""
    if CTX is None or not any(x.kind == 'app' and x.args[0] == 'floordiv' for x in T.subterms(p)):
        return p
    if CTX.decide(T.eq0(d - p)):
        return d
    if CTX.decide(T.eq0(p)):
        return ZERO
    r = T.app('splitat', p, sort='int', sign='nonneg')
    if T.the_atom(r) not in T.SPLITS:
        T.SPLITS.append(T.the_atom(r))
    CTX.assume(T.le0(r - d))
    CTX.assume(T.eq0(r - p))
    return r


def fresh(n):
    return [T.fresh_index() for _ in range(n)]


def dim_p(d):
    if isinstance(d, P):
        return d
    return to_p(d)


def dim_out(d):
    c = d.const()
    return int(c) if c is not None else mkS(d, 'i')


class SArr:
    """array of symbolic shape; a view onto a Buffer"""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, buf, dims, imap=None, back=None):
        self.buf = buf
        self.dims = tuple(dims)
        self.imap = imap        # view index -> buffer index
        self.back = back        # buffer index -> (cond, view index)

    # -- construction
    @staticmethod
    def make(dims, f, dt='f'):
        dims = tuple(dim_p(d) for d in dims)
        vs = fresh(len(dims))
        return SArr(Buffer(dims, vs, to_p(f(*vs)), dt), dims)

    @property
    def dt(self):
        return self.buf.dt

    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool)}[self.buf.dt]

    @property
    def shape(self):
        return tuple(dim_out(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = ONE
        for d in self.dims:
            r = r * d
        return dim_out(r)

    def at(self, *idx):
        idx = [to_p(i) for i in idx]
        if self.imap is not None:
            idx = self.imap(idx)
        return self.buf.at(idx)

    def __len__(self):
        raise Unsupported('native len() of a symbolic array')

    def slen(self):
        if not self.dims:
            raise TypeError('len() of unsized object')
        return dim_out(self.dims[0])

    def copy(self, order='C'):
        return SArr.make(self.dims, self.at, self.dt)

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = memo.get(id(self))
        if r is None:
            r = memo[id(self)] = self.copy()
        return r

    def astype(self, t, **kw):
        r = self.copy()
        r.buf.dt = np_dt(t)
        return r

    def view(self, cls=None):
        if cls is None or cls is SArr:
            return SArr(self.buf, self.dims, self.imap, self.back)
        if not (isinstance(cls, type) and issubclass(cls, SArr)):
            raise Unsupported('view')
        r = object.__new__(cls)
        r.buf, r.dims, r.imap, r.back = self.buf, self.dims, self.imap, self.back
        r.__array_finalize__(self)
        return r

    def same_view(self):
        return SArr(self.buf, self.dims, self.imap, self.back)

    # -- views
    def _compose(self, dims, f, g):
        """f: new idx -> self idx ; g: self idx -> (cond, new idx)"""
        im, bk = self.imap, self.back
        if im is None:
            return SArr(self.buf, dims, f, g)

        def imap(idx):
            return im(f(idx))

        def back(b):
            c, i = bk(b)
            c2, j = g(i)
            return c * c2, j
        return SArr(self.buf, dims, imap, back)

    @property
    def T(self):
        n = len(self.dims)
        return self._compose(self.dims[::-1], lambda i: list(i)[::-1], lambda i: (ONE, list(i)[::-1]))

    def transpose(self, *axes):
        if not axes or axes == (None,):
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        inv = [axes.index(k) for k in range(len(axes))]
        return self._compose([self.dims[a] for a in axes], lambda i: [i[inv[k]] for k in range(len(axes))],
                             lambda i: (ONE, [i[a] for a in axes]))

    def _norm_index(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nn = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (len(self.dims) - nn)
            else:
                out.append(k)
        nn = sum(1 for k in out if k is not None)
        if nn > len(self.dims):
            raise IndexError('too many indices for array')
        out += [slice(None)] * (len(self.dims) - nn)
        return out

    def _scalar_index(self, k, d):
        p = to_p(k)
        c = p.const()
        if c is not None:
            if c < 0:
                p = d + c
            dc = d.const()
            if dc is not None and not (-dc <= c < dc):
                raise IndexError('index out of bounds')
            if dc is None and c >= 0 and CTX is not None:
                ok = CTX.decide(T.le0(num(c + 1) - d))
                if ok is False:
                    raise IndexError('index out of bounds')
                if ok is None:
                    if not CTX.fork(T.le0(num(c + 1) - d)):
                        raise IndexError('index out of bounds')
            if dc is None and c < 0 and CTX is not None:
                if not CTX.fork(T.le0(num(-c) - d)):
                    raise IndexError('index out of bounds')
            return p
        # symbolic index: must be in range (negative indices would wrap)
        ok = CTX.decide(T.le0(-p))
        if ok is None:
            ok = CTX.fork(T.le0(-p))
        if not ok:
            p = p + d
            if not CTX.fork(T.le0(-p)):
                raise IndexError('index out of bounds')
        if not CTX.fork(T.le0(p - d + 1)):
            raise IndexError('index out of bounds')
        return p

    def _slice(self, s, d):
        """-> (start P, step, length P)"""
        step = 1 if s.step is None else int(to_p(s.step).const())
        if step not in (1, -1):
            # only on constant dims
            dc = d.const()
            if dc is None or any(is_sym(x) for x in (s.start, s.stop)):
                raise Unsupported('strided slice')
            st, en, sp = s.indices(int(dc))
            return num(st), sp, num(len(range(st, en, sp)))
        def pos(v, default):
            if v is None:
                return default
            p = to_p(v)
            c = p.const()
            if c is not None:
                if c < 0:
                    q = d + c
                    neg = CTX.fork(T.lt0(q)) if CTX.decide(T.lt0(q)) is not False else False
                    return ZERO if neg else q
                big = CTX.fork(T.lt0(d - p)) if CTX.decide(T.lt0(d - p)) is not False else False
                return d if big else p
            if CTX.fork(T.lt0(p)):
                p = p + d
                if CTX.fork(T.lt0(p)):
                    return ZERO
            if CTX.fork(T.lt0(d - p)):
                return d
            return p
        if step == 1:
            a, b = split_at(pos(s.start, ZERO), d), split_at(pos(s.stop, d), d)
            n = b - a
            if n.const() is None or n.const() < 0:
                if CTX.fork(T.lt0(n)):
                    n = ZERO
            return a, 1, n
        if s.start is not None or s.stop is not None:
            raise Unsupported('reversed slice with bounds')
        return d - 1, -1, d

    def __getitem__(self, key):
        r = self._view(key)
        if isinstance(r, SArr) and not r.dims and r.imap is not None:
            return mkS(r.at(), self.dt)
        return r

    def _view(self, key):
        if isinstance(key, VList):
            key = key_list(key)
        if isinstance(key, list) and key and all(isinstance(k, (int, np.integer)) for k in key):
            key = (np.array(key),)
        if isinstance(key, np.ndarray):
            key = (key,)
        if isinstance(key, SArr):
            if key.dt == 'b':
                return self._mask_get(key)
            return self._fancy((key,))
        if isinstance(key, tuple) and any(isinstance(k, (SArr, np.ndarray, list)) for k in key):
            return self._fancy(key)
        ks = self._norm_index(key)
        dims, plan = [], []       # plan per self axis: ('i',P) | ('s',start,step,newpos)
        newpos = 0
        ax = 0
        for k in ks:
            if k is None:
                dims.append(ONE)
                newpos += 1
                continue
            d = self.dims[ax]
            if isinstance(k, slice):
                st, sp, n = self._slice(k, d)
                plan.append(('s', st, sp, newpos, n))
                dims.append(n)
                newpos += 1
            else:
                if not num_ok(k):
                    raise IndexError('bad index %r' % (k,))
                if dt_of(k) == 'f':
                    raise IndexError('float index')
                plan.append(('i', self._scalar_index(k, d)))
            ax += 1
        total = newpos

        def f(idx):
            out = []
            for p in plan:
                if p[0] == 'i':
                    out.append(p[1])
                else:
                    out.append(p[1] + idx[p[3]] * num(p[2]))
            return out

        def g(b):
            cond = ONE
            new = [ZERO] * total
            for p, x in zip(plan, b):
                if p[0] == 'i':
                    cond = cond * T.eq0(x - p[1])
                else:
                    y = (x - p[1]) * num(1 if p[2] == 1 else -1) if p[2] in (1, -1) else None
                    if y is None:
                        raise Unsupported('write through strided view')
                    cond = cond * T.le0(-y) * T.le0(y - p[4] + 1)
                    new[p[3]] = y
            return cond, new
        return self._compose(dims, f, g)

    def _mask_get(self, m):
        """boolean mask: compressed selection (opaque enumeration of the selected positions)"""
        if len(m.dims) != 1 and len(m.dims) != len(self.dims):
            raise Unsupported('mask rank')
        if len(m.dims) != 1:
            raise Unsupported('multi-dimensional mask selection')
        vs = fresh(1)
        if m.at(vs[0]) == ONE:
            return self.copy()
        ml = T.lam(vs, m.at(vs[0]), m.dims)
        n = T.mk_sum(vs, m.dims, m.at(vs[0]))

        def f(*idx):
            k = T.app('nth', ml, idx[0], sort='int', sign='nonneg')
            r, sel = self.at(k, *idx[1:]), m.at(k)      # a selected position satisfies the mask
            if len(sel.t) == 1 and sel.t[next(iter(sel.t))] == 1:
                for a, e in next(iter(sel.t)):
                    if a in T.lits(r):
                        r = T.assign_lit(r, a, 1)
            elif (ONE - sel).as_atom() in T.lits(r):
                r = T.assign_lit(r, (ONE - sel).as_atom(), 0)
            return r
        return SArr.make((n,) + tuple(self.dims[1:]), f, self.dt)

    def _fancy(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key) + [slice(None)] * (len(self.dims) - len(key))
        adv = [i for i, k in enumerate(key) if isinstance(k, (SArr, np.ndarray, list))]
        if len(adv) != 1:
            raise Unsupported('several index arrays')
        ax = adv[0]
        k = key[ax]
        if isinstance(k, list):
            k = np.array(k)
        for i, o in enumerate(key):
            if i != ax and not (isinstance(o, slice) and o == slice(None)):
                raise Unsupported('mixed fancy index')
        if isinstance(k, np.ndarray):
            if k.dtype == bool:
                if self.dims[ax].const() is not None and len(k) != self.dims[ax].const():
                    raise IndexError('boolean index did not match')
                k = np.flatnonzero(k)
            if k.ndim != 1:
                raise Unsupported('fancy index rank')
            ids = [self._scalar_index(int(x), self.dims[ax]) for x in k]

            def f(*idx):
                r = ZERO
                for c, p in enumerate(ids):
                    a = list(idx)
                    a[ax] = p
                    r = r + T.eq0(idx[ax] - c) * self.at(*a)
                return r
            dims = list(self.dims)
            dims[ax] = num(len(ids))
            if len(ids) == 0:
                return SArr.make(dims, lambda *i: ZERO, self.dt)
            return SArr.make(dims, f, self.dt)
        if len(k.dims) != 1 or k.dt == 'b':
            raise Unsupported('fancy index')
        dims = list(self.dims)
        dims[ax] = k.dims[0]

        def f(*idx):
            a = list(idx)
            a[ax] = k.at(idx[ax])
            return self.at(*a)
        return SArr.make(dims, f, self.dt)

    def __setitem__(self, key, val):
        if isinstance(key, SArr) and key.dt == 'b':
            return self._mask_set(key, val)
        if isinstance(key, np.ndarray) and key.dtype == bool:
            return self._mask_set(as_sarr(key), val)
        v = self._view(key)
        if isinstance(v, S) or not isinstance(v, SArr) or v.buf is not self.buf:
            raise Unsupported('assignment through fancy index')
        v._assign(val)

    def _assign(self, val):
        """write val (broadcast) into the view"""
        if isinstance(val, (VList, list, tuple, SSeq, np.ndarray)):
            val = as_sarr(val)
        if isinstance(val, SArr):
            src = broadcast_to(val, self.dims)
            tmp = src.copy()    # value semantics
            get = tmp.at
            if self.buf.dt == 'i' and val.dt == 'f':
                raise Unsupported('float stored into int array')
        else:
            if not num_ok(val):
                raise Unsupported('storing %r' % type(val))
            if self.buf.dt == 'i' and dt_of(val) == 'f':
                raise Unsupported('float stored into int array')
            p = to_p(val)
            get = lambda *i: p
        b = self.buf
        if self.imap is None:
            b.set(get(*b.vs))
            return
        cond, idx = self.back(list(b.vs))
        cond = simp_range(cond, b)
        new = get(*idx)
        for u in set(x for x in T.subterms(new) if x.kind == 'app' and x.args[0] == 'uniqpos'):
            # written at the position u only: the value may name the position by the index
            for v in b.vs:
                e = T.eq0(T.atom_p(u) - v).as_atom()
                if e is not None and len(cond.t) == 1 and any(e is y for m in cond.t for y, k in m):
                    new = T.rmap(new, lambda x: v if x is u else None)
        b.set(T.ite(cond, new, b.body))

    def _mask_set(self, m, val):
        if isinstance(val, (VList, list, np.ndarray)):
            val = as_sarr(val)
        if isinstance(val, SArr) and val.dims:
            # scatter of a compressed vector: position = rank within the mask
            if len(m.dims) != 1 or len(self.dims) != 1 or len(val.dims) != 1:
                raise Unsupported('scatter rank')
            if val.dims[0] == ONE:
                return self._mask_set(m, mkS(val.at(ZERO), val.dt))
            vs = fresh(1)
            if m.at(vs[0]) == ONE:
                self._assign(val)
                return
            ml = T.lam(vs, m.at(vs[0]), m.dims)
            n = T.mk_sum(vs, m.dims, m.at(vs[0]))
            if not dims_eq(n, val.dims[0]):
                raise ValueError('NumPy boolean array indexing assignment: wrong number of values')
            old = self.copy()
            src = val.copy()
            self._assign(SArr.make(self.dims, lambda i: T.ite(m.at(i), src.at(T.app('rank', ml, i, sort='int', sign='nonneg')),
                                                              old.at(i))))
            return
        mm = broadcast_to(m, self.dims) if len(m.dims) == len(self.dims) else None
        if mm is None:
            raise Unsupported('mask rank')
        p = to_p(val.at() if isinstance(val, SArr) else val)
        old = self.copy()
        mc = mm.copy()
        self._assign(SArr.make(self.dims, lambda *i: T.ite(mc.at(*i), p, old.at(*i))))

    # -- arithmetic
    def _bin(self, op, o, rev=False):
        if isinstance(o, (VList, list, tuple)) or isinstance(o, SSeq):
            try:
                o = as_sarr(o)
            except TypeError:
                return NotImplemented
        if isinstance(o, np.ndarray):
            if o.dtype.kind in 'OUS':
                return NotImplemented
            o = as_sarr(o)
        if isinstance(o, SArr) or num_ok(o):
            return a_op(op, o, self) if rev else a_op(op, self, o)
        return NotImplemented

    def __add__(self, o): return self._bin('+', o)
    def __radd__(self, o): return self._bin('+', o, True)
    def __sub__(self, o): return self._bin('-', o)
    def __rsub__(self, o): return self._bin('-', o, True)
    def __mul__(self, o): return self._bin('*', o)
    def __rmul__(self, o): return self._bin('*', o, True)
    def __truediv__(self, o): return self._bin('/', o)
    def __rtruediv__(self, o): return self._bin('/', o, True)
    def __pow__(self, o): return self._bin('**', o)
    def __rpow__(self, o): return self._bin('**', o, True)
    def __floordiv__(self, o): return self._bin('//', o)
    def __mod__(self, o): return self._bin('%', o)
    def __le__(self, o): return self._bin('<=', o)
    def __lt__(self, o): return self._bin('<', o)
    def __ge__(self, o): return self._bin('>=', o)
    def __gt__(self, o): return self._bin('>', o)
    def __and__(self, o): return self._bin('&', o)
    def __or__(self, o): return self._bin('|', o)

    def __eq__(self, o):
        if isinstance(o, (list, VList)) and len(o) == 0 and not is_sym(o):
            # numpy: comparison with an empty list; deprecated elementwise failure gives False
            return False
        r = self._bin('==', o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin('!=', o)
        return True if r is NotImplemented else r
    __hash__ = None

    def __invert__(self):
        return a_map(lambda p: ONE - p, self, 'b')

    def __neg__(self):
        return a_map(lambda p: -p, self, self.dt)

    def __abs__(self):
        return a_map(T.mk_abs, self, self.dt)

    def _inplace(self, op, o):
        r = self._bin(op, o)
        if r is NotImplemented:
            raise TypeError('bad in-place operand')
        if isinstance(r, SArr) and r.dt == 'f' and self.buf.dt == 'i':
            raise TypeError("Cannot cast ufunc output from float to int")
        self._assign(r)
        return self

    def __iadd__(self, o): return self._inplace('+', o)
    def __isub__(self, o): return self._inplace('-', o)
    def __imul__(self, o): return self._inplace('*', o)
    def __itruediv__(self, o): return self._inplace('/', o)
    def __ipow__(self, o): return self._inplace('**', o)

    def __bool__(self):
        n = ONE
        for d in self.dims:
            n = n * d
        if n.const() != 1:
            if CTX.fork(T.eq0(n - 1)):
                pass
            else:
                raise ValueError('The truth value of an array with more than one element is ambiguous')
        return CTX.fork(self.at(*[ZERO] * len(self.dims)) if self.dt == 'b' else
                        ONE - T.eq0(self.at(*[ZERO] * len(self.dims))))

    def __iter__(self):
        c = self.dims[0].const() if self.dims else None
        if c is None:
            raise Unsupported('native iteration over a symbolic array')
        for k in range(int(c)):
            yield self[k]

    def __contains__(self, x):
        if not num_ok(x):
            raise Unsupported('in')
        e = self == x
        vs = fresh(len(self.dims))
        return CTX.fork(exists(vs, self.dims, e.at(*vs)))

    # -- methods
    def sum(self, axis=None, keepdims=False, dtype=None):
        return a_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, dtype=None):
        r = a_sum(self, axis, keepdims)
        n = ONE
        for i in norm_axes(axis, len(self.dims)):
            n = n * self.dims[i]
        return r / dim_out(n)

    def prod(self, axis=None, keepdims=False, dtype=None):
        return keep_axes(a_prod(self, axis), self, axis, keepdims)

    def any(self, axis=None, keepdims=False):
        return keep_axes(a_any(self, axis), self, axis, keepdims)

    def all(self, axis=None, keepdims=False):
        return keep_axes(a_any(self, axis, True), self, axis, keepdims)

    def max(self, axis=None, keepdims=False):
        return keep_axes(a_max(self, axis), self, axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return -self._neg().max(axis, keepdims)

    def _neg(self):
        return -self

    def fill(self, v):
        self._assign(v)

    def swapaxes(self, i, j):
        o = list(range(len(self.dims)))
        o[i], o[j] = o[j], o[i]
        return self.transpose(*o)

    def nonzero(self):
        from . import snp
        return snp.where(self)

    def cumsum(self, axis=None):
        from . import snp
        return snp.cumsum(self, axis)

    def dot(self, o):
        from . import snp
        return snp.dot(self, o)

    def clip(self, lo=None, hi=None):
        from . import snp
        return snp.clip(self, lo, hi)

    def repeat(self, n, axis=None):
        from . import snp
        return snp.repeat(self, n, axis)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return as_sarr(o).dot(self)

    def ravel(self, order='C'):
        return a_reshape(self, (-1,))

    def flatten(self, order='C'):
        return a_reshape(self, (-1,)).copy()

    def reshape(self, *shape, order='C'):
        if order != 'C':
            raise Unsupported('reshape order')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return a_reshape(self, shape)

    def squeeze(self, axis=None):
        return a_squeeze(self, axis)

    def tolist(self):
        return seq_of(self)

    def round(self, n=0):
        CTX.notes.add('rounding of durations to 10 decimals treated as identity')
        return self.copy()

    def item(self):
        return mkS(self.at(*[ZERO] * len(self.dims)), self.dt)

    def __repr__(self):
        vs = [T.var('x%d' % i, 'int', 'nonneg') for i in range(len(self.dims))]
        return 'SArr[%s](%s)' % (', '.join(T.show(d) for d in self.dims), T.show(self.at(*vs)))

    __str__ = __repr__

    def __format__(self, spec):
        return '<symarr>'


def simp_range(cond, b):
    """drop range conditions implied by 0<=v<dim of the buffer"""
    ls = T.lits(cond)
    for a in ls:
        if a.kind not in ('le',):
            continue
        q = a.args[0]
        if smt.sat([(a, 0)] + box(b.vs, b.dims) + (CTX.relevant(a) if CTX else [])) == 'unsat':
            cond = T.assign_lit(cond, a, 1)
        elif smt.sat([(a, 1)] + box(b.vs, b.dims) + (CTX.relevant(a) if CTX else [])) == 'unsat':
            cond = T.assign_lit(cond, a, 0)
    return cond


def box(vs, dims):
    out = []
    for v, d in zip(vs, dims):
        p = T.le0(v - d + 1)
        for a in T.lits(p):
            if T.assign_lit(p, a, 1) == ONE:
                out.append((a, 1))
            else:
                out.append((a, 0))
    return out


def truth(a):
    if a.dt == 'b':
        return a
    return a_map(lambda p: ONE - T.eq0(p), a, 'b')


def exists(vs, dims, cond):
    """[exists index: cond] as an Iverson polynomial"""
    if CTX and any(CTX.decide(T.le0(to_p(d))) is True for d in dims):
        return ZERO         # empty range
    cond = simp_box(cond, vs, dims)
    s = T.mk_sum(vs, dims, cond)
    return ONE - T.eq0(s)


def simp_box(cond, vs, dims):
    for a in T.lits(cond):
        v = CTX.lits.get(a) if CTX else None
        if v is None and a.kind != 'bapp':
            bx = box(vs, dims) + (CTX.relevant(a) if CTX else [])
            if smt.sat([(a, 0)] + bx) == 'unsat':
                v = 1
            elif smt.sat([(a, 1)] + bx) == 'unsat':
                v = 0
        if v is not None:
            cond = T.assign_lit(cond, a, v)
    return cond


def np_dt(t):
    if t is None:
        return 'f'
    if t in ('f', 'i', 'b'):
        return t
    t = getattr(t, '_builtin_', t)
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(np.dtype(t).kind) or _bad('dtype %r' % (t,))


def _bad(msg):
    raise Unsupported(msg)


def dims_eq(a, b):
    a, b = dim_p(a), dim_p(b)
    if a == b:
        return True
    if CTX is None:
        return False
    return CTX.decide(T.eq0(a - b)) is True


def as_sarr(x, dt=None):
    """convert to SArr"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, VList) and not x.is_sym():
        x = list(x)
    if isinstance(x, (SSeq, VList)):
        return seq_to_arr(x.sseq() if isinstance(x, VList) else x)
    if num_ok(x):
        return SArr.make((), lambda: to_p(x), dt or dt_of(x))
    if isinstance(x, np.ndarray) and x.dtype.kind in 'bif':
        k = {'b': 'b', 'i': 'i', 'f': 'f'}[x.dtype.kind]
        if x.size and x.size <= 4096:
            flat = x.ravel()
            if x.size > 1 and np.all(flat == flat[0]):
                c = to_p(flat[0])
                return SArr.make(x.shape, lambda *i: c, dt or k)
            if x.size > 60:
                raise Unsupported('large concrete array in a symbolic expression')

        def f(*idx):
            r = ZERO
            for c in np.ndindex(*x.shape):
                t = to_p(x[c])
                for i, j in zip(idx, c):
                    t = t * T.eq0(i - j)
                r = r + t
            return r
        return SArr.make(x.shape, f, dt or k)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return SArr.make((0,), lambda i: ZERO, 'f')
        els = [as_sarr(e) for e in x]
        nd = els[0].dims
        for e in els:
            if len(e.dims) != len(nd) or not all(dims_eq(a, b) for a, b in zip(e.dims, nd)):
                raise Unsupported('ragged array')
        els = [e.copy() for e in els]
        k = 'f' if any(e.dt == 'f' for e in els) else ('i' if any(e.dt == 'i' for e in els) else 'b')

        def f(i, *rest):
            r = ZERO
            for c, e in enumerate(els):
                r = r + T.eq0(i - c) * e.at(*rest)
            return r
        if len(els) == 1:
            return SArr.make((1,) + tuple(nd), lambda i, *rest: els[0].at(*rest), dt or k)
        return SArr.make((len(els),) + tuple(nd), f, dt or k)
    raise TypeError('not array-like: %r' % type(x))


def broadcast_dims(a, b):
    n = max(len(a), len(b))
    a = (ONE,) * (n - len(a)) + tuple(a)
    b = (ONE,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x == y:
            out.append(x)
        elif x.const() == 1:
            out.append(y)
        elif y.const() == 1:
            out.append(x)
        elif dims_eq(x, y):
            out.append(x)
        elif x.const() is not None and y.const() is not None:
            raise ValueError('operands could not be broadcast together')
        else:
            # numpy fails unless the sizes agree (or one of them is 1)
            if CTX is not None and CTX.fork(T.eq0(x - y)):
                out.append(x)
            else:
                if CTX is not None and CTX.decide(T.eq0(x - 1)) is not True and CTX.decide(T.eq0(y - 1)) is not True:
                    raise ValueError('operands could not be broadcast together')
                raise Unsupported('broadcast of unknown sizes')
    return tuple(out)


def bidx(arr, idx):
    """index of arr for broadcast index idx"""
    k = len(idx) - len(arr.dims)
    return [ZERO if d.const() == 1 else i for d, i in zip(arr.dims, idx[k:])]


def broadcast_to(a, dims):
    dims = tuple(dim_p(d) for d in dims)
    if len(a.dims) > len(dims):
        # leading ones may be dropped on assignment
        extra = len(a.dims) - len(dims)
        if all(d.const() == 1 for d in a.dims[:extra]):
            b = a
            return SArr.make(dims, lambda *i: b.at(*([ZERO] * extra + bidx_dims(b.dims[extra:], i))), a.dt)
        raise ValueError('could not broadcast input array')
    for d, e in zip(a.dims[::-1], dims[::-1]):
        if not (d.const() == 1 or dims_eq(d, e)):
            if d.const() is not None and e.const() is not None:
                raise ValueError('could not broadcast input array')
            if CTX is not None and CTX.fork(T.eq0(d - e)):
                continue
            raise ValueError('could not broadcast input array')
    src = a
    return SArr.make(dims, lambda *i: src.at(*bidx(src, i)), a.dt)


def bidx_dims(dims, idx):
    return [ZERO if d.const() == 1 else i for d, i in zip(dims, idx)]


def a_op(op, a, b):
    da, db = dt_of(a) if not isinstance(a, SArr) else a.dt, dt_of(b) if not isinstance(b, SArr) else b.dt
    A = a if isinstance(a, SArr) else as_sarr(a)
    B = b if isinstance(b, SArr) else as_sarr(b)
    dims = broadcast_dims(A.dims, B.dims)
    vs = fresh(len(dims))
    pa, pb = A.at(*bidx(A, vs)), B.at(*bidx(B, vs))
    cmp_ = op in ('<', '<=', '>', '>=', '==', '!=')
    if op == '+':
        r, dt = pa + pb, join_dt(da, db)
        if da == 'b' and db == 'b':
            r, dt = T.bor(pa, pb), 'b'
    elif op == '-':
        r, dt = pa - pb, join_dt(da, db)
    elif op == '*':
        r, dt = pa * pb, 'b' if da == 'b' and db == 'b' else join_dt(da, db)
    elif op == '/':
        if CTX is not None:
            CTX.div(pb)
        r, dt = pa / pb, 'f'
    elif op == '**':
        r, dt = p_pow(pa, pb), join_dt(da, db)
    elif op == '&':
        r, dt = pa * pb, 'b'
    elif op == '|':
        r, dt = T.bor(pa, pb), 'b'
    elif op == '<':
        r, dt = T.lt0(pa - pb), 'b'
    elif op == '<=':
        r, dt = T.le0(pa - pb), 'b'
    elif op == '>':
        r, dt = T.lt0(pb - pa), 'b'
    elif op == '>=':
        r, dt = T.le0(pb - pa), 'b'
    elif op == '==':
        r, dt = T.eq0(pa - pb), 'b'
    elif op == '!=':
        r, dt = ONE - T.eq0(pa - pb), 'b'
    else:
        raise Unsupported('array operator ' + op)
    if not dims:
        return mkS(T.canon(r), dt)
    return SArr(Buffer(dims, vs, T.canon(r), dt), dims)


def a_map(f, a, dt='f'):
    if not isinstance(a, SArr):
        a = as_sarr(a)
    vs = fresh(len(a.dims))
    r = f(a.at(*vs))
    if not a.dims:
        return mkS(r, dt)
    return SArr(Buffer(a.dims, vs, r, dt), a.dims)


def norm_axes(axis, n):
    if axis is None:
        return list(range(n))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    out = []
    for k in axis:
        k = int(k)
        if not -n <= k < n:
            raise np.AxisError(k, n)
        out.append(k % n)
    if len(set(out)) != len(out):
        raise ValueError("duplicate value in 'axis'")
    return out


def a_sum(a, axis=None, keepdims=False):
    if not isinstance(a, SArr):
        a = as_sarr(a)
    axes = norm_axes(axis, len(a.dims))
    keep = [i for i in range(len(a.dims)) if i not in axes]
    vs = fresh(len(a.dims))
    body = a.at(*vs)
    dt = 'i' if a.dt in 'bi' else 'f'
    body = simp_box(body, [vs[i] for i in axes], [a.dims[i] for i in axes]) if T.lits(body) else body
    r = T.mk_sum([vs[i] for i in axes], [a.dims[i] for i in axes], body)
    if keepdims:
        dims = [ONE if i in axes else d for i, d in enumerate(a.dims)]
        nv = [vs[i] if i not in axes else T.fresh_index() for i in range(len(a.dims))]
        return SArr(Buffer(tuple(dims), nv, r, dt), dims)
    if not keep:
        return mkS(r, dt)
    dims = tuple(a.dims[i] for i in keep)
    return SArr(Buffer(dims, [vs[i] for i in keep], r, dt), dims)


def a_prod(a, axis=None):
    if not isinstance(a, SArr):
        a = as_sarr(a)
    axes = norm_axes(axis, len(a.dims))
    if len(axes) != 1:
        for ax in sorted(axes, reverse=True):
            a = a_prod(a, ax)
        return a
    ax = axes[0]
    n = a.dims[ax].const()
    if n is not None and n > 64:
        n = None
    keep = [i for i in range(len(a.dims)) if i != ax]
    dt = 'i' if a.dt in 'bi' else 'f'
    if n is None:
        # product over a symbolic range = exp(sum(log)) for positive factors
        vs = fresh(len(a.dims))
        body = a.at(*vs)
        r = T.app('prod', T.lam([vs[ax]], body, [a.dims[ax]]), sign=T.sign(body) if T.sign(body) in ('pos', 'nonneg') else None)
        if not keep:
            return mkS(r, dt)
        dims = tuple(a.dims[i] for i in keep)
        return SArr(Buffer(dims, [vs[i] for i in keep], r, dt), dims)

    def f(*idx):
        r = ONE
        for k in range(int(n)):
            full = list(idx)
            full.insert(ax, num(k))
            r = r * a.at(*full)
        return r
    if not keep:
        return mkS(f(), dt)
    return SArr.make([a.dims[i] for i in keep], f, dt)


def a_max(a, axis=None):
    if not isinstance(a, SArr):
        a = as_sarr(a)
    axes = norm_axes(axis, len(a.dims))
    keep = [i for i in range(len(a.dims)) if i not in axes]
    vs = fresh(len(a.dims))
    body = a.at(*vs)
    r = T.mk_max([vs[i] for i in axes], [a.dims[i] for i in axes], body)
    if not keep:
        return mkS(r, a.dt)
    dims = tuple(a.dims[i] for i in keep)
    return SArr(Buffer(dims, [vs[i] for i in keep], r, a.dt), dims)


def keep_axes(r, a, axis, keepdims):
    if not keepdims:
        return r
    axes = norm_axes(axis, len(a.dims))
    dims = [ONE if i in axes else d for i, d in enumerate(a.dims)]
    r = as_sarr(r)
    return SArr.make(dims, lambda *i: r.at(*[x for k, x in enumerate(i) if k not in axes]), r.dt)


def a_any(a, axis=None, every=False):
    a = truth(a)
    axes = norm_axes(axis, len(a.dims))
    keep = [i for i in range(len(a.dims)) if i not in axes]
    if len(axes) == 1 and a.dims[axes[0]].const() is not None and a.dims[axes[0]].const() <= 8:
        ax = axes[0]

        def f(*idx):
            r = ONE if every else ZERO
            for k in range(int(a.dims[ax].const())):
                x = list(idx)
                x.insert(ax, num(k))
                r = T.band(r, a.at(*x)) if every else T.bor(r, a.at(*x))
            return r
        if not keep:
            return mkS(f(), 'b')
        return SArr.make([a.dims[i] for i in keep], f, 'b')
    vs = fresh(len(a.dims))
    body = a.at(*vs)
    r = exists([vs[i] for i in axes], [a.dims[i] for i in axes], ONE - body if every else body)
    if every:
        r = ONE - r
    if not keep:
        return mkS(r, 'b')
    return SArr(Buffer(tuple(a.dims[i] for i in keep), [vs[i] for i in keep], r, 'b'), tuple(a.dims[i] for i in keep))


def a_squeeze(a, axis=None):
    if axis is None:
        # a symbolic dimension may be 1 at run time: case split
        sel = []
        for i, d in enumerate(a.dims):
            c = d.const()
            if c == 1:
                sel.append(i)
            elif c is None and CTX.fork(T.eq0(d - 1)):
                sel.append(i)
    else:
        sel = norm_axes(axis, len(a.dims))
    keep = [i for i in range(len(a.dims)) if i not in sel]

    def f(idx):
        out = [ZERO] * len(a.dims)
        for k, i in zip(keep, idx):
            out[k] = i
        return out

    def g(idx):
        return ONE, [idx[k] for k in keep]
    return a._compose([a.dims[k] for k in keep], f, g)


class Split:
    """registry: flattened index <-> multi-index for row-major flattening of symbolic dimensions"""


def flat_app(dims, idx):
    """row-major flat index"""
    p = ZERO
    for d, i in zip(dims, idx):
        p = p * d + i
    return p


def a_reshape(a, shape):
    shape = list(shape)
    dims = [None if (not isinstance(s, P) and not isinstance(s, S) and s == -1) else dim_p(s) for s in shape]
    tot = ONE
    for d in a.dims:
        tot = tot * d
    if dims.count(None) == 1:
        known = ONE
        for d in dims:
            if d is not None:
                known = known * d
        q = T.canon(tot / known)
        if not (q.is_int() or q.const() is not None):
            raise Unsupported('reshape -1')
        dims = [q if d is None else d for d in dims]
    dims = tuple(dims)
    if dims == a.dims:
        return a.same_view()
    if dims_eq_list(nontriv(dims), nontriv(a.dims)):
        # only unit axes added/removed
        ai = [i for i, d in enumerate(a.dims) if d.const() != 1]
        ni = [i for i, d in enumerate(dims) if d.const() != 1]

        def f(idx):
            out = [ZERO] * len(a.dims)
            for x, y in zip(ai, ni):
                out[x] = idx[y]
            return out

        def g(idx):
            out = [ZERO] * len(dims)
            for x, y in zip(ai, ni):
                out[y] = idx[x]
            return ONE, out
        return a._compose(dims, f, g)
    t2 = ONE
    for d in dims:
        t2 = t2 * d
    if not dims_eq(t2, tot):
        if CTX is None or not CTX.fork(T.eq0(t2 - tot)):
            raise ValueError('cannot reshape array')
    # constant total size: explicit
    if tot.const() is not None and all(d.const() is not None for d in dims + tuple(a.dims)):
        ad = [int(d.const()) for d in a.dims]
        nd = [int(d.const()) for d in dims]
        vals = {}
        for k in range(int(tot.const())):
            vals[np.unravel_index(k, nd)] = [num(int(x)) for x in np.unravel_index(k, ad)]

        def f(*idx):
            r = ZERO
            for c, src in vals.items():
                t = a.at(*src)
                for i, j in zip(idx, c):
                    t = t * T.eq0(i - int(j))
                r = r + t
            return r
        return SArr.make(dims, f, a.dt)
    return reshape_sym(a, dims)


def nontriv(d):
    return [x for x in d if x.const() != 1]


def dims_eq_list(a, b):
    return len(a) == len(b) and all(dims_eq(x, y) for x, y in zip(a, b))


def key_of_dims(dims):
    return tuple(dims)


def unflat(dims, k, flat):
    """k-th component of the multi-index of row-major position `flat`"""
    # syntactic inverse of flat_app
    dims = tuple(dims)
    if dims[k].const() == 1:
        return ZERO
    if any(d.const() == 1 for d in dims):
        k = sum(1 for d in dims[:k] if d.const() != 1)
        dims = tuple(d for d in dims if d.const() != 1)
    if len(dims) == 1:
        return flat
    inv = invert_flat(dims, flat)
    if inv is not None:
        return inv[k]
    return T.app('unflat%d' % k, flat, *dims, sort='int', sign='nonneg')


def invert_flat(dims, flat):
    """if flat is syntactically the row-major position of some index tuple, return the tuple"""
    out = []
    cur = flat
    for d in reversed(dims[1:]):
        # cur = q*d + r
        da = d.as_atom()
        if da is None:
            return None
        q, r = {}, {}
        for m, c in cur.t.items():
            dm = dict(m)
            if dm.get(da, 0) >= 1:
                dm[da] -= 1
                q[tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda ae: ae[0].id))] = c
            else:
                r[m] = c
        q, r = P(q), P(r)
        # r must be provably in [0,d)
        if not (r.is_int() and q.is_int()):
            return None
        if CTX is None or CTX.decide(T.le0(-r)) is not True or CTX.decide(T.le0(r - d + 1)) is not True:
            # an index variable that is added to a multiple of the row length is taken to range over the row
            if r.as_atom() is None or r.as_atom().kind not in ('var', 'bvar') or q == ZERO:
                return None
        out.append(r)
        cur = q
    out.append(cur)
    return out[::-1]


class SubArr(SArr):
    """base of array subclasses defined by the code: results of array operations are of the class of the (leftmost) operand"""

    def __init__(self, *a, **kw):
        pass

    def __array_finalize__(self, obj):
        pass

    def wrap(self, r):
        return r.view(type(self)) if isinstance(r, SArr) and not isinstance(r, SubArr) else r


def _sub_ops():
    def op(nm):
        base = getattr(SArr, nm)

        def f(self, *a, **kw):
            r = base(self, *a, **kw)
            if isinstance(r, SArr) and not isinstance(r, SubArr):
                # views are finalised from the operand itself
                q = r.view(type(self))
                q.__array_finalize__(self)
                return q
            return r
        f.__name__ = nm
        return f
    for nm in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__pow__', '__rpow__',
               '__floordiv__', '__mod__', '__le__', '__lt__', '__ge__', '__gt__', '__and__', '__or__', '__eq__', '__ne__', '__invert__', '__neg__',
               '__abs__', '__getitem__', 'copy', 'reshape', 'ravel', 'flatten', 'astype'):
        if hasattr(SArr, nm):
            setattr(SubArr, nm, op(nm))
    SubArr.__hash__ = None


def reshape_sym(a, dims):
    src = tuple(a.dims)
    # common trailing axes stay as they are
    t = 0
    while t < min(len(src), len(dims)) - 1 and dims_eq(src[-1 - t], dims[-1 - t]):
        t += 1
    if t:
        sh, dh = src[:len(src) - t], dims[:len(dims) - t]

        def f(*idx):
            fl = flat_app(dh, idx[:len(dh)])
            head = [fl] if len(sh) == 1 else [unflat(sh, k, fl) for k in range(len(sh))]
            return a.at(*(head + list(idx[len(dh):])))
        return SArr.make(dims, f, a.dt)

    def f(*idx):
        fl = flat_app(dims, idx)
        if len(src) == 1:
            return a.at(fl)
        return a.at(*[unflat(src, k, fl) for k in range(len(src))])
    return SArr.make(dims, f, a.dt)


# ---------------------------------------------------------------------------------------------- sequences, lists
class SSeq:
    """sequence of symbolic length; elem(k) gives the k-th element (S, SArr, tuple, object)"""

    def __init__(self, n, elem, tail=()):
        self.n = to_p(n)
        self.elem = elem
        self.tail = tail        # objects appended since (still reachable as themselves)

    def slen(self):
        return dim_out(self.n)

    def __iter__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported('native iteration over a symbolic sequence')
        for k in range(int(c)):
            yield self.elem(num(k))

    def __getitem__(self, k):
        if isinstance(k, slice):
            a = SArr.make((self.n,), lambda i: ZERO)
            st, sp, n = a._slice(k, self.n)
            e = self.elem
            return SSeq(n, lambda i: e(st + i * num(sp)))
        a = SArr.make((self.n,), lambda i: ZERO)
        return self.elem(a._scalar_index(k, self.n))

    def close(self):
        pass


def val_merge(cond, a, b):
    """if cond then a else b, for values"""
    if num_ok(a) and num_ok(b):
        dt = dt_of(a) if dt_of(a) == dt_of(b) else 'f'
        return mkS(T.ite(cond, to_p(a), to_p(b)), dt)
    if isinstance(a, (SArr, np.ndarray)) and isinstance(b, (SArr, np.ndarray)):
        A, B = as_sarr(a), as_sarr(b)
        if len(A.dims) != len(B.dims) or not all(dims_eq(x, y) for x, y in zip(A.dims, B.dims)):
            raise Unsupported('merge of arrays of different shape')
        A, B = A.copy(), B.copy()
        return SArr.make(A.dims, lambda *i: T.ite(cond, A.at(*i), B.at(*i)), 'f' if 'f' in (A.dt, B.dt) else A.dt)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        r = [val_merge(cond, x, y) for x, y in zip(a, b)]
        return VList(r) if isinstance(a, VList) else type(a)(r)
    if a is b:
        return a
    try:
        if type(a) is type(b) and not is_sym(a) and bool(a == b):
            return a
    except Exception:
        pass
    raise Unsupported('merge of different values')


class VList(list):
    """list that may acquire a symbolic-length tail: prefix (native) + segments of SSeq"""

    def __init__(self, it=()):
        list.__init__(self, it)
        self.ser = next(_serial)
        self.sym = None         # None or SSeq describing the whole content

    def is_sym(self):
        return self.sym is not None

    def sseq(self):
        if self.sym is not None:
            return self.sym
        return list_seq(list(self))

    def slen(self):
        if self.sym is not None:
            return self.sym.slen()
        return list.__len__(self)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported('native len() of symbolic list')
        return list.__len__(self)

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return list.__iter__(self)

    def __getitem__(self, k):
        if self.sym is not None:
            r = self.sym[k]
            return VList.of(r) if isinstance(k, slice) else r
        if isinstance(k, slice):
            return VList(list.__getitem__(self, slice(*[None if x is None else x.__index__() for x in (k.start, k.stop, k.step)])))
        if isinstance(k, S):
            k = k.__index__()
        return list.__getitem__(self, k)

    def __setitem__(self, k, v):
        mutated(self)
        if self.sym is not None:
            old = self.sym
            a = SArr.make((old.n,), lambda i: ZERO)
            p = a._scalar_index(k, old.n)
            oe = old.elem

            def el(i):
                c = T.eq0(i - p)
                if c == ONE:
                    return v
                if c == ZERO:
                    return oe(i)
                return val_merge(c, v, oe(i))
            self.sym = SSeq(old.n, el)
            return
        if isinstance(k, S):
            k = k.__index__()
        list.__setitem__(self, k, v)

    @staticmethod
    def of(seq):
        r = VList()
        if isinstance(seq, SSeq):
            c = seq.n.const()
            if c is not None:
                r.extend(seq.elem(num(k)) for k in range(int(c)))
            else:
                r.sym = seq
        else:
            list.extend(r, seq)
        return r

    def append(self, x):
        mutated(self)
        if self.sym is not None:
            old = self.sym
            oe, n = old.elem, old.n

            def el(i):
                c = T.eq0(i - n)
                d = CTX.decide(c) if CTX else None
                if c == ONE or d is True:
                    return x
                if c == ZERO or d is False:
                    return oe(i)
                return val_merge(c, x, oe(i))
            self.sym = SSeq(n + 1, el, old.tail + (x,))
            return
        list.append(self, x)

    def extend(self, xs):
        mutated(self)
        if self.sym is None and not is_sym(xs):
            list.extend(self, xs)
            return
        self.sym = seq_concat(self.sseq(), as_seq(xs))
        list.clear(self)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if isinstance(o, (SArr, np.ndarray)):
            return NotImplemented
        if not isinstance(o, list):
            return NotImplemented
        r = VList(self) if self.sym is None else VList.of(self.sym)
        r.extend(o)
        return r

    def __radd__(self, o):
        if isinstance(o, list):
            r = VList(o)
            r.extend(self)
            return r
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, S):
            if self.sym is None and list.__len__(self) == 1:
                x = list.__getitem__(self, 0)
                return VList.of(SSeq(n._p_, lambda k: x))
            raise Unsupported('list repetition')
        if isinstance(n, (int, np.integer)):
            if self.sym is not None:
                raise Unsupported('symbolic list repetition')
            return VList(list.__mul__(self, int(n)))
        return NotImplemented
    __rmul__ = __mul__

    def index(self, x):
        if self.sym is not None:
            return seq_index(self.sym, x)
        for i, e in enumerate(list.__iter__(self)):
            if e is x or bool(e == x):
                return i
        raise ValueError('not in list')

    def __contains__(self, x):
        if self.sym is not None:
            k = T.fresh_index()
            e = self.sym.elem(k)
            return CTX.fork(exists([k], [self.sym.n], to_p(e == x)))
        return any(e is x or bool(e == x) for e in list.__iter__(self))

    def remove(self, x):
        if self.sym is not None:
            raise Unsupported('remove')
        for i, e in enumerate(list.__iter__(self)):
            if e is x or bool(e == x):
                list.pop(self, i)
                return
        raise ValueError('list.remove(x): x not in list')

    def pop(self, i=-1):
        if self.sym is not None:
            c = to_p(i).const()
            if c is None:
                raise Unsupported('pop')
            n = self.sym.n
            if not CTX.fork(T.lt0(-n)):
                raise IndexError('pop from empty list')
            oe = self.sym.elem
            if c == 0:
                r = oe(ZERO)
                self.sym = SSeq(n - 1, lambda k: oe(k + 1))
                return r
            if c == -1:
                r = oe(n - 1)
                self.sym = SSeq(n - 1, oe)
                return r
            raise Unsupported('pop')
        return list.pop(self, int(i))

    def insert(self, i, x):
        if self.sym is not None:
            raise Unsupported('insert')
        list.insert(self, i, x)

    def copy(self):
        return VList(self) if self.sym is None else VList.of(self.sym)

    def __eq__(self, o):
        if self.sym is not None:
            if isinstance(o, list):
                if isinstance(o, VList) and o.sym is not None:
                    raise Unsupported('comparison of symbolic lists')
                if list.__len__(o) == 0:
                    return mkS(T.eq0(self.sym.n), 'b')
            raise Unsupported('comparison of symbolic lists')
        if isinstance(o, SArr):
            return NotImplemented
        if not isinstance(o, list):
            return False
        if isinstance(o, VList) and o.sym is not None:
            return o == self
        if list.__len__(self) != list.__len__(o):
            return False
        return all(bool(deep_eq(a, b)) for a, b in zip(list.__iter__(self), list.__iter__(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not r if isinstance(r, bool) else ~r
    __hash__ = None

    def __bool__(self):
        if self.sym is not None:
            return CTX.fork(ONE - T.eq0(self.sym.n))
        return list.__len__(self) > 0

    def __deepcopy__(self, memo):
        import copy
        r = memo.get(id(self))
        if r is not None:
            return r
        r = VList()
        memo[id(self)] = r
        if self.sym is not None:
            r.sym = self.sym
        else:
            list.extend(r, [copy.deepcopy(x, memo) for x in list.__iter__(self)])
        return r

    def __reversed__(self):
        if self.sym is not None:
            raise Unsupported('reversed')
        return list.__reversed__(self)

    def __repr__(self):
        return list.__repr__(self) if self.sym is None else 'VList<%s>' % T.show(self.sym.n)


def deep_eq(a, b):
    if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)):
        if isinstance(a, SArr) or isinstance(b, SArr):
            r = (a == b)
            return r.__bool__() if isinstance(r, SArr) else r
        return bool(a == b)
    return a == b


def list_seq(lst):
    lst = list(lst)

    def el(k):
        c = k.const()
        if c is not None:
            return lst[int(c)]
        if not lst:
            raise Unsupported('element of empty list')
        r = lst[-1]
        for i in range(len(lst) - 2, -1, -1):
            r = val_merge(T.eq0(k - i), lst[i], r)
        return r
    return SSeq(num(len(lst)), el)


def seq_concat(a, b):
    na, ea, eb = a.n, a.elem, b.elem
    if na.const() == 0:
        return b
    if b.n.const() == 0:
        return a

    def el(k):
        c = T.lt0(k - na)
        if c == ONE:
            return ea(k)
        if c == ZERO:
            return eb(k - na)
        d = CTX.decide(c) if CTX is not None else None
        if d is True:
            return ea(k)
        if d is False:
            return eb(k - na)
        return val_merge(c, ea(k), eb(k - na))
    return SSeq(na + b.n, el)


def as_seq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, VList):
        return x.sseq()
    if isinstance(x, SArr):
        return seq_of_arr(x)
    return list_seq(list(x))


def seq_of_arr(a):
    return SSeq(a.dims[0], lambda k: a[S(k, 'i')] if k.const() is None else a[int(k.const())])


def seq_of(a):
    """list(a) for an SArr (rows are views)"""
    if not a.dims:
        return mkS(a.at(), a.dt)
    b = a

    def el(k):
        v = b._compose(b.dims[1:], lambda i: [k] + list(i), lambda i: (T.eq0(i[0] - k), list(i[1:])))
        return v if b.dims[1:] else mkS(b.at(k), b.dt)
    return VList.of(SSeq(b.dims[0], el))


def seq_to_arr(s):
    k = T.fresh_index()
    mk = CTX.mark()
    CTX.assume(T.le0(k - s.n + 1))
    e = s.elem(k)
    if isinstance(e, (VList, list, tuple)):
        e = as_sarr(e)
    if isinstance(e, np.ndarray):
        e = as_sarr(e)
    CTX.undo(mk)
    if num_ok(e):
        p, dt = to_p(e), dt_of(e)
        return SArr.make((s.n,), lambda i: T.subst(p, {the_atom(k): i}), dt)
    if isinstance(e, SArr):
        ka = the_atom(k)
        for d in e.dims:
            if ka in d.fv:
                raise Unsupported('ragged symbolic array')
        vs = fresh(len(e.dims))
        p = e.at(*vs)
        va = [the_atom(v) for v in vs]
        return SArr.make((s.n,) + tuple(e.dims),
                         lambda i, *r: T.subst(p, dict(zip([ka] + va, [i] + list(r)))), e.dt)
    raise TypeError('sequence of %r' % type(e))


def seq_index(s, x):
    """list.index for symbolic sequences: the position must be determined uniquely"""
    k = T.fresh_index()
    e = s.elem(k)
    c = to_p(e == x) if not isinstance(e == x, bool) else (ONE if e == x else ZERO)
    a = c.as_atom()
    if a is not None and a.kind == 'eq':
        q = a.args[0]
        ka = the_atom(k)
        cv = q.t.get(((ka, 1),))
        if cv in (1, -1):
            rest = q - P({((ka, 1),): cv})
            if ka not in rest.fv and rest.is_int():
                pos = rest * num(-cv)
                if CTX.fork(T.in_range(pos, s.n)):
                    return mkS(pos, 'i')
                raise ValueError('not in list')
    raise Unsupported('index of a value in a symbolic sequence')


def key_list(k):
    if k.sym is not None:
        return as_sarr(k)
    return list(k)


_sub_ops()
