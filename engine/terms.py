"""Term language of the verifier.

A value is a Laurent polynomial `P` with rational coefficients over hash-consed atoms.  Booleans are 0/1-valued
polynomials over Iverson atoms ([p<=0], [p<0], [p==0]), so that if-then-else needs no term former of its own.
Sums over symbolic index ranges are atoms with canonically named bound variables.  Arithmetic is exact real
arithmetic (floats are read as the rationals they print as); -inf is a separate atom.
"""
from fractions import Fraction
import itertools
import math

TINY = Fraction(1, 10 ** 290)   # constants below are read as 0 (numerical floor constants)


class TermError(BaseException):
    pass


class Rec:
    """A system of recursively defined sequences  X_j(0,x)=init_j(x),  X_j(i+1,x)=step_j(i, X(i,.), x).

    Canonical: two Recs with equal (normalised) initial values and steps are the same object."""
    table = {}
    __slots__ = ('key', 'comps', 'fv', 'h', 'id', 'signs')
    cnt = itertools.count()

    def __repr__(self):
        return 'rec%d' % self.id


class Atom:
    __slots__ = ('kind', 'args', 'id', 'sort', 'sign', 'fv', 'h', 'lit')

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_table = {}
_count = itertools.count()
EMPTY = frozenset()


def _fv_of(args):
    fv = EMPTY
    for a in args:
        if isinstance(a, P):
            fv = fv | a.fv
        elif isinstance(a, tuple):
            fv = fv | _fv_of(a)
        elif isinstance(a, Rec):
            fv = fv | a.fv
    return fv


def _h_of(args):
    h = 0
    for a in args:
        if isinstance(a, P):
            h = max(h, a.h)
        elif isinstance(a, tuple):
            h = max(h, _h_of(a))
        elif isinstance(a, Rec):
            h = max(h, a.h)
    return h


def mk_atom(kind, args, sort='real', sign=None, fv=None, h=None):
    k = (kind, args)
    a = _table.get(k)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.sign = kind, args, sort, sign
        a.id = next(_count)
        a.lit = kind in ('le', 'lt', 'eq', 'bapp')
        if kind == 'var':
            a.fv = frozenset([a])
            a.h = 0
        elif kind == 'bvar':
            a.fv = frozenset([a])
            a.h = args[0]
        else:
            a.fv = _fv_of(args) if fv is None else fv
            a.h = _h_of(args) if h is None else h
        _table[k] = a
    return a


def _num(x):
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    raise TermError('not a number: %r' % (x,))


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        o = d.get(a)
        if o is None:
            d[a] = e
        elif a.lit:
            d[a] = 1
        else:
            s = o + e
            if s == 0:
                del d[a]
            else:
                d[a] = _num(s)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


class P:
    __slots__ = ('t', '_hash', '_fv', '_h', '_key')

    def __init__(self, t):
        self.t = t
        self._hash = None
        self._fv = None
        self._h = None
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted((tuple((a.id, e) for a, e in m), c) for m, c in self.t.items()))
        return self._key

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(frozenset(self.t.items()))
        return self._hash

    def __eq__(self, o):
        return isinstance(o, P) and (self is o or (hash(self) == hash(o) and self.t == o.t))

    def __ne__(self, o):
        return not self == o

    @property
    def fv(self):
        if self._fv is None:
            s = EMPTY
            for m in self.t:
                for a, e in m:
                    s = s | a.fv
            self._fv = s
        return self._fv

    @property
    def h(self):
        if self._h is None:
            h = 0
            for m in self.t:
                for a, e in m:
                    h = max(h, a.h)
            self._h = h
        return self._h

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    # -- arithmetic
    def __add__(self, o):
        o = to_p(o)
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m)
            if s is None:
                t[m] = c
            else:
                s = s + c
                if s == 0:
                    del t[m]
                else:
                    t[m] = _num(s)
        return P(t)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-to_p(o))

    def __rsub__(self, o):
        return to_p(o) + (-self)

    def __mul__(self, o):
        o = to_p(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1:
            (m2, c2), = o.t.items()
            if not m2:
                if c2 == 1:
                    return self
                return P({m: _num(c * c2) for m, c in self.t.items()})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                s = t.get(m, 0) + c1 * c2
                if s == 0:
                    t.pop(m, None)
                else:
                    t[m] = _num(s)
        return P(t)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * mk_pow(to_p(o), -1)

    def __pow__(self, e):
        return mk_pow(self, e)

    # -- inspection
    def const(self):
        """rational value if constant, else None"""
        if not self.t:
            return 0
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if not m:
                return c
        return None

    def is_int(self):
        for m, c in self.t.items():
            if not isinstance(c, int):
                return False
            for a, e in m:
                if not (isinstance(e, int) and e > 0 and (a.sort == 'int' or a.lit)):
                    return False
        return True

    def single(self):
        """(coef, mono) if one monomial"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None

    def as_atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return s[1][0][0]
        return None

    def __repr__(self):
        return show(self)


ZERO = P({})
ONE = P({(): 1})


def num(c):
    c = _num(c)
    if c == 0:
        return ZERO
    return P({(): c})


def from_float(f):
    if f != f:
        return atom_p(NAN)
    if f == math.inf:
        return -atom_p(NINF)
    if f == -math.inf:
        return atom_p(NINF)
    if f == math.pi:
        return atom_p(PI)
    if f == int(f) and abs(f) < 1e15:
        return num(int(f))
    q = Fraction(repr(float(f)))
    if abs(q) < TINY:
        return ZERO
    return num(q)


def to_p(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        return from_float(x)
    p = getattr(x, '_p_', None)
    if p is not None:
        return p
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return ONE if x else ZERO
        if isinstance(x, np.integer):
            return num(int(x))
        if isinstance(x, np.floating):
            return from_float(float(x))
    except ImportError:
        pass
    raise TermError('cannot convert to term: %r' % (type(x),))


def atom_p(a):
    return P({((a, 1),): 1})


def var(name, sort='real', sign=None):
    return atom_p(mk_atom('var', (name,), sort=sort, sign=sign))


PI = mk_atom('const', ('pi',), sign='pos')
NINF = mk_atom('const', ('-inf',))
NAN = mk_atom('const', ('nan',))


# ----------------------------------------------------------------------------------------------------- signs
SIGNS = {}      # function name -> sign


def atom_sign(a):
    return a.sign


def mono_sign(m, c):
    """'pos','nonneg','neg','nonpos' or None for c*m"""
    pos = True
    for a, e in m:
        s = a.sign
        if a.lit:
            s = 'nonneg'
        if isinstance(e, int) and e % 2 == 0:
            if s == 'pos' or e < 0:
                continue
            s = 'nonneg'
            pos = False
            continue
        if s == 'pos':
            continue
        if s == 'nonneg':
            if e > 0:
                pos = False
            else:
                pos = False
            continue
        return None
    if c > 0:
        return 'pos' if pos else 'nonneg'
    return 'neg' if pos else 'nonpos'


def sign(p):
    """syntactic sign of a polynomial"""
    if not p.t:
        return 'zero'
    up = dn = True
    anypos = anyneg = False
    for m, c in p.t.items():
        s = mono_sign(m, c)
        if s is None:
            return None
        if s in ('pos', 'nonneg'):
            dn = False
        if s in ('neg', 'nonpos'):
            up = False
        anypos |= s == 'pos'
        anyneg |= s == 'neg'
    if up:
        return 'pos' if anypos else 'nonneg'
    if dn:
        return 'neg' if anyneg else 'nonpos'
    return None


def is_pos(p):
    return sign(p) == 'pos'


def is_nonneg(p):
    return sign(p) in ('pos', 'nonneg', 'zero')


_WS = {'pos': 1, 'nonneg': 1, 'zero': 0, 'neg': -1, 'nonpos': -1}


def wsign(p, depth=8):
    """weak sign: 1 (>= 0), -1 (<= 0), 0 (= 0) or None; factors common monomials, distinguishes cases of Iverson atoms and
    adds sums over the same range under one sum sign. Negative powers: where defined."""
    s = sign(p)
    if s is not None:
        return _WS[s]
    if depth == 0:
        return None
    for a in lits(p):
        r = {wsign(assign_lit(p, a, v), depth - 1) for v in (0, 1)} - {0}
        return 0 if not r else r.pop() if len(r) == 1 else None
    ms = list(p.t)
    common = set(ms[0]).intersection(*ms[1:])
    out = 1
    for a, e in common:
        if isinstance(e, int) and e % 2 == 0:
            continue
        q = atom_p(a)
        w = wsign(a.args[0], depth - 1) if a.kind == 'base' and sign(q) is None else _WS.get(sign(q))
        if w is None or not isinstance(e, int) and w != 1:
            return None
        out *= w
    rest = P({tuple(x for x in m if x not in common): c for m, c in p.t.items()})
    if common:
        w = wsign(rest, depth - 1)
        return None if w is None else out * w
    dims = next((a.args[0] for m in ms for a, e in m if a.kind == 'sum'), None)
    if dims is None:
        return None
    vs = [fresh_index() for _ in dims]
    body, const = ZERO, ZERO
    for m, c in p.t.items():
        ss = [a for a, e in m if a.kind == 'sum' and e == 1 and a.args[0] == dims]
        if len(ss) > 1:
            return None
        if not ss:
            const = const + P({m: c})
            continue
        us, _, b = open_binder(ss[0])
        b = subst(b, {the_atom(u): v for u, v in zip(us, vs)})
        body = body + b * P({tuple(x for x in m if x[0] is not ss[0]): c})
    if const.t:
        size = ONE
        for d in dims:
            size = size * d
        const = canon(const / size)
        if const.const() is None:
            return None
        body = body + const
    return wsign(canon(body), depth - 1)


# ----------------------------------------------------------------------------------------------- Iverson atoms
def lits(p):
    """Iverson atoms occurring at top level"""
    s = []
    seen = set()
    for m in p.t:
        for a, e in m:
            if a.lit and a not in seen:
                seen.add(a)
                s.append(a)
    return s


def assign_lit(p, a, val):
    """replace top-level Iverson atom a by val (0/1)"""
    t = {}
    for m, c in p.t.items():
        mm = m
        for i, (b, e) in enumerate(m):
            if b is a:
                if not val:
                    mm = None
                else:
                    mm = m[:i] + m[i + 1:]
                break
        if mm is None:
            continue
        s = t.get(mm, 0) + c
        if s == 0:
            t.pop(mm, None)
        else:
            t[mm] = _num(s)
    return P(t)


def shannon(p, f):
    """apply f to an Iverson-free polynomial, case-splitting on top-level Iverson atoms"""
    ls = lits(p)
    if not ls:
        return f(p)
    a = ls[0]
    ap = atom_p(a)
    p1 = assign_lit(p, a, 1)
    p0 = assign_lit(p, a, 0)
    r1 = shannon(p1, f)
    r0 = shannon(p0, f)
    if r1 == r0:
        return r1
    return ap * r1 + (ONE - ap) * r0


def _lead(p):
    """leading monomial wrt id order (largest key), ignoring constant"""
    best = None
    for m, c in p.t.items():
        if not m:
            continue
        k = tuple((a.id, e) for a, e in m)
        if best is None or k > best[0]:
            best = (k, m, c)
    return best


def _primitive(p):
    """scale p by positive rational so that coefficients are coprime integers"""
    den = 1
    g = 0
    for c in p.t.values():
        c = Fraction(c)
        den = den * c.denominator // math.gcd(den, c.denominator)
    for c in p.t.values():
        c = Fraction(c) * den
        g = math.gcd(g, abs(c.numerator))
    if g == 0:
        return p, Fraction(1)
    f = Fraction(den, g)
    return p * num(f), 1 / f


NONZERO = set()         # atoms that are assumed to be different from zero


def _strip_pos(p, nonzero=False):
    """divide by common positive factors (sign/zero preserving)"""
    if len(p.t) == 0:
        return p
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d:
                del common[a]
            else:
                if (d[a] > 0) != (common[a] > 0):
                    del common[a]
                else:
                    common[a] = min(d[a], common[a], key=abs)
    f = [(a, e) for a, e in common.items() if a.sign == 'pos' or (nonzero and a in NONZERO)]
    # also negative powers of positive atoms present in some monomials only
    for m in ms:
        for a, e in m:
            if e < 0 and a.sign == 'pos' and a not in common:
                f.append((a, min(dict(mm).get(a, 0) for mm in ms)))
                common[a] = 1
    if not f:
        return p
    inv = tuple(sorted(((a, -e) for a, e in f), key=lambda ae: ae[0].id))
    return P({_mono_mul(m, inv): c for m, c in p.t.items()})


def le0(p):
    """[p <= 0]"""
    p = to_p(p)
    return shannon(p, _le0)


def _has_inf(p):
    for m in p.t:
        for a, e in m:
            if a is NINF:
                return True
    return False


def _inf_sign(p):
    """+1/-1 if p is +inf/-inf (a NINF monomial with rational coefficient and no other infinite part)"""
    s = None
    for m, c in p.t.items():
        if any(a is NINF for a, e in m):
            if len(m) != 1 or m[0][1] != 1:
                return None
            s = -1 if c > 0 else 1
    return s


def _uniqpos(p):
    """(position of d among the distinct values of a table, rest) for p = +-(position + rest), or None"""
    for m in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == 'uniqpos' and p.t[m] in (1, -1):
            r = p * num(p.t[m]) - atom_p(m[0][0])
            return m[0][0], r, p.t[m]
    return None


def _le0(p):
    if _has_inf(p):
        s = _inf_sign(p)
        if s is None:
            raise TermError('comparison of infinite value')
        return ONE if s < 0 else ZERO
    c = p.const()
    if c is not None:
        return ONE if c <= 0 else ZERO
    isint = p.is_int()
    p = _strip_pos(p)
    p, _ = _primitive(p)
    s = sign(p)
    if s in ('neg', 'nonpos', 'zero'):
        return ONE
    if s == 'pos':
        return ZERO
    p = _mono_uf(p)
    u = _uniqpos(p)
    if u is not None and u[2] == 1:     # a position is below the number of distinct values
        c = (u[1] + app('uniqn', u[0].args[1], sort='int', sign='nonneg')).const()
        if c is not None and c <= 1:
            return ONE
    if isint or p.is_int():
        if sign(p - 1) in ('neg', 'nonpos', 'zero') and _int_neg(p):
            return ONE
        if p.const() is not None:
            return ONE if p.const() <= 0 else ZERO
        # divide by gcd of the non-constant coefficients, rounding the constant
        g = 0
        for m, c in p.t.items():
            if m:
                g = math.gcd(g, abs(c))
        if g > 1:
            k = p.t.get((), 0)
            p = P({m: c // g for m, c in p.t.items() if m}) + num(-((-k) // g))
        k, m, c = _lead(p)
        if c > 0:
            return atom_p(mk_atom('le', (p,), sort='int', sign='nonneg'))
        return ONE - atom_p(mk_atom('le', (ONE - p,), sort='int', sign='nonneg'))
    k, m, c = _lead(p)
    if c > 0:
        return atom_p(mk_atom('le', (p,), sort='int', sign='nonneg'))
    # p<=0  <=>  not (-p < 0)
    return ONE - atom_p(mk_atom('lt', (-p,), sort='int', sign='nonneg'))


def _int_neg(p):
    # p - 1 < 0 for an integer p means p <= 0
    return sign(p - 1) == 'neg'


MONO = set()    # names of strictly increasing (hence injective) integer-indexed functions
INJ = set()


def _mono_uf(p, names=MONO):
    """f(a)-f(b) has the sign of a-b for strictly increasing f"""
    if len(p.t) == 2:
        (m1, c1), (m2, c2) = p.t.items()
        if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
            a, b = m1[0][0], m2[0][0]
            if a.kind == 'app' and b.kind == 'app' and a.args[0] == b.args[0] and a.args[0] in names \
                    and a.args[2:] == b.args[2:]:
                return (a.args[1] - b.args[1]) * num(1 if c1 > 0 else -1)
    return p


def lt0(p):
    """[p < 0]"""
    p = to_p(p)
    return shannon(p, _lt0)


def _lt0(p):
    p = _mono_uf(p)
    if p.is_int():
        return _le0(p + 1)
    return ONE - _le0(-p)


def eq0(p):
    p = to_p(p)
    return shannon(p, _eq0)


def _eq0(p):
    if _has_inf(p):
        s = _inf_sign(p)
        if s is None:
            raise TermError('comparison of infinite value')
        return ZERO
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    p = _strip_pos(p, True)
    if p.const() is not None:
        return ZERO
    p, _ = _primitive(p)
    if sign(p) in ('pos', 'neg'):
        return ZERO
    p = _mono_uf(_mono_uf(p), INJ)
    if p.const() is not None:
        return ONE if p.const() == 0 else ZERO
    if p.is_int():
        g = 0
        for m, c in p.t.items():
            if m:
                g = math.gcd(g, abs(c))
        if p.t.get((), 0) % g:
            return ZERO
        if g > 1:
            p = P({m: c // g for m, c in p.t.items()})
    u = _uniqpos(p)
    if u is not None and not any(x is u[0] for x in subterms(u[1])):
        # the distinct values are strictly increasing: the position of d is j iff the j-th value is d (positions are only
        # formed for values that occur)
        return eq0(app('uniq', u[0].args[1], -u[1]) - u[0].args[2])
    k, m, c = _lead(p)
    if c < 0:
        p = -p
    return atom_p(mk_atom('eq', (p,), sort='int', sign='nonneg'))


def band(*ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


def bnot(p):
    return ONE - p


def bor(*ps):
    r = ONE
    for p in ps:
        r = r * (ONE - p)
    return ONE - r


def ite(c, a, b):
    c, a, b = to_p(c), to_p(a), to_p(b)
    if a == b:
        return a
    return c * a + (ONE - c) * b


def bapp(name, *args):
    """uninterpreted predicate"""
    return atom_p(mk_atom('bapp', (name,) + tuple(to_p(a) for a in args), sort='int', sign='nonneg'))


# ------------------------------------------------------------------------------------------------- powers, exp
def _content(p):
    """(rational, mono) common factor"""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d or (d[a] > 0) != (common[a] > 0):
                del common[a]
            else:
                common[a] = min(d[a], common[a], key=abs)
    # negative exponents anywhere are pulled out as well
    for m in ms:
        for a, e in m:
            if e < 0:
                common[a] = min(min(dict(mm).get(a, 0) for mm in ms), 0)
    common = {a: e for a, e in common.items() if e != 0 and not a.lit}
    return tuple(sorted(common.items(), key=lambda ae: ae[0].id))


def _mono_pow(m, e):
    return tuple((a, _num(Fraction(x) * e)) for a, x in m)


def mk_pow(p, e):
    p = to_p(p)
    e = _num(Fraction(e)) if not isinstance(e, int) else e
    if e == 0:
        return ONE
    if e == 1:
        return p
    return shannon(canon(p), lambda q: _mk_pow(q, e))


def _root(c, e):
    """c**e for rational c>0, exact or None"""
    c = Fraction(c)
    e = Fraction(e)
    if e.denominator == 1:
        return c ** e.numerator
    if e.denominator == 2:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d) ** e.numerator
    return None


def _factors(c):
    """prime factors (large rests are kept as they are) of a positive rational, with multiplicities"""
    out = []
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        q = 2
        while q * q <= n and q < 2000:
            k = 0
            while n % q == 0:
                n //= q
                k += 1
            if k:
                out.append((q, sg * k))
            q += 1
        if n > 1:
            out.append((n, sg))
    return out


def _mk_pow(p, e):
    c = p.const()
    integral = isinstance(e, int)
    if c is not None:
        if c == 0:
            if e > 0:
                return ZERO
            return atom_p(mk_atom('app', ('div0',)))
        if integral:
            return num(Fraction(c) ** e)
        if c > 0:
            r = _root(c, e)
            if r is not None:
                return num(r)
            out = ONE
            for q, mult in _factors(Fraction(c)):
                x = Fraction(e) * mult
                k = int(math.floor(x))
                out = out * num(Fraction(q) ** k)
                if x != k:
                    out = out * P({((mk_atom('base', (num(q),), sign='pos'), _num(x - k)),): 1})
            return out
        raise TermError('fractional power of negative constant')
    s = p.single()
    if s:
        c, m = s
        if integral:
            return P({_mono_pow(m, e): _num(Fraction(c) ** e)})
        # fractional: pull out what is known non-negative
        out, rest = [], []
        for a, x in m:
            if a.sign in ('pos', 'nonneg'):
                out.append((a, _num(Fraction(x) * e)))
            else:
                rest.append((a, x))
        if c > 0 and not rest:
            return P({tuple(out): 1}) * mk_pow(num(c), e)
        cc = c
        inner = P({tuple(rest): 1 if c > 0 else -1})
        k = P({tuple(out): 1}) * mk_pow(num(abs(Fraction(cc))), e)
        # sqrt(x^2)=|x|
        if c > 0 and Fraction(e).denominator == 2 and all(isinstance(x, int) and x % 2 == 0 for a, x in rest):
            r = ONE
            for a, x in rest:
                r = r * mk_pow(mk_abs(atom_p(a)), x // 2 * Fraction(e).numerator)
            return k * r
        if sign(inner) in ('pos', 'nonneg'):
            return k * P({((mk_atom('base', (inner,), sign='nonneg'), e),): 1})
        return k * app('fpow', inner, num(e))
    if integral and 0 < e <= 4:
        r = ONE
        for _ in range(e):
            r = r * p
        return r
    m = _content(p)
    q = P({_mono_mul(mm, _mono_pow(m, -1)): c for mm, c in p.t.items()}) if m else p
    q, f = _primitive(q)
    lead = _lead(q)
    if lead and lead[2] < 0 and integral:
        q, f = -q, -f
    if q.single():
        inner = q
        outp = mk_pow(inner, e)
    else:
        sg = sign(q)
        if not integral and sg not in ('pos', 'nonneg'):
            if m or f != 1:
                if all(a.sign in ('pos', 'nonneg') for a, x in m) and f > 0:
                    return mk_pow(P({m: 1}), e) * mk_pow(num(f), e) * \
                        P({((mk_atom('base', (q,), sign=None), e),): 1})
            return P({((mk_atom('base', (p,), sign=None), e),): 1})
        b = mk_atom('base', (q,), sign=sg if sg in ('pos', 'nonneg') else None)
        outp = P({((b, e),): 1})
    if m:
        if integral or all(a.sign in ('pos', 'nonneg') for a, x in m):
            outp = outp * P({_mono_pow(m, e): 1})
        else:
            return P({((mk_atom('base', (p,)), e),): 1})
    if f != 1:
        outp = outp * mk_pow(num(f), e)
    return outp


def reduce_bases(p):
    """cancel q against base(q)^-k where the cofactor is divisible by q, expand positive powers of bases"""
    changed = True
    n = 0
    while changed and n < 20:
        changed = False
        n += 1
        # powers of constants: exponent in (0,1)
        for m, c in list(p.t.items()):
            for a, e in m:
                if a.kind == 'base' and a.args[0].const() is not None and not 0 < e < 1:
                    k = int(math.floor(e))
                    f = _num(Fraction(e) - k)
                    rest = tuple(x for x in m if x[0] is not a)
                    new = P({rest: _num(Fraction(c) * Fraction(a.args[0].const()) ** k)})
                    if f:
                        new = new * P({((a, f),): 1})
                    p = p - P({m: c}) + new
        # positive integer powers: expand
        for m, c in list(p.t.items()):
            for a, e in m:
                if a.kind == 'base' and isinstance(e, int) and e > 0:
                    rest = P({tuple(x for x in m if x[0] is not a): c})
                    p = p - P({m: c}) + rest * mk_pow_expand(a.args[0], e)
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        bases = {}
        for m, c in p.t.items():
            for a, e in m:
                if a.kind == 'base' and e < 0:
                    bases.setdefault((a, e), []).append((m, c))
        for (a, e), terms in sorted(bases.items(), key=lambda kv: (kv[0][0].id, kv[0][1])):
            if len(terms) < 2:
                continue
            A = P({tuple(x for x in m if x[0] is not a): c for m, c in terms})
            D, R = poly_divmod(A, a.args[0])
            if D.t and not R.t:
                p = p - P(dict(terms)) + D * P({((a, _num(Fraction(e) + 1)),): 1} if e != -1 else {(): 1})
                changed = True
                break
    return p


def mk_pow_expand(q, e):
    r = ONE
    for _ in range(e):
        r = r * q
    return r


def poly_divmod(A, q, limit=200):
    """exact-division attempt: A = D*q + R, R=0 on success; works on the leading monomial"""
    lk = _lead(q)
    if lk is None:
        return ZERO, A
    _, lm, lc = lk
    D = ZERO
    R = A
    inv = _mono_pow(lm, -1)
    for _ in range(limit):
        if not R.t:
            break
        # find a monomial of R divisible by lm (all lm atoms present with >= exponents)
        hit = None
        for m, c in sorted(R.t.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]), reverse=True):
            d = dict(m)
            if all(a in d and d[a] >= e for a, e in lm):
                hit = (m, c)
                break
        if hit is None:
            return D, R
        m, c = hit
        f = P({_mono_mul(m, inv): _num(Fraction(c) / lc)})
        D = D + f
        R = R - f * q
        if len(R.t) > 4 * (len(A.t) + len(q.t)) + 20:
            return ZERO, A
    return (D, R) if not R.t else (ZERO, A)


def mk_abs(p):
    p = to_p(p)
    return shannon(p, _mk_abs)


def _mk_abs(p):
    c = p.const()
    if c is not None:
        return num(abs(Fraction(c)))
    s = sign(p)
    if s in ('pos', 'nonneg', 'zero'):
        return p
    if s in ('neg', 'nonpos'):
        return -p
    sg = p.single()
    if sg:
        r = num(abs(Fraction(sg[0])))
        for a, e in sg[1]:
            if a.sign in ('pos', 'nonneg') or (isinstance(e, int) and e % 2 == 0):
                r = r * P({((a, e),): 1})
            else:
                r = r * mk_pow(atom_p(mk_atom('abs', (atom_p(a),), sort=a.sort, sign='nonneg')), e)
        return r
    q, f = _primitive(p)
    k, m, c = _lead(q)
    if c < 0:
        q = -q
    return atom_p(mk_atom('abs', (q,), sort='int' if q.is_int() else 'real', sign='nonneg')) * num(f)


def mk_exp(p):
    p = canon(to_p(p))
    return shannon(p, _mk_exp)


def _mk_exp(p):
    out = ONE
    for m, c in p.t.items():
        if any(a is NINF for a, e in m):
            if len(m) == 1 and c > 0:
                return ZERO
            others = P({tuple(x for x in m if x[0] is not NINF): c})
            if dict(m)[NINF] == 1 and is_pos(others):
                return ZERO
            raise TermError('exp of +inf or undetermined infinity')
    for m, c in p.t.items():
        if len(m) == 1 and m[0][0].kind == 'log' and m[0][1] == 1:
            out = out * mk_pow(m[0][0].args[0], c)
        else:
            out = out * P({((mk_atom('exp', (P({m: 1}),), sign='pos'), c),): 1})
    return out


def mk_log(p):
    p = to_p(p)
    return shannon(p, _mk_log)


def _mk_log(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return atom_p(NINF)
        if c == 1:
            return ZERO
        if c > 0:
            # factor small integers for canonical form
            r = ZERO
            q = Fraction(c)
            for n, s in ((q.numerator, 1), (q.denominator, -1)):
                f = 2
                while f * f <= n and f < 1000:
                    while n % f == 0:
                        r = r + s * atom_p(mk_atom('log', (num(f),), sign='pos'))
                        n //= f
                    f += 1
                if n > 1:
                    r = r + s * atom_p(mk_atom('log', (num(n),), sign='pos'))
            return r
        return app('log_neg', p)
    s = p.single()
    if s:
        c, m = s
        if c > 0:
            r = ZERO
            rest = []
            for a, e in m:
                if a.kind == 'exp':
                    r = r + num(e) * a.args[0]
                elif a.sign == 'pos' or (a.sign == 'nonneg' and e > 0):
                    if a.kind == 'base':
                        r = r + num(e) * mk_log_atom(a.args[0])
                    else:
                        r = r + num(e) * mk_log_atom(atom_p(a))
                elif isinstance(e, int) and e % 2 == 0:
                    r = r + num(e) * mk_log_atom(mk_abs(atom_p(a)))
                else:
                    rest.append((a, e))
            if not rest:
                return r + mk_log(num(c))
            if len(rest) < len(m) or c != 1:
                return r + mk_log(num(c)) + mk_log_atom(P({tuple(rest): 1}))
        return mk_log_atom(p)
    m = _content(p)
    m = tuple((a, e) for a, e in m if a.sign == 'pos')
    q = P({_mono_mul(mm, _mono_pow(m, -1)): c for mm, c in p.t.items()}) if m else p
    q, f = _primitive(q)
    r = mk_log_atom(q)
    if f != 1:
        r = r + mk_log(num(f))
    if m:
        r = r + mk_log(P({m: 1}))
    return r


def mk_log_atom(p):
    a = p.as_atom()
    if a is not None and a.kind == 'exp':
        return a.args[0]
    return atom_p(mk_atom('log', (p,)))


# --------------------------------------------------------------------------------------- applications, binders
def app(name, *args, sort='real', sign=None):
    args = tuple(canon(to_p(a)) for a in args)
    sign = sign or SIGNS.get(name)
    # Shannon-expand scalar arguments
    for i, a in enumerate(args):
        ls = lits(a)
        if ls:
            l = atom_p(ls[0])
            a1 = args[:i] + (assign_lit(a, ls[0], 1),) + args[i + 1:]
            a0 = args[:i] + (assign_lit(a, ls[0], 0),) + args[i + 1:]
            r1 = app(name, *a1, sort=sort, sign=sign)
            r0 = app(name, *a0, sort=sort, sign=sign)
            return l * r1 + (ONE - l) * r0
    if name == 'nth' and len(args) == 2:
        r = args[1].as_atom()
        if r is not None and r.kind == 'app' and r.args[0] == 'rank' and r.args[1] == args[0]:
            return r.args[2]            # used only at positions the mask selects
        NTH[args[0]] = 1
    return atom_p(mk_atom('app', (name,) + args, sort=sort, sign=sign))


NTH = {}


def bvar(level):
    return atom_p(mk_atom('bvar', (level,), sort='int', sign='nonneg'))


_fresh = itertools.count()


def fresh_index():
    return atom_p(mk_atom('var', ('#%d' % next(_fresh),), sort='int', sign='nonneg'))


def the_atom(p):
    a = p.as_atom()
    if a is None:
        raise TermError('not an atom')
    return a


def close(vars_, body):
    """canonically bind vars_ (list of var P) in body -> (levels, body')"""
    h = body.h
    levels = tuple(h + 1 + i for i in range(len(vars_)))
    return levels, subst(body, {the_atom(v): bvar(l) for v, l in zip(vars_, levels)})


def lam(vars_, body, dims):
    """table (function on the index box `dims`) as an argument term"""
    body = canon(body)
    dims = tuple(to_p(d) for d in dims)
    levels, b = close(vars_, body)
    fv = b.fv - frozenset(the_atom(bvar(l)) for l in levels)
    for d in dims:
        fv = fv | d.fv
    h = max((b.h,) + levels + tuple(d.h for d in dims))
    return atom_p(mk_atom('lam', (dims, levels, b), fv=fv, h=h))


def tab(arr):
    """table of concrete numbers (used only when replaying on concrete inputs)"""
    import numpy as np
    arr = np.ascontiguousarray(np.asarray(arr, dtype=float))
    return atom_p(mk_atom('tab', (arr.shape, arr.tobytes())))


def open_lam(a, args):
    n, levels, b = a.args
    return subst(b, {the_atom(bvar(l)): to_p(x) for l, x in zip(levels, args)})


def mk_binder(kind, vars_, dims, body, sign=None, sort='real'):
    """single component; canonical over permutations of the binders"""
    best = None
    n = len(vars_)
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for pm in perms:
        vs = [vars_[i] for i in pm]
        ds = tuple(dims[i] for i in pm)
        levels, b = close(vs, body)
        k = (tuple(d.key for d in ds), b.key)
        if best is None or k < best[0]:
            best = (k, ds, levels, b)
    _, ds, levels, b = best
    fv = b.fv - frozenset(the_atom(bvar(l)) for l in levels)
    for d in ds:
        fv = fv | d.fv
    h = max((b.h,) + levels)
    return mk_atom(kind, (ds, levels, b), sort=sort, sign=sign, fv=fv, h=h)


def open_binder(a):
    """-> (fresh vars, dims, body)"""
    ds, levels, b = a.args
    vs = [fresh_index() for _ in levels]
    return vs, ds, subst(b, {the_atom(bvar(l)): v for l, v in zip(levels, vs)})


def in_range(v, d):
    return le0(-v) * le0(v - d + 1)


UNROLL = 12


def mk_sum(vars_, dims, body):
    """sum over 0<=v<dim of body (dims assumed >= 0)"""
    vars_ = list(vars_)
    dims = [to_p(d) for d in dims]
    body = to_p(body)
    # unroll constant dimensions
    for i, d in enumerate(dims):
        c = d.const()
        if c is not None and c <= UNROLL:
            r = ZERO
            v = the_atom(vars_[i])
            rest_v = vars_[:i] + vars_[i + 1:]
            rest_d = dims[:i] + dims[i + 1:]
            for k in range(int(c)):
                r = r + mk_sum(rest_v, rest_d, subst(body, {v: num(k)}))
            return r
    if not vars_:
        return body
    body = canon(body)
    out = ZERO
    vatoms = [the_atom(v) for v in vars_]
    for m, c in body.t.items():
        out = out + num(c) * _sum_mono(vatoms, dims, m)
    return out


def _sum_mono(vatoms, dims, m):
    vset = set(vatoms)
    # Fubini: sum_i g(i) sum_j h(i,j) = sum_{i,j} g(i) h(i,j)
    for a, e in m:
        if a.kind == 'sum' and e == 1 and (a.fv & vset) and not any(d.fv & vset for d in a.args[0]) and len(vatoms) + len(a.args[0]) <= 4:
            vs, ds, body = open_binder(a)
            rest = P({tuple(x for x in m if x[0] is not a): 1})
            return mk_sum([atom_p(v) for v in vatoms] + vs, list(dims) + list(ds), body * rest)
    # normalised factor: sum_{i,j} g(i) h(i,j) / sum_j h(i,j) = sum_i g(i)
    if len(vatoms) > 1 or any(a.kind == 'sum' and e < 0 for a, e in m):
        for a, e in m:
            if a.kind == 'sum' and isinstance(e, int) and e < 0 and len(a.args[0]) <= len(vatoms):
                r = _cancel(vatoms, dims, m, a)
                if r is not None:
                    return r
    # parts of a split range: sum_{i<d} f(s+i) = sum_{i<s+d} f(i) - sum_{i<s} f(i)
    if SPLITS:
        for i, v in enumerate(vatoms):
            for sp in SPLITS:
                mp = P({m: 1})
                if not _mentions(mp, sp):
                    continue
                q = subst(mp, {v: atom_p(v) - atom_p(sp)})
                if _mentions(q, sp):
                    continue
                rv, rd = [atom_p(x) for x in vatoms], list(dims)
                rd[i] = dims[i] + atom_p(sp)
                r = mk_sum(rv, rd, q)
                rd[i] = atom_p(sp)
                return r - mk_sum(rv, rd, q)
    # selection by a mask: sum_{j<count} f(nth(j)) = sum_k mask(k) f(k)
    if NTH:
        r = _unmask(vatoms, dims, m)
        if r is not None:
            return r
    # row-major position with a condition on one of its components: sum over the components
    for a, e in m:
        if a.fv & vset and (a.kind == 'eq' or ROWS and a.kind not in ('var', 'bvar')):
            r = _rows(vatoms, dims, m, a)
            if r is not None:
                return r
    # delta elimination
    for a, e in m:
        if a.kind == 'eq' and (a.fv & vset):
            q = a.args[0]
            for i, v in enumerate(vatoms):
                if v not in a.fv:
                    continue
                cv = q.t.get(((v, 1),))
                if cv in (1, -1):
                    rest = q - P({((v, 1),): cv})
                    if v in rest.fv:
                        continue
                    ex = rest * num(-cv)
                    if not ex.is_int():
                        continue
                    mm = P({tuple(x for x in m if x[0] is not a): 1})
                    body = subst(mm, {v: ex}) * in_range(ex, dims[i])
                    vs = [atom_p(x) for j, x in enumerate(vatoms) if j != i]
                    ds = [d for j, d in enumerate(dims) if j != i]
                    return mk_sum(vs, ds, body)
    # range Iverson atoms on a single binder: [v - e <= 0]  (v <= e)  keep, unless trivially implied
    nm = []
    for a, e in m:
        if a.kind == 'le' and (a.fv & vset) and _row_bound(a.args[0]):
            continue
        if a.kind == 'le' and len(a.fv & vset) == 1 and a.args[0].is_int():
            (v,) = a.fv & vset
            d = dims[vatoms.index(v)]
            q = a.args[0]
            cv = q.t.get(((v, 1),))
            rest = q - (P({((v, 1),): cv}) if cv else ZERO)
            if cv == 1 and v not in rest.fv:
                # v + rest <= 0 for all v<=d-1 if d-1+rest <= 0
                if le0(d - 1 + rest) == ONE:
                    continue
                if lt0(-rest) == ONE:   # rest>0 -> never
                    return ZERO
                if v not in d.fv and le0(d - 1 + rest) == ZERO and False:
                    pass
            if cv == -1 and v not in rest.fv:
                if le0(rest) == ONE:
                    continue
        nm.append((a, e))
    m = tuple(nm)
    outer = []
    inner = []
    for a, e in m:
        (inner if a.fv & vset else outer).append((a, e))
    # connected components
    comps = []
    for i, v in enumerate(vatoms):
        comps.append({'v': {i}, 'f': []})
    for a, e in inner:
        idx = {i for i, v in enumerate(vatoms) if v in a.fv}
        hit = [c for c in comps if c['v'] & idx]
        new = {'v': set(), 'f': [(a, e)]}
        for c in hit:
            new['v'] |= c['v']
            new['f'] += c['f']
            comps.remove(c)
        comps.append(new)
    r = P({tuple(outer): 1})
    for c in comps:
        ids = sorted(c['v'])
        if not c['f']:
            for i in ids:
                r = r * dims[i]
            continue
        f = tuple(sorted(c['f'], key=lambda ae: ae[0].id))
        s = mono_sign(f, 1)
        # the sum of a positive body over a non-empty range is positive
        sg = None
        if s == 'pos':
            sg = 'pos' if all(is_pos(dims[i]) for i in ids) else 'nonneg'
        elif s == 'nonneg':
            sg = 'nonneg'
        r = r * atom_p(mk_binder('sum', [atom_p(vatoms[i]) for i in ids], [dims[i] for i in ids], P({f: 1}), sign=sg))
    return r


ROWS = False            # rewrite every sum over row-major positions as a sum over their components


def _row_bound(q):
    """q <= 0 because a component of a row-major position is smaller than its dimension"""
    for m, c in q.t.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == 'app' and isinstance(a.args[0], str) and a.args[0].startswith('unflat'):
                d = a.args[2 + int(a.args[0][6:])]
                if le0(q - atom_p(a) + d - 1) == ONE:
                    return True
    return False


def _rows(vatoms, dims, m, lit):
    for a in subterms(lit.args[0]) if lit.kind == 'eq' else subterms(atom_p(lit)):
        if a.kind != 'app' or not isinstance(a.args[0], str) or not a.args[0].startswith('unflat'):
            continue
        v = a.args[1].as_atom()
        if v not in vatoms:
            continue
        i = vatoms.index(v)
        ds = a.args[2:]
        tot = ONE
        for d in ds:
            tot = tot * d
        if tot != dims[i]:
            continue
        ix = [fresh_index() for _ in ds]
        flat = ZERO
        for d, x in zip(ds, ix):
            flat = flat * d + x
        mp = rmap(P({m: 1}), lambda x: ix[int(x.args[0][6:])] if x.kind == 'app' and isinstance(x.args[0], str) and x.args[0].startswith('unflat')
                  and x.args[1].as_atom() is v and x.args[2:] == ds else None)
        if lit.kind != 'eq' and v in mp.fv:
            continue            # the position itself is used
        mp = subst(mp, {v: flat})
        vs, dd = [atom_p(x) for x in vatoms], list(dims)
        return mk_sum(vs[:i] + ix + vs[i + 1:], dd[:i] + list(ds) + dd[i + 1:], mp)
    return None


def _unmask(vatoms, dims, m):
    mp = P({m: 1})
    subs = None
    for i, v in enumerate(vatoms):
        if v not in mp.fv:
            continue
        if subs is None:
            subs = [a for a in subterms(mp) if a.kind == 'app' and a.args[0] == 'nth']
        for a in subs:
            if a.args[2].as_atom() is not v:
                continue
            la = the_atom(a.args[1])
            (n,), (l,), mask = la.args
            w = fresh_index()
            if mk_sum([w], [n], open_lam(la, [w])) != dims[i]:
                continue
            q = rmap(mp, lambda x: w if x is a else None)
            if v in q.fv:
                continue
            vs, ds = [atom_p(x) for x in vatoms], list(dims)
            vs[i], ds[i] = w, n
            return mk_sum(vs, ds, q * open_lam(la, [w]))
    return None


SPLITS = []


def _mentions(p, sp):
    return sp in subterms(p)


def _cancel(vatoms, dims, m, a):
    ds, levels, b = a.args
    if len(b.t) != 1:
        return None
    for idx in itertools.permutations(range(len(vatoms)), len(ds)):
        if any(dims[i] != d for i, d in zip(idx, ds)):
            continue
        U = {vatoms[i] for i in idx}
        if a.fv & U:
            continue
        part = tuple(x for x in m if x[0].fv & U)
        q = subst(b, {the_atom(bvar(l)): atom_p(vatoms[i]) for l, i in zip(levels, idx)})
        if len(q.t) != 1 or dict(q.t).get(part) != 1:
            continue
        rest = P({tuple(x for x in m if not (x[0].fv & U)): 1}) * atom_p(a)
        return mk_sum([atom_p(v) for v in vatoms if v not in U], [d for v, d in zip(vatoms, dims) if v not in U], rest)
    return None


def mk_max(vars_, dims, body):
    vars_ = list(vars_)
    dims = [to_p(d) for d in dims]
    body = canon(to_p(body))
    used = [i for i, v in enumerate(vars_) if the_atom(v) in body.fv]
    if not used:
        return body
    vs = [vars_[i] for i in used]
    ds = [dims[i] for i in used]
    # max(c + f) = c + max f ; pull out additive terms free of the binders
    vset = {the_atom(v) for v in vs}
    outer = P({m: c for m, c in body.t.items() if not any(a.fv & vset for a, e in m)})
    inner = body - outer
    sg = sign(inner)
    return outer + atom_p(mk_binder('max', vs, ds, inner, sign=sg if sg in ('pos', 'nonneg') else None))


# ---------------------------------------------------------------------------------------------------- recursion
REC_I = 'rec!i'


def rec_symbol(j, i, idx, sort='real', sign=None):
    """placeholder for component j inside step terms"""
    return atom_p(mk_atom('app', ('rec!x', num(j), to_p(i)) + tuple(to_p(x) for x in idx), sort=sort, sign=sign))


def mk_rec(comps):
    """comps: list of (rank, idxvars, init P, ivar, step P, sign); step uses rec_symbol(j, ivar, idx).
    returns Rec"""
    cl = []
    fv = EMPTY
    h = 0
    for rank, idxv, init, ivar, step, sg in comps:
        l0, b0 = close(idxv, canon(init))
        l1, b1 = close(list(idxv) + [ivar], canon(step))
        cl.append((rank, l0, b0, l1, b1, sg))
        fv = fv | (b0.fv - frozenset(the_atom(bvar(l)) for l in l0))
        fv = fv | (b1.fv - frozenset(the_atom(bvar(l)) for l in l1))
        h = max((h, b0.h, b1.h) + l0 + l1)
    key = tuple(cl)
    r = Rec.table.get(key)
    if r is None:
        r = Rec()
        r.key = key
        r.comps = cl
        r.fv = fv
        r.h = h
        r.id = next(Rec.cnt)
        Rec.table[key] = r
    return r


def rec_app(rec, j, i, idx):
    """X_j(i, idx) ; unfolds at constant 0"""
    i = to_p(i)
    rank, l0, b0, l1, b1, sg = rec.comps[j]
    if i.const() == 0:
        return subst(b0, {the_atom(bvar(l)): to_p(x) for l, x in zip(l0, idx)})
    idx = tuple(to_p(x) for x in idx)
    a = mk_atom('rec', (rec, j, i) + idx, sign=sg)
    return atom_p(a)


def rec_unfold(a):
    """X_j(i, idx) = step(i-1, X(i-1,.), idx), valid for i>=1"""
    rec, j, i = a.args[:3]
    idx = a.args[3:]
    rank, l0, b0, l1, b1, sg = rec.comps[j]
    i1 = i - 1
    # replace the placeholders by X(i-1, .)
    m = {the_atom(bvar(l)): x for l, x in zip(l1, tuple(idx) + (i1,))}
    b = subst(b1, m)
    return rec_resolve(b, rec)


def rec_resolve(b, rec):
    def f(at):
        if at.kind == 'app' and at.args[0] == 'rec!x':
            j = at.args[1].const()
            return rec_app(rec, j, rmap(at.args[2], f), tuple(rmap(x, f) for x in at.args[3:]))
        return None
    return rmap(b, f)


# -------------------------------------------------------------------------------------------------- traversal
def rebuild(a, f):
    """rebuild atom a applying f: P->P on arguments (binders opened with fresh variables)"""
    k = a.kind
    if k in ('var', 'bvar', 'const', 'tab'):
        return atom_p(a)
    if k == 'app':
        return app(a.args[0], *[f(x) for x in a.args[1:]], sort=a.sort, sign=a.sign)
    if k == 'bapp':
        return bapp(a.args[0], *[f(x) for x in a.args[1:]])
    if k == 'exp':
        return mk_exp(f(a.args[0]))
    if k == 'log':
        return mk_log(f(a.args[0]))
    if k == 'abs':
        return mk_abs(f(a.args[0]))
    if k == 'base':
        return f(a.args[0])
    if k == 'le':
        return le0(f(a.args[0]))
    if k == 'lt':
        return lt0(f(a.args[0]))
    if k == 'eq':
        return eq0(f(a.args[0]))
    if k == 'lam':
        ds, levels, b = a.args
        vs = [fresh_index() for _ in levels]
        body = subst(b, {the_atom(bvar(l)): v for l, v in zip(levels, vs)})
        return lam(vs, f(body), [f(d) for d in ds])
    if k in ('sum', 'max'):
        vs, ds, body = open_binder(a)
        ds = [f(d) for d in ds]
        body = f(body)
        return mk_sum(vs, ds, body) if k == 'sum' else mk_max(vs, ds, body)
    if k == 'rec':
        rec, j, i = a.args[:3]
        return rec_app(rec_map(rec, f), j, f(i), tuple(f(x) for x in a.args[3:]))
    raise TermError('rebuild ' + k)


def rec_map(rec, f):
    comps = []
    for rank, l0, b0, l1, b1, sg in rec.comps:
        idx = [fresh_index() for _ in l0]
        iv = fresh_index()
        init = f(subst(b0, {the_atom(bvar(l)): v for l, v in zip(l0, idx)}))
        step = f(subst(b1, {the_atom(bvar(l)): v for l, v in zip(l1, idx + [iv])}))
        comps.append((rank, idx, init, iv, step, sg))
    return mk_rec(comps)


def rmap(p, f, memo=None):
    """replace atoms bottom-up: f(atom) -> P or None (None: rebuild with mapped arguments)"""
    if memo is None:
        memo = {}

    def go(q):
        out = ZERO
        changed = False
        cache = {}
        for m, c in q.t.items():
            term = num(c)
            for a, e in m:
                r = memo.get(a)
                if r is None:
                    r = f(a)
                    if r is None:
                        if a.kind in ('var', 'bvar', 'const', 'tab'):
                            r = atom_p(a)
                        else:
                            r = rebuild(a, go)
                    memo[a] = r
                ra = r.as_atom()
                if ra is a:
                    term = term * P({((a, e),): 1})
                else:
                    changed = True
                    term = term * (r if e == 1 else mk_pow(r, e))
            out = out + term
        return out if changed else q
    return go(p)


def subst(p, mp):
    """simultaneous substitution of var/bvar atoms"""
    if not mp:
        return p
    keys = frozenset(mp)
    if not (p.fv & keys):
        return p
    memo = {}

    def go(q):
        if not (q.fv & keys):
            return q
        out = {}
        slow = ZERO
        for m, c in q.t.items():
            if not any(a.fv & keys for a, e in m):
                s = out.get(m, 0) + c
                if s == 0:
                    out.pop(m, None)
                else:
                    out[m] = _num(s)
                continue
            term = num(c)
            for a, e in m:
                if not (a.fv & keys):
                    term = term * P({((a, e),): 1})
                    continue
                r = memo.get(a)
                if r is None:
                    if a in mp:
                        r = mp[a]
                    elif a.kind == 'rec':
                        rec, j, i = a.args[:3]
                        nrec = rec if not (rec.fv & keys) else rec_map(rec, go)
                        r = rec_app(nrec, j, go(i), tuple(go(x) for x in a.args[3:]))
                    elif a.kind in ('sum', 'max', 'lam'):
                        r = rebuild(a, go)
                    else:
                        r = rebuild(a, go)
                    memo[a] = r
                term = term * (r if e == 1 else mk_pow(r, e))
            slow = slow + term
        return P(out) + slow
    return go(p)


def canon(p):
    for m in p.t:
        for a, e in m:
            if a.kind == 'base':
                return reduce_bases(p)
    return p


def subterms(p, acc=None):
    """all atoms, including those below binders"""
    if acc is None:
        acc = set()
    for m in p.t:
        for a, e in m:
            if a not in acc:
                acc.add(a)
                for x in a.args:
                    _sub_arg(x, acc)
    return acc


def _sub_arg(x, acc):
    if isinstance(x, P):
        subterms(x, acc)
    elif isinstance(x, tuple):
        for y in x:
            _sub_arg(y, acc)
    elif isinstance(x, Rec):
        for c in x.comps:
            subterms(c[2], acc)
            subterms(c[4], acc)


# ------------------------------------------------------------------------------------------------------ printing
def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])):
        f = '*'.join(show_atom(a) if e == 1 else '%s^%s' % (show_atom(a), e if isinstance(e, int) and e >= 0 else '(%s)' % e)
                     for a, e in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        elif c == -1:
            out.append('-' + f)
        else:
            out.append('%s*%s' % (c, f))
    return ' + '.join(out).replace('+ -', '- ')


def show_atom(a):
    k = a.kind
    if k in ('var', 'const'):
        return str(a.args[0])
    if k == 'bvar':
        return '$%d' % a.args[0]
    if k in ('app', 'bapp'):
        return '%s(%s)' % (a.args[0], ', '.join(show(x) for x in a.args[1:]))
    if k in ('exp', 'log', 'abs', 'base'):
        return '%s(%s)' % (k, show(a.args[0]))
    if k == 'le':
        return '[%s<=0]' % show(a.args[0])
    if k == 'lt':
        return '[%s<0]' % show(a.args[0])
    if k == 'eq':
        return '[%s==0]' % show(a.args[0])
    if k == 'lam':
        return '(\\%s. %s)' % (' '.join('$%d' % l for l in a.args[1]), show(a.args[2]))
    if k == 'tab':
        return 'tab%r' % (a.args[0],)
    if k in ('sum', 'max'):
        return '%s{%s}(%s)' % (k, ', '.join('$%d<%s' % (l, show(d)) for l, d in zip(a.args[1], a.args[0])), show(a.args[2]))
    if k == 'rec':
        return 'rec%d.%d(%s)' % (a.args[0].id, a.args[1], ', '.join(show(x) for x in a.args[2:]))
    return '<%s>' % k
