"""z3 back end: satisfiability of sets of Iverson literals (path conditions) over linear/non-linear arithmetic with
all other atoms uninterpreted."""
import sys
import time
from fractions import Fraction
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3
from . import terms as T

STATS = {'queries': 0, 's': 0.0, 'unknown': 0, 'timeouts': 0}
_cache = {}


class Enc:
    def __init__(self):
        self.v = {}
        self.side = []

    def atom(self, a):
        r = self.v.get(a)
        if r is None:
            if a.lit:
                b = self.lit(a)
                r = z3.If(b, z3.IntVal(1), z3.IntVal(0))
                self.v[a] = r
                return r
            if a.sort == 'int':
                r = z3.Int('i%d' % a.id)
            else:
                r = z3.Real('r%d' % a.id)
            self.v[a] = r
            if a.kind == 'const' and a.args[0] == 'pi':
                self.side += [r > z3.Q(314159, 100000), r < z3.Q(314160, 100000)]
            elif a.kind == 'base':
                self.side.append(r == self.poly(a.args[0]))
            elif a.kind == 'abs':
                q = self.poly(a.args[0])
                self.side.append(r == z3.If(q >= 0, q, -q))
            if a.sign == 'pos':
                self.side.append(r > 0)
            elif a.sign == 'nonneg':
                self.side.append(r >= 0)
        return r

    def power(self, a, e):
        if isinstance(e, int) and e > 0:
            r = x = self.atom(a)
            for _ in range(e - 1):
                r = r * x
            return r
        k = (a, e)
        r = self.v.get(k)
        if r is None:
            r = z3.Real('p%d_%s' % (a.id, e))
            self.v[k] = r
            if isinstance(e, int):
                x = self.atom(a)
                q = x
                for _ in range(-e - 1):
                    q = q * x
                self.side.append(z3.Implies(x != 0, q * r == 1))
                if a.sign in ('pos',) or e % 2 == 0:
                    self.side.append(z3.Implies(x != 0, r > 0))
                elif a.sign == 'nonneg':
                    self.side.append(z3.Implies(x != 0, r > 0))
            elif Fraction(e) == Fraction(1, 2):
                self.side += [r >= 0, r * r == self.atom(a)]
            else:
                if a.sign == 'pos':
                    self.side.append(r > 0)
        return r

    def poly(self, p):
        out = None
        for m, c in p.t.items():
            c = Fraction(c)
            t = None
            for a, e in m:
                f = self.power(a, e)
                t = f if t is None else t * f
            k = z3.IntVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
            if t is None:
                t = k
            elif c != 1:
                t = k * t
            out = t if out is None else out + t
        return z3.IntVal(0) if out is None else out

    def lit(self, a):
        if a.kind == 'bapp':
            r = self.v.get(('b', a))
            if r is None:
                r = self.v[('b', a)] = z3.Bool('b%d' % a.id)
            return r
        q = self.poly(a.args[0])
        if a.kind == 'le':
            return q <= 0
        if a.kind == 'lt':
            return q < 0
        return q == 0


def sat(lits, extra=(), rlimit=1000000):
    """lits: iterable of (atom, 0/1); extra: polynomials asserted to be non-zero truth values.
    -> 'sat' | 'unsat' | 'unknown'"""
    key = (frozenset(lits), tuple(extra))
    r = _cache.get(key)
    if r is not None:
        return r
    t0 = time.time()
    e = Enc()
    s = z3.Solver()
    s.set('rlimit', rlimit)         # deterministic resource bound; the wall-clock limit is only a safety net
    s.set('timeout', 20000)
    cs = []
    for a, v in lits:
        b = e.lit(a)
        cs.append(b if v else z3.Not(b))
    for p in extra:
        cs.append(e.poly(p) != 0)
    for c in cs:
        s.add(c)
    i = 0
    while i < len(e.side):
        s.add(e.side[i])
        i += 1
    r = str(s.check())
    STATS['queries'] += 1
    STATS['s'] += time.time() - t0
    if r == 'unknown':
        STATS['unknown'] += 1
        if time.time() - t0 > 19:
            STATS['timeouts'] += 1
    _cache[key] = r
    return r
