"""Discharging equalities between terms under path facts.

prove_zero(D): canonical form (exact rational arithmetic over atoms); literal elimination with z3 under path facts,
quantified facts and binder ranges; case split; equality substitution; clearing denominators; congruence (merging of
sums/tables/applications whose arguments are provably equal); unfolding and induction for recursively defined
sequences."""
import time
from . import terms as T
from .terms import P, ZERO, ONE, num, to_p, the_atom
from . import sym, smt

METHODS = set()


class GiveUp(Exception):
    pass


class Prover:
    def __init__(self, ctx, budget=20.0):
        self.ctx = ctx
        self.end = time.time() + budget
        self.facts = dict(ctx.lits) if ctx else {}
        self.quant = list(ctx.quant) if ctx else []
        self.used = set()
        self.eqmemo = {}
        self.recpairs = {}

    def tick(self):
        if time.time() > self.end:
            raise GiveUp('time')

    # ------------------------------------------------------------------------------------------------- literals
    def inst(self, fv):
        """instances of the quantified facts at the given index variables and terms"""
        out = []
        for q, lo, hi, p in self.quant:
            qa = the_atom(q)
            for v in fv:
                if v.sort != 'int':
                    continue
                for t in (T.atom_p(v),):
                    out.append((self.range_lits(t, lo, hi), T.subst(p, {qa: t})))
        return out

    def range_lits(self, t, lo, hi):
        return T.le0(lo - t) * T.le0(t - hi + 1)

    def relevant(self, a, extra):
        fv = set(a.fv)
        facts = [(b, v) for b, v in list(self.facts.items()) + list(extra) if b.kind != 'bapp']
        out, used, ch = [], set(), True
        while ch:
            ch = False
            for b, v in facts:
                if b not in used and (b.fv & fv or not b.fv):
                    used.add(b)
                    fv |= b.fv
                    out.append((b, v))
                    ch = True
        return out

    def decide_lit(self, a, extra=()):
        v = self.facts.get(a)
        if v is not None:
            return v
        for b, w in extra:
            if b is a:
                return w
        if a.kind == 'bapp':
            return self.by_quant(a, extra)
        rel = self.relevant(a, extra)
        if smt.sat(rel + [(a, 1)]) == 'unsat':
            self.used.add('z3')
            return 0
        if smt.sat(rel + [(a, 0)]) == 'unsat':
            self.used.add('z3')
            return 1
        return self.by_quant(a, extra)

    def by_quant(self, a, extra):
        for q, lo, hi, p in self.quant:
            qa = the_atom(q)
            # candidates: match the literals of the quantified formula against a
            for l in T.lits(p):
                for t in self.match_candidates(l, a, qa):
                    pi = T.subst(p, {qa: t})
                    one = T.assign_lit(pi, a, 0)
                    if one.const() == 0 and pi.const() is None and self.holds(self.range_lits(t, lo, hi), extra):
                        self.used.add('quantified path fact')
                        return 1
                    if T.assign_lit(pi, a, 1).const() == 0 and pi.const() is None and self.holds(self.range_lits(t, lo, hi), extra):
                        self.used.add('quantified path fact')
                        return 0
        return None

    def match_candidates(self, pat, a, qa):
        out = []
        ivars = [v for v in a.fv if v.sort == 'int']
        seen = set()
        for v in ivars:
            out.append(T.atom_p(v))
        # index terms occurring in a
        for s in T.subterms(T.atom_p(a)):
            if s.kind in ('app', 'rec', 'bapp'):
                for x in s.args:
                    if isinstance(x, P) and x.is_int() and x not in seen and len(x.t) <= 3:
                        seen.add(x)
                        if x.as_atom() is None or x.as_atom().kind not in ('bvar',):
                            if not any(b.kind == 'bvar' for b in x.fv):
                                out.append(x)
        return out[:12]

    def holds(self, p, extra=()):
        for a in T.lits(p):
            v = self.decide_lit_simple(a, extra)
            if v is not None:
                p = T.assign_lit(p, a, v)
        return p.const() is not None and p.const() != 0

    def decide_lit_simple(self, a, extra):
        v = self.facts.get(a)
        if v is not None:
            return v
        for b, w in extra:
            if b is a:
                return w
        if a.kind == 'bapp':
            return None
        rel = self.relevant(a, extra)
        if smt.sat(rel + [(a, 1)]) == 'unsat':
            return 0
        if smt.sat(rel + [(a, 0)]) == 'unsat':
            return 1
        return None

    # ------------------------------------------------------------------------------------------- simplification
    def box(self, vs, dims):
        return sym.box(vs, dims)

    def deep(self, p, extra=(), depth=0):
        """decide literals, also below binders"""
        self.tick()
        ls = T.lits(p)
        for a in ls:
            v = self.decide_lit(a, extra)
            if v is not None:
                p = T.assign_lit(p, a, v)
        todo = [a for a in p.atoms() if a.kind in ('sum', 'max', 'lam', 'app', 'exp', 'log', 'base', 'abs', 'rec')]
        mp = {}
        for a in todo:
            if not self.has_lits(a):
                continue
            if a.kind in ('sum', 'max'):
                vs, ds, body = T.open_binder(a)
                ds = [self.deep(d, extra, depth + 1) for d in ds]
                b2 = self.deep(body, tuple(extra) + tuple(self.box(vs, ds)), depth + 1)
                r = T.mk_sum(vs, ds, b2) if a.kind == 'sum' else T.mk_max(vs, ds, b2)
            elif a.kind == 'lam':
                ds, levels, b = a.args
                vs = [T.fresh_index() for _ in levels]
                body = T.subst(b, {the_atom(T.bvar(l)): v for l, v in zip(levels, vs)})
                ds = [self.deep(d, extra, depth + 1) for d in ds]
                r = T.lam(vs, self.deep(body, tuple(extra) + tuple(self.box(vs, ds)), depth + 1), ds)
            elif a.kind == 'rec':
                r = T.rec_app(a.args[0], a.args[1], self.deep(a.args[2], extra, depth + 1),
                              tuple(self.deep(x, extra, depth + 1) for x in a.args[3:]))
            else:
                r = T.rebuild(a, lambda q: self.deep(q, extra, depth + 1))
            if r.as_atom() is not a:
                mp[a] = r
        if mp:
            p = T.canon(self.replace(p, mp))
            ls2 = [a for a in T.lits(p) if a not in ls]
            for a in ls2:
                v = self.decide_lit(a, extra)
                if v is not None:
                    p = T.assign_lit(p, a, v)
        return p

    def has_lits(self, a):
        return any(x.lit for x in T.subterms(T.atom_p(a)))

    def replace(self, p, mp):
        out = ZERO
        for m, c in p.t.items():
            if not any(a in mp for a, e in m):
                out = out + P({m: c})
                continue
            t = num(c)
            for a, e in m:
                r = mp.get(a)
                if r is None:
                    t = t * P({((a, e),): 1})
                else:
                    t = t * (r if e == 1 else T.mk_pow(r, e))
            out = out + t
        return out

    # ------------------------------------------------------------------------------------------------- main
    def zero(self, D, extra=(), depth=0):
        self.tick()
        D = T.canon(D)
        if not D.t:
            self.used.add('normal form')
            return True
        if D.const() is not None:
            return False
        D = self.deep(D, extra)
        if not D.t:
            return True
        if D.const() is not None:
            return False
        if depth > 30:
            return False
        ls = T.lits(D)
        if ls:
            a = self.pick(ls, D)
            for v in (1, 0):
                ex = tuple(extra) + ((a, v),)
                rel = self.relevant(a, extra)
                if a.kind != 'bapp' and smt.sat(rel + [(a, v)]) == 'unsat':
                    continue
                Dv = T.assign_lit(D, a, v)
                if v == 1 and a.kind == 'eq':
                    s = self.solve_eq(a)
                    if s is not None:
                        va, t = s
                        Dv = T.subst(Dv, {va: t})
                        ex2 = []
                        bad = False
                        for b, w in ex:
                            if b is a:
                                continue
                            q = T.subst(T.atom_p(b), {va: t})
                            if q.const() is not None:
                                if (q.const() != 0) != bool(w):
                                    bad = True
                                continue
                            for l in T.lits(q):
                                if T.assign_lit(q, l, 1).const() is not None and T.assign_lit(q, l, 0).const() is not None:
                                    ex2.append((l, w if T.assign_lit(q, l, 1) == ONE else 1 - w))
                        if bad:
                            continue
                        # path facts with the variable replaced as well
                        for b, w in self.facts.items():
                            if va in b.fv:
                                q = T.subst(T.atom_p(b), {va: t})
                                if q.const() is not None:
                                    if (q.const() != 0) != bool(w):
                                        bad = True
                                    continue
                                for l in T.lits(q):
                                    if T.assign_lit(q, l, 1).const() is not None and T.assign_lit(q, l, 0).const() is not None:
                                        ex2.append((l, w if T.assign_lit(q, l, 1) == ONE else 1 - w))
                        if bad:
                            continue
                        ex = tuple(ex2) + ((a, 1),)
                self.used.add('case split')
                if not self.zero(Dv, ex, depth + 1):
                    return False
            return True
        # denominators
        D2 = self.clear(D)
        if D2 is not None:
            self.used.add('common denominator')
            if not D2.t:
                return True
            D = D2
        D3 = self.unfold(D, extra)
        if D3 is not None:
            self.used.add('unfolding of recursive definitions')
            return self.zero(D3, extra, depth + 1)
        D4 = self.congruence(D, extra, depth)
        if D4 is not None:
            self.used.add('congruence')
            return self.zero(D4, extra, depth + 1)
        D5 = self.merge_sums(D, extra, depth)
        if D5 is not None:
            self.used.add('summation')
            return self.zero(D5, extra, depth + 1)
        return False

    def by_equalities(self, D):
        mp = []
        for a, v in self.facts.items():
            if a.kind == 'eq' and v:
                q = T.atom_p(a)
                for va, t in mp:
                    q = T.subst(q, {va: t})
                q = q.as_atom()
                s = self.solve_eq(q) if q is not None and q.kind == 'eq' else None
                if s is not None:
                    mp.append(s)
        D2 = D
        for va, t in mp:
            D2 = T.subst(D2, {va: t})
        return D2 if mp and D2 != D else None

    def pick(self, ls, D):
        eqs = [a for a in ls if a.kind == 'eq']
        if eqs:
            return eqs[0]
        return ls[0]

    def solve_eq(self, a):
        q = a.args[0]
        for m, c in q.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' and c in (1, -1):
                v = m[0][0]
                rest = q - P({m: c})
                if v in rest.fv:
                    continue
                t = rest * num(-c)
                if v.sort == 'int' and not t.is_int():
                    continue
                return v, t
        return None

    def clear(self, D):
        """multiply by negative powers of composite bases"""
        f = {}
        for m, c in D.t.items():
            for a, e in m:
                if a.kind == 'base' and isinstance(e, int) and e < 0:
                    f[a] = min(f.get(a, 0), e)
        if not f:
            return None
        mul = ONE
        r = D
        for a, e in f.items():
            r = r * P({((a, -e),): 1})
        r = T.canon(r)
        return r

    def unfold(self, D, extra):
        recs = {}
        for a in D.atoms():
            if a.kind == 'rec':
                recs.setdefault(a.args[0], []).append(a)
        best = None
        for rec, ats in recs.items():
            idx = {a.args[2] for a in ats}
            for i in idx:
                for j in idx:
                    d = (i - j).const()
                    if d is not None and d >= 1 and self.holds(T.le0(1 - i), extra):
                        best = (rec, i)
            if best:
                break
        if not best:
            return None
        rec, i = best
        mp = {a: T.rec_unfold(a) for a in recs[rec] if a.args[2] == i}
        return T.canon(self.replace(D, mp))

    # ------------------------------------------------------------------------------------------- congruence
    def congruence(self, D, extra, depth):
        if depth > 20:
            return None
        ats = sorted(D.atoms(), key=lambda a: a.id)
        for i, a in enumerate(ats):
            for b in ats[:i]:
                if a.kind == b.kind and self.equal_atoms(a, b, extra, depth):
                    return T.canon(self.replace(D, {a: T.atom_p(b)}))
        return None

    def equal_atoms(self, a, b, extra, depth):
        k = (a, b, tuple(sorted((x.id, v) for x, v in extra)))
        r = self.eqmemo.get(k)
        if r is None:
            self.eqmemo[k] = False      # guards recursion
            r = self.eqmemo[k] = self._equal_atoms(a, b, extra, depth)
        return r

    def _equal_atoms(self, a, b, extra, depth):
        self.tick()
        if a.kind in ('sum', 'max', 'lam'):
            if len(a.args[0]) != len(b.args[0]):
                return False
            if not all(self.zero(x - y, extra, depth + 3) for x, y in zip(a.args[0], b.args[0])):
                return False
            if a.kind == 'lam':
                vs = [T.fresh_index() for _ in a.args[1]]
                f = lambda t: T.subst(t.args[2], {the_atom(T.bvar(l)): v for l, v in zip(t.args[1], vs)})
                A, B = f(a), f(b)
            else:
                vs, ds, A = T.open_binder(a)
                B = T.subst(b.args[2], {the_atom(T.bvar(l)): v for l, v in zip(b.args[1], vs)})
            ex = tuple(extra) + tuple(self.box(vs, a.args[0]))
            return self.zero(A - B, ex, depth + 2)
        if a.kind in ('app', 'bapp'):
            if a.args[0] != b.args[0] or len(a.args) != len(b.args):
                return False
            for x, y in zip(a.args[1:], b.args[1:]):
                if x == y:
                    continue
                ax, ay = x.as_atom(), y.as_atom()
                if ax is not None and ay is not None and ax.kind == ay.kind == 'lam':
                    if not self.equal_atoms(ax, ay, extra, depth + 1):
                        return False
                elif (ax is not None and ax.kind == 'lam') or (ay is not None and ay.kind == 'lam'):
                    return False
                elif not self.zero(x - y, extra, depth + 2):
                    return False
            return True
        if a.kind in ('exp', 'log', 'base', 'abs'):
            return self.zero(a.args[0] - b.args[0], extra, depth + 2)
        if a.kind == 'rec':
            if len(a.args) != len(b.args):
                return False
            if not all(self.zero(x - y, extra, depth + 3) for x, y in zip(a.args[2:], b.args[2:])):
                return False
            if a.args[0] is b.args[0]:
                return a.args[1] == b.args[1]
            return self.rec_equal(a.args[0], a.args[1], b.args[0], b.args[1], a.args[2], extra, depth)
        return False

    def rec_equal(self, A, ja, B, jb, n, extra, depth):
        """X_ja(i,.) = Y_jb(i,.) for all 0<=i<=n by simultaneous induction"""
        rel = {(ja, jb)}
        for _ in range(4):
            ok, more = self.rec_step(A, B, rel, n, extra, depth)
            if ok:
                self.used.add('induction')
                return True
            if not more:
                return False
            rel |= more
        return False

    def rec_step(self, A, B, rel, n, extra, depth):
        more = set()
        for ja, jb in rel:
            ra, l0a, b0a, l1a, b1a, _ = A.comps[ja]
            rb, l0b, b0b, l1b, b1b, _ = B.comps[jb]
            if ra != rb:
                return False, None
            vs = [T.fresh_index() for _ in range(ra)]
            f = lambda b, l: T.subst(b, {the_atom(T.bvar(x)): v for x, v in zip(l, vs)})
            if not self.zero(f(b0a, l0a) - f(b0b, l0b), extra, depth + 2):
                return False, None
        for ja, jb in rel:
            ra, l0a, b0a, l1a, b1a, _ = A.comps[ja]
            rb, l0b, b0b, l1b, b1b, _ = B.comps[jb]
            vs = [T.fresh_index() for _ in range(ra)]
            i = T.fresh_index()
            f = lambda b, l: T.subst(b, {the_atom(T.bvar(x)): v for x, v in zip(l, vs + [i])})
            sa, sb = f(b1a, l1a), f(b1b, l1b)
            mp = {y: x for x, y in rel}
            ok = [True]

            def g(at):
                if at.kind == 'app' and at.args[0] == 'rec!x':
                    j = at.args[1].const()
                    if j not in mp:
                        ok[0] = False
                        return None
                    return T.atom_p(T.mk_atom('app', ('rec!x', num(mp[j]), T.rmap(at.args[2], g)) + tuple(T.rmap(x, g) for x in at.args[3:]),
                                              sort=at.sort, sign=at.sign))
                return None
            sb2 = T.rmap(sb, g)
            if not ok[0]:
                js = {at.args[1].const() for at in T.subterms(sb) if at.kind == 'app' and at.args[0] == 'rec!x'}
                ia = {at.args[1].const() for at in T.subterms(sa) if at.kind == 'app' and at.args[0] == 'rec!x'}
                for j in js - set(mp):
                    for x in sorted(ia - {x for x, y in rel}):
                        if A.comps[x][0] == B.comps[j][0]:
                            more.add((x, j))
                            break
                return False, more
            ex = tuple(extra) + tuple(sym.box([i], [n]))
            if not self.zero(sa - sb2, ex, depth + 2):
                return False, None
        return True, None

    # ------------------------------------------------------------------------------------------- sums
    def merge_sums(self, D, extra, depth):
        """c*sum f - c*sum g over the same range -> c*sum (f-g)"""
        if depth > 8:
            return None
        groups = {}
        for m, c in D.t.items():
            ss = [(a, e) for a, e in m if a.kind == 'sum' and e == 1]
            for a, e in ss:
                co = tuple(x for x in m if x[0] is not a)
                groups.setdefault((co, len(a.args[0])), []).append((a, c, m))
        for (co, r), lst in groups.items():
            if len(lst) < 2:
                continue
            for i in range(len(lst)):
                for j in range(i):
                    (a, c1, m1), (b, c2, m2) = lst[i], lst[j]
                    if m1 == m2 or not all(self.zero(x - y, extra, depth + 4) for x, y in zip(a.args[0], b.args[0])):
                        continue
                    vs, ds, A = T.open_binder(a)
                    B = T.subst(b.args[2], {the_atom(T.bvar(l)): v for l, v in zip(b.args[1], vs)})
                    ex = tuple(extra) + tuple(self.box(vs, ds))
                    body = self.deep(num(c1) * A + num(c2) * B, ex)
                    S = T.mk_sum(vs, ds, body)
                    n = len(S.t)
                    if n <= 1:
                        return D - P({m1: c1}) - P({m2: c2}) + P({co: 1}) * S
        return None


def prove_zero(D, ctx=None, extra=(), budget=20.0):
    """-> (True, methods) | (False, reason)"""
    pr = Prover(ctx if ctx is not None else sym.CTX, budget)
    try:
        if pr.zero(D, tuple(extra)):
            METHODS.update(pr.used)
            return True, sorted(pr.used)
        D2 = pr.by_equalities(D)
        if D2 is not None and pr.zero(D2, tuple(extra)):
            pr.used.add('path equalities')
            METHODS.update(pr.used)
            return True, sorted(pr.used)
    except GiveUp:
        return False, 'time limit'
    except T.TermError as e:
        return False, 'term error %s' % e
    except RecursionError:
        return False, 'recursion limit'
    return False, 'not discharged'
