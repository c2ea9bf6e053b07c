"""Loops over symbolic ranges.

The body is executed symbolically for one generic iteration k from an arbitrary (havocked) state; the effect on every
modified location (local variable, attribute, list, array content) is turned into a recurrence, which is solved
(overwritten / accumulated / written at index k / appended) or kept as an opaque recursively defined sequence.
Early exits (return/break/raise) become separate paths with a fresh exit index."""
import itertools
import types
import numpy as np
from . import terms as T
from .terms import P, ZERO, ONE, num, to_p, the_atom
from . import sym
from .sym import (S, SArr, SSeq, VList, Buffer, Unsupported, Infeasible, mkS, num_ok, dt_of, as_sarr, fresh, Frame)

_uid = itertools.count()


class Poison:
    """value that must not be used"""

    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _bad(self, *a, **k):
        raise Unsupported('use of ' + object.__getattribute__(self, 'why'))

    def __getattr__(self, name):
        raise Unsupported('use of ' + object.__getattribute__(self, 'why'))
    __bool__ = __len__ = __iter__ = __call__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = _bad
    __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __index__ = __float__ = _bad
    __iadd__ = __imul__ = __isub__ = __itruediv__ = __setitem__ = _bad


class Missing:
    def __repr__(self):
        return '<missing>'


MISSING = Missing()
ATOMIC = (str, bytes, int, float, complex, bool, type(None), type, types.FunctionType, types.BuiltinFunctionType,
          types.ModuleType, types.MethodType, np.generic, np.dtype, S, P, SSeq)


def is_obj(x):
    return hasattr(x, '__dict__') and not isinstance(x, ATOMIC) and not isinstance(x, (SArr, Poison)) \
        and not getattr(type(x), '_vc_opaque', False)


class Snapshot:
    def __init__(self, roots, locals_):
        self.locals = dict(locals_)
        self.objs = []
        self.data = {}      # slot key -> value
        self.keep = []
        seen = set()
        stack = list(locals_.values()) + list(roots)
        for name, v in locals_.items():
            self.data[('loc', name)] = v
        while stack:
            x = stack.pop()
            if isinstance(x, ATOMIC) or id(x) in seen:
                continue
            seen.add(id(x))
            self.keep.append(x)
            if isinstance(x, SArr):
                b = x.buf
                if ('buf', id(b)) not in self.data:
                    self.data[('buf', id(b))] = b.body
                    self.objs.append(('buf', b, b.body))
            elif isinstance(x, VList):
                if x.sym is not None:
                    self.data[('list', id(x))] = x.sym
                    self.objs.append(('list', x, ('s', x.sym)))
                    stack.extend(x.sym.tail)
                else:
                    items = list(list.__iter__(x))
                    self.data[('list', id(x))] = tuple(items)
                    for i, y in enumerate(items):
                        self.data[('elem', id(x), i)] = y
                    self.objs.append(('list', x, ('n', items)))
                    stack.extend(items)
            elif isinstance(x, np.ndarray):
                if x.dtype != object and x.nbytes < 1 << 20:
                    self.data[('nd', id(x))] = x.tobytes()
                    self.objs.append(('nd', x, x.copy()))
            elif isinstance(x, list):
                items = list(x)
                self.data[('list', id(x))] = tuple(items)
                self.objs.append(('list', x, ('n', items)))
                stack.extend(items)
            elif isinstance(x, (tuple, set, frozenset)):
                stack.extend(x)
            elif isinstance(x, dict):
                self.objs.append(('dict', x, dict(x)))
                for k, v in x.items():
                    self.data[('item', id(x), k)] = v
                stack.extend(x.values())
            elif is_obj(x):
                d = dict(x.__dict__)
                self.objs.append(('obj', x, d))
                for k, v in d.items():
                    self.data[('attr', id(x), k)] = v
                stack.extend(d.values())
        self.byid = {id(o[1]): o[1] for o in self.objs}

    def ids(self):
        return {id(o[1]) for o in self.objs}

    def restore(self, set_):
        for kind, x, v in self.objs:
            if kind == 'buf':
                x.body = v
            elif kind == 'list':
                if isinstance(x, VList):
                    x.sym = v[1] if v[0] == 's' else None
                    list.clear(x)
                    if v[0] == 'n':
                        list.extend(x, v[1])
                else:
                    x[:] = v[1]
            elif kind == 'nd':
                x[...] = v
            elif kind == 'dict':
                x.clear()
                x.update(v)
            else:
                x.__dict__.clear()
                x.__dict__.update(v)
        set_(dict(self.locals))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, P) and isinstance(b, P):
        return a == b
    if isinstance(a, Missing) or isinstance(b, Missing):
        return False
    if num_ok(a) and num_ok(b):
        try:
            return to_p(a) == to_p(b) and (isinstance(a, S) or isinstance(b, S) or type(a) is type(b))
        except T.TermError:
            return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b
    return False


def changed(pre, post):
    """slots of objects existing before whose value differs afterwards"""
    out = []
    for k, v in post.data.items():
        if k[0] in ('loc',):
            o = pre.data.get(k, MISSING)
        elif k[0] in ('attr', 'item'):
            if k[1] not in pre.byid:
                continue
            o = pre.data.get(k, MISSING)
        elif k[0] == 'elem':
            # element of a list of constant length
            a, b = pre.data.get(('list', k[1])), post.data[('list', k[1])]
            if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
                continue
            o = a[k[2]]
        else:
            if k not in pre.data:
                continue
            o = pre.data[k]
            if k[0] == 'list' and isinstance(o, tuple) and isinstance(v, tuple) and len(o) == len(v) and isinstance(pre.byid.get(k[1]), VList):
                continue
        if not same(o, v):
            out.append(k)
    for k in pre.data:
        if k[0] in ('attr', 'item') and k not in post.data and k[1] in {id(o[1]) for o in post.objs}:
            out.append(k)
    return out


def map_value(v, f):
    """apply f to every term inside a value"""
    if isinstance(v, S):
        return mkS(f(v._p_), v.dt)
    if isinstance(v, SArr):
        c = v.copy()
        return SArr(Buffer(tuple(f(d) for d in c.dims), c.buf.vs, f(c.buf.body), c.dt), [f(d) for d in c.dims])
    if isinstance(v, VList):
        if v.sym is not None:
            e, n = v.sym.elem, f(v.sym.n)
            return VList.of(SSeq(n, lambda k: map_value(e(k), f)))
        return VList(map_value(x, f) for x in list.__iter__(v))
    if isinstance(v, SSeq):
        e = v.elem
        return SSeq(f(v.n), lambda k: map_value(e(k), f))
    if isinstance(v, tuple):
        return tuple(map_value(x, f) for x in v)
    if isinstance(v, list):
        return [map_value(x, f) for x in v]
    return v


def sign_cases(p, depth=0):
    ls = T.lits(p)
    if not ls or depth > 6:
        return T.sign(p)
    a = sign_cases(T.assign_lit(p, ls[0], 1), depth + 1)
    b = sign_cases(T.assign_lit(p, ls[0], 0), depth + 1)
    if a == b:
        return a
    ok = {'pos', 'nonneg', 'zero'}
    if a in ok and b in ok:
        return 'nonneg'
    return None


RANK = {'pos': 2, 'nonneg': 1, 'zero': 1, None: 0, 'neg': 0, 'nonpos': 0}


class Slot:
    def __init__(self, key, obj):
        self.key = key
        self.obj = obj
        self.uid = None
        self.kind = None        # scalar | array | buf | append | const | poison
        self.rank = 0
        self.dims = ()
        self.dt = 'f'
        self.init = None        # fn(idx)->P or None
        self.sign = 'pos'
        self.vs = None
        self.next = None
        self.closed = None
        self.opaque = False
        self.havoc_buf = None
        self.entry = None

    def name(self):
        return 'st!%d' % self.uid


def loop(seq, body, get, set_, where=''):
    """run the loop; returns ('nrm'|'brk'|'ret', value)"""
    L = Loop(seq, body, get, set_, where)
    return L.run()


class Loop:
    def __init__(self, seq, body, get, set_, where):
        self.n = seq.n
        self.elem = seq.elem
        self.body = body
        self.get = get
        self.set_ = set_
        self.where = where
        self.slots = {}
        self.kmap = {}

    def run(self):
        ctx = sym.CTX
        if ctx.decide(T.le0(self.n)) is True:
            return ('nrm', None)
        self.entry = Snapshot([self.elem], self.get())
        ctx.assume(T.le0(-self.n))
        self.k = T.fresh_index()
        rounds = 0
        everch = set()
        while True:
            rounds += 1
            if rounds > 14:
                raise Unsupported('loop state does not stabilise')
            paths = self.paths(self.k)
            normal = [p for p in paths if p['status'][0] == 'nrm']
            new = False
            for p in normal:
                for key in p['changed']:
                    everch.add(key)
                    if key not in self.slots:
                        self.add_slot(key, p)
                        new = True
                    else:
                        new |= self.check_kind(self.slots[key], p)
            if new:
                continue
            if self.signs(normal):
                continue
            break
        if not normal:
            # the first iteration always leaves the loop
            if ctx.fork(T.le0(self.n)):
                self.entry.restore(self.set_)
                return ('nrm', None)
            self.entry.restore(self.set_)
            return self.finish(self.body(S(ZERO, 'i') if False else 0))
        self.check_alias(normal)
        self.solve(normal)
        exits = [p for p in paths if p['status'][0] != 'nrm']
        cont = ZERO
        for p in normal:
            cont = cont + p['cond']
        choice = ctx.choose(2) if exits else 0
        if choice == 0:
            if exits:
                self.add_quant(cont, self.n)
            self.entry.restore(self.set_)
            self.install(self.n, final=True)
            return ('nrm', None)
        K = T.fresh_index()
        ctx.assume(T.le0(K - self.n + 1))
        old = list(ctx.quant)
        self.add_quant(cont, K)
        self.entry.restore(self.set_)
        self.install(K)
        st = self.body(self.item_index(K))
        if st[0] == 'nrm' or self.contradicted(K, old):
            raise Infeasible()
        return self.finish(st)

    def contradicted(self, K, quant):
        """an earlier fact 'for all indices' excludes leaving the loop at K"""
        from . import prove
        ctx = sym.CTX
        ka = the_atom(K)
        cands = [K]
        for a in ctx.lits:
            if ka in a.fv:
                for x in T.subterms(T.atom_p(a)):
                    if x.kind in ('app', 'rec'):
                        for y in x.args:
                            if isinstance(y, T.P) and y.is_int() and ka in y.fv and y not in cands and len(y.t) <= 3 and not any(z.kind == 'bvar' for z in y.fv):
                                cands.append(y)
        for q, lo, hi, p in quant:
            for t in cands[:6]:
                pr = prove.Prover(ctx, 5.0)
                try:
                    if pr.holds(pr.range_lits(t, lo, hi)) and pr.zero(T.subst(p, {the_atom(q): t})):
                        return True
                except (prove.GiveUp, T.TermError):
                    pass
        return False

    def finish(self, st):
        return ('nrm', None) if st[0] == 'brk' else st

    def item_index(self, k):
        return mkS(k, 'i')

    def add_quant(self, cont, hi):
        ctx = sym.CTX
        q = T.fresh_index()
        p = self.resolve(T.subst(cont, {the_atom(self.k): q}))
        ctx.quant.append((q, ZERO, hi, p))

    # ----------------------------------------------------------------------------------------------- exploration
    def paths(self, k):
        ctx = sym.CTX
        out = []
        work = [[]]
        cnt = 0
        while work:
            prefix = work.pop()
            cnt += 1
            if cnt > 64:
                raise Unsupported('too many paths in a loop body')
            self.entry.restore(self.set_)
            self.install(k, generic=True)
            pre = Snapshot([self.elem], self.get())
            mk = ctx.mark()
            old_writes = ctx.writes
            ctx.writes = set()
            fr = Frame(prefix)
            ctx.frames.append(fr)
            ctx.guards.append((next(sym._serial), pre.ids()))
            try:
                ctx.assume(T.le0(k - self.n + 1))
                base = len(ctx.trail)
                try:
                    st = self.body(mkS(k, 'i'))
                except Infeasible:
                    work.extend(fr.alts)
                    continue
                except Exception as e:
                    st = ('exc', e)
                work.extend(fr.alts)
                cond = ONE
                for a in ctx.trail[base:]:
                    ap = T.atom_p(a)
                    cond = cond * (ap if ctx.lits[a] else ONE - ap)
                post = Snapshot([self.elem], self.get())
                out.append({'status': st, 'cond': cond, 'post': post, 'pre': pre, 'changed': changed(pre, post),
                            'writes': ctx.writes, 'lits': {a: ctx.lits[a] for a in ctx.trail[base:]}})
            finally:
                ctx.guards.pop()
                ctx.frames.pop()
                ctx.undo(mk)
                w = ctx.writes
                ctx.writes = old_writes
                if old_writes is not None:
                    old_writes |= w
        self.entry.restore(self.set_)
        return out

    # -------------------------------------------------------------------------------------------------- slots
    def entry_value(self, key):
        return self.entry.data.get(key, MISSING)

    def add_slot(self, key, path):
        if key[0] == 'nd':
            raise Unsupported('native array modified in a symbolic loop')
        obj = None if key[0] == 'loc' else self.entry.byid.get(key[1])
        s = Slot(key, obj)
        s.uid = next(_uid)
        v0 = self.entry_value(key)
        v1 = path['post'].data.get(key, MISSING)
        s.entry = v0
        if key[0] == 'buf':
            s.kind = 'buf'
            s.rank = len(obj.dims)
            s.dims = obj.dims
            s.dt = obj.dt
            s.init = (lambda body, vs: lambda idx: T.subst(body, {the_atom(v): i for v, i in zip(vs, idx)}))(v0, obj.vs)
        elif key[0] == 'list':
            s.kind = 'append'
            if not isinstance(obj, VList):
                raise Unsupported('native list modified in a symbolic loop')
        elif num_ok(v0) and num_ok(v1):
            s.kind = 'scalar'
            p0 = to_p(v0)
            s.init = lambda idx: p0
            s.dt = dt_of(v0) if dt_of(v0) == dt_of(v1) else 'f'
        elif isinstance(v1, (SArr, np.ndarray)) and isinstance(v0, (SArr, np.ndarray)) and self.same_dims(v0, v1):
            a0 = as_sarr(v0).copy()
            s.kind = 'array'
            s.rank = len(a0.dims)
            s.dims = a0.dims
            s.dt = a0.dt
            s.init = lambda idx: a0.at(*idx)
        else:
            s.kind = 'over'     # may only be read after having been written in the same iteration
        if s.init is not None:
            s.sign = sign_cases(s.init(fresh(s.rank)))
            if s.sign not in ('pos', 'nonneg'):
                s.sign = 'nonneg' if s.sign == 'zero' else None
        self.slots[key] = s

    def same_dims(self, a, b):
        a, b = as_sarr(a), as_sarr(b)
        if len(a.dims) != len(b.dims):
            return False
        return all(sym.dims_eq(x, y) for x, y in zip(a.dims, b.dims))

    def check_kind(self, s, path):
        """demote a slot whose new value does not fit; True if something changed"""
        v1 = path['post'].data.get(s.key, MISSING)
        if s.kind == 'scalar' and not num_ok(v1):
            s.kind = 'over'
            s.init = None
            return True
        if s.kind == 'scalar' and dt_of(v1) != s.dt and s.dt != 'f':
            s.dt = 'f'
            return True
        if s.kind == 'array' and not (isinstance(v1, (SArr, np.ndarray)) and self.dims_ok(s, as_sarr(v1))):
            s.kind = 'over'
            s.init = None
            return True
        return False

    def dims_ok(self, s, a):
        return len(a.dims) == len(s.dims) and all(sym.dims_eq(x, y) for x, y in zip(a.dims, s.dims))

    def ph(self, s, k, idx):
        return T.atom_p(T.mk_atom('app', ('st!%d' % s.uid, to_p(k)) + tuple(T.canon(to_p(i)) for i in idx), sort='int' if s.dt == 'i' else 'real',
                                  sign=s.sign))

    def write_slot(self, s, value):
        if s.key[0] == 'loc':
            d = self.get()
            d[s.key[1]] = value
            self.set_(d)
        elif s.key[0] == 'attr':
            if value is MISSING:
                s.obj.__dict__.pop(s.key[2], None)
            else:
                s.obj.__dict__[s.key[2]] = value
        elif s.key[0] == 'item':
            s.obj[s.key[2]] = value
        elif s.key[0] == 'elem':
            if s.obj.sym is not None:
                raise Unsupported('list both extended and overwritten in a symbolic loop')
            list.__setitem__(s.obj, s.key[2], value)

    def install(self, k, generic=False, final=False):
        """put the state before iteration k into the heap"""
        locs = {}
        for s in self.slots.values():
            if s.kind == 'scalar':
                p = self.ph(s, k, ()) if generic else s.closed(k, ())
                v = mkS(p, s.dt)
            elif s.kind == 'array':
                v = SArr.make(s.dims, (lambda *i: self.ph(s, k, i)) if generic else (lambda *i: s.closed(k, i)), s.dt)
                if generic:
                    s.havoc_buf = id(v.buf)
            elif s.kind == 'buf':
                b = s.obj
                b.body = self.ph(s, k, b.vs) if generic else s.closed(k, b.vs)
                continue
            elif s.kind == 'append':
                lst = s.obj
                base = self.entry_seq(s)
                if generic:
                    lst.sym = SSeq(base.n + k, lambda i: Poison('an element appended in an earlier iteration'))
                    s.base_n = base.n
                    list.clear(lst)
                else:
                    full = sym.seq_concat(base, SSeq(k, s.closed_elem))
                    lst.sym = full
                    list.clear(lst)
                continue
            else:
                if generic:
                    v = Poison('a value written in an earlier iteration (%r)' % (s.key[-1],))
                else:
                    v = s.closed(k, ()) if s.closed else Poison('a loop-modified value (%r)' % (s.key[-1],))
            if s.key[0] == 'loc':
                locs[s.key[1]] = v
            else:
                self.write_slot(s, v)
        if locs:
            d = self.get()
            d.update(locs)
            self.set_(d)

    def entry_seq(self, s):
        v = s.entry
        return v if isinstance(v, SSeq) else sym.list_seq(list(v))

    # -------------------------------------------------------------------------------------------------- signs
    def merged(self, s, normal):
        """next value as term over (k, placeholders), with index variables vs"""
        vs = s.vs or fresh(s.rank)
        s.vs = vs
        terms = []
        for p in normal:
            v = p['post'].data.get(s.key, MISSING)
            if s.kind == 'buf':
                b = s.obj
                t = T.subst(v, {the_atom(x): y for x, y in zip(b.vs, vs)})
            elif s.kind == 'scalar':
                t = to_p(v)
            else:
                t = self.arr_body(p, v, vs)
            terms.append((p, t))
        r = terms[-1][1]
        for p, t in reversed(terms[:-1]):
            r = T.ite(self.relcond(p, normal), t, r)
        return T.canon(r)

    def arr_body(self, p, v, vs):
        # the content of v at the end of the path (buffers have been restored since): take it from the snapshot
        if isinstance(v, np.ndarray):
            return as_sarr(v).at(*vs)
        body = p['post'].data[('buf', id(v.buf))]
        cur = v.buf.body
        v.buf.body = body
        try:
            return v.at(*vs)
        finally:
            v.buf.body = cur

    def relcond(self, p, normal):
        """condition of path p relative to the other continuing paths"""
        common = None
        for q in normal:
            d = set(q['lits'].items())
            common = d if common is None else common & d
        c = ONE
        for a, v in p['lits'].items():
            if (a, v) in common:
                continue
            ap = T.atom_p(a)
            c = c * (ap if v else ONE - ap)
        return c

    def signs(self, normal):
        ch = False
        for s in self.slots.values():
            if s.kind in ('scalar', 'array', 'buf') and s.sign:
                g = sign_cases(self.merged(s, normal))
                if RANK[g] < RANK[s.sign]:
                    s.sign = 'nonneg' if RANK[g] == 1 and s.sign == 'pos' else None
                    s.uid = next(_uid)
                    ch = True
        return ch

    # ------------------------------------------------------------------------------------------------- aliasing
    def check_alias(self, normal):
        for p in normal:
            groups = {}
            for key, v in p['post'].data.items():
                if isinstance(v, SArr) and key[0] in ('loc', 'attr', 'item'):
                    groups.setdefault(id(v.buf), set()).add(key)
                if key[0] == 'list' and isinstance(v, tuple):
                    for x in v:
                        if isinstance(x, SArr):
                            groups.setdefault(id(x.buf), set()).add(key)
            for b, keys in groups.items():
                if len(keys) < 2:
                    continue
                for key in keys:
                    s = self.slots.get(key)
                    if s is not None and s.kind == 'array' and s.havoc_buf in p['writes']:
                        # written in place although shared: only sound if nobody else keeps the old one
                        others = [q for q in keys if q != key and q[0] != 'loc']
                        if others:
                            raise Unsupported('array shared between %s and written in place in a loop' % (sorted(map(str, keys)),))

    # ------------------------------------------------------------------------------------------------- solving
    def solve(self, normal):
        num_slots = [s for s in self.slots.values() if s.kind in ('scalar', 'array', 'buf')]
        for s in num_slots:
            s.next = self.merged(s, normal)
            s.closed = None
            me = self.ph(s, self.k, s.vs)
            s.unchanged = s.next == me
        # slots that only changed while aliased to another location in the first iteration: content unknown
        for s in num_slots:
            if s.unchanged:
                s.closed = self.opaque_closed(s)
        # writes at the loop index
        for s in num_slots:
            s.store = None if s.closed else self.store_pattern(s)
        for s in num_slots:
            if s.store:
                self.own_reads(s, num_slots)
        self.byname = {s.name(): s for s in num_slots}
        pending = [s for s in num_slots if not s.closed]
        self.normal = normal
        while pending:
            progress = False
            for s in list(pending):
                s.next = T.canon(self.resolve(s.next))
                deps = self.deps(s.next)
                if s.store and self.close_store(s):
                    pending.remove(s)
                    progress = True
                    continue
                if not deps:
                    s.closed = self.overwritten(s)
                    pending.remove(s)
                    progress = True
                    continue
                if deps == {s.name()} and self.close_acc(s):
                    pending.remove(s)
                    progress = True
            if progress:
                continue
            self.close_rec(pending)
            pending = [s for s in pending if not s.closed]
        # appended lists and overwritten values
        for s in self.slots.values():
            if s.kind == 'append':
                self.close_append(s, normal)
            elif s.kind == 'over':
                self.close_over(s, normal)

    def opaque_closed(self, s):
        nm = 'unknown!%d' % s.uid
        return lambda n, idx: T.app(nm, *[to_p(i) for i in idx])

    def deps(self, p):
        out = set()
        for a in T.subterms(p):
            if a.kind == 'app' and isinstance(a.args[0], str) and a.args[0].startswith('st!') and a.args[0] in self.byname:
                out.add(a.args[0])
        return out

    def resolve(self, p):
        """replace placeholders of solved slots by their closed forms"""
        todo = [a for a in T.subterms(p) if a.kind == 'app' and isinstance(a.args[0], str) and a.args[0].startswith('st!')]
        if not todo:
            return p
        by = {s.name(): s for s in self.slots.values() if s.closed and s.kind in ('scalar', 'array', 'buf')}
        if not any(a.args[0] in by for a in todo):
            return p

        def f(a):
            if a.kind == 'app' and isinstance(a.args[0], str) and a.args[0] in by:
                s = by[a.args[0]]
                return self.resolve(s.closed(go(a.args[1]), tuple(go(x) for x in a.args[2:])))
            return None

        def go(q):
            return T.rmap(q, f)
        return go(p)

    def store_pattern(self, s):
        if s.rank == 0:
            return None
        ka = the_atom(self.k)
        me = self.ph(s, self.k, s.vs)
        for a in T.lits(s.next):
            if a.kind != 'eq':
                continue
            q = a.args[0]
            for ax, v in enumerate(s.vs):
                va = the_atom(v)
                cv, ck = q.t.get(((va, 1),)), q.t.get(((ka, 1),))
                if cv in (1, -1) and ck in (1, -1):
                    rest = q - P({((va, 1),): cv}) - P({((ka, 1),): ck})
                    if (rest.fv & {ka, va}) or any(the_atom(x) in rest.fv for x in s.vs):
                        continue
                    if T.assign_lit(s.next, a, 0) != me:
                        continue
                    val = T.assign_lit(s.next, a, 1)
                    # index written in iteration k:  v = -(ck*k+rest)/cv
                    widx = (P({((ka, 1),): ck}) + rest) * num(-cv)
                    # iteration that writes index v:  k = -(cv*v+rest)/ck
                    kof = (P({((va, 1),): cv}) + rest) * num(-ck)
                    val = T.subst(val, {va: widx})
                    return {'ax': ax, 'widx': widx, 'kof': kof, 'val': val}
        return None

    def own_reads(self, s, slots):
        """a read of the element that this iteration writes (and no earlier one wrote) yields the initial value"""
        nm = s.name()
        ka = the_atom(self.k)
        ax, widx = s.store['ax'], s.store['widx']

        def f(a):
            if a.kind == 'app' and a.args[0] == nm and a.args[1] == self.k:
                idx = tuple(T.rmap(x, f) for x in a.args[2:])
                d = idx[ax] - widx
                if d.const() == 0:
                    return s.init(idx)
            return None
        s.store['val'] = T.rmap(s.store['val'], f)
        for o in slots:
            if o is not s and not o.closed:
                o.next = T.rmap(o.next, f)
                if o.store:
                    o.store['val'] = T.rmap(o.store['val'], f)

    def close_store(self, s):
        val = T.canon(self.resolve(s.store['val']))
        if self.deps(val):
            s.store['val'] = val
            return False
        ax, kof = s.store['ax'], s.store['kof']
        va = the_atom(s.vs[ax])
        ka = the_atom(self.k)
        vs = [the_atom(v) for v in s.vs]

        def closed(n, idx):
            n = to_p(n)
            idx = [to_p(i) for i in idx]
            m = dict(zip(vs, idx))
            kk = T.subst(kof, m)
            m2 = dict(m)
            m2[ka] = kk
            v = T.subst(val, m2)
            rng = T.le0(-kk) * T.le0(kk - n + 1)
            rng = self.simp_rng(rng, s, idx)
            return T.ite(rng, v, s.init(idx))
        s.closed = closed
        return True

    def simp_rng(self, cond, s, idx):
        """drop range conditions implied by the index box"""
        c = sym.CTX
        for a in T.lits(cond):
            bx = []
            for i, d in zip(idx, s.dims):
                for q in (T.le0(i - d + 1), T.le0(-i)):
                    for l in T.lits(q):
                        bx.append((l, 1 if T.assign_lit(q, l, 1) == ONE else 0))
            if any(x == a and v == 1 for x, v in bx):
                cond = T.assign_lit(cond, a, 1)
                continue
            rel = bx + c.relevant(a)
            if sym.smt.sat(rel + [(a, 0)]) == 'unsat':
                cond = T.assign_lit(cond, a, 1)
            elif sym.smt.sat(rel + [(a, 1)]) == 'unsat':
                cond = T.assign_lit(cond, a, 0)
        return cond

    def overwritten(self, s):
        nxt, vs, ka = s.next, [the_atom(v) for v in s.vs], the_atom(self.k)

        def closed(n, idx):
            n = to_p(n)
            m = dict(zip(vs, [to_p(i) for i in idx]))
            m[ka] = n - 1
            v = T.subst(nxt, m)
            d = sym.CTX.decide(T.le0(n))
            if d is False:
                return v
            z = T.le0(n)
            if z.const() is not None:
                return s.init(idx) if z == ONE else v
            i0 = s.init(idx)
            if v == i0:
                return v
            return T.ite(z, i0, v)
        return closed

    def close_acc(self, s):
        me = self.ph(s, self.k, s.vs)
        nm = s.name()
        vs, ka = [the_atom(v) for v in s.vs], the_atom(self.k)
        g = T.canon(s.next - me)
        if nm not in self.deps(g):
            def closed(n, idx):
                j = T.fresh_index()
                m = dict(zip(vs, [to_p(i) for i in idx]))
                m[ka] = j
                body = self.box_simp(T.subst(g, m), j, to_p(n))
                return s.init(idx) + T.mk_sum([j], [to_p(n)], body)
            s.closed = closed
            return True
        try:
            e = T.canon(T.mk_exp(s.next) - T.mk_exp(me))
        except T.TermError:
            return False
        if nm not in self.deps(e):
            def closed(n, idx):
                j = T.fresh_index()
                m = dict(zip(vs, [to_p(i) for i in idx]))
                m[ka] = j
                body = self.box_simp(T.subst(e, m), j, to_p(n))
                return T.mk_log(T.mk_exp(s.init(idx)) + T.mk_sum([j], [to_p(n)], body))
            s.closed = closed
            return True
        # products: every monomial contains the previous value once
        ma = the_atom(me)
        q = {}
        for m, c in T.canon(s.next).t.items():
            dm = dict(m)
            if dm.pop(ma, 0) != 1:
                return False
            q[tuple(sorted(dm.items(), key=lambda ae: ae[0].id))] = c
        q = P(q)
        if not q.t or nm in self.deps(q) or ka not in q.fv:
            return False

        def closed(n, idx):
            j = T.fresh_index()
            m = dict(zip(vs, [to_p(i) for i in idx]))
            m[ka] = j
            body = self.box_simp(T.subst(q, m), j, to_p(n))
            sg = T.sign(body)
            return s.init(idx) * T.app('prod', T.lam([j], body, [to_p(n)]), sign=sg if sg in ('pos', 'nonneg') else None)
        s.closed = closed
        return True

    def box_simp(self, p, j, n):
        return p

    def close_rec(self, pending):
        """strongly connected unsolved slots become one recursively defined system"""
        dep = {s: {o for o in pending if o.name() in self.deps(s.next)} for s in pending}

        def reach(s):
            seen, st = set(), [s]
            while st:
                x = st.pop()
                for y in dep[x]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            return seen
        R = {s: reach(s) for s in pending}
        sccs = []
        for s in pending:
            scc = [o for o in pending if (o in R[s] and s in R[o]) or o is s]
            if s not in R[s]:
                continue
            if all(o in scc for o in R[s]):
                sccs.append(scc)
        if not sccs:
            raise Unsupported('loop recurrence')
        scc = min(sccs, key=len)
        order = sorted(scc, key=lambda s: (s.rank, s.init(s.vs).key if False else 0))
        index = {s.name(): i for i, s in enumerate(order)}

        def f(a):
            if a.kind == 'app' and a.args[0] in index:
                if a.args[1] != self.k:
                    raise Unsupported('loop state referenced at another iteration')
                s = order[index[a.args[0]]]
                return T.rec_symbol(index[a.args[0]], a.args[1], tuple(T.rmap(x, f) for x in a.args[2:]), sort=a.sort, sign=a.sign)
            return None
        comps = []
        for s in order:
            if s.store:
                pass
            vs = fresh(s.rank)
            m = {the_atom(a): b for a, b in zip(s.vs, vs)}
            step = T.rmap(T.subst(s.next, m), f)
            comps.append((s.rank, vs, s.init(vs), self.k, step, s.sign))
        rec = T.mk_rec(comps)
        for s in order:
            j = index[s.name()]
            s.closed = (lambda j: lambda n, idx: T.rec_app(rec, j, to_p(n), tuple(to_p(i) for i in idx)))(j)

    def close_append(self, s, normal):
        base = self.entry_seq(s)
        vals = []
        for p in normal:
            q = p['post'].data.get(s.key, MISSING)
            if not isinstance(q, SSeq):
                raise Unsupported('list rebuilt in a symbolic loop')
            d = q.n - base.n - self.k
            if d.const() != 1:
                raise Unsupported('loop appends a varying number of elements')
            cur = {}
            v = q.elem(base.n + self.k)
            vals.append((p, self.freeze(p, v)))
        v = vals[-1][1]
        for p, w in reversed(vals[:-1]):
            v = sym.val_merge(self.relcond(p, normal), w, v)
        ka = the_atom(self.k)

        def elem(i):
            return map_value(v, lambda t: self.resolve(T.subst(t, {ka: i})))
        s.closed_elem = elem

    def freeze(self, p, v):
        """copy a value with the array contents it had at the end of path p"""
        if isinstance(v, SArr):
            vs = fresh(len(v.dims))
            if ('buf', id(v.buf)) in p['post'].data:
                b = self.arr_body(p, v, vs)
            else:
                b = v.at(*vs)
            return SArr(Buffer(v.dims, vs, b, v.dt), v.dims)
        if isinstance(v, tuple):
            return tuple(self.freeze(p, x) for x in v)
        if isinstance(v, VList) and v.sym is None:
            return VList(self.freeze(p, x) for x in list.__iter__(v))
        return v

    def close_over(self, s, normal):
        vals = [(p, p['post'].data.get(s.key, MISSING)) for p in normal]
        v = vals[0][1]
        ka = the_atom(self.k)
        try:
            fr = [(p, self.freeze(p, x)) for p, x in vals]
            v = fr[-1][1]
            for p, w in reversed(fr[:-1]):
                v = sym.val_merge(self.relcond(p, normal), w, v)
        except Unsupported:
            s.closed = None
            return
        entry = s.entry

        def closed(n, idx):
            n = to_p(n)
            new = map_value(v, lambda t: self.resolve(T.subst(t, {ka: n - 1})))
            d = sym.CTX.decide(T.le0(n))
            if d is False:
                return new
            if d is True:
                return entry
            if entry is MISSING:
                return new
            if not isinstance(new, (S, SArr, VList, tuple, list)) and same(new, entry):
                return new
            if sym.CTX.fork(T.le0(n)):
                return entry
            return new
        s.closed = closed
