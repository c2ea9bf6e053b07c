"""python -m engine.verify PID [--budget S] [--seed N] [--contract NAME] [-v]

Generates the obligations of contracts/PID.py from /repo's current source and discharges them."""
import argparse
import contextlib
import importlib
import io
import itertools
import json
import os
import subprocess
import tempfile
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')


class Res:
    def __init__(self):
        self.ob = {}

    def add(self, name, ok, how, detail, s):
        d = self.ob.setdefault(name, dict(ok=0, bad=0, how=set(), detail='', s=0.0))
        d['ok' if ok else 'bad'] += 1
        d['how'] |= set(how if isinstance(how, (list, tuple, set)) else [how])
        d['s'] += s
        if not ok and not d['detail']:
            d['detail'] = detail


def contracts(pid):
    return importlib.import_module('contracts.' + pid).CONTRACTS


def run_contract(pid, name, seed, budget, nmodels, verbose=False):
    from . import terms as T, sym, instr, backend, smt, snp, prove
    from .evalm import Model, EvalError
    import numpy as np
    c = [x for x in contracts(pid) if x['name'] == name][0]
    fn = c['fn']
    t0 = time.time()
    sys.setrecursionlimit(20000)
    out = dict(name=name, function=c['function'], obligations=[], paths=0, models=0, matched=0, notes=[], divs=[], error=None)
    res = Res()
    world = instr.load(REPO)
    paths = []
    why = kind = None
    symexc = None
    holder = {}

    def one():
        b = backend.Sym(world, res)
        holder['b'] = b
        fn(b)
        return b
    import signal

    class TimeUp(BaseException):
        pass

    def onalarm(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(max(5, int(budget)))
    try:
        for ctx, b in sym.explore(one):
            paths.append((dict(ctx.lits), list(ctx.quant), list(b.obs)))
            out['notes'] += [n for n in ctx.notes if n not in out['notes']]
            for d in ctx.divs:
                out['divs'].append(T.show(d)[:160])
            if verbose:
                print('path %d: %s' % (len(paths), {T.show(T.atom_p(a))[:80]: v for a, v in list(ctx.lits.items())[:12]}), file=sys.stderr)
    except sym.Unsupported as e:
        why = 'outside the verified subset: %s' % e
        if verbose:
            traceback.print_exc()
    except T.TermError as e:
        why = 'outside the term language: %s' % e
        if verbose:
            traceback.print_exc()
    except TimeUp:
        why, kind = 'time limit of the symbolic execution', 'time'
    except RecursionError:
        why = 'recursion limit'
    except Exception as e:
        why = 'symbolic execution failed: %s: %s' % (type(e).__name__, e)
        symexc = type(e).__name__
        if verbose:
            traceback.print_exc()
    finally:
        signal.alarm(0)
    out['paths'] = len(paths)
    ts = time.time() - t0
    # ------------------------------------------------------------------------------------------ concrete replay
    sym.set_ctx(None)
    fails, mism = {}, {}
    checked_names = set()
    iface = concexc = None
    end = time.time() + min(60, budget / 2)
    k = 0
    tried = 0
    while out['models'] < nmodels and tried < 6 * nmodels and time.time() < end:
        tried += 1
        m = Model('%s/%s/%d/%d' % (pid, name, seed, tried), interp=dict(c.get('interp') or {}), size_range=c.get('sizes', (1, 4)))
        if c.get('model'):
            c['model'](m)
        b = backend.Conc(m, res, REPO)
        try:
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
                signal.alarm(20)
                try:
                    fn(b)
                finally:
                    signal.alarm(0)
        except backend.SkipModel:
            continue
        except EvalError as e:
            continue
        except TimeUp:
            iface, concexc = 'a replay exceeded its time limit', 'TimeUp'
            continue
        except Exception as e:
            iface, concexc = '%s: %s' % (type(e).__name__, e), type(e).__name__
            if verbose:
                traceback.print_exc()
            out['models'] += 1
            continue
        if not b.checked:
            continue
        out['models'] += 1
        checked_names |= set(b.obs)
        for nm, msg in b.fails:
            if nm not in fails:
                fails[nm] = 'model %d (sizes/values %s): %s' % (tried, {k: (round(v, 4) if isinstance(v, float) else v) for k, v in list(m.values.items())[:14]}, msg)
        # cross-check of the symbolic executor
        if why is None:
            try:
                hit = match(m, paths)
            except (EvalError, OverflowError, ZeroDivisionError, RecursionError) as e:
                hit = None
            if hit is not None:
                env, (lits, quant, obs) = hit
                out['matched'] += 1
                cnt = {}
                for nm, dims, vs, body in obs:
                    j = cnt.get(nm, 0)
                    cnt[nm] = j + 1
                    if nm not in b.obs or j >= len(b.obs[nm]):
                        mism.setdefault(nm, 'not evaluated on the matching path')
                        continue
                    got = b.obs[nm][j]
                    try:
                        want = evarr(m, dims, vs, body, env)
                    except (EvalError, OverflowError, ZeroDivisionError):
                        continue
                    if want.shape != got.shape:
                        mism.setdefault(nm, 'shape %s vs CPython %s' % (want.shape, got.shape))
                        continue
                    fin = np.isfinite(want) & np.isfinite(got)
                    if (np.abs(got - want)[fin] > 1e-8 + 1e-5 * np.abs(want)[fin]).any():
                        mism.setdefault(nm, 'symbolic executor and CPython disagree (model %d)' % tried)
    out['replay_s'] = round(time.time() - t0 - ts, 2)
    if kind is None and concexc == 'TimeUp':
        kind = 'time'
    elif concexc in ('AttributeError', 'TypeError', 'ImportError', 'ModuleNotFoundError') and symexc in (None, concexc):
        kind = 'interface'                  # a name the contract addresses does not exist (any more): the contract does not apply
    elif kind is None and smt.STATS.get('timeouts'):
        kind = 'time'
    kind = kind or 'rejected'
    names = list(res.ob)
    for nm in fails:
        if nm not in names:
            names.append(nm)
    if not names:
        names = c.get('ensures', ['contract'])
    for nm in names:
        d = res.ob.get(nm)
        full = '%s.%s' % (name, nm)
        o = dict(name=full, function=c['function'], s=round(d['s'], 3) if d else 0.0, by='')
        if nm in fails:
            o.update(status='refuted', detail='%s%s' % (fails[nm], ('; ' + d['detail']) if d and d['detail'] else ''), witness_replayed=True)
        elif why is not None:
            o.update(status='undecided', detail=why)
        elif nm in mism:
            o.update(status='undecided', detail='cross-check: ' + mism[nm])
        elif d is None or d['bad'] or not d['ok']:
            o.update(status='undecided', detail=d['detail'] if d else 'not generated')
        elif out['models'] and not out['matched']:
            o.update(status='undecided', detail='no model satisfies any path (vacuity guard)')
        elif not out['models']:
            o.update(status='undecided', detail='no model could be replayed: %s' % iface)
        else:
            o.update(status='proved', by=', '.join(sorted(d['how'])), detail='')
        if o['status'] == 'undecided':
            o['kind'] = kind
        if c.get('private'):
            o['private'] = True
        out['obligations'].append(o)
    if iface:
        out['notes'].append('replay: ' + iface)
    out['used'] = sorted(snp.USED)
    out['solver'] = smt.STATS
    out['divs'] = sorted(set(out['divs']))[:20]
    out['s'] = round(time.time() - t0, 2)
    return out


def match(m, paths):
    """path whose facts hold in the model; fresh exit indices are searched"""
    from . import terms as T
    for lits, quant, obs in paths:
        free = set()
        for a in lits:
            for v in a.fv:
                if v.kind == 'var' and str(v.args[0]).startswith('#'):
                    free.add(v)
        for q, lo, hi, p in quant:
            for v in (p.fv | hi.fv) - {T.the_atom(q)}:
                if v.kind == 'var' and str(v.args[0]).startswith('#'):
                    free.add(v)
        free = sorted(free, key=lambda a: a.id)
        if len(free) > 3:
            continue
        for vals in itertools.product(range(7), repeat=len(free)):
            env = dict(zip(free, vals))
            if all((m.atom(a, env) != 0) == bool(v) for a, v in lits.items()) and all(_q(m, x, env) for x in quant):
                return env, (lits, quant, obs)
    return None


def _q(m, x, env):
    from . import terms as T
    q, lo, hi, p = x
    for k in range(m.int(lo, env), m.int(hi, env)):
        e = dict(env)
        e[T.the_atom(q)] = k
        if m.ev(p, e) == 0:
            return False
    return True


def evarr(m, dims, vs, body, env):
    import numpy as np
    from . import terms as T
    n = [m.int(d, env) for d in dims]
    out = np.empty(n)
    at = [T.the_atom(v) for v in vs]
    for idx in itertools.product(*[range(x) for x in n]):
        e = dict(env)
        e.update(zip(at, idx))
        out[idx] = m.ev(body, e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--budget', type=float, default=300)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--contract')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--models', type=int, default=24)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    if a.contract:
        r = run_contract(a.pid, a.contract, a.seed, a.budget, a.models, a.v)
        print('@@RESULT ' + json.dumps(r))
        return 0
    t0 = time.time()
    cs = [c for c in contracts(a.pid) if a.tier == 'thorough' or c.get('tier', 'quick') == 'quick']
    per = min(a.budget * 0.6, 240)
    run, todo, results = [], list(cs), []
    while todo or run:
        while todo and len(run) < a.jobs:
            c = todo.pop(0)
            fo, fe = tempfile.TemporaryFile('w+'), tempfile.TemporaryFile('w+')
            p = subprocess.Popen([sys.executable, '-m', 'engine.verify', a.pid, '--contract', c['name'], '--budget', str(per), '--seed', str(a.seed),
                                  '--models', str(a.models)], cwd=HERE, stdout=fo, stderr=fe)
            run.append((p, c, time.time(), fo, fe))
        for i, (p, c, ts, fo, fe) in enumerate(run):
            late = time.time() - t0 > a.budget or time.time() - ts > per * 1.6 + 30
            if p.poll() is None and not late:
                continue
            if p.poll() is None:
                p.kill()
            p.wait()
            fo.seek(0), fe.seek(0)
            o, e = fo.read(), fe.read()
            fo.close(), fe.close()
            r = None
            for l in reversed(o.splitlines()):
                if l.startswith('@@RESULT '):
                    try:
                        r = json.loads(l[9:])
                    except ValueError:
                        pass            # killed while writing
                    break
            if r is None:
                r = dict(name=c['name'], function=c['function'], error=(e or 'time limit')[-800:], paths=0, models=0, matched=0, notes=[], divs=[], used=[],
                         solver=dict(queries=0, s=0.0), s=time.time() - ts,
                         obligations=[dict(name='%s.%s' % (c['name'], n), function=c['function'], status='undecided', kind='time', by='', s=0.0,
                                           detail=(e or 'time limit')[-300:]) for n in c.get('ensures', ['contract'])])
            results.append(r)
            run.pop(i)
            break
        else:
            time.sleep(0.02)
    order = {c['name']: i for i, c in enumerate(cs)}
    results.sort(key=lambda r: order[r['name']])
    obs = [o for r in results for o in r['obligations']]
    how = {}
    for o in obs:
        if o['status'] == 'proved':
            for h in o['by'].split(', '):
                how[h] = how.get(h, 0) + 1
    mod = importlib.import_module('contracts.' + a.pid)
    assumptions = ['floating-point arithmetic is treated as exact real arithmetic; constants below 1e-290 are read as 0',
                   'every divisor occurring on a verified path is assumed to be non-zero',
                   'structural counts (number of parameters, of sub-models, of hyper-parameters) are those named in the contract; all sizes, '
                   'lengths, time steps and values are arbitrary'] + list(getattr(mod, 'ASSUMPTIONS', []))
    for r in results:
        for n in r['notes']:
            if n not in assumptions:
                assumptions.append(n)
    out = dict(obligations=obs, trusted=sorted(set(u for r in results for u in r['used'])) + ['CPython 3.12 executes the instrumented text of /repo',
               'engine/ (term normalisation, loop rule); cross-checked against CPython on random models in every run'],
               functions=sorted({r['function'] for r in results}),
               backends=how, solver_s=round(sum(r['solver']['s'] for r in results), 2), assumptions=assumptions,
               bounded=list(getattr(mod, 'BOUNDED', [])),
               vacuity=dict(paths=sum(r['paths'] for r in results), models=sum(r['models'] for r in results), models_on_a_verified_path=sum(r['matched'] for r in results)),
               contracts=[dict(name=r['name'], s=round(r['s'], 2), paths=r['paths'], models=r['models'], matched=r['matched']) for r in results],
               z3_queries=sum(r['solver']['queries'] for r in results), level='proof')
    if a.v or sys.stdout.isatty():
        for o in obs:
            print('%-9s %-50s %s %s' % (o['status'], o['name'], o['by'], o.get('detail', '')[:400]))
        for r in results:
            print(r['name'], 's=%.1f paths=%d models=%d matched=%d' % (r['s'], r['paths'], r['models'], r['matched']), r['notes'], r.get('error') or '')
    print('@@RESULT ' + json.dumps(out))
    return 0


if __name__ == '__main__':
    sys.exit(main())
