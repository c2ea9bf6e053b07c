"""Runs the runtime contracts of one property; used as counterexample search / replay and as bounded stand-in."""
import sys
import time
import traceback
import zlib
import numpy as np
from . import lib

MODULES = {'fitcases': 'C01 C02 C03 C04 C07', 'modelcases': 'C05 C06 C08 C09 C10 C20',
           'hypercases': 'C11 C12 C13 C18 C21', 'onlinecases': 'C14 C15', 'postcases': 'C16 C17 C19'}


def cases(pid):
    from importlib import import_module
    for m, ps in MODULES.items():
        if pid in ps.split():
            return getattr(import_module('runtime.' + m), pid)
    return []


def rng_of(seed, name, k):
    return np.random.default_rng([seed, zlib.crc32(name.encode()), k])


class Result(object):
    def __init__(self):
        self.evals = self.skipped = self.iface = 0
        self.fails, self.known, self.samples, self.counts = [], set(), [], {}


def one(pid, fn, seed, k):
    """-> (status, message, note)"""
    bl = lib.load()
    notes = {}

    def note(**kw):
        notes.clear()
        notes.update(kw)
    try:
        with lib.quiet():
            d = fn(bl, rng_of(seed, fn.__name__, k), note)
        return 'ok', d, notes
    except lib.Skip:
        return 'skip', None, notes
    except lib.Fail as e:
        return 'fail', str(e), notes
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        last = tb[-1].filename
        if isinstance(e, (AttributeError, ImportError)) and '/runtime/' in last and not last.startswith(lib.REPO):
            return 'iface', '%s: %s' % (type(e).__name__, e), notes
        where = [f for f in tb if f.filename.startswith(lib.REPO + '/')]
        return 'fail', 'unexpected %s: %s (in %s)' % (type(e).__name__, e, where[-1].name if where else tb[-1].name), notes


def run(pid, seed, scale=1., budget=None, stop=True):
    R = Result()
    t0 = time.time()
    for fn, n in cases(pid):
        n = max(1, int(round(n * scale)))
        for k in range(n):
            if budget and time.time() - t0 > budget:
                R.truncated = True
                break
            st, msg, notes = one(pid, fn, seed, k)
            R.evals += 1
            R.counts.setdefault(fn.__name__, [0, 0, 0])
            c = R.counts[fn.__name__]
            c[0] += 1
            if st == 'skip':
                R.skipped += 1
                c[1] += 1
            elif st == 'iface':
                R.iface += 1
                c[2] += 1
                R.ifacemsg = msg
            elif st == 'fail':
                R.fails.append((fn.__name__, k, msg, dict(notes)))
                if stop:
                    R.wall = time.time() - t0
                    return R
            elif msg:
                R.known |= set(msg)
            if st == 'ok' and len(R.samples) < 3 and k == 0:
                R.samples.append('%s: %s' % (fn.__name__, lib.short(str(notes))))
    R.wall = time.time() - t0
    return R


if __name__ == '__main__':
    for pid in sys.argv[2:] or ['C%02d' % i for i in range(1, 22)]:
        R = run(pid, int(sys.argv[1]), float(__import__('os').environ.get('SCALE', '1')), stop=False)
        print(pid, 'evals', R.evals, 'skip', R.skipped, 'iface', R.iface, 'fails', len(R.fails), 'known', R.known, '%.1fs' % R.wall, {k: v for k, v in R.counts.items() if v[1] > v[0] // 2 or v[2]})
        for f in R.fails[:4]:
            print('   ', f[0], f[1], f[2][:400])
            print('        ', str(f[3])[:700])
