"""Loading the code under test, running it silently, and comparing results.

Everything here runs the REAL code in /repo (imported from the working tree on
every run); nothing is cached between runs.
"""
import contextlib
import io
import os
import sys
import warnings

os.environ['MPLBACKEND'] = 'Agg'
os.environ['TQDM_DISABLE'] = '1'
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')

import numpy as np

_bl = None


def load():
    global _bl
    if _bl is None:
        sys.path.insert(0, REPO)
        with quiet():
            import bayesloop as bl
        root = os.path.dirname(os.path.dirname(os.path.abspath(bl.__file__)))
        assert os.path.realpath(root) == os.path.realpath(REPO), bl.__file__
        _bl = bl
    return _bl


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Null()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout, sys.stderr = out, err


class Fail(Exception):
    """The property does not hold on this input."""


class Known(Exception):
    """The property fails in exactly the way listed in known_findings.jsonl."""


class Skip(Exception):
    """The generated input lies outside the property's precondition."""


def arr(x):
    return np.asarray(x, dtype=float)


def close(got, want, rtol=1e-6, atol=1e-10):
    try:
        g, w = arr(got), arr(want)
    except (TypeError, ValueError):
        return False
    if g.shape != w.shape:
        return False
    return bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))


def eq(what, got, want, rtol=1e-6, atol=1e-10):
    if not close(got, want, rtol, atol):
        raise Fail('%s: got %s, expected %s' % (what, short(got), short(want)))


def same(what, got, want):
    """Exact equality (used for frame conditions)."""
    if not identical(got, want):
        raise Fail('%s: changed from %s to %s' % (what, short(want), short(got)))


def identical(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(identical(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def require(cond, what):
    if not cond:
        raise Fail(what)


def raises(what, excs, f, *a, **k):
    try:
        with quiet():
            f(*a, **k)
    except excs:
        return
    except Exception as e:
        raise Fail('%s: expected an error of type %s, got %s: %s' % (what, excs, type(e).__name__, e))
    raise Fail('%s: expected an error of type %s, none was raised' % (what, excs))


def short(x):
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        try:
            s = np.array2string(np.asarray(x), precision=10, threshold=24, edgeitems=4)
        except Exception:
            s = repr(x)
    else:
        s = repr(x)
    s = ' '.join(s.split())
    return s if len(s) < 420 else s[:420] + '...'
