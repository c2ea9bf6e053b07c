"""One worker of the runtime phase: python -m runtime.worker PID SEED WORKER WORKERS SCALE BUDGET"""
import json
import signal
import sys
import time
import traceback
from . import lib, run


class Hang(BaseException):
    pass


def main():
    pid, seed, w, n, scale, budget = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), float(sys.argv[6])
    out = dict(evals=0, ok=0, skipped=0, iface=0, ifacemsg=None, fail=None, samples=[], known=[], counts={}, truncated=False)
    t0 = time.time()
    lib.load()

    def handler(s, f):
        raise Hang()
    signal.signal(signal.SIGALRM, handler)
    known = set()
    # round robin over the case functions, so that a budget cut affects all of them equally
    jobs = []
    for fn, cnt in run.cases(pid):
        cnt = max(1, int(round(cnt * scale)))
        jobs += [((k + 0.5) / cnt, fn, k) for k in range(w, cnt, n)]
    jobs.sort(key=lambda j: j[0])
    for _, fn, k in jobs:
        if time.time() - t0 > budget:
            out['truncated'] = True
            break
        signal.alarm(120)
        try:
            st, msg, notes = run.one(pid, fn, seed, k)
        except Hang:
            tb = traceback.extract_tb(sys.exc_info()[2])
            mine = [f for f in tb if '/runtime/' in f.filename or f.filename.startswith(lib.REPO + '/')]
            hung = bool(mine) and mine[-2:][0].filename.startswith(lib.REPO + '/')   # the last frame is the signal handler
            st, msg, notes = ('fail' if hung else 'skip'), 'the call did not return within 120 s', {}
        finally:
            signal.alarm(0)
        out['evals'] += 1
        c = out['counts'].setdefault(fn.__name__, dict(ok=0, skip=0, iface=0))
        if st == 'ok':
            out['ok'] += 1
            c['ok'] += 1
            if msg:
                known |= set(msg)
            if k == 0:
                out['samples'].append('%s[%d]: %s' % (fn.__name__, k, lib.short(str(notes))))
        elif st == 'skip':
            out['skipped'] += 1
            c['skip'] += 1
        elif st == 'iface':
            out['iface'] += 1
            c['iface'] += 1
            out['ifacemsg'] = msg
        else:
            out['fail'] = dict(case=fn.__name__, index=k, seed=seed, message=msg, input=str(notes)[:6000])
            break
    out['known'] = sorted(known)
    sys.__stdout__.write('\n@@RESULT ' + json.dumps(out) + '\n')
    sys.__stdout__.flush()


if __name__ == '__main__':
    main()
