#!/opt/venv/bin/python
"""Decides one property: check.py Cxx [--tier quick|thorough] [--replay FILE]

1. proof phase    contracts/Cxx.py: obligations generated from /repo's current source, discharged by the engine
2. runtime phase  runtime/: the same contracts evaluated on the real code (counterexample search / replay,
                  cross-check of the assumed contracts, bounded stand-in for what the proof phase does not reach)

exit 0: held; exit 1 with a VIOLATION line: broken; 2: the machinery itself failed.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
           MPLBACKEND='Agg', TQDM_DISABLE='1', PYTHONHASHSEED='0')
TIERS = {'quick': dict(tier='quick', workers=6, scale=60., budget=60., prove=300.),
         'thorough': dict(tier='thorough', workers=8, scale=120., budget=600., prove=1500.)}


def findings(pid):
    return [k for k in map(json.loads, open(os.path.join(HERE, 'known_findings.jsonl'))) if pid in k['property']]


def result(text):
    for l in reversed(text.splitlines()):
        if l.startswith('@@RESULT '):
            return json.loads(l[9:])
    return None


def runtime_phase(pid, seed, cfg):
    ps = []
    for w in range(cfg['workers']):
        ps.append(subprocess.Popen([PY, '-m', 'runtime.worker', pid, str(seed), str(w), str(cfg['workers']), str(cfg['scale']), str(cfg['budget'])],
                                   cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    tot = dict(evals=0, ok=0, skipped=0, iface=0, samples=[], known=[], counts={}, fail=None, truncated=False, errors=[], ifacemsg=None)
    end = time.time() + cfg['budget'] + 150
    for p in ps:
        try:
            o, e = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            tot['errors'].append('a worker did not finish')
            continue
        r = result(o)
        if r is None:
            tot['errors'].append((e or o)[-1500:])
            continue
        for k in ('evals', 'ok', 'skipped', 'iface'):
            tot[k] += r[k]
        tot['samples'] += r['samples']
        tot['known'] = sorted(set(tot['known']) | set(r['known']))
        tot['truncated'] = tot['truncated'] or r['truncated']
        tot['ifacemsg'] = tot['ifacemsg'] or r['ifacemsg']
        for f, c in r['counts'].items():
            d = tot['counts'].setdefault(f, dict(ok=0, skip=0, iface=0))
            for k in c:
                d[k] += c[k]
        if r['fail'] and (tot['fail'] is None or r['fail']['index'] < tot['fail']['index']):
            tot['fail'] = r['fail']
    return tot


def proof_phase(pid, seed, cfg):
    if not os.path.exists(os.path.join(HERE, 'contracts', pid + '.py')):
        return None
    try:
        p = subprocess.run([PY, '-m', 'engine.verify', pid, '--budget', str(cfg['prove']), '--seed', str(seed), '--tier', cfg['tier']], cwd=HERE, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=cfg['prove'] + 60)
    except subprocess.TimeoutExpired:
        return dict(error='the proof phase did not finish in time', obligations=[])
    r = result(p.stdout)
    return r if r is not None else dict(error=(p.stderr or p.stdout)[-3000:], obligations=[])


def replay_path(pid, name):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.json' % (pid, name))


def replay(path):
    d = json.load(open(path))
    sys.path.insert(0, HERE)
    os.environ.update(ENV)
    if d.get('case'):
        from runtime import run
        fn = [f for f, n in run.cases(d['property']) if f.__name__ == d['case']][0]
        st, msg, notes = run.one(d['property'], fn, d['seed'], d['index'])
        print('case %s[%d] seed %d: %s %s' % (d['case'], d['index'], d['seed'], st, msg))
        print('input: %s' % notes)
        return 1 if st == 'fail' else 0
    print(json.dumps(d, indent=1))
    r = proof_phase(d['property'], 1, TIERS['quick'])
    bad = [o for o in (r or {}).get('obligations', []) if o['name'] == d.get('obligation') and o['status'] != 'proved']
    print('obligation %s is %s' % (d.get('obligation'), 'still not discharged' if bad else 'discharged'))
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=sorted(TIERS))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = TIERS[tier]
    t0 = time.time()
    proof = proof_phase(pid, seed, cfg)
    tp = time.time() - t0
    rt = runtime_phase(pid, seed, cfg)
    sys.path.insert(0, HERE)
    os.environ.update(ENV)
    from runtime import known
    lines, code = [], 0
    for k in findings(pid):
        if k['status'] == 'known' and known.present(k['id']):
            lines.append('KNOWN-FINDING: property=%s %s [%s]' % (pid, k['what'], k['where']))
    obs = (proof or {}).get('obligations', [])
    refuted = [o for o in obs if o['status'] == 'refuted']
    proved = [o for o in obs if o['status'] == 'proved']
    undecided = [o for o in obs if o['status'] == 'undecided']
    rejected = [o for o in undecided if o.get('kind') == 'rejected']
    # the contract of an internal function is not an observable behaviour by itself: a failure needs a failing input of the public interface
    inner = [o for o in refuted if o.get('private')]
    if inner and not rt['fail'] and len(inner) == len(refuted):
        rejected = inner + rejected
        refuted = []
    if rejected and not rt['fail']:         # look harder for a failing input before reporting without one
        more = dict(cfg, scale=2 * cfg['scale'], budget=120.)
        r2 = runtime_phase(pid, seed + 1000, more)
        for k in ('evals', 'ok', 'skipped', 'iface'):
            rt[k] += r2[k]
        rt['fail'] = r2['fail']
    nviol = 0
    if rt['fail']:
        f = rt['fail']
        path = replay_path(pid, 'input')
        json.dump(dict(property=pid, kind='failing input on the real code', failed_obligations=[o['name'] for o in refuted + undecided][:20],
                       replay_cmd='python check.py --replay %s' % path, **f), open(path, 'w'), indent=1)
        lines.append('failing input: %s[%d] seed %d: %s' % (f['case'], f['index'], f['seed'], f['message']))
        for o in refuted[:5]:
            lines.append('failed obligation: %s: %s' % (o['name'], o.get('detail', '')[:300]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        code, nviol = 1, 1
    elif refuted:
        o = refuted[0]
        if o.get('witness_replayed'):
            path = replay_path(pid, 'witness')
            tail = ''
        else:
            path = replay_path(pid, 'obligation')
            tail = ' no-failing-input-found'
        json.dump(dict(property=pid, kind='failed obligation', obligation=o['name'], function=o.get('function'), verifier_output=o.get('detail'),
                       all_refuted=[x['name'] for x in refuted], replay_cmd='python check.py --replay %s' % path), open(path, 'w'), indent=1)
        lines.append('failed obligation: %s: %s' % (o['name'], o.get('detail', '')[:600]))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
        code, nviol = 1, len(refuted)
    elif rejected:
        path = replay_path(pid, 'obligation')
        json.dump(dict(property=pid, kind='obligation not discharged', obligation=rejected[0]['name'], function=rejected[0].get('function'),
                       verifier_output=rejected[0].get('detail'),
                       all_not_discharged=[dict(name=x['name'], verifier_output=x.get('detail', '')[:600]) for x in rejected],
                       replay_cmd='python check.py --replay %s' % path), open(path, 'w'), indent=1)
        for o in rejected[:5]:
            lines.append('obligation not discharged: %s: %s' % (o['name'], o.get('detail', '')[:400]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        code, nviol = 1, len(rejected)
    elif rt['errors'] and not rt['ok']:
        lines.append('machinery error: %s' % rt['errors'][:1])
        code = 2
    wall = time.time() - t0
    cov = dict(evaluations=rt['evals'], distinct_nontrivial=rt['ok'],
               rule='every evaluation is a distinct pseudo-random input (case name, seed, index) run on the real code of /repo and compared '
                    'with the contract; trivial = outside the precondition (skipped: %d) or interface not available (%d)' % (rt['skipped'], rt['iface']),
               samples=rt['samples'][:6] or ['none'], runtime_cases=rt['counts'], runtime_truncated=rt['truncated'])
    level = 'exploration'
    assumptions = ['runtime comparisons use floating-point tolerance 1e-6 relative, 1e-10 absolute']
    if proof is not None:
        level = proof.get('level', 'proof') if proved else 'exploration'
        cov.update(obligations=len(obs), discharged=len(proved), undecided=[dict(name=o['name'], why=o.get('detail', '')[:300]) for o in undecided],
                   checker_cmd='cd /verif && /opt/venv/bin/python -m engine.verify %s' % pid,
                   trusted_base=proof.get('trusted', []), functions_under_contract=proof.get('functions', []),
                   backends=proof.get('backends', {}), solver_time_s=proof.get('solver_s'), proof_wall_s=round(tp, 2),
                   per_obligation=[dict(name=o['name'], function=o.get('function'), status=o['status'], by=o.get('by'), s=o.get('s')) for o in obs],
                   bounded_standins=proof.get('bounded', []), vacuity=proof.get('vacuity', {}))
        if proof.get('error'):
            cov['proof_error'] = proof['error'][-1500:]
        assumptions += proof.get('assumptions', [])
    if rt['ifacemsg']:
        cov['interface_note'] = rt['ifacemsg']
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged, %d undecided, %d refuted; %d runtime evaluations (%d in scope); %.1f s'
          % (pid, tier, len(proved), len(obs), len(undecided), len(refuted), rt['evals'], rt['ok'], wall))
    if (proof or {}).get('error'):
        print('proof phase: %s' % proof['error'][-400:])
    for l in lines:
        print(l)
    return code


if __name__ == '__main__':
    sys.exit(main())
