"""./check <ID> [--replay FILE] [--only SUB] [--scale X] [--list]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
# /repo first; the verification tools' site-packages last (Hypothesis).
sys.path[:] = [REPO] + [p for p in sys.path if p not in ('', HERE, REPO)] + [
    '/opt/veriftools/pyvenv/lib/python3.12/site-packages']
sys.path.insert(1, VERIF)

import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--stats', action='store_true')
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    scratch = os.environ['VERIF_SCRATCH']
    t0 = time.time()
    from pbt import core, modmap
    mods = modmap.MODULES[a.pid]
    try:
        import hexrd
        if not os.path.abspath(list(hexrd.__path__)[0]).startswith(REPO + os.sep):
            print(f'ERROR: hexrd imported from {hexrd.__path__}')
            return 2
        for m in mods:
            importlib.import_module('pbt.props.' + m)
    except Exception:
        traceback.print_exc()
        print('ERROR: could not import the code under test or the check')
        return 2
    subs = core.REGISTRY[a.pid]
    if a.scale != 1.0:
        for s in subs:
            s.n = max(1, int(s.n * a.scale))
            s.n_thorough = max(1, int(s.n_thorough * a.scale))

    if a.replay:
        d = json.load(open(a.replay))
        s = [s for s in subs if s.name == d['sub']][0]
        sd = os.path.join(scratch, 'replay')
        os.makedirs(sd, exist_ok=True)
        os.chdir(sd)
        try:
            core.run_body(s, d['case'], sd)
        except core.Skip:
            print('case is outside the domain')
            return 0
        except Exception as e:
            if core.classify(e, e.__traceback__) == 'harness':
                traceback.print_exc()
                return 2
            traceback.print_exc(file=sys.stdout)
            print(f'VIOLATION property={a.pid} replay={a.replay}')
            return 1
        print('replayed case holds')
        return 0

    core.warm_up(a.pid, scratch)
    results = core.run_property(a.pid, subs, tier, seed, scratch, jobs=a.jobs,
                                budget=a.budget, only=a.only)
    wall = time.time() - t0
    rc = 0
    viol = []
    rdir = os.path.join(VERIF, 'replays', a.pid)
    per_sub = {}
    for r in sorted(results, key=lambda r: (r['sub'], r['part'])):
        d = per_sub.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=0, skipped=0, labels={},
                                              samples=[], wall_s=0.0, status='ok', stopped_by_time=False))
        d['evaluations'] += r['evaluations']
        d['distinct_nontrivial'] += r['distinct']
        d['skipped'] += r['skipped']
        d['wall_s'] = round(d['wall_s'] + r['wall_s'], 2)
        d['stopped_by_time'] |= bool(r['exhausted'])
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        d['samples'] = (d['samples'] + r['samples'])[:2]
        if r['status'] != 'ok':
            d['status'] = r['status']
        if r['status'] == 'violation':
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{r['sub']}.{r['part']}.json")
            with open(path, 'w') as f:
                json.dump(dict(property=a.pid, sub=r['sub'], case=r['case'], message=r['message'],
                               traceback=r['traceback'], seed=seed, tier=tier), f, indent=1)
            print(f"[{a.pid}/{r['sub']}] {r['message']}")
            print('   case: ' + json.dumps(r['case'])[:1500])
            print(f'VIOLATION property={a.pid} replay={path}')
            viol.append(dict(sub=r['sub'], message=r['message'], replay=path))
            rc = 1
    errors = [r for r in results if r['status'] == 'error']
    for r in errors:
        print(f"ERROR in {a.pid}/{r['sub']}:\n{r['error'][:1500]} ... {r['error'][-1500:]}")
    known = sorted({k for r in results for k in r['known']})
    for d in core.load_known(a.pid):
        print(f"KNOWN-FINDING: property={a.pid} {d}")
    ev = dict(property=a.pid, tier=tier, seed=int(seed) if seed.lstrip('-').isdigit() else 0,
              level='exploration',
              coverage=dict(
                  evaluations=sum(d['evaluations'] for d in per_sub.values()),
                  distinct_nontrivial=sum(d['distinct_nontrivial'] for d in per_sub.values()),
                  rule='; '.join(f'{s.name}: {s.rule}' for s in subs if s.rule) or 'see sub-checks',
                  samples=[dict(sub=k, case=c) for k, d in per_sub.items() for c in d['samples'][:1]][:12],
                  sub_checks={k: {kk: vv for kk, vv in d.items() if kk != 'samples'} for k, d in per_sub.items()}),
              assumptions=['reference models in /verif/pbt are right', 'numpy/scipy/h5py are right',
                           'inputs outside the stated generators are not covered'],
              violations=len(viol), violation_details=viol, known_findings_seen=known, wall_s=round(wall, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print(f"{a.pid}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{len(per_sub)} sub-checks, {wall:.1f} s")
    if a.stats:
        for k, d in per_sub.items():
            print(f"  {k:32s} n={d['evaluations']:6d} nt={d['distinct_nontrivial']:6d} skip={d['skipped']:5d} "
                  f"{d['wall_s']:7.1f}s {'TIME ' if d['stopped_by_time'] else ''}{d['labels']}")
    if rc == 0 and errors:
        rc = 2
    return rc


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
