"""seed.py FILE.py [ID ...] -- developer helper: make /verif/seeded/<id>/ from a spec list SEEDS in FILE.py and confirm each
(applies, builds, stable tests pass, demo passes without / fails with the patch), then say whether the property's check catches it.
spec: dict(id=, prop=, edits=[(file, old, new), ...], needs=, breaks=, demo=python source)"""
import json, os, subprocess, sys, runpy
V = '/verif/seeded'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo(d):
    return sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300).returncode
SEEDS = runpy.run_path(sys.argv[1])['SEEDS']
skip_tests = '--notests' in sys.argv
sel = [a for a in sys.argv[2:] if not a.startswith('--')]
assert not sh('git -C /repo status --porcelain').stdout
for s in SEEDS:
    if sel and s['id'] not in sel:
        continue
    d = f"{V}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, 'occurrences', t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the behaviour is right, non-zero when it is broken\nset -e\nNUMBA_CACHE_DIR=$(mktemp -d)\nexport NUMBA_CACHE_DIR PYTHONPATH=/repo\n'
                                        'rc=0\n/opt/venv/bin/python "$(dirname "$0")/demo.py" || rc=$?\nrm -rf "$NUMBA_CACHE_DIR"\nexit $rc\n')
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh').returncode
        r1 = demo(d)
        lost = '?'
        if not skip_tests:
            sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            lost = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in set(json.load(open('/tmp/seed_out.json'))['passed'])]
        c = sh(f"VERIF_SEED=1 /verif/check {s['prop']}", timeout=900)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        why = [l for l in (c.stdout + c.stderr).splitlines() if not l.startswith('VIOLATION')][-3:]
    finally:
        sh('git -C /repo checkout -- .')
    if 'cpp' in open(d + '/patch.diff').read() or '.c\n' in open(d + '/patch.diff').read():
        sh('bash /opt/vp/build.sh')
    r0 = demo(d)
    ok = b == 0 and r1 != 0 and r0 == 0 and (skip_tests or not lost)
    print(f"{s['id']} {s['prop']} build={b} demo_with={r1} demo_without={r0} lost={str(lost)[:200]} check_rc={c.returncode} "
          f"{'CAUGHT' if c.returncode == 1 and v else 'MISSED'} {'VALID' if ok else 'INVALID'} {v[0][:120] if v else why}"[:600], flush=True)
