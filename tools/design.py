"""Writes DESIGN.md from tools/design_head.md, the registry of sub-checks, known_findings.txt and tools/design_tail.md.
Run with the interpreter of hexrd: VERIF_SCRATCH=/tmp/x /opt/venv/bin/python tools/design.py (Hypothesis must be importable)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), V, os.path.join(V, 'tools')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from props import PROPS, NOT_APPLICABLE
from pbt import core, modmap
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
fixed, known = {}, {}
for l in open(os.path.join(V, 'known_findings.txt')):
    k, _, r = l.partition(': property=')
    if k in ('fixed', 'known'):
        p, _, t = r.strip().partition(' ')
        (fixed if k == 'fixed' else known).setdefault(p, []).append(t.replace('before the repair this was broken: ', ''))
for p in PROPS:
    i = p['id']
    for m in modmap.MODULES[i]:
        importlib.import_module('pbt.props.' + m)
    out.append(f"\n### {i} {p['title']}\n\n* **Specified**: {p['statement']}\n* **Generated domain**: {p['text']}.\n* **Oracle**: {p['oracle']}.\n"
               f"* **Beyond the tests**: {p['why']}\n* **Anchors**: {', '.join(sorted({m.split('::')[0] for m in p['mech']}))}\n")
    out.append('\n| sub-check | cases quick / thorough | a case is non-trivial when |\n|---|---|---|\n')
    for s in core.REGISTRY[i]:
        out.append(f'| {s.name} | {s.n} / {s.n_thorough} | {s.rule} |\n')
    for k in known.get(i, []):
        out.append(f'\nKnown finding (left): {k}\n')
    if fixed.get(i):
        out.append('\nRepaired: ' + '; '.join(fixed[i]) + '.\n')
if NOT_APPLICABLE:
    out.append('\n## Not applicable\n' + ''.join(f'* {k}: {v}\n' for k, v in NOT_APPLICABLE.items()))
out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
