#!/usr/bin/env python3-vt
"""Records which loop invariant candidates do not hold on the current tree, so that later runs
need not find out again (engine/hints.json). mkhints.py [QUAL...] (default: every contract)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)) + '/..'
sys.path[:0] = [HERE + '/engine', HERE + '/contracts']
sys.setrecursionlimit(20000)
if os.environ.get('PYTHONHASHSEED') != '0':      # the same terms in the same order every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import registry, contract
from core import Program

f = HERE + '/engine/hints.json'
h = json.load(open(f)) if os.path.exists(f) else {}
prog = Program()
reg = registry.build(prog)
for q in sys.argv[1:] or sorted(q for q, c in reg.contracts.items()
                                if not c.trusted and not c.inline):
    r = contract.verify(prog, reg, q, jobs=8, use_hints=False)
    run = getattr(r, 'run', None)
    if not r.ok or run is None:
        print('not verified:', q, r.error or r.failed[:2])
        continue
    gone = {f'{run.loopname.get(k)}:{c}' for k, c in run.removed}
    # a name may stand for a loop met along several paths: only if it is dropped in all
    kept = {f'{run.loopname.get(v.cand[0])}:{v.cand[1]}' for v in r.vcs.values()
            if v.cand is not None}
    h.pop(q, None)
    if gone - kept:
        h[q] = sorted(gone - kept)
    print(q, len(h.get(q, [])), f'{r.wall:.1f}s', flush=True)
json.dump(h, open(f, 'w'), indent=1, sort_keys=True)
