#!/usr/bin/env python3
"""re-run the registered quick check against every planted bug (or those named): python3 tools/seeded.py [ID..]"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bug

if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(bug.V + '/seeded'))
    head = bug.sh('git -C /repo rev-parse HEAD').stdout.strip()
    os.makedirs(os.path.dirname(bug.M), exist_ok=True)
    if not os.path.isdir(bug.M) or bug.sh(f'git -C {bug.M} rev-parse HEAD').stdout.strip() != head:
        bug.sh(f'rm -rf {bug.M}; cp -a /repo {bug.M}')
    for i in ids:
        d = f'{bug.V}/seeded/{i}'
        bug.sh(f'git -C {bug.M} checkout -q -- . && git -C {bug.M} clean -fdq')
        r = bug.sh(f'git -C {bug.M} apply {d}/patch.diff')
        if r.returncode:
            print(i, 'PATCH FAILS', r.stderr[:200], flush=True)
            continue
        prop = json.load(open(d + '/meta.json'))['property']
        rc, v, out = bug.checks(prop)
        print(i, prop, 'CAUGHT' if rc == 1 and v else f'MISSED rc={rc} {out[-200:]}', flush=True)
    bug.sh(f'git -C {bug.M} checkout -q -- . && git -C {bug.M} clean -fdq')
