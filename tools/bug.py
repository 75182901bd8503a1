#!/usr/bin/env python3
"""plant one bug: python3 tools/bug.py DEF.py...   (DEF defines ID, PROP, EDITS [(file, old, new)], DEMO python text, NEEDS, BREAKS)
Works on a scratch copy of /repo under /tmp/mut; writes seeded/<ID>/ only if tests pass and the demonstration tells the trees apart."""
import glob, json, os, re, subprocess, sys

M = os.environ.get('MUT', '/tmp/mut/repo')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def tests():
    t = open('/opt/vp/test.sh').read().replace('/repo', M)
    p = M + '_test.sh'
    open(p, 'w').write(t)
    out = M + '_out.json'
    sh(f'rm -f {out}; timeout 150 bash {p} {out}')
    if not os.path.exists(out):
        return ['timeout']
    r = json.load(open(out))
    txt = json.dumps(r)
    passed = r.get('passed', r)
    return [x for x in STABLE if x not in passed]


def checks(prop, tier='--quick'):
    r = sh(f'bin/check {prop} {tier}', cwd=V, env=dict(os.environ, VERIF_REPO=M))
    v = [l for l in r.stdout.splitlines() if 'sub-check' in l or l.startswith('VIOLATION')]
    return r.returncode, v, r.stdout + r.stderr


def main(d):
    ns = {}
    exec(open(d).read(), ns)
    os.makedirs(os.path.dirname(M), exist_ok=True)
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.isdir(M) or sh(f'git -C {M} rev-parse HEAD').stdout.strip() != head:
        sh(f'rm -rf {M}; cp -a /repo {M}')
    sh(f'git -C {M} checkout -q -- . && git -C {M} clean -fdq')
    blame = []
    for f, old, new in ns['EDITS']:
        p = f'{M}/aalpy/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            print(ns['ID'], 'BAD EDIT', f, s.count(old), repr(old[:60]))
            return
        open(p, 'w').write(s.replace(old, new))
    patch = sh(f'git -C {M} diff').stdout
    # removed or neighbouring lines belong to the original tree?
    b = 0
    for f, old, new in ns['EDITS']:
        base = sh(f'git -C /repo show d1c9a05:aalpy/{f}').stdout
        b += all(l in base for l in old.splitlines() if l.strip() and l not in new)
    for f in {f for f, _, _ in ns['EDITS']}:
        r = sh(f'{sys.executable} -m py_compile {M}/aalpy/{f}')
        if r.returncode:
            print(ns['ID'], 'COMPILE', r.stderr)
            return
    D = f"{V}/seeded/{ns['ID']}"
    tmp = f"{M}_demo"
    os.makedirs(tmp, exist_ok=True)
    open(tmp + '/demo.py', 'w').write(ns['DEMO'])
    open(tmp + '/demo.sh', 'w').write(DEMO_SH)
    good, bad = sh(f'bash {tmp}/demo.sh', cwd='/repo'), sh(f'bash {tmp}/demo.sh', cwd=M)
    if good.returncode != 0 or bad.returncode == 0:
        print(ns['ID'], 'DEMO', good.returncode, bad.returncode, good.stderr[-800:], bad.stderr[-300:])
        return
    failed = tests()
    if failed:
        print(ns['ID'], 'TESTS FAIL', failed[:3])
        return
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(patch)
    open(D + '/demo.sh', 'w').write(DEMO_SH)
    open(D + '/demo.py', 'w').write(ns['DEMO'])
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
    rc, v, out = checks(ns['PROP'])
    print(ns['ID'], ns['PROP'], 'orig_lines=%d/%d' % (b, len(ns['EDITS'])), 'CAUGHT' if rc == 1 and v else f'MISSED rc={rc}', '|', (v[1] if len(v) > 1 else out[-200:]).strip()[:170], flush=True)


if __name__ == '__main__':
    for d in sys.argv[1:]:
        main(d)
