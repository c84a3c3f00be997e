#!/usr/bin/env python3
"""mkseed.py DEFS.py [ID...]: make seeded changes from a file of definitions
BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)...], demo=text)}
and confirm them in a scratch copy: patch applies, stable tests pass, the demo
passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:] or list(ns['BUGS'])
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = set(stable.get('stable') or stable.get('passed') or [])
for bid in want:
    b = ns['BUGS'][bid]
    d = os.path.join(here, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % t, shell=True, check=True)
        subprocess.run('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % t, shell=True, check=True)
        for f, old, new in b['edits']:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, 'EDIT MATCHES', s.count(old), 'TIMES:', old)
                raise SystemExit(1)
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', '-C', t, 'diff'], capture_output=True, text=True, check=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(t)
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}

    def demo():
        return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True, env=env)
    clean = demo()
    subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')], check=True)
    try:
        bad = demo()
        subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/mkseed.json'], capture_output=True)
        r = json.load(open('/tmp/mkseed.json'))
        passed = set(r.get('passed', [])) if isinstance(r.get('passed'), list) else {k for k, v in r.items() if v == 'passed'}
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    lost = sorted(stable - passed)
    print(bid, 'demo clean', clean.returncode, 'patched', bad.returncode, 'tests lost', lost,
          '' if clean.returncode == 0 and bad.returncode not in (0, 124) and not lost else 'NOT GOOD')
    if clean.returncode:
        print(clean.stdout[-800:], clean.stderr[-1500:])
    elif '-v' in os.environ.get('MK', ''):
        print(bad.stdout[-800:], bad.stderr[-800:])
    sys.stdout.flush()
