"""Create or re-validate a planted bug.

usage: mkseed.py ID < spec   where spec is Python defining P, FILE/OLD/NEW (or EDITS=[(file, old, new)]), DEMO, NEEDS, BREAKS
       mkseed.py --verify [ID...]
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = 'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', **{'PYTHONPATH': cwd, **env})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=600)
    return r.returncode, r.stdout + r.stderr


def scratch(sid):
    d = f'/tmp/w/seed_{sid}_{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    run('git checkout -q -- . && git clean -fdq', d)
    return d


def checks(prop, d, tier='quick'):
    return run(f'python3 -m pqsa {prop} --tier {tier}', V, PQSA_REPO=d, PQSA_NOEVIDENCE='1', PYTHONPATH=V)


def main():
    sid = sys.argv[1]
    if sid == '--verify':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        for s in ids:
            d = scratch(s)
            sd = os.path.join(V, 'seeded', s)
            rc, o = run(f'git apply {sd}/patch.diff', d)
            p = json.load(open(sd + '/meta.json'))['property']
            rc2, o2 = checks(p, d)
            print(s, p, 'apply', rc, 'check', rc2, [x for x in o2.splitlines() if 'VIOLATION' in x][:1] or o2[-200:], flush=True)
            shutil.rmtree(d)
        return
    spec = {}
    exec(sys.stdin.read(), spec)
    edits = spec.get('EDITS') or [(spec['FILE'], spec['OLD'], spec['NEW'])]
    d = scratch(sid)
    try:
        sd = os.path.join(V, 'seeded', sid)
        os.makedirs(sd, exist_ok=True)
        open(sd + '/demo.py', 'w').write(spec['DEMO'].lstrip())
        open(sd + '/demo.sh', 'w').write('#!/bin/bash\n' + SH)
        os.chmod(sd + '/demo.sh', 0o755)
        rc0, o0 = run(f'bash {sd}/demo.sh', d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('FAIL: old text occurs', s.count(old), 'times in', f)
                shutil.rmtree(sd)
                return
            open(p, 'w').write(s.replace(old, new))
        if any(f.endswith(('.cpp', '.hpp')) for f, _, _ in edits):
            rcb, ob = run('PROJECTQ_DISABLE_ARCH_NATIVE=1 PROJECTQ_CI_BUILD=1 /opt/venv/bin/python setup.py build_ext --inplace --force >/dev/null 2>&1; git status --short', d)
            print('build', rcb, ob[-300:])
        _, diff = run('git diff -- projectq', d)
        open(sd + '/patch.diff', 'w').write(diff)
        json.dump({'property': spec['P'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(sd + '/meta.json', 'w'), indent=1)
        rc1, o1 = run(f'bash {sd}/demo.sh', d)
        rct, ot = run('rm -f settings.json; /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 --continue-on-collection-errors projectq 2>&1 | grep -E "^[0-9]+ (passed|failed)|^FAILED|^ERROR"', d)
        m = re.search(r'(\d+) failed', ot)
        ok = rc0 == 0 and rc1 != 0 and not m and 'passed' in ot and ' error' not in ot
        rcc, oc = checks(spec['P'], d)
        # lines the patch removes must be original ones
        print(sid, spec['P'], 'demo clean', rc0, 'demo patched', rc1, '| tests', ot.strip().splitlines()[-1] if ot.strip() else ot, '| check rc', rcc)
        print('   ', [x for x in oc.splitlines() if 'VIOLATION' in x][:2] or oc[-300:])
        if rc0:
            print(o0[-1500:])
        if not ok:
            print('   REJECTED', ot[-600:] if m else '', o1[-300:])
            shutil.rmtree(sd)
    finally:
        shutil.rmtree(d)


main()
