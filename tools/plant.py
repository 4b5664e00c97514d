#!/usr/bin/env python3
"""Author a planted bug: plant.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO)

Works on a scratch copy of the repository; confirms the demonstration on both sides; never touches /repo.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken; run from the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
'''


def main():
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        d = tempfile.mkdtemp(prefix='plant')
        w = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        out = os.path.join(VERIF, 'seeded', s['ID'])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.py'), 'w') as fp:
            fp.write(s['DEMO'].lstrip('\n'))
        with open(os.path.join(out, 'demo.sh'), 'w') as fp:
            fp.write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        a = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=w, capture_output=True, text=True)
        ok = True
        for f, old, new in s['EDITS']:
            p = os.path.join(w, f)
            t = open(p, newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                print(s['ID'], 'EDIT does not match exactly once:', t.count(old), repr(old))
                ok = False
                break
            with open(p, 'w', newline='') as fp:
                fp.write(t.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True).stdout
        with open(os.path.join(out, 'patch.diff'), 'wb') as fp:
            fp.write(diff)
        b = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=w, capture_output=True, text=True)
        with open(os.path.join(out, 'meta.json'), 'w') as fp:
            json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, fp, indent=1)
            fp.write('\n')
        env = dict(os.environ, VERIF_REPO=w)
        c = subprocess.run(['python3', os.path.join(VERIF, 'check.py'), s['PROPERTY']], cwd=VERIF, env=env,
                           capture_output=True, text=True)
        good = a.returncode == 0 and b.returncode != 0
        print('%-28s %s demo %d/%d %s check %d %s' % (
            s['ID'], s['PROPERTY'], a.returncode, b.returncode, 'GOOD' if good else 'BAD', c.returncode,
            'CAUGHT' if c.returncode == 1 else 'MISSED'))
        if not good:
            print(a.stdout[-500:], a.stderr[-1500:], b.stdout[-500:], b.stderr[-500:])
        if c.returncode != 1:
            print(c.stdout[-1500:], c.stderr[-500:])
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
