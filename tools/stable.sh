#!/bin/bash
# stable.sh ID...: run the stable tests against a scratch copy with the planted bug applied
for id in "$@"; do
  w=$(mktemp -d /tmp/stableXXXX)
  git clone -q /repo $w/repo && cd $w/repo && git apply /verif/seeded/$id/patch.diff || { echo "$id PATCH FAILS"; continue; }
  export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH=$w/repo
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=800 --disable-warnings --continue-on-collection-errors \
    --ignore=tests/models/test_thevenin.py -n ${N:-3} -o junit_family=xunit2 --junitxml=$w/r.xml tests > $w/log 2>&1
  python3 - $w/r.xml $id <<'P'
import json, sys, xml.etree.ElementTree as E
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok = set()
for c in E.parse(sys.argv[1]).iter('testcase'):
    if not [x for x in c if x.tag in ('failure', 'error', 'skipped')]:
        ok.add(c.get('classname') + '::' + c.get('name'))
bad = sorted(stable - ok)
print(sys.argv[2], 'STABLE' if not bad else 'BREAKS %s' % bad[:5])
P
  cd /; rm -rf $w
done
