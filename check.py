#!/usr/bin/env python3
"""Decide one property from the current source of the repository.

usage: check.py PROPERTY [--thorough]        exit 0: held; 1: violated; 2: the analysis lost an anchor
"""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import registry  # noqa: E402
from engine import run as R  # noqa: E402


def known(pid):
    """Findings listed for the property: key -> description"""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as fp:
        for line in fp:
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough'
    prop = registry.PROPERTIES[pid]
    jobs = [tuple(j) for j in prop['jobs']] + ([tuple(j) for j in prop.get('thorough', ())] if thorough else [])
    t0 = time.time()
    results = R.run(jobs)
    listed = known(pid)
    evidence = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    replay = os.path.join(evidence, 'replay')
    os.makedirs(replay, exist_ok=True)
    for f in os.listdir(replay):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(replay, f))

    functions, sites, terms, counts = set(), 0, 0, {}
    bad, lost = [], []
    for r in results:
        st = r['stats'] or {}
        functions |= set(st.get('functions', ()))
        sites += st.get('call_sites', 0)
        terms += st.get('terms', 0)
        for k, v in st.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
        print('%-9s %-28s %5.2fs %s' % (r['status'], r['name'], r['wall'], r['where'] if r['status'] != 'ok' else ''))
        if r['status'] == 'violation':
            # a rule may report several constructs
            for it in (r.get('items') or [{'key': r['key'], 'where': r['where'], 'detail': r['detail']}]):
                if it['key'] in listed:
                    print('KNOWN-FINDING: property=%s %s' % (pid, listed[it['key']]))
                else:
                    bad.append((r, it))
        elif r['status'] == 'anchor':
            lost.append(r)
        elif r['status'] == 'undecided':
            print('UNDECIDED property=%s obligation=%s: %s' % (pid, r['name'], r['detail'].splitlines()[0][:300]))
    for i, (r, it) in enumerate(bad):
        path = os.path.join(replay, '%s-%d.txt' % (pid, i))
        with open(path, 'w') as fp:
            fp.write('property:   %s\nobligation: %s\nconstruct:  %s\nkey:        %s\n\n%s\n' % (
                pid, r['name'], it['where'], it['key'], it['detail']))
        print('%s\n%s' % (it['where'], it['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    ok = sum(r['status'] == 'ok' for r in results)
    cov = {
        'explanation': prop['explanation'],
        'obligations': len(results),
        'discharged': ok,
        'undecided': [r['name'] for r in results if r['status'] == 'undecided'],
        'functions_analysed': len(functions),
        'functions': sorted(functions)[:200],
        'call_sites_resolved': sites,
        'value_graph_nodes': terms,
        'rule': 'an obligation is discharged when the value graph built from the source and the one built from its '
                'contract are the same node; rules are discharged when no construct matches the forbidden pattern',
        'samples': [{'obligation': r['name'], 'status': r['status'], 'wall_s': r['wall'],
                     'functions': r['stats'].get('functions', [])[:6]} for r in results][:12],
    }
    cov.update(counts)
    with open(os.path.join(evidence, pid + '.json'), 'w') as fp:
        json.dump({
            'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
            'assumptions': registry.ASSUMPTIONS + prop.get('assumptions', []), 'violations': len(bad),
        }, fp, indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %d call sites' % (
        pid, len(results), ok, len(functions), sites))
    if bad:
        return 1
    if lost:
        for r in lost:
            print('ANALYSIS BROKEN: obligation %s lost its anchor: %s' % (r['name'], r['detail']))
        if not ok:
            return 2            # nothing was decided at all
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 3
    sys.exit(code)
