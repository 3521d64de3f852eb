#!/usr/bin/env python3
"""Decide one property:  check.py <property> [quick|thorough]

Extracts facts from /repo's current source, runs the analysis the property belongs to and
compares what it reports with the committed list of known findings.
"""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import facts, registry
from engine import Prog


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        r = registry.run(prop, tier)
    except facts.ExtractError as e:
        print('ERROR: %s' % e)
        return 2
    known = {}
    with open(os.path.join(HERE, 'known_findings.jsonl')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k.get('status') == 'known' and k['property'] == prop:
                    known[k['key']] = k
    viol, seen = [], []
    for v in r['violations']:
        if v['key'] in known:
            seen.append(v)
        else:
            viol.append(v)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = dict(r['coverage'])
    cov['known_findings'] = len(seen)
    cov['violations'] = len(viol)
    if r['unanalysed']:
        cov['inconclusive'] = r['unanalysed'][:40]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %s' % (prop, cov.get('summary', '')))
    for u in r['unanalysed'][:20]:
        print('INCONCLUSIVE: %s' % u[:300])
    for v in seen:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, v['key'], known[v['key']].get('what', v['msg'])))
    if not viol:
        if r.get('vacuous'):
            print('ERROR: nothing was analysed: %s' % r['vacuous'])
            return 2
        return 0
    path = os.path.join(HERE, 'evidence', prop + '.violation.json')
    with open(path, 'w') as f:
        json.dump(viol, f, indent=1)
    for v in viol[:30]:
        print('  %s\n    %s\n    at %s\n    path: %s' % (v['key'], v['msg'], v.get('where', ''), ' '.join(v.get('trace', [])[-14:])))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
