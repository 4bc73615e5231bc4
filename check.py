#!/usr/bin/env python3
"""Entry point:  check.py <property> [--tier quick|thorough]   (see DESIGN.md)"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)

from sa import registry, report, selfcheck  # noqa: E402
from sa.program import Program, AnalysisBroken, REPO  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    spec = registry.PROPS[a.prop]
    os.makedirs(EVID, exist_ok=True)
    res = report.Result(a.prop)
    try:
        for modname in spec['rules']:
            mod = importlib.import_module('sa.rules.' + modname)
            selfcheck.check(modname, mod, res)
        prog = Program()
        for modname in spec['rules']:
            mod = importlib.import_module('sa.rules.' + modname)
            mod.run(prog, res)
    except AnalysisBroken as e:
        res.broken.append(str(e))
    known = report.load_known().get(a.prop, {})
    new = [v for v in res.violations if v.key not in known]
    old = [v for v in res.violations if v.key in known]
    nob = len(res.obligations)
    dis = sum(1 for o in res.obligations if o[3])
    per_rule = {}
    for o in res.obligations:
        r = per_rule.setdefault(o[0], {'text': res.rules.get(o[0], ''), 'instances': 0, 'discharged': 0})
        r['instances'] += 1
        r['discharged'] += int(o[3])
    samples = []
    for r in per_rule:
        for o in [x for x in res.obligations if x[0] == r][:4]:
            samples.append({'rule': o[0], 'construct': o[1], 'at': o[2], 'ok': o[3]})
    cov = {'explanation': spec['explanation'], 'rules': per_rule, 'obligations': nob, 'discharged': dis,
           'known_findings_seen': len(old), 'samples': samples, 'analysed': dict(res.counts)}
    if 'prog' in dir():
        cov['analysed'].setdefault('modules', len(prog.modules))
        cov['analysed'].setdefault('functions', len(prog.funcs))
        cov['analysed'].setdefault('classes', len(prog.classes))
    ev = {'property': a.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov, 'assumptions': spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    if res.broken:
        ev['coverage']['analysis_broken'] = res.broken
    path = os.path.join(EVID, a.prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for v in old:
        print('KNOWN-FINDING: property=%s %s -- %s' % (a.prop, v.key, known[v.key]))
    if a.v:
        for o in res.obligations:
            print(('ok   ' if o[3] else 'BAD  ') + '[%s] %s %s' % (o[0], o[2], o[1]))
    print('%s: %d obligations over %d rules, %d discharged, %d known, %d new; %.1fs' % (
        a.prop, nob, len(per_rule), dis, len(old), len(new), time.time() - t0))
    if new:
        rp = os.path.join(EVID, a.prop + '.violations.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('%r\n' % v)
        for v in new:
            print(repr(v))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if res.broken:
        for b in res.broken:
            print('ANALYSIS-BROKEN: %s' % b)
        return 3
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
