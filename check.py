#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property from the current sources of /repo.

Exit 0: every obligation that was decided holds.  Exit 1: a VIOLATION line per property, details in the replay file.
Exit 2: the analysis is broken (sources do not parse, a law or rule lost its anchor, too little could be decided)."""
import importlib
import json
import os
import re
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':       # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(400000)
import threading
threading.stack_size(512 * 1024 * 1024)

import front
import laws


def known(prop):
    """entries `finding: property=<id> law=<law> [obligation=<text>] -- what fails` of the known-findings file"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if not os.path.exists(p):
        return out
    for l in open(p):
        m = re.match(r'finding:\s+property=(\w+)\s+law=(\S+)\s+--\s+(.*)', l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def run(prop, tier):
    t0 = time.time()
    conf = json.load(open(os.path.join(HERE, 'lib', 'floors.json')))
    floor = conf.get(prop, {})
    specs = sorted(os.path.join(HERE, 'spec', f) for f in os.listdir(os.path.join(HERE, 'spec'))
                   if re.match(prop + r'\w*\.cpp$', f))
    P = front.program(specs) if specs or conf.get(prop, {}).get('cpp') else None
    res = laws.Result()
    res.rules = []
    for s in specs:
        laws.check_spec(P, s, res)
    nlaw = res.obligations
    plug = os.path.join(HERE, 'rules', prop + '.py')
    if os.path.exists(plug):
        importlib.import_module(prop).check(P, res, tier)
    if not specs and not os.path.exists(plug):
        raise SystemExit('no law file and no rule for ' + prop)
    kf = known(prop)
    new, listed = [], []
    for v in res.violations:
        k = [w for l, w in kf if l == v['law']]
        (listed if k else new).append((v, k[0] if k else None))
    for w in {w for _, w in listed}:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for x in res.incomplete:
        print('UNDECIDED property=%s %s' % (prop, x))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    undec = len(res.incomplete)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': floor.get('level', 'proof'),
        'coverage': {
            'obligations': res.obligations, 'discharged': res.discharged,
            'checker_cmd': 'python3 check.py %s' % prop,
            'explanation': floor.get('explanation', 'every law of spec/%s*.cpp is two C++ functions over the public API; both are '
                                     'summarised from the current sources (all paths, all inputs) and compared' % prop),
            'trusted_base': floor.get('trusted') or ['clang 18 front end', 'tool/extract.cpp', 'lib/*.py (value-dependence summaries, library models)',
                             'spec/%s*.cpp (the stated laws)' % prop, 'stubs/lazperf (interface of the missing laz-perf)'],
            'law_obligations': nlaw, 'rule_obligations': res.obligations - nlaw,
            'laws': [n for n, _ in res.laws], 'rules': res.rules,
            'units_parsed': len(front.sources()) + len(specs),
            'functions_analysed': len(res.functions), 'functions': sorted(res.functions)[:400],
            'samples': res.samples, 'undecided': res.incomplete, 'known_findings_hit': sorted({w for _, w in listed}),
        },
        'assumptions': floor.get('assumptions', []) + [
            'signed integer arithmetic does not overflow; containers hold fewer than 2^31 elements; reference arguments do not alias; '
            'allocation succeeds'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d functions of the library analysed, %.1f s'
          % (prop, res.obligations, res.discharged, undec, len(res.functions), time.time() - t0))
    if new:
        with open(replay, 'w') as f:
            json.dump([v for v, _ in new], f, indent=1, default=str)
        for v, _ in new:
            print('  %s: %s%s' % (v['law'], v['obligation'], v.get('where', '')))
            if v.get('case'):
                print('    when: ' + v['case'][:600])
            if 'got' in v:
                print('    the code gives: ' + str(v['got'])[:400])
                print('    required:       ' + str(v['required'])[:400])
            for c in v.get('constructs', [])[:8]:
                print('    in ' + str(c))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    need = floor.get('min', 1)
    # a law whose comparison needs a closed form that a rewritten loop does not have is undecided, not an alarm; but when
    # most of what the laws require could not be decided, nothing was learned about this tree
    if res.discharged + len(listed) < (need + 3) // 4:
        print('analysis broken: %d obligations decided, at least %d of %d expected' % (res.discharged, (need + 3) // 4, need))
        return 2
    return 0


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    rc = [2]

    def go():
        try:
            rc[0] = run(a[0], tier)
        except front.FrontError as e:
            print('analysis broken: %s' % e)
        except SystemExit as e:
            print('analysis broken: %s' % e)
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print('analysis broken')
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])


main()
