"""python3 -m mqa check <PROPERTY> [--tier quick|thorough]"""
import importlib
import json
import os
import re
import sys
import time
import traceback
from .equiv import Check, VERIF
from .front import AnalysisError
from . import front


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            # property=<id> rule=<rule> construct=<construct> :: what fails
            head, _, what = line.partition(' :: ')
            d = dict(re.findall(r'(property|rule|construct)=(.*?)(?= rule=| construct=|$)', head))
            out.append((d['property'], d.get('rule'), d['construct'], what))
    return out


def run_check(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('mqa.props.' + pid)
    c = Check(pid, tier, seed)
    mod.check(c)
    if not c.obligations:
        raise AnalysisError('no obligation was analysed')
    for m in getattr(mod, 'MUST_ENTER', ()):
        if m not in c.functions:
            raise AnalysisError('anchor vanished: %s was never reached by the analysis' % m)
    known = known_findings()
    fresh, old = [], []
    for v in c.violations:
        k = [f for f in known if f[0] == pid and (f[1] in (None, v.rule)) and f[2] == v.construct]
        (old if k else fresh).append((v, k[0] if k else None))
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    for f in os.listdir(edir):
        if f.startswith(pid + '.replay'):
            os.remove(os.path.join(edir, f))
    rc = 0
    for i, (v, k) in enumerate(fresh):
        rp = os.path.join(edir, '%s.replay%d.json' % (pid, i))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'rule': v.rule, 'construct': v.construct, 'report': v.text,
                       'under': v.path, 'rerun': 'cd /verif && ./run %s --tier %s' % (pid, tier)}, f, indent=1)
        print('%s: rule %s, construct %s\n  %s\n  under: %s' % (pid, v.rule, v.construct, v.text,
                                                             '; '.join(v.path[:40])))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    seen = set()
    for v, k in old:
        if k not in seen:
            seen.add(k)
            print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': getattr(mod, 'EXPLAIN', (mod.__doc__ or '').strip()),
              'rule_instances': len(c.instances), 'obligations': c.obligations,
              'abstract_partitions': c.partitions, 'partitions_compared': c.compared,
              'abstract_steps': c.steps, 'call_sites_interpreted': c.sites,
              'functions_analysed': sorted(c.functions), 'functions_count': len(c.functions),
              'instances': c.instances[:400], 'notes': c.notes, 'known_findings': len(seen)},
          'assumptions': COMMON + c.assumptions + list(getattr(mod, 'ASSUME', ())),
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d rule instances, %d partitions (%d compared), %d functions, %.1f s: %s' % (
        pid, len(c.instances), c.partitions, c.compared, len(c.functions), time.time() - t0,
        'violated' if rc else 'holds'))
    return rc


COMMON = ['the source is interpreted with Python 2 division, comparison and rounding as the build environment does',
          'floating-point arithmetic is treated as exact real arithmetic; infinities are not considered and NaN only where a clause names it',
          'assert statements are executed']


def main(argv):
    sys.setrecursionlimit(20000)
    if argv and argv[0] == 'all':
        import subprocess
        pids = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'mqa', 'props')) if f[0] == 'P')
        bad = 0
        for p in pids:
            bad |= subprocess.call([sys.executable, '-m', 'mqa', p] + argv[1:], cwd=VERIF)
        return bad
    pid = argv[0]
    tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    try:
        return run_check(pid, tier)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s: %s' % (pid, type(e).__name__, e))
        if os.environ.get('MQA_TRACE'):
            traceback.print_exc()
        return 2
