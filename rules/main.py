"""main.py PROPERTY TIER DUMPDIR  -- decide one property on a dump"""
import sys
import os
import json
import time
import importlib
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from lib import *


def load_known():
    out = {}
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING '):
                f = l.split(' ', 3)
                pid = f[1].split('=', 1)[1]
                key = f[2].split('=', 1)[1]
                out[(pid, key)] = f[3]
    return out


def main():
    pid, tier, dumpdir = sys.argv[1:4]
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    r = Report(pid)
    dump = json.load(open(os.path.join(dumpdir, 'syntaxis-Rlib.json')))
    src = Sources(dump)
    src.dir = dumpdir
    src.repo = os.environ.get('VERIF_REPO', '/repo')
    src.tier = tier
    try:
        import lib, c06
        lib.VIEWS.update(c06.views(src) or {})
        mod.run(r, src)
    except Budget as e:
        r.undec('budget', 'analysis', str(e))
    except Exception:
        if os.environ.get('VERIF_DEBUG'):
            raise
        r.undec('internal', 'analysis', traceback.format_exc(limit=-3))
    for it in src.its.values():
        for k, v in it.unknown.items():
            r.unknown[k] = max(v, r.unknown.get(k, 0))
    known = load_known()
    bad, kf = [], []
    for rule, loc, stt, det in r.obs:
        if stt == 'bad':
            key = '%s@%s' % (rule, loc)
            if (pid, key) in known:
                kf.append((key, known[(pid, key)]))
            else:
                bad.append((rule, loc, det))
    n = len(r.obs)
    nok = len([o for o in r.obs if o[2] == 'ok'])
    und = [o for o in r.obs if o[2] == 'undec']
    floor = getattr(mod, 'FLOOR', 1)
    if n < floor and not bad and not und:
        bad.append(('coverage', 'rule instances', 'only %d obligations found, at least %d expected' % (n, floor)))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the compiler\'s MIR of /repo\'s working tree. ' + ' '.join((mod.__doc__ or '').split()),
            'obligations': n, 'discharged': nok, 'undecided': len(und),
            'functions_analysed': len(r.nfun), 'paths': r.npaths, 'loops_summarised': r.nloops,
            'functions': sorted(r.nfun)[:80],
            'rules': sorted({o[0] for o in r.obs}),
            'samples': [{'rule': o[0], 'at': o[1], 'status': o[2], 'detail': o[3][:400]} for o in r.obs[:60]],
            'undecided_items': [{'rule': o[0], 'at': o[1], 'detail': o[3][:600]} for o in und],
            'unmodelled_callees': r.unknown,
            'known_findings': [k for k, _ in kf],
        },
        'assumptions': ['the MIR rustc builds is what runs', 'the abstract semantics of std callees in engine/models.py'],
        'wall_s': round(wall, 3), 'violations': len(bad),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1, ensure_ascii=False)
    for k, d in kf:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, d))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (pid, n, nok, len(und), len(bad), wall))
    for o in und:
        print('  undecided: [%s] %s: %s' % (o[0], o[1], o[3][:300]))
    if bad:
        os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
        rp = os.path.join(V, 'replay', pid + '.txt')
        with open(rp, 'w') as f:
            for rule, loc, det in bad:
                f.write('rule: %s\nat: %s\n%s\n\n' % (rule, loc, det))
        for rule, loc, det in bad:
            print('  violated: [%s] %s: %s' % (rule, loc, det[:700]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
