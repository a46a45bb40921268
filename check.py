#!/usr/bin/env python3
"""usage: check.py PXX [--tier quick|thorough] [--only substring] [-v]
Decides one property of properties.jsonl by static analysis of /repo's current source."""
import sys, os, json, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from engine import fw, build


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = 'quick'
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'): tier = os.environ['VERIF_TIER']
    only = a[a.index('--only') + 1] if '--only' in a else None
    verbose = '-v' in a
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        fw.Env.setup(**getattr(mod, 'NEEDS', {}))
    except build.BuildError as e:
        print('ERROR: the source does not compile, nothing can be analysed\n%s' % e)
        return 2
    obs = [o for o in fw.OBS if o[5] == mod.__name__ and (tier == 'thorough' or not o[4]) and (only is None or only in o[0])]
    if tier == 'thorough': obs = [(o[0], o[1], o[2] * 3) + o[3:] for o in obs]
    res = fw.run_all(obs, 8, 780 if tier == 'quick' else None)
    known = {(k['property'], k['key']): k for k in fw.load_known() if k['status'] == 'open'}
    fails, kn, unds, oks, stats = [], [], [], [], {}
    broken = None
    for rec, err in res:
        if err: broken = err
        oks += ['%s: %s' % (rec.name, c) for c in rec.oks]
        for c, w in rec.unds: unds.append('%s: %s -- %s' % (rec.name, c, w))
        for k, v in rec.stats.items(): stats[k] = stats.get(k, 0) + v
        for key, wh, msg in rec.fails:
            kk = '%s/%s' % (rec.name, key)
            if (pid, kk) in known: kn.append((kk, wh, msg))
            else: fails.append((kk, wh, msg))
        if verbose:
            print('--- %s  %.1fs ok=%d fail=%d und=%d' % (rec.name, rec.wall, len(rec.oks), len(rec.fails), len(rec.unds)))
            for c, w in rec.unds: print('      UND %s -- %s' % (c, w))
            for m in rec.info: print('      ' + m)
    if broken:
        # an entry point named by an obligation is not there in this tree: nothing can be said about it
        unds.append('analysis not possible -- %s' % broken)
    floor = getattr(mod, 'FLOOR', 1)
    for kk, wh, msg in kn:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, kk, wh, known[(pid, kk)]['what']))
    seen_known = {k[0] for k in kn}
    evd = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': mod.__doc__.strip(),
            'obligations': len(oks) + len(unds) + len(fails) + len(kn), 'discharged': len(oks),
            'undecided': unds[:60], 'n_undecided': len(unds), 'violated': len(fails), 'known_findings': [k[0] for k in kn],
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (pid, tier),
            'trusted_base': getattr(mod, 'TRUSTED', TRUSTED),
            'analysed': stats, 'analyses': [o[0] for o in obs], 'claims': oks[:400],
        },
        'wall_s': round(time.time() - t0, 1),
        'assumptions': getattr(mod, 'ASSUME', []) + BASE_ASSUME,
        'violations': len(fails),
    }
    with open(os.path.join(evd, pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    print('%s: %d claims hold, %d undecided, %d violated, %d known findings; %d analyses, %.1f s'
          % (pid, len(oks), len(unds), len(fails), len(kn), len(obs), time.time() - t0))
    if fails:
        rp = os.path.join(evd, pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for kk, wh, msg in fails:
                fh.write('%s\n  at %s\n  %s\n\n' % (kk, wh, msg))
            fh.write('re-run: python3 /verif/check.py %s\n' % pid)
        for kk, wh, msg in fails: print('  %s\n    at %s\n    %s' % (kk, wh, msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for u in unds[:20]: print('  UNDECIDED ' + u)
    if tier == 'quick' and only is None and not oks and not kn:
        # every analysis ran into its limits: nothing is claimed for this tree
        print('  nothing decided on this tree')
    return 0


TRUSTED = ('clang 18 front end and the opt passes sroa/simplifycfg/instsimplify/loop-simplify/lcssa; engine/*.py '
           '(IR reader, gated value flow, loop summaries, term normal form by fingerprints over a 127-bit-or-larger prime field)')
BASE_ASSUME = ['floating-point arithmetic is compared as exact real arithmetic: reassociation and rounding are not distinguished',
               'distinct pointer parameters of a call do not overlap (unless a check states otherwise)',
               'array members are indexed within their declared bounds where a check assumes it (bounds themselves are property P09)']

if __name__ == '__main__':
    sys.exit(main())
