"""Runner:  python3 -m occustat C01 [--tier quick|thorough]"""
import argparse
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    """[(key, text)] of recorded findings of this property (never written at run time)."""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    head, _, text = line[7:].partition(' :: ')
                    d = dict(x.split('=', 1) for x in head.split())
                    if d.get('property') == pid:
                        out.append((d['key'], text))
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 0))
    ap.add_argument('-v', action='store_true')
    ns = ap.parse_args()
    pid = ns.property
    from . import lib, witness, checks
    if pid not in checks.REG:
        print('no check for %s' % pid)
        return 3
    witness.SEED = ns.seed
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    t0 = time.time()
    run = lib.Run(pid, ns.tier, budget=700. if ns.tier == 'quick' else 800., per=120 if ns.tier == 'quick' else 400,
                  known=dict(known_findings(pid)), patience=90. if ns.tier == 'quick' else 400.)
    fatal = None
    try:
        checks.REG[pid](run)
    except lib.AnchorMissing as e:
        fatal = str(e)
    run.finish()
    known = dict(known_findings(pid))
    viol, kf, und, anchor, ok = [], [], [], [], []
    for o in run.obs:
        if o.status == 'violation':
            (kf if o.key in known else viol).append(o)
        else:
            {'undecided': und, 'anchor': anchor}.get(o.status, ok).append(o)
    out = os.environ.get('OCCUSTAT_OUT') or HERE       # self-tests on scratch copies write elsewhere
    rep = os.path.join(out, 'reports', '%s.txt' % pid)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    lines = []
    for o in run.obs:
        lines.append('[%s] %s' % (o.status, o.name))
        if o.status != 'ok' or o.detail:
            lines.append('    at %s: %s %s' % (o.site, o.detail, ('(sizes %s)' % o.domain) if o.domain else ''))
    head = ['property %s, tree %s' % (pid, lib.REPO), 'rule: see DESIGN.md, section %s' % pid,
            'obligations %d, discharged %d, violated %d, undecided %d' % (len(run.obs), len(ok), len(viol) + len(kf), len(und)), '']
    with open(rep, 'w') as f:
        f.write('\n'.join(head + lines) + '\n')
    wall = time.time() - t0
    funcs = sorted(lib.VISITED)
    ev = {'property': pid, 'tier': ns.tier, 'seed': ns.seed, 'level': 'other', 'wall_s': round(wall, 3), 'violations': len(viol),
          'coverage': {
              'explanation': checks.EXPLAIN.get(pid, '') or 'abstract interpretation of the source to value graphs, compared with closed forms',
              'obligations': len(run.obs), 'discharged': len(ok),
              'discharged_for_small_sizes_only': sum(o.status == 'ok-small' for o in ok),
              'undecided': len(und), 'known_findings': len(kf),
              'abstract_runs': lib.SESSIONS[0],
              'functions_analysed': funcs, 'functions_analysed_count': len(funcs),
              'obligation_list': [{'name': o.name, 'status': o.status, 'site': o.site, 'sizes': o.domain, 'detail': o.detail[:600]}
                                  for o in run.obs],
              'samples': [o.name for o in run.obs[:5]]},
          'assumptions': checks.ASSUME}
    evf = os.path.join(out, 'evidence', '%s.json' % pid)
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    with open(evf, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for o in kf:
        print('KNOWN-FINDING: property=%s %s [%s: %s]' % (pid, known[o.key], o.site, o.detail[:300]))
    for o in und:
        print('UNDECIDED: %s: %s' % (o.name, o.detail[:500]))
    for o in anchor:
        print('NOT FOUND: %s: %s' % (o.name, o.detail))
    if ns.v:
        print('\n'.join(lines))
    print('%s: %d obligations, %d discharged, %d violated, %d known, %d undecided, %d functions analysed, %.1f s' % (
        pid, len(run.obs), len(ok), len(viol), len(kf), len(und), len(funcs), wall))
    if viol:
        for o in viol[:20]:
            print('%s: %s: %s' % (o.site, o.name, o.detail[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if fatal or anchor or not (ok or kf):
        print('no verdict: %s' % (fatal or ('documented entry points missing' if anchor else 'no obligation decided')))
        return 2
    return 0




if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
