#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--budget S]

Seeded search over simulated runs. Exit 0: held on everything explored; 1: VIOLATION line printed;
anything else: the check itself failed and says nothing about the code."""
import argparse, hashlib, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, simdrv as S
import registry

VERIF = S.VERIF


def known(prop):
    """Entries of known_findings.txt: 'finding: property=<id> sig=<signature> :: <text>' (fixed: lines are history)."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                sig, text = l.split(' sig=', 1)[1].split(' :: ', 1)
                out.append((sig.strip(), text.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    mod = registry.module(a.prop)
    print('property %s tier %s seed %d' % (a.prop, a.tier, a.seed), flush=True)
    bins = mod.build(a.prop) if hasattr(mod, 'build') else build.tools()
    lib = build.libsim()
    tb = time.time() - t0
    budget = a.budget or (150 if a.tier == 'quick' else 3000)
    jobs = mod.plan(a.prop, a.tier, a.seed, bins)
    tot = dict(runs=0, cases=0, unusable=0, sim_ns=0, jobs=0)
    fired, judged, shapes, viol, errs, samples, per, extra = {}, {}, set(), {}, [], [], {}, {}
    with S.Farm(lib, a.workers) as F:
        for st in F.map(mod.job, jobs):
            tot['jobs'] += 1
            for k in ('runs', 'cases', 'unusable', 'sim_ns'):
                tot[k] += st[k]
            for d, s in ((fired, st['fired']), (judged, st['judged'])):
                for k, x in s.items():
                    d[k] = d.get(k, 0) + x
            for k, x in st.get('extra', {}).items():
                if isinstance(x, (set, list)):
                    extra.setdefault(k, set()).update(x)
                else:
                    extra[k] = extra.get(k, 0) + x
            shapes |= {st['tool'] + x for x in st['shapes']}
            per[st['tool']] = per.get(st['tool'], 0) + st['runs']
            if st['err']:
                errs.append('%s: %s' % (st['tool'], st['err']))
            if len(samples) < 12 and st['samples'] and not any(x.startswith(st['tool'] + ':') for x in samples):
                samples.append(st['tool'] + ': ' + st['samples'][0])
            for v in st['viol']:
                viol.setdefault(v['sig'], v)
            if time.time() - t0 > max(budget, min(tb + budget, 600)) or (len(viol) >= 12 and not a.keep_going):
                break
    unknown, seen = [], set()
    kn = known(a.prop)
    for sig, v in sorted(viol.items()):
        m = [x for x in kn if x[0] == sig]
        if m:
            seen.add(m[0])
        else:
            unknown.append(v)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s%s' % (a.prop, k[1], '' if k in seen else ' (not reached in this run)'))
    reported = []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for v in unknown[:4]:
        doc = dict(v, property=a.prop, seed=a.seed, tier=a.tier)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (a.prop, hashlib.sha1(v['sig'].encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'driver', 'replay.py'), path], capture_output=True, text=True)
        if r.returncode != 1:
            errs.append('a violation did not replay in a fresh process: %s\n%s' % (v['sig'], (r.stdout + r.stderr)[-500:]))
            continue
        reported.append(path)
        print('violated: %s -- %s' % (v['name'], v['verdict'][1][:400]))
        for f in v['faults'][:8]:
            print('    ' + f)
        print('VIOLATION property=%s replay=%s' % (a.prop, path), flush=True)
    wall = time.time() - t0
    run_s = max(0.001, wall - tb)
    cov = dict(evaluations=tot['runs'], distinct_nontrivial=len(shapes),
               rule=mod.RULE.get(a.prop, '') if hasattr(mod, 'RULE') else '', samples=samples,
               fault_cases=tot['cases'], faults_fired=dict(sorted(fired.items())), judged_by=judged, runs_per_component=per,
               workload_seeds=tot['jobs'], workloads_unusable=tot['unusable'],
               simulated_seconds=round(tot['sim_ns'] / 1e9, 3), runs_per_hour=int(tot['runs'] / run_s * 3600), seeds_per_hour=int(tot['jobs'] / run_s * 3600),
               distinct_measure='sequences of (process, operation kind, file, fault, failed) with at least one fault that took effect; sizes and data left out',
               components_real=mod.REAL, components_stub=mod.STUB, known_findings_seen=len(seen), build_s=round(tb, 1), jobs_planned=len(jobs), jobs_run=tot['jobs'])
    for k, x in extra.items():
        cov[k] = len(x) if isinstance(x, set) else x
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=registry.LEVEL.get(a.prop, 'exploration'), coverage=cov, wall_s=round(wall, 1), violations=len(unknown), assumptions=getattr(mod, 'ASSUME', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%d simulated runs, %d fault cases, %d distinct fault schedules, %d violations (%d known), %d unusable workloads, %.1f s (build %.1f s)' % (
        tot['runs'], tot['cases'], len(shapes), len(viol), len(seen), tot['unusable'], wall, tb))
    if reported:
        return 1
    if errs:
        print('check error: ' + '\n'.join(errs[:5]))
        return 3
    if tot['cases'] < mod.minimum(a.prop) or tot['unusable'] > tot['jobs'] // 2:
        print('check error: too little was explored (%d cases, %d of %d workloads unusable)' % (tot['cases'], tot['unusable'], tot['jobs']))
        return 3
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('check error: build failed\n' + str(e))
        sys.exit(4)
