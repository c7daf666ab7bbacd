"""entry point: run.py CNN [--tier quick|thorough] [--replay FILE] [--scenario NAME]"""
from __future__ import print_function
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


def quiet():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def load_known(prop):
    """signatures of the genuine defects that are recorded, not repaired"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                if rest.startswith('sig='):
                    sig, _, what = rest[4:].partition(' :: ')
                    out[sig] = what
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--scenario')
    ap.add_argument('--procs', type=int, default=0)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    sys.path.insert(0, REPO)
    quiet()
    from mc import engine
    engine.TIER = tier
    t0 = time.time()
    mod = importlib.import_module('mc.checks.' + a.prop.lower())
    scenarios = mod.SCENARIOS
    if a.scenario:
        scenarios = [s for s in scenarios if s['name'] == a.scenario]

    known = load_known(a.prop)
    engine.KNOWN = known
    if a.replay:
        rep = json.load(open(a.replay))
        sc = [s for s in mod.SCENARIOS if s['name'] == rep['scenario']][0]
        engine.TIER = rep.get('tier', tier)
        bad = 0
        for ch in (rep.get('history') or []) + [rep['choices']]:
            c, vio, kind = engine.run_one(sc['fn'], ch, 10 ** 9, None)
            bad = vio
        for lab, i, s in c.log:
            print('  %-40s [%d] %s' % (lab, i, s))
        print(kind, (bad or {}).get('msg', ''))
        return 1 if bad else 0

    # thorough runs as deep as the wall cap allows; quick ones are complete
    cap = engine.WALL_CAP or (600 if tier == 'quick' else float(os.environ.get('MC_THOROUGH_CAP', '840')))
    deadline = t0 + cap
    total = engine.Result()
    per = []
    rc = 0
    found = None
    known_hit = {}
    for s in scenarios:
        b = s.get('bound', {}).get(tier, s.get('bound', {}).get('quick', 0)) if isinstance(s.get('bound'), dict) else s.get('bound', 0)
        if os.environ.get('MC_BOUND'):
            b = min(b, int(os.environ['MC_BOUND']))
        ts = time.time()
        bounds = [b]
        if tier == 'thorough' and isinstance(s.get('bound'), dict) and s['bound'].get('quick', b) < b:
            bounds = list(range(s['bound']['quick'], b + 1))
        r = None
        completed = None
        for bb in bounds:
            if time.time() > deadline:
                break
            r = engine.explore(s['fn'], bb, dedup=s.get('dedup', False), seed=seed, deadline=deadline,
                               known=known.keys(), nproc=a.procs or s.get('procs'))
            if not r.capped:
                completed = bb
            if any(v['sig'] not in known for v in r.violations):
                break
        if r is None:
            per.append(dict(scenario=s['name'], skipped='wall cap reached before it started'))
            total.capped = True
            continue
        dt = time.time() - ts
        per.append(dict(scenario=s['name'], deviation_bound=b, completed_bound=completed,
                        executions=r.executions, pruned=r.pruned, out_of_domain=r.skipped, transitions=r.transitions,
                        distinct_observations=len(r.states), choice_points_max=r.points, deviations_max=r.maxdev,
                        complete=not r.capped and completed == b, wall_s=round(dt, 2), space=s.get('space', '')))
        for v in r.violations:
            if v['sig'] in known:
                known_hit[v['sig']] = v
        for sig in r.findings:
            known_hit[sig] = None
        fresh = [v for v in r.violations if v['sig'] not in known]
        # observations of different scenarios are different states
        r.states = set(engine.h64((s['name'], x)) for x in r.states)
        total.merge(r)
        if fresh:
            found = (s, b, fresh)
            break
    if found:
        s, b, fresh = found
        fresh.sort(key=lambda v: (v['sig'] == 'timeout', v['dev'], sum(1 for x in v['choices'] if x), len(v['choices'])))
        best = fresh[0]
        confirmed = 'not reproduced in isolation'
        if best['sig'] != 'timeout':
            for cand in fresh[:6]:
                _, v, _ = engine.run_one(s['fn'], cand['choices'], 10 ** 9, None)
                if v and v['sig'] == cand['sig']:
                    best = engine.shrink(s['fn'], v, 10 ** 9)
                    _, v2, _ = engine.run_one(s['fn'], best['choices'], 10 ** 9, None)
                    confirmed = 'replayed twice, same verdict' if v2 and v2['msg'] == best['msg'] else 'replayed'
                    break
        rdir = os.path.join(EVID, 'replays')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.json' % a.prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=a.prop, scenario=s['name'], tier=tier, choices=best['choices'], log=best['log'],
                           msg=best['msg'], sig=best['sig'], confirmed=confirmed,
                           replay_cmd='./check %s --replay %s' % (a.prop, rp)), f, indent=1, default=str)
        print('scenario %s: %s' % (s['name'], best['msg']))
        for lab, i, txt in best['log']:
            if i:
                print('   %-32s -> %s' % (lab, txt))
        print('(%s)' % confirmed)
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        rc = 1
    for sig in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[sig]))

    wall = time.time() - t0
    ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
              violations=len([v for v in total.violations if v['sig'] not in known]),
              coverage=dict(
                  states=len(total.states), transitions=total.transitions,
                  traces_validated_against_impl=total.executions - total.pruned - total.skipped,
                  executions=total.executions, pruned_as_already_explored=total.pruned,
                  out_of_domain=total.skipped,
                  exhaustive=bool(not total.capped and not rc and all(p.get('complete') for p in per)),
                  bounds=per,
                  how='every execution drives the real pyswagger code from /repo along one resolution of all choice points and '
                      'compares each step with the reference model; states = distinct observed outcomes, '
                      'transitions = choice points resolved plus API steps taken',
                  samples=total.samples[:8]),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d' % (a.prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, os.path.join(EVID, a.prop + '.json'))
    for p in per:
        print('%-28s bound=%s executions=%s states=%s transitions=%s %s %ss' % (
            p['scenario'], p.get('completed_bound'), p.get('executions'), p.get('distinct_observations'),
            p.get('transitions'), 'complete' if p.get('complete') else 'NOT COMPLETE', p.get('wall_s')))
    if rc == 0:
        print('OK property=%s tier=%s states=%d executions=%d wall=%.1fs' % (
            a.prop, tier, len(total.states), total.executions, wall))
    return rc


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
