#!/usr/bin/env python3
'''
check.py PROPERTY [--tier quick|thorough] [--jobs N] [--replay FILE]

Runs the exploration of one property over privcount's code in /repo, writes
/verif/evidence/<PROPERTY>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored. Exit 1: VIOLATION.
'''
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
import registry


def known_findings(prop):
    path = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {e['key']: e for e in json.load(f)['findings']
                if e['property'] == prop and e['status'] == 'known'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    prop = a.property
    spec = registry.CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    nparts = 1 if a.replay else (a.jobs or spec.get('jobs', 4))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='privcount-mc-')
    env = dict(os.environ)
    env['MC_SCRATCH'] = work
    env['HOME'] = work
    env['MC_SHARED'] = work
    if 'MC_JAVA_OPTS' not in env:
        mem = spec.get('mem', '2500m')
        env['MC_JAVA_OPTS'] = '-Xmx%s -Xss16m -Djava.io.tmpdir=%s' % (mem, work)
        if tier == 'quick' and not spec.get('c2'):
            env['MC_JAVA_OPTS'] += ' -XX:TieredStopAtLevel=1'
    limit = spec.get('timeout', 840) if tier == 'quick' else spec.get('thorough_timeout', 6 * 3600)
    procs = []
    try:
        for i in range(nparts):
            out = os.path.join(work, 'out%d.json' % i)
            scratch = os.path.join(work, 'scratch%d' % i)
            os.mkdir(scratch)
            cmd = [os.path.join(HERE, 'mc', 'jy.sh'), os.path.join(HERE, 'mc', 'lib', 'runner.py'),
                   prop, '--module', spec['module'], '--tier', tier, '--seed', str(seed),
                   '--part', str(i), '--nparts', str(nparts), '--out', out]
            if a.replay:
                cmd += ['--replay', os.path.abspath(a.replay)]
            log = open(os.path.join(work, 'log%d' % i), 'wb')
            e = dict(env)
            e['MC_SCRATCH'] = scratch
            procs.append((subprocess.Popen(cmd, cwd=scratch, env=e, stdout=log, stderr=log,
                                           stdin=subprocess.DEVNULL, start_new_session=True), out, log))
        results, errors = [], []
        for i, (p, out, log) in enumerate(procs):
            try:
                p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                errors.append('part %d ran out of time' % i)
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r['error']:
                    errors.append('part %d: %s' % (i, r['error']))
            else:
                with open(os.path.join(work, 'log%d' % i), errors='replace') as f:
                    errors.append('part %d wrote nothing (exit %s): %s' % (i, p.returncode, f.read()[-3000:]))
            if a.keep:
                with open(os.path.join(work, 'log%d' % i), errors='replace') as f:
                    sys.stderr.write(f.read()[-20000:])
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
        shutil.rmtree(work, ignore_errors=True)

    counts, states, outcomes, samples, notes, violations = {}, set(), {}, [], [], []
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        states.update(r['states'])
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        samples += r['samples']
        notes += [n for n in r['notes'] if n not in notes]
        for v in r['violations']:
            if not any(w['key'] == v['key'] for w in violations):
                violations.append(v)

    known = known_findings(prop)
    new = [v for v in violations if v['key'] not in known]
    for v in violations:
        if v['key'] in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[v['key']]['what']))

    # A property module only lets an exception out when privcount's own code
    # raised where the property gives it no reason to; a harness that could not
    # run at all (no output) is the other case. Both mean "not shown to hold".
    for e in errors:
        sys.stderr.write(e + '\n')
    if errors and not new and not a.replay:
        crash = [r['error'] for r in results if r['error']]
        if crash:
            new.append({'key': 'crash', 'message': crash[0].strip().splitlines()[-1],
                        'case': {'crash': crash[0]}})
    replay_dir = os.path.join(HERE, 'replays')
    for n, v in enumerate(new):
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s-%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'key': v['key'], 'message': v['message'],
                       'case': v['case']}, f, indent=1)
        print('  %s: %s' % (v['key'], v['message'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))

    if not a.replay:
        level = spec['level']
        cov = {'samples': samples[:5] or ['(none)']}
        if level == 'model_checking':
            cov['states'] = len(states)
            cov['transitions'] = counts.pop('transitions', 0)
            cov['traces_validated_against_impl'] = counts.pop('traces', 0)
        else:
            cov['evaluations'] = counts.pop('evaluations', 0)
            cov['distinct_nontrivial'] = len(states)
            cov['rule'] = spec['rule']
        cov['exhaustive'] = bool(spec.get('exhaustive', True)) and not errors and not counts.get('capped')
        cov['bounds'] = spec.get('bounds', {}).get(tier, spec.get('bounds', {}).get('quick', ''))
        cov['distinct_outcomes'] = len(outcomes)
        cov['outcomes'] = dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40])
        cov['other_counts'] = counts
        if notes:
            cov['notes'] = notes
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
              'assumptions': registry.COMMON_ASSUMPTIONS + spec.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %s states, %s, %d outcomes, %.1fs, %d violations' % (
            prop, tier, len(states),
            ', '.join('%s=%s' % (k, cov[k]) for k in ('transitions', 'evaluations', 'traces_validated_against_impl') if k in cov),
            len(outcomes), time.time() - t0, len(new)))
        # a check that explored nothing has shown nothing
        if not new and not errors and not (len(states) and len(outcomes) > 1):
            sys.stderr.write('vacuous exploration\n')
            return 2
    if new:
        return 1
    if errors:
        for e in errors:
            sys.stderr.write(e + '\n')
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
