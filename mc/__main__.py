"""python -m mc <ID> [--tier quick|thorough] [--jobs REGEX]   |   python -m mc replay <file>"""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import engine, target

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known_findings.json')
BUDGET = {'quick': 780, 'thorough': 6 * 3600}


def known_findings(prop):
    with open(FINDINGS) as handle:
        data = json.load(handle)
    return {item['id']: item for item in data['known'] if item['property'] == prop}


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('file', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--jobs', default='')
    parser.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    parser.add_argument('--slow', action='store_true')
    args = parser.parse_args()
    if args.property == 'replay':
        return replay(args.file)
    prop, tier = args.property, args.tier
    if tier not in BUDGET:
        tier = 'quick'
    return check(prop, tier, args)


def violation(prop, tier, failures, note=''):
    for number, item in enumerate(failures[:5]):
        path = os.path.join(ROOT, 'replay', '%s-%d.json' % (prop, number))
        engine.dump(path, dict(property=prop, tier=tier, seed=os.environ.get('VERIF_SEED', '1'), **item))
        print('  %s | %s | %s' % (item['job'], json.dumps(item['case'], default=engine.default)[:600],
                                  item['what'][:1200]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()


def long_early(jobs):
    """The jobs known to be long are started early, among short ones."""
    slow = [j for j in jobs if re.search(r'\b(walk|blocks|many|life of|run out two)\b', j[0])]
    ids = {id(j) for j in slow}
    rest = [j for j in jobs if id(j) not in ids]
    out = slow[:4]
    slow = slow[4:]
    for index, job in enumerate(rest):
        out.append(job)
        if index % 4 == 3 and slow:
            out.append(slow.pop(0))
    return out + slow


def check(prop, tier, args):
    begin = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_SEED'] = str(seed)
    try:
        target.load()
        module = importlib.import_module('mc.checks.' + prop.lower())
        jobs = module.jobs(tier)
    except BaseException as exc:        # the library cannot even be loaded
        traceback.print_exc(file=sys.stdout)
        violation(prop, tier, [{'job': 'load', 'case': 'import gostcrypto', 'what': repr(exc)}])
        return 1
    if args.jobs:
        jobs = [j for j in jobs if re.search(args.jobs, j[0])]
    jobs = long_early(jobs)
    names = [j[0] for j in jobs]
    assert len(set(names)) == len(names), 'duplicate job names'
    done = []
    budget = int(os.environ.get('VERIF_BUDGET_S') or BUDGET[tier])
    results, unfinished, died = engine.run_jobs(jobs, budget, args.workers, done.append)
    results.sort(key=lambda r: names.index(r['job']))
    failures = [f for r in results for f in r['failures']]
    if died:
        failures.append({'job': ','.join(unfinished[:3]), 'case': 'worker process',
                         'what': 'a worker process died while executing the library'})
    known = {}
    for res in results:
        for ident, text in res['known'].items():
            known.setdefault(ident, text)
    listed = known_findings(prop)
    for ident, text in sorted(known.items()):
        if ident not in listed:
            failures.append({'job': 'known', 'case': ident, 'what': text})
    notes = {}
    for res in results:
        for name, count in res['notes'].items():
            notes[name] = max(notes.get(name, 0), count) if name.startswith('longest') else notes.get(name, 0) + count
    samples = []
    for res in results:
        for item in res['samples']:
            if len(samples) < 12:
                samples.append({'job': res['job'], 'case': item})
    outcomes = sorted({o for r in results for o in r['outcomes']})
    coverage = {
        'states': sum(r['states'] for r in results),
        'transitions': sum(r['transitions'] for r in results),
        'traces_validated_against_impl': sum(r['traces'] for r in results),
        'samples': samples,
        'exhaustive': not unfinished and not failures and not args.jobs,
        'bounds': module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) and tier in module.BOUNDS else module.BOUNDS,
        'jobs': len(results),
        'unfinished_jobs': unfinished[:20],
        'distinct_outcomes': outcomes[:40],
    }
    if notes:
        coverage['counters'] = notes
    wall = time.time() - begin
    if not args.jobs and target.REPO == '/repo':
        engine.dump(os.path.join(ROOT, 'evidence', prop + '.json'), {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': coverage,
            'assumptions': module.ASSUMPTIONS + COMMON,
            'wall_s': round(wall, 2), 'violations': len(failures)})
    if args.slow:
        for res in sorted(results, key=lambda r: -r['wall_s'])[:int(os.environ.get("MC_SLOW","15"))]:
            print('  %6.2f s %s' % (res['wall_s'], res['job']))
    for ident in sorted(known):
        if ident in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[ident]['what']))
    if failures:
        violation(prop, tier, failures)
        return 1
    if unfinished:
        print('note: time budget reached, %d of %d jobs not explored: %s'
              % (len(unfinished), len(jobs), ', '.join(unfinished[:5])))
    print('OK property=%s tier=%s states=%d transitions=%d traces=%d jobs=%d outcomes=%d cpu=%.0fs wall=%.1fs'
          % (prop, tier, coverage['states'], coverage['transitions'],
             coverage['traces_validated_against_impl'], len(results), len(outcomes),
             sum(r['wall_s'] for r in results), wall))
    return 0


COMMON = [
    'CPython and its standard library (int, bytes, copy) behave as documented',
    'the reference model mc/ref (self-tested against the worked examples of the standards by setup_cmd)',
    'data values beyond the enumerated alphabet are represented by the enumerated ones',
]


def replay(path):
    with open(path) as handle:
        item = json.load(handle)
    os.environ['VERIF_SEED'] = str(item['seed'])
    target.load()
    module = importlib.import_module('mc.checks.' + item['property'].lower())
    for name, func, params in module.jobs(item['tier']):
        if name == item['job']:
            out = engine.run_job(name, func, params)
            for failure in out['failures']:
                print(json.dumps(failure, indent=1, default=engine.default))
            print('reproduced' if out['failures'] else 'not reproduced')
            return 1 if out['failures'] else 0
    print('no such job: %s' % item['job'])
    return 2


if __name__ == '__main__':
    sys.exit(main())
