"""Try a change to the library in a scratch copy of /repo.

trial.py revert                      revert each fix commit of /repo in turn, run the checks of its property
trial.py seeded [ID ...]             validate seeded changes, run checks, record seeded/results.json
    --all        every check, not only those of the property
    --no-checks  validation only
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CHECKS = ['C%02d' % i for i in range(1, 99) if os.path.exists('%s/mc/checks/c%02d.py' % (HERE, i))]
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, timeout=900, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env))


def scratch():
    base = tempfile.mkdtemp(prefix='trial-', dir='/tmp')
    shutil.copytree('/repo', base + '/repo', symlinks=True)
    return base


def tests_pass(repo):
    xml = repo + '/../junit.xml'
    out = sh('%s -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=60 -o junit_family=xunit2 '
             '--junitxml=%s tests' % (PY, xml), repo, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONPATH=repo)
    sh('/usr/bin/python3 /opt/vp/results.py %s/../out.json junit:%s' % (repo, xml), repo)
    try:
        data = json.load(open(repo + '/../out.json'))
    except (OSError, ValueError):
        return False, out.stdout[-500:]
    passed = set(data.get('passed', []))
    missing = STABLE - passed
    return not missing, sorted(missing)[:5]


def run_check(ident, repo, tier='quick'):
    begin = time.time()
    out = sh('%s -B -m mc %s --tier %s' % (PY, ident, tier), HERE, VERIF_REPO=repo, timeout=3600)
    hit = out.returncode == 1 and 'VIOLATION property=%s ' % ident in out.stdout
    why = ''
    if hit:
        lines = out.stdout.splitlines()
        why = next((l for l in lines if l.startswith('  ')), '')[:260]
    return hit, out.returncode, time.time() - begin, why


def clean(base):
    assert base.startswith('/tmp/trial-')
    shutil.rmtree(base)


def demo(folder, repo):
    base = tempfile.mkdtemp(prefix='trial-', dir='/tmp')
    for name in os.listdir(folder):
        if not name.endswith(('.diff', '.patch')) and name != 'meta.json':
            shutil.copy(os.path.join(folder, name), base)
    out = sh('bash %s/demo.sh' % base, repo, timeout=300)
    clean(base)
    return out.returncode, out.stdout[-300:]


def reverts():
    fixed = json.load(open(HERE + '/known_findings.json'))['fixed']
    for line in fixed:
        if len(sys.argv) > 2 and not any(a in line for a in sys.argv[2:]):
            continue
        prop, commit = re.match(r'fixed: property=(\w+) (\w+)', line).groups()
        base = scratch()
        repo = base + '/repo'
        out = sh('git -c user.name=x -c user.email=x@x revert --no-edit %s' % commit, repo)
        if out.returncode:
            print(commit, prop, 'revert conflicts:', out.stdout[-200:])
        else:
            hit = run_check(prop, repo)
            print(commit, prop, 'caught' if hit[0] else 'MISSED', '%.0f s' % hit[2], hit[3], flush=True)
        clean(base)


def seeded(names, everything, checks):
    path = HERE + '/seeded/results.json'
    try:
        results = json.load(open(path))
    except OSError:
        results = {}
    for name in names or sorted(os.listdir(HERE + '/seeded')):
        folder = HERE + '/seeded/' + name
        if not os.path.isdir(folder):
            continue
        meta = json.load(open(folder + '/meta.json'))
        base = scratch()
        repo = base + '/repo'
        try:
            code, text = demo(folder, repo)
            problems = []
            if code:
                problems.append('demo fails unpatched: %s' % text)
            out = sh('git apply %s/patch.diff' % folder, repo)
            if out.returncode:
                problems.append('patch: ' + out.stdout)
            else:
                code, text = demo(folder, repo)
                if not code:
                    problems.append('demo passes patched')
                ok, missing = tests_pass(repo)
                if not ok:
                    problems.append('tests: %s' % missing)
                for touched in sh('git diff --name-only', repo).stdout.split():
                    if not touched.startswith('gostcrypto/') or 'test' in touched:
                        problems.append('touches ' + touched)
            if problems:
                print(name, 'INVALID', problems, flush=True)
                continue
            alarms = []
            if checks:
                first = meta['property']
                order = [first] + [c for c in CHECKS if c != first] if everything else [first]
                for ident in order:
                    hit = run_check(ident, repo)
                    if hit[0]:
                        alarms.append(ident)
                    if ident == first:
                        print(name, first, 'caught' if hit[0] else 'MISSED rc=%d' % hit[1], '%.0f s' % hit[2], hit[3],
                              flush=True)
                    elif hit[1] not in (0, 1):
                        print(name, ident, 'rc', hit[1])
                if everything:
                    print(name, 'alarms:', ' '.join(alarms), flush=True)
                if everything or name not in results:
                    results[name] = sorted(alarms)
                else:
                    results[name] = sorted(set(results[name]) - {first} | set(alarms))
                json.dump(results, open(path, 'w'), indent=1, sort_keys=True)
            else:
                print(name, 'valid', flush=True)
        finally:
            clean(base)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if args[0] == 'revert':
        reverts()
    else:
        seeded(args[1:], '--all' in sys.argv, '--no-checks' not in sys.argv)
