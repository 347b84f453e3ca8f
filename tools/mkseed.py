"""Builds seeded/<id>/ from a spec file: python mkseed.py SPEC.py   (SPEC defines bug(...) calls)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'blk': 'gostcrypto/gostcipher/gost_34_12_2015.py', 'mode': 'gostcrypto/gostcipher/gost_34_13_2015.py',
    'hash': 'gostcrypto/gosthash/gost_34_11_2012.py', 'hmac': 'gostcrypto/gosthmac/r_50_1_113_2016.py',
    'pbkdf': 'gostcrypto/gostpbkdf/r_50_1_111_2016.py', 'rand': 'gostcrypto/gostrandom/r_1323565_1_006_2017.py',
    'sig': 'gostcrypto/gostsignature/gost_34_10_2012.py', 'oid': 'gostcrypto/gostoid/oid.py',
    'utils': 'gostcrypto/utils/utils.py',
}
ONLY = sys.argv[2:]
OWN = set(subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '24cc09d..'], stdout=subprocess.PIPE,
                         text=True).stdout.split())


def bug(ident, prop, needs, breaks, edits, demo):
    if ONLY and ident not in ONLY:
        return
    base = tempfile.mkdtemp(prefix='mkseed-', dir='/tmp')
    repo = base + '/repo'
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    for where, old, new in edits:
        path = repo + '/' + FILES[where]
        text = open(path).read()
        if text.count(old) != 1:
            print(ident, 'EDIT matches %d times: %r' % (text.count(old), old[:60]))
            shutil.rmtree(base)
            return
        open(path, 'w').write(text.replace(old, new))
    diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    # which lines are removed, and who wrote them
    own = orig = 0
    cur = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            cur = line[6:]
        elif line.startswith('@@'):
            at = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-') and not line.startswith('---'):
            out = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-L', '%d,%d' % (at, at), '--', cur],
                                 stdout=subprocess.PIPE, text=True).stdout
            if out.split()[0] in OWN:
                own += 1
            else:
                orig += 1
            at += 1
        elif line.startswith(' '):
            at += 1
    if own:
        print(ident, 'warning: replaces %d own lines, %d original' % (own, orig))
    folder = '%s/seeded/%s' % (HERE, ident)
    os.makedirs(folder, exist_ok=True)
    open(folder + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(folder + '/meta.json', 'w'), indent=1)
    open(folder + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    open(folder + '/demo.py', 'w').write('"""Exit 0 when the behaviour holds, 1 when it is broken."""\nimport os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n' + demo.lstrip('\n'))
    shutil.rmtree(base)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
