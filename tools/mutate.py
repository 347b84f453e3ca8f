"""Systematic mutation of the library in scratch copies.

  mutate.py list FILE...            count the mutants
  mutate.py tests OUT [FILE...]     run the test suite on every mutant (8 scratch copies), write survivors to OUT (json)
  mutate.py checks OUT [--only I,J] run the checks on every survivor listed in OUT until one reports a violation
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['gostcipher/gost_34_12_2015.py', 'gostcipher/gost_34_13_2015.py', 'gosthash/gost_34_11_2012.py',
         'gosthmac/r_50_1_113_2016.py', 'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py',
         'gostsignature/gost_34_10_2012.py', 'gostoid/oid.py', 'utils/utils.py']
CHECKS = {
    'gost_34_12': 'C01 C21 C05 C02 C20',
    'gost_34_13': 'C05 C02 C04 C19 C21 C03 C23 C20 C24',
    'gost_34_11': 'C06 C07 C08 C09 C22',
    'r_50_1_113': 'C08 C09 C21 C19 C20 C23 C24',
    'r_50_1_111': 'C10 C21 C23 C25 C20',
    'r_1323565': 'C11 C12 C21 C23 C25 C20',
    'gost_34_10': 'C16 C15 C17 C13 C14 C21 C23 C24 C25',
    'oid': 'C18 C19 C20',
    'utils': 'C18 C05 C02 C06 C08 C11 C10 C12 C16 C23 C15 C21 C20 C04 C17 C13 C14',
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.BitXor: [ast.BitOr], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
       ast.Pow: [ast.Mult]}
COPIES = ('bytearray', 'bytes', 'list', 'tuple', 'zero_fill', 'copy', 'deepcopy')


def docstring(node, parent):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def mutants(source):
    """Yield (line, description, new source)."""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    offsets = [0]
    for line in lines:
        offsets.append(offsets[-1] + len(line.encode()))
    raw = source.encode()

    def span(node):
        return (offsets[node.lineno - 1] + node.col_offset, offsets[node.end_lineno - 1] + node.end_col_offset)

    def put(node, text):
        start, end = span(node)
        return (raw[:start] + text.encode() + raw[end:]).decode()

    def visit(node, func):
        for field, value in ast.iter_fields(node):
            items = value if isinstance(value, list) else [value]
            for item in items:
                if isinstance(item, ast.AST):
                    if isinstance(item, (ast.FunctionDef,)):
                        yield from visit(item, item)
                        continue
                    if docstring(item, node) or isinstance(item, (ast.arguments, ast.AnnAssign)) and func is None:
                        continue
                    if func is not None:
                        yield from at(item, field)
                    yield from visit(item, func)

    def at(node, field):
        if field in ('annotation', 'returns', 'decorator_list') or isinstance(node, ast.arguments) or isinstance(node, ast.arg):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for op in CMP.get(type(node.ops[0]), []):
                new = copy.deepcopy(node)
                new.ops = [op()]
                yield node, '%s -> %s' % (type(node.ops[0]).__name__, op.__name__), '(' + ast.unparse(new) + ')'
        elif isinstance(node, ast.BinOp):
            for op in BIN.get(type(node.op), []):
                new = copy.deepcopy(node)
                new.op = op()
                yield node, '%s -> %s' % (type(node.op).__name__, op.__name__), '(' + ast.unparse(new) + ')'
            yield node, 'left operand only', '(' + ast.unparse(node.left) + ')'
            yield node, 'right operand only', '(' + ast.unparse(node.right) + ')'
        elif isinstance(node, ast.BoolOp):
            new = copy.deepcopy(node)
            new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            yield node, 'and <-> or', '(' + ast.unparse(new) + ')'
            for i in range(len(node.values)):
                new = copy.deepcopy(node)
                del new.values[i]
                yield node, 'without operand %d' % i, '(' + ast.unparse(new.values[0] if len(new.values) == 1 else new) + ')'
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield node, 'not dropped', '(' + ast.unparse(node.operand) + ')'
        elif isinstance(node, ast.Constant) and not isinstance(node.value, str):
            if isinstance(node.value, bool):
                yield node, 'not', str(not node.value)
            elif isinstance(node.value, int):
                yield node, '+ 1', str(node.value + 1)
                yield node, '- 1', '(%d)' % (node.value - 1)
            elif isinstance(node.value, bytes):
                yield node, 'other bytes', repr(node.value + b'\x01')
        elif isinstance(node, (ast.Assign, ast.AugAssign)) and field in ('body', 'orelse', 'finalbody'):
            yield node, 'statement deleted', 'pass'
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            yield node, 'call deleted', 'pass'
        elif isinstance(node, ast.Raise):
            yield node, 'raise deleted', 'pass'
        elif isinstance(node, (ast.Break, ast.Continue)):
            yield node, 'jump deleted', 'pass'
        elif isinstance(node, ast.Slice):
            return
        if isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords:
            name = node.func.id if isinstance(node.func, ast.Name) else node.func.attr if isinstance(node.func, ast.Attribute) else ''
            if name in COPIES and not isinstance(node.args[0], ast.Constant):
                yield node, 'no %s()' % name, '(' + ast.unparse(node.args[0]) + ')'
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            yield node, 'slice dropped', ast.unparse(node.value)
            for part in ('lower', 'upper'):
                if getattr(node.slice, part) is not None:
                    new = copy.deepcopy(node)
                    setattr(new.slice, part, None)
                    yield node, 'slice without %s bound' % part, ast.unparse(new)
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            yield node.test, 'condition True', 'True'
            yield node.test, 'condition False', 'False'
        if isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, ast.Name):
            pass

    done = set()
    for node, what, text in visit(tree, None):
        if span(node)[1] - span(node)[0] > 3000:
            continue
        new = put(node, text)
        if new in done or new == source:
            continue
        done.add(new)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        yield node.lineno, what, ast.unparse(node)[:120], text[:120], new


def everything(names):
    out = []
    for name in FILES:
        if names and not any(n in name for n in names):
            continue
        with open(os.path.join(REPO, 'gostcrypto', name)) as handle:
            source = handle.read()
        for line, what, old, text, new in mutants(source):
            out.append({'file': name, 'line': line, 'what': what, 'old': old, 'new': text, 'source': new})
    return out


STABLE = json.load(open('/opt/vp/BASELINE.json'))


def stable():
    items = STABLE.get('stable') or STABLE.get('tests') or STABLE
    return set(items if isinstance(items, list) else items.keys())


def run_tests(chunk):
    base = tempfile.mkdtemp(prefix='mutate-')
    repo = os.path.join(base, 'repo')
    shutil.copytree(REPO, repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    alive = []
    for item in chunk:
        path = os.path.join(repo, 'gostcrypto', item['file'])
        with open(path) as handle:
            good = handle.read()
        with open(path, 'w') as handle:
            handle.write(item['source'])
        try:
            got = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=30', 'tests'],
                                 cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
                                 env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONHASHSEED='0'))
            ok = got.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if ok:
            alive.append(item)
        with open(path, 'w') as handle:
            handle.write(good)
    shutil.rmtree(base)
    return alive


def main():
    command, args = sys.argv[1], sys.argv[2:]
    if command == 'list':
        found = everything(args)
        for name in FILES:
            print(name, sum(1 for i in found if i['file'] == name))
    elif command == 'tests':
        found = everything(args[1:])
        alive = []
        chunks = [found[i::64] for i in range(64)]
        with cf.ProcessPoolExecutor(8) as pool:
            for part in pool.map(run_tests, chunks):
                alive += part
        alive.sort(key=lambda i: (i['file'], i['line']))
        with open(args[0], 'w') as handle:
            json.dump(alive, handle)
        print('%d mutants, %d pass the tests' % (len(found), len(alive)))
    elif command == 'checks':
        with open(args[0]) as handle:
            alive = json.load(handle)
        only = set(map(int, args[2].split(','))) if len(args) > 2 and args[1] == '--only' else None
        skip = set(map(int, args[2].split(','))) if len(args) > 2 and args[1] == '--skip' else set()
        base = tempfile.mkdtemp(prefix='mutate-')
        copy_of = os.path.join(base, 'verif')
        shutil.copytree(HERE, copy_of, ignore=shutil.ignore_patterns('.git', 'seeded', 'replay'))
        repo = os.path.join(base, 'repo')
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git'))
        for index, item in enumerate(alive):
            if only is not None and index not in only or index in skip or item.get('caught'):
                continue
            path = os.path.join(repo, 'gostcrypto', item['file'])
            with open(path) as handle:
                good = handle.read()
            with open(path, 'w') as handle:
                handle.write(item['source'])
            caught = ''
            for check in next(v for k, v in CHECKS.items() if k in item['file']).split():
                got = subprocess.run([PY, '-B', '-m', 'mc', check, '--tier', 'quick'], cwd=copy_of, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=repo, MC_GRACE_S='0'))
                if got.returncode == 1 and re.search('^VIOLATION property=%s ' % check, got.stdout, re.M):
                    caught = check
                    break
                if got.returncode != 0:
                    caught = '%s exit %d' % (check, got.returncode)
                    break
            item['caught'] = caught
            with open(path, 'w') as handle:
                handle.write(good)
            print(index, item['file'], item['line'], item['what'], '|', item['old'][:70], '->', item['new'][:70], '|', caught or 'MISSED', flush=True)
            with open(args[0], 'w') as handle:
                json.dump(alive, handle)
        shutil.rmtree(base)


if __name__ == '__main__':
    main()
