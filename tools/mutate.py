#!/usr/bin/env python3
"""Development aid: mutation campaign against the checks, in copies of /repo under /tmp/mut.

  mutate.py gen                      list mutants (count per file)
  mutate.py test [--sample N]        run the repository's tests on mutants, record survivors
  mutate.py check CHECKS [--cases N] run checks on survivors, record which report
Results in /tmp/mut/*.json. Nothing here is used by the registered commands.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import queue

ROOT = os.environ.get('MUT_ROOT', '/tmp/mut')
BASE = ROOT + '/base'
PKG = 'sciencebeam_trainer_grobid_tools'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
LOG = re.compile(r'^\s*(LOGGER|logging|get_logger|self\._?logger)\b')


def mutants(path):
    src = open(path, encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = src.encode()

    def pos(lineno, col):
        return starts[lineno - 1] + col

    def span(node):
        return pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)

    def text(node):
        a, b = span(node)
        return data[a:b].decode()

    out = []

    def add(kind, node, new, at=None):
        a, b = at or span(node)
        if data[a:b].decode() == new:
            return
        out.append((kind, node.lineno, a, b, new))

    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef) and node.name in ('__repr__', '__str__', 'add_arguments', 'parse_args'):
            skip.add(node)
    inside = set()
    for f in skip:
        for n in ast.walk(f):
            inside.add(n)
    for node in ast.walk(tree):
        if node in inside:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = CMP.get(type(node.ops[0]))
            if op:
                add('cmp', node, '%s %s %s' % (text(node.left), op, text(node.comparators[0])))
        if isinstance(node, ast.BoolOp):
            j = ' or ' if isinstance(node.op, ast.And) else ' and '
            add('bool', node, '(' + j.join('(%s)' % text(v) for v in node.values) + ')')
            for i in range(len(node.values)):
                rest = [v for k, v in enumerate(node.values) if k != i]
                o = ' and ' if isinstance(node.op, ast.And) else ' or '
                add('drop-operand', node, '(' + o.join('(%s)' % text(v) for v in rest) + ')')
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add('not', node, '(%s)' % text(node.operand))
        if isinstance(node, (ast.If, ast.IfExp)):
            add('if-true', node.test, 'True')
            add('if-false', node.test, 'False')
        if isinstance(node, ast.comprehension):
            for i in node.ifs:
                add('comp-if', i, 'True')
        if isinstance(node, ast.Constant) and type(node.value) is int:
            add('const', node, str(node.value + 1))
            if node.value:
                add('const', node, str(node.value - 1))
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            add('const', node, str(not node.value))
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            add('arith', node, '%s %s %s' % (text(node.left), '-' if isinstance(node.op, ast.Add) else '+', text(node.right)))
            add('arith-left', node, text(node.left))
        if isinstance(node, (ast.Break, ast.Continue)):
            add('jump', node, 'pass')
            add('jump', node, 'continue' if isinstance(node, ast.Break) else 'break')
        if isinstance(node, (ast.Expr, ast.AugAssign)) and not LOG.match(text(node)):
            if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                add('drop-stmt', node, 'pass')
        if isinstance(node, ast.Raise):
            add('drop-raise', node, 'pass')
        if isinstance(node, ast.Call):
            name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
            if LOG.match(text(node)):
                continue
            if name in ('add_argument', 'namedtuple', 'TypeVar'):
                continue
            for k in node.keywords:
                if k.arg and not isinstance(k.value, ast.Constant):
                    a = span(k)
                    e = a[1]
                    while data[e:e + 1] in (b' ', b'\n'):
                        e += 1
                    if data[e:e + 1] == b',':
                        e += 1
                    add('drop-kw', k.value, '', at=(a[0], e))
            if name in ('sorted', 'reversed', 'list', 'set', 'iter_unique', 'strip', 'lower', 'rstrip', 'lstrip') :
                if isinstance(node.func, ast.Name) and len(node.args) >= 1:
                    add('unwrap', node, text(node.args[0]) if name != 'reversed' else 'list(%s)' % text(node.args[0]))
                elif isinstance(node.func, ast.Attribute):
                    add('unwrap', node, text(node.func.value))
            if name in ('min', 'max') and isinstance(node.func, ast.Name):
                add('minmax', node.func, 'max' if name == 'min' else 'min')
            if name in ('startswith', 'endswith'):
                add('starts', node, '%s.%s%s' % (text(node.func.value), 'endswith' if name == 'startswith' else 'startswith',
                                                   data[span(node.func)[1]:span(node)[1]].decode()))
        if isinstance(node, ast.Slice):
            if node.lower is not None:
                add('slice', node.lower, '(%s) + 1' % text(node.lower))
                add('slice', node.lower, '')
            if node.upper is not None:
                add('slice', node.upper, '(%s) - 1' % text(node.upper))
                add('slice', node.upper, '')
        if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
            if isinstance(node.value, (ast.Call, ast.Name)):
                add('return-none', node.value, 'None')
    seen = set()
    for kind, line, a, b, new in out:
        body = data[:a] + new.encode() + data[b:]
        if body in seen:
            continue
        seen.add(body)
        try:
            compile(body, path, 'exec')
        except SyntaxError:
            continue
        yield {'kind': kind, 'line': line, 'a': a, 'b': b, 'old': data[a:b].decode(), 'new': new}


def all_mutants():
    res = []
    for base, _, files in os.walk(BASE + '/' + PKG):
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(base, f)
                rel = os.path.relpath(p, BASE)
                for i, m in enumerate(mutants(p)):
                    m['file'] = rel
                    m['id'] = '%s:%d:%s:%d' % (rel[len(PKG) + 1:-3], m['line'], m['kind'], i)
                    res.append(m)
    return res


def make_copies(n):
    dirs = []
    for i in range(n):
        d = '%s/w%d' % (ROOT, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(['cp', '-a', BASE + '/.', d])
        dirs.append(d)
    return dirs


def apply(d, m):
    with open(BASE + '/' + m['file'], 'rb') as f:
        data = f.read()
    with open(os.path.join(d, m['file']), 'wb') as f:
        f.write(data[:m['a']] + m['new'].encode() + data[m['b']:])


def undo(d, m):
    shutil.copyfile(BASE + '/' + m['file'], os.path.join(d, m['file']))


def parallel(items, fn, n):
    q = queue.Queue()
    for i in items:
        q.put(i)
    dirs = make_copies(n)
    results = []
    lock = threading.Lock()

    def work(d):
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            apply(d, m)
            try:
                r = fn(d, m)
            finally:
                undo(d, m)
            with lock:
                results.append(r)
                if len(results) % 50 == 0:
                    print(len(results), 'of', len(items), flush=True)
    ts = [threading.Thread(target=work, args=(d,)) for d in dirs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
    return results


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8')


def run_tests(d, m):
    tmp = d + '-tmp'

    def pytest(files):
        return subprocess.run(
            ['timeout', '-k', '2', '60', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
             '--timeout=15', '--basetemp=' + tmp, '-W', 'ignore'] + files,
            cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
    try:
        own = os.path.join('tests', m['file'][len(PKG) + 1:-3] + '_test.py')
        if os.path.exists(os.path.join(d, own)) and pytest([own]):
            return dict(m, survived=False)
        return dict(m, survived=pytest([]) == 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


DESELECT = []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('checks', nargs='?', default='')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--cases', type=float, default=1.0)
    ap.add_argument('--files', default='')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--in', dest='inp', default='')
    ap.add_argument('--out', default='')
    args = ap.parse_args()
    os.makedirs(ROOT, exist_ok=True)
    ms = all_mutants()
    if args.files:
        ms = [m for m in ms if re.search(args.files, m['file'])]
    if args.what == 'gen':
        import collections
        c = collections.Counter(m['file'] for m in ms)
        for k, v in c.most_common():
            print(v, k)
        print(len(ms))
        return
    if args.what == 'test':
        if args.sample:
            random.Random(7).shuffle(ms)
            ms = ms[:args.sample]
        res = parallel(ms, run_tests, args.workers)
        json.dump([r for r in res if r['survived']], open(args.out or ROOT + '/survivors.json', 'w'), indent=0)
        print('survived', sum(r['survived'] for r in res), 'of', len(res))
        return
    if args.what == 'check':
        ms = json.load(open(args.inp or ROOT + '/survivors.json'))
        if args.files:
            ms = [m for m in ms if re.search(args.files, m['file'])]
        if args.sample:
            random.Random(7).shuffle(ms)
            ms = ms[:args.sample]
        sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        sys.path.insert(0, '/repo')

        import importlib
        plans = {}
        for c in args.checks.split(','):
            s = open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/vf/checks/%s.py' % c.lower()).read()
            plans[c] = int(re.search(r"'quick': *(\d+)", s).group(1))

        def fn(d, m):
            for c in args.checks.split(','):
                env = dict(ENV, VF_REPO=d, VF_EVIDENCE=d + '-ev', VERIF_SEED='1', VERIF_TIER='quick')
                p = subprocess.run(
                    ['timeout', '600', '/opt/venv/bin/python', os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/run_check.py', c, '--workers', '1', '--cases',
                     str(max(20, int(plans[c] * args.cases)))],
                    env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                o = p.stdout.decode('utf-8', 'replace')
                if p.returncode == 1:
                    km = re.search(r'kind=(\S+)', o)
                    shutil.rmtree(d + '-ev', ignore_errors=True)
                    return dict(m, caught=c, rc=p.returncode, kind_=km.group(1) if km else o[:200])
            return dict(m, caught=None)
        res = parallel(ms, fn, args.workers)
        json.dump(res, open(args.out or ROOT + '/checked.json', 'w'), indent=0)
        print('caught', sum(bool(r['caught']) for r in res), 'of', len(res))


if __name__ == '__main__':
    main()
