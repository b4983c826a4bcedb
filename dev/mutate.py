#!/usr/bin/env python3
"""Development aid: apply small syntactic mutations to functions of a Python file and see which a check reports.

usage: mutate.py CHECK[,CHECK] FILE FUNC[,FUNC...] [N]
"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def points(fn):
    """Yield (description, mutator) for the nodes of a function."""
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield n, f'{type(op).__name__}->{new.__name__}', (lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                yield n, f'{type(n.op).__name__}->{new.__name__}', (lambda m, new=new: setattr(m, 'op', new()))
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.FloorDiv, ast.Pow)):
                yield n, 'swap', (lambda m: (lambda l, r: (setattr(m, 'left', r), setattr(m, 'right', l)))(m.left, m.right))
        elif isinstance(n, ast.BoolOp):
            yield n, 'and<->or', (lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    yield n, f'drop operand {k}', (lambda m, k=k: m.values.pop(k))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield n, 'flip', (lambda m: setattr(m, 'value', not m.value))
            elif isinstance(n.value, int):
                yield n, '+1', (lambda m: setattr(m, 'value', m.value + 1))
                yield n, '-1', (lambda m: setattr(m, 'value', m.value - 1))
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield n, 'negate test', (lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield n, 'drop unary', (lambda m: setattr(m, 'op', ast.UAdd() if isinstance(m.op, ast.USub) else m.op) if isinstance(m.op, ast.USub) else None)
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            yield n, 'swap pair', (lambda m: m.elts.reverse())
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            yield n, 'swap args', (lambda m: m.args.reverse())
        if hasattr(n, 'body') and isinstance(n.body, list):
            for k, st in enumerate(n.body):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break)) and \
                        not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    yield n, f'drop stmt {ast.unparse(st)[:40]}', (lambda m, k=k: m.body.__setitem__(k, ast.Pass()))


def main():
    checks, path, funcs = sys.argv[1].split(','), sys.argv[2], sys.argv[3].split(',')
    limit = int(sys.argv[4]) if len(sys.argv) > 4 else 60
    tree = ast.parse(open(os.path.join(REPO, path)).read())
    sites = []

    def visit(node, qual):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                visit(c, qual + [c.name])
            elif isinstance(c, ast.FunctionDef):
                q = '.'.join(qual + [c.name])
                if q in funcs or c.name in funcs or '*' in funcs:
                    for n, d, m in points(c):
                        sites.append((q, n, d, m))
    visit(tree, [])
    random.Random(1).shuffle(sites)
    sites = sites[:limit]
    jobs = []
    for q, n, d, m in sites:
        t = copy.deepcopy(tree)
        # find the same node by position and type
        idx = [id(x) for x in ast.walk(tree)].index(id(n))
        node = list(ast.walk(t))[idx]
        before = ast.unparse(n)
        try:
            m(node)
            ast.fix_missing_locations(t)
            src = ast.unparse(t)
        except Exception:
            continue
        if src == ast.unparse(tree):
            continue
        jobs.append((q, getattr(n, 'lineno', 0), d, before.split('\n')[0][:90], src))

    def run(job):
        q, line, d, before, src = job
        tmp = tempfile.mkdtemp(prefix='mut')
        try:
            for sub in ('tm', 'tools'):
                shutil.copytree(os.path.join(REPO, sub), os.path.join(tmp, sub), ignore=shutil.ignore_patterns('__pycache__'))
            with open(os.path.join(tmp, path), 'w') as fh:
                fh.write(src)
            env = dict(os.environ, SA_REPO=tmp, SA_EVIDENCE=os.path.join(tmp, 'ev'))
            res = []
            for c in checks:
                r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c], capture_output=True, text=True, env=env, timeout=900)
                res.append(r.returncode)
            return job, res, r.stdout[:200]
        except subprocess.TimeoutExpired:
            return job, [9], ''
        finally:
            shutil.rmtree(tmp)

    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(run, jobs))
    caught = sum(1 in r for _, r, _ in results)
    print(f'{caught}/{len(results)} caught')
    for (q, line, d, before, _), r, out in results:
        if 1 not in r:
            print(f'  survived {r} {q}:{line} {d}: {before}')


main()
