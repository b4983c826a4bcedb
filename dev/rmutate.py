#!/usr/bin/env python3
"""Development aid: token mutations in functions of a Rust file; lists those that compile and no check reports.

usage: rmutate.py CHECK[,CHECK] FILE FUNC[,FUNC...] [N]     (FILE relative to src/)
"""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {' < ': [' <= ', ' > '], ' <= ': [' < '], ' > ': [' >= ', ' < '], ' >= ': [' > '], ' == ': [' != '], ' != ': [' == '],
        ' + ': [' - '], ' - ': [' + '], ' += ': [' -= '], ' -= ': [' += '], ' * ': [' + '], ' / ': [' * '], ' % ': [' / '],
        ' && ': [' || '], ' || ': [' && '], '..=': ['..'], ' true': [' false'], ' false': [' true'], 'None': [], ' *= ': [' += '],
        '.lspan': ['.rspan'], '.rspan': ['.lspan'], '(true': ['(false'], '(false': ['(true'], 'continue;': ['break;'], 'break;': ['continue;'],
        '.min(': ['.max('], '.max(': ['.min('], '.all(': ['.any('], '.any(': ['.all('], '.first()': ['.last()'], '.last()': ['.first()'],
        'is_some(': ['is_none('], 'is_none(': ['is_some('], 'next_back()': ['next()'], '.rev()': ['']}


def functions(src, names):
    for m in re.finditer(r'\bfn\s+(\w+)', src):
        if m.group(1) not in names:
            continue
        k = src.index('{', m.end()) if '{' in src[m.end():] else None
        semi = src.find(';', m.end())
        if k is None or 0 <= semi < k and src[m.end():k].count('(') == src[m.end():semi].count('(') and ';' in src[m.end():k] and '[' not in src[m.end():k]:
            continue
        d, e = 0, k
        while True:
            if src[e] == '{':
                d += 1
            elif src[e] == '}':
                d -= 1
                if not d:
                    break
            e += 1
        yield m.group(1), k, e


def points(src, a, b):
    body = src[a:b]
    for old, news in SWAP.items():
        for m in re.finditer(re.escape(old), body):
            for new in news:
                yield a + m.start(), a + m.end(), new
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', body):
        v = int(m.group(1))
        yield a + m.start(), a + m.end(), str(v + 1)
        if v:
            yield a + m.start(), a + m.end(), str(v - 1)
    for m in re.finditer(r'!(?=[\w(])', body):
        if body[m.start() - 1] not in 'cgetsmr':
            yield a + m.start(), a + m.end(), ''
    for m in re.finditer(r'\bif (?!let)([^{}]+?) \{', body):
        yield a + m.start(1), a + m.end(1), f'!({m.group(1)})'
        yield a + m.start(1), a + m.end(1), 'true'
        yield a + m.start(1), a + m.end(1), 'false'
    for m in re.finditer(r'(?m)^[ \t]+[^\n{}]*;\n', body):
        if not m.group(0).strip().startswith(('let', 'use')):
            yield a + m.start(), a + m.end(), '\n'
    for m in re.finditer(r'\((\w+), (\w+)\)', body):
        yield a + m.start(), a + m.end(), f'({m.group(2)}, {m.group(1)})'


def main():
    checks, file, names = sys.argv[1].split(','), sys.argv[2], sys.argv[3].split(',')
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 40
    path = os.path.join(REPO, 'src', file)
    src = open(path, encoding='utf-8').read()
    pts = [(f, *p) for f, a, b in functions(src, names) for p in points(src, a, b)]
    random.Random(int(os.environ.get('SEED', '1'))).shuffle(pts)
    print(len(pts), 'points')
    base = tempfile.mkdtemp(prefix='rmut')
    stubs = os.path.join(base, 'stubs')
    os.makedirs(stubs)
    rs = os.path.join(HERE, 'dev', 'rs')
    subprocess.run(['rustc', '--edition', '2024', '--crate-type', 'proc-macro', '--crate-name', 'pyo3', f'{rs}/pyo3.rs', '--out-dir', stubs], check=True, capture_output=True)
    subprocess.run(['rustc', '--edition', '2024', '--crate-type', 'rlib', '--crate-name', 'rayon', f'{rs}/rayon.rs', '--out-dir', stubs], check=True, capture_output=True)

    def run(p):
        f, a, b, new = p
        d = tempfile.mkdtemp(dir=base)
        try:
            shutil.copytree(f'{REPO}/src', f'{d}/src')
            with open(f'{d}/src/{file}', 'w', encoding='utf-8') as fh:
                fh.write(src[:a] + new + src[b:])
            line = src.count('\n', 0, a) + 1
            desc = f'{f}:{line}: `{src[a:b].strip()[:60]}` -> `{new.strip()[:60]}`   | {src[src.rfind(chr(10), 0, a) + 1:].splitlines()[0].strip()[:90]}'
            r = subprocess.run(['rustc', '--edition', '2024', '-A', 'warnings', '--emit=metadata', '--extern', f'pyo3={stubs}/libpyo3.so', '--extern',
                                f'rayon={stubs}/librayon.rlib', '--crate-type', 'lib', '--crate-name', 'demo', f'{d}/src/lib.rs', '-o', f'{d}/x.rmeta'], capture_output=True)
            if r.returncode:
                return None, desc
            res = []
            for c in checks:
                e = dict(os.environ, SA_REPO=d, SA_EVIDENCE=f'{d}/ev', SA_DEADLINE='300')
                try:
                    q = subprocess.run([sys.executable, 'check.py', c], cwd=HERE, env=e, capture_output=True, text=True, timeout=400)
                    res.append(q.returncode)
                except subprocess.TimeoutExpired:
                    res.append(99)
                if res[-1] == 1:
                    break
            return res, desc
        finally:
            shutil.rmtree(d, ignore_errors=True)
    tally = {}
    done = 0
    with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex:
        for res, desc in ex.map(run, pts[:n * 2]):
            if res is None:
                tally['no compile'] = tally.get('no compile', 0) + 1
                continue
            done += 1
            k = 'caught' if 1 in res else f'missed {res}'
            tally[k] = tally.get(k, 0) + 1
            if 1 not in res:
                print(k, desc, flush=True)
    print(tally)
    shutil.rmtree(base, ignore_errors=True)


main()
