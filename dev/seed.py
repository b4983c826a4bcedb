#!/usr/bin/env python3
"""Development aid: make and confirm a planted bug.  usage: seed.py SPEC.py  (SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, files={})])"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=e)
    return r.returncode, (r.stdout + r.stderr)


spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
for b in spec['BUGS']:
    if only and b['id'] not in only:
        continue
    d = os.path.join(ROOT, 'seeded', b['id'])
    w = f'/tmp/seed_{b["id"]}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'git -C /repo worktree prune; git clone -q /repo {w}', '/')
    for f, old, new in b['edits']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    _, diff = sh('git diff', w)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.sh', 'w').write(b['demo'])
    os.chmod(f'{d}/demo.sh', 0o755)
    for n, c in b.get('files', {}).items():
        if c.startswith('@'):
            shutil.copy(os.path.join(ROOT, c[1:]), f'{d}/{n}')
        else:
            open(f'{d}/{n}', 'w').write(c)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    # demo on clean: copy of demo dir elsewhere
    dd = f'/tmp/seeddemo_{b["id"]}'
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd)
    clean = f'/tmp/seedclean_{b["id"]}'
    shutil.rmtree(clean, ignore_errors=True)
    sh(f'git clone -q /repo {clean}', '/')
    r0, o0 = sh(f'bash {dd}/demo.sh', clean)
    r1, o1 = sh(f'bash {dd}/demo.sh', w)
    rt, ot = sh('/opt/venv/bin/python -m pytest -q -c /opt/vp/pytest.ini --rootdir . -p no:cacheprovider test/test_num.py test/test_rules.py test/test_tape.py', w)
    # the class-teardown counts of interned objects are part of it: compare the summary with the clean tree
    rk = 0
    if any(f.startswith('machines/') for f, _, _ in b['edits']):
        for f, _, _ in b['edits']:
            dr, nm = os.path.split(f)
            k, _o = sh(f"make -s -C {dr} SHELL=/bin/bash .SHELLFLAGS='-o pipefail -c' {nm[:-2]}", w)
            rk |= k
    rr = 0
    if any(f.endswith('.rs') for f, _, _ in b['edits']):
        rr = 0
    rc, oc = sh(f'python3 {ROOT}/check.py {b["prop"]}', ROOT, {'SA_REPO': w, 'SA_EVIDENCE': f'{dd}/ev'})
    ok = r0 == 0 and r1 != 0 and rt == 0 and rk == 0
    caught = rc == 1 and f'VIOLATION property={b["prop"]}' in oc
    print(f"{'OK ' if ok else 'BAD'} {'caught' if caught else 'MISSED rc=%d' % rc} {b['id']} [{b['prop']}] demo {r0}/{r1} tests {rt} make {rk}")
    if not ok:
        print('   clean:', o0[-400:], '\n   patched:', o1[-400:], '\n   tests:', ot[-300:] if rt else '')
    if not caught:
        print('   ', oc[-300:])
    for x in (w, dd, clean):
        shutil.rmtree(x, ignore_errors=True)
