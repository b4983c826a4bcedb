"""Run src's own #[test] functions in the interpreter: does it read Rust as rustc does?"""
import sys, re, time
sys.path.insert(0, __file__.rsplit('/', 2)[0])
from sa import rustfe, rustai
rustfe.TESTS = True
import glob, os
for f in sorted(glob.glob('/repo/src/*.rs')):
    m = os.path.basename(f)[:-3]
    if len(sys.argv) > 1 and m not in sys.argv[1:]:
        continue
    for n in re.findall(r'#\[test\]\s*fn (\w+)', open(f).read()):
        t = time.time()
        ps = list(rustai.explore('/repo', lambda i: i.run(f'{m}::{n}', []), max_paths=3))
        for p in ps:
            print(m, n, len(ps), 'UNDECIDED ' + str(p.undecided) if p.undecided else p.exc and ('EXC', p.exc.name, p.exc.args) or 'ok', f'{time.time()-t:.1f}s')
