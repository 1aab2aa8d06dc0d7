"""python3-vt tools/sample.py [harness [regex [n]]]: run the bounded stand-in (sampled native runs) on every contract case of the
unchanged tree. Anything reported here is a disagreement between a contract and the real program."""
import sys, os, re, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from vcg import main as M, ir, dsl, pool, replay
hs = sys.argv[1:2] or M.HARNESSES; rx = sys.argv[2] if len(sys.argv) > 2 else '.'; N = int(sys.argv[3]) if len(sys.argv) > 3 else 10
mods = M.load(); tmp = tempfile.mkdtemp(prefix='ptlsa_'); bad = 0
try:
    for h in hs:
        for v in getattr(mods[h], 'VARIANTS', [{}]):
            if 'V' in os.environ and v != eval(os.environ['V']): continue
            cs = [c for c in dsl.CONTRACTS[h] if re.search(rx, c.name) and ('variant' not in c.opts or c.opts['variant'](v))]
            if not cs: continue
            path, r, cmd = M.compile_ir(h, v, tmp, getattr(mods[h], 'CXXFLAGS', ())); mod = ir.parse_module(path)
            setup = lambda E: mods[h].setup(E, **v)
            exe, syms = replay.build(h, v, getattr(mods[h], 'CXXFLAGS', ()), mod, setup, M.REPO, M.ROOT, tmp)
            jobs = [(c, case) for c in cs for case in c.cases]; t0 = time.time()
            res = pool.run(len(jobs), lambda i: replay.sample_case(mod, jobs[i][0], jobs[i][1], setup, h, mods[h], None, exe, syms, tmp, n=N, budget=60), 8, lambda i: 100)
            n = 0; none = {}
            for (c, case), x in zip(jobs, res):
                if isinstance(x, dict) and 'summary' in x: bad += 1; print('DISAGREES', h, v, x['summary'][:300], x.get('sanitizer', '')[:300]); continue
                if isinstance(x, dict) and x['samples']: n += x['samples']; continue
                none.setdefault(str(x['notes'] if isinstance(x, dict) else x)[:150], []).append(c.name)
            print('%s %s: %d cases, %d samples, %.0fs' % (h, v, len(jobs), n, time.time() - t0)); sys.stdout.flush()
            for k, l in none.items(): print('   without a sample:', k, len(l), sorted(set(l))[:8])
    print('disagreements:', bad)
finally: shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if bad else 0)
