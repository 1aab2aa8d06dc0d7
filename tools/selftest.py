"""python3-vt tools/selftest.py [harness [regex]]: replay every contract case of the unchanged tree natively.
For up to 8 final states of each verified case a concrete input is taken from the solver's model, the real code is run on it
(also with every reachable element operation throwing and every allocation failing) and the contract is evaluated on the native outcome.
Anything reported here is a disagreement between the verifier's semantics or a contract and the real program."""
import sys, os, re, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from vcg import main as M, ir, dsl, pool, replay
hs = sys.argv[1:2] or M.HARNESSES; rx = sys.argv[2] if len(sys.argv) > 2 else '.'
mods = M.load(); tmp = tempfile.mkdtemp(prefix='ptlst_'); bad = 0; tot = [0, 0, 0]; notes = {}
try:
    for h in hs:
        for v in getattr(mods[h], 'VARIANTS', [{}]):
            if 'V' in os.environ and v != eval(os.environ['V']): continue
            cs = [c for c in dsl.CONTRACTS[h] if re.search(rx, c.name) and ('variant' not in c.opts or c.opts['variant'](v))]
            if not cs: continue
            path, r, cmd = M.compile_ir(h, v, tmp, getattr(mods[h], 'CXXFLAGS', ())); mod = ir.parse_module(path)
            setup = lambda E: mods[h].setup(E, **v)
            exe, syms = replay.build(h, v, getattr(mods[h], 'CXXFLAGS', ()), mod, setup, M.REPO, M.ROOT, tmp)
            jobs = [(c, case) for c in cs for case in c.cases]; t0 = time.time()
            def go(i):
                c, case = jobs[i]; t = time.time()
                x = replay.replay_case(mod, c, case, setup, h, mods[h], None, exe, syms, tmp, budget=120, selftest=True)
                if isinstance(x, dict): x['t'] = time.time() - t
                return x
            res = pool.run(len(jobs), go, 8, lambda i: 200); n = ran = none = 0
            for (c, case), x in zip(jobs, res):
                if isinstance(x, dict) and 'summary' in x: bad += 1; print('DISAGREES', h, v, x['summary'][:300], x.get('sanitizer', '')[:300]); continue
                if isinstance(x, dict):
                    n += x['states']; ran += x['ran']; none += x['ran'] == 0
                    for k in x['notes']: notes.setdefault((h, k), []).append(c.name)
                    if x['ran'] == 0 and not x['notes']: notes.setdefault((h, 'no model'), []).append(c.name)
                else: none += 1; notes.setdefault((h, str(x)[:150]), []).append(c.name)
            print('%s %s: %d cases, %d without a native run, %d of %d final states replayed, %.0fs' % (h, v, len(jobs), none, ran, n, time.time() - t0)); sys.stdout.flush()
    for (h, k), cs in sorted(notes.items()): print('  not replayed:', h, k, sorted(set(cs))[:12])
    print('disagreements:', bad)
finally: shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if bad else 0)
