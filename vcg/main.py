"""check driver: decide one property from the current /repo sources"""
import sys, os, time, json, subprocess, tempfile, shutil, importlib, re, concurrent.futures
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PTL_REPO', '/repo')
CXX = '/usr/bin/clang++-18'
CXXFLAGS = ['-std=c++17', '-O0', '-gline-tables-only', '-S', '-emit-llvm', '-fno-discard-value-names', '-Wno-everything']
HARNESSES = ['vector', 'string', 'bitset', 'optional', 'variant', 'variant_many', 'refs', 'refs_many', 'views', 'seq', 'iters', 'layout']
SAFETY = ('mem', 'life', 'leak', 'term', 'own')

def load():
    mods = {}
    for h in HARNESSES: mods[h] = importlib.import_module('contracts.' + h)
    return mods

def compile_ir(h, defs, tmp, extra=()):
    out = os.path.join(tmp, h + '_' + '_'.join('%s%s' % kv for kv in sorted(defs.items())) + '.ll')
    cmd = [CXX] + CXXFLAGS + list(extra) + ['-D%s=%s' % kv for kv in defs.items()] + ['-I' + os.path.join(REPO, 'inc'), os.path.join(ROOT, 'harness', h + '.cpp'), '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return out, r, ' '.join(cmd)

def main(prop, tier):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    from . import ir, dsl, pool
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mods = load()
    tmp = tempfile.mkdtemp(prefix='ptlv_')
    budget = 600 if tier == 'quick' else 6000
    jobs = []; violations = []; irs = {}; notes = []; cmds = []; ncompile = 0
    try:
        units = []
        for h in HARNESSES:
            m = mods[h]
            cons = [c for c in dsl.CONTRACTS.get(h, []) if prop in c.core]
            if not cons: continue
            variants = m.VARIANTS_THOROUGH if tier == 'thorough' and hasattr(m, 'VARIANTS_THOROUGH') else getattr(m, 'VARIANTS', [{}])
            for v in variants:
                cs = [c for c in cons if 'variant' not in c.opts or c.opts['variant'](v)]
                if cs: units.append((h, v, cs))
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            comp = list(ex.map(lambda u: compile_ir(u[0], u[1], tmp, getattr(mods[u[0]], 'CXXFLAGS', ())), units))
        for (h, v, cs), (path, r, cmd) in zip(units, comp):
            cmds.append(cmd)
            if r.returncode != 0:
                violations.append(dict(kind='compile', harness=h, msg='the harness of the public interface no longer compiles', output=r.stderr[-4000:], failures=[])); continue
            mod = ir.parse_module(path); os.unlink(path)
            for c in cs:
                for case in c.cases: jobs.append((h, v, mod, c, case))
        jobs.sort(key=lambda j: -(mods[j[0]].weight(j[3], j[4]) if hasattr(mods[j[0]], 'weight') else 0))
        cross = tier == 'thorough'
        per = 150 if tier == 'quick' else 900
        def go(i):
            h, v, mod, c, case = jobs[i]
            if time.time() - t0 > budget: return dict(skipped=True)
            return dsl.run_case(mod, c, case, (lambda E: mods[h].setup(E, **v)), deadline=min(per, max(5, budget - (time.time() - t0))), cross=cross, prop=prop)
        res = pool.run(len(jobs), go, 8, lambda i: per + 40)
        # bounded stand-in for what could not be decided
        again = [i for i, r in enumerate(res) if not isinstance(r, dict) or r.get('skipped') or r['status'] in ('unsupported', 'undecided')]
        bres = {}
        if again:
            def go2(k):
                h, v, mod, c, case = jobs[again[k]]
                out = None
                for b in (1, 2, 3):
                    left = min(60, budget + 90 - (time.time() - t0))
                    if left < 3: break
                    x = dsl.run_case(mod, c, case, (lambda E: mods[h].setup(E, **v)), bounded=b, deadline=left, prop=prop)
                    if x['status'] in ('unsupported',) and not x['failures']:
                        if out is None: out = x
                        break
                    out = x
                    if x['failures']: break
                return out if out is not None else dict(skipped=True)
            for k, r in enumerate(pool.run(len(again), go2, 8, lambda i: 100)): bres[again[k]] = r
        # and the real code run on sampled pre-states, for what even that could not decide
        progs = {}; sres = {}
        def failed(i): return any(isinstance(x, dict) and x.get('failures') for x in (res[i], bres.get(i)))
        left = [i for i in again if not failed(i)]
        if left and not any(isinstance(r, dict) and any(relevant(f['cat'], prop) for f in r.get('failures', ())) for r in list(res) + list(bres.values())):
            until = t0 + budget + 150
            for k, r in zip(left, sample(left, jobs, mods, prop, tmp, progs, notes, until)): sres[k] = r
        bounded_items = []; undecided_items = []; vac = []
        lib_ok, lib_open, lib_n = lemmas(jobs, res, mods, prop, budget + 60 - (time.time() - t0))
        ftot = {}; trusted = set(); inlined = set(); contracts = {}; by = {}; crossn = {}
        tot = dis = triv = 0; stime = 0.0; queries = 0; paths = 0; fails = []
        for i, (h, v, mod, c, case) in enumerate(jobs):
            r = res[i]; label = '%s[%s]%s' % (c.name, ' '.join('%s=%s' % kv for kv in case.items()), ' ' + str(v) if v else '')
            use = r if isinstance(r, dict) and not r.get('skipped') else None
            if i in bres:
                b = bres[i]
                why = (use['reason'] or 'solver undecided: ' + '; '.join(x['msg'] for x in use['undecided'][:3])) if use else str(r)[:200]
                if isinstance(b, dict) and not b.get('skipped') and b['status'] in ('proved', 'failed', 'undecided'):
                    bounded_items.append('%s: %s; checked with every size input <= %d instead' % (label, why, b['bounded']))
                    if b['failures'] and not (use and use['failures']): use2 = b
                    else: use2 = None
                    if use2: fails += [(c, dict(f, variant=v, harness=h, bounded=b['bounded'], job=i)) for f in b['failures']]
                elif isinstance(sres.get(i), dict) and ('summary' in sres[i] or sres[i].get('samples')): bounded_items.append('%s: %s; %s' % (label, why, 'the real code run on %d concrete pre-states instead' % sres[i]['samples'] if 'samples' in sres[i] else 'a concrete pre-state fails'))
                else: undecided_items.append('%s: %s' % (label, why))
                if isinstance(sres.get(i), dict) and 'summary' in sres[i]:
                    x = sres[i]; fails.append((c, dict(contract=c.name, cat='mem' if x['category'] in SAFETY else prop, msg=x['violated'], loc='', case=label, model=x['inputs'], variant=v, harness=h, confirmed=x, bounded='sampled pre-states')))
            if not use: continue
            contracts.setdefault(h + ':' + c.name, 0); contracts[h + ':' + c.name] += 1
            for cat, (a, d, t) in use['obl'].items():
                if not relevant(cat, prop): continue
                tot += a; dis += d; triv += t; ftot[cat] = ftot.get(cat, 0) + a
            stime += use['solver_time']; queries += use['queries']; paths += use['paths']
            trusted |= {t for t in use['trusted'] if (h, str(v), t) not in lib_ok}; inlined |= set(use['inlined'])
            for k, n in use['by'].items(): by[k] = by.get(k, 0) + n
            for k, n in use.get('cross', {}).items(): crossn[k] = crossn.get(k, 0) + n
            if use['status'] == 'vacuous': vac.append('%s: %s' % (label, use['reason']))
            fails += [(c, dict(f, variant=v, harness=h, job=i)) for f in use['failures']]
        mine = [(c, f) for c, f in fails if relevant(f['cat'], prop)]
        other = [(c, f) for c, f in fails if not relevant(f['cat'], prop)]
        status = 0
        known = known_findings(prop)
        if mine or violations:
            rep = os.path.join(ROOT, 'evidence', 'replay_%s.json' % prop)
            out = report(prop, mine, violations, rep, mods, tmp, known, cmds, jobs, t0 + budget + 230)
            status = 1 if out else 0
            for line in out: print(line)
        for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
        own = sorted(x for x in inlined if x.startswith('ptl::') or ' ptl::' in x.split('(')[0])
        nown = len(own); own = plain_names(own)
        cov = dict(obligations=tot, discharged=dis, checker_cmd='/verif/check %s (clang++-18 -O0 LLVM IR of /repo/inc -> vcg symbolic execution -> z3 %s)' % (prop, '+ cvc5' if cross else ''),
                   trusted_base=[t[:200] for t in sorted(trusted)], solver_calls=queries, library_contracts_proved=sorted({'%s (%s%s)' % (t, h, ' ' + v if v != '{}' else '') for h, v, t in lib_ok})[:200], library_contracts_not_proved=lib_open, library_obligations_discharged=lib_n, discharged_syntactically=triv, solver_seconds=round(stime, 1), by_back_end=by, paths=paths,
                   obligations_by_category=ftot, contract_cases=len(jobs), functions_under_contract=sorted(contracts), ptl_functions_verified_inline=own, ptl_function_instances_verified_inline=nown,
                   library_functions_executed_inline=len(inlined) - nown, bounded_stand_ins=bounded_items, undecided=undecided_items, vacuous=vac, cross_check=crossn,
                   other_property_failures=sorted({'%s: %s/%s' % (f['contract'], f['cat'], f['msg']) for c, f in other})[:20])
        ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(mine) + len(violations),
                  assumptions=ASSUME + [a for h in sorted({j[0] for j in jobs}) for a in getattr(mods[h], 'ASSUMPTIONS', [])])
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d contract cases, %d bounded, %d undecided, %.1fs' % (prop, tot, dis, len(jobs), len(bounded_items), len(undecided_items), time.time() - t0))
        for b in bounded_items[:5] + undecided_items[:5] + vac[:5]: print('  note: ' + b[:300])
        return status
    finally: shutil.rmtree(tmp, ignore_errors=True)

ASSUME = ['the LLVM IR clang 18 emits at -O0 for x86-64 is the meaning of the C++ source (compiler, ABI and data layout trusted; other targets, -O levels and libc++ not examined)',
          'the symbolic executor and the contracts of trusted functions listed in trusted_base (vcg/engine.py, vcg/lib.py) are correct; the SMT back ends are sound',
          'a successful allocation is at most PTRDIFF_MAX bytes and does not overlap any other object; single-threaded use',
          'element operations obey their documented contract (copy yields an equal value, moves leave a valid unspecified value, comparisons are pure); copy, default and converting construction and copy assignment may throw at any call']

def plain_names(names):
    """function names without template arguments and parameter lists"""
    out = set()
    for n in names:
        r = []; d = 0; i = 0
        n = n.replace('(anonymous namespace)', '').replace('{lambda(', '{lambda').replace('operator<<', 'operator shl').replace('operator>>', 'operator shr').replace('operator<=', 'operator le').replace('operator>=', 'operator ge').replace('operator->', 'operator arrow').replace('operator<', 'operator lt').replace('operator>', 'operator gt')
        for ch in n:
            if ch in '<([': d += 1
            elif ch in '>)]': d = max(0, d - 1)
            elif d == 0: r.append(ch)
        out.add(' '.join(''.join(r).split())[:160])
    return sorted(out)[:400]
def relevant(cat, prop):
    cs = cat.split(',')
    return prop in cs or cs[0] in SAFETY
def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append(m.group(2).strip())
    return out

def lemmas(jobs, res, mods, prop, left):
    """the contracts assumed for libstdc++ algorithms in this run, proved of their code (vcg/lemma.py); a contract that
    cannot be proved stays in the trusted base: the code it is about is not in /repo, so it raises no alarm"""
    from . import lemma, dsl, pool
    used = {}; items = []; notes = set()
    for (h, v, mod, c, case), r in zip(jobs, res):
        if isinstance(r, dict) and not r.get('skipped'): used.setdefault((h, str(v)), [v, mod, set()])[2].update(t for t in r['trusted'] if t.startswith('std::') and ' over ' in t)
    for (h, vs), (v, mod, ts) in used.items():
        if not ts: continue
        try:
            for label, con, su in lemma.jobs(mod, (lambda E, h=h, v=v: mods[h].setup(E, **v)), prop):
                if label in ts: items += [((h, vs, label), mod, con, case, su) for case in con.cases]
        except Exception as e: notes.add('%s %s: %r' % (h, vs, e))
    if not items or left < 10: return set(), sorted(notes), 0
    def go(i): k, mod, con, case, su = items[i]; return dsl.run_case(mod, con, case, su, deadline=min(60, left), prop=prop)
    ok = {}; n = 0
    for (k, mod, con, case, su), r in zip(items, pool.run(len(items), go, 8, lambda i: min(80, left))):
        good = isinstance(r, dict) and r['status'] == 'proved'
        ok[k] = ok.get(k, True) and good
        if good: n += sum(a for a, d, t in r['obl'].values())
        else: notes.add('%s: %s %s' % (k[2], con.name[:80], (r['status'] + ' ' + str(r['reason'])[:100]) if isinstance(r, dict) else str(r)[:100]))
    return {k for k, g in ok.items() if g}, sorted(notes)[:30], n

def sample(order, jobs, mods, prop, tmp, progs, notes, until, n=200):
    """bounded stand-in: the real code, run on sampled concrete pre-states of these cases"""
    from . import replay, pool
    prepare(order, jobs, mods, tmp, progs, notes)
    def go(i):
        h, v, mod, c, case = jobs[order[i]]; p = progs[(h, str(v))]; t = until - time.time()
        if p is None or t < 4: return None
        return replay.sample_case(mod, c, case, (lambda E: mods[h].setup(E, **v)), h, mods[h], prop, p[0], p[1], tmp, n=n, budget=min(60, t))
    return pool.run(len(order), go, 8, lambda i: 75)
def prepare(order, jobs, mods, tmp, progs, notes):
    from . import replay
    for j in order:
        h, v, mod, c, case = jobs[j]; k = (h, str(v))
        if k in progs: continue
        try: progs[k] = replay.build(h, v, getattr(mods[h], 'CXXFLAGS', ()), mod, (lambda E: mods[h].setup(E, **v)), REPO, ROOT, tmp)
        except Exception as e: progs[k] = None; notes.append(repr(e)[:300])
def try_replays(prop, fs, jobs, mods, tmp, until):
    """native replay of the failing contract cases; the first confirmed one, and notes"""
    from . import replay, pool
    for f in fs:
        if 'confirmed' in f: return f['confirmed'], []
    cand = {}; models = {}
    for f in fs:
        if 'job' in f and f.get('model') and len(models.setdefault(f['job'], [])) < 4: models[f['job']].append(f['model'])
        if 'job' in f: cand.setdefault(f['job'], f.get('bounded', 0))
    order = []; percon = {}
    for j in cand: percon.setdefault(jobs[j][3].name, []).append(j)
    while any(percon.values()) and len(order) < 16:
        for n in list(percon):
            if percon[n]: order.append(percon[n].pop(0))
    progs = {}; notes = []
    def setup(j): h, v = jobs[j][0], jobs[j][1]; return lambda E: mods[h].setup(E, **v)
    prepare(order, jobs, mods, tmp, progs, notes)
    order = [j for j in order if progs[(jobs[j][0], str(jobs[j][1]))]]
    def go(i):
        h, v, mod, c, case = jobs[order[i]]; exe, syms = progs[(h, str(v))]
        return replay.replay_case(mod, c, case, setup(order[i]), h, mods[h], prop, exe, syms, tmp, bounded=cand[order[i]], budget=max(8, min(60, until - 20 - time.time())), models=models.get(order[i], ()))
    res = pool.run(len(order), go, 8, lambda i: 80) if order else []
    for r in res:
        if isinstance(r, dict) and 'summary' in r: return r, notes
        if isinstance(r, dict): notes += r.get('unconfirmed', [])
        elif r is not None: notes.append(str(r)[:300])
    # no counterexample could be confirmed: search for a failing input of the failing contracts
    for r in sample(order[:8], jobs, mods, prop, tmp, progs, notes, min(until, time.time() + 60)) if order else []:
        if isinstance(r, dict) and 'summary' in r: return r, notes
    return None, sorted(set(notes))[:10]
def report(prop, mine, comp, rep, mods, tmp, known, cmds, jobs, until):
    fs = []; seen = set()
    confirmed, notes = try_replays(prop, [f for c, f in mine], jobs, mods, tmp, until)
    for c, f in mine:
        k = (f['contract'], f['cat'], f['msg'])
        if k in seen: continue
        seen.add(k); fs.append(f)
    doc = dict(property=prop, failed_obligations=[dict(obligation='%s / %s' % (f['contract'], f['msg']), category=f['cat'], source_location=f['loc'], case=f['case'], counterexample=f['model'],
                                                       verifier_output='undecided by the verifier; violated by a native run of the real code' if 'confirmed' in f else 'sat: the negated obligation is satisfiable together with the path condition', bounded=f.get('bounded', 0)) for f in fs[:30]],
               compile_errors=comp, replay=confirmed, replay_notes=notes, commands=cmds)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    json.dump(doc, open(rep, 'w'), indent=1)
    for f in fs[:10]: print('failed obligation: %s [%s] %s at %s, counterexample %s' % (f['contract'], f['case'], f['msg'], f['loc'], json.dumps(f['model'])[:300]))
    for v in comp: print('compile failure: ' + v['output'][:1500])
    if confirmed: print('replayed: ' + confirmed['summary'][:400])
    return ['VIOLATION property=%s replay=%s%s' % (prop, rep, '' if confirmed else ' no-failing-input-found')]
