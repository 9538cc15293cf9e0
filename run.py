#!/usr/bin/env python3-vt
"""Run one check:  run.py CNN [--thorough]   |  run.py --replay FILE  |  run.py --selftest

exit 0: the property held on every path explored; exit 1: VIOLATION, reproduced against the real code; exit 2: no answer."""
import concurrent.futures as cf, glob, hashlib, importlib.util, json, os, re, resource, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import explore as X, env_sym

def load_meta(cid):
    """The check module, imported natively only for its plan of scenarios."""
    spec = importlib.util.spec_from_file_location('meta_' + cid, os.path.join(HERE, 'checks', cid.lower() + '.py'))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m

def known(cid):
    """Lines 'open: property=ID key=KEY what fails' of the known-findings file; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            w = l.rstrip('\n').split(' ', 3)
            if w[0] == 'open:' and w[1] == 'property=' + cid and w[2].startswith('key='): out.append(dict(key=w[2][4:], what=w[3]))
    return out

def main():
    a = sys.argv[1:]
    if '--selftest' in a:
        import selftest; sys.exit(selftest.main())
    if a and a[0] == '--replay':
        with open(a[1]) as f: j = json.load(f)
        r = X.replay(j['check'], j['scenario'], j['inputs'])
        print(json.dumps(r, indent=1)); sys.exit(1 if r['outcome'] in ('violation', 'hang') else 0)
    cid = a[0].upper()
    tier = 'thorough' if '--thorough' in a else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(check(cid, tier, seed, only=[x[7:] for x in a if x.startswith('--only=')], verbose='-v' in a))

def replay(mod, scn, inputs, timeout):
    """A real run; real keys and salts are random, so that an assumption about their bytes can fail by chance: try again."""
    for i in range(4):
        r = X.replay(mod, scn, inputs, timeout=timeout)
        if r['outcome'] != 'abort': break
    return r

TICKS = re.compile(r'(at|ats|at_|after|crash\w*|\w+_crash\d*|crash\d+|at\d+)(~\d+)?$')

def near(inputs):
    """The same inputs with the moments of crashes and interruptions moved a little: the library calls of the code under test may
    make a few system calls more or fewer than their model."""
    ks = [k for k, v in inputs.items() if TICKS.match(k) and isinstance(v, int) and not isinstance(v, bool)]
    for d in (1, -1, 2, -2, 3, -3):
        for k in ks:
            if inputs[k] + d >= 0: yield dict(inputs, **{k: inputs[k] + d})

def check(cid, tier, seed, only=(), verbose=False):
    t0 = time.time()
    m = load_meta(cid)
    scns = m.plan(tier)
    if only: scns = [s for s in scns if any(o in s['name'] for o in only)]
    budget = getattr(m, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 800)
    mod = cid.lower()
    kn = known(cid); evdir = os.path.join(HERE, 'evidence'); os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, 'replay-%s-*.json' % cid)): os.unlink(f)
    confirmed = []; knownhit = {}; unrepro = []; nrep = [0]
    def judge(v):
        """Replay a solver counterexample on the real code; True when it is a new, reproduced violation."""
        si, msg, key, inputs, tb, log = v
        scn = scns[si]
        r = replay(mod, scn, inputs, timeout=30)
        nrep[0] += 1
        if r['outcome'] not in ('violation', 'hang'):
            for other in near(inputs):
                r2 = X.replay(mod, scn, other, timeout=30); nrep[0] += 1
                if r2['outcome'] in ('violation', 'hang'): r = r2; inputs = other; break
        if r['outcome'] not in ('violation', 'hang'):
            unrepro.append((scn['name'], msg, inputs, r, tb)); return False
        k = r.get('key') or key
        for q in kn:
            if q.get('key') is not None and k == q['key']: knownhit[q['key']] = q; return False
        path = os.path.join(evdir, 'replay-%s-%d.json' % (cid, len(confirmed)))
        with open(path, 'w') as f:
            json.dump(dict(property=cid, check=mod, scenario=scn, inputs=inputs, symbolic_message=msg, real=r, events=log), f, indent=1, default=str)
        confirmed.append((scn['name'], msg, r, path)); return True
    R = X.explore(mod, scns, budget, seed, on_violation=judge, jobs=int(os.environ.get('SYMX_JOBS', '8')))
    # paths the engine could not decide: their path-condition witness is at least run on the real code
    for si, msg, inp in R['undecided_cases'][:20]:
        if inp is not None and not confirmed:
            r = replay(mod, scns[si], inp, timeout=30)
            if r['outcome'] in ('violation', 'hang'): judge((si, msg, None, inp, None, []))
    # agreement of passing paths with the real code
    validated = 0; mism = []; samples = []
    todo = R['samples'][:24 if tier == 'thorough' else 12]
    if not confirmed:
        with cf.ThreadPoolExecutor(8) as ex:
            for s, r in zip(todo, ex.map(lambda s: replay(mod, scns[s[1]], s[2], timeout=60), todo)):
                ok = r['outcome'] == 'ok' and r['obs'] == s[3]
                if ok: validated += 1
                elif r['outcome'] in ('violation', 'hang'):
                    judge((s[1], r.get('msg') or 'real run violates', r.get('key'), s[2], None, []))
                else: mism.append((scns[s[1]]['name'], s[2], s[3], r))
                if len(samples) < 6: samples.append(dict(scenario=scns[s[1]]['name'], inputs=s[2], observed=s[3][:6], checks=s[4], real_run_agrees=ok))
    goals = set()
    for s in scns:
        for g in s.get('covers', []): goals.add((s['name'], g))
    missing = sorted(goals - R['covers']) if R['complete'] else []
    T = R['total']
    fns = sorted(k for k in R['functions'] if k.startswith('bversion'))
    ev = dict(property=cid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(confirmed),
        coverage=dict(states=T['paths'], transitions=T['branches'], traces_validated_against_impl=validated, traces_observed_otherwise=len(mism), samples=samples or [dict(note='stopped at a violation')],
            exhaustive=bool(R['complete'] and not R['undecided']), paths_ok=R['fin']['ok'], paths_infeasible=R['fin']['abort'], paths_violating=R['fin']['violation'],
            paths_undecided=R['fin']['undecided'], assertions_checked=T['checks'], two_sided_branches=T['forks'], implied_branches=T['implied'],
            queries_discharged=T['queries'], solver_s=round(T['solver_s'], 2), solver='z3', counterexamples_replayed=nrep[0], unreproduced=len(unrepro),
            functions_encoded=fns, bounds=getattr(m, 'BOUNDS', {}).get(tier, getattr(m, 'BOUNDS', {})) if isinstance(getattr(m, 'BOUNDS', None), dict) else getattr(m, 'BOUNDS', ''),
            outside_the_bounds=getattr(m, 'OUTSIDE', ''), per_scenario=R['per'], cover_goals_reached=sorted('%s: %s' % c for c in R['covers']), cover_goals_missed=['%s: %s' % c for c in missing],
            undecided={'%s: %s' % k: n for k, n in R['undecided'].items()}, stopped_early=R['stopped'],
            rule='one state = one path of the harness through the rewritten source of /repo; one transition = one branch decided by z3'),
        assumptions=COMMON + getattr(m, 'ASSUMES', []))
    with open(os.path.join(evdir, cid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths (%d ok, %d infeasible, %d violating, %d undecided), %d checks, %d branches, %d queries, solver %.1fs, wall %.1fs, %d real runs agree, complete=%s' % (
        cid, tier, T['paths'], R['fin']['ok'], R['fin']['abort'], R['fin']['violation'], R['fin']['undecided'], T['checks'], T['branches'], T['queries'], T['solver_s'], time.time() - t0, validated, R['complete']))
    if verbose:
        for k, d in sorted(R['per'].items()): print('   ', k, d)
    for k, q in sorted(knownhit.items()): print('KNOWN-FINDING: property=%s %s' % (cid, q['what']))
    for k, n in list(R['undecided'].items())[:10]: print('UNDECIDED', k, n)
    if confirmed:
        for name, msg, r, path in confirmed[:3]:
            print('  %s: %s' % (name, r.get('msg') or msg))
            print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    rc = 0
    for name, msg, inp, r, tb in unrepro[:5]:
        print('NOT REPRODUCED: %s: %s\n   inputs %s\n   real: %s' % (name, msg, json.dumps(inp)[:1500], json.dumps(r)[:1500])); rc = 2
        if tb and verbose: print(tb)
    # a real run in which the property held as well, but which observed something else: the two differ in something the property does not speak of
    bad = [x for x in mism if x[3]['outcome'] not in ('ok', 'abort')] or (mism if len(mism) > len(todo) // 2 else [])
    for name, inp, ob, r in mism[:3]:
        print('%s: %s\n   inputs %s\n   symbolic %s\n   real %s' % ('DISAGREES WITH THE REAL CODE' if bad else 'NOTE: observed otherwise in the real run', name, json.dumps(inp)[:1500], json.dumps(ob)[:1500], json.dumps(r)[:2500]))
    if bad: rc = 2
    if missing: print('COVER GOALS MISSED:', missing); rc = 2
    if R['crashed']: print('WORKER DIED'); rc = 2
    if R['fin']['ok'] == 0 and not knownhit: print('nothing explored'); rc = 2
    if not R['complete'] and not rc: print('NOTE: stopped before every path was explored (time budget)')
    return rc

COMMON = ['process crashes only: every completed system call persists (no power loss), and writes reach the file at once',
          'sha256, signatures, password hashing and sealed boxes are ideal (injective / unforgeable); random bytes are fresh',
          'opaque file contents differ from every literal of the harness; contents of equal id are equal, of different id different',
          'clocks advance at every write, so two different edits never carry the same modification time']

if __name__ == '__main__': main()
