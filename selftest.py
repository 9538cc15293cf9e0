"""setup_cmd: the tools the checks need are here, the engine agrees with CPython on a battery of operations, a replay runs."""
import os, sys
def main():
    import z3
    from symx import explore as X
    import importlib.util
    here = os.path.dirname(os.path.abspath(__file__))
    spec = importlib.util.spec_from_file_location('meta_selftest', here + '/checks/selftest.py')
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    scns = m.plan('quick')
    bad = []
    def on_v(v): bad.append(v); return True
    R = X.explore('selftest', scns, 120, 1, on_violation=on_v, jobs=8)
    n = 0
    for s in R['samples'][:8]:
        r = X.replay('selftest', scns[s[1]], s[2], timeout=60)
        if r['outcome'] != 'ok' or r['obs'] != s[3]: bad.append((s, r))
        else: n += 1
    print('z3', z3.get_version_string(), '-', R['total']['paths'], 'paths,', n, 'real runs agree')
    for b in bad[:3]: print('SELFTEST FAILED', b)
    return 2 if bad or n == 0 else 0
