"""C35: merging a user configuration into the defaults."""
BOUNDS = {'quick': 'two sections to depth 3: every key present or absent on each side, as a section or a value, under symbolic (possibly equal) key names',
          'thorough': 'the same with three keys per level'}
ASSUMES = []

def plan(tier):
    return [dict(name='shape', fn='merge', params=dict(w=2, d=2), covers=['merged', 'nested']),
            dict(name='names', fn='names', params=dict(), covers=['merged'])] + \
           ([dict(name='shape-3', fn='merge', params=dict(w=2, d=3), covers=['merged', 'nested'])] if tier != 'quick' else [])

def build(h, side, w, d, path):
    out = {}
    for i in range(w):
        k = 'k%d' % i
        t = h.pick('%s%s.%d' % (side, path, i), ['absent', 'value', 'none', 'section'] if d > 1 and i == 0 else ['absent', 'value', 'section'] if d > 1 else ['absent', 'value', 'none'])
        if t == 'value': out[k] = side + path + k if i else h.int('val' + side + path, 0, 3)
        elif t == 'none': out[k] = None
        elif t == 'section': out[k] = build(h, side, w if d > 2 or i == 0 else 1, d - 1, path + k)
    return out

def expect(h, dflt, user):
    out = {}
    for k in dflt:
        if k not in user: out[k] = dflt[k]
    for k in user:
        if k in dflt and isinstance(dflt[k], dict) and isinstance(user[k], dict):
            out[k] = expect(h, dflt[k], user[k]); h.cover('nested')
        else: out[k] = user[k]
    return out

def copy(x): return {k: copy(v) for k, v in x.items()} if isinstance(x, dict) else x

def run(h, dflt, user):
    P = h.proc('p')
    c = P.mod('bversion.common')
    want = expect(h, dflt, user)
    r = P.attempt(c.merge_config, copy(dflt), copy(user))
    h.check(r.ok, 'merging failed: ' + r.text())
    h.obs('merged', r.value)
    h.check(r.value == want, 'the merged configuration is not the user values over the defaults')
    h.cover('merged')

def merge(h, w, d):
    run(h, build(h, 'd', w, d, ''), build(h, 'u', w, d, ''))

def names(h):
    """Symbolic key names: whether keys coincide is for the solver to decide."""
    A = ((97, 122),)
    n = [h.text('n%d' % i, range(1, 3), A) for i in range(4)]
    h.assume(n[0] != n[1] and n[2] != n[3])
    dflt = {n[0]: {n[1]: 'd1', 'x': 'd2'}, n[1]: 'd3'}
    user = {n[2]: {n[3]: 'u1'}, n[3]: {'x': 'u2'}}
    run(h, dflt, user)
