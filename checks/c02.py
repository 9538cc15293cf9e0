"""C02: local change detection."""
BOUNDS = {'quick': 'two paths with symbolic names (1-2 arbitrary characters), each recorded or not, present or not, all modification times symbolic '
                   '(multiples of 2**-22 s up to 2e9 s); manifest round trip of two records with symbolic names and times',
          'thorough': 'three paths'}

def plan(tier):
    n = 2 if tier == 'quick' else 3
    return [dict(name='compare', fn='compare', params=dict(k=n), covers=['new', 'changed', 'deleted', 'unchanged']),
            dict(name='record', fn='record', params=dict(), covers=['read']),
            dict(name='scan', fn='scan', params=dict(k=n), covers=['new', 'changed', 'deleted'])]

NAME = ((1, 46), (48, 0xd7ff), (0xe000, 0x10ffff))
DEN = 2 ** 22
HI = 2 * 10 ** 9

def compare(h, k):
    P = h.proc('p')
    f = P.mod('bversion.common').find_manifest_changes
    old = {}; new = []; names = []; want = []
    unch = h.flag('include_unchanged')
    for i in range(k):
        p = '/' + h.text('p%d' % i, [1, 2] if k < 3 else 1, NAME)
        for q in names: h.assume(p != q)
        names.append(p)
        t = h.pick('where%d' % i, ['both', 'old', 'new'])
        a = h.real('told%d' % i, 0, HI, DEN); b = h.real('tnew%d' % i, 0, HI, DEN)
        if t != 'new': old[p] = {'path': p, 'last_mod': a, 'created': a, 'server_file_hash': 'h%d' % i}
        if t != 'old': new.append({'path': p, 'last_mod': b, 'created': b})
        want.append('deleted' if t == 'old' else 'new' if t == 'new' else 'changed' if a != b else 'unchanged' if unch else None)
    snap = [[k2, v['path'], v['last_mod'], len(v)] for k2, v in old.items()]
    r = P.attempt(f, new, old, unch)
    h.check(r.ok, 'comparison failed: ' + r.text())
    got = r.value
    h.obs('changes', {k2: v['status'] for k2, v in got.items()})
    n = 0
    for i in range(k):
        w = want[i]
        g = got[names[i]] if names[i] in got else None
        if g is not None: n += 1
        h.check((g is None) == (w is None), 'a %s file is %s' % (w, 'not reported' if g is None else 'reported as ' + g['status']))
        if g is not None:
            h.check(g['status'] == w, 'a %s file is reported as %s' % (w, g['status']))
            h.check(g['path'] == names[i], 'an entry carries another path')
            h.cover(w)
    h.check(len(got) == n, 'entries for unknown paths')
    h.check(snap == [[k2, v['path'], v['last_mod'], len(v)] for k2, v in old.items()], 'the comparison altered the manifest it was given')

def record(h):
    P = h.proc('p')
    h.mkdirs(h.p('/wc'))
    cdb = P.mod('bversion.storage.client_db')
    db = P.run(cdb.client_db, h.p('/wc/manifest.db'))
    if h.flag('alike'): p, q = h.pick('names', [('/a', '/A'), ('/a', '/a '), ('/\u00e9', '/e\u0301'), ('/%', '/_'), ('/1', '/1.0'), ('/x/a', '/x'), ("/'", '/"')])
    else: p = '/' + h.text('p', [1, 2], NAME); q = '/' + h.text('q', [1, 2], NAME)
    h.assume(p != q)
    ts = [h.real('t%d' % i, 0, HI, DEN) for i in range(4)]
    h.assume(ts[0] != ts[2])
    def rec(path, i, hsh): P.run(db.add_file_to_manifest, {'path': path, 'last_mod': ts[i], 'created': ts[i + 1], 'server_file_hash': hsh})
    again = h.flag('again')
    rec(p, 0, 'h0')
    rec(q, 1, 'h1')
    if again: rec(p, 2, 'h2')
    P.run(db.commit)
    P.end()
    P2 = h.proc('p2')
    db2 = P2.run(P2.mod('bversion.storage.client_db').client_db, h.p('/wc/manifest.db'))
    m = P2.run(db2.get_manifest)
    h.obs('manifest', m)
    h.check(len(m) == 2, 'the manifest does not hold one entry per path')
    h.check(p in m and q in m, 'a recorded path is not in the manifest')
    i = 2 if again else 0
    h.check(m[p]['path'] == p and m[q]['path'] == q, 'a path changed in the manifest')
    h.check(m[p]['last_mod'] == ts[i] and m[q]['last_mod'] == ts[1], 'a modification time changed in the manifest')
    h.check(m[p]['server_file_hash'] == ('h2' if again else 'h0') and m[q]['server_file_hash'] == 'h1', 'a hash changed in the manifest')
    one = P2.run(db2.get_single_file_from_manifest, p)
    h.check(one is not None and one['last_mod'] == ts[i], 'the single entry differs from the manifest')
    P2.run(db2.remove_file_from_manifest, p)
    m = P2.run(db2.get_manifest)
    h.check(len(m) == 1 and q in m and p not in m, 'removing one path removed something else')
    h.cover('read')

def scan(h, k):
    """Detection over a directory: what get_file_list and the manifest database give to the comparison."""
    P = h.proc('p')
    c = P.mod('bversion.common')
    h.mkdirs(h.p('/wc/d'))
    names = ['/a', '/d/b', '/d c'][:k]
    old = {}; want = []
    for i in range(k):
        t = h.pick('where%d' % i, ['both', 'old', 'new'])
        a = h.real('told%d' % i, 0, HI, DEN); b = h.real('tnew%d' % i, 0, HI, DEN)
        if t != 'new': old[names[i]] = {'path': names[i], 'last_mod': a, 'created': a, 'server_file_hash': 'x'}
        if t != 'old': h.write(h.p('/wc') + names[i], b'data', mtime=b)
        want.append('deleted' if t == 'old' else 'new' if t == 'new' else 'changed' if a != b else None)
    r = P.attempt(lambda: c.find_manifest_changes(c.get_file_list(h.p('/wc')), old))
    h.check(r.ok, 'scan failed: ' + r.text())
    got = {q: v['status'] for q, v in r.value.items()}
    h.obs('changes', got)
    for i in range(k):
        h.check(got.get(names[i], None) == want[i], '%s: reported %s instead of %s' % (names[i], got.get(names[i], None), want[i]))
        if want[i]: h.cover(want[i])
    h.check(len(got) == len([w for w in want if w]), 'entries for unknown paths')
