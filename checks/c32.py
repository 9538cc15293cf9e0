"""C32: joined paths stay below their base directory and keep every name; directory listings name every file once."""
BOUNDS = {'quick': 'join: base of 1-2 components and 1-2 further pieces of up to 4 / 3 characters, characters over all of Unicode except NUL and surrogates; '
                   'listing: 1-2 files in trees of depth up to 2 with names of up to 2 arbitrary characters, and a file in a tree of depth 3 with the names which the system itself or other tools treat specially',
          'thorough': 'join: up to 2 pieces of 5 / 4 characters and 3 of 2; listing: up to 3 files, names of up to 2 characters'}
ANY = ((1, 0xd7ff), (0xe000, 0x10ffff))

def plan(tier):
    n = 3 if tier == 'quick' else 4
    out = [dict(name='one-piece', fn='join', params=dict(k=1, n=n + 1), covers=['joined']),
           dict(name='two-pieces', fn='join', params=dict(k=2, n=n), covers=['joined']),
           dict(name='listing', fn='listing', params=dict(k=2), covers=['listed']),
           dict(name='names', fn='names', params=dict(depth=2 if tier == 'quick' else 3), covers=['listed'])]
    if tier != 'quick':
        out += [dict(name='three-pieces', fn='join', params=dict(k=3, n=2), covers=['joined']),
                dict(name='listing-3', fn='listing', params=dict(k=3), covers=['listed'])]
    return out

def join(h, k, n):
    P = h.proc('p')
    cpjoin = P.mod('bversion.common').cpjoin
    base = h.pick('base', ['/srv/data', '/srv/data/', 'rel'])
    args = [h.text('arg%d' % i, range(1, n + 1), ANY) for i in range(k)]
    r = P.attempt(cpjoin, base, *args)
    h.check(r.ok, 'cpjoin failed: ' + r.text())
    got = r.value
    h.obs('joined', got)
    want = base.rstrip('/')
    for a in args:
        for c in a.split('/'):
            if c != '': want = want + '/' + c
    if args[-1].endswith('/'): want = want + '/'
    h.check(got == want, 'the joined path is not the base followed by every named component of the pieces, in order')
    h.cover('joined')

def listing(h, k):
    P = h.proc('p')
    common = P.mod('bversion.common')
    base = h.p('/tree')
    h.mkdirs(base)
    want = []
    dirs = []
    for i in range(k):
        comps = []
        for j in range(h.choose('depth%d' % i, 2) + 1):
            n = h.text('n%d.%d' % (i, j), range(1, 3), ((1, 46), (48, 126)))
            h.assume(n != '.' and n != '..')
            comps.append(n)
        rel = ''
        for c in comps[:-1]:
            rel = rel + '/' + c
            h.assume(rel not in want)
            if rel not in dirs: dirs.append(rel)
        rel = rel + '/' + comps[-1]
        h.assume(rel not in dirs and rel not in want)
        want.append(rel)
        h.write(base + rel, b'x')
    r = P.attempt(common.get_file_list, base)
    h.check(r.ok, 'listing failed: ' + r.text())
    got = [f['path'] for f in r.value]
    h.obs('listed', sorted(got))
    h.check(len(got) == len(want), 'a file is listed twice or not at all')
    for q in want: h.check(q in got, 'a file is missing from the listing')
    h.cover('listed')

SPECIAL = ['a', '.bvn', '.git', '.hidden', '...', 'x~', 'lock_file', '.bvn_ignore', '.bvn_pull_ignore', 'manifest.db', 'tmp', '*', '[a]', ' ', '-', 'core', 'x.tmp', 'x.part', 'Thumbs.db', '__pycache__', '\u00e9', 'a' * 200]
def names(h, depth):
    """Names which something might treat specially, for files and for directories at any level."""
    P = h.proc('p')
    common = P.mod('bversion.common')
    base = h.p('/tree')
    h.write(base + '/z/z', b'z')
    rel = ''
    for i in range(depth): rel += '/' + h.pick('dir', SPECIAL)
    rel += '/' + h.pick('file', SPECIAL) if depth < 3 else '/f'
    h.write(base + rel, b'x')
    h.mkdirs(base + '/empty/dir')
    r = P.attempt(common.get_file_list, base)
    h.check(r.ok, 'listing failed: ' + r.text())
    h.check(sorted(f['path'] for f in r.value) == sorted(['/z/z', rel]), 'a file is listed twice or not at all')
    h.cover('listed')
