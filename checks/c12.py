"""C12: an interrupted update can simply be run again."""
import checks.lib as lib, checks.wc as wc
BOUNDS = {'quick': 'an update that replaces, adds and deletes files, turns a directory into a file and a file into a directory, with local changes next to it, dying before any file system or '
                   'database step of the client or half way through any write; the same with conflicts resolved to the server, to the client or by a resolution file (one each way); '
                   'then run again; two interruptions of the first kind of update',
          'thorough': 'two interruptions of every kind of update'}
BUDGET = {'quick': 300, 'thorough': 850}
BASE = {'/a': 1, '/b': 2, '/d/x': 3, '/f': 4, '/k': 5, '/l': 6}

def plan(tier):
    t = 1 if tier == 'quick' else 2      # the plain update twice in any case
    return [dict(name='plain', fn='run', params=dict(how='plain', times=2), covers=['died', 'done', 'undone']),
            dict(name='server', fn='run', params=dict(how='server', times=t), covers=['died', 'done', 'undone']),
            dict(name='client', fn='run', params=dict(how='client', times=t), covers=['died', 'done', 'undone']),
            dict(name='file', fn='run', params=dict(how='file', times=t), covers=['died', 'done', 'undone'])]

def resolution(choices):
    out = 'Please write either "client" or "server" after each resolution block \n\n'
    for q, c in choices.items(): out += '------------\nPath:  %s\nClient Changed server Changed\nResolution: %s\n\n' % (q, c)
    return out.encode()

def run(h, how, times):
    base = {q: h.lit(i) for q, i in BASE.items()}
    if how != 'plain': base['/c1'] = h.lit(7); base['/c2'] = h.lit(8); base['/c3'] = h.lit(9)
    w = wc.Copy(h, base)
    w.write('/k', h.lit(20)); w.rm('/l'); w.write('/u', h.lit(21))
    put = {'/a': h.lit(30), '/n': h.lit(31)}; rm = ['/b']
    if how == 'plain': put.update({'/d': h.lit(32), '/f/y': h.lit(33)}); rm += ['/d/x', '/f']
    else:
        w.write('/c1', h.lit(22)); w.write('/c2', h.lit(23)); w.rm('/c3')
        put.update({'/c1': h.lit(34), '/c3': h.lit(35)}); rm.append('/c2')
    w.server(put, rm)
    conf = w.conflicts()
    ch = {'/c1': 'server', '/c2': 'server', '/c3': 'client'} if how == 'file' else {q: how for q in conf}
    to_server = [q for q in conf if ch[q] == 'server']
    if how == 'file': h.write(w.c.wc + '/.bvn/conflict_resolution', resolution(ch))
    inputs = [how] if how in ('server', 'client') else []
    work = {q: w.local[q] for q in w.touched if q in w.local and q not in to_server}
    dead = True
    for t in range(times):
        if not dead: break
        c = w.c
        c.process()
        h.world.argv[:] = ['bvn', 'update']; h.world.inputs[:] = list(inputs)
        h.arm(c.P)
        r = c.P.attempt(c.c.run)
        dead = h.crashed(c.P); h.disarm(); c.end()
        if not dead: h.check(r.ok, 'the update fails: ' + r.text())
        else:
            h.cover('died')
            now = c.files()
            h.check(all(q in now and now[q] == work[q] for q in work), 'an interrupted update lost local work')
            # a user who looks first sees only what the user changed
            st = c.local_changes()
            h.check(all(q in w.touched for q in st), 'after an interrupted update a file is reported as changed that the user did not touch')
    if dead:
        left = list(inputs) * 2
        r = w.c.update(inputs=left)
        h.check(r.ok, 'an interrupted update cannot be run again: ' + r.text())
    files = w.c.files(); man, rev = w.c.manifest()
    want = w.merged(to_server)
    h.check(lib.same(files, want), 'after an interrupted update was run again the files are not those of an uninterrupted one')
    h.check(rev == w.v2, 'after an interrupted update was run again the version is not recorded as held')
    h.check(w.c.local_changes() == w.status(to_server), 'after an interrupted update was run again the status is wrong')
    for q in man:
        if q not in w.touched or q in to_server: h.check(q in want and man[q]['server_file_hash'] == h.sha(want[q]), 'the manifest records a wrong hash')
    # what is left can be committed
    r = w.c.commit()
    h.check(r.ok and lib.same(w.s.files(), want), 'after an interrupted update was run again a commit does not publish the working copy')
    h.cover('done' if dead else 'undone')
