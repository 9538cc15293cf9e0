"""C06: an abandoned commit leaves no trace and takes nothing with it."""
import checks.lib as lib
BOUNDS = {'quick': 'two earlier versions; an open commit with up to two uploads of symbolic contents (possibly equal to each other or to stored ones) and a deletion, given up by an '
                   'abort, by another user\'s commit, by a commit from a stale revision, or after the server died at any of its steps (finishing included); '
                   'rollback itself interrupted at any step and repeated',
          'thorough': 'three uploads; two interruptions of the rollback'}
BUDGET = {'quick': 300, 'thorough': 850}
U = {'u1': {'public_key': lib.PUB1, 'uses_repositories': ['repo']}, 'u2': {'public_key': lib.PUB2, 'uses_repositories': ['repo']}}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='given-up', fn='given_up', params=dict(n=2 if q else 3), covers=['shared', 'new']),
            dict(name='died', fn='died', params=dict(n=1 if q else 2), covers=['finishing', 'completed']),
            dict(name='rollback-died', fn='rollback_died', params=dict(crashes=1 if q else 2), covers=['died'])]

def objects(h, s):
    t = h.tree(s.path())
    return {p: c for p, c in t.items() if p.startswith('/index/') or p.startswith('/files/')}

def setup(h, sym):
    s = lib.Server(h, users=U)
    v1 = s.version({'/a': h.content('c1', 4) if sym else h.lit(1), '/d/b': h.lit(2)})
    v2 = s.version({'/a': h.content('c2', 4) if sym else h.lit(3)}, delete=[])
    s.start()
    keep = dict(v1=v1, v2=v2, f1=s.files(v1), f2=s.files(v2), objects=objects(h, s))
    return s, keep

def call(k, op, t, data=b'', **hd):
    try: return k.call(op, dict(hd, session_token=t, repository='repo'), data)[0]['status']
    except lib.Closed: return 'closed'

def fill(h, s, k, t, n, sym, finish=False):
    st = [call(k, 'begin_commit', t, user='u1', previous_revision=s.keep['v2'])]
    for i in range(n):
        c = h.content('p%d' % i, 4) if sym else [h.lit(5), h.lit(1), h.alike(h.lit(2), 1)][i]
        st.append(call(k, 'push_file', t, c, path=['/n/new', '/a', '/a/b'][i]))
    st.append(call(k, 'push_file', t, h.alike(h.lit(2)), path='/n/near'))     # shares a directory of the store with a content stored before
    st.append(call(k, 'delete_files', t, b'{"files": "[{\\"path\\": \\"/d/b\\"}]"}'))
    if finish: st.append(call(k, 'commit', t, commit_message='m', mode='commit'))
    return st

def clean(h, s, begun=None):
    """No trace of the commit, everything else in place, and a new commit works."""
    keep = s.keep
    now = objects(h, s)
    for p in keep['objects']: h.check(p in now and now[p] == keep['objects'][p], 'a rollback removed something that was stored before')
    h.check(len(now) == len(keep['objects']), 'an abandoned commit leaves objects behind')
    h.check(s.head() == keep['v2'], 'a rollback moved the head')
    h.check(lib.same(s.files(keep['v1']), keep['f1']) and lib.same(s.files(keep['v2']), keep['f2']), 'a rollback changed a version')

def again(h, s, k2, t2, begin=True):
    if begin: h.check(call(k2, 'begin_commit', t2, user='u2', previous_revision=s.keep['v2']) == 'ok', 'no commit can be opened after a rollback')
    # what the abandoned commit uploaded can be uploaded again
    h.check(call(k2, 'push_file', t2, h.lit(5), path='/n/new') == 'ok', 'no upload after a rollback')
    h.check(call(k2, 'commit', t2, commit_message='m', mode='commit') == 'ok', 'no commit after a rollback')
    h.check(lib.same(s.files(), dict(s.keep['f2'], **{'/n/new': h.lit(5)})), 'the commit after a rollback is not what was staged')

def given_up(h, n):
    s, s.keep = setup(h, True)
    k = s.connect(); t = s.session(k, user='u1', key=lib.PRIV1)
    k2 = s.connect('10.0.0.2'); t2 = s.session(k2, user='u2', key=lib.PRIV2)
    h.check(all(x == 'ok' for x in fill(h, s, k, t, n, True)), 'a commit cannot be filled')
    h.cover('new' if len(objects(h, s)) > len(s.keep['objects']) + 1 else 'shared')
    how = h.pick('how', ['abort', 'other', 'stale', 'restart'])
    if how == 'abort': h.check(call(k, 'commit', t, commit_message='', mode='abort') == 'ok', 'a commit cannot be aborted')
    else:
        k.close()
        if how == 'restart': s.start(); k2 = s.connect('10.0.0.2')
        r = call(k2, 'begin_commit', t2, user='u2', previous_revision=s.keep['v1'] if how == 'stale' else s.keep['v2'])
        h.check((r == 'ok') == (how != 'stale'), 'begin after an abandoned commit')
    clean(h, s)
    again(h, s, k2, t2, how in ('abort', 'stale'))

def died(h, n):
    """The server dies anywhere in the commit; another user's commit then gives it up."""
    s, s.keep = setup(h, False)
    k = s.connect(); t = s.session(k, user='u1', key=lib.PRIV1)
    k2 = s.connect('10.0.0.2'); t2 = s.session(k2, user='u2', key=lib.PRIV2)
    h.arm(s.P)
    st = fill(h, s, k, t, n, False, finish=True)
    dead = h.crashed(s.P)
    h.disarm()
    h.assume(dead)
    if len(st) and st[-1] == 'closed' and st[-2] == 'ok': h.cover('finishing')
    s.start(); k2 = s.connect('10.0.0.2')
    if s.head() != s.keep['v2']:
        h.cover('completed')
        h.check(call(k2, 'begin_commit', t2, user='u2', previous_revision=s.head()) == 'ok', 'no commit can be opened')
        s.files(); h.check(lib.same(s.files(s.keep['v2']), s.keep['f2']), 'a version changed')
        return
    h.check(call(k2, 'begin_commit', t2, user='u2', previous_revision=s.keep['v2']) == 'ok', 'no commit can be opened after a crash')
    clean(h, s)
    again(h, s, k2, t2, False)

def rollback_died(h, crashes):
    s, s.keep = setup(h, False)
    k = s.connect(); t = s.session(k, user='u1', key=lib.PRIV1)
    k2 = s.connect('10.0.0.2'); t2 = s.session(k2, user='u2', key=lib.PRIV2)
    h.check(all(x == 'ok' for x in fill(h, s, k, t, 3, False)), 'a commit cannot be filled')
    stale = h.flag('stale')
    k.close()
    for i in range(crashes):
        h.arm(s.P, 'rollback_crash')
        call(k2, 'begin_commit', t2, user='u2', previous_revision=s.keep['v1'] if stale else s.keep['v2'])
        dead = h.crashed(s.P)
        h.disarm()
        if not dead: break
        h.cover('died')
        s.start(); k2 = s.connect('10.0.0.2')
        h.check(s.head() == s.keep['v2'] and lib.same(s.files(s.keep['v1']), s.keep['f1']) and lib.same(s.files(s.keep['v2']), s.keep['f2']), 'an interrupted rollback changed a version')
    k2.close(); k2 = s.connect('10.0.0.2')
    h.check(call(k2, 'begin_commit', t2, user='u2', previous_revision=s.keep['v2']) == 'ok', 'no commit can be opened after an interrupted rollback')
    clean(h, s)
    again(h, s, k2, t2, False)
