"""C41: whatever one connection sends harms nobody else."""
import json
import checks.lib as lib
BOUNDS = {'quick': 'one request of every kind (and of an unknown kind) on a connection that holds the write lock, holds it with a staged file, or does not: any one of its headers left out or replaced by an '
                   'empty, non-numeric, negative, huge or foreign value or by one or two symbolic characters, or none of this; its body replaced by one of fourteen malformed ones; by an authenticated or unauthenticated sender; next to '
                   'another connection with a commit in progress, or without one; then both go on',
          'thorough': 'two requests of that kind one after the other'}
OUTSIDE = ['bytes that are not HTTP (C21, C22)', 'requests of unlimited size']
BUDGET = {'quick': 300, 'thorough': 850}
U = {'u': {'public_key': lib.PUB, 'uses_repositories': ['repo']}, 'v': {'public_key': lib.PUB1, 'uses_repositories': ['repo']}}
BODIES = [b'', b'{', b'null', b'[]', b'5', b'"x"', b'{}', b'{"files": 5}', b'{"files": "5"}', b'{"files": "[5]"}', b'{"files": "[{\\"path\\": \\"/a\\"}, {\\"path\\": []}]"}',
          b'{"files": "[{\\"path\\": \\"/a\\"}, {}]"}', b'{"client_changes": "[]"}', b'\xff\xfe']
VALUES = ['', 'x', '-1', '7' * 30, '../x', 'root', 'u', 'repo']

def plan(tier):
    q = tier == 'quick'
    n = 1 if q else 2
    return [dict(name='good', fn='bad', params=dict(what='none', n=n), covers=['refused', 'served', 'going-on']),
            dict(name='headers', fn='bad', params=dict(what='header', n=n), covers=['refused', 'broken', 'served', 'going-on']),
            dict(name='symbolic', fn='bad', params=dict(what='symbolic', n=1), covers=['refused', 'broken', 'going-on']),
            dict(name='bodies', fn='bad', params=dict(what='body', n=n), covers=['refused', 'broken', 'going-on'])]

def requests(v2):
    return {'begin_auth': {}, 'authenticate': {'client_version': '3', 'user': 'u', 'auth_token': 'A' * 44, 'signature': 'AAAA'},
            'find_changed': {'previous_revision': 'root', 'include_unchanged': '0'}, 'pull_file': {'use_head': '1', 'version_id': v2, 'path': '/a'}, 'list_versions': {},
            'list_changes': {'show_head': '0', 'version_id': v2}, 'list_files': {'show_head': '0', 'version_id': v2}, 'begin_commit': {'previous_revision': v2, 'user': 'u'},
            'push_file': {'path': '/p'}, 'delete_files': {}, 'commit': {'commit_message': 'm', 'mode': 'commit'}, 'nothing': {}, '': {}}

def objects(h, s): return {q: d for q, d in h.tree(s.path(), ('/server_transient.db', '/lock', '/tmp_file')).items()}

def bad(h, what, n):
    s = lib.Server(h, users=U)
    base = {'/a': h.lit(1), '/d/x': h.lit(2)}
    s.version(base)
    base = dict(base, **{'/b': h.lit(3)})
    v2 = s.version({'/b': h.lit(3)})
    s.start()
    y = s.connect('10.0.0.2'); ty = s.session(y, user='v', key=lib.PRIV1)
    other = lib.Conn(s, '10.0.0.3'); to = s.session(other, user='v', key=lib.PRIV1)
    state = h.pick('state', ['free', 'mine', 'mine-staged', 'theirs'])
    x = s.connect('10.0.0.1'); tx = s.session(x)
    R = {'session_token': None, 'repository': 'repo'}
    staged = {}
    def ok(k, op, t, data=b'{}', **hd):
        r = k.call(op, dict(hd, session_token=t, repository='repo'), data)
        return r if r[0]['status'] == 'ok' else None
    if state == 'theirs':
        h.check(ok(y, 'begin_commit', ty, previous_revision=v2, user='v') is not None, 'a commit cannot be begun')
        h.check(ok(y, 'push_file', ty, h.lit(9), path='/y') is not None, 'an upload is refused')
    if state.startswith('mine'):
        h.check(ok(x, 'begin_commit', tx, previous_revision=v2, user='u') is not None, 'a commit cannot be begun')
        if state == 'mine-staged':
            h.check(ok(x, 'push_file', tx, h.lit(8), path='/s') is not None, 'an upload is refused'); staged = {'/s': h.lit(8)}
    before = objects(h, s)
    for i in range(n):
        rq = requests(v2)
        op = h.pick('op', sorted(rq))
        hd = dict(rq[op], session_token=tx if h.flag('authenticated') else 'B' * 44, repository='repo')
        data = b'{"files": "[]", "client_changes": "{}"}'
        if what == 'none': h.assume(op not in ('nothing', ''))
        elif what == 'body': data = h.pick('body', BODIES)
        else:
            k = h.pick('header', sorted(hd))
            if what == 'symbolic': hd[k] = h.text('value', [1, 2], ((0x20, 0x7e), (0xe9, 0xe9)))
            else:
                v = h.pick('value', [None] + VALUES)
                if v is None: hd.pop(k)
                else: hd[k] = v
        r = None
        try:
            r = x.call(op, hd, data)
            h.cover('served' if r[0]['status'] == 'ok' else 'refused')
        except lib.Closed: h.cover('broken')
        if what == 'none': h.check(r is not None, 'a well-formed request ends the connection')
        good = r is not None and r[0]['status'] == 'ok'
        if not (good and op in ('push_file', 'commit', 'begin_commit')):
            # a refused request changes nothing
            h.check(s.head() == v2 and lib.same({q: d for q, d in objects(h, s).items()}, before), 'a malformed request changes the repository')
        if not x.open: break
        if good: break
    h.check(s.P is not None and not s.P.dead, 'the server dies of a request')
    # nobody else is harmed
    cur = s.head()
    try: r = ok(other, 'list_files', to, show_head='1', version_id='')
    except lib.Closed: r = None
    h.check(r is not None and json.loads(r[1])['files'].keys() == s.files().keys(), 'another connection is not served any more')
    if state == 'theirs':
        h.check(cur == v2, 'a request of another connection changes the head during a commit')
        try: r = ok(y, 'commit', ty, commit_message='m', mode='commit')
        except lib.Closed: r = None
        h.check(r is not None, 'a commit fails because of what another connection sent')
        h.check(lib.same(s.files(), dict(base, **{'/y': h.lit(9)})), 'a commit does not publish what was staged because of what another connection sent')
    else:
        if x.open and state.startswith('mine') and not good:
            # what was staged is as it was, the commit can go on
            try: r = ok(x, 'commit', tx, commit_message='m', mode='commit')
            except lib.Closed: r = None
            h.check(r is not None, 'a commit cannot go on after a refused request')
            h.check(lib.same(s.files(), dict(base, **staged)), 'a refused request changes what is published')
            cur = s.head()
        x.close()
        try: r = ok(y, 'begin_commit', ty, previous_revision=s.head(), user='v')
        except lib.Closed: r = None
        h.check(r is not None, 'nobody can commit any more after a malformed request')
        now = s.files()
        h.check(ok(y, 'push_file', ty, h.lit(9), path='/y') is not None and ok(y, 'commit', ty, commit_message='m', mode='commit') is not None, 'nobody can commit any more after a malformed request')
        h.check(lib.same(s.files(), dict(now, **{'/y': h.lit(9)})), 'a malformed request of one connection shows in the commit of another')
    h.cover('going-on')
