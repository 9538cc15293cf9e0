"""C39: the repositories of one server are independent of each other."""
import json
import checks.lib as lib
BOUNDS = {'quick': 'two repositories whose names (and directories) begin with each other, either way round, sharing a path and a content, transient databases in place or elsewhere; in the second nothing, '
                   'a commit in progress, one with staged files, or one left by a lost connection; in the first any two of: a commit, one given up by its connection, one left open, a refused one, a deletion, a '
                   'wrong authentication, the expiry of its sessions, a garbage collection, a death of the server at any step of a commit; on connections that also serve the second or on their own; every request of '
                   'the second repository over a connection whose commit is in the first, and while an upload to the first is arriving; every question about content, versions and paths of the first put to the second',
          'thorough': 'any four of them'}
BUDGET = {'quick': 300, 'thorough': 850}
OPS = ['commit', 'gone', 'open', 'refused', 'delete', 'wrong', 'expire', 'garbage']

def plan(tier):
    q = tier == 'quick'
    return [dict(name='apart', fn='apart', params=dict(n=2 if q else 4, few=q), covers=['idle', 'open', 'staged', 'left', 'finished']),
            dict(name='crash', fn='crash', params=dict(), covers=['finished', 'published', 'undone']),
            dict(name='uploads', fn='uploads', params=dict(), covers=['during', 'finished']),
            dict(name='crossed', fn='crossed', params=dict(), covers=['refused', 'finished']),
            dict(name='asked', fn='asked', params=dict(), covers=['refused', 'own'])]

def call(k, op, t, repo, data=b'{}', **hd):
    try: return k.call(op, dict(hd, session_token=t, repository=repo), data)
    except lib.Closed: return None
def ok(r): return r is not None and r[0]['status'] == 'ok'

class Two:
    """A is where things happen, B the one that must not notice."""
    def __init__(self, h, few=False):
        self.h = h
        self.A, self.B = h.pick('names', [('repo', 'repo2'), ('repo2', 'repo')])
        U = {u: {'public_key': k, 'uses_repositories': ['repo', 'repo2']} for u, k in (('u', lib.PUB), ('v', lib.PUB1), ('w', lib.PUB2))}
        s = self.s = lib.Server(h, ['repo', 'repo2'], U, override=h.flag('override'))
        self.fa = {'/k': h.lit(2), '/same': h.lit(3), '/onlya': h.lit(4)}; self.fb = {'/k': h.lit(5), '/same': h.lit(3), '/onlyb': h.lit(6)}
        self.va = s.version(self.fa, repo=self.A); self.vb = s.version(self.fb, repo=self.B)
        s.start()
    def state(self):
        """Everything about B that lasts."""
        s = self.s; h = self.h
        skip = ('/server_transient.db', '/lock', '/tmp_file')
        rows = [h.rows(s.db(self.B), 'select * from ' + t) for t in ('session_tokens', 'tokens', 'active_commit_exists', 'active_commit_changes')]
        return h.tree(s.path(self.B), skip), sorted(map(str, rows[1])), sorted(str(tuple(r)[1:]) for r in rows[0]), rows[2], rows[3]
    def check(self, before):
        h = self.h
        now = self.state()
        h.check(lib.same(now[0], before[0]), 'an operation on one repository changes the content of another')
        h.check(now[1] == before[1] and now[2] == before[2], 'an operation on one repository changes the sessions of another')
        h.check(now[3] == before[3] and now[4] == before[4], 'an operation on one repository changes the commit in progress in another')
        h.check(lib.same(self.s.files(repo=self.B), self.fb), 'an operation on one repository changes the head of another')

def start_b(h, w, st):
    """Brings B into a state: (connection, session, staged)."""
    s = w.s
    y = s.connect('10.0.0.2'); ty = s.session(y, w.B, 'v', lib.PRIV1)
    staged = {}
    if st != 'idle':
        h.check(ok(call(y, 'begin_commit', ty, w.B, previous_revision=w.vb, user='v')), 'a commit cannot be begun')
        if st != 'open':
            h.check(ok(call(y, 'push_file', ty, w.B, h.lit(7), path='/s')), 'an upload is refused')
            h.check(ok(call(y, 'delete_files', ty, w.B, b'{"files": "[{\\"path\\": \\"/k\\"}]"}')), 'a deletion is refused')
            staged = {'/s': h.lit(7)}
        if st == 'left': y.close(); y = s.connect('10.0.0.2')
    h.cover(st)
    return y, ty, staged

def finish_b(h, w, st, y, ty, staged):
    """B's commit goes on to its end, and holds what was staged."""
    s = w.s
    if st in ('idle', 'left', 'resume'):
        r = call(y, 'begin_commit', ty, w.B, previous_revision=w.vb, user='v')
        h.check(ok(r), 'a commit cannot be begun because of another repository')
        part = json.loads(r[1])['partial_commit']
        h.check(sorted(e['path'] for e in part) == sorted(staged), 'what was staged is lost, or comes from another repository') if staged else h.check(len(part) == 0, 'a commit starts with what was staged elsewhere')
        if staged: h.check(ok(call(y, 'delete_files', ty, w.B, b'{"files": "[{\\"path\\": \\"/k\\"}]"}')), 'a deletion is refused')
    h.check(ok(call(y, 'push_file', ty, w.B, h.lit(8), path='/t')), 'an upload is refused because of another repository')
    h.check(ok(call(y, 'commit', ty, w.B, commit_message='mb', mode='commit')), 'a commit fails because of another repository')
    want = dict(w.fb, **{'/t': h.lit(8)}, **staged)
    if staged: want.pop('/k')
    h.check(lib.same(s.files(repo=w.B), want), 'a commit does not hold what was staged, because of another repository')
    h.cover('finished')

def apart(h, n, few):
    w = Two(h); s = w.s
    st = h.pick('state', ['idle', 'open', 'staged', 'left'])
    y, ty, staged = start_b(h, w, st)
    used = h.flag('one-connection') and st != 'left'
    fa = dict(w.fa); va = w.va
    m = 0; pend = {}            # what a lost connection left staged is taken up by the next commit of its user
    def conn():
        """A connection for A: one on which B was used as well (and which is idle now), or another."""
        k = s.connect('10.0.0.2')
        if used: s.session(k, w.B, 'w', lib.PRIV2)
        return k, s.session(k, w.A, 'v', lib.PRIV1)
    k0, t0 = conn()
    before = None
    for i in range(n):
        op = h.pick('op', OPS)
        if op not in ('expire', 'garbage', 'wrong'):
            if k0 is not None: k, t = k0, t0; k0 = None
            else: k, t = conn()
        before = w.state()
        if op in ('commit', 'gone', 'open', 'delete'):
            r = call(k, 'begin_commit', t, w.A, previous_revision=va, user='v')
            if not ok(r):
                # the commit left open before is still there
                h.check(m == 1, 'a commit is refused because of another repository'); op = 'refused'
        if op == 'refused':
            h.check(not ok(call(k, 'begin_commit', t, w.A, previous_revision=w.vb, user='v')), 'the version of another repository is taken for one of this')
            if not m: pend = {}
        elif op == 'commit':
            h.check(ok(call(k, 'push_file', t, w.A, h.lit(10 + i), path='/n%d' % i)) and ok(call(k, 'commit', t, w.A, commit_message='ma', mode='commit')), 'a commit fails')
            fa.update(pend); pend = {}; fa['/n%d' % i] = h.lit(10 + i); k.close()
        elif op == 'delete':
            h.check(ok(call(k, 'delete_files', t, w.A, b'{"files": "[{\\"path\\": \\"/same\\"}]"}')) and ok(call(k, 'push_file', t, w.A, h.lit(20 + i), path='/k')) and
                    ok(call(k, 'commit', t, w.A, commit_message='ma', mode='commit')), 'a commit fails')
            fa.update(pend); pend = {}; fa.pop('/same', None); fa['/k'] = h.lit(20 + i); k.close()
        elif op == 'gone': h.check(ok(call(k, 'push_file', t, w.A, h.lit(7), path='/s')), 'an upload is refused'); pend = {'/s': h.lit(7)}; k.close()
        elif op == 'open': h.check(ok(call(k, 'push_file', t, w.A, h.lit(9), path='/onlyb')), 'an upload is refused'); m = 1
        elif op == 'wrong':
            z = s.connect('10.0.0.2'); hd, _ = z.call('begin_auth', {'repository': w.A})
            hd, _ = z.call('authenticate', {'client_version': '3', 'auth_token': hd['auth_token'], 'signature': 'AAAA', 'user': 'v', 'repository': w.A})
            h.check(hd['status'] != 'ok', 'a session is given without a signature'); z.close()
        elif op == 'expire':
            h.advance(10 ** 5); k0 = None; z = s.connect('10.0.0.3'); s.session(z, w.A, 'u'); z.close()
        elif op == 'garbage':
            P = h.proc('gc%d' % i); vs = P.run(P.mod('bversion.storage.versioned_storage').versioned_storage, s.path(w.A), path_override=s.db(w.A) if s.override else None)
            P.attempt(vs.garbage_collect); P.end()
        w.check(before)
        va2 = s.head(w.A)
        h.check((va2 != va) == (op in ('commit', 'delete')), 'something else than a commit moves the head'); va = va2
        h.check(lib.same(s.files(repo=w.A), fa), 'a version does not hold what was committed')
    if h.flag('restart'):
        s.start(); y = s.connect('10.0.0.2')
        w.check(before)
        if st == 'idle' and h.now() > 0: ty = s.session(y, w.B, 'v', lib.PRIV1)
        st = 'resume' if st != 'idle' else st
    elif st == 'idle': ty = s.session(y, w.B, 'v', lib.PRIV1)
    finish_b(h, w, st, y, ty, staged)

def crash(h):
    """The server dies at any step of a commit in A; B's commit is as it was."""
    w = Two(h); s = w.s
    st = h.pick('state', ['idle', 'staged', 'left'])
    y, ty, staged = start_b(h, w, st)
    k = s.connect('10.0.0.4'); t = s.session(k, w.A, 'v', lib.PRIV1)
    before = w.state()
    h.arm(s.P)
    if ok(call(k, 'begin_commit', t, w.A, previous_revision=w.va, user='v')) and ok(call(k, 'push_file', t, w.A, h.lit(10), path='/n')):
        call(k, 'commit', t, w.A, commit_message='ma', mode='commit')
    h.disarm(); h.assume(s.P.dead)
    s.start()
    y = s.connect('10.0.0.2'); k = s.connect('10.0.0.4')
    w.check(before)
    first = h.flag('b-first')
    if first: finish_b(h, w, 'resume' if st != 'idle' else st, y, ty, staged)
    va = s.head(w.A)
    h.check(lib.same(s.files(repo=w.A), dict(w.fa, **{'/n': h.lit(10)}) if va != w.va else w.fa), 'a version does not hold what was committed')
    h.cover('published' if va != w.va else 'undone')
    before = w.state()
    now = s.files(repo=w.A)
    h.check(ok(call(k, 'begin_commit', t, w.A, previous_revision=va, user='v')), 'a commit cannot be begun after the server died')
    h.check(ok(call(k, 'push_file', t, w.A, h.lit(11), path='/n')) and ok(call(k, 'commit', t, w.A, commit_message='ma', mode='commit')), 'a commit fails after the server died')
    h.check(lib.same(s.files(repo=w.A), dict(now, **{'/n': h.lit(11)})), 'a version does not hold what was committed')
    if not first:
        w.check(before)
        finish_b(h, w, 'resume' if st != 'idle' else st, y, ty, staged)

def uploads(h):
    """Requests for B arrive, and are answered, while an upload to A is still arriving."""
    w = Two(h); s = w.s
    st = h.pick('state', ['idle', 'open', 'staged', 'left'])
    y, ty, staged = start_b(h, w, st)
    k = s.connect('10.0.0.4'); t = s.session(k, w.A, 'v', lib.PRIV1)
    h.check(ok(call(k, 'begin_commit', t, w.A, previous_revision=w.va, user='v')), 'a commit cannot be begun')
    data = h.blob('data', 4); path = h.pick('path', ['/n', '/t', '/k'])
    if st in ('open', 'staged'): ops = ['push', 'pull', 'commit', 'abort', 'begin']
    else: ops = ['pull', 'begin']
    op = h.pick('op', ops)
    got = {}
    def during():
        h.cover('during')
        if op == 'push': got['r'] = call(y, 'push_file', ty, w.B, h.lit(12), path='/m')
        elif op == 'pull': got['r'] = call(y, 'pull_file', ty, w.B, use_head='1', version_id='', path='/k')
        elif op == 'begin': got['r'] = call(y, 'begin_commit', ty, w.B, previous_revision=w.vb, user='v')
        else: got['r'] = call(y, 'commit', ty, w.B, commit_message='m', mode=op)
    try: r = k.call('push_file', {'session_token': t, 'repository': w.A, 'path': path}, data, during)
    except lib.Closed: r = None
    h.assume('r' in got)
    h.check(ok(r), 'an upload fails because of a request for another repository')
    if op != 'begin' or st in ('idle', 'left'): h.check(ok(got['r']), 'a request fails because of an upload to another repository')
    if op == 'pull': h.check(got['r'][1] == w.fb['/k'], 'the content of another repository is served')
    h.check(ok(call(k, 'commit', t, w.A, commit_message='ma', mode='commit')), 'a commit fails')
    h.check(lib.same(s.files(repo=w.A), dict(w.fa, **{path: data})), 'a version does not hold what was committed')
    files = s.files(repo=w.B)
    if op == 'commit':
        want = dict(w.fb, **staged)
        if staged: want.pop('/k')
        h.check(lib.same(files, want), 'a version does not hold what was committed'); return
    h.check(lib.same(files, w.fb), 'an upload to one repository changes another')
    if op == 'abort': return
    if op == 'push':
        h.check(ok(call(y, 'commit', ty, w.B, commit_message='m', mode='commit')), 'a commit fails')
        want = dict(w.fb, **staged); want['/m'] = h.lit(12)
        if staged: want.pop('/k')
        h.check(lib.same(s.files(repo=w.B), want), 'a version does not hold what was committed'); return
    if op == 'begin' and st in ('idle', 'left'):
        if staged: h.check(ok(call(y, 'delete_files', ty, w.B, b'{"files": "[{\\"path\\": \\"/k\\"}]"}')), 'a deletion is refused')
        st = 'open' if st == 'idle' else 'staged'
    finish_b(h, w, st, y, ty, staged)

def crossed(h):
    """A connection with a commit in A asks for B, with its session of either."""
    w = Two(h); s = w.s
    st = h.pick('state', ['idle', 'staged', 'left'])
    y, ty, staged = start_b(h, w, st)
    k = s.connect('10.0.0.2'); ta = s.session(k, w.A, 'v', lib.PRIV1); tb = s.session(k, w.B, 'v', lib.PRIV1)
    h.check(ok(call(k, 'begin_commit', ta, w.A, previous_revision=w.va, user='v')) and ok(call(k, 'push_file', ta, w.A, h.lit(10), path='/n')), 'a commit cannot be begun')
    before = w.state()
    t = h.pick('session', [ta, tb])
    op = h.pick('op', ['push_file', 'delete_files', 'commit', 'abort', 'begin_commit'])
    hd = {'push_file': {'path': '/onlyb'}, 'delete_files': {}, 'commit': {'commit_message': 'x', 'mode': 'commit'}, 'abort': {'commit_message': '', 'mode': 'abort'}, 'begin_commit': {'previous_revision': w.vb, 'user': 'v'}}[op]
    r = call(k, 'commit' if op == 'abort' else op, t, w.B, h.lit(11) if op == 'push_file' else b'{"files": "[{\\"path\\": \\"/onlyb\\"}]"}', **hd)
    if t == ta or op != 'begin_commit' or st == 'staged': h.check(not ok(r), 'a connection with a commit in one repository changes another'); h.cover('refused')
    if not ok(r): w.check(before)
    else: call(k, 'commit', tb, w.B, commit_message='', mode='abort'); st = 'idle'; staged = {}
    if k.open:
        h.check(ok(call(k, 'push_file', ta, w.A, h.lit(12), path='/m')), 'a commit cannot go on after a refused request for another repository')
        h.check(ok(call(k, 'commit', ta, w.A, commit_message='ma', mode='commit')), 'a commit cannot go on after a refused request for another repository')
        h.check(lib.same(s.files(repo=w.A), dict(w.fa, **{'/n': h.lit(10), '/m': h.lit(12)})), 'a version does not hold what was committed')
    k.close()
    finish_b(h, w, st, y, ty, staged)

def asked(h):
    """Whatever B is asked for, it answers from its own content."""
    w = Two(h); s = w.s
    k = s.connect('10.0.0.2'); ta = s.session(k, w.A, 'v', lib.PRIV1); tb = s.session(k, w.B, 'v', lib.PRIV1)
    if h.flag('in-commit'):
        h.check(ok(call(k, 'begin_commit', ta, w.A, previous_revision=w.va, user='v')) and ok(call(k, 'push_file', ta, w.A, h.lit(10), path='/n')), 'a commit cannot be begun')
    before = w.state()
    v = h.pick('version', [None, w.va, w.vb])
    path = h.pick('path', ['/k', '/same', '/onlya', '/onlyb', '/n'])
    op = h.pick('op', ['pull_file', 'list_files', 'list_changes', 'list_versions', 'find_changed'])
    t = h.pick('session', [ta, tb])
    head = '1' if v is None else '0'; vid = '' if v is None else v
    if op == 'find_changed': r = call(k, op, t, w.B, json.dumps({'client_changes': '{}'}).encode('utf8'), previous_revision=vid or 'root', include_unchanged='1')
    else: r = call(k, op, t, w.B, use_head=head, show_head=head, version_id=vid, path=path)
    if op != 'pull_file' : h.assume(path == '/k')
    if op == 'list_versions': h.assume(v is None)
    if t == ta: h.check(not ok(r), 'a session for one repository is good for another'); h.cover('refused')
    elif v == w.va and op != 'list_versions': h.check(not ok(r), 'a version of one repository is found in another'); h.cover('refused')
    elif op == 'pull_file':
        if path in w.fb: h.check(ok(r) and r[1] == w.fb[path], 'the content of another repository is served')
        else: h.check(not ok(r), 'the content of another repository is served'); h.cover('refused')
    else:
        h.check(ok(r), 'a repository does not answer: ' + op)
        a = json.loads(r[1])
        if op == 'list_files': h.check(sorted(a['files']) == sorted(w.fb), 'the files of another repository are listed')
        if op == 'list_changes': h.check(sorted(c['path'] for c in a['changes']) == sorted(w.fb), 'the changes of another repository are listed')
        if op == 'list_versions': h.check([x[0] if isinstance(x, list) else x['id'] if 'id' in x else x for x in a['versions']][:0] == [] and len(a['versions']) == 1 and w.vb in str(a['versions']), 'the versions of another repository are listed')
        if op == 'find_changed': h.check(a['head'] == w.vb, 'the head of another repository is given')
        h.cover('own')
    w.check(before)
