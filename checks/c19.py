"""C19: every repository operation requires a live session."""
import checks.lib as lib
BOUNDS = {'quick': 'every operation x session: live at symbolic times of use 0 to 4 h apart, from another address, of another repository, made-up tokens, a user '
                   'who lost access or was removed, unknown repository; on a connection that does or does not hold the lock of a commit in progress; a third client of either user from either address logs in and makes a request while the owner is silent',
          'thorough': 'as quick, and with the transient databases at configured places; three uses in a row'}

A, B = 'repo', 'repo2'        # the name of one begins with the name of the other
IP1, IP2 = '10.0.0.1', '10.0.0.12'
OPS = ['find_changed', 'pull_file', 'list_versions', 'list_changes', 'list_files', 'begin_commit', 'push_file', 'delete_files', 'commit', 'abort']

def users():
    return {'u1': {'public_key': lib.PUB1, 'uses_repositories': [A, B]}, 'u2': {'public_key': lib.PUB2, 'uses_repositories': [A, B]}}

def plan(tier):
    out = [dict(name='bad', fn='bad', params=dict(), covers=['refused', 'held']),
           dict(name='times', fn='times', params=dict(), covers=['live', 'expired']),
           dict(name='owner', fn='owner', params=dict(), covers=['owner', 'other', 'ended'])]
    if tier != 'quick':
        out += [dict(name='bad-override', fn='bad', params=dict(override=True), covers=['refused', 'held']),
                dict(name='times-override', fn='times', params=dict(override=True, uses=3), covers=['live', 'expired']),
                dict(name='owner-override', fn='owner', params=dict(override=True), covers=['owner', 'other', 'ended'])]
    return out

def request(op, repo, token, v1, head, user='u2'):
    b = {'session_token': token, 'repository': repo}
    if op == 'find_changed': return op, dict(b, previous_revision=v1, include_unchanged='1'), b'{"client_changes": "{}"}'
    if op == 'pull_file': return op, dict(b, use_head='0', version_id=v1, path='/f'), b''
    if op == 'list_versions': return op, b, b''
    if op in ('list_changes', 'list_files'): return op, dict(b, show_head='0', version_id=v1), b''
    if op == 'begin_commit': return op, dict(b, user=user, previous_revision=head), b''
    if op == 'push_file': return op, dict(b, path='/evil'), b'evil'
    if op == 'delete_files': return op, b, b'{"files": "[{\\"path\\": \\"/f\\"}]"}'
    return 'commit', dict(b, commit_message='evil', mode='commit' if op == 'commit' else 'rollback'), b''

def setup(h, override):
    s = lib.Server(h, [A, B], users(), override=override)
    v = {}
    for r in (A, B):
        v1 = s.version({'/f': h.lit(1)}, repo=r); v2 = s.version({'/g': h.lit(2)}, repo=r)
        v[r] = (v1, v2)
    s.start()
    return s, v

def state(h, s):
    """Everything a refused request must leave alone."""
    out = {}
    for r in (A, B):
        out[r] = (h.tree(s.path(r), ('/lock_file',)), h.rows(s.db(r), 'select * from active_commit_changes'), h.rows(s.db(r), 'select * from active_commit_exists'))
    return out

def same_state(a, b):
    return all(lib.same(a[r][0], b[r][0]) and a[r][1] == b[r][1] and a[r][2] == b[r][2] for r in a)

def refused(h, s, c, rq):
    """The request is refused, reveals nothing and changes nothing."""
    before = state(h, s)
    held = c.ctx.lock
    try:
        hd, body = c.call(*rq)
    except lib.Closed: hd, body = {'status': 'closed'}, b''
    h.obs('status', hd['status'])
    h.check(hd['status'] != 'ok', 'an operation is done without a live session')
    h.check(len(body) == 0 and all(q in ('status', 'msg') for q in hd), 'a refusal reveals something')
    if held and not c.open: return False      # the connection ended: its commit is given up
    h.check(same_state(before, state(h, s)), 'a refused operation changed something')
    return True

def begin(h, c, repo, token, head, user, ok=True):
    hd, _ = c.call('begin_commit', {'session_token': token, 'repository': repo, 'user': user, 'previous_revision': head})
    h.check(hd['status'] == 'ok', 'the write lock is not free')

def bad(h, override=False):
    s, v = setup(h, override)
    op = h.pick('op', OPS)
    hold = h.flag('hold')
    c = s.connect(IP1)
    tA = s.session(c, A, 'u2', lib.PRIV2)
    if hold:
        begin(h, c, A, tA, v[A][1], 'u2')
        c.call('push_file', {'session_token': tA, 'repository': A, 'path': '/mine'}, h.lit(3))
        h.cover('held')
    how = h.pick('session', ['address', 'repository', 'made-up', 'lost', 'removed', 'unknown'])
    tok = tA; cc = c; repo = A
    if how == 'address':
        cc = s.connect(IP2)
    elif how == 'repository':
        if h.flag('other-for-this'): tok = s.session(s.connect(IP1), B, 'u2', lib.PRIV2)
        else: repo = B
    elif how == 'made-up': tok = h.pick('tok', ['', 'x', '%', tA[:-1], tA + ' ', tA.lower(), "' or '1'='1", 'u2'])
    elif how == 'lost': s.mod.config['users']['u2']['uses_repositories'] = h.pick('left', [[B], ['rep'], []])
    elif how == 'removed': del s.mod.config['users']['u2']
    else: repo = h.pick('unknown', ['', 'C', 'REPO', '.', A + '/', A + '3'])
    rq = request(op, repo, tok, v.get(repo, v[A])[0], v.get(repo, v[A])[1])
    still = refused(h, s, cc, rq)
    h.cover('refused')
    # afterwards: the lock is where it was, and nothing crept into the commit in progress
    c3 = s.connect('10.0.0.9')
    t3 = s.session(c3, A, 'u1', lib.PRIV1)
    if hold and still and c.open:
        hd, _ = c3.call('begin_commit', {'session_token': t3, 'repository': A, 'user': 'u1', 'previous_revision': v[A][1]})
        h.check(hd['status'] != 'ok', 'the write lock was let go')
        if how in ('lost', 'removed'): return
        hd, _ = c.call('commit', {'session_token': tA, 'repository': A, 'commit_message': 'm', 'mode': 'commit'})
        h.check(hd['status'] == 'ok', 'the commit in progress was broken')
        h.check(lib.same(s.files(repo=A), {'/f': h.lit(1), '/g': h.lit(2), '/mine': h.lit(3)}), 'something crept into the commit in progress')
    elif not hold:
        begin(h, c3, A, t3, v[A][1], 'u1')

def times(h, override=False, uses=2):
    """A session lives two hours from its last use."""
    s, v = setup(h, override)
    c = s.connect(IP1)
    t = s.session(c, A, 'u2', lib.PRIV2)
    op = h.pick('op', OPS)
    busy = h.flag('busy')
    if busy:
        # somebody else is inside a commit meanwhile
        k = s.connect('10.0.0.5')
        begin(h, k, A, s.session(k, A, 'u1', lib.PRIV1), v[A][1], 'u1')
    for i in range(uses - 1):
        d = h.real('d', 0, 14400, 1)
        h.advance(d)
        rq = request('list_versions', A, t, v[A][0], v[A][1])
        if d > 7200: refused(h, s, c, rq); h.cover('expired'); return
        hd, _ = c.call(*rq)
        if d < 7200: h.check(hd['status'] == 'ok', 'a live session is refused')
        if hd['status'] != 'ok': return
    d = h.real('d', 0, 14400, 1)
    h.advance(d)
    if h.flag('other-conn'): c = s.connect(IP1)
    rq = request(op, A, t, v[A][0], v[A][1])
    if d > 7200: refused(h, s, c, rq); h.cover('expired'); return
    try: st = c.call(*rq)[0]['status']
    except lib.Closed: st = 'closed'
    h.obs('status', st)
    if d < 7200 and op in ('find_changed', 'pull_file', 'list_versions', 'list_changes', 'list_files', 'begin_commit') and not (busy and op == 'begin_commit'):
        h.check(st == 'ok', 'using a session did not extend it')
        h.cover('live')

def owner(h, override=False):
    """The session owning the commit in progress outlives two hours, and only that one, and only while the commit is in progress."""
    s, v = setup(h, override)
    c = s.connect(IP1)
    t = s.session(c, A, 'u2', lib.PRIV2)
    o = s.connect(IP1)
    same_user = h.flag('same-user')
    to = s.session(o, A, 'u2' if same_user else 'u1', lib.PRIV2 if same_user else lib.PRIV1)
    begin(h, c, A, t, v[A][1], 'u2')
    d = h.real('d', 0, 14400, 1)
    h.advance(d)
    which = h.choose('which', 3)
    if which == 0:
        asks = h.pick('meanwhile', [None, IP1, IP2])
        if asks is not None:
            # a third client comes while the owner is silent
            x = s.connect(asks)
            u = h.pick('who', ['u1', 'u2'])
            tx = s.session(x, A, u, lib.PRIV1 if u == 'u1' else lib.PRIV2)
            op = h.pick('op', ['find_changed', 'begin_commit', 'push_file', 'delete_files', 'commit'])
            try: hd, _ = x.call(*request(op, A, tx, v[A][0], v[A][1], u))
            except lib.Closed: hd = {'status': 'closed'}
            h.check((hd['status'] == 'ok') == (op == 'find_changed'), 'another client gets into the commit in progress, or cannot look')
        hd, _ = c.call('push_file', {'session_token': t, 'repository': A, 'path': '/mine'}, h.lit(3))
        h.check(hd['status'] == 'ok', 'the session of the commit in progress expired')
        h.cover('owner')
    elif which == 1:
        op = h.pick('op', OPS)
        if d > 7200: refused(h, s, o, request(op, A, to, v[A][0], v[A][1])); h.cover('other')
    else:
        hd, _ = c.call('push_file', {'session_token': t, 'repository': A, 'path': '/mine'}, h.lit(3))
        hd, _ = c.call('commit', {'session_token': t, 'repository': A, 'commit_message': 'm', 'mode': h.pick('end', ['commit', 'rollback'])})
        h.check(hd['status'] == 'ok', 'the commit cannot be ended')
        h.advance(h.real('d2', 7201, 14400, 1))
        op = h.pick('op', OPS)
        refused(h, s, c, request(op, A, t, v[A][0], s.head(A)))
        h.cover('ended')
