"""C36: version listings follow the history."""
import json
import checks.lib as lib
BOUNDS = {'quick': 'up to 3 commits by any of two users (with the name of either in the request), with messages of 0 to 2 symbolic characters out of all of Unicode, at times up to a year apart, each '
                   'uploading, replacing or deleting; every version asked for by its id and as head, before and after any other question; a history of 60 versions; unknown ids: objects of other kinds, symbolic hex digits',
          'thorough': '4 commits, messages of up to 3 characters'}
BUDGET = {'quick': 240, 'thorough': 850}
U = {'u1': {'public_key': lib.PUB1, 'uses_repositories': ['repo']}, 'u2': {'public_key': lib.PUB2, 'uses_repositories': ['repo']}}
TEXT = ((0, 0xd7ff), (0xe000, 0x10ffff))

def plan(tier):
    q = tier == 'quick'
    return [dict(name='authors', fn='commits', params=dict(n=3 if q else 4, text=[]), covers=['forged', 'generated']),
            dict(name='asked', fn='commits', params=dict(n=3, text=[], ask=True), covers=['asked']),
            dict(name='messages', fn='commits', params=dict(n=2, text=[1, 2] if q else [1, 2, 3]), covers=['message']),
            dict(name='long', fn='long', params=dict(n=60), covers=['limit']),
            dict(name='unknown', fn='unknown', params=dict(), covers=['hex', 'other'])]

def call(k, op, t, data=b'{}', **hd):
    try: r = k.call(op, dict(hd, session_token=t, repository='repo'), data)
    except lib.Closed: return None
    return r if r[0]['status'] == 'ok' else None

def stamp(text):
    """Seconds since 1970 of the server's time format, day-month-year hour:minute:second:microsecond."""
    d, t = text.split(' ')
    dd, mm, yy = [int(x) for x in d.split('-')]
    hh, mi, ss, us = [int(x) for x in t.split(':')]
    y = yy - (1 if mm <= 2 else 0)
    days = 365 * y + y // 4 - y // 100 + y // 400 + (153 * (mm + (-3 if mm > 2 else 9)) + 2) // 5 + dd - 1 - 719468
    return days * 86400 + hh * 3600 + mi * 60 + ss + us / 1000000.0

def commits(h, n, text, ask=False):
    s = lib.Server(h, users=U)
    ks = [s.connect('10.0.0.1'), s.connect('10.0.0.2')]
    ts = [s.session(ks[0], user='u1', key=lib.PRIV1), s.session(ks[1], user='u2', key=lib.PRIV2)]
    files = {}; hist = []; prev = 'root'
    msgs = [] if text else h.pick('messages', [['first', '', 'third: x', ''], ['same', 'same', 'same', 'same'], ['', 'm', 'm', '']])
    for i in range(n):
        if text or ask: who = i % 2; claim = 'u1'
        else:
            who = h.choose('who', 2); claim = h.pick('claim', ['u1', 'u2'])
            if claim != ['u1', 'u2'][who]: h.cover('forged')
        k, t = ks[who], ts[who]
        h.advance(h.pick('later', [10.0, 3600.0, 86400.0 * 300]) if i == 1 and not text and not ask else 60.0)
        if len(hist): ts[who] = t = s.session(k, user=['u1', 'u2'][who], key=[lib.PRIV1, lib.PRIV2][who])
        msg = h.text('msg', text, TEXT) if text else (msgs or ['', '', '', ''])[i]
        h.check(call(k, 'begin_commit', t, user=claim, previous_revision=prev) is not None, 'a commit cannot be begun')
        changes = {}
        c = h.lit(i)
        h.check(call(k, 'push_file', t, c, path='/f') is not None, 'an upload is refused')
        changes['/f'] = 'changed' if i else 'new'; files['/f'] = h.sha(c)
        if i == 1: 
            h.check(call(k, 'push_file', t, c, path='/d/g') is not None, 'an upload is refused'); files['/d/g'] = h.sha(c); changes['/d/g'] = 'new'
        if i == 2:
            h.check(call(k, 'delete_files', t, b'{"files": "[{\\"path\\": \\"/d/g\\"}]"}') is not None, 'a deletion is refused'); files.pop('/d/g'); changes['/d/g'] = 'deleted'
        t0 = h.now()
        # the message travels in a header
        r = call(k, 'commit', t, commit_message=msg, mode='commit', user=claim)
        h.check(r is not None, 'the commit is refused')
        prev = r[0]['head']
        hist.append(dict(id=prev, by=['u1', 'u2'][who], msg=msg, t0=t0, t1=h.now(), files=dict(files), changes=changes))
        if text: h.cover('message')
    k = s.connect(); t = s.session(k, user='u2', key=lib.PRIV2)
    listed(h, k, t, hist)
    # reading changes nothing: once more after any other question
    if ask:
        w = hist[h.choose('about', n)]
        old = hist[h.choose('since', n)]['id'] if h.flag('since.some') else 'root'
        q = h.pick('question', ['find_changed', 'full', 'pull_file', 'list_changes'])
        if q in ('find_changed', 'full'):
            r = call(k, 'find_changed', t, b'{"client_changes": "{}"}', previous_revision=old, include_unchanged=str(int(q == 'full')))
        elif q == 'pull_file': r = call(k, q, t, path='/f', use_head='0', version_id=w['id'])
        else: r = call(k, q, t, show_head='0', version_id=w['id'])
        h.check(r is not None, 'a question is refused: ' + q)
        h.cover('asked')
        listed(h, k, t, hist)

def listed(h, k, t, hist):
    lst = json.loads(call(k, 'list_versions', t)[1])['versions']
    h.check([v['id'] for v in lst] == [v['id'] for v in hist[::-1]], 'the list of versions is not the history from the head down')
    for v, w in zip(lst, hist[::-1]):
        h.check(v['commit_by'] == w['by'], 'a version names another author than the authenticated user')
        if w['msg'] != '': h.check(v['commit_message'] == w['msg'], 'a version has another message')
        else: h.cover('generated')
        h.check(w['t0'] - 1 <= stamp(v['utc_date_time']) <= w['t1'] + 1, 'a version has another time')
    for i, w in enumerate(hist):
        hd, body = call(k, 'list_changes', t, show_head='0', version_id=w['id'])
        got = json.loads(body)['changes']
        h.check(hd['version_id'] == w['id'] and {c['path']: c['status'] for c in got} == w['changes'] and len(got) == len(w['changes']), 'the changes listed are not those of the version')
        for c in got:
            if c['status'] != 'deleted': h.check(c['hash'] == w['files'][c['path']], 'a change names another content')
        hd, body = call(k, 'list_files', t, show_head='0', version_id=w['id'])
        h.check(hd['version_id'] == w['id'] and {p: f['hash'] for p, f in json.loads(body)['files'].items()} == w['files'], 'the files listed are not those of the version')
    w = hist[-1]
    hd, body = call(k, 'list_changes', t, show_head='1')
    h.check(hd['version_id'] == w['id'] and {c['path']: c['status'] for c in json.loads(body)['changes']} == w['changes'], 'the changes listed for the head are not those of the head')
    hd, body = call(k, 'list_files', t, show_head='1')
    h.check(hd['version_id'] == w['id'] and {p: f['hash'] for p, f in json.loads(body)['files'].items()} == w['files'], 'the files listed for the head are not those of the head')

def long(h, n):
    """A history longer than the limit of the listing."""
    s = lib.Server(h, users=U)
    P, vs = s.store()
    ids = []
    for i in range(n):
        P.run(vs.begin, 'u', 'ip', 't')
        h.write(s.path() + '/up', h.lit(i)); P.run(vs.fs_put_from_file, s.path() + '/up', {'path': '/f'})
        ids.append(P.run(vs.commit, 'm%d' % i, 'u1'))
    s.start()
    k = s.connect(); t = s.session(k, user='u2', key=lib.PRIV2)
    lst = json.loads(call(k, 'list_versions', t)[1])['versions']
    h.check(len(lst) >= 50, 'the list of versions ends early')
    if len(lst) < n: h.cover('limit')
    h.check([v['id'] for v in lst] == ids[::-1][:len(lst)] and [v['commit_message'] for v in lst] == ['m%d' % (n - 1 - i) for i in range(len(lst))], 'the list of versions does not follow the history')
    full = P.run(vs.get_commit_chain, None)
    h.check([v['id'] for v in full] == ids[::-1], 'the full list of versions is not the history')

def unknown(h):
    s = lib.Server(h, users=U)
    v1 = s.version({'/a': h.lit(1), '/d/b': h.lit(2)})
    P, vs = s.store()
    root = P.run(vs.read_commit_index_object, v1)['tree_root']
    s.start()
    k = s.connect(); t = s.session(k, user='u2', key=lib.PRIV2)
    if h.flag('hex'): q = h.text('id', [1, 2, 3], ((48, 57), (97, 102))); h.cover('hex')
    else: q = h.pick('id', [root, h.sha(h.lit(1)), '', 'root', v1[:-1], v1 + '0', 'X' + v1, '../head', v1[:2] + '/' + v1[2:], v1 + '/']); h.cover('other')
    for op in ('list_changes', 'list_files', 'pull_file'):
        h.check(call(k, op, t, show_head='0', version_id=q, use_head='0', path='/a') is None, 'a version that does not exist is listed: ' + op)
        k = s.connect()
    h.check(call(k, 'list_files', t, show_head='0', version_id=v1) is not None, 'a version is not listed')
