"""C17: readers always see a complete version."""
import json
import checks.lib as lib
BOUNDS = {'quick': 'two earlier versions; a commit of two uploads (one replaces a file) and a deletion, a resumed one, an aborted one and one given up by another user\'s begin; the reader '
                   'asks any one question (changes, all files and changes, file list, change list, version list, a file that is changed / new / deleted / untouched) at any step or '
                   'database statement of the writer, or after it died there, or the writer finishes or gives up its commit at any step of the reader',
          'thorough': 'two questions at two moments of the writer; two commits in a row inside one question of the reader'}
OUTSIDE = ['answers refused because the database is locked for a moment (an error, not a wrong answer)']
BUDGET = {'quick': 300, 'thorough': 850}
U = {'u1': {'public_key': lib.PUB1, 'uses_repositories': ['repo']}, 'u2': {'public_key': lib.PUB2, 'uses_repositories': ['repo']},
     'r': {'public_key': lib.PUB, 'uses_repositories': ['repo']}}
ASK = ['changes', 'everything', 'files', 'changelist', 'versions', 'pull /a', 'pull /n/new', 'pull /d/b', 'pull /k']
WRITER = ['commit', 'abort', 'resume', 'given-up']

def plan(tier):
    q = tier == 'quick'
    out = [dict(name='during-' + w, fn='during', params=dict(writer=w, n=1 if q else 2), covers=['before', 'asked'] + (['after'] if w in ('commit', 'resume') else [])) for w in WRITER]
    out += [dict(name='died-' + w, fn='died', params=dict(writer=w), covers=['before'] + (['after'] if w in ('commit', 'resume') else [])) for w in WRITER]
    return out + [dict(name='inside', fn='inside', params=dict(twice=False), covers=['before', 'after', 'asked'])] + \
        ([] if q else [dict(name='inside-twice', fn='inside', params=dict(twice=True), covers=['before', 'after', 'asked'])])

def call(k, op, t, data=b'', **hd):
    try: return k.call(op, dict(hd, session_token=t, repository='repo'), data)
    except lib.Closed: return None
def ok(r): return r is not None and r[0]['status'] == 'ok'

def ask(h, s, t, v1, what):
    """The answer of the server to one question, on a connection of its own; None when the database was locked."""
    k = s.connect('10.0.0.9')
    if what in ('changes', 'everything'):
        r = call(k, 'find_changed', t, json.dumps({'client_changes': '{}'}).encode('utf8'), previous_revision=v1, include_unchanged='1' if what == 'everything' else '0')
    elif what == 'files': r = call(k, 'list_files', t, show_head='1')
    elif what == 'changelist': r = call(k, 'list_changes', t, show_head='1')
    elif what == 'versions': r = call(k, 'list_versions', t)
    else: r = call(k, 'pull_file', t, use_head='1', path=what[5:])
    last = s.last
    k.close()
    if r is None:
        if 'locked' in last.text(): return None
        return 'refused'
    if what[:4] == 'pull': return dict(r[0]), r[1]
    return dict(r[0]), json.loads(r[1]) if r[1] else None

class W:
    """The writer; what it staged stays the same."""
    def __init__(self, h, writer):
        self.h = h; self.writer = writer
        s = self.s = lib.Server(h, users=U)
        self.v1 = s.version({'/a': h.lit(1), '/d/b': h.lit(2), '/k': h.lit(4)})
        self.v2 = s.version({'/a': h.lit(3)})
        s.start()
        self.k = s.connect(); self.t = s.session(self.k, user='u1', key=lib.PRIV1)
        self.k2 = s.connect('10.0.0.2'); self.t2 = s.session(self.k2, user='u2', key=lib.PRIV2)
        self.kr = s.connect('10.0.0.9'); self.tr = s.session(self.kr, user='r')
        if writer in ('resume', 'given-up'):
            self.begin(); self.fill(); self.k.close(); self.k = s.connect()
    def begin(self): return ok(call(self.k, 'begin_commit', self.t, user='u1', previous_revision=self.s.head() if self.writer == 'twice' else self.v2))
    def fill(self):
        return ok(call(self.k, 'push_file', self.t, self.h.lit(5), path='/n/new')) and ok(call(self.k, 'push_file', self.t, self.h.lit(2), path='/a')) and \
            ok(call(self.k, 'delete_files', self.t, b'{"files": "[{\\"path\\": \\"/d/b\\"}]"}'))
    def end(self, mode): return ok(call(self.k, 'commit', self.t, commit_message='m', mode=mode))
    def work(self):
        if self.writer == 'given-up': return ok(call(self.k2, 'begin_commit', self.t2, user='u2', previous_revision=self.v2))
        if not self.begin(): return False
        if not self.fill(): return False
        return self.end('abort' if self.writer == 'abort' else 'commit')
    def expected(self):
        """The answers before and after, taken when nothing else goes on.  Before is taken on a twin: the server still holds the version."""
        return {q: ask(self.h, self.s, self.tr, self.v1, q) for q in ASK}

def judge(h, q, got, before, after, where):
    if got is None: return
    b = got == before[q]
    if b: h.cover('before')
    a = after is not None and got == after[q]
    if a and not b: h.cover('after')
    h.check(a or b, 'a reader gets an answer that belongs to no version: ' + q + ' ' + where)

def during(h, writer, n):
    w = W(h, writer); s = w.s
    before = w.expected()
    ats = [h.int('at', 0, 200) for i in range(n)]
    qs = []; got = []; c = [0]
    def obs(proc, kind, detail):
        if len(got) >= n: return
        c[0] += 1
        while len(got) < n and ats[len(got)] == c[0] - 1:
            got.append(None)
            qs.append(h.pick('ask', ASK if n == 1 else ASK[:5]))
            h.cover('asked')
            got[-1] = ask(h, s, w.tr, w.v1, qs[-1])
    if n == 2: h.assume(ats[0] <= ats[1])
    h.world.stmt_observers.append(obs); h.world.observers.append(obs)
    r = w.work()
    h.world.stmt_observers.remove(obs); h.world.observers.remove(obs)
    h.assume(len(got) == n)
    h.check(r, 'a reader keeps the writer from finishing')
    after = w.expected()
    if writer in ('abort', 'given-up'): h.check(after == before, 'a commit that was given up is seen by readers')
    for q, g in zip(qs, got): judge(h, q, g, before, after, 'during a commit')
    if n == 2 and got[0] is not None and got[1] is not None and got[0] != before[qs[0]]:
        h.check(got[1] == after[qs[1]], 'a reader sees the new version and then the old one again')

def died(h, writer):
    w = W(h, writer); s = w.s
    before = w.expected()
    h.arm(s.P)
    w.work()
    dead = h.crashed(s.P); h.disarm()
    h.assume(dead)
    s.start()
    after = w.expected()
    if s.head() == w.v2:
        h.cover('before')
        for q in ASK: h.check(after[q] == before[q], 'after a crash a reader sees what was not committed: ' + q)
    else:
        h.cover('after')
        h.check(writer in ('commit', 'resume'), 'a commit that was given up is published')
        fl = {p: f['hash'] for p, f in after['files'][1]['files'].items()}
        h.check(fl == {'/a': h.sha(h.lit(2)), '/n/new': h.sha(h.lit(5)), '/k': h.sha(h.lit(4))}, 'after a crash a reader sees half a commit')
        h.check(after['changes'][1]['head'] == s.head() and after['versions'][1]['versions'][0]['id'] == s.head() and after['files'][0]['version_id'] == s.head(), 'readers disagree about the head')
        h.check(after['pull /a'][1] == h.lit(2) and after['pull /n/new'][1] == h.lit(5) and after['pull /k'][1] == h.lit(4) and after['pull /d/b'] == 'refused', 'after a crash a reader gets a wrong file')

def inside(h, twice):
    """The writer finishes, or gives up, while the reader's question is being answered."""
    w = W(h, 'commit'); s = w.s
    before = w.expected()
    mode = h.pick('mode', ['commit', 'abort', 'crash']) if not twice else 'commit'
    h.check(w.begin() and w.fill(), 'a commit cannot be filled')
    q = h.pick('ask', ASK)
    at = h.int('at', 0, 60)
    c = [0]; done = []
    def obs(*a):
        if done: return
        c[0] += 1
        if at == c[0] - 1:
            done.append(None); h.cover('asked')
            if mode == 'crash':          # the writer's connection ends, and someone else's begin gives its commit up
                w.k.close()
                done[0] = ok(call(w.k2, 'begin_commit', w.t2, user='u2', previous_revision=w.v2))
            else: done[0] = w.end(mode)
            if twice:
                w.mid = w.expected()
                h.check(ok(call(w.k, 'begin_commit', w.t, user='u1', previous_revision=s.head())), 'no second commit')
                h.check(ok(call(w.k, 'push_file', w.t, h.lit(8), path='/a')) and ok(call(w.k, 'push_file', w.t, h.lit(8), path='/d/b')) and w.end('commit'), 'no second commit')
    h.world.stmt_observers.append(obs); h.world.read_hook = obs
    got = ask(h, s, w.tr, w.v1, q)
    h.world.stmt_observers.remove(obs); h.world.read_hook = None
    h.assume(bool(done))
    # a writer that met a locked database tries again
    if not done[0]:
        h.assume(mode == 'none')
    after = w.expected()
    if mode != 'commit': h.check(after == before, 'a commit that was given up is seen by readers')
    if twice and got is not None and got == w.mid[q]: h.cover('middle'); return
    judge(h, q, got, before, after, 'while a commit finished')
