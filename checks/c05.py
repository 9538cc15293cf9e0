"""C05: commits are atomic across server crashes."""
import json
import checks.lib as lib
BOUNDS = {'quick': 'two earlier versions; a commit of two uploads (one of a content already stored or new) and a deletion; the server dies at any of its steps, then at any step of '
                   'what follows (resumption to the end, abort, commit of another user, begin from a stale revision), then another commit is made',
          'thorough': 'three uploads; the very first commit; a third crash while resuming'}
BUDGET = {'quick': 400, 'thorough': 860}
U = {'u1': {'public_key': lib.PUB1, 'uses_repositories': ['repo']}, 'u2': {'public_key': lib.PUB2, 'uses_repositories': ['repo']},
     'u3': {'public_key': lib.PUB, 'uses_repositories': ['repo']}}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='crash', fn='crash', params=dict(n=2 if q else 3, more=1), covers=['old', 'new', 'again-old', 'again-new', 'resumed']),
            dict(name='first', fn='crash', params=dict(n=1, more=0 if q else 1, first=True), covers=['old', 'new'])] + \
           ([] if q else [dict(name='thrice', fn='crash', params=dict(n=1, more=2, then=['resume']), covers=['again-old', 'again-new'])])

class World:
    """Versions and what they must hold."""
    def __init__(self, h, s, first):
        self.h = h; self.s = s; self.versions = {}
        self.head = 'root'; self.files = {}
        if not first:
            self.seen(s.version({'/a': h.lit(1), '/d/b': h.lit(2)}))
            self.seen(s.version({'/a': h.lit(3)}))
        s.start()
        self.stale = 'x' if first else list(self.versions)[0]
    def seen(self, v):
        self.head = v; self.files = self.s.files(v); self.versions[v] = self.files
    def check(self, staged, where):
        """The head is the old or the new version; all versions are as they were.  True when it is the new one."""
        h, s = self.h, self.s
        hd = s.head()
        new = hd != self.head
        if new:
            parent = self.head
            h.check(staged is not None, 'the head moved without a commit ' + where)
            self.seen(hd)
            h.check(lib.same(self.files, staged), 'the head is neither the old nor the complete new version ' + where)
            h.check(s.history() == [hd] + [v for v in self.versions if v != hd][::-1], 'the new version does not continue the history ' + where)
        for v, f in self.versions.items(): h.check(lib.same(s.files(v), f), 'a version is damaged ' + where)
        return new

def call(k, op, t, data=b'', **hd):
    try: return k.call(op, dict(hd, session_token=t, repository='repo'), data)
    except lib.Closed: return None

def ok(r): return r is not None and r[0]['status'] == 'ok'

def run(w, s, k, t, user, puts, dels, prev):
    """A whole commit; 'ok' when every step was answered so."""
    r = call(k, 'begin_commit', t, user=user, previous_revision=prev)
    if not ok(r): return False
    partial = json.loads(r[1])['partial_commit']
    if partial: w.h.cover('resumed')
    for q, c in puts:
        if not ok(call(k, 'push_file', t, c, path=q)): return False
    if dels and not ok(call(k, 'delete_files', t, json.dumps({'files': json.dumps([{'path': q} for q in dels])}).encode('utf8'))): return False
    return ok(call(k, 'commit', t, commit_message='m', mode='commit'))

def crash(h, n, more, first=False, then=('resume', 'abort', 'other', 'stale')):
    s = lib.Server(h, users=U)
    w = World(h, s, first)
    k = s.connect(); t = s.session(k, user='u1', key=lib.PRIV1)
    k2 = s.connect('10.0.0.2'); t2 = s.session(k2, user='u2', key=lib.PRIV2)
    puts = [('/n/new', h.lit(5)), ('/a', h.lit(2)), ('/d/e', h.lit(5))][:n]
    dels = ['/d/b']
    def staged(puts, dels):
        f = dict(w.files); f.update(puts)
        for q in dels: f.pop(q, None)
        return f
    want = staged(puts, dels)
    h.arm(s.P)
    done = run(w, s, k, t, 'u1', puts, dels, w.head)
    died = h.crashed(s.P); h.disarm()
    h.assume(died)
    s.start()
    h.cover('new' if w.check(want, 'after a crash') else 'old')
    for i in range(more):
        k = s.connect(); k2 = s.connect('10.0.0.2')
        what = h.pick('then', list(then))
        base = w.head
        want = staged(puts, dels) if what == 'resume' else staged([('/o', h.lit(7)), ('/a', h.lit(5))], []) if what == 'other' else None
        h.arm(s.P, 'crash_again')
        if what == 'resume': done = run(w, s, k, t, 'u1', puts, dels, w.head)
        elif what == 'other': done = run(w, s, k2, t2, 'u2', [('/o', h.lit(7)), ('/a', h.lit(5))], [], w.head)
        elif what == 'abort': done = ok(call(k, 'begin_commit', t, user='u1', previous_revision=w.head)) and ok(call(k, 'commit', t, commit_message='', mode='abort'))
        else: done = call(k2, 'begin_commit', t2, user='u2', previous_revision=w.stale) is not None
        died = h.crashed(s.P); h.disarm()
        h.check(died or done, 'after a crash: no ' + what)
        if died: s.start()
        h.cover('again-new' if w.check(want, 'after a crash and ' + what) else 'again-old')
        if not died:
            if want is not None: h.check(w.head != base or lib.same(want, w.files), 'a commit finished but the head is the old one')
            break
    k.close(); k2.close()
    k3 = s.connect('10.0.0.3'); t3 = s.session(k3, user='u3')
    puts = [('/z', h.lit(5))]
    want = staged(puts, [])
    base = w.head
    h.check(run(w, s, k3, t3, 'u3', puts, [], w.head), 'no commit possible in the end')
    w.check(want, 'in the end'); h.check(w.head != base, 'the last commit did not move the head')
