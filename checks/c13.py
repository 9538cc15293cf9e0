"""C13: conflict resolution does exactly what the user chose."""
import checks.lib as lib, checks.wc as wc
BOUNDS = {'quick': 'up to four conflicting files (changed on both sides, changed here and deleted there, deleted here and changed there, created on both sides) with symbolic contents, '
                   'edits that carry any modification time; resolved interactively or by the resolution file the client wrote, any choice per file; a server file that returned to the content the client holds; '
                   'conflicting names of 1-2 characters over {space : - R a e-acute}; another user\'s version at any request while server versions are downloaded for comparison; every way to leave out, add, mistype or spoil an entry of a resolution file',
          'thorough': 'names of up to 3 characters and with further characters'}
ASSUMES = ['file names without line breaks (the resolution file is line based; such a file is refused)']
BUDGET = {'quick': 300, 'thorough': 850}
AL = ((32, 32), (45, 45), (58, 58), (82, 82), (97, 97), (233, 233))

def plan(tier):
    q = tier == 'quick'
    return [dict(name='ask', fn='ask', params=dict(), covers=['server', 'client', 'same']),
            dict(name='returned', fn='returned', params=dict(), covers=['server', 'client']),
            dict(name='manual', fn='manual', params=dict(), covers=['server', 'client', 'downloaded']),
            dict(name='compared', fn='compared', params=dict(), covers=['during']),
            dict(name='names', fn='names', params=dict(lens=[1, 2] if q else [1, 2, 3], al=AL if q else AL + ((46, 46), (80, 80), (9, 9), (92, 92))), covers=['resolved']),
            dict(name='refused', fn='refused', params=dict(), covers=['refused', 'accepted']),
            dict(name='stale', fn='stale', params=dict(), covers=['died'])]

def outcome(h, w, r, to_server, commit=True):
    h.check(r.ok, 'an update with every conflict resolved fails: ' + r.text())
    want = w.merged(to_server)
    h.check(lib.same(w.c.files(), want), 'a conflict is not resolved as chosen')
    man, rev = w.c.manifest()
    h.check(rev == w.v2, 'after resolving all conflicts the version is not recorded as held')
    h.check(w.c.local_changes() == w.status(to_server), 'after resolving conflicts the status does not show exactly the local work that was kept')
    if not commit: return
    r = w.c.commit()
    h.check(r.ok and lib.same(w.s.files(), want), 'what was resolved to the client is not published by the next commit')

def untouched(h, w, files, rev):
    h.check(lib.same(w.c.files(), files) and w.c.manifest()[1] == rev, 'an update that was not carried out changed something')

KINDS = {'/a': 'cc', '/b': 'cd', '/c': 'dc', '/n': 'nn'}
def conflicted(h, sym, always=()):
    """A working copy with any subset of the kinds of conflict, plus changes without conflict."""
    base = {'/a': h.lit(1), '/b': h.lit(2), '/c': h.lit(3), '/k': h.lit(4), '/l': h.lit(5)}
    w = wc.Copy(h, base)
    put, rm = {'/l': h.lit(9)}, []
    w.write('/k', h.lit(8))
    for i, q in enumerate(sorted(KINDS)):
        if q not in always and not h.flag('conflict' + q): continue
        k = KINDS[q]
        if k[0] == 'd': w.rm(q)
        else: w.write(q, h.content('l%d' % i, 3) if sym else h.lit(20 + i))
        if k[1] == 'd': rm.append(q)
        else: put[q] = h.content('s%d' % i, 3) if sym else h.lit(30 + i)
    w.server(put, rm)
    return w

def ask(h):
    w = conflicted(h, True)
    conf = w.conflicts()
    if any(q in w.local and q in w.head and w.local[q] == w.head[q] for q in conf): h.cover('same')
    # a file whose server content equals what the client held is no server change
    ch = h.pick('choice', ['server', 'client'])
    if conf: h.cover(ch)
    r = w.c.update(inputs=[ch if not h.flag('upper case') else ch.upper()])
    h.check(len(h.world.inputs) == (0 if conf else 1), 'a conflict is not reported, or there is none and the user is asked')
    outcome(h, w, r, list(conf) if ch == 'server' else [])

def returned(h):
    """The server file was changed and then returned to the version the client already had."""
    base = {'/a': h.lit(1), '/k': h.lit(4)}
    w = wc.Copy(h, base, timed=True)
    lo = h.pick('local', ['changed', 'deleted'])
    if lo == 'changed': w.write('/a', h.lit(20))
    else: w.rm('/a')
    if h.flag('deleted'): w.server({}, ['/a'])
    else: w.server({'/a': h.lit(30)})
    w.server({'/a': h.lit(1)})
    ch = h.pick('choice', ['server', 'client'])
    r = w.c.update(inputs=[ch])
    asked = not h.world.inputs
    if asked: h.cover(ch)
    else: h.cover('server'); h.cover('client')
    h.check(r.ok, 'the update fails: ' + r.text())
    want = w.merged(['/a'] if asked and ch == 'server' else [])
    h.check(lib.same(w.c.files(), want), 'a conflict is not resolved as chosen')
    man, rev = w.c.manifest()
    h.check(rev == w.v2, 'after resolving all conflicts the version is not recorded as held')
    r = w.c.commit()
    h.check(r.ok and lib.same(w.s.files(), want), 'what was resolved to the client is not published by the next commit')

CF = '/.bvn/conflict_resolution'
def fill(h, w, choices):
    """The user fills in the resolution file the client wrote; choices in the order of the file."""
    parts = h.read(w.c.wc + CF).split(b'Resolution: \n')
    h.check(len(parts) == len(choices) + 1, 'the resolution file does not have one entry per conflict')
    out = parts[0]
    for c, p in zip(choices, parts[1:]): out = out + b'Resolution: ' + c.encode() + b'\n' + p
    h.write(w.c.wc + CF, out)

def manual(h):
    w = conflicted(h, False)
    conf = w.conflicts()
    h.assume(len(conf) > 0)
    files = w.c.files(); rev = w.c.manifest()[1]
    dl = h.pick('download', ['y', 'n'])
    r = w.c.update(inputs=['manual', dl])
    h.check(r.kind == 'exit', 'the choice of manual resolution does not end the update: ' + r.text())
    untouched(h, w, files, rev)
    copies = h.tree(w.c.wc + '/.bvn/conflict_files')
    if dl == 'y' and any(q in w.head for q in conf):
        h.cover('downloaded')
        h.check(lib.same(copies, {q: w.head[q] for q in conf if q in w.head}), 'the server versions written for comparison are wrong')
    else: h.check(len(copies) == 0, 'server versions are downloaded unasked')
    order = [q for q in conf]
    text = h.read(w.c.wc + CF).decode('utf8')
    order.sort(key=lambda q: text.find('Path:  ' + q + '\n'))
    ch = {q: h.pick('choice' + q, ['server', 'client']) for q in order}
    fill(h, w, [ch[q] for q in order])
    for q in order: h.cover(ch[q])
    outcome(h, w, w.c.update(), [q for q in order if ch[q] == 'server'])
    h.check(not h.exists(w.c.wc + CF), 'the resolution file stays')

def names(h, lens, al):
    q1 = '/' + h.text('name', lens, al); q2 = '/x y'
    w = wc.Copy(h, {q1: h.lit(1), q2: h.lit(2), '/k': h.lit(3)})
    w.write(q1, h.lit(20)); w.write(q2, h.lit(21))
    w.server({q1: h.lit(30), q2: h.lit(31)})
    r = w.c.update(inputs=['manual', 'n'])
    h.check(r.kind == 'exit', 'the choice of manual resolution does not end the update: ' + r.text())
    first = h.pick('which', [q1, q2])
    text = h.read(w.c.wc + CF).decode('utf8')
    a, b = text.find('Path:  ' + q1 + '\n'), text.find('Path:  ' + q2 + '\n')
    h.check(a >= 0 and b >= 0, 'the resolution file does not name the conflicting paths')
    ch = {q1: 'server', q2: 'client'} if first is q1 else {q1: 'client', q2: 'server'}
    fill(h, w, [ch[q1], ch[q2]] if a < b else [ch[q2], ch[q1]])
    h.cover('resolved')
    outcome(h, w, w.c.update(), [first], commit=False)

def refused(h):
    w = conflicted(h, False, always=list(KINDS))
    files = w.c.files(); rev = w.c.manifest()[1]
    e = {q: [q, 'client'] for q in sorted(KINDS)}
    bad = h.pick('bad', ['none', 'missing', 'other', 'extra', 'choice', 'empty-choice', 'header', 'res-header', 'short', 'empty', 'nothing', 'case', 'twice'])
    which = h.pick('which', sorted(KINDS))
    sep = '------------\n'
    def entry(p, c, a='Path', b='Resolution'): return sep + '%s:  %s\nClient Changed server Changed\n%s: %s\n\n' % (a, p, b, c)
    if bad == 'missing': del e[which]
    elif bad == 'other': e[which][0] = h.pick('other', ['/k', '/l', '/zz', which + ' '])
    elif bad == 'extra': e['extra'] = [h.pick('other', ['/k', '/l', '/zz']), h.pick('extra', ['client', 'server'])]
    elif bad == 'choice': e[which][1] = h.pick('word', ['both', 'cliente', 'clientserver', 'client or server'])
    elif bad == 'empty-choice': e[which][1] = ''
    elif bad == 'case': e[which][1] = 'CLIENT'
    text = 'Please write either "client" or "server" after each resolution block \n\n'
    for q, (p, c) in e.items():
        if q == which and bad == 'header': text += entry(p, c, a='Pth')
        elif q == which and bad == 'res-header': text += entry(p, c, b='Result')
        elif q == which and bad == 'short': text += sep + 'Path:  ' + p + '\n'
        else: text += entry(p, c)
        if q == which and bad == 'twice': text += entry(p, c)
    if bad == 'empty': text = ''
    if bad == 'nothing': text = sep
    h.write(w.c.wc + CF, text.encode())
    r = w.c.update()
    if bad in ('none', 'case', 'twice'): h.cover('accepted'); outcome(h, w, r, []); return
    if bad == 'extra' and e['extra'] == ['/l', 'server']:
        # a path the update brings in anyway
        if r.ok: outcome(h, w, r, []); return
    h.cover('refused')
    h.check(not r.ok, 'a resolution file that does not fit the conflicts is accepted')
    untouched(h, w, files, rev)

def stale(h):
    """A resolution file that has done its work never resolves a later conflict."""
    base = {'/a': h.lit(1), '/k': h.lit(4)}
    w = wc.Copy(h, base, timed=True)
    w.write('/a', h.lit(20)); w.server({'/a': h.lit(30)})
    h.write(w.c.wc + CF, ('\n------------\nPath:  /a\nClient Changed server Changed\nResolution: server\n\n').encode())
    c = w.c
    c.process()
    h.world.argv[:] = ['bvn', 'update']; h.world.inputs[:] = []
    h.arm(c.P); c.P.attempt(c.c.run)
    dead = h.crashed(c.P); h.disarm(); c.end()
    if dead: h.cover('died')
    h.check(w.c.update().ok, 'an interrupted update cannot be run again')
    h.check(lib.same(w.c.files(), w.merged(['/a'])), 'a conflict is not resolved as chosen')
    w.write('/a', h.lit(21)); w.server({'/a': h.lit(31)})
    r = w.c.update(inputs=['client'])
    h.check(r.ok and not h.world.inputs and h.read(w.c.wc + '/a') == h.lit(21), 'an old resolution file resolves a new conflict')

def compared(h):
    """Another user's version appears while the server versions are downloaded for comparison."""
    w = conflicted(h, False, ['/a', '/n'])
    conf = w.conflicts()
    at = h.int('at', 0, 6)
    q = h.pick('then', sorted(w.head))
    gone = h.flag('deleted')
    st = {'n': 0, 'v3': None, 'when': None}
    def hook(action, headers):
        n = st['n']; st['n'] += 1
        if st['v3'] is None and at == n: st['v3'] = w.s.version({} if gone else {q: h.lit(50)}, [q] if gone else []); st['when'] = action
    w.c.hook = hook
    r = w.c.update(inputs=['manual', 'y'])
    w.c.hook = None
    h.check(r.kind == 'exit', 'the choice of manual resolution does not end the update: ' + r.text())
    if st['v3'] is None or st['when'] != 'pull_file': return
    h.cover('during')
    copies = h.tree(w.c.wc + '/.bvn/conflict_files')
    h.check(lib.same(copies, {p: w.head[p] for p in conf if p in w.head}), 'the server versions written for comparison are not those of the conflict')
