"""C42: names and messages arrive as they are."""
import checks.lib as lib
BOUNDS = {'quick': 'a working copy with a file of an earlier version and a new file whose name has one or two symbolic characters out of all of Unicode but "/", NUL and surrogates (white space at '
                   'either end, colons, line breaks, quotes included), alone, at the start or end of the name of a file or of its directory; committed, fetched by a second working copy, edited and '
                   'deleted there and fetched by the first; commit messages of up to two such characters, alone or around other text; the requests and answers travel as bytes through the real client, parser and server',
          'thorough': 'three characters in a name, messages of four'}
BUDGET = {'quick': 400, 'thorough': 850}
CHARS = ((1, 0x2e), (0x30, 0xd7ff), (0xe000, 0x10ffff))
ANY = ((1, 0xd7ff), (0xe000, 0x10ffff))
FORMS = ['/X', '/aX', '/Xa', '/dX/f', '/Xd/f', '/d/X']

def plan(tier):
    q = tier == 'quick'
    return [dict(name='names', fn='names', params=dict(forms=FORMS, n=[1] if q else [1, 2]), covers=['published', 'space-after', 'space-before', 'lf', 'colon', 'unicode']),
            dict(name='long', fn='names', params=dict(forms=['/aX'] if q else ['/X', '/aX'], n=[2] if q else [3], short=True), covers=['published', 'refused']),
            dict(name='messages', fn='messages', params=dict(n=[0, 1, 2] if q else [0, 1, 2, 3, 4]), covers=['published', 'refused', 'space-after', 'space-before', 'lf'])]

def tell(h, v):
    if v[-1:] in (' ', '\t', '\n', '\r', '\x0b', '\x0c'): h.cover('space-after')
    if v[:1] == ' ' or v[:2] == '/ ': h.cover('space-before')
    if '\n' in v: h.cover('lf')
    if ':' in v: h.cover('colon')
    if any(c > '\u07ff' for c in v): h.cover('unicode')

def names(h, forms, n, short=False):
    f = h.pick('form', list(forms))
    x = h.text('name', n, CHARS)
    at = f.index('X')
    path = f[:at] + x + f[at + 1:]
    for c in path.split('/')[1:]:
        if len(c) < 3: h.assume(c != '.' and c != '..')
    h.assume(path != '/a' and path != '/d' and path != '/.bvn')
    tell(h, path)
    s = lib.Server(h, users={'u': {'public_key': lib.PUB, 'uses_repositories': ['repo']}, 'v': {'public_key': lib.PUB1, 'uses_repositories': ['repo']}}, start=False)
    s.version({'/a': h.lit(1)})
    s.start()
    a = lib.Client(h, s, '/wca', exact=True)
    b = lib.Client(h, s, '/wcb', user='v', key=lib.PRIV1, addr='10.0.0.2', exact=True)
    r = a.update(); h.check(r.ok, 'update failed: ' + r.text())
    h.check(lib.same(a.files(), {'/a': h.lit(1)}), 'the update brought other files')
    a.write(path, h.lit(2))
    want = {'/a': h.lit(1), path: h.lit(2)}
    head = s.head()
    r = a.commit()
    new = s.head() != head
    if not new:
        h.cover('refused')
        # only what cannot be part of a header may be refused, or looks like a way out of the repository
        h.check('\r\n' in path or any(c == '.' or c == '..' for c in path.replace('\\', '/').split('/')), 'a file with a possible name cannot be committed: ' + r.text())
        h.check(lib.same(a.files(), want), 'a refused commit changed the working copy')
        # the name is no obstacle for other files once it is gone
        a.rm(path); a.write('/n', h.lit(3))
        r = a.commit(); h.check(r.ok, 'a commit failed: ' + r.text())
        h.check(lib.same(s.files(), {'/a': h.lit(1), '/n': h.lit(3)}), 'something of a refused commit was published')
        return
    h.cover('published')
    got = s.files()
    h.obs('names', list(got))
    h.check(lib.same(got, want), 'the version does not have the names and contents of the working copy')
    h.check(a.local_changes() == {}, 'a committed file is reported as changed')
    if short: return
    r = b.update(); h.check(r.ok, 'update failed: ' + r.text())
    h.check(lib.same(b.files(), want), 'the second working copy has other names or contents')
    h.check(b.local_changes() == {}, 'a fetched file is reported as changed')
    if h.flag('edit'):
        h.advance(5); b.write(path, h.lit(3)); want[path] = h.lit(3)
    else:
        b.rm(path); del want[path]
    r = b.commit(); h.check(r.ok, 'a commit failed: ' + r.text())
    h.check(lib.same(s.files(), want), 'a change of the file was not published under its name')
    r = a.update(); h.check(r.ok, 'update failed: ' + r.text())
    h.check(lib.same(a.files(), want), 'the change did not reach the first working copy')
    h.check(a.local_changes() == {} and b.local_changes() == {}, 'a working copy has changes in the end')

def messages(h, n):
    x = h.text('message', n, ANY)
    m = h.pick('form', ['', 'a', 'z']) 
    msg = x if m == '' else x + 'a' if m == 'a' else 'z' + x
    tell(h, msg)
    s = lib.Server(h)
    a = lib.Client(h, s, '/wca', exact=True)
    a.write('/f', h.lit(2))
    r = a.commit(msg)
    if s.head() == 'root':
        h.cover('refused')
        h.check('\r\n' in msg, 'a commit with a possible message is refused: ' + r.text())
        r = a.commit('m'); h.check(r.ok, 'a commit failed: ' + r.text()); msg = 'm'
        h.check(s.head() != 'root', 'a commit with another message is refused as well')
    else: h.cover('published')
    h.check(lib.same(s.files(), {'/f': h.lit(2)}), 'the version does not have the files of the working copy')
    P, vs = s.store('repo', 'reader')
    got = P.run(vs.read_commit_index_object, P.run(vs.get_head))['commit_message']
    h.obs('message', got)
    h.check(got == msg or msg == '', 'the message was recorded differently')
