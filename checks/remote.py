"""Backups on a model of the remote store, and what must be there."""
import checks.lib as lib

EMPTY = 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'

def at(kind, x): return kind + '/' + x[:2] + '/' + x[2:]

def extra(cs=1000, pw='secret'):
    return {'s3': {'access_key': 'a', 'secret_key': 'b', 'bucket': 'bucket'}, 'crypto': {'crypt_password': pw}, 'chunk_size': cs}

def details(s, repos=None, **over):
    """Configuration of the repositories, backed up unless said otherwise."""
    return {r: dict({'path': s.path(r), 'backup': True}, **over.get(r, {})) for r in (repos or s.repos)}

def tool(h, s, cmd, repos=None, cs=1000, pw='secret', name='tool'):
    r, P = lib.admin(h, repos or details(s), cmd, extra=extra(cs, pw), name=name)
    P.end()
    return r

def needs(h, s, repo='repo', upto=None):
    """{version: object keys it needs} of the history, oldest last."""
    P, st = s.store(repo, 'reader')
    out = {}
    v = P.run(st.get_head) if upto is None else upto
    while v != 'root':
        c = P.run(st.read_commit_index_object, v)
        n = {at('index', v)}
        def tree(t):
            n.add(at('index', t))
            o = P.run(st.read_tree_index_object, t)
            for f in o['files'].values(): n.add(at('files', f['hash']))
            for d in o['dirs'].values(): tree(d)
        tree(c['tree_root'])
        out[v] = n
        v = c['parent']
    P.end()
    return out
