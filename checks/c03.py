"""C03: a stored version lists exactly the files put in it; lookups agree with the listing."""
BOUNDS = {'quick': '2 files with arbitrary rooted symbolic paths of 1 or 3 further characters over {/ a b} (so nesting, shared prefixes, equal names, a file and a directory of one name, '
                   'empty components), plus 3 files over {/ a b} with 2 characters; one symbolic looked-up path; contents equal or different; 2 files in directories or with names of 1 or 2 arbitrary characters',
          'thorough': '2 files of up to 4 characters over {/ . a b}, 3 files of up to 4 over {/ a b}'}
AB = ((46, 47), (97, 98))
SM = ((47, 47), (97, 98))

def plan(tier):
    out = [dict(name='two', fn='store', params=dict(k=2, lens=[1, 3], al=SM, q=[1, 3]), covers=['listed', 'absent', 'dir']),
           dict(name='three', fn='store', params=dict(k=3, lens=[2], al=SM, q=[2]), covers=['listed', 'absent']),
           dict(name='any-char', fn='store', params=dict(k=2, lens=[1], al=((1, 0xd7ff), (0xe000, 0x10ffff)), q=[1]), covers=['listed', 'absent']),
           dict(name='dir-names', fn='store', params=dict(k=2, lens=[1, 2] if tier == 'quick' else [1, 2, 3], al=((1, 46), (48, 0xd7ff), (0xe000, 0x10ffff)), q=[1, 2], form='%/f'), covers=['listed', 'absent']),
           dict(name='names-in-dir', fn='store', params=dict(k=2, lens=[1, 2] if tier == 'quick' else [1, 2, 3], al=((1, 46), (48, 0xd7ff), (0xe000, 0x10ffff)), q=[2], form='d/%'), covers=['listed', 'absent'])]
    if tier != 'quick':
        out += [dict(name='two-long', fn='store', params=dict(k=2, lens=[1, 3, 4], al=AB, q=[1, 3]), covers=['listed', 'absent', 'dir']),
                dict(name='three-long', fn='store', params=dict(k=3, lens=[2, 3], al=SM, q=[2]), covers=['listed', 'absent'])]
    return out

def store(h, k, lens, al, q, form='%'):
    pre, suf = form.split('%')
    P = h.proc('server')
    base = h.p('/data')
    h.mkdirs(base)
    vsm = P.mod('bversion.storage.versioned_storage')
    sdb = P.mod('bversion.storage.server_db')
    vs = P.run(vsm.versioned_storage, base)
    P.run(P.run(sdb.get_server_db_instance_for_thread, base).db_init)
    paths = []; cont = []
    for i in range(k):
        p = '/' + pre + h.text('p%d' % i, lens, al) + suf
        for o in paths: h.assume(p != o)
        paths.append(p); cont.append(h.lit(h.choose('c%d' % i, 2) if i else 0))
    P.run(vs.begin, 'u', 'ip', 't')
    for i in range(k):
        h.write(base + '/up', cont[i])
        P.run(vs.fs_put_from_file, base + '/up', {'path': paths[i]})
    r = P.attempt(vs.commit, 'm', 'u')
    h.check(r.ok, 'the version could not be written: ' + r.text())
    version = r.value
    R = h.proc('reader')
    vs2 = R.run(R.mod('bversion.storage.versioned_storage').versioned_storage, base)
    r = R.attempt(vs2.get_commit_files, version)
    h.check(r.ok, 'the version cannot be listed: ' + r.text())
    got = r.value
    h.obs('listed', sorted(got.keys()))
    h.check(len(got) == k, 'the version lists %d files instead of %d' % (len(got), k))
    for i in range(k):
        h.check(paths[i] in got, 'a file is missing from the listing')
        h.check(got[paths[i]]['hash'] == h.sha(cont[i]), 'a file is listed with another content')
        h.check(got[paths[i]]['path'] == paths[i], 'a file is listed under another path')
        if paths[i].count('/') > 1: h.cover('dir')
    a = '/' + pre + h.text('q', q, al) + suf
    r = R.attempt(vs2.get_file_info_from_path, a, version)
    want = None
    for i in range(k):
        if a == paths[i]: want = h.sha(cont[i])
    if want is None:
        h.check(not r.ok, 'a path that is not listed is found')
        h.cover('absent')
    else:
        h.check(r.ok, 'a listed path is not found: ' + r.text())
        h.check(r.value['hash'] == want, 'the lookup gives another content than the listing')
        h.check(r.value['path'] == a, 'the lookup gives another path')
        h.cover('listed')
