"""Stand-ins used both by symbolic runs and by real replays: sqlite wrapper, S3, sockets.  They carry no property logic."""
import io, re, sqlite3

# ------------------------------------------------------------------------------------------------ sqlite
class Codec:
    """Real runs pass values through unchanged."""
    def enc(self, v): return v
    def dec(self, v): return v
    def sql(self, s): return s

class SimConnection:
    """sqlite3.Connection with a crash point before every commit; a dead process loses its open transaction."""
    def __init__(self, world, proc, con, codec, path):
        self.__dict__.update(_w=world, _p=proc, _c=con, _codec=codec, _path=path, _closed=False, _thread=proc.thread)
        proc.cons.append(self)
        if hasattr(world, 'sync_sql'): world.sync_sql(con)
    def _q(self):
        if not self._w.quiet: self._p.check()
    def __getattr__(self, n): return getattr(self._c, n)
    def __setattr__(self, n, v):
        if n == 'row_factory' and v is not None:
            codec = self._codec
            if isinstance(v, type) and v is sqlite3.Row: self._c.row_factory = v; return
            f = v
            v = lambda cur, row: f(cur, tuple(codec.dec(x) for x in row))
        setattr(self._c, n, v)
    def cursor(self, *a): self._q(); return SimCursor(self, self._c.cursor())
    def _pre(self, sql):
        self._q()
        if self._w.stmt_observers: self._w.point(self._p, 'sql', self._path)
        s = sql.strip().lower() if isinstance(sql, str) else ''
        verb = s.split(None, 1)[0] if s else ''
        if not self._c.in_transaction:
            if verb in ('create', 'drop', 'alter', 'reindex', 'vacuum') or \
               (self._c.isolation_level is None and verb in ('insert', 'update', 'delete', 'replace')):
                self._w.tick(self._p, 'sqlcommit', self._path)
        elif verb in ('commit', 'end'): self._w.tick(self._p, 'sqlcommit', self._path)
        return self._codec.sql(sql)
    def _args(self, a):
        if not a: return a
        p = a[0]
        if isinstance(p, dict): return ({k: self._codec.enc(v) for k, v in p.items()},) + a[1:]
        return (tuple(self._codec.enc(v) for v in p),) + a[1:]
    def execute(self, sql, *a): return self.cursor().execute(sql, *a)
    def executemany(self, sql, rows): return self.cursor().executemany(sql, rows)
    def executescript(self, s): self._q(); self._w.tick(self._p, 'sqlcommit', self._path); return self._c.executescript(s)
    def commit(self):
        self._q()
        if self._c.in_transaction: self._w.tick(self._p, 'sqlcommit', self._path)
        self._c.commit()
    def rollback(self): self._q(); self._c.rollback()
    def close(self):
        if not self._closed:
            self.__dict__['_closed'] = True
            self._c.close()
    def __enter__(self): return self
    def __exit__(self, t, v, tb):
        if t is None: self.commit()
        else: self.rollback()

class SimCursor:
    def __init__(self, con, cur): self.__dict__.update(_con=con, _cur=cur)
    @property
    def connection(self): return self._con
    def __getattr__(self, n): return getattr(self._cur, n)
    def __setattr__(self, n, v): setattr(self._cur, n, v)
    def execute(self, sql, *a):
        sql = self._con._pre(sql)
        self._cur.execute(sql, *self._con._args(a)); return self
    def executemany(self, sql, rows):
        for r in rows: self.execute(sql, r)
        return self
    def executescript(self, s): self._con.executescript(s); return self
    def _dec(self, r):
        if r is None or self._con._c.row_factory is not None: return r
        return tuple(self._con._codec.dec(x) for x in r)
    def fetchall(self): self._con._q(); return [self._dec(r) for r in self._cur.fetchall()]
    def fetchone(self): self._con._q(); return self._dec(self._cur.fetchone())
    def fetchmany(self, *a): self._con._q(); return [self._dec(r) for r in self._cur.fetchmany(*a)]
    def __iter__(self): return iter(self.fetchall())

# ------------------------------------------------------------------------------------------------ S3
class NoSuchKey(Exception): pass
class ClientError(Exception): pass
class S3Body:
    def __init__(self, data, ln): self.d = data; self.pos = 0; self.ln = ln
    def read(self, n=None):
        rest = self.d[self.pos:] if not (isinstance(self.pos, int) and self.pos == 0) else self.d
        out = rest if n is None else rest[:n]
        self.pos = self.pos + self.ln(out)
        return out
    def close(self): pass
    def iter_chunks(self, n=1024):
        while True:
            c = self.read(n)
            if self.ln(c) == 0: return
            yield c

class S3State:
    """One bucket: visible objects, multipart uploads in progress."""
    def __init__(self, page=1000):
        self.objects = {}; self.uploads = {}; self.page = page; self.n = 0; self.puts = []; self.versioning = True

class S3Client:
    class exceptions:
        NoSuchKey = NoSuchKey
        ClientError = ClientError
    def __init__(self, world, proc, st, ln, join):
        self.w = world; self.p = proc; self.st = st; self.ln = ln; self.joinb = join
    def _t(self, kind, key=''):
        if not self.w.quiet: self.p.check()
        self.w.tick(self.p, 's3' + kind, key)
    def get_bucket_versioning(self, Bucket): return {'Status': 'Enabled'} if self.st.versioning else {}
    def put_bucket_versioning(self, **k): self.st.versioning = True
    def list_objects(self, Bucket, Prefix='', Marker=None, MaxKeys=None, **k):
        if not self.w.quiet: self.p.check()
        ks = sorted(q for q in self.st.objects if q.startswith(Prefix) and (Marker is None or q > Marker))
        page = min(self.st.page, MaxKeys or self.st.page)
        out = {'IsTruncated': len(ks) > page}
        if ks: out['Contents'] = [{'Key': q, 'Size': self.ln(self.st.objects[q])} for q in ks[:page]]
        return out
    def list_objects_v2(self, Bucket, Prefix='', ContinuationToken=None, StartAfter=None, MaxKeys=None, **k):
        r = self.list_objects(Bucket, Prefix, ContinuationToken or StartAfter, MaxKeys)
        if r['IsTruncated']: r['NextContinuationToken'] = r['Contents'][-1]['Key']
        r['KeyCount'] = len(r.get('Contents', []))
        return r
    def get_object(self, Bucket, Key, VersionId=None, **k):
        if not self.w.quiet:
            self.p.check()
            if self.w.fault is not None: self.w.fault(self.p, 's3get', Key)
        if Key not in self.st.objects: raise NoSuchKey(Key)
        d = self.st.objects[Key]
        return {'VersionId': 'v', 'Body': S3Body(d, self.ln), 'ContentLength': self.ln(d), 'ContentType': 'binary/octet-stream',
                'Metadata': {}, 'LastModified': 0}
    def head_object(self, Bucket, Key, **k):
        if Key not in self.st.objects: raise ClientError('404')
        return {'ContentLength': self.ln(self.st.objects[Key])}
    def put_object(self, Bucket, Key, Body=b'', **k):
        self._t('put', Key)
        if hasattr(type(Body), 'read'): Body = Body.read()
        self.st.objects[Key] = Body; self.st.puts.append(Key)
        return {'VersionId': 'v'}
    def delete_object(self, Bucket, Key, **k): self._t('delete', Key); self.st.objects.pop(Key, None); return {}
    def delete_objects(self, Bucket, Delete, **k):
        for o in Delete['Objects']: self.delete_object(Bucket, o['Key'])
        return {}
    def create_multipart_upload(self, Bucket, Key, **k):
        self._t('create', Key)
        self.st.n += 1; uid = 'u%d' % self.st.n
        self.st.uploads[uid] = (Key, {})
        return {'UploadId': uid}
    def upload_part(self, Bucket, Key, PartNumber, UploadId, Body, **k):
        self._t('part', Key)
        if UploadId not in self.st.uploads or self.st.uploads[UploadId][0] != Key: raise ClientError('NoSuchUpload')
        if hasattr(type(Body), 'read'): Body = Body.read()
        self.st.uploads[UploadId][1][PartNumber] = Body
        return {'ETag': 'e%d' % PartNumber}
    def complete_multipart_upload(self, Bucket, Key, UploadId, MultipartUpload, **k):
        self._t('complete', Key)
        if UploadId not in self.st.uploads or self.st.uploads[UploadId][0] != Key: raise ClientError('NoSuchUpload')
        parts = self.st.uploads[UploadId][1]
        want = [p['PartNumber'] for p in MultipartUpload.get('Parts', [])]
        if not want: raise ClientError('MalformedXML: no parts')
        if want != sorted(want) or any(n not in parts for n in want): raise ClientError('InvalidPart')
        self.st.objects[Key] = self.joinb([parts[n] for n in want]); self.st.puts.append(Key)
        del self.st.uploads[UploadId]
        return {'VersionId': 'v'}
    def abort_multipart_upload(self, Bucket, Key, UploadId, **k): self._t('abort', Key); self.st.uploads.pop(UploadId, None); return {}
    def list_multipart_uploads(self, Bucket, **k):
        out = {'IsTruncated': False}
        if self.st.uploads: out['Uploads'] = [{'Key': v[0], 'UploadId': u} for u, v in self.st.uploads.items()]
        return out
