From 5b2d0a280eb62ed6312bb9daadc63b54d44feb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 01/44] fix: cpjoin must not treat whitespace around a path
 piece as if it were absent

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 58e12bc..988f3e3 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -114,8 +114,8 @@ def cpjoin(*args: str) -> str:
     if len(args) == 0:
         return ''
 
-    rooted = bool(args[0].strip().startswith('/'))
-    ended  = bool(args[-1].strip().endswith('/'))
+    rooted = bool(args[0].startswith('/'))
+    ended  = bool(args[-1].endswith('/'))
 
     split_items = []
 
-- 
2.43.0


From d7608f56140b44a21dec475862206d7671da80ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 02/44] fix: merge_config uses collections.abc.Mapping,
 collections.Mapping is gone since Python 3.10

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 988f3e3..f9119ab 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -1,5 +1,5 @@
 import os.path, hashlib, errno, copy
-import collections
+import collections.abc
 from typing import List, Dict, Any, cast, Tuple
 from typing_extensions import TypedDict
 from termcolor import colored
@@ -8,7 +8,7 @@ from termcolor import colored
 def merge_config(config, parsed_config):
     def dict_merge(dct, merge_dct): # recursive dict merge from https://gist.github.com/angstwad/bf22d1822c38a92ec0a9
         for k in merge_dct.keys():
-            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.Mapping)):
+            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.abc.Mapping)):
                 dict_merge(dct[k], merge_dct[k])
             else: dct[k] = merge_dct[k]
     dict_merge(config, parsed_config)
-- 
2.43.0


From 32f704bca2a25e8cd653dbcd4026dc55137aa17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 03/44] fix: unlock_private_key compared an int with bytes, so
 an encrypted key was never decrypted

---
 bversion/crypto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/crypto.py b/bversion/crypto.py
index a66f5ea..9dd4fb3 100644
--- a/bversion/crypto.py
+++ b/bversion/crypto.py
@@ -44,7 +44,7 @@ def make_keypair() -> Tuple[bytes, bytes]:
 def unlock_private_key(private_key_b64: str) -> bytes:
     private_key: bytes = base64.b64decode(private_key_b64)
 
-    if private_key[0] == b'y':
+    if private_key[0:1] == b'y':
         sbytes: int = pysodium.crypto_pwhash_SALTBYTES
         nbytes: int = pysodium.crypto_box_NONCEBYTES
         salt: bytes = private_key[1:sbytes+1]
-- 
2.43.0


From 16f6c5cb84213d31b5d141ddee8a5d08556825b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 04/44] fix: push_file stored a path without leading slash
 under another name

---
 bversion/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bversion/server.py b/bversion/server.py
index c815333..a04e613 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -470,8 +470,11 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
 
     if data_store.get_active_commit() is None: return fail(no_active_commit_msg)
 
-    # There is no valid reason for path traversal characters to be in a file path within this system
+    # Paths are rooted at the top of the repository, without the leading slash the first component would be lost
     file_path = request.headers['path']
+    if not file_path.startswith('/'): return fail()
+
+    # There is no valid reason for path traversal characters to be in a file path within this system
     if any(True for item in re.split(r'\\|/', file_path) if item in ['..', '.']): return fail()
 
     #===
-- 
2.43.0


From ad538817619662f3f97e65d785afcb6aeb12f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 05/44] fix: two concurrent requests could both use the same
 authentication token

---
 bversion/server.py            | 3 ++-
 bversion/storage/server_db.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index a04e613..b07e0f4 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -167,7 +167,8 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
 
             # Everything OK, clean up transient token and
             # generate a session token for the client
-            sdb.delete_token(auth_token)
+            if not sdb.delete_token(auth_token):
+                return fail(user_auth_fail_msg)
 
             session_token = sdb.create_session(extend_session_duration, client_ip, user)
 
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f21086e..d85ef40 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -131,8 +131,11 @@ class server_db:
 
     #===============================================================================
     def delete_token(self, auth_token):
-        self.con.execute("delete from tokens where token = ?", (auth_token,))
+        """ Returns false if the token was already gone, it may only be used once """
+
+        res = self.con.execute("delete from tokens where token = ?", (auth_token,))
         self.con.commit()
+        return res.rowcount == 1
 
 
     #===============================================================================
-- 
2.43.0


From 36e5a27e0e8567630183c3cfe2c5646ee6dec2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 06/44] fix: a request for another repository on the same
 connection threw away the state of the commit in progress

---
 bversion/storage/server_db.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index d85ef40..d12619b 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -13,19 +13,16 @@ def get_server_db_instance_for_thread(db_file_path, need_to_recreate = False, pa
     if path_override is not None:
         db_file_path = path_override
 
-    old_db_path = getattr(threadLocal, 'old_db_path', '')
-    if old_db_path != db_file_path:
-        need_to_recreate = True
+    # One instance per repository, as an instance holds the state of the commit in progress
+    # and a connection may refer to several repositories
+    db_instances = getattr(threadLocal, 'db_instances', None)
+    if db_instances is None:
+        db_instances = threadLocal.db_instances = {}
 
-    db_instance = getattr(threadLocal, 'db_instance', None)
-    if db_instance is None:
-        need_to_recreate = True
+    if need_to_recreate or db_file_path not in db_instances:
+        db_instances[db_file_path] = server_db(db_file_path, path_override = path_override)
 
-    if need_to_recreate:
-        threadLocal.db_instance = server_db(db_file_path, path_override = path_override)
-        threadLocal.old_db_path = db_file_path
-
-    return threadLocal.db_instance
+    return db_instances[db_file_path]
 
 
 #=====================================================
-- 
2.43.0


From 62fa0d71d54423b7902bb27a7e6c64ef165a5e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 07/44] fix: begin_commit took the owner of a commit from a
 request header instead of the authenticated session

---
 bversion/server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index b07e0f4..8ecf1d0 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -430,17 +430,17 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     commit_files = {}
 
     if active_commit is not None:
-        if active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr:
+        if active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr:
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
-            data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
+            data_store.begin(current_user['username'], request.remote_addr, session_token, resume = True)
 
         else:
             data_store.rollback()
-            data_store.begin(request.headers['user'], request.remote_addr, session_token)
+            data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     else:
-        data_store.begin(request.headers['user'], request.remote_addr, session_token)
+        data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     #------------
     return success(data={'partial_commit' : commit_files})
-- 
2.43.0


From 48929fbd9638bb008367c433a201fccd3155bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 08/44] fix: the write lock of one repository allowed a
 connection to change any other one

---
 bversion/server.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 8ecf1d0..561817b 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -401,15 +401,19 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     data_store = versioned_storage(repository_path,
                                    path_override = config['repositories'][repository]['transient_db_path_override'])
 
+    # A connection can only be inside one commit at a time
+    if context.lock is not False:
+        return fail(lock_fail_msg)
+
     # ==
     have_lock = data_store.lock()
     if not have_lock:
         return fail(lock_fail_msg)
 
     else:
-        context.lock = True
+        context.lock = repository
         def unlock():
-            if context.lock is True:
+            if context.lock is not False:
                 data_store.unlock()
                 context.lock = False
 
@@ -421,6 +425,7 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     # handled by the client, and a server interface for this is not needed.
     if data_store.get_head() != request.headers["previous_revision"]:
         if data_store.get_active_commit() is not None: data_store.rollback()
+        unlock()
         return fail(need_to_update_msg)
 
     # if the last active commit was by the same user and ip, get the partial committed files
@@ -462,7 +467,7 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -509,7 +514,7 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
     body_data = request.get_json()
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -545,7 +550,7 @@ def commit(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
-- 
2.43.0


From 056d57baa104a175cd0416b1f8aa5e34a34dce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 09/44] fix: remove_from_commit stopped at the first file not
 in the head, and a path could not be pushed or deleted after being staged

---
 bversion/storage/server_db.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index d12619b..ea96bc4 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -239,8 +239,8 @@ class server_db:
 
         file_info['status'] = 'changed' if self.file_exists_in_commit (file_info['path']) != [] else 'new'
 
-        # Update commit changes
-        self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+        # Update commit changes, the path may have been pushed or deleted earlier in this commit
+        self.con.execute("insert or replace into active_commit_changes (hash, path, status) values (?, ?, ?)",
                          (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
@@ -251,22 +251,19 @@ class server_db:
     #===============================================================================
     def remove_from_commit(self, files):
 
-        for it in files:
-            file_path = it['path']
-
-            # We don't need to do anything if the file doesnt exist
+        for file_path in [it['path'] for it in files]:
             the_file = self.file_exists_in_commit(file_path)
-            if the_file == []: return
+
+            # The file may have been pushed earlier in this commit
+            self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
+
+            # We don't need to do anything else if the file doesnt exist
+            if the_file == []: continue
             file_info = the_file[0]
 
             # Update commit changes
-            already_deleted = self.con.execute("select * from active_commit_changes where status='deleted' and path = ?",
-                                            (file_info['path'],)).fetchall()
-
-            if already_deleted == []:
-                file_info['status'] = 'deleted'
-                self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
-                                (file_info['hash'], file_info['path'], file_info['status']))
+            self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+                            (file_info['hash'], file_info['path'], 'deleted'))
 
         self.con.commit()
 
-- 
2.43.0


From 2bf1188f9bd011b089471f12e497dd684a938a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 10/44] fix: a commit that turned out to be empty stayed open

---
 bversion/storage/versioned_storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 8bd5738..31ad09f 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -265,7 +265,9 @@ class versioned_storage:
         sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
         current_changes, active_files = sdb.get_commit_state()
 
-        if current_changes == []: return self.get_head()
+        if current_changes == []:
+            self.rollback()
+            return self.get_head()
 
         # Create and store the file tree
         tree_root   = self.write_dir_tree(self.build_dir_tree(active_files))
-- 
2.43.0


From 4a219736a9460c3e13d3ea3be48f3827ad2c4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 11/44] fix: rollback removed the objects of a completed commit
 when an earlier attempt to finish it had been interrupted

---
 bversion/storage/versioned_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 31ad09f..0d8d976 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -318,8 +318,9 @@ class versioned_storage:
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-            is_commit = next((item for item in gc_log_items if item['item_type'] == 'commit'), None)
-            if is_commit is not None and is_commit['item_hash'] == self.get_head():
+            # There can be several, as each interrupted attempt to finish the commit leaves one
+            head = self.get_head()
+            if any(item['item_type'] == 'commit' and item['item_hash'] == head for item in gc_log_items):
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From e1087223576175e51b1a2a16e5355e01102a52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 12/44] fix: resuming a commit after an interrupted rollback
 referred to objects the rollback had removed

---
 bversion/storage/server_db.py         | 5 +++++
 bversion/storage/versioned_storage.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index ea96bc4..277850e 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -271,6 +271,11 @@ class server_db:
     def get_active_commit_changes(self):
         return self.con.execute("select * from active_commit_changes").fetchall()
 
+    #===============================================================================
+    def clear_active_commit_changes(self):
+        self.con.execute("delete from active_commit_changes")
+        self.con.commit()
+
     #===============================================================================
     def get_commit_state(self):
         if self.active_files is None: raise Exception('active files not initilised')
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 0d8d976..931bfca 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -324,6 +324,10 @@ class versioned_storage:
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
+                # From here on nothing may refer to the objects, as the commit can still be
+                # resumed if we are interrupted before all of them are gone
+                sdb.clear_active_commit_changes()
+
                 for item in gc_log_items:
                     # delete the object for this file, noting that it may not exist
                     object_dir = 'files' if item['item_type'] == 'file' else 'index'
-- 
2.43.0


From 793570574d1eda33e4cd20cd2b737754703ed592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 13/44] fix: a commit that completed just before the server
 died was resumed and committed again

---
 bversion/server.py                    |  5 +++++
 bversion/storage/versioned_storage.py | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 561817b..90020f0 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -432,6 +432,11 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     # and send them back to allow resume, otherwise do rollback if needed.
     active_commit = data_store.get_active_commit()
 
+    # there is nothing left to resume if the commit did complete, apart from cleaning up after it
+    if active_commit is not None and data_store.active_commit_completed():
+        data_store.rollback()
+        active_commit = None
+
     commit_files = {}
 
     if active_commit is not None:
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 931bfca..db8fc20 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -308,6 +308,17 @@ class versioned_storage:
         return commit_object_hash
 
 
+#===============================================================================
+    def active_commit_completed(self) -> bool:
+        """ If a commit exists and it's hash matches the current head the commit succeeded but
+        we failed before deleting the active commit state for some reason. There can be several,
+        as each interrupted attempt to finish the commit leaves one """
+
+        head = self.get_head()
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        return any(item['item_type'] == 'commit' and item['item_hash'] == head for item in sdb.get_gc_log())
+
+
 #===============================================================================
     def rollback(self) -> None:
         if self.get_active_commit() is None: raise Exception()
@@ -316,11 +327,7 @@ class versioned_storage:
         gc_log_items = sdb.get_gc_log()
 
         if gc_log_items != []:
-            # If a commit exists and it's hash matches the current head we do not need to do anything
-            # The commit succeeded but we failed before deleting the active commit file for some reason
-            # There can be several, as each interrupted attempt to finish the commit leaves one
-            head = self.get_head()
-            if any(item['item_type'] == 'commit' and item['item_hash'] == head for item in gc_log_items):
+            if self.active_commit_completed():
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From 851f0f634ee9458c62cdbc9bd8d6eaa9bc202fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 14/44] fix: deletions staged in an interrupted commit were
 published even if the file had been restored since

---
 bversion/storage/server_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 277850e..818103b 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -220,6 +220,9 @@ class server_db:
         # Add the existing files to the commit
         self.active_files = active_files
 
+        # The client sends its deletions again, files which it had deleted may have come back
+        self.con.execute("delete from active_commit_changes where status = 'deleted'")
+
         self.con.execute("update active_commit_exists set session_token = ?", (session_token,))
         self.con.commit()
 
-- 
2.43.0


From 1a12ade86e69e5bb7d4ef30d2c9275100da2ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:40 +0000
Subject: [PATCH 15/44] fix: partial sends lost data, and a connection closed
 inside a message head was read from forever

---
 bversion/http/http_client.py | 6 ++++--
 bversion/http/http_server.py | 9 +++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 77e3758..d6f0c08 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -15,7 +15,7 @@ class HTTPClient:
         self.s.connect((host,port))
 
     def send(self, data: bytes):
-        self.s.send(data)
+        self.s.sendall(data)
 
     def send_headers(self, uri: str, headers: Dict[str, str]):
         msg = b"POST " + uri.encode('utf8') + b" HTTP/1.1\r\n"
@@ -35,7 +35,9 @@ class HTTPClient:
 
         # read request preamble
         while True:
-            data += self.s.recv(1024)
+            received = self.s.recv(1024)
+            if received == b'': raise Exception('Socket closed')
+            data += received
             if b"\r\n\r\n" in data: break
 
         preamble, body_partial = data.split(b"\r\n\r\n", 1)
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index 9a4e155..c31a8e1 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -52,8 +52,9 @@ def HTTPServer(host, port, connection_handler):
 
                 # read request preamble
                 while True:
-                    data += c.recv(1024)
-                    if data == b'': raise Exception('Socket closed')
+                    received = c.recv(1024)
+                    if received == b'': raise Exception('Socket closed')
+                    data += received
                     if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
@@ -97,7 +98,7 @@ def HTTPServer(host, port, connection_handler):
                     responce_headers += k + b':' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
-                c.send(responce_headers)
+                c.sendall(responce_headers)
 
                 if isinstance(rsp.body, ServeFile):
                     c.sendfile(open(rsp.body.path, 'rb'), 0)
@@ -106,7 +107,7 @@ def HTTPServer(host, port, connection_handler):
                     while True:
                         chunk = reader.read(4096)
                         if chunk == b'': break
-                        c.send(chunk)
+                        c.sendall(chunk)
 
         except:
             context.shutdown_handler()
-- 
2.43.0


From 30257941c7137f34f89e56e0125a9de00a3d9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 16/44] fix: bytes that arrived together with a message body
 but belong to the next request were mixed into the body or lost

---
 bversion/http/http_common.py | 4 +++-
 bversion/http/http_server.py | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 3500f45..5bc21e0 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -69,7 +69,9 @@ class read_body:
     def read(self, length = None) -> Union[bytes, None]:
         if self.have_read >= self.body_length: return None
 
-        if length is None: length = self.body_length - self.have_read
+        # what comes after the body belongs to the next message
+        remaining = self.body_length - self.have_read
+        length = remaining if length is None else min(length, remaining)
 
         retbuffer: bytes
         if len(self.body_partial) > 0:
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index c31a8e1..3e14f29 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -47,15 +47,14 @@ def HTTPServer(host, port, connection_handler):
         context = ConnectionContext()
 
         try:
-            while True:
-                data = b""
+            data = b""
 
+            while True:
                 # read request preamble
-                while True:
+                while b"\r\n\r\n" not in data:
                     received = c.recv(1024)
                     if received == b'': raise Exception('Socket closed')
                     data += received
-                    if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
 
@@ -79,6 +78,8 @@ def HTTPServer(host, port, connection_handler):
                 body_reader.dump() # as we are using persistant connections, we need to read and discard any
                                    # remaining body from the socket
 
+                data = body_reader.body_partial # the start of the next request may have arrived with this one
+
                 # generate client responce
                 responce_headers =  b"HTTP/1.1 200 OK\r\n"
                 responce_headers += b"Connection: Keep-Alive\r\n"
-- 
2.43.0


From 65ea422c7eb2b61f6bb1f5adf8376a18cb4a3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 17/44] fix: rolling back a move or write that could not be
 done moved other files or whole directories

---
 bversion/storage/journaling_filesystem.py | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index ffbd3c7..094739b 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -135,6 +135,10 @@ class journaling_filesystem:
 
         path = self.get_full_file_path(path)
 
+        # Nothing may be journaled for a path which cannot be written, undoing it would move the directory
+        if os.path.isdir(path):
+            raise OSError(errno.EISDIR, 'Is a directory', path)
+
         # if file exists, create a temp copy to allow rollback
         if os.path.isfile(path):
             tmp_path = self.new_tmp()
@@ -152,14 +156,19 @@ class journaling_filesystem:
 
         src = self.get_full_file_path(src); dst = self.get_full_file_path(dst)
 
-        # record where file moved
-        if os.path.isfile(src):
-            # if destination file exists, copy it to tmp first
-            if os.path.isfile(dst):
-                tmp_path = self.new_tmp()
-                self.do_action({
-                    'do'   : ['copy', dst, tmp_path],
-                    'undo' : ['move', tmp_path, dst]})
+        # A move which cannot be done must not be journaled, undoing it would move the destination to the source
+        if not os.path.isfile(src):
+            raise OSError(errno.ENOENT, 'No such file or directory', src)
+
+        if os.path.isdir(dst):
+            raise OSError(errno.EISDIR, 'Is a directory', dst)
+
+        # if destination file exists, copy it to tmp first
+        if os.path.isfile(dst):
+            tmp_path = self.new_tmp()
+            self.do_action({
+                'do'   : ['copy', dst, tmp_path],
+                'undo' : ['move', tmp_path, dst]})
 
         self.do_action(
             {'do'   : ['move', src, dst],
-- 
2.43.0


From 8bdd93ce1f0765608d0b2160be951e7dbbec1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 18/44] fix: rolling back a move that had not happened yet
 replaced the source with the destination

---
 bversion/storage/journaling_filesystem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 094739b..10d997b 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -77,6 +77,9 @@ class journaling_filesystem:
         d = command['do']
         if   d[cmd] == 'copy':   shutil.copy(d[src], d[dst])
         elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
+        elif d[cmd] == 'move_back':
+            # If the file is still at its original location, the move never happened or has already been undone
+            if not os.path.lexists(d[dst]): shutil.move(d[src], d[dst])
         elif d[cmd] == 'backup': shutil.move(d[src], self.new_backup(d[src]))
         elif d[cmd] == 'write' :
             if callable(d[data]): d[data](d[path])
@@ -172,7 +175,7 @@ class journaling_filesystem:
 
         self.do_action(
             {'do'   : ['move', src, dst],
-             'undo' : ['move', dst, src]})
+             'undo' : ['move_back', dst, src]})
 
 ############################################################################################
     def delete_file(self, path: str):
-- 
2.43.0


From bc9a6ab319164f7fa666827368630ad67b69a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 19/44] fix: rollback could put a partial or outdated temporary
 copy in place of a file, and lost its modification time

---
 bversion/storage/journaling_filesystem.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 10d997b..27ff74a 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -36,6 +36,13 @@ class journaling_filesystem:
         self.tmp_idx += 1
         return p.join(self.tmp_dir, 'tmp_' + str(self.tmp_idx))
 
+############################################################################################
+    def clear_tmp(self):
+        """ Remove all temp files """
+
+        for itm in os.listdir(self.tmp_dir):
+            os.remove(cpjoin(self.tmp_dir, itm))
+
 ############################################################################################
     def new_backup(self, src: str):
         """ Create a new backup file allocation """
@@ -62,6 +69,9 @@ class journaling_filesystem:
         if self.active_transaction is True:
             raise Exception('Multiple Begin not allowed')
 
+        # A copy left by an interrupted transaction must never be mistaken for one made by this transaction
+        self.clear_tmp()
+
         self.active_transaction = True
 
 ############################################################################################
@@ -75,7 +85,10 @@ class journaling_filesystem:
             self.client_db.commit()
 
         d = command['do']
-        if   d[cmd] == 'copy':   shutil.copy(d[src], d[dst])
+        if   d[cmd] == 'copy':
+            # The copy must appear complete or not at all, and keep the modification time
+            shutil.copy2(d[src], d[dst] + '.part')
+            os.rename(d[dst] + '.part', d[dst])
         elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
         elif d[cmd] == 'move_back':
             # If the file is still at its original location, the move never happened or has already been undone
@@ -118,8 +131,7 @@ class journaling_filesystem:
         self.client_db.commit()
 
         # Clear out the tmp files as they are no longer needed
-        for itm in os.listdir(self.tmp_dir):
-            os.remove(cpjoin(self.tmp_dir, itm))
+        self.clear_tmp()
 
         # ------------------
         self.active_transaction = False
-- 
2.43.0


From 02a0f4b03d6fa0eaec4846ab3a37ac2f33939ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 20/44] fix: an interruption while the backup index was written
 made every later rollback fail

---
 bversion/storage/journaling_filesystem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 27ff74a..bb5d725 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -53,7 +53,9 @@ class journaling_filesystem:
         backup_name = str(backup_num) + "_" + os.path.basename(src)
         backup_num += 1
 
-        file_put_contents(backup_id_file, bytes(str(backup_num), encoding='utf8'))
+        # Replace the index in one step, if it was left empty no rollback would be possible any more
+        file_put_contents(backup_id_file + '.new', bytes(str(backup_num), encoding='utf8'))
+        os.rename(backup_id_file + '.new', backup_id_file)
         return p.join(self.backup_dir, backup_name)
 
 ############################################################################################
-- 
2.43.0


From 0b1ef9810dfaf7c49fc9555a4ee961cbcc5750f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 21/44] fix: rolling back file changes kept the manifest
 changes that belong to them

---
 bversion/storage/client_db.py             | 4 ++++
 bversion/storage/journaling_filesystem.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/bversion/storage/client_db.py b/bversion/storage/client_db.py
index 5759f37..db53c06 100644
--- a/bversion/storage/client_db.py
+++ b/bversion/storage/client_db.py
@@ -53,6 +53,10 @@ class client_db:
     def commit(self):
         self.con.commit()
 
+    # --------------
+    def rollback(self):
+        self.con.rollback()
+
 
 # ===================================================
 # Handling of system metadata
diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index bb5d725..23e1955 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -104,6 +104,9 @@ class journaling_filesystem:
     def rollback(self):
         """ Do journal rollback """
 
+        # Discard database changes of the transaction which have not been committed
+        self.client_db.rollback()
+
         journ_list = self.client_db.get_fs_journal()
 
         for j_itm in reversed(journ_list):
-- 
2.43.0


From a591d2186257135896d390b4e176b781d171802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 22/44] fix: a file left half changed by an interrupted run was
 taken for a local change until the next change was made

---
 bversion/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 96953a9..b55db8a 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -95,6 +95,9 @@ def init(unlocked = False):
     journaling_fs = journaling_filesystem(cdb, config['data_dir'], '.bvn')
     data_store = client_filesystem_interface(cdb, journaling_fs)
 
+    # If an earlier run died part way through changing a file, put it back before anything looks at the files
+    if cdb.get_fs_journal() != []: journaling_fs.rollback()
+
     if server_connection is None:
         server_connection = client_http_request(config['server_domain'])
 
-- 
2.43.0


From a86e582afab521f09ec76ded7986b0cabced5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 23/44] fix: update did not download a file resolved to the
 server when the manifest had its hash but the file had been changed or
 deleted locally

---
 bversion/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index b55db8a..41f1cd8 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -616,7 +616,9 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             # Chech we don't already have the file due to a previous run that failed mid-process
             have_file = False
             if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash:
-                have_file = True
+                # The manifest does not speak for a file which has been changed or deleted since
+                local_path = data_store.jfs.get_full_file_path(fle['path'])
+                have_file = os.path.isfile(local_path) and os.path.getmtime(local_path) == file_in_manifest['last_mod']
 
             # ===================
             if not have_file:
-- 
2.43.0


From 2197275544d7892d0a68a38ebf17ddc6e936b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 24/44] fix: update recorded the new revision although files
 could not be downloaded, so they were never fetched

---
 bversion/client.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 41f1cd8..3064bd1 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -669,6 +669,15 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
                 if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
 
 
+    # If anything went wrong we do not have this revision, recording it would
+    # mean that the missing changes would never be fetched
+    if affected_files['errors'] != []:
+        for item in affected_files['errors']:
+            print(colored(item, 'red'))
+
+        print('\nUpdate incomplete, please run update again')
+        return affected_files
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
@@ -679,10 +688,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     ignore(os.remove, config['conflict_resolution_file'])
     ignore(shutil.rmtree, config['conflict_comparison_file_root'])
 
-    # ============================================
-    for item in affected_files['errors']:
-        print(item)
-
     # ==================
     print('\n-------------------------------\n')
     print(colored('At revision: ' + result['head'], 'yellow'))
-- 
2.43.0


From 03eb8a2c65bce9d9366153dddec82ef4c50d68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 25/44] fix: a file deleted both on the server and locally
 stayed in the manifest, and a file that could not be deleted was taken as
 deleted

---
 bversion/client.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 3064bd1..36fe8d1 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -654,12 +654,17 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         for fle in changes['to_delete_on_client']:
             print(colored('Deleting file: ' + fle['path'], 'red'))
 
-            try:
-                data_store.fs_delete(fle['path'])
-            except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
+            if os.path.isfile(data_store.jfs.get_full_file_path(fle['path'])):
+                try:
+                    data_store.fs_delete(fle['path'])
+                except OSError:
+                    affected_files['errors'].append('Failed to delete file ' + fle['path'])
+                    continue
+            else:
+                # A file was deleted on the server which has also been deleted on this client,
+                # or never existed on it. Only the manifest may need to be told.
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
 
             affected_files['deleted_files'].append(fle['path'])
 
-- 
2.43.0


From c2e0ea59a2ac5165a8f39069bc617d25e8ce941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 26/44] fix: update could not replace a file with a directory
 or the reverse

---
 bversion/client.py | 62 +++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 36fe8d1..a3ce6eb 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -596,6 +596,33 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         'errors'        : []
     }
 
+    # Files which have been deleted on server and need deleting on client. This must be
+    # done first as a file may have been replaced with a directory, or the reverse.
+    if changes['to_delete_on_client'] != []:
+        print('Removing files deleted on the server...')
+
+        for fle in changes['to_delete_on_client']:
+            print(colored('Deleting file: ' + fle['path'], 'red'))
+
+            if os.path.isfile(data_store.jfs.get_full_file_path(fle['path'])):
+                try:
+                    data_store.fs_delete(fle['path'])
+                except OSError:
+                    affected_files['errors'].append('Failed to delete file ' + fle['path'])
+                    continue
+            else:
+                # A file was deleted on the server which has also been deleted on this client,
+                # or never existed on it. Only the manifest may need to be told.
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
+
+            affected_files['deleted_files'].append(fle['path'])
+
+            # Delete the folder if it is now empty
+            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
+            except OSError as e:
+                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT, errno.ENOTDIR]: raise
+
     if changes['client_pull_files'] != []:
         # Filter out pull ignore files
         filtered_pull_files = []
@@ -637,8 +664,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
                     make_dirs_if_dont_exist(data_store.jfs.get_full_file_path(cpjoin(*fle['path'].split('/')[:-1]) + '/'))
 
                     print(colored('Pulling file: ' + fle['path'], 'green'))
-                    data_store.fs_put(fle['path'], req_result, additional_manifest_data = {'server_file_hash' : file_hash})
-                    affected_files['pulled_files'].append(fle['path'])
+
+                    try:
+                        data_store.fs_put(fle['path'], req_result, additional_manifest_data = {'server_file_hash' : file_hash})
+                        affected_files['pulled_files'].append(fle['path'])
+                    except (FileExistsError, NotADirectoryError, IsADirectoryError, FileNotFoundError):
+                        # A local file or directory is in the way of a directory or file on the server
+                        affected_files['errors'].append('Failed to write file ' + fle['path'])
 
             # test override to allow testing of checkout being killed part completed
             if test_overrides['kill_mid_update'] > 0:
@@ -647,32 +679,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             pulled_items += 1
 
-    # Files which have been deleted on server and need deleting on client
-    if changes['to_delete_on_client'] != []:
-        print('Removing files deleted on the server...')
-
-        for fle in changes['to_delete_on_client']:
-            print(colored('Deleting file: ' + fle['path'], 'red'))
-
-            if os.path.isfile(data_store.jfs.get_full_file_path(fle['path'])):
-                try:
-                    data_store.fs_delete(fle['path'])
-                except OSError:
-                    affected_files['errors'].append('Failed to delete file ' + fle['path'])
-                    continue
-            else:
-                # A file was deleted on the server which has also been deleted on this client,
-                # or never existed on it. Only the manifest may need to be told.
-                cdb.remove_file_from_manifest(fle['path'])
-                cdb.commit()
-
-            affected_files['deleted_files'].append(fle['path'])
-
-            # Delete the folder if it is now empty
-            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
-            except OSError as e:
-                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
-
 
     # If anything went wrong we do not have this revision, recording it would
     # mean that the missing changes would never be fetched
-- 
2.43.0


From 4e5f2c295e05d8aa04f30fb50f8b3eb30e380e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 27/44] fix: conflicts on paths containing a colon or ending
 with a space could not be resolved with a resolution file

---
 bversion/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index a3ce6eb..854ad07 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -377,8 +377,8 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
 
         resolutions = []
         for chunk in chunks:
-            path_sect = chunk[0].split(':')
-            res_sect  = chunk[2].split(':')
+            path_sect = chunk[0].split(':', 1)
+            res_sect  = chunk[2].split(':', 1)
 
             if 'Path' not in path_sect[0]:
                 raise SystemExit('Corrupted resolution file')
@@ -392,7 +392,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 raise SystemExit('specified resolution must be either "client" or "server"')
 
             resolutions.append({
-                'path' : path_sect[1].strip(),
+                'path' : path_sect[1].lstrip(),
                 'resolution' : resolution
             })
 
-- 
2.43.0


From 65248f8fb4dc1de098de8079a917540fca4f0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 28/44] fix: an update with a conflict resolution file could
 not be run again after it had been interrupted

---
 bversion/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 854ad07..b924201 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -400,6 +400,10 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
         conflicting_paths = {f['file_info']['path'] for f in changes['conflict_files']}
         resolved_paths    = {f['path'] for f in resolutions}
 
+        # If a previous update died part way through, files it has already resolved to the server are not in conflict any more
+        to_server         = {f['path'] for f in changes['client_pull_files'] + changes['to_delete_on_client']}
+        resolved_paths   -= {f['path'] for f in resolutions if f['resolution'] == 'server' and f['path'] in to_server}
+
         unresolved_paths = conflicting_paths ^ resolved_paths
 
         if len(unresolved_paths) != 0:
-- 
2.43.0


From 5f88c822792eaeb8c81e3dfe219a0ca20ab3c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 29/44] fix: update deleted a pull ignored local file when the
 file was deleted on the server

---
 bversion/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index b924201..3779fa5 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -606,6 +606,9 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         print('Removing files deleted on the server...')
 
         for fle in changes['to_delete_on_client']:
+            # As with pulling, changes to pull ignored files on the server do not affect local files
+            if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False): continue
+
             print(colored('Deleting file: ' + fle['path'], 'red'))
 
             if os.path.isfile(data_store.jfs.get_full_file_path(fle['path'])):
-- 
2.43.0


From 63147efdfd98ca82958ac71c47ebc01a0e4abec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 30/44] fix: a resolution file left behind by an update that
 died just before removing it silently resolved later conflicts

---
 bversion/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 3779fa5..b065c45 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -584,6 +584,10 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     result = json.loads(req_result)
     changes = result['sorted_changes']
 
+    # A resolution file left by an update which died just before removing it must never resolve later conflicts
+    if changes.get('conflict_files', []) == []:
+        ignore(os.remove, config['conflict_resolution_file'])
+
     # Are there any changes?
     if all(v == [] for k,v in changes.items()):
         print('Nothing to update')
-- 
2.43.0


From 5cd75a9718913e2098208251ec5679211b8432de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 31/44] fix: a file edited or deleted while a commit was
 running was taken as unchanged since

---
 bversion/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index b065c45..e2ca6bd 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -11,7 +11,7 @@ import pysodium #type: ignore
 
 #=================================================
 from bversion.common import (cpjoin, get_file_list, find_manifest_changes, make_dirs_if_dont_exist,
-                             manifestFileDetails, get_single_file_info, file_or_default, question_user,
+                             manifestFileDetails, file_or_default, question_user,
                              file_put_contents, file_get_contents, ignore, find_bvn_dir, hash_file)
 
 from bversion.http.client_http_request import client_http_request
@@ -874,7 +874,8 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 cdb.remove_file_from_manifest(change['path'])
 
             elif change['status'] == 'new/changed':
-                file_info = get_single_file_info(cpjoin(config['data_dir'], change['path']), change['path'])
+                # Record the state of the file from before it was sent, anything done to it since is a new local change
+                file_info = client_changes[change['path']]
                 file_info['server_file_hash'] = change['file_info']['hash']
                 cdb.add_file_to_manifest(file_info)
 
-- 
2.43.0


From 45e72d9f034720be0ef7996398c931dbb1e21162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 32/44] fix: resuming a commit published files uploaded before
 that had been restored or ignored since, or came from another working copy

---
 bversion/client.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index e2ca6bd..0edb211 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -748,21 +748,39 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
     # Acquire the commit lock and check we still have the latest revision
     manifest_meta = cdb.get_system_meta()
-    body, headers = server_connection.request("begin_commit", {
-        "session_token"     : session_token,
-        'user'              : config['user'],
-        'repository'        : config['repository'],
-        "previous_revision" : manifest_meta['have_revision']})
 
+    def begin_commit():
+        body, headers = server_connection.request("begin_commit", {
+            "session_token"     : session_token,
+            'user'              : config['user'],
+            'repository'        : config['repository'],
+            "previous_revision" : manifest_meta['have_revision']})
 
-    if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+
+        return json.loads(body)['partial_commit']
 
 
     # If we are resuming a partial commit, handle the previously uploaded files
-    # Hash local files to ensure they have not changed and thus need reuploading
-    previous_uploads = json.loads(body)
-    previous_uploads = previous_uploads['partial_commit']
+    previous_uploads = begin_commit()
+
+    # Files which are not part of this commit may have been uploaded, if they have been restored or ignored since
+    # or were uploaded from another working copy. These cannot be taken back individually, start again without them.
+    def belongs_to_commit(path):
+        if path in client_changes: return True
+        if os.path.isfile(cpjoin(config['data_dir'], path)): return False
+        return not next((True for flter in config['ignore_filters'] if fnmatch.fnmatch(path, flter)), False)
 
+    if not all(belongs_to_commit(fle['path']) for fle in previous_uploads):
+        server_connection.request("commit", {
+            "session_token"  : session_token,
+            'repository'     : config['repository'],
+            'commit_message' : '',
+            'mode'           : 'abort'})
+
+        previous_uploads = begin_commit()
+
+    # Hash local files to ensure they have not changed and thus need reuploading
     filtered_previous = {}
     if len(previous_uploads) != 0:
         for fle in previous_uploads:
-- 
2.43.0


From 97b83aa5c6ee76fd08702cad956b3c6281244051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 33/44] fix: revert could not restore deleted files, files in
 new directories or everything, and only considered pull ignored files

---
 bversion/client.py | 55 ++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 0edb211..288fbd8 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -951,7 +951,7 @@ def revert(session_token, args):
     # Apply pull ignore filters
     filtered_files_in_revision = {}
     for path, fle in files_in_revision.items():
-        if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+        if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
             filtered_files_in_revision[path] = fle
     files_in_revision = filtered_files_in_revision
 
@@ -963,8 +963,6 @@ def revert(session_token, args):
         # When reverting all, diff files in the remote and local manifests and delete
         # any that don't exist in the revision we are reverting to.
 
-        # TODO needs testing
-
         local_files = cdb.get_manifest()
 
         for fle in files_in_revision.values():
@@ -974,7 +972,8 @@ def revert(session_token, args):
                 local_files.pop(fle['path'])
 
         for fle in local_files.values():
-            files_to_delete.append(fle['path'])
+            if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+                files_to_delete.append(fle['path'])
 
     # ----------------
     else:
@@ -991,7 +990,7 @@ def revert(session_token, args):
             if matches_file:
                 files_to_revert.append(fle['path'])
 
-    if files_to_revert == []:
+    if files_to_revert == [] and files_to_delete == []:
         raise SystemExit('Could not find files in the specified revision')
 
 
@@ -1016,9 +1015,22 @@ def revert(session_token, args):
         raise SystemExit('Opperation Abort')
 
     # ===============================
-    for file_path in files_to_revert:
+    # If we are using the local revision, the manifest needs to be updated, otherwise it is left
+    # alone so the files will appear as changed or deleted, and can be committed.
+    is_local_revision = version_id == meta['have_revision']
+
+    for file_path in files_to_delete:
         print('Deleting file: ' + file_path)
-        os.remove(cpjoin(working_copy_base_path, file_path))
+
+        full_path = cpjoin(working_copy_base_path, file_path)
+        if os.path.isfile(full_path): os.remove(full_path)
+
+        if is_local_revision:
+            cdb.remove_file_from_manifest(file_path)
+            cdb.commit()
+
+        # Delete the folder if it is now empty
+        ignore(os.removedirs, os.path.dirname(full_path))
 
     # ===============================
     for file_path in files_to_revert:
@@ -1028,22 +1040,27 @@ def revert(session_token, args):
             'session_token' : session_token,
             'repository'    : config['repository'],
             'path'          : file_path,
-            'use_head'      : str(int(use_head)),
-            'version_id'    : '' if version_id is None else version_id
+            'use_head'      : str(int(False)),
+            'version_id'    : version_id
             }, gen = True)
 
-
         if headers['status'] == 'ok':
-            # If we are using the local revision, we need to add the file to the manifest,
-            # otherwise just download it so it will appear as a changed file, and can be committed.
-            if version_id == meta['have_revision']:
-                file_hash = json.loads(headers['file_info_json'])['hash']
-                data_store.fs_put(file_path, req_result, additional_manifest_data = {'server_file_hash' : file_hash})
+            full_path = cpjoin(working_copy_base_path, file_path)
+            make_dirs_if_dont_exist(os.path.dirname(full_path))
 
-            else:
-                tmp_path = cpjoin(working_copy_base_path, '.bvn', 'download_tmp')
-                req_result(tmp_path)
-                os.rename(tmp_path, cpjoin(working_copy_base_path, file_path))
+            try:
+                if is_local_revision:
+                    file_hash = json.loads(headers['file_info_json'])['hash']
+                    data_store.fs_put(file_path, req_result, additional_manifest_data = {'server_file_hash' : file_hash})
+
+                else:
+                    tmp_path = cpjoin(working_copy_base_path, '.bvn', 'download_tmp')
+                    req_result(tmp_path)
+                    os.rename(tmp_path, full_path)
+
+            except (FileExistsError, NotADirectoryError, IsADirectoryError, FileNotFoundError):
+                # A local file or directory is in the way
+                print('error with writing ' + file_path)
         else:
             print('error with downloading ' + file_path)
 
-- 
2.43.0


From abd608278f5b0b8b6c59f4d087feeaa8a4542913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 34/44] fix: an answer in upper case was accepted but not
 understood, NO reverted files

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index f9119ab..9f48683 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -43,8 +43,8 @@ def question_user(prompt_text: str, valid_choices) -> str:
     choice = None
     while True:
         print(prompt_text)
-        choice = input('> ')
-        if choice.lower() in valid_choices: break
+        choice = input('> ').lower()
+        if choice in valid_choices: break
 
     return choice
 
-- 
2.43.0


From 59ac1d9ed76183037879e5638c426161fb84e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 35/44] fix: pull-ignore died before recording its filters when
 deleting files emptied a directory or a file was missing

---
 bversion/client.py | 49 ++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 288fbd8..de6d1d0 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1099,6 +1099,7 @@ def pull_ignore(filters, require_commit_changes):
         if affects_existing:
             affected_local_files.append(fle['path'])
 
+    choice = 'nothing'
     if affected_local_files != []:
         for fle in affected_local_files:
             print(fle)
@@ -1113,37 +1114,8 @@ def pull_ignore(filters, require_commit_changes):
             "They will be added to your pull ignore file in either case.\n",
             valid_choices=['delete', 'nothing'])
 
-        if choice == 'delete':
-
-            affected_dirs = {}
-
-            for path in affected_local_files:
-                full_path = cpjoin(working_copy_base_path, path)
-                print(colored('Deleting local file: ' + full_path, 'red'))
-                os.remove(full_path)
-
-                affected_dirs[os.path.dirname(full_path)] = None
-
-            # Walk up the directory tree and remove any dirs that are now empty
-            for affected_path in affected_dirs:
-                split_path = affected_path.split('/')
-
-                while True:
-                    walking_path = '/' + cpjoin(*split_path)
-                    contents = os.listdir(walking_path)
-
-                    if len(contents) == 0:
-                        print(colored('Deleting empty directory: ' + walking_path, 'red'))
-                        os.rmdir(walking_path)
-                        split_path.pop()
-                    else:
-                        break
-
-        elif choice == 'nothing':
-            # We do not need to do anything in this case
-            pass
-
-        # Remove the affected files from the manifest
+        # Remove the affected files from the manifest. This must be done before anything else, as a file
+        # which is still in the manifest but ignored or deleted would be deleted on the server by a commit.
         for path in affected_local_files:
             cdb.remove_file_from_manifest(path)
         cdb.commit()
@@ -1156,7 +1128,20 @@ def pull_ignore(filters, require_commit_changes):
     for flter in filters:
         pull_ignore_filters += flter + "\n"
 
-    file_put_contents(pull_ignore_file_path, pull_ignore_filters.encode('utf8'))
+    # Existing filters must not be lost if we die while writing the file
+    tmp_path = cpjoin(working_copy_base_path, '.bvn', 'pull_ignore_tmp')
+    file_put_contents(tmp_path, pull_ignore_filters.encode('utf8'))
+    os.rename(tmp_path, pull_ignore_file_path)
+
+    # Files can safely be deleted now that they are not tracked any more
+    if choice == 'delete':
+        for path in affected_local_files:
+            full_path = cpjoin(working_copy_base_path, path)
+            print(colored('Deleting local file: ' + full_path, 'red'))
+            ignore(os.remove, full_path)
+
+            # Remove any dirs that are now empty
+            ignore(os.removedirs, os.path.dirname(full_path))
 
 
 #===============================================================================
-- 
2.43.0


From 3c181a26253c6340974fedfdc2b9cc1fe3eaf57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 36/44] fix: checkout could not create a working copy, and
 ignored the user name

---
 bversion/client.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index de6d1d0..5bc70cc 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -320,23 +320,22 @@ def checkout(args):
     #---------------
     config = {"server_domain" : server_domain,
                 "repository"    : repository_name[0],
-                "user"          : "test",
+                "user"          : user,
                 "private_key"   : private_key}
 
     # Validate info is correct by attempting to authenticate
     server_connection = client_http_request(config['server_domain'])
-    unlocked_key = config["private_key"] = crypto.unlock_private_key(config["private_key"])
+    config["private_key"] = crypto.unlock_private_key(config["private_key"])
     session_token: str = authenticate()
     config["private_key"] = private_key
 
     # create repo dir
-    try: os.makedirs(repository_name)
-    except: raise SystemExit('Directory already exists')
-    os.makedirs(cpjoin(repository_name, '.bvn'))
-    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4))
+    try: os.makedirs(config['repository'])
+    except FileExistsError: raise SystemExit('Directory already exists')
+    os.makedirs(cpjoin(config['repository'], '.bvn'))
+    file_put_contents(cpjoin(config['repository'], '.bvn', 'client_configuration.json'), json.dumps(config, indent=4).encode('utf8'))
 
-    config["private_key"] = unlocked_key
-    os.chdir(repository_name); init(True)
+    os.chdir(config['repository']); init(True)
     update(session_token)
 
 
-- 
2.43.0


From d8a78cf2f494545247ba7581d0ae4ad239a0700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 37/44] fix: a working copy with an old manifest that never
 held a revision could not be migrated

---
 bversion/client.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 5bc70cc..94fd291 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -111,15 +111,18 @@ def update_manifest(session_token):
         old_manifest = json.loads(file_get_contents(old_manifest_path))
 
         # As the old manifest format did not store server file hashes, we need to get
-        # them from the server and add them to the manifest
-        req_result, headers = get_files_in_version(session_token, show_head = False,
-                                                   version_id = old_manifest['have_revision'])
+        # them from the server and add them to the manifest. The root revision has no files.
+        server_file_info_for_version = {}
 
-        if headers['status'] != 'ok':
-            raise SystemExit(headers['msg'])
+        if old_manifest['have_revision'] != 'root':
+            req_result, headers = get_files_in_version(session_token, show_head = False,
+                                                       version_id = old_manifest['have_revision'])
+
+            if headers['status'] != 'ok':
+                raise SystemExit(headers['msg'])
 
-        # Get file hashes from the server
-        server_file_info_for_version = json.loads(req_result)['files']
+            # Get file hashes from the server
+            server_file_info_for_version = json.loads(req_result)['files']
 
         # Apply pull ignore filters to the server data
         new_server_file_info_for_version = {}
-- 
2.43.0


From cee5ee65b73da90e1806257a4b1b4c02927ae305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 38/44] fix: garbage collection removed nothing, or died, and
 kept the write lock; it must leave alone a commit in progress

---
 bversion/storage/versioned_storage.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index db8fc20..23af4b9 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -582,6 +582,23 @@ class versioned_storage:
         if lock_status is False:
             return False, ['failed to lock']
 
+        try:
+            return self.__remove_garbage()
+        finally:
+            self.unlock()
+
+
+#===============================================================================
+    def __remove_garbage(self):
+        # A commit in progress may rely on any object that exists, and what
+        # it has stored itself cannot be reached yet
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        sdb.db_init()
+        if sdb.get_active_commit() is not None:
+            msg = 'A commit is in progress.'
+            print(msg)
+            return False, [msg]
+
         head, reachable_objects = self.get_reachable_objects()
         all_objects             = self.get_all_object_hashes()
 
@@ -617,8 +634,8 @@ class versioned_storage:
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist
+        garbage_file_objects = file_objects_that_do_exist - file_objects_that_should_exist
 
         #================================================================
         # Delete garbage objects
@@ -628,8 +645,7 @@ class versioned_storage:
             os.remove(object_path)
 
         for object_hash in garbage_file_objects:
-            object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
+            object_path = sfs.cpjoin(self.base_path, 'files', object_hash[:2], object_hash[2:])
             os.remove(object_path)
 
-        self.unlock()
-        return True
+        return True, issues
-- 
2.43.0


From 2a89a1cd2e41246a6ecef6c3532d6ca3ab9403f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 39/44] fix: verification called missing objects garbage, died
 on missing or altered index objects, and failed on an unfinished first commit

---
 bversion/storage/versioned_storage.py | 63 +++++++++++++++++----------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 23af4b9..71e1e1f 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -444,8 +444,6 @@ class versioned_storage:
             'files'   : {}
         }
 
-        # TODO this needs to be able to handle missing objects and log them as errors
-
         head = self.get_head()
         if head == 'root':
             return head, reachable_objects
@@ -453,6 +451,7 @@ class versioned_storage:
         # walk up the commit change to the first version
         pointer = head
         while True:
+            if pointer in reachable_objects['commits']: raise Exception("Cycle detected")
             commit = self.read_commit_index_object(pointer)
             reachable_objects['commits'][pointer] = commit
             pointer = commit['parent']
@@ -462,6 +461,7 @@ class versioned_storage:
         def recursive_helper(tree_object_hash):
             nonlocal reachable_objects
 
+            if tree_object_hash in reachable_objects['trees']: return
             it = self.read_tree_index_object(tree_object_hash)
             reachable_objects['trees'][tree_object_hash] = it
 
@@ -505,29 +505,44 @@ class versioned_storage:
         filesystem to ensure than hashes have not changed.
         """
 
-        head, reachable_objects = self.get_reachable_objects()
-        all_objects             = self.get_all_object_hashes()
-
         issues = []
 
+        # Missing or altered objects can prevent reading the index. This is done before listing the
+        # objects, as more can be added while we are running
+        head = self.get_head()
+        try:
+            head, reachable_objects = self.get_reachable_objects()
+        except Exception as e: # pylint: disable=W0718
+            msg = 'The index is incomplete or damaged: ' + repr(e)
+            print(msg)
+            issues.append(msg)
+            reachable_objects = {'commits' : {}, 'trees' : {}, 'files' : {}}
+
+        all_objects = self.get_all_object_hashes()
+
         #================================================================
         # if head is root, but commits exists, this is suspisious
+        # unless they are what the first commit stored so far
         #================================================================
-        number_of_commits = 0
-        for object_hash in all_objects['index']:
-            object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
-            file_contents = json.loads(sfs.file_get_contents(object_path))
-            if file_contents['type'] == 'commit':
-                number_of_commits += 1
-
-        if head == 'root' and number_of_commits != 0:
-            msg = 'Commits exist, but head is root.'
-            print(msg)
-            issues.append(msg)
-            return False, issues
+        if head == 'root':
+            sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+            sdb.db_init()
+            unfinished = {item['item_hash'] for item in sdb.get_gc_log()}
+
+            for object_hash in all_objects['index']:
+                if object_hash in unfinished: continue
+                try:
+                    self.read_commit_index_object(object_hash)
+                except Exception: # pylint: disable=W0718
+                    continue # not a commit, damage is found below
+
+                msg = 'Commits exist, but head is root.'
+                print(msg)
+                issues.append(msg)
+                break
 
         #================================================================
-        # Subtract the two, to find if there are unreachable objects
+        # Subtract the two, to find if there are missing objects
         #================================================================
         # index objects
         index_objects_that_should_exist =   set(reachable_objects['commits'].keys()) \
@@ -540,17 +555,17 @@ class versioned_storage:
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        missing_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
+        missing_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
 
         # ===============
-        for it in garbage_index_objects:
-            msg = 'Garbage index object: ' + it
+        for it in missing_index_objects:
+            msg = 'Missing index object: ' + it
             print(msg)
             issues.append(msg)
 
-        for it in garbage_file_objects:
-            msg = 'Garbage file object: ' + it
+        for it in missing_file_objects:
+            msg = 'Missing file object: ' + it
             print(msg)
             issues.append(msg)
 
-- 
2.43.0


From 39f270a87c7b827ad6b39fcbf677086059c7d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 40/44] fix: restore died on the first repository without a
 backup

---
 bversion/repo_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index cfc7eb1..7e720d1 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -277,6 +277,14 @@ def restore():
     s3_conn = init_backup()
 
     for repository_name, details in config['repositories'].items():
+        if not ('backup' in details and details['backup'] is True):
+            continue
+
+        # A repository without any commits has nothing on the remote
+        if s3_interface.list_remote_objects(s3_conn, repository_name + '/') == []:
+            print('There is no backup of repository: ' + repository_name)
+            continue
+
         repository_path = details['path']
         repository_path += '_restore'
 
-- 
2.43.0


From 833568a3292501e1c8d77bb46ba6ccf1d06c510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 41/44] fix: restore accepted remote objects that were cut
 short, swapped or not encrypted

---
 bversion/repo_manager.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index 7e720d1..51e4708 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -1,7 +1,7 @@
 import sys, os, time
 from io import BytesIO
 
-from bversion.common import cpjoin, merge_config, make_dirs_if_dont_exist
+from bversion.common import cpjoin, merge_config, make_dirs_if_dont_exist, hash_file
 from bversion.backup import s3_interface, pipeline, crypto
 from bversion.backup.pipeline_common import serialise_pipeline_format
 from bversion.storage.versioned_storage import versioned_storage
@@ -72,7 +72,12 @@ def streaming_upload(s3_conn, lconfig, remote_file_path, file_handle):
 #===============================================================================
 def streaming_download(s3_conn, lconfig, remote_file_path, version_id, file_handle):
     download_stream  = s3_interface.streaming_download()
-    header = download_stream.begin(s3_conn, remote_file_path, version_id)[0]
+    header, pl_format = download_stream.begin(s3_conn, remote_file_path, version_id)
+
+    # Everything is uploaded encrypted, what is not did not come from us
+    if 'encrypt' not in pl_format['format']:
+        raise ValueError('Remote object is not encrypted: ' + remote_file_path)
+
     pl                = pipeline.build_pipeline_streaming(download_stream, 'in')
     pl.pass_config(lconfig, header)
 
@@ -82,6 +87,15 @@ def streaming_download(s3_conn, lconfig, remote_file_path, version_id, file_hand
         file_handle.write(res)
 
 
+#===============================================================================
+def check_restored_object(fs_path, object_hash):
+    """ The remote can be missing the end of an object, or have objects swapped """
+
+    if hash_file(fs_path) != object_hash:
+        os.remove(fs_path)
+        raise IOError('Remote object does not match its hash: ' + object_hash)
+
+
 #===============================================================================
 def backup():
     # Connect to the remote
@@ -320,6 +334,7 @@ def restore():
                                    version_id       = None,
                                    file_handle      = fle)
 
+            check_restored_object(fs_path, commit_pointer)
             commit = data_store.read_commit_index_object(commit_pointer)
 
             # download tree objects pointed to by commit
@@ -339,6 +354,7 @@ def restore():
                                        version_id       = None,
                                        file_handle      = fle)
 
+                check_restored_object(fs_path, tree_object_hash)
                 it = data_store.read_tree_index_object(tree_object_hash) # pylint: disable=W0640
                 tree_objects[tree_object_hash] = it # pylint: disable=W0640
 
@@ -364,11 +380,13 @@ def restore():
                             pass
 
                     else:
-                        with open(fs_path, 'wb') as fle:
+                        with open(fs_path, 'wb') as restored_file:
                             streaming_download(s3_conn, config,
                                             remote_file_path = repository_name + '/files/' + object_path,
                                             version_id       = None,
-                                            file_handle      = fle)
+                                            file_handle      = restored_file)
+
+                        check_restored_object(fs_path, fle['hash'])
 
             # update commit pointer if not 'root'
             commit_pointer = commit['parent']
-- 
2.43.0


From b0ca18eb65de6e6c0a925f56a07b95a181bf22a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 42/44] fix: keep the working copy lock for as long as the
 client runs

The lock file was only referenced by a local variable of init, so it was closed and the lock released when init returned, and two clients could work on one working copy at the same time.
---
 bversion/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 94fd291..c51bc11 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -37,6 +37,7 @@ config:            clientConfiguration         = None
 cdb:               client_db                   = None
 data_store:        client_filesystem_interface = None
 server_connection: client_http_request         = None
+lock_file                                      = None
 
 working_copy_base_path: str                    = ''
 relative_cwd: str                              = ''
@@ -44,7 +45,7 @@ relative_cwd: str                              = ''
 
 #===============================================================================
 def init(unlocked = False):
-    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd
+    global cdb, data_store, server_connection, lock_file, config, working_copy_base_path, relative_cwd
 
     working_copy_base_path, relative_cwd = find_bvn_dir()
 
@@ -64,10 +65,12 @@ def init(unlocked = False):
     except IOError:    raise SystemExit('No BVersion configuration found')
     except ValueError: raise SystemExit('Configuration file syntax error')
 
-    # Lock for sanity check, only one client can use the working copy at any time
+    # Lock for sanity check, only one client can use the working copy at any time. The lock is
+    # held for as long as the file is open, closing it here drops the one of an earlier init
+    if lock_file is not None: lock_file.close()
     try:
-        lockfile = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
-        fcntl.flock(lockfile, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        lock_file = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
+        fcntl.flock(lock_file, fcntl.LOCK_EX | fcntl.LOCK_NB)
     except IOError: raise SystemExit('Could not lock working copy')
 
     #-----------
-- 
2.43.0


From 61dd0fd231dc74c858f7261452818f427a05aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 43/44] fix: a list of deletions that cannot be processed
 deletes nothing

A malformed list was processed up to its malformed entry, then an open transaction was left behind: the other connections found the database locked, and the next request made the partial deletion permanent.
---
 bversion/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/server.py b/bversion/server.py
index 90020f0..12d0f41 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -536,6 +536,9 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
         return success()
 
     except Exception: # pylint: disable=broad-except
+        # Part of the list may have been processed, that must not be kept nor leave the database locked
+        get_server_db_instance_for_thread(repository_path,
+                                          path_override = config['repositories'][repository]['transient_db_path_override']).con.rollback()
         return fail()
 
 
-- 
2.43.0


From 6668ec839f989a27307f0a3319b354cdeaa504dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 44/44] fix: keep white space in header values, refuse values
 with line breaks

File names and commit messages travel as header values. A name which starts or
ends with white space was stripped, so that committing 'a ' overwrote 'a', and
the text after a line break became a header of its own.
---
 bversion/http/http_common.py | 11 +++++++++--
 bversion/http/http_server.py |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 5bc21e0..16938d1 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -8,6 +8,9 @@ def generate_headers(headers: Dict[str, str]) -> bytes:
         k2 = k.encode('utf8') if isinstance(k, str) else k
         v2 = v.encode('utf8') if isinstance(v, str) else v
 
+        # A line break would end the header, and what follows it would become something else
+        if b'\r\n' in k2 or b'\r\n' in v2: raise ValueError('Line breaks can not be sent in headers: ' + repr(v))
+
         res += k2 + b': ' + v2 + b'\r\n'
     return res
 
@@ -15,8 +18,12 @@ def generate_headers(headers: Dict[str, str]) -> bytes:
 def parse_headers(headers_raw: List[bytes]) -> Dict[str, str]:
     headers = {}
     for i in headers_raw:
-        split_header = i.split(b':', 1)
-        headers[split_header[0].strip().decode('utf8').lower()] = split_header[1].strip().decode('utf8')
+        name, value = i.split(b':', 1)
+
+        # White space around a value is part of it, file names may start or end with it. Only
+        # the single space after the colon is not.
+        if value.startswith(b' '): value = value[1:]
+        headers[name.strip().decode('utf8').lower()] = value.decode('utf8')
 
     return headers
 
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index 3e14f29..dc47e7b 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -96,7 +96,7 @@ def HTTPServer(host, port, connection_handler):
                 for k, v in rsp.headers.items():
                     if isinstance(k, str): k=k.encode('utf8')
                     if isinstance(v, str): v=v.encode('utf8')
-                    responce_headers += k + b':' + v + b'\r\n'
+                    responce_headers += k + b': ' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
                 c.sendall(responce_headers)
-- 
2.43.0

