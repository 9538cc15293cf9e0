"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

B = "bversion/"
VS = B+"storage/versioned_storage.py"; SDB = B+"storage/server_db.py"; CDB = B+"storage/client_db.py"
JFS = B+"storage/journaling_filesystem.py"; CFS = B+"storage/client_filesystem_interface.py"
CL = B+"client.py"; SV = B+"server.py"; CM = B+"common.py"; MG = B+"merge_client_and_server_changes.py"
HS = B+"http/http_server.py"; HC = B+"http/http_common.py"; HCL = B+"http/http_client.py"; HCR = B+"http/client_http_request.py"
RM = B+"repo_manager.py"; S3 = B+"backup/s3_interface.py"; PC = B+"backup/pipeline_common.py"; BC = B+"backup/crypto.py"; CR = B+"crypto.py"

p("C01", "Three-way change triage never loses or overwrites an edit",
  "When the changes a working copy reports are compared with the changes made on the server, every path that appears on either side ends up in exactly one outcome (push, pull, delete on client, delete on server, conflict, nothing to do, or error). A path changed or deleted locally and also changed on the server, or changed locally and deleted on the server, is always a conflict and is never pulled over or deleted; a path touched on one side only is carried to the other side; a path deleted on both sides is never a conflict.",
  ["inputs"], "all pairs of server-side and client-side change sets (any paths, any of the statuses new/changed/deleted/unchanged on each side)",
  "The unit test compares single-entry maps; it never has several paths at once, on either side, in any mix of statuses.",
  [MG, SV], [("merge_client_and_server_changes", MG)], observe=["result lists of the merge", "find_changed response"])

p("C02", "Local change detection reports exactly what changed",
  "Comparing the files present in a working copy with the recorded manifest reports a file as new exactly when it is not recorded, changed exactly when its modification time differs from the recorded one, deleted exactly when it is recorded but gone, and (when asked for) unchanged otherwise, with one entry per path. Recording a file in the manifest and reading it back preserves its path, modification time and server hash exactly, and the comparison alters neither of its inputs.",
  ["inputs"], "all sets of present and recorded files, all modification times and hashes",
  "The test uses five fixed one- or two-file states and integer times; it never covers aliasing, mixed sets or times stored through the database.",
  [CM, CDB, CL], [("find_manifest_changes", CM), ("client_db manifest storage", CDB), ("find_local_changes", CL)],
  [("files table", "last known state of each tracked file", CDB)], ["result of find_manifest_changes", "client_db.get_manifest"])

p("C03", "A stored version lists exactly the files that were put in it",
  "Whatever set of slash-rooted file paths a version is built from, including nested directories, shared prefixes and equal names in different directories, listing that version gives back exactly those paths with exactly their content hashes. Looking up any single path in the version agrees with the listing: it returns that file's hash if the path is listed and fails otherwise.",
  ["inputs"], "all sets of rooted file paths and content hashes",
  "Tests only store one to four files with fixed names; nested paths appear in one test and lookups of absent paths or prefixes never.",
  [VS], [("build_dir_tree / flatten_dir_tree", VS), ("write_dir_tree / read_dir_tree", VS), ("get_file_info_from_path", VS)],
  observe=["get_commit_files", "get_file_info_from_path"])

p("C04", "A commit yields the parent version plus exactly its own changes",
  "The file set of a newly committed version equals the file set of the previous head, with every uploaded path set to the uploaded content, every deleted path removed, and nothing else altered. The commit's recorded change list names exactly those paths, as new, changed or deleted relative to the previous version, its parent is the previous head, and every earlier version still reads back exactly as before.",
  ["histories", "inputs"], "all sequences of uploads and deletions over successive commits, including repeated uploads of a path, deletions of paths that do not exist, and upload and deletion of the same path in one commit",
  "Tests run a few fixed commits; none deletes an unknown path along with a known one, uploads a path twice, or rechecks older versions.",
  [VS, SDB, SV], [("commit", VS), ("add_to_commit / remove_from_commit / get_commit_state", SDB)],
  [("active_commit_changes", "changes staged in the open commit", SDB), ("head", "current version", VS)],
  ["get_commit_files", "get_commit_changes", "get_commit_chain"])

p("C05", "Commits are atomic across server crashes",
  "If the server process dies at any point while a commit is being opened, filled, finished or rolled back, then afterwards the head is either the complete previous version or the complete new one. Every version reachable from the head remains completely readable with its original content, both right after the crash and after whatever recovery, resumption or new commit follows, including when that recovery is itself interrupted.",
  ["crash_points", "histories"], "all crash points (up to two crashes) in begin, upload, delete, commit and rollback, and all recovery choices (resume, roll back, another user)",
  "No test kills the server side; the kill_mid_commit test only stops the client between uploads.",
  [VS, SDB, SV], [("head replaced by rename", VS), ("gc_log and rollback", VS), ("active_commit tables", SDB)],
  [("gc_log", "objects created by the open commit", SDB), ("active_commit_exists", "open commit owner", SDB)],
  ["head file", "index and files directories"], None)

p("C06", "An abandoned commit leaves no trace and takes nothing with it",
  "Rolling back an open commit removes every stored object which that commit introduced, and removes no object that existed before the commit began. The head, every existing version and every file content stored earlier are unchanged, and a new commit can then be opened.",
  ["histories", "inputs"], "all contents (equal or different to stored ones) and all upload/delete sequences before the rollback, rolled back explicitly or by the next committer",
  "One test rolls back a single fixed two-file commit.",
  [VS, SDB], [("rollback", VS), ("gc_log_item", SDB)], [("gc_log", "objects created by the open commit", SDB)], ["object store listing before and after"])

p("C07", "The incremental change report equals the difference of the versions",
  "For any two versions of a history, applying the reported changes since the older version to the older version's file list gives exactly the newer version's file list. The report is empty when the versions are the same, and asking from a version that is not an ancestor is refused rather than answered.",
  ["histories"], "all histories of commits (adds, changes, deletes, re-adds of the same path) and every ancestor of the head as starting point",
  "The test reads one report over two commits that add different files; it never has a path changed more than once.",
  [VS, SV], [("get_changes_since", VS), ("find_changed", SV)], observe=["find_changed response"])

p("C08", "Stored content is exact, addressed by its hash and stored once",
  "A file pushed to the server and committed is pulled back byte for byte identical, whatever its size, and is stored under the SHA-256 of its content. Content that is already stored is not stored a second time, and two different contents never share a stored object or displace each other.",
  ["inputs"], "all file sizes and contents, including empty files and sizes at and around the transfer block sizes, and equal or different content under any paths",
  "Tests push a few files smaller than 300 bytes, so no chunk loop ever runs twice.",
  [VS, SV, CM, HCR], [("fs_put_from_file", VS), ("hash_file", CM), ("push_file / pull_file", SV), ("chunked readers and writers", HCR)],
  observe=["files directory", "pull_file response"])

p("C09", "A rolled-back working-copy transaction leaves the files as they were",
  "After any sequence of journaled file writes, moves and deletions followed by a rollback, including one caused by a failing step such as moving or deleting a file that does not exist, every user file has exactly the content and modification time it had when the transaction began and no extra user file remains. After a commit instead, the files are exactly what the sequence of operations produces.",
  ["histories", "inputs"], "all sequences of up to a bounded number of write/move/delete operations over existing and missing, equal and different paths",
  "Tests roll back five fixed sequences and mostly assert existence, not content, and never a failing step.",
  [JFS, CFS], [("do_action / rollback", JFS), ("undo journal", CDB)], [("journal table", "undo records of the open transaction", CDB)],
  ["user files below the data directory"])

p("C10", "A crash during a working-copy change leaves the old or the new file",
  "If the client dies at any point while it writes, replaces, moves or deletes a tracked file, then after the next start every user file has either exactly its old or exactly its new content, and the manifest describes that same state (the recorded hash and time belong to the file on disk). No leftover of an earlier interrupted operation is ever put in place of a user file.",
  ["crash_points", "histories"], "all crash points, up to two crashes, in put, move and delete transactions, in their rollback, and in a following transaction",
  "No test interrupts an operation between two file system steps.",
  [JFS, CFS, CDB, CL], [("undo journal written before each action", JFS), ("single database commit clears journal and updates manifest", CFS)],
  [("journal table", "undo records", CDB), ("tmp dir", "saved copies of replaced files", JFS)], ["user files", "client_db.get_manifest"])

p("C11", "Update brings in every server change and keeps local work",
  "After a successful update without conflicts, every path the working copy had not changed is exactly as in the server's head version (content, presence and absence, including where a file became a directory or the reverse), and every locally new, changed or deleted file is exactly as the user left it. Only then is the head recorded as the revision held; an update in which a download fails does not record it.",
  ["histories", "inputs", "fault_sequences"], "all combinations of server-side and local changes to a set of paths, and any failing download",
  "The system test runs a handful of fixed updates with flat file names and no failing transfer.",
  [CL, SV, CFS, MG], [("update", CL), ("find_changed / pull_file", SV), ("fs_put / fs_delete", CFS)],
  [("have_revision", "revision the working copy holds", CDB)], ["working copy files", "manifest", "have_revision"])

p("C12", "An interrupted update can simply be run again",
  "If the client dies at any point of an update, running update again finishes with the same files, manifest and recorded revision as an uninterrupted update. It reports no conflict on files the user did not touch, and loses no local change.",
  ["crash_points"], "all crash points of an update that pulls, replaces and deletes files",
  "The test stops one update between two downloads, never inside one or in the deletion phase.",
  [CL, JFS, CFS], [("have_file shortcut in update", CL), ("journal rollback on start", JFS)], observe=["working copy files", "manifest", "have_revision"])

p("C13", "Conflict resolution does exactly what the user chose",
  "For every conflicting file, resolving to the server leaves the server's version (or its deletion) in the working copy, and resolving to the client leaves the user's version untouched so that the next commit publishes it. A manual resolution is applied per path, whatever the path contains; a resolution file that leaves a conflict unresolved, names other paths or has an invalid choice is refused with no file changed and no revision recorded.",
  ["inputs", "histories"], "all kinds of conflict (changed/changed, changed/deleted, deleted/changed), all choices per file, all path spellings, and a server file that returns to the version the client already had",
  "The system test resolves one fixed set of four flat files and one incomplete file.",
  [CL], [("resolve_update_conflicts", CL), ("update", CL)], observe=["working copy files", "conflict_resolution file", "next commit"])

p("C14", "Commit and update make working copies converge",
  "After a successful client commit the head version contains exactly the non-ignored files of the working copy with their contents, and the working copy then reports no local changes. A second working copy that updates to it holds exactly the same files.",
  ["histories", "inputs"], "all local change sets (new, changed, deleted, moved between directories, equal contents) on top of any earlier version",
  "The system test follows one fixed story.",
  [CL, SV, VS], [("commit", CL), ("begin_commit/push_file/delete_files/commit", SV)], observe=["head listing", "second working copy"])

p("C15", "A resumed commit publishes the working copy as it is now",
  "When a commit is interrupted and started again by the same user from the same address, from the same or another working copy, the version finally published contains exactly the non-ignored files that the committing working copy holds at that time. Nothing uploaded or deleted in the interrupted attempt that has since been edited, removed, restored or ignored leaks into it, and the resumed commit does not get stuck.",
  ["histories", "crash_points"], "all partial commits (uploads and deletions sent before the interruption), all local edits before the retry",
  "The test resumes one commit without any edit in between.",
  [CL, SV, SDB], [("partial_commit handling", CL), ("resume_commit / add_to_commit / remove_from_commit", SDB)],
  [("active_commit_changes", "staged changes", SDB)], ["head listing", "manifest"])

p("C16", "Only the lock holder with the latest revision can change a repository",
  "At any time at most one connection can be inside a commit on a repository, and uploads, deletions, commits and aborts sent on a connection that does not hold that repository's write lock are refused and change nothing. A commit begun from any revision other than the current head is refused, and a connection that ends or finishes its commit frees the lock. Only the authenticated owner of an interrupted commit, from the same address, gets to resume it.",
  ["schedules", "histories"], "all interleavings of requests from two connections and two users on two repositories",
  "All tests use one connection at a time and one repository.",
  [SV, VS, HS], [("lock/unlock (flock)", VS), ("ConnectionContext", HS), ("begin_commit checks", SV)],
  [("context.lock", "whether this connection holds the write lock", HS)], ["responses", "head", "staged changes"])

p("C17", "Readers always see a complete version",
  "While another client's commit is at any point of its execution, including just after a crash there, a reader who asks for the head, the changes, the file list or a file gets a consistent answer that belongs entirely to the version before the commit or entirely to the version after it. Nothing staged but not committed is ever visible to a reader.",
  ["schedules", "crash_points"], "all points of a running commit at which a reader may come in",
  "No test reads while a commit is in progress.",
  [VS, SV], [("head replaced by rename after all objects are written", VS)], observe=["find_changed", "list_files", "pull_file"])

p("C18", "A session is only given to a proven, authorised user",
  "The server issues a session for a repository only to a client that presents a token the server itself issued for that repository to the same address no more than 30 seconds earlier and not used since, signed with the private key of a configured user who is allowed to use that repository. Every other combination of user, token, signature, address, repository and time is refused without creating a session.",
  ["inputs", "histories"], "all request contents, addresses, users, orders and times",
  "Tests only perform the successful handshake.",
  [SV, SDB], [("begin_auth / authenticate", SV), ("issue_token / get_token / delete_token / gc_tokens", SDB)],
  [("tokens table", "outstanding challenges", SDB)], ["authenticate response", "session_tokens table"])

p("C19", "Every repository operation requires a live session",
  "Every operation that reads or changes a repository is refused, reveals nothing and changes nothing unless it carries a session token issued for that repository to the same address and used within the last two hours, belonging to a user who still has access. The only session kept alive beyond two hours is the one that owns the commit in progress, and using a session extends it.",
  ["inputs", "histories"], "all operations, tokens, addresses, times and permission changes",
  "Tests never present a wrong, expired or foreign session.",
  [SV, SDB], [("have_authenticated_user", SV), ("gc_session_tokens / get_session_token / update_session_token_expiry / validate_session", SDB)],
  [("session_tokens table", "live sessions", SDB)], ["responses", "repository state"])

p("C20", "Client-supplied names cannot escape the repository",
  "No file path containing a '.' or '..' component (with either slash), and no path that is not rooted, is ever accepted into a version, and every accepted path is stored under exactly that name. A version or object identifier supplied by a client never makes the server read anything outside its own index of objects, and an object of another kind is refused.",
  ["inputs"], "all path and identifier strings up to the length bound",
  "Tests only use well-formed names and identifiers.",
  [SV, VS], [("path check in push_file", SV), ("read_index_object checks", VS)], observe=["push_file response", "files opened by the server"])

p("C21", "Message bodies arrive intact however the network splits them",
  "Whatever way the transport splits or coalesces the bytes of a request or response, on sending and on receiving, the receiver gets exactly the announced number of body bytes in order, and the next message on the connection starts right after them. If the peer closes the connection early the operation ends with an error (never a truncated success and never an endless wait), and the connection's write lock is released.",
  ["schedules", "fault_sequences", "inputs"], "all splits of the stream, all partial sends, all points of closing",
  "Tests bypass the HTTP layer entirely.",
  [HC, HS, HCL, HCR], [("read_body", HC), ("handle_connection", HS), ("read_headers / send", HCL)], observe=["Request seen by the handler", "bytes sent"])

p("C22", "Header values survive the wire unchanged",
  "Request and response headers written by one side are read back by the other side with the same names (case-insensitively) and the same values, for every value without a CR LF, including values that contain colons or start or end with white space. Method, path and status line are recovered exactly, and a malformed first line is rejected.",
  ["inputs"], "all header names and values up to the length bound",
  "Tests bypass the HTTP layer entirely.",
  [HC, HS, HCL], [("generate_headers / parse_headers / parse_http_*_preamble", HC)], observe=["parsed headers"])

p("C23", "Ignored files never travel",
  "A file matching an ignore filter or a pull-ignore filter is never uploaded, and a server file matching a pull-ignore filter is never downloaded by an update and its server copy is left alone by updates, and by commits as long as the file was never tracked or was dropped with the pull-ignore command. Metadata of the working copy itself is never uploaded, and files matching no filter are not affected.",
  ["inputs", "configurations"], "all assignments of files to filters, wildcard filters included, and all local and server changes",
  "The system test tries one ignored and one pull-ignored file.",
  [CL], [("init filter lists", CL), ("find_local_changes", CL), ("update pull filter", CL)], observe=["requests sent", "working copy files"])

p("C24", "pull-ignore drops local files without ever deleting them on the server",
  "After the pull-ignore command, every tracked file matching the filters is out of the manifest, is removed from disk only if the user chose so, and the filters are recorded, so that a following commit does not delete it on the server and an update does not bring it back. Unless forced, it refuses to run with uncommitted changes; files matching no filter are untouched, also when whole directories become empty.",
  ["inputs", "histories"], "all sets of tracked files in nested directories, all filters, both choices, both modes",
  "The command has no test.",
  [CL], [("pull_ignore", CL), ("normalise_filters", CL)], observe=["manifest", "files on disk", ".bvn_pull_ignore", "next commit"])

p("C25", "Revert restores exactly the selected files to the chosen version",
  "Reverting makes every selected file, including locally changed or deleted ones, have exactly the content of the chosen version, and leaves every file that is not selected, or is pull-ignored, untouched; reverting all also removes tracked files that the version does not contain. After reverting to the held revision the reverted files are not reported as changed; after reverting to another revision they are reported so they can be committed.",
  ["inputs", "histories"], "all local states, filters and versions",
  "The command has no test.",
  [CL], [("revert", CL)], observe=["working copy files", "manifest"])

p("C26", "A commit marked as backed up is completely in the backup",
  "Whatever upload of a backup run fails or is interrupted, every commit the remote marks as complete has its commit object, its whole directory tree and all of its file contents (the empty file excepted) on the remote. Once a run completes, the head and every commit of the history are there, whatever earlier runs were interrupted, and nothing that is already there needs to be sent again.",
  ["fault_sequences", "crash_points", "histories"], "all histories (shared trees and contents, empty files, empty repositories) and every interruption point, up to two interrupted runs",
  "The backup code has no test.",
  [RM, S3], [("backup", RM), ("list_remote_objects", S3)], observe=["remote object keys"])

p("C27", "Restoring a backup gives back the repository",
  "Restoring a completed backup into an empty place recreates the head and every commit, tree and file object byte for byte, for every file size relative to the transfer chunk size, and repositories that are not backed up do not get in the way. A remote object of a repository that was altered, cut short, reordered, exchanged with another, not encrypted or encrypted under another password is never restored as if it were valid: the restore fails.",
  ["inputs", "histories", "configurations"], "all object sizes around chunk boundaries, all histories in the bound, all alterations of a stored stream in the bound",
  "The backup code has no test.",
  [RM, S3, PC, BC], [("restore", RM), ("streaming_upload / streaming_download", S3), ("streaming_encrypt / streaming_decrypt", BC), ("serialise/parse_pipeline_format", PC)],
  observe=["restored repository directory"])

p("C28", "Verification passes exactly on intact repositories",
  "Verifying a repository reports it valid only if every commit, tree and file object reachable from the head is present and every stored object still hashes to its name. An undamaged repository, with or without an unfinished commit, is reported valid. A lost or altered object is reported, for each repository on its own, rather than ending the verification.",
  ["inputs", "fault_sequences"], "all histories in the bound and every single or double loss or alteration of stored objects",
  "Verification has no test.",
  [VS, RM], [("verify_fs", VS), ("get_reachable_objects / get_all_object_hashes", VS)], observe=["verify_fs result"])

p("C29", "Garbage collection removes only, and all, unreachable objects",
  "Garbage collection never removes an object that is reachable from the head or belongs to an unfinished commit, and does nothing, and says so, when it cannot get the write lock (the command then waits and tries again) or while a commit is unfinished. When it runs, every other object is removed, all versions read back as before, and the lock is free afterwards.",
  ["histories", "schedules"], "all histories with leftovers, unfinished commits and lock states",
  "Garbage collection has no test.",
  [VS, RM], [("garbage_collect", VS)], observe=["object store listing", "write lock"])

p("C30", "A password-protected private key opens only with its password",
  "A key pair created with a password stores the private key only encrypted: unlocking with the same password gives back the private key that matches the public key, and unlocking with any other password, or after altering the sealed part of the stored key, fails. A key pair created without a password unlocks to the matching private key without asking for one.",
  ["inputs"], "all passwords, keys, salts and nonces (with ideal primitives)",
  "The test only asserts that unlocking does not raise, with the one correct password.",
  [CR], [("make_keypair / unlock_private_key", CR)], observe=["unlock_private_key result"])

p("C31", "An edit made while a commit is running is not lost",
  "If a file is edited, created or deleted at any moment while a commit of the working copy is running, then after the commit either the edit is part of the published version or the file is still reported as locally changed. A later update therefore never silently overwrites it.",
  ["schedules"], "all points of a running client commit at which the user edits, deletes or creates a file",
  "Tests never change a file during a commit.",
  [CL, CM], [("commit: manifest update after publishing", CL), ("get_single_file_info", CM)], observe=["find_local_changes after the commit", "head listing"])

p("C32", "Joined paths stay below their base directory and keep every name",
  "Joining a base directory with relative or rooted path pieces always gives a path below that base made of exactly the non-empty components of the pieces in order, single slashes between them, rooted exactly if the first piece is and ending in a slash exactly if the last piece does. Listing a directory tree names every regular file below it exactly once by its rooted path.",
  ["inputs"], "all path pieces up to the length bound, spaces included, and all directory trees in the bound",
  "No test looks at path joining or listing directly.",
  [CM], [("cpjoin", CM), ("get_file_list", CM)], observe=["cpjoin result", "get_file_list result"])

p("C33", "Checkout creates a complete working copy for the right user",
  "Checking out a repository creates a new directory named after it, whose saved configuration holds the given server, repository, user and key (the key still in its locked form), and whose files are exactly those of the head version. It refuses malformed addresses and an existing directory without touching it.",
  ["inputs", "configurations"], "all user names, histories and starting directories in the bound",
  "Checkout has no test.",
  [CL], [("checkout", CL)], observe=["new working copy"])

p("C34", "Old working copies are migrated without losing track of changes",
  "Opening a working copy that still has the old-format manifest records the same revision and, for every file that the held revision contains and that is not pull-ignored, the same modification time plus the server's hash. A file edited since is therefore still reported as changed, and an unedited one is not.",
  ["inputs", "configurations"], "all old manifests over the files in the bound, edited or not, partly updated or filtered",
  "The migration has no test.",
  [CL, CDB], [("update_manifest", CL)], observe=["manifest after migration", "find_local_changes"])

p("C35", "User configuration overrides defaults and loses none of them",
  "Merging a configuration into the defaults gives, at every nesting level, the user's value where the user gives one and the default everywhere else. Sections present on both sides are merged rather than replaced.",
  ["configurations"], "all pairs of nested configurations in the bound",
  "Configuration merging has no test.",
  [CM, RM], [("merge_config", CM)], observe=["merged configuration"])

p("C36", "Version listings follow the history",
  "The list of versions starts at the head, follows each version's parent down to the first (or to the listing limit), and names each with the author, message and time it was committed with, where the author is the authenticated user. The changes and files listed for a version are those it was committed with, and unknown versions are refused.",
  ["histories"], "all histories in the bound, all version identifiers",
  "The test reads the message of the only commit.",
  [VS, SV], [("get_commit_chain / get_commit_changes / get_commit_files", VS), ("list_versions / list_changes / list_files", SV)], observe=["list responses"])

p("C37", "A working copy is used by one client at a time",
  "While a client command works on a working copy, another one started there (in any of its directories) refuses, and changes neither the working copy nor the server. However the first one ends (normally, with an error, killed at any moment), the next one can start afterwards, and different working copies do not hinder each other.",
  ["schedules", "crash_points"], "all moments of a running command in the bound at which a second one starts, all ends of the first",
  "The tests run one client at a time in one process.",
  [CL, CM], [("init", CL), ("lock_file", CM)], observe=["outcome of the second command", "files, manifest and journal", "requests to the server"])

p("C38", "Commands that report list what is true and change nothing",
  "The commands that only report (status, list of ignored files, list of versions, list of files and list of changes of a version) print exactly what is the case: each local change with its status, each file the filters exclude, each version, file and change of the history, once each and nothing else. They change neither the working copy nor the server. An unknown version, or a server that fails, is reported as such and never as an empty listing.",
  ["inputs", "histories"], "all working copies and histories in the bound, all names of files, messages and version identifiers",
  "No test looks at what the commands print.",
  [CL, SV], [("run: status, list commands", CL), ("find_local_changes / list_versions / list_changes / list_files", CL)], observe=["printed lines", "files, manifest and server before and after"])

p("C39", "The repositories of one server are independent of each other",
  "Whatever is done in one repository of a server (commits finished, given up, left open, refused, interrupted by a crash, deletions, authentications, expiry of sessions, garbage collection), another repository keeps its head, versions, contents, sessions and commit in progress, and its commits are neither refused nor altered by it. A session, version or content of one repository is never good for, found in or served from another, also when one connection uses both and when the names begin with each other.",
  ["histories", "inputs", "crash_points"], "all sequences of operations within the bound on one repository, in all states of the other",
  "The tests configure a single repository.",
  [SV, VS, SDB], [("per-repository paths and context.lock", SV), ("get_server_db_instance_for_thread", SDB)], observe=["files, head, sessions and open commit of the other repository", "responses"])

p("C40", "A commit never touches the user's files, and a failed one stays pending",
  "A commit neither changes, creates nor removes a file or directory of the working copy, nor a modification time, whatever becomes of it (success, refusal, lost connection or answer, expired session, dead server, dead client, unreadable file). A commit that publishes nothing leaves every local change reported as before and the held revision unchanged, does not report success, and can be made again with the full effect. The working copy never records half of a commit.",
  ["fault_sequences", "crash_points", "inputs"], "all faults at any request or step within the bound, all local changes in the bound",
  "The tests commit successfully once.",
  [CL, CDB, SV], [("commit", CL), ("manifest transaction", CDB)], observe=["files and times of the working copy", "status", "manifest revision", "server files"])

p("C41", "What one connection sends harms no other",
  "Whatever one connection sends (headers missing, malformed, huge or foreign, malformed bodies, requests out of order, unknown requests) is answered, refused or ends that connection alone. A request that is refused or fails changes nothing in the repository and nothing of a commit staged by its own connection. Other connections are served as before, a commit in progress elsewhere finishes with exactly what was staged, and once the sender's connection has ended the write lock is free.",
  ["inputs", "histories"], "all single deviations within the bound from a well-formed request of each kind, in each state of the sender and of another connection",
  "The tests send well-formed requests only.",
  [SV, HS, SDB], [("endpoint and routes", SV), ("delete_files", SV), ("shutdown_handler", HS)], observe=["responses", "files and head of the repository", "later commits of other connections"])

p("C42", "Names and messages arrive as they are",
  "A file or directory may have any name the file system allows (white space at either end, colons, quotes, single line breaks, any Unicode character): a commit publishes it under exactly that name, another working copy receives it under exactly that name, and later edits and deletions of it travel like those of any other file. A commit message is recorded exactly as it was given. Where a name or a message cannot be sent, the commit is refused and publishes nothing, in particular never under another name, and a later commit without it succeeds.",
  ["inputs", "histories"], "all names and messages within the length bound",
  "The tests use a few plain names and messages.",
  [HC, CL, SV, HS], [("generate_headers / parse_headers", HC), ("commit / update", CL), ("push_file", SV)], observe=["names and contents of the version", "files of both working copies", "recorded message"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
