#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the long text stays reviewable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Stored file content is read back byte for byte",
  "For every byte sequence of any length or pattern, storing it as a file and reading it back through the returned id yields exactly the same bytes. This holds however the source delivers the bytes (short reads, interrupted reads), and if the source fails part way the store operation fails instead of returning an id.",
  ["inputs", "fault_sequences"],
  "every content (in particular every way the chunker can cut and every way chunk lists can be folded into trees, at every level) and every sequence of reader answers",
  "The tests round-trip random buffers under 1 MiB; the folding of chunk lists into higher tree levels depends on rolling-hash events of probability 2^-14 .. 2^-41 per cut or on files of many megabytes, and the tests always read from a slice, never from a source with short, interrupted or failing reads.",
  ["src/file.rs", "src/object.rs", "src/ds/mod.rs"],
  [("put_data: rolling-hash cuts, forced cuts, five levels of pending child lists", "src/file.rs"), ("read_data: depth-first concatenation", "src/file.rs")],
  ["file::put_data / file::read_data", "snapcd insert / fetch"])

p("C02", "A file's id is a fixed function of its bytes",
  "The id under which a byte sequence is stored depends on nothing but the bytes: not on how the source delivered them, not on what was stored before, and not on the version of the program (ids agree with the ones this release computes). Different byte sequences get different ids.",
  ["inputs", "histories", "fault_sequences"],
  "all contents, all reader answer sequences, all prior store contents; pairwise over all contents",
  "Tests only compare content with itself after a round trip; no test ever looks at an id or delivers the same bytes in two different ways.",
  ["src/file.rs", "src/object.rs", "src/key.rs", "src/ds/mod.rs"],
  [("chunk boundaries decided from the data", "src/file.rs put_data"), ("canonical CBOR object encoding hashed with BLAKE3", "src/ds/mod.rs put_obj/put/hash")],
  ["id returned by file::put_data", "'inserted hash' printed by snapcd insert"])

p("C03", "Fetching a snapshot reproduces the directory tree",
  "For every directory tree of regular files and directories with UTF-8 names, inserting it and fetching the printed id into a fresh destination recreates exactly the same set of relative paths, with the same kind (file or directory, empty directories included) and the same file bytes.",
  ["inputs"],
  "all trees (shapes, names, contents, entry counts, depths)",
  "No existing test touches directories at all.",
  ["src/dir.rs", "src/file.rs", "src/main.rs"],
  [("put_fs_item recursion and child/name pairing", "src/dir.rs"), ("get_fs_item recursion", "src/dir.rs")],
  ["snapcd insert, snapcd fetch"])

p("C04", "A tree's id depends only on names and contents, and identifies it",
  "Inserting the same tree always prints the same id, whatever order the file system lists entries in, wherever the tree is located, whatever its timestamps are and whatever is already stored. Trees that differ in any path, kind or file byte get different ids.",
  ["inputs", "configurations", "histories"],
  "all trees x all directory listing orders x all locations and prior store contents; pairwise over all trees",
  "No test inserts a directory; listing order is an environment answer ordinary runs never vary.",
  ["src/dir.rs", "src/ds/mod.rs"],
  [("put_fs_item builds the child list", "src/dir.rs"), ("FSItem encoding", "src/dir.rs TryInto<Object>")],
  ["id printed by snapcd insert"])

p("C05", "The object store is a faithful transactional content-addressed map",
  "Over any history of put, read, existence, range, state and transaction operations and reopens, the store answers as a map would: an object put is found under its content hash with exactly the bytes put, is never altered or removed by later operations, and nothing that was not put is reported. Changes inside a transaction are seen by the store itself, become permanent at commit, and disappear completely on rollback or when the store is closed without commit.",
  ["histories"],
  "all operation sequences up to a depth over colliding keys, values and transaction boundaries, including closing and reopening",
  "Tests use a fresh in-memory store per case with a single put or one range query; no test uses transactions, reopening, state values or repeated puts.",
  ["src/ds/mod.rs", "src/ds/sqlite.rs"],
  [("SQL statements over data and state tables", "src/ds/sqlite.rs"), ("begin/commit/rollback", "src/ds/sqlite.rs Transactional"), ("hash-then-put", "src/ds/mod.rs put")],
  ["DataStore trait on SqliteDS (file-backed)"])

p("C06", "Object ids in text form resolve exactly",
  "Every object's printed id resolves to that object, in full and for every truncation that no other stored object shares. A text that is a prefix of no stored object's id is reported as not found or invalid, one shared by several is reported as ambiguous with all of them, letters after the first are accepted in either case, and malformed text is rejected with an error rather than resolved to something else.",
  ["inputs", "configurations"],
  "all stored id sets (including all-zero, all-one and bit-adjacent ids) x all texts: every prefix length, every neighbouring text, every case variant, every over-long or non-alphabet text",
  "Tests only check that parsing does not panic and that a full id parses back to its bytes; no test resolves an id or prefix against a store.",
  ["src/keyish.rs", "src/base32.rs", "src/key.rs", "src/ds/mod.rs", "src/ds/sqlite.rs"],
  [("prefix to [start,end) range computation", "src/keyish.rs"), ("canonicalize", "src/ds/mod.rs"), ("raw_between", "src/ds/sqlite.rs"), ("base32", "src/base32.rs")],
  ["Keyish::from_str + DataStore::canonicalize", "snapcd debug pretty-print / fetch"])

p("C07", "Each ref has its own append-only log and HEAD is what was last set",
  "For every history of ref updates, a ref's current value is the last one recorded for exactly that (name, remote) pair, and its log lists every recorded value of that pair, newest first, none lost, altered or mixed in from another name or remote (a local ref and a remote's ref of the same name are distinct). HEAD reads back exactly as last set, and `/name` and `remote/name` texts resolve to exactly those refs.",
  ["histories"],
  "all sequences of pushes, HEAD updates, transaction boundaries and reopens over colliding names and remotes",
  "No existing test touches refs, logs or HEAD.",
  ["src/ds/sqlite.rs", "src/ds/mod.rs", "src/keyish.rs", "src/main.rs"],
  [("reflog table and ORDER BY id DESC", "src/ds/sqlite.rs"), ("remote IS ? comparison", "src/ds/sqlite.rs"), ("state table HEAD", "src/ds/mod.rs")],
  ["DataStore::reflog_push/get/walk, get_head/put_head", "snapcd ref log / ref update / debug get-head"])

p("C08", "A failing command changes nothing and never claims success",
  "If any system call of a command fails (I/O error, disk full, partial write), the command either completes correctly or exits with a failure status. In every case the repository afterwards holds either exactly the state before the command or exactly the complete result of the command, and an exit status of success is only given when the complete result is stored (or, for fetch, written).",
  ["fault_sequences"],
  "every command x every file-system call it makes x every failure kind, one-shot and persistent",
  "Tests never run the program, and no test injects a failure anywhere.",
  ["src/main.rs", "src/ds/sqlite.rs", "src/dir.rs", "src/file.rs", "src/cache.rs"],
  [("one transaction around every command", "src/main.rs main"), ("error propagation", "src/dir.rs, src/file.rs"), ("exit status", "src/main.rs main")],
  ["exit status of every snapcd command, repository content afterwards, fetched files"])

p("C09", "Acknowledged changes survive a crash; interrupted ones vanish whole",
  "After a power failure at any moment, with any not-yet-synced writes lost, reordered or kept, reopening the repository shows exactly the state before the interrupted command or exactly its complete result. Once a command has exited successfully its complete result is there after any later crash, and the repository remains usable.",
  ["crash_points", "histories"],
  "every point in the file-operation log of a command history x every bounded pattern of unsynced writes dropped or kept",
  "Tests only use in-memory databases; nothing is ever crashed or reopened.",
  ["src/ds/sqlite.rs", "src/main.rs"],
  [("journal_mode and synchronous settings", "src/ds/sqlite.rs SqliteDS::new"), ("single transaction per command", "src/main.rs main"), ("commit before exit", "src/main.rs main")],
  ["file operations of the real snapcd binary; state seen by reopening the resulting images"])

p("C10", "Concurrent commands behave as if run one after another",
  "When several snapcd processes work on the same repository at once, in every interleaving each one that exits successfully has its full effect exactly once, each that fails has either no effect or its full effect, and the result is one that running them one after another could produce. In particular no commit is lost, each new commit on a branch has the previous tip as its parent, and read commands show a state that existed.",
  ["schedules"],
  "all interleavings (up to a preemption bound) of the file-system and lock operations of 2-3 concurrent commands",
  "Tests are single threaded and never open the same database twice.",
  ["src/main.rs", "src/ds/sqlite.rs", "src/cache.rs"],
  [("read tip, write objects, append log in one transaction", "src/main.rs commit_cmd"), ("SQLite locking and busy timeout", "src/ds/sqlite.rs"), ("commit error handling", "src/main.rs main")],
  ["exit statuses, ref logs and commit parents after concurrent runs of the real binary"])

p("C11", "Fetch never overwrites and never writes outside its destination",
  "Whatever already exists at or below the destination, fetch never changes, truncates, replaces or removes an existing file; if a file to be written already exists it fails. Whatever names a stored tree contains (including `..`, absolute paths and names with separators), fetch creates nothing outside the destination.",
  ["inputs", "configurations"],
  "all small trees, including hand-crafted ones with hostile names, x all small pre-existing destination states",
  "No test extracts anything.",
  ["src/dir.rs", "src/main.rs"],
  [("create_new on every file", "src/dir.rs get_fs_item"), ("path.join of stored names", "src/dir.rs get_fs_item")],
  ["snapcd fetch, file system before and after"])

p("C12", "Status and compare report exactly what differs",
  "For every committed tree and every working tree, status and compare list as added, deleted and modified exactly the paths that were added, removed (or changed kind), or whose file bytes changed, with everything below a newly added or deleted directory folded into it, and print nothing when the trees are equal. The answer does not depend on the directory the command is started from, on how the compared path is given, or on other content in the store.",
  ["inputs", "configurations"],
  "all pairs of (committed tree, working tree) over small trees x start directories x path options",
  "No test runs a comparison.",
  ["src/diff.rs", "src/dir.rs", "src/main.rs", "src/filter.rs"],
  [("set differences over path maps", "src/diff.rs compare"), ("simplify", "src/diff.rs"), ("walks", "src/dir.rs")],
  ["stdout and exit status of snapcd status / compare"])

p("C13", "The file-hash cache never changes an answer",
  "For every history of edits, commands and repositories sharing one user cache, status and compare (with or without --stat) give the same answer and exit status as with an empty cache, provided no two different contents that files ever had share their size, their identity (inode) and their modification time as recorded by the file system (nanoseconds). A repository that was deleted and recreated, or that never saw a file, is not affected by what the cache remembers from another.",
  ["histories", "configurations"],
  "all sequences of file edits (contents, sizes, times, replacement), commands, and repository re-creation up to a depth, over one shared cache",
  "No test uses the cache.",
  ["src/cache.rs", "src/dir.rs", "src/diff.rs", "src/main.rs"],
  [("CacheKey of inode, mtime, size", "src/cache.rs, src/dir.rs hash_fs_item"), ("cache hit returns a stored id", "src/dir.rs hash_fs_item")],
  ["stdout and exit status of snapcd status / compare with a warm versus an empty cache"])

p("C14", "Log shows, for every commit, exactly the files and lines that changed",
  "For every pair of consecutive commits, log completes and lists for each commit exactly the files added, removed or changed relative to its first parent (everything, for a root commit). For newline-terminated text files, in UTF-8 or another encoding, the printed line counts are those of a minimal line difference: all lines of an added or removed file, and the added and removed lines of a changed one. compare --stat prints the same for the working tree.",
  ["inputs", "histories"],
  "all pairs of small trees (nested directories, kind changes, empty files) and all pairs of small line sequences",
  "No test calls the log, display or stat code.",
  ["src/diff.rs", "src/display.rs", "src/main.rs"],
  [("database-to-database compare", "src/diff.rs compare"), ("line_stat", "src/diff.rs"), ("log_obj", "src/display.rs")],
  ["stdout and exit status of snapcd log"])

p("C15", "The patch shown for a commit applies to its parent and yields it",
  "For every commit whose changed files are newline-terminated text, the patch printed by show is well formed (hunk positions and counts agree with its lines) and, applied to the parent's files, produces exactly the commit's files, with a patch for every changed file and none for an unchanged one.",
  ["inputs"],
  "all pairs of line sequences up to a length over a small alphabet, and all placements of up to two edits in a longer file",
  "The only test checks that the patch function does not panic.",
  ["src/diff.rs", "src/display.rs"],
  [("hunk grouping and ranges", "src/diff.rs patch_from_file_string"), ("added/removed patches", "src/diff.rs create_diff_patch_result")],
  ["stdout of snapcd show"])

p("C16", "History is append-only and every past commit stays retrievable",
  "Over any sequence of commands, a commit adds exactly one entry to the chosen branch, whose parent is that branch's previous tip and whose tree is the working tree at that moment; log then lists the messages from the tip back to the root, unchanged, and every earlier commit's tree can still be fetched exactly. Inspecting commands (status, compare, show, log, ref log, fetch, debug readers) change no ref, HEAD or stored object, and switching HEAD is refused when the working tree differs from the current branch's tip and otherwise changes HEAD only.",
  ["histories"],
  "all sequences of commits, edits, head switches, ref updates and inspections up to a depth, over two branches",
  "Tests never run more than one operation against a store and never create a commit.",
  ["src/main.rs", "src/commit.rs", "src/display.rs", "src/ds/sqlite.rs"],
  [("commit_cmd", "src/main.rs"), ("commit_tree and commit encoding", "src/commit.rs"), ("checkout_head", "src/main.rs"), ("log_obj", "src/display.rs")],
  ["stdout and exit status of every command, store contents"])

p("C17", "Excluded paths and the repository folder never enter a snapshot",
  "For every tree and every set of exclude patterns, a snapshot contains exactly the paths that are not the repository folder, not matched by a pattern and not inside a directory so left out; nothing else is dropped. (A pattern is matched against the path as it was reached from the given directory, and `*` matches separators too.) Status and compare ignore exactly the same paths, so a commit followed by status with the same patterns reports nothing.",
  ["inputs", "configurations"],
  "all small trees x sets of exclude patterns x positions of the repository folder",
  "No test uses a filter.",
  ["src/filter.rs", "src/dir.rs", "src/main.rs"],
  [("make_filter_fn", "src/filter.rs"), ("filter applied at every directory level of both walks", "src/dir.rs")],
  ["snapcd insert/commit/status/compare with -e"])

p("C18", "Checkout is refused untouched outside its allowed place, exact inside it",
  "Outside the location checkout is restricted to (judged by where the working tree really is, however its path is written), checkout fails without changing a single file. Where it is allowed and reports success, the working tree (of regular files and directories) equals the committed tree of HEAD's ref, except that existing excluded paths, the directories they are in, and the repository folder are left as they were; it succeeds unless a file and a directory are in each other's place. Whatever its outcome, it never changes anything outside the working tree (symbolic links are not followed out of it, and other names of a hard-linked file keep their content), excluded paths, the repository folder, refs, or HEAD.",
  ["inputs", "configurations"],
  "all pairs of (committed tree, working tree) over small trees, with and without permission, with excludes",
  "No test runs a checkout.",
  ["src/dir.rs", "src/main.rs"],
  [("location assertion", "src/dir.rs checkout_fs_item"), ("extra-entry removal and file creation", "src/dir.rs checkout_fs_item")],
  ["snapcd checkout, file system before and after"],
  hook="the allowed location is a literal of the author's machine; a cfg-guarded hook lets the harness name a scratch directory instead")

p("C19", "A damaged stored object is never returned as if it were intact",
  "If the stored bytes of any object are altered, truncated, swapped with another object's or missing, reading content that depends on it fails with an error; no read ever returns or writes out content different from what the id denotes while reporting success.",
  ["fault_sequences", "inputs"],
  "every object of a repository x every byte changed, every truncation, every swap and removal",
  "No test damages a database.",
  ["src/ds/mod.rs", "src/ds/sqlite.rs", "src/file.rs", "src/dir.rs"],
  [("get_obj reads and decodes the stored object", "src/ds/mod.rs")],
  ["snapcd fetch / file::read_data on a damaged database"])

p("C20", "Commands find the nearest repository, and init never disturbs one",
  "From every directory inside a working tree a command acts on the repository of the nearest enclosing directory that has one, with the same effect as from its top, and fails without creating anything when there is none. Running init where a repository already exists leaves its refs, HEAD and objects unchanged, and init elsewhere creates an empty repository with HEAD master.",
  ["configurations", "histories"],
  "all small directory nestings x repository placements x start directories x sequences of init, commit and head changes",
  "Tests never run the program.",
  ["src/main.rs"],
  [("find_db_folder", "src/main.rs"), ("init", "src/main.rs")],
  ["snapcd init / commit / status / debug get-head from nested directories"])

p("C21", "Repositories and ids of this release stay valid",
  "A repository written by this release can be opened, listed, fetched, compared and extended with the same ids and contents. Objects, trees and commits have a fixed encoding: storing the same content, tree or commit again yields the ids such a repository already contains.",
  ["histories", "inputs"],
  "all objects, refs and ids of stored reference repositories and all enumerated contents and trees against recorded ids",
  "No test keeps a database or an id from one run to the next.",
  ["src/object.rs", "src/dir.rs", "src/commit.rs", "src/key.rs", "src/ds/sqlite.rs", "src/file.rs"],
  [("serde/CBOR layout", "src/object.rs, src/dir.rs, src/commit.rs"), ("table layout", "src/ds/sqlite.rs"), ("id prefix and base32", "src/key.rs")],
  ["snapcd commands on the committed reference repositories"])

p("C22", "Storing known content again costs nothing; growing a file costs its tail",
  "Storing content that is already stored, under any name or in any command, adds no new file-content object. Storing a file that extends an already stored one adds new content objects amounting to no more than the appended bytes plus a fixed allowance of 128 KiB for the last incomplete chunk and index objects.",
  ["inputs", "histories"],
  "all enumerated contents x repeated stores, all base lengths around chunk boundaries x appended lengths",
  "No test counts what is stored.",
  ["src/file.rs", "src/ds/sqlite.rs", "src/ds/mod.rs"],
  [("content-defined chunking", "src/file.rs put_data"), ("INSERT OR IGNORE by content hash", "src/ds/sqlite.rs raw_put")],
  ["set of stored keys before and after put_data / insert / commit"])

p("C23", "Verbosity and surroundings change nothing a command does or prints",
  "For every history of commands: the exit status of every command, the text it prints on standard output (colours aside), the refs, HEAD and objects it leaves and the files it writes are the same whatever the verbosity flags (-v, -q), the locale, time zone, terminal, colour and other environment variables that do not say where things are, the wall clock and file times as such, the umask, the limit on open files (above what the depth of the trees needs), the order in which directories are listed, hash seeds, what standard input and output are connected to, how the program and the repository folder are named, where the repository and the cache are, and whether the repository was moved between commands. (Messages on standard error may differ; the lines of debug walk-tree and walk-fs-tree come in no particular order.)",
  ["histories", "configurations"],
  "every listed surrounding, and pairs of them, imposed on all, every other or single commands of histories over every command, and on all short sequences of commands",
  "Tests run in one environment and never look at printed text.",
  ["src/main.rs", "src/diff.rs", "src/display.rs", "src/dir.rs", "src/lib.rs", "src/cache.rs"],
  [("logging set up from the flags", "src/main.rs setup_logging"), ("log and ldbg macros", "src/lib.rs, src/diff.rs"), ("colours", "src/diff.rs, src/display.rs, src/main.rs"), ("hash maps and sets sorted before printing", "src/diff.rs compare")],
  ["snapcd commands: exit status, stdout, repository and files"])

p("C24", "What cannot be stored is refused, never left out",
  "A snapshot (insert, or commit with or without -p) of a path either stores every entry that is there, symbolic links standing for what they lead to, or fails leaving refs and HEAD as they were; it succeeds when all there is are files and directories that can be read and links to such. Entries that cannot be stored (fifos, sockets, devices, links that lead nowhere or back up, what may not be read or listed, names that are not UTF-8) make it fail; none is silently left out, stored as something else, or renamed. A comparison or change of HEAD with such entries there either fails or treats them as what they are, and never overlooks them. Excluded entries play no part, whatever they are; and once the odd entries are gone everything works as before.",
  ["inputs"],
  "all trees of up to two or three entries in one or two directories, each a file, directory, link, special, unreadable, or oddly named entry, through insert, commit, status, compare and checkout-head",
  "Tests use regular files only.",
  ["src/dir.rs", "src/filter.rs", "src/main.rs"],
  [("put_fs_item", "src/dir.rs"), ("walk_real_fs_items", "src/dir.rs"), ("make_filter_fn", "src/filter.rs")],
  ["snapcd insert/commit/status/compare/checkout-head on trees with odd entries"])

p("C25", "Files changing during a command never corrupt a snapshot or hide a change",
  "When files are replaced, overwritten, added, removed or moved by someone else while a command runs, a snapshot that the command makes holds for every path something that was there at some time during the command (a file replaced by rename is never stored partly, with another length, or mixed), a comparison lists what is right for one of those times, and a command that fails leaves refs and HEAD alone. Once nothing changes any more, status, compare and the next commit are exact about what is there, whatever was read or remembered meanwhile.",
  ["schedules"],
  "all commands that read the working tree x changes by someone else x every file-system call before which they happen, and pairs of such calls for changes of two steps",
  "Nothing changes while a test runs.",
  ["src/dir.rs", "src/diff.rs", "src/cache.rs", "src/file.rs"],
  [("metadata, open, read of put_fs_item and hash_fs_item", "src/dir.rs"), ("cache key", "src/dir.rs hash_fs_item"), ("walk, then hash", "src/diff.rs compare")],
  ["snapcd insert/commit/status/compare/checkout-head while files change; status, compare, commit, fetch afterwards"])

p("C26", "Status and compare read again only what changed",
  "Once a status or compare that succeeded on a branch with a commit has looked at a file, no later status or compare (of any paths or form, in this repository or in another of the same user that has the content) reads the file's content again while its size, inode and modification time stay the same; so a status right after another reads no file at all, and after one file changed only that one.",
  ["histories"],
  "all sequences of edits, queries, commits and repository re-creation up to a depth over two repositories and one cache, and trees of many files of which one changes; reads are observed as system calls",
  "No test looks at the cache.",
  ["src/cache.rs", "src/dir.rs", "src/diff.rs", "src/main.rs"],
  [("cache lookup before reading", "src/dir.rs hash_fs_item"), ("cache opened by status and compare", "src/main.rs")],
  ["system calls of snapcd status / compare that read files of the working tree"])

p("C27", "Memory does not grow with the size of files",
  "insert, commit, status, compare (without --stat), fetch and checkout handle files of any size, and any number of them, exactly and with an amount of memory that does not depend on their sizes (40 MiB is enough).",
  ["inputs"],
  "all listed kinds of contents x sizes up to gigabytes x the commands",
  "Tests store small contents.",
  ["src/file.rs", "src/dir.rs", "src/ds/sqlite.rs"],
  [("chunk by chunk put_data and read_data", "src/file.rs"), ("buffered readers", "src/dir.rs")],
  ["peak resident memory and result of the snapcd commands"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError:
    pass
print(len(P), "properties")
