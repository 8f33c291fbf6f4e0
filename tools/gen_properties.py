"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
FS="abl/vpath/base/fs.py"; MEM="abl/vpath/base/memory.py"; LOC="abl/vpath/base/localfs.py"; ZIP="abl/vpath/base/zip.py"; MISC="abl/vpath/base/misc.py"; SU="abl/vpath/base/simpleuri.py"; UP="abl/vpath/base/uriparse.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","One live connection per location, under any interleaving",
"All requests naming the same scheme, host, port, user, password, connector and extra options (in any order) are served by one and the same live backend connection, and requests that differ in any one of these never share one. This holds whatever threads are requesting connections, or letting idle ones be cleaned, at the same moment: no request fails, is handed a connection that has already been closed, or has work it did through its connection thrown away because of the others. A backend whose construction fails reports that failure to its requester and leaves nothing behind, so that the next request constructs it anew.",
["schedules","inputs","fault_sequences"],"every interleaving of requesting threads with each other and with the cleaner; every pair of locations differing in one component; failing and slow backend constructors",
"Tests call it from one thread, with two locations, and a constructor that never fails or takes time.",
[FS],[("ConnectionRegistry.get_connection / create",FS),("BaseUri._key / _extras",FS),("with_connection",FS)],
["identity of the backend a URI is bound to","contents of memory:// seen by every thread"],
[("connections","live backends by key","ConnectionRegistry"),("creation_locks","per scheme creation lock","ConnectionRegistry")])

p("C02","Idle connections are evicted, and only idle ones",
"A connection on which an operation was started within the last idle-timeout period is never closed by background cleaning, whichever operations those were; one that stays unused for longer than the timeout is closed and dropped no later than about one cleaning interval after its timeout. A backend whose close fails or is slow delays but never prevents the cleaning of the other connections, and never stops later cleaning. Forward and backward steps of the clock change only what counts as idle by that clock.",
["schedules","histories","fault_sequences","configurations"],"every history of operations and pauses, every interval and timeout setting, every failing or stalling close, clock steps",
"No test runs the cleaner past its first second; the timeouts are minutes to half an hour.",
[FS],[("ConnectionRegistry.cleanup / cleaner",FS),("with_connection last_used",FS)],
["close() calls on backends, time since last operation","memory:// contents surviving while in use"],
[("last_used","clock at the last operation","FileSystem")])

p("C03","Forced cleanup and shutdown close everything exactly once",
"A forced cleanup closes every live connection exactly once and drops it, even if some closes raise or another cleanup, a request or the idle cleaner runs at the same time; a request made afterwards gets a fresh, working connection. Shutdown does the same, ends the background cleaner within a few seconds of clock time, may be repeated, and is what runs at interpreter exit. Closing a backend releases every file that backend itself kept open.",
["schedules","fault_sequences"],"every interleaving of cleanup, shutdown, cleaner and requests; every subset of closes failing or stalling",
"Tests call cleanup(force=True) from one thread with backends whose close does nothing.",
[FS,ZIP],[("ConnectionRegistry.cleanup / shutdown / atexit",FS),("ZipFileSystem close",ZIP)],
["close() counts per backend","liveness of the cleaner thread","open file table"])

p("C04","Memory file system operations are atomic across threads",
"When several threads use one in-memory file system, each single operation (making or removing a directory, creating or truncating a file by opening it, removing a file, making or reading a link, listing, status and info queries, and each read or write on an open handle) takes effect as if alone at one instant between its call and its return: all results and the final tree are explained by one sequential order. In particular exactly one of several concurrent creators of a directory or link succeeds, all concurrent openers of a new file share that one file, and a directory in which an entry was successfully created is not removed from under it.",
["schedules","histories"],"every interleaving of up to four threads at bytecode granularity, every short mix of operations on a small shared tree",
"The suite is single threaded.",
[MEM],[("MemoryFileSystem operations",MEM),("MemoryFile / MemoryFileProxy",MEM)],
["return values, errors and the final tree"],[("_fs","root of the tree","MemoryFileSystem")])

p("C05","Open handles are independent of each other",
"Any number of handles may be open at once on the same or on different files of a memory, local or zip file system; in whatever order their reads, writes, seeks and closes interleave, and whatever sizes they ask for, each reader returns exactly the bytes of its own file from its own position onwards, and each writer's bytes arrive in its own file in the order written. Content is readable in full by handles opened after the writing handle was closed or its with-block was left; pieces appended through several simultaneously open append handles are all kept. For a zip archive this includes several members being written, read and listed at the same time through one archive.",
["schedules","histories","fault_sequences"],"every interleaving of operations on several simultaneously open handles, every chunking including short reads and writes by the storage below",
"Tests open one handle at a time.",
[MEM,ZIP,LOC],[("MemoryFileProxy position",MEM),("WriteStatement / open_zip",ZIP),("LocalFileSystem.open",LOC)],
["bytes returned by each handle"])

p("C06","File locks exclude each other, are always released, protect data",
"On the memory and local file systems at most one holder at a time is inside the lock of a given file; a fail-on-lock attempt on a held lock fails at once with the lock-obtain error, and attempts that fail or wait leave what the holder has written untouched. Leaving the locked block releases the lock even if the body raised, a waiting thread then gets it, and with cleanup requested the file is removed on the way out without making any other user of the lock fail. Locking one file system instance or file is not affected by, and does not affect, other instances or files.",
["schedules","fault_sequences","histories"],"every interleaving of contenders, bodies that raise, other file system instances coming into being at any time",
"Tests take one lock in one thread; contention is imitated by acquiring the raw lock by hand.",
[MEM,LOC],[("MemoryLock",MEM),("MemoryFile.FILE_LOCKS",MEM),("LocalFileSystem.lock",LOC)],
["overlap of critical sections, errors raised, file content"],[("FILE_LOCKS","lock per path","MemoryFile")])

p("C07","Memory and local file systems agree on every history",
"For every sequence of mkdir, makedirs, write, append, read, remove, symlink, readlink, listdir, walk, glob, copy, move, existence and kind queries, exec flags and copystat on plainly named paths, the memory and the local file system give the results, contents and kinds of failure of one POSIX-like tree; dropping the local connection at any point changes nothing. Status queries (exists, isfile, isdir, islink) answer False instead of raising for paths that are missing or lead through a file, a dangling link or a link cycle, and resolving links always ends. A single-step operation that fails, including because the storage below reports an error, changes nothing.",
["histories","fault_sequences"],"every operation history over a small namespace with links, evictions and storage errors at any call",
"Tests run a few fixed short scripts; the symlink ones run only against memory on this platform, and none injects storage errors.",
[FS,MEM,LOC],[("BaseUri operations",FS),("FileSystem.copy/move/makedirs/walk/glob",FS),("MemoryFileSystem path resolution",MEM),("LocalFileSystem",LOC)],
["every return value, error kind, and the whole tree after each step"])

p("C08","Copy is exact or reports failure, and never harms anything else",
"A copy (single file or recursive, links followed or kept, with or without ignored folder names, between or within memory, local and zip-source file systems) that returns normally leaves at the destination exactly the source's folders, file bytes and kept links, plus modification time and exec permissions of files when both are in the same memory or local backend. If the storage of either side fails at any point, the copy raises. In every case the source and everything outside the destination stay as they were, including when source and destination are the same or nested (which is refused or harmless, and always ends), and a file digest (md5) is that of its exact bytes or raises.",
["fault_sequences","inputs","histories"],"every storage call failing, short or stalling; every small tree, link layout, backend pair and option combination",
"Tests copy a few small trees on storage that never fails or returns short counts.",
[FS,LOC,MEM,ZIP],[("FileSystem.copy / _copy_link",FS),("BaseUri.md5",FS),("copystat",LOC)],
["tree dumps of source, destination and bystanders before and after; raised error"])

p("C09","Move never loses data",
"At every instant of a move, whatever storage call fails and, between local paths, wherever the process is killed, every file being moved exists in full either at its source or at its destination. A move that returns normally leaves the source gone and the moved content exactly at the destination (inside it, if the destination is an existing folder), and nothing else changed. A move that raises has left every source file not yet completely at the destination untouched.",
["crash_points","fault_sequences","inputs"],"every storage call of every small move as crash or error point; same device, across devices, between backends; onto itself or into itself",
"Tests move on one device without failures and look only at the end state.",
[FS,LOC],[("FileSystem.move",FS),("LocalFileSystem.move",LOC)],
["union of source and destination after each fault or crash"])

p("C10","Removal stays inside its target and is complete or reported",
"Removing a path, recursively or not, removes nothing outside it: links inside are removed as links and what they point to is untouched, also for link cycles and dangling links, and a non-recursive remove of a non-empty folder removes nothing. A removal that returns normally leaves nothing at the path; one that meets a storage error anywhere raises, and what is then left of the tree, also after a crash, is unchanged in content. Removing a missing path raises the does-not-exist error.",
["fault_sequences","crash_points","inputs"],"every storage call of the removal as error or crash point; every small tree with links out, up, in cycles and dangling; memory and local",
"Tests remove a few fixed trees without failures, with links only on the memory file system here.",
[FS,MEM,LOC],[("remove_dir_recursively",FS),("BaseUri.remove",FS),("removefile/removedir",MEM)],
["tree dumps of target and surroundings"])

p("C11","Zip members survive everything that happens later",
"A member whose write completed is later read back with exactly the bytes last written to it, is listed, and is reported as a file (and its parents as folders), whatever follows: other members written, replaced or read in any order, connections cleaned up and reopened at any time, or a later member write failing because of a single storage error or a full disk. A failed member write raises and leaves that member either absent or with its previous or its new content. Queries on an archive that does not exist yet report emptiness instead of failing, and reading a missing member raises the does-not-exist error.",
["histories","fault_sequences","crash_points"],"every history of member writes, reads and queries with evictions between any two, and an error, short or full-disk fault at any storage call of a write",
"Tests write one or two members on fault-free storage and never drop the connection in between.",
[ZIP],[("WriteStatement.__exit__",ZIP),("open_zip / close_zip",ZIP),("_ispart / listdir",ZIP)],
["members read through fresh connections, and the archive's bytes read by an independent reader"])

p("C12","No operation leaks open files",
"Every operation that does not return a file to its caller (queries, listing, walking, copying, moving, removing, digests, info changes, and leaving a lock block) has closed every file it opened by the time it returns or raises, whichever storage call failed on the way. Once the caller has closed the files it was given and connections have been cleaned up, the process holds no open file on behalf of the library, whatever happened before.",
["fault_sequences","histories"],"every storage call failing during every operation; histories of operations with faults followed by cleanup",
"Tests neither inject failures nor count open files.",
[FS,LOC,ZIP],[("with-statements in copy and md5",FS),("close_zip",ZIP),("LocalFileSystem.lock",LOC)],
["the simulated open file table"])

p("C13","Creating folder chains is safe to race",
"When several threads create overlapping chains of folders with makedirs at the same time, also while other threads create files in them, every call succeeds, every requested folder exists afterwards, and nothing created inside them by anyone is lost. A makedirs call fails only for a cause that would also make it fail alone (a file in the way, a storage error), and then reports it.",
["schedules","fault_sequences"],"every interleaving of up to four creators on memory and local, with storage errors",
"The suite is single threaded.",
[FS,MEM,LOC],[("FileSystem.makedirs",FS),("mkdir",MEM)],
["errors raised and the final tree"])

p("C14","Walking is exact, and robust to change elsewhere",
"A walk reports every folder below its start exactly once with exactly its entries split into folders and others, parents before children (or after, when bottom-up), honours pruning by the caller, and does not descend into links unless following is asked for. While other threads create and remove entries elsewhere, entries that exist throughout are still reported exactly once and nothing is reported that never existed. A storage error while listing is raised, not skipped.",
["schedules","fault_sequences","inputs"],"every interleaving of a walker with mutators; every listing call failing; every small tree with links",
"Tests walk fixed trees at rest.",
[FS],[("FileSystem.walk",FS),("listdir",MEM)],
["the sequence of yielded triples"])

p("C15","Scoped helpers always restore",
"Leaving a working-directory block returns to the directory that was current when the helper was made, however the block was left and however such blocks are nested; if entering fails the directory is unchanged. Closing a temporary-file handle, or leaving its block by any path, closes the file and removes it, and its content can be read in any pieces before that.",
["fault_sequences","histories"],"every nesting, every way of leaving, failing chdir, short reads",
"One test leaves one block normally.",
[MISC],[("WorkingDirectory",MISC),("TempFileHandle",MISC)],
["current directory, existence of the temp file, open file table"])

p("C16","Injected errors reach exactly the operations they are meant for",
"On the memory file system a callback installed for a path is invoked once before each operation called directly on that path, with that path, before the operation has had any effect, until it is replaced or removed; if it raises, the caller gets that error and nothing has changed. Operations on other paths do not invoke it, and other file system instances are not affected by it.",
["histories","fault_sequences"],"every history of operations with callbacks installed, raising intermittently, and removed",
"One test installs a callback and calls one operation.",
[MEM,FS],[("pre_call_hook / _manipulate",MEM),("with_connection",FS)],
["callback invocations, error, tree before and after"])

p("C17","Modification times follow the clock",
"On the memory file system a file's or folder's reported modification time is the clock's value when the file was last created, truncated or written (the folder: created), whatever reads, queries, handle openings for reading or closings happen in between and however the clock moves. A time set explicitly holds until the next write, and copying metadata or copying a file within a backend gives the destination the source's time.",
["histories","schedules"],"every history of operations interleaved with clock advances and steps",
"Tests sleep half a second once.",
[MEM,LOC],[("MemoryFile.mtime",MEM),("copystat",MEM),("info",MEM)],
["mtime() and info().mtime against the simulated clock"])

p("C18","URI parsing, joining and splitting are consistent",
"For every URI, parsing followed by printing and parsing again gives an equal URI, joining then splitting gives back the parts, and scheme, credentials, connector and query survive joining, splitting and suffixing.",
["inputs"],"every URI string",
"Pure function of its input; tests hold a few examples.",
[FS,SU,UP],[("UriParse / urisplit",SU),("BaseUri.join/split/__add__",FS)])

p("C19","Every listed name addresses the entry it was listed for",
"Joining any name reported by a listing to its folder, or appending its end with +, addresses exactly that entry, and splitting gives the folder and the name back, also for names containing URI punctuation such as ? # \\ (( )), or a leading dot in the root folder, and whatever the query of the URI.",
["inputs","histories","fault_sequences"],"every set of names that storage holds, whoever made the entries and when; every history of looking at and changing entries by listed names; listing calls failing",
"Tests use plain names they made themselves; what storage holds is up to other programs.",
[FS,UP,SU],[("BaseUri.join / normalize_uri / path",FS),("urisplit",UP)],
["kind and content of what a listed name addresses, and the whole tree after every operation"])

p("C20","Zip path classification and glob matching",
"Given a list of member names, every path is classified as file, folder or absent, and every folder's children are enumerated, as a tree built from those names would; glob returns exactly the names that match its shell pattern.",
["inputs","histories","schedules","fault_sequences"],"every archive another program writes, or puts in the place of one in use; every path and pattern; folders changing while others glob; reads of the archive failing",
"Tests hold a few examples of archives the library wrote.",
[ZIP,FS],[("compare_path_strings / content_item",ZIP),("FileSystem.glob",FS)],
["queries, listings, walks, reads and globs against a tree built from the names"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
