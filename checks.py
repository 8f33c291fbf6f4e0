"""Which scenarios decide which property."""
from scenarios import (registry, history, linear, handles, locks, copying, moving, removing, chains, walking, archive, leaks, scoped,
                       callbacks, times, naming, zipnames)

REAL_ALL = ["abl.vpath.base (all modules of the working tree, unmodified)", "abl.util", "decorator", "Python standard library: shutil, zipfile, io layers, tempfile, fnmatch"]
STUB_SCHED = ["thread scheduling, locks, sleeps and clocks (simulator)"]
STUB_DISK = ["operating system file calls (simulated POSIX disk)"]
ASSUME = ["pre-emption happens at line or bytecode boundaries of code under /repo/abl and at simulated system calls, locks and sleeps; code of other packages runs without pre-emption in between",
          "sampling: a clean run is evidence, not proof"]

CHECKS = {}


def check(prop, scenarios, quick, thorough, rule, stub=None, real=None, assumptions=None):
    CHECKS[prop] = {"scenarios": scenarios, "runs": {"quick": quick, "thorough": thorough}, "rule": rule,
                    "real": real or REAL_ALL, "stub": stub or (STUB_SCHED + STUB_DISK),
                    "assumptions": ASSUME + (assumptions or [])}


check("C01", [(registry.C01Requests, 3), (registry.C01Memory, 1)], 8000, 100000,
      "Each run generates 1-5 locations out of 17 that differ pairwise in one component, 2-4 threads requesting them in "
      "8 spellings, stalling or failing constructors and idle cleaning. Non-trivial: at least two thread switches and two library calls.",
      stub=STUB_SCHED + STUB_DISK + ["backends other than memory (scripted FileSystem subclasses)"])
check("C02", [(registry.C02Idle, 3), (registry.C02Memory, 1)], 5500, 100000,
      "Each run generates an interval, a timeout, 1-3 threads of operations, pauses around the timeout, clock steps, failing or "
      "stalling closes. Non-trivial: at least one eviction (idle scenario) or three operations (memory scenario).",
      stub=STUB_SCHED + STUB_DISK + ["backends other than memory (scripted FileSystem subclasses)"])
check("C03", [(registry.C03Force, 4), (registry.C03Zip, 1)], 12000, 100000,
      "Each run generates preloaded connections, 1-3 threads of forced cleanups, idle cleanups and requests, failing or stalling "
      "closes, and ends with a forced cleanup, shutdown, repeated shutdown or interpreter exit. Non-trivial: a connection was closed.",
      stub=STUB_SCHED + STUB_DISK + ["backends other than memory and zip (scripted FileSystem subclasses)"])

check("C04", [(linear.C04Linear, 2), (linear.C04Clash, 1)], 10000, 400000,
      "Each run generates a small tree and 2-4 threads with 2-6 single operations each on shared folders, files, links and handles (in a third "
      "of the runs on names that may each be a folder, a file or a link when used); the recorded "
      "history and the final tree must be explained by one sequential order of a reference model (Wing-Gong search). "
      "Non-trivial: at least two thread switches and two library calls.")
check("C05", [(handles.C05Plain, 3), (handles.C05Zip, 2), (handles.C05Text, 1)], 9000, 400000,
      "Each run generates 1-3 threads that open, read, write, seek and close up to three handles each on 1-3 files (memory or local, with short "
      "reads and writes; also as text of one- to four-byte characters) or zip members; bytes carry their writer, every read and the content of every file are checked exactly. "
      "Non-trivial: at least two handles were open at once and four library calls made.")
check("C06", [(locks.C06Locks, 1)], 9000, 400000,
      "Each run generates 1-4 threads that lock 1-2 files (memory: on 1-2 instances; local: with storage errors), waiting or failing, with and without "
      "cleanup, through links, writing, pausing and raising inside. Non-trivial: a lock was held and either contended or there were three calls.")
check("C07", [(history.C07History, 1)], 9000, 300000,
      "Each run generates a history of 6-30 operations over a tree of 2-4 names and depth 3 and runs it on the memory or the local "
      "backend (there also with storage errors, short reads and writes and dropped connections), comparing every result, error kind and the whole tree with the "
      "reference. Non-trivial: at least two operations changed the tree.")

check("C08", [(copying.C08Copy, 6), (copying.C08Relative, 1)], 5000, 300000,
      "Each run generates trees with files, folders and links on local, memory and zip file systems and 1-4 copies between them (or threads "
      "copying from a shared source), with storage errors at any call, and compares everything on all of them, including times and modes, with the "
      "reference. Non-trivial: at least one copy was made or refused.")

check("C09", [(moving.C09Move, 1)], 4500, 300000,
      "Each run generates trees on a local disk (half the time with a second device), on memory file systems, and 1-3 moves within and between them, with "
      "storage errors or a kill at any system call; at every system call, and by a watching thread, every moved file must be complete at its source or its "
      "destination. Non-trivial: a move was made, met a storage error or was killed.")

check("C10", [(removing.C10Remove, 1)], 12000, 400000,
      "Each run generates a tree with links that lead out, up, round in circles and nowhere on a local or memory file system and 1-4 removals, with "
      "storage errors or a kill at any system call. Non-trivial: something was removed, a storage error was reported or the process was killed.")
check("C11", [(archive.C11Members, 1)], 4000, 200000,
      "Each run generates a history of 4-30 writes, replacements, reads, listings, queries and clean-ups of 2-5 members of one archive on a local disk or "
      "a memory file system, with single storage errors at any call or a disk that runs full. Non-trivial: two members were stored or an error was reported.")
check("C12", [(leaks.C12Leaks, 1)], 8000, 200000,
      "Each run generates trees and archives (also an archive within an archive) on a local disk and a memory file system and 3-20 operations of 40 kinds on "
      "and between them, by 1-3 threads, with storage errors at any call, abandoned walks and raising bodies; after every operation the open files are compared. "
      "Non-trivial: files were opened and at least two operations made.")
check("C13", [(chains.C13Makedirs, 1)], 2500, 400000,
      "Each run generates 2-4 threads that make overlapping folder chains and files in them on a local or memory file system, with files in the way and "
      "storage errors. Non-trivial: at least two thread switches and two chains made.")
check("C14", [(walking.C14Walk, 1)], 5500, 400000,
      "Each run generates a tree on a local, memory or zip file system, walks it in every mode with pruning, reordering and stopping callers, with storage "
      "errors, or while 1-2 threads make and remove other entries all over it. Non-trivial: at least two folders were reported.")
check("C15", [(scoped.C15Scoped, 1)], 15000, 300000,
      "Each run generates a program of nested working-directory blocks (also of helpers made earlier and elsewhere), changes of directory, and temporary-file "
      "handles of 1-3 threads read in pieces and closed or left in seven ways, with storage errors and short reads. Non-trivial: a block was entered or a "
      "temporary file closed.")
check("C16", [(callbacks.C16Callbacks, 1)], 5500, 300000,
      "Each run installs callbacks that return, raise, wait, use the file system or replace themselves on 2-6 paths of two memory file systems, and makes 4-25 "
      "operations of 29 kinds by 1-3 threads, each also on a twin without callbacks. Non-trivial: a callback was invoked and two operations made.")
check("C17", [(times.C17Times, 1)], 9000, 300000,
      "Each run makes 5-40 operations of 30 kinds on files, folders and links of a memory file system by 1-3 threads (each with files of its own that the others "
      "read and query) while the clock stands still, runs and is set forward and back, and compares every time with the reference after every operation. "
      "Non-trivial: three times were changed and the clock moved.")

check("C19", [(naming.C19Names, 12), (naming.C19Query, 1)], 6000, 200000,
      "Each run generates a tree of 2-14 entries whose names are built from URI punctuation, separators of other systems, quotes, dots, spaces and "
      "more, next to entries for which these names could be mistaken, on a local disk, in memory or in an archive another program wrote, and looks at, "
      "changes, copies and removes entries by listed names while another program adds some. Non-trivial: three entries were addressed by their listed names.")

check("C20", [(zipnames.C20Names, 3), (zipnames.C20Glob, 1)], 8000, 300000,
      "Each run generates 1-3 lists of 0-20 member names (files and explicit folders, with and without a leading slash, names that begin with one another) of an "
      "archive another program writes and replaces (a local file or in memory), and 1-3 threads that classify paths and their neighbourhood, list, walk, read and glob; "
      "or a folder in which threads add and remove entries while others glob. Non-trivial: four paths classified or two patterns matched.")

SCENARIOS = {}
for _c in CHECKS.values():
    for _s, _w in _c["scenarios"]:
        SCENARIOS[_s.NAME] = _s
