From d01bf15f0fb2c334ae90a8b6132b8d5c2cc9a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 01/38] fix: make the connection registry safe against
 concurrent requests and cleanups

Two threads asking for the same location at the same time could each create
a backend (the first one, and for memory:// its content, was lost), a request
could fail with KeyError or be handed a connection which the cleaner was just
closing, and concurrent cleanups closed a connection twice or died with
KeyError, ending the cleaner thread.
---
 abl/vpath/base/fs.py | 60 +++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0248be2..dfd3359 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -63,20 +63,41 @@ class ConnectionRegistry(object):
 
     def __init__(self, clean_interval=300, clean_timeout=1800):
         self.connections = {}
+        # guards 'connections'; never held while a backend is created or closed
+        self.connections_lock = threading.Lock()
         self.schemes = {}
         self.run_clean_thread = True
         self.clean_interval = clean_interval
         self.clean_timeout = clean_timeout
+        self.creation_locks = defaultdict(threading.Lock)
         self.cleaner_thread = threading.Thread(target=self.cleaner)
         self.cleaner_thread.setDaemon(True)
         self.cleaner_thread.start()
-        self.creation_locks = defaultdict(threading.Lock)
-
 
     def create(self, scheme, key, extras):
-        with self.creation_locks[scheme]:
-            conn = self.schemes[scheme](*key[1:-1], **extras)
-            self.connections[key] = conn
+        with self.connections_lock:
+            creation_lock = self.creation_locks[scheme]
+        with creation_lock:
+            # somebody else might have created it while we waited for the lock
+            conn = self.lookup(key)
+            if conn is None:
+                conn = self.schemes[scheme](*key[1:-1], **extras)
+                with self.connections_lock:
+                    conn.last_used = time.time()
+                    self.connections[key] = conn
+            return conn
+
+
+    def lookup(self, key):
+        """
+        lookup: get the open connection for key or None. The connection counts
+        as used from now on, so that it is not cleaned up under its requester.
+        """
+        with self.connections_lock:
+            conn = self.connections.get(key)
+            if conn is not None:
+                conn.last_used = time.time()
+            return conn
 
 
     def get_connection(self,
@@ -126,21 +147,26 @@ class ConnectionRegistry(object):
             frozenset(extras.items())
             )
 
-        if not key in self.connections:
-            self.create(scheme, key, extras)
-        return self.connections[key]
+        conn = self.lookup(key)
+        if conn is None:
+            conn = self.create(scheme, key, extras)
+        return conn
 
 
     def cleanup(self, force=False):
-        now = time.time()
-        for key, conn in list(self.connections.items()):
-            if ((now - conn.last_used) > self.clean_timeout) or force:
-                try:
-                    conn.close()
-                except:
-                    print("### Exception while closing connection %s" % conn)
-                    traceback.print_exc()
-                del self.connections[key]
+        to_close = []
+        with self.connections_lock:
+            now = time.time()
+            for key, conn in list(self.connections.items()):
+                if ((now - conn.last_used) > self.clean_timeout) or force:
+                    to_close.append(conn)
+                    del self.connections[key]
+        for conn in to_close:
+            try:
+                conn.close()
+            except:
+                print("### Exception while closing connection %s" % conn)
+                traceback.print_exc()
 
 
     def cleaner(self):
-- 
2.43.0


From d6928ab37cb0542b6edd43f6afae6d1acf03ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 02/38] fix: keep cleaning idle connections after the clock was
 set back

The cleaner measured its interval with the wall clock, so a step back by an
hour stopped all cleaning for an hour.
---
 abl/vpath/base/fs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index dfd3359..e07bd84 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -175,9 +175,10 @@ class ConnectionRegistry(object):
         """
         while True:
             self.cleanup()
-            now = time.time()
+            # not time.time(): cleaning must go on when the clock is set back
+            now = time.monotonic()
             try:
-                while (time.time() - now) < self.clean_interval:
+                while (time.monotonic() - now) < self.clean_interval:
                     if not self.run_clean_thread:
                         return
                     time.sleep(1)
-- 
2.43.0


From 296347ebc04c93a40aaaf580fcafc0f6192d4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 03/38] fix: keep credentials given as keyword arguments in
 derived uris

URI('ssh://host/a', username='joe') lost the username on join, split, suffix
and copy, so that the derived uri was served by another connection.
---
 abl/vpath/base/fs.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index e07bd84..00dc47f 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -299,7 +299,7 @@ class BaseUri(object):
             self.uri = uri.uri
             self.sep = uri.sep
             self.parse_result = UriParse(uri.uri)
-            self.extras = uri.extras.copy()
+            self.extras = dict(uri.extras, **uri._credentials())
         else:
             if uri.startswith('file://'):
                 uri = uri[7:]
@@ -336,6 +336,20 @@ class BaseUri(object):
         return extras
 
 
+    def _credentials(self):
+        """
+        username and password if they were not given as part of the uri
+        """
+        return dict((attr, self.__dict__[attr])
+                    for attr in ('username', 'password')
+                    if self.__dict__.get(attr) is not None)
+
+
+    def _inherited_extras(self):
+        "keyword arguments for uris derived from this one"
+        return dict(self._extras(), **self._credentials())
+
+
     def _get_scheme(self):
         if not self._scheme:
             scheme = self.parse_result.scheme
@@ -425,7 +439,7 @@ class BaseUri(object):
         result = self.__class__(
             path,
             sep=self.sep,
-            **self._extras()
+            **self._inherited_extras()
             )
         result.parse_result.query = self.query.copy()
         return result
@@ -460,7 +474,7 @@ class BaseUri(object):
         return (self.__class__(
             first,
             sep=self.sep,
-            **self._extras()
+            **self._inherited_extras()
             ),
             second.partition('?')[0]
             )
@@ -535,7 +549,7 @@ class BaseUri(object):
         result = self.__class__(
             uri_from_parts(parts),
             sep=sep,
-            **self._extras()
+            **self._inherited_extras()
             )
 
         result.parse_result.query = self.query.copy()
-- 
2.43.0


From b2ca4313dd48a6cf8b26bd632b8798c109cc0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 04/38] fix: report errors of the memory file system like a
 file system does

Going through a file, a dangling link or a link cycle, or treating a file as
a directory or the other way round, raised AttributeError (or made islink
raise ELOOP), a link of the same name as the last path component was not
followed, and a trailing slash made an existing directory invisible.
---
 abl/vpath/base/memory.py | 85 +++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e8c7f65..e8c3b65 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -339,10 +339,19 @@ class MemoryFileSystem(FileSystem):
                        linklevel=0):
         prev = None
         current = base
-        for part in steps:
+        for i, part in enumerate(steps):
+            if current is None:
+                # dangling link
+                return [None, None]
+            if current.kind != NodeKind.DIR:
+                if throw:
+                    raise self.lookup_exc_class(errno.ENOTDIR,
+                                                "Not a directory: %s" % '/'.join(steps[:i]))
+                else:
+                    return [None, None]
             prev = current
             if current.has(part):
-                is_last = part == steps[-1]
+                is_last = i == len(steps) - 1
                 current = self._child(current, part,
                                       resolve_link=follow_link if is_last else True,
                                       throw=throw,
@@ -363,6 +372,18 @@ class MemoryFileSystem(FileSystem):
         return current
 
 
+    def _get_parent_dir(self, path):
+        """
+        return the existing parent directory of path and the name in there
+        """
+        steps = self._path(path).split("/")
+        nd = self._get_node(self._fs, steps[:-1])
+        if nd.kind != NodeKind.DIR:
+            raise self.lookup_exc_class(errno.ENOTDIR,
+                                        "Not a directory: %r" % str(path))
+        return nd, steps[-1]
+
+
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
         p = self._path(unc)
@@ -377,8 +398,7 @@ class MemoryFileSystem(FileSystem):
         p = super(MemoryFileSystem, self)._path(path)
         # cut off leading slash, that's our root
         assert p.startswith("/")
-        p = p[1:]
-        return p
+        return "/".join(part for part in p.split("/") if part)
 
 
     def isdir(self, path):
@@ -422,8 +442,7 @@ class MemoryFileSystem(FileSystem):
     def mkdir(self, path):
         p = self._path(path)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
-            dir_to_create = p.split("/")[-1]
+            nd, dir_to_create = self._get_parent_dir(path)
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
             self._create_child(nd, dir_to_create, MemoryDir())
@@ -450,18 +469,21 @@ class MemoryFileSystem(FileSystem):
 
     def _open_for_read(self, path, binary=False):
         nd = self._get_node_for_path(self._fs, path)
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "File is directory")
         nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
 
     def _open_for_write(self, path, binary=False):
         p = self._path(path)
-        nd = self._get_node(self._fs, p.split("/")[:-1])
-        file_to_create = p.split("/")[-1]
+        if not p:
+            raise IOError(errno.EISDIR, "File is directory")
+        nd, file_to_create = self._get_parent_dir(path)
 
         if nd.has(file_to_create):
             cnd = self._child(nd, file_to_create)
-            if cnd is not None and cnd.kind == NodeKind.DIR:
+            if cnd.kind == NodeKind.DIR:
                 raise IOError(errno.EISDIR, "File is directory" )
             cnd.reset()
             return MemoryFileProxy(cnd, False, binary=binary)
@@ -473,6 +495,8 @@ class MemoryFileSystem(FileSystem):
 
     def _open_for_append(self, path, binary=False):
         nd = self._get_node_for_path(self._fs, path)
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "File is directory")
         nd.seek(len(nd))
         return MemoryFileProxy(nd, False, binary=binary)
 
@@ -541,8 +565,9 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_node(self._fs,
-                            [x for x in self._path(path).split("/") if x])
+        nd = self._get_node_for_path(self._fs, path)
+        if nd.kind != NodeKind.DIR:
+            raise OSError(errno.ENOTDIR, "Not a directory: %r" % str(path))
         return sorted(nd.keys())
 
 
@@ -551,20 +576,22 @@ class MemoryFileSystem(FileSystem):
 
 
     def removefile(self, path):
-        parent, _ = self._get_node_prev(self._fs,
-                                        [x for x in self._path(path).split("/") if x],
-                                        follow_link=False)
+        steps = [x for x in self._path(path).split("/") if x]
+        parent, nd = self._get_node_prev(self._fs, steps, follow_link=False)
         if parent is not None:
-            self._del_child(parent, path.last())
+            if nd.kind == NodeKind.DIR:
+                raise OSError(errno.EISDIR, "File is directory: %r" % str(path))
+            self._del_child(parent, steps[-1])
 
 
     def removedir(self, path):
-        prev, _ = self._get_node_prev(self._fs,
-                                            [x for x in self._path(path).split("/") if x])
+        steps = [x for x in self._path(path).split("/") if x]
+        prev, nd = self._get_node_prev(self._fs, steps, follow_link=False)
         if prev is not None:
-            part = path.last()
-            if self._child(prev, part).isempty():
-                self._del_child(prev, part)
+            if nd.kind != NodeKind.DIR:
+                raise OSError(errno.ENOTDIR, "Not a directory: %r" % str(path))
+            if nd.isempty():
+                self._del_child(prev, steps[-1])
             else:
                 raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
 
@@ -603,19 +630,23 @@ class MemoryFileSystem(FileSystem):
 
     def islink(self, path):
         if self._path(path):
-            nd = self._get_node_for_path(self._fs, path, follow_link=False,
-                                         throw=False)
-            if nd is None:
-                return False
-            return nd.kind == NodeKind.LINK
+            try:
+                nd = self._get_node_for_path(self._fs, path, follow_link=False,
+                                             throw=False)
+                if nd is None:
+                    return False
+                return nd.kind == NodeKind.LINK
+            except OSError as e:
+                if e.errno == errno.ELOOP:
+                    return False
+                raise
         return False
 
 
     def symlink(self, target, link_name):
         p = self._path(link_name)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
-            file_to_create = p.split("/")[-1]
+            nd, file_to_create = self._get_parent_dir(link_name)
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
             self._create_child(nd, file_to_create, MemorySymlink(target))
-- 
2.43.0


From 13e04f686ea84970f3d76f014f0752e0154e5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 05/38] fix: give every open memory file handle its own
 position

All handles on one memory file shared one position, so two of them disturbed
each other. Appending handles write at the end and create a missing file,
truncating sets the modification time, and write and seek return what they do
for other files.
---
 abl/vpath/base/memory.py | 100 +++++++++++++++++++++++++++++----------
 1 file changed, 75 insertions(+), 25 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e8c3b65..2c3ff13 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -34,6 +34,8 @@ class MemoryFile(object):
         self.mtime = self.ctime = time.time()
         self.mode = 0
         self.lock = self.FILE_LOCKS[self.path]
+        # to be held while moving around in _data
+        self.io_lock = threading.RLock()
 
 
     def reset(self):
@@ -45,11 +47,12 @@ class MemoryFile(object):
 
 
     def __len__(self):
-        pos = self._data.tell()
-        self._data.seek(-1,2)
-        length = self._data.tell() + 1
-        self._data.seek(pos)
-        return length
+        return self.size()
+
+
+    def __bool__(self):
+        # having no content doesn't make it nothing
+        return True
 
 
     def size(self):
@@ -57,8 +60,9 @@ class MemoryFile(object):
 
 
     def write(self, d):
-        self._data.write(d)
+        res = self._data.write(d)
         self.mtime = time.time()
+        return res
 
 
     def read(self, size=-1):
@@ -66,7 +70,7 @@ class MemoryFile(object):
 
 
     def seek(self, to, whence=0):
-        self._data.seek(to, whence)
+        return self._data.seek(to, whence)
 
 
     def seekable(self):
@@ -82,7 +86,9 @@ class MemoryFile(object):
 
 
     def truncate(self, pos=None):
-        return self._data.truncate(pos)
+        res = self._data.truncate(pos)
+        self.mtime = time.time()
+        return res
 
 
     def seekable(self):
@@ -136,10 +142,26 @@ class MemoryFile(object):
 
 class MemoryFileProxy(object):
 
-    def __init__(self, mem_file, readable, binary=False):
+    """
+    An open handle. Any number of them may be open on the same file,
+    each with a position of its own.
+    """
+
+    def __init__(self, mem_file, readable, binary=False, append=False):
         self.mem_file = mem_file
         self.readable = readable
         self.binary = binary
+        self.append = append
+        self.position = mem_file.size() if append else 0
+
+
+    def _at_position(self, operation, *args, **kwargs):
+        with self.mem_file.io_lock:
+            self.mem_file.seek(self.position)
+            try:
+                return operation(*args, **kwargs)
+            finally:
+                self.position = self.mem_file.tell()
 
 
     def encode(self, data):
@@ -153,11 +175,31 @@ class MemoryFileProxy(object):
     def read(self, *args, **kwargs):
         if not self.readable:
             raise IOError(errno.EBADF, "bad file descriptor")
-        return self.decode(self.mem_file.read(*args, **kwargs))
+        return self.decode(self._at_position(self.mem_file.read, *args, **kwargs))
 
 
     def write(self, data, *args, **kwargs):
-        return self.mem_file.write(self.encode(data), *args, **kwargs)
+        data = self.encode(data)
+        with self.mem_file.io_lock:
+            if self.append:
+                self.position = self.mem_file.size()
+            return self._at_position(self.mem_file.write, data, *args, **kwargs)
+
+
+    def seek(self, to, whence=0):
+        return self._at_position(self.mem_file.seek, to, whence)
+
+
+    def tell(self):
+        return self.position
+
+
+    def truncate(self, pos=None):
+        return self._at_position(self.mem_file.truncate, pos)
+
+
+    def close(self):
+        self.position = 0
 
 
     def __getattr__(self, name):
@@ -177,19 +219,23 @@ class MemoryFileProxy(object):
 
 
     def __next__(self):
-        return self.decode(next(self.mem_file))
+        line = self.readline()
+        if line:
+            return line
+        else:
+            raise StopIteration
 
 
     next = __next__ # Python 2 iterator interface
 
 
     def readline(self):
-        return self.decode(self.mem_file.readline())
+        return self.decode(self._at_position(self.mem_file.readline))
 
 
     def readlines(self):
-        for line in self.mem_file.readlines():
-            yield self.decode(line)
+        for line in self:
+            yield line
 
 
 class MemoryDir(object):
@@ -471,11 +517,13 @@ class MemoryFileSystem(FileSystem):
         nd = self._get_node_for_path(self._fs, path)
         if nd.kind == NodeKind.DIR:
             raise IOError(errno.EISDIR, "File is directory")
-        nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
 
-    def _open_for_write(self, path, binary=False):
+    def _file_to_write(self, path):
+        """
+        return the file at path, which is created if it isn't there
+        """
         p = self._path(path)
         if not p:
             raise IOError(errno.EISDIR, "File is directory")
@@ -485,20 +533,22 @@ class MemoryFileSystem(FileSystem):
             cnd = self._child(nd, file_to_create)
             if cnd.kind == NodeKind.DIR:
                 raise IOError(errno.EISDIR, "File is directory" )
-            cnd.reset()
-            return MemoryFileProxy(cnd, False, binary=binary)
+            return cnd
         else:
             f = MemoryFile(p)
             self._create_child(nd, file_to_create, f)
-            return MemoryFileProxy(f, False, binary=binary)
+            return f
+
+
+    def _open_for_write(self, path, binary=False):
+        f = self._file_to_write(path)
+        f.reset()
+        return MemoryFileProxy(f, False, binary=binary)
 
 
     def _open_for_append(self, path, binary=False):
-        nd = self._get_node_for_path(self._fs, path)
-        if nd.kind == NodeKind.DIR:
-            raise IOError(errno.EISDIR, "File is directory")
-        nd.seek(len(nd))
-        return MemoryFileProxy(nd, False, binary=binary)
+        f = self._file_to_write(path)
+        return MemoryFileProxy(f, False, binary=binary, append=True)
 
 
     def open(self, path, options, mimetype):
-- 
2.43.0


From a7cc3d4c07538611de05e7c5a15c1890916067b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 06/38] fix: keep the mode of a memory file when it is written
 again

---
 abl/vpath/base/memory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 2c3ff13..c7a882a 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -42,7 +42,6 @@ class MemoryFile(object):
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
-        self.mode = 0
         self.lock = self.FILE_LOCKS[self.path]
 
 
-- 
2.43.0


From ca046f257308c73b2aa19cab0daa166e73894d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 07/38] fix: make single operations on the memory file system
 atomic

---
 abl/vpath/base/memory.py | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index c7a882a..dbcf98f 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -11,10 +11,25 @@ from collections import defaultdict
 
 from io import BytesIO
 
+from decorator import decorator
+
 from .fs import FileSystem, BaseUri
 
 from abl.util import Bunch, LockFileObtainException
 
+
+@decorator
+def synchronized(func, self, *args, **kwargs):
+    """
+    make an operation of the file system atomic
+
+    Neither callbacks nor anything that waits for a file lock may be called
+    from such an operation.
+    """
+    with self.fs_lock:
+        return func(self, *args, **kwargs)
+
+
 class NodeKind(object):
     FILE = 0
     DIR = 1
@@ -27,7 +42,7 @@ class MemoryFile(object):
 
     FILE_LOCKS = defaultdict(threading.Lock)
 
-    def __init__(self, path):
+    def __init__(self, path, io_lock=None):
         self.path = path
         self._data = BytesIO()
         self._line_reader = None
@@ -35,7 +50,7 @@ class MemoryFile(object):
         self.mode = 0
         self.lock = self.FILE_LOCKS[self.path]
         # to be held while moving around in _data
-        self.io_lock = threading.RLock()
+        self.io_lock = io_lock or threading.RLock()
 
 
     def reset(self):
@@ -351,6 +366,7 @@ class MemoryFileSystem(FileSystem):
     def _initialize(self):
         assert not self.hostname, "The memory schema only allows 'memory:///' as root path"
         self.lookup_exc_class = OSError
+        self.fs_lock = threading.RLock()
         self._fs = MemoryDir()
         self.next_op_callbacks = {}
         MemoryFile.FILE_LOCKS.clear()
@@ -446,6 +462,7 @@ class MemoryFileSystem(FileSystem):
         return "/".join(part for part in p.split("/") if part)
 
 
+    @synchronized
     def isdir(self, path):
         if self._path(path):
             try:
@@ -461,6 +478,7 @@ class MemoryFileSystem(FileSystem):
         return True
 
 
+    @synchronized
     def isfile(self, path):
         if self._path(path):
             try:
@@ -474,16 +492,19 @@ class MemoryFileSystem(FileSystem):
         return False
 
 
+    @synchronized
     def isexec(self, path, mode_mask):
         return self.info(path).mode & mode_mask != 0
 
 
+    @synchronized
     def set_exec(self, path, mode):
         mask = stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH
         new_mode = (self.info(path).mode & ~mask) | mode
         self.info(path, dict(mode=new_mode))
 
 
+    @synchronized
     def mkdir(self, path):
         p = self._path(path)
         if p:
@@ -493,6 +514,7 @@ class MemoryFileSystem(FileSystem):
             self._create_child(nd, dir_to_create, MemoryDir())
 
 
+    @synchronized
     def exists(self, path):
         if self._path(path):
             try:
@@ -534,7 +556,7 @@ class MemoryFileSystem(FileSystem):
                 raise IOError(errno.EISDIR, "File is directory" )
             return cnd
         else:
-            f = MemoryFile(p)
+            f = MemoryFile(p, self.fs_lock)
             self._create_child(nd, file_to_create, f)
             return f
 
@@ -550,6 +572,7 @@ class MemoryFileSystem(FileSystem):
         return MemoryFileProxy(f, False, binary=binary, append=True)
 
 
+    @synchronized
     def open(self, path, options, mimetype):
         with LookupExceptionClass(self, IOError):
             binary = (options and "b" in options)
@@ -592,6 +615,7 @@ class MemoryFileSystem(FileSystem):
         traverse(self._fs)
         outf.write("MEMORY DUMP: END\n")
 
+    @synchronized
     def info(self, unc, set_info=None, followlinks=True):
         current = self._get_node_for_path(self._fs, unc, follow_link=followlinks)
         if set_info is not None:
@@ -606,6 +630,7 @@ class MemoryFileSystem(FileSystem):
                      size=current.size())
 
 
+    @synchronized
     def copystat(self, src, dest):
         src_current = self._get_node_for_path(self._fs, src)
         dest_current = self._get_node_for_path(self._fs, dest)
@@ -613,6 +638,7 @@ class MemoryFileSystem(FileSystem):
         dest_current.mode = src_current.mode
 
 
+    @synchronized
     def listdir(self, path):
         nd = self._get_node_for_path(self._fs, path)
         if nd.kind != NodeKind.DIR:
@@ -620,10 +646,12 @@ class MemoryFileSystem(FileSystem):
         return sorted(nd.keys())
 
 
+    @synchronized
     def mtime(self, path):
         return self._get_node_for_path(self._fs, path).mtime
 
 
+    @synchronized
     def removefile(self, path):
         steps = [x for x in self._path(path).split("/") if x]
         parent, nd = self._get_node_prev(self._fs, steps, follow_link=False)
@@ -633,6 +661,7 @@ class MemoryFileSystem(FileSystem):
             self._del_child(parent, steps[-1])
 
 
+    @synchronized
     def removedir(self, path):
         steps = [x for x in self._path(path).split("/") if x]
         prev, nd = self._get_node_prev(self._fs, steps, follow_link=False)
@@ -677,6 +706,7 @@ class MemoryFileSystem(FileSystem):
         return True
 
 
+    @synchronized
     def islink(self, path):
         if self._path(path):
             try:
@@ -692,6 +722,7 @@ class MemoryFileSystem(FileSystem):
         return False
 
 
+    @synchronized
     def symlink(self, target, link_name):
         p = self._path(link_name)
         if p:
@@ -701,6 +732,7 @@ class MemoryFileSystem(FileSystem):
             self._create_child(nd, file_to_create, MemorySymlink(target))
 
 
+    @synchronized
     def readlink(self, path):
         if self._path(path):
             nd = self._get_node_for_path(self._fs, path, follow_link=False)
-- 
2.43.0


From 5149430c0eb2ad519e857bb21bcde2da53e00544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 08/38] fix: report a removal that finds neither a file nor a
 folder

A file that vanished just before was taken for removed, special files were left in place silently.
---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 00dc47f..181118a 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -627,7 +627,7 @@ class BaseUri(object):
                 return remove_dir_recursively(self.connection, self)
             else:
                 return self.connection.removedir(self)
-        elif self.connection.isfile(self):
+        else:
             return self.connection.removefile(self)
 
 
-- 
2.43.0


From e6f3486cc34c9b4638dee747c75c8dbe0ddcc4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 09/38] fix: take the lock of a memory file before truncating
 it

Attempts that failed or waited for the lock truncated what its holder had
written. The locks were shared between file system instances and forgotten
whenever another instance was made. With cleanup the file was removed after
the lock was released, so that it could be the file of the next holder.
---
 abl/vpath/base/memory.py | 79 ++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 23 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index dbcf98f..a4b6d54 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -40,24 +40,21 @@ class MemoryFile(object):
 
     kind = NodeKind.FILE
 
-    FILE_LOCKS = defaultdict(threading.Lock)
-
-    def __init__(self, path, io_lock=None):
+    def __init__(self, path, lock, io_lock):
         self.path = path
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
         self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
+        self.lock = lock
         # to be held while moving around in _data
-        self.io_lock = io_lock or threading.RLock()
+        self.io_lock = io_lock
 
 
     def reset(self):
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
-        self.lock = self.FILE_LOCKS[self.path]
 
 
     def __len__(self):
@@ -325,20 +322,32 @@ class MemoryLock(object):
 
 
     def __enter__(self):
-        mfile = self.fs.open(self.path, "w", mimetype='application/octet-stream')
-        self.lock = mfile.lock
-        if self.fail_on_lock:
-            if not self.lock.acquire(False):
-                raise LockFileObtainException
-        else:
-            self.lock.acquire()
-        return mfile
+        while True:
+            lock = self.fs.lock_of(self.path)
+            if self.fail_on_lock:
+                if not lock.acquire(False):
+                    raise LockFileObtainException
+            else:
+                lock.acquire()
+            # only now, what another holder has written must not be truncated
+            try:
+                mfile = self.fs.open_locked(self.path, lock)
+            except:
+                lock.release()
+                raise
+            if mfile is not None:
+                self.lock = lock
+                return mfile
+            lock.release()
 
 
     def __exit__(self, unused_exc_type, unused_exc_val, unused_exc_tb):
-        self.lock.release()
-        if self.cleanup:
-            self.path.remove()
+        try:
+            if self.cleanup:
+                # before the next one gets the lock, it's his file then
+                self.fs.remove_locked(self.path)
+        finally:
+            self.lock.release()
 
 
 class LookupExceptionClass(object):
@@ -369,7 +378,7 @@ class MemoryFileSystem(FileSystem):
         self.fs_lock = threading.RLock()
         self._fs = MemoryDir()
         self.next_op_callbacks = {}
-        MemoryFile.FILE_LOCKS.clear()
+        self.file_locks = defaultdict(threading.Lock)
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
@@ -556,7 +565,7 @@ class MemoryFileSystem(FileSystem):
                 raise IOError(errno.EISDIR, "File is directory" )
             return cnd
         else:
-            f = MemoryFile(p, self.fs_lock)
+            f = MemoryFile(p, self.file_locks[p], self.fs_lock)
             self._create_child(nd, file_to_create, f)
             return f
 
@@ -678,19 +687,43 @@ class MemoryFileSystem(FileSystem):
         return MemoryLock(self, path, fail_on_lock, cleanup)
 
 
+    @synchronized
+    def lock_of(self, path):
+        "the lock of the file at path, whether that exists or not"
+        nd = self._get_node_for_path(self._fs, path, throw=False)
+        if nd is not None and nd.kind == NodeKind.FILE:
+            return nd.lock
+        else:
+            return self.file_locks[self._path(path)]
+
+
+    @synchronized
+    def open_locked(self, path, lock):
+        "open path for writing, or return None if lock isn't its lock anymore"
+        if self.lock_of(path) is lock:
+            return self.open(path, "w", mimetype='application/octet-stream')
+        else:
+            return None
+
+
+    @synchronized
+    def remove_locked(self, path):
+        "remove the file at path unless somebody else has done so"
+        if self.isfile(path) or self.islink(path):
+            self.removefile(path)
+
+
     SENTINEL = object()
 
     def _manipulate(self, path, lock=SENTINEL, unlock=SENTINEL, mtime=SENTINEL,
                     next_op_callback=SENTINEL):
         if lock is not self.SENTINEL and lock:
-            p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self.lock_of(path)
             res = lock.acquire()
             assert res, "you tried to double-lock a file, that's currently not supported"
 
         if unlock is not self.SENTINEL and unlock:
-            p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self.lock_of(path)
             lock.release()
 
         if mtime is not self.SENTINEL:
-- 
2.43.0


From a5a3d67581c16841ffc51827ddf878c0028eeda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 10/38] fix: do not invoke the callback for the call that
 removes it

---
 abl/vpath/base/memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index a4b6d54..a093715 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -538,9 +538,12 @@ class MemoryFileSystem(FileSystem):
 
 
     def pre_call_hook(self, path, func):
-        p = self._path(path)
-        if p in self.next_op_callbacks and self.next_op_callbacks[p] is not None:
-            self.next_op_callbacks[p](path, func)
+        if func.__name__ == '_manipulate':
+            # otherwise a callback that raises could never be removed
+            return
+        callback = self.next_op_callbacks.get(self._path(path))
+        if callback is not None:
+            callback(path, func)
 
 
     def _open_for_read(self, path, binary=False):
-- 
2.43.0


From 319e5cd4935771d76e875219a6d1c9c803bf8769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 11/38] fix: keep a local file locked until it is written and
 removed

The lock was released before buffered content was written and before the file
was removed with cleanup, so that the next holder could lose its file while a
third one got the lock too. A failed attempt left its file open.
---
 abl/vpath/base/localfs.py | 62 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index ecf3857..b9c6bed 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -4,6 +4,7 @@
 #******************************************************************************
 
 import datetime
+import errno
 import logging
 import os
 import shutil
@@ -12,6 +13,9 @@ import sys
 
 from functools import partial
 
+if sys.platform != 'win32':
+    import fcntl
+
 from .fs import FileSystem, BaseUri, denormalize_path, URI
 from .exceptions import OperationIsNotSupportedOnPlatform
 
@@ -28,6 +32,62 @@ def lchmod(filename, mode):
         return os.lchmod(filename, mode)
 
 
+class LocalLock(LockFile):
+    """
+    A LockFile that stays locked until its content is written and it is
+    removed, and that doesn't take a file for locked which its previous holder
+    has removed.
+    """
+
+    def __enter__(self):
+        while True:
+            try:
+                res = super(LocalLock, self).__enter__()
+                if self._is_in_place():
+                    return res
+            except:
+                if self.file is not None:
+                    self.file.close()
+                raise
+            self.file.close()
+
+
+    def _is_in_place(self):
+        if sys.platform == 'win32':
+            return True
+        try:
+            return os.path.samestat(os.fstat(self.fd), os.stat(self.name))
+        except OSError as e:
+            if e.errno == errno.ENOENT:
+                return False
+            raise
+
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        if sys.platform == 'win32':
+            # there an open file can't be removed
+            return super(LocalLock, self).__exit__(exc_type, exc_val, exc_tb)
+        try:
+            self.file.flush()
+        finally:
+            try:
+                if self.cleanup:
+                    self._remove()
+            finally:
+                try:
+                    fcntl.flock(self.file, fcntl.LOCK_UN)
+                finally:
+                    self.file.close()
+
+
+    def _remove(self):
+        try:
+            os.remove(self.name)
+        except OSError as e:
+            if e.errno != errno.ENOENT:
+                raise
+
+
 class LocalFileSystemUri(BaseUri):
     def __str__(self):
         return self.path
@@ -151,7 +211,7 @@ class LocalFileSystem(FileSystem):
 
 
     def lock(self, path, fail_on_lock, cleanup):
-        return LockFile(self._path(path), fail_on_lock=fail_on_lock, cleanup=cleanup)
+        return LocalLock(self._path(path), fail_on_lock=fail_on_lock, cleanup=cleanup)
 
 
     def mtime(self, path):
-- 
2.43.0


From 77ff7d3efc13bf5f24fc4ca357d771740a9c6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 12/38] fix: let makedirs cope with others making the same
 folders

---
 abl/vpath/base/fs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 181118a..9d47e05 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1,5 +1,6 @@
 import atexit
 from collections import defaultdict
+import errno
 import fnmatch
 import hashlib
 from importlib.metadata import entry_points
@@ -1019,9 +1020,13 @@ class FileSystem(object):
         if not pth.isdir():
             self.makedirs(pth)
         if tail:
-            return path.mkdir()
-        else:
-            return path
+            try:
+                return path.mkdir()
+            except OSError as e:
+                # somebody else might have made it in the meantime
+                if e.errno != errno.EEXIST or not path.isdir():
+                    raise
+        return path
 
 
     def move(self, source, destination):
-- 
2.43.0


From 9f44c2b7bf0aed9531fe783087375c0ed59d54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 13/38] fix: keep folder names as they are in recursive copies

Spaces around names were lost, and the first character of each when the source
ends with a slash.
---
 abl/vpath/base/fs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 9d47e05..eda46ee 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -980,11 +980,11 @@ class FileSystem(object):
                 self._copy_link(source, droot)
             else:
                 droot.makedirs()
-                spth = source.path
-                spth_len = len(spth) + 1
+                separators = '/' + source.sep
+                spth_len = len(source.path.rstrip(separators))
                 for root, dirs, files in source.walk(followlinks=followlinks):
                     rpth = root.path
-                    tojoin = rpth[spth_len:].strip()
+                    tojoin = rpth[spth_len:].lstrip(separators)
                     if tojoin:
                         dbase = droot / tojoin
                     else:
-- 
2.43.0


From 8f57b27df21accef508af6d73ea745cb10ff8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 14/38] fix: copy links to the file system of the destination

When source and destination are on different file systems, the link was made
(and a file removed) on that of the source.
---
 abl/vpath/base/fs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index eda46ee..7b87638 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -937,9 +937,11 @@ class FileSystem(object):
 
     def _copy_link(self, source, dest):
         assert self.islink(source)
-        if dest.isfile():
-            self.removefile(dest)
-        self.symlink(self.readlink(source), dest)
+        target = self.readlink(source)
+        connection = dest.get_connection()
+        if connection.isfile(dest):
+            connection.removefile(dest)
+        connection.symlink(target, dest)
 
 
     def copy(self, source, dest, recursive=False, ignore=None,
-- 
2.43.0


From e65bdb8034efa7ace202bf9b982e9b3e72dfb098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 15/38] fix: refuse to copy something onto or into itself

Copying or moving a file onto itself emptied it, copying a folder into itself
never came to an end.
---
 abl/vpath/base/fs.py      | 59 +++++++++++++++++++++++++++++----------
 abl/vpath/base/localfs.py |  5 ++++
 abl/vpath/base/memory.py  |  5 ++++
 3 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 7b87638..f6b5860 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -223,6 +223,17 @@ def denormalize_path(path, sep='\\'):
         return path.replace('/', sep)
 
 
+def is_same_entry(path, other, followlinks=True):
+    "do both paths exist and lead to the same file or folder?"
+    identities = []
+    for uri in (path, other):
+        connection = uri.get_connection()
+        if not connection.exists(uri):
+            return False
+        identities.append(connection.identity(uri, followlinks))
+    return identities[0] == identities[1]
+
+
 def remove_dir_recursively(connection, path):
     for root, dirs, files in connection.walk(path, topdown=False,
                                              followlinks=False):
@@ -937,6 +948,8 @@ class FileSystem(object):
 
     def _copy_link(self, source, dest):
         assert self.islink(source)
+        if is_same_entry(source, dest, followlinks=False):
+            return
         target = self.readlink(source)
         connection = dest.get_connection()
         if connection.isfile(dest):
@@ -944,13 +957,20 @@ class FileSystem(object):
         connection.symlink(target, dest)
 
 
+    def _copy_file(self, source, dest):
+        if is_same_entry(source, dest):
+            raise shutil.SameFileError("%s and %s are the same file" % (source, dest))
+        with source.open('rb') as infs, dest.open('wb') as outfs:
+            shutil.copyfileobj(infs, outfs, 8192)
+        if source.scheme == dest.scheme:
+            self.copystat(source, dest)
+
+
     def copy(self, source, dest, recursive=False, ignore=None,
              followlinks=True):
         if source.connection is dest.connection and hasattr(self, 'internal_copy'):
             return self.internal_copy(source, dest, recursive, ignore)
 
-        use_same_backend = source.scheme == dest.scheme
-
         if ignore is not None:
             ignore = set(ignore)
         else:
@@ -967,10 +987,7 @@ class FileSystem(object):
             if source.islink() and not followlinks:
                 self._copy_link(source, dest)
             else:
-                with source.open('rb') as infs, dest.open('wb') as outfs:
-                    shutil.copyfileobj(infs, outfs, 8192)
-                if use_same_backend:
-                    self.copystat(source, dest)
+                self._copy_file(source, dest)
         else:
             assert source.isdir()
             if dest.isdir():
@@ -981,10 +998,21 @@ class FileSystem(object):
             if source.islink() and not followlinks:
                 self._copy_link(source, droot)
             else:
+                # look at all of it first, it must not contain the destination
+                tree = []
+                for root, dirs, files in source.walk(followlinks=followlinks):
+                    dirs[:] = [folder for folder in dirs if folder not in ignore]
+                    tree.append((root, dirs, files))
+                existing = droot
+                while not existing.isdir() and existing != existing.directory():
+                    existing = existing.directory()
+                if any(is_same_entry(root, existing) for root, _, _ in tree):
+                    raise shutil.Error("cannot copy %s into itself, %s" % (source, droot))
+
                 droot.makedirs()
                 separators = '/' + source.sep
                 spth_len = len(source.path.rstrip(separators))
-                for root, dirs, files in source.walk(followlinks=followlinks):
+                for root, dirs, files in tree:
                     rpth = root.path
                     tojoin = rpth[spth_len:].lstrip(separators)
                     if tojoin:
@@ -992,10 +1020,7 @@ class FileSystem(object):
                     else:
                         dbase = droot
 
-                    for folder in dirs[:]:
-                        if folder in ignore:
-                            dirs.remove(folder)
-                            continue
+                    for folder in dirs:
                         ddir = dbase / folder
                         srcp = root / folder
                         if srcp.islink() and not followlinks:
@@ -1009,10 +1034,7 @@ class FileSystem(object):
                         if srcf.islink() and not followlinks:
                             self._copy_link(srcf, destf)
                         else:
-                            with srcf.open('rb') as infs, destf.open('wb') as outfs:
-                                shutil.copyfileobj(infs, outfs, 8192)
-                            if use_same_backend:
-                                self.copystat(srcf, destf)
+                            self._copy_file(srcf, destf)
 
 
     def makedirs(self, path):
@@ -1142,6 +1164,13 @@ class FileSystem(object):
         raise NotImplementedError
 
 
+    def identity(self, path, followlinks=True):
+        """
+        something that is the same for all paths to one existing file or folder
+        """
+        return self, self._path(path).rstrip('/')
+
+
     def copystat(self, path, other):
         raise NotImplementedError
 
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index b9c6bed..23f1c33 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -218,6 +218,11 @@ class LocalFileSystem(FileSystem):
         return self.info(path).mtime
 
 
+    def identity(self, path, followlinks=True):
+        stats = os.stat(self._path(path)) if followlinks else os.lstat(self._path(path))
+        return self.scheme, stats.st_dev, stats.st_ino
+
+
     def copystat(self, source, dest):
         shutil.copystat(source.path, dest.path)
 
diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index a093715..e7dbfe4 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -663,6 +663,11 @@ class MemoryFileSystem(FileSystem):
         return self._get_node_for_path(self._fs, path).mtime
 
 
+    @synchronized
+    def identity(self, path, followlinks=True):
+        return self._get_node_for_path(self._fs, path, follow_link=followlinks)
+
+
     @synchronized
     def removefile(self, path):
         steps = [x for x in self._path(path).split("/") if x]
-- 
2.43.0


From 186a79d65396095428d1ad64b6f4b2a9bde85879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 16/38] fix: copy metadata to the memory file system of the
 destination

---
 abl/vpath/base/memory.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e7dbfe4..8fec3a1 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -642,12 +642,10 @@ class MemoryFileSystem(FileSystem):
                      size=current.size())
 
 
-    @synchronized
     def copystat(self, src, dest):
-        src_current = self._get_node_for_path(self._fs, src)
-        dest_current = self._get_node_for_path(self._fs, dest)
-        dest_current.mtime = src_current.mtime
-        dest_current.mode = src_current.mode
+        stats = self.info(src)
+        # dest might be on another memory file system
+        dest.get_connection().info(dest, dict(mtime=stats.mtime, mode=stats.mode))
 
 
     @synchronized
-- 
2.43.0


From b6b812be59a616c56ff1f1b3dd50eac8176f92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 17/38] fix: keep handles on zip members independent of each
 other

All of them shared one open archive: reading or querying one member broke other
readers and writers, and lost what they wrote; so did closing a writing handle
without a with block. The archive stayed open until somebody collected it.
Queries on an archive that doesn't exist failed.
---
 abl/vpath/base/zip.py | 86 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 22 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 62db8ab..8cc84c1 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -3,7 +3,8 @@
 # Author: Stephan Diehl <stephan.diehl@ableton.com>
 #******************************************************************************
 
-from io import BytesIO
+from io import BufferedReader, BytesIO
+import threading
 from zipfile import ZipFile
 
 from .fs import FileSystem, BaseUri, URI
@@ -22,11 +23,14 @@ class WriteStatement(object):
 
 
     def __exit__(self, etype, evalue, etraceback):
-        self.zip_backend._ziphandle.writestr(self.path_string,
-                                             self.byte_buffer.getvalue())
-        self.byte_buffer.close()
-        self.zip_backend.close_zip()
-        self.zip_backend.open_zip()
+        self.close()
+
+
+    def close(self):
+        if not self.byte_buffer.closed:
+            content = self.byte_buffer.getvalue()
+            self.byte_buffer.close()
+            self.zip_backend.write_member(self.path_string, content)
 
 
     def __getattr__(self, attr):
@@ -105,13 +109,24 @@ class ZipFileSystem(FileSystem):
     def _initialize(self):
         self._file_handle = None
         self._ziphandle = None
+        # to be held while the archive is open
+        self._archive_lock = threading.RLock()
+
+
+    def close(self):
+        with self._archive_lock:
+            self.close_zip()
 
 
     def close_zip(self):
-        if self._ziphandle is not None:
-            self._ziphandle.close()
-        if self._file_handle is not None:
-            self._file_handle.close()
+        try:
+            if self._ziphandle is not None:
+                self._ziphandle.close()
+        finally:
+            self._ziphandle = None
+            if self._file_handle is not None:
+                self._file_handle.close()
+            self._file_handle = None
 
 
     def open_zip(self, options=None):
@@ -132,7 +147,6 @@ class ZipFileSystem(FileSystem):
 
 
     def open(self, unc, options=None, mimetype='application/octet-stream'):
-        self.open_zip(options)
         if options is None:
             options = 'r'
         if 'r' in options:
@@ -143,18 +157,50 @@ class ZipFileSystem(FileSystem):
 
     def _open_for_reading(self, unc, options):
         path_string = self._path(unc)
-        try:
-            self._ziphandle.getinfo(path_string)
-            return self._ziphandle.open(path_string)
-        except KeyError:
-            raise FileDoesNotExistError()
+        with self._archive_lock:
+            if not self._zip_file_path().exists():
+                raise FileDoesNotExistError()
+            try:
+                self.open_zip(options)
+                content = self._ziphandle.read(path_string)
+            except KeyError:
+                raise FileDoesNotExistError()
+            finally:
+                self.close_zip()
+        # whatever happens to the archive from now on
+        return BufferedReader(BytesIO(content))
 
 
     def _open_for_writing(self, unc, options):
         path_string = self._path(unc)
+        with self._archive_lock:
+            try:
+                self.open_zip(options)
+            finally:
+                self.close_zip()
         return WriteStatement(path_string, self)
 
 
+    def write_member(self, path_string, content):
+        with self._archive_lock:
+            try:
+                self.open_zip('w')
+                self._ziphandle.writestr(path_string, content)
+            finally:
+                self.close_zip()
+
+
+    def _member_names(self):
+        with self._archive_lock:
+            if not self._zip_file_path().exists():
+                return []
+            try:
+                self.open_zip()
+                return self._ziphandle.namelist()
+            finally:
+                self.close_zip()
+
+
     def exists(self, unc):
         return self._ispart(unc, (ISDIR, ISFILE))
 
@@ -184,15 +230,11 @@ class ZipFileSystem(FileSystem):
     def listdir(self, unc):
         if not self._zip_file_path().exists():
             return []
-        if self._ziphandle is None:
-            self.open_zip()
         path_string = self._path(unc)
-        if path_string == '/' and self._ziphandle is None:
-            return []
         if not self.isdir(unc):
             raise FileDoesNotExistError()
         content_set = set()
-        for item in self._ziphandle.namelist():
+        for item in self._member_names():
             citem = content_item(path_string, item)
             if citem:
                 content_set.add(citem)
@@ -204,7 +246,7 @@ class ZipFileSystem(FileSystem):
         path_string = self._path(unc)
         if path_string == '/':
             return True
-        for item in self._ziphandle.namelist():
+        for item in self._member_names():
             result = compare_path_strings(path_string, item)
             if result in expected:
                 return True
-- 
2.43.0


From bff592511fd681d0d6389dba3d0b03af21d55046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 18/38] fix: keep the members of a zip archive when writing
 another one fails

---
 abl/vpath/base/zip.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 8cc84c1..7b8a924 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -173,21 +173,45 @@ class ZipFileSystem(FileSystem):
 
     def _open_for_writing(self, unc, options):
         path_string = self._path(unc)
-        with self._archive_lock:
-            try:
-                self.open_zip(options)
-            finally:
-                self.close_zip()
+        self._change_archive(lambda archive: None)
         return WriteStatement(path_string, self)
 
 
     def write_member(self, path_string, content):
+        self._change_archive(lambda archive: archive.writestr(path_string, content))
+
+
+    def _change_archive(self, change):
+        """
+        call change with the archive opened for writing and put the archive
+        back into its former state if that fails
+        """
         with self._archive_lock:
+            path = self._zip_file_path()
+            is_new = not path.isfile()
+            directory = None
             try:
                 self.open_zip('w')
-                self._ziphandle.writestr(path_string, content)
-            finally:
+                if not is_new:
+                    # new members are written over the directory of the archive
+                    directory_pos = self._ziphandle.start_dir
+                    self._file_handle.seek(directory_pos)
+                    directory = self._file_handle.read()
+                change(self._ziphandle)
                 self.close_zip()
+            except:
+                try:
+                    self.close_zip()
+                except Exception:
+                    pass
+                if directory is not None:
+                    with path.open('r+b') as archive:
+                        archive.seek(directory_pos)
+                        archive.write(directory)
+                        archive.truncate()
+                elif is_new and path.isfile():
+                    path.remove()
+                raise
 
 
     def _member_names(self):
-- 
2.43.0


From d2e1629cf11d124b79269bcaf4bbcec4aa0e179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 19/38] fix: make removing on the memory file system atomic

---
 abl/vpath/base/fs.py     | 30 +++++++++++++++++-------------
 abl/vpath/base/memory.py |  5 +++++
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index f6b5860..dd3e51c 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -628,19 +628,7 @@ class BaseUri(object):
         the options string contains 'r'. Otherwise, the backends 'removedir'
         method is used.
         """
-        if self.connection.islink(self):
-            return self.connection.removefile(self)
-
-        if not self.connection.exists(self):
-            raise FileDoesNotExistError(str(self))
-
-        if self.connection.isdir(self):
-            if recursive:
-                return remove_dir_recursively(self.connection, self)
-            else:
-                return self.connection.removedir(self)
-        else:
-            return self.connection.removefile(self)
+        return self.connection.remove(self, recursive)
 
 
     @with_connection
@@ -1065,6 +1053,22 @@ class FileSystem(object):
             source.remove('r')
 
 
+    def remove(self, path, recursive=False):
+        if self.islink(path):
+            return self.removefile(path)
+
+        if not self.exists(path):
+            raise FileDoesNotExistError(str(path))
+
+        if self.isdir(path):
+            if recursive:
+                return remove_dir_recursively(self, path)
+            else:
+                return self.removedir(path)
+        else:
+            return self.removefile(path)
+
+
     def walk(self, top, topdown=True, followlinks=True):
         names = sorted(self.listdir(top))
 
diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 8fec3a1..64fbb12 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -666,6 +666,11 @@ class MemoryFileSystem(FileSystem):
         return self._get_node_for_path(self._fs, path, follow_link=followlinks)
 
 
+    @synchronized
+    def remove(self, path, recursive=False):
+        return super(MemoryFileSystem, self).remove(path, recursive)
+
+
     @synchronized
     def removefile(self, path):
         steps = [x for x in self._path(path).split("/") if x]
-- 
2.43.0


From 68b38f735ea492d9fa98e365a74f6a288164c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 20/38] fix: refuse to copy a folder over a folder inside it

---
 abl/vpath/base/fs.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index dd3e51c..c69360e 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -986,28 +986,31 @@ class FileSystem(object):
             if source.islink() and not followlinks:
                 self._copy_link(source, droot)
             else:
-                # look at all of it first, it must not contain the destination
+                # look at all of it first, nothing of it may be written to
                 tree = []
-                for root, dirs, files in source.walk(followlinks=followlinks):
-                    dirs[:] = [folder for folder in dirs if folder not in ignore]
-                    tree.append((root, dirs, files))
-                existing = droot
-                while not existing.isdir() and existing != existing.directory():
-                    existing = existing.directory()
-                if any(is_same_entry(root, existing) for root, _, _ in tree):
-                    raise shutil.Error("cannot copy %s into itself, %s" % (source, droot))
-
-                droot.makedirs()
                 separators = '/' + source.sep
                 spth_len = len(source.path.rstrip(separators))
-                for root, dirs, files in tree:
+                for root, dirs, files in source.walk(followlinks=followlinks):
+                    dirs[:] = [folder for folder in dirs if folder not in ignore]
                     rpth = root.path
                     tojoin = rpth[spth_len:].lstrip(separators)
                     if tojoin:
                         dbase = droot / tojoin
                     else:
                         dbase = droot
+                    tree.append((root, dbase, dirs, files))
+                existing = droot
+                while not existing.isdir() and existing != existing.directory():
+                    existing = existing.directory()
+                sources = set(root.get_connection().identity(root)
+                              for root, _, _, _ in tree)
+                for folder in [existing] + [dbase for _, dbase, _, _ in tree]:
+                    connection = folder.get_connection()
+                    if connection.isdir(folder) and connection.identity(folder) in sources:
+                        raise shutil.Error("cannot copy %s into itself, %s" % (source, droot))
 
+                droot.makedirs()
+                for root, dbase, dirs, files in tree:
                     for folder in dirs:
                         ddir = dbase / folder
                         srcp = root / folder
-- 
2.43.0


From cdb25c3c3ae7519c1c8b5ac617e14c9078a510db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 21/38] fix: refuse to move a local folder into itself through
 a link

---
 abl/vpath/base/localfs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 23f1c33..43138d3 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -205,6 +205,12 @@ class LocalFileSystem(FileSystem):
         if dest.scheme == 'file':
             if source.isdir() and dest.isdir():
                 dest /= source.basename()
+            if source.isdir() and not source.islink():
+                # shutil.move would overlook that if there are links on the way
+                # to dest, and remove source with what it has moved
+                top = os.path.join(os.path.realpath(source.path), '')
+                if os.path.realpath(dest.path).startswith(top):
+                    raise shutil.Error("cannot move %s into itself, %s" % (source, dest))
             return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
-- 
2.43.0


From 47d1c7c6fd9df638cc6ffae29879386539bb6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 22/38] fix: remove the file of a temporary file handle once,
 also if closing it fails

---
 abl/vpath/base/misc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 193582d..aff09da 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -22,6 +22,7 @@ class TempFileHandle(object):
     def __init__(self, tmpfilename):
         self.tmpfilename = tmpfilename
         self.handle = open(self.tmpfilename)
+        self.removed = False
 
     def __enter__(self):
         return self
@@ -33,9 +34,13 @@ class TempFileHandle(object):
         return self.handle.read(limit)
 
     def close(self):
-        retval = self.handle.close()
-        os.unlink(self.tmpfilename)
-        return retval
+        try:
+            return self.handle.close()
+        finally:
+            # it might have been closed before leaving the block
+            if not self.removed:
+                os.unlink(self.tmpfilename)
+                self.removed = True
 
 
 class WorkingDirectory(object):
-- 
2.43.0


From 86e1643bd823cf174aa0e639fce4d588c29b2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 23/38] fix: keep the members of a zip archive that cannot be
 read for a moment

---
 abl/vpath/base/zip.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 7b8a924..7b434fe 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -37,6 +37,30 @@ class WriteStatement(object):
         return getattr(self.byte_buffer, attr)
 
 
+class ArchiveReadError(Exception):
+    pass
+
+
+class ArchiveFile(object):
+    """
+    zipfile takes a file it fails to read for something else than an archive
+    and appends a new archive to it. Hide the nature of such errors from it.
+    """
+    def __init__(self, file_handle):
+        self.file_handle = file_handle
+
+
+    def read(self, *args):
+        try:
+            return self.file_handle.read(*args)
+        except EnvironmentError as e:
+            raise ArchiveReadError(e)
+
+
+    def __getattr__(self, attr):
+        return getattr(self.file_handle, attr)
+
+
 ISDIR = 1
 ISFILE = 2
 
@@ -143,7 +167,13 @@ class ZipFileSystem(FileSystem):
                 options = 'wb'
 
         self._file_handle = self._zip_file_path().open(options)
-        self._ziphandle = ZipFile(self._file_handle, zip_options)
+        if zip_options == 'a':
+            try:
+                self._ziphandle = ZipFile(ArchiveFile(self._file_handle), zip_options)
+            except ArchiveReadError as e:
+                raise e.args[0]
+        else:
+            self._ziphandle = ZipFile(self._file_handle, zip_options)
 
 
     def open(self, unc, options=None, mimetype='application/octet-stream'):
-- 
2.43.0


From ce92fe6f2ebccc9ab5fe4e40bfb15aa0b6fb45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 24/38] fix: move local folders named with a trailing slash
 like others

---
 abl/vpath/base/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 43138d3..935cffd 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -204,7 +204,7 @@ class LocalFileSystem(FileSystem):
         """
         if dest.scheme == 'file':
             if source.isdir() and dest.isdir():
-                dest /= source.basename()
+                dest /= source.last()
             if source.isdir() and not source.islink():
                 # shutil.move would overlook that if there are links on the way
                 # to dest, and remove source with what it has moved
-- 
2.43.0


From 26e8fe0ccea67a571b16f6dc940087faeec49d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 25/38] fix: read characters, not bytes, from memory files
 opened as text

---
 abl/vpath/base/memory.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 64fbb12..a2a57ea 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -1,5 +1,6 @@
 from __future__ import unicode_literals
 
+import codecs
 import mimetypes
 import hashlib
 import time
@@ -186,7 +187,24 @@ class MemoryFileProxy(object):
     def read(self, *args, **kwargs):
         if not self.readable:
             raise IOError(errno.EBADF, "bad file descriptor")
-        return self.decode(self._at_position(self.mem_file.read, *args, **kwargs))
+        read = self.mem_file.read if self.binary else self._read_text
+        return self._at_position(read, *args, **kwargs)
+
+
+    def _read_text(self, size=-1):
+        """
+        read size characters, which might be more bytes
+        """
+        if size is None or size < 0:
+            return self.decode(self.mem_file.read())
+        decoder = codecs.getincrementaldecoder('utf-8')()
+        text = ''
+        while len(text) < size:
+            data = self.mem_file.read(size - len(text))
+            text += decoder.decode(data, final=not data)
+            if not data:
+                break
+        return text
 
 
     def write(self, data, *args, **kwargs):
-- 
2.43.0


From c9949cd409e70014aac50ba7965b5c050ce932b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 26/38] fix: create the file a dangling memory link leads to
 when it is opened for writing

---
 abl/vpath/base/memory.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index a2a57ea..e518964 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -580,15 +580,19 @@ class MemoryFileSystem(FileSystem):
             raise IOError(errno.EISDIR, "File is directory")
         nd, file_to_create = self._get_parent_dir(path)
 
-        if nd.has(file_to_create):
-            cnd = self._child(nd, file_to_create)
+        while nd.has(file_to_create):
+            cnd = self._child(nd, file_to_create, throw=False)
+            if cnd is None:
+                # a dangling link, the file it leads to is the one to create
+                nd, file_to_create = self._get_parent_dir(nd.get(file_to_create).target)
+                continue
             if cnd.kind == NodeKind.DIR:
                 raise IOError(errno.EISDIR, "File is directory" )
             return cnd
-        else:
-            f = MemoryFile(p, self.file_locks[p], self.fs_lock)
-            self._create_child(nd, file_to_create, f)
-            return f
+
+        f = MemoryFile(p, self.file_locks[p], self.fs_lock)
+        self._create_child(nd, file_to_create, f)
+        return f
 
 
     def _open_for_write(self, path, binary=False):
-- 
2.43.0


From 8927700eb2606d296c8fefa43910347988bbca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 27/38] fix: refuse to make the root of a memory file system,
 it exists

---
 abl/vpath/base/memory.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e518964..cfc327f 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -533,12 +533,13 @@ class MemoryFileSystem(FileSystem):
 
     @synchronized
     def mkdir(self, path):
-        p = self._path(path)
-        if p:
-            nd, dir_to_create = self._get_parent_dir(path)
-            if nd.has(dir_to_create):
-                raise OSError(errno.EEXIST, "File exists: %r" % str(path))
-            self._create_child(nd, dir_to_create, MemoryDir())
+        if not self._path(path):
+            # the root always exists
+            raise OSError(errno.EEXIST, "File exists: %r" % str(path))
+        nd, dir_to_create = self._get_parent_dir(path)
+        if nd.has(dir_to_create):
+            raise OSError(errno.EEXIST, "File exists: %r" % str(path))
+        self._create_child(nd, dir_to_create, MemoryDir())
 
 
     @synchronized
@@ -790,12 +791,13 @@ class MemoryFileSystem(FileSystem):
 
     @synchronized
     def symlink(self, target, link_name):
-        p = self._path(link_name)
-        if p:
-            nd, file_to_create = self._get_parent_dir(link_name)
-            if nd.has(file_to_create):
-                raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
-            self._create_child(nd, file_to_create, MemorySymlink(target))
+        if not self._path(link_name):
+            # the root always exists
+            raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
+        nd, file_to_create = self._get_parent_dir(link_name)
+        if nd.has(file_to_create):
+            raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
+        self._create_child(nd, file_to_create, MemorySymlink(target))
 
 
     @synchronized
-- 
2.43.0


From b17193dfe8e617894ec7ee0b0ccff3b420ebee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 28/38] fix: don't report the top folder of a zip archive as a
 file

---
 abl/vpath/base/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 7b434fe..909a1bb 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -299,7 +299,7 @@ class ZipFileSystem(FileSystem):
     def _ispart(self, unc, expected):
         path_string = self._path(unc)
         if path_string == '/':
-            return True
+            return ISDIR in expected
         for item in self._member_names():
             result = compare_path_strings(path_string, item)
             if result in expected:
-- 
2.43.0


From 00c0b6c85312261e49cbb0d12687523ab41ac3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:04 +0000
Subject: [PATCH 29/38] fix: don't take '../a' for '/a' and '.a' for nothing

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index c69360e..39d4372 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -316,7 +316,7 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri.startswith('/') or uri.startswith('.')):
+            if not '://' in uri and not (uri.startswith('/') or uri.startswith('./') or uri == '.'):
                 uri = './'+uri
             if not '://' in uri:
                 uri = 'file://'+uri
-- 
2.43.0


From 28020b9ec379e41e9cfd5caf81532713e9b4493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 30/38] fix: don't take backslashes in listed names for
 separators

---
 abl/vpath/base/fs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 39d4372..31efd69 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -313,9 +313,13 @@ class BaseUri(object):
             self.parse_result = UriParse(uri.uri)
             self.extras = dict(uri.extras, **uri._credentials())
         else:
+            # in a uri a backslash is a character like any other, unless paths
+            # are written with it
+            has_separators = sep == '\\' or not '://' in uri
             if uri.startswith('file://'):
                 uri = uri[7:]
-            uri = normalize_uri(uri, '\\')
+            if has_separators:
+                uri = normalize_uri(uri, '\\')
             if not '://' in uri and not (uri.startswith('/') or uri.startswith('./') or uri == '.'):
                 uri = './'+uri
             if not '://' in uri:
-- 
2.43.0


From e8abf08689071a89f2c66cbb1f172e83b4c36e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:08 +0000
Subject: [PATCH 31/38] fix: address names that end with '#' or contain
 '((...))'

---
 abl/vpath/base/uriparse.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index e5524b4..579208c 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -65,7 +65,7 @@ def urisplit(uri):
        ('scheme', 'authority', 'path', 'query', 'fragment')
 
     """
-    inner_part = re.compile(r'\(\(.*?\)\)')
+    inner_part = re.compile(r'(?<=://)\(\(.*?\)\)')
     m = inner_part.search(uri)
     inner_value = ''
     if m is not None:
@@ -73,19 +73,18 @@ def urisplit(uri):
         uri = uri[:m.start()]+'__inner_part__'+uri[m.end():]
     # regex straight from STD 66 section B
     regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
+    regex_without_fragment = '^(([^:/?#]+):)?(//([^/?#]*))?([^?]*)(\?(.*))?'
     p = re.match(regex, uri).groups()
+    # bugfix: '#' might be a legal character in a file name
+    # it only has special meaning in urls
+    if p[1] not in ['http', 'https']:
+        p = re.match(regex_without_fragment, uri).groups() + (None, None)
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
     authority = authority.replace('__inner_part__', inner_value)
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
-    # bugfix: '#' might be a legal character in a file name
-    # it only has special meaning in urls
-    if scheme not in ['http', 'https']:
-        if fragment:
-            path = '#'.join([path, fragment])
-            fragment = ''
     return (scheme, authority, path, query, fragment)
 
 
-- 
2.43.0


From 29b03d5d83336197bc0cc08261cf6bd827954d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 32/38] fix: don't take dot files in the root folder for
 relative paths

---
 abl/vpath/base/fs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 31efd69..6097dc2 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -272,6 +272,7 @@ def with_connection(func, self, *args, **argd):
 #============================================================================
 
 scheme_re = re.compile("([a-z+-]+)://")
+relative_re = re.compile(r"/\.\.?(/|\Z)")
 
 def URI(uri, sep=os.sep, **extras):
     scheme = 'file'
@@ -391,7 +392,7 @@ class BaseUri(object):
     @property
     def path(self):
         path = self.parse_result.path
-        parsed_path = path[1:] if path.startswith("/.") else path
+        parsed_path = path[1:] if relative_re.match(path) else path
 
         if os.name == "nt" and self.scheme == "file":
             parsed_path = os.path.normpath(re.sub(r"^/([a-zA-Z])/", r"\1:/", parsed_path))
@@ -464,9 +465,7 @@ class BaseUri(object):
     @property
     def is_absolute(self):
         path = self.parse_result.path
-        if path.startswith('/.'):
-            path = path[1:]
-        return path.startswith('/')
+        return path.startswith('/') and not relative_re.match(path)
 
 
     def split(self):
-- 
2.43.0


From 86b226973f3440de24ab8546658aaea35f6b0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 33/38] fix: find the members of archives other tools wrote

---
 abl/vpath/base/zip.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 909a1bb..5a9d30a 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -126,6 +126,11 @@ class ZipFileSystem(FileSystem):
     uri = ZipFileSystemUri
 
 
+    def _path(self, unc):
+        path = super(ZipFileSystem, self)._path(unc)
+        return '/' + '/'.join(item for item in path.split('/') if item not in ('', '.'))
+
+
     def _zip_file_path(self):
         return URI(self.vpath_connector)
 
@@ -192,7 +197,7 @@ class ZipFileSystem(FileSystem):
                 raise FileDoesNotExistError()
             try:
                 self.open_zip(options)
-                content = self._ziphandle.read(path_string)
+                content = self._ziphandle.read(self._members()[path_string])
             except KeyError:
                 raise FileDoesNotExistError()
             finally:
@@ -244,13 +249,21 @@ class ZipFileSystem(FileSystem):
                 raise
 
 
+    def _members(self):
+        """
+        paths of the members of the open archive with the names they have there.
+        Other than ours, the names others give them have no leading slash.
+        """
+        return dict(('/' + name.lstrip('/'), name) for name in self._ziphandle.namelist())
+
+
     def _member_names(self):
         with self._archive_lock:
             if not self._zip_file_path().exists():
                 return []
             try:
                 self.open_zip()
-                return self._ziphandle.namelist()
+                return list(self._members())
             finally:
                 self.close_zip()
 
-- 
2.43.0


From 0dae1b5d54461c972b12dfa60f4b955cd3323b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 34/38] fix: don't take backslashes in targets of local links
 for separators

---
 abl/vpath/base/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 935cffd..62ce2b2 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -244,7 +244,7 @@ class LocalFileSystem(FileSystem):
     def readlink(self, path):
         if not self.supports_symlinks():
             raise OperationIsNotSupportedOnPlatform
-        return URI(os.readlink(self._path(path)))
+        return URI('file://' + os.readlink(self._path(path)))
 
 
     def symlink(self, target, link_name):
-- 
2.43.0


From d412e99491deb95c981e9abca77f29ec5edda4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 35/38] fix: don't take the query for a part of the name in
 last()

---
 abl/vpath/base/fs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 6097dc2..10490d0 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -532,6 +532,7 @@ class BaseUri(object):
         @rvalue: str
         """
         parts = self.uri.split('/')
+        parts[-1] = parts[-1].partition('?')[0]
         if not parts:
             return ''
         if len(parts) > 1:
-- 
2.43.0


From a6995d8991b302d8633070bc4d271e6c1c3723a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 36/38] fix: don't take credentials in the query for options of
 the connection

---
 abl/vpath/base/fs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 10490d0..b03171e 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -350,6 +350,9 @@ class BaseUri(object):
         if self.scheme not in ('http','https'):
             extras.update(self.query)
 
+        # these are part of the key
+        extras.pop('username', None)
+        extras.pop('password', None)
         return extras
 
 
-- 
2.43.0


From f93cf6a87d3e4e0dc0efe40f269c482494625da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 37/38] fix: append suffixes to the path, not to the query

---
 abl/vpath/base/fs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index b03171e..b522c77 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -455,9 +455,10 @@ class BaseUri(object):
 
 
     def __add__(self, suffix):
-        path = self.uri + suffix
+        parts = self.parse_result.as_list()
+        parts[2] += suffix
         result = self.__class__(
-            path,
+            uri_from_parts(parts),
             sep=self.sep,
             **self._inherited_extras()
             )
-- 
2.43.0


From 594258261cea6434dc55338a4febd3eb3f73032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:48 +0000
Subject: [PATCH 38/38] fix: split the path, not the query

---
 abl/vpath/base/fs.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index b522c77..da2b06a 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -273,6 +273,7 @@ def with_connection(func, self, *args, **argd):
 
 scheme_re = re.compile("([a-z+-]+)://")
 relative_re = re.compile(r"/\.\.?(/|\Z)")
+without_query_re = re.compile(r"([a-z+-]+://)?(\(\(.*?\)\))?[^?]*")
 
 def URI(uri, sep=os.sep, **extras):
     scheme = 'file'
@@ -472,6 +473,10 @@ class BaseUri(object):
         return path.startswith('/') and not relative_re.match(path)
 
 
+    def _without_query(self):
+        return without_query_re.match(self.uri).group()
+
+
     def split(self):
         """
         split: like os.path.split
@@ -480,11 +485,12 @@ class BaseUri(object):
         @return: a 2 tuple. The first element is a URI instance and the second
                  a string, representing the basename.
         """
+        uri = self._without_query()
         try:
-            first, second = self.uri.rsplit('/', 1)
+            first, second = uri.rsplit('/', 1)
         except ValueError:
             first = ''
-            second = self.uri
+            second = uri
         # we might be already on the root
         if first.endswith('//'):
             first = first + '/'
@@ -495,7 +501,7 @@ class BaseUri(object):
             sep=self.sep,
             **self._inherited_extras()
             ),
-            second.partition('?')[0]
+            second
             )
 
 
@@ -535,8 +541,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self.uri.split('/')
-        parts[-1] = parts[-1].partition('?')[0]
+        parts = self._without_query().split('/')
         if not parts:
             return ''
         if len(parts) > 1:
-- 
2.43.0

