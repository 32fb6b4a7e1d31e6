From 0ae7194e48a987a157bf2c286954b889219b37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 01/62] fix: Do not overwrite files in the overlay folder when
 truncating them

---
 ratarmount/WriteOverlay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c14ca4c..bba46a2 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -445,7 +445,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def truncate(self, path: str, length: int, fh=None):
-        self._ensure_file_is_modifiable(path)
+        # Copying would overwrite data already written to the overlay folder.
+        if not os.path.lexists(self._realpath(path)):
+            self._ensure_file_is_modifiable(path)
         os.truncate(self._realpath(path), length)
 
     # Actual writing
-- 
2.43.0


From c84db7d26cfb274bfd8d95644ab54cd38778855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 02/62] fix: Do not allow renaming from or into the control
 interface folder

---
 ratarmount/WriteOverlay.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index bba46a2..e6f4dd1 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -1,5 +1,6 @@
 import errno
 import functools
+import inspect
 import os
 import shutil
 import sqlite3
@@ -23,6 +24,9 @@ from .fuse import fuse
 
 def check_ignored_prefixes(parameter_name: str = 'path'):
     def decorator(func):
+        # Index into the arguments without 'self' for the case that it is not given as keyword argument.
+        parameterIndex = list(inspect.signature(func).parameters).index(parameter_name) - 1
+
         @functools.wraps(func)
         def wrapper(self, *args, **kwargs):
             if not self.ignoredPrefixes:
@@ -30,9 +34,8 @@ def check_ignored_prefixes(parameter_name: str = 'path'):
 
             if parameter_name in kwargs:
                 path = kwargs[parameter_name]
-            elif args:
-                # We assume that the first parameter is the one to be checked.
-                path = args[0]
+            elif len(args) > parameterIndex:
+                path = args[parameterIndex]
             else:
                 return func(self, *args, **kwargs)
 
@@ -321,6 +324,8 @@ class WritableFolderMountSource(fuse.Operations):
         self._set_file_metadata(path, lambda p: os.utime(p, ns=ns), {'mtime': mtime})
 
     @overrides(fuse.Operations)
+    @check_ignored_prefixes('old')
+    @check_ignored_prefixes('new')
     def rename(self, old: str, new: str):
         if not self.mountSource.exists(old) or self.is_deleted(old):
             raise fuse.FuseOSError(errno.ENOENT)
-- 
2.43.0


From 5ef9c859adea1d1ec69fac759b6f8a41c7110003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 03/62] fix: Hide the renamed file if it still exists in the
 mount source

---
 ratarmount/WriteOverlay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index e6f4dd1..f4bf210 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -347,7 +347,8 @@ class WritableFolderMountSource(fuse.Operations):
             with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
                 shutil.copyfileobj(sourceObject, targetObject)
 
-            self._mark_as_deleted(old)
+        # The file may still exist in the mount source even if it was renamed in the overlay folder.
+        self._mark_as_deleted(old)
 
     # Links
 
-- 
2.43.0


From efda4551a45cdf52368c43ce045b7077e42588a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 04/62] fix: Show links and special files created in place of
 deleted files

---
 ratarmount/WriteOverlay.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index f4bf210..29a8659 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -355,6 +355,7 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
+        self._open(target, stat.S_IFLNK | 0o777)
         os.symlink(source, self._realpath(target))
 
     @overrides(fuse.Operations)
@@ -365,9 +366,8 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        target = self._realpath(target)
-
-        os.link(overlaySource, target)
+        self._open(target, os.lstat(overlaySource).st_mode)
+        os.link(overlaySource, self._realpath(target))
 
     # Folders
 
@@ -445,7 +445,7 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mknod(self, path: str, mode: int, dev: int):
-        self._ensure_parent_exists(path)
+        self._open(path, mode)
         os.mknod(self._realpath(path), mode, dev)
 
     @overrides(fuse.Operations)
-- 
2.43.0


From f432e18f30cf20af9f4bae933d4f9dbd26107907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 05/62] fix: Do not hide files and folders that could not be
 removed

---
 ratarmount/WriteOverlay.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 29a8659..9973364 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -395,8 +395,7 @@ class WritableFolderMountSource(fuse.Operations):
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._mark_as_deleted(path)
 
     # Files
 
@@ -439,8 +438,7 @@ class WritableFolderMountSource(fuse.Operations):
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._mark_as_deleted(path)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 1f771b7ff5d4fd77ba670956c69a98fef3e05fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:00 +0000
Subject: [PATCH 06/62] fix: Only show a previously deleted path after it was
 successfully created

---
 ratarmount/WriteOverlay.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 9973364..4c6d5e8 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -172,7 +172,7 @@ class WritableFolderMountSource(fuse.Operations):
             shutil.copyfileobj(sourceObject, targetObject)
 
     def _open(self, path: str, mode):
-        self._ensure_parent_exists(path)
+        """Shows the given path, which must have been successfully created in the overlay folder."""
         folder, name = self._split_path(path)
 
         self.sqlConnection.execute(
@@ -355,8 +355,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
-        self._open(target, stat.S_IFLNK | 0o777)
+        self._ensure_parent_exists(target)
         os.symlink(source, self._realpath(target))
+        self._open(target, stat.S_IFLNK | 0o777)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
@@ -366,16 +367,18 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        self._open(target, os.lstat(overlaySource).st_mode)
+        self._ensure_parent_exists(target)
         os.link(overlaySource, self._realpath(target))
+        self._open(target, os.lstat(overlaySource).st_mode)
 
     # Folders
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mkdir(self, path: str, mode: int):
-        self._open(path, mode | stat.S_IFDIR)
+        self._ensure_parent_exists(path)
         os.mkdir(self._realpath(path), mode)
+        self._open(path, mode | stat.S_IFDIR)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -416,11 +419,13 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def create(self, path: str, mode: int, fi=None):
-        self._open(path, mode)
+        self._ensure_parent_exists(path)
         # TODO Use the correct flags according after fixing argument forwarding in mfusepy.
         #      https://github.com/mxmlnkn/ratarmount/issues/172#issuecomment-3312526348
         # I see no downside to always adding read-mode by default, until then.
-        return os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        fileDescriptor = os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        self._open(path, mode)
+        return fileDescriptor
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -443,8 +448,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mknod(self, path: str, mode: int, dev: int):
-        self._open(path, mode)
+        self._ensure_parent_exists(path)
         os.mknod(self._realpath(path), mode, dev)
+        self._open(path, mode)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From bb921667c303e5a2e026edee40e7c54dc2d342cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 07/62] fix: Do not turn folders and links into regular files
 when renaming them

---
 ratarmount/WriteOverlay.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 4c6d5e8..bd86236 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -327,9 +327,15 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('old')
     @check_ignored_prefixes('new')
     def rename(self, old: str, new: str):
-        if not self.mountSource.exists(old) or self.is_deleted(old):
+        fileInfo = self.mountSource.lookup(old)
+        if fileInfo is None or self.is_deleted(old):
             raise fuse.FuseOSError(errno.ENOENT)
 
+        # Only regular files can be copied from the mount source. Callers such as mv fall back to copying with EXDEV.
+        existsInOverlay = os.path.lexists(self._realpath(old))
+        if not stat.S_ISREG(fileInfo.mode) and (not existsInOverlay or self.mountSource.versions(old) > 1):
+            raise fuse.FuseOSError(errno.EXDEV)
+
         folder, name = self._split_path(new)
 
         # Delete target path from metadata database to avoid uniqueness restraint being invalidated
@@ -337,13 +343,9 @@ class WritableFolderMountSource(fuse.Operations):
         self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
 
         self._ensure_parent_exists(new)
-        if os.path.lexists(self._realpath(old)):
+        if existsInOverlay:
             os.rename(self._realpath(old), self._realpath(new))
         else:
-            fileInfo = self.mountSource.lookup(old)
-            if fileInfo is None:
-                raise fuse.FuseOSError(errno.ENOENT)
-
             with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
                 shutil.copyfileobj(sourceObject, targetObject)
 
-- 
2.43.0


From 47f8c06bd4fa62eae537c499c99f09a3b045ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 08/62] fix: Do not change the overlay metadata when renaming
 fails

---
 ratarmount/WriteOverlay.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index bd86236..f856f15 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -249,7 +249,7 @@ class WritableFolderMountSource(fuse.Operations):
             (folder, name, sfi.mtime, sfi.mode, sfi.uid, sfi.gid, False),
         )
 
-    def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+    def _ensure_metadata_exists(self, path: str):
         folder, name = self._split_path(path)
 
         existsInMetadata = self.sqlConnection.execute(
@@ -258,6 +258,9 @@ class WritableFolderMountSource(fuse.Operations):
 
         if not existsInMetadata:
             self._init_file_metadata(path)
+
+    def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+        self._ensure_metadata_exists(path)
         self._set_metadata(path, metadata)
 
         # Apply the metadata change for the file in the overlay folder if it exists there.
@@ -338,10 +341,7 @@ class WritableFolderMountSource(fuse.Operations):
 
         folder, name = self._split_path(new)
 
-        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
-        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
-        self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
-
+        self._ensure_metadata_exists(old)
         self._ensure_parent_exists(new)
         if existsInOverlay:
             os.rename(self._realpath(old), self._realpath(new))
@@ -349,6 +349,10 @@ class WritableFolderMountSource(fuse.Operations):
             with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
                 shutil.copyfileobj(sourceObject, targetObject)
 
+        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
+        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
+        self._set_metadata(old, {'path': folder, 'name': name})
+
         # The file may still exist in the mount source even if it was renamed in the overlay folder.
         self._mark_as_deleted(old)
 
-- 
2.43.0


From a5207df20165db233349372d7bab4f2901d104a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 09/62] fix: Forget file handles when they are released

---
 ratarmount/FuseMount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 91a5275..72ecca5 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -796,6 +796,8 @@ class FuseMount(fuse.Operations):
             raise fuse.FuseOSError(errno.ESTALE)
 
         openedFile = self._resolve_file_handle(fh)
+        # Forget the handle so that it does not leak and cannot be mistaken for the then reusable file descriptor.
+        del self.openedFiles[fh]
         if isinstance(openedFile, int):
             os.close(openedFile)
         else:
-- 
2.43.0


From 05ff4a4bfadb71a67ee2faa2828d9d646ad5ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 10/62] fix: Return the free space of the write overlay folder

---
 ratarmount/FuseMount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 72ecca5..22ca27d 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -903,8 +903,8 @@ class FuseMount(fuse.Operations):
             keys = ['f_bsize', 'f_frsize']
             result = self.writeOverlay.statfs(path).copy()
             result.update({key: value for key, value in self.mountSource.statfs().items() if key in keys})
-
-        result = self.mountSource.statfs()
+        else:
+            result = self.mountSource.statfs()
 
         # Use a relatively large minimum 256 KiB block size to direct filesystem users to use larger reads
         # because they have a relative large overhead because of the fusepy, libfuse, kernel FUSE, SQLite,
-- 
2.43.0


From 8d10d0c2f32080f039f387638dfcace3cd9f07d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 11/62] fix: Remove the temporary folder when there is nothing
 to commit

---
 ratarmount/WriteOverlay.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index f856f15..bb1dace 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -565,6 +565,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
     if os.stat(deletionList).st_size == 0 and os.stat(appendList).st_size == 0:
         if printDebug >= 1:
             print("Nothing to commit.")
+        shutil.rmtree(tmpFolder)
         return
 
     # TODO Support compressed archives by maybe using tarfile to read from the original and write to a temporary?
-- 
2.43.0


From 40f6b9064dda523fed8c76b1c6f3bf1418d17ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 12/62] fix: Open index files given as mount source read-only
 and never delete them

---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 2df1a3a..379eec9 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -79,7 +79,7 @@ class SQLiteIndexMountSource(MountSource):
                 self.indexFilePath = self._temporaryFile.name
 
             # Encoding is only used for set_file_infos, so we are fine not forwarding it.
-            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnly=True)
+            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnlyIndex=True)
 
         # Initialize members before using checkMetadata because it might to try to use those.
         self.archiveFilePath = self.index.archiveFilePath
-- 
2.43.0


From 06f112b2e5affb140f539608f8c1fd88f6b72938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 13/62] fix: Do not judge an index by the contents of the
 previously tried index

---
 core/ratarmountcore/SQLiteIndex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 015f928..3d3ddf5 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1184,6 +1184,9 @@ class SQLiteIndex:
         if self.index_is_loaded():
             return
 
+        # Do not reuse the extracted contents of another index path tried before this one.
+        self._temporaryIndexFile = None
+
         # TODO The part about support for compressed/remote SQLite files could be extracted into a standalone function!
 
         # Download and/or extract the file to a temporary file if necessary.
-- 
2.43.0


From 4bc02fa0d2386df43f63c877105df8c3e3199c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 14/62] fix: Do not clear indexes when they are to be used
 read-only

---
 core/ratarmountcore/SQLiteIndex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 3d3ddf5..c43fd58 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -359,6 +359,9 @@ class SQLiteIndex:
         return possibleIndexFilePaths
 
     def clear_indexes(self):
+        if self.readOnly:
+            return
+
         for indexPath in self.possibleIndexFilePaths:
             if indexPath and os.path.isfile(indexPath):
                 os.remove(indexPath)
-- 
2.43.0


From cbeb3166aba06f96421f23d1a551cc7cef8ab163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 15/62] fix: Mark new indexes as incomplete before creating the
 files table

---
 core/ratarmountcore/create-index-tables.sql | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/ratarmountcore/create-index-tables.sql b/core/ratarmountcore/create-index-tables.sql
index e7e3091..f8ec386 100644
--- a/core/ratarmountcore/create-index-tables.sql
+++ b/core/ratarmountcore/create-index-tables.sql
@@ -1,5 +1,14 @@
 /* This whole file should be idempotent, i.e., executing it twice in a row should work (use IF NOT EXISTS). */
 
+/* The existence of this table marks the index as incomplete. Therefore, it must be created before "files". */
+CREATE TABLE IF NOT EXISTS "parentfolders" (
+    "path"          VARCHAR(65535) NOT NULL,
+    "name"          VARCHAR(65535) NOT NULL,
+    "offsetheader"  INTEGER,
+    "offset"        INTEGER,
+    PRIMARY KEY ("path","name")
+);
+
 CREATE TABLE IF NOT EXISTS "files" (
     "path"           VARCHAR(65535) NOT NULL,  /* path with leading and without trailing slash */
     "name"           VARCHAR(65535) NOT NULL,
@@ -68,14 +77,6 @@ END;
  **/
 CREATE TABLE IF NOT EXISTS "filestmp" AS SELECT * FROM "files" WHERE 0;
 
-CREATE TABLE IF NOT EXISTS "parentfolders" (
-    "path"          VARCHAR(65535) NOT NULL,
-    "name"          VARCHAR(65535) NOT NULL,
-    "offsetheader"  INTEGER,
-    "offset"        INTEGER,
-    PRIMARY KEY ("path","name")
-);
-
 /* Table for storing information regarding the options used for creating the index.
  * Common keys: tarstats, arguments, isGnuIncremental, backendName */
 CREATE TABLE IF NOT EXISTS "metadata" (
-- 
2.43.0


From 2fee42a3381a52f84a6fdf4ad9315d05bbaf2e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 16/62] fix: Do not use indexes of archives that have grown
 since then

---
 core/ratarmountcore/SQLiteIndex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index c43fd58..d6b91d4 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -541,10 +541,10 @@ class SQLiteIndex:
         if (
             hasattr(archiveStats, 'st_size')
             and 'st_size' in storedStats
-            and archiveStats.st_size < storedStats['st_size']
+            and archiveStats.st_size != storedStats['st_size']
         ):
             raise InvalidIndexError(
-                f"Archive for this SQLite index has shrunk in size from "
+                f"Archive for this SQLite index has changed in size from "
                 f"{storedStats['st_size']} to {archiveStats.st_size}"
             )
 
-- 
2.43.0


From 12fda4b4ffe27c2ef80c52264bf0ad79db133f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 17/62] fix: Store the archive state before creating the index

---
 core/ratarmountcore/SQLiteIndex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index d6b91d4..bab550f 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -770,6 +770,11 @@ class SQLiteIndex:
         else:
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
 
+        # Store the state of the archive beforehand because the index can already be complete and usable
+        # when being interrupted before storing it at the end, e.g., while computing checksums.
+        if self.index_is_loaded() and callable(store_metadata):
+            store_metadata()
+
         self.create_index_timed(create_index)
 
         if self.index_is_loaded():
-- 
2.43.0


From 589428bc835d25e3147e53bdf00ab7d767e9de60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 18/62] fix: Do not try to write hashes and metadata into
 read-only indexes

---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 379eec9..97021b3 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -220,8 +220,9 @@ class SQLiteIndexMountSource(MountSource):
             # index_is_loaded checks for completed 'files' (stats etc.) table.
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
-            self._compute_and_store_hashes()
-            callable_store_metadata()
+            if not self.index.readOnly:
+                self._compute_and_store_hashes()
+                callable_store_metadata()
             self.index.reload_index_read_only()
             return
 
-- 
2.43.0


From a329cf2ac94bb531b189f51213c03b41c1d93f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 19/62] fix: Keep the archive state stored on index creation
 when reusing the index

---
 core/ratarmountcore/SQLiteIndex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index bab550f..31085c3 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -469,7 +469,11 @@ class SQLiteIndex:
             serializedTarStats = json.dumps(
                 {attr: getattr(tarStats, attr) for attr in dir(tarStats) if attr.startswith('st_')}
             )
-            self.store_metadata_key_value("tarstats", serializedTarStats)
+            # Do not overwrite the state of the archive for which the index has been created.
+            self.get_connection().execute(
+                'INSERT OR IGNORE INTO "metadata" VALUES (?,?)', ("tarstats", serializedTarStats)
+            )
+            self.get_connection().commit()
         except Exception as exception:
             logger.error("There was an error when adding file metadata.")
             logger.error("Automatic detection of changed TAR files during index loading might not work.")
-- 
2.43.0


From 60d081ac8716d6f680ec4275fda8a844f72c004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:08 +0000
Subject: [PATCH 20/62] fix: Do not use an index whose versions could not be
 read

---
 core/ratarmountcore/SQLiteIndex.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 31085c3..d672a5a 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1274,17 +1274,16 @@ class SQLiteIndex:
             self.sqlConnection = SQLiteIndex._open_sql_db(f"file:{uriPath}?mode=ro", uri=True, check_same_thread=False)
         else:
             self.sqlConnection = SQLiteIndex._open_sql_db(temporaryIndexFilePath)
-        tables = get_sqlite_tables(self.sqlConnection)
-        versions = None
-        try:
-            rows = self.sqlConnection.execute('SELECT * FROM versions;')
-            versions = {}
-            for row in rows:
-                versions[row[0]] = (row[2], row[3], row[4])
-        except sqlite3.OperationalError:
-            pass
 
         try:
+            tables = get_sqlite_tables(self.sqlConnection)
+            versions = None
+            with contextlib.suppress(sqlite3.OperationalError):
+                rows = self.sqlConnection.execute('SELECT * FROM versions;')
+                versions = {}
+                for row in rows:
+                    versions[row[0]] = (row[2], row[3], row[4])
+
             # Check indexes created with bugged bz2 decoder (bug existed when I did not store versions yet)
             if 'bzip2blocks' in tables and 'versions' not in tables:
                 raise InvalidIndexError(
-- 
2.43.0


From 01cc97c60af386b8869c7c6312a9e799373f78e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:08 +0000
Subject: [PATCH 21/62] fix: Do not leave empty indexes behind that look
 complete

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index d672a5a..394786f 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -608,7 +608,7 @@ class SQLiteIndex:
 
         try:
             connection = SQLiteIndex._open_sql_db(path)
-            connection.executescript('CREATE TABLE "files" ( "path" VARCHAR(65535) NOT NULL );')
+            connection.executescript('CREATE TABLE "parentfolders" ( "path" VARCHAR(65535) NOT NULL );')
             connection.commit()
             connection.close()
             return True
-- 
2.43.0


From 9bc759e9a116da91f046cd6ca642000b0bd6d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 22/62] fix: Do not write indexes of compressed archives when
 writing them was not requested

---
 core/ratarmountcore/SQLiteIndex.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 394786f..e2aac10 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -266,6 +266,8 @@ class SQLiteIndex:
         # stores which parent folders were last tried to add to database and therefore do exist
         self.parentFolderCache: list[tuple[str, str]] = []
         self.preferMemory = preferMemory
+        # True if the index must not be written to disk, not even when it exceeds the minimum file count.
+        self._keepInMemory = False
         self.indexMinimumFileCount = indexMinimumFileCount
         self.backendName = backendName
         self._insertedRowCount = 0
@@ -679,6 +681,9 @@ class SQLiteIndex:
         self.readOnly = True
 
     def _reload_index_on_disk(self):
+        if self._keepInMemory:
+            return
+
         logger.info("Try to reopen SQLite database on disk at: %s", self.indexFilePath)
         logger.info("other index paths: %s", self.possibleIndexFilePaths)
         if not self.indexFilePath or self.indexFilePath != ':memory:' or not self.sqlConnection:
@@ -772,6 +777,7 @@ class SQLiteIndex:
         if writeIndex and (self._requestedIndexFilePath or not isFileObject):
             self.open_writable()
         else:
+            self._keepInMemory = True
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
 
         # Store the state of the archive beforehand because the index can already be complete and usable
-- 
2.43.0


From 5cf9eac73488feab8240c4af5d0580da2c09d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 23/62] fix: List folders with wildcard characters in their
 names correctly for SQLAR archives

---
 core/ratarmountcore/mountsource/formats/sqlar.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 4142310..e62d3bd 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -296,13 +296,13 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        prefix = "" if path == "/" else path.strip("/") + "/"
         return {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
             for name, rowid, mode, mtime, size, linkname in self.connection.execute(
                 f"SELECT substr(name,(?)),{SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar "
-                "WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                "WHERE substr(name,1,(?)) == (?) AND substr(name,(?)) NOT GLOB '*/*'",
+                (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
             )
         }
 
@@ -311,11 +311,12 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        prefix = "" if path == "/" else path.strip("/") + "/"
         return dict(
             self.connection.execute(
-                "SELECT substr(name,(?)), mode FROM sqlar WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                "SELECT substr(name,(?)), mode FROM sqlar "
+                "WHERE substr(name,1,(?)) == (?) AND substr(name,(?)) NOT GLOB '*/*'",
+                (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
             )
         )
 
-- 
2.43.0


From 3107d6392198de2146e57b40fa5ee0002dbc7e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:29 +0000
Subject: [PATCH 24/62] fix: Show block devices in TAR archives as such

---
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 65a6dc8..fff010b 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -145,6 +145,7 @@ class _TarFileMetadataReader:
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
             | ( stat.S_IFCHR if tarInfo.ischr () else 0 )
+            | ( stat.S_IFBLK if tarInfo.isblk () else 0 )
             | ( stat.S_IFIFO if tarInfo.isfifo() else 0 )
         )
         # fmt: on
-- 
2.43.0


From 3b82807ae88f7c1fb2e469880e36d6f97fe8f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 25/62] fix: Return the same file infos from list as from
 lookup for union mounts

List gave precedence to the leftmost instead of the rightmost mount source and
the returned file infos could not be opened because they were missing the mount source.
---
 core/ratarmountcore/mountsource/compositing/union.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 73f56ed..4b830c6 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -152,8 +152,13 @@ class UnionMountSource(MountSource):
     def _list(self, path: str, onlyMode: bool):
         files: Optional[Union[set[str], dict[str, FileInfo], dict[str, int]]] = None
 
-        for mountSource in reversed(self.mountSources):
+        # Iterate such that the rightmost mount sources overwrite the results of the others just like in lookup.
+        for mountSource in self.mountSources:
             result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
+            if isinstance(result, dict):
+                for fileInfo in result.values():
+                    if isinstance(fileInfo, FileInfo):
+                        fileInfo.userdata.append(mountSource)
 
             if files is None:
                 if isinstance(result, dict):
-- 
2.43.0


From 3106236230a71adb536fefd8846bde0fa149eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 26/62] fix: Make file infos listed by SubvolumesMountSource
 usable for opening

---
 .../mountsource/compositing/subvolumes.py             | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 7465677..a3cb9c2 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -156,11 +156,18 @@ class SubvolumesMountSource(MountSource):
         if result is None:
             return None
 
-        _subvolume, subpath, mounted = result
+        subvolume, subpath, mounted = result
         if not isinstance(mounted, MountSource):
             return {name: self.rootFileInfo.mode if onlyMode else self.rootFileInfo.clone() for name in mounted}
 
-        return mounted.list_mode(subpath) if onlyMode else mounted.list(subpath)
+        if onlyMode:
+            return mounted.list_mode(subpath)
+
+        files = mounted.list(subpath)
+        if isinstance(files, dict):
+            for fileInfo in files.values():
+                fileInfo.userdata.append(subvolume)
+        return files
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
-- 
2.43.0


From 9cc7929db1cfddc4a9a36a2b4d5f35c448398efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 27/62] fix: Make files in subvolumes mounted into nested
 folders accessible

The mount point was looked up as if it were a single folder name. Also restore the
file info after trying to open something that is not a file.
---
 .../mountsource/compositing/subvolumes.py     | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index a3cb9c2..665af07 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -177,23 +177,30 @@ class SubvolumesMountSource(MountSource):
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
         return self._list(path, onlyMode=True)
 
+    def _get_subvolume(self, subvolume: Optional[str]) -> Optional[MountSource]:
+        """Returns the mount source for a mount point as returned by _find_mount_source."""
+        mounted = None if subvolume is None else self._get_by_path(subvolume)
+        return mounted if isinstance(mounted, MountSource) else None
+
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         subvolume = fileInfo.userdata.pop()
-        if subvolume is None:
-            raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].open(fileInfo, buffering=buffering)
+            mountSource = self._get_subvolume(subvolume)
+            if mountSource is None:
+                raise ValueError(f"Found no subvolume '{subvolume}' for fileInfo: {fileInfo}")
+            return mountSource.open(fileInfo, buffering=buffering)
         finally:
             fileInfo.userdata.append(subvolume)
 
     @overrides(MountSource)
     def read(self, fileInfo: FileInfo, size: int, offset: int) -> bytes:
         subvolume = fileInfo.userdata.pop()
-        if subvolume is None:
-            raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].read(fileInfo, size, offset)
+            mountSource = self._get_subvolume(subvolume)
+            if mountSource is None:
+                raise ValueError(f"Found no subvolume '{subvolume}' for fileInfo: {fileInfo}")
+            return mountSource.read(fileInfo, size, offset)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -201,7 +208,8 @@ class SubvolumesMountSource(MountSource):
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return [] if subvolume is None else self.mountSources[subvolume].list_xattr(fileInfo)
+            mountSource = self._get_subvolume(subvolume)
+            return [] if mountSource is None else mountSource.list_xattr(fileInfo)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -209,7 +217,8 @@ class SubvolumesMountSource(MountSource):
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return None if subvolume is None else self.mountSources[subvolume].get_xattr(fileInfo, key)
+            mountSource = self._get_subvolume(subvolume)
+            return None if mountSource is None else mountSource.get_xattr(fileInfo, key)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -218,9 +227,9 @@ class SubvolumesMountSource(MountSource):
         sourceFileInfo = fileInfo.clone()
         subvolume = sourceFileInfo.userdata.pop()
 
-        if subvolume is None or subvolume not in self.mountSources:
+        mountSource = self._get_subvolume(subvolume)
+        if mountSource is None:
             return '/', self, fileInfo
-        mountSource = self.mountSources[subvolume]
 
         subpath, subMountSource, subFileInfo = mountSource.get_mount_source(sourceFileInfo)
         return posixpath.normpath(f"/{subvolume}/{subpath}"), subMountSource, subFileInfo
-- 
2.43.0


From a6070006e48b2a191f795ceb4eec57eba5288ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 28/62] fix: Close and join the threads of all subvolumes

Joining iterated over the mount point names and mount sources in nested folders were never closed.
---
 .../mountsource/compositing/subvolumes.py           | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 665af07..68f21b7 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -34,6 +34,15 @@ class SubvolumesMountSource(MountSource):
             folder = folder[part]
         return folder
 
+    @staticmethod
+    def _get_mount_sources(folder: dict[str, Any]) -> Iterable[MountSource]:
+        """Iterates over all mount sources in the recursive dictionary."""
+        for mounted in folder.values():
+            if isinstance(mounted, MountSource):
+                yield mounted
+            else:
+                yield from SubvolumesMountSource._get_mount_sources(mounted)
+
     def is_mountable(self, path: str) -> bool:
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
@@ -236,10 +245,10 @@ class SubvolumesMountSource(MountSource):
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountSource in self.mountSources.values():
+        for mountSource in self._get_mount_sources(self.mountSources):
             mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-        for mountSource in self.mountSources:
+        for mountSource in self._get_mount_sources(self.mountSources):
             if hasattr(mountSource, 'join_threads'):
                 mountSource.join_threads()
-- 
2.43.0


From dfd6af3da0962cc523e75fb3da0c5a9ffb384b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 29/62] fix: Do not create folders when only checking whether
 something can be mounted there

---
 core/ratarmountcore/mountsource/compositing/subvolumes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 68f21b7..01e4253 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -47,10 +47,11 @@ class SubvolumesMountSource(MountSource):
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
         try:
-            folder = self._get_by_path(parent, create=True)
+            folder = self._get_by_path(parent)
         except RatarmountError:
             return False
-        return bool(name) and folder is not None and isinstance(folder, dict) and (name not in folder)
+        # Non-existing parent folders will be created when mounting.
+        return bool(name) and (folder is None or (isinstance(folder, dict) and name not in folder))
 
     def mount(self, path: str, target: MountSource) -> bool:
         """Adds a mount source at the specified path. Must not overlap with existing mounts. Return true on success."""
-- 
2.43.0


From 8e26aa62ae7d43debe189c9bf00b1c3850a32d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 30/62] fix: Make file infos listed by AutoMountLayer usable
 for opening

---
 .../mountsource/compositing/automount.py         | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1c6c283..ca873ef 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -309,11 +309,15 @@ class AutoMountLayer(MountSource):
             fileInfo.userdata.append('/')
         return fileInfo
 
-    def _append_mount_points(self, path: str, files, onlyMode: bool):
+    def _append_mount_points(self, path: str, mountPoint: str, files, onlyMode: bool):
         if not files:
             return None
 
-        if not isinstance(files, dict):
+        if isinstance(files, dict):
+            for fileInfo in files.values():
+                if isinstance(fileInfo, FileInfo):
+                    fileInfo.userdata.append(mountPoint)
+        else:
             files = set(files)
 
         # Check whether we need to add recursive mount points to this directory listing
@@ -325,8 +329,8 @@ class AutoMountLayer(MountSource):
             or self.options.get('stripRecursiveTarExtension', False)
             or self.options.get('transformRecursiveMountPoint', False)
         ):
-            for mountPoint, mountInfo in self.mounted.items():
-                folder, folderName = os.path.split(mountPoint)
+            for subMountPoint, mountInfo in self.mounted.items():
+                folder, folderName = os.path.split(subMountPoint)
                 # This also potentially updates a archive file stat result with a stat result for a folder type!
                 if folder == path and folderName and folderName:
                     if isinstance(files, set):
@@ -348,14 +352,14 @@ class AutoMountLayer(MountSource):
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         mountPoint, pathInMountPoint = self._find_mounted(path)
         return self._append_mount_points(
-            path, self.mounted[mountPoint].mountSource.list(pathInMountPoint), onlyMode=False
+            path, mountPoint, self.mounted[mountPoint].mountSource.list(pathInMountPoint), onlyMode=False
         )
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
         mountPoint, pathInMountPoint = self._find_mounted(path)
         return self._append_mount_points(
-            path, self.mounted[mountPoint].mountSource.list_mode(pathInMountPoint), onlyMode=True
+            path, mountPoint, self.mounted[mountPoint].mountSource.list_mode(pathInMountPoint), onlyMode=True
         )
 
     @overrides(MountSource)
-- 
2.43.0


From 4168252e469bab58d4a2366338a25833ccc02c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 31/62] fix: Use the correct mount source in the error message
 for missing split files

The variable used before is only assigned after the file has been opened.
---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index ca873ef..3b63400 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -193,7 +193,7 @@ class AutoMountLayer(MountSource):
             def open_file(filePath: str):
                 fileInfo = parentMountSource.lookup(filePath)
                 if not fileInfo:
-                    raise RatarmountError(f"Could not open file {filePath} in mount source {mountSource}!")
+                    raise RatarmountError(f"Could not open file {filePath} in mount source {parentMountSource}!")
                 return parentMountSource.open(fileInfo)
 
             joinedFile = JoinedFileFromFactory(
-- 
2.43.0


From bb397731c2d26218bf6b24c28d19faff60df9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 32/62] fix: Return file infos usable with the mount source
 returned by FileVersionLayer.get_mount_source

The file info was not cloned so that the type that was re-added to it afterwards was also visible in the returned one.
---
 .../mountsource/compositing/versioning.py             | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 73f6cbf..277942f 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -254,13 +254,10 @@ class FileVersionLayer(MountSource):
 
     @overrides(MountSource)
     def get_mount_source(self, fileInfo: FileInfo) -> tuple[str, MountSource, FileInfo]:
-        fileType = fileInfo.userdata.pop()
-        try:
-            if fileType == FileType.VERSIONS_FOLDER:
-                return '/', self, fileInfo
-            return self.mountSource.get_mount_source(fileInfo)
-        finally:
-            fileInfo.userdata.append(fileType)
+        sourceFileInfo = fileInfo.clone()
+        if sourceFileInfo.userdata.pop() == FileType.VERSIONS_FOLDER:
+            return '/', self, fileInfo
+        return self.mountSource.get_mount_source(sourceFileInfo)
 
     @overrides(MountSource)
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
-- 
2.43.0


From c2eaa52034aa6efd0ca5262e7144af0d9b6b0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 33/62] fix: Do not show version folders for non-existing files

Looking them up raised an assertion error and listing them returned an empty folder.
---
 core/ratarmountcore/mountsource/compositing/versioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 277942f..1dfdd46 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -81,6 +81,8 @@ class FileVersionLayer(MountSource):
                 pathIsSpecialVersionsFolder = True
                 fileVersion = 0
                 filePath = tmpFilePath[: -len('.versions')]
+                if not self.mountSource.exists(filePath):
+                    return None
                 continue
 
             # Parent path does not exist and is not a versions path, so any subpaths also won't exist either
-- 
2.43.0


From b9f7f273f819b063ac55b7f4399d40bb90932fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 34/62] fix: Forward explicitly specified file versions in
 FileVersionLayer.lookup

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 1dfdd46..1b632a1 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -193,7 +193,11 @@ class FileVersionLayer(MountSource):
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         """Resolves special file version specifications in the path."""
 
-        assert fileVersion == 0
+        if fileVersion != 0:
+            fileInfo = self.mountSource.lookup(path, fileVersion=fileVersion)
+            if fileInfo:
+                fileInfo.userdata.append(FileType.FILE)
+            return fileInfo
 
         fileInfo = FileVersionLayer._resolve_hard_links(self.mountSource, path)
         if fileInfo:
-- 
2.43.0


From 710bb056e15efea7cbd38e87120ac4dc7dfcd56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 35/62] fix: Forward the requested file version in
 RemovePrefixMountSource.lookup

---
 .../ratarmountcore/mountsource/compositing/removeprefix.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index 53a7978..8adc6a3 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -44,7 +44,12 @@ class RemovePrefixMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
-        return self._parse_path(path, self.mountSource.lookup, lambda _: self._directory_info.clone(), None)
+        return self._parse_path(
+            path,
+            lambda subPath: self.mountSource.lookup(subPath, fileVersion=fileVersion),
+            lambda _: self._directory_info.clone(),
+            None,
+        )
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-- 
2.43.0


From 13ef22fd1a203e7901e8c6b85d4c67fcc2ff39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 36/62] fix: Forward join_threads in RemovePrefixMountSource

---
 core/ratarmountcore/mountsource/compositing/removeprefix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index 8adc6a3..fb466dd 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -114,3 +114,7 @@ class RemovePrefixMountSource(MountSource):
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
         self.mountSource.__exit__(exception_type, exception_value, exception_traceback)
+
+    def join_threads(self):
+        if hasattr(self.mountSource, 'join_threads'):
+            self.mountSource.join_threads()
-- 
2.43.0


From 207fa030ec06de3ebebfff5eeef5021e4ba4928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 37/62] fix: Return correct link targets and usable file infos
 when listing folder mount sources

The link target of the folder itself was queried and it was then swapped with the path.
---
 .../mountsource/formats/folder.py             | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 198453c..3a727ec 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -81,14 +81,12 @@ class FolderMountSource(MountSource):
         )
         # fmt: on
 
-    @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str, realpath: str):
-        try:
-            linkname = os.readlink(realpath) if dirEntry.is_symlink() else ""
-        except OSError:
-            linkname = ""
-
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), linkname, path)
+    def _dir_entry_to_file_info(self, dirEntry: os.DirEntry, path: str) -> Optional[FileInfo]:
+        filePath = f"{path.strip('/')}/{os.fsdecode(dirEntry.name)}".lstrip('/')
+        # Lookup might resolve links.
+        if dirEntry.is_symlink():
+            return self.lookup(filePath)
+        return self._stats_to_file_info(dirEntry.stat(follow_symlinks=False), filePath, "")
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -133,10 +131,10 @@ class FolderMountSource(MountSource):
         if not os.path.isdir(realpath):
             return None
 
-        return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path, realpath)
-            for dirEntry in os.scandir(realpath)
+        fileInfos = {
+            os.fsdecode(dirEntry.name): self._dir_entry_to_file_info(dirEntry, path) for dirEntry in os.scandir(realpath)
         }
+        return {name: fileInfo for name, fileInfo in fileInfos.items() if fileInfo is not None}
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-- 
2.43.0


From 1f8e96763829b2fdf6b9487f3993f53a7ce6d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 38/62] fix: Ignore folders in the original file names stored
 in gzip files

---
 core/ratarmountcore/mountsource/formats/tar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index fff010b..6dc4293 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -977,7 +977,9 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 try:
                     info = get_gzip_info(self.rawFileObject)
                     if info:
-                        fname, mtime = info
+                        # The stored name is arbitrary and may even contain folders or '..', which must not be used.
+                        name, mtime = info
+                        fname = SQLiteIndex.normpath(name).rsplit('/', 1)[1] or fname
                 except Exception:
                     logger.info("Could not determine an original gzip file name probably because it is not a gzip", exc_info=logger.isEnabledFor(logging.DEBUG))
                 finally:
-- 
2.43.0


From 8a3a0d2567d4db60e10c47b763da3c02f0f98c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 39/62] fix: Do not let members of nested TARs escape from
 their mount point

---
 core/ratarmountcore/mountsource/formats/tar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 6dc4293..f01c9a2 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -231,7 +231,11 @@ class _TarFileMetadataReader:
         )
         xattrRows = [(offsetHeader, key, value) for key, value in xattrs.items()]
 
-        fullPath = pathPrefix + "/" + tarInfo.name
+        memberName = tarInfo.name
+        if pathPrefix and '..' in memberName.split('/'):
+            # Members of nested archives must not escape into the parent archive.
+            memberName = SQLiteIndex.normpath(memberName).lstrip('/')
+        fullPath = pathPrefix + "/" + memberName
         if tarInfo.isdir():
             fullPath += "/"
         path, name = SQLiteIndex.normpath(transform(fullPath)).rsplit("/", 1)
-- 
2.43.0


From b2149d138c57dcbada5803fc2fe26812e5acabd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 40/62] fix: Advance the position of files in SquashFS images
 when reading

---
 core/ratarmountcore/mountsource/formats/squashfs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 6e99e9b..43fb9d8 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -214,12 +214,13 @@ class SquashFSFile(io.RawIOBase):
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
         # An empty buffer signals the end of the file!
-        if result or not self._buffer:
-            return result
+        if not result and self._buffer:
+            self._blockIndex += 1
+            self._refill_buffer(self._blockIndex)
+            result = self._bufferIO.read(size)
 
-        self._blockIndex += 1
-        self._refill_buffer(self._blockIndex)
-        return self._bufferIO.read(size)
+        self._offset += len(result)
+        return result
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
-- 
2.43.0


From 31ff9c1a93b296c60180ac0469fe320196ab1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 41/62] fix: Make empty files in libarchive-backed archives
 readable

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d4af1c5..edfe09e 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -399,6 +399,8 @@ class LibarchiveFile(io.RawIOBase):
     def _refill_buffer(self):
         bufferedSize = len(self._buffer) if self._buffer else 0
         if self._bufferOffset + bufferedSize >= self.fileSize:
+            if self._bufferIO is None:
+                self._bufferIO = io.BytesIO()  # Empty files must also be readable.
             return
 
         self._bufferOffset += bufferedSize
-- 
2.43.0


From 34143314780a815dbfa42186cfc65984b03f2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 42/62] fix: Support reading until the end of the file with the
 parallel block readers

---
 core/ratarmountcore/BlockParallelReaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b22e206..a4c2a53 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -150,6 +150,9 @@ class BlockParallelReader(io.BufferedIOBase):
         return self._offset
 
     def _read(self, size: int, decodeBlock) -> bytes:
+        if size is None or size < 0:
+            size = max(0, self.blockBoundaries[-1] - self._offset)
+
         blocks = []
         blockNumber = self._find_block(self.blockBoundaries, self._offset)
         if blockNumber is None:
-- 
2.43.0


From ab3ed936340d5b2e9c70648832ee9cff36751bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 43/62] fix: Allow joining the threads of parallel block
 readers without a pool

---
 core/ratarmountcore/BlockParallelReaders.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index a4c2a53..186f972 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -69,9 +69,10 @@ class BlockParallelReader(io.BufferedIOBase):
         assert self.fileobj.readable()
 
     def join_threads(self):
-        self._pool.close()
-        self._pool.join()
-        self._pool = None
+        if self._pool:
+            self._pool.close()
+            self._pool.join()
+            self._pool = None
 
     def _get_pool(self):
         if not self._pool:
-- 
2.43.0


From f4456821d58e59f0843e71c3ebb8148794cb2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 44/62] fix: Do not read beyond the requested file in TAR
 archives and hold the lock while reading

---
 core/ratarmountcore/mountsource/formats/tar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index f01c9a2..ee0c37f 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1114,8 +1114,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 return file.read(size)
 
         # For non-sparse files, we can simply seek to the offset and read from it.
-        self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
-        return self.tarFileObject.read(size)
+        # The position of the file object is shared with all opened files and must not be changed while they read.
+        remaining = max(0, fileInfo.size - offset)
+        with self.fileObjectLock:
+            self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
+            return self.tarFileObject.read(remaining if size < 0 else min(size, remaining))
 
     @overrides(MountSource)
     def statfs(self) -> dict[str, Any]:
-- 
2.43.0


From 324e4a74a2e3d831c4a621fd383e8b502f4a592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 45/62] fix: Give each archive opened with libarchive its own
 position in a shared file object

---
 .../mountsource/formats/libarchive.py         | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index edfe09e..64c765e 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -8,6 +8,7 @@ import logging
 import os
 import stat
 import sys
+import threading
 from collections.abc import Sequence
 from pathlib import Path
 from typing import IO, Callable, Optional, Union, cast
@@ -17,6 +18,7 @@ from ratarmountcore.formats import FILE_FORMATS
 from ratarmountcore.mountsource import FileInfo, MountSource
 from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource
 from ratarmountcore.SQLiteIndex import SQLiteIndex
+from ratarmountcore.StenciledFile import RawStenciledFile
 from ratarmountcore.utils import InvalidIndexError, overrides
 
 try:
@@ -196,10 +198,12 @@ class IterableArchive:
         encoding='utf-8',
         passwords: Optional[Sequence[Union[str, bytes]]] = None,
         bufferSize=1024 * 1024,
+        fileObjectLock=None,
     ):
         self.encoding = encoding
         self.bufferSize = bufferSize
         self._file = file
+        self._fileObjectLock = fileObjectLock
         self._entryIndex = 0  # A consecutive number to identify entries even if they have the same name.
         self._buffer = None
         self._readCallback = None
@@ -272,24 +276,32 @@ class IterableArchive:
             return
         self._buffer = ctypes.create_string_buffer(self.bufferSize)
 
+        file = self._file
+        if hasattr(file, 'seekable') and file.seekable() and hasattr(file, 'tell'):
+            # The file object is shared by all archives opened at the same time, so each one needs its own position.
+            with self._fileObjectLock or contextlib.nullcontext():
+                file.seek(0, io.SEEK_END)
+                size = file.tell()
+            file = RawStenciledFile([(self._file, 0, size)], self._fileObjectLock)
+
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
             try:
-                size = self._file.readinto(self._buffer)
+                size = file.readinto(self._buffer)
             except (NotImplementedError, AttributeError):
-                result = self._file.read(self.bufferSize)
+                result = file.read(self.bufferSize)
                 size = len(result)
                 self._buffer = ctypes.c_char_p(result)
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
             return size
 
-        if hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell'):
+        if hasattr(file, 'seekable') and file.seekable() and hasattr(file, 'tell'):
 
             def seek_file_object(_archive, _context, offset, whence):
-                self._file.seek(offset, whence)
-                return self._file.tell()
+                file.seek(offset, whence)
+                return file.tell()
 
-            self._file.seek(0)
+            file.seek(0)
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
             # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
             laffi.read_set_seek_callback(self._archive, self._seekCallback)
@@ -362,9 +374,11 @@ class LibarchiveFile(io.RawIOBase):
         fileSize,
         passwords: Optional[Sequence[str]] = None,
         archiveCache: Optional[IterableArchiveCache] = None,
+        fileObjectLock=None,
     ):
         io.RawIOBase.__init__(self)
         self.file = file
+        self._fileObjectLock = fileObjectLock
         self.fileSize = fileSize
         self.entry_index = entry_index
         self.passwords = passwords
@@ -383,7 +397,9 @@ class LibarchiveFile(io.RawIOBase):
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
-            self._archive = IterableArchive(self.file, passwords=self.passwords)
+            self._archive = IterableArchive(
+                self.file, passwords=self.passwords, fileObjectLock=self._fileObjectLock
+            )
 
         while True:
             self._entry = self._archive.next_entry()
@@ -517,6 +533,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         self.passwords = options.get("passwords", [])
         self.tarFileName = tarFileName
         self._archiveCache = IterableArchiveCache()
+        self.fileObjectLock = threading.Lock()
 
         # Determine an archive file name to show for debug output and as file name inside the mount point for
         # simple non-TAR gzip/bzip2 stream-compressed files.
@@ -610,5 +627,6 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
                 fileSize=fileInfo.size,
                 passwords=self.passwords,
                 archiveCache=self._archiveCache,
+                fileObjectLock=self.fileObjectLock,
             ),
         )
-- 
2.43.0


From fb8cf409fa89f23f4702690016a751ce90c8cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 46/62] fix: Lock the file object of SquashFS images while
 reading from it

---
 .../mountsource/formats/squashfs.py            | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 43fb9d8..6b36036 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -5,6 +5,7 @@ import io
 import logging
 import os
 import stat
+import threading
 import zlib
 from pathlib import Path
 from typing import IO, Any, Optional, Union
@@ -50,6 +51,12 @@ except ImportError:
         def _read_fragment(self, fragment):
             raise NotImplementedError
 
+        def _read_data_block(self, start, size):
+            raise NotImplementedError
+
+        def _read_block(self, start, expected=0):
+            raise NotImplementedError
+
         def _read_inode(self, start_block, offset):
             raise NotImplementedError
 
@@ -295,8 +302,19 @@ class SquashFSImage(SquashFsImage):
     @overrides(SquashFsImage)
     def __init__(self, *args, **kwargs):
         self._real_root = None
+        self._fd_lock = threading.RLock()
         super().__init__(*args, **kwargs)  # Calls overridden _initialize
 
+    @overrides(SquashFsImage)
+    def _read_data_block(self, *args, **kwargs):
+        with self._fd_lock:
+            return super()._read_data_block(*args, **kwargs)
+
+    @overrides(SquashFsImage)
+    def _read_block(self, *args, **kwargs):
+        with self._fd_lock:
+            return super()._read_block(*args, **kwargs)
+
     @overrides(SquashFsImage)
     def _get_compressor(self, compression_id):
         if compression_id == Compression.ZLIB:
-- 
2.43.0


From da794c7084a2398c9b347901586ba8ffafa4aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 47/62] fix: Do not extract from the same 7z archive
 concurrently

---
 core/ratarmountcore/mountsource/formats/py7zr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/py7zr.py b/core/ratarmountcore/mountsource/formats/py7zr.py
index 24b1e30..7a82796 100644
--- a/core/ratarmountcore/mountsource/formats/py7zr.py
+++ b/core/ratarmountcore/mountsource/formats/py7zr.py
@@ -2,6 +2,7 @@ import io
 import logging
 import stat
 import sys
+import threading
 from pathlib import Path
 from typing import IO, Optional, Union
 
@@ -96,6 +97,7 @@ class Py7zrMountSource(SQLiteIndexMountSource):
                 password=None if password is None else (password if isinstance(password, str) else password.decode()),
             )
 
+        self.fileObjectLock = threading.Lock()
         self.fileObject = Py7zrMountSource._find_password(open_file, options.get("passwords", []))
 
         # Force indexes in memory because:
@@ -180,4 +182,6 @@ class Py7zrMountSource(SQLiteIndexMountSource):
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
-        return open_in_memory(self.fileObject, fileInfo.linkname)
+        # Extracting repositions the archive, which is shared by all callers.
+        with self.fileObjectLock:
+            return open_in_memory(self.fileObject, fileInfo.linkname)
-- 
2.43.0


From d315e7790e39b03fbc5d677cac13b0da9fa984ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 48/62] fix: Keep the file handle usable when it cannot be
 opened in the write overlay

---
 ratarmount/FuseMount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 22ca27d..d128132 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -870,8 +870,8 @@ class FuseMount(fuse.Operations):
                 return openedFile.write(data)
 
             if self.writeOverlay and not isinstance(openedFile, int) and (flags & (os.O_WRONLY | os.O_RDWR)):
-                openedFile.close()
                 self.openedFiles[fh] = (flags, self.writeOverlay.open(path, flags))
+                openedFile.close()
 
         if self.writeOverlay and self._is_write_overlay_handle(fh):
             return self.writeOverlay.write(path, data, offset, self._resolve_file_handle(fh))
-- 
2.43.0


From 83784b1a19b8f65f89ebc92e63d44136a087cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 49/62] fix: Contain exceptions of file format checks

---
 core/ratarmountcore/formats.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 67f1ac9..19ba1f2 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -25,6 +25,7 @@ See:
 import contextlib
 import dataclasses
 import enum
+import logging
 import re
 import struct
 import sys
@@ -41,6 +42,9 @@ except ImportError:
     sqlcipher3 = None  # type: ignore
 
 
+logger = logging.getLogger(__name__)
+
+
 class FileFormatID(enum.Enum):
     # fmt: off
     # Archive Formats (bundles more than one file)
@@ -613,6 +617,14 @@ def might_be_format(fileobj: IO[bytes], fid: Union[FileFormatID, FileFormatInfo]
         if formatInfo.checkHeader:
             fileobj.seek(oldOffset)
             return formatInfo.checkHeader(fileobj)
+    except Exception as exception:
+        # The checks are mostly done by third-party modules and malformed files must not stop any other checks.
+        logger.info(
+            "Checking the file format raised an exception: %s",
+            exception,
+            exc_info=logger.isEnabledFor(logging.DEBUG),
+        )
+        return False
     finally:
         fileobj.seek(oldOffset)
 
-- 
2.43.0


From d9654ebb3c6cf44f4b67091d2163b2d7a549c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 50/62] fix: Unmount absolute paths given to the control
 interface

The command was dropped instead of being forwarded to a subprocess as soon as it contained any absolute mount point that is not
provided by the mount itself.
---
 ratarmount/FuseMount.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index d128132..269eb2b 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -616,8 +616,10 @@ class FuseMount(fuse.Operations):
             # We need to parse the arguments to test for relative paths or absolute paths pointing into our mount point.
             # This already processes direct actions such as --help without us having to start a subprocess.
             parsed = create_parser().parse_args(args)
-            if self._process_parsed_arguments(parsed):
-                return
+            # Some arguments may already have been processed.
+            remainingArguments = self._process_parsed_arguments(parsed)
+            if remainingArguments:
+                args = remainingArguments
 
             if len(self._subprocesses) > 100:
                 # Filter finished processes.
-- 
2.43.0


From abcc3004bf00713474ff3a9f5a4f8b2aa0e2f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 51/62] fix: Do not access the mount when filtering index
 locations inside of it

The path was resolved before checking whether it points into the mount, an empty folder and ~ ended up pointing into the current
working directory, and so did :memory: and file:// URLs.
---
 ratarmount/FuseMount.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 269eb2b..5d8310a 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -424,6 +424,14 @@ class FuseMount(fuse.Operations):
                 return subpath
         return None
 
+    def _resolve_path_outside_fuse_mount(self, path: str) -> Optional[str]:
+        # Check before resolving because resolving accesses the file system, which might deadlock in our FUSE mount.
+        path = os.path.abspath(path)
+        if self._path_provided_by_us(path) is not None:
+            return None
+        path = os.path.realpath(path)
+        return None if self._path_provided_by_us(path) is not None else path
+
     def _filter_index_locations_in_fuse_mount(self, options: dict) -> None:
         hasIndexPath = False
 
@@ -433,22 +441,28 @@ class FuseMount(fuse.Operations):
             if options['indexFilePath'].count('://') == 1:
                 fileURLPrefix = 'file://'
                 indexFilePath = indexFilePath.removeprefix(fileURLPrefix)
-            if '://' not in indexFilePath:
-                indexFilePath = os.path.realpath(options['indexFilePath'])
+            resolvedPath: Optional[str] = indexFilePath
+            if '://' not in indexFilePath and indexFilePath != ':memory:':
+                resolvedPath = self._resolve_path_outside_fuse_mount(indexFilePath)
 
-            if self._path_provided_by_us(indexFilePath) is not None:
+            if resolvedPath is None:
                 del options['indexFilePath']
             else:
-                options['indexFilePath'] = indexFilePath
+                options['indexFilePath'] = resolvedPath
                 hasIndexPath = True
 
         if 'indexFolders' in options and isinstance(options['indexFolders'], list):
             indexFolders = options['indexFolders']
             newIndexFolders = []
             for folder in indexFolders:
-                if self._path_provided_by_us(folder) is not None:
+                # The empty string stands for the folder containing the archive, not the current working directory.
+                if not folder:
+                    if self.selfBindMount is None:
+                        newIndexFolders.append(folder)
                     continue
-                newIndexFolders.append(os.path.realpath(folder))
+                resolvedFolder = self._resolve_path_outside_fuse_mount(os.path.expanduser(folder))
+                if resolvedFolder is not None:
+                    newIndexFolders.append(resolvedFolder)
             options['indexFolders'] = newIndexFolders
             if newIndexFolders:
                 hasIndexPath = True
-- 
2.43.0


From 3987c66226270ef6f41f6b97450b07dd38803ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 52/62] fix: Do not follow links into the folder that is
 mounted on

Relative links leaving the folder and returning into it were resolved by the process providing the mount, which hung.
---
 core/ratarmountcore/mountsource/formats/folder.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 3a727ec..0ed32eb 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -35,6 +35,8 @@ class FolderMountSource(MountSource):
 
     def __init__(self, path: Union[str, os.PathLike]) -> None:
         self.root = str(path)
+        self._realRoot = os.path.realpath(path)
+        self._isMountedOn = False
         self._statfs = FolderMountSource._get_statfs_for_folder(self.root)
 
     def set_folder_descriptor(self, fd: int) -> None:
@@ -45,8 +47,17 @@ class FolderMountSource(MountSource):
         """
         os.fchdir(fd)
         self.root = '.'
+        self._isMountedOn = True
         self._statfs = FolderMountSource._get_statfs_for_folder(self.root)
 
+    def _points_into_our_mount(self, path: str, linkname: str) -> bool:
+        """Return true for links which must not be followed because that would access our own mount and hang."""
+        if not self._isMountedOn:
+            return False
+        parentFolder = os.path.dirname(os.path.join(self._realRoot, path.strip('/')))
+        target = os.path.normpath(os.path.join(parentFolder, linkname))
+        return target == self._realRoot or target.startswith(self._realRoot.rstrip('/') + '/')
+
     @staticmethod
     def _get_statfs_for_folder(path: str):
         statvfs = None if os.name == 'nt' else os.statvfs(path)
@@ -119,6 +130,7 @@ class FolderMountSource(MountSource):
             if (
                 not os.path.isabs(linkname)
                 and max_up_count(linkname) > path.strip('/').count('/')
+                and not self._points_into_our_mount(path, linkname)
                 and os.path.exists(realpath)
             ):
                 realpath = os.path.realpath(realpath)
-- 
2.43.0


From d31fd4969fe222c7fd659c2bd80cba2d6e2b5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 53/62] fix: Open the journal of the write overlay database
 before mounting

SQLite opens the journal by its absolute path for the first modification. If the overlay folder is also the mount point, then this
accessed our own mount, which hung.
---
 ratarmount/WriteOverlay.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index bb1dace..3e1c3fc 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -1,6 +1,7 @@
 import errno
 import functools
 import inspect
+import logging
 import os
 import shutil
 import sqlite3
@@ -21,6 +22,8 @@ from ratarmountcore.utils import RatarmountError, overrides
 
 from .fuse import fuse
 
+logger = logging.getLogger(__name__)
+
 
 def check_ignored_prefixes(parameter_name: str = 'path'):
     def decorator(func):
@@ -133,6 +136,13 @@ class WritableFolderMountSource(fuse.Operations):
             PRAGMA LOCKING_MODE = EXCLUSIVE;
             """
         )
+        # The database may lie inside the folder that will be mounted over. Modify it once so that SQLite opens the
+        # rollback journal, which is then kept open because of the exclusive locking mode. Else, SQLite would access
+        # our own FUSE mount when opening the journal by its path for the first modification after mounting.
+        try:
+            sqlConnection.execute("PRAGMA USER_VERSION = 0;")
+        except sqlite3.OperationalError as exception:
+            logger.warning("The write overlay database cannot be modified because of: %s", exception)
         return sqlConnection
 
     def set_folder_descriptor(self, fd: int) -> None:
-- 
2.43.0


From 2f510c552a3c42e3bac505609ba675f7de98c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 54/62] fix: Show overlay metadata of files in nested archives
 and not those of files with the same name

---
 ratarmount/FuseMount.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 5d8310a..28843c6 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -681,13 +681,11 @@ class FuseMount(fuse.Operations):
             return fileInfo
 
         # Request exact metadata from write overlay, e.g., if the actual file in the folder
-        # does not support permission changes
-        result = self.mountSource.get_mount_source(fileInfo)
-        subMountPoint = result[0]
+        # does not support permission changes. The metadata is stored for the full path, see WritableFolderMountSource.
         # TODO Note that if the path contains special .version versioning, then it will most likely fail
         #      to find the path in the write overlay, which is problematic for things like foo.versions/0.
         #      Would be really helpful if the file info would contain the actual path and name, too :/
-        return self.writeOverlay.update_file_info(path[len(subMountPoint) :], fileInfo)
+        return self.writeOverlay.update_file_info(path, fileInfo)
 
     @staticmethod
     def _redirect_output(name: str, file: IO[str]):
-- 
2.43.0


From 5ca1bb812c6b5a7a6588352bb8a9a11624b234ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 55/62] fix: Store the archive state before indexing appended
 data instead of dropping it afterwards

---
 core/ratarmountcore/mountsource/formats/tar.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index ee0c37f..7eabcb7 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -714,12 +714,15 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 appendedPartAsFile = StenciledFile(
                     fileStencils=[(self.tarFileObject, pastEndOffset, archiveSize - pastEndOffset)]
                 )
-                self.index.create_index_timed(
-                    create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
-                )
 
-                self.index.drop_metadata()
-                self._store_metadata()
+                def create_index():
+                    # Store the state of the archive before reading from it because it might change while doing so.
+                    # At this point, the index is marked as incomplete, so that it will not be used if interrupted.
+                    self.index.drop_metadata()
+                    self._store_metadata()
+                    self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
+
+                self.index.create_index_timed(create_index=create_index)
                 self.index.reload_index_read_only()
                 return
 
-- 
2.43.0


From 95cfedb0114b2edf4d94b31b638a7993b7245d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 56/62] fix: keep the position of file objects when seeking
 before their start fails

---
 core/ratarmountcore/BlockParallelReaders.py   |  9 ++++----
 core/ratarmountcore/StenciledFile.py          | 22 +++++++------------
 .../mountsource/formats/squashfs.py           |  3 ++-
 3 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index 186f972..ac4ddc1 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -135,15 +135,14 @@ class BlockParallelReader(io.BufferedIOBase):
     @overrides(io.BufferedIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self._offset += offset
+            offset += self._offset
         elif whence == io.SEEK_END:
-            self._offset = self.blockBoundaries[-1] + offset
-        elif whence == io.SEEK_SET:
-            self._offset = offset
+            offset += self.blockBoundaries[-1]
 
-        if self._offset < 0:
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
 
+        self._offset = offset
         return self._offset
 
     @overrides(io.BufferedIOBase)
diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 7bce4b0..ace43fc 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -158,17 +158,14 @@ class RawStenciledFile(FixedRawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.cumsizes[-1] + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.cumsizes[-1]
 
-        if self.offset < 0:
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.cumsizes[-1]:
-            return self.offset
 
+        self.offset = offset
         return self.offset
 
     @overrides(io.RawIOBase)
@@ -393,17 +390,14 @@ class LambdaReaderFile(io.RawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.size + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.size
 
-        if self.offset < 0:
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.size:
-            return self.offset
 
+        self.offset = offset
         return self.offset
 
     @overrides(io.RawIOBase)
diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 6b36036..cd8116b 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -267,7 +267,8 @@ class SquashFSFile(io.RawIOBase):
         elif whence == io.SEEK_END:
             offset += self._size
 
-        self._offset = max(0, min(offset, self._size))
+        offset = max(0, min(offset, self._size))
+        self._offset = offset
         bufferOffset = self._blockIndex * self._block_size
         if offset < bufferOffset or offset >= bufferOffset + len(self._buffer):
             self._refill_buffer(offset // self._block_size)  # Updates self._blockIndex!
-- 
2.43.0


From 77282e432a91acecb66876ab9a37ed4dfdca8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 57/62] fix: open sparse files which have no holes

---
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 7eabcb7..7be090d 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1102,7 +1102,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             if lastEnd < realFileSize:
                 stencils.append((True, 0, realFileSize - lastEnd))
 
-            zeros = cast(IO[bytes], ZeroFile(max(x[2] for x in stencils if x[0])))
+            zeros = cast(IO[bytes], ZeroFile(max((x[2] for x in stencils if x[0]), default=0)))
             return self._open_stencil(
                 [(zeros if is_null else self.tarFileObject, offset, size) for is_null, offset, size in stencils],
                 buffering,
-- 
2.43.0


From 7809645daaec863f04cf8fd06dbbcf40e999a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 58/62] fix: recognise paths with two leading slashes as lying
 inside of the mount

---
 ratarmount/FuseMount.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 28843c6..26dab80 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -416,6 +416,9 @@ class FuseMount(fuse.Operations):
 
     def _path_provided_by_us(self, path: str) -> Optional[str]:
         normpath = os.path.normpath(path)
+        # Exactly two leading slashes are not collapsed by normpath even though they mean the same as a single one.
+        if normpath.startswith('//'):
+            normpath = normpath[1:]
         if normpath == self.mountPoint:
             return ""
         for separator in ['/', os.path.sep]:
-- 
2.43.0


From c28063369f56473020162ea88129746fc9f88368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 59/62] fix: use the given recursion depth when warning about
 options without effect

---
 ratarmount/CLIHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/CLIHelpers.py b/ratarmount/CLIHelpers.py
index 5b99471..a1529fa 100644
--- a/ratarmount/CLIHelpers.py
+++ b/ratarmount/CLIHelpers.py
@@ -184,7 +184,7 @@ def process_trivial_parsed_arguments(args):
     args.gzipSeekPointSpacing = int(args.gzip_seek_point_spacing * 1024 * 1024)
 
     if (args.strip_recursive_tar_extension or args.transform_recursive_mount_point) and determine_recursion_depth(
-        recursive=args.recursive, recursion_depth=args.recursion_depth
+        recursive=args.recursive, recursionDepth=args.recursion_depth
     ) <= 0:
         logger.warning(
             "The options --strip-recursive-tar-extension and --transform-recursive-mount-point only have an "
-- 
2.43.0


From 008426ce011f99f56858bd0e74c16b5a2698b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:18 +0000
Subject: [PATCH 60/62] fix: answer changes of missing files in the overlay
 with ENOENT

---
 ratarmount/WriteOverlay.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 3e1c3fc..b9de6eb 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -174,9 +174,13 @@ class WritableFolderMountSource(fuse.Operations):
             os.makedirs(self._realpath(parentPath), exist_ok=True)
 
     def _ensure_file_is_modifiable(self, path):
+        fileInfo = self.mountSource.lookup(path)
+        if fileInfo is None:
+            raise fuse.FuseOSError(errno.ENOENT)
+
         self._ensure_parent_exists(path)
         with (
-            self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
+            self.mountSource.open(fileInfo) as sourceObject,
             open(self._realpath(path), 'wb') as targetObject,
         ):
             shutil.copyfileobj(sourceObject, targetObject)
-- 
2.43.0


From 6eb81d324d73f557d00717d5270c3328eee2fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 61/62] fix: do not find paths below files in Git repositories

---
 core/ratarmountcore/mountsource/formats/git.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index 683b0ed..d94e987 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -52,8 +52,8 @@ class GitMountSource(MountSource):
     def _look_up_path(self, path: str) -> Optional[Any]:
         tree: Any = self.tree
         for name in self.prefix.split("/") + path.split("/"):
-            if name and isinstance(tree, pygit2.Tree):
-                if name not in tree:
+            if name:
+                if not isinstance(tree, pygit2.Tree) or name not in tree:
                     return None
                 tree = tree[name]
         return tree
-- 
2.43.0


From 56b86df5c370fed16b28705e387675375b65414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 62/62] fix: answer listings of missing folders in fsspec file
 systems with no result

---
 core/ratarmountcore/mountsource/formats/fsspec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/fsspec.py b/core/ratarmountcore/mountsource/formats/fsspec.py
index 1cb7eb2..5df2853 100644
--- a/core/ratarmountcore/mountsource/formats/fsspec.py
+++ b/core/ratarmountcore/mountsource/formats/fsspec.py
@@ -174,7 +174,10 @@ class FSSpecMountSource(MountSource):
             # On the other hand, all paths must start with / or else they will not be found...
             path = ""
 
-        result = self.fileSystem.listdir(path, detail=True)
+        try:
+            result = self.fileSystem.listdir(path, detail=True)
+        except (FileNotFoundError, NotADirectoryError):
+            return None
         if not result:
             return []
         if isinstance(result[0], str):
-- 
2.43.0

