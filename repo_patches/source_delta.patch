From fd64d50ca13013015ec0ea2a02582945b3e45475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 01/55] fix: present empty resources of a Python archive
 instead of None

---
 flatdata-py/flatdata/lib/archive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 34e27aa..fb7ee28 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -56,8 +56,8 @@ class Archive:
         for name, signature in self._RESOURCES.items():
             resource = self.__getattr__(name)
             result.append([name, signature.container.__name__, signature.is_optional,
-                           resource.size_in_bytes() if resource else None,
-                           len(resource) if resource else None])
+                           resource.size_in_bytes() if resource is not None else None,
+                           len(resource) if resource is not None else None])
         return pd.DataFrame(data=result,
                             columns=["Name", "Type", "Optional", "SizeInBytes", "Size"])
 
@@ -84,7 +84,7 @@ class Archive:
     def size_in_bytes(self):
         return sum(resource_value.size_in_bytes() for resource_value in
                    (self.__getattr__(resource) for resource in self._RESOURCES.keys())
-                   if resource_value)
+                   if resource_value is not None)
 
     def __len__(self):
         return len(self._RESOURCES)
@@ -110,7 +110,7 @@ class Archive:
                                                          name=name,
                                                          initializer=resource_signature.initializer,
                                                          is_optional=resource_signature.is_optional)
-            if resource:
+            if resource is not None:
                 resource.__doc__ = resource_signature.doc
                 return resource
         return None
-- 
2.43.0


From 257a14f0d354659f79696750cf922ec0bce95bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 02/55] fix: drop the bits of the next field when Python reads
 an unaligned 64 bit value

---
 flatdata-py/flatdata/lib/data_access.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 359dfc6..ba791a9 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -20,8 +20,7 @@ def read_value(data, offset_bits, num_bits, is_signed):
         remainder = data[offset_bytes + total_bytes]
         result |= remainder << (total_bytes * 8 - offset_extra_bits)
 
-    if num_bits < 64:
-        result = result & ((1 << num_bits) - 1)
+    result = result & ((1 << num_bits) - 1)
 
     if not is_signed:
         return result
-- 
2.43.0


From 19180300e9a5497dfa13a91439ee1d4c928e923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 03/55] fix: detect size headers that disagree with the file or
 element size in Python

---
 flatdata-py/flatdata/lib/resources.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f371a7d..6bcc63c 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -21,6 +21,9 @@ class ResourceBase:
         if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):
             raise CorruptResourceError()
         self._mem = memoryview(mem)
+        size_in_bytes = read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
+        if len(self._mem) != SIZE_OFFSET_IN_BYTES + size_in_bytes + SIZE_PADDING_IN_BYTES:
+            raise CorruptResourceError()
         self._element_type = element_type
         self._element_types = [element_type]
         self._type_size_in_bytes = self._element_type._SIZE_IN_BYTES if self._element_type else 1
@@ -89,7 +92,8 @@ class Vector(ResourceBase):
         ResourceBase.__init__(self, mem, element_type)
         size_in_bytes = read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
         size, rem = divmod(size_in_bytes, self._type_size_in_bytes)
-        assert rem == 0, "Malformed vector"
+        if rem != 0:
+            raise CorruptResourceError("Malformed vector")
         self._size = size
 
     def to_data_frame(self):
@@ -131,8 +135,8 @@ class _MultivectorSlice:
 
 class Multivector(ResourceBase):
     def __init__(self, index_mem, mem, index_type, *element_types):
+        ResourceBase.__init__(self, mem, None)
         self._index = Vector(index_mem, index_type)
-        self._mem = mem
         self._element_types = element_types
         self._index_type = index_type
 
@@ -216,6 +220,11 @@ class RawData(ResourceBase):
 
 
 class Instance(ResourceBase):
+    def __init__(self, mem, element_type):
+        ResourceBase.__init__(self, mem, element_type)
+        if read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False) != self._type_size_in_bytes:
+            raise CorruptResourceError("Malformed instance")
+
     def __getitem__(self, index):
         if isinstance(index, slice):
             raise IndexError("Instance has only one item")
-- 
2.43.0


From 60edf90d884494a3ccb158109eb35d503b939bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 04/55] fix: report empty files and undecodable schemas as
 corruption in Python

---
 flatdata-py/flatdata/lib/archive.py               | 4 ++--
 flatdata-py/flatdata/lib/file_resource_storage.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index fb7ee28..5ee8a1f 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -95,7 +95,7 @@ class Archive:
         # when it is initialized.
         if not _is_archive_signature(resource_signature):
             storage = self._resource_storage.get(name + _SCHEMA_EXT, resource_signature.is_optional)
-            if storage:
+            if storage is not None:
                 Archive._check_non_subarchive_schema(name, resource_signature, storage)
             elif not resource_signature.is_optional:
                 raise MissingResourceError(name)
@@ -117,7 +117,7 @@ class Archive:
 
     @staticmethod
     def _check_non_subarchive_schema(name, resource_signature, storage):
-        actual_schema = bytes(storage).decode()
+        actual_schema = bytes(storage).decode(errors="backslashreplace")
         if actual_schema != resource_signature.schema:
             raise SchemaMismatchError(
                 name, resource_signature.schema.splitlines(), actual_schema.splitlines())
diff --git a/flatdata-py/flatdata/lib/file_resource_storage.py b/flatdata-py/flatdata/lib/file_resource_storage.py
index 674b6fb..d910aff 100644
--- a/flatdata-py/flatdata/lib/file_resource_storage.py
+++ b/flatdata-py/flatdata/lib/file_resource_storage.py
@@ -21,8 +21,11 @@ class FileResourceStorage:
         :param filename:
         :return: file-like object for memory mapped file.
         """
-        opened_file = open(filename, 'r')
-        return mmap.mmap(opened_file.fileno(), 0, access=mmap.ACCESS_READ)
+        with open(filename, 'rb') as opened_file:
+            if os.fstat(opened_file.fileno()).st_size == 0:
+                # cannot be mapped
+                return b''
+            return mmap.mmap(opened_file.fileno(), 0, access=mmap.ACCESS_READ)
 
     def __init__(self, path):
         self.path = path
-- 
2.43.0


From 198acd5f72f8cc2f29553209b21ddd66f2d72a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 05/55] fix: open Python archives whose optional resources lack
 data files

---
 flatdata-py/flatdata/lib/archive.py   |  4 ++--
 flatdata-py/flatdata/lib/resources.py | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 5ee8a1f..74e465a 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -117,7 +117,7 @@ class Archive:
 
     @staticmethod
     def _check_non_subarchive_schema(name, resource_signature, storage):
-        actual_schema = bytes(storage).decode(errors="backslashreplace")
-        if actual_schema != resource_signature.schema:
+        if bytes(storage) != resource_signature.schema.encode():
+            actual_schema = bytes(storage).decode(errors="replace")
             raise SchemaMismatchError(
                 name, resource_signature.schema.splitlines(), actual_schema.splitlines())
diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 6bcc63c..6aada6b 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -54,7 +54,8 @@ class ResourceBase:
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name, is_optional), initializer)
+        mem = storage.get(name, is_optional)
+        return cls(mem, initializer) if mem is not None else None
 
 
 class _VectorSlice:
@@ -142,9 +143,11 @@ class Multivector(ResourceBase):
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name + "_index", is_optional),
-                   storage.get(name, is_optional),
-                   *initializer)
+        index_mem = storage.get(name + "_index", is_optional)
+        mem = storage.get(name, is_optional)
+        if index_mem is None or mem is None:
+            return None
+        return cls(index_mem, mem, *initializer)
 
     def __len__(self):
         # The last entry is just a sentinel
-- 
2.43.0


From 91665cb358018cb2e0d85fab2115b793f608cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 06/55] fix: raise I/O errors hit by the Python file storage
 instead of reporting resources as absent

---
 flatdata-py/flatdata/lib/file_resource_storage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/file_resource_storage.py b/flatdata-py/flatdata/lib/file_resource_storage.py
index d910aff..7e534a4 100644
--- a/flatdata-py/flatdata/lib/file_resource_storage.py
+++ b/flatdata-py/flatdata/lib/file_resource_storage.py
@@ -5,6 +5,7 @@
 
 import mmap
 import os
+import stat
 
 from .errors import MissingResourceError
 
@@ -32,13 +33,15 @@ class FileResourceStorage:
 
     def get(self, key, is_optional=False):
         filename = os.path.join(self.path, key)
-        if not os.path.exists(filename):
+        try:
+            mode = os.stat(filename).st_mode
+        except (FileNotFoundError, NotADirectoryError):
             if not is_optional:
                 raise MissingResourceError(key)
             else:
                 return None
 
-        if os.path.isfile(filename):
+        if stat.S_ISREG(mode):
             return self.memory_map(filename)
 
         return FileResourceStorage(filename)
-- 
2.43.0


From 79d23eda5212bd7ce3adedfba94efa9166116124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 07/55] fix: verify the schema of multivector indexes when
 Python opens an archive

---
 flatdata-py/flatdata/lib/archive.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 74e465a..ab2ff10 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -8,6 +8,7 @@ from collections import namedtuple
 import pandas as pd
 
 from .errors import MissingResourceError, SchemaMismatchError
+from .resources import Multivector
 
 ResourceSignature = namedtuple("ResourceSignature",
                                ["container", "initializer", "schema", "is_optional", "doc"])
@@ -96,11 +97,21 @@ class Archive:
         if not _is_archive_signature(resource_signature):
             storage = self._resource_storage.get(name + _SCHEMA_EXT, resource_signature.is_optional)
             if storage is not None:
-                Archive._check_non_subarchive_schema(name, resource_signature, storage)
+                Archive._check_non_subarchive_schema(name, resource_signature.schema, storage)
             elif not resource_signature.is_optional:
                 raise MissingResourceError(name)
             else:
                 return None
+            if resource_signature.container == Multivector:
+                index_name = name + "_index"
+                storage = self._resource_storage.get(index_name + _SCHEMA_EXT,
+                                                     resource_signature.is_optional)
+                if storage is None:
+                    return None
+                # archives that carry the schema of the resource itself are accepted as well
+                if bytes(storage) != resource_signature.schema.encode():
+                    Archive._check_non_subarchive_schema(
+                        index_name, "index(%s)" % resource_signature.schema, storage)
         return resource_signature
 
     def _open_resource(self, name):
@@ -116,8 +127,8 @@ class Archive:
         return None
 
     @staticmethod
-    def _check_non_subarchive_schema(name, resource_signature, storage):
-        if bytes(storage) != resource_signature.schema.encode():
+    def _check_non_subarchive_schema(name, expected_schema, storage):
+        if bytes(storage) != expected_schema.encode():
             actual_schema = bytes(storage).decode(errors="replace")
             raise SchemaMismatchError(
-                name, resource_signature.schema.splitlines(), actual_schema.splitlines())
+                name, expected_schema.splitlines(), actual_schema.splitlines())
-- 
2.43.0


From 272055eb0cdd313f5eadbb3d5d8ed171c2234556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 08/55] fix: let Python writers create the archive directory
 concurrently

---
 flatdata-py/flatdata/lib/file_resource_writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/file_resource_writer.py b/flatdata-py/flatdata/lib/file_resource_writer.py
index ab97e4f..6208f72 100644
--- a/flatdata-py/flatdata/lib/file_resource_writer.py
+++ b/flatdata-py/flatdata/lib/file_resource_writer.py
@@ -37,7 +37,12 @@ class FileResourceWriter:
 
         file_name = os.path.join(file_path, name)
         if not os.path.exists(file_path):
-            os.mkdir(file_path)
+            try:
+                os.mkdir(file_path)
+            except FileExistsError:
+                # another writer created it in the meantime
+                if not os.path.isdir(file_path):
+                    raise
 
         self._file = open(file_name, 'wb')
 
-- 
2.43.0


From 5335f308cd0dc034e380eb6562030ac22ae9c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 09/55] fix: do not write the data of failed Python resources
 into their files later

---
 .../flatdata/lib/file_resource_writer.py      |  2 +-
 flatdata-py/flatdata/lib/resource_storage.py  | 20 ++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/flatdata-py/flatdata/lib/file_resource_writer.py b/flatdata-py/flatdata/lib/file_resource_writer.py
index 6208f72..814d7b0 100644
--- a/flatdata-py/flatdata/lib/file_resource_writer.py
+++ b/flatdata-py/flatdata/lib/file_resource_writer.py
@@ -53,5 +53,5 @@ class FileResourceWriter:
 
     def close(self):
         '''Flush data and close file'''
-        self._file.flush()
+        # also closes the file and drops the data when flushing fails
         self._file.close()
diff --git a/flatdata-py/flatdata/lib/resource_storage.py b/flatdata-py/flatdata/lib/resource_storage.py
index 72a6219..d5154ce 100644
--- a/flatdata-py/flatdata/lib/resource_storage.py
+++ b/flatdata-py/flatdata/lib/resource_storage.py
@@ -77,12 +77,22 @@ class _Resource():
         Marks the end of resource. It will invoke actual write to disk and
         mark this resource as already written by setting resource as invalid.
         '''
+        self._valid = False
         if self._resource_writer:
-            self._resource_writer.write(self.data)
-            self.data = None
-            self._resource_writer.close()
+            data, self.data = self.data, None
+            try:
+                self._resource_writer.write(data)
+            finally:
+                self._resource_writer.close()
 
+    def discard(self):
+        '''
+        Marks the end of a resource which could not be completed. Its data is not written.
+        '''
         self._valid = False
+        self.data = None
+        if self._resource_writer:
+            self._resource_writer.close()
 
 
 class ResourceStorage:
@@ -115,7 +125,7 @@ class ResourceStorage:
         return self._store[resource_name]
 
     def close(self):
-        '''Try to close _Resource objects which are not written to disc'''
+        '''Close the files of _Resource objects which are not completely written to disc'''
         for key in self._store:
             if self._store[key].get_status():
-                self._store[key].close()
+                self._store[key].discard()
-- 
2.43.0


From 0ffe56527abb55b906c2bed163e427b0323ec201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 10/55] fix: find archives in nested and in several namespaces
 when rendering Python modules

---
 .../flatdata/generator/engine.py              | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/engine.py b/flatdata-generator/flatdata/generator/engine.py
index d568f03..1b440b9 100644
--- a/flatdata-generator/flatdata/generator/engine.py
+++ b/flatdata-generator/flatdata/generator/engine.py
@@ -6,7 +6,9 @@
 import types
 
 from flatdata.generator.tree.builder import build_ast
+from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.trivial.namespace import Namespace
+from flatdata.generator.tree.syntax_tree import SyntaxTree
 
 from .generators.cpp import CppGenerator
 from .generators.dot import DotGenerator
@@ -68,7 +70,9 @@ class Engine:
         :param archive_name: Archive name to lookup,
             if specified, archive type is returned along with the model
         """
-        root_namespace = self._find_root_namespace(self.tree)
+        archive = self._find_archive(self.tree, archive_name)
+        root_namespace = next(SyntaxTree.namespaces(archive)) if archive is not None \
+            else self._find_root_namespace(self.tree)
         module_code = self.render("py")
         module = types.ModuleType(module_name if module_name is not None else root_namespace.name)
         #pylint: disable=exec-used
@@ -76,7 +80,9 @@ class Engine:
         if archive_name is None:
             return module
 
-        name = root_namespace.name + "_" + archive_name
+        namespace_path = SyntaxTree.namespace_path(archive, "_") if archive is not None \
+            else root_namespace.name
+        name = namespace_path + "_" + archive_name
         archive_type = getattr(module, name) if archive_name else None
         return module, archive_type
 
@@ -88,6 +94,17 @@ class Engine:
 
         return generator_type()
 
+    @staticmethod
+    def _find_archive(tree, archive_name):
+        """
+        Finds the archive a class name (of an archive or of its builder) refers to. Archives directly
+        in a root namespace have precedence, then those defined last.
+        """
+        archives = [a for a in tree.root.iterate(Archive)
+                    if archive_name in (a.name, a.name + "Builder")]
+        return max(enumerate(archives), key=lambda a: (-a[1].path_depth(), a[0]))[1] \
+            if archives else None
+
     @staticmethod
     def _find_root_namespace(tree):
         root_children = tree.root.children
-- 
2.43.0


From 55705adf2f48e61054c7b8c14d17adbcb16fd817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 11/55] fix: inspect an archive given by a file name without
 directory

---
 flatdata-py/flatdata/lib/inspector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/inspector.py b/flatdata-py/flatdata/lib/inspector.py
index 5bfdfdc..466a059 100755
--- a/flatdata-py/flatdata/lib/inspector.py
+++ b/flatdata-py/flatdata/lib/inspector.py
@@ -44,7 +44,8 @@ def open_archive(path, archive=None, module_name=None):
         raise RuntimeError("Specified non-existent path %s" % path)
 
     is_tar = path.endswith(".tar") and not os.path.isdir(path)
-    archive_path = path if is_tar or os.path.isdir(path) else os.path.dirname(path)
+    archive_path = path if is_tar or os.path.isdir(path) \
+        else os.path.dirname(os.path.abspath(path))
     if is_tar:
         storage = TarArchiveResourceStorage.create(archive_path)
     else:
-- 
2.43.0


From 6767d3f45448a9856769a09a5192802edbac491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 12/55] fix: let the inspector read the schema of archives in
 TAR files

---
 flatdata-py/flatdata/lib/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/inspector.py b/flatdata-py/flatdata/lib/inspector.py
index 466a059..1250c15 100755
--- a/flatdata-py/flatdata/lib/inspector.py
+++ b/flatdata-py/flatdata/lib/inspector.py
@@ -73,7 +73,7 @@ def open_archive(path, archive=None, module_name=None):
 
     try:
         module, archive_type = \
-            Engine(schema.read().decode()).render_python_module(module_name=module_name,
+            Engine(bytes(schema).decode()).render_python_module(module_name=module_name,
                                                                 archive_name=archive_name)
     except FlatdataSyntaxError as err:
         raise RuntimeError("Error reading schema: %s " % err)
-- 
2.43.0


From ab39c8109fff044871543a3047f853ec99e17911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 13/55] fix: find sub-archives in TAR files without directory
 entries in Python

---
 flatdata-py/flatdata/lib/tar_archive_resource_storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
index cb5dd55..b6ae6df 100644
--- a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
+++ b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
@@ -3,6 +3,7 @@
  See the LICENSE file in the root of this project for license details.
 '''
 
+import os
 import tarfile
 
 from .errors import CorruptResourceError
@@ -35,6 +36,11 @@ class TarArchiveResourceStorage:
                     raise CorruptResourceError("Sparse files are not supported")
                 if file.isreg():
                     file_entries[name] = (file.offset_data, file.size)
+                    # directories do not need to have entries of their own
+                    parent = os.path.dirname(name)
+                    while parent and parent not in dir_entries:
+                        dir_entries.add(parent)
+                        parent = os.path.dirname(parent)
                 if file.isdir() and name != ".":
                     dir_entries.add(name)
 
-- 
2.43.0


From bd1f86b01e3174690878e055489d7cf4d22427a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 14/55] fix: iterate over the fields of Python structures in
 the order of the schema

---
 flatdata-py/flatdata/lib/archive_builder.py | 2 +-
 flatdata-py/flatdata/lib/structure.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index a4b1d2a..cbe6ee4 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -135,7 +135,7 @@ class ArchiveBuilder:
         :param struct(object): object to validate
         :param initializer(object): provided field keys to validate from
         '''
-        for key in initializer._FIELD_KEYS:
+        for key in initializer._FIELDS:
             if key not in struct:
                 raise MissingFieldError(key, name)
         for key in struct.keys():
diff --git a/flatdata-py/flatdata/lib/structure.py b/flatdata-py/flatdata/lib/structure.py
index fec73c0..e1d3a04 100644
--- a/flatdata-py/flatdata/lib/structure.py
+++ b/flatdata-py/flatdata/lib/structure.py
@@ -24,10 +24,10 @@ class Structure:
         return read_value(self._mem, self._pos * 8 + field.offset, field.width, field.is_signed)
 
     def __dir__(self):
-        return self._FIELD_KEYS
+        return list(self._FIELDS)
 
     def __iter__(self):
-        for name in self._FIELD_KEYS:
+        for name in self._FIELDS:
             yield getattr(self, name)
 
     def as_dict(self):
-- 
2.43.0


From 9871d2ecd2a4bcd34ddb1cb6b7e35c092b3453a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 15/55] fix: allow to repeat setting a Python multivector whose
 data could not be written

---
 flatdata-py/flatdata/lib/archive_builder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index cbe6ee4..650ee80 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -245,7 +245,6 @@ class ArchiveBuilder:
         # Write index schema
         self._write_index_schema(
             name, f'index({self._RESOURCES[name].schema})')
-        self._resources_written.append(name)
         self._resources_written.append(f'{name}_index')
 
     def set(self, name, value):
-- 
2.43.0


From 7e95a1c0a38ee676ec37cd5077c7576344c4ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 16/55] fix: reject data the Python writer would silently drop

---
 flatdata-py/flatdata/lib/resource_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resource_storage.py b/flatdata-py/flatdata/lib/resource_storage.py
index d5154ce..9dfabb9 100644
--- a/flatdata-py/flatdata/lib/resource_storage.py
+++ b/flatdata-py/flatdata/lib/resource_storage.py
@@ -52,8 +52,9 @@ class _Resource():
 
         :param data(bytearray): bytearray to be added to resource
         '''
-        if data and isinstance(data, bytearray) or isinstance(data, bytes):
-            self.data += data
+        if not isinstance(data, (bytes, bytearray, memoryview)):
+            raise TypeError(f"Cannot write {type(data).__name__} as the data of {self.name}")
+        self.data += data
 
     def get_data(self):
         '''Returns resources data in bytearray'''
-- 
2.43.0


From 4391cfbadd66247cd5ee9804d95bf075dc71e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 17/55] fix: let optional values be assigned to optional fields
 in C++

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 230e861..d4b3fac 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -137,12 +137,13 @@ struct Writer< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
     {
         if ( t )
         {
-            Writer< T, offset, num_bits >{ data } = t;
+            Writer< T, offset, num_bits >{ data } = *t;
         }
         else
         {
             Writer< T, offset, num_bits >{ data } = INVALID_VALUE;
         }
+        return *this;
     }
 };
 
-- 
2.43.0


From 84f80d30d93e0831263729452c5c3e320e3d2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 18/55] fix: opening a C++ archive builder without storage must
 fail, not crash

---
 flatdata-cpp/src/ArchiveBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-cpp/src/ArchiveBuilder.cpp b/flatdata-cpp/src/ArchiveBuilder.cpp
index 4333b5d..4d5e48d 100644
--- a/flatdata-cpp/src/ArchiveBuilder.cpp
+++ b/flatdata-cpp/src/ArchiveBuilder.cpp
@@ -55,6 +55,11 @@ ArchiveBuilder::check_created( ) const
 bool
 ArchiveBuilder::initialize( )
 {
+    if ( !m_storage )
+    {
+        return false;
+    }
+
     const auto signature_name = internal::signature_name( name( ) );
     if ( !storage( ).exists( signature_name.c_str( ) ) )
     {
-- 
2.43.0


From cc9e3c00dad5dc963261f3cff9d4bfbafd8f3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 19/55] fix: unfinished streamed resources in C++ must not look
 like empty ones

---
 flatdata-cpp/include/flatdata/internal/ResourceHandle.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
index e77f196..75d3ab0 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
+++ b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
@@ -14,6 +14,7 @@
 #include <exception>
 #include <fstream>
 #include <functional>
+#include <limits>
 #include <memory>
 
 namespace flatdata
@@ -58,7 +59,10 @@ ResourceHandle::create( std::shared_ptr< std::ostream > stream,
 
     result->m_resource_reader = std::move( resource_reader );
 
-    resource_storage::write_to_stream< resource_storage::size_type >( *result->m_stream, 0 );
+    // The final size is written on close. Until then an impossible size makes sure that an
+    // incomplete resource is never mistaken for a complete one.
+    resource_storage::write_to_stream< resource_storage::size_type >(
+        *result->m_stream, std::numeric_limits< resource_storage::size_type >::max( ) );
     return result;
 }
 
-- 
2.43.0


From b5a3eeefe7ae22190a6452fc5c3f300017381605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 20/55] fix: report storages which provide no output stream in
 C++ instead of crashing

---
 flatdata-cpp/include/flatdata/ExternalVector.h             | 7 +++++--
 flatdata-cpp/include/flatdata/MultiVector.h                | 7 +++++--
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 4 ++++
 flatdata-cpp/src/ResourceStorage.cpp                       | 4 ++++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ExternalVector.h b/flatdata-cpp/include/flatdata/ExternalVector.h
index 6dd7c14..fe0febb 100644
--- a/flatdata-cpp/include/flatdata/ExternalVector.h
+++ b/flatdata-cpp/include/flatdata/ExternalVector.h
@@ -97,7 +97,10 @@ template < typename T >
 void
 ExternalVector< T >::flush( )
 {
-    m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_array )
+    {
+        m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
 }
@@ -107,7 +110,7 @@ ArrayView< T >
 ExternalVector< T >::close( )
 {
     flush( );
-    MemoryDescriptor data = m_array->close( );
+    MemoryDescriptor data = m_array ? m_array->close( ) : MemoryDescriptor( );
     return data ? ArrayView< T >{ data.data( ), data.data( ) + data.size_in_bytes( ) }
                 : ArrayView< T >{ };
 }
diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 62ae109..3d1ded1 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -142,7 +142,7 @@ MultiVector< IndexType, Args... >::close( )
     add_to_index( );  // sentinel for last item
     flush( );
 
-    MemoryDescriptor data = m_handle->close( );
+    MemoryDescriptor data = m_handle ? m_handle->close( ) : MemoryDescriptor( );
     ArrayView< IndexType > index_view = m_index.close( );
     if ( !data || !index_view )
     {
@@ -163,7 +163,10 @@ template < typename IndexType, typename... Args >
 void
 MultiVector< IndexType, Args... >::flush( )
 {
-    m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_handle )
+    {
+        m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_size_flushed += m_data.size( ) - PADDING_SIZE;
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0520da2..566668a 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -134,6 +134,10 @@ ResourceStorage::write_schema( const char* resource_name, const char* schema )
 {
     auto schema_stream
         = create_output_stream( ( std::string( resource_name ) + ".schema" ).c_str( ) );
+    if ( !schema_stream )
+    {
+        return false;
+    }
     *schema_stream << schema;
     schema_stream->flush( );
     return static_cast< bool >( *schema_stream );
diff --git a/flatdata-cpp/src/ResourceStorage.cpp b/flatdata-cpp/src/ResourceStorage.cpp
index d14192e..631a750 100644
--- a/flatdata-cpp/src/ResourceStorage.cpp
+++ b/flatdata-cpp/src/ResourceStorage.cpp
@@ -17,6 +17,10 @@ ResourceStorage::write_to_stream( const char* resource_name,
                                   size_t size_in_bytes )
 {
     auto stream = create_output_stream( resource_name );
+    if ( !stream )
+    {
+        return false;
+    }
     resource_storage::write_to_stream( *stream, size_in_bytes );
     stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     resource_storage::write_padding( *stream );
-- 
2.43.0


From e767f3de7d5f633d9e86858e4a605a6ff8dbab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 21/55] fix: do not take existing C++ archives for missing when
 their status is unavailable

---
 flatdata-cpp/include/flatdata/FileResourceStorage.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/FileResourceStorage.h b/flatdata-cpp/include/flatdata/FileResourceStorage.h
index 699541d..b9cd543 100644
--- a/flatdata-cpp/include/flatdata/FileResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/FileResourceStorage.h
@@ -146,8 +146,9 @@ inline bool
 FileResourceStorage::exists( const char* key )
 {
     boost::system::error_code ec;
-    boost::filesystem::exists( get_path( key ).c_str( ), ec );
-    return !ec;
+    const auto status = boost::filesystem::status( get_path( key ).c_str( ), ec );
+    // Failing to query the status does not mean that the file is missing
+    return status.type( ) != boost::filesystem::file_not_found;
 }
 
 }  // namespace flatdata
-- 
2.43.0


From b987a2e6016bfa96a6b49bcb0766f20cc23606b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 22/55] fix: guard the data shared by C++ memory storages of
 one archive with one mutex

---
 .../include/flatdata/MemoryResourceStorage.h   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index f8dbf72..ea941c0 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -25,6 +25,7 @@ class MemoryResourceStorage : public ResourceStorage
         std::map< std::string, std::shared_ptr< std::stringstream > > streams;
         std::map< std::string, std::shared_ptr< std::string > > resources;
         std::set< std::string > created_directories;
+        std::mutex mutex;
 
         ~Storage( );
     };
@@ -55,7 +56,6 @@ private:
 
 private:
     std::shared_ptr< Storage > m_storage;
-    mutable std::mutex m_storage_mutex;
     std::string m_path;
 };
 
@@ -73,7 +73,7 @@ MemoryResourceStorage::create_output_stream( const char* key )
     std::shared_ptr< std::stringstream > result(
         new std::stringstream( std::ofstream::out | std::ofstream::binary ) );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->streams[ get_path( key ) ] = result;
 
     return result;
@@ -110,7 +110,7 @@ MemoryResourceStorage::read_resource( const char* key )
 {
     const auto path = get_path( key );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->resources.count( path ) == 0 )
     {
         auto found = m_storage->streams.find( path );
@@ -136,7 +136,7 @@ MemoryResourceStorage::read_resource( const char* key )
 inline void
 MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->resources.insert( std::make_pair(
         std::string( key ),
         std::make_shared< std::string >( value.char_ptr( ), value.size_in_bytes( ) ) ) );
@@ -151,7 +151,7 @@ MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 inline void
 MemoryResourceStorage::assign_value( const char* key, const char* value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->resources.insert(
         std::make_pair( std::string( key ), std::make_shared< std::string >( value ) ) );
 #ifdef DEBUG_DATA_ACCESS_STATISTICS
@@ -166,7 +166,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::create_directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->created_directories.insert( new_path );
     return std::unique_ptr< MemoryResourceStorage >(
         new MemoryResourceStorage( m_storage, new_path ) );
@@ -176,7 +176,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->created_directories.find( new_path ) == m_storage->created_directories.end( ) )
     {
         return nullptr;
@@ -253,7 +253,7 @@ inline bool
 MemoryResourceStorage::exists( const char* key )
 {
     auto path = get_path( key );
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     return m_storage->resources.count( path ) != 0 || m_storage->streams.count( path ) != 0
            || helpers::prefix_exists( m_storage->resources, path + "/" )
            || helpers::prefix_exists( m_storage->streams, path + "/" );
@@ -268,7 +268,7 @@ MemoryResourceStorage::dump_resources( bool dump_schemas, ResourceSerializer&& f
     };
 
     std::ostringstream ss;
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     for ( auto& resource : m_storage->resources )
     {
         if ( !is_schema( resource.first ) || dump_schemas )
-- 
2.43.0


From a7f69ba8e61dc98a58700177ec414eb53bc6c505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 23/55] fix: keep C++ memory storage usable when reading a
 resource runs out of memory

---
 flatdata-cpp/include/flatdata/MemoryResourceStorage.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index ea941c0..7fa886c 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -118,7 +118,8 @@ MemoryResourceStorage::read_resource( const char* key )
         {
             return MemoryDescriptor( );
         }
-        m_storage->resources[ path ].reset( new std::string( found->second->str( ) ) );
+        auto contents = std::make_shared< std::string >( found->second->str( ) );
+        m_storage->resources[ path ] = std::move( contents );
 #ifdef DEBUG_DATA_ACCESS_STATISTICS
         auto& string = m_storage->resources[ path ];
         DebugDataAccessStatistics::register_mapping(
-- 
2.43.0


From 9041623a8f3da02eda59bc3c7e76203e80e769b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 24/55] fix: created directories exist in C++ memory storage
 even while empty

---
 flatdata-cpp/include/flatdata/MemoryResourceStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index 7fa886c..943b891 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -256,6 +256,7 @@ MemoryResourceStorage::exists( const char* key )
     auto path = get_path( key );
     std::lock_guard< std::mutex > lock( m_storage->mutex );
     return m_storage->resources.count( path ) != 0 || m_storage->streams.count( path ) != 0
+           || m_storage->created_directories.count( path + "/" ) != 0
            || helpers::prefix_exists( m_storage->resources, path + "/" )
            || helpers::prefix_exists( m_storage->streams, path + "/" );
 }
-- 
2.43.0


From 9da482701dd17d53a26e452ad91cd466ba1e87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 25/55] fix: closing a C++ vector twice must not crash

---
 flatdata-cpp/include/flatdata/internal/ResourceHandle.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
index 75d3ab0..bfd6499 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
+++ b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
@@ -42,6 +42,10 @@ template < typename T >
 void
 ResourceHandle::write( T* data, size_t size_in_bytes )
 {
+    if ( m_stream == nullptr )
+    {
+        return;
+    }
     m_stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     m_size_in_bytes += size_in_bytes;
 }
-- 
2.43.0


From bf3a3816a8b9a005b46e829e85de8ccef966e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 26/55] fix: negative enumeration values must not overwrite
 neighbouring fields in C++

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index d4b3fac..f83c5b2 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -53,7 +53,7 @@ struct Writer
         static const int BIT_OFFSET = offset % 8;
 
         auto value_to_store = static_cast< UnsignedType >( t );
-        if ( std::is_signed< T >::value )
+        if ( std::is_signed< typename UnderlyingType< T >::type >::value )
         {
             // negative numbers are stored as 2-complement, and we need to remove upper bits
             value_to_store = masked< num_bits >( value_to_store );
-- 
2.43.0


From d00e1c975703e1b255859724fdde4953c5117e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 27/55] fix: out-of-bounds accesses when describing C++
 archives with a different schema

---
 flatdata-cpp/src/Archive.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 4fb7a83..5981bae 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -88,7 +88,7 @@ std::string
 create_context( const std::vector< std::string >& diff )
 {
     std::string result;
-    std::vector< bool > result_mask( diff.size( ) );
+    std::vector< bool > result_mask( diff.size( ) + 1 );
     size_t context_lines = 3;
 
     int lines_to_go = -1;
@@ -257,9 +257,14 @@ Archive::describe( size_t nest_level ) const
         result << ( is_root_node ? hline : empty )
                << "FATAL: Archive signature does not match software expectations."
                << ( is_root_node ? newl : empty ) << hline;
-        result << compute_diff(
-            schema( ),
-            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ).char_ptr( ) );
+        const auto found_schema
+            = m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) );
+        if ( found_schema )
+        {
+            // Stored schemas are not null-terminated
+            const std::string found( found_schema.char_ptr( ), found_schema.size_in_bytes( ) );
+            result << compute_diff( schema( ), found.c_str( ) );
+        }
         return result.str( );
     }
 
-- 
2.43.0


From a704d86a58606f695bcdec8febfed5f40362b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 28/55] fix: writing empty arrays of range structs in C++ must
 not read past their data

---
 flatdata-cpp/include/flatdata/ArrayView.h       |  2 +-
 .../include/flatdata/internal/ArrayView.inl     | 17 +++++++----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ArrayView.h b/flatdata-cpp/include/flatdata/ArrayView.h
index f24d2f7..4b328fb 100644
--- a/flatdata-cpp/include/flatdata/ArrayView.h
+++ b/flatdata-cpp/include/flatdata/ArrayView.h
@@ -52,7 +52,7 @@ private:
     ArrayView( ConstStreamType data, size_t size );
 
     ConstStreamType m_data;
-    size_t m_size;
+    size_t m_num_items;
 };
 
 }  // namespace flatdata
diff --git a/flatdata-cpp/include/flatdata/internal/ArrayView.inl b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
index 76c5a8f..10712ac 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayView.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
@@ -10,18 +10,14 @@ namespace flatdata
 template < typename T >
 ArrayView< T >::ArrayView( ConstStreamType data_begin, ConstStreamType data_end )
     : m_data( data_begin )
-    , m_size( ( data_end - data_begin ) / T::size_in_bytes( ) )
+    , m_num_items( ( data_end - data_begin ) / T::size_in_bytes( ) )
 {
-    if ( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )
-    {
-        m_size--;
-    }
 }
 
 template < typename T >
 ArrayView< T >::ArrayView( ConstStreamType data, size_t size )
     : m_data( data )
-    , m_size( size )
+    , m_num_items( size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) )
 {
 }
 
@@ -50,7 +46,7 @@ template < typename T >
 size_t
 ArrayView< T >::size_in_bytes( ) const
 {
-    return ( m_size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) ) * T::size_in_bytes( );
+    return m_num_items * T::size_in_bytes( );
 }
 
 template < typename T >
@@ -64,14 +60,15 @@ template < typename T >
 size_t
 ArrayView< T >::size( ) const
 {
-    return m_size;
+    // the last item of overlapping structs only provides the end of the previous one
+    return T::IS_OVERLAPPING_WITH_NEXT && m_num_items != 0 ? m_num_items - 1 : m_num_items;
 }
 
 template < typename T >
 bool
 ArrayView< T >::empty( ) const
 {
-    return m_size == 0;
+    return size( ) == 0;
 }
 
 template < typename T >
@@ -99,7 +96,7 @@ template < typename T >
 ArrayView< T >
 ArrayView< T >::slice_after( size_t pos ) const
 {
-    return ArrayView( m_data + pos * T::size_in_bytes( ), m_size - pos );
+    return ArrayView( m_data + pos * T::size_in_bytes( ), size( ) - pos );
 }
 
 template < typename T >
-- 
2.43.0


From 3e789803ba23518a6816a7cb0e4ed76f7ff9b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 29/55] fix: entries larger than the TAR file must not make the
 C++ TAR reader wrap around

---
 flatdata-cpp/src/TarReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 6a35034..1584075 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -151,6 +151,12 @@ read_tar_file_entries( MemoryDescriptor data )
             file.size = file_size;
             file_entries.emplace_back( file );
 
+            if ( file_size > data.size( ) - offset )
+            {
+                // Truncated entry, nothing can follow
+                break;
+            }
+
             const size_t padding = ( BLOCK_SIZE - ( file_size % BLOCK_SIZE ) ) % BLOCK_SIZE;
             offset += file_size + padding;
         }
-- 
2.43.0


From afe31d8e5e3fa0defc77b616fd422caf06ce2839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 30/55] fix: respect the name prefix of POSIX TAR entries in
 C++

---
 flatdata-cpp/src/TarReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 1584075..8e1d8c6 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -142,6 +142,14 @@ read_tar_file_entries( MemoryDescriptor data )
                 file_name = std::move( long_name );
                 long_name.clear( );
             }
+            else if ( std::memcmp( header.magic, "ustar", sizeof( header.magic ) ) == 0
+                      && header.prefix[ 0 ] != '\0' )
+            {
+                // POSIX TAR archives split long names
+                file_name = std::string( header.prefix,
+                                         strnlen( header.prefix, sizeof( header.prefix ) ) )
+                            + "/" + file_name;
+            }
 
             const size_t file_size = decode_numeric_field( header.size, sizeof( header.size ) );
 
-- 
2.43.0


From f0a267ca12bebf0515c56d5b5b7fc20539d36d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 31/55] fix: do not open instance resources in C++ which are
 too small for their structure

---
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 566668a..0957b38 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -27,7 +27,7 @@ struct ValueCreator
     operator( )( const char* resource, const char* schema, Loader&& loader )
     {
         auto data = loader( resource, schema );
-        if ( !data )
+        if ( !data || data.size_in_bytes( ) < T::size_in_bytes( ) )
         {
             return boost::none;
         }
-- 
2.43.0


From bf94dd5cce8fbda7637539bb0a7af58104e10dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 32/55] fix: let structures with signed enumerations of full
 width compile in C++

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 74c3514..585df96 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -39,16 +39,19 @@ struct Reader
     {
         bit_width = num_bits
     };
+    // enumerations of full width need a sign bit to be representable
+    static constexpr bool is_signed
+        = std::is_signed< T >::value || ( IsSigned< T >::value && num_bits == sizeof( T ) * 8 );
     enum : typename UnderlyingType< T >::type
     {
         max = bit_width == 0 ? 0
-                             : ( bit_width - std::is_signed< T >::value
+                             : ( bit_width - is_signed
                                          == sizeof( typename BitsToUnsigned< num_bits >::type ) * 8
                                      ? typename BitsToUnsigned< num_bits >::type( -1 )
                                      : ( typename BitsToUnsigned< num_bits >::type( 1 )
-                                         << ( bit_width - std::is_signed< T >::value ) )
+                                         << ( bit_width - is_signed ) )
                                            - 1 ),
-        min = bit_width == 0 || !std::is_signed< T >::value
+        min = bit_width == 0 || !is_signed
                   ? static_cast< typename UnderlyingType< T >::type >( 0 )
                   : static_cast< typename UnderlyingType< T >::type >( -max - 1 )
     };
-- 
2.43.0


From fec50df442c655a7e2ff6f7bd5c0d4637f228d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 33/55] fix: new elements of C++ vectors must not contain
 removed ones

---
 flatdata-cpp/include/flatdata/Vector.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/Vector.h b/flatdata-cpp/include/flatdata/Vector.h
index 20579bd..4a325b2 100644
--- a/flatdata-cpp/include/flatdata/Vector.h
+++ b/flatdata-cpp/include/flatdata/Vector.h
@@ -134,7 +134,13 @@ template < typename T >
 void
 Vector< T >::resize( size_t size )
 {
-    m_data.resize( size * T::size_in_bytes( ) + PADDING_SIZE );
+    const size_t bytes = size * T::size_in_bytes( );
+    if ( m_data.size( ) > bytes + PADDING_SIZE )
+    {
+        // the bytes of removed elements must not remain in the padding
+        m_data.resize( bytes );
+    }
+    m_data.resize( bytes + PADDING_SIZE );
 }
 
 template < typename T >
@@ -157,7 +163,7 @@ template < typename T >
 void
 Vector< T >::pop_back( )
 {
-    m_data.resize( m_data.size( ) - T::size_in_bytes( ) );
+    resize( size( ) - 1 );
 }
 
 template < typename T >
-- 
2.43.0


From 7c5b44c1c3fdd47164cec22868f73d753ca4b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 34/55] fix: repeating a failed close of a C++ multivector must
 not add an empty bucket

---
 flatdata-cpp/include/flatdata/MultiVector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 3d1ded1..b54907e 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -86,6 +86,7 @@ private:
 
     std::unique_ptr< ResourceHandle > m_handle;
     size_t m_size_flushed = 0;
+    bool m_closed = false;
 };
 
 // -------------------------------------------------------------------------------------------------
@@ -139,7 +140,11 @@ template < typename IndexType, typename... Args >
 typename MultiVector< IndexType, Args... >::View
 MultiVector< IndexType, Args... >::close( )
 {
-    add_to_index( );  // sentinel for last item
+    if ( !m_closed )
+    {
+        add_to_index( );  // sentinel for last item
+        m_closed = true;
+    }
     flush( );
 
     MemoryDescriptor data = m_handle ? m_handle->close( ) : MemoryDescriptor( );
-- 
2.43.0


From 31191ecc87f42ad24051bb0004311356d52821cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 35/55] fix: long names of TAR directories must not be given to
 the next file in C++

---
 flatdata-cpp/src/TarReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 8e1d8c6..c9f4080 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -170,7 +170,8 @@ read_tar_file_entries( MemoryDescriptor data )
         }
         else if ( header.typeflag == DIRTYPE )
         {
-            // Skip directories
+            // Skip directories, together with their long names
+            long_name.clear( );
         }
         else if ( header.typeflag == GNUTYPE_LONGNAME )
         {
-- 
2.43.0


From ad4fd36b57338a1db724a62226531f902c81121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 36/55] fix: schemas with nested namespace blocks, as stored in
 archives, must be parsable

---
 flatdata-generator/flatdata/generator/grammar.py  |  8 +++++---
 .../flatdata/generator/tree/builder.py            | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index 034c509..d9d60c7 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -8,7 +8,7 @@
 from pyparsing import (
     Word, alphas, alphanums, nums, cppStyleComment,
     Keyword, Group, Optional, Or, OneOrMore, delimitedList, ZeroOrMore,
-    hexnums, Combine, FollowedBy, ParseException as pyparsingParseException
+    hexnums, Combine, FollowedBy, Forward, ParseException as pyparsingParseException
 )
 
 ParseException = pyparsingParseException
@@ -195,11 +195,13 @@ flatdata_entry = (
 
 free_comments = Optional(OneOrMore(comment)("comment"))
 
-namespace = Group(
+namespace = Forward()
+namespace <<= Group(
     Keyword("namespace") +
     qualified_identifier("name") +
     "{" +
-    ZeroOrMore(flatdata_entry) + "}" +
+    ZeroOrMore(flatdata_entry |
+               namespace.setResultsName("namespaces", listAllMatches=True)) + "}" +
     Optional(comment)
 )
 
diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index bc53a9d..6b7e9af 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -79,6 +79,16 @@ def _merge_roots(roots):
     return result
 
 
+def _flatten_namespaces(namespaces, parent_path=""):
+    """
+    Yields path and definition of all namespaces, including the nested ones.
+    """
+    for namespace in namespaces:
+        path = parent_path + namespace.name
+        yield path, namespace
+        yield from _flatten_namespaces(namespace.namespaces, path + Node.PATH_SEPARATOR)
+
+
 def _build_node_tree(definition):
     if not definition:
         return Root()
@@ -91,9 +101,8 @@ def _build_node_tree(definition):
 
     roots = []
 
-    for namespace in parsed.namespace:
-        root_namespace, target_namespace = _create_nested_namespaces(
-            namespace.name)
+    for path, namespace in _flatten_namespaces(parsed.namespace):
+        root_namespace, target_namespace = _create_nested_namespaces(path)
 
         parsed_items = [
             (namespace.constants, nodes.Constant),
-- 
2.43.0


From f7c733795159adb2dcaac4d60955fef028839d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 37/55] fix: the inspector must not take an unreadable
 directory for a file and open its parent

---
 flatdata-py/flatdata/lib/inspector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/inspector.py b/flatdata-py/flatdata/lib/inspector.py
index 1250c15..ae79e9b 100755
--- a/flatdata-py/flatdata/lib/inspector.py
+++ b/flatdata-py/flatdata/lib/inspector.py
@@ -6,6 +6,7 @@
 import argparse
 import fnmatch
 import os
+import stat
 import sys
 
 import pandas as pd
@@ -43,8 +44,10 @@ def open_archive(path, archive=None, module_name=None):
     if not os.path.exists(path):
         raise RuntimeError("Specified non-existent path %s" % path)
 
-    is_tar = path.endswith(".tar") and not os.path.isdir(path)
-    archive_path = path if is_tar or os.path.isdir(path) \
+    # raises if that cannot be found out: taking a directory for a file means its parent directory
+    is_dir = stat.S_ISDIR(os.stat(path).st_mode)
+    is_tar = path.endswith(".tar") and not is_dir
+    archive_path = path if is_tar or is_dir \
         else os.path.dirname(os.path.abspath(path))
     if is_tar:
         storage = TarArchiveResourceStorage.create(archive_path)
-- 
2.43.0


From 8618c3a5692a2eee3b9ac54ab2820e6c2d281b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 38/55] fix: concurrent runs of the generator must not fail on
 creating their common output directory

---
 flatdata-generator/flatdata/generator/app.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/app.py b/flatdata-generator/flatdata/generator/app.py
index 1dc2601..ff496e9 100755
--- a/flatdata-generator/flatdata/generator/app.py
+++ b/flatdata-generator/flatdata/generator/app.py
@@ -79,8 +79,7 @@ def _run(args):
         sys.exit(1)
 
     dirname = os.path.dirname(os.path.abspath(args.output_file))
-    if not os.path.exists(dirname):
-        os.makedirs(dirname)
+    os.makedirs(dirname, exist_ok=True)
     with open(args.output_file, "w") as output:
         output.write(output_content)
         logging.info("Code for %s is written to %s", args.gen, args.output_file)
-- 
2.43.0


From 3938329bdeb46baa7d6a573abc17da5a9735b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 39/55] fix: the generator must not depend on the locale when
 reading schemas and writing code

---
 flatdata-generator/flatdata/generator/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/app.py b/flatdata-generator/flatdata/generator/app.py
index ff496e9..2d5250e 100755
--- a/flatdata-generator/flatdata/generator/app.py
+++ b/flatdata-generator/flatdata/generator/app.py
@@ -62,7 +62,7 @@ def _run(args):
     _setup_logging(args)
     _check_args(args)
 
-    with open(args.schema, 'r') as input_file:
+    with open(args.schema, 'r', encoding='utf-8') as input_file:
         schema = input_file.read()
         try:
             engine = Engine(schema)
@@ -80,7 +80,7 @@ def _run(args):
 
     dirname = os.path.dirname(os.path.abspath(args.output_file))
     os.makedirs(dirname, exist_ok=True)
-    with open(args.output_file, "w") as output:
+    with open(args.output_file, "w", encoding="utf-8") as output:
         output.write(output_content)
         logging.info("Code for %s is written to %s", args.gen, args.output_file)
 
-- 
2.43.0


From dbffb33683a9fa6f6ef2c48896326b2996238f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:12 +0000
Subject: [PATCH 40/55] fix: overwriting a Python archive must not present old
 data under a new schema

---
 flatdata-py/flatdata/lib/archive_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index 650ee80..119de01 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -259,12 +259,12 @@ class ArchiveBuilder:
         if name not in self._RESOURCES:
             raise UnknownResourceError(name)
 
-        if not self._resources_written.count(name):
-            self._write_schema(name)
-        else:
+        if self._resources_written.count(name):
             raise ResourceAlreadySetError()
 
+        # empties an existing file before its schema changes
         storage = self._resource_storage.get(name, False)
+        self._write_schema(name)
 
         if self._RESOURCES[name].container is Instance:
             self.__set_instance(storage, name, value)
-- 
2.43.0


From 82374e1e8fec1ae68ff8fcf3bd69c0b793a48b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 41/55] fix: Rust accessors must find the ninth byte of wide
 unaligned fields at any offset

---
 flatdata-rs/lib/src/bytereader.rs | 2 +-
 flatdata-rs/lib/src/bytewriter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 99376c5..5c39332 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -63,7 +63,7 @@ macro_rules! flatdata_read_bytes {
 
             let read_bits = num_bytes * 8 - bit_offset;
             if read_bits < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << read_bits % (num_bytes * 8);
             }
             result = flatdata_read_bytes!(@mask, result, $num_bits);
diff --git a/flatdata-rs/lib/src/bytewriter.rs b/flatdata-rs/lib/src/bytewriter.rs
index 2275e14..c931880 100644
--- a/flatdata-rs/lib/src/bytewriter.rs
+++ b/flatdata-rs/lib/src/bytewriter.rs
@@ -65,7 +65,7 @@ macro_rules! flatdata_write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes * 8);
             value_mask >>= batched_bits_written % (num_bytes * 8);
             unsafe {
-- 
2.43.0


From 3226bd9347a931c51313ad83fbe4c710d7bb531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:02 +0000
Subject: [PATCH 42/55] fix: unfinished streamed resources in Rust must not
 look like empty ones

---
 flatdata-rs/lib/src/storage.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index d3c4eab..6ac1f40 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -112,7 +112,7 @@ pub trait ResourceStorage: std::fmt::Debug {
         }
 
         let size = flatdata_read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
@@ -309,7 +309,9 @@ impl<'a> ResourceHandle<'a> {
         // Reserve space for size in the beginning of the stream, which will be updated
         // later.
         {
-            write_size(0u64, &mut stream)?;
+            // An impossible size makes sure that an incomplete resource is never mistaken for a
+            // complete one.
+            write_size(SizeType::MAX, &mut stream)?;
         }
         Ok(Self {
             stream,
-- 
2.43.0


From 4068a23d676f3c95ab9da77db9743ce1890da28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 43/55] fix: Rust file storage must not take I/O errors for
 missing resources

---
 flatdata-rs/lib/src/filestorage.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index 8e1e14d..4136d3d 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -74,18 +74,13 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-        self.path.join(resource_name).exists()
+        // A resource which cannot be checked must not be taken for a missing one, otherwise it
+        // could be overwritten.
+        self.path.join(resource_name).try_exists().unwrap_or(true)
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !resource_path.exists() {
-            return Err(io::Error::new(
-                io::ErrorKind::NotFound,
-                String::from(resource_path.to_str().unwrap_or(resource_name)),
-            ));
-        }
-
         match resource_path.to_str() {
             Some(p) => self.storage.read(p),
             None => Err(io::Error::new(
-- 
2.43.0


From ffaee7382ee6d8dc0945607da32ec3da435ecb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 44/55] fix: Rust TAR storage must answer truncated archives
 with an error

---
 flatdata-rs/lib/src/tarstorage.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flatdata-rs/lib/src/tarstorage.rs b/flatdata-rs/lib/src/tarstorage.rs
index 6809fc8..e7fb0c5 100644
--- a/flatdata-rs/lib/src/tarstorage.rs
+++ b/flatdata-rs/lib/src/tarstorage.rs
@@ -36,6 +36,15 @@ impl MemoryMappedTarArchiveStorage {
                 };
                 let offset = entry.raw_file_position() as usize;
                 let size = entry.size() as usize;
+                match offset.checked_add(size) {
+                    Some(end) if end <= archive_map.len() => {}
+                    _ => {
+                        return Err(io::Error::new(
+                            io::ErrorKind::UnexpectedEof,
+                            "Truncated tar archive",
+                        ))
+                    }
+                }
                 if entry.header().entry_size()? != entry.size() {
                     // We can only memory-map contiguous files
                     return Err(io::Error::new(
-- 
2.43.0


From 47a7d253c9b0f93f168480675caa35f10a0f96b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:30 +0000
Subject: [PATCH 45/55] fix: writing a resource again to the Rust memory
 storage must replace it

---
 flatdata-rs/lib/src/memstorage.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index 04fdee2..fc04165 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -143,14 +143,13 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Box<dyn Stream>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        // A new stream replaces what was written before
+        let stream = MemoryStorageStream::default();
+        self.storage
             .streams
             .lock()
             .unwrap()
-            .entry(resource_path)
-            .or_insert_with(|| Arc::new(Mutex::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(Box::new(StreamWrapper { stream }))
     }
 }
-- 
2.43.0


From 028a551002fe560d3a14b5b588045b83496259b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:41 +0000
Subject: [PATCH 46/55] fix: Rust file storage maps a resource once even if
 several threads read it first

---
 flatdata-rs/lib/src/filestorage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index 4136d3d..bb34063 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -19,12 +19,14 @@ struct MemoryMappedFileStorage {
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.lock().unwrap().contains_key(path) {
+        // Keep the lock until the mapping is stored, another thread must not replace it
+        let mut maps = self.maps.lock().unwrap();
+        if !maps.contains_key(path) {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.lock().unwrap().insert(path.into(), file_mmap);
+            maps.insert(path.into(), file_mmap);
         }
-        let data = &self.maps.lock().unwrap()[path];
+        let data = &maps[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From c3358b3b019dd384373f3f162243b9b9bfe39686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 47/55] fix: Rust memory storage reads a resource under one
 lock

---
 flatdata-rs/lib/src/memstorage.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index fc04165..e2ba43d 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -22,18 +22,17 @@ struct MemoryStorage {
 
 impl fmt::Debug for MemoryStorage {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        // Same order of locks as everywhere else
+        let resources = self.resources.lock().unwrap();
+        let streams = self.streams.lock().unwrap();
         write!(
             f,
             "MemoryStorage {{ streams: {:?}, resources: {:?} }}",
-            self.streams
-                .lock()
-                .unwrap()
+            streams
                 .iter()
                 .map(|(path, _)| path.display())
                 .collect::<Vec<_>>(),
-            self.resources
-                .lock()
-                .unwrap()
+            resources
                 .iter()
                 .map(|(path, _)| path.display())
                 .collect::<Vec<_>>(),
@@ -106,13 +105,9 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self
-            .storage
-            .resources
-            .lock()
-            .unwrap()
-            .contains_key(&resource_path)
-        {
+        // Keep the lock until the data is stored, another thread must not replace it
+        let mut resources = self.storage.resources.lock().unwrap();
+        if !resources.contains_key(&resource_path) {
             let streams = self.storage.streams.lock().unwrap();
             let stream = streams.get(&resource_path);
             match stream {
@@ -120,11 +115,7 @@ impl ResourceStorage for MemoryResourceStorage {
                     // Resource is not yet opened, but there is a stream it was written to
                     // => copy the stream as resource data.
                     let data = Arc::new(stream.lock().unwrap().get_ref().clone());
-                    self.storage
-                        .resources
-                        .lock()
-                        .unwrap()
-                        .insert(resource_path.clone(), data);
+                    resources.insert(resource_path.clone(), data);
                 }
                 None => {
                     return Err(io::Error::new(
@@ -134,7 +125,7 @@ impl ResourceStorage for MemoryResourceStorage {
                 }
             }
         }
-        let data = &self.storage.resources.lock().unwrap()[&resource_path];
+        let data = &resources[&resource_path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From d2285441fd412b0347c7e5d980ebeb7529990bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 48/55] fix: C++ TAR reader shows the last of several members
 with the same name

---
 .../include/flatdata/MemoryMappedTarFileStorage.h        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
index cb2da3b..65e241a 100644
--- a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
@@ -62,11 +62,10 @@ inline MemoryMappedTarFileStorage::MemoryMappedTarFileStorage( const char* tar_p
     for ( const auto& file : file_entries )
     {
         std::string path = file.name.substr( 0, 2 ) == "./" ? file.name.substr( 2 ) : file.name;
-        m_files.emplace(
-            std::move( path ),
-            MemoryDescriptor(
-                static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
-                std::min( file.size, m_region.get_size( ) - file.offset ) ) );
+        // Files can be updated by appending, the last one counts
+        m_files[ path ] = MemoryDescriptor(
+            static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
+            std::min( file.size, m_region.get_size( ) - file.offset ) );
     }
 }
 
-- 
2.43.0


From 42a078c4f2c00422376e41d12ad2d481924caccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 49/55] fix: limited numpy arrays and data frames of Python
 vector slices have no rows beyond the slice

---
 flatdata-py/flatdata/lib/resources.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 6aada6b..8115bb1 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -64,14 +64,15 @@ class _VectorSlice:
         self._sequence = sequence
 
     def to_numpy(self, limit=None):
-        indices = self._slice.indices(len(self._sequence))
-        num_items = len(range(*indices)) if not limit else limit
+        indices = range(*self._slice.indices(len(self._sequence)))
+        if limit:
+            indices = indices[:limit]
         result = np.empty(
-            shape=num_items,
+            shape=len(indices),
             dtype=self._sequence._element_type.dtype()
         )
-        for index, item in enumerate(self):
-            result[index] = item.as_tuple()
+        for index, position in enumerate(indices):
+            result[index] = self._sequence[position].as_tuple()
         return result
 
     def to_data_frame(self, limit=None):
-- 
2.43.0


From c6543385c6db55b01f98eb7ec86750f55fa00620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 50/55] fix: Python multivectors support negative indices

---
 flatdata-py/flatdata/lib/resources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 8115bb1..0c0b203 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -161,6 +161,11 @@ class Multivector(ResourceBase):
         if isinstance(index, slice):
             return _MultivectorSlice(index, self)
 
+        if index < 0:
+            index += len(self)
+        if index >= len(self) or index < 0:
+            raise IndexError("Multivector access out of bounds: " + str(index))
+
         offset = self._bucket_offset(index)
         next_offset = self._bucket_offset(index + 1)
         elements = []
-- 
2.43.0


From 5726c6e167d583a773c7d4ef1a698082d738c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:04 +0000
Subject: [PATCH 51/55] fix: indices and slices of Python raw data stay within
 the data

---
 flatdata-py/flatdata/lib/resources.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 0c0b203..811af43 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -194,25 +194,31 @@ class RawData(ResourceBase):
 
     def __getitem__(self, item):
         if isinstance(item, slice):
-            return self._mem[
-                slice(item.start + SIZE_OFFSET_IN_BYTES,
-                      (item.stop + SIZE_OFFSET_IN_BYTES) if item.stop is not None else None,
-                      item.step)
-            ]
+            return self._mem[SIZE_OFFSET_IN_BYTES:SIZE_OFFSET_IN_BYTES + len(self)][item]
+
+        if item < 0:
+            item += len(self)
+        if item >= len(self) or item < 0:
+            raise IndexError("RawData access out of bounds: " + str(item))
         return self._mem[item + SIZE_OFFSET_IN_BYTES:item + SIZE_OFFSET_IN_BYTES + 1]
 
+    def _matches(self, index, text):
+        # the text may extend into the padding
+        offset = index + SIZE_OFFSET_IN_BYTES
+        return self._mem[offset:offset + len(text)] == text
+
     def sub_str(self, index, separator = b'\0'):
         for i in range(index, len(self)):
-            if self[i:i + len(separator)] == separator:
+            if self._matches(i, separator):
                 return bytes(self[index:i]).decode("utf-8")
         return bytes(self[index]).decode("utf-8")
 
     def sub_str_list(self, index, separator = b'\0', list_separator = b'\0\0'):
         result = []
         for i in range(index, len(self)):
-            if index == i and self[i:i + len(list_separator)] == list_separator:
+            if index == i and self._matches(i, list_separator):
                 break
-            if self[i:i + len(separator)] == separator:
+            if self._matches(i, separator):
                 result.append(bytes(self[index:i]).decode("utf-8"))
                 index = i + 1
         return result
@@ -220,7 +226,7 @@ class RawData(ResourceBase):
     def sub_str_array(self, index, size, separator = b'\0'):
         result = []
         for i in range(index, len(self)):
-            if self[i:i + len(separator)] == separator:
+            if self._matches(i, separator):
                 result.append(bytes(self[index:i]).decode("utf-8"))
                 index = i + 1
                 if len(result) == size:
-- 
2.43.0


From c9738ed07f7e0c5f4b0b7c3c0b67604ec69288bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:39 +0000
Subject: [PATCH 52/55] fix: Rust documentation of schema comments whose lines
 do not start with an asterisk

Such lines ended up as code in the generated Rust module, which did not
compile.
---
 flatdata-generator/flatdata/generator/generators/rust.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index 7751fee..7d62727 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -58,6 +58,12 @@ class RustGenerator(BaseGenerator):
                        r"/// \2", line).strip()
                 for line in expr.split('\n')
             ]
+            # lines of a comment do not need to start with an asterisk
+            lines = [
+                line if line.startswith("//") and not line.startswith("//!")
+                else ("/// " + line.replace("//!", "", 1).lstrip()).rstrip()
+                for line in lines
+            ]
             start = 0
             end = len(lines)
             if lines[0] == "///":
-- 
2.43.0


From da484a911b559fc5d0f959c56dd770cd95e49967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:09 +0000
Subject: [PATCH 53/55] fix: distance between C++ array iterators to an earlier
 position is negative

---
 flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
index 7862702..6acf28b 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
@@ -98,7 +98,7 @@ template < typename T >
 typename ArrayViewIterator< T >::difference_type
 ArrayViewIterator< T >::operator-( const ArrayViewIterator& other ) const
 {
-    return ( m_ptr - other.m_ptr ) / T::size_in_bytes( );
+    return ( m_ptr - other.m_ptr ) / static_cast< difference_type >( T::size_in_bytes( ) );
 }
 
 template < typename T >
-- 
2.43.0


From d350ab00c5638b4a6e63ca5963d5b80c4fee07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:15 +0000
Subject: [PATCH 54/55] fix: Rust generate() placed outputs at the wrong path
 when the schema folder's status was unavailable

---
 flatdata-rs/lib/src/generator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/generator.rs b/flatdata-rs/lib/src/generator.rs
index 7e75053..b66981f 100644
--- a/flatdata-rs/lib/src/generator.rs
+++ b/flatdata-rs/lib/src/generator.rs
@@ -114,7 +114,9 @@ pub fn generate(
             continue;
         }
 
-        let result: PathBuf = if schemas_path.is_dir() {
+        // anything below the root was found in a folder of schemas, asking the file system
+        // again might fail
+        let result: PathBuf = if entry.depth() > 0 {
             out_dir
                 .join(entry.path().strip_prefix(schemas_path).unwrap())
                 .with_extension("rs")
-- 
2.43.0


From 7136c580cdd5ba14466e0fcb17087a2cc52dcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:19 +0000
Subject: [PATCH 55/55] fix: Rust generate() took directories with the
 extension flatdata for schemas

---
 flatdata-rs/lib/src/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/generator.rs b/flatdata-rs/lib/src/generator.rs
index b66981f..575434c 100644
--- a/flatdata-rs/lib/src/generator.rs
+++ b/flatdata-rs/lib/src/generator.rs
@@ -110,7 +110,8 @@ pub fn generate(
 
     for entry in walkdir::WalkDir::new(schemas_path) {
         let entry = entry?;
-        if entry.path().extension().map_or(true, |x| x != "flatdata") {
+        if entry.file_type().is_dir() || entry.path().extension().map_or(true, |x| x != "flatdata")
+        {
             continue;
         }
 
-- 
2.43.0

