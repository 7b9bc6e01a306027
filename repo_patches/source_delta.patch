From 63f2a8f9203709426827301173d8138838f4b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 01/28] fix: remember weights in memory per inventory they came
 from

---
 src/earthkit/regrid/backends/db.py    | 1 +
 src/earthkit/regrid/utils/memcache.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 79d4c29..5bd30a9 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -473,6 +473,7 @@ class MatrixDb:
             create=self._create_matrix,
             find_entry=self.find_entry,
             create_from_entry=self._create_matrix_from_entry,
+            source=str(self.matrix_source()),
             **kwargs,
         )
 
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index d65dd4b..239be2e 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -220,7 +220,7 @@ class MemoryCache:
         self.lock = threading.Lock()
         self.update()
 
-    def get(self, *args, create=None, find_entry=None, create_from_entry=None):
+    def get(self, *args, create=None, find_entry=None, create_from_entry=None, source=None):
         if not self.policy.has_cache():
             return create(*args)
 
@@ -228,7 +228,7 @@ class MemoryCache:
             if not self.policy.has_cache():
                 return create(*args)
 
-            key = make_sha(args)
+            key = make_sha((source, *args))
             if key in self.items:
                 item = self.items[key]
                 # TODO: move_to_end is only required for the "lru" policy
-- 
2.43.0


From 47d0320df40928b4f83367217ddff91f1277926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 02/28] fix: report an unset memory limit as ValueError for
 limited policies

---
 src/earthkit/regrid/utils/memcache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 239be2e..ee528e7 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -114,10 +114,10 @@ class LRUPolicy(MemoryCachePolicy):
     name = "lru"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
@@ -142,10 +142,10 @@ class LargestPolicy(MemoryCachePolicy):
     name = "largest"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
-- 
2.43.0


From 1b5c251fe3cfaea2372dbfa91a3f9edd37ce14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 03/28] fix: say whether an inventory is local

---
 src/earthkit/regrid/backends/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 5bd30a9..046d89c 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -105,7 +105,7 @@ class UrlAccessor(MatrixAccessor):
         return self._url
 
     def is_local(self):
-        False
+        return False
 
     def checked_remote(self):
         return self._checked_remote
@@ -279,7 +279,7 @@ class LocalAccessor(MatrixAccessor):
         return self._path
 
     def is_local(self):
-        True
+        return True
 
     def index_path(self):
         return os.path.join(self._path, _INDEX_FILENAME)
-- 
2.43.0


From eef97084928955ae094eb423580e54556913b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 04/28] fix: keep no half-loaded matrix index when loading
 fails

---
 src/earthkit/regrid/backends/db.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 046d89c..f298d9c 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -439,9 +439,9 @@ class MatrixDb:
         return self._index
 
     def _load_index(self):
-        self._index = MatrixIndex()
-        path = self._accessor.index_path()
-        self._index.load(path)
+        index = MatrixIndex()
+        index.load(self._accessor.index_path())
+        self._index = index
 
     def _method_alias(self, method):
         for k, v in _METHOD_ALIAS.items():
-- 
2.43.0


From b8681fed8f70f6b21541f7d5de707b98941e2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 05/28] fix: honour temporary-directory-root with cache policy
 off

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 582b31e..e4a52dd 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -564,6 +564,7 @@ class CachePolicy(metaclass=ABCMeta):
         "cache-policy",
         "user-cache-directory",
         "temporary-cache-directory-root",
+        "temporary-directory-root",
         "maximum-cache-disk-usage",
         "maximum-cache-size",
     ]
-- 
2.43.0


From 073366c6904430709ab7afa224f94b44d952489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 06/28] fix: do not take files next to the cache directory for
 cached files

---
 src/earthkit/regrid/utils/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index e4a52dd..b3c2652 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -625,7 +625,7 @@ class CachePolicy(metaclass=ABCMeta):
         pass
 
     def file_in_cache_directory(self, path):
-        return path.startswith(self.directory())
+        return path.startswith(os.path.join(self.directory(), ""))
 
     @staticmethod
     def _expand_path(path):
-- 
2.43.0


From d349876b5789773edb19cac1804a4b9f869685a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 07/28] fix: count cache entries whose size is not known yet

---
 src/earthkit/regrid/utils/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index b3c2652..acdc81a 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -555,7 +555,7 @@ class CacheManager(threading.Thread):
         count = len(result)
         size = 0
         for r in result:
-            size += r.get("size", 0)
+            size += r.get("size") or 0
         return count, size
 
 
-- 
2.43.0


From d91ed068bdff2c1527fb1b3fd0928a4c66357e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 08/28] fix: purge empty cached files too

---
 src/earthkit/regrid/utils/caching.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index acdc81a..94dff97 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -204,8 +204,7 @@ class CacheManager(threading.Thread):
         if matcher is None:
             self._housekeeping(clean=True)
             # _update_cache(clean=True)
-            self._decache(self._cache_size(), purge=True)
-            return
+            matcher = lambda entry: entry["size"] is not None  # noqa: E731
 
         dump = self._dump_cache_database(matcher)
         for entry in dump:
-- 
2.43.0


From c2f9d8a396ffc5f2ea1800fd22f21867e69244da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 09/28] fix: return the path of local files instead of None

---
 src/earthkit/regrid/utils/download.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 9049f47..205fc11 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -68,7 +68,7 @@ def download_and_cache(
 
     path = downloader.local_path()
     if path is not None:
-        return
+        return path
 
     def out_of_date(url, path, cache_data):
         if CONFIG.get("check-out-of-date-urls") is False:
-- 
2.43.0


From 107e05033b77bbb79e172be3ca7d7fc8dd935893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 10/28] fix: undo a temporary configuration that an observer
 rejects

---
 src/earthkit/regrid/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 71823f0..bc62c3d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -232,8 +232,8 @@ for k, v in CONFIG_AND_HELP.items():
 def new_config(s):
     """Context manager to create new config"""
     CONFIG._stack.append(s)
-    CONFIG._notify()
     try:
+        CONFIG._notify()
         yield None
     finally:
         CONFIG._stack.pop()
-- 
2.43.0


From db7409dc99db711b47be0f8fc64ff031deeb15c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 11/28] fix: pass the interpolation options on to MIR for
 arrays

---
 src/earthkit/regrid/backends/mir.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 98fb6a0..6e799f7 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -61,14 +61,17 @@ class MirBackend(Backend):
             "nclosest": nclosest,
         }
 
-        out_grid, kwargs = self.adjust_options(out_grid, {})
+        if nearest_method == "automatic":
+            # left to MIR, which has no method of this name
+            kwargs.pop("nearest_method")
+
+        out_grid, kwargs = self.adjust_options(out_grid, kwargs)
 
         input = mir.ArrayInput(values, in_grid)
         out = mir.ArrayOutput()
 
         job = mir.Job()
         job.set("grid", out_grid)
-        job.set("interpolation", interpolation)  # NOTE: needs generalisation
         for k, v in kwargs.items():
             job.set(k, v)
 
-- 
2.43.0


From d6ad4e433bd5de11a6df09873f3657932ff43c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 12/28] fix: read boolean options from text such as environment
 variables

---
 src/earthkit/regrid/utils/config.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index bc62c3d..7fe75cd 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -319,7 +319,9 @@ class Config:
             config_item.getter,
             config_item.none_ok,
         )
-        if getter is None:
+        if getter is None and config_item.kind is bool:
+            getter = lambda name, value, none_ok: self._as_bool(name, value)  # noqa: E731
+        elif getter is None:
             getter = lambda name, value, none_ok: value  # noqa: E731
         else:
             getter = getattr(self, getter)
@@ -388,7 +390,7 @@ class Config:
             assert len(args) == 1
             assert len(kwargs) == 0
             value = args[0]
-            value = klass(value)
+            value = self._as_bool(name, value) if klass is bool else klass(value)
 
         if klass is list:
             assert len(args) > 0
@@ -533,6 +535,16 @@ class Config:
                 exc_info=True,
             )
 
+    def _as_bool(self, name, value):
+        if not isinstance(value, str):
+            return bool(value)
+        v = value.strip().lower()
+        if v in ("1", "true", "yes", "on"):
+            return True
+        if v in ("", "0", "false", "no", "off"):
+            return False
+        raise ValueError(f"Config option '{name}' must be a boolean, not '{value}'")
+
     def _as_bytes(self, name, value, none_ok):
         return as_bytes(value, name=name, none_ok=none_ok)
 
-- 
2.43.0


From 51605492a565bef48fff3292d15ef180cbfb8963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 13/28] fix: set several options together or not at all

---
 src/earthkit/regrid/utils/config.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 7fe75cd..b7ccb3e 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -346,17 +346,20 @@ class Config:
             value: [type]
                 [description]
         """
-        if len(args) == 0:
-            assert len(kwargs) > 0
-            for k, v in kwargs.items():
-                self._set(k.replace("_", "-"), v)
-            self._changed()
-        else:
-            if len(args) == 1 and isinstance(args[0], dict):
+        config = dict(self._config)
+        try:
+            if len(args) == 0:
+                assert len(kwargs) > 0
+                for k, v in kwargs.items():
+                    self._set(k.replace("_", "-"), v)
+            elif len(args) == 1 and isinstance(args[0], dict):
                 for k, v in args[0].items():
                     self._set(k, v)
             else:
                 self._set(*args, **kwargs)
+        except Exception:
+            self._config = config
+            raise
         self._changed()
 
     def _set(self, name: str, *args, **kwargs):
-- 
2.43.0


From 570c74fe8853eb8c094242559784770aba202bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 14/28] fix: replace the configuration file in one step

---
 src/earthkit/regrid/utils/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index b7ccb3e..1c65bcf 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -256,7 +256,9 @@ def save_config(path, config):
 
     lock = path + ".lock"
     with FileLock(lock):
-        with open(path, "w") as f:
+        target = os.path.realpath(path)
+        tmp = target + ".tmp"
+        with open(tmp, "w") as f:
             print("# This file is automatically generated", file=f)
             print(file=f)
 
@@ -273,6 +275,7 @@ def save_config(path, config):
             print(file=f)
             yaml.dump({"version": VERSION}, f, default_flow_style=False)
             print(file=f)
+        os.replace(tmp, target)
     try:
         os.unlink(lock)
     except OSError:
-- 
2.43.0


From 4332ea7e8eb76c17fc70528e77994e51080a516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 15/28] fix: require the target grid for GRIB messages

---
 src/earthkit/regrid/data/grib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/earthkit/regrid/data/grib.py b/src/earthkit/regrid/data/grib.py
index 6b9ab2b..5350ce9 100644
--- a/src/earthkit/regrid/data/grib.py
+++ b/src/earthkit/regrid/data/grib.py
@@ -28,6 +28,8 @@ class GribMessageDataHandler(DataHandler):
         return False
 
     def regrid(self, values, **kwargs):
+        if kwargs.get("grid") is None:
+            raise ValueError("Missing 'grid' keyword argument")
         backend = self.backend_from_kwargs(kwargs)
         if hasattr(backend, "regrid_grib"):
             if not isinstance(values, bytes):
-- 
2.43.0


From 53f58c7857a3766a65ed24494d4f73349de58509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 16/28] fix: convert cached MIR matrices given a target path as
 text

---
 src/earthkit/regrid/utils/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 1b70467..b6a6c6a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -66,7 +66,7 @@ def mir_cached_matrix_to_array(path):
 
 
 def mir_cached_matrix_to_file(path, target):
-    if not target.suffix == ".npz":
+    if not Path(target).suffix == ".npz":
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-- 
2.43.0


From c0e8431c9d5bedc9efae23e2215cfe35fe1fe134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 17/28] fix: return the matrix when no output file is asked for

---
 src/earthkit/regrid/utils/mir.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index b6a6c6a..6bdfda5 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -10,6 +10,7 @@
 #
 
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import Dict
 from typing import List
 from typing import Optional
@@ -143,8 +144,13 @@ def mir_make_matrix(
     else:
         raise ValueError("mir_make_matrix: output grid or lats/lons must be provided.")
 
-    mat = Path(output)
-    if ext == ".mat":
+    tmp = None
+    if output is not None:
+        mat = Path(output)
+    else:
+        tmp = TemporaryDirectory()
+        mat = Path(tmp.name) / "matrix.mat"
+    if ext is None or ext == ".mat":
         job.set("interpolation-matrix", str(mat))
     elif ext == ".npz":
         mat = mat.with_name(mat.name + ".mat")  # later unlinked
@@ -158,7 +164,7 @@ def mir_make_matrix(
     except Exception as e:
         raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
 
-    if ext and not mat.exists():
+    if not mat.exists():
         raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
 
     if ext == ".npz":
-- 
2.43.0


From 391ce456d6b054ab1ad6d36962f4c316f6558659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 18/28] fix: name griddef files after all their coordinates

---
 src/earthkit/regrid/utils/mir.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 6bdfda5..bf8b7d2 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -9,6 +9,7 @@
 # nor does it submit to any jurisdiction.
 #
 
+import os
 from pathlib import Path
 from tempfile import TemporaryDirectory
 from typing import Dict
@@ -99,15 +100,19 @@ def _griddef_from_latlon(lat, lon, dir=None):
     import hashlib
 
     version = 1
-    coord = str(version) + str(lat) + str(lon)
-    hash = hashlib.md5(coord.encode()).hexdigest()
+    m = hashlib.md5()
+    m.update(str((version, len(lat), len(lon))).encode())
+    for coord in (lat, lon):
+        m.update(np.asarray(coord, dtype="<f8").tobytes())
 
-    name = Path(hash + ".griddef")
+    name = Path(m.hexdigest() + ".griddef")
     if dir:
         name = dir / name
 
     if not name.exists():
-        mir_write_latlon_to_griddef(name, lat, lon)
+        tmp = name.with_name(f"{name.name}.{os.getpid()}.tmp")
+        mir_write_latlon_to_griddef(tmp, lat, lon)
+        os.replace(tmp, name)
 
     return str(name)
 
-- 
2.43.0


From a146d0c6087b0d2c15036077bdb6a2d05222fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 19/28] fix: write whole long long values to streams

---
 src/earthkit/regrid/utils/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/stream.py b/src/earthkit/regrid/utils/stream.py
index 66c85a8..89b6b95 100644
--- a/src/earthkit/regrid/utils/stream.py
+++ b/src/earthkit/regrid/utils/stream.py
@@ -56,6 +56,8 @@ TAG_NAME = (
     "exception",
     "start of record",
     "end of record",
+    "end of file",
+    "large blob",
 )
 
 
@@ -146,7 +148,7 @@ class Stream:
         # TODO Error handling when the number is too long.
         # TODO See the perl.
 
-        self._write(pack("!L", n), 4)
+        self._write(pack("!q", n), 8)
 
     def write_unsigned_long_long(self, n):
         self.write_tag(TAG_UNSIGNED_LONG_LONG)
-- 
2.43.0


From 15870a57838fc6269f198bb66fe939e171be979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 20/28] fix: compare grids that are unequal consistently

---
 src/earthkit/regrid/gridspec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 0a87c03..25e87c3 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -96,6 +96,9 @@ class GridSpec(dict):
                 return False
         return True
 
+    def __ne__(self, o):
+        return not self == o
+
     @staticmethod
     def compare_key(key, v1, v2):
         if isinstance(v1, str) and isinstance(v2, str):
-- 
2.43.0


From c4b2f43641483327a1b5c58a865735c9c2fc7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 21/28] fix: regrid GRIB messages with nearest neighbour
 methods

---
 src/earthkit/regrid/backends/mir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 6e799f7..f9e84fb 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -102,6 +102,10 @@ class MirBackend(Backend):
             "nclosest": nclosest,
         }
 
+        if nearest_method == "automatic":
+            # left to MIR, which has no method of this name
+            kwargs.pop("nearest_method")
+
         out_grid, kwargs = self.adjust_options(grid, kwargs)
 
         in_data = mir.GribMemoryInput(message)
-- 
2.43.0


From edfc89c05667f448edbe41a78d2951be0bff0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 22/28] fix: forget cache entries whose creation failed

---
 src/earthkit/regrid/utils/caching.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 94dff97..d5cd006 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1019,8 +1019,13 @@ def cache_file(
             lock = path + ".lock"
             with FileLock(lock):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
-                    owner_data = create(path + ".tmp", args)
-                    os.rename(path + ".tmp", path)
+                    try:
+                        owner_data = create(path + ".tmp", args)
+                        os.rename(path + ".tmp", path)
+                    except Exception:
+                        # An unfinished entry would keep all the newer ones from being evicted
+                        CACHE._decache_file(path)
+                        raise
                     LOG.info(f"cache file created: {path=}")
                     CACHE._update_entry(path, owner_data)
                     CACHE.check_size()
-- 
2.43.0


From 9b2f877f2c5dfda54404533f528d894ce400ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 23/28] fix: ask a remote inventory only once when nothing is
 cached

---
 src/earthkit/regrid/backends/db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index f298d9c..73d2970 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -116,6 +116,8 @@ class UrlAccessor(MatrixAccessor):
 
     def reload(self, force=False):
         self._index_path = self._get_index(check_remote=True, force=force)
+        # also when nothing was cached, so there was nothing to compare with
+        self._checked_remote = True
 
     def index_path(self):
         if self._index_path is None or not os.path.exists(self._index_path):
-- 
2.43.0


From bf47f9fb5e7edd0879026e5d12fde2df5d66ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 24/28] fix: take only constant rows and columns for
 coordinates

---
 src/earthkit/regrid/data/xarray.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 08fde0c..dca0823 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -64,8 +64,7 @@ class GridWrapper:
         if rows > 0:
             for i in range(rows):
                 vals = lats[i, :]
-                delta = np.diff(vals)
-                if np.allclose(delta, delta[0]):
+                if np.allclose(vals, vals[0]):
                     r[i] = vals[0]
                 else:
                     return None
@@ -82,8 +81,7 @@ class GridWrapper:
         if cols > 0:
             for i in range(cols):
                 vals = lons[:, i]
-                delta = np.diff(vals)
-                if np.allclose(delta, delta[0]):
+                if np.allclose(vals, vals[0]):
                     r[i] = vals[0]
                 else:
                     return None
-- 
2.43.0


From 22c0e987b2bb41dd615639b140e3f6f731a088d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 25/28] fix: show negative sizes with a unit

---
 src/earthkit/regrid/utils/humanize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/humanize.py b/src/earthkit/regrid/utils/humanize.py
index 5b8a4f8..51f04f8 100644
--- a/src/earthkit/regrid/utils/humanize.py
+++ b/src/earthkit/regrid/utils/humanize.py
@@ -18,7 +18,7 @@ def bytes(n):
     """
     if n < 0:
         sign = "-"
-        n -= 0
+        n = -n
     else:
         sign = ""
 
-- 
2.43.0


From 8cab2c4ee5664a7fc3cb658452764436a74b3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 26/28] fix: do not take a band of a reduced Gaussian grid for
 the whole globe

---
 src/earthkit/regrid/gridspec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 25e87c3..af19d35 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -323,7 +323,10 @@ class ReducedGGGridSpec(GridSpec):
 
     def is_global_ns(self):
         if self._global_ns is None:
-            self._global_ns = True
+            # only the first and the last row are closer than this to a pole
+            eps = 90 / self.N
+            north, south = self["area"][0], self["area"][2]
+            self._global_ns = 90 - north < eps and south + 90 < eps
         return self._global_ns
 
     def _inspect_grid(self):
-- 
2.43.0


From 64151d1e3b2bd4f9dba744986eac0545d087c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 27/28] fix: put the file creation mask back when the config
 directory cannot be made

---
 src/earthkit/regrid/utils/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 1c65bcf..03bd649 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -658,8 +658,10 @@ def _init_config_file():
         config_dir = os.path.dirname(config_file)
         if not os.path.exists(config_dir):
             ori_mask = os.umask(0o077)
-            os.makedirs(config_dir, 0o700)
-            os.umask(ori_mask)
+            try:
+                os.makedirs(config_dir, 0o700)
+            finally:
+                os.umask(ori_mask)
     except Exception:
         LOG.error(
             f"Cannot create earthkit-regrid config directory={config_dir}",
-- 
2.43.0


From 3851d453d9f886e5b5b20d34a5ce9f0ac49b845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 28/28] fix: do not take names that only start like a grid for
 that grid

---
 src/earthkit/regrid/gridspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index af19d35..d434057 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -18,8 +18,8 @@ FULL_GLOBE = 360.0
 FULL_GLOBE_EPS = 1e-8
 DEGREE_EPS = 1e-8
 
-HEALPIX_PATTERN = re.compile(r"[Hh]\d+")
-RGG_PATTERN = re.compile(r"[OoNn]\d+")
+HEALPIX_PATTERN = re.compile(r"^[Hh]\d+$")
+RGG_PATTERN = re.compile(r"^[OoNn]\d+$")
 ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUV]$")
 
 
-- 
2.43.0

