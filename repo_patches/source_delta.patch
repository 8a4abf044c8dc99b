From 8afc1d2248fde6ab9f755e4101085de7f3a99443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 01/60] fix: keep weights of different inventories apart in the
 memory cache

The key of the in-memory cache only contained the grids and the method, so
after using one inventory the same request against another inventory was
answered with the weights of the first.
---
 src/earthkit/regrid/backends/db.py    | 1 +
 src/earthkit/regrid/utils/memcache.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 79d4c29..5bd30a9 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -473,6 +473,7 @@ class MatrixDb:
             create=self._create_matrix,
             find_entry=self.find_entry,
             create_from_entry=self._create_matrix_from_entry,
+            source=str(self.matrix_source()),
             **kwargs,
         )
 
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index d65dd4b..27a0885 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -220,7 +220,7 @@ class MemoryCache:
         self.lock = threading.Lock()
         self.update()
 
-    def get(self, *args, create=None, find_entry=None, create_from_entry=None):
+    def get(self, *args, create=None, find_entry=None, create_from_entry=None, source=None):
         if not self.policy.has_cache():
             return create(*args)
 
@@ -228,7 +228,8 @@ class MemoryCache:
             if not self.policy.has_cache():
                 return create(*args)
 
-            key = make_sha(args)
+            # the same request can refer to different weights in different sources (inventories)
+            key = make_sha([source, args])
             if key in self.items:
                 item = self.items[key]
                 # TODO: move_to_end is only required for the "lru" policy
-- 
2.43.0


From 52ea68136d63e990dc2ee9708cc4148450e7de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 02/60] fix: publish the inventory index only when it is fully
 loaded

The index was assigned before it was filled, so another thread could look up
a partially loaded index, and a failed load left an empty index behind.
---
 src/earthkit/regrid/backends/db.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 5bd30a9..72565e4 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -439,9 +439,11 @@ class MatrixDb:
         return self._index
 
     def _load_index(self):
-        self._index = MatrixIndex()
+        # the index must only become visible when it is fully loaded
+        index = MatrixIndex()
         path = self._accessor.index_path()
-        self._index.load(path)
+        index.load(path)
+        self._index = index
 
     def _method_alias(self, method):
         for k, v in _METHOD_ALIAS.items():
-- 
2.43.0


From 74e34a9ed0048afb3dc1c5492864f740614dc837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 03/60] fix: report an unset memory cache size limit with the
 intended error

The policies compared the limit with 0 before testing it for None, so None was
answered with a TypeError.
---
 src/earthkit/regrid/utils/memcache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 27a0885..bd209ec 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -114,10 +114,10 @@ class LRUPolicy(MemoryCachePolicy):
     name = "lru"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
@@ -142,10 +142,10 @@ class LargestPolicy(MemoryCachePolicy):
     name = "largest"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
-- 
2.43.0


From 670833631e41bd9b9ff39f68e4266f602003c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 04/60] fix: leave the temporary config when entering it fails

When an observer rejected the values of a temporary config the config stayed
on the stack, so all later config calls were made on it.
---
 src/earthkit/regrid/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 71823f0..bc62c3d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -232,8 +232,8 @@ for k, v in CONFIG_AND_HELP.items():
 def new_config(s):
     """Context manager to create new config"""
     CONFIG._stack.append(s)
-    CONFIG._notify()
     try:
+        CONFIG._notify()
         yield None
     finally:
         CONFIG._stack.pop()
-- 
2.43.0


From 2730af9985ef3f13563ed6cf486e4df2e19b30b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 05/60] fix: a rejected config change leaves the config as it
 was

Values rejected after they were stored (the later one of several options, or
an option rejected by an observer) stayed in the config and were saved to the
config file. A saved maximum-weights-memory-cache-size of 0 made the next import
of earthkit.regrid fail.
---
 src/earthkit/regrid/utils/config.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index bc62c3d..bac48cd 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -250,6 +250,23 @@ def forward(func):
     return wrapped
 
 
+def rollback_on_error(func):
+    """Restore the config when the new values are rejected by the validation or by an observer"""
+
+    @functools.wraps(func)
+    def wrapped(self, *args, **kwargs):
+        previous = dict(**self._config)
+        try:
+            return func(self, *args, **kwargs)
+        except Exception:
+            if self._config != previous:
+                self._config = previous
+                self._notify()
+            raise
+
+    return wrapped
+
+
 def save_config(path, config):
     LOG.debug("Saving config")
     from filelock import FileLock
@@ -334,6 +351,7 @@ class Config:
         return getter(name, value, none_ok)
 
     @forward
+    @rollback_on_error
     def set(self, *args, **kwargs):
         """[summary]
 
@@ -427,6 +445,7 @@ class Config:
         LOG.debug(f"_set {name}={value} stack_size={len(self._stack)}")
 
     @forward
+    @rollback_on_error
     def reset(self, name: str = None):
         """Reset config to default values.
 
@@ -498,9 +517,10 @@ class Config:
             yield ((k, v, CONFIG_AND_HELP.get(k)))
 
     def _changed(self):
+        # must come first, values rejected by an observer must not be saved
+        self._notify()
         if self._auto_save_config:
             self._save()
-        self._notify()
 
     def _notify(self):
         if self._notify_enabled:
-- 
2.43.0


From eed38ae62905e95b842fd71059edc6b770a34a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 06/60] fix: replace the config file atomically

The file was rewritten in place, so an interrupted save lost all the saved
options.
---
 src/earthkit/regrid/utils/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index bac48cd..168d35a 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -272,8 +272,11 @@ def save_config(path, config):
     from filelock import FileLock
 
     lock = path + ".lock"
+    # the file is replaced in one go, an interrupted save must not lose the saved values
+    target = os.path.realpath(path)
+    tmp = target + ".tmp"
     with FileLock(lock):
-        with open(path, "w") as f:
+        with open(tmp, "w") as f:
             print("# This file is automatically generated", file=f)
             print(file=f)
 
@@ -290,6 +293,7 @@ def save_config(path, config):
             print(file=f)
             yaml.dump({"version": VERSION}, f, default_flow_style=False)
             print(file=f)
+        os.replace(tmp, target)
     try:
         os.unlink(lock)
     except OSError:
-- 
2.43.0


From f33ecc282097e4df4169d6522cff6101d7353b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 07/60] fix: only store config values that can be read back
 from the config file

A path or numpy value was saved as a Python object, so the next start could not
load the config file and all the saved options were lost.
---
 src/earthkit/regrid/utils/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 168d35a..42709c4 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -438,7 +438,10 @@ class Config:
             assert len(kwargs) == 0
             value = args[0]
             # Check if value is properly formatted for getter
-            getattr(self, getter)(name, value, none_ok)
+            checked = getattr(self, getter)(name, value, none_ok)
+            # Only store plain values, other types (e.g. a Path) cannot be read back from the config file
+            if not isinstance(value, (str, int, float)):
+                value = checked
         else:
             if not isinstance(value, klass):
                 raise TypeError("Config option '%s' must be of type '%s'" % (name, klass))
-- 
2.43.0


From 06a8d36ccd6cd9a31eba5ac54a989aa8281171d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 08/60] fix: interpret boolean options given as strings

The environment variable EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_STRICT_MODE=False
(and the other boolean ones) switched the option on.
---
 src/earthkit/regrid/utils/config.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 42709c4..8439b7b 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -193,10 +193,12 @@ CONFIG_AND_HELP = {
     "check-out-of-date-urls": _(
         False,
         "Perform a HTTP request to check if the remote version of a cache file has changed",
+        getter="_as_bool",
     ),
     "download-out-of-date-urls": _(
         False,
         "Re-download URLs when the remote version of a cached file as been changed",
+        getter="_as_bool",
     ),
     "maximum-weights-memory-cache-size": _(
         "500MB",
@@ -218,6 +220,7 @@ CONFIG_AND_HELP = {
         """Raise exception if the weights cannot be fitted into the in-memory cache.
         Only used when ``weights-memory-cache-policy`` is ``"largest"`` or ``"lru"``.
         See :ref:`mem_cache` for more information.""",
+        getter="_as_bool",
     ),
 }
 
@@ -574,6 +577,17 @@ class Config:
             return None
         return str(value)
 
+    def _as_bool(self, name, value, none_ok):
+        # the value of an environment variable is always a string
+        if isinstance(value, str):
+            v = value.strip().lower()
+            if v in ("true", "yes", "on", "1"):
+                return True
+            if v in ("false", "no", "off", "0", ""):
+                return False
+            raise ValueError(f"{name}: invalid boolean value '{value}'")
+        return bool(value)
+
     def _as_int(self, name, value, none_ok):
         if value is None and none_ok:
             return None
-- 
2.43.0


From 249ef7d034d88e6bb2aaff001cc55256b852a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 09/60] fix: use temporary-directory-root when the cache policy
 is off

The option was never read, and setting it made the policy outdated on every
config change.
---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 582b31e..e4a52dd 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -564,6 +564,7 @@ class CachePolicy(metaclass=ABCMeta):
         "cache-policy",
         "user-cache-directory",
         "temporary-cache-directory-root",
+        "temporary-directory-root",
         "maximum-cache-disk-usage",
         "maximum-cache-size",
     ]
-- 
2.43.0


From a9563f14be6790899b2bda50cbadfca2639fd1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 10/60] fix: summarise the cache when an entry has no size yet

summary_dump_database() failed with a TypeError while a file was being created
or after its creation failed.
---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index e4a52dd..45648b6 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -555,7 +555,8 @@ class CacheManager(threading.Thread):
         count = len(result)
         size = 0
         for r in result:
-            size += r.get("size", 0)
+            # the size is not known until the file is created
+            size += r.get("size") or 0
         return count, size
 
 
-- 
2.43.0


From ff8c3aac20a2bdc45f128835d9a2a0968f7a2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 11/60] fix: purge all the entries of the cache

purge() stopped as soon as the total size was freed, so empty files (and all
the files when only empty ones were left) stayed in the cache.
---
 src/earthkit/regrid/utils/caching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 45648b6..142ced0 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -401,7 +401,7 @@ class CacheManager(threading.Thread):
         # _find_orphans()
         # _update_cache(clean=True)
 
-        if bytes <= 0:
+        if bytes <= 0 and not purge:
             return 0
 
         LOG.warning("earthkit-regrid cache: trying to free %s", humanize.bytes(bytes))
@@ -417,7 +417,7 @@ class CacheManager(threading.Thread):
             ):
                 for entry in db.execute(stmt, (latest,)):
                     total += self._delete_entry(entry)
-                    if total >= bytes:
+                    if total >= bytes and not purge:
                         LOG.warning(
                             "earthkit-regrid cache: freed %s from cache",
                             humanize.bytes(bytes),
-- 
2.43.0


From 64de6e1ec384644c7beb52a6febf55f476835053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 12/60] fix: keep track of a cache file purged while it was
 being created

The entry of a file was dropped when the cache was purged before the file was
complete, so the file was neither listed nor counted nor evicted any more.
---
 src/earthkit/regrid/utils/caching.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 142ced0..71c602d 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -225,7 +225,7 @@ class CacheManager(threading.Thread):
                     result.append(n)
         return result
 
-    def _update_entry(self, path, owner_data=None):
+    def _update_entry(self, path, owner, args, owner_data=None):
         self._ensure_in_cache(path)
 
         if os.path.isdir(path):
@@ -239,6 +239,10 @@ class CacheManager(threading.Thread):
             size = os.path.getsize(path)
 
         with self.connection as db:
+            if db.execute("SELECT count(*) FROM cache WHERE path=?", (path,)).fetchone()[0] == 0:
+                # the entry was removed (e.g. by a purge) while the file was being created
+                self._register_cache_file(path, owner, args)
+
             db.execute(
                 "UPDATE cache SET size=?, type=?, owner_data=? WHERE path=?",
                 (
@@ -1024,7 +1028,7 @@ def cache_file(
                     owner_data = create(path + ".tmp", args)
                     os.rename(path + ".tmp", path)
                     LOG.info(f"cache file created: {path=}")
-                    CACHE._update_entry(path, owner_data)
+                    CACHE._update_entry(path, owner, args, owner_data)
                     CACHE.check_size()
 
             try:
-- 
2.43.0


From 8bb0f441d69431858970432ebc786efe5483e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 13/60] fix: drop the cache entry of a file that could not be
 created

The entry stayed in the cache as one still being created, and the entries added
after it were not evicted any more: the cache grew over its maximum size.
---
 src/earthkit/regrid/utils/caching.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 71c602d..68fe5f0 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1025,8 +1025,13 @@ def cache_file(
             lock = path + ".lock"
             with FileLock(lock):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
-                    owner_data = create(path + ".tmp", args)
-                    os.rename(path + ".tmp", path)
+                    try:
+                        owner_data = create(path + ".tmp", args)
+                        os.rename(path + ".tmp", path)
+                    except BaseException:
+                        # An entry without a file would prevent the eviction of all the later entries
+                        CACHE._decache_file(path)
+                        raise
                     LOG.info(f"cache file created: {path=}")
                     CACHE._update_entry(path, owner, args, owner_data)
                     CACHE.check_size()
-- 
2.43.0


From 07b589df4f9f521c75d44d3b2c0978aad50bbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 14/60] fix: keep the cached file until its forced refresh is
 complete

---
 src/earthkit/regrid/backends/db.py   |  3 +--
 src/earthkit/regrid/utils/caching.py | 31 +++++++++++++++++++---------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 72565e4..3df4476 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -116,6 +116,7 @@ class UrlAccessor(MatrixAccessor):
 
     def reload(self, force=False):
         self._index_path = self._get_index(check_remote=True, force=force)
+        self._checked_remote = True
 
     def index_path(self):
         if self._index_path is None or not os.path.exists(self._index_path):
@@ -139,7 +140,6 @@ class UrlAccessor(MatrixAccessor):
                 return True
 
             remote_sha = self._remote_sha()
-            self._checked_remote = True
 
             if local_sha != remote_sha:
                 LOG.info(
@@ -162,7 +162,6 @@ class UrlAccessor(MatrixAccessor):
             """Decide if the index file should be downloaded and cached again."""
             LOG.info("UrlAccessor: forcefully download remote checksum and new index file")
             self._remote_sha()
-            self._checked_remote = True
             return True
 
         def _create(target, args):
diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 68fe5f0..4685197 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -225,7 +225,7 @@ class CacheManager(threading.Thread):
                     result.append(n)
         return result
 
-    def _update_entry(self, path, owner, args, owner_data=None):
+    def _update_entry(self, path, owner, args, owner_data=None, renewed=False):
         self._ensure_in_cache(path)
 
         if os.path.isdir(path):
@@ -253,6 +253,13 @@ class CacheManager(threading.Thread):
                 ),
             )
 
+            if renewed:
+                now = datetime.datetime.now()
+                db.execute(
+                    "UPDATE cache SET creation_date=?, last_access=?, accesses=1 WHERE path=?",
+                    (now, now, path),
+                )
+
     def _update_cache(self, clean=False):
         """Update cache size and size of each file in the database ."""
         with self.connection as db:
@@ -1007,6 +1014,7 @@ def cache_file(
         )
 
         record = CACHE._register_cache_file(path, owner, args)
+        renew = False
         if os.path.exists(path):
             if callable(force):
                 owner_data = record["owner_data"]
@@ -1014,26 +1022,29 @@ def cache_file(
                     owner_data = json.loads(owner_data)
                 force = force(args, path, owner_data)
 
-            if force:
-                LOG.info(f"decache file by force: {path=}")
-                CACHE._decache_file(path)
-                record = CACHE._register_cache_file(path, owner, args)
+            # the cached file is kept until the new one is available
+            renew = bool(force)
 
-        if not os.path.exists(path):
+        if renew or not os.path.exists(path):
             from filelock import FileLock
 
             lock = path + ".lock"
             with FileLock(lock):
-                if not os.path.exists(path):  # Check again, another thread/process may have created the file
+                # Check again, another thread/process may have created the file
+                if renew or not os.path.exists(path):
                     try:
                         owner_data = create(path + ".tmp", args)
-                        os.rename(path + ".tmp", path)
+                        if os.path.isdir(path):
+                            LOG.info(f"decache file by force: {path=}")
+                            CACHE._decache_file(path)
+                        os.replace(path + ".tmp", path)
                     except BaseException:
                         # An entry without a file would prevent the eviction of all the later entries
-                        CACHE._decache_file(path)
+                        if not os.path.exists(path):
+                            CACHE._decache_file(path)
                         raise
                     LOG.info(f"cache file created: {path=}")
-                    CACHE._update_entry(path, owner, args, owner_data)
+                    CACHE._update_entry(path, owner, args, owner_data, renewed=renew)
                     CACHE.check_size()
 
             try:
-- 
2.43.0


From 7090f72998b469940c1ab4180cfa5d897e6d954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 15/60] fix: remove the lock of a cache file while holding it

---
 src/earthkit/regrid/utils/caching.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 4685197..ec6530c 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1047,10 +1047,12 @@ def cache_file(
                     CACHE._update_entry(path, owner, args, owner_data, renewed=renew)
                     CACHE.check_size()
 
-            try:
-                os.unlink(lock)
-            except OSError:
-                pass
+                # The lock file can only be removed while holding the lock. Once released
+                # another thread/process may have acquired it.
+                try:
+                    os.unlink(lock)
+                except OSError:
+                    pass
 
     else:
         # path can be a file or a directory. We have to make the name unique.
-- 
2.43.0


From be7f837cae43cb68b9ff2845db01694c510158de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 16/60] fix: recognise the W subtype of the ORCA grids

---
 src/earthkit/regrid/gridspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 0a87c03..9b3fd79 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -20,7 +20,7 @@ DEGREE_EPS = 1e-8
 
 HEALPIX_PATTERN = re.compile(r"[Hh]\d+")
 RGG_PATTERN = re.compile(r"[OoNn]\d+")
-ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUV]$")
+ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUVW]$")
 
 
 # NOTE: this is a temporary code until the full gridspec
-- 
2.43.0


From 97b14917ad3642591f4cd1bf7dba00053b4e4278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 17/60] fix: import the matrix database from its current
 location

---
 tools/subset/subset_remote_db.py | 2 +-
 tools/utils/matrix.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/subset/subset_remote_db.py b/tools/subset/subset_remote_db.py
index 9141482..0e5893f 100644
--- a/tools/subset/subset_remote_db.py
+++ b/tools/subset/subset_remote_db.py
@@ -15,7 +15,7 @@ import sys
 
 import yaml
 
-from earthkit.regrid.db import SYS_DB as DB
+from earthkit.regrid.backends.db import SYS_DB as DB
 
 LOG = logging.getLogger(__name__)
 
diff --git a/tools/utils/matrix.py b/tools/utils/matrix.py
index 9a11bff..00371b5 100644
--- a/tools/utils/matrix.py
+++ b/tools/utils/matrix.py
@@ -22,8 +22,8 @@ MIR_INTERPOLATE_OPTION = "interpolation"
 def download_index_file(target):
     import requests
 
-    from earthkit.regrid.db import _INDEX_GZ_FILENAME
-    from earthkit.regrid.db import _SYSTEM_URL
+    from earthkit.regrid.backends.db import _INDEX_GZ_FILENAME
+    from earthkit.regrid.backends.db import _SYSTEM_URL
 
     path = os.path.join(_SYSTEM_URL, _INDEX_GZ_FILENAME)
     requests.get(path)
-- 
2.43.0


From 04662c888d7b7b56f3c7d13debd99a1e1c15a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 18/60] fix: weights too large for the memory cache do not
 evict the others

---
 src/earthkit/regrid/utils/memcache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index bd209ec..f7a1fae 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -245,9 +245,12 @@ class MemoryCache:
             self.misses += 1
 
             if data[0] is not None:
-                self.items[key] = _MemoryItem(data, self.size_fn(data[0]), time.time())
-                self.curr_mem += self.items[key].size
-                self._reduce()
+                size = self.size_fn(data[0])
+                # Weights not fitting into the cache must not evict all the others
+                if not self.policy.has_limit() or size < self.max_mem:
+                    self.items[key] = _MemoryItem(data, size, time.time())
+                    self.curr_mem += size
+                    self._reduce()
 
             return data
 
-- 
2.43.0


From 0dac9b6982ff5235ba9bb0ce57adcbb94a85e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 19/60] fix: pass the nearest interpolation options to MIR in a
 form it accepts

---
 src/earthkit/regrid/backends/mir.py | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 98fb6a0..176dd63 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -40,6 +40,20 @@ class MirBackend(Backend):
             kwargs["area"] = MirBackend.normalise_area(area)
         return grid, kwargs
 
+    @staticmethod
+    def interpolation_options(interpolation, nearest_method, distance, distance_tolerance, nclosest):
+        """Convert the interpolation options to their MIR equivalents."""
+        options = {
+            "interpolation": interpolation,
+            "distance": float(distance),
+            "distance_tolerance": float(distance_tolerance),
+            "nclosest": nclosest,
+        }
+        # "automatic" is the MIR default but it is not a value MIR accepts
+        if nearest_method != "automatic":
+            options["nearest_method"] = nearest_method.replace("_", "-")
+        return options
+
     def regrid(
         self,
         values,
@@ -53,22 +67,17 @@ class MirBackend(Backend):
     ):
         import mir
 
-        kwargs = {
-            "interpolation": interpolation,
-            "nearest_method": nearest_method,
-            "distance": distance,
-            "distance_tolerance": distance_tolerance,
-            "nclosest": nclosest,
-        }
+        kwargs = self.interpolation_options(
+            interpolation, nearest_method, distance, distance_tolerance, nclosest
+        )
 
-        out_grid, kwargs = self.adjust_options(out_grid, {})
+        out_grid, kwargs = self.adjust_options(out_grid, kwargs)
 
         input = mir.ArrayInput(values, in_grid)
         out = mir.ArrayOutput()
 
         job = mir.Job()
         job.set("grid", out_grid)
-        job.set("interpolation", interpolation)  # NOTE: needs generalisation
         for k, v in kwargs.items():
             job.set(k, v)
 
@@ -91,13 +100,9 @@ class MirBackend(Backend):
 
         import mir
 
-        kwargs = {
-            "interpolation": interpolation,
-            "nearest_method": nearest_method,
-            "distance": distance,
-            "distance_tolerance": distance_tolerance,
-            "nclosest": nclosest,
-        }
+        kwargs = self.interpolation_options(
+            interpolation, nearest_method, distance, distance_tolerance, nclosest
+        )
 
         out_grid, kwargs = self.adjust_options(grid, kwargs)
 
-- 
2.43.0


From 49f9fd2329aef954bc6fbf0fe65798dd444ad575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 20/60] fix: do not resume a download that cannot be completed

---
 src/earthkit/regrid/utils/download.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 9049f47..9045035 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -9,6 +9,7 @@
 
 
 import logging
+import os
 
 from multiurl import Downloader
 
@@ -91,7 +92,24 @@ def download_and_cache(
     if force is None:
         force = out_of_date
 
+    def can_resume(partial):
+        """Decide if an interrupted download can be resumed. A forced download always starts
+        again because the partial file can belong to an outdated version of the contents.
+        """
+        if force is True:
+            return False
+        headers = getattr(downloader, "headers", dict)()
+        size = headers.get("content-length")
+        return size is not None and os.path.getsize(partial) < int(size)
+
     def download(target, _):
+        if force is True and os.path.exists(target):
+            os.unlink(target)
+
+        partial = target + ".download"
+        if os.path.exists(partial) and not can_resume(partial):
+            os.unlink(partial)
+
         downloader.download(target)
         return downloader.cache_data()
 
-- 
2.43.0


From 9d50256c388a34027453f2966439785e757effdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 21/60] fix: do not truncate the values regridded from an
 integer xarray

---
 src/earthkit/regrid/data/xarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 08fde0c..f5f96a9 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -287,6 +287,7 @@ class XarrayDataHandler(DataHandler):
         in_dims = ensure_list(in_dims)
         out_dims = ensure_list(out_dims)
 
+        import numpy as np
         import xarray as xr
 
         exclude_dims = set()
@@ -325,7 +326,7 @@ class XarrayDataHandler(DataHandler):
                     "output_sizes": {dim: out_geo.shape[i] for i, dim in enumerate(out_dims)},
                     "allow_rechunk": True,
                 },
-                output_dtypes=[da.dtype],
+                output_dtypes=[da.dtype if np.issubdtype(da.dtype, np.floating) else np.float64],
             )
 
         if isinstance(values, xr.Dataset):
-- 
2.43.0


From cdf6de404ef7c823228727f2e5d3a76c78bc05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 22/60] fix: update the gridspec attribute of the regridded
 xarray

---
 src/earthkit/regrid/data/xarray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index f5f96a9..30872c7 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -343,6 +343,11 @@ class XarrayDataHandler(DataHandler):
 
         self.add_geo_coords(ds_out, out_geo)
 
+        # The attributes copied from the input describe the input grid
+        for v in ds_out.data_vars.values() if isinstance(ds_out, xr.Dataset) else [ds_out]:
+            if "gridspec" in v.attrs:
+                v.attrs = {**v.attrs, "gridspec": method.out_grid}
+
         return ds_out
 
 
-- 
2.43.0


From 5a0d33f04342cc8a486492382b4727005f8392df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 23/60] fix: ignore the inventory entries with an unknown
 interpolation method

---
 src/earthkit/regrid/backends/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 3df4476..29f59b6 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -308,11 +308,12 @@ class MatrixIndex(dict):
 
             for name, entry in index["matrix"].items():
                 # it is possible that the inventory is already updated with a new
-                # gridspecs type, but a given earthkit-regrid version is not
+                # gridspecs type or method, but a given earthkit-regrid version is not
                 # yet supporting it. In this case loading the index should not crash.
                 try:
                     in_gs = GridSpec.from_dict(entry["input"])
                     out_gs = GridSpec.from_dict(entry["output"])
+                    MatrixIndex.interpolation_method_name(entry)
                     raw = entry
                     entry = dict(**entry)
                     entry["input"] = in_gs
-- 
2.43.0


From 7278b8107bd9dd0b79cffc86cdc5f1eb747af1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 24/60] fix: do not register files removed during the
 housekeeping of the cache as orphans

Such an entry never gets a size and so changes what can be evicted: the
file just created could be removed
---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index ec6530c..ab7ef77 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -317,7 +317,8 @@ class CacheManager(threading.Thread):
                     if time.time() - s.st_mtime < 120:  # Two minutes
                         continue
                 except OSError:
-                    pass
+                    # removed in the meantime, e.g. the lock of a file just created
+                    continue
 
                 if parent is None:
                     LOG.warning(f"earthkit-regrid cache: orphan found: {full}")
-- 
2.43.0


From b59eed659c99ca3d0d852193d4584f75323e6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 25/60] fix: do not evict a cache file just created again after
 it was lost

The entry kept its old creation date, so that the new file was not
protected from the eviction its creation triggers
---
 src/earthkit/regrid/utils/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index ab7ef77..c844bcb 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1045,7 +1045,9 @@ def cache_file(
                             CACHE._decache_file(path)
                         raise
                     LOG.info(f"cache file created: {path=}")
-                    CACHE._update_entry(path, owner, args, owner_data, renewed=renew)
+                    # an entry with a size is the one of a former file, which was replaced or lost
+                    renewed = renew or record["size"] is not None
+                    CACHE._update_entry(path, owner, args, owner_data, renewed=renewed)
                     CACHE.check_size()
 
                 # The lock file can only be removed while holding the lock. Once released
-- 
2.43.0


From 5d3c14bbd8361d8671c72d8f353ca9f625751a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 26/60] fix: do not evict the newest cache file when an orphan
 has been found

The creation date of an orphan is the date when it was registered, which
made it the newest entry in place of the last file created
---
 src/earthkit/regrid/utils/caching.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index c844bcb..f6ef8e2 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -191,11 +191,11 @@ class CacheManager(threading.Thread):
         So we do not purge files being downloaded.
         """
         with self.connection as db:
-            latest = db.execute("SELECT MIN(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
+            # The creation date of an orphan is the date when it was found
+            stmt = "FROM cache WHERE owner != 'orphans' AND size"
+            latest = db.execute(f"SELECT MIN(creation_date) {stmt} IS NULL").fetchone()[0]
             if latest is None:
-                latest = db.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL").fetchone()[
-                    0
-                ]
+                latest = db.execute(f"SELECT MAX(creation_date) {stmt} IS NOT NULL").fetchone()[0]
             if latest is None:
                 latest = datetime.datetime.now()
             return latest
-- 
2.43.0


From 11583b975f93a534ccadff6d072624e704d4d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 27/60] fix: drop the cache entries of files whose creation was
 interrupted

When a process is killed while it creates a file its entry never gets a
size, which prevented the eviction of all the files created later
---
 src/earthkit/regrid/utils/caching.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index f6ef8e2..7e7809a 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -279,7 +279,7 @@ class CacheManager(threading.Thread):
                         size = os.path.getsize(path)
                     update.append((size, kind, path))
                 except Exception:
-                    if clean:
+                    if clean or self._creation_interrupted(path):
                         db.execute("DELETE from cache WHERE path=?", (path,))
                         commit = True
 
@@ -289,6 +289,21 @@ class CacheManager(threading.Thread):
             if update or commit:
                 db.commit()
 
+    def _creation_interrupted(self, path):
+        """Return True when nobody is creating the file, e.g. as the process doing it was killed.
+        The entry of such a file would prevent the eviction of all the later ones.
+        """
+        from filelock import FileLock
+        from filelock import Timeout
+
+        lock = path + ".lock"
+        try:
+            with FileLock(lock, timeout=0):
+                os.unlink(lock)
+                return not os.path.exists(path)
+        except Timeout:
+            return False
+
     def _housekeeping(self, clean=False):
         top = self._policy.directory()
         with self.connection as db:
-- 
2.43.0


From 9b1d819a1a5cde1451dae6da58196db31ad3bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 28/60] fix: count the files found by the housekeeping when the
 cache size is checked

Orphans and files with an unknown size were registered but not taken into
account, which left the cache above its maximum size
---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 7e7809a..8ff073c 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -524,7 +524,8 @@ class CacheManager(threading.Thread):
                 size = self._cache_size()
                 if size > maximum:
                     self._housekeeping()
-                    self._decache(size - maximum)
+                    # the housekeeping can find further files
+                    self._decache(self._cache_size() - maximum)
 
             # Check relative limit
             usage = self._policy.maximum_cache_disk_usage()
-- 
2.43.0


From 6591db5931a70c78cc48cbca3bb4b4f6fd6f0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 29/60] fix: a cache file purged right after its creation does
 not fail the request

---
 src/earthkit/regrid/utils/caching.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 8ff073c..1eb6711 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -228,15 +228,19 @@ class CacheManager(threading.Thread):
     def _update_entry(self, path, owner, args, owner_data=None, renewed=False):
         self._ensure_in_cache(path)
 
-        if os.path.isdir(path):
-            kind = "directory"
-            size = 0
-            for root, _, files in os.walk(path):
-                for f in files:
-                    size += os.path.getsize(os.path.join(root, f))
-        else:
-            kind = "file"
-            size = os.path.getsize(path)
+        try:
+            if os.path.isdir(path):
+                kind = "directory"
+                size = 0
+                for root, _, files in os.walk(path):
+                    for f in files:
+                        size += os.path.getsize(os.path.join(root, f))
+            else:
+                kind = "file"
+                size = os.path.getsize(path)
+        except FileNotFoundError:
+            # already removed again, see below
+            kind = size = None
 
         with self.connection as db:
             if db.execute("SELECT count(*) FROM cache WHERE path=?", (path,)).fetchone()[0] == 0:
@@ -260,6 +264,10 @@ class CacheManager(threading.Thread):
                     (now, now, path),
                 )
 
+            if not os.path.exists(path):
+                # the file was already removed again (e.g. by a purge)
+                db.execute("DELETE FROM cache WHERE path=?", (path,))
+
     def _update_cache(self, clean=False):
         """Update cache size and size of each file in the database ."""
         with self.connection as db:
-- 
2.43.0


From 4662cfc47ecda69c8dc4f6515c5aa78bdad49453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 30/60] fix: do not remove the lock of a cache file while it is
 being created

A lock older than two minutes was taken for an orphan: once it was evicted
or purged another process could create the same file at the same time
---
 src/earthkit/regrid/utils/caching.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 1eb6711..22a99fe 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -287,7 +287,9 @@ class CacheManager(threading.Thread):
                         size = os.path.getsize(path)
                     update.append((size, kind, path))
                 except Exception:
-                    if clean or self._creation_interrupted(path):
+                    # The entry of a file whose creation was interrupted (e.g. the process was killed)
+                    # would prevent the eviction of all the later ones.
+                    if clean or self._remove_lock(path):
                         db.execute("DELETE from cache WHERE path=?", (path,))
                         commit = True
 
@@ -297,10 +299,8 @@ class CacheManager(threading.Thread):
             if update or commit:
                 db.commit()
 
-    def _creation_interrupted(self, path):
-        """Return True when nobody is creating the file, e.g. as the process doing it was killed.
-        The entry of such a file would prevent the eviction of all the later ones.
-        """
+    def _remove_lock(self, path):
+        """Remove the lock of a cache file. Return False when it is in use, i.e. the file is being created"""
         from filelock import FileLock
         from filelock import Timeout
 
@@ -308,7 +308,7 @@ class CacheManager(threading.Thread):
         try:
             with FileLock(lock, timeout=0):
                 os.unlink(lock)
-                return not os.path.exists(path)
+                return True
         except Timeout:
             return False
 
@@ -343,6 +343,11 @@ class CacheManager(threading.Thread):
                     # removed in the meantime, e.g. the lock of a file just created
                     continue
 
+                if name.endswith(".lock"):
+                    # must not be removed as long as it is in use
+                    self._remove_lock(full[: -len(".lock")])
+                    continue
+
                 if parent is None:
                     LOG.warning(f"earthkit-regrid cache: orphan found: {full}")
                 else:
-- 
2.43.0


From 2ab354f69b41d3a4cec97608a72e1035c7a6053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 31/60] fix: keep the entry of a cache file created again while
 it was being removed

---
 src/earthkit/regrid/utils/caching.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 22a99fe..9da2143 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -424,18 +424,22 @@ class CacheManager(threading.Thread):
 
         if not os.path.exists(path):
             LOG.warning(f"cache file lost: {path}")
-            with self.connection as db:
-                db.execute("DELETE FROM cache WHERE path=?", (path,))
+            self._forget_entry(path)
             return total
 
         # LOG.warning(f"earthkit-regrid cache: deleting {path} ({humanize.bytes(size)})")
         # LOG.warning(f"earthkit-regrid cache: {owner} {args}")
         self._delete_file(path)
+        self._forget_entry(path)
+
+        return total + size
 
+    def _forget_entry(self, path):
         with self.connection as db:
             db.execute("DELETE FROM cache WHERE path=?", (path,))
-
-        return total + size
+            if os.path.exists(path):
+                # created again in the meantime by another process
+                db.rollback()
 
     def _decache(self, bytes, purge=False):
         # _find_orphans()
-- 
2.43.0


From 8f97fdcdc0775dfd17f6ffe7883ab219f85df688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 32/60] fix: keep the cache policy in use when a config change
 is rejected

---
 src/earthkit/regrid/utils/caching.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 9da2143..4332587 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -821,15 +821,15 @@ class Cache:
             return self._policy
 
     def _make_policy(self):
-        if self._policy is None:
-            self._policy = CachePolicy.from_config()
-            LOG.debug(f"Cache: created cache policy={self._policy}")
-            if self._policy.managed():
-                with self._manager_lock:
-                    if self._manager is None:
-                        self._manager = CacheManager()
-                        self._manager.start()
-                    self._call_manager_config_changed()
+        # the current policy (and its temporary directory) is kept when the new one cannot be created
+        self._policy = CachePolicy.from_config()
+        LOG.debug(f"Cache: created cache policy={self._policy}")
+        if self._policy.managed():
+            with self._manager_lock:
+                if self._manager is None:
+                    self._manager = CacheManager()
+                    self._manager.start()
+                self._call_manager_config_changed()
 
     def _config_changed(self):
         LOG.debug("Cache: config_changed, cache-policy=" + CONFIG.get("cache-policy"))
@@ -837,7 +837,6 @@ class Cache:
             with self._policy_lock:
                 # Check again, another thread/process may have modified the policy
                 if self._policy.outdated():
-                    self._policy = None
                     self._make_policy()
         elif self.policy.update() and self.policy.managed():
             with self._manager_lock:
-- 
2.43.0


From 41b9c7fc38abc19731c52fb140c9392eeac49538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 33/60] fix: remove the lock of the config file while holding
 it

---
 src/earthkit/regrid/utils/config.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 8439b7b..53b91f9 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -297,10 +297,12 @@ def save_config(path, config):
             yaml.dump({"version": VERSION}, f, default_flow_style=False)
             print(file=f)
         os.replace(tmp, target)
-    try:
-        os.unlink(lock)
-    except OSError:
-        pass
+        # The lock file can only be removed while holding the lock. Once released
+        # another process could already be using it.
+        try:
+            os.unlink(lock)
+        except OSError:
+            pass
 
 
 def env_var_name(name):
-- 
2.43.0


From d79f5e3b57c03c828b9732f184409f167a87b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 34/60] fix: the config directory can be created by another
 process in the meantime

---
 src/earthkit/regrid/utils/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 53b91f9..f0d942d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -683,8 +683,11 @@ def _init_config_file():
         config_dir = os.path.dirname(config_file)
         if not os.path.exists(config_dir):
             ori_mask = os.umask(0o077)
-            os.makedirs(config_dir, 0o700)
-            os.umask(ori_mask)
+            try:
+                # another process can create it in the meantime
+                os.makedirs(config_dir, 0o700, exist_ok=True)
+            finally:
+                os.umask(ori_mask)
     except Exception:
         LOG.error(
             f"Cannot create earthkit-regrid config directory={config_dir}",
-- 
2.43.0


From 0156c741e6ee8c5092d17a1e5a6a0ac9abc046e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 35/60] fix: do not overwrite the config file created by
 another process in the meantime

---
 src/earthkit/regrid/utils/config.py | 52 ++++++++++++++++-------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index f0d942d..49cc834 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -270,33 +270,16 @@ def rollback_on_error(func):
     return wrapped
 
 
-def save_config(path, config):
+def save_config(path, config, overwrite=True):
     LOG.debug("Saving config")
     from filelock import FileLock
 
     lock = path + ".lock"
-    # the file is replaced in one go, an interrupted save must not lose the saved values
     target = os.path.realpath(path)
-    tmp = target + ".tmp"
     with FileLock(lock):
-        with open(tmp, "w") as f:
-            print("# This file is automatically generated", file=f)
-            print(file=f)
-
-            for k, v in sorted(config.items()):
-                h = CONFIG_AND_HELP.get(k)
-                if h:
-                    print(file=f)
-                    print("#", "-" * 76, file=f)
-                    h.save(k, v, f)
-
-            print(file=f)
-            print("#", "-" * 76, file=f)
-            print("# Version of earthkit-regrid", file=f)
-            print(file=f)
-            yaml.dump({"version": VERSION}, f, default_flow_style=False)
-            print(file=f)
-        os.replace(tmp, target)
+        # when not overwriting, it could have been created by another process in the meantime
+        if overwrite or not os.path.exists(target):
+            _write_config(target, config)
         # The lock file can only be removed while holding the lock. Once released
         # another process could already be using it.
         try:
@@ -305,6 +288,29 @@ def save_config(path, config):
             pass
 
 
+def _write_config(target, config):
+    # the file is replaced in one go, an interrupted save must not lose the saved values
+    tmp = target + ".tmp"
+    with open(tmp, "w") as f:
+        print("# This file is automatically generated", file=f)
+        print(file=f)
+
+        for k, v in sorted(config.items()):
+            h = CONFIG_AND_HELP.get(k)
+            if h:
+                print(file=f)
+                print("#", "-" * 76, file=f)
+                h.save(k, v, f)
+
+        print(file=f)
+        print("#", "-" * 76, file=f)
+        print("# Version of earthkit-regrid", file=f)
+        print(file=f)
+        yaml.dump({"version": VERSION}, f, default_flow_style=False)
+        print(file=f)
+    os.replace(tmp, target)
+
+
 def env_var_name(name):
     return ENV_PREFIX + name.upper().replace("-", "_")
 
@@ -656,7 +662,7 @@ def _migrate_old_config(config_file):
                     return False
 
                 config.update(s)
-                save_config(config_file, config)
+                save_config(config_file, config, overwrite=False)
                 return True
         except Exception:
             LOG.error(
@@ -698,7 +704,7 @@ def _init_config_file():
         try:
             if not os.path.exists(config_file):
                 if not _migrate_old_config(config_file):
-                    save_config(config_file, DEFAULTS)
+                    save_config(config_file, DEFAULTS, overwrite=False)
         except Exception:
             LOG.error(
                 f"Cannot save settings to earthkit-regrid config file={config_file}",
-- 
2.43.0


From 1d0d363d69864204e6bed6b1963fcf4d5a80f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 36/60] fix: a latitude band of a reduced Gaussian grid is not
 the global grid

---
 src/earthkit/regrid/gridspec.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 9b3fd79..503d2b3 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -288,6 +288,14 @@ class ReducedGGGridSpec(GridSpec):
         # TODO: add code for non global grids
         return False
 
+    @property
+    def north(self):
+        return self["area"][0]
+
+    @property
+    def south(self):
+        return self["area"][2]
+
     @property
     def west(self):
         return self["area"][1]
@@ -320,7 +328,9 @@ class ReducedGGGridSpec(GridSpec):
 
     def is_global_ns(self):
         if self._global_ns is None:
-            self._global_ns = True
+            # approximation of the first Gaussian latitude
+            first = 90.0 - np.rad2deg(2.404826 / (2 * self.N + 0.5))
+            self._global_ns = self.north > first - self._eps and self.south < -first + self._eps
         return self._global_ns
 
     def _inspect_grid(self):
-- 
2.43.0


From 1e1d81a1ad20e05cc273cba3cf27f878e8ec88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 37/60] fix: inventory entries with an invalid gridspec do not
 affect the others

---
 src/earthkit/regrid/gridspec.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 503d2b3..156c3f8 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -9,6 +9,7 @@
 
 import logging
 import re
+from numbers import Number
 
 import numpy as np
 
@@ -27,6 +28,13 @@ ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUVW]$")
 # implementation is available via earthkit-geo.
 
 
+def is_number_list(v, size):
+    try:
+        return len(v) == size and all(isinstance(x, Number) for x in v)
+    except TypeError:
+        return False
+
+
 def same_coord(x, y, eps=DEGREE_EPS):
     return abs(x - y) < eps
 
@@ -52,6 +60,12 @@ class GridSpec(dict):
         self._global_ns = None
         super().__init__(gs)
 
+        # a gridspec that cannot be compared to the others must not be accepted
+        if "grid" not in self:
+            raise ValueError(f"No grid in gridspec={gs}")
+        if "area" in self and not is_number_list(self["area"], 4):
+            raise ValueError(f"Invalid area={self['area']}")
+
     @staticmethod
     def _normalise(d):
         for k, v in d.items():
@@ -182,6 +196,9 @@ class LLGridSpec(GridSpec):
     def __init__(self, gs):
         super().__init__(gs)
 
+        if not is_number_list(self["grid"], 2):
+            raise ValueError(f"Invalid grid={self['grid']}")
+
         if "global" not in gs and "area" not in gs:
             self["global"] = 1
             self["area"] = LLGridSpec.GLOBAL_AREAS.get((self["grid"][0], self["grid"][1]), self.DEFAULT_AREA)
@@ -387,6 +404,7 @@ class HealpixGridSpec(GridSpec):
         self.setdefault("area", self.DEFAULT_AREA)
         self._order = None
         self._N = None
+        self._inspect_grid()
 
     @property
     def west(self):
-- 
2.43.0


From 53f281273fc9e9057134bfae201477372eae95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 38/60] fix: do not cache an index file that is not valid JSON

---
 src/earthkit/regrid/backends/db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 29f59b6..ca0e514 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -179,6 +179,8 @@ class UrlAccessor(MatrixAccessor):
 
             with open(target, "r") as f:
                 data = f.read()
+                # an index that is not valid must not be cached
+                json.loads(data)
                 sha = make_sha(data)
 
             # the returned data will be stored in the cache in the entry's owner_data
-- 
2.43.0


From de678825bb32af5620adeb58fd75d653219d53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 39/60] fix: do not cache a matrix file whose download is cut
 without notice

---
 src/earthkit/regrid/backends/db.py    | 7 +++++++
 src/earthkit/regrid/utils/download.py | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index ca0e514..5b2df13 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -10,6 +10,7 @@
 import json
 import logging
 import os
+import zipfile
 from abc import ABCMeta
 from abc import abstractmethod
 
@@ -66,6 +67,11 @@ def make_sha(data):
     return m.hexdigest()
 
 
+def _check_npz(path):
+    if not zipfile.is_zipfile(path):
+        raise ValueError(f"Invalid matrix file: {path}")
+
+
 class MatrixAccessor(metaclass=ABCMeta):
     @abstractmethod
     def path(self):
@@ -264,6 +270,7 @@ class UrlAccessor(MatrixAccessor):
                 update_if_out_of_date=False,
                 maximum_retries=5,
                 retry_after=10,
+                check=_check_npz,
             )
         except Exception:
             LOG.error(f"Could not download matrix file={url}")
diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 9045035..bcda071 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -35,6 +35,7 @@ def download_and_cache(
     progress_bar=progress_bar,
     maximum_retries=0,
     retry_after=10,
+    check=None,  # Called with the path of the downloaded file, raises if it must not be cached
     **kwargs,
 ):
     # TODO: re-enable this feature
@@ -111,6 +112,14 @@ def download_and_cache(
             os.unlink(partial)
 
         downloader.download(target)
+
+        if check is not None:
+            try:
+                check(target)
+            except Exception:
+                os.unlink(target)
+                raise
+
         return downloader.cache_data()
 
     path = cache_file(
-- 
2.43.0


From ecb828465d37eec0e97409e8cd00f67c1c5f56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 40/60] fix: accept the path of an npz file given as a string

---
 src/earthkit/regrid/utils/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 1b70467..b6a6c6a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -66,7 +66,7 @@ def mir_cached_matrix_to_array(path):
 
 
 def mir_cached_matrix_to_file(path, target):
-    if not target.suffix == ".npz":
+    if not Path(target).suffix == ".npz":
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-- 
2.43.0


From d0f94daee46fbb2b50fe08a5ec4496fa71ce2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 41/60] fix: a stream shorter than its contents is an error

---
 src/earthkit/regrid/utils/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/stream.py b/src/earthkit/regrid/utils/stream.py
index 66c85a8..d96ec36 100644
--- a/src/earthkit/regrid/utils/stream.py
+++ b/src/earthkit/regrid/utils/stream.py
@@ -64,7 +64,10 @@ class Stream:
         self.stream = stream
 
     def _read(self, n):
-        return self.stream.read(n)
+        data = self.stream.read(n)
+        if len(data) != n:
+            raise EOFError("Unexpected end of stream: %s bytes instead of %s" % (len(data), n))
+        return data
 
     def _write(self, n, nbytes=None):
         assert not nbytes or nbytes == len(n)
-- 
2.43.0


From 2c4981e0c39b9961bf8d7e1344a310b1ab5828d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 42/60] fix: the inventory entries built for any target grid
 have a shape

---
 src/earthkit/regrid/utils/builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index 241ce71..657ddae 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -135,11 +135,14 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
     # get matrix size
     z = load_npz(npz_file)
     mem_size = matrix_memory_size(z)
+    output = convert(entry["output"])
+    # the shape of the interpolated values is taken from the index
+    output.setdefault("shape", [z.shape[0]])
     z = None
 
     index["matrix"][key] = dict(
         input=convert(entry["input"]),
-        output=convert(entry["output"]),
+        output=output,
         interpolation=entry["interpolation"],
         nnz=entry["matrix"]["nnz"],
         memory=mem_size,
-- 
2.43.0


From 937ace849ba87faf775c40ea7635fd40856e81f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 43/60] fix: replace the index of the inventory being built
 atomically

---
 src/earthkit/regrid/utils/builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index 657ddae..5dfccb4 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -148,8 +148,11 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
         memory=mem_size,
     )
 
-    with open(index_file, "w") as f:
+    # the entries already in the index must not be lost when writing is interrupted
+    tmp_file = f"{index_file}.tmp"
+    with open(tmp_file, "w") as f:
         json.dump(index, f, indent=4)
+    os.replace(tmp_file, index_file)
 
     print("Written", npz_file)
     print("Written", index_file)
-- 
2.43.0


From 3efad4316468de2e912fa90437ccce948d4d4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 44/60] fix: keep the attributes of a regridded xarray dataset

---
 src/earthkit/regrid/data/xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 30872c7..0703db1 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -330,7 +330,7 @@ class XarrayDataHandler(DataHandler):
             )
 
         if isinstance(values, xr.Dataset):
-            ds_out = xr.Dataset()
+            ds_out = xr.Dataset(attrs=values.attrs)
             for var_name, var in values.data_vars.items():
                 ds_out[var_name] = _regrid(var)
 
@@ -344,7 +344,7 @@ class XarrayDataHandler(DataHandler):
         self.add_geo_coords(ds_out, out_geo)
 
         # The attributes copied from the input describe the input grid
-        for v in ds_out.data_vars.values() if isinstance(ds_out, xr.Dataset) else [ds_out]:
+        for v in [ds_out, *ds_out.data_vars.values()] if isinstance(ds_out, xr.Dataset) else [ds_out]:
             if "gridspec" in v.attrs:
                 v.attrs = {**v.attrs, "gridspec": method.out_grid}
 
-- 
2.43.0


From 1e790d737a5f3520b58cc3d375740018b571f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 45/60] fix: regrid xarray data of any memory layout and byte
 order

---
 src/earthkit/regrid/data/xarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 0703db1..11dba60 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -307,6 +307,8 @@ class XarrayDataHandler(DataHandler):
                 )
 
             def __call__(self, vals):
+                # the fields can have any memory layout and byte order in xarray
+                vals = np.ascontiguousarray(vals, dtype=vals.dtype.newbyteorder("="))
                 # TODO: ensure it is thread safe
                 vals, self.out_grid = self.method(vals)
                 return vals
-- 
2.43.0


From 7acbb98d52ee8529e58d4fde37eaf0f6ec28a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 46/60] fix: regrid chunked xarray data when the target grid is
 adjusted

---
 src/earthkit/regrid/data/xarray.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 11dba60..3c534ac 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -315,6 +315,12 @@ class XarrayDataHandler(DataHandler):
 
         method = _RegridMethod(in_grid.grid_spec, out_geo.grid_spec, **kwargs)
 
+        if values.chunks:
+            # The geography must be known before the values are computed but the backend can
+            # adjust the target grid (e.g. to the area of the input)
+            method(np.zeros([values.sizes[dim] for dim in in_dims]))
+            out_geo = XarrrayGeographyBuilder(method.out_grid)
+
         def _regrid(da):
             return xr.apply_ufunc(
                 method,
-- 
2.43.0


From bd226e0b6802353653095331acbff8879f70fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 47/60] fix: find the geography of an xarray dataset whatever
 the order of its variables

---
 src/earthkit/regrid/data/xarray.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 3c534ac..e8802b2 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -188,6 +188,13 @@ def xr_geo_dims(ds):
     """
     Determine the geographical dimensions of the dataset/dataarray.
     """
+    # the order of the dimensions of a dataset only depends on the order of its variables
+    if hasattr(ds, "data_vars"):
+        geo_dims = [xr_geo_dims(v) for v in ds.data_vars.values()]
+        if geo_dims and all(d == geo_dims[0] for d in geo_dims):
+            return geo_dims[0]
+        raise ValueError("Dataset geography is not supported.")
+
     dims = list(ds.sizes.keys())
     if len(ds.dims) >= 1:
         if dims[-1] == "values":
-- 
2.43.0


From 64c58c12f45e3cb9f2f5b00e5d04cb888f377e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 48/60] fix: regrid the values and metadata of cloned fields

---
 src/earthkit/regrid/data/fieldlist.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/fieldlist.py b/src/earthkit/regrid/data/fieldlist.py
index ad291c2..b3ad06f 100644
--- a/src/earthkit/regrid/data/fieldlist.py
+++ b/src/earthkit/regrid/data/fieldlist.py
@@ -88,6 +88,7 @@ class FieldListDataHandler(DataHandler):
 
     def _regrid_grib(self, values, backend, grid, **kwargs):
         # TODO: remove this when ecCodes supports setting the gridSpec on a GRIB handle
+        from earthkit.data.indexing.fieldlist import ClonedFieldCore
         from earthkit.data.readers.grib.codes import GribField
         from earthkit.data.readers.grib.memory import GribFieldInMemory
 
@@ -98,7 +99,8 @@ class FieldListDataHandler(DataHandler):
 
         r = []
         for i, f in enumerate(ds):
-            if isinstance(f, GribField):
+            # the message of a clone is that of the field it was made from
+            if isinstance(f, GribField) and not isinstance(f, ClonedFieldCore):
                 message = f.message()
             elif hasattr(f, "handle"):
                 from earthkit.data import create_encoder
-- 
2.43.0


From 467d6075e992074a55f717bb469ad7226ba89110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 49/60] fix: reject data that are not one complete GRIB message

---
 src/earthkit/regrid/data/grib.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/earthkit/regrid/data/grib.py b/src/earthkit/regrid/data/grib.py
index 6b9ab2b..9dae42b 100644
--- a/src/earthkit/regrid/data/grib.py
+++ b/src/earthkit/regrid/data/grib.py
@@ -15,6 +15,32 @@ LOG = logging.getLogger(__name__)
 
 
 class GribMessageDataHandler(DataHandler):
+    @staticmethod
+    def check_message(message):
+        """Raise an error if the contents are not exactly one complete GRIB message.
+
+        The process would be terminated by the backend if there was no message, and only the
+        first one of several messages would be used.
+        """
+        edition = message[7] if len(message) > 7 else None
+        if message[:4] != b"GRIB" or edition not in (1, 2):
+            raise ValueError("The input is not a GRIB message")
+
+        length = None
+        if edition == 2:
+            length = int.from_bytes(message[8:16], "big")
+        elif message[4] < 0x80:
+            length = int.from_bytes(message[4:7], "big")
+
+        if length is None:
+            # large GRIB edition 1 message, the length is not stored in bytes
+            return
+
+        if len(message) < length or message[length - 4 : length] != b"7777":
+            raise ValueError("The GRIB message is not complete")
+        if message.find(b"GRIB", length) != -1:
+            raise ValueError("The input contains more than one GRIB message")
+
     @staticmethod
     def match(values):
         if isinstance(values, bytes):
@@ -36,6 +62,7 @@ class GribMessageDataHandler(DataHandler):
                 if isinstance(values, BytesIO):
                     values = values.getvalue()
 
+            self.check_message(values)
             return backend.regrid_grib(values, **kwargs)
         else:
             raise ValueError(f"regrid() does not support GRIB message input for {backend=}!")
-- 
2.43.0


From 09e04e2e8be44ebfa7ba4840274849f67a9749c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 50/60] fix: reject target grids unknown to MIR

---
 src/earthkit/regrid/backends/mir.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 176dd63..7b98704 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -40,6 +40,13 @@ class MirBackend(Backend):
             kwargs["area"] = MirBackend.normalise_area(area)
         return grid, kwargs
 
+    @staticmethod
+    def check_grid(grid):
+        """Raise an error if the target grid is unknown, MIR would return the input unchanged."""
+        import mir
+
+        mir.Grid(grid)
+
     @staticmethod
     def interpolation_options(interpolation, nearest_method, distance, distance_tolerance, nclosest):
         """Convert the interpolation options to their MIR equivalents."""
@@ -72,6 +79,7 @@ class MirBackend(Backend):
         )
 
         out_grid, kwargs = self.adjust_options(out_grid, kwargs)
+        self.check_grid(out_grid)
 
         input = mir.ArrayInput(values, in_grid)
         out = mir.ArrayOutput()
@@ -105,6 +113,7 @@ class MirBackend(Backend):
         )
 
         out_grid, kwargs = self.adjust_options(grid, kwargs)
+        self.check_grid(out_grid)
 
         in_data = mir.GribMemoryInput(message)
         out = BytesIO()
-- 
2.43.0


From cbd35c4ea57440efc4f0b8160a01287fd61e8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 51/60] fix: the result for an empty list of fields is usable

---
 src/earthkit/regrid/data/fieldlist.py   | 2 +-
 src/earthkit/regrid/data_interpolate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/data/fieldlist.py b/src/earthkit/regrid/data/fieldlist.py
index b3ad06f..d8f7a8b 100644
--- a/src/earthkit/regrid/data/fieldlist.py
+++ b/src/earthkit/regrid/data/fieldlist.py
@@ -69,7 +69,7 @@ class FieldListDataHandler(DataHandler):
                 "Fieldlists can only be regridded to global regular lat-lon target grids. Target grid is {out_grid}"
             )
 
-        r = earthkit.data.FieldList()
+        r = earthkit.data.FieldList.from_fields([])
         for i, f in enumerate(ds):
             vv = f.to_numpy(flatten=True)
 
diff --git a/src/earthkit/regrid/data_interpolate.py b/src/earthkit/regrid/data_interpolate.py
index 8c067f3..8d2602d 100644
--- a/src/earthkit/regrid/data_interpolate.py
+++ b/src/earthkit/regrid/data_interpolate.py
@@ -105,7 +105,7 @@ class FieldListDataHandler(DataHandler):
                 "interpolate(): Fieldlists can only be interpolated to global regular lat-lon target grids"
             )
 
-        r = earthkit.data.FieldList()
+        r = earthkit.data.FieldList.from_fields([])
         for i, f in enumerate(ds):
             vv = f.to_numpy(flatten=True)
 
-- 
2.43.0


From 972a6511fb5ce980884f3358ff46468398d16d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 52/60] fix: reject an empty grid specification for xarray data

---
 src/earthkit/regrid/data/xarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index e8802b2..52757a7 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -22,6 +22,10 @@ class GridWrapper:
     def __init__(self, grid_spec):
         from mir import Grid
 
+        if not grid_spec:
+            # the grid made of an empty specification cannot be used safely
+            raise ValueError("The grid specification is empty")
+
         self._grid = Grid(**grid_spec)
         self._grid_spec = grid_spec
 
-- 
2.43.0


From 7254eb10d24c42285cb8c20d88a4c61342ea96d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 53/60] fix: identify the points of a grid by all their
 coordinates

---
 src/earthkit/regrid/utils/mir.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index b6a6c6a..3539a31 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -98,10 +98,12 @@ def _griddef_from_latlon(lat, lon, dir=None):
     import hashlib
 
     version = 1
-    coord = str(version) + str(lat) + str(lon)
-    hash = hashlib.md5(coord.encode()).hexdigest()
+    hash = hashlib.md5(str(version).encode())
+    for x in (lat, lon):
+        # all the values, in full: the text of an array is abbreviated
+        hash.update(np.asarray(x, dtype=np.float64).tobytes())
 
-    name = Path(hash + ".griddef")
+    name = Path(hash.hexdigest() + ".griddef")
     if dir:
         name = dir / name
 
-- 
2.43.0


From ca6f51a9398ff6a0a36095cf1b5a37b871793ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 54/60] fix: create the cache directory of MIR for the points
 of a grid

---
 src/earthkit/regrid/utils/mir.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 3539a31..08c5be0 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -106,6 +106,7 @@ def _griddef_from_latlon(lat, lon, dir=None):
     name = Path(hash.hexdigest() + ".griddef")
     if dir:
         name = dir / name
+        name.parent.mkdir(parents=True, exist_ok=True)
 
     if not name.exists():
         mir_write_latlon_to_griddef(name, lat, lon)
-- 
2.43.0


From 67ea78b02b60f4d74ce9e1e3e525b746359b2da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 55/60] fix: write the points of a grid atomically

---
 src/earthkit/regrid/utils/mir.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 08c5be0..9b62aa6 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -9,6 +9,8 @@
 # nor does it submit to any jurisdiction.
 #
 
+import os
+import threading
 from pathlib import Path
 from typing import Dict
 from typing import List
@@ -109,7 +111,10 @@ def _griddef_from_latlon(lat, lon, dir=None):
         name.parent.mkdir(parents=True, exist_ok=True)
 
     if not name.exists():
-        mir_write_latlon_to_griddef(name, lat, lon)
+        # a file of that name is always complete
+        tmp = name.with_name(f"{name.name}.{os.getpid()}-{threading.get_ident()}.tmp")
+        mir_write_latlon_to_griddef(tmp, lat, lon)
+        os.replace(tmp, name)
 
     return str(name)
 
-- 
2.43.0


From ca5a5fd811ce3c6c644b16e718d75a8983a36864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 56/60] fix: compute a weight matrix afresh whatever the output
 file contains

---
 src/earthkit/regrid/utils/mir.py | 45 ++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 9b62aa6..2a9d071 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -10,8 +10,10 @@
 #
 
 import os
+import shutil
 import threading
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import Dict
 from typing import List
 from typing import Optional
@@ -151,30 +153,35 @@ def mir_make_matrix(
     else:
         raise ValueError("mir_make_matrix: output grid or lats/lons must be provided.")
 
-    mat = Path(output)
-    if ext == ".mat":
-        job.set("interpolation-matrix", str(mat))
-    elif ext == ".npz":
-        mat = mat.with_name(mat.name + ".mat")  # later unlinked
-        job.set("interpolation-matrix", str(mat))
-
     for key, val in kwargs.items():
         job.set(key, val)
 
-    try:
-        job.execute(input, mir.EmptyOutput())
-    except Exception as e:
-        raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
+    # MIR uses the matrix file if there is one already, whatever its grids, and otherwise makes it
+    # a hard link to a file of its cache
+    cache = Path(mir.cache())
+    cache.mkdir(parents=True, exist_ok=True)
+    with TemporaryDirectory(dir=cache) as tmp:
+        mat = Path(tmp) / "matrix.mat"
+        job.set("interpolation-matrix", str(mat))
+
+        try:
+            job.execute(input, mir.EmptyOutput())
+        except Exception as e:
+            raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
+
+        if not mat.exists():
+            raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
 
-    if ext and not mat.exists():
-        raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
+        if output is None:
+            return mir_cached_matrix_to_array(mat)
 
-    if ext == ".npz":
-        mir_cached_matrix_to_file(str(mat), output)
-        mat.unlink()
-        assert Path(output).exists()
-    elif not ext:
-        return mir_cached_matrix_to_array(mat)
+        with TemporaryDirectory(dir=Path(output).parent) as out:
+            result = Path(out) / f"matrix{ext}"
+            if ext == ".npz":
+                mir_cached_matrix_to_file(str(mat), result)
+            else:
+                shutil.copyfile(mat, result)
+            os.replace(result, output)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8165b37766b1174125638e6e5ef8cf16df7cb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 57/60] fix: regrid labelled arrays that share some dimensions
 with the result

---
 src/earthkit/regrid/data/xarray.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 52757a7..adfd577 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -301,9 +301,8 @@ class XarrayDataHandler(DataHandler):
         import numpy as np
         import xarray as xr
 
-        exclude_dims = set()
-        if set(in_dims) == set(out_dims):
-            exclude_dims = set(in_dims)
+        # the dimensions whose size can change
+        exclude_dims = set(in_dims) & set(out_dims)
 
         # regrid can change the specified output gridspec.
         # This is a workaround to get the returned output gridscpec from regrid.
-- 
2.43.0


From 4048ccee9c677442b08855c41ad4318d7ba328e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 58/60] fix: create one temporary directory for the threads
 when the cache is off

---
 src/earthkit/regrid/utils/caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 4332587..79caa58 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -709,16 +709,17 @@ class NoCachePolicy(CachePolicy):
     OUTDATED_CHECK_KEYS = ["cache-policy", "temporary-directory-root"]
     _name = "off"
     _dir = None
+    _dir_lock = threading.Lock()
 
     def managed(self):
         return False
 
     def directory(self):
-        if self._dir is None:
+        with self._dir_lock:
             if self._dir is None:
                 root_dir = self._expand_path(self._config.get("temporary-directory-root"))
                 self._dir = temp_directory(dir=root_dir)
-        return self._dir.path
+            return self._dir.path
 
     def use_message_position_index_cache(self):
         return False
-- 
2.43.0


From bfeaa2d4e19c2bf9a60f785288eb34605f1341fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 59/60] fix: do not leave a directory partly removed in the
 cache

---
 src/earthkit/regrid/utils/caching.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 79caa58..8677de2 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -18,6 +18,7 @@ import shutil
 import sqlite3
 import threading
 import time
+import uuid
 from abc import ABCMeta
 from abc import abstractmethod
 from copy import deepcopy
@@ -366,7 +367,10 @@ class CacheManager(threading.Thread):
 
         try:
             if os.path.isdir(path) and not os.path.islink(path):
-                shutil.rmtree(path)
+                # a directory that is only partly removed must not be found at its path
+                removed = f"{path}.{uuid.uuid4().hex}.tmp"
+                os.rename(path, removed)
+                shutil.rmtree(removed)
             else:
                 os.unlink(path)
         except Exception as e:
-- 
2.43.0


From bc911c6d825fba4556fce1948ab9d2e29e4bb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:40 +0000
Subject: [PATCH 60/60] fix: a page served instead of weights no longer spoils
 the resumed download

The part kept from an answer that was not the file became the start of
the weights when the download was resumed; the result looked like a zip
file, was cached and could never be read. The content is now verified
and the download is started again when the part was wrong.
---
 src/earthkit/regrid/backends/db.py    | 7 ++++++-
 src/earthkit/regrid/utils/download.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 5b2df13..2d44e8e 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -68,7 +68,12 @@ def make_sha(data):
 
 
 def _check_npz(path):
-    if not zipfile.is_zipfile(path):
+    valid = zipfile.is_zipfile(path)
+    if valid:
+        with zipfile.ZipFile(path) as f:
+            # can raise too
+            valid = f.testzip() is None
+    if not valid:
         raise ValueError(f"Invalid matrix file: {path}")
 
 
diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index bcda071..1f9d9a9 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -111,6 +111,8 @@ def download_and_cache(
         if os.path.exists(partial) and not can_resume(partial):
             os.unlink(partial)
 
+        resumed = os.path.exists(partial)
+
         downloader.download(target)
 
         if check is not None:
@@ -118,7 +120,10 @@ def download_and_cache(
                 check(target)
             except Exception:
                 os.unlink(target)
-                raise
+                if not resumed:
+                    raise
+                # the part downloaded earlier can be wrong: start again, once
+                return download(target, _)
 
         return downloader.cache_data()
 
-- 
2.43.0

