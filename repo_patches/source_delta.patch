From ff7700ca56d7ac750e208fa7caf95b3ad2c7e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 01/37] fix: UpdateCacheMiddleware used on its own has no tags
 attribute

---
 django_cache_dependencies/middleware.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 958a316..e585ab7 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -116,6 +116,7 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         self.key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
         self.cache_anonymous_only = getattr(settings, 'CACHE_MIDDLEWARE_ANONYMOUS_ONLY', False)
         self.cache_alias = settings.CACHE_MIDDLEWARE_ALIAS
+        self.tags = lambda request: ()
         self.get_response = get_response
 
     # patch start
-- 
2.43.0


From 87df359c1dc343f3dc2fe1facc07b4c88d0e0d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 02/37] fix: non-integer fragment timeout raises AttributeError
 instead of TemplateSyntaxError

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 2c1569c..3ca3454 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -81,7 +81,7 @@ class CacheNode(Node):
                     timeout = int(timeout)
                 except (ValueError, TypeError):
                     raise TemplateSyntaxError(
-                        '"cache" tag got a non-integer timeout value: {0}'.fomat(
+                        '"cache" tag got a non-integer timeout value: {0}'.format(
                             timeout
                         )
                     )
-- 
2.43.0


From 35f677f01befdc9a166397b105789db84bf766ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 03/37] fix: validate_key fails with ValueError on control
 characters instead of warning

---
 cache_dependencies/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 545c34a..ffba1b2 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -318,7 +318,7 @@ class AbstractCache(interfaces.ICache):
             if ord(char) < 33 or ord(char) == 127:
                 warnings.warn(
                     'Cache key contains characters that will cause ' +
-                    'errors if used with memcached: {0:!r}'.format(key)
+                    'errors if used with memcached: {0!r}'.format(key)
                 )
 
     def incr_version(self, key, delta=1, version=None):
-- 
2.43.0


From 1b8402bcda336f4aea5e23fe67838bd590884729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 04/37] fix: cache_transaction_all(cache=...) returns None, and
 an exception leaves the transaction open

---
 django_cache_dependencies/decorators.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index e047ebc..5dc013e 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -48,8 +48,10 @@ def cache_transaction_all(f=None, cache=None):
 
     def wrapper(*args, **kwargs):
         cache.transaction.begin()
-        result = f(*args, **kwargs)
-        cache.transaction.flush()
+        try:
+            result = f(*args, **kwargs)
+        finally:
+            cache.transaction.flush()
         return result
 
     if f:
@@ -58,10 +60,14 @@ def cache_transaction_all(f=None, cache=None):
     def wrapper_outer(f):
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
-            result = f(*args, **kwargs)
-            cache.transaction.flush()
+            try:
+                result = f(*args, **kwargs)
+            finally:
+                cache.transaction.flush()
             return result
 
+        return wrapper
+
     return wrapper_outer
 
 
-- 
2.43.0


From 6c26885f932847efe36a2363929f182fa3bb73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 05/37] fix: ignore_descendants set on the cache instance has
 no effect

---
 cache_dependencies/tagging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 511bb21..0a1ee2f 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -10,6 +10,14 @@ class CacheTagging(object):  # Backward compatibility
         """Constructor of cache instance."""
         self.cache = CacheWrapper(cache, relation_manager, transaction)
 
+    @property
+    def ignore_descendants(self):
+        return self.cache.ignore_descendants
+
+    @ignore_descendants.setter
+    def ignore_descendants(self, value):
+        self.cache.ignore_descendants = value
+
     def get_or_set_callback(self, key, callback, tags=(), timeout=None,
                             version=None, args=None, kwargs=None):
         """Returns cache value if exists
-- 
2.43.0


From 7bdeccfe7cd2d07169ed16f1eaea88165adb1d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 06/37] fix: 'key in cache' raises TypeError

---
 cache_dependencies/cache.py   | 3 +++
 cache_dependencies/tagging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index ffba1b2..9565f1e 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -189,6 +189,9 @@ class CacheWrapper(object):  # Adapter
     def _is_packed_data(data):
         return isinstance(data, dict) and '__dependency' in data and '__value' in data
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Delegate for all native methods."""
         return getattr(self.cache, name)
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 0a1ee2f..4c14741 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -75,6 +75,9 @@ class CacheTagging(object):  # Backward compatibility
         self.transaction.flush()
         return self
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Proxy for all native methods."""
         return getattr(self.cache, name)
-- 
2.43.0


From 8a0168e17863ce7e762aa04ab909b2c43bc58832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 07/37] fix: flush() of another thread's transaction manager is
 not refused

---
 cache_dependencies/transaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 1f326dd..00bd054 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -192,4 +192,5 @@ class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, Abs
         return self._delegate.finish()
 
     def flush(self):
+        self._validate_thread_sharing()
         return self._delegate.flush()
-- 
2.43.0


From 91884907fcee3a494b984e99f461d19dbb675ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 08/37] fix: a backend error at the end of a transaction leaves
 the transaction open

---
 cache_dependencies/cache.py       | 6 ++++--
 cache_dependencies/transaction.py | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 9565f1e..d142914 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -167,8 +167,10 @@ class CacheWrapper(object):  # Adapter
         self.relation_manager.pop(key).add_dependency(dependency, version)
 
     def close(self):
-        self.transaction.flush()
-        self.relation_manager.clear()
+        try:
+            self.transaction.flush()
+        finally:
+            self.relation_manager.clear()
         # self.cache.close()  # should be closed directly or by signal, for example, request_finished in Django.
 
     @staticmethod
diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 00bd054..074701e 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -169,8 +169,11 @@ class TransactionManager(AbstractTransactionManager):
         return self.current()
 
     def finish(self):
-        self.current().finish()
-        self.current(self.current().parent())
+        current = self.current()
+        try:
+            current.finish()
+        finally:
+            self.current(current.parent())
 
     def flush(self):
         while self._current:
-- 
2.43.0


From 6d214476496a3ce581e4dd93c67ee47d1d57e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 09/37] fix: get_or_set_callback() leaves its relation node
 behind when the callback raises

---
 cache_dependencies/cache.py   | 6 +++++-
 cache_dependencies/tagging.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index d142914..2f3f391 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -45,7 +45,11 @@ class CacheWrapper(object):  # Adapter
         if value is None:
             args = args or []
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                raise
             self.set(key, value, dependency, timeout, version)
         return value
 
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 4c14741..1744d45 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -28,7 +28,11 @@ class CacheTagging(object):  # Backward compatibility
         if value is None:
             args = args or ()
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.cache.abort(key)
+                raise
             self.set(key, value, tags, timeout, version)
         return value
 
-- 
2.43.0


From 82752a873e2fc40af91fd68d0e787a6d8bdc45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 10/37] fix: a template fragment leaves its relation node
 behind when its rendering raises

---
 .../templatetags/cache_tagging_tags.py                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 3ca3454..ff07bee 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -63,6 +63,13 @@ class CacheNode(Node):
         self.filters = filters
 
     def render(self, context):
+        try:
+            return self._render(context)
+        except BaseException:
+            cache.abort(self.fragment_name.resolve(context))
+            raise
+
+    def _render(self, context):
         cache_name = self.fragment_name.resolve(context)
         result = cache.get(cache_name)
 
-- 
2.43.0


From da3811b52daf5e29a5b74fbe3fc57878945c54c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 11/37] fix: get_many() loses keys given by an iterator and
 leaves relation nodes of missed keys behind

---
 cache_dependencies/cache.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 2f3f391..ccdb575 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -86,12 +86,6 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
-        if not abort and not self.ignore_descendants:
-            current_cache_node = self.relation_manager.current()
-            for key in keys:
-                self.begin(key)
-                self.relation_manager.current(current_cache_node)
-
         caches = self.cache.get_many(keys, version)
 
         cache_values, cache_dependencies = dict(), dict()
@@ -107,7 +101,11 @@ class CacheWrapper(object):  # Adapter
             for dependency_error in composite_error:
                 cache_values.pop(dependencies_reversed[dependency_error.dependency], None)
 
+        current_cache_node = self.relation_manager.current()
         for key in cache_values:  # Looping through filtered result
+            if not abort and not self.ignore_descendants:
+                self.begin(key)
+                self.relation_manager.current(current_cache_node)
             self.finish(key, cache_dependencies[key], version=version)
         return cache_values
 
-- 
2.43.0


From 26cc7c19799cba021f28bd1f4f90bc9a48f844cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 12/37] fix: get() leaves its relation node behind when the
 cache backend fails

---
 cache_dependencies/cache.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index ccdb575..d697222 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -65,17 +65,21 @@ class CacheWrapper(object):  # Adapter
         """
         if not abort and not self.ignore_descendants:
             self.begin(key)
-        data = self.cache.get(key, None, version)
-        if data is None:
-            return default
+        try:
+            data = self.cache.get(key, None, version)
+            if data is None:
+                return default
 
-        value, dependency = self._unpack_data(data)
+            value, dependency = self._unpack_data(data)
 
-        deferred = dependency.validate(self.cache, version)
-        try:
-            deferred.get()
-        except exceptions.DependencyInvalid:
-            return default
+            deferred = dependency.validate(self.cache, version)
+            try:
+                deferred.get()
+            except exceptions.DependencyInvalid:
+                return default
+        except BaseException:  # Nobody will finish the cache
+            self.abort(key)
+            raise
 
         self.finish(key, dependency, version=version)
         return value
-- 
2.43.0


From 5294934f42559b250614fb20e60ff6c7e637f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 13/37] fix: nested template fragment overwrites the tags and
 the prevent flag of the enclosing one

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index ff07bee..fded4ff 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -103,6 +103,7 @@ class CacheNode(Node):
                 context['cache_tagging_prevent'] = False
 
             sub_context = copy.copy(context)
+            sub_context.push()  # Copied context shares its dictionaries with the original one.
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
-- 
2.43.0


From 3f0d0ff3df853fdb683de9fe740349b2bad76cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 14/37] fix: cache_tagging_prevent is lost inside of with, for
 and include

---
 .../templatetags/cache_tagging_tags.py             | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index fded4ff..25a08b4 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -23,6 +23,16 @@ register = Library()
 kwarg_re = re.compile(r"(?:(\w+)=)?(.+)")
 
 
+def set_prevent(context):
+    """Prevents caching of the innermost fragment, through the scopes of {% with %}, {% for %}, etc."""
+    for context_dict in reversed(context.dicts):
+        if 'cache_tagging_prevent' in context_dict:
+            context_dict['cache_tagging_prevent'] = True
+            break
+    else:
+        context['cache_tagging_prevent'] = True
+
+
 class CacheAddTagsNode(Node):
     """Adds a new tags from body of {% cache_tagging %}."""
     def __init__(self, tags):
@@ -112,7 +122,7 @@ class CacheNode(Node):
 
             # Prevent caching of ancestor
             if sub_context['cache_tagging_prevent']:
-                context['cache_tagging_prevent'] = True
+                set_prevent(context)
             prevent = sub_context['cache_tagging_prevent']
 
             if 'request' in context:
@@ -212,7 +222,7 @@ def do_cache(parser, token):
 @register.simple_tag(takes_context=True)
 def cache_tagging_prevent(context):
     """Prevents caching from body of cachetags."""
-    context['cache_tagging_prevent'] = True
+    set_prevent(context)
     return ''
 
 register.tag('cache_tagging', do_cache)
-- 
2.43.0


From 2032f1a78c623a94080c8026558a0b64a6aa75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 15/37] fix: FileBasedCache writes files which the file backend
 of Django can not read, and leaks temporary files

---
 django_cache_dependencies/backends.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 07c0563..90b61f0 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -1,8 +1,9 @@
 import os
 import random
-import time
 import tempfile
 import threading
+import zlib
+from django.core.cache.backends.base import DEFAULT_TIMEOUT
 from django.core.cache.backends.filebased import pickle, FileBasedCache as DjangoFileBasedCache
 
 
@@ -11,19 +12,15 @@ class FileBasedCache(DjangoFileBasedCache):
 
     _fs_transaction_suffix = '.__dj_cache'
 
-    def set(self, key, value, timeout=None, version=None):
-        key = self.make_key(key, version=version)
-        self.validate_key(key)
-
-        fname = self._key_to_file(key)
+    def set(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
+        fname = self._key_to_file(key, version)
         dirname = os.path.dirname(fname)
-
-        if timeout is None:
-            timeout = self.default_timeout
+        expiry = self.get_backend_timeout(timeout)
 
         if random.random() > 0.8:
             threading.Thread(target=self._cull).start()
 
+        tmp = None
         try:
             if not os.path.exists(dirname):
                 os.makedirs(dirname)
@@ -32,9 +29,12 @@ class FileBasedCache(DjangoFileBasedCache):
                                        dir=dirname)
 
             with os.fdopen(fd, 'wb') as f:
-                now = time.time()
-                pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
-                pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
+                f.write(pickle.dumps(expiry, pickle.HIGHEST_PROTOCOL))
+                f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
             os.rename(tmp, fname)
+            tmp = None
         except (IOError, OSError):
             pass
+        finally:
+            if tmp is not None:
+                os.remove(tmp)
-- 
2.43.0


From d253e20f56075a09c555cba7d58de6f01efc2d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 16/37] fix: caches created during a transaction outlive it
 under READ UNCOMMITTED, REPEATABLE READ and SERIALIZABLE

---
 cache_dependencies/locks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/locks.py b/cache_dependencies/locks.py
index af16d76..082b3e7 100644
--- a/cache_dependencies/locks.py
+++ b/cache_dependencies/locks.py
@@ -57,6 +57,7 @@ class ReadUncommittedDependencyLock(DependencyLock):
         """
         if self._delay:
             return self._release_dependency_delayed(dependency, version)
+        self._release_dependency_target(dependency, version)
 
     def _release_dependency_delayed(self, dependency, version):
         return threading.Timer(self._delay, self._release_dependency_target, [dependency, version]).start()
@@ -74,7 +75,8 @@ class ReadCommittedDependencyLock(ReadUncommittedDependencyLock):
         :type version: int or None
         """
         self._release_dependency_target(dependency, version)
-        super(ReadCommittedDependencyLock, self).release(dependency, transaction, version)
+        if self._delay:
+            self._release_dependency_delayed(dependency, version)
 
 
 class RepeatableReadDependencyLock(DependencyLock):
@@ -94,6 +96,8 @@ class RepeatableReadDependencyLock(DependencyLock):
         :type version: int or None
         """
         dependency.release(self._cache(), transaction, self._delay, version)
+        # The transaction itself is allowed to create caches with uncommitted data.
+        dependency.invalidate(self._cache(), version)
 
 
 class SerializableDependencyLock(RepeatableReadDependencyLock):
-- 
2.43.0


From 723f8900172700891ccf55f28fa26bef803dba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 17/37] fix: own lock of a tag hides that a concurrent
 transaction has invalidated it

---
 cache_dependencies/dependencies.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index dd5e3bf..eae732e 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -322,6 +322,8 @@ class TagsDependency(interfaces.IDependency):
             if released_state is not None:
                 if state is None or released_state.is_released(state):
                     state = released_state
+                elif released_state.is_locked(transaction):  # Acquired by one transaction and released by another one
+                    state = released_state
             if state is not None and state.is_locked(transaction):
                 locked_tags.add(tag)
         return locked_tags
-- 
2.43.0


From 641e3f8c816a3ab2a08ddd0531fc3443ea70543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 18/37] fix: tag version created after a concurrent
 invalidation makes a stale cache valid

---
 cache_dependencies/dependencies.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index eae732e..6db9326 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -219,6 +219,11 @@ class TagsDependency(interfaces.IDependency):
             raise exceptions.TagsLocked(self, locked_tags)
         nonexistent_tags = self.tags - set(tag_versions.keys())
         created_tag_versions = self._make_tag_versions(cache, nonexistent_tags, version)
+        if nonexistent_tags:
+            # Concurrent transaction could invalidate the tags before their versions have been created.
+            locked_tags = self._get_locked_tags(cache, transaction, version).get()
+            if locked_tags:
+                raise exceptions.TagsLocked(self, locked_tags)
         tag_versions.update(created_tag_versions)
         self.tag_versions = tag_versions
 
-- 
2.43.0


From 80d5ba70195a802779acf5fd42eb5c19e718221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 19/37] fix: cached page misses the tags of caches used by the
 view if the list of headers has been missed

---
 django_cache_dependencies/middleware.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index e585ab7..4bb57c0 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -50,8 +50,9 @@ More details about how the caching works:
 """
 import collections
 from django.conf import settings
-from django.utils.cache import get_cache_key, get_max_age
+from django.utils.cache import get_cache_key, get_max_age, _generate_cache_header_key
 
+from cache_dependencies import dependencies
 from . import caches, DEFAULT_CACHE_ALIAS
 from .utils import patch_response_headers, learn_cache_key
 
@@ -173,13 +174,19 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         if hasattr(request, 'cache_tagging'):
             tags.update(request.cache_tagging)
         if timeout:
+            # If the list of headers has been missed, it has got the tags of all caches used by the view.
+            # The page depends on them too.
+            dependency = dependencies.CompositeDependency(dependencies.TagsDependency(tags))
+            dependency.extend(self.cache.relation_manager.get(
+                _generate_cache_header_key(self.key_prefix, request)
+            ).get_dependency())
             cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                 response.add_post_render_callback(
-                    lambda r: self.cache.set(cache_key, r, tags, timeout)  # patched
+                    lambda r: self.cache.set(cache_key, r, dependency, timeout)  # patched
                 )
             else:
-                self.cache.set(cache_key, response, tags, timeout)  # patched
+                self.cache.set(cache_key, response, dependency, timeout)  # patched
         # patch end
         return response
 
-- 
2.43.0


From 4dab76515aafdf2a96d125673afbea71f965bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 20/37] fix: function decorated by @cache.transaction can be
 called only in the thread which has decorated it

---
 django_cache_dependencies/__init__.py | 29 ++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index f2eb864..424b04d 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -13,7 +13,10 @@ from django.utils.functional import curry
 from cache_dependencies.tagging import CacheTagging
 from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
 from cache_dependencies.locks import DependencyLock
-from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
+from cache_dependencies.transaction import (
+    AbstractTransactionManager, TransactionManager, ThreadSafeTransactionManagerDecorator
+)
+from cache_dependencies.utils import Undef
 from cache_dependencies.nocache import NoCache
 
 try:
@@ -82,6 +85,28 @@ class CacheCollection(object):
 caches = get_cache = CacheCollection()
 
 
+class DefaultTransactionProxy(AbstractTransactionManager):
+    """
+    Proxy access to the transaction manager of the default Cache object of the current thread.
+
+    Decorator @cache.transaction is applied in one thread, but the function is called in other ones.
+    """
+    def current(self, node=Undef):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.current(node)
+
+    def begin(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.begin()
+
+    def finish(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.finish()
+
+    def flush(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.flush()
+
+    def __getattr__(self, name):
+        return getattr(caches[DEFAULT_CACHE_ALIAS].transaction, name)
+
+
 class DefaultCacheProxy(object):
     """
     Proxy access to the default Cache object's attributes.
@@ -89,6 +114,8 @@ class DefaultCacheProxy(object):
     This allows the legacy `cache` object to be thread-safe using the new
     ``caches`` API.
     """
+    transaction = DefaultTransactionProxy()
+
     def __getattr__(self, name):
         return getattr(caches[DEFAULT_CACHE_ALIAS], name)
 
-- 
2.43.0


From 30138702bc7d873bf2c01f791cb1fc45134b31d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 21/37] fix: get_or_set_callback() recomputes a cached None and
 loses the tags used by the callback

---
 cache_dependencies/cache.py   | 6 +++---
 cache_dependencies/tagging.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index d697222..547432d 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 from __future__ import absolute_import, unicode_literals
 import warnings
-from cache_dependencies import interfaces, exceptions, dependencies
+from cache_dependencies import interfaces, exceptions, dependencies, utils
 
 try:
     str = unicode  # Python 2.* compatible
@@ -41,8 +41,8 @@ class CacheWrapper(object):  # Adapter
         :type args: tuple
         :type kwargs: dict
         """
-        value = self.get(key, version=version)
-        if value is None:
+        value = self.get(key, utils.Undef, version)
+        if value is utils.Undef:
             args = args or []
             kwargs = kwargs or {}
             try:
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 1744d45..1ab8adb 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -24,8 +24,8 @@ class CacheTagging(object):  # Backward compatibility
 
         Otherwise calls cache_funcs, sets cache value to it and returns it.
         """
-        value = self.get(key, version=version)
-        if value is None:
+        value = self.get(key, utils.Undef, version)
+        if value is utils.Undef:
             args = args or ()
             kwargs = kwargs or {}
             try:
-- 
2.43.0


From 5d896ba6d6a22f849d91f64521319f428968b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 22/37] fix: a copy of CompositeDependency shares its parts
 with the original

---
 cache_dependencies/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index 6db9326..9275ae6 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -102,7 +102,7 @@ class CompositeDependency(interfaces.IDependency):
 
     def __copy__(self):
         c = copy.copy(super(CompositeDependency, self))
-        c.delegates = c.delegates[:]
+        c.delegates = [copy.copy(delegate) for delegate in c.delegates]
         return c
 
 
-- 
2.43.0


From 178b2d23012ea766e01b286ce315131db315d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 23/37] fix: secret and tag name of NoCache are interpreted as
 regular expression

Islands of an instance whose secret contains special characters are delivered
unevaluated, or the instance executes islands with another secret.
---
 cache_dependencies/nocache.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index c7d6ac4..1c45b03 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -31,20 +31,18 @@ class NoCache(object):
         self.tag_name = tag_name
         # nocache.nocache can be used for nested cache handling.
         # Similar like Django {% openblock %} for "{%".
-        self._start = '<{0} secret="{1}" data="{{0}}">'.format(
-            self.tag_name, self.secret
-        )
+        self._start = '<{0} secret="{1}" data="{2}">'
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
         self.nocache_pattern = r'{0}(.+?)(?!<{1}){2}'.format(
-            self._start.format('([^"]+)'),
-            self.tag_name,
-            self._end
+            self._start.format(re.escape(self.tag_name), re.escape(self.secret), '([^"]+)'),
+            re.escape(self.tag_name),
+            re.escape(self._end)
         )
         self.nocache_re = re.compile(self.nocache_pattern, re.U|re.S)
 
     def start(self, **data):
-        return self._start.format(self.pickle(data))
+        return self._start.format(self.tag_name, self.secret, self.pickle(data))
 
     def end(self):
         return self._end
-- 
2.43.0


From 614c94ea71ef3ff3d459defd72a01e699187d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 24/37] fix: empty nocache island swallows the text up to the
 end of the next one

---
 cache_dependencies/nocache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index 1c45b03..de31378 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -34,7 +34,7 @@ class NoCache(object):
         self._start = '<{0} secret="{1}" data="{2}">'
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}(.+?)(?!<{1}){2}'.format(
+        self.nocache_pattern = r'{0}(.*?)(?!<{1}){2}'.format(
             self._start.format(re.escape(self.tag_name), re.escape(self.secret), '([^"]+)'),
             re.escape(self.tag_name),
             re.escape(self._end)
-- 
2.43.0


From 60197d581092c0276b002001d02c728b23b510a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 25/37] fix: nocache island is damaged if some line is indented
 less than the first one

---
 cache_dependencies/nocache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index de31378..f082c99 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -69,7 +69,8 @@ class NoCache(object):
                     continue
                 if start is None:
                     start = len(l) - len(l.lstrip())
-                lines_stripped.append(l[start:])
+                # Lines of comments and continuation lines can be indented less than the code.
+                lines_stripped.append(l[min(start, len(l) - len(l.lstrip())):])
             lines_stripped.append('')
             stdout = StringIO()
 
-- 
2.43.0


From 1a36964b77fd8c627d5f5fbdb6fc3bc3f452898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 26/37] fix: functions and comprehensions in a nocache island
 do not see its variables

---
 cache_dependencies/nocache.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index f082c99..8f955bc 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -81,13 +81,11 @@ class NoCache(object):
             _globals = {}
             _globals.update(globals())
             _globals['echo'] = echo
-
-            _locals = {}
-            _locals.update(data)
-            _locals.update(self.unpickle(match.group(1)))
+            _globals.update(data)
+            _globals.update(self.unpickle(match.group(1)))
 
             code = compile("\n".join(lines_stripped), '<string>', 'exec')
-            eval(code, _globals, _locals)
+            eval(code, _globals)
             result = stdout.getvalue()
             stdout.close()
             # After eval() nocache.start() will be converted to "<nocache:py ..."
-- 
2.43.0


From 8b54713b48d5bb337ded87eb775e0c5f8c67d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 27/37] fix: a context variable named tpl or self breaks
 fragments with nocache islands

---
 cache_dependencies/nocache.py                               | 6 +++++-
 .../templatetags/cache_tagging_tags.py                      | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index 8f955bc..453ed9a 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -57,6 +57,10 @@ class NoCache(object):
 
     def handle(self, tpl, **data):
         """eval nocache"""
+        return self.evaluate(tpl, data)
+
+    def evaluate(self, tpl, data):
+        """eval nocache, names of variables can be any"""
 
         def repl(match):
             lines = match.group(2).split('\n')
@@ -92,7 +96,7 @@ class NoCache(object):
             # and nocache.end() - to "</nocache>"
             # So, check again.
             if self._end in result:
-                result = self.handle(result, **data)
+                result = self.evaluate(result, data)
             return result
 
         result = self.nocache_re.sub(repl, tpl)
diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 25a08b4..46f6796 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -164,7 +164,7 @@ class CacheNode(Node):
                 '_p': pgettext_lazy,
                 'pgettext_lazy': pgettext_lazy,
             })
-            result = nocache_handler.handle(result, **context_dict)
+            result = nocache_handler.evaluate(result, context_dict)
 
         if 'phased' in self.kwargs and self.kwargs['phased'].resolve(context) and phased_render:
             # support for django-phased https://github.com/codysoyland/django-phased
-- 
2.43.0


From 7f04b9cf9ed36bb1b960cebc1fb30c12098ea799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 28/37] fix: an empty template fragment is never served and
 loses the tags of inner fragments when rendered again

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 46f6796..05d82b3 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -83,7 +83,7 @@ class CacheNode(Node):
         cache_name = self.fragment_name.resolve(context)
         result = cache.get(cache_name)
 
-        if not result:
+        if result is None:
             timeout = None
             if self.timeout_var:
                 try:
-- 
2.43.0


From 852ebbb1351d719300fb7cac649bb82c3a0a739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 29/37] fix: incr_version() with zero delta deletes the value

---
 cache_dependencies/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 547432d..94023c1 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -344,7 +344,8 @@ class AbstractCache(interfaces.ICache):
             raise ValueError("Key '%s' not found" % key)
 
         self.set(key, value, version=version + delta)
-        self.delete(key, version=version)
+        if delta:
+            self.delete(key, version=version)
         return version + delta
 
     def decr_version(self, key, delta=1, version=None):
-- 
2.43.0


From a33be1cf54b57fdf177d534a41ba4fe6ddf36c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 30/37] fix: FileBasedCache.set() raises if the directory is
 removed meanwhile

---
 django_cache_dependencies/backends.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 90b61f0..c75be88 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -37,4 +37,7 @@ class FileBasedCache(DjangoFileBasedCache):
             pass
         finally:
             if tmp is not None:
-                os.remove(tmp)
+                try:
+                    os.remove(tmp)
+                except OSError:
+                    pass
-- 
2.43.0


From fab7d7fee404a41d1940cef4b2f6967b50c69aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 31/37] fix: FileBasedCache.set() loses the value if another
 process creates the directory meanwhile

---
 django_cache_dependencies/backends.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index c75be88..091fbb2 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -22,9 +22,7 @@ class FileBasedCache(DjangoFileBasedCache):
 
         tmp = None
         try:
-            if not os.path.exists(dirname):
-                os.makedirs(dirname)
-
+            self._createdir()
             fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                        dir=dirname)
 
-- 
2.43.0


From cbf9c0b620ab9e8a3e591e2d73dc2faa51aa0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 32/37] fix: the template tags cannot be loaded under the
 deprecated package name

---
 cache_tagging/django_cache_tagging/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_tagging/django_cache_tagging/__init__.py b/cache_tagging/django_cache_tagging/__init__.py
index 43087f9..81b6e68 100644
--- a/cache_tagging/django_cache_tagging/__init__.py
+++ b/cache_tagging/django_cache_tagging/__init__.py
@@ -3,7 +3,7 @@ import sys
 import warnings
 from django_cache_dependencies import (
     CacheCollection, DefaultCacheProxy, caches, get_cache, cache, _clear_cached, CacheRegistry,
-    registry, autodiscover, close_caches, DEFAULT_CACHE_ALIAS
+    registry, autodiscover, close_caches, DEFAULT_CACHE_ALIAS, nocache
 )
 
 warnings.warn("cache_tagging.django_cache_tagging is deprecated. Use django_cache_dependencies instead", PendingDeprecationWarning, stacklevel=2)
-- 
2.43.0


From 52dc4bfa50410d5c37552550dfbe65884d20db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 33/37] fix: forked processes share the session id of their
 parent

---
 cache_dependencies/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/utils.py b/cache_dependencies/utils.py
index d48e1c7..31a6866 100644
--- a/cache_dependencies/utils.py
+++ b/cache_dependencies/utils.py
@@ -36,13 +36,13 @@ Undef = UndefType()
 
 def get_thread_id():
     """Returns id for current thread."""
-    try:
-        return _thread_local.thread_id
-    except AttributeError:
+    pid = os.getpid()
+    if getattr(_thread_local, 'pid', None) != pid:  # The process may be forked.
         _thread_local.thread_id = '{0}.{1}.{2}'.format(
-            socket.gethostname(), os.getpid(), _thread.get_ident()
+            socket.gethostname(), pid, _thread.get_ident()
         )
-        return get_thread_id()
+        _thread_local.pid = pid
+    return _thread_local.thread_id
 
 
 def warn(old, new, stacklevel=3):
-- 
2.43.0


From 803e87011dd7f6c230cc7c91af7c9bb989cd6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 34/37] fix: a key which is not a string breaks all later
 computations of the thread

---
 cache_dependencies/relations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cache_dependencies/relations.py b/cache_dependencies/relations.py
index e552a22..b41a226 100644
--- a/cache_dependencies/relations.py
+++ b/cache_dependencies/relations.py
@@ -77,10 +77,10 @@ class RelationManager(interfaces.IRelationManager):
     def current(self, key_or_node=Undef):
         if key_or_node is Undef:
             return self._current
-        if isinstance(key_or_node, string_types):
-            node = self.get(key_or_node)
-        else:
+        if isinstance(key_or_node, interfaces.ICacheNode):
             node = key_or_node
+        else:
+            node = self.get(key_or_node)
         self._current = node
 
     def pop(self, key):
-- 
2.43.0


From 529a9fd102d56be37ce3dbed54ca2eb00b081555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 35/37] fix: the default version given explicitly loses the
 tags of inner caches

---
 cache_dependencies/cache.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 94023c1..eb52ff3 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -126,7 +126,9 @@ class CacheWrapper(object):  # Adapter
             dependency = dependencies.DummyDependency()
         combined_dependency_with_descendants = dependencies.CompositeDependency()
         combined_dependency_with_descendants.extend(dependency)
-        combined_dependency_with_descendants.extend(self.relation_manager.get(key).get_dependency(version))
+        combined_dependency_with_descendants.extend(
+            self.relation_manager.get(key).get_dependency(self._normalize_version(version))
+        )
 
         try:
             self.transaction.current().evaluate(combined_dependency_with_descendants, version)
@@ -170,7 +172,7 @@ class CacheWrapper(object):  # Adapter
         :type dependency: cache_dependencies.interfaces.IDependency
         :type version: int or None
         """
-        self.relation_manager.pop(key).add_dependency(dependency, version)
+        self.relation_manager.pop(key).add_dependency(dependency, self._normalize_version(version))
 
     def close(self):
         try:
@@ -179,6 +181,10 @@ class CacheWrapper(object):  # Adapter
             self.relation_manager.clear()
         # self.cache.close()  # should be closed directly or by signal, for example, request_finished in Django.
 
+    def _normalize_version(self, version):
+        """The default version can be given explicitly, it's the same version."""
+        return None if version == getattr(self.cache, 'version', None) else version
+
     @staticmethod
     def _pack_data(value, dependency):
         return {
-- 
2.43.0


From cc82689ccbe17b3c81133711ab86699cea10c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 36/37] fix: autodiscover() finds applications named by the
 path of AppConfig

---
 django_cache_dependencies/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index 424b04d..edb2410 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -190,8 +190,14 @@ def autodiscover():
     """
     import imp
     from django.conf import settings
+    try:
+        from django.apps import AppConfig
+    except ImportError:  # Django < 1.7
+        AppConfig = None
     for app in settings.INSTALLED_APPS:
         try:
+            if AppConfig is not None:  # The entry can be a path of AppConfig
+                app = AppConfig.create(app).name
             __import__(app)
             imp.find_module("caches", sys.modules[app].__path__)
         except (ImportError, AttributeError):
-- 
2.43.0


From 4755b13a922646c32cd7ea5d67b1d1b36a2e9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 37/37] fix: when closing of one cache fails at the end of a
 request, the transactions of the other ones stay open

---
 django_cache_dependencies/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index edb2410..3de5527 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -206,7 +206,15 @@ def autodiscover():
 
 
 def close_caches(**kwargs):
-    for cache in caches.all():
-        cache.close()
+    opened = list(caches.all())
+
+    def close():  # All of them, even if one fails
+        if opened:
+            try:
+                opened.pop(0).close()
+            finally:
+                close()
+
+    close()
 
 core_signals.request_finished.connect(close_caches)
-- 
2.43.0

