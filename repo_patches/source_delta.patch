From 6d8c20fe78a21ac6b729539e803bcb58fdb7f084 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 01/47] fix: a failed commit no longer blocks the transaction
 manager

---
 citrine/storage/transaction.py | 44 +++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index a04a09f..0a8f148 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -28,14 +28,22 @@ class TransactionManager(ZoTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        except BaseException:
+            # a failed commit must not leave its transaction behind
             self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+            raise
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class ThreadTransactionManager(ZoThreadTransactionManager):
@@ -57,14 +65,22 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        except BaseException:
+            # a failed commit must not leave its transaction behind
             self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+            raise
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 def autocommit(fn):
-- 
2.43.0


From e46d895edb7bd84db7baaa52e002aaf887c90296 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 02/47] fix: falsy values are found and partly absent ids can
 be deleted

---
 citrine/connection/container_connection.py | 3 ++-
 citrine/storage/container.py               | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 145e4e6..d88131b 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -232,8 +232,9 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         if not isinstance(ids, Iterable):
             raise IndexError(f'index selector must be string or iterable of ' +
                              f'strings, not {ids}')
+        ids = list(ids)
         results = [self.container.read(id) for id in ids]
-        if not any(results):
+        if not any(self.container.has(id) for id in ids):
             raise KeyError(f'No values found for any of {ids}')
         return results
 
diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4af595f..6d5884a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -11,6 +11,8 @@ from citrine.storage.utils import (number_of_collections,
 logger = logging.getLogger(__name__)
 logger.setLevel(logging.INFO)
 
+MISSING = object()
+
 
 class Metadata(Persistent):
     """
@@ -365,7 +367,8 @@ class Container(Persistent, ContainerProperties):
         :return: the desired object if it exists, or the default if provided
         """
         for group in self.groups:
-            if ret := group.get(id):
+            # stored values may be falsy, only the marker means "not here"
+            if (ret := group.get(id, MISSING)) is not MISSING:
                 return ret
         return default
 
@@ -385,7 +388,8 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
-        return tuple(group.pop(id) for group in self.groups if self.has(id))
+        return tuple(group.pop(id) for group in self.groups
+                     if group.has_key(id))
 
     def __add__(self, other):
         """
-- 
2.43.0


From c9db117c6e3dbf66daebd2d39cbe5c50e6ec42e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 03/47] fix: resize and condense keep every object readable at
 every step

---
 citrine/storage/container.py | 52 +++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6d5884a..202edba 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -292,13 +292,10 @@ class Container(Persistent, ContainerProperties):
             removed = self.condense(transfer=transfer,
                                     transaction_manager=transaction_manager)
         else:
-            # if we only want to move over the data from the old primary,
-            # set aside all other groups, use condense, and put them back after
-            secondaries = self.groups[2:]
-            self.___groups___ = self.___groups___[:2]
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-            self.___groups___ += secondaries
+            # only move over the data from the old primary, all other groups
+            # stay where they are and readable
+            removed = self.___merge___(self.groups[1:2], transfer=transfer,
+                                       transaction_manager=transaction_manager)
         return removed
 
     def condense(self, transfer: bool = True, transaction_manager=None) \
@@ -321,17 +318,28 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.groups[1:]
+        return self.___merge___(self.groups[1:], transfer=transfer,
+                                transaction_manager=transaction_manager)
 
-        if transfer:
-            fn = lambda group, key: self.primary.insert(key, group.pop(key))
-        else:
-            fn = lambda group, key: self.primary.insert(key, group.get(key))
+    def ___merge___(self, source_groups, transfer, transaction_manager=None):
+        """
+        Copies or moves the contents of the source groups into the primary
+        group. Every step leaves each object readable, so an interrupted
+        operation can be repeated.
+        """
+        def fn(group, key):
+            if not group.has_key(key):
+                return
+            if not self.primary.has_key(key):
+                self.primary.insert(key, group.get(key))
+            if transfer:
+                group.pop(key)
 
         if transaction_manager:
-            with transaction_manager as tm:
-                for group in source_groups:
-                    for key in list(group.keys()):
+            for group in source_groups:
+                for key in list(group.keys()):
+                    # a transaction of its own for each step
+                    with transaction_manager as tm:
                         fn(group, key)
                         tm.commit()
         else:
@@ -340,16 +348,22 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            discarded = list(self.groups[1:])
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.groups[0],)
+                    self.___discard___(source_groups)
                     tm.commit()
             else:
-                self.___groups___ = (self.groups[0],)
-            return discarded
+                self.___discard___(source_groups)
+            return list(source_groups)
         return []
 
+    def ___discard___(self, groups):
+        """
+        Removes the groups from the container
+        """
+        self.___groups___ = tuple(group for group in self.groups
+                                  if group not in groups)
+
     def has(self, id) -> int:
         """
         Return a bool describing whether the object is already present in the
-- 
2.43.0


From c232902abc17befdd45e819cae17f4f67177dcc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 04/47] fix: strictness is kept and full strict collections
 accept updates

---
 citrine/database/containerdb.py | 2 +-
 citrine/storage/collection.py   | 3 ++-
 citrine/storage/group.py        | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 8e3386c..32f89fa 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -178,7 +178,7 @@ class ContainerDb(DB):
 
         :return: FileStorage object connecting back to the new ``ContainerDb``
         """
-        container = Container.new(capacity=capacity)
+        container = Container.new(capacity=capacity, strict=strict)
         storage = FileStorage(file_name, create=create, read_only=read_only,
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index d2d2e5e..c312e39 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -147,7 +147,8 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the collection exceeds
         the limit in strict mode
         """
-        if self.size >= self.max_size and self.strict:
+        if (self.size >= self.max_size and not self.has_key(key)
+                and self.strict):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bff8d13..57b0e36 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -269,7 +269,7 @@ class Group(Persistent):
                 raise ValueError('Collection sizes cannot be less than 1')
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
-            return Group(collections=collections)
+            return Group(collections=collections, strict=strict)
         # ensure any gaps are filled if custom definition is provided
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
@@ -289,7 +289,7 @@ class Group(Persistent):
         collections = tuple(Collection(max_size=max_collection_size,
                                        strict=strict)
                             for _, max_collection_size in sorted(custom.items()))
-        return Group(collections=collections)
+        return Group(collections=collections, strict=strict)
 
     @groupfn
     def get(self, key, default=None):
-- 
2.43.0


From 85be37a14ae4edf3cdcee3e3da654b1412a20e33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 05/47] fix: opening or creating a database never reopens or
 replaces what exists

---
 citrine/database/containerdb.py | 55 +++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 32f89fa..152d3cb 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -111,21 +111,32 @@ class ContainerDb(DB):
                 xrefs=xrefs, large_record_size=large_record_size,
                 **storage_args)
         except POSKeyError:
-            # often happens if the db is newly created
-            if not isinstance(storage, FileStorage):
-                # closing if storage is FileStorage will make the db unopenable
+            # often happens if the db is newly created; the storage has been
+            # opened by now and must not be opened or created a second time
+            given, storage, storage_args = storage, self.storage, {}
+            if databases:
+                databases.pop(database_name, None)
+            try:
+                db = DB(storage)
+                conn = db.open()
+                with conn.transaction_manager as tm:
+                    # if this exists, do nothing, the exception is unrelated
+                    # to the database being new!!
+                    if not getattr(conn.root, 'container', None):
+                        conn.root.container = Container.new()
+                        tm.commit()
+                conn.close()
+            except BaseException:
+                if storage is not given:
+                    storage.close()
+                raise
+        except BaseException:
+            # nobody else could close a storage that was opened here
+            if getattr(self, 'storage', storage) is not storage:
                 self.close()
-            db = DB(storage)
-            conn = db.open()
-            with conn.transaction_manager as tm:
-                # if this exists, do nothing, the exception is unrelated to
-                # the database being new!!
-                if not getattr(conn.root, 'container', None):
-                    conn.root.container = Container.new()
-                    tm.commit()
-            conn.close()
-            if not isinstance(storage, FileStorage):
-                db.close()
+            raise
+        else:
+            return
         super().__init__(
             storage=storage, pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
@@ -184,11 +195,17 @@ class ContainerDb(DB):
                               pack_keep_old=pack_keep_old, packer=packer,
                               blob_dir=blob_dir)
         # store the container in the database
-        conn = DB(storage).open()
-        with conn.transaction_manager as tm:
-            conn.root.container = container
-            tm.commit()
-        conn.close()
+        try:
+            conn = DB(storage).open()
+            with conn.transaction_manager as tm:
+                # never replace the container of an existing database
+                if not getattr(conn.root, 'container', None):
+                    conn.root.container = container
+                    tm.commit()
+            conn.close()
+        except BaseException:
+            storage.close()
+            raise
         return storage
 
     @classmethod
-- 
2.43.0


From 5bce9a1b6c0632c8a47627228b7c2c3b838f5579 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 06/47] fix: scopes of one database do not share their
 temporary connection

---
 citrine/database/containerdb.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 152d3cb..54e13da 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,7 +1,9 @@
+from threading import local
+
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
-from ZODB.POSException import POSKeyError
+from ZODB.POSException import ConnectionStateError, POSKeyError
 
 from citrine.connection.container_connection import ContainerConnection
 from citrine.storage.consts import DEFAULT_CONTAINER_SIZE
@@ -399,8 +401,19 @@ class ContainerDb(DB):
         context management process
         :return: connection object
         """
-        self.__context_manager_connection = self.open()
-        return self.__context_manager_connection
+        connection = self.open()
+        # scopes may be nested and used by several threads at once
+        scopes = self.__dict__.setdefault('___scopes___', local())
+        scopes.__dict__.setdefault('connections', []).append(connection)
+        return connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.__context_manager_connection.close()
+        connection = self.___scopes___.connections.pop()
+        try:
+            connection.close()
+        except ConnectionStateError:
+            # uncommitted changes must not keep the connection open
+            connection.transaction_manager.abort()
+            connection.close()
+            if exc_val is None:
+                raise
-- 
2.43.0


From 009a1e1310109a6f7ab572239060536ec1c1b12f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 07/47] fix: writes and resizes that overlap conflict instead
 of losing data

---
 citrine/storage/container.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 202edba..ac1dcbd 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -14,6 +14,16 @@ logger.setLevel(logging.INFO)
 MISSING = object()
 
 
+def require_current(obj):
+    """
+    Makes the transaction fail with a conflict if the stored object is changed
+    by another one before it commits
+    """
+    if obj._p_jar is not None:
+        obj._p_activate()
+        obj._p_jar.readCurrent(obj)
+
+
 class Metadata(Persistent):
     """
     Object used by a CitrineConnection as a form of metadata on the contents of
@@ -328,6 +338,7 @@ class Container(Persistent, ContainerProperties):
         operation can be repeated.
         """
         def fn(group, key):
+            require_current(self)
             if not group.has_key(key):
                 return
             if not self.primary.has_key(key):
@@ -359,8 +370,12 @@ class Container(Persistent, ContainerProperties):
 
     def ___discard___(self, groups):
         """
-        Removes the groups from the container
+        Removes the groups from the container, together with the condition
+        that nothing is put into their collections meanwhile
         """
+        for group in groups:
+            for collection in group.collections:
+                require_current(collection.tree)
         self.___groups___ = tuple(group for group in self.groups
                                   if group not in groups)
 
@@ -392,6 +407,7 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier for the object to be stored
         :param obj: the object to be stored
         """
+        require_current(self)
         if not (res := self.primary.insert(id, obj)):
             return self.primary.update({id: obj})
         return res
@@ -402,6 +418,7 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
+        require_current(self)
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
-- 
2.43.0


From 7bf212587a7a1c5238762c222de365b0965c638e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 08/47] fix: overlapping inserts cannot exceed a strict
 collection's maximum

---
 citrine/storage/collection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index c312e39..9f9f7a1 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -152,6 +152,9 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
+        if self.strict and not self.has_key(key):
+            # two transactions must not both take the last free place
+            self.meta._p_changed = True
         return self.tree.insert(key, value)
 
     def update(self, collection):
@@ -166,6 +169,8 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
+        if self.strict and new_keys:
+            self.meta._p_changed = True
         return self.tree.update(collection)
 
     def pop(self, key, default=None):
-- 
2.43.0


From 9277257525c5cdca5b03237dfa87fd51756069cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 09/47] fix: copying without transfer conflicts with writes to
 what it copies

---
 citrine/storage/container.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index ac1dcbd..81f2db4 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -2,7 +2,7 @@ import logging
 from typing import List, Tuple
 
 from persistent import Persistent
-from citrine.storage.group import Group
+from citrine.storage.group import Group, get_group_index
 from citrine.storage.consts import (DEFAULT_CONTAINER_SIZE,
                                     DEFAULT_COLLECTION_SIZE)
 from citrine.storage.utils import (number_of_collections,
@@ -24,6 +24,21 @@ def require_current(obj):
         obj._p_jar.readCurrent(obj)
 
 
+def require_unchanged(group, key):
+    """
+    Makes the transaction fail with a conflict if the value of the key in the
+    group is changed or removed by another one before it commits
+    """
+    index = get_group_index(key, len(group.collections))
+    tree = group.collections[index].tree
+    require_current(tree)
+    bucket = tree._firstbucket
+    bucket._p_activate()
+    while bucket._next is not None and bucket._next.minKey() <= key:
+        bucket = bucket._next
+    require_current(bucket)
+
+
 class Metadata(Persistent):
     """
     Object used by a CitrineConnection as a form of metadata on the contents of
@@ -345,6 +360,8 @@ class Container(Persistent, ContainerProperties):
                 self.primary.insert(key, group.get(key))
             if transfer:
                 group.pop(key)
+            else:
+                require_unchanged(group, key)
 
         if transaction_manager:
             for group in source_groups:
-- 
2.43.0


From e591cb3d308fd96da75dbfee66e1d097a995e433 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 10/47] fix: deletes and updates conflict with copies and
 deletes made meanwhile

---
 citrine/storage/container.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 81f2db4..7582a58 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -26,13 +26,15 @@ def require_current(obj):
 
 def require_unchanged(group, key):
     """
-    Makes the transaction fail with a conflict if the value of the key in the
-    group is changed or removed by another one before it commits
+    Makes the transaction fail with a conflict if the key is added to, changed
+    in or removed from the group by another one before it commits
     """
     index = get_group_index(key, len(group.collections))
     tree = group.collections[index].tree
     require_current(tree)
     bucket = tree._firstbucket
+    if bucket is None:
+        return
     bucket._p_activate()
     while bucket._next is not None and bucket._next.minKey() <= key:
         bucket = bucket._next
@@ -357,11 +359,14 @@ class Container(Persistent, ContainerProperties):
             if not group.has_key(key):
                 return
             if not self.primary.has_key(key):
-                self.primary.insert(key, group.get(key))
+                # earlier groups take precedence, also while another resize
+                # is moving their contents
+                self.primary.insert(key, self.read(key, group.get(key)))
             if transfer:
                 group.pop(key)
             else:
-                require_unchanged(group, key)
+                for other in self.groups[1:]:
+                    require_unchanged(other, key)
 
         if transaction_manager:
             for group in source_groups:
@@ -425,6 +430,9 @@ class Container(Persistent, ContainerProperties):
         :param obj: the object to be stored
         """
         require_current(self)
+        for group in self.groups[1:]:
+            # what is replaced must not be deleted or moved meanwhile
+            require_unchanged(group, id)
         if not (res := self.primary.insert(id, obj)):
             return self.primary.update({id: obj})
         return res
@@ -436,6 +444,9 @@ class Container(Persistent, ContainerProperties):
         :return: removed object
         """
         require_current(self)
+        for group in self.groups:
+            # a copy that is made meanwhile must not stay behind
+            require_unchanged(group, id)
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
-- 
2.43.0


From 7f91e9a24dc6811ebe1df9422109235107c36f7d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 11/47] fix: a delete conflicts with a copy made meanwhile

---
 citrine/storage/container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 7582a58..a790dfd 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -365,6 +365,8 @@ class Container(Persistent, ContainerProperties):
             if transfer:
                 group.pop(key)
             else:
+                # nothing may be deleted while only the copy is not seen
+                self._p_changed = True
                 for other in self.groups[1:]:
                     require_unchanged(other, key)
 
@@ -444,9 +446,6 @@ class Container(Persistent, ContainerProperties):
         :return: removed object
         """
         require_current(self)
-        for group in self.groups:
-            # a copy that is made meanwhile must not stay behind
-            require_unchanged(group, id)
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
-- 
2.43.0


From 83aea866ed24ab9b495d3305be948cf2c1292d45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 12/47] fix: a reused connection does not keep its previous
 user's commit mode

---
 citrine/database/containerdb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 54e13da..9440096 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -27,8 +27,12 @@ class ContainerDb(DB):
 
     def open(self, transaction_manager=None, at=None, before=None):
         transaction_manager = transaction_manager or ThreadTransactionManager()
-        return super().open(transaction_manager=transaction_manager, at=at,
-                     before=before)
+        connection = super().open(transaction_manager=transaction_manager,
+                                  at=at, before=before)
+        # a reused connection must not keep the mode of its previous user
+        connection.___autocommit___ = getattr(transaction_manager,
+                                              'autocommit', True)
+        return connection
 
     def __init__(self, storage, pool_size: int = 7,
                  pool_timeout: int = 2147483648, cache_size: int = 400,
-- 
2.43.0


From 566843f99540feb437d2f2ad42353879e7d59b50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 13/47] fix: strict containers holding too much accept updates
 of stored ids

---
 citrine/storage/collection.py | 3 ++-
 citrine/storage/group.py      | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 9f9f7a1..68d2e36 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -165,7 +165,8 @@ class Collection(Persistent):
         inserted will exceed the limit in strict mode
         """
         new_keys = [key for key in collection.keys() if key not in self.keys()]
-        if self.size + len(new_keys) > self.max_size and self.strict:
+        if (new_keys and self.size + len(new_keys) > self.max_size
+                and self.strict):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 57b0e36..7deeeb1 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -322,8 +322,9 @@ class Group(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
-        new_keys = (key for key in collection.keys() if key not in self.keys())
-        if len(tuple(new_keys)) + self.size > self.max_size and self.strict:
+        new_keys = [key for key in collection.keys() if key not in self.keys()]
+        if (new_keys and len(new_keys) + self.size > self.max_size
+                and self.strict):
             raise GroupCapacityError("Maximum size reached! Cannot perform update")
 
         num_collections = len(self.collections)
-- 
2.43.0


From 2762b92e361aed3219663fec7d2a683212f1f718 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 14/47] fix: a storage that cannot be opened is reported as it
 is

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 9440096..c76d4ca 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -138,7 +138,7 @@ class ContainerDb(DB):
                 raise
         except BaseException:
             # nobody else could close a storage that was opened here
-            if getattr(self, 'storage', storage) is not storage:
+            if self.__dict__.get('storage', storage) is not storage:
                 self.close()
             raise
         else:
-- 
2.43.0


From ba4bc5c476b968a13145a164576a48c1e35efbf6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 15/47] fix: generated database modules import the database
 class that exists

---
 citrine/cluster_tools/dbmodule/consts.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 45e8742..325078c 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -5,11 +5,11 @@ Constant strings for cluster tools, mostly boilerplate for generating files
 DBMODULE_DISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
-from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from os.path import dirname, join, split
+from citrine.database.containerdb import ContainerDb
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb.new(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = True
 '''
@@ -17,11 +17,11 @@ DISCOVERABLE = True
 DBMODULE_UNDISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
-from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from os.path import dirname, join, split
+from citrine.database.containerdb import ContainerDb
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb.new(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = False
 '''
-- 
2.43.0


From 2edc166ef8605c76f28b43584d5549e4cde6d192 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 16/47] fix: database modules are created in one step and
 deleted without foreign files

---
 citrine/cluster_tools/dbmodule/consts.py   |  4 +++
 citrine/cluster_tools/dbmodule/dbmodule.py | 42 +++++++++++++++-------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 325078c..b55b1c1 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -28,3 +28,7 @@ DISCOVERABLE = False
 
 # Shorthand, basically a default value
 DBMODULE_INIT = DBMODULE_DISCOVERABLE_INIT
+
+# Expression for what is added to the name in files of a module's storage
+DBMODULE_STORAGE_SUFFIX = \
+    r'(\.index|\.index\.index_tmp|\.lock|\.tmp|\.old|\.pack|\.tr\d+)?'
diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 661010b..5443d37 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -4,13 +4,14 @@ citrine.cluster.DbModule object.
 """
 from uuid import uuid4
 
-from os import mkdir, listdir, rmdir, remove
-from os.path import join, exists, split, isfile
+from os import fsync, mkdir, listdir, replace, rmdir, remove
+from os.path import abspath, join, exists, split, isdir, isfile
+from re import escape, fullmatch
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
 from citrine.cluster_tools.dbmodule.consts import DBMODULE_DISCOVERABLE_INIT, \
-    DBMODULE_UNDISCOVERABLE_INIT
+    DBMODULE_STORAGE_SUFFIX, DBMODULE_UNDISCOVERABLE_INIT
 from uuid import uuid4
 
 
@@ -30,13 +31,20 @@ def create_dbmodule(path: str = '.', name: str = None, discoverable: bool = True
     path = join(path, name)
     if not overwrite and exists(path):
         raise IOError(f'DbModule already exists at "{path}"')
-    mkdir(path)
+    if exists(path):
+        delete_dbmodule(path, remove_empty=False)
+    else:
+        mkdir(path)
+    # the init file appears when it is complete
     init_path = join(path, '__init__.py')
-    with open(init_path, 'w') as writer:
+    with open(init_path + '.new', 'w') as writer:
         if discoverable:
             writer.write(DBMODULE_DISCOVERABLE_INIT)
         else:
             writer.write(DBMODULE_UNDISCOVERABLE_INIT)
+        writer.flush()
+        fsync(writer.fileno())
+    replace(init_path + '.new', init_path)
     return path
 
 
@@ -55,12 +63,22 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     if remove_all:
         rmtree(path)
         return
-    name = split(path)[1]
-    affected = [join(path, file) for file in listdir(path)
-                if (isfile(join(path, file)) and file.startswith(name))
-                    or file == '__init__.py']
-    for file in affected:
-        remove(file)
+    name = split(abspath(path))[1]
+    # files of the storage and of an interrupted creation; anything else is not
+    # part of the module. Without its init file it is no longer a module.
+    own = ['__init__.py', '__init__.py.new']
+    own += [file for file in listdir(path) if
+            fullmatch(escape(name) + DBMODULE_STORAGE_SUFFIX, file)]
+    for file in own:
+        if isfile(join(path, file)):
+            remove(join(path, file))
+    cache = join(path, '__pycache__')
+    if isdir(cache):
+        for file in listdir(cache):
+            if file.startswith('__init__.'):
+                remove(join(cache, file))
+        if not listdir(cache):
+            rmdir(cache)
     if remove_empty and not len(listdir(path)):
         rmdir(path)
 
@@ -175,7 +193,7 @@ class DbModule:
 
         The provided name will be given to the newly created database
         """
-        module_path = create_dbmodule(path, name, overwrite)
+        module_path = create_dbmodule(path, name, overwrite=overwrite)
         return DbModule(module_path)
 
     @classmethod
-- 
2.43.0


From c43421fb147329271ca9399a229b8d591604c942 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 17/47] fix: ordered listings and bounds of a group cover all
 of its collections

---
 citrine/storage/group.py | 79 +++++++++-------------------------------
 1 file changed, 18 insertions(+), 61 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 7deeeb1..3915b94 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -1,6 +1,8 @@
 import logging
+from heapq import merge
 from itertools import chain
 from math import ceil
+from operator import itemgetter
 from uuid import uuid4
 
 from persistent import Persistent
@@ -385,23 +387,8 @@ class Group(Persistent):
         :param max: the highest key to return
         :return: generator of key
         """
-        gens = [collection.iterkeys(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        return merge(*(collection.iterkeys(min, max)
+                       for collection in self.collections))
 
     def values(self):
         """
@@ -418,23 +405,7 @@ class Group(Persistent):
         :param max: the highest value to return
         :return: generator of values
         """
-        gens = [collection.itervalues(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        return (value for key, value in self.iteritems(min, max))
 
     def items(self):
         """
@@ -451,29 +422,9 @@ class Group(Persistent):
         :param max: the highest key in the items
         :return: generator of key-value pairs
         """
-        gens = [collection.iteritems(min, max)
-                for collection in self.collections]
-        keys = list()
-        items = dict()
-        for gen in gens:
-            try:
-                item = next(gen)
-                keys.append(item[0])
-                items[item[0]] = item[1]
-            except StopIteration:
-                keys.append(None)
-        while any(keys):
-            # get the lowest value
-            next_key = minimum((v for v in keys if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                item = next(gens[keys.index(next_key)])
-                keys[keys.index(next_key)] = item[0]
-                items[item[0]] = item[1]
-                yield next_key, items.pop(next_key)
-            except StopIteration:
-                keys[keys.index(next_key)] = None
-                yield next_key, items.pop(next_key)
+        return merge(*(collection.iteritems(min, max)
+                       for collection in self.collections),
+                     key=itemgetter(0))
 
     def byValue(self, min=None):
         """
@@ -495,8 +446,7 @@ class Group(Persistent):
         :param max: highest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return maximum(collection.maxKey(max)
-                       for collection in self.collections)
+        return maximum(self.___bounds___('maxKey', max))
 
     def minKey(self, min=None):
         """
@@ -505,8 +455,15 @@ class Group(Persistent):
         :param max: lowest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return minimum(collection.minKey(min)
-                       for collection in self.collections)
+        return minimum(self.___bounds___('minKey', min))
+
+    def ___bounds___(self, name, limit):
+        # collections without a suitable key raise a ValueError
+        for collection in self.collections:
+            try:
+                yield getattr(collection, name)(limit)
+            except ValueError:
+                pass
 
     @groupfn
     def has_key(self, key):
-- 
2.43.0


From de9fa08238c5b9366df1239094e8cdd68613d903 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 18/47] fix: classic connections work with their own managers
 and survive a failed commit

---
 citrine/connection/connection.py |  5 +++++
 citrine/persistence.py           | 26 ++++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index f8d8f4b..e782ca3 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -47,6 +47,11 @@ class CitrineConnection(Connection):
 
         self.logger = getattr(self, 'logger', logging.getLogger(__name__))
 
+    def open(self, transaction_manager=None, delegate=True):
+        # the default manager of ZODB does not know automatic commits
+        super().open(transaction_manager or CitrineThreadTransactionManager(),
+                     delegate)
+
     def num_containers(self) -> int:
         return self.container.containers_size
 
diff --git a/citrine/persistence.py b/citrine/persistence.py
index bdf47d6..6328625 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -8,7 +8,9 @@ import logging
 
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
-from transaction import ThreadTransactionManager, TransactionManager
+from transaction import TransactionManager
+
+from citrine.storage.transaction import ThreadTransactionManager
 
 # "why does EVERYTHING say citrine??" because I named things that work in a
 # very specific way with each other and should not be replaced with default
@@ -38,14 +40,22 @@ class CitrineTransactionManager(TransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        except BaseException:
+            # a failed commit must not leave its transaction behind
             self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+            raise
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class CitrineThreadTransactionManager(ThreadTransactionManager):
-- 
2.43.0


From 56f1f839b7846e0ff327a50d259dc3c822b9719b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 19/47] fix: expanding the classic container keeps every object
 reachable

---
 citrine/persistence.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 6328625..78ae7cc 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -129,10 +129,18 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
+        contents = [list(con.items()) for con in self.containers.values()]
+        for con in self.containers.values():
+            con.clear()
+            # what others store in the old layout meanwhile has to conflict
+            con._p_changed = True
         self.containers = PersistentMapping({
             key: self.containers.get(key, PersistentMapping())
             for key in range(new_size)
         })
+        for items in contents:
+            for id, obj in items:
+                self.write(id, obj)
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 29fcc2df28ef736c0fadd1bb455f0bf5551565ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 20/47] fix: expanding inside a transaction block is a part of
 the block

---
 citrine/connection/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index e782ca3..a095aa3 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -3,6 +3,7 @@ Common classes and utilities used by the Citrine database
 """
 import logging
 import uuid
+from contextlib import nullcontext
 from uuid import uuid4
 from datetime import datetime
 
@@ -62,7 +63,8 @@ class CitrineConnection(Connection):
         :param num: number of containers to expand by
         :return:
         """
-        with self:
+        # inside a transaction block the expansion is a part of that block
+        with self if self.transaction_manager.autocommit else nullcontext():
             self.container.expand_size(self.num_containers() + num)
 
     @autocommit
-- 
2.43.0


From 5760bc6e887cb667e87ba0d8e0ae385661c3377d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 21/47] fix: setup does not replace a container its view of the
 database lacks

---
 citrine/connection/connection.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index a095aa3..cd2375e 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -129,16 +129,17 @@ class CitrineConnection(Connection):
         function are present, and attempts to create them if they are not
         :return:
         """
-        if not hasattr(self.root, 'container'):
-            logging.warning('MISSING CONTAINER OBJECT "root.container", ' +
-                            'CREATING NEW')
-            with self:
+        # looked at inside the transaction: an older view of the database may
+        # lack what another connection has set up and filled in the meantime
+        with self if self.transaction_manager.autocommit else nullcontext():
+            if not hasattr(self.root, 'container'):
+                logging.warning('MISSING CONTAINER OBJECT "root.container", ' +
+                                'CREATING NEW')
                 self.root.container = DbContainer()
 
-        if not hasattr(self.root, 'meta'):
-            logging.warning('MISSING METADATA OBJECT "root.meta", ' +
-                            'CREATING NEW')
-            with self:
+            if not hasattr(self.root, 'meta'):
+                logging.warning('MISSING METADATA OBJECT "root.meta", ' +
+                                'CREATING NEW')
                 self.root.meta = DbMetadata()
 
 # PLACEHOLDER! This will be the new name after the refactor in citrine.storage is done
-- 
2.43.0


From c59537303371e1a51afa0ec10ef7a1808b43f87f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 22/47] fix: auto_transaction turns automatic transactions off

---
 citrine/connection/connection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index cd2375e..9fa78e9 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -37,6 +37,14 @@ class CitrineConnection(Connection):
     def size(self):
         return self.container.size
 
+    @property
+    def auto_transaction(self) -> bool:
+        return self.transaction_manager.autocommit
+
+    @auto_transaction.setter
+    def auto_transaction(self, value: bool):
+        self.transaction_manager.autocommit = value
+
     def __init__(self, db, cache_size=400, before=None, cache_size_bytes=0,
                  transaction_manager=None, **db_args):
         super().__init__(db=db, cache_size=cache_size, before=before,
-- 
2.43.0


From 0b58a6363390cb2dc78f3afde12500165e1ed1e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 23/47] fix: group reads with a timeout work, for any timeout

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index d490d38..236da59 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -50,8 +50,8 @@ class GroupReadConnection:
         Reads from all connections and returns all located values.
         """
         if timeout:
-            with aiotimeout(timeout.seconds):
-                with TaskGroup() as tg:
+            async with aiotimeout(timeout.total_seconds()):
+                async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
                     # back to the relevant db
                     if multiple:
-- 
2.43.0


From 164dba3be61a765803d4984fefde1f8e8fd5baa0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 24/47] fix: group reads can return the values of several
 databases

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 236da59..39a879b 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -80,8 +80,8 @@ class GroupReadConnection:
             results = [res.result() for res in results
                        if res.result() is not None]
         else:
-            results = {key: val.results() for key, val in results.items()
-                       if val.results() is not None}
+            results = {key: val.result() for key, val in results.items()
+                       if val.result() is not None}
         return results
 
     async def __read_db(self, connection, id: str):
-- 
2.43.0


From cf9374d9fea506b431e0da6846edf80a3a7ab11c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 25/47] fix: an id found in several databases is reported

---
 citrine/connection/group_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 39a879b..6087199 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -41,7 +41,7 @@ class GroupReadConnection:
         if not results:
             return None
         if len(results) > 1 and not multiple:
-            CitrineDuplicateIdError(id)
+            raise CitrineDuplicateIdError(id)
         return results[0] if not multiple else results
 
     async def __read(self, id: str, timeout: timedelta = None,
-- 
2.43.0


From d0c01a26636f8c5ba803e37ef71ea4ba56e0bd43 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 26/47] fix: connection arguments of a group override its
 defaults

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 6087199..1d3e2a7 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -28,8 +28,8 @@ class GroupReadConnection:
         default = {'transaction_manager': transaction_manager}
         for db in dbs:
             connection_details = {
-                **connection_args.get(db.database_name, default),
-                **default
+                **default,
+                **connection_args.get(db.database_name, {})
             }
             self.connections += (db.open(**connection_details),)
 
-- 
2.43.0


From f55f8ce43eb33ae9e4238508c95d189df081dfe5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 27/47] fix: a group read with a timeout of zero does not wait

---
 citrine/connection/group_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 1d3e2a7..70a267f 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -49,7 +49,7 @@ class GroupReadConnection:
         """
         Reads from all connections and returns all located values.
         """
-        if timeout:
+        if timeout is not None:
             async with aiotimeout(timeout.total_seconds()):
                 async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
-- 
2.43.0


From 2cae1ac669f300d2c1c71a2fc94446c22310f6df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 28/47] fix: properties after 'object' accept embedded objects

The property class Object hid the model of the same name, so that to, tag,
target, result, preview and others refused every object given in full.
---
 activitystreams/properties.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e6e3257..dca7df7 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -16,6 +16,7 @@ from jsonld.tools import is_activity_datetime, \
 from jsonld.tools import is_nonnegative
 from jsonld.tools import SetterValidator
 
+from activitystreams import models
 from activitystreams.models import Object, Link, Collection, \
     CollectionPage, ACTIVITYSTREAMS_NS
 
@@ -735,7 +736,7 @@ class Preview(ActivityStreamsProperty):
 
     @preview.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def preview(self, val):
         self.___preview___ = val
 
@@ -759,7 +760,7 @@ class Result(ActivityStreamsProperty):
 
     @result.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def result(self, val):
         self.___result___ = val
 
@@ -807,7 +808,7 @@ class Tag(ActivityStreamsProperty):
 
     @tag.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, dict)).check
+    @SetterValidator(types=(models.Object, Link, dict)).check
     def tag(self, val):
         self.___tag___ = val
 
@@ -834,7 +835,7 @@ class Target(ActivityStreamsProperty):
 
     @target.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def target(self, val):
         self.___target___ = val
 
@@ -857,7 +858,7 @@ class To(ActivityStreamsProperty):
 
     @to.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def to(self, val):
         self.___to___ = val
 
@@ -1340,7 +1341,7 @@ class Subject(ActivityStreamsProperty):
 
     @subject.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link), functional=True).check
+    @SetterValidator(types=(models.Object, Link), functional=True).check
     def subject(self, val):
         self.___subject___ = val
 
@@ -1356,7 +1357,7 @@ class Relationship(ActivityStreamsProperty):
         return getattr(self, '___relationship___', None)
 
     @relationship.setter
-    @SetterValidator(types=(Object, str)).check
+    @SetterValidator(types=(models.Object, str)).check
     def relationship(self, val):
         self.___relationship___ = val
 
@@ -1372,7 +1373,7 @@ class Describes(ActivityStreamsProperty):
         return getattr(self, '___describes___', None)
 
     @describes.setter
-    @SetterValidator(types=(Object,), functional=True).check
+    @SetterValidator(types=(models.Object,), functional=True).check
     def describes(self, val):
         self.___describes___ = val
 
@@ -1388,7 +1389,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(Object,)).check
+    @SetterValidator(types=(models.Object,)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From c576e89d24fe88ccfda22ce1b91980601c57d0f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 29/47] fix: objects of type Link and Object can be read

The 'type' property linked to the two root classes of a package took the place
of their type name, so that they were registered under a name no document has:
documents of these types failed, and values of them were dropped.
---
 activitystreams/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0412f1c..631fdf9 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -20,6 +20,15 @@ ACTIVITYSTREAMS_NS = 'https://www.w3.org/ns/activitystreams'
 SECURE_URLS_ONLY = False
 
 
+def type_name(cls):
+    """
+    Name of the type a class represents. Packages link a "type" property to
+    their classes, which must not be mistaken for the name
+    """
+    return next(kls.__dict__['type'] for kls in cls.mro()
+                if isinstance(kls.__dict__.get('type'), str))
+
+
 # ==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//
 # CORE TYPES
 #   REF: https://www.w3.org/TR/activitystreams-vocabulary/#types
@@ -42,7 +51,7 @@ class Object(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, id=None, type=None, attachment=None, attributedTo=None,
                  audience=None, content=None, context=None, name=None,
@@ -99,7 +108,7 @@ class Link(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
-- 
2.43.0


From 20ab3c9f2fb9acd60e059160ae73f0bf40286b16 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 30/47] fix: collections keep the items they are given

A collection made by a package has an 'items' property from the beginning,
which made the constructor leave out the items of the document.
---
 activitystreams/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 631fdf9..3264db5 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -361,12 +361,14 @@ class Collection(Object):
         self.last = last
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
-        self.items = getattr(self, 'items', items)
+        if getattr(self, 'items', None) is None:
+            self.items = items
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
         self.totalItems = totalItems if totalItems else (
-            0 if not isinstance(self.items, Sized) else len(self.items)
+            len(items) if isinstance(items, Sized) and
+            not isinstance(items, (str, dict)) else 0
         )
 
     def __iter__(self):
-- 
2.43.0


From 715f3c86e9847f95d93f49bd4c658315d26fd593 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 31/47] fix: links are not followed into error pages, nor
 forever

jsonld_get took the body of an error response for the document and waited
without limit for a remote that does not answer.
---
 jsonld/tools/url.py | 11 +++++++++--
 jsonld/utils.py     | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index 00f4cce..6104188 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -17,6 +17,9 @@ DEFAULT_HEADERS = {
     "Accept": "application/ld+json, application/activity+json, application/json"
 }
 
+# seconds to wait for a connection, and for any part of an answer
+REQUEST_TIMEOUT = 30
+
 def jsonld_get(url, headers: dict = None, json=True):
     """
     Makes a get request to retrieve jsonld data
@@ -26,8 +29,12 @@ def jsonld_get(url, headers: dict = None, json=True):
     :return: result of request
     """
     headers = {**DEFAULT_HEADERS, **(headers if headers else {})}
-    resp = requests.get(url, headers=headers)
-    return resp if not json else resp.json()
+    resp = requests.get(url, headers=headers, timeout=REQUEST_TIMEOUT)
+    if not json:
+        return resp
+    # an error page is not the data, even if it can be read as such
+    resp.raise_for_status()
+    return resp.json()
 
 # TODO: ONE OF THESE NEEDS TO GO!
 def validate_url(url, secure: bool = False, **kwargs):
diff --git a/jsonld/utils.py b/jsonld/utils.py
index a852f12..de955af 100644
--- a/jsonld/utils.py
+++ b/jsonld/utils.py
@@ -39,6 +39,9 @@ DEFAULT_HEADERS = {
     "Accept": "application/ld+json, application/activity+json, application/json"
 }
 
+# seconds to wait for a connection, and for any part of an answer
+REQUEST_TIMEOUT = 30
+
 def jsonld_get(url, headers: dict = None, json=True):
     """
     Makes a get request to retrieve jsonld data
@@ -48,5 +51,9 @@ def jsonld_get(url, headers: dict = None, json=True):
     :return: result of request
     """
     headers = {**DEFAULT_HEADERS, **(headers if headers else {})}
-    resp = requests.get(url, headers=headers)
-    return resp if not json else resp.json()
+    resp = requests.get(url, headers=headers, timeout=REQUEST_TIMEOUT)
+    if not json:
+        return resp
+    # an error page is not the data, even if it can be read as such
+    resp.raise_for_status()
+    return resp.json()
-- 
2.43.0


From f2b94c56626a37b87ad57f27801086cd1cdf43ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 32/47] fix: documents are not loaded from error pages, nor
 waited for forever

---
 jsonld/docloader.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 75b12cd..34a024d 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -10,6 +10,8 @@ from pyld import jsonld
 from pyld.jsonld import JsonLdError, parse_link_header, LINK_HEADER_REL
 
 JSON_LD_URL_REGEX = re.compile('[^a-zA-Z0-9_.:-]+')
+# seconds to wait for a remote that does not answer
+REQUEST_TIMEOUT = 30
 
 
 class RequestsJsonLoader:
@@ -47,11 +49,10 @@ class RequestsJsonLoader:
                 'jsonld.LoadDocumentError', code='loading document failed',
                 cause=cause)
 
-    def get(self, url):
+    def check_url(self, url):
         """
-        Retrieves JSON-LD at the given URL.
-        :param url: the URL to retrieve.
-        :return: the RemoteDocument.
+        Raises an error if documents may not be retrieved from the given URL.
+        :param url: the URL to check.
         """
         pieces = parse.urlparse(url)
         # urls must start with "http" or "https"
@@ -74,8 +75,18 @@ class RequestsJsonLoader:
                              'secure=True; set secure=False or change scheme' +
                              f';\ngot: "{url}"')
 
+    def get(self, url):
+        """
+        Retrieves JSON-LD at the given URL.
+        :param url: the URL to retrieve.
+        :return: the RemoteDocument.
+        """
+        self.check_url(url)
         self.logger.info(f'GET "{url}"; headers: {{{self.headers}}}')
-        response = requests.get(url, headers=self.headers)
+        response = requests.get(url, headers=self.headers,
+                                timeout=REQUEST_TIMEOUT)
+        # an error page is not the document
+        response.raise_for_status()
 
         content_type = response.headers.get('content-type')
         if not content_type:
-- 
2.43.0


From 9836fb285c2c51d6660776b73853f5a37e709b74 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 33/47] fix: threads using the same object do not share its
 context

---
 jsonld/base.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index dd55f04..1e3a2c5 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -5,6 +5,7 @@ Module for splitting logic that allows objects to iterate and work with
 import logging
 from copy import copy
 from itertools import chain
+from threading import get_ident
 
 from jsonld.utils import JSON_DATA_CONTEXT, CLASS_CHANGE_CONTEXT
 
@@ -207,22 +208,32 @@ class JsonContextAwareManager:
     """
 
     def __init__(self):
-        self.__stack = list()
-        self.context = None
-        self.active = False
+        # an object can be used by several threads at once, none of them may
+        # see the contexts of the others
+        self.__stacks = dict()
+
+    @property
+    def context(self):
+        stack = self.__stacks.get(get_ident())
+        return stack[-1] if stack else None
+
+    @property
+    def active(self):
+        return bool(self.__stacks.get(get_ident()))
 
     def __call__(self, context=None, *args, **kwargs):
-        self.__stack.append(self.context)
-        self.context = context
+        self.__stacks.setdefault(get_ident(), []).append(context)
         return self
 
     def __enter__(self):
-        self.active = True
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.context = None if not self.__stack else self.__stack.pop()
-        self.active = False
+        stack = self.__stacks.get(get_ident())
+        if stack:
+            stack.pop()
+        if not stack:
+            self.__stacks.pop(get_ident(), None)
 
 
 class JsonProperty(NamespacedObject):
-- 
2.43.0


From 6a185a37368ec7bf793d1b3980470dc9cf06e1f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 34/47] fix: converting an object does not change the
 namespaces of classes

---
 jsonld/kamino.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0bca12c..ca34f5d 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -112,6 +112,8 @@ class ClassCloner:
                  for name in getattr(obj, '__properties__', ())}
         # merge both for simplicity and to avoid setting the same values twice
         data = {**props, **attrs}
+        # the namespace belongs to the classes, not to the object
+        data.pop('__namespace__', None)
         obj.__class__ = new_class
         obj.__properties__ = obj.__get_properties__(refresh=True)
         for name, val in data.items():
-- 
2.43.0


From 4ebb39bd08b5ced502e2f14f595b253876f460cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 35/47] fix: secure loaders only accept documents from secure
 connections

---
 jsonld/docloader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 34a024d..5311e8a 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -65,7 +65,7 @@ class RequestsJsonLoader:
         if not pieces.netloc:
             raise ValueError('Cannot dereference url without body')
         # urls can only have certain characters
-        if re.match(JSON_LD_URL_REGEX, pieces.netloc):
+        if re.search(JSON_LD_URL_REGEX, pieces.netloc):
             raise ValueError('url cannot contain characters outside of' +
                              'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."' +
                              f';\ngot: "{url}" ')
@@ -87,6 +87,9 @@ class RequestsJsonLoader:
                                 timeout=REQUEST_TIMEOUT)
         # an error page is not the document
         response.raise_for_status()
+        # redirects may not lead through insecure connections either
+        for hop in (*response.history, response):
+            self.check_url(hop.url)
 
         content_type = response.headers.get('content-type')
         if not content_type:
@@ -143,6 +146,8 @@ class CachedRequestsJsonLoader(RequestsJsonLoader):
         :return:
         """
         try:
+            # the schemas are shared with loaders that are not secure
+            self.check_url(url)
             if url not in self.cached_schemas.keys():
                 self.logger.info(f'Caching schema for {url}')
                 CachedRequestsJsonLoader.cached_schemas[url] = self.get(url)
-- 
2.43.0


From 072716bcfad20712c562f5a1a103d3191039055a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 36/47] fix: loaded documents can be changed without changing
 the cache

---
 jsonld/docloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 5311e8a..1c362e1 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -3,6 +3,7 @@ Classes used for loading jsonld documents with the pyld.jsonld package
 """
 import logging
 import re
+from copy import deepcopy
 from urllib import parse
 
 import requests
@@ -151,7 +152,8 @@ class CachedRequestsJsonLoader(RequestsJsonLoader):
             if url not in self.cached_schemas.keys():
                 self.logger.info(f'Caching schema for {url}')
                 CachedRequestsJsonLoader.cached_schemas[url] = self.get(url)
-            return self.cached_schemas.get(url)
+            # callers change the documents they receive
+            return deepcopy(self.cached_schemas.get(url))
         except Exception as cause:
             # the only reason I'm keeping this is for consistency
             raise JsonLdError(
-- 
2.43.0


From 4bfca907d8dcdd4a17fd9df80006ad76644d2dee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 37/47] fix: a transaction that cannot begin does not switch
 autocommit off

---
 citrine/persistence.py         | 4 +++-
 citrine/storage/transaction.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 78ae7cc..ad6fe03 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -36,8 +36,10 @@ class CitrineTransactionManager(TransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        transaction = super().__enter__()
+        # only now: a block that could not begin is not ended either
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index 0a8f148..ffed7a4 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -24,8 +24,10 @@ class TransactionManager(ZoTransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        transaction = super().__enter__()
+        # only now: a block that could not begin is not ended either
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
@@ -61,8 +63,10 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        transaction = super().__enter__()
+        # only now: a block that could not begin is not ended either
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-- 
2.43.0


From d85fe90d87265a6a468140c322d9062f3d0d31ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 38/47] fix: connecting to a storage server creates the
 container properly

It is created before the database is loaded, with the strictness asked for and
only when wanted; several clients may set up the same database at once; a
connection that fails does not leave its storage open.
---
 citrine/client/container_client.py | 64 +++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 058e180..b61f108 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -5,6 +5,7 @@ storage using a ``Container`` object.
 """
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
+from ZODB.POSException import ConflictError
 
 from ZEO.ClientStorage import ClientStorage
 from ZEO.asyncio.client import ClientThread
@@ -13,6 +14,7 @@ from citrine.connection.container_connection import ContainerConnection
 from citrine.database.containerdb import ContainerDb
 from citrine.storage.consts import DEFAULT_CONTAINER_SIZE
 from citrine.storage.container import Container
+from citrine.storage.transaction import TransactionManager
 
 MB = 1024**2
 
@@ -179,21 +181,47 @@ class ContainerClient(ContainerDb):
             # For tests:
             _client_factory=_client_factory)
 
-        # Link to a local ContainerDb
-        client = cls.load(client, pool_size=pool_size,
-            pool_timeout=pool_timeout, cache_size=cache_size,
-            cache_size_bytes=cache_size_bytes,
-            historical_pool_size=historical_pool_size,
-            historical_cache_size=historical_cache_size,
-            historical_cache_size_bytes=historical_cache_size_bytes,
-            historical_timeout=historical_timeout, database_name=database_name,
-            databases=databases, xrefs=xrefs,
-            large_record_size=large_record_size)
-
-        # If not connection.container and create==True, create a new Container
-        with client as connection:
-            if not getattr(connection.root, 'container', None):
-                with connection.transaction_manager as tm:
-                    connection.root.container = Container.new(strict=strict)
-                    tm.commit()
-        return client
+        try:
+            if create_missing_container:
+                cls.provide_container(client, strict=strict)
+
+            # Link to a local ContainerDb
+            return cls.load(client, pool_size=pool_size,
+                pool_timeout=pool_timeout, cache_size=cache_size,
+                cache_size_bytes=cache_size_bytes,
+                historical_pool_size=historical_pool_size,
+                historical_cache_size=historical_cache_size,
+                historical_cache_size_bytes=historical_cache_size_bytes,
+                historical_timeout=historical_timeout,
+                database_name=database_name,
+                databases=databases, xrefs=xrefs,
+                large_record_size=large_record_size)
+        except BaseException:
+            # nobody else could close the storage that was opened here
+            client.close()
+            raise
+
+    @staticmethod
+    def provide_container(storage, strict: bool = False):
+        """
+        Creates the container of a database that does not have one yet; leaves
+        a container that is already there as it is
+
+        :param storage: the storage of the database
+        :param strict: Whether the new container is to enforce size maximums
+        via exceptions
+        """
+        while True:
+            try:
+                connection = DB(storage).open(TransactionManager())
+                try:
+                    with connection.transaction_manager:
+                        if not getattr(connection.root, 'container', None):
+                            connection.root.container = Container.new(
+                                strict=strict)
+                finally:
+                    connection.close()
+                return
+            except ConflictError:
+                # another client is setting up the same database
+                pass
-- 
2.43.0


From 2fe80ececdd3f081f64e18f8ecdff4085f862df8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 39/47] fix: going over a collection gives its items

An empty collection gave None and then raised, an ordered collection never
gave its items, and a single item was taken apart.
---
 activitystreams/models.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 3264db5..588a284 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -372,9 +372,16 @@ class Collection(Object):
         )
 
     def __iter__(self):
-        if not self.items:
-            yield
-        for item in self.items:
+        items = self.items
+        if items is None:
+            # ordered collections keep their items in order
+            items = getattr(self, 'orderedItems', None)
+        if items is None:
+            return
+        if not isinstance(items, (list, tuple, set)):
+            # a collection may have a single item
+            items = (items,)
+        for item in items:
             yield item
 
 
-- 
2.43.0


From 3e946eb22025e3f9e3da3dcf5bdd199b0b55762e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 40/47] fix: finding the properties of a class while others do
 so too

Two threads using a class for the first time at once could end with
'dictionary changed size during iteration'.
---
 jsonld/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 1e3a2c5..7563282 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -333,10 +333,11 @@ class PropertyAwareObject(NamespacedObject):
         this class
         """
         if not hasattr(cls, '__properties__') or refresh:
-            # we cache a copy
+            # we cache a copy; other threads may do so at the same time, which
+            # changes the classes
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
-                                             kls.__dict__.items()
+                                             kls.__dict__.copy().items()
                                              if isinstance(value, property))))
         return cls.__properties__
 
-- 
2.43.0


From 969d8e6cd0c422cdb3f961387c8e47f4d741ef12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:53 +0000
Subject: [PATCH 41/47] fix: setdefault keeps to the limit of a strict
 collection

---
 citrine/storage/collection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 68d2e36..346ca36 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -199,8 +199,12 @@ class Collection(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises CollectionCapacityError: if the size of the collection exceeds
+        the limit in strict mode
         """
-        return self.tree.setdefault(key, value)
+        if not self.has_key(key):
+            self.insert(key, value)
+        return self.tree[key]
 
     def clear(self):
         """
-- 
2.43.0


From bd2341ed175fee8e111fdf2ab442a871e9731ee4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:25 +0000
Subject: [PATCH 42/47] fix: an update of a group that does not fit changes
 nothing

---
 citrine/storage/collection.py | 15 ++++++++++++---
 citrine/storage/group.py      |  3 +++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 346ca36..beb0372 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -164,15 +164,24 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
+        new_keys = self.___new_keys___(collection)
+        if self.strict and new_keys:
+            self.meta._p_changed = True
+        return self.tree.update(collection)
+
+    def ___new_keys___(self, collection):
+        """
+        The keys that an update would add
+        :raises CollectionCapacityError: if there is no room for all of them in
+        strict mode
+        """
         new_keys = [key for key in collection.keys() if key not in self.keys()]
         if (new_keys and self.size + len(new_keys) > self.max_size
                 and self.strict):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
-        if self.strict and new_keys:
-            self.meta._p_changed = True
-        return self.tree.update(collection)
+        return new_keys
 
     def pop(self, key, default=None):
         """
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 3915b94..1718653 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -335,6 +335,9 @@ class Group(Persistent):
             split_collection[get_group_index(key, num_collections)][key] = value
         split_collection = {k: v for k, v in split_collection.items() if v}
 
+        # all or nothing: no collection is changed if another one is full
+        for index, collection in split_collection.items():
+            self.collections[index].___new_keys___(collection)
         for index, collection in split_collection.items():
             self.collections[index].update(collection)
 
-- 
2.43.0


From c2278dfa96c420659c6273a6fd023954b8e71d42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:57 +0000
Subject: [PATCH 43/47] fix: a creation that fails while opening the database
 closes its storage

---
 citrine/database/containerdb.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index c76d4ca..961be5e 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -381,13 +381,15 @@ class ContainerDb(DB):
 
         :return: newly created ``ContainerDb`` object
         """
-        return cls.load(cls.create(file_name, capacity=capacity,
-                                   create=create, read_only=read_only,
-                                   stop=stop, quota=quota, pack_gc=pack_gc,
-                                   pack_keep_old=pack_keep_old, packer=packer,
-                                   blob_dir=blob_dir,
-                                   strict=strict,
-                                   ),
+        storage = cls.create(file_name, capacity=capacity,
+                             create=create, read_only=read_only,
+                             stop=stop, quota=quota, pack_gc=pack_gc,
+                             pack_keep_old=pack_keep_old, packer=packer,
+                             blob_dir=blob_dir,
+                             strict=strict,
+                             )
+        try:
+            return cls.load(storage,
                         pool_size=pool_size, pool_timeout=pool_timeout,
                         cache_size=cache_size,
                         cache_size_bytes=cache_size_bytes,
@@ -398,6 +400,10 @@ class ContainerDb(DB):
                         database_name=database_name,
                         databases=databases, xrefs=xrefs,
                         large_record_size=large_record_size)
+        except BaseException:
+            # nobody else could close the storage that was opened here
+            storage.close()
+            raise
 
     def __enter__(self):
         """
-- 
2.43.0


From 19a5ee39ee16e0f96ad10ed56a40f8777c9ef293 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:57 +0000
Subject: [PATCH 44/47] fix: a resize does not undo that the container was made
 strict meanwhile

---
 citrine/storage/container.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index a790dfd..e254aeb 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -192,6 +192,8 @@ class ContainerProperties:
     def strict(self, value):
         if not isinstance(value, bool):
             raise TypeError("'strict' must be a boolean")
+        # another group must not become the primary one meanwhile
+        require_current(self)
         self.primary.strict = value
 
 
@@ -308,10 +310,12 @@ class Container(Persistent, ContainerProperties):
         # set the new group as the primary and makes the old primary a secondary
         if transaction_manager:
             with transaction_manager as tm:
+                self.___hand_over___(new_primary)
                 self.___groups___ = (new_primary,) + self.groups
                 self.___primary___ = new_primary
                 tm.commit()
         else:
+            self.___hand_over___(new_primary)
             self.___groups___ = (new_primary,) + self.groups
             self.___primary___ = new_primary
 
@@ -325,6 +329,16 @@ class Container(Persistent, ContainerProperties):
                                        transaction_manager=transaction_manager)
         return removed
 
+    def ___hand_over___(self, new_primary):
+        """
+        Makes the new primary group as strict as the one it replaces is when
+        the transaction commits
+        """
+        for collection in self.primary.collections:
+            require_current(collection.meta)
+        if new_primary.strict != self.strict:
+            new_primary.strict = self.strict
+
     def condense(self, transfer: bool = True, transaction_manager=None) \
             -> List[Group]:
         """
-- 
2.43.0


From c83ec77877975829247b7d1f5999be0b336fe5ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 45/47] fix: a group of modules gives up the modules it
 destroys or replaces

It kept them with their databases open, which then wrote their index files
into the directory again, and the size of modules and groups could not be read.
---
 citrine/cluster_tools/dbmodule/dbgroup.py  | 13 +++++++++++++
 citrine/cluster_tools/dbmodule/dbmodule.py |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index d0933e8..37d95cd 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -67,6 +67,8 @@ class DbGroup:
         path is specified, the directory of execution will be used
         :param name: The name to assign the database
         """
+        if overwrite:
+            self.release_dbmodule(name)
         new = DbModule.create(self.root, name=name, overwrite=overwrite)
         self.modules[new.name] = new
         return new
@@ -76,8 +78,19 @@ class DbGroup:
         Destroys a db object from the pool entirely. This action is irreversible
         :param name: The name of the database to be destroyed
         """
+        self.release_dbmodule(name)
         DbModule.destroy(join(self.root, name))
 
+    def release_dbmodule(self, name):
+        """
+        Takes a db object out of the pool. Its database is closed, or it would
+        write to files that are no longer its own
+        :param name: The name of the database, does not have to be in the pool
+        """
+        module = self.modules.pop(name, None)
+        if module is not None:
+            module.db.close()
+
     @staticmethod
     def discover(root):
         """
diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 5443d37..82517b3 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -158,7 +158,7 @@ class DbModule:
     @property
     def size(self):
         with self.db as connection:
-            return connection.size
+            return connection.container.size
 
     def __init__(self, path: str = '.'):
         self.path = path
-- 
2.43.0


From c3988758abd1f4c6a2a5fe563fd7d2e6ffde000e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:38 +0000
Subject: [PATCH 46/47] fix: the primary group comes first in a new container

Reads and merges go by the order of the groups. With the primary group given
at a later place, an update of an object in an earlier group was not seen, and
condensing or resizing merged the wrong groups and dropped the primary one.
---
 citrine/storage/container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index e254aeb..eecbf2a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -216,9 +216,10 @@ class Container(Persistent, ContainerProperties):
         """
         super().__init__()
         self.___primary___ = primary_group
-        self.___groups___ = groups
-        if self.primary not in self.groups:
-            self.___groups___ = (self.primary,) + self.groups
+        # the primary group comes first: it has what was written last, and the
+        # groups after it are the ones to be merged into it
+        self.___groups___ = (primary_group,) + tuple(
+            group for group in groups if group is not primary_group)
         self.___metadata___ = ContainerMeta(self)
         self.strict = strict
 
-- 
2.43.0


From 72d419577ac43d859b64cf32b3178425e53c3ded Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:54 +0000
Subject: [PATCH 47/47] fix: what came through insecure connections is not
 given to secure loaders

A loader that is not secure kept what it was redirected to over http in the
cache it shares with secure loaders, which then used it.
---
 jsonld/docloader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 1c362e1..d2c8987 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -134,6 +134,8 @@ class CachedRequestsJsonLoader(RequestsJsonLoader):
     """
 
     cached_schemas = {}
+    # those that only loaders that are not secure may use
+    insecure_schemas = {}
     logger = logging.getLogger('cached-json-doc-loader')
     logger.setLevel(logging.INFO)
 
@@ -149,6 +151,11 @@ class CachedRequestsJsonLoader(RequestsJsonLoader):
         try:
             # the schemas are shared with loaders that are not secure
             self.check_url(url)
+            if not self.secure and url not in self.cached_schemas.keys():
+                # it may come through insecure connections
+                if url not in self.insecure_schemas.keys():
+                    self.insecure_schemas[url] = self.get(url)
+                return deepcopy(self.insecure_schemas[url])
             if url not in self.cached_schemas.keys():
                 self.logger.info(f'Caching schema for {url}')
                 CachedRequestsJsonLoader.cached_schemas[url] = self.get(url)
-- 
2.43.0

