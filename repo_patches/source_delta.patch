From 280b21d035aa952954c94932b3e0ac895825abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 01/67] fix: fsck must re-upload cached blocks of objects whose
 upload was interrupted

---
 src/s3ql/fsck.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 097b095..98caf27 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -270,7 +270,7 @@ class Fsck:
             # Check if stored object has same checksum
             try:
                 row = self.conn.get_row(
-                    'SELECT obj_id, hash '
+                    'SELECT obj_id, hash, phys_size '
                     'FROM inode_blocks JOIN objects ON obj_id = objects.id '
                     'WHERE inode=? AND blockno=?',
                     (
@@ -281,12 +281,18 @@ class Fsck:
             except NoSuchRowError:
                 pass
             else:
-                (obj_id, hash_is) = row
+                (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
                 assert hash_is is None or isinstance(hash_is, bytes)
                 if hash_is is None:
                     log.debug('Object %d has NULL hash, treating cached block as dirty', obj_id)
                 elif hash_should == hash_is:
+                    if phys_size == -1:
+                        self.found_errors = True
+                        self.log_error(
+                            "Writing dirty block %d of inode %d to backend", blockno, inode
+                        )
+                        await self._upload_cached(filename, obj_id)
                     if not keep_cache:
                         os.unlink(os.path.join(self.cachedir, filename))
                     continue
@@ -295,8 +301,8 @@ class Fsck:
             self.log_error("Writing dirty block %d of inode %d to backend", blockno, inode)
 
             try:
-                obj_id = self.conn.get_int_val(
-                    'SELECT id FROM objects WHERE hash=?', (hash_should,)
+                (obj_id, phys_size) = self.conn.get_row_typed(
+                    (int, int), 'SELECT id, phys_size FROM objects WHERE hash=?', (hash_should,)
                 )
 
             except NoSuchRowError:
@@ -304,13 +310,10 @@ class Fsck:
                     'INSERT INTO objects (refcount, phys_size, length, hash) VALUES(1, -1, ?, ?)',
                     (size, hash_should),
                 )
-
-                with open(os.path.join(self.cachedir, filename), "rb") as fh:
-                    size = os.fstat(fh.fileno()).st_size
-                    obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
-
-                self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
+                await self._upload_cached(filename, obj_id)
             else:
+                if phys_size == -1:
+                    await self._upload_cached(filename, obj_id)
                 self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
             try:
@@ -339,6 +342,19 @@ class Fsck:
             if not keep_cache:
                 os.unlink(os.path.join(self.cachedir, filename))
 
+    async def _upload_cached(self, filename: str, obj_id: int) -> None:
+        '''Store contents of cache file *filename* as object *obj_id*
+
+        Also used for objects whose upload was interrupted (phys_size is -1). Such objects may not
+        exist in the backend, even though they already have a row with a hash.
+        '''
+
+        with open(os.path.join(self.cachedir, filename), "rb") as fh:
+            size = os.fstat(fh.fileno()).st_size
+            obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
+
+        self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
+
     def check_lof(self) -> None:
         """Ensure that there is a lost+found directory"""
 
-- 
2.43.0


From a7b775e812a16f5a79aab2db9c5867aaf1eb7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 02/67] fix: detach removed blocks from metadata before
 deleting their cache file

---
 src/s3ql/block_cache.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 1f0d588..3442abb 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -814,29 +814,31 @@ class BlockCache:
                     await self.block_lock.acquire(key)
                 blocknos.remove(blockno)
                 try:
-                    if key in self.cache:
-                        log.debug('removing from cache')
-                        self.cache.remove(key)
-
                     try:
-                        obj_id = self.db.get_int_val(
+                        obj_id: int | None = self.db.get_int_val(
                             'SELECT obj_id FROM inode_blocks WHERE inode=? AND blockno=?',
                             (inode, blockno),
                         )
                     except NoSuchRowError:
                         log.debug('block not in db')
-                        continue
+                        obj_id = None
+                    else:
+                        # Detach inode from block. This needs to happen before removing the cache
+                        # entry, otherwise a crash may resurrect older contents.
+                        self.db.execute(
+                            'DELETE FROM inode_blocks WHERE inode=? AND blockno=?', (inode, blockno)
+                        )
 
-                    # Detach inode from block
-                    self.db.execute(
-                        'DELETE FROM inode_blocks WHERE inode=? AND blockno=?', (inode, blockno)
-                    )
+                    if key in self.cache:
+                        log.debug('removing from cache')
+                        self.cache.remove(key)
 
                 finally:
                     await self.block_lock.release(key)
 
                 # Decrease block refcount
-                await self._deref_obj(obj_id)
+                if obj_id is not None:
+                    await self._deref_obj(obj_id)
 
         log.debug('finished')
 
-- 
2.43.0


From f7ecafec91cbb80689a78bdaab92c385ced2ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 03/67] fix: keep cache entries dirty while the object they
 were deduplicated to is being uploaded

---
 src/s3ql/block_cache.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 3442abb..e06a7d5 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -420,7 +420,8 @@ class BlockCache:
     async def upload_if_dirty(self, el: CacheEntry) -> bool:
         '''Upload cache entry asynchronously
 
-        Return True if the object is actually scheduled for upload.
+        Return True if the object is actually scheduled for upload, or if the entry refers to an
+        object whose upload (on behalf of a different entry) is still in progress.
         '''
 
         log.debug('started with %s', el)
@@ -460,6 +461,7 @@ class BlockCache:
             raise
 
         upload_registered = False
+        upload_pending = False
         try:
             try:
                 old_obj_id: int | None = self.db.get_int_val(
@@ -507,14 +509,18 @@ class BlockCache:
                         (obj_id, el.inode, el.blockno),
                     )
 
-                el.dirty = False
+                # If the object is still being uploaded, the entry has to remain dirty (and thus in
+                # the cache): should the upload fail, fsck.s3ql needs the cached data to recover.
+                upload_pending = obj_id in self.in_flight_uploads
+                if not upload_pending:
+                    el.dirty = False
                 self._unmark_in_transit(el)
                 set_in_transit = False
                 await self.block_lock.release(el.key)
 
                 if old_obj_id == obj_id:
                     log.debug('unchanged, obj_id=%d', obj_id)
-                    return False
+                    return upload_pending
 
         except:
             if set_in_transit:
@@ -531,7 +537,7 @@ class BlockCache:
         else:
             log.debug('no old object')
 
-        return upload_registered
+        return upload_registered or upload_pending
 
     async def _deref_obj(self, obj_id: int) -> None:
         '''Decrease reference count for *obj_id*
-- 
2.43.0


From 428ac67a05fd317b8e8be80e3a87e8566936f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 04/67] fix: release of a MultiLock key must not be interrupted
 by cancellation

---
 src/s3ql/multi_lock.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/multi_lock.py b/src/s3ql/multi_lock.py
index b9a2b83..eebbe66 100644
--- a/src/s3ql/multi_lock.py
+++ b/src/s3ql/multi_lock.py
@@ -84,9 +84,12 @@ class MultiLock(Generic[K]):
         not locked.
         """
 
-        async with self.cond:
-            if noerror:
-                self.locked_keys.discard(key)
-            else:
-                self.locked_keys.remove(key)
-            self.cond.notify_all()
+        # If this were interrupted by cancellation, the key would stay locked forever. The condition
+        # is only ever held briefly, so this does not delay the cancellation.
+        with trio.CancelScope(shield=True):
+            async with self.cond:
+                if noerror:
+                    self.locked_keys.discard(key)
+                else:
+                    self.locked_keys.remove(key)
+                self.cond.notify_all()
-- 
2.43.0


From 718de53032115cb52c3515ce326a9c6c7bd06b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 05/67] fix: report every malformed serialized mapping or
 command literal as such

---
 src/s3ql/common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 4d2180c..fbdad22 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -292,7 +292,7 @@ def parse_literal(buf: bytes, type_spec: type[T] | NewType[T]) -> T:
         obj = literal_eval(buf.decode())
     except UnicodeDecodeError:
         raise ValueError('unable to decode as utf-8')
-    except (ValueError, SyntaxError):
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
         raise ValueError('unable to parse as python literal')
 
     if type(obj) is _get_actual_type(type_spec):
@@ -314,7 +314,7 @@ def parse_literal_tuple(
         obj = literal_eval(buf.decode())
     except UnicodeDecodeError:
         raise ValueError('unable to decode as utf-8')
-    except (ValueError, SyntaxError):
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
         raise ValueError('unable to parse as python literal')
 
     actual_types = [_get_actual_type(t) for t in type_spec]
@@ -341,7 +341,11 @@ def thaw_basic_mapping(buf: bytes | bytearray) -> BasicMappingT:
 
     try:
         d = literal_eval(buf.decode('utf-8'))
-    except (UnicodeDecodeError, SyntaxError, ValueError):
+    except (UnicodeDecodeError, SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
+        # TypeError: unhashable keys. MemoryError, RecursionError: too deeply nested.
+        raise ThawError()
+
+    if not isinstance(d, dict):
         raise ThawError()
 
     # Decode bytes values
-- 
2.43.0


From 0f8e55bfc2a62b485f8b931df6d8636c91fd81f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 06/67] fix: do not lose the failure of a ParallelPipeline
 worker

---
 src/s3ql/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index fbdad22..c6b8922 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -484,5 +484,8 @@ class ParallelPipeline(Generic[T]):
         self.finalize()
 
     async def _drive_consumer(self, recv_chan: trio.MemoryReceiveChannel[T]) -> None:
-        async with recv_chan:
+        # Close the channel synchronously. Closing the last clone wakes up the producer with
+        # `BrokenResourceError`. If a failure of `consume` then had to pass through a checkpoint,
+        # it would get replaced by `Cancelled` and never be seen by the caller.
+        with recv_chan:
             await self.consume(recv_chan)
-- 
2.43.0


From 3946e7771de037e5d1f98b26b1cfa3560505e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 07/67] fix: recognize lookups of "." and ".."

---
 src/s3ql/fs.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8e15a4d..2102885 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -170,11 +170,19 @@ class Operations(pyfuse3.Operations):
             object.__setattr__(inode, 'uid', os.getuid())
             object.__setattr__(inode, 'gid', os.getgid())
 
-        elif name == '.':
-            inode = self.inodes[id_p]
+        elif name == b'.':
+            try:
+                inode = self.inodes[id_p]
+            except KeyError:
+                raise FUSEError(errno.ENOENT)
 
-        elif name == '..':
-            id_ = self.db.get_inode_val("SELECT parent_inode FROM contents WHERE inode=?", (id_p,))
+        elif name == b'..':
+            try:
+                id_ = self.db.get_inode_val(
+                    "SELECT parent_inode FROM contents WHERE inode=?", (id_p,)
+                )
+            except NoSuchRowError:
+                raise FUSEError(errno.ENOENT)
             inode = self.inodes[id_]
 
         else:
-- 
2.43.0


From fd63296eef9f46d7276b015f7b20ef6bbee2382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 08/67] fix: removal of a missing extended attribute must not
 drop a name reference

---
 src/s3ql/fs.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 2102885..660c016 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -371,16 +371,13 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_].locked:
             raise FUSEError(errno.EPERM)
 
-        try:
-            name_id = self._del_name(name)
-        except NoSuchRowError:
+        if not self.db.has_val(
+            'SELECT 1 FROM ext_attributes_v WHERE inode=? AND name=?', (id_, name)
+        ):
             raise FUSEError(pyfuse3.ENOATTR)
 
-        changes = self.db.execute(
-            'DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id)
-        )
-        if changes == 0:
-            raise FUSEError(pyfuse3.ENOATTR)
+        name_id = self._del_name(name)
+        self.db.execute('DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id))
 
         self.inodes[id_].ctime_ns = time_ns()
 
-- 
2.43.0


From d62cd7f33f5e92ee7b6c123958f4dffcfe4e1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 09/67] fix: replacing an extended attribute must not add a
 name reference

---
 src/s3ql/fs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 660c016..13a0c1c 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -359,10 +359,16 @@ class Operations(pyfuse3.Operations):
             if self.failsafe or self.inodes[id_].locked:
                 raise FUSEError(errno.EPERM)
 
-            self.db.execute(
-                'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
-                (id_, self._add_name(name), value),
+            changes = self.db.execute(
+                'UPDATE ext_attributes SET value=? WHERE inode=? AND name_id='
+                '(SELECT id FROM names WHERE name=?)',
+                (value, id_, name),
             )
+            if changes == 0:
+                self.db.execute(
+                    'INSERT INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
+                    (id_, self._add_name(name), value),
+                )
             self.inodes[id_].ctime_ns = time_ns()
 
     async def removexattr(self, id_: InodeT, name: bytes, ctx: RequestContext) -> None:
-- 
2.43.0


From eebb5b56ec9c5824d3f9bb05c4ecc4094b0a26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 10/67] fix: refuse to remove the control file instead of
 crashing

---
 src/s3ql/fs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 13a0c1c..651d737 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -442,6 +442,12 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d, %s', id_p0, name0)
 
+        if name0 == CTRL_NAME:
+            log.warning(
+                'Attempted to remove s3ql control file at %s', get_path(id_p0, self.db, name0)
+            )
+            raise FUSEError(errno.EACCES)
+
         if self.inodes[id_p0].locked:
             raise FUSEError(errno.EPERM)
 
@@ -653,6 +659,10 @@ class Operations(pyfuse3.Operations):
         if self.failsafe:
             raise FUSEError(errno.EPERM)
 
+        if name == CTRL_NAME:
+            log.warning('Attempted to remove s3ql control file at %s', get_path(id_p, self.db, name))
+            raise FUSEError(errno.EACCES)
+
         inode = self._lookup(id_p, name, ctx)
 
         if stat.S_ISDIR(inode.mode):
-- 
2.43.0


From 368a81bcccf3863bd616fc3c6f79c070c8ad5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 11/67] fix: do not leak inode references when unlink, rmdir,
 rename or rmtree fail

---
 src/s3ql/fs.py | 69 +++++++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 651d737..fc551ed 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -451,8 +451,15 @@ class Operations(pyfuse3.Operations):
         if self.inodes[id_p0].locked:
             raise FUSEError(errno.EPERM)
 
-        conn = self.db
         id0 = self._lookup(id_p0, name0, ctx=None).id
+        try:
+            await self._remove_tree(id_p0, name0, id0)
+        finally:
+            await self.forget([(id0, 1)])
+        log.debug('finished')
+
+    async def _remove_tree(self, id_p0: InodeT, name0: bytes, id0: InodeT) -> None:
+        conn = self.db
         queue = [id0]  # Directories that we still need to delete
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
@@ -515,9 +522,6 @@ class Operations(pyfuse3.Operations):
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
         await self._remove(id_p0, name0, id0, force=True)
 
-        await self.forget([(id0, 1)])
-        log.debug('finished')
-
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
         '''Efficiently copy directory tree'''
 
@@ -665,12 +669,13 @@ class Operations(pyfuse3.Operations):
 
         inode = self._lookup(id_p, name, ctx)
 
-        if stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.EISDIR)
-
-        await self._remove(id_p, name, inode.id)
+        try:
+            if stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.EISDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, inode.id)
+        finally:
+            await self.forget([(inode.id, 1)])
 
     async def rmdir(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> None:
         log.debug('started with %d, %r', id_p, name)
@@ -679,15 +684,16 @@ class Operations(pyfuse3.Operations):
 
         inode = self._lookup(id_p, name, ctx)
 
-        if self.inodes[id_p].locked:
-            raise FUSEError(errno.EPERM)
-
-        if not stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.ENOTDIR)
+        try:
+            if self.inodes[id_p].locked:
+                raise FUSEError(errno.EPERM)
 
-        await self._remove(id_p, name, inode.id)
+            if not stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.ENOTDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, inode.id)
+        finally:
+            await self.forget([(inode.id, 1)])
 
     async def _purge_inode(self, id_: InodeT, size: int) -> None:
         '''Remove an inode that has no more references.
@@ -806,23 +812,28 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode_old = self._lookup(id_p_old, name_old, ctx)
+        lookups = [(inode_old.id, 1)]
 
         try:
-            inode_new = self._lookup(id_p_new, name_new, ctx)
-        except FUSEError as exc:
-            if exc.errno != errno.ENOENT:
-                raise
+            try:
+                inode_new = self._lookup(id_p_new, name_new, ctx)
+            except FUSEError as exc:
+                if exc.errno != errno.ENOENT:
+                    raise
+                else:
+                    target_exists = False
             else:
-                target_exists = False
-        else:
-            target_exists = True
+                target_exists = True
+                lookups.append((inode_new.id, 1))
 
-        if target_exists:
-            await self._replace(id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id)
-            await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
-        else:
-            self._rename(id_p_old, name_old, id_p_new, name_new)
-            await self.forget([(inode_old.id, 1)])
+            if target_exists:
+                await self._replace(
+                    id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id
+                )
+            else:
+                self._rename(id_p_old, name_old, id_p_new, name_new)
+        finally:
+            await self.forget(lookups)
 
     def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
-- 
2.43.0


From 16d910ee2d2ec11a49913260e6dd2405bd69b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 12/67] fix: rename onto a non-empty directory must fail with
 ENOTEMPTY

---
 src/s3ql/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index fc551ed..675b128 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -902,7 +902,7 @@ class Operations(pyfuse3.Operations):
                 "Attempted to overwrite entry with children: %s",
                 get_path(id_p_new, self.db, name_new),
             )
-            raise FUSEError(errno.EINVAL)
+            raise FUSEError(errno.ENOTEMPTY)
 
         # Replace target
         name_id_new = self.db.get_int_val('SELECT id FROM names WHERE name=?', (name_new,))
-- 
2.43.0


From 04fbab21fc634b4a56c029c95c909f7fc59cdb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 13/67] fix: s3qlcp must copy the extended attributes of the
 source directory itself

---
 src/s3ql/fs.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 675b128..824f170 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -544,6 +544,17 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.ENOENT)
         for attr in ('atime_ns', 'ctime_ns', 'mtime_ns', 'mode', 'uid', 'gid'):
             setattr(target_inode, attr, getattr(src_inode, attr))
+        db.execute(
+            'UPDATE names SET refcount = refcount + 1 WHERE '
+            'id IN (SELECT name_id FROM ext_attributes WHERE inode=?) AND '
+            'id NOT IN (SELECT name_id FROM ext_attributes WHERE inode=?)',
+            (src_id, target_id),
+        )
+        db.execute(
+            'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) '
+            'SELECT ?, name_id, value FROM ext_attributes WHERE inode=?',
+            (target_id, src_id),
+        )
 
         # We first replicate into a dummy inode, so that we
         # need to invalidate only once.
-- 
2.43.0


From 8b4bea0c2d5d4a9106352f64a984911f13bfdec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 14/67] fix: s3qlcp must include dirty blocks of inodes that
 are not open

---
 src/s3ql/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 824f170..4916b84 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -563,6 +563,9 @@ class Operations(pyfuse3.Operations):
             mtime_ns=now_ns, ctime_ns=now_ns, atime_ns=now_ns, uid=0, gid=0, mode=0, refcount=0
         )
 
+        # Inodes may have dirty blocks even if they are no longer open
+        dirty_inodes = {el.inode for el in self.cache.cache.values() if el.dirty}
+
         queue: list[tuple[InodeT, InodeT, int]] = [(src_id, tmp.id, -1)]
         id_cache: dict[InodeT, InodeT] = dict()
 
@@ -584,7 +587,7 @@ class Operations(pyfuse3.Operations):
                         name_id = cast(int, row[0])
                         id_ = cast(InodeT, row[1])
                         # Make sure that all blocks are in the database
-                        if id_ in self.open_inodes:
+                        if id_ in self.open_inodes or id_ in dirty_inodes:
                             await self.cache.start_flush(id_)
 
                         if id_ not in id_cache:
-- 
2.43.0


From 9f5662171261b46e3c08212aa4b612afaec74e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 15/67] fix: s3qlcp must not modify a locked target directory

---
 src/s3ql/fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 4916b84..2d00136 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -542,6 +542,8 @@ class Operations(pyfuse3.Operations):
             target_inode = self.inodes[target_id]
         except KeyError:
             raise FUSEError(errno.ENOENT)
+        if target_inode.locked:
+            raise FUSEError(errno.EPERM)
         for attr in ('atime_ns', 'ctime_ns', 'mtime_ns', 'mode', 'uid', 'gid'):
             setattr(target_inode, attr, getattr(src_inode, attr))
         db.execute(
-- 
2.43.0


From f13df159d367c0ca522a71cfbd548e5374a53da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 16/67] fix: s3qlcp must cope with changes of the target
 directory during the copy

---
 src/s3ql/fs.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 2d00136..a4e86f0 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -665,6 +665,25 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
+        # The target may have been changed while we were copying
+        err = None
+        try:
+            if self.inodes[target_inode.id].refcount == 0:
+                err = errno.ENOENT
+        except KeyError:
+            err = errno.ENOENT
+        if err is None and db.has_val(
+            'SELECT 1 FROM contents WHERE parent_inode=? AND name_id IN '
+            '(SELECT name_id FROM contents WHERE parent_inode=?)',
+            (target_inode.id, tmp.id),
+        ):
+            err = errno.EEXIST
+        if err is not None:
+            for row in db.get_list('SELECT name FROM contents_v WHERE parent_inode=?', (tmp.id,)):
+                await self.remove_tree(tmp.id, cast(bytes, row[0]))
+            del self.inodes[tmp.id]
+            raise FUSEError(err)
+
         # Make replication visible
         self.db.execute(
             'UPDATE contents SET parent_inode=? WHERE parent_inode=?', (target_inode.id, tmp.id)
-- 
2.43.0


From 4b27047946a9d1183ce57346daebf365512570cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 17/67] fix: s3qlcp must not copy inodes that are removed while
 their blocks are flushed

---
 src/s3ql/fs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index a4e86f0..1aa884c 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -592,6 +592,14 @@ class Operations(pyfuse3.Operations):
                         if id_ in self.open_inodes or id_ in dirty_inodes:
                             await self.cache.start_flush(id_)
 
+                            # The entry may have been removed or replaced in the meantime
+                            if not db.has_val(
+                                'SELECT 1 FROM contents WHERE parent_inode=? AND name_id=? '
+                                'AND inode=?',
+                                (src_id, name_id, id_),
+                            ):
+                                continue
+
                         if id_ not in id_cache:
                             inode = self.inodes[id_]
                             inode_new = make_inode(
-- 
2.43.0


From aa8cbe64b50d821e94f4d7e64a0ad94e8355cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 18/67] fix: s3qlcp must record a size that includes all copied
 blocks

---
 src/s3ql/fs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 1aa884c..de070c7 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -650,6 +650,16 @@ class Operations(pyfuse3.Operations):
                                 (id_new,),
                             )
 
+                            # The source may have an unfinished write or truncation, in which case its
+                            # size does not yet (or no longer) include all blocks
+                            min_size = db.get_int_val_or_none(
+                                'SELECT MAX(blockno * ? + length) FROM inode_blocks '
+                                'JOIN objects ON obj_id = id WHERE inode=?',
+                                (self.max_obj_size, id_new),
+                            )
+                            if min_size is not None and min_size > inode.size:
+                                self.inodes[id_new].size = min_size
+
                             if db.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (id_,)):
                                 queue.append((id_, id_new, -1))
                         else:
-- 
2.43.0


From 08eae7a69b51c9828f50b8445ddb69395dee18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 19/67] fix: s3qlcp must copy the entry that replaced the one
 whose blocks it flushed

---
 src/s3ql/fs.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index de070c7..8fcc9cc 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -589,16 +589,19 @@ class Operations(pyfuse3.Operations):
                         name_id = cast(int, row[0])
                         id_ = cast(InodeT, row[1])
                         # Make sure that all blocks are in the database
-                        if id_ in self.open_inodes or id_ in dirty_inodes:
+                        while id_ in self.open_inodes or id_ in dirty_inodes:
                             await self.cache.start_flush(id_)
 
                             # The entry may have been removed or replaced in the meantime
-                            if not db.has_val(
-                                'SELECT 1 FROM contents WHERE parent_inode=? AND name_id=? '
-                                'AND inode=?',
-                                (src_id, name_id, id_),
-                            ):
-                                continue
+                            flushed_id = id_
+                            id_ = db.get_val(
+                                'SELECT MAX(inode) FROM contents WHERE parent_inode=? AND name_id=?',
+                                (src_id, name_id),
+                            )
+                            if id_ == flushed_id:
+                                break
+                        if id_ is None:
+                            continue
 
                         if id_ not in id_cache:
                             inode = self.inodes[id_]
-- 
2.43.0


From d772c1a1f13bfd3e222eacdcaf005f18c14833ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 20/67] fix: removal of a tree must cope with entries that
 change concurrently

---
 src/s3ql/fs.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8fcc9cc..503f3c9 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -484,6 +484,18 @@ class Operations(pyfuse3.Operations):
                 for row in query_chunk:
                     name = cast(bytes, row[0])
                     id_ = cast(InodeT, row[2])
+
+                    # The entry may have been removed, renamed or replaced while we were waiting for
+                    # the removal of other entries
+                    if not conn.has_val(
+                        'SELECT 1 FROM contents WHERE parent_inode=? AND name_id=? AND inode=?',
+                        (id_p, row[1], id_),
+                    ):
+                        if not reinserted:
+                            queue.append(id_p)
+                            reinserted = True
+                        continue
+
                     if conn.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (id_,)):
                         # First delete subdirectories
                         if not reinserted:
@@ -510,6 +522,12 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
+        if not conn.has_val(
+            'SELECT 1 FROM contents_v WHERE parent_inode=? AND name=? AND inode=?',
+            (id_p0, name0, id0),
+        ):
+            raise FUSEError(errno.ENOENT)
+
         if id_p0 in self.open_inodes:
             log.debug('invalidate_entry(%d, %r)', id_p0, name0)
             # This may fail with ENOTEMPTY if the control file has been looked up underneath this
-- 
2.43.0


From 39bd1a8d0e516d57be8720214d04c0a645b6abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 21/67] fix: metadata upload must not collide with an open
 batched transaction

---
 src/s3ql/database.py | 76 ++++++++++++++++++++++++++++----------------
 src/s3ql/mount.py    |  2 +-
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index d392a2d..62dcd59 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -193,6 +193,10 @@ class Connection:
         # Set to a trio.Event while inhibit_writes is active, None otherwise.
         self._inhibit_writes_event: trio.Event | None = None
 
+        # Held while a batched transaction is open, so that it does not get in the way of a
+        # checkpoint or inhibit_writes().
+        self._transaction_lock = trio.Lock()
+
         cur = self.conn.cursor()
 
         # We initialize in NORMAL locking mode before entering WAL mode, then switch to
@@ -303,12 +307,14 @@ class Connection:
     async def checkpoint(self) -> None:
         '''Checkpoint the WAL.
 
-        If inhibit_writes() is active, waits until it completes before checkpointing.
+        If inhibit_writes() is active or a batched transaction is open, waits until it completes
+        before checkpointing.
         '''
-        if self._inhibit_writes_event is not None:
-            log.debug('checkpoint: waiting for inhibit_writes to complete')
-            await self._inhibit_writes_event.wait()
-        self._do_checkpoint()
+        async with self._transaction_lock:
+            while self._inhibit_writes_event is not None:
+                log.debug('checkpoint: waiting for inhibit_writes to complete')
+                await self._inhibit_writes_event.wait()
+            self._do_checkpoint()
 
     def sync_checkpoint(self) -> None:
         '''Checkpoint the WAL synchronously.
@@ -330,26 +336,30 @@ class Connection:
           (should never happen, this is just defense in depth)
         - checkpoint() will wait until this context exits
         - sync_checkpoint() will raise RuntimeError
-        '''
-        if self._inhibit_writes_event is not None:
-            raise RuntimeError('inhibit_writes is already active')
 
-        log.debug('inhibit_writes: starting')
-        self._inhibit_writes_event = trio.Event()
-        sqlite3ext.set_writes_inhibited(True)
-
-        # Switch to NORMAL locking mode temporarily so we can open a second connection.
-        # We need to do a read after changing the mode to actually release the exclusive lock.
-        self.conn.cursor().execute('PRAGMA locking_mode = NORMAL')
-        self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
+        If a batched transaction is open, waits until it completes.
+        '''
+        # The exclusive lock on the database cannot be released in the middle of a transaction.
+        async with self._transaction_lock:
+            if self._inhibit_writes_event is not None:
+                raise RuntimeError('inhibit_writes is already active')
+
+            log.debug('inhibit_writes: starting')
+            self._inhibit_writes_event = trio.Event()
+            sqlite3ext.set_writes_inhibited(True)
+
+            # Switch to NORMAL locking mode temporarily so we can open a second connection.
+            # We need to do a read after changing the mode to actually release the exclusive lock.
+            self.conn.cursor().execute('PRAGMA locking_mode = NORMAL')
+            self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
 
-        # Open a second connection and start a read transaction.
-        # This establishes a WAL "end mark" that prevents checkpointing past this point,
-        # ensuring the main database file stays consistent while we read it.
-        second_conn = apsw.Connection(self.file)
-        second_cur = second_conn.cursor()
-        second_cur.execute('BEGIN DEFERRED')
-        second_cur.execute('SELECT 1 FROM sqlite_master LIMIT 1')
+            # Open a second connection and start a read transaction.
+            # This establishes a WAL "end mark" that prevents checkpointing past this point,
+            # ensuring the main database file stays consistent while we read it.
+            second_conn = apsw.Connection(self.file)
+            second_cur = second_conn.cursor()
+            second_cur.execute('BEGIN DEFERRED')
+            second_cur.execute('SELECT 1 FROM sqlite_master LIMIT 1')
 
         log.debug('inhibit_writes: active, writes to main DB file will be rejected')
 
@@ -622,22 +632,32 @@ class BatchedTransactionManager:
         traceback: TracebackType | None,
     ) -> None:
         if self.in_tx:
-            self.conn.execute('COMMIT')
-            self.in_tx = False
+            self._commit()
 
     async def start_batch(self) -> None:
+        await self.conn._transaction_lock.acquire()
         self.stamp = time.time()
-        self.conn.execute('BEGIN TRANSACTION')
+        try:
+            self.conn.execute('BEGIN TRANSACTION')
+        except BaseException:
+            self.conn._transaction_lock.release()
+            raise
         self.in_tx = True
 
+    def _commit(self) -> None:
+        try:
+            self.conn.execute('COMMIT')
+        finally:
+            self.in_tx = False
+            self.conn._transaction_lock.release()
+
     async def finish_batch(self, processed: int) -> None:
         '''Finish current batch and checkpoint.'''
 
         if not self.in_tx:
             raise RuntimeError('No active batch')
 
-        self.conn.execute('COMMIT')
-        self.in_tx = False
+        self._commit()
         await self.conn.checkpoint()
         dt = time.time() - self.stamp
         self.batch_size = max(
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 2b23796..97d5d7c 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -739,7 +739,7 @@ class MetadataUploadTask:
 
             # Upload twice without blocking writes, to reduce the amount of data left for
             # the final upload (which is needed for a consistent snapshot).
-            self.db.sync_checkpoint()
+            await self.db.checkpoint()
             for _ in range(2):
                 await upload_metadata(
                     self.backend,
-- 
2.43.0


From 6d8687b2d5726da884c7a4f814c679af2f161518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 22/67] fix: remove left-over write-ahead log before
 downloading metadata

---
 src/s3ql/database.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index 62dcd59..3ffa3dd 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -948,6 +948,11 @@ class DownloadMetadata(ParallelPipeline[_BlockJob]):
     )
 
     async def discover_blocks(self) -> dict[int, list[int]]:
+        # A write-ahead log left over from a previous database would be applied to the downloaded one.
+        for suffix in ('-wal', '-shm'):
+            with contextlib.suppress(FileNotFoundError):
+                os.unlink(self.db_file + suffix)
+
         # Workers seek into this file independently, so it must exist before
         # they run.
         with open(self.db_file, 'w+b', buffering=0):
-- 
2.43.0


From 6afd2f70cf939eab78a74677c49ed27c7b5e6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 23/67] fix: store numbered parameters before s3ql_params

---
 src/s3ql/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index 3ffa3dd..7a6a7e7 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -1291,8 +1291,9 @@ async def upload_metadata(
 async def upload_params(backend: AsyncBackend, params: FsAttributes) -> None:
     log.info('Uploading filesystem superblock...')
     buf = params.serialize()
-    await backend.store('s3ql_params', buf)
+    # s3ql_params must never refer to a snapshot that cannot be restored once it is superseded.
     await backend.store('s3ql_params_%010x' % params.seq_no, buf)
+    await backend.store('s3ql_params', buf)
     log.info('Superblock upload complete.')
 
 
-- 
2.43.0


From e72461228d99e7ac9e5afacb2aa10e2e1955f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 24/67] fix: local and remote parameters may differ with the
 same sequence number

---
 src/s3ql/fsck.py  | 5 ++++-
 src/s3ql/mount.py | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 98caf27..e082153 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1330,15 +1330,18 @@ async def fsck(
     db = None
 
     param = await read_remote_params(backend)
+    remote_seq_no = param.seq_no
+    unsaved_changes = False
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
         log.info('Using cached metadata.')
+        unsaved_changes = local_param.is_mounted or local_param != param
         param = local_param
         db = Connection(cachepath + '.db', param.metadata_block_size)
         if param.is_mounted:
             log.info('File system was not unmounted cleanly')
             param.needs_fsck = True
-        if local_param.seq_no > param.seq_no:
+        if unsaved_changes:
             log.info('Remote metadata is outdated.')
             param.needs_fsck = True
 
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 97d5d7c..e426c40 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -583,10 +583,11 @@ async def get_metadata(
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
-        if local_param.seq_no > param.seq_no:
+        # Besides the sequence number, the state may differ if the process terminated between
+        # storing it locally and remotely.
+        if local_param != param:
             raise QuietError("File system not unmounted cleanly, run fsck!", exitcode=30)
         log.info('Using cached metadata.')
-        assert local_param == param
         db = Connection(cachepath + '.db', param.metadata_block_size)
 
     if param.is_mounted:
-- 
2.43.0


From e91eb225d3fe5ca0e5170aa6f85c11fba29888de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 25/67] fix: do not modify the database before it is marked as
 mounted

---
 src/s3ql/mount.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index e426c40..c857a1f 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -287,14 +287,6 @@ async def mount(
                 avail_cache / 1024,
             )
 
-    if nfs:
-        # NFS may try to look up '..', so we have to speed up this kind of query
-        log.info('Creating NFS indices...')
-        db.execute('CREATE INDEX IF NOT EXISTS ix_contents_inode ON contents(inode)')
-
-    else:
-        db.execute('DROP INDEX IF EXISTS ix_contents_inode')
-
     metadata_upload_task = MetadataUploadTask(
         param,
         backend,
@@ -363,10 +355,20 @@ async def mount(
 
         param.seq_no += 1
         param.is_mounted = True
-        write_params(cachepath, param)
 
+        write_params(cachepath, param)
         await upload_params(backend, param)
 
+        # Only modify the database now that it is marked as being in use. Otherwise, if something goes
+        # wrong above, the changes would not be included in any metadata upload.
+        if nfs:
+            # NFS may try to look up '..', so we have to speed up this kind of query
+            log.info('Creating NFS indices...')
+            db.execute('CREATE INDEX IF NOT EXISTS ix_contents_inode ON contents(inode)')
+
+        else:
+            db.execute('DROP INDEX IF EXISTS ix_contents_inode')
+
         nursery.start_soon(metadata_upload_task.run, name='metadata-upload-task')
         cm.callback(metadata_upload_task.stop)
 
-- 
2.43.0


From b5ea90aa692d43078e112bda383b3ee6089c98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 26/67] fix: do not reuse a sequence number for different
 metadata

---
 src/s3ql/fsck.py  | 15 +++++++++++++--
 src/s3ql/mount.py |  5 ++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index e082153..cda7c14 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1464,10 +1464,21 @@ async def fsck(
             include_most_recent=check_current_metadata,
         )
 
+    # A host that did not unmount cleanly may have used one more sequence number than we know. If we
+    # continue without its changes, make sure that its metadata is recognized as outdated.
+    if param.is_mounted and local_param is not param:
+        remote_seq_no += 1
+
     param.is_mounted = True
-    param.seq_no += 1
-    write_params(cachepath, param)
+    param.seq_no = remote_seq_no + 1
+
+    # If there are changes that only exist locally, the local metadata must not appear outdated even
+    # if we terminate right after the upload. If there are none, it must not be ahead of the remote
+    # metadata, because the file system could then be mounted elsewhere with this sequence number.
+    if unsaved_changes:
+        write_params(cachepath, param)
     await upload_params(backend, param)
+    write_params(cachepath, param)
 
     fsck = Fsck(cachepath + '-cache', backend, param, db)
     await fsck.check(check_cache)
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index c857a1f..48391ff 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -356,8 +356,11 @@ async def mount(
         param.seq_no += 1
         param.is_mounted = True
 
-        write_params(cachepath, param)
+        # The local state must not be ahead of the remote one before there is anything to lose.
+        # Otherwise, if the upload fails and the file system is then mounted on a different system
+        # (using the same sequence number), the local metadata would not be recognized as outdated.
         await upload_params(backend, param)
+        write_params(cachepath, param)
 
         # Only modify the database now that it is marked as being in use. Otherwise, if something goes
         # wrong above, the changes would not be included in any metadata upload.
-- 
2.43.0


From 7e683a2084bc4d615a5c4f6219e708af09c82a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 27/67] fix: compression level bzip2-0 is accepted but makes
 every upload fail

---
 src/s3ql/backends/comprenc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 1c93410..e38e1fc 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -466,7 +466,8 @@ class AsyncComprencBackend(AsyncBackend):
             if algorithm is CompressAlgorithm.ZLIB:
                 compr: CompressorProtocol = zlib.compressobj(level)
             elif algorithm is CompressAlgorithm.BZIP2:
-                compr = bz2.BZ2Compressor(level)
+                # bzip2 does not have a level 0
+                compr = bz2.BZ2Compressor(max(1, level))
             elif algorithm is CompressAlgorithm.LZMA:
                 compr = lzma.LZMACompressor(preset=level)
             buf = io.BytesIO()
-- 
2.43.0


From 2d7592e83340886e2c37d38d0fa72c0dab4cdf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 28/67] fix: corrupted unencrypted objects may fail with other
 errors than CorruptedObjectError

---
 src/s3ql/backends/comprenc.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index e38e1fc..1ef30e1 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -294,15 +294,12 @@ class AsyncComprencBackend(AsyncBackend):
         else:
             data_key = None
         compr_token = meta_raw['compression']
-        assert isinstance(compr_token, str)
         encr_alg = meta_raw['encryption']
-        assert isinstance(encr_alg, str)
         if encr_alg != 'AES_v2' and encr_alg != 'None':
-            raise RuntimeError('Unsupported encryption: %r' % encr_alg)
-        try:
-            compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
-        except KeyError:
-            raise RuntimeError('Unsupported compression: %r' % compr_token)
+            raise CorruptedObjectError('Unsupported encryption: %r' % encr_alg)
+        if not isinstance(compr_token, str) or compr_token not in _ALGORITHM_BY_TOKEN:
+            raise CorruptedObjectError('Unsupported compression: %r' % compr_token)
+        compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
 
         # The `payload_offset` key only exists if the storage object was created with on old S3QL
         # version. In order to avoid having to download and re-upload the entire object during the
@@ -310,7 +307,8 @@ class AsyncComprencBackend(AsyncBackend):
         # of the object we have to skip to get to the payload.
         if 'payload_offset' in meta_raw:
             off = meta_raw['payload_offset']
-            assert isinstance(off, int)
+            if not isinstance(off, int) or not 0 <= off <= len(buf.getbuffer()):
+                raise CorruptedObjectError('Invalid payload_offset: %r' % off)
             buf.seek(off)
         else:
             buf.seek(0)
@@ -318,7 +316,8 @@ class AsyncComprencBackend(AsyncBackend):
         # __size was introduced without bumping the filesystem revision, so some objects
         # may not have it. If it's available, use that instead of the size_hint.
         if v := meta.pop('__size', None):
-            assert isinstance(v, int)
+            if not isinstance(v, int):
+                raise CorruptedObjectError('Invalid __size: %r' % v)
             size_hint = v
 
         # In contrast to write_fh, we potentially use sync decompression/decryption here even
@@ -628,19 +627,12 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
     try:
         return decomp.decompress(buf)
     except OSError as exc:
-        if exc.args[0].lower().startswith('invalid data stream'):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
-    except lzma.LZMAError as exc:
-        if exc.args[0].lower().startswith('corrupt input data') or exc.args[0].startswith(
-            'Input format not supported'
-        ):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
-    except zlib.error as exc:
-        if exc.args[0].lower().startswith('error -3 while decompressing'):
+        if exc.errno is None:  # BZ2Decompressor
             raise CorruptedObjectError('Invalid compressed stream')
         raise
+    except (EOFError, lzma.LZMAError, zlib.error):
+        # EOFError is raised if there is data after the end of the compressed stream.
+        raise CorruptedObjectError('Invalid compressed stream')
 
 
 class ObjectNotEncrypted(Exception):
-- 
2.43.0


From 2ef17b1a8bc9cc26eb34872424a1a0817c8ac7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 29/67] fix: local backend: concurrent stores of the same
 object use the same temporary file

---
 src/s3ql/backends/local.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ceff60c..b782429 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -8,11 +8,12 @@ This work can be distributed under the terms of the GNU GPLv3.
 
 from __future__ import annotations
 
-import _thread
 import builtins
+import itertools
 import logging
 import os
 import struct
+import time
 from collections.abc import AsyncIterator
 from contextlib import ExitStack, suppress
 
@@ -34,6 +35,9 @@ from .common import (
 
 log = logging.getLogger(__name__)
 
+# Distinguishes the temporary files of concurrent writes
+_tmp_counter = itertools.count(time.time_ns())
+
 
 class AsyncBackend(AsyncBackendBase):
     '''
@@ -169,7 +173,7 @@ class AsyncBackend(AsyncBackendBase):
 
             # By renaming, we make sure that there are no
             # conflicts between parallel reads, the last one wins
-            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), _thread.get_ident())
+            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), next(_tmp_counter))
 
             fh.seek(0)
             with ExitStack() as es:
-- 
2.43.0


From e9adaab51797462284767a98b115f8de8b6803a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 30/67] fix: local backend: get_size() of missing object raises
 FileNotFoundError

---
 src/s3ql/backends/local.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index b782429..ba52df5 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -120,7 +120,10 @@ class AsyncBackend(AsyncBackendBase):
             raise NoSuchObject(key)
 
     async def get_size(self, key: str) -> int:
-        return os.path.getsize(self._key_to_path(key))
+        try:
+            return os.path.getsize(self._key_to_path(key))
+        except FileNotFoundError:
+            raise NoSuchObject(key)
 
     async def readinto_fh(self, key: str, ofh: BinaryOutput) -> BasicMappingT:
         '''Transfer data stored under *key* into *fh*, return metadata.
-- 
2.43.0


From 1bde9d71f1f3e93811a81393f337dfbc85ef7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 31/67] fix: local backend: listing some prefixes of object
 numbers omits objects

---
 src/s3ql/backends/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ba52df5..2d12752 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -235,8 +235,8 @@ class AsyncBackend(AsyncBackendBase):
         for path, dirnames, filenames in os.walk(base, topdown=True):
             # Do not look in wrong directories
             if prefix:
-                rpath = path[len(self.prefix) :]  # path relative to base
-                prefix_l = ''.join(rpath.split('/'))
+                # Below s3ql_data_, every directory name is a prefix of the object number
+                prefix_l = '' if path == self.prefix else 's3ql_data_'
 
                 dirs_to_walk = list()
                 for name in dirnames:
-- 
2.43.0


From 037ee3c3d2468c29ac8531ef32b098db2104956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 32/67] fix: unexpected or repeated 100 Continue is taken for
 the final response

---
 src/s3ql/http.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index d70dfc0..00049fa 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -510,7 +510,7 @@ class HTTPConnection:
             return await self._read_response()
 
         if expect100:
-            resp = await self._read_response()
+            resp = await self._read_response(expect_continue=True)
             if resp.status != 100:
                 # Server rejected the body before it was sent. Once the
                 # caller has consumed the response body, `_finish_cycle`
@@ -594,8 +594,12 @@ class HTTPConnection:
         if data is not None:
             await self._raw_write(data)
 
-    async def _read_response(self) -> HTTPResponse:
-        '''Read the response status line and headers and return an `HTTPResponse`.'''
+    async def _read_response(self, expect_continue: bool = False) -> HTTPResponse:
+        '''Read the response status line and headers and return an `HTTPResponse`.
+
+        If *expect_continue* is set, a ``100 Continue`` response is returned to the
+        caller. Otherwise it is skipped like any other interim response.
+        '''
 
         log.debug('start')
 
@@ -612,7 +616,7 @@ class HTTPConnection:
                 raise InvalidResponse(str(exc))
 
             if isinstance(event, h11.InformationalResponse):
-                if event.status_code == 100:
+                if event.status_code == 100 and expect_continue:
                     return HTTPResponse(
                         method=method,
                         path=path,
@@ -621,7 +625,7 @@ class HTTPConnection:
                         headers=email.message.Message(policy=email.policy.compat32),
                         length=0,
                     )
-                # Other 1xx (incl. 101 Upgrade) - skip per RFC 7231 §6.2.
+                # Any other 1xx (incl. 101 Upgrade) - skip per RFC 7231 §6.2.
                 log.debug('skipping 1xx response %d', event.status_code)
                 continue
 
-- 
2.43.0


From d68f9a2214a6fc37f9f1086f1f4f681961eb2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 33/67] fix: connection closed by the server during a request
 may be reused

---
 src/s3ql/http.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index 00049fa..9e2634b 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -459,6 +459,7 @@ class HTTPConnection:
             or self._h11.their_state is h11.MUST_CLOSE
             or self._h11.our_state is h11.CLOSED
             or self._h11.their_state is h11.CLOSED
+            or self._h11.our_state is h11.ERROR
         ):
             raise ConnectionClosed('connection was marked must-close')
         if self._response_open or self._pending_method is not None:
@@ -525,6 +526,7 @@ class HTTPConnection:
             # error response, if any, may already be sitting in the
             # receive buffer; try to read it. Otherwise drop the
             # half-broken connection and re-raise.
+            self._h11.send_failed()
             try:
                 return await self._read_response()
             except Exception:
@@ -819,8 +821,12 @@ class HTTPConnection:
         assert self._h11 is not None
         if self._h11.our_state is h11.SEND_BODY:
             # 100-continue rejection left our_state stuck in SEND_BODY; the
-            # wire is still keep-alive-clean since neither side sent a body.
-            self._h11 = h11.Connection(our_role=h11.CLIENT)
+            # wire is still keep-alive-clean since neither side sent a body,
+            # unless the server is going to close the connection.
+            if self._h11.their_state is h11.DONE and not self._h11.trailing_data[0]:
+                self._h11 = h11.Connection(our_role=h11.CLIENT)
+            else:
+                self._h11.send_failed()
             return
         if self._h11.our_state is h11.DONE and self._h11.their_state is h11.DONE:
             self._h11.start_next_cycle()
@@ -829,6 +835,7 @@ class HTTPConnection:
             or self._h11.their_state is h11.MUST_CLOSE
             or self._h11.our_state is h11.CLOSED
             or self._h11.their_state is h11.CLOSED
+            or self._h11.our_state is h11.ERROR
         ):
             # Server signalled Connection: close; let the next send_request
             # surface ConnectionClosed via its state check.
-- 
2.43.0


From 7a596cda55a2b8c06c1dce4fbfbe549102344ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 34/67] fix: excess data after a response is taken for the next
 response

---
 src/s3ql/http.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index 9e2634b..a1c92c3 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -882,6 +882,8 @@ class HTTPConnection:
             and self._h11 is not None
             and self._h11.our_state is h11.IDLE
             and self._h11.their_state is h11.IDLE
+            # Data that does not belong to any request
+            and not self._h11.trailing_data[0]
         )
 
     async def __aenter__(self) -> HTTPConnection:
-- 
2.43.0


From 4dc95196713c34d0272351792d21c752bb4ab3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 35/67] fix: Google Storage download retried after a partial
 transfer duplicates data

When the connection was lost in the middle of a download, the retry appended
the complete object to the data that had already been written, instead of
starting again at the original position.
---
 src/s3ql/backends/gs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index d47c740..682dd64 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -446,6 +446,7 @@ class AsyncBackend(AsyncBackendBase):
         try:
             async with self._pool.get() as conn:
                 await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
+                fh.seek(off)
                 await conn.readinto_fh(fh)
         except RequestError as exc:
             mapped_exc = _map_request_error(exc, key)
-- 
2.43.0


From 216b7c4dc2a253717bb1cc4ea65a790e10dbe660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 36/67] fix: Google Storage does not retry after 429 Too Many
 Requests

---
 src/s3ql/backends/gs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 682dd64..5a0ccab 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -321,7 +321,9 @@ class AsyncBackend(AsyncBackendBase):
             # The pool drops the affected connection automatically.
             return True
 
-        elif isinstance(exc, RequestError) and (500 <= exc.code <= 599 or exc.code == 408):
+        elif isinstance(exc, RequestError) and (
+            500 <= exc.code <= 599 or exc.code in (408, 429)
+        ):
             return True
 
         elif isinstance(exc, AccessTokenExpired):
-- 
2.43.0


From 35f9c9ee093363e7088606a7557fb49b244a135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 37/67] fix: temporary failure of the Google token server is
 taken for wrong credentials

---
 src/s3ql/backends/gs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 5a0ccab..1d8c627 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -611,7 +611,11 @@ class AsyncBackend(AsyncBackendBase):
             resp = await conn.send_request(
                 'POST', '/o/oauth2/token', headers=headers, body=[body.encode('utf-8')]
             )
-            json_resp = _parse_json_response(resp, await conn.readall())
+            resp_body = await conn.readall()
+            if 500 <= resp.status <= 599 or resp.status in (408, 429):
+                # Not a verdict on the credentials, will be retried.
+                raise _parse_error_response(resp, resp_body)
+            json_resp = _parse_json_response(resp, resp_body)
 
         if 'error' in json_resp:
             raise AuthenticationError(str(json_resp['error']))
-- 
2.43.0


From 47ae92ef47b96242fc4aa0b067e69c34e5566c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 38/67] fix: S3 signature is wrong when using the default port
 without SSL

The Host header does not contain the port if it is the default port of the
protocol, but with no-ssl the signature was calculated as if it did.
---
 src/s3ql/backends/s3c4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 16c9af4..c29926f 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -170,7 +170,7 @@ class AsyncBackend(s3c.AsyncBackend):
         ymdhms = time.strftime('%Y%m%dT%H%M%SZ', now)
 
         # add non-standard port to host header, needed for correct signature
-        if self.port != 443:
+        if self.port != (443 if self.ssl_context else 80):
             headers['host'] = '%s:%s' % (self.hostname, self.port)
 
         headers['x-amz-date'] = ymdhms
-- 
2.43.0


From a4475ddc71228431e8a5a36d35e37853229f081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 39/67] fix: damaged metadata headers crash instead of being
 reported as BadDigestError

If the metadata was damaged in transit such that it was not a valid literal
anymore, a SyntaxError or ValueError escaped instead of the error that triggers
a retry (or is reported to the user).
---
 src/s3ql/backends/s3c.py   | 6 +++++-
 src/s3ql/backends/swift.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 579fd12..58f08c1 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -707,7 +707,11 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
+        try:
+            meta = literal_eval('{ %s }' % buf)
+        except (SyntaxError, ValueError):
+            log.warning('Unable to parse metadata for %s', obj_key)
+            raise BadDigestError('BadDigest', 'Invalid metadata for %s' % obj_key)
 
         # Decode bytes values
         for k, v in meta.items():
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 3b9396a..b74596b 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -168,7 +168,11 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
+        try:
+            meta = literal_eval('{ %s }' % buf)
+        except (SyntaxError, ValueError):
+            log.warning('Unable to parse metadata for %s', obj_key)
+            raise BadDigestError('BadDigest', 'Invalid metadata for %s' % obj_key)
 
         # Decode bytes values
         for k, v in meta.items():
-- 
2.43.0


From 8dfc41613c563481b10daf760d04a460c1526700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 40/67] fix: Swift uploads without TLS are not verified

The MD5 sum was never computed because the SSL context is always set, and the
ETag returned by the server was not compared with it either.
---
 src/s3ql/backends/swift.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index b74596b..8494cc3 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -461,6 +461,13 @@ class AsyncBackend(AsyncBackendBase):
 
         # Success
         if 200 <= resp.status <= 299:
+            if md5_hex is not None:
+                etag = (resp.headers['ETag'] or '').strip('"').lower()
+                if etag and etag != md5_hex:
+                    raise BadDigestError(
+                        'BadDigest',
+                        f'MD5 mismatch when uploading {path} (received: {etag}, sent: {md5_hex})',
+                    )
             return resp
 
         # Expired auth token
@@ -574,14 +581,14 @@ class AsyncBackend(AsyncBackendBase):
 
         headers['Content-Type'] = 'application/octet-stream'
 
-        if self.ssl_context:
-            md5_hex: str | None = None
-        else:
-            md5_hex = await hash_fh(fh, 'md5')
-            headers['Content-MD5'] = b64encode(bytes.fromhex(md5_hex)).decode('ascii')
-
+        md5_hex: str | None = None
         try:
             async with self._borrow_conn() as conn:
+                # TLS already provides on-the-wire integrity. Note that *self.ssl_context* may
+                # be set even if the storage URL does not use TLS.
+                if conn.ssl_context is None:
+                    md5_hex = await hash_fh(fh, 'md5')
+                    headers['Content-MD5'] = b64encode(bytes.fromhex(md5_hex)).decode('ascii')
                 resp = await self._do_request(
                     conn,
                     'PUT',
-- 
2.43.0


From 61dd1bcbd25db85e4116c0696158714dd1898f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 41/67] fix: S3 and B2 do not retry temporary failures when
 determining the region

---
 src/s3ql/backends/b2ng.py | 3 ++-
 src/s3ql/backends/s3.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/b2ng.py b/src/s3ql/backends/b2ng.py
index 26e8951..ab3fa5e 100644
--- a/src/s3ql/backends/b2ng.py
+++ b/src/s3ql/backends/b2ng.py
@@ -20,7 +20,7 @@ from s3ql.types import BasicMappingT
 
 from ..logging import QuietError
 from . import s3c4
-from .common import AuthenticationError, AuthorizationError
+from .common import AuthenticationError, AuthorizationError, retry
 from .s3c import HTTPError
 
 log = logging.getLogger(__name__)
@@ -102,6 +102,7 @@ class AsyncBackend(s3c4.AsyncBackend):
         port = 443 if ssl_context else 80
         return (hostname, port, bucket_name, prefix)
 
+    @retry
     async def _discover_region(self) -> None:
         '''Resolve the bucket's region via Backblaze's native authorize endpoint.
 
diff --git a/src/s3ql/backends/s3.py b/src/s3ql/backends/s3.py
index 4adb44d..c2d012d 100644
--- a/src/s3ql/backends/s3.py
+++ b/src/s3ql/backends/s3.py
@@ -17,6 +17,7 @@ from s3ql.http import CaseInsensitiveDict, HTTPConnection
 
 from ..logging import QuietError
 from . import s3c4
+from .common import retry
 
 log = logging.getLogger(__name__)
 
@@ -89,6 +90,7 @@ class AsyncBackend(s3c4.AsyncBackend):
 
         return self
 
+    @retry
     async def _discover_region(self) -> None:
         '''Probe the configured endpoint; retarget if redirected, error on wrong region.
 
-- 
2.43.0


From 0d53042b50a265dda449a21191804b5679aa3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 42/67] fix: S3 and B2 bulk deletion reports the wrong keys as
 not deleted

If a request failed, keys deleted by earlier requests stayed in the list. If the first
error of a reply was about a missing object, the other errors were ignored. A connection
lost while reading the reply was not retried.
---
 src/s3ql/backends/s3c4.py | 94 +++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 49 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index c29926f..a92b060 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -14,8 +14,6 @@ import urllib.parse
 from typing import Literal, overload
 from xml.sax.saxutils import escape as xml_escape
 
-from more_itertools import chunked
-
 from s3ql.http import CaseInsensitiveDict
 
 from . import s3c
@@ -88,15 +86,15 @@ class AsyncBackend(s3c.AsyncBackend):
     async def delete_multi(self, keys: list[str], *, log_progress: bool = False) -> None:
         log.debug('started with %s', keys)
         total = len(keys)
-        failures: list[str] = []
-        processed = 0
-        for batch in chunked(list(keys), MAX_KEYS):
-            await self._delete_multi(batch)
-            failures.extend(batch)
-            processed += len(batch)
+        while keys:
+            batch = keys[:MAX_KEYS]
+            try:
+                await self._delete_multi(batch)
+            finally:
+                # Whatever is left in *batch* has not been deleted
+                keys[:MAX_KEYS] = batch
             if log_progress:
-                log_delete_progress(processed - len(failures), total)
-        keys[:] = failures
+                log_delete_progress(total - len(keys), total)
 
     @retry
     async def _delete_multi(self, keys: list[str]) -> None:
@@ -117,45 +115,43 @@ class AsyncBackend(s3c.AsyncBackend):
             resp = await self._do_request(
                 conn, 'POST', '/', subres='delete', body=[body], headers=headers
             )
-            try:
-                root = await self._parse_xml_response(conn, resp)
-                ns_p = self.xml_ns_prefix
-
-                error_tags = root.findall(ns_p + 'Error')
-                if not error_tags:
-                    del keys[:]
-                    return
-
-                offset = len(self.prefix)
-                for tag in root.findall(ns_p + 'Deleted'):
-                    key_elem = tag.find(ns_p + 'Key')
-                    assert key_elem is not None
-                    fullkey = key_elem.text
-                    assert fullkey is not None and fullkey.startswith(self.prefix)
-                    keys.remove(fullkey[offset:])
-
-                if log.isEnabledFor(logging.DEBUG):
-                    for errtag in error_tags:
-                        errkey_text = errtag.findtext(ns_p + 'Key')
-                        log.debug(
-                            'Delete %s failed with %s',
-                            errkey_text[offset:] if errkey_text else None,
-                            errtag.findtext(ns_p + 'Code'),
-                        )
-
-                errcode = error_tags[0].findtext(ns_p + 'Code')
-                errmsg = error_tags[0].findtext(ns_p + 'Message')
-                errkey_text = error_tags[0].findtext(ns_p + 'Key')
-                errkey = errkey_text[offset:] if errkey_text else '<unknown>'
-
-                if errcode == 'NoSuchKey':
-                    pass
-                else:
-                    raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
-
-            except:
-                await conn.discard()
-                raise
+            root = await self._parse_xml_response(conn, resp)
+
+        ns_p = self.xml_ns_prefix
+        offset = len(self.prefix)
+
+        # Objects that do not exist are as good as deleted
+        missing = []
+        error_tags = []
+        for tag in root.findall(ns_p + 'Error'):
+            if tag.findtext(ns_p + 'Code') == 'NoSuchKey':
+                missing.append(tag)
+            else:
+                error_tags.append(tag)
+
+        if not error_tags:
+            del keys[:]
+            return
+
+        for tag in root.findall(ns_p + 'Deleted') + missing:
+            fullkey = tag.findtext(ns_p + 'Key')
+            assert fullkey is not None and fullkey.startswith(self.prefix)
+            keys.remove(fullkey[offset:])
+
+        if log.isEnabledFor(logging.DEBUG):
+            for errtag in error_tags:
+                errkey_text = errtag.findtext(ns_p + 'Key')
+                log.debug(
+                    'Delete %s failed with %s',
+                    errkey_text[offset:] if errkey_text else None,
+                    errtag.findtext(ns_p + 'Code'),
+                )
+
+        errcode = error_tags[0].findtext(ns_p + 'Code')
+        errmsg = error_tags[0].findtext(ns_p + 'Message')
+        errkey_text = error_tags[0].findtext(ns_p + 'Key')
+        errkey = errkey_text[offset:] if errkey_text else '<unknown>'
+        raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
 
     def _authorize_request(self, method, path, headers, subres, query_string):
         '''Add authorization information to *headers*'''
-- 
2.43.0


From 018f30f7cba56300bae854a0a31c2661130aaa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 43/67] fix: Swift bulk deletion forgets keys that have not
 been deleted

If the server aborts the request because of an internal error, or the features of the
server are detected again because of an expired token, keys were removed from the list
although the objects still exist.
---
 src/s3ql/backends/swift.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 8494cc3..5a9dc96 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -723,6 +723,7 @@ class AsyncBackend(AsyncBackendBase):
             resp_status_code in (400, 404)
             and len(resp_dict['Errors']) == 0
             and resp_dict['Number Not Found'] > 0
+            and resp_dict['Number Deleted'] + resp_dict['Number Not Found'] >= len(keys)
         ):
             # No/only 404 errors occurred.
             # We remove all keys since we don't know which ones have been deleted.
@@ -742,9 +743,15 @@ class AsyncBackend(AsyncBackendBase):
             key = urllib.parse.unquote(fullkey[offset:])
             failed_keys.append(key)
             log.debug('Delete %s failed with %s', key, error[1])
-        for key in keys[:]:
-            if key not in failed_keys:
-                keys.remove(key)
+        # If the server has not processed all the keys (because of an internal error), we
+        # don't know which ones have been deleted and have to assume that none were.
+        if (
+            resp_dict['Number Deleted'] + resp_dict['Number Not Found'] + len(failed_keys)
+            >= len(keys)
+        ):
+            for key in keys[:]:
+                if key not in failed_keys:
+                    keys.remove(key)
 
         # At this point it is clear that the server has sent some kind of error response.
         # Swift is not very consistent in returning errors.
@@ -783,11 +790,13 @@ class AsyncBackend(AsyncBackendBase):
         if self.features.has_bulk_delete:
             total = len(keys)
             while len(keys) > 0:
-                tmp = keys[: self.features.max_deletes]
+                # The features may change when the connection is re-established
+                max_deletes = self.features.max_deletes
+                tmp = keys[:max_deletes]
                 try:
                     await self._delete_multi(tmp)
                 finally:
-                    keys[: self.features.max_deletes] = tmp
+                    keys[:max_deletes] = tmp
                 if log_progress:
                     log_delete_progress(total - len(keys), total)
         else:
-- 
2.43.0


From 464611481885f613895f1c268db4dc0319d019c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 44/67] fix: fsck removes block mappings of missing inodes only
 after checking object refcounts

Objects that are no longer referenced afterwards were left with a refcount of zero.
---
 src/s3ql/fsck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index cda7c14..c613ea8 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -154,13 +154,13 @@ class Fsck:
 
             self.check_objects_temp()
             self.check_objects_hash()
+            self.check_inode_blocks_inode()
             await self.check_objects_refcount()
             await self.check_objects_id()
             await self.check_objects_phys_size()
             # TODO: Are there any checks we could do on objects.length?
 
             self.check_inode_blocks_obj_id()
-            self.check_inode_blocks_inode()
 
             self.check_inodes_refcount()
             self.check_inodes_size()
-- 
2.43.0


From 509a90ebfc6d836d52535d908bef16f43f14d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 45/67] fix: fsck does not remove unused names

---
 src/s3ql/fsck.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index c613ea8..32f906f 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -887,16 +887,16 @@ class Fsck:
                SELECT names.id, refcounts.refcount, names.refcount
                  FROM names LEFT JOIN refcounts ON %(dbf)snames.id = %(dbf)srefcounts.id
                 WHERE names.refcount != refcounts.refcount
-                   OR %(dbf)srefcounts.refcount IS NULL'''
+                   OR %(dbf)srefcounts.refcount = 0'''
                 % self.conn.fixes
             )
 
             for row in self.conn.query('SELECT * FROM wrong_refcounts'):
                 id_ = cast(int, row[0])
-                cnt = cast(int | None, row[1])
+                cnt = cast(int, row[1])
                 cnt_old = cast(int, row[2])
                 self.found_errors = True
-                if cnt is None:
+                if cnt == 0:
                     self.log_error(
                         "Name %d not referenced, removing (old refcount: %d)", id_, cnt_old
                     )
-- 
2.43.0


From 7460679a579e7d1c57c810f9675e5ca6fa34e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 46/67] fix: fsck gives the id of a missing name to a new name

---
 src/s3ql/fsck.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 32f906f..86b822d 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -510,14 +510,18 @@ class Fsck:
 
         log.info('Checking extended attributes (names)...')
 
-        for rowid, orig_name_id, inode in self.conn.query_typed(
-            (int, int, InodeT),
-            'SELECT ext_attributes.rowid, name_id, inode '
-            'FROM ext_attributes LEFT JOIN names '
-            'ON %(dbf)sname_id = %(dbf)snames.id '
-            'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
-        ):
+        affected = list(
+            self.conn.query_typed(
+                (int, int, InodeT),
+                'SELECT ext_attributes.rowid, name_id, inode '
+                'FROM ext_attributes LEFT JOIN names '
+                'ON %(dbf)sname_id = %(dbf)snames.id '
+                'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
+            )
+        )
+        for rowid, orig_name_id, inode in affected:
             self.found_errors = True
+            idx = rowid
             for name, id_p in self.conn.query_typed(
                 (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE inode=?', (inode,)
             ):
@@ -530,7 +534,7 @@ class Fsck:
                 )
 
             while True:
-                new_name_id = self._add_name('lost+found_%d' % rowid)
+                new_name_id = self._add_name(b'lost+found_%d' % idx)
                 if not self.conn.has_val(
                     "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
                 ):
@@ -539,7 +543,7 @@ class Fsck:
                     )
                     break
                 self._del_name(new_name_id)
-                rowid += 1
+                idx += 1
 
     def check_ext_attributes_inode(self) -> None:
         """Check ext_attributes.inode"""
@@ -1246,7 +1250,15 @@ class Fsck:
         try:
             name_id = self.conn.get_int_val('SELECT id FROM names WHERE name=?', (name,))
         except NoSuchRowError:
-            name_id = self.conn.rowid('INSERT INTO names (name, refcount) VALUES(?,?)', (name, 1))
+            # Do not re-use the id of a missing name that something still refers to
+            name_id = self.conn.rowid(
+                'INSERT INTO names (id, name, refcount) '
+                'SELECT MAX(id)+1, ?, 1 FROM (SELECT 0 AS id '
+                'UNION ALL SELECT MAX(id) FROM names '
+                'UNION ALL SELECT MAX(name_id) FROM contents '
+                'UNION ALL SELECT MAX(name_id) FROM ext_attributes)',
+                (name,),
+            )
         else:
             self.conn.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
         return name_id
-- 
2.43.0


From a1316d93a46235d898c4d574eb2de4f7128dc737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 47/67] fix: fsck fails if the path of an affected inode can
 not be determined

---
 src/s3ql/fsck.py | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 86b822d..50f7eb6 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -431,7 +431,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path = get_path(inode_p, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 newname = ('-%d' % inode).encode()
             else:
                 newname = escape(path) + ('-%d' % inode).encode()
@@ -493,7 +493,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path: bytes | str = get_path(inode, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 path = '[inode %d, parent %d]' % (inode, inode_p)
 
             self.log_error(
@@ -525,7 +525,7 @@ class Fsck:
             for name, id_p in self.conn.query_typed(
                 (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE inode=?', (inode,)
             ):
-                path = get_path(id_p, self.conn, name)
+                path = self._get_path(id_p, name)
                 self.log_error(
                     'Extended attribute %d of %s refers to non-existing name %d, renaming..',
                     rowid,
@@ -671,7 +671,7 @@ class Fsck:
                     "Size of inode %d (%s) does not agree with number of blocks, "
                     "setting from %d to %d",
                     id_,
-                    to_str(get_path(cast(InodeT, id_), self.conn)),
+                    to_str(self._get_path(cast(InodeT, id_))),
                     size_old,
                     size,
                 )
@@ -728,7 +728,7 @@ class Fsck:
                     self.log_error(
                         "Inode %d (%s) has wrong reference count, setting from %d to %d",
                         id_,
-                        to_str(get_path(cast(InodeT, id_), self.conn)),
+                        to_str(self._get_path(cast(InodeT, id_))),
                         cnt_old,
                         cnt,
                     )
@@ -791,7 +791,7 @@ class Fsck:
                 )
             )
             for name, name_id, id_p in affected_entries:
-                path = get_path(cast(InodeT, id_p), self.conn, name)
+                path = self._get_path(cast(InodeT, id_p), name)
                 self.log_error("File may lack data, moved to /lost+found: %s", to_str(path))
                 (lof_id, newname) = self.resolve_free(b"/lost+found", escape(path))
 
@@ -962,7 +962,7 @@ class Fsck:
                 self.log_error(
                     'Inode %d (%s): directory entry has no type, changed to %s.',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                     made_to,
                 )
                 self.conn.execute('UPDATE inodes SET mode=? WHERE id=?', (mode, inode))
@@ -973,7 +973,7 @@ class Fsck:
                     'Inode %d (%s): symlink does not have target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if stat.S_ISLNK(mode) and target is not None and size != len(target):
@@ -982,7 +982,7 @@ class Fsck:
                     'Inode %d (%s): symlink size (%d) does not agree with target '
                     'length (%d). This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                     size,
                     len(target),
                 )
@@ -995,7 +995,7 @@ class Fsck:
                     'Inode %d (%s) is not regular file but has non-zero size. '
                     'This is may confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if target is not None and not stat.S_ISLNK(mode):
@@ -1004,7 +1004,7 @@ class Fsck:
                     'Inode %d (%s) is not symlink but has symlink target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if rdev != 0 and not (stat.S_ISBLK(mode) or stat.S_ISCHR(mode)):
@@ -1013,7 +1013,7 @@ class Fsck:
                     'Inode %d (%s) is not device but has device number. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if has_children and not stat.S_ISDIR(mode):
@@ -1022,7 +1022,7 @@ class Fsck:
                     'Inode %d (%s) is not a directory but has child entries. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if not stat.S_ISREG(mode) and self.conn.has_val(
@@ -1033,13 +1033,13 @@ class Fsck:
                     'Inode %d (%s) is not a regular file but has data blocks. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
         for name, id_p in self.conn.query_typed(
             (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE LENGTH(name) > 255'
         ):
-            path = get_path(id_p, self.conn, name)
+            path = self._get_path(id_p, name)
             self.log_error(
                 'Entry name %s... in %s has more than 255 characters, this could cause problems',
                 to_str(name[:40]),
@@ -1205,6 +1205,19 @@ class Fsck:
                 (await self.backend.get_size('s3ql_data_%d' % obj_id), obj_id),
             )
 
+    def _get_path(self, id_: InodeT, name: bytes | None = None) -> bytes:
+        '''Return path of inode *id_*, even if it can not be reached from the root
+
+        If the path can not be determined (because there is no way to the root directory, or because
+        it is too long), the returned path starts with the number of the inode.
+        '''
+
+        try:
+            return get_path(id_, self.conn, name)
+        except (NoSuchRowError, RuntimeError):
+            path = b'/[inode %d]' % id_
+            return path if name is None else path + b'/' + name
+
     def resolve_free(self, path: bytes, name: bytes) -> tuple[InodeT, bytes]:
         '''Return parent inode and name of an unused directory entry
 
-- 
2.43.0


From b97c3ad3fae6a662ae46c3c957ce5cb4c97c57a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 48/67] fix: fsck fails for deep or circular directory trees

---
 src/s3ql/fsck.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 50f7eb6..0fdaa15 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -589,11 +589,19 @@ class Fsck:
         self.conn.execute('INSERT INTO loopcheck2 (inode) SELECT inode FROM loopcheck')
 
         def delete_tree(inode_p: InodeT) -> None:
-            for (inode,) in self.conn.query_typed(
-                (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode_p,)
-            ):
-                delete_tree(inode)
-            self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+            todo = [inode_p]
+            while todo:
+                inode_p = todo.pop()
+                self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+                todo.extend(
+                    inode
+                    for (inode,) in self.conn.query_typed(
+                        (InodeT,),
+                        'SELECT inode FROM loopcheck JOIN loopcheck2 USING (inode) '
+                        'WHERE loopcheck.parent_inode=?',
+                        (inode_p,),
+                    )
+                )
 
         root: InodeT = ROOT_INODE
         while True:
-- 
2.43.0


From 1ec459aaa9af7515c563f31710295cb1d6e3c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 49/67] fix: fsck fails if the inode of lost+found is missing

---
 src/s3ql/fsck.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 0fdaa15..1581791 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -396,13 +396,20 @@ class Fsck:
                     (self._add_name(b"lost+found"), inode_l, ROOT_INODE),
                 )
 
-        mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
-        if not stat.S_ISDIR(mode):
+        try:
+            mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        except NoSuchRowError:
+            mode = None
+        if mode is None or not stat.S_ISDIR(mode):
             self.found_errors = True
-            self.log_error(
-                '/lost+found is not a directory! Old entry will be saved as /lost+found/inode-%s*',
-                inode_l,
-            )
+            if mode is None:
+                self.log_error('Inode of /lost+found vanished, recreating directory')
+            else:
+                self.log_error(
+                    '/lost+found is not a directory! '
+                    'Old entry will be saved as /lost+found/inode-%s*',
+                    inode_l,
+                )
             # We leave the old inode unassociated, so that it will be added
             # to lost+found later on.
             inode_l = self.create_inode(
-- 
2.43.0


From cd5a353eec3a3200bbb0dad610223d322905255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 50/67] fix: fsck fails if the inode of the root directory is
 missing

---
 src/s3ql/fsck.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 1581791..d9b400e 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -143,6 +143,7 @@ class Fsck:
         self.conn.execute('CREATE INDEX tmp3 ON contents(name_id)')
         self.conn.execute('CREATE INDEX tmp4 ON ext_attributes(name_id)')
         try:
+            self.check_root()
             self.check_lof()
             if check_cache:
                 await self.check_cache(check_cache == 'keep')
@@ -355,6 +356,30 @@ class Fsck:
 
         self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
 
+    def check_root(self) -> None:
+        """Ensure that there is a root directory"""
+
+        if self.conn.has_val('SELECT 1 FROM inodes WHERE id=?', (ROOT_INODE,)):
+            return
+
+        self.found_errors = True
+        self.log_error('Inode of root directory vanished, recreating directory')
+        now_ns = time_ns()
+        self.conn.execute(
+            'INSERT INTO inodes (id,mode,uid,gid,mtime_ns,atime_ns,ctime_ns,refcount) '
+            'VALUES (?,?,?,?,?,?,?,?)',
+            (
+                ROOT_INODE,
+                stat.S_IFDIR | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR,
+                os.getuid(),
+                os.getgid(),
+                now_ns,
+                now_ns,
+                now_ns,
+                1,
+            ),
+        )
+
     def check_lof(self) -> None:
         """Ensure that there is a lost+found directory"""
 
-- 
2.43.0


From 0ffc43046d395711a6e45149891df63b5951e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 51/67] fix: fsck moves lost+found into itself

---
 src/s3ql/fsck.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index d9b400e..2d0ae1c 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -823,6 +823,13 @@ class Fsck:
             )
             to_delete.append(rowid)
 
+            # Directories do not have any data to lose (and must not be moved into themselves)
+            if self.conn.has_val(
+                'SELECT 1 FROM inodes WHERE id=? AND (mode & ?) = ?',
+                (inode, S_IFMT, stat.S_IFDIR),
+            ):
+                continue
+
             affected_entries = list(
                 self.conn.query_typed(
                     (bytes, int, int),
-- 
2.43.0


From 82fca441400d69c51f59c8aaa6c7c691f462e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 52/67] fix: fsck does not remove directory entries for the
 root directory

---
 src/s3ql/fsck.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 2d0ae1c..930a424 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -357,7 +357,14 @@ class Fsck:
         self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
 
     def check_root(self) -> None:
-        """Ensure that there is a root directory"""
+        """Ensure that there is a root directory, and that no directory contains it"""
+
+        # The root directory is not part of any other directory (reference counts of names are
+        # corrected later on by check_names_refcount)
+        if self.conn.has_val('SELECT 1 FROM contents WHERE inode=?', (ROOT_INODE,)):
+            self.found_errors = True
+            self.log_error('Root directory is part of other directories, deleting entries')
+            self.conn.execute('DELETE FROM contents WHERE inode=?', (ROOT_INODE,))
 
         if self.conn.has_val('SELECT 1 FROM inodes WHERE id=?', (ROOT_INODE,)):
             return
-- 
2.43.0


From 97a7080904e5bb53d40ba444efa3970547d29970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 53/67] fix: fsck re-anchors several entries of an unreachable
 inode at once

---
 src/s3ql/fsck.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 930a424..b84c3db 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -663,8 +663,11 @@ class Fsck:
                     "SELECT inode FROM loopcheck2 ORDER BY inode ASC LIMIT 1"
                 )
 
-            (name, name_id) = self.conn.get_row_typed(
-                (bytes, int), "SELECT name, name_id FROM contents_v WHERE inode=? LIMIT 1", (inode,)
+            (rowid, name, name_id) = self.conn.get_row_typed(
+                (int, bytes, int),
+                'SELECT contents.rowid, name, name_id '
+                'FROM contents JOIN names ON name_id = names.id WHERE inode=? LIMIT 1',
+                (inode,),
             )
             (id_p, name) = self.resolve_free(b"/lost+found", name)
 
@@ -674,8 +677,8 @@ class Fsck:
                 inode,
             )
             self.conn.execute(
-                'UPDATE contents SET parent_inode=?, name_id=? WHERE inode=? AND name_id=?',
-                (id_p, self._add_name(name), inode, name_id),
+                'UPDATE contents SET parent_inode=?, name_id=? WHERE rowid=?',
+                (id_p, self._add_name(name), rowid),
             )
             self._del_name(name_id)
             self.conn.execute('UPDATE loopcheck SET parent_inode=? WHERE inode=?', (id_p, inode))
-- 
2.43.0


From a7146f1c66642f053a39f3cc41a80a92fab960b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 54/67] fix: fsck ignores all but one entry of a directory when
 checking reachability

---
 src/s3ql/fsck.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b84c3db..2f5fe34 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -613,31 +613,24 @@ class Fsck:
         log.info('Checking directory reachability...')
 
         self.conn.execute(
-            'CREATE TEMPORARY TABLE loopcheck (inode INTEGER PRIMARY KEY, parent_inode INTEGER)'
+            # Directories that have not been reached yet
+            'CREATE TEMPORARY TABLE loopcheck (inode INTEGER PRIMARY KEY)'
         )
-        self.conn.execute('CREATE INDEX ix_loopcheck_parent_inode ON loopcheck(parent_inode)')
         self.conn.execute(
             'INSERT INTO loopcheck (inode) SELECT parent_inode FROM contents GROUP BY parent_inode'
         )
-        self.conn.execute(
-            'UPDATE loopcheck SET parent_inode = '
-            '(SELECT contents.parent_inode FROM contents '
-            ' WHERE contents.inode = loopcheck.inode LIMIT 1)'
-        )
-        self.conn.execute('CREATE TEMPORARY TABLE loopcheck2 (inode INTEGER PRIMARY KEY)')
-        self.conn.execute('INSERT INTO loopcheck2 (inode) SELECT inode FROM loopcheck')
 
         def delete_tree(inode_p: InodeT) -> None:
             todo = [inode_p]
             while todo:
                 inode_p = todo.pop()
-                self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+                self.conn.execute('DELETE FROM loopcheck WHERE inode=?', (inode_p,))
                 todo.extend(
                     inode
                     for (inode,) in self.conn.query_typed(
                         (InodeT,),
-                        'SELECT inode FROM loopcheck JOIN loopcheck2 USING (inode) '
-                        'WHERE loopcheck.parent_inode=?',
+                        'SELECT inode FROM contents JOIN loopcheck USING (inode) '
+                        'WHERE parent_inode=?',
                         (inode_p,),
                     )
                 )
@@ -646,7 +639,7 @@ class Fsck:
         while True:
             delete_tree(root)
 
-            if not self.conn.has_val("SELECT 1 FROM loopcheck2"):
+            if not self.conn.has_val("SELECT 1 FROM loopcheck"):
                 break
 
             self.found_errors = True
@@ -654,19 +647,20 @@ class Fsck:
             # Try obvious culprits first
             try:
                 inode = self.conn.get_inode_val(
-                    'SELECT loopcheck2.inode FROM loopcheck2 JOIN contents '
-                    'ON loopcheck2.inode = contents.inode '
+                    'SELECT loopcheck.inode FROM loopcheck JOIN contents '
+                    'ON loopcheck.inode = contents.inode '
                     'WHERE parent_inode = contents.inode LIMIT 1'
                 )
             except NoSuchRowError:
                 inode = self.conn.get_inode_val(
-                    "SELECT inode FROM loopcheck2 ORDER BY inode ASC LIMIT 1"
+                    "SELECT inode FROM loopcheck ORDER BY inode ASC LIMIT 1"
                 )
 
             (rowid, name, name_id) = self.conn.get_row_typed(
                 (int, bytes, int),
                 'SELECT contents.rowid, name, name_id '
-                'FROM contents JOIN names ON name_id = names.id WHERE inode=? LIMIT 1',
+                'FROM contents JOIN names ON name_id = names.id WHERE inode=? '
+                'ORDER BY parent_inode != inode LIMIT 1',
                 (inode,),
             )
             (id_p, name) = self.resolve_free(b"/lost+found", name)
@@ -681,11 +675,9 @@ class Fsck:
                 (id_p, self._add_name(name), rowid),
             )
             self._del_name(name_id)
-            self.conn.execute('UPDATE loopcheck SET parent_inode=? WHERE inode=?', (id_p, inode))
             root = inode
 
         self.conn.execute("DROP TABLE loopcheck")
-        self.conn.execute("DROP TABLE loopcheck2")
 
     def check_inodes_size(self) -> None:
         """Check inodes.size"""
-- 
2.43.0


From 737176fd8b6009c0630f3dcaf9a74b3303b85db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 55/67] fix: objects that have been replaced by unencrypted
 ones are not treated as corrupted

---
 src/s3ql/backends/comprenc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 1ef30e1..01a8242 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -635,7 +635,7 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
         raise CorruptedObjectError('Invalid compressed stream')
 
 
-class ObjectNotEncrypted(Exception):
+class ObjectNotEncrypted(CorruptedObjectError):
     '''
     Raised by the backend if an object was requested from an encrypted
     backend, but the object was stored without encryption.
@@ -645,4 +645,5 @@ class ObjectNotEncrypted(Exception):
     verified.
     '''
 
-    pass
+    def __init__(self, str_: str = 'Object is not encrypted') -> None:
+        super().__init__(str_)
-- 
2.43.0


From fb0cd3c779fd39d23295922334ee8eb5de5371c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 56/67] fix: unencrypted file system unusable if creation of
 encrypted one was interrupted before

---
 src/s3ql/mkfs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/s3ql/mkfs.py b/src/s3ql/mkfs.py
index 948db3b..2a84591 100644
--- a/src/s3ql/mkfs.py
+++ b/src/s3ql/mkfs.py
@@ -211,6 +211,16 @@ async def mkfs(
         await backend.store('s3ql_passphrase_bak3', data_pw)
     else:
         data_pw = None
+        # If creation of an encrypted file system has been interrupted, its key must not be mistaken
+        # for the key of the new file system.
+        for key in (
+            's3ql_passphrase',
+            's3ql_passphrase_bak1',
+            's3ql_passphrase_bak2',
+            's3ql_passphrase_bak3',
+        ):
+            if await plain_backend.contains(key):
+                await plain_backend.delete(key)
 
     # There can't be a corresponding backend, so we can safely delete
     # these files.
-- 
2.43.0


From 6cbd77960374b418432a63aa8c59dbcd7f7893b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 57/67] fix: mkfs overwrites key of incomplete file system, and
 mixes it with the new one

---
 src/s3ql/mkfs.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/s3ql/mkfs.py b/src/s3ql/mkfs.py
index 2a84591..e59dfe1 100644
--- a/src/s3ql/mkfs.py
+++ b/src/s3ql/mkfs.py
@@ -188,6 +188,14 @@ async def mkfs(
         raise QuietError(
             "Refusing to overwrite existing file system! (use `s3qladm clear` to delete)"
         )
+    # Remainders of another file system (whose creation or deletion was interrupted, or that lost its
+    # s3ql_params object) could not be used with the key and metadata of the new file system, and
+    # overwriting its key would make them inaccessible.
+    async for _ in plain_backend.list('s3ql_'):
+        raise QuietError(
+            'Refusing to overwrite remainders of existing file system! '
+            '(use `s3qladm clear` to delete)'
+        )
 
     data_pw: bytes | None
     if not plain:
@@ -211,16 +219,6 @@ async def mkfs(
         await backend.store('s3ql_passphrase_bak3', data_pw)
     else:
         data_pw = None
-        # If creation of an encrypted file system has been interrupted, its key must not be mistaken
-        # for the key of the new file system.
-        for key in (
-            's3ql_passphrase',
-            's3ql_passphrase_bak1',
-            's3ql_passphrase_bak2',
-            's3ql_passphrase_bak3',
-        ):
-            if await plain_backend.contains(key):
-                await plain_backend.delete(key)
 
     # There can't be a corresponding backend, so we can safely delete
     # these files.
-- 
2.43.0


From 1306010ba3b9fcf0c70a3ab350201dc777fca4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:41 +0000
Subject: [PATCH 58/67] fix: expire_backups forgets ages of new backups when
 interrupted

---
 contrib/expire_backups.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index dafcfbf..26ac5d4 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -118,6 +118,11 @@ async def expire_backups(
             'Would remove more than %d%% of backups, aborting' % (proportion_delete * 100)
         )
 
+    # If we get interrupted while removing backups, the next run must not take the remaining backups
+    # for new ones.
+    if to_delete and not dry_run:
+        save_state(state, saved_state)
+
     for x in to_delete:
         log.info('Backup %s is no longer needed, removing...', x)
         if not dry_run:
@@ -130,11 +135,17 @@ async def expire_backups(
         log.info('Dry run, not saving state.')
     else:
         log.info('Saving state..')
-        with open(state + '.new', 'wb') as fh:
-            fh.write(freeze_basic_mapping(saved_state))
+        for x in to_delete:
+            del saved_state[x]
         if os.path.exists(state):
-            os.rename(state, state + '.bak')
-        os.rename(state + '.new', state)
+            shutil.copyfile(state, state + '.bak')
+        save_state(state, saved_state)
+
+
+def save_state(path, state):
+    with open(path + '.new', 'wb') as fh:
+        fh.write(freeze_basic_mapping(state))
+    os.rename(path + '.new', path)
 
 
 def main(args: Sequence[str] | None = None) -> None:
@@ -251,11 +262,7 @@ def process_backups(backup_list, state, cycles):
             format_list(missing[range_]),
         )
 
-    to_delete = set(state) - keep
-    for x in to_delete:
-        del state[x]
-
-    return to_delete
+    return set(state) - keep
 
 
 def format_list(l):  # noqa: E741
-- 
2.43.0


From 596f67ea38199821c19426120fb0ae7f1d7ca003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:42 +0000
Subject: [PATCH 59/67] fix: truncating into a lost block terminates the mount
 process

---
 src/s3ql/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 503f3c9..436c62a 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1105,7 +1105,9 @@ class Operations(pyfuse3.Operations):
                     log.warning(
                         'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
                     )
-                    raise
+                    self.failsafe = True
+                    self.broken_blocks[id_].add(last_block)
+                    raise FUSEError(errno.EIO)
 
                 except CorruptedObjectError as exc:
                     log.warning(
-- 
2.43.0


From 550f0aa10da25277e4833700eba6ebe84f1774f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 60/67] fix: failed truncation removes data and leaves file
 smaller than its blocks

---
 src/s3ql/fs.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 436c62a..0ab4679 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1091,34 +1091,38 @@ class Operations(pyfuse3.Operations):
             total_blocks = int(math.ceil(inode.size / self.max_obj_size))
 
             # Adjust file size
+            old_size = inode.size
             inode.size = len_
 
-            # Delete blocks and truncate last one if required
-            if cutoff == 0:
-                await self.cache.remove(id_, last_block, total_blocks)
-            else:
-                await self.cache.remove(id_, last_block + 1, total_blocks)
+            # Truncate last block if required. This goes first, so that nothing has been removed
+            # if it fails.
+            if cutoff != 0:
                 try:
                     async with self.cache.get(id_, last_block) as cache_entry:
                         cache_entry.truncate(cutoff)
-                except NoSuchObject as exc:
-                    log.warning(
-                        'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
-                    )
+                except (NoSuchObject, CorruptedObjectError) as exc:
+                    if isinstance(exc, NoSuchObject):
+                        log.warning(
+                            'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
+                        )
+                    else:
+                        log.warning(
+                            'Backend returned malformed data for block %d of inode %d (%s)',
+                            last_block,
+                            id_,
+                            exc,
+                        )
+                    # *inode* may have expired from the cache
+                    inode = self.inodes[id_]
+                    if inode.size == len_:
+                        inode.size = old_size
                     self.failsafe = True
                     self.broken_blocks[id_].add(last_block)
                     raise FUSEError(errno.EIO)
+                last_block += 1
 
-                except CorruptedObjectError as exc:
-                    log.warning(
-                        'Backend returned malformed data for block %d of inode %d (%s)',
-                        last_block,
-                        id_,
-                        exc,
-                    )
-                    self.failsafe = True
-                    self.broken_blocks[id_].add(last_block)
-                    raise FUSEError(errno.EIO)
+            # Delete blocks
+            await self.cache.remove(id_, last_block, total_blocks)
 
         return inode.entry_attributes()
 
-- 
2.43.0


From ae16b84f196149845d3dc1560d6abc7b4d5b240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 61/67] fix: s3qlcp must wait for blocks whose checksum is
 being calculated

---
 src/s3ql/block_cache.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index e06a7d5..666c189 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -194,6 +194,8 @@ class BlockCache:
     :block_lock: MultiLock keyed by (inode, blockno) — synchronizes access to cache entries
     :in_flight_uploads: maps obj_id to a `trio.Event` set when the upload of that object
         completes (successfully or not). An entry exists iff an upload is in flight.
+    :_registering: maps the key of a cache entry that is in transit, but not yet registered in the
+        database, to a `trio.Event` that is set when this changes.
     :_in_transit_count: number of cache entries whose `in_transit` flag is set
     :_upload_send: channel to distribute upload work to worker tasks
     :_remove_send: channel to distribute removal work to worker tasks
@@ -209,6 +211,7 @@ class BlockCache:
     cache: CacheDict
     block_lock: MultiLock[tuple[InodeT, int]]
     in_flight_uploads: dict[int, trio.Event]
+    _registering: dict[tuple[InodeT, int], trio.Event]
     _in_transit_count: int
     transfer_completed: trio.Condition
     _upload_send: UploadChannelSend
@@ -235,6 +238,7 @@ class BlockCache:
         self.cache = CacheDict(max_size, max_entries)
         self.block_lock = MultiLock()
         self.in_flight_uploads = {}
+        self._registering = {}
         self._in_transit_count = 0
         self.transfer_completed = trio.Condition()
         self._upload_send = upload_send
@@ -362,6 +366,11 @@ class BlockCache:
         el.in_transit = False
         self._in_transit_count -= 1
 
+    def _mark_registered(self, el: CacheEntry) -> None:
+        event = self._registering.pop(el.key, None)
+        if event is not None:
+            event.set()
+
     async def _do_upload(self, el: CacheEntry, obj_id: int) -> None:
         '''Upload object using async backend.'''
 
@@ -451,10 +460,12 @@ class BlockCache:
             log.debug('uploading %s..', el)
             self._mark_in_transit(el)
             set_in_transit = True
+            self._registering[el.key] = trio.Event()
             el.seek(0)
             sha = await trio.to_thread.run_sync(sha256_fh, el)
             hash_ = sha.digest()
         except:
+            self._mark_registered(el)
             if set_in_transit:
                 self._unmark_in_transit(el)
             await self.block_lock.release(el.key)
@@ -496,6 +507,7 @@ class BlockCache:
                 # obj_id via the database will also find the event.
                 self.in_flight_uploads[obj_id] = trio.Event()
                 upload_registered = True
+                self._mark_registered(el)
                 await self._upload_send.send((el, obj_id))
 
             # There is a block with the same hash
@@ -509,6 +521,8 @@ class BlockCache:
                         (obj_id, el.inode, el.blockno),
                     )
 
+                self._mark_registered(el)
+
                 # If the object is still being uploaded, the entry has to remain dirty (and thus in
                 # the cache): should the upload fail, fsck.s3ql needs the cached data to recover.
                 upload_pending = obj_id in self.in_flight_uploads
@@ -523,6 +537,7 @@ class BlockCache:
                     return upload_pending
 
         except:
+            self._mark_registered(el)
             if set_in_transit:
                 self._unmark_in_transit(el)
             await self.block_lock.release(el.key, noerror=True)
@@ -871,6 +886,11 @@ class BlockCache:
                 continue
             await self.upload_if_dirty(el)
 
+            # A different task may still be calculating the checksum
+            event = self._registering.get(el.key)
+            if event is not None:
+                await event.wait()
+
     async def flush(self) -> None:
         """Upload all dirty blocks."""
 
-- 
2.43.0


From 9ab6bd5a52af60fe62cbc3edb4590ebaf41f6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:02 +0000
Subject: [PATCH 62/67] fix: make changes of several tables by one request
 atomic

If the process was interrupted in the middle of a rename, unlink, symlink,
removexattr or the removal of an inode, the database was left with part of
the changes: directory entries and extended attributes under invented names,
directories with two entries, symlinks without target.
---
 src/s3ql/database.py | 15 ++++++++
 src/s3ql/fs.py       | 86 ++++++++++++++++++++++++--------------------
 2 files changed, 63 insertions(+), 38 deletions(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index 7a6a7e7..c472a1a 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -382,6 +382,21 @@ class Connection:
             self._inhibit_writes_event = None
             log.debug('inhibit_writes: finished')
 
+    @contextlib.contextmanager
+    def atomic(self) -> Iterator[None]:
+        '''Context manager to write the changes of several statements together
+
+        If the process is interrupted, either all or none of the changes are in the database. There
+        is no rollback if an exception is raised (this would get the database out of sync with the
+        inode cache). The block must not yield to other tasks. May be used while a batched
+        transaction is open.
+        '''
+        self.conn.cursor().execute('SAVEPOINT atomic')
+        try:
+            yield
+        finally:
+            self.conn.cursor().execute('RELEASE atomic')
+
     def batch(self, dt_target: float) -> BatchedTransactionManager:
         return BatchedTransactionManager(self, dt_target)
 
diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 0ab4679..e7eb094 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -382,8 +382,11 @@ class Operations(pyfuse3.Operations):
         ):
             raise FUSEError(pyfuse3.ENOATTR)
 
-        name_id = self._del_name(name)
-        self.db.execute('DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id))
+        with self.db.atomic():
+            name_id = self._del_name(name)
+            self.db.execute(
+                'DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id)
+            )
 
         self.inodes[id_].ctime_ns = time_ns()
 
@@ -779,19 +782,20 @@ class Operations(pyfuse3.Operations):
         await self.cache.remove(id_, 0, int(math.ceil(size / self.max_obj_size)))
         # Since the inode is not open, it's not possible that new blocks
         # get created at this point and we can safely delete the inode
-        self.db.execute(
-            'UPDATE names SET refcount = refcount - 1 WHERE '
-            'id IN (SELECT name_id FROM ext_attributes WHERE inode=?)',
-            (id_,),
-        )
-        self.db.execute(
-            'DELETE FROM names WHERE refcount=0 AND '
-            'id IN (SELECT name_id FROM ext_attributes WHERE inode=?)',
-            (id_,),
-        )
-        self.db.execute('DELETE FROM ext_attributes WHERE inode=?', (id_,))
-        self.db.execute('DELETE FROM symlink_targets WHERE inode=?', (id_,))
-        del self.inodes[id_]
+        with self.db.atomic():
+            self.db.execute(
+                'UPDATE names SET refcount = refcount - 1 WHERE '
+                'id IN (SELECT name_id FROM ext_attributes WHERE inode=?)',
+                (id_,),
+            )
+            self.db.execute(
+                'DELETE FROM names WHERE refcount=0 AND '
+                'id IN (SELECT name_id FROM ext_attributes WHERE inode=?)',
+                (id_,),
+            )
+            self.db.execute('DELETE FROM ext_attributes WHERE inode=?', (id_,))
+            self.db.execute('DELETE FROM symlink_targets WHERE inode=?', (id_,))
+            del self.inodes[id_]
 
     async def _remove(self, id_p: InodeT, name: bytes, id_: InodeT, force: bool = False) -> None:
         '''Remove entry `name` with parent inode `id_p`
@@ -812,8 +816,11 @@ class Operations(pyfuse3.Operations):
         if self.inodes[id_p].locked and not force:
             raise FUSEError(errno.EPERM)
 
-        name_id = self._del_name(name)
-        self.db.execute("DELETE FROM contents WHERE name_id=? AND parent_inode=?", (name_id, id_p))
+        with self.db.atomic():
+            name_id = self._del_name(name)
+            self.db.execute(
+                "DELETE FROM contents WHERE name_id=? AND parent_inode=?", (name_id, id_p)
+            )
 
         inode = self.inodes[id_]
         inode.refcount -= 1
@@ -854,10 +861,11 @@ class Operations(pyfuse3.Operations):
         # with this size. If the kernel ever learns to open and read
         # symlinks directly, it will read the corresponding number of \0
         # bytes.
-        inode = self._create(id_p, name, mode, ctx, size=len(target))
-        self.db.execute(
-            'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode.id, target)
-        )
+        with self.db.atomic():
+            inode = self._create(id_p, name, mode, ctx, size=len(target))
+            self.db.execute(
+                'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode.id, target)
+            )
         self.open_inodes[inode.id] += 1
         return inode.entry_attributes()
 
@@ -944,13 +952,14 @@ class Operations(pyfuse3.Operations):
     def _rename(self, id_p_old: InodeT, name_old: bytes, id_p_new: InodeT, name_new: bytes) -> None:
         now_ns = time_ns()
 
-        name_id_new = self._add_name(name_new)
-        name_id_old = self._del_name(name_old)
+        with self.db.atomic():
+            name_id_new = self._add_name(name_new)
+            name_id_old = self._del_name(name_old)
 
-        self.db.execute(
-            "UPDATE contents SET name_id=?, parent_inode=? WHERE name_id=? AND parent_inode=?",
-            (name_id_new, id_p_new, name_id_old, id_p_old),
-        )
+            self.db.execute(
+                "UPDATE contents SET name_id=?, parent_inode=? WHERE name_id=? AND parent_inode=?",
+                (name_id_new, id_p_new, name_id_old, id_p_old),
+            )
 
         inode_p_old = self.inodes[id_p_old]
         inode_p_old.mtime_ns = now_ns
@@ -978,18 +987,19 @@ class Operations(pyfuse3.Operations):
             )
             raise FUSEError(errno.ENOTEMPTY)
 
-        # Replace target
-        name_id_new = self.db.get_int_val('SELECT id FROM names WHERE name=?', (name_new,))
-        self.db.execute(
-            "UPDATE contents SET inode=? WHERE name_id=? AND parent_inode=?",
-            (id_old, name_id_new, id_p_new),
-        )
+        with self.db.atomic():
+            # Replace target
+            name_id_new = self.db.get_int_val('SELECT id FROM names WHERE name=?', (name_new,))
+            self.db.execute(
+                "UPDATE contents SET inode=? WHERE name_id=? AND parent_inode=?",
+                (id_old, name_id_new, id_p_new),
+            )
 
-        # Delete old name
-        name_id_old = self._del_name(name_old)
-        self.db.execute(
-            'DELETE FROM contents WHERE name_id=? AND parent_inode=?', (name_id_old, id_p_old)
-        )
+            # Delete old name
+            name_id_old = self._del_name(name_old)
+            self.db.execute(
+                'DELETE FROM contents WHERE name_id=? AND parent_inode=?', (name_id_old, id_p_old)
+            )
 
         inode_new = self.inodes[id_new]
         inode_new.refcount -= 1
-- 
2.43.0


From 818b731139bfbccdb235aecab3545f0d1acce5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:39 +0000
Subject: [PATCH 63/67] fix: interrupted or completed restore-metadata leaves
 stale local data

The metadata was downloaded over the local database while the local parameters
still said that it is current, so after an interruption mount.s3ql used a
partial or outdated database. The local cache was kept and loaded again by the
next mount although it does not belong to the restored metadata.
---
 src/s3ql/adm.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 01871b3..7977af3 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -8,7 +8,9 @@ This work can be distributed under the terms of the GNU GPLv3.
 
 from __future__ import annotations
 
+import contextlib
 import dataclasses
+import itertools
 import logging
 import os
 import re
@@ -560,6 +562,20 @@ async def restore_metadata(
 
     params = await read_remote_params(backend, seq_no=seq_no)
 
+    # If we are interrupted, the partially downloaded metadata must not be taken for a valid copy of
+    # the metadata described by the existing parameters.
+    with contextlib.suppress(FileNotFoundError):
+        os.unlink(cachepath + '.params')
+
+    # The cache belongs to the metadata that is being replaced.
+    if os.path.exists(cachepath + '-cache'):
+        for i in itertools.count():
+            bak_name = '%s-cache.bak%d' % (cachepath, i)
+            if not os.path.exists(bak_name):
+                break
+        log.warning('Renaming outdated cache directory %s to .bak%d', cachepath + '-cache', i)
+        os.rename(cachepath + '-cache', bak_name)
+
     log.info('Downloading metadata...')
     conn = await download_metadata(
         backend,
-- 
2.43.0


From 8360d62f3a14cde253f8d0e95bd3a2b758b7de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:39 +0000
Subject: [PATCH 64/67] fix: shrink-db interrupted at its start makes other
 hosts' changes disappear

Like mount and fsck, upload the new sequence number before storing it locally.
Otherwise another host may use the same sequence number, and its changes are
discarded by the next fsck on this host.
---
 src/s3ql/adm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 7977af3..f6e4dd2 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -331,8 +331,11 @@ async def shrink_db(ctx: typer.Context, storage_url: StorageUrl, *, stack: Async
     (param, db) = await get_metadata(backend, cachepath)
     param.seq_no += 1
     param.is_mounted = True
-    write_params(cachepath, param)
+
+    # Upload first: if we are interrupted before, the file system may be mounted elsewhere with this
+    # sequence number.
     await upload_params(backend, param)
+    write_params(cachepath, param)
 
     old_size = os.path.getsize(db.file)
     db.execute('VACUUM')
-- 
2.43.0


From 0782dfd8dd92e3d20a7a15afec8e5ae075362aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:39 +0000
Subject: [PATCH 65/67] fix: interrupted upgrade can not be resumed

If interrupted after the new parameters were stored locally, running the
command again failed with KeyError (the local sequence number is larger than
that of the old metadata object). If interrupted before the old metadata object
was replaced, older versions could still mount the file system.
---
 src/s3ql/adm.py | 62 +++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index f6e4dd2..7f2def4 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -356,6 +356,33 @@ async def shrink_db(ctx: typer.Context, storage_url: StorageUrl, *, stack: Async
     await expire_objects(backend)
 
 
+async def backup_old_metadata(backend: AsyncComprencBackend) -> None:
+    '''Make sure that an older S3QL version does not mount an upgraded file system.'''
+
+    try:
+        old_params = await backend.lookup('s3ql_metadata')
+    except NoSuchObject:
+        # File system was created with a recent version
+        return
+
+    assert isinstance(old_params['revision'], int) and isinstance(old_params['seq_no'], int)
+    if old_params['revision'] >= CURRENT_FS_REV:
+        return
+
+    # Re-upload the old metadata object with the new revision
+    log.info('Backing up old metadata...')
+    new_params = dict(old_params)
+    new_params['revision'] = CURRENT_FS_REV
+    new_params['seq_no'] = old_params['seq_no'] + 1
+    with tempfile.TemporaryFile() as tmpfh:
+        await backend.readinto_fh('s3ql_metadata', tmpfh)
+        len_ = tmpfh.tell()
+        tmpfh.seek(0)
+        await backend.write_fh(
+            "s3ql_metadata", tmpfh, len_, metadata=new_params, dont_compress=True
+        )
+
+
 @app.command()
 @trio_command
 async def upgrade(
@@ -397,17 +424,18 @@ async def upgrade(
 
     with open(params_path, 'rb') as fh:
         local_params: BasicMappingT = thaw_basic_mapping(fh.read())
-    try:
-        remote_params = await backend.lookup('s3ql_metadata')
 
-    # Filesystem may have been updated already
+    # Filesystem may have been updated already. If so, make sure that it has been completed.
+    try:
+        await backend.lookup('s3ql_params')
     except NoSuchObject:
-        remote_params_typed = await read_remote_params(backend)
-        remote_params = {
-            'seq_no': remote_params_typed.seq_no,
-            'revision': remote_params_typed.revision,
-        }
+        pass
+    else:
+        await backup_old_metadata(backend)
+        print('File system already at most-recent revision')
+        return
 
+    remote_params = await backend.lookup('s3ql_metadata')
     local_seq_no = local_params['seq_no']
     remote_seq_no = remote_params['seq_no']
     local_revision = local_params['revision']
@@ -492,21 +520,11 @@ async def upgrade(
     params.seq_no += 1
 
     await upload_metadata(backend, db, params, incremental=False)
-    write_params(cachepath, params)
+    # Until the new parameters are available remotely, the local ones must not indicate that the
+    # upgrade has been done (otherwise it could not be resumed).
     await upload_params(backend, params)
-
-    # Re-upload the old metadata object to make sure that we don't accidentally
-    # re-mount the filesystem with an older S3QL version.
-    log.info('Backing up old metadata...')
-    local_params['revision'] = CURRENT_FS_REV
-    local_params['seq_no'] = local_seq_no + 1
-    with tempfile.TemporaryFile() as tmpfh:
-        await backend.readinto_fh('s3ql_metadata', tmpfh)
-        len_ = tmpfh.tell()
-        tmpfh.seek(0)
-        await backend.write_fh(
-            "s3ql_metadata", tmpfh, len_, metadata=local_params, dont_compress=True
-        )
+    write_params(cachepath, params)
+    await backup_old_metadata(backend)
 
     print('File system upgrade complete.')
 
-- 
2.43.0


From 8ed1acb3d460b8ea839d2139a4817bb8105500b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:04 +0000
Subject: [PATCH 66/67] fix: dirty blocks are not uploaded while other blocks
 keep changing

The periodic upload stopped at the first block that had been modified recently. Since the cache is
ordered by last access, a block that was modified long ago, but is still being read, may come after
it, and was never uploaded.
---
 developer-notes/block_cache.md | 4 ++--
 src/s3ql/mount.py              | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/developer-notes/block_cache.md b/developer-notes/block_cache.md
index 439da0b..235aa0c 100644
--- a/developer-notes/block_cache.md
+++ b/developer-notes/block_cache.md
@@ -399,11 +399,11 @@ Note that `_deref_obj` is called **after** releasing the block lock. This is saf
 
 **Tasks:** The CommitTask (background task in `mount.py`), running concurrently with FUSE handlers and upload workers.
 
-CommitTask runs in a loop, sleeping for 5 seconds between iterations. Each iteration walks `self.block_cache.cache.mutable_values()` (Section 4.1). For every entry that is old enough (`stamp - el.last_write >= dirty_block_upload_delay`), dirty, and not already in transit, it calls `upload_if_dirty(el)`. Iteration stops at the first entry younger than the upload delay, since the cache is ordered LRU-first.
+CommitTask runs in a loop, sleeping for 5 seconds between iterations. Each iteration walks `self.block_cache.cache.mutable_values()` (Section 4.1). For every entry that is old enough (`stamp - el.last_write >= dirty_block_upload_delay`), dirty, and not already in transit, it calls `upload_if_dirty(el)`. Younger entries are skipped. Iteration cannot stop at the first of them: the cache is ordered by last access, so an older dirty entry that is still being read may come later.
 
 This is safe because `upload_if_dirty` performs all necessary locking internally. CommitTask merely acts as a trigger — it does not hold any locks across iterations, and it skips entries that are already being uploaded. The `last_write` check avoids uploading blocks that are still being actively written, reducing unnecessary uploads of data that will change again soon.
 
-CommitTask runs concurrently with FUSE handlers that may be dirtying the same entries. The locking within `upload_if_dirty` handles this: if an entry gets re-dirtied between CommitTask's check and the lock acquisition, `upload_if_dirty` sees the current state after acquiring the lock and proceeds correctly. `mutable_values()` may re-yield an entry that was `move_to_tail`'d after a write during this walk; the re-yielded entry has a fresh `last_write` and triggers the early break, or is already `in_transit` and is filtered out.
+CommitTask runs concurrently with FUSE handlers that may be dirtying the same entries. The locking within `upload_if_dirty` handles this: if an entry gets re-dirtied between CommitTask's check and the lock acquisition, `upload_if_dirty` sees the current state after acquiring the lock and proceeds correctly. `mutable_values()` may re-yield an entry that was `move_to_tail`'d after a write during this walk; the re-yielded entry has a fresh `last_write` and is skipped, or is already `in_transit` and is filtered out.
 
 
 ## 7. Failure Modes and Crash Recovery
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 48391ff..acc186b 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -850,11 +850,12 @@ class CommitTask:
             did_sth = False
             stamp = time.time()
             for el in self.block_cache.cache.mutable_values():
-                if (
-                    self.stop_event.is_set()
-                    or stamp - el.last_write < self.dirty_block_upload_delay
-                ):
+                if self.stop_event.is_set():
                     break
+                # The cache is ordered by last access, which says nothing about the time of the last
+                # write. Older blocks may come after this one.
+                if stamp - el.last_write < self.dirty_block_upload_delay:
+                    continue
                 if el.dirty and not el.in_transit:
                     await self.block_cache.upload_if_dirty(el)
                     did_sth = True
-- 
2.43.0


From 69874ae1494e9a654b9caf86f95805fe343fae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:00 +0000
Subject: [PATCH 67/67] fix: busy loop while a block is a duplicate of one that
 is being uploaded

An entry that was found to be identical to a block whose upload is still in progress remains dirty.
The periodic upload tried again immediately, so it computed the checksum of the entry over and over
until the other upload had finished.
---
 src/s3ql/mount.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index acc186b..d30a39d 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -858,7 +858,10 @@ class CommitTask:
                     continue
                 if el.dirty and not el.in_transit:
                     await self.block_cache.upload_if_dirty(el)
-                    did_sth = True
+                    # If the entry is identical to a block whose upload is still in progress, it
+                    # remains dirty. There is no point in trying again right away.
+                    if el.in_transit or not el.dirty:
+                        did_sth = True
 
             if not did_sth:
                 with trio.move_on_after(5):
-- 
2.43.0

