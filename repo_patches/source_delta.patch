From 071029b391fda92c44d6b4b951f0c3eb69bcc57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 01/11] fix: MST.delete: reset layer to 0 when the tree becomes
 empty

Otherwise, deleting the last key of a tree with layer > 0 and then adding a lower
layer key nests the new key under a non-canonical extra root node.
---
 arroba/mst.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 9892ffb..11be45c 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -572,8 +572,13 @@ class MST:
         entries = self.get_entries()
         if len(entries) == 1 and isinstance(entries[0], MST):
             return entries[0].trim_top()
-        else:
-            return self
+
+        if not entries:
+            # an empty tree is always layer 0. otherwise, adding to this tree would
+            # start from the deleted key's layer and add extra structural nodes
+            self.layer = 0
+
+        return self
 
 
     # Subtree & Splits
-- 
2.43.0


From 0e41f1ab83ff9ae33d0c79bad5a6cc7bea4b35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 02/11] fix: Storage.commit: don't leave a failed commit's
 writes in the stored repo's MST

---
 arroba/storage.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7a90ed6..37b6e1d 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -555,6 +555,9 @@ class Storage:
         if len(writes) > MAX_OPERATIONS_PER_COMMIT:
             raise ValueError(f'Too many operations ({len(writes)}), max is {MAX_OPERATIONS_PER_COMMIT}')
 
+        # don't touch repo.mst until we've written everything. load_repo may have
+        # returned a shared Repo, which needs to stay unchanged if we fail below
+        tree = repo.mst
         ops = []
         for write in copy.copy(writes):
             assert isinstance(write, Write), type(write)
@@ -564,12 +567,12 @@ class Storage:
             # https://github.com/bluesky-social/proposals/tree/main/0006-sync-iteration#commit-validation-mst-operation-inversion
             prev_cid = None
             if write.action in (Action.UPDATE, Action.DELETE):
-                if not (prev_cid := repo.mst.get(path)):
+                if not (prev_cid := tree.get(path)):
                     raise ValueError(f"{path} doesn't exist in repo")
 
             if write.action == Action.DELETE:
                 logger.debug('deleting from MST')
-                repo.mst = repo.mst.delete(path)
+                tree = tree.delete(path)
                 logger.debug('  done')
                 ops.append(CommitOp(action=Action.DELETE, path=path,
                                     cid=None, prev_cid=prev_cid))
@@ -589,23 +592,23 @@ class Storage:
 
             if write.action == Action.CREATE:
                 logger.debug('adding to MST')
-                repo.mst = repo.mst.add(path, block.cid)
+                tree = tree.add(path, block.cid)
                 logger.debug('  done')
                 ops.append(op)
             else:
                 assert write.action == Action.UPDATE
-                orig_pointer = repo.mst.get_pointer()
+                orig_pointer = tree.get_pointer()
                 logger.debug('updating MST')
-                repo.mst = repo.mst.update(path, block.cid)
+                tree = tree.update(path, block.cid)
                 logger.debug('  done')
-                if repo.mst.get_pointer() != orig_pointer:
+                if tree.get_pointer() != orig_pointer:
                     # no-op updates are invalid in ATProto, so only include this
                     # update operation if it changes the the record and MST.
                     # https://github.com/snarfed/arroba/issues/52#issuecomment-2825755142
                     ops.append(op)
 
         logger.debug('loading unstored MST blocks')
-        root, unstored_blocks = repo.mst.get_unstored_blocks()
+        root, unstored_blocks = tree.get_unstored_blocks()
         logger.debug('  done')
         for block in unstored_blocks.values():
             block.repo = repo_did
@@ -639,7 +642,7 @@ class Storage:
             self.store_repo(repo)
             logger.debug('  done')
 
-        orig_repo.mst = repo.mst
+        repo.mst = orig_repo.mst = tree
         orig_repo.head = commit_block
         return commit_data
 
-- 
2.43.0


From a2785a235d94590a9f6beb2c15cc8ac6b4809634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 03/11] fix: Storage.commit: check the stored repo's status too

The repo passed in may have been loaded before the repo was deactivated.
---
 arroba/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 37b6e1d..38a58f4 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -545,6 +545,8 @@ class Storage:
             assert repo.did
             repo_did = repo.did
             repo = self.load_repo(repo_did)
+            if repo.status:  # orig_repo may be stale
+                raise InactiveRepo(repo.did, repo.status)
             prev = repo.head.cid  # for the new commit
 
         commit_blocks = {}  # maps CID to Block
-- 
2.43.0


From 7d684a6c4cdb4d3a9254451416be34929c65a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 04/11] fix: Storage.activate_repo: do nothing if the repo is
 tombstoned, as documented

---
 arroba/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 38a58f4..80e52de 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -286,6 +286,9 @@ class Storage:
         Args:
           repo (Repo)
         """
+        if repo.status == TOMBSTONED:
+            return
+
         self._set_repo_status(repo, None)
         block = self.write_event(repo=repo, type='account', active=True)
 
-- 
2.43.0


From 0395acce24329e7e6639c0f26915764ba46929a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 05/11] fix: com.atproto.sync.getRecord: include the covering
 proof for the record's own path

---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6fd632f..0c2a514 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -220,7 +220,7 @@ def get_record(input, did=None, collection=None, rkey=None):
 
     # include covering proof for a create of this record
     create = Block(decoded=record,
-                   ops=[CommitOp(Action.CREATE, collection, block.cid)])
+                   ops=[CommitOp(Action.CREATE, f'{collection}/{rkey}', block.cid)])
     proofs = repo.mst.add_covering_proofs(CommitData(commit=create, blocks={}))
     proof_blocks = [car.Block(data=val.encoded) for val in proofs.values()]
 
-- 
2.43.0


From 47c5da2e78811b6d8950cfaa0458b8e3e18b5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 06/11] fix: Storage.read_events_by_seq: skip imported repos'
 blocks, which have seq 0

Otherwise, starting from 0 raises AssertionError, which breaks the firehose
collector's preload and subscribers with cursor 0.
---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 80e52de..d367009 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -400,7 +400,8 @@ class Storage:
             return CommitData(blocks=blocks, commit=commit_block,
                               prev=commit_block.decoded.get('prev'))
 
-        for block in self.read_blocks_by_seq(start=start, repo=repo):
+        # importRepo writes blocks with seq 0, which aren't part of any event
+        for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
                 if commit_block:
-- 
2.43.0


From b156f833ed6809affe5801f37879f360913ea05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 07/11] fix: firehose.subscribe: don't emit an event twice when
 rollback is extended under us

Another subscriber may merge older events into the beginning of the rollback window
while we're still loading events from before it.
---
 arroba/firehose.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4328a66..ed71737 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -162,6 +162,9 @@ def subscribe(cursor=None):
             log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
             pre_rollback.append((header, payload))
             yield (header, payload)
+            # another subscriber may extend rollback backward past this event before
+            # we hand off to it
+            cursor = payload['seq'] + 1
 
     # hand off to rollback window and new events
     if cursor is not None:
-- 
2.43.0


From 554f28bece54dbbd0c6929aa972dcb4171d1c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 08/11] fix: firehose.subscribe: don't raise IndexError with a
 cursor when rollback is empty

---
 arroba/firehose.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index ed71737..4da8b00 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -170,7 +170,8 @@ def subscribe(cursor=None):
     if cursor is not None:
         if not handoff:
             handoff = rollback.copy()
-        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
+        if handoff:
+            log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
         for header, payload in handoff:
             if payload['seq'] >= cursor:
                 log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
@@ -181,8 +182,11 @@ def subscribe(cursor=None):
     try:
         with lock:
             if cursor is not None:
-                last_seq = handoff[-1][1]['seq']
-                assert last_seq >= rollback[0][1]["seq"]
+                if handoff:
+                    last_seq = handoff[-1][1]['seq']
+                    assert last_seq >= rollback[0][1]["seq"]
+                else:  # rollback was empty
+                    last_seq = cursor - 1
 
                 for header, payload in rollback:
                     if payload['seq'] > last_seq:
-- 
2.43.0


From 452294e7605e68d45ba450647879856b49179f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 09/11] fix: memcache.Lease: don't release after the lease may
 have expired

expires_at was later than memcache's own expiration, both because it started after
the add call and because memcache's expiration was truncated to whole seconds, so
release could delete another worker's lease. Sub-second expirations were also
truncated to 0, which memcache interprets as never.
---
 arroba/memcache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 6e40eff..a0db0b1 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -1,6 +1,7 @@
 """Utilities for caching data in memcache."""
 from datetime import timedelta
 import logging
+import math
 import time
 
 import webutil.util
@@ -59,11 +60,15 @@ class Lease:
         delay = self.initial_retry_delay
 
         for attempt in range(self.retries + 1):
+            # be conservative: the lease may expire before add returns, so start
+            # our clock beforehand. also, memcache only supports whole seconds, and
+            # 0 means never expire, so round up.
+            expires_at = webutil.util.now() + self.expiration
             # add returns True if the key didn't exist and was set,
             # False if it already existed
             if self.client.add(self.key, 'locked', noreply=False,
-                               expire=int(self.expiration.total_seconds())):
-                self.expires_at = webutil.util.now() + self.expiration
+                               expire=math.ceil(self.expiration.total_seconds())):
+                self.expires_at = expires_at
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
 
-- 
2.43.0


From bc004945705b18fde1e47d2e8103c05298a3f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 10/11] fix: com.atproto.server.createSession: check password
 against REPO_PASSWORD

Previously, any password worked, and the returned accessJwt is REPO_TOKEN itself.
---
 arroba/xrpc_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index 0862117..d4fcbb3 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -15,6 +15,10 @@ def create_session(input):
     if not repo:
         raise ValueError(f'Repo {id} not found')
 
+    password = os.environ.get('REPO_PASSWORD')
+    if not password or input.get('password') != password:
+        raise ValueError('Invalid password')
+
     # TODO: generate JWT
     token = os.environ['REPO_TOKEN']
     return {
-- 
2.43.0


From 6bb5e5474d43e9c4e775832695383717361972c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 11/11] fix: disconnect a firehose subscriber that the rollback
 window overtakes while it reads from storage, instead of silently skipping
 events

---
 arroba/firehose.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4da8b00..f0b001d 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -123,11 +123,13 @@ def subscribe(cursor=None):
     # if this cursor behind our rollback window, load the window between the two
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
+    newest = None      # newest seq in rollback window before we load from storage
     rollback_start = rollback[0][1]['seq'] if rollback else 0
     if cursor is not None and cursor < rollback_start:
         log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
         pre_rollback = []  # events prior to rollback window that we load here
+        newest = rollback[-1][1]['seq']
         last_seq = None
         for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
             header, payload = process_event(event)
@@ -170,6 +172,10 @@ def subscribe(cursor=None):
     if cursor is not None:
         if not handoff:
             handoff = rollback.copy()
+        # if rollback has moved past everything it had when we started loading from
+        # storage, we may have missed events in between
+        if newest is not None:
+            assert newest >= handoff[0][1]['seq'], (newest, handoff[0][1]['seq'])
         if handoff:
             log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
         for header, payload in handoff:
-- 
2.43.0

