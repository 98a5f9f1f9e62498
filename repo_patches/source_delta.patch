From 2bed813e3bf7d13c710ba78d7d428a5eeac1601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 01/35] fix: force rewriting of chunks while distrusted
 revisions exist

contains_distrusted compared the revision itself instead of its trust.
---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2513762..b282a9b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -254,7 +254,7 @@ class Repository(object):
     def contains_distrusted(self) -> bool:
         return any(
             (
-                r == Trust.DISTRUSTED
+                r.trust == Trust.DISTRUSTED
                 for r in self.get_history(clean=True, local=True)
             )
         )
-- 
2.43.0


From 66cae177a2d3bee2a007fea9e4a13590b065f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 02/35] fix: clean up incomplete revisions based on the current
 state on disk

A revision completed by another process since the last scan was deleted.
---
 src/backy/repository.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b282a9b..f08bc88 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -295,6 +295,9 @@ class Repository(object):
     @locked(target=".backup", mode="exclusive")
     def _clean(self) -> None:
         """Clean-up incomplete revisions."""
+        # Others may have finished (or left behind) revisions since we last
+        # looked. Only what we see while holding the lock is reliable.
+        self.scan()
         for revision in self.local_history:
             if "duration" not in revision.stats:
                 self.log.warning(
-- 
2.43.0


From a324aa235f512bd49819e1b7e514fbfd5f877143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 03/35] fix: accept the exact date of the first revision in
 revision ranges

---
 src/backy/repository.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index f08bc88..f03fcb7 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -457,9 +457,10 @@ class Repository(object):
             spec, list
         ), "can only index a single revision specifier"
         if isinstance(spec, str):
-            return self.index_by_date(spec) or self.history.index(
-                self.find(spec)
-            )
+            index = self.index_by_date(spec)
+            if index is None:
+                index = self.history.index(self.find(spec))
+            return index
         else:
             return self.history.index(spec)
 
-- 
2.43.0


From 0b0132bf5e682b822b3e6acd0ec2a45f2908cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 04/35] fix: do not print debug output while resolving revision
 specs

---
 src/backy/repository.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index f03fcb7..eb48b02 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -482,7 +482,6 @@ class Repository(object):
                 0,
                 len(self.history),
             )
-            print(spec, L, r)
             assert 0 <= r - L <= 1, (
                 "can not index with date if multiple revision have the same "
                 "timestamp"
-- 
2.43.0


From 78296a3f7637cee8b59f871685e68d7be2ce4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 05/35] fix: reports-delete always failed due to an invalid
 suffix

---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 48c1d72..f2f3408 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -343,7 +343,7 @@ class Command(object):
         else:
             ids = reports.split(",")
         for id in ids:
-            path = repo.report_path.joinpath(id).with_suffix("report")
+            path = repo.report_path.joinpath(id).with_suffix(".report")
             path.unlink()
             log.info("report-deleted", id=id)
 
-- 
2.43.0


From f301f05ba444b6e58bfbc4d57b5cc95bcc7c992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 06/35] fix: skip garbage snapshot requests after removing them
 from consul

---
 src/backy/rbd/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 86d6a7b..3323759 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -470,6 +470,7 @@ class CephRBD:
                         snapshot_key=key,
                     )
                     del consul.kv[key]
+                    continue
                 if s["vm"] != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
-- 
2.43.0


From e698d0d700df7468f34aa941c79097d30deeff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 07/35] fix: file source gc deleted the metadata of every
 revision

---
 src/backy/file/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 768c0cb..745dbdf 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -73,9 +73,9 @@ class FileSource(Source[FileRestoreArgs]):
 
     def gc(self):
         files = set(self.repository.path.glob("*.rev"))
+        self.repository.scan()
         expected_files = set(
-            (self.repository.path / r.uuid)
-            for r in self.repository.get_history()
+            r.info_filename for r in self.repository.get_history()
         )
         for file in files - expected_files:
             file.unlink()
-- 
2.43.0


From 215290d7a45598aadf1c30eec1b4f9ae50272220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 08/35] fix: ignore peers which do not know the job when
 looking for a leader

---
 src/backy/daemon/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9fea1d6..d6af43d 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -127,6 +127,9 @@ class Job(object):
                         exc_style="short",
                     )
                     continue
+                if not status:
+                    log.info("job-unknown")
+                    continue
                 num_remote_revs = status[0]["local_revs"]
                 log.info("duplicate-job", remote_revs=num_remote_revs)
                 if num_remote_revs > leader_revs:
-- 
2.43.0


From 09888dd9a5f4c8d583e3903184f268e5d05676a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 09/35] fix: hold the repository lock while pushing and pulling
 metadata

The lock was released as soon as the coroutine had been created.
---
 src/backy/repository.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index eb48b02..dd4147b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import fcntl
+import inspect
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -144,15 +145,28 @@ class Repository(object):
         repo_attr: Optional[str] = None,
     ):
         def wrap(f):
-            def locked_function(self, *args, skip_lock=False, **kw):
-                if skip_lock:
-                    return f(self, *args, **kw)
+            def get_lock(self):
                 if repo_attr:
                     repo = getattr(self, repo_attr)
                 else:
                     repo = self
-                with repo.lock(target, mode, f.__name__):
-                    return f(self, *args, **kw)
+                return repo.lock(target, mode, f.__name__)
+
+            if inspect.iscoroutinefunction(f):
+                # Hold the lock until the coroutine has finished.
+                async def locked_function(self, *args, skip_lock=False, **kw):
+                    if skip_lock:
+                        return await f(self, *args, **kw)
+                    with get_lock(self):
+                        return await f(self, *args, **kw)
+
+            else:
+
+                def locked_function(self, *args, skip_lock=False, **kw):
+                    if skip_lock:
+                        return f(self, *args, **kw)
+                    with get_lock(self):
+                        return f(self, *args, **kw)
 
             locked_function.__name__ = "locked({}, {})".format(
                 f.__qualname__, target
-- 
2.43.0


From 7ce6621d61b6ecaf5e78c7d4aac812e34dee1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 10/35] fix: consider revisions added before gc acquired its
 lock

gc deleted the chunks of backups finishing between reading the history and
acquiring the lock.
---
 src/backy/rbd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 3323759..5ffb5e1 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -255,6 +255,8 @@ class RBDSource(Source[RBDRestoreArgs]):
     @locked(target=".purge", mode="exclusive")
     def gc(self) -> None:
         self.log.debug("purge")
+        # Revisions may have been added since we last looked.
+        self.repository.scan()
         used_chunks: Set[Hash] = set()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
-- 
2.43.0


From 8d77bacbc9a2cfbef4299fd0bbb54be92536b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 11/35] fix: do not verify (and purge) while a backup is
 running

The purge after the verification removed the chunks a concurrent backup had
just written. Also, do not bring back revisions or tags changed by others
before the lock was acquired.
---
 src/backy/rbd/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 5ffb5e1..b26a91e 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -184,13 +184,21 @@ class RBDSource(Source[RBDRestoreArgs]):
         ):
             if revision.trust == Trust.DISTRUSTED:
                 self.log.warning("inconsistent")
-                self.verify(revision, skip_lock=True)
+                self._verify(revision, skip_lock=True)
                 break
         return verified
 
+    # Verifying also purges: no backup may be adding data at the same time.
+    @locked(target=".backup", mode="exclusive")
+    def verify(self, revision: Revision):
+        # Others may have changed or removed the revision before we got the
+        # lock.
+        self.repository.scan()
+        self._verify(self.repository.find_by_uuid(revision.uuid))
+
     @locked(target=".purge", mode="shared")
     @report_status
-    def verify(self, revision: Revision):
+    def _verify(self, revision: Revision):
         log = self.log.bind(revision_uuid=revision.uuid)
         log.info("verify-start")
         verified_chunks: Set[Hash] = set()
-- 
2.43.0


From 2317e420a0dfe780a53e133496917f9c901ea083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 12/35] fix: choose the parent of a backup based on the current
 history

A parent removed (and purged) by another process before the backup acquired
its lock resulted in a revision with missing chunks.
---
 src/backy/rbd/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index b26a91e..a7614bf 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -135,6 +135,10 @@ class RBDSource(Source[RBDRestoreArgs]):
 
         start = time.time()
 
+        # Others may have changed the history before we got the lock.
+        self.repository.scan()
+        revision = self.repository.find_by_uuid(revision.uuid)
+
         if not self.ceph_rbd.ready():
             raise RuntimeError(
                 "Source is not ready (does it exist? can you access it?)"
-- 
2.43.0


From 4edc6041c07e63907b80fb5dc3dfab7395878935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 13/35] fix: do not revert changes of other processes in rm and
 distrust

Both wrote back revisions as read before acquiring the lock: removed revisions
reappeared and tag changes were lost.
---
 src/backy/repository.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index dd4147b..a7c204c 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -319,9 +319,15 @@ class Repository(object):
                 )
                 revision.remove()
 
+    def _refresh(self, revs: Iterable[Revision]) -> List[Revision]:
+        """Return the current state of the revisions that still exist."""
+        uuids = [r.uuid for r in revs]
+        self.scan()
+        return [self._by_uuid[u] for u in uuids if u in self._by_uuid]
+
     @locked(target=".backup", mode="exclusive")
     def rm(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._refresh(revs):
             r.remove()
 
     @locked(target=".backup", mode="exclusive")
@@ -364,7 +370,7 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._refresh(revs):
             assert not r.server
             r.distrust()
             r.write_info()
-- 
2.43.0


From 5518f42264afd7333d11c8e5396f1f9c5710b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 14/35] fix: detect truncated images when verifying a backup

An export aborted by an error was accepted as a complete backup unless one of
the few sampled blocks happened to be in the missing part.
---
 src/backy/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/backy/utils.py b/src/backy/utils.py
index d4c8fa2..e6abceb 100644
--- a/src/backy/utils.py
+++ b/src/backy/utils.py
@@ -393,6 +393,15 @@ def files_are_roughly_equal(
 ) -> bool:
     a.seek(0, os.SEEK_END)
     size = a.tell()
+    b.seek(0, os.SEEK_END)
+    if (b_size := b.tell()) < size:
+        # `b` is truncated, e.g. due to an aborted export.
+        offset = b_size // blocksize * blocksize
+        a.seek(offset)
+        b.seek(offset)
+        log.error("files-not-roughly-equal-truncated", size=b_size)
+        report(a.read(blocksize), b.read(blocksize), offset)
+        return False
     blocks = size // blocksize
     blocklist = range(0, max(blocks, 1))
     sample = random.sample(blocklist, max(int(samplesize * blocks), 1))
-- 
2.43.0


From 5a4aea4d3a63b1b12220d4549aa780cd236dbd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 15/35] fix: actually run pending purges

The job used to purge a dead repository had no source, which failed and
aborted the processing of all other repositories.
---
 src/backy/daemon/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 34ba879..9d654fa 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -21,6 +21,7 @@ from backy import logging
 from backy.repository import Repository, StatusDict
 from backy.revision import filter_manual_tags
 from backy.schedule import Schedule
+from backy.source import AsyncCmdLineSource
 from backy.utils import has_recent_changes, is_dir_no_symlink
 
 from .api import BackyAPI
@@ -322,7 +323,12 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    await Job(self, candidate.name, self.log).run_gc()
+                    try:
+                        job = Job(self, candidate.name, self.log)
+                        job.source = AsyncCmdLineSource.load(job.path, job.log)
+                        await job.run_gc()
+                    except Exception:
+                        self.log.exception("purge-pending-failed")
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
-- 
2.43.0


From 557702c8d02be332f44981215e5ba56864827512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 16/35] fix: do not replace revisions of other servers when
 pulling

A revision reported by a peer under the id of a local revision replaced it,
making its data subject to garbage collection.
---
 src/backy/daemon/scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index d6af43d..2704916 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -489,6 +489,10 @@ class Job(object):
             self.repository.find_by_uuid(uuid).remove(force=True)
 
         for r in remote_revs:
+            if r.uuid not in local_uuids and r.info_filename.exists():
+                log.error("pull-conflicting-rev", rev_uuid=r.uuid)
+                error = True
+                continue
             if r.uuid in local_uuids:
                 if (
                     r.to_dict()
-- 
2.43.0


From 63eaee9c44a78d7e437a727fddf96dcac851fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 17/35] fix: synchronize metadata based on the current history

Tag changes made since the last scan were reverted by a push, and ignored by a
pull.
---
 src/backy/daemon/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 2704916..fa99b94 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -361,6 +361,7 @@ class Job(object):
 
     @locked(target=".backup", mode="exclusive")
     async def push_metadata(self) -> int:
+        self.repository.scan()
         grouped = defaultdict(list)
         for r in self.repository.clean_history:
             if r.pending_changes:
@@ -443,6 +444,7 @@ class Job(object):
             return False
 
         self.log.info("pull-start")
+        self.repository.scan()
         async with ClientManager(
             self.daemon.peers, self.taskid, self.log
         ) as apis:
-- 
2.43.0


From 3ef0437a4f5c332df550e36de6fa0ff2af44a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 18/35] fix: treat peers which do not answer in time as
 unreachable

The timeout aborted the whole run after each backup.
---
 src/backy/daemon/scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index fa99b94..d25e9f1 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -407,7 +407,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -422,7 +422,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-purge-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-purge-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -472,7 +472,7 @@ class Job(object):
                 log.warning("pull-client-error", exc_style="short")
                 error = True
             remote_revs = []
-        except ClientConnectionError:
+        except (ClientConnectionError, asyncio.TimeoutError):
             log.warning("pull-connection-error", exc_style="short")
             return True
         except ClientError:
-- 
2.43.0


From b1b5d29ce3b251519dbe0e28ac502e14d91b4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 19/35] fix: report the current number of problem reports in
 the daemon status

---
 src/backy/daemon/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 9d654fa..1381815 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -346,6 +346,7 @@ class BackyDaemon(object):
             if filter_re and not filter_re.search(job.name):
                 continue
             job.repository.scan()
+            job.repository.scan_reports()
             manual_tags = set()
             unsynced_revs = 0
             history = job.repository.clean_history
-- 
2.43.0


From 8e54bc021c05b50aa157435c38e42a54780e1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 20/35] fix: update the configuration of repositories if the
 schedule changes

Commands run within the repository kept using the old schedule.
---
 src/backy/daemon/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 1381815..52e5a1a 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -131,6 +131,9 @@ class BackyDaemon(object):
                 job.stop()
                 job.configure(config)
                 job.start()
+            else:
+                # The definition of the schedule may have changed.
+                job.source.store()
 
         for name, job in list(self.jobs.items()):
             if name not in self.config["jobs"]:
-- 
2.43.0


From 193d7b4dd2e2b9b1868ebc1cf0135e96a492fd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 21/35] fix: let chunked files grow with zeroes like ordinary
 files

Truncating to a larger size, and reading or writing past the end after
truncating, exposed stale chunk data.
---
 src/backy/rbd/chunked/file.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/chunked/file.py b/src/backy/rbd/chunked/file.py
index ced489e..4e23d21 100644
--- a/src/backy/rbd/chunked/file.py
+++ b/src/backy/rbd/chunked/file.py
@@ -192,6 +192,11 @@ class File(object):
         assert "w" in self.mode and not self.closed
         if size is None:
             size = self._position
+        if size > self.size:
+            # Grow like an ordinary file: fill up with zeroes.
+            position = self._position
+            self.seek(size)
+            self._position = position
         # Update content hash
         self.size = size
         # Remove chunks past the size
@@ -205,7 +210,8 @@ class File(object):
     def read(self, size: int = -1) -> bytes:
         assert "r" in self.mode and not self.closed
         result = io.BytesIO()
-        max_size = self.size - self._position
+        # The position may be past the end after truncating.
+        max_size = max(0, self.size - self._position)
         if size == -1:
             size = max_size
         else:
@@ -228,6 +234,9 @@ class File(object):
         assert "w" in self.mode and not self.closed
         self.stats.setdefault("bytes_written", 0)
         self.stats["bytes_written"] += len(data)
+        if data and self._position > self.size:
+            # The file was truncated before our position: fill the gap.
+            self.seek(self._position)
         while data:
             chunk, _, offset = self._current_chunk()
             written, data = chunk.write(offset, data)
-- 
2.43.0


From a29e62ee3d5e73504cee67a8617e34c09dd04d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 22/35] fix: do not pick one of several revisions where a
 single one is required

---
 src/backy/repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index a7c204c..2b6f996 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -549,7 +549,11 @@ class Repository(object):
     def find_by_function(self, spec: str) -> Revision:
         m = re.fullmatch(r"(\w+)\(.+\)", spec)
         if m and m.group(1) in ["first", "last"]:
-            return self.find_revisions(m.group(0))[0]
+            revs = self.find_revisions(m.group(0))
+            # `first(a),last(b)` also looks like a function but may describe
+            # several revisions.
+            if len(revs) == 1:
+                return revs[0]
         raise ValueError()
 
     def find(self, spec: str) -> Revision:
-- 
2.43.0


From e52fd93b2dfe3490402f67c39ec406d286ec70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 23/35] fix: do not skip a backup planned within microseconds
 of its grid point

Converting the distance from year 1 to float seconds rounds to several
microseconds, so a time just before a grid point was planned for the
interval after it.
---
 src/backy/schedule.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/backy/schedule.py b/src/backy/schedule.py
index e140ab9..1c5d3a8 100644
--- a/src/backy/schedule.py
+++ b/src/backy/schedule.py
@@ -37,18 +37,19 @@ def parse_duration(duration):
 
 
 def next_in_interval(relative, interval, spread):
-    relative = (relative - backy.utils.min_date()).total_seconds()
-    interval = interval.total_seconds()
+    # Do not convert to float seconds here: they are too coarse at this
+    # magnitude and shortly before a grid point we would skip it.
+    relative = relative - backy.utils.min_date()
     # Ensure the spread fits the interval so we don't accidentally
     # jump one when adding the spread.
-    spread = spread % interval
+    spread = timedelta(seconds=spread) % interval
     # To avoid that we jump an interval while we're in the spread period,
     # we need to subtract it here. This is basically the reversal of
     # the + spread when we add it to the next interval.
     relative = relative - spread
-    current_interval = int(relative / interval)
+    current_interval = relative // interval
     next = (current_interval + 1) * interval + spread
-    next = backy.utils.min_date() + timedelta(seconds=next)
+    next = backy.utils.min_date() + next
     return next
 
 
-- 
2.43.0


From 5dffd8f8c04644c8655ce3becad2cf975907b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 24/35] fix: refuse to distrust remote revisions before
 changing any

'backy distrust -r all' distrusted the local revisions up to the first
remote one and then failed.
---
 src/backy/repository.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2b6f996..23bc764 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -370,8 +370,10 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
-        for r in self._refresh(revs):
-            assert not r.server
+        revs = self._refresh(revs)
+        # Do not stop half way through.
+        self.prevent_remote_rev(revs)
+        for r in revs:
             r.distrust()
             r.write_info()
 
-- 
2.43.0


From a17d66a1d21d05a2b3c9e78fb06e182658b8e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 25/35] fix: do not lose purge requests made while garbage is
 being collected

---
 src/backy/rbd/__init__.py |  1 +
 src/backy/repository.py   | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index a7614bf..9e0ae24 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -267,6 +267,7 @@ class RBDSource(Source[RBDRestoreArgs]):
     @locked(target=".purge", mode="exclusive")
     def gc(self) -> None:
         self.log.debug("purge")
+        self.repository.claim_purge_pending()
         # Revisions may have been added since we last looked.
         self.repository.scan()
         used_chunks: Set[Hash] = set()
diff --git a/src/backy/repository.py b/src/backy/repository.py
index 23bc764..b65ba29 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -2,6 +2,7 @@ import contextlib
 import datetime
 import fcntl
 import inspect
+import os
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -241,8 +242,27 @@ class Repository(object):
     def set_purge_pending(self):
         self.path.joinpath(".purge_pending").touch()
 
+    def claim_purge_pending(self):
+        """Mark the current request as being processed.
+
+        It stays pending. Requests made from now on survive
+        `clear_purge_pending()` as they may concern later changes.
+        """
+        with contextlib.suppress(FileNotFoundError):
+            os.utime(self.path / ".purge_pending", (0, 0))
+
     def clear_purge_pending(self):
-        self.path.joinpath(".purge_pending").unlink(missing_ok=True)
+        pending = self.path / ".purge_pending"
+        finished = self.path / ".purge_finished"
+        try:
+            pending.rename(finished)
+        except FileNotFoundError:
+            return
+        if finished.stat().st_mtime:
+            # Requested again in the meantime
+            finished.rename(pending)
+        else:
+            finished.unlink()
 
     def get_history(
         self, *, clean: bool = False, local: bool = False
-- 
2.43.0


From b9bc98cf813e2069d9f0e86a32eb656221a00741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 26/35] fix: clear purge requests of file backups

---
 src/backy/file/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 745dbdf..2efb26c 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -72,6 +72,7 @@ class FileSource(Source[FileRestoreArgs]):
         shutil.copy(self._path_for_revision(revision), args.target)
 
     def gc(self):
+        self.repository.claim_purge_pending()
         files = set(self.repository.path.glob("*.rev"))
         self.repository.scan()
         expected_files = set(
@@ -79,6 +80,7 @@ class FileSource(Source[FileRestoreArgs]):
         )
         for file in files - expected_files:
             file.unlink()
+        self.repository.clear_purge_pending()
 
     def verify(self, revision: Revision):
         assert self._path_for_revision(revision).exists()
-- 
2.43.0


From ae039a8e2eaa66a1e662066682ce57feb333e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 27/35] fix: lock file backups against concurrent backups and
 garbage collection

---
 src/backy/file/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 2efb26c..4730ab2 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -4,7 +4,7 @@ import time
 from argparse import _ActionsContainer
 from dataclasses import dataclass
 from pathlib import Path
-from typing import Any, Iterable
+from typing import Any, Iterable, Literal
 
 from structlog.stdlib import BoundLogger
 
@@ -14,6 +14,10 @@ from backy.source import RestoreArgs, Source
 from ..repository import Repository
 
 
+def locked(target: str, mode: Literal["shared", "exclusive"]):
+    return Repository.locked(target, mode, repo_attr="repository")
+
+
 @dataclass(frozen=True)
 class FileRestoreArgs(RestoreArgs):
     target: Path
@@ -58,6 +62,8 @@ class FileSource(Source[FileRestoreArgs]):
     def _path_for_revision(self, revision: Revision) -> Path:
         return self.repository.path / revision.uuid
 
+    @locked(target=".backup", mode="exclusive")
+    @locked(target=".purge", mode="shared")
     def backup(self, revision: Revision):
         backup = self._path_for_revision(revision)
         assert not backup.exists()
@@ -71,6 +77,7 @@ class FileSource(Source[FileRestoreArgs]):
     def restore(self, revision: Revision, args: FileRestoreArgs):
         shutil.copy(self._path_for_revision(revision), args.target)
 
+    @locked(target=".purge", mode="exclusive")
     def gc(self):
         self.repository.claim_purge_pending()
         files = set(self.repository.path.glob("*.rev"))
-- 
2.43.0


From 1783bda7a4ef77158c57019914f56a770dac91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 28/35] fix: do not bring back a vanished repository as a plain
 file

---
 src/backy/daemon/api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index f20afcd..6337322 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -180,7 +180,12 @@ class BackyAPI:
         name = request.match_info.get("backup_name")
         request["log"].info("get-backups", name=name)
         if name in self.daemon.dead_repositories:
-            return self.daemon.dead_repositories[name]
+            backup = self.daemon.dead_repositories[name]
+            if not backup.path.is_dir():
+                # It may have been purged since we last looked.
+                request["log"].info("get-backups-vanished", name=name)
+                raise HTTPNotFound()
+            return backup
         if name in self.daemon.jobs:
             if allow_active:
                 return self.daemon.jobs[name].repository
-- 
2.43.0


From 5388f5c2cfcde26dee715c4a9b81c6e59ab09fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 29/35] fix: the API follows every reload

---
 src/backy/daemon/__init__.py | 11 ++++++++---
 src/backy/daemon/api.py      |  5 ++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 52e5a1a..2409231 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -251,10 +251,15 @@ class BackyDaemon(object):
             await api.start()
             while True:
                 self.log.info("api-reconfigure")
-                await api.reconfigure(
-                    self.api_tokens, self.api_addrs, self.api_port
-                )
+                # There may be another reload while we are reconfiguring.
                 self.reload_api.clear()
+                try:
+                    await api.reconfigure(
+                        self.api_tokens, self.api_addrs, self.api_port
+                    )
+                except OSError:
+                    # Keep following the configuration.
+                    self.log.exception("api-reconfigure-failed")
                 await self.reload_api.wait()
         except Exception:
             self.log.exception("api_server_loop")
diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index 6337322..11e67d4 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -83,10 +83,9 @@ class BackyAPI:
         for bind_addr in bind_addrs:
             if bind_addr in self.sites:
                 continue
-            self.sites[bind_addr] = site = TCPSite(
-                self.runner, bind_addr[0], bind_addr[1]
-            )
+            site = TCPSite(self.runner, bind_addr[0], bind_addr[1])
             await site.start()
+            self.sites[bind_addr] = site
             self.log.info("added-site", site=site.name)
         for bind_addr, site in list(self.sites.items()):
             if bind_addr in bind_addrs:
-- 
2.43.0


From 15c35770c7e708325e491cb6fd94dc56782f79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 30/35] fix: revisions removed while scanning a repository do
 not end the job loop

---
 src/backy/repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b65ba29..4629eda 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -229,7 +229,11 @@ class Repository(object):
             if f.is_symlink():
                 # Ignore links that are used to create readable pointers
                 continue
-            r = Revision.load(f, self, self.log)
+            try:
+                r = Revision.load(f, self, self.log)
+            except FileNotFoundError:
+                # Removed by someone else in the meantime
+                continue
             if r.uuid not in self._by_uuid:
                 self._by_uuid[r.uuid] = r
                 self.history.append(r)
-- 
2.43.0


From 0e408c84251975f131637fc69b8b61475aec3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 31/35] fix: report pulled revisions to the callback

---
 src/backy/daemon/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index d25e9f1..818f674 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -452,6 +452,8 @@ class Job(object):
                 remove_dead_peer(),
                 *[self._pull_metadata_single(apis[server]) for server in apis],
             )
+        # Make the changes visible, e.g. to the callback.
+        self.repository.scan()
         self.log.info("pull-end", errors=sum(errors))
         return sum(errors)
 
-- 
2.43.0


From 98cb72457c1e129fa4abeb48708bd7cb3c234670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 32/35] fix: only ask peers for the job itself when looking for
 a leader

---
 src/backy/daemon/scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 818f674..54abaab 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -2,6 +2,7 @@ import asyncio
 import datetime
 import hashlib
 import random
+import re
 import subprocess
 from collections import defaultdict
 from datetime import timedelta
@@ -108,8 +109,9 @@ class Job(object):
         api = None
         try:
             api = ClientManager(self.daemon.peers, self.taskid, self.log)
+            name_filter = f"^{re.escape(self.name)}$"
             statuses = await asyncio.gather(
-                *[api[server].fetch_status(f"^{self.name}$") for server in api],
+                *[api[server].fetch_status(name_filter) for server in api],
                 return_exceptions=True,
             )
             leader = None
@@ -167,7 +169,7 @@ class Job(object):
                     log.info("run-immediately-triggered")
                     return False
                 try:
-                    res = (await api[leader].fetch_status(f"^{self.name}$"))[0]
+                    res = (await api[leader].fetch_status(name_filter))[0]
                 except ClientError:
                     log.warning("leader-failed", exc_style="short")
                     return False
-- 
2.43.0


From 613ebb0bb2de411b5b8a67140d7720a106d9ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:49 +0000
Subject: [PATCH 33/35] fix: count the current revisions when looking for a
 leader

---
 src/backy/daemon/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 54abaab..5c95d04 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -115,6 +115,8 @@ class Job(object):
                 return_exceptions=True,
             )
             leader = None
+            # Others may have changed it while we were waiting.
+            self.repository.scan()
             leader_revs = len(
                 self.repository.get_history(clean=True, local=True)
             )
-- 
2.43.0


From a3db1946e34a6030dd801e07f1ea22e2b2125f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:49 +0000
Subject: [PATCH 34/35] fix: lock the base directory whatever path leads to it

---
 src/backy/daemon/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 2409231..54e8504 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -178,7 +178,9 @@ class BackyDaemon(object):
 
     def lock(self):
         """Ensures that only a single daemon instance is active."""
-        lockfile = self.base_dir.with_suffix(self.base_dir.suffix + ".lock")
+        # Whatever path leads to it.
+        base_dir = self.base_dir.resolve()
+        lockfile = base_dir.with_suffix(base_dir.suffix + ".lock")
         self._lock = lockfile.open("a+b")
         try:
             fcntl.flock(self._lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
-- 
2.43.0


From 7c0419a8d0e4d01c0d4b68c3583f4b1aa79e9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:49 +0000
Subject: [PATCH 35/35] fix: find a relative configuration file again when
 reloading

---
 src/backy/daemon/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 54e8504..360e2d4 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -54,7 +54,8 @@ class BackyDaemon(object):
     loop: Optional[asyncio.AbstractEventLoop] = None
 
     def __init__(self, config_file: Path, log: BoundLogger):
-        self.config_file = config_file
+        # We are going to change the working directory.
+        self.config_file = config_file.absolute()
         self.log = log.bind(subsystem="daemon")
         self.config = {}
         self.schedules = {}
-- 
2.43.0

