From 10914821cbcf018c5017b8038e35c34dc9e0188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 01/57] fix: keep the requested hashes the source list does
 supply

prune_hashes() discarded exactly those digests that the source list
provides and kept the ones it does not, so that a sync with --hash never
compared any digest.
---
 resync/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8474cc6..0890362 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -791,12 +791,13 @@ class Client(object):
     def prune_hashes(self, hashes, list_type):
         """Prune any hashes not in source resource or change list."""
         discarded = []
-        for hash in hashes:
-            if (hash in self.hashes):
+        for hash in sorted(self.hashes):
+            if (hash not in hashes):
                 self.hashes.discard(hash)
                 discarded.append(hash)
-        self.logger.info("Not calculating %s hash(es) on destination as not present "
-                         "in source %s list" % (', '.join(sorted(discarded)), list_type))
+        if (len(discarded) > 0):
+            self.logger.info("Not calculating %s hash(es) on destination as not present "
+                             "in source %s list" % (', '.join(discarded), list_type))
 
     def log_status(self, in_sync=True, incremental=False, audit=False,
                    same=None, created=0, updated=0, deleted=0, to_delete=0):
-- 
2.43.0


From 5fd218fc8d56a764db851f0fa949e6a965e1052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 02/57] fix: let a change list report which hashes it supplies

Client.incremental() asks the change list for its hashes when any --hash
is requested, but only ResourceList had that method, so every
incremental sync with --hash failed with AttributeError.
---
 resync/change_list.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/resync/change_list.py b/resync/change_list.py
index 04cb6a1..bcc8f0a 100644
--- a/resync/change_list.py
+++ b/resync/change_list.py
@@ -84,3 +84,16 @@ class ChangeList(ListBaseWithIndex):
                 n += 1
         self.resources = pruned
         return(n)
+
+    def hashes(self):
+        """Return set of hashes uses in this change_list."""
+        hashes = set()
+        if (self.resources is not None):
+            for resource in self:
+                if (resource.md5 is not None):
+                    hashes.add('md5')
+                if (resource.sha1 is not None):
+                    hashes.add('sha-1')
+                if (resource.sha256 is not None):
+                    hashes.add('sha-256')
+        return(hashes)
-- 
2.43.0


From cc757049c22c5c257cf4ba6b976ddbed0d702ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 03/57] fix: make --checksum work without --hash

args.hash is None unless --hash was given, so --checksum alone failed
with AttributeError.
---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 02a6ba1..ff43b43 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -212,7 +212,7 @@ def process_shared_misc_options(args, include_remote=False):
     Parse options that the resync-sync, resync-build and resync-explorer scripts use.
     """
     if args.checksum:
-        args.hash.append('md5')
+        args.hash = (args.hash or []) + ['md5']
     if include_remote:
         if args.access_token:
             set_url_or_file_open_config('bearer_token', args.access_token)
-- 
2.43.0


From 8e25af527dd7a3bfeeaf07165a5ec9dc76a7e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 04/57] fix: make a dry run change nothing on disk

With dryrun set, directories were still created for the resources that
would be fetched, and the timestamp for the next incremental sync was
still recorded although none of the changes had been applied.
---
 resync/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 0890362..3b27ed8 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -316,7 +316,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -469,7 +469,7 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -494,14 +494,14 @@ class Client(object):
 
         Returns the number of resources updated/created (0 or 1)
         """
-        path = os.path.dirname(filename)
-        distutils.dir_util.mkpath(path)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
+            path = os.path.dirname(filename)
+            distutils.dir_util.mkpath(path)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
-- 
2.43.0


From cec6881a7dc0d1909d9089f4d73736b8b1671639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 05/57] fix: treat a directory that cannot be made as a failed
 download

distutils' mkpath() raises an error that is not an IOError, so it escaped
both --ignore-failures and the client's own error reporting. It also
caches the paths it made, and so does not make a directory again that
has been removed since.
---
 resync/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 3b27ed8..c38a3c2 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -7,7 +7,6 @@ except ImportError:  # pragma: no cover  python2
     from urlparse import urlsplit, urlunsplit, urljoin  # pragma: no cover
 import os.path
 import datetime
-import distutils.dir_util
 import re
 import time
 import logging
@@ -500,11 +499,12 @@ class Client(object):
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
-            path = os.path.dirname(filename)
-            distutils.dir_util.mkpath(path)
             # 1. GET
+            path = os.path.dirname(filename)
             for try_i in range(1, self.tries + 1):
                 try:
+                    if (path):
+                        os.makedirs(path, exist_ok=True)
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
-- 
2.43.0


From 0e83693dcba4e671328f62b149b1c323f8d351d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 06/57] fix: retry timeouts while connecting, report all failed
 requests

urlopen() wraps a timeout of the connection attempt in an URLError, so
it was not retried. HTTPException (a broken status line or chunk, a body
cut short) and ValueError (an unusable URI) are not IOErrors and so
escaped --ignore-failures and ended the whole sync with a traceback.
---
 resync/client.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index c38a3c2..1149165 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -12,6 +12,7 @@ import time
 import logging
 import shutil
 import socket
+from http.client import HTTPException
 
 from .resource_list_builder import ResourceListBuilder
 from .resource_list import ResourceList
@@ -510,8 +511,16 @@ class Client(object):
                             shutil.copyfileobj(fh_in, fh_out)
                     num_updated += 1
                     break
-                except socket.timeout as e:
-                    if try_i < self.tries:
+                except (IOError, HTTPException, ValueError) as e:
+                    # A timeout while connecting is the reason in an URLError
+                    if not isinstance(getattr(e, 'reason', e), socket.timeout):
+                        msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
+                        if (self.ignore_failures):
+                            self.logger.warning(msg)
+                            return(num_updated)
+                        else:
+                            raise ClientFatalError(msg)
+                    elif try_i < self.tries:
                         msg = 'Download timed out, retrying...'
                         self.logger.info(msg)
                         # Continue loop
@@ -523,13 +532,6 @@ class Client(object):
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
-                except IOError as e:
-                    msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
-                    if (self.ignore_failures):
-                        self.logger.warning(msg)
-                        return(num_updated)
-                    else:
-                        raise ClientFatalError(msg)
             # 2. set timestamp if we have one
             if (resource.timestamp is not None):
                 unixtime = int(resource.timestamp)  # no fractional
-- 
2.43.0


From d88ae8bf4ed0ead2e37864639c72400dbce107c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 07/57] fix: do not count a download that was cut short as done

http.client ends the data without an error if the connection is closed
before Content-Length bytes have arrived. The truncated file was counted
as created/updated and given the timestamp of the source's copy.
---
 resync/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 1149165..a29c0ad 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -509,6 +509,9 @@ class Client(object):
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
+                        # HTTPResponse.length is what is still to be read
+                        if getattr(fh_in, 'length', None):
+                            raise IOError("connection closed with %d bytes missing" % (fh_in.length))
                     num_updated += 1
                     break
                 except (IOError, HTTPException, ValueError) as e:
-- 
2.43.0


From 6cc7ffaca8c28e3ff0eacaac3b45e88e2489904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 08/57] fix: count only successful downloads in an incremental
 sync

With --ignore-failures the status reported every failed download as
created or updated.
---
 resync/client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index a29c0ad..f0eb9bb 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -454,12 +454,10 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             if (resource.change == 'updated'):
                 self.logger.info("updated: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'updated')
-                num_updated += 1
+                num_updated += self.update_resource(resource, filename, 'updated')
             elif (resource.change == 'created'):
                 self.logger.info("created: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'created')
-                num_created += 1
+                num_created += self.update_resource(resource, filename, 'created')
             elif (resource.change == 'deleted'):
                 num_deleted += self.delete_resource(
                     resource, filename, allow_deletion)
-- 
2.43.0


From db2e039e1030775eec02cb6dac369bec391520e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 09/57] fix: do not move the incremental starting point past
 failed changes

If a download failed and was ignored, or a file could not be deleted,
the last timestamp was recorded nevertheless: the next incremental sync
then skipped the change as already applied, and it was lost.
---
 resync/client.py | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index f0eb9bb..7a132c8 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -65,6 +65,7 @@ class Client(object):
         self.fake_input = None
         self.tries = 20
         self.timeout = None
+        self.num_failures = 0  # Number of downloads and deletions that failed
         # Default file names
         self.status_file = '.resync-client-status.cfg'
         self.default_resource_dump = 'resourcedump.zip'
@@ -290,6 +291,7 @@ class Client(object):
                         "Aborting as sitemap (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
                         (self.sitemap, resource.uri))
         # 5. Grab files to do sync
+        self.num_failures = 0
         delete_msg = (
             ", and delete %d resources" %
             len(deleted)) if (allow_deletion) else ''
@@ -316,12 +318,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not self.dryrun and self.last_timestamp > 0):
-            ClientState().set_state(self.sitemap, self.last_timestamp)
-            self.logger.info(
-                "Written last timestamp %s for incremental sync" %
-                (datetime_to_str(
-                    self.last_timestamp)))
+        self.store_last_timestamp()
         # 7. Done
         self.log_status(in_sync=(len(updated) + len(deleted) + len(created) == 0),
                         same=len(same), created=num_created,
@@ -440,6 +437,7 @@ class Client(object):
             self.logger.debug("Completed incremental")
             return
         # 6. Apply changes at same time or after from_timestamp
+        self.num_failures = 0
         delete_msg = (
             ", and delete %d resources" %
             to_delete) if (allow_deletion) else ''
@@ -467,15 +465,30 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (not self.dryrun and self.last_timestamp > 0):
-            ClientState().set_state(self.sitemap, self.last_timestamp)
-            self.logger.info(
-                "Written last timestamp %s for incremental sync" %
-                (datetime_to_str(
-                    self.last_timestamp)))
+        self.store_last_timestamp()
         # 9. Done
         self.logger.debug("Completed incremental sync")
 
+    def store_last_timestamp(self):
+        """Store last timestamp as the starting point of the next incremental sync.
+
+        Does nothing in the case of a dry run, and nothing if there has been any
+        failure because the next incremental sync would then start too late to
+        see the change that could not be applied in this one.
+        """
+        if (self.dryrun or self.last_timestamp <= 0):
+            return
+        if (self.num_failures > 0):
+            self.logger.warning(
+                "Not storing last timestamp for incremental sync because of %d failure(s)" %
+                (self.num_failures))
+            return
+        ClientState().set_state(self.sitemap, self.last_timestamp)
+        self.logger.info(
+            "Written last timestamp %s for incremental sync" %
+            (datetime_to_str(
+                self.last_timestamp)))
+
     def update_resource(self, resource, filename, change=None):
         """Update resource from uri to filename on local system.
 
@@ -518,6 +531,7 @@ class Client(object):
                         msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
                         if (self.ignore_failures):
                             self.logger.warning(msg)
+                            self.num_failures += 1
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
@@ -530,6 +544,7 @@ class Client(object):
                         msg = "Failed to GET %s after %s tries -- %s" % (resource.uri, self.tries, str(e))
                         if (self.ignore_failures):
                             self.logger.warning(msg)
+                            self.num_failures += 1
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
@@ -613,6 +628,9 @@ class Client(object):
                         uri, filename, str(e))
                     # if (self.ignore_failures):
                     self.logger.warning(msg)
+                    # No failure if there is no such file (any more)
+                    if (not isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError))):
+                        self.num_failures += 1
                     #    return
                     # else:
                     #    raise ClientFatalError(msg)
-- 
2.43.0


From 7c8f8d14f5f553f882ec0df4bed791ed3c7a617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 10/57] fix: record the source's last timestamp after a
 baseline sync

The timestamp recorded included the local modification times of files
that are not at the source. If one of those was later than the last
change at the source then the next incremental sync skipped changes made
in between.
---
 resync/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 7a132c8..522e0d3 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -317,7 +317,10 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
-        # 6. Store last timestamp to allow incremental sync
+        # 6. Store last timestamp to allow incremental sync. This must be in the
+        # time of the source, so not affected by local times of deleted files
+        self.last_timestamp = max((r.timestamp for r in src_resource_list
+                                   if r.timestamp is not None), default=0)
         self.store_last_timestamp()
         # 7. Done
         self.log_status(in_sync=(len(updated) + len(deleted) + len(created) == 0),
-- 
2.43.0


From bf325131c6c75059cd89c38b1fcd91471358330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 11/57] fix: delete resources that were created, copied and
 then deleted

An incremental sync starts at, and includes, the time of the last change
seen, and so may see again the creation of a resource that it already has
a copy of. If the change list had its deletion also then both were
dropped as having no effect, and the local copy was never deleted.
---
 resync/client.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 522e0d3..c451f3f 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -19,7 +19,7 @@ from .resource_list import ResourceList
 from .change_list import ChangeList
 from .capability_list import CapabilityList
 from .source_description import SourceDescription
-from .mapper import Mapper
+from .mapper import Mapper, MapperError
 from .sitemap import Sitemap
 from .dump import Dump
 from .resource import Resource
@@ -412,7 +412,21 @@ class Client(object):
             self.logger.info(
                 "Skipped %d changes before %s" %
                 (num_skipped, datetime_to_str(from_timestamp)))
+        last_change = {resource.uri: resource for resource in src_change_list}
         num_dupes = src_change_list.prune_dupes()
+        # A resource that was created and then deleted again is pruned altogether.
+        # Keep the deletion if we have a copy already, from the time in between
+        remaining = set(src_change_list.uris())
+        for (uri, resource) in last_change.items():
+            if (uri in remaining):
+                continue
+            try:
+                have_copy = os.path.lexists(self.mapper.src_to_dst(uri))
+            except MapperError:
+                have_copy = False
+            if (have_copy):
+                src_change_list.add(resource)
+                num_dupes -= 1
         if (num_dupes > 0):
             self.logger.info("Removed %d prior changes" % (num_dupes))
         # Review and log status before
-- 
2.43.0


From eaf00e62fb322ae3467127cf7521f6a5f4740f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 12/57] fix: accept a change list with only lastmod times

The check for missing times accepts lastmod as a substitute for datetime,
but the removal of changes before the starting point then failed with an
exception for each entry without datetime.
---
 resync/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index c451f3f..c465882 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -389,7 +389,9 @@ class Client(object):
                     "Aborting - no datetime or lastmod for change in %s" %
                     (resource.uri))
             # Work with 1.0 or 1.1 -- use datetime if given, else lastmod
-            ts = resource.ts_datetime if resource.ts_datetime is not None else resource.timestamp
+            if (resource.ts_datetime is None):
+                resource.ts_datetime = resource.timestamp
+            ts = resource.ts_datetime
             if (ts > self.last_timestamp):
                 self.last_timestamp = ts
         # 4. Check that the change list has authority over URIs listed
-- 
2.43.0


From 32c9c53f963dd4e7e83848ad6eb36a870b5600ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 13/57] fix: never lose the client state when writing it is
 interrupted

The status file was truncated and then rewritten in place. A crash or a
full disk in between left it empty or cut off in the middle of a line: the
state of all sites was lost, or no sync could complete any more because
the file could not be parsed. A status file that could not be read was
taken to be empty and then overwritten.
---
 resync/client_state.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index ce30374..90f7542 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -30,8 +30,7 @@ class ClientState(object):
 
         FIXME - should have some file lock to avoid race
         """
-        parser = ConfigParser()
-        parser.read(self.status_file)
+        parser = self.read_status_file()
         status_section = 'incremental'
         if (not parser.has_section(status_section)):
             parser.add_section(status_section)
@@ -44,15 +43,38 @@ class ClientState(object):
                 status_section,
                 self.config_site_to_name(site),
                 str(timestamp))
-        with open(self.status_file, 'w') as configfile:
-            parser.write(configfile)
-            configfile.close()
+        # Write new file and then put it in place, so that the state is never
+        # lost if we get interrupted or run out of space while writing
+        new_file = '%s.%d.tmp' % (self.status_file, os.getpid())
+        try:
+            with open(new_file, 'w') as configfile:
+                parser.write(configfile)
+            os.replace(new_file, self.status_file)
+        except OSError:
+            if (os.path.exists(new_file)):
+                os.unlink(new_file)
+            raise
+
+    def read_status_file(self):
+        """Return ConfigParser with content of the client status file, if any.
+
+        It is not an error if there is no status file. If there is one that
+        cannot be read then an exception is raised, unlike with
+        ConfigParser.read(..), as otherwise set_state(..) would discard the state
+        of all other sites.
+        """
+        parser = ConfigParser()
+        try:
+            with open(self.status_file, 'r') as configfile:
+                parser.read_file(configfile)
+        except FileNotFoundError:
+            pass
+        return(parser)
 
     def get_state(self, site):
         """Read client status file and return dict."""
-        parser = ConfigParser()
+        parser = self.read_status_file()
         status_section = 'incremental'
-        parser.read(self.status_file)
         timestamp = None
         try:
             timestamp = float(
-- 
2.43.0


From af579db627134a5ea19116bb4c025107b115538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 14/57] fix: check the authority of an explicitly given change
 list

With an explicit change list URI the check was skipped altogether, and
with --strictauth the check of the site was not strict.
---
 resync/client.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index c465882..f44b732 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -398,15 +398,14 @@ class Client(object):
         # FIXME - What does authority mean for change list? Here use both the
         # change list URI and, if we used it, the sitemap URI
         if (not self.noauth):
-            uauth_cs = UrlAuthority(change_list, self.strictauth)
-            if (not change_list_uri):
-                uauth_sm = UrlAuthority(self.sitemap)
-                for resource in src_change_list:
-                    if (not uauth_cs.has_authority_over(resource.uri)
-                            and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
-                        raise ClientFatalError(
-                            "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                            (change_list, resource.uri))
+            uauth_cs = UrlAuthority(change_list, strict=self.strictauth)
+            uauth_sm = UrlAuthority(self.sitemap, strict=self.strictauth)
+            for resource in src_change_list:
+                if (not uauth_cs.has_authority_over(resource.uri)
+                        and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
+                    raise ClientFatalError(
+                        "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
+                        (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
         num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
-- 
2.43.0


From d8c94a4bf14bebfbd957d0b0da2af98a4a311436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 15/57] fix: compare whole path components in strict URL
 authority

A master at http://example.org/ab/list was given authority over
http://example.org/abc/res in strict mode.
---
 resync/url_authority.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 7697e20..38a423e 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -68,6 +68,6 @@ class UrlAuthority(object):
             # b.example.org
         path = os.path.dirname(s.path)
         if (self.strict and path != self.master_path
-                and not path.startswith(self.master_path)):
+                and not path.startswith(self.master_path.rstrip('/') + '/')):
             return(False)
         return(True)
-- 
2.43.0


From e43320974e1458a4e2b0eb06b61968d4bbe792be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 16/57] fix: take the paths and URIs of mappings literally

They were used as regular expressions: http://a.example/x matched
http://a-example/x also, and with characters such as + in a path no file
below it could be mapped at all.
---
 resync/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 76d3e07..360f692 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -178,7 +178,7 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(self.dst_path + "(/.*)?$", dst_file)
+        m = re.match(re.escape(self.dst_path) + "(/.*)?$", dst_file)
         if (m is None):
             return(None)
         rel_path = m.group(1)
@@ -195,7 +195,7 @@ class Map:
         slashes. However, a match of just self.src_path withouth a trailing
         slash will return self.dst_path with a trailing slash.
         """
-        m = re.match(self.src_uri + "(/.*)?$", src_uri)
+        m = re.match(re.escape(self.src_uri) + "(/.*)?$", src_uri)
         if (m is None):
             return(None)
         rel_path = m.group(1)
-- 
2.43.0


From b11afda1280454ecd312d0ec01eef1ea7923748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 17/57] fix: do not let a source URI map to a path outside the
 destination

A resource or change list entry such as http://example.org/../../x was
mapped to a file outside the destination directory, which a sync would
then overwrite or delete.
---
 resync/mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 360f692..79c4c7b 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -193,7 +193,8 @@ class Map:
 
         Relies upon self.dst_path and self.src_path not including trailing
         slashes. However, a match of just self.src_path withouth a trailing
-        slash will return self.dst_path with a trailing slash.
+        slash will return self.dst_path with a trailing slash. A src_uri with
+        a .. path segment is not mapped.
         """
         m = re.match(re.escape(self.src_uri) + "(/.*)?$", src_uri)
         if (m is None):
@@ -201,6 +202,9 @@ class Map:
         rel_path = m.group(1)
         if rel_path is None:
             rel_path = '/'
+        # Never leave self.dst_path, whatever the source says
+        if '..' in rel_path.split('/'):
+            return(None)
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From e9e630f19eab47d07e6435ef8b8f216279fcb0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 18/57] fix: write at most one entry per sitemap if that is the
 limit

With max_sitemap_entries=1 the second and later sitemaps had two entries.
---
 resync/list_base_with_index.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b8f74ef..a5067d6 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -377,10 +377,11 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        for r in resource_iter:
-            chunk.add(r)
-            if (len(chunk) >= self.max_sitemap_entries):
-                break
+        if (first is None or len(chunk) < self.max_sitemap_entries):
+            for r in resource_iter:
+                chunk.add(r)
+                if (len(chunk) >= self.max_sitemap_entries):
+                    break
         # Get next to see whether there are more resources
         try:
             nxt = next(resource_iter)
-- 
2.43.0


From 94e18611c5e1c2dd89acefea91cd2746b7a454e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 19/57] fix: use whole directories as the prefix removed from
 paths in dumps

For files in /x/ab and /x/ac the prefix was /x/a, and the resources were
then stored under ../ab and ../ac in the dump.
---
 resync/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0405718..f84931a 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -140,7 +140,7 @@ class Dump(object):
             if (path_prefix is None):
                 path_prefix = os.path.dirname(resource.path)
             else:
-                path_prefix = os.path.commonprefix(
+                path_prefix = os.path.commonpath(
                     [path_prefix, os.path.dirname(resource.path)])
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
-- 
2.43.0


From f24199851127a7ede4f7b5f826e66e182c2d1031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 20/57] fix: show and check the headers of resources on the web

code and headers are attributes of the response and not methods, so that
the explorer reported every resource it had successfully requested as one
that cannot be parsed. Once that works the comparisons need to know that
the status is a number, the headers are strings, and that the HTTP time
format is not the one of ResourceSync documents.
---
 resync/explorer.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3e3a3bc..cc52946 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -17,6 +17,7 @@ import distutils.dir_util
 import re
 import time
 import logging
+from email.utils import parsedate_to_datetime
 
 from .mapper import Mapper
 from .sitemap import Sitemap
@@ -278,26 +279,41 @@ class Explorer(Client):
         if (re.match(r'^\w+:', uri)):
             # Looks like a URI
             with url_or_file_open(uri, method='HEAD') as response:
-                status_code = response.code()
-                headers = response.headers()
+                status_code = response.code
+                headers = response.headers
         else:
             # Mock up response if we have a local file
             (status_code, headers) = self.head_on_file(uri)
         print("  status: %s" % (status_code))
-        if (status_code == '200'):
+        if (str(status_code) == '200'):
             # print some of the headers
             for header in ['content-length', 'last-modified',
                            'lastmod', 'content-type', 'etag']:
                 if header in headers:
                     check_str = ''
                     if (check_headers is not None and header in check_headers):
-                        if (headers[header] == check_headers[header]):
+                        if (self.header_matches(header, headers[header], check_headers[header])):
                             check_str = ' MATCHES EXPECTED VALUE'
                         else:
                             check_str = ' EXPECTED %s' % (
                                 check_headers[header])
                     print("  %s: %s%s" % (header, headers[header], check_str))
 
+    def header_matches(self, header, value, expected):
+        """True if value of header agrees with the value expected.
+
+        The last-modified time is a W3C datetime in ResourceSync documents, but has
+        the format of RFC 7231 in HTTP.
+        """
+        if (header == 'last-modified'):
+            try:
+                value = parsedate_to_datetime(value).timestamp()
+            except (ValueError, TypeError):
+                # not from HTTP, see head_on_file(..)
+                return(value == expected)
+            return(int(value) == int(str_to_datetime(expected)))
+        return(str(value) == str(expected))
+
     def head_on_file(self, file):
         """Get fake status code and headers from local file."""
         status_code = '404'
-- 
2.43.0


From dbf391ebd990a86f6c45814863d81893ba3bb005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 21/57] fix: keep the position of iterators in the iterators

It was kept in the container, so that two iterations over the same list
(nested loops, comparison of a list with itself, use from two threads)
took entries away from each other.
---
 resync/capability_list.py | 15 ++++-----------
 resync/resource_list.py   |  9 +--------
 resync/resource_set.py    | 10 +---------
 3 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 9d27ba0..43d128b 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -35,7 +35,7 @@ class CapabilitySet(ResourceSet):
         by using uri order for duplicates and adding any unknown ones
         at the end
         """
-        self._iter_next_list = []
+        in_order = []
         # look through all resources and build capability to uri index
         uris = {}
         for uri in self.keys():
@@ -47,21 +47,14 @@ class CapabilitySet(ResourceSet):
         for cap in self.order:
             if (cap in uris):
                 for uri in sorted(uris[cap]):
-                    self._iter_next_list.append(uri)
+                    in_order.append(self[uri])
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
         for cap in uris:
             for uri in sorted(uris[cap]):
-                self._iter_next_list.append(uri)
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+                in_order.append(self[uri])
+        return(iter(in_order))
 
 
 class CapabilityList(ListBase):
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 41518c1..43bd7d3 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -35,14 +35,7 @@ class SortedIterMixin(object):
 
     def sorted_iter(self):
         """Iterator over all the resources in this dict by sorted key order."""
-        self._sorted_iter_next_list = sorted(self.keys(), reverse=True)
-        return iter(self._sorted_iter_next, None)
-
-    def _sorted_iter_next(self):
-        if (len(self._sorted_iter_next_list) > 0):
-            return self[self._sorted_iter_next_list.pop()]
-        else:
-            return None
+        return iter([self[uri] for uri in sorted(self.keys())])
 
 
 class ResourceListDict(dict, SortedIterMixin):
diff --git a/resync/resource_set.py b/resync/resource_set.py
index ccd77bd..25a7ab3 100644
--- a/resync/resource_set.py
+++ b/resync/resource_set.py
@@ -17,15 +17,7 @@ class ResourceSet(dict):
 
     def __iter__(self):
         """Iterator over all the resources in this ResourceSet."""
-        self._iter_next_list = sorted(self.keys())
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+        return(iter([self[uri] for uri in sorted(self.keys())]))
 
     def add(self, resource, replace=False):
         """Add just a single resource."""
-- 
2.43.0


From 9f07c76f30fca2b0f28c4b2c4e5a32d1556393be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 22/57] fix: find the resource list of sources at an absolute
 local path

lstrip('file:///') removes any of these characters and not that prefix,
and so made paths such as /data/src relative, and damaged the names of
others.
---
 resync/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index f44b732..9d71c42 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -182,7 +182,6 @@ class Client(object):
         errors = []
         for uri in [urljoin(self.sitemap, '.well-known/resourcesync'),
                     urljoin(uri_host, '.well-known/resourcesync')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 rluri = self.find_resource_list_from_source_description(uri)
                 return(self.read_resource_list(rluri))
@@ -192,7 +191,6 @@ class Client(object):
         for uri in [urljoin(self.sitemap, 'resourcelist.xml'),
                     urljoin(self.sitemap, 'sitemap.xml'),
                     urljoin(uri_host, 'sitemap.xml')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 return(self.read_resource_list(uri))
             except ClientError as e:
-- 
2.43.0


From a19a179ca76f39a85539cd2b306461271202774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 23/57] fix: ignore files that cannot be read when hashes are
 calculated

A file that disappears during the scan, or that cannot be read, is
ignored with a warning. But if it happened between the stat and the
calculation of the hashes then the whole scan failed.
---
 resync/resource_list_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 32db1ad..6df91b0 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -174,6 +174,7 @@ class ResourceListBuilder():
         try:
             uri = self.mapper.dst_to_src(file)  # might throw MapperError
             file_stat = os.stat(file)
+            hashes = Hashes(self.set_hashes, file) if self.set_hashes else None
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
             return
@@ -181,8 +182,8 @@ class ResourceListBuilder():
         r = Resource(uri=uri, timestamp=timestamp)
         if self.set_path:  # add full local path
             r.path = file
-        if self.set_hashes:  # add any hashes requested
-            Hashes(self.set_hashes, file).set(r)
+        if hashes is not None:  # add any hashes requested
+            hashes.set(r)
         if self.set_length:  # add length
             r.length = file_stat.st_size
         resource_list.add(r)
-- 
2.43.0


From 2d4cf6caf63bdb2c7d83573bead1e5c4b557d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 24/57] fix: warn about directories that cannot be read

All their files were left out of the inventory without any message.
---
 resync/resource_list_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 6df91b0..958e8f1 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -137,7 +137,7 @@ class ResourceListBuilder():
         # add, increment counter
         if os.path.isdir(path):
             num_files = 0
-            for dirpath, dirs, files in os.walk(path, topdown=True):
+            for dirpath, dirs, files in os.walk(path, topdown=True, onerror=self._walk_error):
                 for file_in_dirpath in files:
                     num_files += 1
                     if (num_files % self.log_count_increment == 0):
@@ -157,6 +157,10 @@ class ResourceListBuilder():
             # single file
             self.add_file(resource_list=resource_list, file=path)
 
+    def _walk_error(self, error):
+        # Warn about a directory that cannot be read, os.walk(..) would ignore it
+        self.logger.warning("Ignoring directory '%s' (error: %s)" % (error.filename, str(error)))
+
     def add_file(self, resource_list=None, dir=None, file=None):
         """Add a single file to resource_list.
 
-- 
2.43.0


From 34acf809510379b99a789e7f2e36ee8c15596874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 25/57] fix: read change lists that have an index

---
 resync/list_base_with_index.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index a5067d6..d2235e9 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -16,6 +16,7 @@ from .hashes import Hashes
 from .list_base import ListBase
 from .mapper import Mapper, MapperError
 from .resource import Resource
+from .resource_container import ResourceContainer
 from .sitemap import Sitemap
 from .url_authority import UrlAuthority
 from .url_or_file_open import url_or_file_open
@@ -107,7 +108,13 @@ class ListBaseWithIndex(ListBase):
             pass
         self.logger.info("Read sitemap/sitemapindex from %s" % (uri))
         s = self.new_sitemap()
-        s.parse_xml(fh=fh, resources=self, capability=self.capability_name)
+        # Read in a plain container as the entries of a sitemapindex are not
+        # acceptable to all derived classes (they are not changes for example)
+        entries = ResourceContainer(resources=[], md=self.md, ln=self.ln)
+        s.parse_xml(fh=fh, resources=entries, capability=self.capability_name)
+        self.md = entries.md
+        if (not s.parsed_index or index_only):
+            self.add(entries)
         # what did we read? sitemap or sitemapindex?
         if (s.parsed_index):
             # sitemapindex
@@ -118,7 +125,7 @@ class ListBaseWithIndex(ListBase):
             self.logger.info(
                 "Parsed as sitemapindex, %d sitemaps" %
                 (len(
-                    self.resources)))
+                    entries.resources)))
             sitemapindex_is_file = self.is_file_uri(uri)
             if (index_only):
                 # don't read the component sitemaps
@@ -126,10 +133,8 @@ class ListBaseWithIndex(ListBase):
                 return
             # now loop over all entries to read each sitemap and add to
             # resources
-            sitemaps = self.resources
-            self.resources = self.resources_class()
-            self.logger.info("Now reading %d sitemaps" % len(sitemaps.uris()))
-            for sitemap_uri in sorted(sitemaps.uris()):
+            self.logger.info("Now reading %d sitemaps" % len(entries.uris()))
+            for sitemap_uri in sorted(entries.uris()):
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
@@ -179,7 +184,7 @@ class ListBaseWithIndex(ListBase):
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
-            self.resources.add(r)
+            self.add(r)
         # FIXME - if rel="up" check it goes to correct place
         # FIXME - check capability
 
-- 
2.43.0


From dde8db1016dbca90f011b2275d23b7f197034e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 26/57] fix: refuse to write characters that XML cannot
 represent

---
 resync/sitemap.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index 0cf5271..3a024f1 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -3,6 +3,7 @@
 import io
 import logging
 import os
+import re
 import sys
 from defusedxml.ElementTree import parse
 from xml.etree.ElementTree import ElementTree, Element, tostring
@@ -256,7 +257,7 @@ class Sitemap(object):
         """
         e = Element(element_name)
         sub = Element('loc')
-        sub.text = resource.uri
+        sub.text = self._xml_value(resource.uri)
         e.append(sub)
         lm = resource.lastmod  # W3C Datetime in UTC
         if lm is not None or self.spec_1_0 or self.add_lastmod:
@@ -447,7 +448,7 @@ class Sitemap(object):
         for att in atts.keys():
             val = atts[att]
             if (val is not None):
-                xml_atts[self._xml_att_name(att)] = str(val)
+                xml_atts[self._xml_att_name(att)] = self._xml_value(str(val))
         if (len(xml_atts) > 0):
             e = Element(name, xml_atts)
             if (add_return and self.pretty_xml):
@@ -463,6 +464,16 @@ class Sitemap(object):
             e.attrib.update(attribs)
             etree.append(e)
 
+    def _xml_value(self, value):
+        """Return value if XML can represent it, else raise ValueError.
+
+        A reader would reject the whole document because of a control character
+        that XML does not permit, and read a carriage return as a line feed.
+        """
+        if re.search(r'[\x00-\x08\x0b-\x1f\ufffe\uffff]', value):
+            raise ValueError("Cannot represent %s in XML" % (repr(value)))
+        return value
+
     def _xml_att_name(self, att):
         """Get XML attribute name corresponding to supplied Resource object attribute.
 
-- 
2.43.0


From c9a3dfee55971a673d93772e550270a6b113f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 27/57] fix: do not change the links of a list when it is
 written in parts

---
 resync/list_base_with_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index d2235e9..b550dea 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -314,7 +314,7 @@ class ListBaseWithIndex(ListBase):
             # max_sitemap_entries to go into each sitemap, store the
             # names of the sitemaps as we go. Copy md from self into
             # the index and use this for all chunks also
-            index = ListBase(md=self.md.copy(), ln=list(self.ln))
+            index = ListBase(md=self.md.copy(), ln=[ln.copy() for ln in self.ln])
             index.capability_name = self.capability_name
             index.default_capability()
             while (len(chunk) > 0):
@@ -377,7 +377,7 @@ class ListBaseWithIndex(ListBase):
         the iterator, providing indication of whether more is available.
         Use this as first when asking for the following chunk.
         """
-        chunk = ListBase(md=self.md.copy(), ln=list(self.ln))
+        chunk = ListBase(md=self.md.copy(), ln=[ln.copy() for ln in self.ln])
         chunk.capability_name = self.capability_name
         chunk.default_capability()
         if (first is not None):
-- 
2.43.0


From b4174a440b321b1488d1a1da2e231b6df3b4b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 28/57] fix: list unknown capabilities in alphabetical order

---
 resync/capability_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 43d128b..76fd8b9 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -51,7 +51,7 @@ class CapabilitySet(ResourceSet):
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
-        for cap in uris:
+        for cap in sorted(uris, key=str):
             for uri in sorted(uris[cap]):
                 in_order.append(self[uri])
         return(iter(in_order))
-- 
2.43.0


From 2b40ebff7f854c36f57919d9fe10b9acdc49e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 29/57] fix: map names that contain line breaks

---
 resync/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 79c4c7b..5244df8 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -178,7 +178,7 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(re.escape(self.dst_path) + "(/.*)?$", dst_file)
+        m = re.match(re.escape(self.dst_path) + r"(/.*)?\Z", dst_file, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
@@ -196,7 +196,7 @@ class Map:
         slash will return self.dst_path with a trailing slash. A src_uri with
         a .. path segment is not mapped.
         """
-        m = re.match(re.escape(self.src_uri) + "(/.*)?$", src_uri)
+        m = re.match(re.escape(self.src_uri) + r"(/.*)?\Z", src_uri, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
-- 
2.43.0


From cc5ff368a479ffc2b29a00041283d7401bf2a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 30/57] fix: open local files whatever characters their names
 have

---
 resync/url_or_file_open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index 4981fa4..ab03d5c 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -2,7 +2,7 @@
 
 import re
 import time
-from urllib.request import Request, urlopen
+from urllib.request import Request, pathname2url, urlopen
 
 from . import __version__
 
@@ -31,7 +31,7 @@ def url_or_file_open(uri, method=None, timeout=None):
     no timeout is specified then the global default will be used.
     """
     if (not re.match(r'''\w+:''', uri)):
-        uri = 'file:' + uri
+        uri = 'file:' + pathname2url(uri)
     headers = {'User-Agent': 'resync/' + __version__}
     # Do we need to send an Authorization header?
     # FIXME - This token will be added blindy to all requests. This is insecure
-- 
2.43.0


From b4c187aa58d1e31d90669b700f638e885c63271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 31/57] fix: leave out what is not a regular file

A named pipe below a mapped directory made a scan with digests wait forever, and
was listed as a resource without them. A directory whose first stat failed was
taken for a single file and listed as a resource.
---
 resync/resource_list_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 958e8f1..d01f6a8 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -3,6 +3,7 @@
 import os
 import os.path
 import re
+import stat
 import time
 import logging
 from defusedxml.ElementTree import parse
@@ -178,6 +179,9 @@ class ResourceListBuilder():
         try:
             uri = self.mapper.dst_to_src(file)  # might throw MapperError
             file_stat = os.stat(file)
+            if not stat.S_ISREG(file_stat.st_mode):
+                self.logger.warning("Ignoring '%s' (not a regular file)" % (file))
+                return
             hashes = Hashes(self.set_hashes, file) if self.set_hashes else None
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
-- 
2.43.0


From f272562552c8f24bbce7187da5f3f22e4d7f706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 32/57] fix: print nothing but the change list when no dump is
 requested

resync-build passes False, not None, if there is no --write-changedump, so that
'OOPS - FIXME' followed every change list and made that on stdout unreadable.
---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 9d71c42..73c3196 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -786,7 +786,7 @@ class Client(object):
 
     def write_dump_if_requested(self, resource_list, dump):
         """Write a dump to the file dump."""
-        if (dump is None):
+        if (not dump):
             return
         print("OOPS - FIXME - Wrinting dump to %s not yet implemented" % (dump))
         return(1)
-- 
2.43.0


From bc518584ec85c0ccb10438ae8621c4ae820293ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 33/57] fix: leave the local paths of resources as they were
 after writing a dump

---
 resync/dump.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index f84931a..b43e3b4 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -71,15 +71,18 @@ class Dump(object):
             allowZip64=True)
         # Write resources first
         rdm = ResourceDumpManifest(resources=resources)
-        real_path = {}
-        for resource in resources:
-            archive_path = self.archive_path(resource.path)
-            real_path[archive_path] = resource.path
-            resource.path = archive_path
-        zf.writestr('manifest.xml', rdm.as_xml())
-        # Add all files in the resources
-        for resource in resources:
-            zf.write(real_path[resource.path], arcname=resource.path)
+        real_paths = [resource.path for resource in resources]
+        try:
+            for resource in resources:
+                resource.path = self.archive_path(resource.path)
+            zf.writestr('manifest.xml', rdm.as_xml())
+            # Add all files in the resources
+            for resource, real_path in zip(resources, real_paths):
+                zf.write(real_path, arcname=resource.path)
+        finally:
+            # Put back the local paths so that the dump can be written again
+            for resource, real_path in zip(resources, real_paths):
+                resource.path = real_path
         zf.close()
         zipsize = os.path.getsize(dumpfile)
         self.logger.info(
-- 
2.43.0


From 295ec95901b39abba74052c2a3187ba8c503e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 34/57] fix: report files that changed size before they were
 added to a dump

---
 resync/dump.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index b43e3b4..aec216a 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -60,8 +60,9 @@ class Dump(object):
         """Write a ZIP format dump file.
 
         Writes a ZIP file containing the resources in the iterable resources along with
-        a manifest file manifest.xml (written first). No checks on the size of files
-        or total size are performed, this is expected to have been done beforehand.
+        a manifest file manifest.xml (written first). No checks on the total size are
+        performed, this is expected to have been done beforehand. The size of each
+        file is compared with that in the manifest as files might change meanwhile.
         """
         compression = (ZIP_DEFLATED if self.compress else ZIP_STORED)
         zf = ZipFile(
@@ -79,6 +80,10 @@ class Dump(object):
             # Add all files in the resources
             for resource, real_path in zip(resources, real_paths):
                 zf.write(real_path, arcname=resource.path)
+                size = zf.getinfo(zf.namelist()[-1]).file_size
+                if (resource.length is not None and resource.length != size):
+                    raise DumpError("Size of resource %s is %d in dump, not %d as listed" %
+                                    (resource.uri, size, resource.length))
         finally:
             # Put back the local paths so that the dump can be written again
             for resource, real_path in zip(resources, real_paths):
-- 
2.43.0


From 7a27cee5c681a041b8f796f0188c92f40be8c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 35/57] fix: use absolute paths to work out the paths in a dump

---
 resync/dump.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index aec216a..f11a03e 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -145,11 +145,11 @@ class Dump(object):
                 raise DumpError(
                     "No file path defined for resource %s" %
                     resource.uri)
+            dirname = os.path.dirname(os.path.abspath(resource.path))
             if (path_prefix is None):
-                path_prefix = os.path.dirname(resource.path)
+                path_prefix = dirname
             else:
-                path_prefix = os.path.commonpath(
-                    [path_prefix, os.path.dirname(resource.path)])
+                path_prefix = os.path.commonpath([path_prefix, dirname])
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
-- 
2.43.0


From 3b03bdbb8945b032d49ac95b02a5c3a361207f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 36/57] fix: keep a file called manifest.xml apart from the
 manifest of a dump

---
 resync/dump.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resync/dump.py b/resync/dump.py
index f11a03e..a95ec92 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -163,6 +163,15 @@ class Dump(object):
                     (resource.path, size, self.max_size))
             total_size += size
         self.path_prefix = path_prefix
+        for resource in self.resources:
+            if (self.archive_path(resource.path) == 'manifest.xml'):
+                # Must not have same path as manifest, keep last directory
+                self.path_prefix = os.path.dirname(path_prefix)
+                if (self.path_prefix == path_prefix):
+                    raise DumpError(
+                        "Path of file %s in dump would be that of the manifest" %
+                        (resource.path))
+                break
         self.total_size = total_size
         self.logger.info(
             "Total size of files to include in dump %d bytes" %
-- 
2.43.0


From f6c1ab49f3da6ae893b5767749fdccd7177d8e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 37/57] fix: accept files with times before 1980 in a dump

---
 resync/dump.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index a95ec92..b7bd8f8 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -2,6 +2,7 @@
 
 import logging
 import os.path
+import sys
 from zipfile import ZipFile, ZIP_STORED, ZIP_DEFLATED
 from resync.resource_dump_manifest import ResourceDumpManifest
 
@@ -65,11 +66,16 @@ class Dump(object):
         file is compared with that in the manifest as files might change meanwhile.
         """
         compression = (ZIP_DEFLATED if self.compress else ZIP_STORED)
+        options = {}
+        if (sys.version_info >= (3, 8)):
+            # Accept files with times that cannot be expressed in ZIP
+            options['strict_timestamps'] = False
         zf = ZipFile(
             dumpfile,
             mode="w",
             compression=compression,
-            allowZip64=True)
+            allowZip64=True,
+            **options)
         # Write resources first
         rdm = ResourceDumpManifest(resources=resources)
         real_paths = [resource.path for resource in resources]
-- 
2.43.0


From 16a95f74ebd82367553ee802774298e68f03aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 38/57] fix: do not delay the first web request because of
 local files read before

---
 resync/url_or_file_open.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index ab03d5c..7881746 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -42,8 +42,9 @@ def url_or_file_open(uri, method=None, timeout=None):
         headers['Authorization'] = 'Bearer ' + CONFIG['bearer_token']
     # Have we got a delay set? Apply only to web requests after first
     global NUM_REQUESTS
-    if NUM_REQUESTS != 0 and CONFIG['delay'] is not None and not uri.startswith('file:'):
-        time.sleep(CONFIG['delay'])
-    NUM_REQUESTS += 1
+    if not uri.startswith('file:'):
+        if NUM_REQUESTS != 0 and CONFIG['delay'] is not None:
+            time.sleep(CONFIG['delay'])
+        NUM_REQUESTS += 1
     maybe_timeout = {} if timeout is None else {'timeout': timeout}
     return urlopen(Request(url=uri, headers=headers, method=method), **maybe_timeout)
-- 
2.43.0


From 9ebc8b2ce1d6945f13a8eb0f36130b323648c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 39/57] fix: show the whole menu of a document in the explorer
 if one URI is malformed

---
 resync/explorer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index cc52946..35d24df 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -352,7 +352,11 @@ class Explorer(Client):
 
         Prints warning if expansion happens.
         """
-        full_uri = urljoin(context, uri)
+        try:
+            full_uri = urljoin(context, uri)
+        except ValueError as e:
+            print("  WARNING - bad URI (%s)" % (str(e)))
+            return uri
         if (full_uri != uri):
             print("  WARNING - expanded relative URI to %s" % (full_uri))
             uri = full_uri
-- 
2.43.0


From 784de6af8232a18da24b45db67078c3a685526f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 40/57] fix: read the documents that up and index links refer
 to in the explorer

---
 resync/explorer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 35d24df..e5a9479 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -158,7 +158,10 @@ class Explorer(Client):
         #
         checks = {}
         r = options[inp]
-        if (r.capability is None):
+        if (inp in ('u', 'i')):
+            # these links are to other documents, not to resources
+            caps = None
+        elif (r.capability is None):
             if (capability in ['resourcelist', 'changelist',
                                'resourcedump', 'changedump']):
                 caps = 'resource'
-- 
2.43.0


From 3e0a8b09131e8bac3ec7f25d117838af89575f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 41/57] fix: keep the requested digests for further syncs when
 a list does not include them

prune_hashes removed digests from the configuration of the client for good
if one list did not include them, so later syncs with the same client
did not check them even if they were supplied.
---
 resync/client.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 73c3196..d66bbb8 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -266,10 +266,11 @@ class Client(object):
         if (len(src_resource_list) == 0):
             raise ClientFatalError(
                 "Aborting as there are no resources to sync")
+        hashes = self.hashes
         if (len(self.hashes) > 0):
-            self.prune_hashes(src_resource_list.hashes(), 'resource')
+            hashes = self.prune_hashes(src_resource_list.hashes(), 'resource')
         # 1.b destination resource list mapped back to source URIs
-        rlb = ResourceListBuilder(set_hashes=self.hashes, mapper=self.mapper)
+        rlb = ResourceListBuilder(set_hashes=hashes, mapper=self.mapper)
         dst_resource_list = rlb.from_disk()
         # 2. Compare these resource lists respecting any comparison options
         (same, updated, deleted, created) = dst_resource_list.compare(src_resource_list)
@@ -826,15 +827,19 @@ class Client(object):
         return(rl)
 
     def prune_hashes(self, hashes, list_type):
-        """Prune any hashes not in source resource or change list."""
+        """Set of hashes to use with source resource or change list.
+
+        Prunes any hashes not in the list. Does not change self.hashes because
+        the same client may be used with other lists that include them.
+        """
         discarded = []
         for hash in sorted(self.hashes):
             if (hash not in hashes):
-                self.hashes.discard(hash)
                 discarded.append(hash)
         if (len(discarded) > 0):
             self.logger.info("Not calculating %s hash(es) on destination as not present "
                              "in source %s list" % (', '.join(discarded), list_type))
+        return self.hashes.difference(discarded)
 
     def log_status(self, in_sync=True, incremental=False, audit=False,
                    same=None, created=0, updated=0, deleted=0, to_delete=0):
-- 
2.43.0


From e486977f0241f557db92a851cea86361ee68d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 42/57] fix: check the capability of the component documents of
 an index

---
 resync/list_base_with_index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b550dea..23db71e 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -181,12 +181,14 @@ class ListBaseWithIndex(ListBase):
         self.logger.info(
             "Reading sitemap from %s (%d bytes)" %
             (sitemap_uri, self.content_length))
-        component = sitemap.parse_xml(fh=fh, sitemapindex=False)
+        component = sitemap.parse_xml(
+            fh=fh,
+            capability=self.capability_name,
+            sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
             self.add(r)
         # FIXME - if rel="up" check it goes to correct place
-        # FIXME - check capability
 
     # OUTPUT
 
-- 
2.43.0


From 0996a8aa06457e2bb793e3bf50b522fa99c1db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 43/57] fix: do not record time of last modification as that of
 the last change

The time recorded by an incremental sync is compared with the times of
changes in the next one. If a resource was last modified later than it was
changed according to the change list (because of a wrong clock, say) then
later changes were lost.
---
 resync/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index d66bbb8..82bc41b 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -393,6 +393,7 @@ class Client(object):
             ts = resource.ts_datetime
             if (ts > self.last_timestamp):
                 self.last_timestamp = ts
+        last_change_timestamp = self.last_timestamp
         # 4. Check that the change list has authority over URIs listed
         # FIXME - What does authority mean for change list? Here use both the
         # change list URI and, if we used it, the sitemap URI
@@ -481,7 +482,9 @@ class Client(object):
         # 7. Report status and planned actions
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
-        # 8. Record last timestamp we have seen
+        # 8. Record last timestamp we have seen. This is that of the last change even
+        # if the last modification of some resource is dated later
+        self.last_timestamp = last_change_timestamp
         self.store_last_timestamp()
         # 9. Done
         self.logger.debug("Completed incremental sync")
-- 
2.43.0


From 07363c6179edfcfcfc847aac4c1e8e08eb585f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 44/57] fix: do not record a time later than that of the
 resource list

If a resource in the list was last modified in the future (because of a wrong
clock, say) then incremental syncs after the baseline sync lost all changes
until then.
---
 resync/client.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 82bc41b..500abab 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -320,6 +320,16 @@ class Client(object):
         # time of the source, so not affected by local times of deleted files
         self.last_timestamp = max((r.timestamp for r in src_resource_list
                                    if r.timestamp is not None), default=0)
+        # Not later than the time of the list even if some last modification is, so
+        # that the changes in between are seen
+        try:
+            if (src_resource_list.md_at):
+                self.last_timestamp = min(self.last_timestamp,
+                                          str_to_datetime(src_resource_list.md_at))
+        except ValueError:
+            self.logger.warning(
+                "Ignoring bad time %s of resource list" %
+                (src_resource_list.md_at))
         self.store_last_timestamp()
         # 7. Done
         self.log_status(in_sync=(len(updated) + len(deleted) + len(created) == 0),
-- 
2.43.0


From ac875fc5867ec2187f0ae5761d94d43704e19322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 45/57] fix: do not take the parts of a reference index for
 resources with --multifile

With --multifile (no support for sitemap indexes) an index given as reference
was read as if its parts were the resources, so that the change list said that
the parts were deleted and everything else was created. Refuse the index
instead, and do not write an index of change lists either.
---
 resync/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 500abab..e58e048 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -763,6 +763,7 @@ class Client(object):
             cl.add_changed_resources(created, change='created')
         # 4. Write out change list
         cl.mapper = self.mapper
+        cl.allow_multifile = self.allow_multifile
         cl.pretty_xml = self.pretty_xml
         if (self.max_sitemap_entries is not None):
             cl.max_sitemap_entries = self.max_sitemap_entries
@@ -816,7 +817,8 @@ class Client(object):
             "Reading %s resource list from %s ..." %
             (name, ref_sitemap))
         rl.mapper = self.mapper
-        rl.read(uri=ref_sitemap, index_only=(not self.allow_multifile))
+        rl.allow_multifile = self.allow_multifile
+        rl.read(uri=ref_sitemap)
         num_entries = len(rl.resources)
         self.logger.info(
             "Read %s resource list with %d entries in %d sitemaps" %
-- 
2.43.0


From ebd64b249276f86655ec24c5a592737f62db81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 46/57] fix: write lists without a limit of entries

max_sitemap_entries=None means no limit (see requires_multifile), but write()
failed with a TypeError.
---
 resync/list_base_with_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 23db71e..1164d10 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -387,7 +387,8 @@ class ListBaseWithIndex(ListBase):
         if (first is None or len(chunk) < self.max_sitemap_entries):
             for r in resource_iter:
                 chunk.add(r)
-                if (len(chunk) >= self.max_sitemap_entries):
+                if (self.max_sitemap_entries is not None
+                        and len(chunk) >= self.max_sitemap_entries):
                     break
         # Get next to see whether there are more resources
         try:
-- 
2.43.0


From 7d24f7ecd092b2f3c59c3aa02fc741d265fb64ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 47/57] fix: recognise overlapping source and destination
 however they are written

The check that refuses to sync between local directories that contain each
other compared the strings given, so a relative path, a file: URI or a link
was not recognised and the files of the source were overwritten (an updated
file was truncated before it was read) or deleted. It also compared only the
two sides of each mapping, and took /a/b and /a/bc for the same.
---
 resync/mapper.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 5244df8..78cbe1c 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -5,8 +5,10 @@ import os.path
 import re
 try:  # python3
     from urllib.parse import urlparse
+    from urllib.request import url2pathname
 except ImportError:  # pragma: no cover  python2
     from urlparse import urlparse  # pragma: no cover
+    from urllib import url2pathname  # pragma: no cover
 import logging
 
 
@@ -93,8 +95,9 @@ class Mapper():
         allow unsafe mappings in situations where it doesn't matter.
         """
         for map in self.mappings:
-            if (map.unsafe()):
-                return(True)
+            for other in self.mappings:
+                if (map.unsafe(other.dst_path)):
+                    return(True)
         return(False)
 
     def dst_to_src(self, dst_file):
@@ -207,19 +210,26 @@ class Map:
             return(None)
         return self.dst_path + rel_path
 
-    def unsafe(self):
+    def unsafe(self, dst_path=None):
         """True if the mapping is unsafe for an update.
 
         Applies only to local source. Returns True if the paths for source and
-        destination are the same, or if one is a component of the other path.
+        destination are the same, or if one is a component of the other path,
+        however they are written. The destination is that of this mapping unless
+        dst_path is given.
         """
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
-        if (scheme != ''):
+        if (scheme == ''):
+            path = self.src_uri
+        elif (scheme == 'file'):
+            path = url2pathname(path)
+        else:
             return(False)
-        s = os.path.normpath(self.src_uri)
-        d = os.path.normpath(self.dst_path)
-        lcp = os.path.commonprefix([s, d])
-        return(s == lcp or d == lcp)
+        if (dst_path is None):
+            dst_path = self.dst_path
+        s = os.path.realpath(path or '/')
+        d = os.path.realpath(dst_path or '/')
+        return(os.path.commonpath([s, d]) in (s, d))
 
     def __repr__(self):
         """Human readable string for one map."""
-- 
2.43.0


From 62e26f637946ccf0ce7edd107da967e3ca956965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 48/57] fix: report changes of an incremental sync as to be
 done first and as applied in the end

The first status said CHANGES APPLIED before anything was done, the last one
always NO CHANGES, and never PART APPLIED when deletions were left out.
---
 docs/pypi_upload.md | 12 ++++++------
 resync/client.py    |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/docs/pypi_upload.md b/docs/pypi_upload.md
index 59e28c0..0f9247a 100644
--- a/docs/pypi_upload.md
+++ b/docs/pypi_upload.md
@@ -37,21 +37,21 @@ resync is at <https://pypi.python.org/pypi/resync> on pypi
 
    resync> ./resync-sync --incremental --delete http://localhost:8888/
    Using URI mapping: http://localhost:8888/ -> localhost_8888
-   Status: CHANGES APPLIED (created=4, updated=5, deleted=4)
+   Status:     NOT IN SYNC (to create=4, to update=5, to delete=4)
    Will apply 13 changes, and delete 4 resources
-   Status:      NO CHANGES (created=4, updated=5, deleted=4)
+   Status: CHANGES APPLIED (created=4, updated=5, deleted=4)
 
    esync> ./resync-sync --incremental --delete http://localhost:8888/
    Using URI mapping: http://localhost:8888/ -> localhost_8888
-   Status: CHANGES APPLIED (created=0, updated=3, deleted=0)
+   Status:     NOT IN SYNC (to create=0, to update=3, to delete=0)
    Will apply 3 changes, and delete 0 resources
-   Status:      NO CHANGES (created=0, updated=3, deleted=0)
+   Status: CHANGES APPLIED (created=0, updated=3, deleted=0)
 
    resync> ./resync-sync --incremental --delete http://localhost:8888/; ./resync-sync --audit http://localhost:8888/
    Using URI mapping: http://localhost:8888/ -> localhost_8888
-   Status: CHANGES APPLIED (created=1, updated=2, deleted=0)
+   Status:     NOT IN SYNC (to create=1, to update=2, to delete=0)
    Will apply 3 changes, and delete 0 resources
-   Status:      NO CHANGES (created=1, updated=2, deleted=0)
+   Status: CHANGES APPLIED (created=1, updated=2, deleted=0)
    Using URI mapping: http://localhost:8888/ -> localhost_8888
    Status:         IN SYNC (same=1001, to create=0, to update=0, to delete=0)
    ```
diff --git a/resync/client.py b/resync/client.py
index e58e048..3750d23 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -459,7 +459,7 @@ class Client(object):
         # either there are no changes or if there are only deletions and
         # we don't allow deletion
         in_sync = ((to_update + to_delete + to_create) == 0)
-        self.log_status(in_sync=in_sync, incremental=True, created=to_create,
+        self.log_status(in_sync=in_sync, incremental=True, audit=True, created=to_create,
                         updated=to_update, deleted=to_delete)
         if (in_sync or ((to_update + to_create) == 0 and not allow_deletion)):
             self.logger.debug("Completed incremental")
@@ -490,7 +490,7 @@ class Client(object):
             else:
                 raise ClientError("Unknown change type %s" % (resource.change))
         # 7. Report status and planned actions
-        self.log_status(incremental=True, created=num_created, updated=num_updated,
+        self.log_status(in_sync=False, incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen. This is that of the last change even
         # if the last modification of some resource is dated later
-- 
2.43.0


From bafb9ae9ab2aeb083ede5b016ba3dfca88b9314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 49/57] fix: read the parts of a list in the order of its index

Changes of the same resource were applied in the wrong order if the names of
the parts do not sort in that order (changelist9.xml, changelist10.xml).
---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 1164d10..a544d79 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -134,7 +134,7 @@ class ListBaseWithIndex(ListBase):
             # now loop over all entries to read each sitemap and add to
             # resources
             self.logger.info("Now reading %d sitemaps" % len(entries.uris()))
-            for sitemap_uri in sorted(entries.uris()):
+            for sitemap_uri in entries.uris():
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
-- 
2.43.0


From 2059a563715e9a549cf5f1d2e104fc62dd2e2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 50/57] fix: say in generated change lists when the changes
 were found

Entries had only the last modification times of the files. Those of deleted
and of moved files are from before the last sync of a client, which therefore
skipped them: deletions were never followed in incremental syncs. ResourceSync
1.1 has the datetime attribute for this (not written with --spec-version 1.0).
---
 resync/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 3750d23..e33ddd3 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -744,7 +744,7 @@ class Client(object):
         disk. The files on disk are scanned based either on the paths setting or
         else on the mappings.
         """
-        cl = ChangeList(ln=links)
+        cl = ChangeList(ln=links, spec_version=self.spec_version)
         if (not empty):
             # 1. Get and parse reference sitemap
             old_rl = self.read_reference_resource_list(ref_sitemap)
@@ -761,6 +761,13 @@ class Client(object):
             cl.add_changed_resources(updated, change='updated')
             cl.add_changed_resources(deleted, change='deleted')
             cl.add_changed_resources(created, change='created')
+            # Say when the changes were found. The times of the files do not, they may
+            # be from before the last sync of a client, always so for deletions. Lists
+            # without times give changes without times
+            now = time.time()
+            for resource in cl:
+                if (resource.timestamp is not None):
+                    resource.ts_datetime = now
         # 4. Write out change list
         cl.mapper = self.mapper
         cl.allow_multifile = self.allow_multifile
-- 
2.43.0


From 3f0f76709f1e21d921f5bf3b056c132a92786f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 51/57] fix: write documents in UTF-8 whatever the encoding of
 the locale

Lists were written in the locale's encoding, so under a locale other than
UTF-8 a list with a URI outside its character set failed with a
UnicodeEncodeError, and other lists were not in UTF-8 as the Sitemap
protocol demands.
---
 resync/list_base.py            | 2 +-
 resync/list_base_with_index.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/resync/list_base.py b/resync/list_base.py
index daac991..3aae985 100644
--- a/resync/list_base.py
+++ b/resync/list_base.py
@@ -140,7 +140,7 @@ class ListBase(ResourceContainer):
         Must be overridden to support multi-file lists.
         """
         self.default_capability()
-        fh = open(basename, 'w')
+        fh = open(basename, 'w', encoding='utf-8')
         s = self.new_sitemap()
         s.resources_as_xml(self, fh=fh, sitemapindex=self.sitemapindex)
         fh.close()
diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index a544d79..ff11b67 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -329,7 +329,7 @@ class ListBaseWithIndex(ListBase):
                     raise ListBaseIndexError(
                         "Cannot map sitemap filename to URI (%s)" % str(e))
                 self.logger.info("Writing sitemap %s..." % (file))
-                f = open(file, 'w')
+                f = open(file, 'w', encoding='utf-8')
                 chunk.index = index_uri
                 chunk.md = index.md
                 s.resources_as_xml(chunk, fh=f)
@@ -342,19 +342,19 @@ class ListBaseWithIndex(ListBase):
                 # Get next chunk
                 (chunk, nxt) = self.get_resources_chunk(resources_iter, nxt)
             self.logger.info("Wrote %d sitemaps" % (len(index)))
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemapindex %s..." % (basename))
             s.resources_as_xml(index, sitemapindex=True, fh=f)
             f.close()
             self.logger.info("Wrote sitemapindex %s" % (basename))
         elif self.sitemapindex:
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemapindex %s..." % (basename))
             s.resources_as_xml(chunk, sitemapindex=True, fh=f)
             f.close()
             self.logger.info("Wrote sitemapindex %s" % (basename))
         else:
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemap %s..." % (basename))
             s.resources_as_xml(chunk, fh=f)
             f.close()
-- 
2.43.0


From cb22a79d0b601ee11f71d410a92ad1ea94d3586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 52/57] fix: keep the client state in UTF-8 whatever the
 encoding of the locale

Recording the state of a site whose name is outside the locale's character
set failed with a UnicodeEncodeError, and a state recorded under one locale
could not be read under another.
---
 resync/client_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index 90f7542..49f5267 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -47,7 +47,7 @@ class ClientState(object):
         # lost if we get interrupted or run out of space while writing
         new_file = '%s.%d.tmp' % (self.status_file, os.getpid())
         try:
-            with open(new_file, 'w') as configfile:
+            with open(new_file, 'w', encoding='utf-8') as configfile:
                 parser.write(configfile)
             os.replace(new_file, self.status_file)
         except OSError:
@@ -65,7 +65,7 @@ class ClientState(object):
         """
         parser = ConfigParser()
         try:
-            with open(self.status_file, 'r') as configfile:
+            with open(self.status_file, 'r', encoding='utf-8') as configfile:
                 parser.read_file(configfile)
         except FileNotFoundError:
             pass
-- 
2.43.0


From 5fa2cf8cdb352a60d972a7c39a423c96fcf71fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 53/57] fix: write the log in UTF-8 whatever the encoding of
 the locale

A record with characters outside the locale's character set, such as the
event for the deletion of a file, was missing from the log.
---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index ff43b43..ade5923 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -60,7 +60,7 @@ def init_logging(to_file=False, logfile=None, default_logfile='/tmp/resync.log',
     if to_file:
         if (logfile is None):
             logfile = default_logfile
-        fh = logging.FileHandler(filename=logfile, mode='a')
+        fh = logging.FileHandler(filename=logfile, mode='a', encoding='utf-8')
         fh.setFormatter(formatter)
         fh.setLevel(logging.DEBUG if (eval_mode) else logging.INFO)
 
-- 
2.43.0


From bb21315b5bc144e1511cff7bc2fe70c21f070fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 54/57] fix: give the manifest beside a dump package the paths
 in the package

---
 resync/dump.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index b7bd8f8..9402e07 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -44,7 +44,7 @@ class Dump(object):
             dumpbase = "%s%05d" % (basename, n)
             dumpfile = "%s.%s" % (dumpbase, self.format)
             if (write_separate_manifests):
-                manifest.write(basename=dumpbase + '.xml')
+                self.write_manifest(manifest, dumpbase + '.xml')
             if (self.format == 'zip'):
                 self.write_zip(manifest.resources, dumpfile)
             elif (self.format == 'warc'):
@@ -57,6 +57,17 @@ class Dump(object):
         self.logger.info("Wrote %d dump files" % (n))
         return(n)
 
+    def write_manifest(self, manifest=None, basename=None):
+        """Write a separate manifest, with the same paths as the one in the package."""
+        real_paths = [resource.path for resource in manifest.resources]
+        try:
+            for resource in manifest.resources:
+                resource.path = self.archive_path(resource.path)
+            manifest.write(basename=basename)
+        finally:
+            for resource, real_path in zip(manifest.resources, real_paths):
+                resource.path = real_path
+
     def write_zip(self, resources=None, dumpfile=None):
         """Write a ZIP format dump file.
 
-- 
2.43.0


From 43f566dc6a9d14be909ce6a07b1b222a41de0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:03 +0000
Subject: [PATCH 55/57] fix: know the type of an index of source descriptions
 in the explorer

---
 resync/explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index e5a9479..8969a03 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -208,7 +208,7 @@ class Explorer(Client):
             (capability, num_entries))
         if (expected is not None and capability not in expected):
             print("WARNING - expected a %s document" % (','.join(expected)))
-        if (capability not in ['description', 'descriptionoindex', 'capabilitylist',
+        if (capability not in ['description', 'descriptionindex', 'capabilitylist',
                                'resourcelist', 'resourcelistindex', 'changelist', 'changelistindex',
                                'resourcedump', 'resourcedumpindex', 'changedump', 'changedumpindex',
                                'resourcelist-archive', 'resourcedump-archive',
-- 
2.43.0


From ac8ea10b9353e403115d7d59589740bf11e50ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:07 +0000
Subject: [PATCH 56/57] fix: expect a source description at the well-known URI
 in the explorer

---
 resync/explorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 8969a03..46f85d1 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -82,13 +82,13 @@ class Explorer(Client):
                     starts.append(
                         XResource(
                             well_known, [
-                                'capabilitylist', 'capabilitylistindex']))
+                                'description', 'descriptionindex']))
                 else:
                     starts.append(XResource(uri))
                     starts.append(
                         XResource(
                             well_known, [
-                                'capabilitylist', 'capabilitylistindex']))
+                                'description', 'descriptionindex']))
                 print("Looking for discovery information based on mappings")
         else:
             raise ClientFatalError(
-- 
2.43.0


From 734f06434d638ac86fcc1ecb50394a5a8c92d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:51 +0000
Subject: [PATCH 57/57] fix: do not record state of a baseline sync that could
 not read local files it might have to delete

---
 resync/client.py                | 5 +++--
 resync/resource_list_builder.py | 8 ++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index e33ddd3..e9adcf2 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -289,8 +289,9 @@ class Client(object):
                     raise ClientFatalError(
                         "Aborting as sitemap (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
                         (self.sitemap, resource.uri))
-        # 5. Grab files to do sync
-        self.num_failures = 0
+        # 5. Grab files to do sync. What could not be read on the destination may be
+        # a copy that should have been deleted
+        self.num_failures = rlb.num_errors if (allow_deletion) else 0
         delete_msg = (
             ", and delete %d resources" %
             len(deleted)) if (allow_deletion) else ''
diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index d01f6a8..982bae6 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -53,6 +53,7 @@ class ResourceListBuilder():
         self.exclude_patterns = []
         self.include_symlinks = False
         self.log_count_increment = 50000  # Write log message after 50000 files
+        self.num_errors = 0  # Number of files and directories that could not be read
         # Used internally only:
         self.logger = logging.getLogger('resync.resource_list_builder')
         self.compiled_exclude_patterns = []
@@ -160,8 +161,14 @@ class ResourceListBuilder():
 
     def _walk_error(self, error):
         # Warn about a directory that cannot be read, os.walk(..) would ignore it
+        self._count_error(error)
         self.logger.warning("Ignoring directory '%s' (error: %s)" % (error.filename, str(error)))
 
+    def _count_error(self, error):
+        # Count what is there but cannot be read
+        if not isinstance(error, FileNotFoundError):
+            self.num_errors += 1
+
     def add_file(self, resource_list=None, dir=None, file=None):
         """Add a single file to resource_list.
 
@@ -184,6 +191,7 @@ class ResourceListBuilder():
                 return
             hashes = Hashes(self.set_hashes, file) if self.set_hashes else None
         except OSError as e:
+            self._count_error(e)
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
             return
         timestamp = file_stat.st_mtime  # UTC
-- 
2.43.0

