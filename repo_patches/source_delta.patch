From d1f613e9fbff39d75d77928ce20076efb61c7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:35 +0000
Subject: [PATCH 01/52] fix: write a member bag's extra info fields to
 member-bags.tsv

MemberInfo.format() raised NameError for any entry with info fields and, for
an entry without a URI, would have put the first one in the URI column.
---
 multibag/access/multibag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 064160b..73e2db5 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -55,8 +55,10 @@ class MemberInfo(object):
         out = self.name
         if self.uri:
             out += "\t"+self.uri
+        elif self.info:
+            out += "\t"    # the URI field is required (if empty) ahead of info
         if self.info:
-            out += "\t"+"\t".join(info)
+            out += "\t"+"\t".join(self.info)
         if self.comment:
             out += "\t# " + self.comment
         out += "\n"
-- 
2.43.0


From b7f89a851263f212e4f064d671a4594e193eeab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:05 +0000
Subject: [PATCH 02/52] fix: parse padded fields and multi-column comments in
 multibag TSV tag files

The profile says spaces around a TAB are not part of the name or path, and that
a comment column runs to the end of the line.
---
 multibag/access/multibag.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 73e2db5..7812e26 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -74,14 +74,18 @@ class MemberInfo(object):
         if len(fields) < 1 or not fields[0]:
             raise MultibagError("Multibag syntax error in member-bags.tsv: "+
                                 "missing fields: " + line.strip())
-        name = fields.pop(0)
+        name = fields.pop(0).strip()
         comm = None
         uri = None
+        for i in range(len(fields)):
+            if fields[i].startswith('# ') or \
+               (i == len(fields)-1 and fields[i].startswith('#')):
+                # the rest of the line, including any TABs, is the comment
+                comm = "\t".join(fields[i:]).lstrip('#').strip()
+                fields = fields[:i]
+                break
         if len(fields) > 0:
-            if fields[-1].startswith('#'):
-                comm = fields.pop(-1).lstrip('#').strip()
-        if len(fields) > 0:
-            uri = fields.pop(0)
+            uri = fields.pop(0).strip() or None
         
         return MemberInfo(name, uri, comm, *fields)
 
@@ -111,7 +115,7 @@ def parse_file_lookup_line_03(line):
     :rtype:  a 2-tuple containing the bag file path and the name of the 
              bag containing that file.  
     """
-    out = line.strip().split('\t')
+    out = [f.strip() for f in line.strip().split('\t')]
     if len(out) < 2:
         raise MultibagError("Multibag syntax error in file-lookup.tsv: "+
                             "missing bagname field: " + line.strip())
-- 
2.43.0


From 931191c4eb6feb8895b50765b6ca51b4b026e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:09 +0000
Subject: [PATCH 03/52] fix: remove_member_bag() must load the saved member
 list first

On a freshly opened head bag the member-bags.tsv content was not read, so the
removal was silently dropped.
---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 7812e26..4e836c4 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -515,7 +515,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         subsequently called; they are not called internally by this method.
         """
         if self._memberbags is None:
-            self.member_bags
+            self.member_bags()
 
         if self._memberbags:
             idxs = [i for i in range(len(self._memberbags))
-- 
2.43.0


From 9f1331195982c76f5cb84511c159c9b27c651012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:12 +0000
Subject: [PATCH 04/52] fix: set_deleted()/unset_deleted() must load the saved
 list first

On a freshly opened head bag the deleted.txt content was not read, so saving
dropped every path registered earlier.
---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 4e836c4..351ab0f 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -654,7 +654,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         self._deleted.add(filepath)
@@ -670,7 +670,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         if filepath in self._deleted:
-- 
2.43.0


From 6cf2360139bb352ebebe570ce2bab72ec7e4b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:16 +0000
Subject: [PATCH 05/52] fix: honor exclude in update_for_member()

A str exclude replaced the include list, and a read-only member bag's walk is
not pruned via subdirs so files deep in an excluded directory were listed.
---
 multibag/access/multibag.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 351ab0f..e981ecd 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -585,7 +585,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if exclude is None:
             exclude = []
         elif isinstance(exclude, (str,_unicode)):
-            include = [exclude]
+            exclude = [exclude]
         elif not isinstance(exclude, list):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
@@ -600,9 +600,8 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
 
             elif bag.isdir(incl):
                 for d, subdirs, files in bag.walk(incl):
-                    if d and d in exclude:
-                        for i in range(len(subdirs)):
-                            subdirs.pop(0)
+                    if d and (d in exclude or
+                              any([d.startswith(x+'/') for x in exclude])):
                         continue
                     for f in files:
                         f = "/".join([d, f])
-- 
2.43.0


From 327ab88c510b875f1ff5f972c97937199d8fd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:19 +0000
Subject: [PATCH 06/52] fix: resolve the multibag tag directory the same way
 everywhere

Reading the member list or file lookup crashed when Multibag-Tag-Directory is
repeated, and a nested tag directory could not be created.
---
 multibag/access/multibag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index e981ecd..2f4711b 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -211,7 +211,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         opens the file anew and returns the contents via an iterator that returns
         MemberInfo instances.
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-members.txt") \
                       or "member-bags.tsv"
@@ -251,7 +251,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         """
         iterate through the contents of the multibag/file-lookup.tsv
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-directory.txt") \
                       or "file-lookup.tsv"
@@ -430,7 +430,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         """
         mbdir = os.path.join(self._bagdir, self.multibag_tag_dir)
         if not os.path.exists(mbdir):
-            os.mkdir(mbdir)
+            os.makedirs(mbdir)
 
     def save_member_bags(self):
         """
-- 
2.43.0


From 87eea4d2d63c1ad316e959bbb054de4fde8aaea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:11 +0000
Subject: [PATCH 07/52] fix: name the member bag correctly when the path ends
 with a slash

SingleMultibagMaker recorded an empty member name for a bag directory given
with a trailing slash.
---
 multibag/amend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 7ba41f9..d1f1d76 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -71,8 +71,7 @@ class SingleMultibagMaker(object):
         if not self.bag.info.get('Multibag-Version'):
             self.update_info();
         
-        bagname = os.path.basename(self.bagdir)
-        mi = MemberInfo(bagname, pid, comment, *info)
+        mi = MemberInfo(self.bag.name, pid, comment, *info)
         self.bag.set_member_bags([mi])
         self.bag.save_member_bags()
 
-- 
2.43.0


From 70f1ce86d892731570b6fd57356cf44af96d46cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:14 +0000
Subject: [PATCH 08/52] fix: do not alter the amendee's in-memory metadata when
 amending it

The Multibag-Head-Deprecates list was shared with the old head bag instance and
then appended to.
---
 multibag/amend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index d1f1d76..ddd506a 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -276,7 +276,7 @@ class Amender(object):
         if 'Multibag-Head-Deprecates' in self._oldhead.info:
             if isinstance(self._oldhead.info['Multibag-Head-Deprecates'], list):
                 self._newhead.info['Multibag-Head-Deprecates'] = \
-                               self._oldhead.info['Multibag-Head-Deprecates']
+                         list(self._oldhead.info['Multibag-Head-Deprecates'])
             else:
                 self._newhead.info['Multibag-Head-Deprecates'] = \
                               [ self._oldhead.info['Multibag-Head-Deprecates'] ]
-- 
2.43.0


From e7b10e9f1aa413887554a1bba9c0a613d8e52b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:17 +0000
Subject: [PATCH 09/52] fix: carry the deleted paths of the amended aggregation
 forward

The profile requires that every path in the previous head bag's deleted.txt
appear in that of the new one unless the update returns the file.  They were
dropped, so deleted files came back in the next version.
---
 multibag/amend.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/multibag/amend.py b/multibag/amend.py
index ddd506a..5c04357 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -217,6 +217,7 @@ class Amender(object):
         self._pid = pid
         self._comm = comment
         self._info = list(info)
+        self._olddeleted = []
 
     def init_from_amendee(self, keepprofver=False):
         """
@@ -233,6 +234,7 @@ class Amender(object):
         self._init_multibag_info(keepprofver)
         self._init_member_bags()
         self._init_file_lookup()
+        self._init_deleted()
 
     def _init_member_bags(self):
         target = os.path.join(self._newheaddir, self._newhead.multibag_tag_dir,
@@ -267,6 +269,22 @@ class Amender(object):
             # just add the files under 'data'
             self._newhead.update_for_member(self._oldhead, make_member=False)
 
+    def _init_deleted(self):
+        # the profile requires that paths deleted from the previous version
+        # stay deleted unless they are returned by this amendment
+        if not self._oldhead.is_head_multibag():
+            return
+        already = self._newhead.deleted_paths()
+        self._olddeleted = [p for p in self._oldhead.deleted_paths()
+                              if p not in already]
+        for path in self._olddeleted:
+            self._newhead.set_deleted(path)
+
+    def _undelete_files_in(self, bag):
+        for path in self._olddeleted:
+            if bag.isfile(path):
+                self._newhead.unset_deleted(path)
+
     def _init_multibag_info(self, keepprofver=False):
         profver = CURRENT_VERSION
         if keepprofver and 'Multibag-Version' in self._oldhead.info:
@@ -321,6 +339,7 @@ class Amender(object):
         self._newhead.add_member_bag(membag.name, pid, comment, info)
         self._newhead.update_for_member(membag, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_files_in(membag)
 
     def finalize(self, version, include_lu=None, exclude_lu=None):
         """
@@ -348,9 +367,12 @@ class Amender(object):
                                      self._info)
         self._newhead.update_for_member(self._newhead, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_files_in(self._newhead)
 
         self._newhead.save_member_bags()
         self._newhead.save_file_lookup()
+        if self._newhead.deleted_paths():
+            self._newhead.save_deleted()
         self._newhead.update_info(version, self._newhead.profile_version)
 
         
-- 
2.43.0


From 13fce3e8da247ddc28d077ba57b82a8bda18ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:56 +0000
Subject: [PATCH 10/52] fix: do not drop files that are named like BagIt files
 when splitting

nonstandard() took any file called e.g. bagit.txt or manifest-x.txt, in whatever
directory, for a BagIt special file, so a completed plan left out such payload
files.
---
 multibag/access/extended.py | 7 ++++---
 multibag/split.py           | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e9f27b7..8d0e16e 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -159,8 +159,8 @@ class ExtendedReadMixin(object):
         in output multibags).
         """
         special = [re.compile(r) for r in
-                       r"^bagit.txt$ ^bag-info.txt$ ^fetch.txt$".split() +
-                       r"^(tag)?manifest-(\w+).txt$".split()]
+                       r"^bagit\.txt$ ^bag-info\.txt$ ^fetch\.txt$".split() +
+                       r"^(tag)?manifest-(\w+)\.txt$".split()]
 
         for dir, subdirs, files in self.walk():
             if len(subdirs) == 0 and len(files) == 0:
@@ -168,7 +168,8 @@ class ExtendedReadMixin(object):
                 yield dir
             for file in files:
                 # don't spit out a file is it's one of the special ones
-                if not any([bool(spf.match(file)) for spf in special]):
+                # (these only appear in the bag's root directory)
+                if dir or not any([bool(spf.match(file)) for spf in special]):
                     yield os.path.join(dir, file)
 
     def _load_bag_info(self):
diff --git a/multibag/split.py b/multibag/split.py
index e8ac308..c52e54f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -602,8 +602,8 @@ class WellPackedSplitter(Splitter):
         }
         
     _special = [re.compile(r) for r in
-                       r"^/bagit.txt$ ^/bag-info.txt$ ^/fetch.txt$".split() +
-                       r"^/(tag)?manifest-(\w+).txt$".split()]
+                       r"^/bagit\.txt$ ^/bag-info\.txt$ ^/fetch\.txt$".split() +
+                       r"^/(tag)?manifest-(\w+)\.txt$".split()]
     def _is_special(self, filename):
         for r in self._special:
             if r.match(filename):
-- 
2.43.0


From fa3c505f9070b5f65ff61cf04fedac1225f7eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:00 +0000
Subject: [PATCH 11/52] fix: reserve the requested files for the head bag

The paths were normalized in the caller's list rather than the splitter's copy,
so bag-relative forhead paths were ignored (and the argument was changed).
---
 multibag/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index c52e54f..9090465 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -536,9 +536,9 @@ class WellPackedSplitter(Splitter):
         if forhead is None:
             forhead = []
         self.forhead = list(forhead)
-        for i in range(len(forhead)):
-            if not forhead[i].startswith('/'):
-                forhead[i] = '/'+forhead[i]
+        for i in range(len(self.forhead)):
+            if not self.forhead[i].startswith('/'):
+                self.forhead[i] = '/'+self.forhead[i]
                 
 
     def _create_plan(self, bagpath):
-- 
2.43.0


From dc5f9743bcea2de5b9caa0a74bf624eeb36900d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:03 +0000
Subject: [PATCH 12/52] fix: accept any naming iterator when applying a split
 plan

Only objects with a python2-style next() method worked with apply_iter(), and
an empty iterator made name_output_bags() fail with UnboundLocalError.
---
 multibag/split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index 9090465..b38e438 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -156,6 +156,7 @@ class SplitPlan(object):
                                    the sequence).  
         """
         use = self._manifests
+        name = None
         if reverse:
             use = reversed(use)
         try:
@@ -261,7 +262,7 @@ class SplitPlan(object):
             bagname = m.get('name')
             if naming_iter:
                 try:
-                    bagname = naming_iter.next()
+                    bagname = next(naming_iter)
                 except StopIteration as ex:
                     if logger and not m.get('ishead'):
                         logger.warn("naming iterator ran out of names before "+
-- 
2.43.0


From 829ccb18925f4c0b1c37082e6feb2378d9b6d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:07 +0000
Subject: [PATCH 13/52] fix: allow a split plan to be created for a serialized
 bag

SplitPlan() documents support for a path to a serialized source bag but tried
to open it as a directory.
---
 multibag/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index b38e438..6eb65fd 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -9,7 +9,7 @@ from copy import deepcopy
 from functools import cmp_to_key
 
 from .constants import CURRENT_VERSION as MBAG_VERSION, DEF_ENC
-from .access.bagit import Bag, ReadOnlyBag
+from .access.bagit import Bag, ReadOnlyBag, open_bag
 from .access.multibag import as_headbag, MissingMultibagFileError
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
 from bagit import _parse_tags
@@ -65,7 +65,7 @@ class SplitPlan(object):
         """
         if isinstance(source, (str, _unicode)):
             if os.path.isfile(source):
-                source = ReadOnlyBag(source)
+                source = open_bag(source)
             else:
                 # so that we can replicate with hard links when possible
                 source = Bag(source)
-- 
2.43.0


From ed8f154613482b7cdc041649786d6481303558b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:11 +0000
Subject: [PATCH 14/52] fix: do not overwrite the source's multibag tag files
 when splitting a head bag

The source's member-bags.tsv etc. are replicated as hard links into an output
bag; writing the new versions for the output head bag truncated the originals.
---
 multibag/split.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index 6eb65fd..47745c6 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -381,6 +381,14 @@ class SplitPlan(object):
                 if not os.path.isdir(mbagdir):
                     os.mkdir(mbagdir)
 
+                # if the progenitor is a head bag, these may have been replicated
+                # from it as hard links; don't write through to the originals
+                for tagf in ["member-bags.tsv", "file-lookup.tsv",
+                             "aggregation-info.txt"]:
+                    tagf = os.path.join(mbagdir, tagf)
+                    if os.path.exists(tagf):
+                        os.remove(tagf)
+
                 with io.open(os.path.join(mbagdir, "member-bags.tsv"),
                              'w', encoding=DEF_ENC) as fd:
                     for bag in memberbags:
-- 
2.43.0


From 27b261a0037900b8abb1f970b35da8c761e6ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:14 +0000
Subject: [PATCH 15/52] fix: allow a bag without a bag-info.txt file to be
 split

The BagIt standard makes bag-info.txt optional; splitting such a bag failed
after all but the head bag had been written.
---
 multibag/split.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 47745c6..d699b22 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -398,8 +398,9 @@ class SplitPlan(object):
                              'w', encoding=DEF_ENC) as fd:
                     for f in filedest:
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
-                with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
-                             'w', encoding=DEF_ENC) as fd:
+                if self.progenitor.isfile("bag-info.txt"):
+                  with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
+                               'w', encoding=DEF_ENC) as fd:
                     with self.progenitor.open_text_file("bag-info.txt") as ifd:
                         for f in ifd:
                             fd.write(f)
-- 
2.43.0


From 77f359baec5c15ac646bc1bbfca579910903a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:18 +0000
Subject: [PATCH 16/52] fix: do not ignore a failure to replicate a file

A failed copy (e.g. disk full) from an unserialized bag was swallowed, leaving
a missing or truncated file behind in the output bag, and reporting it to a
logger failed with AttributeError.
---
 multibag/access/extended.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 8d0e16e..80e5a58 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -365,7 +365,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to create hard link for data file (" + path + \
                           "): " + str(ex) + "; swithching to copy mode."
-                    self.logger.warning(msg)
+                    logger.warning(msg)
 
         if not hardlink:
             try:
@@ -374,7 +374,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to copy data file (" + path + \
                           ") into bag (" + destdir + "): " + str(ex)
-                    self.log.exception(msg, exc_info=True)
+                    logger.exception(msg)
+                raise
         
     def open_text_file(self, path, encoding='utf-8-sig'):
         """
-- 
2.43.0


From e3b6a3838a0b1efb1d2696bdfb00f75aaa92d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:36 +0000
Subject: [PATCH 17/52] fix: restore from serialized bags that have no entries
 for directories

Archives need not list directories explicitly; restoring from such a one failed
when trying to copy the directory's (unavailable) modification time.
---
 multibag/access/extended.py | 8 ++++++--
 multibag/restore.py         | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 80e5a58..58c5b84 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -14,7 +14,7 @@ from .bagit import Bag, ReadOnlyBag
 from bagit import _parse_tags
 
 from fs.copy import copy_file
-from fs.errors import ResourceNotFound
+from fs.errors import ResourceNotFound, MissingInfoNamespace
 from fs import open_fs
 
 if sys.version_info[0] > 2:
@@ -604,7 +604,11 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
             info = self._root.fs.getinfo(path, namespaces=['details'])
         except ResourceNotFound as ex:
             raise OSError(2, "File not found: "+path)
-        return FileTimes(ctime=_d2e(info.created), mtime=_d2e(info.modified), atime=_d2e(info.accessed))
+        try:
+            return FileTimes(ctime=_d2e(info.created), mtime=_d2e(info.modified), atime=_d2e(info.accessed))
+        except MissingInfoNamespace as ex:
+            # a directory only implied by the files in a serialized bag has no times
+            return FileTimes(ctime=None, mtime=None, atime=None)
 
     def replicate(self, path, destdir, logger=None):
         """
diff --git a/multibag/restore.py b/multibag/restore.py
index 0abd844..10af667 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -202,7 +202,7 @@ class BagRestorer(object):
 
                     # try to copy the modification time
                     times = srcbag.timesfor(srcpath)
-                    if times:
+                    if times and times.mtime is not None:
                         os.utime(destf, (time.time(), times.mtime))
 
             for f in dirs:
@@ -215,7 +215,7 @@ class BagRestorer(object):
                     # try to copy the modification time
                     srcpath = "/".join([root, f])
                     times = srcbag.timesfor(srcpath)
-                    if times:
+                    if times and times.mtime is not None:
                         os.utime(destf, (time.time(), times.mtime))
 
             if rmtime:
-- 
2.43.0


From 665e394cd3ababe112160a2fa4711053b1948a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:39 +0000
Subject: [PATCH 18/52] fix: honor Multibag-Tag-Directory when restoring

The name 'multibag' was assumed, so restoring from a head bag with a different
tag directory ignored its aggregation-info.txt and then failed.
---
 multibag/restore.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 10af667..6c8ec57 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -291,8 +291,10 @@ class BagRestorer(object):
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
-        if self._head.isfile("multibag/aggregation-info.txt"):
-            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
+        tagdir = self._head.multibag_tag_dir
+        agginfo = tagdir+"/aggregation-info.txt"
+        if self._head.isfile(agginfo):
+            with self._head.open_text_file(agginfo) as fd:
                 content = fd.read()
             bif = os.path.join(self._destdir, "bag-info.txt")
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
@@ -312,7 +314,13 @@ class BagRestorer(object):
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            shutil.rmtree(os.path.join(self._destdir, "multibag"))
+            defcache = os.path.join(self._destdir, "multibag", "_membercache")
+            for dir in [tagdir, defcache]:
+                dir = os.path.normpath(os.path.join(self._destdir, dir))
+                if dir.startswith(self._destdir+os.sep) and os.path.isdir(dir):
+                    shutil.rmtree(dir)
+            if os.path.isdir(os.path.dirname(defcache)) and not os.listdir(os.path.dirname(defcache)):
+                os.rmdir(os.path.dirname(defcache))
             mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
             mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
             mbkeys = [k for k in mbkeys if k in restoredbag.info]
-- 
2.43.0


From 7d7003d4d218eb5f00e33f24e320766acb99e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:42 +0000
Subject: [PATCH 19/52] fix: merge the member bags' manifests correctly when
 restoring

Restoring failed with KeyError if the bags' checksum algorithms differ; a
manifest copied from an older member brought along entries for deleted and
replaced files (an invalid bag), and entries of files still to be fetched were
lost.
---
 multibag/restore.py | 80 ++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 6c8ec57..77f65d5 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -22,6 +22,8 @@ else:
     _unicode = unicode
     FileNotFoundError = _FileNotFoundError 
 
+_manifest_re = re.compile(r"^(tag)?manifest-\w+\.txt$")
+
 serialized_extensions = set(_ext_fs_lookup.keys())
 
 class BagRestorer(object):
@@ -190,13 +192,16 @@ class BagRestorer(object):
             rmtime = os.stat(os.path.join(self._destdir, root)).st_mtime
 
             for f in files:
-                if os.path.join(root, f) in skip:
+                srcpath = (root and "/".join([root, f])) or f
+                if srcpath in skip:
+                    continue
+                if not root and (f == "fetch.txt" or _manifest_re.match(f)):
+                    # these get merged rather than copied
                     continue
                 destf = os.path.join(self._destdir, root, f)
                 if overwrite and os.path.exists(destf):
                     os.remove(destf)
                 if not os.path.exists(destf):
-                    srcpath = "/".join([root, f])
                     srcbag.replicate(srcpath, self._destdir)
                     updated.append(srcpath)
 
@@ -221,41 +226,48 @@ class BagRestorer(object):
             if rmtime:
                 os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
 
-        if updated:
-            self._update_manifests(srcbag, updated)
+        self._update_manifests(srcbag, updated, skip)
 
-    def _update_manifests(self, srcbag, updated):
+    def _update_manifests(self, srcbag, updated, skip=None):
+        # merge the source bag's manifests into those of the destination bag.
+        # The hashes of a file must come from the bag that provided the file.
         destbag = open_bag(self._destdir)
-
-        updated_by_alg = OrderedDict()
-        for path in updated:
-            if path in srcbag.entries:
-                for alg in srcbag.entries[path]:
-                    if alg not in updated_by_alg:
-                        updated_by_alg[alg] = OrderedDict()
-                    updated_by_alg[alg][path] = srcbag.entries[path][alg]
-                
+        updated = set(updated)
+
+        entries = OrderedDict()
+        for path in srcbag.entries:
+            # (a payload file that was not copied may be one that is to be fetched)
+            if path in updated or \
+               (path.startswith("data/") and path not in destbag.entries and
+                not self._is_skipped(path, skip) and
+                not os.path.exists(os.path.join(self._destdir, path))):
+                entries[path] = srcbag.entries[path]
         for path in destbag.entries:
-            for alg in updated_by_alg:
-                if path not in updated_by_alg[alg]:
-                    updated_by_alg[alg][path] = destbag.entries[path][alg]
-
-        for alg in updated_by_alg:
-            files = [f for f in updated_by_alg[alg].keys() if f.startswith("data/")]
-            if len(files) > 0:
-                mfp = os.path.join(self._destdir, "manifest-%s.txt" % alg)
-                with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
-                    for f in files:
-                        fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
-
-            files = [f for f in updated_by_alg[alg].keys() if not f.startswith("data/")]
-            if len(files) > 0:
-                mfp = os.path.join(self._destdir, "tagmanifest-%s.txt" % alg)
-                with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
-                    for f in files:
-                        fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
-
-        
+            if path not in updated and path not in entries:
+                entries[path] = destbag.entries[path]
+
+        manifests = set(os.path.basename(m) for b in [srcbag, destbag]
+                                            for m in b.manifest_files())
+        self._write_manifests(entries, manifests)
+
+    def _write_manifests(self, entries, manifests):
+        # :param dict entries:  a mapping of file paths to their hashes by algorithm 
+        # :param manifests:     names of payload manifest files to write even if empty
+        lines = OrderedDict((m, []) for m in sorted(manifests))
+        for path in entries:
+            mantype = (path.startswith("data/") and "manifest") or "tagmanifest"
+            for alg in entries[path]:
+                lines.setdefault("%s-%s.txt" % (mantype, alg), []) \
+                     .append(u"%s %s\n" % (entries[path][alg], path))
+        for manifest in lines:
+            with io.open(os.path.join(self._destdir, manifest), 'w', encoding=DEF_ENC) as fd:
+                fd.writelines(lines[manifest])
+
+    def _is_skipped(self, path, skip):
+        # return True if the path, or a directory it is in, is one of those to skip
+        return bool(skip) and \
+               any([path == s or path.startswith(s+'/') for s in skip])
+
     def restore_fetch(self, members=None):
         """
         restore the fetch file to the output bag.  
-- 
2.43.0


From 51989e11a893d7bbd497eb528d9c07be89dfafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:46 +0000
Subject: [PATCH 20/52] fix: remove deleted files when restoring into an
 existing bag

Files marked as deleted but contained in the destination--notably, the head bag
when it is restored in-place--were left in the restored bag.
---
 multibag/restore.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/multibag/restore.py b/multibag/restore.py
index 77f65d5..4c84ea1 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -263,6 +263,23 @@ class BagRestorer(object):
             with io.open(os.path.join(self._destdir, manifest), 'w', encoding=DEF_ENC) as fd:
                 fd.writelines(lines[manifest])
 
+    def _purge(self, paths):
+        # remove deleted files that came with the destination bag itself (e.g. when
+        # the head bag is being updated in-place)
+        for path in paths:
+            path = os.path.normpath(os.path.join(self._destdir, path))
+            if not path.startswith(self._destdir+os.sep):
+                continue
+            if os.path.isdir(path) and not os.path.islink(path):
+                shutil.rmtree(path)
+            elif os.path.lexists(path):
+                os.remove(path)
+
+        destbag = open_bag(self._destdir)
+        entries = OrderedDict(e for e in destbag.entries.items()
+                                if not self._is_skipped(e[0], paths))
+        self._write_manifests(entries, destbag.manifest_files())
+
     def _is_skipped(self, path, skip):
         # return True if the path, or a directory it is in, is one of those to skip
         return bool(skip) and \
@@ -320,6 +337,9 @@ class BagRestorer(object):
         for member in members:
             self.restore_member(member.name, skip)
 
+        if skip:
+            self._purge(skip)
+
         # now build the fetch.txt file if any found
         if members:  # skipping head bag
             self.restore_fetch(members)
-- 
2.43.0


From 341f5704246938504c2ab8135421a548f28ba0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:50 +0000
Subject: [PATCH 21/52] fix: merge the members' fetch.txt files in the order
 the profile requires

The oldest entry for a file won, the head bag's entries and paths containing
spaces were lost, and deleted paths were not removed from the list.
---
 multibag/restore.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 4c84ea1..220f04c 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -169,9 +169,9 @@ class BagRestorer(object):
             if membag.isfile("fetch.txt"):
                 with membag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        filen = line.strip().rsplit(None, 1)[0]
-                        if filen not in fetch:
-                            fetch[filen] = line
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2 and parts[2] not in fetch:
+                            fetch[parts[2]] = line
 
     def _restore_from(self, srcbag, skip=None, overwrite=False):
         if os.path.abspath(srcbag) == self._destdir:
@@ -296,16 +296,28 @@ class BagRestorer(object):
             members = list(self._head.member_bags())
         fetch = OrderedDict()
         for member in members:
-            src = self.get_member_bag(member.name)
-            bag = open_bag(src)
+            if member.name == self._head.name:
+                bag = self._head
+            else:
+                src = self.get_member_bag(member.name)
+                if not src:
+                    raise FileNotFoundError("Member bag not found: "+member.name)
+                bag = open_bag(src)
             if bag.isfile("fetch.txt"):
                 with bag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        parts = line.strip().rsplit(None, 1)
-                        if len(parts) > 1 and parts[1]:
-                            fetch[parts[1]] = line
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2:
+                            fetch[parts[2]] = line.strip() + u"\n"
+
+        deleted = self._head.deleted_paths()
+        for path in [p for p in fetch if self._is_skipped(p, deleted)]:
+            del fetch[path]
+
+        fp = os.path.join(self._destdir, "fetch.txt")
+        if not fetch and os.path.exists(fp):
+            os.remove(fp)
         if fetch:
-            fp = os.path.join(self._destdir, "fetch.txt")
             with io.open(fp, 'w', encoding=DEF_ENC) as fd:
                 for f in fetch:
                     fd.write(fetch[f])
@@ -341,8 +353,7 @@ class BagRestorer(object):
             self._purge(skip)
 
         # now build the fetch.txt file if any found
-        if members:  # skipping head bag
-            self.restore_fetch(members)
+        self.restore_fetch()
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-- 
2.43.0


From 682ff957cd432006df85af0ac7c4e20488da7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:53 +0000
Subject: [PATCH 22/52] fix: leave a valid bag behind when restoring without
 any clean-up

With update_sizes and remove_multibag_tags both turned off, the tag manifests
were left out of date.
---
 multibag/restore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 220f04c..face404 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -375,8 +375,10 @@ class BagRestorer(object):
             restoredbag.update_oxum()
             restoredbag.save()
             restoredbag.update_bag_size()
-            restoredbag.save()
-            
+
+        # this also brings the tag manifests up to date
+        restoredbag.save()
+
 
 def restore_bag(headbag, destbag=None, compdir=None, fetcher=None):
     """
-- 
2.43.0


From ef6b27c7adef3ffbaa3f04cff9dddfcb149a2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 23/52] fix: keep bag-relative paths from reaching a sibling of
 the bag

The containment checks compared path strings by prefix, so that '../bag2/x' was
taken to be inside of 'bag', and walk() did not check its start path at all.
---
 multibag/access/bagit.py    | 4 ++--
 multibag/access/extended.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2e3d29d..400e497 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -553,8 +553,8 @@ class ReadOnlyBag(_bagit.Bag):
         # possible problem: we're not resolving links.  (Shouldn't happen)
         real_path = os.path.normpath(os.path.join(self.path, path))
         bag_path = os.path.normpath(self.path)
-        common = os.path.commonprefix((bag_path, real_path))
-        return not (common == bag_path)
+        return real_path != bag_path and \
+               not real_path.startswith(bag_path.rstrip(os.sep)+os.sep)
 
 def _calc_hashes(args):
     # auto unpacking of sequences illegal in Python3
diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 58c5b84..7a456cb 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -261,7 +261,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.sep != '/':
             path = _bagsepre.sub(os.sep, path)
         path = os.path.normpath(os.path.join(self._bagdir, path))
-        if not path.startswith(os.path.normpath(self._bagdir)):
+        base = os.path.normpath(self._bagdir)
+        if path != base and not path.startswith(base.rstrip(os.sep)+os.sep):
             return None
         return path
 
@@ -410,9 +411,11 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         """
         if not start:
             start = ''
-        start = os.path.join(*(re.split(r'/+', start)))
         if os.path.isabs(start):
             raise ValueError("walk(): start must not be absolute: "+start)
+        if self._canon_path(start) is None:
+            raise ValueError("walk(): start is outside of the bag: "+start)
+        start = os.path.join(*(re.split(r'/+', start)))
         root = os.path.join(self._bagdir, start).rstrip(os.sep)
         if not os.path.isdir(root):
             raise ValueError("walk(): start is not a subdirectory: "+start)
-- 
2.43.0


From 955eeb35c3a3331fae1a0aea552c5e2ef5992bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 24/52] fix: refuse a multibag tag directory that is outside of
 the bag

The value comes from the bag's metadata and is used for writing and removing
files.
---
 multibag/access/multibag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 2f4711b..fdad8af 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -203,6 +203,9 @@ class HeadBagReadMixin(ExtendedReadMixin):
                 out = defval
             else:
                 out = out[-1]
+        if os.path.isabs(out) or '..' in re.split(r'[/\\]', out):
+            raise MultibagError("Multibag-Tag-Directory is not inside the bag: "+
+                                out)
         return out
 
     def iter_member_bags(self):
-- 
2.43.0


From c1884717fa59dd00fd80b10e89e6be5590322f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:51 +0000
Subject: [PATCH 25/52] fix: accept absolute URLs in the member list when
 validating a head bag

The test was inverted for URLs with a network location: http://host/... was
reported as not being an absolute URL.
---
 multibag/validate/headbag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index fc39742..b585364 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -327,7 +327,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
                 if len(parts) > 2:
@@ -407,7 +407,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
         t = out._issue("4.1-1", "member-bags.tsv lines must match "+
-- 
2.43.0


From 03947ca77730808a805cef7fcd6781037877c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:55 +0000
Subject: [PATCH 26/52] fix: report problems with a head bag rather than fail
 to validate it

Validation stopped with an exception for a bag without Multibag-Head-Version or
a data directory, and a repeated Multibag-Version was always an error.
---
 multibag/validate/headbag.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index b585364..3af29d4 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -89,7 +89,7 @@ class HeadBagValidator(Validator):
 
         vers = data["Multibag-Version"]
         if isinstance(data["Multibag-Version"], (list, tuple)):
-            version = data["Multibag-Version"][-1]
+            vers = version = data["Multibag-Version"][-1]
 
         t = out._issue("3-Version-val",
                        "Multibag-Version must be set to '{0}'".format(version))
@@ -204,7 +204,6 @@ class HeadBagValidator(Validator):
         headver = data.get("Multibag-Head-Version")
         if isinstance(headver, list) and len(headver) > 0:
             headver = headver[-1]
-        assert headver
 
         values = data["Multibag-Head-Deprecates"]
         if not isinstance(values, list):
@@ -282,7 +281,9 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
 
         assert mdir
-        assert ishead
+        if not ishead:
+            # (missing Multibag-Head-Version is reported elsewhere)
+            return out
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -466,7 +467,9 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
         
         assert mdir
-        assert ishead
+        if not ishead:
+            # (missing Multibag-Head-Version is reported elsewhere)
+            return out
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -546,8 +549,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        datafiles = []
+        if self.bag.isdir("data"):
+            datafiles = self.bag._root.subfspath("data").fs.walk.files()
+        for df in datafiles:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
@@ -632,8 +637,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        datafiles = []
+        if self.bag.isdir("data"):
+            datafiles = self.bag._root.subfspath("data").fs.walk.files()
+        for df in datafiles:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
@@ -668,7 +675,9 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
         
         assert mdir
-        assert ishead
+        if not ishead:
+            # (missing Multibag-Head-Version is reported elsewhere)
+            return out
 
         aginfo = "/".join([mdir, "aggregation-info.txt"])
         if version == "0.2" or version == "0.3" or not self.bag.exists(aginfo):
-- 
2.43.0


From 04c30c24d472a3937bec1ee875c896aec8f305e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:58 +0000
Subject: [PATCH 27/52] fix: report a malformed Payload-Oxum as a validation
 error

BagError has no message attribute, so BagValidator failed with AttributeError.
---
 multibag/validate/bag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/bag.py b/multibag/validate/bag.py
index 7871415..86c6628 100644
--- a/multibag/validate/bag.py
+++ b/multibag/validate/bag.py
@@ -38,7 +38,7 @@ class BagValidator(Validator):
                 comments = [ex.message] + ex.details
             except BagError as ex:
                 passed = False
-                comments = [ex.message]
+                comments = [str(ex)]
 
             results._err(issue, passed, comments)
 
-- 
2.43.0


From 61b4c72e6cc573e0c89fdf6cd860eae02874c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:02 +0000
Subject: [PATCH 28/52] fix: allow versions made from tuples and from strings
 to be compared

---
 multibag/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/constants.py b/multibag/constants.py
index 2b7994f..db7ae35 100644
--- a/multibag/constants.py
+++ b/multibag/constants.py
@@ -44,12 +44,12 @@ class Version(object):
     def __eq__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields == other.fields
+        return list(self.fields) == list(other.fields)
 
     def __lt__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields < other.fields
+        return list(self.fields) < list(other.fields)
 
     def __le__(self, other):
         if not isinstance(other, Version):
-- 
2.43.0


From df1169cd0d78fc9ff339e67d56b460ebb958e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:05 +0000
Subject: [PATCH 29/52] fix: repair the export and import of a validation issue

to_json_obj() referred to attributes that do not exist and from_tuple() did not
match the order used by to_tuple().
---
 multibag/validate/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index 48607e1..c2a17e2 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -178,17 +178,17 @@ class ValidationIssue(object):
         """
         return OrderedDict([
             ("type", type_labels[self.type]),
-            ("profile_name", self.profile),
+            ("profile_name", "multibag"),
             ("profile_version", self.profile_version),
             ("label", self.label),
-            ("spec", self.message),
+            ("spec", self.specification),
             ("comments", self.comments)
         ])
 
     @classmethod
     def from_tuple(cls, data):
-        return ValidationIssue(data[1], data[2], data[3], data[0], 
-                               data[4], data[5], data[6])
+        return ValidationIssue(data[3], data[0], data[4], data[5], 
+                               data[6], data[2])
 
 class ValidationResults(object):
     """
-- 
2.43.0


From c0039e7643f35671509cbc884da1dc47107c11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:59 +0000
Subject: [PATCH 30/52] fix: leave a valid and self-contained aggregation when
 splitting a head bag

The tag manifest of the output head bag recorded the hashes of the source's
multibag tag files, which are then rewritten; the source bag remained listed
as a member next to its own pieces; and its list of deleted files was lost.
---
 multibag/split.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index d699b22..c200a07 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -247,8 +247,14 @@ class SplitPlan(object):
         # progenitor is a head bag itself
         filedest = OrderedDict()
         memberbags = []
+        deleted = []
+        rewritten = ["multibag/"+f for f in
+                     "member-bags.tsv file-lookup.tsv aggregation-info.txt".split()]
         if self.progenitor.is_head_multibag():
             as_headbag(self.progenitor)
+            deleted = self.progenitor.deleted_paths()
+            if deleted:
+                rewritten.append("multibag/deleted.txt")
             try:
                 memberbags = self.progenitor.member_bag_names
             except MissingMultibagFileError:
@@ -257,6 +263,9 @@ class SplitPlan(object):
                 filedest = OrderedDict(self.progenitor.iter_file_lookup())
             except MissingMultibagFileError:
                 pass
+
+            # the output bags take the place of the progenitor bag
+            memberbags = [b for b in memberbags if b != self.progenitor.name]
         
         for m in self.manifests():
             bagname = m.get('name')
@@ -325,7 +334,8 @@ class SplitPlan(object):
                     else:
                         hd = self.progenitor.tagfile_entries()
                         mantype = TMAN
-                    if file in hd:
+                    if file in hd and \
+                       not (m.get('ishead') and file in rewritten):
                         hashes = hd[file]
                         for alg in hashes:
                             self._record_hash(bagdir, alg, hashes[alg],
@@ -383,9 +393,8 @@ class SplitPlan(object):
 
                 # if the progenitor is a head bag, these may have been replicated
                 # from it as hard links; don't write through to the originals
-                for tagf in ["member-bags.tsv", "file-lookup.tsv",
-                             "aggregation-info.txt"]:
-                    tagf = os.path.join(mbagdir, tagf)
+                for tagf in rewritten:
+                    tagf = os.path.join(bagdir, tagf)
                     if os.path.exists(tagf):
                         os.remove(tagf)
 
@@ -398,13 +407,17 @@ class SplitPlan(object):
                              'w', encoding=DEF_ENC) as fd:
                     for f in filedest:
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
+                if deleted:
+                    with io.open(os.path.join(mbagdir, "deleted.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        for f in deleted:
+                            fd.write(u"%s\n" % f)
                 if self.progenitor.isfile("bag-info.txt"):
-                  with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
-                               'w', encoding=DEF_ENC) as fd:
-                    with self.progenitor.open_text_file("bag-info.txt") as ifd:
-                        for f in ifd:
-                            fd.write(f)
-                
+                    with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
+                            for f in ifd:
+                                fd.write(f)
 
             yield bagdir
 
-- 
2.43.0


From 969c71dbc138cf3d03eff5f999302ff37d810787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:39 +0000
Subject: [PATCH 31/52] fix: replicate files into directories with URL-special
 characters in their name

The destination path was interpreted as an FS URL, so that any of "?!@%" in
the path to an output bag made splitting a bag fail.
---
 multibag/access/extended.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 7a456cb..aad9aff 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -15,7 +15,7 @@ from bagit import _parse_tags
 
 from fs.copy import copy_file
 from fs.errors import ResourceNotFound, MissingInfoNamespace
-from fs import open_fs
+from fs.osfs import OSFS
 
 if sys.version_info[0] > 2:
     _unicode = str
@@ -630,7 +630,7 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
             raise ValueError("replicate: file/dir does not exist in this bag: " +
                              path)
 
-        destfs = open_fs(destdir)
+        destfs = OSFS(destdir)    # (destdir is a path, not an FS URL)
         if self.isdir(path):
     
             if not destfs.isdir(path):
-- 
2.43.0


From d8f91ab3e60ba89ea62f341fcae1af3e07f16bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:43 +0000
Subject: [PATCH 32/52] fix: allow a read-only bag to be validated with
 multiple processes requested

The bag's FS instance cannot be pickled, so validate(processes=N) always
failed with a TypeError.
---
 multibag/access/bagit.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 400e497..d9a0874 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -488,25 +488,14 @@ class ReadOnlyBag(_bagit.Bag):
         """
         errors = list()
 
-        if os.name == 'posix':
-            worker_init = posix_multiprocessing_worker_initializer
-        else:
-            worker_init = None
-
         args = ((self._root,
                  self.normalized_filesystem_names.get(rel_path, rel_path),
                  hashes,
                  self.algorithms) for rel_path, hashes in self.entries.items())
 
         try:
-            if processes == 1:
-                hash_results = [_calc_hashes(i) for i in args]
-            else:
-                try:
-                    pool = multiprocessing.Pool(processes if processes else None, initializer=worker_init)
-                    hash_results = pool.map(_calc_hashes, args)
-                finally:
-                    pool.terminate()
+            # (an FS instance cannot be shared with other processes)
+            hash_results = [_calc_hashes(i) for i in args]
 
         # Any unhandled exceptions are probably fatal
         except:
-- 
2.43.0


From dd6ba19a8918776df94fd42a4900a2383ac525f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 33/52] fix: write an empty URL field ahead of a member bag's
 comment

The profile requires it, and the head bag validator took the comment for a
bad URL otherwise.
---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index fdad8af..0f65ecf 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -55,8 +55,8 @@ class MemberInfo(object):
         out = self.name
         if self.uri:
             out += "\t"+self.uri
-        elif self.info:
-            out += "\t"    # the URI field is required (if empty) ahead of info
+        elif self.info or self.comment:
+            out += "\t"    # the URI field is required (if empty) ahead of others
         if self.info:
             out += "\t"+"\t".join(self.info)
         if self.comment:
-- 
2.43.0


From 4baca851fc3d6362341a57646c373d3f23f8bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:51 +0000
Subject: [PATCH 34/52] fix: do not write through hard links when saving the
 multibag tag files

---
 multibag/access/multibag.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 0f65ecf..6ba8acc 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -435,6 +435,12 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if not os.path.exists(mbdir):
             os.makedirs(mbdir)
 
+    def _unlink_tagfile(self, tagfile):
+        # remove a tag file that is about to be re-written.  It can be a hard
+        # link to that of another bag (e.g. one that this bag was split from).
+        if os.path.exists(tagfile):
+            os.remove(tagfile)
+
     def save_member_bags(self):
         """
         if it appears that the member bag information has been updated, save 
@@ -446,6 +452,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         self.ensure_tagdir()
         tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                                'member-bags.tsv')
+        self._unlink_tagfile(tagfile)
         with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
             for mi in self._memberbags:
                 out = mi.format()
@@ -625,6 +632,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         self.ensure_tagdir()
         tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                                'file-lookup.tsv')
+        self._unlink_tagfile(tagfile)
         with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
             for item in self._filelu.items():
                 if ispy2:
@@ -689,8 +697,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         
         tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                                'deleted.txt')
-        if not self._deleted and os.path.exists(tagfile):
-            os.remove(tagfile)
+        self._unlink_tagfile(tagfile)
 
         self.ensure_tagdir()
         with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
-- 
2.43.0


From 184981f2f3c214af5aa2e18df5c010b3444706b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:24 +0000
Subject: [PATCH 35/52] fix: write the required file lookup for a bag without
 any payload files

---
 multibag/access/multibag.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 6ba8acc..bd18de2 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -600,6 +600,13 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
 
+        # (the lookup file is required, even if there are no files to list)
+        if self._filelu is None:
+            try:
+                self._cache_file_lookup()
+            except MissingMultibagFileError:
+                self._filelu = OrderedDict()
+
         for incl in include:
             # skip this include item if it explicitly excluded
             if incl in exclude:
-- 
2.43.0


From 1956781be5efaaee9489b7ea65bb098144aac5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:20 +0000
Subject: [PATCH 36/52] fix: report an unexpected payload file in a read-only
 bag

Validating a bag opened via open_bag() raised a KeyError rather than a
BagValidationError when the bag had a payload file missing from its manifests,
as payload_files() did not fill the table of file names that the inherited
code depends on.
---
 multibag/access/bagit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index d9a0874..904f9b6 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -289,7 +289,9 @@ class ReadOnlyBag(_bagit.Bag):
         payload_dir = self._root.subfspath("data")
 
         for f in payload_dir.fs.walk.files():
-            yield "data/"+f.lstrip('/')
+            f = "data/"+f.lstrip('/')
+            self.normalized_filesystem_names[normalize_unicode(f)] = f
+            yield f
 
     def save(self, processes=1, manifests=False):
         """
-- 
2.43.0


From 3e4fa2be45ff31345d25a2ce758285fcfdc2954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:34 +0000
Subject: [PATCH 37/52] fix: report a Payload-Oxum without a file count as a
 validation error

A value without a period raised a ValueError (for an attempt to unpack it) from
the validation of a bag opened via open_bag().
---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 904f9b6..4727e29 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -457,7 +457,7 @@ class ReadOnlyBag(_bagit.Bag):
             LOGGER.warning(_('bag-info.txt defines multiple Payload-Oxum values!'))
             oxum = oxum[0]
 
-        oxum_byte_count, oxum_file_count = oxum.split('.', 1)
+        oxum_byte_count, oxum_file_count = (oxum.split('.', 1) + [''])[:2]
 
         if not oxum_byte_count.isdigit() or not oxum_file_count.isdigit():
             raise BagError(_("Malformed Payload-Oxum value: %s") % oxum)
-- 
2.43.0


From 06289b2cb0c5e6ab54f68dc3b6a93cc216199862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:17 +0000
Subject: [PATCH 38/52] fix: keep a replicated file inside of the destination
 directory

A path to a file in the bag that goes through the bag's parent directory (e.g.
../bag/data/file) was accepted, and the copy was written beside the destination
directory.
---
 multibag/access/extended.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index aad9aff..a7bcb32 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -339,6 +339,9 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             raise ValueError("replicate: file/dir does not exist in this bag: " +
                              path)
         
+        # (so that, e.g., ../bag/data/file does not lead out of the destination)
+        path = os.path.relpath(self._canon_path(path),
+                               os.path.normpath(self._bagdir))
         destpath = os.path.join(destdir, path)
         if self.isdir(path):
             if not os.path.isdir(destpath):
-- 
2.43.0


From d8c5bf621171a1d27c335b2c8b1a1d08af7ea21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:14 +0000
Subject: [PATCH 39/52] fix: do not silently leave out directories that cannot
 be read

---
 multibag/access/extended.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index a7bcb32..728b5c7 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -423,7 +423,10 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if not os.path.isdir(root):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
-        for dir, subdirs, files in os.walk(root):
+        def onerror(ex):
+            raise ex
+
+        for dir, subdirs, files in os.walk(root, onerror=onerror):
             # make dir relative to bag's root directory
             if dir.startswith(self._bagdir):
                 dir = dir[len(self._bagdir):].lstrip(os.sep)
-- 
2.43.0


From dc165db16cf32c547101b1a0684b244543739c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 40/52] fix: do not loop forever when the names for test files
 run out

---
 multibag/testing/mkdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multibag/testing/mkdata.py b/multibag/testing/mkdata.py
index 2890faa..9c8988e 100644
--- a/multibag/testing/mkdata.py
+++ b/multibag/testing/mkdata.py
@@ -99,7 +99,10 @@ class DatasetMaker(object):
         ord = 10
         while not fp or os.path.exists(fp):
             if i < 1:
+                # the names are running out; choose from a wider range
                 ord *= 10
+                i = 10
+            i -= 1
             out = os.path.join(parent, namefunc(self._mkfid(ord)))
             fp = os.path.join(self.root, out)
 
-- 
2.43.0


From 5e92daea977adbbd978d41d560965d7bfe30ae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:20 +0000
Subject: [PATCH 41/52] fix: name an opened bag correctly when its path ends
 with a slash

open_bag() gave such a bag an empty name, which an amendment then recorded in
the member list and the file lookup.
---
 multibag/access/bagit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 4727e29..f0345b6 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -626,6 +626,7 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
+        location = location.rstrip("/") or location
         name = os.path.basename(location)
         parent = os.path.dirname(location)
         if not parent:
-- 
2.43.0


From 5ffaca880051f166cb9364b6c52f66d76d62b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 42/52] fix: name split bags after the source when its path
 ends with a slash

The default names had an empty base (e.g. "_1.mbag"), the same for all sources.
---
 multibag/split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index c200a07..7e60e5f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -485,7 +485,8 @@ class Splitter(object):
                   be split into multibags.  
         """
         if not namebasis:
-            namebasis = os.path.splitext(os.path.basename(bagpath))[0]
+            namebasis = os.path.basename(bagpath.rstrip("/"))
+            namebasis = os.path.splitext(namebasis)[0]
 
         out = self._create_plan(bagpath)
 
-- 
2.43.0


From 6a04985bce84f100d3c5f89913573106fdc851d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:03 +0000
Subject: [PATCH 43/52] fix: allow a bag given with a relative path to be
 converted or amended

Bag.save() works only with an absolute path: converting or amending a bag
given with a relative path failed half way.
---
 multibag/access/extended.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 728b5c7..0a86714 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -515,7 +515,9 @@ class ExtendedReadWritableBag(Bag, _ExtendedReadWritableMixin):
         self._extend(bagpath)
 
     def _extend(self, bagdir):
-        _ExtendedReadWritableMixin.__init__(self, bagdir)
+        # (Bag.save() only works with an absolute path)
+        self.path = os.path.abspath(bagdir)
+        _ExtendedReadWritableMixin.__init__(self, self.path)
 
 
 
-- 
2.43.0


From 91c896cdf8fe0178948446f9e7bbf6144de13d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:26 +0000
Subject: [PATCH 44/52] undo the change of multibag/testing/mkdata.py (recorded
 as a known finding instead)

---
 multibag/testing/mkdata.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/multibag/testing/mkdata.py b/multibag/testing/mkdata.py
index 9c8988e..2890faa 100644
--- a/multibag/testing/mkdata.py
+++ b/multibag/testing/mkdata.py
@@ -99,10 +99,7 @@ class DatasetMaker(object):
         ord = 10
         while not fp or os.path.exists(fp):
             if i < 1:
-                # the names are running out; choose from a wider range
                 ord *= 10
-                i = 10
-            i -= 1
             out = os.path.join(parent, namefunc(self._mkfid(ord)))
             fp = os.path.join(self.root, out)
 
-- 
2.43.0


From 4eefae40310d7025a74e7d9dccba98f62f450eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:38 +0000
Subject: [PATCH 45/52] fix: a manifest path that leaves the bag and leads back
 into it is unsafe

Validating such a bag failed with IllegalBackReference rather than with a
report that the bag is not valid.
---
 multibag/access/bagit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index f0345b6..adbe69e 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -540,6 +540,9 @@ class ReadOnlyBag(_bagit.Bag):
             return True
         if os.path.expandvars(path) != path:
             return True
+        if os.path.normpath(path).split(os.sep)[0] == os.pardir:
+            # (even if it leads back into the bag)
+            return True
 
         # possible problem: we're not resolving links.  (Shouldn't happen)
         real_path = os.path.normpath(os.path.join(self.path, path))
-- 
2.43.0


From b08e9a7833eb074cd88a92fd6950f7ed3f25e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:52 +0000
Subject: [PATCH 46/52] fix: applying a plan without any output bags is an
 error

The test for it looked at the method rather than at what it returns, so
that nothing was written and no error raised.
---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index 7e60e5f..d1808cd 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -225,7 +225,7 @@ class SplitPlan(object):
                 member bag and returns its output path.  StopIteration
                 is raised when there are no more output bags to write.
         """
-        if not self.manifests:
+        if not list(self.manifests()):
             if logger:
                 logger.warn("Requested plan execution, but no manifests are set")
             raise RuntimeError("No manifests set for output bags")
-- 
2.43.0


From 3fce39c43fe81b5938b72e115098eee1587c8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:21 +0000
Subject: [PATCH 47/52] fix: a bag given as "." or ".." is known by its real
 name

ReadOnlyBag and open_bag() took "." to be the bag's name, so that a compliant
head bag failed validation and output bags of a split were called
"._1.mbag"; ".." was not opened at all.
---
 multibag/access/bagit.py | 14 ++++++++++++--
 multibag/split.py        |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index adbe69e..144d0bc 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -126,6 +126,16 @@ def open_bin_file(path, mode='r', buffering=-1):
     else:
         return open(path, mode, buffering=buffering)
 
+def _named_dir(dirpath):
+    """
+    return a path to the given directory that ends with the directory's name
+    (which, e.g., "." does not).
+    """
+    dirpath = dirpath.rstrip("/") or dirpath
+    if os.path.basename(dirpath) in ("", os.curdir, os.pardir):
+        dirpath = os.path.abspath(dirpath)
+    return dirpath
+
 # This is based on bagit.Bag v1.6.3
 # 
 class ReadOnlyBag(_bagit.Bag):
@@ -154,7 +164,7 @@ class ReadOnlyBag(_bagit.Bag):
         if not bagpath:
             raise BagError(_("path to bag root directory not provided"))
         if not isinstance(bagpath, Path):
-            bagpath = bagpath.rstrip("/")
+            bagpath = _named_dir(bagpath)
             parent = os.path.dirname(bagpath) or "."
             bagname = os.path.basename(bagpath)
             if not location:
@@ -629,7 +639,7 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
-        location = location.rstrip("/") or location
+        location = _named_dir(location)
         name = os.path.basename(location)
         parent = os.path.dirname(location)
         if not parent:
diff --git a/multibag/split.py b/multibag/split.py
index d1808cd..1cffec3 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -485,7 +485,7 @@ class Splitter(object):
                   be split into multibags.  
         """
         if not namebasis:
-            namebasis = os.path.basename(bagpath.rstrip("/"))
+            namebasis = os.path.basename(os.path.abspath(bagpath))
             namebasis = os.path.splitext(namebasis)[0]
 
         out = self._create_plan(bagpath)
-- 
2.43.0


From 78371db0689a108da4330396132a0d0a58adbcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:42 +0000
Subject: [PATCH 48/52] fix: amending a bag with itself is refused

It removed the head bag's member-bags.tsv (to start a new one) before failing
to read it.
---
 multibag/amend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multibag/amend.py b/multibag/amend.py
index 5c04357..d083544 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -211,6 +211,10 @@ class Amender(object):
         if self._oldhead.is_head_multibag():
             as_headbag(self._oldhead)
 
+        if os.path.isdir(amendment) and os.path.isdir(self._oldhead.path) and \
+           os.path.samefile(amendment, self._oldhead.path):
+            raise ValueError("Amender(): a bag cannot be amended by itself: "+amendment)
+
         self._newheaddir = amendment
         self._newhead = HeadBag(self._newheaddir)
 
-- 
2.43.0


From cff115d2e2d7b1006d0c596b080b4c0ce2c33356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 49/52] fix: restoring with a head bag that lists no members is
 an error

When the member list was missing (or empty), only the head bag's own files
were restored, without notice, if the head bag was a directory.
---
 multibag/restore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multibag/restore.py b/multibag/restore.py
index face404..a79a9c9 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -329,6 +329,8 @@ class BagRestorer(object):
         """
         skip = self._head.deleted_paths()
         members = list(reversed(self._head.member_bags()))
+        if not members:
+            raise MultibagError("Head bag does not list any member bags: "+self._head.name)
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
-- 
2.43.0


From ab380ba2985b3a3ec91152825fe6c7b76b61358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:55 +0000
Subject: [PATCH 50/52] fix: lookup lines with an empty path or bag name fail
 the format test

Such lines (e.g. "data/file<TAB>") cannot be read, but were accepted by the head
bag validator.
---
 multibag/validate/headbag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 3af29d4..60a0539 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -595,7 +595,7 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     paths.add(parts[0])
-                if len(parts) != 2:
+                if len(parts) != 2 or not all(parts):
                     badfmt.append(i)
 
                 if len(parts) > 1 and parts[1] == self.bag._name and \
-- 
2.43.0


From efd47ed452c2a93bd7c6b1d33c12c8f56c21f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:39 +0000
Subject: [PATCH 51/52] fix: read the text files of a bag opened for reading
 only without a byte-order mark

The text files of a bag opened for update are read as utf-8-sig; in a bag
opened for reading only (e.g. a serialized one), the byte-order mark at the start
of a multibag tag file was taken for part of the first bag name or path.
---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 144d0bc..6c716f0 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -269,7 +269,7 @@ class ReadOnlyBag(_bagit.Bag):
         """
         return self._root.fs.isdir(path)
 
-    def open_text_file(self, path, encoding='utf-8', errors='strict',
+    def open_text_file(self, path, encoding='utf-8-sig', errors='strict',
                        buffering=-1):
         """
         open the file with the given path for reading and return a file 
-- 
2.43.0


From f5d2b473fc66e298c460a00f73cd1c065b78095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:05 +0000
Subject: [PATCH 52/52] fix: restore an aggregation in which a file has
 replaced a directory

When the files of a directory were deleted and a later member provides a file by
the directory's name, restoring failed with NotADirectoryError as soon as the
directory had a subdirectory in an earlier member.
---
 multibag/restore.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multibag/restore.py b/multibag/restore.py
index a79a9c9..d6a8083 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -188,6 +188,9 @@ class BagRestorer(object):
             if root in skip or len([f for f in skip if root.startswith(f+'/')]) > 0:
                 # if this root directory has been marked as deleted, skip it
                 continue
+            if not os.path.isdir(os.path.join(self._destdir, root)):
+                # a later member has replaced this directory with a file
+                continue
 
             rmtime = os.stat(os.path.join(self._destdir, root)).st_mtime
 
-- 
2.43.0

