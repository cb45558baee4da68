From 008a426b234a2be60d307c0c3d3ad1c787d6ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 01/69] fix: return None for the latest patch of an empty
 storage

Storage.patch(None) let StopIteration escape instead of reporting that no
patch was found.
---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 15506ff..ced0e2a 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -313,7 +313,7 @@ class Storage(metaclass=StorageRegister):
 
         it = self.patches(stored=stored)
         if version is None:
-            return next(it)
+            return next(it, None)
         for p in it:
             if p.version == version:
                 return p
-- 
2.43.0


From b80250ccdf1c5ffbf8554dca86b6623c613510af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 02/69] fix: require --from, instead of refusing it, when
 exporting without a patch

The condition was inverted: "cdtb export --from X.Y" was always rejected and
"cdtb export" failed on PatchVersion(None).
---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index b35c851..8ec5f64 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -270,7 +270,7 @@ def command_export(parser, args):
         # multiple patches (update only)
         if args.previous:
             parser.error("patch version required with --previous or --full")
-        if args.first:
+        if not args.first:
             parser.error("--from is required when no patch is provided")
         exporters = CdragonRawPatchExporter.from_directory(storage, args.output, PatchVersion(args.first), symlinks=symlinks)
         for exporter in exporters:
-- 
2.43.0


From 86d4cdac986107e31849825c7bbde8ebe599d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 03/69] fix: report that the previous patch cannot be guessed
 when there is none

Exporting the oldest stored patch let StopIteration escape.
---
 cdtb/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 8ec5f64..b7417d6 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -290,12 +290,13 @@ def command_export(parser, args):
             if previous_patch is None:
                 parser.error(f"previous patch not found: {patch.version}")
         else:
+            previous_patch = None
             it = storage.patches(stored=True)
             for v in it:
                 if v.version == patch.version:
-                    previous_patch = next(it)
+                    previous_patch = next(it, None)
                     break
-            else:
+            if previous_patch is None:
                 parser.error("cannot guess previous patch")
 
         exporter = CdragonRawPatchExporter(os.path.join(args.output, str(patch.version)), patch, previous_patch, symlinks=symlinks)
-- 
2.43.0


From 4d5ba0cead3adf766a43f93eb18844c1d29e71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 04/69] fix: guess hashes from game= and client= components

A single patch element has no "elements" attribute.
---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index b7417d6..83ab4a7 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -200,7 +200,7 @@ def command_hashes_guess(parser, args):
         if isinstance(component, Patch):
             elements = component.elements
         else:
-            elements = [component.elements]
+            elements = [component]
         for elem in elements:
             wads.extend(Wad(p) for p in elem.fspaths() if p.endswith('.wad') or p.endswith('.wad.client'))
 
-- 
2.43.0


From 23e40b94b89e9786a52c8ffc21fd67429b3b6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 05/69] fix: ignore export subdirectories named by a single
 number

PatchVersion("9") raises AssertionError, which aborted the whole update.
---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index e8422f0..425b978 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -516,7 +516,7 @@ class CdragonRawPatchExporter:
                 continue
             try:
                 version = PatchVersion(path)
-            except (ValueError, TypeError):
+            except (ValueError, TypeError, AssertionError):
                 continue
             versions.add(version)
 
-- 
2.43.0


From 7dd10cbbbeb940ce66c4d0eee3e914b765e018ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 06/69] fix: parse release manifests given as an open file

PatcherManifest(f) referred to an undefined variable.
---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24e3fc4..beeaac4 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -85,7 +85,7 @@ class PatcherManifest:
                 with open(path_or_f, "rb") as f:
                     self.parse_rman(f)
             else:
-                self.parse_rman(f)
+                self.parse_rman(path_or_f)
 
     def filter_files(self, langs=True) -> List[PatcherFile]:
         """Filter files from the manifest with provided filters"""
-- 
2.43.0


From e3d6e4499ed5b08bd66cd517301bceb1e47665e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 07/69] fix: decode manifest entries of empty files

A size of 0 or an empty list of chunks may be omitted from the entry. The
size was then None, so that the file never counted as extracted, and a missing
list of chunks raised TypeError.
---
 cdtb/patcher.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index beeaac4..329c007 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -217,11 +217,14 @@ class PatcherManifest:
         else:
             flag_ids = None
 
-        parser.seek(fields['chunks'])
-        chunk_count, = parser.unpack('<L')  # _ == 0
-        chunk_ids = list(parser.unpack(f'<{chunk_count}Q'))
+        if fields['chunks'] is None:
+            chunk_ids = []
+        else:
+            parser.seek(fields['chunks'])
+            chunk_count, = parser.unpack('<L')  # _ == 0
+            chunk_ids = list(parser.unpack(f'<{chunk_count}Q'))
 
-        return (fields['name'], fields['link'], flag_ids, fields['directory_id'], fields['file_size'], chunk_ids)
+        return (fields['name'], fields['link'], flag_ids, fields['directory_id'], fields['file_size'] or 0, chunk_ids)
 
     @classmethod
     def _parse_directory(cls, parser):
-- 
2.43.0


From 8d192279205a36dc9e8018e72b0990ece575a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 08/69] fix: honour --patchline for the default storage

The option was only looked at when a storage location was given.
---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 83ab4a7..9a05dfd 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -62,11 +62,11 @@ def parse_storage_args(parser, args) -> Storage:
         conf = storage_conf_from_path(path)
         if conf is None:
             parser.error(f"cannot retrieve storage configuration from '{path}'")
-        if args.patchline is not None:
-            if conf['type'] == 'patcher':
-                conf['patchline'] = args.patchline
-            else:
-                parser.error("--patchline is only supported for 'patcher' storage")
+    if args.patchline is not None:
+        if conf['type'] == 'patcher':
+            conf['patchline'] = args.patchline
+        else:
+            parser.error("--patchline is only supported for 'patcher' storage")
     return Storage.from_conf(conf)
 
 
-- 
2.43.0


From 4c1bb2d869a120f67beff8c72e6392ea93261a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 09/69] fix: support lists of languages in patcher storages

PatchElement documents that "langs" can be a list, and this is what --lang
gives, but any list raised AttributeError.
---
 cdtb/patcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 329c007..a1dd410 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -69,8 +69,11 @@ class PatcherFile:
         elif langs is True:
             return lambda f: True
         else:
-            lang = langs.lower()  # compare lowercased
-            return lambda f: f.flags is not None and any(f.lower() == lang for f in f.flags)
+            # compare lowercased
+            if isinstance(langs, str):
+                langs = [langs]
+            langs = {lang.lower() for lang in langs}
+            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)
 
 
 class PatcherManifest:
-- 
2.43.0


From 45de56e5169363d91a2dc617a4be17283b631844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 10/69] fix: do not list patcher links, which are never
 extracted

Paths of links were listed as files of the element, but extract() skips them:
exporting such a patch failed when opening them.
---
 cdtb/patcher.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index a1dd410..a4ced51 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -653,12 +653,16 @@ class PatcherPatchElement(PatchElement):
         self.elem.download_bundles(langs=langs)
         self.elem.extract(langs=langs)
 
+    def _files(self, langs):
+        # links are not extracted
+        return (f for f in self.elem.manif.filter_files(langs=langs) if not f.link)
+
     def fspaths(self, langs=True):
-        return (self.elem.extract_path(f) for f in self.elem.manif.filter_files(langs=langs))
+        return (self.elem.extract_path(f) for f in self._files(langs))
 
     def relpaths(self, langs=True):
-        return (f.name.lower() for f in self.elem.manif.filter_files(langs=langs))
+        return (f.name.lower() for f in self._files(langs))
 
     def paths(self, langs=True):
-        for f in self.elem.manif.filter_files(langs=langs):
+        for f in self._files(langs):
             yield (self.elem.extract_path(f), f.name.lower())
-- 
2.43.0


From 8b95c754795e85bd59401a114c848f12b066a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 11/69] fix: rewrite incomplete extracted files when symlinks
 are disabled

A file with an unexpected size is not considered as extracted, but it was then
kept as is because it existed. "overwrite" had no effect either.
---
 cdtb/patcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index a4ced51..b1f8891 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -457,7 +457,8 @@ class PatcherStorage(Storage):
         else:
             real_output = output
 
-        if not os.path.isfile(real_output):
+        # without symlinks, the caller already checked that the file must be written
+        if not self.use_extract_symlinks or not os.path.isfile(real_output):
             logger.debug(f"extract {file.name} to {real_output}")
             with write_file_or_remove(real_output) as f:
                 for chunk in file.chunks:
-- 
2.43.0


From fa61b4d1c0896571b77d7a479bfbaab7d349cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 12/69] fix: never overwrite or misplace a release when
 checking for updates

Two releases found in the same second were stored in the same directory, the
second one replacing the first one. After a clock change, a new release could
be listed as older than the previous one.
---
 cdtb/patcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index b1f8891..ef40fc5 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -379,6 +379,9 @@ class PatcherStorage(Storage):
 
         # Create the release information file and update `latest.timestamp`
         timestamp = int(time.time())
+        if latest_timestamp is not None:
+            # never overwrite a release, keep them ordered (even if the clock is set back)
+            timestamp = max(timestamp, latest_timestamp + 1)
         base = self.base_release_path()
         with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
             json.dump(release_info, f)
-- 
2.43.0


From 1c4f62dc7a7ad44fbf13f0b6cd9874f4b3a556a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 13/69] fix: accept language codes when selecting RADS projects

---
 cdtb/rads.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 3cdce6d..32834f6 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -289,10 +289,10 @@ class RadsSolutionVersion:
             return dependencies[None]
         elif langs is True:
             return list({pv for pvs in dependencies.values() for pv in pvs})
-        elif isinstance(langs, Language):
-            return dependencies[langs]
-        else:
-            return list({pv for lang in langs for pv in dependencies[lang]})
+        elif isinstance(langs, (Language, str)):
+            langs = [langs]
+        # languages can also be given by code
+        return list({pv for lang in langs for pv in dependencies[Language(lang)]})
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From 7546f00027ba5964b56f6271e8c79908d43ef509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 14/69] fix: extract empty RADS files that share the offset of
 another file

---
 cdtb/rads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 32834f6..0ee9f19 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -512,7 +512,8 @@ class RadsProjectVersion:
         for package, files in files_by_package.items():
             with self.project.storage.stream(f"{package_files_path}/{package}") as reader:
                 # sort files by offset to extract while streaming the bin file
-                for pkgfile in sorted(files, key=lambda f: f.offset):
+                # empty files come before the file stored at the same offset
+                for pkgfile in sorted(files, key=lambda f: (f.offset, f.size)):
                     logger.debug(f"extracting {pkgfile.path}")
                     reader.skip_to(pkgfile.offset)
                     fspath = self.project.storage.fspath(pkgfile.extract_path)
-- 
2.43.0


From 491703835e6abd7a4cb3db4ac6ee10291c9b8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 15/69] fix: put written files in place only when they are
 complete

A process killed while writing left a truncated file, which was then
taken for a complete one.
---
 cdtb/tools.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index c45fdad..38f49bd 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -1,4 +1,5 @@
 import glob
+import hashlib
 import os
 import re
 import shutil
@@ -23,18 +24,26 @@ except ImportError:
 def write_file_or_remove(path, binary=True):
     """Open a file for writing, create its parent directory if needed
 
-    If the writing fails, the file is removed.
+    The file is written under a temporary name and put in place when complete,
+    a killed process does not leave a partial file. If the writing fails, the
+    file is removed.
     """
+    dirname, basename = os.path.split(path)
+    # always use the same name, don't accumulate temporary files
+    tmp_name = hashlib.sha1(os.fsencode(basename)).hexdigest()[:16]
+    tmp_path = os.path.join(dirname, f".{tmp_name}.tmp")
     try:
-        os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, 'wb' if binary else 'w') as f:
+        os.makedirs(dirname, exist_ok=True)
+        with open(tmp_path, 'wb' if binary else 'w') as f:
             yield f
+        os.replace(tmp_path, path)
     except:
         # remove partially written file
-        try:
-            os.remove(path)
-        except OSError:
-            pass
+        for p in (tmp_path, path):
+            try:
+                os.remove(p)
+            except (OSError, ValueError):
+                pass
         raise
 
 @contextmanager
-- 
2.43.0


From 8bd0095ef7dcff7668b343395b66ee12dad1baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 16/69] fix: write cached patch versions atomically

A truncated cache made the release disappear from listings.
---
 cdtb/patcher.py | 2 +-
 cdtb/rads.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index ef40fc5..5568bd8 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -613,7 +613,7 @@ class PatcherReleaseElement:
             if version is None:
                 logger.warning(f"failed to retrieve patch version of {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
diff --git a/cdtb/rads.py b/cdtb/rads.py
index 0ee9f19..cdac636 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -327,7 +327,7 @@ class RadsSolutionVersion:
             if version is None:
                 logger.warning(f"failed to retrieve patch version for {self}")
             else:
-                with open(cache, 'w') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
-- 
2.43.0


From 515c61fd72c93db149829db04d9f1ba0fb05bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 17/69] fix: resume an interrupted check for updates

The release written by an interrupted check was not recorded as the
latest one, and was recorded a second time by the next check.
---
 cdtb/patcher.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 5568bd8..dd08ae5 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -369,24 +369,23 @@ class PatcherStorage(Storage):
             'game_patch_url': self.get_latest_game_manifest(),
         }
 
-        latest_timestamp = self.latest_timestamp()
-        if latest_timestamp is None:
-            latest_release = None
-        else:
-            latest_release = PatcherRelease(self, latest_timestamp)
-        if latest_release and release_info == latest_release.data:
-            return  # already up to date
-
-        # Create the release information file and update `latest.timestamp`
-        timestamp = int(time.time())
-        if latest_timestamp is not None:
-            # never overwrite a release, keep them ordered (even if the clock is set back)
-            timestamp = max(timestamp, latest_timestamp + 1)
         base = self.base_release_path()
-        with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
-            json.dump(release_info, f)
-        with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
-            print(f"{timestamp}", file=f)
+        latest_release = next(self.iter_releases(), None)
+        if latest_release is not None and release_info == latest_release.data:
+            timestamp = latest_release.version  # already up to date
+        else:
+            # Create the release information file
+            timestamp = int(time.time())
+            if latest_release is not None:
+                # never overwrite a release, keep them ordered (even if the clock is set back)
+                timestamp = max(timestamp, latest_release.version + 1)
+            with write_file_or_remove(f"{base}/{timestamp}/release.json", binary=False) as f:
+                json.dump(release_info, f)
+
+        # Update `latest.timestamp` (can be late if a previous update has been interrupted)
+        if self.latest_timestamp() != timestamp:
+            with write_file_or_remove(f"{base}/latest.timestamp", binary=False) as f:
+                print(f"{timestamp}", file=f)
 
     def get_latest_client_manifest(self):
         url_or_path = self.clientconfig_data
-- 
2.43.0


From e0b531a5262838ee864d404f6caefe352091df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 18/69] fix: skip unreadable archive entries instead of
 aborting or misreading them

---
 cdtb/wad.py | 64 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 4c49e78..aa0a506 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -4,6 +4,7 @@ import struct
 import gzip
 import json
 import logging
+import zlib
 from xxhash import xxh3_64_intdigest
 
 from .hashes import default_hashfile
@@ -22,7 +23,11 @@ logger = logging.getLogger(__name__)
 _hash_to_guessed_extensions = {}
 
 
-class MalformedSubchunkError(Exception):
+class MalformedEntryError(ValueError):
+    """Entry data is invalid, truncated, or of an unsupported type"""
+
+
+class MalformedSubchunkError(MalformedEntryError):
     """Subchunk data is invalid or doesn't match the provided subchunktoc"""
 
     def __init__(self, data):
@@ -92,24 +97,38 @@ class WadFileHeader:
         f.seek(self.offset)
         # assume files are small enough to fit in memory
         data = f.read(self.compressed_size)
+        if self.type != 4 and len(data) < self.compressed_size:
+            raise MalformedEntryError("truncated data")
         if self.type == 0:
             return data
         elif self.type == 1:
-            return gzip.decompress(data)
+            try:
+                return gzip.decompress(data)
+            except (OSError, EOFError, zlib.error) as e:
+                raise MalformedEntryError(f"invalid gzip data: {e}")
         elif self.type == 2:
-            n, = struct.unpack('<L', data[:4])
-            target = data[4:4+n].rstrip(b'\0').decode('utf-8')
+            try:
+                n, = struct.unpack('<L', data[:4])
+                target = data[4:4+n].rstrip(b'\0').decode('utf-8')
+            except (struct.error, UnicodeDecodeError) as e:
+                raise MalformedEntryError(f"invalid file redirection: {e}")
             logger.debug(f"file redirection: {target}")
             return None
         elif self.type == 3:
-            return zstd_decompress(data)
+            try:
+                return zstd_decompress(data)
+            except Exception as e:
+                raise MalformedEntryError(f"invalid zstd data: {e}")
         elif self.type == 4:
             # Data is split into individual subchunks that may be zstd compressed
             if subchunk_toc is not None:
                 chunks_data = []
                 offset = 0
                 for index in range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count):
-                    compressed_size, uncompressed_size, subchunk_hash = struct.unpack('<IIQ', subchunk_toc[16*index:16*(index+1)])
+                    subchunk_entry = subchunk_toc[16*index:16*(index+1)]
+                    if len(subchunk_entry) < 16:
+                        raise MalformedSubchunkError(data)
+                    compressed_size, uncompressed_size, subchunk_hash = struct.unpack('<IIQ', subchunk_entry)
                     # ensure wad data matches with the subchunktoc data
                     subchunk_data = data[offset:offset+compressed_size]
                     if len(data) < offset + compressed_size or xxh3_64_intdigest(subchunk_data) != subchunk_hash:
@@ -118,16 +137,25 @@ class WadFileHeader:
                         # assume data is uncompressed
                         chunks_data.append(subchunk_data)
                     else:
-                        chunks_data.append(zstd_decompress(subchunk_data))
+                        try:
+                            chunks_data.append(zstd_decompress(subchunk_data))
+                        except Exception:
+                            raise MalformedSubchunkError(data)
                     offset += compressed_size
-                return b"".join(chunks_data)
+                uncompressed_data = b"".join(chunks_data)
+                if len(uncompressed_data) != self.size:
+                    raise MalformedSubchunkError(data)
+                return uncompressed_data
             else:
                 # No subchunk TOC, try to decompress
                 try:
-                    return zstd_decompress(data)
+                    uncompressed_data = zstd_decompress(data)
                 except Exception:
                     raise MalformedSubchunkError(data)
-        raise ValueError(f"unsupported file type: {self.type}")
+                if len(uncompressed_data) != self.size:
+                    raise MalformedSubchunkError(data)
+                return uncompressed_data
+        raise MalformedEntryError(f"unsupported file type: {self.type}")
 
     def extract(self, fwad, output_path, subchunk_toc=None):
         """Read data, convert it if needed, and write it to a file
@@ -138,8 +166,8 @@ class WadFileHeader:
 
         try:
             data = self.read_data(fwad, subchunk_toc)
-        except MalformedSubchunkError:
-            logger.warning(f"failed to read subchunked wad entry {self.path}")
+        except MalformedEntryError:
+            logger.warning(f"failed to read wad entry {self.path}")
             return
         if data is None:
             return
@@ -241,17 +269,15 @@ class Wad:
     def load_subchunk_toc(self):
         """Find subchunk TOC if available and parse it"""
 
+        self.subchunk_toc = None
         for wadfile in self.files:
             if wadfile.path is None:
                 continue
             if not wadfile.path.endswith(".subchunktoc"):
                 continue
             with open(self.path, 'rb') as fwad:
-                self.subchunk_toc = wadfile.read_data(fwad)
+                self.subchunk_toc = self.read_file_data(fwad, wadfile)
             break
-        else:
-            # Not found
-            self.subchunk_toc = None
 
     def guess_extensions(self):
         # avoid opening the file if not needed
@@ -330,11 +356,11 @@ class Wad:
         """Retrieve (uncompressed) data from WAD file object
 
         Similar to `WadFileHeader.read_data()` but use wad's subchunk information if available.
-        Subchunk errors are logged and None is returned if one happens.
+        Errors in the data are logged and None is returned if one happens.
         """
 
         try:
             return wadfile.read_data(fwad, self.subchunk_toc)
-        except MalformedSubchunkError:
-            logger.warning("failed to read subchunked wad entry " + (wadfile.path if wadfile.path is not None else f"{wadfile.path_hash:016x}"))
+        except MalformedEntryError:
+            logger.warning("failed to read wad entry " + (wadfile.path if wadfile.path is not None else f"{wadfile.path_hash:016x}"))
             return None
-- 
2.43.0


From 3dbf8b2eebad2e876885535f802cc42e0fb37a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 19/69] fix: never extract archive entries outside of the
 output directory

---
 cdtb/export.py | 4 ++++
 cdtb/tools.py  | 5 +++++
 cdtb/wad.py    | 9 ++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 425b978..7575215 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -17,6 +17,7 @@ from .hashes import hashfile_game
 from .tools import (
     BinaryParser,
     convert_cdragon_path,
+    is_safe_path,
     json_dump,
     write_file_or_remove,
     write_dir_or_remove,
@@ -140,6 +141,9 @@ class Exporter:
         filtering, etc.
         """
 
+        if not is_safe_path(export_path):
+            logger.warning(f"ignore unsafe path: {export_path}")
+            return
         if source_path.endswith('.wad') or source_path.endswith('.wad.client'):
             wad = Wad(source_path)
             # remove file redirections
diff --git a/cdtb/tools.py b/cdtb/tools.py
index 38f49bd..9ba75d7 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -20,6 +20,11 @@ except ImportError:
     json_dumps = json.dumps
 
 
+def is_safe_path(path):
+    """Return True if a relative path cannot lead outside of its base directory"""
+    path = path.replace(os.sep, '/')
+    return not path.startswith('/') and not os.path.splitdrive(path)[0] and '..' not in path.split('/')
+
 @contextmanager
 def write_file_or_remove(path, binary=True):
     """Open a file for writing, create its parent directory if needed
diff --git a/cdtb/wad.py b/cdtb/wad.py
index aa0a506..7b09cae 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -10,6 +10,7 @@ from xxhash import xxh3_64_intdigest
 from .hashes import default_hashfile
 from .tools import (
     BinaryParser,
+    is_safe_path,
     write_file_or_remove,
     zstd_decompress,
 )
@@ -310,9 +311,15 @@ class Wad:
                     wadfile.path = f"{path}/{wadfile.path_hash:016x}"
 
     def sanitize_paths(self):
-        """Sanitize paths for extract purposes; for example truncating files whose basename has a length of at least 250"""
+        """Sanitize paths for extract purposes; for example truncating files whose basename has a length of at least 250
+
+        Paths that lead outside of the extract directory are handled as unknown.
+        """
 
         for wadfile in self.files:
+            if wadfile.path and not is_safe_path(wadfile.path):
+                logger.warning(f"ignore unsafe path: {wadfile.path}")
+                wadfile.path = None
             if wadfile.path:
                 ext = os.path.splitext(wadfile.path)[1]
                 if not ext:
-- 
2.43.0


From 331fb222aa6341c9dac0dac47fe96e9d3f7ece66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 20/69] fix: write mesh parts inside of the output directory,
 whatever their name

---
 cdtb/__main__.py | 6 +++---
 cdtb/export.py   | 2 +-
 cdtb/sknfile.py  | 6 ++++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 9a05dfd..ce4eabb 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -26,7 +26,7 @@ from cdtb.hashes import (
     default_hash_dir,
     update_default_hashfile,
 )
-from cdtb.tools import json_dump
+from cdtb.tools import json_dump, write_file_or_remove
 
 
 def parse_component_arg(parser, storage: Storage, component: str):
@@ -312,8 +312,8 @@ def command_skn_extract(parser, args):
         args.output = os.path.splitext(args.skn)[0]
     os.makedirs(args.output, exist_ok=True)
     for entry in sknfile.entries:
-        name = os.path.join(args.output, entry["name"] + ".obj")
-        with open(name, "w") as f:
+        name = os.path.join(args.output, sknfile.obj_filename(entry))
+        with write_file_or_remove(name, False) as f:
             f.write(sknfile.to_obj(entry))
 
 
diff --git a/cdtb/export.py b/cdtb/export.py
index 7575215..b738240 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -753,7 +753,7 @@ class SknConverter(FileConverter):
         with write_dir_or_remove(obj_output_path):
             sknfile = SknFile(output_path)
             for entry in sknfile.entries:
-                name = os.path.join(obj_output_path, entry["name"] + ".obj")
+                name = os.path.join(obj_output_path, sknfile.obj_filename(entry))
                 with open(name, "w") as f:
                     f.write(sknfile.to_obj(entry))
 
diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 18b9f4f..c69796c 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -1,3 +1,4 @@
+import re
 from .tools import BinaryParser
 
 
@@ -71,6 +72,11 @@ class SknFile:
             "tangent": f.unpack("<ffff") if hasattr(self, "vertex_type") and self.vertex_type == 2 else None
         }
 
+    @staticmethod
+    def obj_filename(entry) -> str:
+        """File name of an entry, in the output directory"""
+        return re.sub(r'[/\\]', '_', entry["name"]) + ".obj"
+
     def to_obj(self, entry) -> str:
         content = ""
         for vert in entry["vertices"]:
-- 
2.43.0


From 98a7034694d12b8eec8b1259074ef1be99e0022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 21/69] fix: clean empty directories inside of the output
 directory only

Emptied parents were removed up to parents of the output directory itself,
and directories already empty prevented the creation of symlinks.
---
 cdtb/export.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index b738240..160ac5b 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -231,7 +231,6 @@ class Exporter:
         """
 
         # collect files to remove
-        # note: empty directories are not removed
         trees_to_remove = []
         files_to_remove = []
         for path in self.walk_output_dir(kept_files):
@@ -246,21 +245,20 @@ class Exporter:
                     else:
                         files_to_remove.append(full_path)
 
-        dirs_to_remove = set()
         for path in files_to_remove:
             logger.info(f"remove extra file or symlink: {path}")
             os.remove(path)
-            dirs_to_remove.add(os.path.dirname(path))
         for path in trees_to_remove:
             logger.info(f"remove extra directory: {path}")
             shutil.rmtree(path)
-            dirs_to_remove.add(os.path.dirname(path))
 
-        for path in dirs_to_remove:
-            try:
-                os.removedirs(path)
-            except OSError:
-                pass
+        # remove empty directories, they could be at the location of a symlink
+        for base, dirs, _ in os.walk(self.output, topdown=False):
+            for name in dirs:
+                try:
+                    os.rmdir(os.path.join(base, name))
+                except OSError:
+                    pass  # not empty, or a symlink
 
 
     def _get_converter(self, path):
-- 
2.43.0


From 4f5d2a9d34e29aec96efe334cbe54907ed04d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 22/69] fix: remove the list of links of a previous export, and
 write lists atomically

---
 cdtb/export.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 160ac5b..16ce2dd 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -367,26 +367,26 @@ class CdragonRawPatchExporter:
             self._create_symlinks(symlinked_paths)
 
         # write additional txt files
-        os.makedirs(os.path.join(self.output, "cdragon"), exist_ok=True)
-
-        if symlinked_paths:
-            with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n') as f:
-                for link in sorted(symlinked_paths):
-                    print(link, file=f)
-
-        with open(os.path.join(self.output, "cdragon/files.unknown.txt"), 'w', newline='\n') as f:
-            for h in unknown_hashes:
-                print(f"{h:016x}", file=f)
-
-        with open(os.path.join(self.output, "cdragon/files.exported.txt"), 'w', newline='\n') as f:
-            for path in sorted(new_paths):
-                print(path, file=f)
+        self._write_list("files.links.txt", sorted(symlinked_paths) if symlinked_paths else None)
+        self._write_list("files.unknown.txt", (f"{h:016x}" for h in unknown_hashes))
+        self._write_list("files.exported.txt", sorted(new_paths))
 
         logger.info("export TFT data files")
         self.export_tft_data()
         logger.info("export Arena data files")
         self.export_arena_data()
 
+    def _write_list(self, name, lines):
+        """Write a list of generated "cdragon" files, remove it if there is none"""
+        path = os.path.join(self.output, "cdragon", name)
+        if lines is None:
+            if os.path.lexists(path):
+                os.remove(path)
+            return
+        with write_file_or_remove(path) as f:
+            for line in lines:
+                f.write(f"{line}\n".encode("utf-8"))
+
     def export_tft_data(self):
         if self.patch.version != 'main' and self.patch.version < PatchVersion('9.14'):
             return  # no supported TFT data before 9.14
-- 
2.43.0


From 22dcef10cc7906cb4ac0c8556eb25ff1cb4e5c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 23/69] fix: update symlinks that point to an outdated location

---
 cdtb/export.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 16ce2dd..4c973bb 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -484,13 +484,15 @@ class CdragonRawPatchExporter:
         logger.info(f"creating symlinks for patch {self.patch.version}")
         for link in symlinks:
             dst = os.path.join(dst_output, link)
-            if os.path.lexists(dst):
-                if not os.path.islink(dst):
-                    raise RuntimeError(f"symlink target already exists: {dst}")
-                continue  # already set
             dst_dir = os.path.dirname(dst)
             os.makedirs(dst_dir, exist_ok=True)
             src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
+            if os.path.lexists(dst):
+                if not os.path.islink(dst):
+                    raise RuntimeError(f"symlink target already exists: {dst}")
+                if os.readlink(dst) == src:
+                    continue  # already set
+                os.remove(dst)  # link to another export
             logger.info(f"create symlink {dst}")
             try:
                 os.symlink(src, dst)
-- 
2.43.0


From 34218977aa95e4892b6a4ac8defaf7d68ef45fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 24/69] fix: compare files of two patches by exported path, and
 only if they have a checksum

Language files moved by 14.4 were considered as unchanged, and so were
changed files of WAD v1, without checksums.
---
 cdtb/export.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 4c973bb..2b514f2 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -195,19 +195,22 @@ class Exporter:
             self_wad = self.wads.get(path)
             if self_wad is None:
                 continue  # not exported
-            if self_wad.path == other_wad.path:
-                # same path: WADs are identical
-                logger.debug(f"filter identical WAD file: {path}")
+            # If WAD paths are identical, files are the same
+            # Otherwise, compare the sha256 hashes to find the common files (WAD v1 don't have them)
+            # Files exported to a different path are not common, even if they have the same content
+            logger.debug(f"filter common files of WAD file: {path}")
+            same_wad = self_wad.path == other_wad.path
+            other_files = {(wf.path_hash, wf.path): wf.sha256 for wf in other_wad.files}
+
+            def is_common(wf):
+                if (wf.path_hash, wf.path) not in other_files:
+                    return False
+                return same_wad or (wf.sha256 is not None and wf.sha256 == other_files[wf.path_hash, wf.path])
+
+            # change the files from the wad so it only extract these
+            self_wad.files = [wf for wf in self_wad.files if not is_common(wf)]
+            if not self_wad.files:
                 del self.wads[path]
-            else:
-                # compare the sha256 hashes to find the common files
-                # don't resolve hashes: we just need the sha256
-                logger.debug(f"filter modified WAD file: {path}")
-                other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
-                # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]
-                if not self_wad.files:
-                    del self.wads[path]
 
     def export(self, overwrite=True):
         """Export files to the output
-- 
2.43.0


From 15c4b2ad5e7e9808ae901a876f17374572978ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 25/69] fix: handle all damaged files as conversion errors, and
 keep no outdated conversion

Errors other than ValueError in BIN files and OSError in images interrupted
the whole export, errors when writing images (full disk) were ignored, and
previously converted files could remain in place of the damaged ones.
---
 cdtb/export.py | 87 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 2b514f2..d029dfd 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -18,7 +18,6 @@ from .tools import (
     BinaryParser,
     convert_cdragon_path,
     is_safe_path,
-    json_dump,
     write_file_or_remove,
     write_dir_or_remove,
     json_dumps
@@ -299,6 +298,8 @@ class Exporter:
 
                 data = wad.read_file_data(fwad, wadfile)
                 if data is None:
+                    # don't keep previous versions of the file
+                    converter.remove_converted(self.output, wadfile.path)
                     continue
 
                 try:
@@ -573,6 +574,15 @@ class FileConverter:
         """Return True if all converted paths exist"""
         return all(os.path.lexists(os.path.join(output, p)) for p in self.converted_paths(path))
 
+    def remove_converted(self, output, path):
+        """Remove all converted paths"""
+        for converted_path in self.converted_paths(path):
+            output_path = os.path.join(output, converted_path)
+            if os.path.isdir(output_path) and not os.path.islink(output_path):
+                shutil.rmtree(output_path)
+            elif os.path.lexists(output_path):
+                os.remove(output_path)
+
     def convert(self, fin, output, path):
         """Convert a source file object
 
@@ -622,12 +632,18 @@ class ImageConverter(FileConverter):
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
         with write_file_or_remove(output_path) as fout:
-            try:
-                im = Image.open(fin)
-                im.save(fout)
-            except (OSError, NotImplementedError):
-                # "OSError: cannot identify image file" happen for some files with a wrong extension
-                raise FileConversionError("cannot convert image to PNG")
+            fout.write(self.image_to_png(fin))
+
+    @staticmethod
+    def image_to_png(fin):
+        fpng = BytesIO()
+        try:
+            Image.open(fin).save(fpng, 'PNG')
+        except Exception as e:
+            # "OSError: cannot identify image file" happen for some files with a wrong extension
+            # Depending on the damage, decoders raise various other exceptions
+            raise FileConversionError(f"cannot convert image to PNG: {e}")
+        return fpng.getvalue()
 
 class TexConverter(FileConverter):
     def __init__(self):
@@ -641,13 +657,10 @@ class TexConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
-        fdds = BytesIO(self.tex_to_dds(fin.read()))
+        data = fin.read()
         with write_file_or_remove(output_path) as fout:
-            try:
-                im = Image.open(fdds)
-                im.save(fout)
-            except (OSError, NotImplementedError):
-                raise FileConversionError("cannot convert image to PNG")
+            fdds = BytesIO(self.tex_to_dds(data))
+            fout.write(ImageConverter.image_to_png(fdds))
 
     @staticmethod
     def tex_to_dds(data):
@@ -732,9 +745,10 @@ class BinConverter(FileConverter):
         with write_file_or_remove(output_path + '.json') as fout:
             try:
                 binfile = BinFile(output_path, btype_version=self.btype_version)
-            except ValueError as e:
+                content = json_dumps(binfile.to_serializable()).encode('ascii')
+            except Exception as e:
                 raise FileConversionError(f"failed to parse bin file: {e}")
-            fout.write(json_dumps(binfile.to_serializable()).encode('ascii'))
+            fout.write(content)
 
 class SknConverter(FileConverter):
     def __init__(self):
@@ -754,11 +768,14 @@ class SknConverter(FileConverter):
         obj_output_path = os.path.join(output, os.path.splitext(path)[0])
         shutil.rmtree(obj_output_path, ignore_errors=True)
         with write_dir_or_remove(obj_output_path):
-            sknfile = SknFile(output_path)
-            for entry in sknfile.entries:
-                name = os.path.join(obj_output_path, sknfile.obj_filename(entry))
-                with open(name, "w") as f:
-                    f.write(sknfile.to_obj(entry))
+            try:
+                sknfile = SknFile(output_path)
+                objs = {sknfile.obj_filename(entry): sknfile.to_obj(entry) for entry in sknfile.entries}
+            except Exception as e:
+                raise FileConversionError(f"failed to parse skn file: {e}")
+            for filename, content in objs.items():
+                with open(os.path.join(obj_output_path, filename), "w") as f:
+                    f.write(content)
 
 class RstConverter(FileConverter):
     def __init__(self, regex, game_version=1502):
@@ -778,7 +795,15 @@ class RstConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             shutil.copyfileobj(fin, fout)
 
-        rstfile = RstFile(output_path, self.game_version)
+        with write_file_or_remove(output_path + '.json') as fout:
+            try:
+                content = json_dumps(self.parse_rst(output_path), ensure_ascii=False).encode('utf-8')
+            except Exception as e:
+                raise FileConversionError(f"failed to parse string table: {e}")
+            fout.write(content)
+
+    def parse_rst(self, path):
+        rstfile = RstFile(path, self.game_version)
         hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
         rst_json = {"entries": {}, "version": rstfile.version}
         for key, value in rstfile.entries.items():
@@ -787,9 +812,7 @@ class RstConverter(FileConverter):
             else:
                 key = f"{{{key:010x}}}"
             rst_json["entries"][key] = value
-
-        with write_file_or_remove(output_path + '.json', False) as fout:
-            json_dump(rst_json, fout, ensure_ascii=False)
+        return rst_json
 
 class AtlasInfoConverter(FileConverter):
     def __init__(self, regex):
@@ -804,8 +827,12 @@ class AtlasInfoConverter(FileConverter):
     def convert(self, fin, output, path):
         output_path = os.path.join(output, path)
 
-        with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_atlasinfo(fin), fout, ensure_ascii=False)
+        with write_file_or_remove(output_path + ".json") as fout:
+            try:
+                content = json_dumps(self.parse_atlasinfo(fin), ensure_ascii=False).encode('utf-8')
+            except Exception as e:
+                raise FileConversionError(f"failed to parse atlas info: {e}")
+            fout.write(content)
 
     @staticmethod
     def parse_atlasinfo(f):
@@ -849,8 +876,12 @@ class ChampionSkinInfoConverter(FileConverter):
     def convert(self, fin, output, path):
         output_path = os.path.join(output, path)
 
-        with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_championskininfo(fin), fout, ensure_ascii=False)
+        with write_file_or_remove(output_path + ".json") as fout:
+            try:
+                content = json_dumps(self.parse_championskininfo(fin), ensure_ascii=False).encode('utf-8')
+            except Exception as e:
+                raise FileConversionError(f"failed to parse champion skins info: {e}")
+            fout.write(content)
 
     @staticmethod
     def parse_championskininfo(f):
-- 
2.43.0


From a012d09e2fc09102ff3e298d29c87aaf6a2c136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 26/69] fix: refuse BIN files cut inside a string

---
 cdtb/binfile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdtb/binfile.py b/cdtb/binfile.py
index 4f94fad..04154ce 100644
--- a/cdtb/binfile.py
+++ b/cdtb/binfile.py
@@ -489,7 +489,11 @@ class BinReader:
         return self.read_fmt('<4B')
 
     def read_string(self):
-        return self.f.read(self.read_fmt('<H')[0]).decode('utf-8')
+        length, = self.read_fmt('<H')
+        data = self.f.read(length)
+        if len(data) < length:
+            raise ValueError("truncated string")
+        return data.decode('utf-8')
 
     def read_hash(self):
         return BinHashValue(self.read_fmt('<L')[0])
-- 
2.43.0


From af80f9c262df6bcdbb6441511e9b450950f310b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 27/69] fix: compare hashed BIN values with names by hash, in
 any letter case

The result depended on the presence of the hash in hash lists.
---
 cdtb/binfile.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cdtb/binfile.py b/cdtb/binfile.py
index 04154ce..843c7de 100644
--- a/cdtb/binfile.py
+++ b/cdtb/binfile.py
@@ -42,10 +42,13 @@ class BinHashBase:
         if isinstance(other, BinHashBase):
             return self.h == other.h
         elif isinstance(other, str):
-            if self.s is None:
+            if self.s == other:
+                return True
+            # hashes are case-insensitive
+            try:
                 return self.h == self.compute_hash(other)
-            else:
-                return self.s == other
+            except UnicodeEncodeError:
+                return False
         else:
             return self.h == other
 
-- 
2.43.0


From f3870e550a411b45c8c8549944d69ead65a4ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 28/69] fix: make hashed BIN values equal to a number hash like
 it

---
 cdtb/binfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/binfile.py b/cdtb/binfile.py
index 843c7de..881e700 100644
--- a/cdtb/binfile.py
+++ b/cdtb/binfile.py
@@ -61,7 +61,7 @@ class BinHashBase:
     to_serializable = __str__
 
     def __hash__(self):
-        return self.h
+        return hash(self.h)
 
     @classmethod
     def compute_hash(cls, s):
-- 
2.43.0


From 9e1443fe48795bd1a3e3da759f78d93b16defe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 29/69] fix: write well-formed faces in OBJ files

---
 cdtb/sknfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index c69796c..ef17b0b 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -86,6 +86,6 @@ class SknFile:
 
         for i in range(0, len(entry["indices"]), 3):
             a, b, c = entry["indices"][i : i + 3]
-            content += "f {0}/{0}/{0} {1}/{1}/{1}/ {2}/{2}/{2}\n".format(a, b, c)
+            content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\n".format(a, b, c)
 
         return content
-- 
2.43.0


From 530bd4badd590aaab11cf49e5d3a830ae7d43fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 30/69] fix: refuse truncated textures with mipmaps instead of
 converting shifted pixels

---
 cdtb/export.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index d029dfd..fa788b7 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -714,10 +714,16 @@ class TexConverter(FileConverter):
                 mipmap_count += 1
                 n >>= 1
 
-            block_width = (width + block_size - 1) // block_size
-            block_height = (height + block_size - 1) // block_size
-            mipmap_size = bytes_per_block * block_width * block_height
-            pixels = data[-mipmap_size:]
+            def get_mipmap_size(level):
+                block_width = (max(width >> level, 1) + block_size - 1) // block_size
+                block_height = (max(height >> level, 1) + block_size - 1) // block_size
+                return bytes_per_block * block_width * block_height
+
+            # Mipmaps are stored from the smallest to the largest
+            # If data is truncated, pixels of the largest one are not where they are expected to be
+            if len(data) < 12 + sum(get_mipmap_size(level) for level in range(mipmap_count)):
+                raise FileConversionError("truncated TEX file")
+            pixels = data[-get_mipmap_size(0):]
         else:
             pixels = data[12:]
 
-- 
2.43.0


From 51d07396aa80790158e28c47ef6f1f6709b50877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 31/69] fix: refuse tables cut inside a string

---
 cdtb/tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 9ba75d7..46cbd7e 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -93,7 +93,11 @@ class BinaryParser:
 
     def unpack_string(self):
         """Unpack string prefixed by its 32-bit length"""
-        return self.f.read(self.unpack('<L')[0]).decode('utf-8')
+        length, = self.unpack('<L')
+        data = self.f.read(length)
+        if len(data) < length:
+            raise ValueError("truncated string")
+        return data.decode('utf-8')
 
 def stringtable_paths(base_dir, game):
     """
-- 
2.43.0


From 03a3fe77610fea882d0f7d6cb6735fae9fd78282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 32/69] fix: detect file types of files that look like
 unsupported JSON

---
 cdtb/wad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 7b09cae..ec1e7c4 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -199,7 +199,8 @@ class WadFileHeader:
         try:
             json.loads(data)
             return 'json'
-        except (json.JSONDecodeError, UnicodeDecodeError):
+        except (ValueError, RecursionError):
+            # not JSON, or too large numbers, or too many nested values
             pass
 
         # Unknown
-- 
2.43.0


From 4aeb2d724ed75bdc16f3338c4312aaf3405160a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 33/69] fix: do not list the directory of generated files as an
 exported file

---
 cdtb/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index fa788b7..f70db2a 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -362,8 +362,7 @@ class CdragonRawPatchExporter:
                 symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, changed_paths)
 
         # exclude generated "cdragon" files
-        changed_paths.add("cdragon")
-        exporter.clean_output_dir(changed_paths, set(symlinked_paths or []))
+        exporter.clean_output_dir(changed_paths | {"cdragon"}, set(symlinked_paths or []))
 
         # extract files, create symlinks if needed
         exporter.export(overwrite=overwrite)
-- 
2.43.0


From cf9972b0d277e41d08e803954814d3c46af796b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 34/69] fix: replace files and directories of an earlier export
 that trade places

---
 cdtb/export.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index f70db2a..3511581 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -107,6 +107,11 @@ class Exporter:
         converter = self._get_converter(path)
         yield from converter.converted_paths(path)
 
+    def all_converted_directories(self):
+        """Generate exported paths that are directories, not files"""
+        for path in self._exported_paths():
+            yield from self._get_converter(path).converted_directories(path)
+
     def walk_output_dir(self, skip_recurse=None):
         """Generate a list of files on disk (even if not in exported files)
 
@@ -224,24 +229,29 @@ class Exporter:
         for wad in self.wads.values():
             self._export_wad(wad, overwrite)
 
-    def clean_output_dir(self, kept_files, kept_symlinks):
+    def clean_output_dir(self, kept_files, kept_symlinks, kept_dirs=None):
         """Remove regular files (or directories) and symlinks from output, except given ones
 
         This method is intended to be used to clean-up files that should not be
         extracted/symlinked. Parent directories are removed (if empty).
+        `kept_dirs` is the subset of `kept_files` which are directories.
+        Directories at the location of a kept file, and the other way around, are removed.
         Note: symlinks are assumed to point to the right location.
         """
 
+        if kept_dirs is None:
+            kept_dirs = set(self.all_converted_directories())
+
         # collect files to remove
         trees_to_remove = []
         files_to_remove = []
-        for path in self.walk_output_dir(kept_files):
+        for path in self.walk_output_dir(kept_dirs):
             full_path = os.path.join(self.output, path)
             if os.path.islink(full_path):
                 if path not in kept_symlinks:
                     files_to_remove.append(full_path)
             else:
-                if path not in kept_files:
+                if path not in kept_files or path in kept_dirs:
                     if os.path.isdir(full_path):
                         trees_to_remove.append(full_path)
                     else:
@@ -347,6 +357,7 @@ class CdragonRawPatchExporter:
 
         # collect list of paths to extract (new ones, previous ones)
         new_paths = set(exporter.all_converted_exported_paths())
+        new_dirs = set(exporter.all_converted_directories())
         symlinked_paths = None
         changed_paths = new_paths  # default: use all new paths
         if self.prev_patch:
@@ -362,7 +373,8 @@ class CdragonRawPatchExporter:
                 symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, changed_paths)
 
         # exclude generated "cdragon" files
-        exporter.clean_output_dir(changed_paths | {"cdragon"}, set(symlinked_paths or []))
+        kept_dirs = (new_dirs & changed_paths) | {"cdragon"}
+        exporter.clean_output_dir(changed_paths | kept_dirs, set(symlinked_paths or []), kept_dirs)
 
         # extract files, create symlinks if needed
         exporter.export(overwrite=overwrite)
@@ -569,6 +581,10 @@ class FileConverter:
         """
         raise NotImplementedError()
 
+    def converted_directories(self, path):
+        """Generate converted paths that are directories"""
+        return ()
+
     def converted_paths_exist(self, output, path):
         """Return True if all converted paths exist"""
         return all(os.path.lexists(os.path.join(output, p)) for p in self.converted_paths(path))
@@ -766,6 +782,9 @@ class SknConverter(FileConverter):
         yield path
         yield os.path.splitext(path)[0]
 
+    def converted_directories(self, path):
+        yield os.path.splitext(path)[0]
+
     def convert(self, fin, output, path):
         output_path = os.path.join(output, path)
         with write_file_or_remove(output_path) as fout:
-- 
2.43.0


From ef3f2e66a24d308a2f65357b1f528bcf27e06cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 35/69] fix: handle archive paths with NUL characters as
 unknown

---
 cdtb/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 46cbd7e..d31ce23 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -21,9 +21,12 @@ except ImportError:
 
 
 def is_safe_path(path):
-    """Return True if a relative path cannot lead outside of its base directory"""
+    """Return True if a relative path cannot lead outside of its base directory
+
+    Paths that no file system can hold (with NUL characters) are not safe either.
+    """
     path = path.replace(os.sep, '/')
-    return not path.startswith('/') and not os.path.splitdrive(path)[0] and '..' not in path.split('/')
+    return '\0' not in path and not path.startswith('/') and not os.path.splitdrive(path)[0] and '..' not in path.split('/')
 
 @contextmanager
 def write_file_or_remove(path, binary=True):
-- 
2.43.0


From bfd5ce70d21f86b238f87867e18ac6101aa44622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 36/69] fix: leave no partial TFT and Arena data on error

---
 cdtb/arenadata.py | 6 +++---
 cdtb/tftdata.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index 9538546..f1fbacd 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -3,7 +3,7 @@ import copy
 from .storage import PatchVersion
 from .binfile import BinFile
 from .rstfile import RstFile
-from .tools import convert_cdragon_path, json_dump, stringtable_paths
+from .tools import convert_cdragon_path, json_dumps, stringtable_paths, write_file_or_remove
 
 
 class ArenaTransformer:
@@ -49,8 +49,8 @@ class ArenaTransformer:
             for augment in instance["augments"]:
                 replace_in_data(augment)
 
-            with open(os.path.join(output, f"{lang}.json"), "w", encoding="utf-8") as f:
-                json_dump(instance, f, indent=4, sort_keys=True, ensure_ascii=False)
+            with write_file_or_remove(os.path.join(output, f"{lang}.json")) as f:
+                f.write(json_dumps(instance, indent=4, sort_keys=True, ensure_ascii=False).encode("utf-8"))
 
     def parse_augments(self, map30):
         """Returns a list of augments"""
diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index d47d604..7075632 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -3,7 +3,7 @@ import copy
 from .storage import PatchVersion
 from .binfile import BinFile, BinEmbedded
 from .rstfile import RstFile
-from .tools import json_dump, stringtable_paths
+from .tools import json_dumps, stringtable_paths, write_file_or_remove
 
 
 def load_translations(path, game_version=1502):
@@ -98,8 +98,8 @@ class TftTransformer:
             for data in instance["items"]:
                 replace_in_data(data)
 
-            with open(os.path.join(output, f"{lang}.json"), "w", encoding="utf-8") as f:
-                json_dump(instance, f, indent=4, sort_keys=True, ensure_ascii=False)
+            with write_file_or_remove(os.path.join(output, f"{lang}.json")) as f:
+                f.write(json_dumps(instance, indent=4, sort_keys=True, ensure_ascii=False).encode("utf-8"))
 
     def build_output_sets(self, sets, champs):
         """Build sets as output in the final JSON file"""
-- 
2.43.0


From 412ead36abda25a09b7f1ca058d2d76ed3bbc5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:36 +0000
Subject: [PATCH 37/69] fix: don't create links to files that the previous
 patch could not convert

---
 cdtb/export.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 3511581..4bac2fa 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -371,6 +371,10 @@ class CdragonRawPatchExporter:
                 # note: Game files contain some duplicates which will appear in several WAD files.
                 # A new version of any duplicate will override any unmodified one.
                 symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, changed_paths)
+                # files that could not be converted have no export to link to
+                prev_output = self._previous_output()
+                if os.path.isdir(prev_output):
+                    symlinked_paths = [p for p in symlinked_paths if os.path.exists(os.path.join(prev_output, p))]
 
         # exclude generated "cdragon" files
         kept_dirs = (new_dirs & changed_paths) | {"cdragon"}
@@ -490,11 +494,15 @@ class CdragonRawPatchExporter:
                 del exporter.wads[path]
 
 
+    def _previous_output(self):
+        """Return the export directory of the previous patch"""
+        return os.path.join(os.path.dirname(self.output), str(self.prev_patch.version))
+
     def _create_symlinks(self, symlinks):
         if not symlinks:
             return
         dst_output = self.output
-        src_output = os.path.join(os.path.dirname(self.output), str(self.prev_patch.version))
+        src_output = self._previous_output()
 
         logger.info(f"creating symlinks for patch {self.patch.version}")
         for link in symlinks:
-- 
2.43.0


From 25e5d17aa558b3b5e42c84d114bb6f6bda642f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 38/69] fix: remove the leftovers of a list of links whose
 writing was interrupted

---
 cdtb/export.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 4bac2fa..134c8c0 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -398,13 +398,12 @@ class CdragonRawPatchExporter:
     def _write_list(self, name, lines):
         """Write a list of generated "cdragon" files, remove it if there is none"""
         path = os.path.join(self.output, "cdragon", name)
-        if lines is None:
-            if os.path.lexists(path):
-                os.remove(path)
-            return
+        # also replaces what an interrupted export left
         with write_file_or_remove(path) as f:
-            for line in lines:
+            for line in lines or ():
                 f.write(f"{line}\n".encode("utf-8"))
+        if lines is None:
+            os.remove(path)
 
     def export_tft_data(self):
         if self.patch.version != 'main' and self.patch.version < PatchVersion('9.14'):
-- 
2.43.0


From fcda84b314361f00152cbbe92132aeb7dd9769d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:56 +0000
Subject: [PATCH 39/69] fix: parse BIN files of TFT data as files of their
 patch

---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 7075632..c0b35cb 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -41,7 +41,7 @@ class TftTransformer:
         """Parse bin data into template data"""
         map22_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map22", "map22.bin")
 
-        map22 = BinFile(map22_file)
+        map22 = BinFile(map22_file, btype_version=self.game_version)
 
         character_names = self.parse_character_names(map22)
         traits = self.parse_traits(map22)
@@ -262,7 +262,7 @@ class TftTransformer:
             if not os.path.exists(self_path):
                 continue
 
-            tft_bin = BinFile(self_path)
+            tft_bin = BinFile(self_path, btype_version=self.game_version)
             record = next((x for x in tft_bin.entries if x.type == "TFTCharacterRecord"), {})
             if "spells" in record:
                 spell_ref = next((s for s in record.getv("spells") if s.h != 0), None)
-- 
2.43.0


From c97904375e6756265c816ac375d1b8186b88b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:56 +0000
Subject: [PATCH 40/69] fix: skip TFT sets without name instead of aborting

---
 cdtb/tftdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index c0b35cb..e4778ce 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -161,6 +161,8 @@ class TftTransformer:
             if set_trait_lists is None:
                 continue
             set_info = item.getv("ScriptData")
+            if set_info is None or "SetName" not in set_info:
+                continue
             set_name = set_info["SetName"].getv("mValue")
 
             if set_number is None or set_name is None:
-- 
2.43.0


From bb3f41eceb90900a0a8f74baecf5e3be8e51a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:56 +0000
Subject: [PATCH 41/69] fix: translate each text of TFT data only once

---
 cdtb/tftdata.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index e4778ce..9e4278d 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -75,6 +75,9 @@ class TftTransformer:
             instance = copy.deepcopy(template)
             replacements = load_translations(stringtables[lang], self.game_version)
 
+            # sets share their champions and traits, don't translate them again
+            replaced = set()
+
             def replace_in_data(entry):
                 for key in ("name", "desc"):
                     if key in entry and entry[key] in replacements:
@@ -84,8 +87,14 @@ class TftTransformer:
 
             def replace_set_data(entry):
                 for trait_data in entry["traits"]:
+                    if id(trait_data) in replaced:
+                        continue
+                    replaced.add(id(trait_data))
                     replace_in_data(trait_data)
                 for champ_data in entry["champions"]:
+                    if id(champ_data) in replaced:
+                        continue
+                    replaced.add(id(champ_data))
                     replace_in_data(champ_data)
                     replace_list(champ_data["traits"])
                     if "ability" in champ_data:
-- 
2.43.0


From e24474b6cfefa095e7277201d743013489489acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:56 +0000
Subject: [PATCH 42/69] fix: export TFT data of patches without set data

---
 cdtb/tftdata.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 9e4278d..6297d99 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -149,13 +149,13 @@ class TftTransformer:
 
         if not set_collection:
             # backward compatibility
-            longest_character_list = max(character_lists.values(), key=lambda v: len(v.fields[0].value))
-            longest_trait_list = max(trait_lists.values(), key=lambda v: len(v.fields[0].value))
-            champion_list = longest_character_list.fields[0].value
-            trait_list = longest_trait_list.fields[0].value
-            set_characters = [character_names.get(char) for char in champion_list]
-            set_traits = [traits.get(trait) for trait in trait_list]
-            return [(1, "Base", set_characters, set_traits)]
+            longest_character_list = max(character_lists.values(), key=lambda v: len(v.fields[0].value.values))
+            longest_trait_list = max(trait_lists.values(), key=lambda v: len(v.fields[0].value.values))
+            champion_list = longest_character_list.fields[0].value.values
+            trait_list = longest_trait_list.fields[0].value.values
+            set_characters = [character_names[char] for char in champion_list if char in character_names]
+            set_traits = [traits[trait] for trait in trait_list if trait in traits]
+            return [(1, None, "Base", set_characters, set_traits, [], [])]
 
         sets = []
         for item in set_collection:
-- 
2.43.0


From 7fe2e0efbbc49070f8721513330fc3efbb770962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:56 +0000
Subject: [PATCH 43/69] fix: use the icons of older TFT data

---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 6297d99..fb80efd 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -322,7 +322,7 @@ class TftTransformer:
                 "characterName": record.getv("mCharacterName"),
                 "name": champ.getv("mDisplayNameTra"),
                 "cost": cost,
-                "icon": str(champ.getv("PcSplashPath")) or champ.getv("mIconPath"),
+                "icon": str(champ.getv("PcSplashPath") or champ.getv("mIconPath")),
                 "tileIcon": str(champ.getv("TeamPlannerPortraitPath")),
                 "squareIcon": str(champ.getv("SquareSplashPath")),
                 "traits": [traits[h]["name"] for h in champ_traits if h in traits],
@@ -342,7 +342,7 @@ class TftTransformer:
                 "ability": {
                     "name": champ.getv("mAbilityNameTra") or spell_key_name,
                     "desc": champ.getv("mDescriptionTra") or spell_key_tooltip,
-                    "icon": str(champ.getv("AbilityIconPath")) or champ.getv("mPortraitIconPath"),
+                    "icon": str(champ.getv("AbilityIconPath") or champ.getv("mPortraitIconPath")),
                     "variables": ability_variables,
                 },
             }, champ_traits)
-- 
2.43.0


From 8323bdee8775895fb6176b8d854125bcb7c9f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:56 +0000
Subject: [PATCH 44/69] fix: do not alter texts because of their line ends

---
 cdtb/tftdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index fb80efd..0c01cd3 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -18,7 +18,7 @@ def load_translations(path, game_version=1502):
                     line = line.decode()
                     key, val = line.split("=", 1)
                     key = key[4:-2]
-                    val = val[2:-2]
+                    val = val.rstrip("\r\n")[2:-1]
                     translations[key] = val
             return translations
 
-- 
2.43.0


From fbb5283bfae9c471fe02f8f50a5023c33dbf71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:56 +0000
Subject: [PATCH 45/69] fix: find string tables in directories with special
 characters

---
 cdtb/tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index d31ce23..4eccbfd 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -116,13 +116,13 @@ def stringtable_paths(base_dir, game):
     #   (game is either `lol` or `tft`)
 
     # Find the current format in order from newest to oldest
-    lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, f"??_??/data/menu/en_us/{game}.stringtable"))}
+    lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), f"??_??/data/menu/en_us/{game}.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "??_??/data/menu/en_us/main.stringtable"))}
+        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "??_??/data/menu/en_us/main.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"data/menu/main_(.._..)\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "data/menu/main_??_??.stringtable"))}
+        lang_dict = {re.search(r"data/menu/main_(.._..)\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "data/menu/main_??_??.stringtable"))}
     if not lang_dict:
-        lang_dict = {re.search(r"data/menu/fontconfig_(.._..)\.txt$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, "data/menu/fontconfig_??_??.txt"))}
+        lang_dict = {re.search(r"data/menu/fontconfig_(.._..)\.txt$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(glob.escape(base_dir), "data/menu/fontconfig_??_??.txt"))}
     if lang_dict:
         return lang_dict
     else:
-- 
2.43.0


From cebd0f0329fb05fa70a39c502e96fa4ae0ab4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 46/69] fix: export Arena augments whose root spell is not
 available

---
 cdtb/arenadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index f1fbacd..4c998e3 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -65,7 +65,7 @@ class ArenaTransformer:
             augment_datavalues = {}
             augment_calculations = {}
             augment_spellobject = augment.getv("RootSpell")
-            if augment_spellobject:
+            if augment_spellobject in spellobject_entries:
                 augment_spell = spellobject_entries[augment_spellobject].getv('mSpell')
                 for datavalue in augment_spell.getv("DataValues", augment_spell.getv('mDataValues', [])):
                     augment_datavalues[datavalue.getv("name", datavalue.getv("mName"))] = datavalue.getv("values", datavalue.getv("mValues", [0])[0])
-- 
2.43.0


From ec617d43d158a9b26d26d931dd64babca8feb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 47/69] fix: translate Arena data with the hashes of their
 patch

---
 cdtb/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 134c8c0..dceb33e 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -418,8 +418,9 @@ class CdragonRawPatchExporter:
         if self.patch.version != 'main' and self.patch.version < PatchVersion('13.14'):
             return  # no supported Arena data before 13.14
         # don't import in module to be able to execute arenadata module
+        game_version = self.patch.version.as_int()
         from .arenadata import ArenaTransformer
-        transformer = ArenaTransformer(os.path.join(self.output, "game"))
+        transformer = ArenaTransformer(os.path.join(self.output, "game"), game_version)
         transformer.export(os.path.join(self.output, "cdragon/arena"), langs=None)
 
     def _create_exporter(self, patch):
-- 
2.43.0


From 96c1033359465a4be84d65e1eb05234820c5f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 48/69] fix: remove TFT and Arena data of languages that are
 not available anymore

---
 cdtb/export.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index dceb33e..aab29ac 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -412,7 +412,7 @@ class CdragonRawPatchExporter:
         game_version = self.patch.version.as_int()
         from .tftdata import TftTransformer
         transformer = TftTransformer(os.path.join(self.output, "game"), game_version)
-        transformer.export(os.path.join(self.output, "cdragon/tft"), langs=None)
+        self._export_generated_data(transformer, os.path.join(self.output, "cdragon/tft"))
 
     def export_arena_data(self):
         if self.patch.version != 'main' and self.patch.version < PatchVersion('13.14'):
@@ -421,7 +421,12 @@ class CdragonRawPatchExporter:
         game_version = self.patch.version.as_int()
         from .arenadata import ArenaTransformer
         transformer = ArenaTransformer(os.path.join(self.output, "game"), game_version)
-        transformer.export(os.path.join(self.output, "cdragon/arena"), langs=None)
+        self._export_generated_data(transformer, os.path.join(self.output, "cdragon/arena"))
+
+    def _export_generated_data(self, transformer, output):
+        # don't keep data of languages that are not available anymore
+        shutil.rmtree(output, ignore_errors=True)
+        transformer.export(output, langs=None)
 
     def _create_exporter(self, patch):
         game_version = patch.version.as_int()
-- 
2.43.0


From c34e57e2415ffc010d9f36db51885aa8ee6d59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 49/69] fix: do not abort exports of changed files when
 collecting TFT and Arena data

---
 cdtb/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index aab29ac..5f14327 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -426,6 +426,8 @@ class CdragonRawPatchExporter:
     def _export_generated_data(self, transformer, output):
         # don't keep data of languages that are not available anymore
         shutil.rmtree(output, ignore_errors=True)
+        if self.prev_patch and not self.create_symlinks:
+            return  # only changed files are exported, data cannot be collected from them
         transformer.export(output, langs=None)
 
     def _create_exporter(self, patch):
-- 
2.43.0


From 1e27ba4a4b3089ccac950d3143a74534fb715689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 50/69] fix: keep the previous hash list when saving it is
 interrupted

---
 cdtb/hashes.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7619e1f..8b809ca 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -69,9 +69,20 @@ class HashFile:
         return self.hashes
 
     def save(self):
-        with open(self.filename, 'w', newline='') as f:
-            for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
-                print(self.line_format.format(h, s), file=f)
+        # don't lose the previous list if the writing is interrupted
+        path = os.path.realpath(self.filename)
+        tmp_path = f"{path}.tmp"
+        try:
+            with open(tmp_path, 'w', newline='') as f:
+                for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
+                    print(self.line_format.format(h, s), file=f)
+            os.replace(tmp_path, path)
+        except:
+            try:
+                os.remove(tmp_path)
+            except OSError:
+                pass
+            raise
 
 hashfile_lcu = HashFile(default_hash_dir / "hashes.lcu.txt")
 hashfile_game = HashFile(default_hash_dir / "hashes.game.txt")
-- 
2.43.0


From d96065dfaaddd4ba6250fc282ab3339df08985f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 51/69] fix: do not change known hashes while iterating over
 them

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 8b809ca..496ae30 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -560,7 +560,7 @@ class LcuHashGuesser(HashGuesser):
         self.check_iter(f'plugins/rcp-be-sanitizer/global/default/{p}' for p in paths)
 
         # plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/{name}.png -> {name}_splash.png
-        for p in self.known.values():
+        for p in list(self.known.values()):
             if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'):
                 self.check(p.replace('.png', '_splash.png'))
 
-- 
2.43.0


From 7bb51e9bee67577cc1e9bfca203e6a605867ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 52/69] fix: guess hashes when known paths contain formatting
 characters

---
 cdtb/hashes.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 496ae30..7e4295e 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -121,6 +121,10 @@ def update_default_hashfile(basename):
         f.write(r.content)
 
 
+def _escape_format(s):
+    """Escape a string used in a %-format"""
+    return s.replace('%', '%%')
+
 def build_wordlist(paths):
     """Build a list of words from paths"""
 
@@ -293,16 +297,14 @@ class HashGuesser:
         if not (nold and nnew):
             raise ValueError("Either nold or nnew is 0.")
         words = list(words) # Ensure words is a list
-        format_part = "{sep}%%s" * (nnew-1)
-        format_part = f"%s%%s{format_part}%s"
+        format_parts = [sep.join(["%s"] * nnew) for sep in "-_"]
         re_extract = re.compile(rf"([^/_.-]+)(?=((?:[-_][^/_.-]+){{{nold-1}}})[^/]*\.[^/]+$)")
-        temp_formats = set()
+        formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
                 match = m.group(1) + m.group(2)
-                temp_formats.add(format_part % (path[:m.start()], path[m.span()[0]+len(match):]))
-
-        formats = {fmt.replace("{sep}", sep) for fmt in temp_formats for sep in "-_"}
+                prefix, suffix = _escape_format(path[:m.start()]), _escape_format(path[m.span()[0]+len(match):])
+                formats.update(f"{prefix}{part}{suffix}" for part in format_parts)
 
         product = itertools.product
         logger.debug(f"substitute basename words ({nold} by {nnew}): {len(formats)} formats, {len(words)} words")
@@ -317,8 +319,8 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.update('%s%%s%s%s' % (path[:m.start()], sep, path[m.start():]) for sep in "-_")
-                formats.update('%s%s%%s%s' % (path[:m.end()], sep, path[m.end():]) for sep in "-_")
+                formats.update('%s%%s%s%s' % (_escape_format(path[:m.start()]), sep, _escape_format(path[m.start():])) for sep in "-_")
+                formats.update('%s%s%%s%s' % (_escape_format(path[:m.end()]), sep, _escape_format(path[m.end():])) for sep in "-_")
 
         logger.debug(f"add basename word: {len(formats)} formats, {len(words)} words")
         for fmt in progress_iterator(sorted(formats)):
@@ -340,7 +342,7 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.add('%s%s%s' % (path[:m.start()], fmt, path[m.end():]))
+                formats.add('%s%s%s' % (_escape_format(path[:m.start()]), fmt, _escape_format(path[m.end():])))
 
         nrange = range(nmax)
         logger.debug(f"substitute numbers: {len(formats)} formats, nmax = {nmax}")
@@ -443,7 +445,7 @@ class LcuHashGuesser(HashGuesser):
 
         all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
         plugins = {p.split('/', 2)[1] for p in all_paths}
-        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', p) for p in all_paths}
+        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', _escape_format(p)) for p in all_paths}
 
         logger.debug(f"substitute plugin: {len(formats)} formats, {len(plugins)} plugins")
         for fmt in progress_iterator(sorted(formats)):
@@ -644,11 +646,11 @@ class GameHashGuesser(HashGuesser):
                 continue
             char = m.group(1)
             characters.add(char)
-            formats.add(p.replace(char, '{}'))
+            formats.add(tuple(p.split(char)))
 
         logger.debug(f"substitute characters: {len(formats)} formats, {len(characters)} characters")
         for fmt in progress_iterator(sorted(formats)):
-            self.check_iter(fmt.replace('{}', s) for s in characters)
+            self.check_iter(s.join(fmt) for s in characters)
 
     def substitute_skin_numbers(self):
         """Replace skinNN, multiple combinations"""
@@ -664,7 +666,7 @@ class GameHashGuesser(HashGuesser):
                 continue
             c = characters.setdefault(char, (set(), set()))
             c[0].add(skin)
-            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', p))
+            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', _escape_format(p)))
 
         # generate all combinations
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
@@ -685,7 +687,7 @@ class GameHashGuesser(HashGuesser):
             prefix, suffix, ext = m.groups()
             if suffix:
                 suffixes.add(suffix)
-            formats.add(f"{prefix}%s{ext}")
+            formats.add(f"{_escape_format(prefix)}%s{_escape_format(ext)}")
 
         # generate all combinations
         logger.debug(f"substitute suffixes: {len(formats)} formats, {len(suffixes)} suffixes")
@@ -696,12 +698,12 @@ class GameHashGuesser(HashGuesser):
         """Guess hashes from lang variants"""
 
         langs = [l.value for l in Language]
-        langs_re = re.compile(r'(%s)' % '|'.join(langs))
-        formats = {langs_re.sub('{}', p) for p in self.known.values() if langs_re.search(p)}
+        langs_re = re.compile('|'.join(langs))
+        formats = {tuple(langs_re.split(p)) for p in self.known.values() if langs_re.search(p)}
 
         logger.debug(f"substitute lang: {len(formats)} formats, {len(langs)} langs")
         for fmt in progress_iterator(sorted(formats)):
-            self.check_iter(fmt.replace('{}', l) for l in langs)
+            self.check_iter(l.join(fmt) for l in langs)
 
     def guess_skin_groups_bin_using_chromas(self):
         """Guess 'skin*.bin' with long filenames using chroma groups"""
@@ -868,8 +870,7 @@ class GameHashGuesser(HashGuesser):
                         elif path.endswith('.troy'):
                             self.check('data/shared/particles/'+ path[:-5] + '.troybin')
                         elif wadfile.path:
-                            fmt = os.path.dirname(wadfile.path) + '/%s.preload'
-                            self.check(fmt % path)
+                            self.check(f"{os.path.dirname(wadfile.path)}/{path}.preload")
 
                 elif wadfile.ext in ('hls', 'ps_2_0', 'ps_3_0', 'vs_2_0', 'vs_3_0'):
                     # shader: search for includes
-- 
2.43.0


From 03f360e49ff88c7f09106cf2fdbf2132bc324f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 53/69] fix: guess plugin names when the list has files that
 are in no plugin

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7e4295e..f50ca5d 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -443,7 +443,7 @@ class LcuHashGuesser(HashGuesser):
     def substitute_plugin(self):
         """Guess hashes by changing plugin name"""
 
-        all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
+        all_paths = [p for p in self.known.values() if re.match(r'plugins/[^/]+/', p)]
         plugins = {p.split('/', 2)[1] for p in all_paths}
         formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', _escape_format(p)) for p in all_paths}
 
-- 
2.43.0


From 1570cfe99ffbbd36822b0c532d7f18091ae0e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 54/69] fix: guess files of the root directory

---
 cdtb/hashes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index f50ca5d..66fe10c 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -266,7 +266,7 @@ class HashGuesser:
 
         dirs = self.directory_list()
         for name in progress_iterator(sorted(names)):
-            self.check_iter(f"{dir}/{name}" for dir in dirs)
+            self.check_iter(f"{dir}/{name}" if dir else name for dir in dirs)
 
     def directory_list(self, cached=True):
         """Return a set of all directories and subdirectories"""
@@ -288,7 +288,7 @@ class HashGuesser:
         dirs = self.directory_list()
         logger.debug(f"substitute basenames: {len(names)} basenames, {len(dirs)} directories")
         for name in progress_iterator(sorted(names)):
-            self.check_iter(f"{dir}/{name}" for dir in dirs)
+            self.check_iter(f"{dir}/{name}" if dir else name for dir in dirs)
 
     def _substitute_basename_words(self, paths, words, nold=1, nnew=1):
         """Replaces nold side by side words with nnew words in all basenames of all given paths
-- 
2.43.0


From 86421d1d43fbb2fb890dcd7a16597a599d044fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 55/69] fix: guess files in directories found by previous
 methods

---
 cdtb/hashes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 66fe10c..b1e65f4 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -224,6 +224,7 @@ class HashGuesser:
         print("%016x %s" % (h, p))
         self.known[h] = p
         self.unknown.remove(h)
+        self.__directory_list = None  # may be in a new directory
 
     def check(self, p):
         """Check a single hash, print and add to known on match"""
-- 
2.43.0


From 4447210cef3e7cfbbc9aab6b28cbf074b09ad207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 56/69] fix: guess the same skin numbers in any order

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index b1e65f4..5f600f7 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -673,7 +673,7 @@ class GameHashGuesser(HashGuesser):
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
         for char, (skins, formats) in progress_iterator(characters.items(), lambda v: v[0]):
             for fmt, nocc in formats:
-                self.check_iter(fmt % p for p in itertools.combinations(skins, nocc))
+                self.check_iter(fmt % p for p in itertools.product(skins, repeat=nocc))
 
     def substitute_suffixes(self):
         """Replace `.suffix.ext` using all known suffixes"""
-- 
2.43.0


From 81f4495ee3b410083bb079ce693bbdecb8108554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 57/69] fix: search client archives that have unreadable files
 or redirections

---
 cdtb/hashes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 5f600f7..ff4245a 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -373,8 +373,11 @@ class HashGuesser:
                 # skip non-text files as soon as possible
                 if wadfile.ext in ('png', 'jpg', 'ttf', 'webm', 'ogg', 'dds', 'tga'):
                     continue
+                data = wad.read_file_data(f, wadfile)
+                if data is None:
+                    continue
                 try:
-                    data = wadfile.read_data(f).decode('utf-8-sig')
+                    data = data.decode('utf-8-sig')
                 except UnicodeDecodeError:
                     continue
                 if data:
-- 
2.43.0


From 38c5df7862e1173c8db3441f6ca73385fa99f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 58/69] fix: search game archives whose text files are not
 ASCII

---
 cdtb/hashes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index ff4245a..7dbd4a6 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -866,7 +866,10 @@ class GameHashGuesser(HashGuesser):
                 elif wadfile.ext == 'preload':
                     # preload files
                     for m in re.finditer(br'Name="([^"]+)"', data):
-                        path = m.group(1).lower().decode('ascii')
+                        try:
+                            path = m.group(1).lower().decode('ascii')
+                        except UnicodeDecodeError:
+                            continue
                         if path.endswith('.lua'):
                             self.check(path)
                             self.check(path[:-4] + '.luabin')
@@ -881,7 +884,10 @@ class GameHashGuesser(HashGuesser):
                     if wadfile.path:
                         dirname = os.path.dirname(wadfile.path)
                         for m in re.finditer(br'#include "([^"]+)"', data):
-                            subpath = m.group(1).lower().decode('ascii')
+                            try:
+                                subpath = m.group(1).lower().decode('ascii')
+                            except UnicodeDecodeError:
+                                continue
                             self.check(os.path.normpath(f"{dirname}/{subpath}").replace('\\', '/'))
 
                 elif wadfile.ext == 'atlas':
-- 
2.43.0


From 14831d904b62400f00f01db21ab72b92dbd1f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 59/69] fix: find files mentioned by a path relative to the
 current directory

---
 cdtb/hashes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7dbd4a6..a74a315 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -517,7 +517,8 @@ class LcuHashGuesser(HashGuesser):
             # JS maps
             relpaths |= {m.group(1) for m in re.finditer(r'sourceMappingURL=(.*?\.js)\.map', data)}
 
-        self.check_basenames(p.lower() for p in relpaths)
+        # all directories are checked, including parent ones
+        self.check_basenames({re.sub(r'^(?:\.{1,2}/+)+', '', p).lower() for p in relpaths})
 
     def guess_from_game_hashes(self):
         """Guess LCU hashes from game hashes"""
-- 
2.43.0


From 69b9d5b31bc77f792a97d094e759e9f5984fe9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 60/69] fix: find files mentioned in atlases with CRLF line
 ends

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index a74a315..b483913 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -896,7 +896,7 @@ class GameHashGuesser(HashGuesser):
                         dirname = os.path.dirname(wadfile.path)
                         for line in data.split(b'\n'):
                             try:
-                                maybe_path = line.lower().decode('ascii')
+                                maybe_path = line.rstrip(b'\r').lower().decode('ascii')
                                 self.check(f"{dirname}/{maybe_path}")
                             except UnicodeDecodeError:
                                 pass
-- 
2.43.0


From 2f8ac6f8eb55da8a3327f462adc7f3c2f0ac5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 61/69] fix: load unknown hashes from directories with special
 characters

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index b483913..c6c5dff 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -212,7 +212,7 @@ class HashGuesser:
         """Load unknown hashes from 'export/*.unknown.txt' files"""
 
         unknown = set()
-        for p in glob.glob(f"{path}/*.unknown.txt"):
+        for p in glob.glob(f"{glob.escape(str(path))}/*.unknown.txt"):
             with open(p) as f:
                 unknown |= {int(h, 16) for h in f}
         return unknown
-- 
2.43.0


From c5b28fe664dce9f10c8267d42bccc855a15ed235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:37 +0000
Subject: [PATCH 62/69] fix: search client archives that have unexpected JSON
 data

---
 cdtb/hashes.py | 54 +++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index c6c5dff..56ff37b 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -468,34 +468,38 @@ class LcuHashGuesser(HashGuesser):
                 # parse specific information from known json files
                 try:
                     jdata = json.loads(data)
-                except (json.JSONDecodeError, UnicodeDecodeError):
+                except (ValueError, RecursionError):
+                    # not JSON, or too large numbers, or too many nested values
                     pass
 
             if jdata is not None:
-                if wadfile.path == 'plugins/rcp-fe-lol-loot/global/default/trans.json':
-                    # names of hextech items, keys are also image names
-                    self.check_iter(f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in jdata)
-                    continue  # no more data to parse
-                elif 'pluginDependencies' in jdata and 'name' in jdata:
-                    # retrieve plugin name from description.json
-                    # guess some common paths
-                    name = jdata['name']
-                    subpaths = ['index.html', 'init.js', 'init.js.map', 'bundle.js', 'trans.json', 'css/main.css', 'license.json']
-                    self.check_iter(f"plugins/{name}/global/default/{subpath}" for subpath in subpaths)
-                elif 'musicVolume' in jdata and 'files' in jdata:
-                    # splash config
-                    # try to guess subdirectory name (names should only contain one element)
-                    names = {s.lower() for path in jdata['files'].values() for s in re.findall(r'-splash-([^.]+)', path)}
-                    self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/config.json" for name in names)
-                    self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/{path.lower()}" for name in names for path in jdata['files'].values())
-                    continue  # no more data to parse
-                elif wadfile.path == 'plugins/rcp-be-lol-game-data/global/default/v1/champion-summary.json':
-                    champion_ids = [v['id'] for v in jdata]
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
-                elif 'recommendedItemDefaults' in jdata:
-                    # plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default{p.lower()}' for p in jdata['recommendedItemDefaults'])
+                try:
+                    if wadfile.path == 'plugins/rcp-fe-lol-loot/global/default/trans.json':
+                        # names of hextech items, keys are also image names
+                        self.check_iter(f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in jdata)
+                        continue  # no more data to parse
+                    elif 'pluginDependencies' in jdata and 'name' in jdata:
+                        # retrieve plugin name from description.json
+                        # guess some common paths
+                        name = jdata['name']
+                        subpaths = ['index.html', 'init.js', 'init.js.map', 'bundle.js', 'trans.json', 'css/main.css', 'license.json']
+                        self.check_iter(f"plugins/{name}/global/default/{subpath}" for subpath in subpaths)
+                    elif 'musicVolume' in jdata and 'files' in jdata:
+                        # splash config
+                        # try to guess subdirectory name (names should only contain one element)
+                        names = {s.lower() for path in jdata['files'].values() for s in re.findall(r'-splash-([^.]+)', path)}
+                        self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/config.json" for name in names)
+                        self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/{path.lower()}" for name in names for path in jdata['files'].values())
+                        continue  # no more data to parse
+                    elif wadfile.path == 'plugins/rcp-be-lol-game-data/global/default/v1/champion-summary.json':
+                        champion_ids = [v['id'] for v in jdata]
+                        self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
+                        self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
+                    elif 'recommendedItemDefaults' in jdata:
+                        # plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json
+                        self.check_iter(f'plugins/rcp-be-lol-game-data/global/default{p.lower()}' for p in jdata['recommendedItemDefaults'])
+                except (AttributeError, KeyError, TypeError, UnicodeEncodeError):
+                    logger.debug(f"unexpected JSON structure in {wadfile.path}")
 
             # search for known paths formats
             # /fe/{plugin}/{subpath} -> plugins/rcp-fe-{plugin}/global/default/{subpath}
-- 
2.43.0


From e5fe8ec3573bc53970212e3d35aab34620c22754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:01 +0000
Subject: [PATCH 63/69] fix: find files mentioned by files of the root
 directory

---
 cdtb/hashes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 56ff37b..c3f6d04 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -882,7 +882,8 @@ class GameHashGuesser(HashGuesser):
                         elif path.endswith('.troy'):
                             self.check('data/shared/particles/'+ path[:-5] + '.troybin')
                         elif wadfile.path:
-                            self.check(f"{os.path.dirname(wadfile.path)}/{path}.preload")
+                            dirname = os.path.dirname(wadfile.path)
+                            self.check(f"{dirname}/{path}.preload" if dirname else f"{path}.preload")
 
                 elif wadfile.ext in ('hls', 'ps_2_0', 'ps_3_0', 'vs_2_0', 'vs_3_0'):
                     # shader: search for includes
@@ -893,7 +894,7 @@ class GameHashGuesser(HashGuesser):
                                 subpath = m.group(1).lower().decode('ascii')
                             except UnicodeDecodeError:
                                 continue
-                            self.check(os.path.normpath(f"{dirname}/{subpath}").replace('\\', '/'))
+                            self.check(os.path.normpath(f"{dirname}/{subpath}" if dirname else subpath).replace('\\', '/'))
 
                 elif wadfile.ext == 'atlas':
                     if wadfile.path:
@@ -901,7 +902,7 @@ class GameHashGuesser(HashGuesser):
                         for line in data.split(b'\n'):
                             try:
                                 maybe_path = line.rstrip(b'\r').lower().decode('ascii')
-                                self.check(f"{dirname}/{maybe_path}")
+                                self.check(f"{dirname}/{maybe_path}" if dirname else maybe_path)
                             except UnicodeDecodeError:
                                 pass
 
-- 
2.43.0


From b7f1acb81a22446ab6d63015e2b808f3ad88095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 64/69] fix: do not write an empty list of links before
 removing it

---
 cdtb/export.py | 14 ++++++++++----
 cdtb/tools.py  | 14 +++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 5f14327..bcf88a0 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -18,6 +18,7 @@ from .tools import (
     BinaryParser,
     convert_cdragon_path,
     is_safe_path,
+    temporary_path,
     write_file_or_remove,
     write_dir_or_remove,
     json_dumps
@@ -398,12 +399,17 @@ class CdragonRawPatchExporter:
     def _write_list(self, name, lines):
         """Write a list of generated "cdragon" files, remove it if there is none"""
         path = os.path.join(self.output, "cdragon", name)
-        # also replaces what an interrupted export left
+        if lines is None:
+            # also remove what an interrupted export left
+            for p in (path, temporary_path(path)):
+                try:
+                    os.remove(p)
+                except FileNotFoundError:
+                    pass
+            return
         with write_file_or_remove(path) as f:
-            for line in lines or ():
+            for line in lines:
                 f.write(f"{line}\n".encode("utf-8"))
-        if lines is None:
-            os.remove(path)
 
     def export_tft_data(self):
         if self.patch.version != 'main' and self.patch.version < PatchVersion('9.14'):
diff --git a/cdtb/tools.py b/cdtb/tools.py
index 4eccbfd..6f2e120 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -28,6 +28,13 @@ def is_safe_path(path):
     path = path.replace(os.sep, '/')
     return '\0' not in path and not path.startswith('/') and not os.path.splitdrive(path)[0] and '..' not in path.split('/')
 
+def temporary_path(path):
+    """Return the name under which a file is written before being put in place"""
+    dirname, basename = os.path.split(path)
+    # always use the same name, don't accumulate temporary files
+    tmp_name = hashlib.sha1(os.fsencode(basename)).hexdigest()[:16]
+    return os.path.join(dirname, f".{tmp_name}.tmp")
+
 @contextmanager
 def write_file_or_remove(path, binary=True):
     """Open a file for writing, create its parent directory if needed
@@ -36,12 +43,9 @@ def write_file_or_remove(path, binary=True):
     a killed process does not leave a partial file. If the writing fails, the
     file is removed.
     """
-    dirname, basename = os.path.split(path)
-    # always use the same name, don't accumulate temporary files
-    tmp_name = hashlib.sha1(os.fsencode(basename)).hexdigest()[:16]
-    tmp_path = os.path.join(dirname, f".{tmp_name}.tmp")
+    tmp_path = temporary_path(path)
     try:
-        os.makedirs(dirname, exist_ok=True)
+        os.makedirs(os.path.dirname(path), exist_ok=True)
         with open(tmp_path, 'wb' if binary else 'w') as f:
             yield f
         os.replace(tmp_path, path)
-- 
2.43.0


From 43d1ec7aaa08935cb73cd488c3cf9c61ab04102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 65/69] fix: refer to images converted from TGA by their
 exported path

---
 cdtb/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 6f2e120..a29643a 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -134,6 +134,6 @@ def stringtable_paths(base_dir, game):
 
 def convert_cdragon_path(path):
     path, ext = os.path.splitext(path.lower())
-    if ext == ".dds" or ext == ".tex":
+    if ext in (".dds", ".tga", ".tex"):
         ext = ".png"
     return path + ext
-- 
2.43.0


From 16fb8906b7ed0c611ab8dd5cb26a19f9e775f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 66/69] fix: read the first line of text string tables

---
 cdtb/tftdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 0c01cd3..3f98284 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -12,6 +12,7 @@ def load_translations(path, game_version=1502):
             f.seek(0)
             return RstFile(f, game_version)
         else:
+            f.seek(0)
             translations = {}
             for line in f:
                 if line.startswith(b'tr "'):
-- 
2.43.0


From bf661a4e8c9eac077420e96f72cee80ba747ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 67/69] fix: list output directories whose path has the maximum
 length

---
 cdtb/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index bcf88a0..0bfdb1e 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -128,7 +128,8 @@ class Exporter:
         to_visit = ['']
         while to_visit:
             base = to_visit.pop()
-            with os.scandir(f"{self.output}/{base}") as scan_it:
+            # no trailing slash: the path may already have the maximum length
+            with os.scandir(f"{self.output}/{base}".rstrip('/') or '/') as scan_it:
                 for entry in scan_it:
                     if entry.is_symlink() or entry.is_file(follow_symlinks=False):
                         yield f"{base}{entry.name}"
-- 
2.43.0


From 51e9770bb4b6aa6d653d5eada770b04812d5d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 68/69] fix: update exports next to ones of patches removed
 from the storage

---
 cdtb/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index 0bfdb1e..4543bf1 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -559,6 +559,8 @@ class CdragonRawPatchExporter:
                 version = PatchVersion(path)
             except (ValueError, TypeError, AssertionError):
                 continue
+            if first and version.as_int() < first.as_int():
+                continue  # not exported, it can be removed from the storage
             versions.add(version)
 
         if not versions:
-- 
2.43.0


From 05fefcab22dc4cee74970b2589e5b7b1a58864bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 69/69] fix: refuse to guess hashes of components that are not
 available

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index ce4eabb..3beba9c 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -196,7 +196,7 @@ def command_hashes_guess(parser, args):
             wads.append(Wad(path_or_component))
             continue
         if component is None:
-            continue
+            parser.error(f"component not found: {path_or_component}")
         if isinstance(component, Patch):
             elements = component.elements
         else:
-- 
2.43.0

