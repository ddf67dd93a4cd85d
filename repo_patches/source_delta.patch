From 65b0777739bce95d5ca19dec7565b710c663b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 01/57] fix: hash source ids as bytes so the cache works on
 Python 3

---
 xylem/sources/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f0ce0bc..633be3c 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -29,6 +29,7 @@ from xylem.log_utils import is_verbose
 from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
+from xylem.text_utils import to_bytes
 from xylem.text_utils import to_str
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
@@ -38,7 +39,7 @@ from xylem.sources.rules_dict import merge_installer_dict
 
 
 def _id_string(unique_id):
-    return hashlib.sha1(unique_id).hexdigest()
+    return hashlib.sha1(to_bytes(unique_id)).hexdigest()
 
 
 def _cache_file_path(cache_dir, unique_id):
-- 
2.43.0


From e8d9e0b13eabcf2fdaaaa614d0bcf0c1aeef5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 02/57] fix: do not index dict views when reading source
 descriptions

---
 xylem/sources/database.py | 2 +-
 xylem/sources/impl.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 633be3c..a4044da 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -211,7 +211,7 @@ class RulesDatabase(object):
             sources_gen = get_default_source_descriptions()
         for source_file, source_descriptions in sources_gen:
             for descr in source_descriptions:
-                spec_name, arguments = descr.items()[0]
+                spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
                 self.sources.append(RulesSource(
                     spec,
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index eaeb3cc..82f3559 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -170,7 +170,7 @@ def verify_source_description(descr):
     if not isinstance(descr, dict):
         raise ValueError("Expected source description to be a dictionary, but "
                          "got '{0}'.".format(to_str(type(descr))))
-    keys = descr.keys()
+    keys = list(descr.keys())
     if not len(keys) == 1:
         raise ValueError("Expected source description to have one entry, but "
                          "got keys '{0}'.".format(keys))
@@ -178,7 +178,7 @@ def verify_source_description(descr):
         verify_spec_name(keys[0])
     except ValueError as e:
         raise_from(ValueError, "source description does not have valid "
-                   "spec name '{0}'".format(keys[0], e))
+                   "spec name '{0}'".format(keys[0]), e)
 
 
 def sources_cache_dir(cache_dir):
-- 
2.43.0


From 089cd6b43826559b1d2d0f75c55b0c0e546c78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 03/57] fix: print text instead of the repr of bytes on Python
 3

---
 xylem/log_utils.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index 30becc1..0ed4f70 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -18,6 +18,8 @@ from __future__ import unicode_literals
 import os
 import sys
 
+import six
+
 from xylem.text_utils import to_str
 from xylem.text_utils import to_bytes
 
@@ -60,6 +62,15 @@ def is_debug():
 enable_debug('XYLEM_DEBUG' in os.environ)
 
 
+def _to_console(msg, file):
+    """Helper to convert text to what ``print`` can write to ``file``."""
+    if six.PY2:
+        return to_bytes(msg)
+    # characters that `file` cannot encode are replaced
+    encoding = getattr(file, 'encoding', None) or 'utf-8'
+    return to_str(to_bytes(msg, encoding), encoding)
+
+
 def debug(msg, file=None, *args, **kwargs):
     """Print debug to console or file.
 
@@ -73,7 +84,7 @@ def debug(msg, file=None, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('greenf') + msg + ansi('reset')
     if is_debug():
-        print(to_bytes(msg), file=file, *args, **kwargs)
+        print(_to_console(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -87,7 +98,7 @@ def info(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stdout
     msg = to_str(msg)
     msg = msg + ansi('reset')  # Assume that msg might contain colors
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_to_console(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -102,7 +113,7 @@ def warning(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stderr
     msg = to_str(msg)
     msg = ansi('yellowf') + msg + ansi('reset')
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_to_console(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -117,8 +128,8 @@ def error(msg, file=None, exit=False, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('redf') + ansi('boldon') + msg + ansi('reset')
     if exit:
-        sys.exit(to_bytes(msg))
-    print(to_bytes(msg), file=file, *args, **kwargs)
+        sys.exit(_to_console(msg, sys.stderr))
+    print(_to_console(msg, file), file=file, *args, **kwargs)
     return msg
 
 
-- 
2.43.0


From beacfacde153e0d0d65fe81d7c819c6aac5d5434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 04/57] fix: raise SpecParsingError instead of failing in its
 constructor

---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 620f4fe..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        ValueError.__init__(self, msg)
+        super(SpecParsingError, self).__init__(msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 88c08f8dbbd0b2feda516f9662014af136590671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 05/57] fix: replace default_installer when merging two
 any_version entries

---
 xylem/sources/rules_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 2922a08..7557cee 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -378,7 +378,8 @@ def merge_version_dict(new_version_dict, combined_version_dict,
             remove_rule_for_all_versions(combined_version_dict, installer)
         if "any_version" in combined_version_dict:
             merge_installer_dict(
-                new_installer_dict, combined_version_dict["any_version"], None)
+                new_installer_dict, combined_version_dict["any_version"],
+                default_installer)
         else:
             combined_version_dict["any_version"] = copy_installer_dict(
                 new_installer_dict, default_installer)
-- 
2.43.0


From c39b9c1390a0a6dab12c24512f792661207a719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 06/57] fix: process source files in alphabetical order and
 skip hidden files

---
 xylem/sources/impl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 82f3559..2a3b546 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -53,7 +53,7 @@ def get_default_source_descriptions():
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     files = pkg_resources.resource_listdir(SOURCES_GROUP, 'sources.d')
-    for file_path in files:
+    for file_path in sorted(files):
         file_path = os.path.join('sources.d', file_path)
         data = pkg_resources.resource_string(SOURCES_GROUP, file_path)
         yield parse_source_descriptions(
@@ -85,12 +85,12 @@ def load_sources_from_path(path):
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     return _load_sources(
-        [os.path.join(path, s) for s in os.listdir(path)])
+        [os.path.join(path, s) for s in sorted(os.listdir(path))])
 
 
 def _load_sources(files):
     for file_path in files:
-        if file_path.startswith('.'):
+        if os.path.basename(file_path).startswith('.'):
             continue
         if not file_path.endswith('.yaml'):
             continue
-- 
2.43.0


From 00ede4e9a320df181a1e2f0e365dafca9c73f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 07/57] fix: replace cache files atomically

---
 xylem/sources/database.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index a4044da..151b507 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -18,6 +18,7 @@ from __future__ import print_function
 import os
 import hashlib
 import datetime
+import tempfile
 
 import six.moves.cPickle as pickle
 
@@ -93,9 +94,25 @@ def _read_cache(filepath):
 
 
 def _write_cache(cache_data, filepath):
-    with open(filepath, 'wb') as f:
-        # protocol 2 is compatible with python 2 and 3
-        pickle.dump(cache_data, f, protocol=2)
+    # Write to a temporary file first, such that at any time (concurrent
+    # reads, crashes) the cache file has either the old or the new content.
+    fd, tmp_path = tempfile.mkstemp(
+        prefix=os.path.basename(filepath) + ".", suffix=".tmp",
+        dir=os.path.dirname(filepath))
+    try:
+        with os.fdopen(fd, 'wb') as f:
+            # protocol 2 is compatible with python 2 and 3
+            pickle.dump(cache_data, f, protocol=2)
+            f.flush()
+            os.fsync(f.fileno())
+        # mkstemp creates files that are only accessible for the owner
+        umask = os.umask(0)
+        os.umask(umask)
+        os.chmod(tmp_path, 0o666 & ~umask)
+        os.rename(tmp_path, filepath)
+    except BaseException:
+        os.remove(tmp_path)
+        raise
 
 
 class RulesSource(object):
-- 
2.43.0


From 84b50866024fcbaaf3a06b991431d417aad652e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 08/57] fix: tolerate concurrent creation of the cache dir

---
 xylem/sources/impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 2a3b546..de0727f 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -218,8 +218,12 @@ class SourcesContext(object):
         self.cache_dir = sources_cache_dir(cache_dir)
 
     def ensure_cache_dir(self):
-        if not self.cache_dir_exists():
+        try:
             os.makedirs(self.cache_dir)
+        except OSError:
+            # ok if it exists already or is concurrently being created
+            if not self.cache_dir_exists():
+                raise
         if not self.cache_dir_exists():
             raise OSError("Could not create cache dir: `{}`".
                           format(self.cache_dir))
-- 
2.43.0


From 0e08be913aa17bb01bad343da6b39235b61c0cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 09/57] fix: do not change the cache in update with dry_run

---
 xylem/update.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xylem/update.py b/xylem/update.py
index 09abf20..63a1d4c 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -78,9 +78,13 @@ def update(dry_run=False, config=None, sources_context=None):
     if config is None:
         config = get_config()
     sources_context = sources_context or SourcesContext(config)
-    sources_context.ensure_cache_dir()
+    if not dry_run:
+        sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
     database.print_info = True
     # support partial update of local sources even without connectivity:
     database.raise_on_error = False
-    database.update()
+    if dry_run:
+        database.load_from_source()
+    else:
+        database.update()
-- 
2.43.0


From 2fe73188b1612804701ae8270e1eae387a46aad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 10/57] fix: handle timeouts and connection errors while
 reading in load_url

---
 xylem/load_url.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index d436558..2b00d28 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -18,6 +18,7 @@ from __future__ import unicode_literals
 
 import socket
 import time
+from six.moves.http_client import HTTPException
 from six.moves.urllib.error import HTTPError
 from six.moves.urllib.error import URLError
 from six.moves.urllib.request import urlopen
@@ -48,6 +49,7 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     while True:
         try:
             req = urlopen(url, timeout=timeout)
+            data = req.read()
         except HTTPError as e:
             if e.code == 503 and retry:
                 retry -= 1
@@ -62,9 +64,16 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except (EnvironmentError, HTTPException) as e:
+            # e.g. timeout or broken connection while reading the response
+            if isinstance(e, socket.timeout) and retry:
+                retry -= 1
+                time.sleep(retry_period)
+            else:
+                raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                           format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    data = req.read()
     return to_str(data, encoding=encoding)
-- 
2.43.0


From 0365d5d8e1b7bd912dc33834c5e8b4e9e6b08c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 11/57] fix: pass on allow_default_installer in
 verify_rules_dict

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 7557cee..58974e8 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -99,7 +99,7 @@ def verify_rules_dict(rules_dict, allow_default_installer=True):
             raise_from(ValueError, "Expected rules dict to have xylem keys as "
                        "keys.", e)
         try:
-            verify_os_dict(os_dict)
+            verify_os_dict(os_dict, allow_default_installer)
         except ValueError as e:
             raise_from(ValueError, "Expected rules dict to have valid os "
                        "dicts as values, but got error for key '{0}'.".
-- 
2.43.0


From b3c8297b256e8c8a694da75c54d6a6b2bb9e380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 12/57] fix: reject rules dict identifiers with trailing
 newline

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 58974e8..452167a 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -280,7 +280,7 @@ def verify_rules_dict_identifier(identifier, kind, allow_keywords=[]):
                          format(kind, identifier))
     if identifier in rules_dict_whitelist:
         return
-    if not re.match('(?u)^[\w.’+-]+$', identifier):
+    if not re.match('(?u)^[\w.’+-]+\\Z', identifier):
         raise ValueError(
             "{0} '{1}' has disallowed characters. Allowed are: alphanumeric, "
             "dash, dot, underscore.".format(kind, identifier))
-- 
2.43.0


From f5e6b3487e6eb77b861bc1d732cc652a0569a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 13/57] fix: handle unset and invalid config groups

---
 xylem/config_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a7b3c15..0445646 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1212,7 +1212,13 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-        data_group = data.get(group, {})
+        data_group = data.get(group, None)
+        if data_group is UNSET_YAML:
+            data_group = {}
+        if not isinstance(data_group, dict):
+            raise ConfigValueError(type_error_msg(
+                'dict', data_group,
+                what_for="config group '{}'".format(group)))
         for subname, item in six.iteritems(group_dict):
             process_item(config[group], data_group, subname, item)
     for name, item in six.iteritems(description.items):
-- 
2.43.0


From 868b5519d5f752349493f1767500142da4e18b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 14/57] fix: make resolution objects proper, hashable
 dictionaries

---
 xylem/installers/installer_base.py | 39 ++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 90e6fa8..6be1a43 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -36,6 +36,16 @@ from xylem.config_utils import config_from_parsed_yaml
 from xylem.config_utils import config_from_defaults
 
 
+def _make_hashable(value):
+    """Convert nested dicts and lists to something hashable."""
+    if isinstance(value, dict):
+        return frozenset(
+            (k, _make_hashable(v)) for k, v in six.iteritems(value))
+    if isinstance(value, (list, tuple)):
+        return tuple(_make_hashable(v) for v in value)
+    return value
+
+
 class Resolution(dict):
 
     """Resolution object as a dictionary with attribute access.
@@ -50,17 +60,36 @@ class Resolution(dict):
     should be considered immutable.
     """
 
-    def __init__(self, *args, **kwargs):
-        super(Resolution, self).__init__(*args, **kwargs)
-        self.__dict__ = self  # this allows attribute access: `self.package`
-        self._to_list_keys = ["package"]
+    _to_list_keys = ["package"]
+
+    # attribute access to the dictionary entries, e.g. `self.package`;
+    # private attributes (`_to_list_keys`) are not part of the dictionary
+
+    def __getattr__(self, name):
+        if name not in self:
+            raise AttributeError(name)
+        return self[name]
+
+    def __setattr__(self, name, value):
+        if name.startswith("_"):
+            super(Resolution, self).__setattr__(name, value)
+        else:
+            self[name] = value
+
+    def __delattr__(self, name):
+        if name.startswith("_"):
+            super(Resolution, self).__delattr__(name)
+        elif name in self:
+            del self[name]
+        else:
+            raise AttributeError(name)
 
     def __eq__(self, other):
         # use standard dict equality
         return super(Resolution, self).__eq__(other)
 
     def __hash__(self):
-        return hash((type(self), tuple(self.items())))
+        return hash(_make_hashable(self))
 
     def __str__(self):
         return ' '.join(self.to_list())
-- 
2.43.0


From 28978f1a4140767dbf9d558929f4e927e1252d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 15/57] fix: report all errors in install instead of crashing
 or dropping them

---
 xylem/install.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index 0f833a8..a455d19 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -25,14 +25,12 @@ from xylem.installers import InstallerError
 from xylem.resolve import resolve
 
 from xylem.exception import raise_from
-from xylem.exception import exc_to_str
 from xylem.exception import chain_exception
 from xylem.exception import XylemError
 from xylem.exception import XylemInternalError
 
 from xylem.log_utils import info
 from xylem.log_utils import info_v
-from xylem.log_utils import error
 
 from xylem.util import remove_duplicates
 
@@ -83,16 +81,13 @@ def install(xylem_keys,
                                 interactive=interactive)
 
     #  4. Determine uninstalled resolutions
+    uninstalled_errors = []
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
-        # TODO: figure out what exactly to do with these errors... For
-        #       now print them here
-        for err in uninstalled_errors:
-            error(exc_to_str(uninstalled_errors))
 
     if uninstalled_errors and not continue_on_error:
-        return resolve_errors, []
+        return resolve_errors, uninstalled_errors
 
     #  5. check prerequisites all resolutions to be installed
     check_install_prerequisites(_map_resolutions(resolved),
@@ -108,7 +103,7 @@ def install(xylem_keys,
                                       simulate=simulate,
                                       continue_on_error=continue_on_error)
 
-    return resolve_errors, install_errors
+    return resolve_errors, uninstalled_errors + install_errors
 
 
 def _installer_names(resolved):
@@ -233,6 +228,7 @@ def install_resolutions(installer_name,
                                  format(installer_name))
 
     errors = []
+    commands = []
     try:
         commands = installer.get_install_commands(resolutions,
                                                   interactive=interactive,
-- 
2.43.0


From 9f6ce2d754620394c5555e53268d82d5361011a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 16/57] fix: do not interpret installed commands as color
 annotations

---
 xylem/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index a455d19..63c72ab 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -259,9 +259,9 @@ def install_resolutions(installer_name,
 
     # 2. else, run each install command set and collect errors
     for cmd in commands:
-        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
+        info(fmt("@!executing command: %s@|") % ' '.join(cmd))
         exitcode = subprocess.call(cmd)
-        info_v(fmt("@!command return code: %s@|" % exitcode))
+        info_v(fmt("@!command return code: %s@|") % exitcode)
         if exitcode != 0:
             errors.append(InstallError(
                 "command `{}` for installer '{}' failed with return code {}".
-- 
2.43.0


From 64de41d83193e943584fd9fcc4149d05d414fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 17/57] fix: make fmt the inverse of sanitize

---
 xylem/terminal_color.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xylem/terminal_color.py b/xylem/terminal_color.py
index c883ba2..383b766 100644
--- a/xylem/terminal_color.py
+++ b/xylem/terminal_color.py
@@ -29,6 +29,13 @@ if os.name == 'nt':
 
 _ansi = {}
 
+_fmt_sanitizers = {
+    'atexclimation': '@!',
+    'atfwdslash': '@/',
+    'atunderscore': '@_',
+    'atbar': '@|',
+}
+
 
 def ansi(key):
     """Return the escape sequence for a given ansi color key."""
@@ -74,10 +81,7 @@ def enable_ANSI_colors():
         _ansi[short_colors[color] + 'b'] = _ansi[color + 'b']
 
     # Fmt sanitizers
-    _ansi['atexclimation'] = '@!'
-    _ansi['atfwdslash'] = '@/'
-    _ansi['atunderscore'] = '@_'
-    _ansi['atbar'] = '@|'
+    _ansi.update(_fmt_sanitizers)
 
 
 def disable_ANSI_colors():
@@ -88,7 +92,9 @@ def disable_ANSI_colors():
     """
     global _ansi
     for key in _ansi:
-        _ansi[key] = ''
+        # the sanitizers are no escape sequences, but stand for plain text
+        if key not in _fmt_sanitizers:
+            _ansi[key] = ''
 
 # Default to ansi colors on
 enable_ANSI_colors()
@@ -103,8 +109,6 @@ class ColorTemplate(string.Template):
 def sanitize(msg):
     """Sanitize the existing msg, use before adding color annotations."""
     msg = msg.replace('@', '@@')
-    msg = msg.replace('{', '{{')
-    msg = msg.replace('}', '}}')
     msg = msg.replace('@@!', '@{atexclimation}')
     msg = msg.replace('@@/', '@{atfwdslash}')
     msg = msg.replace('@@_', '@{atunderscore}')
-- 
2.43.0


From bc2e13778b75f8c8ab903ff9d00fa5c5d930e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 18/57] fix: do not fix prerequisites when simulating
 installation

---
 xylem/install.py                              | 4 ++++
 xylem/installers/package_manager_installer.py | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/xylem/install.py b/xylem/install.py
index 63c72ab..a4f8eb6 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -74,6 +74,10 @@ def install(xylem_keys,
 
     resolved = _squash_resolutions(res_tuple for _, res_tuple in results)
 
+    # when simulating, only pretend to fix unsatisfied prerequisites
+    if fix_prerequisites and simulate:
+        fix_prerequisites = "simulate"
+
     #  3. check general prerequisites for all installers
     check_general_prerequisites(_installer_names(resolved),
                                 installer_context,
diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 4ec7150..0195832 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -19,6 +19,7 @@ from .impl import InstallerPrerequisiteError
 
 from xylem.util import is_program_installed
 
+from xylem.log_utils import info
 from xylem.log_utils import info_v
 from xylem.log_utils import warning
 from xylem.log_utils import error
@@ -73,6 +74,10 @@ class PackageManagerInstaller(InstallerBase):
             return
         info_v("Package manager '{}' not installed ('{}' not found).".
                format(self.name, self.executable_name))
+        if fix_unsatisfied == "simulate":
+            info("# [{}] would try to install package manager".
+                 format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to install '{}'.".format(self.name))
             try:
@@ -110,6 +115,10 @@ class PackageManagerInstaller(InstallerBase):
             info_v("Package manager '{}' is updated.".format(self.name))
             return
         info_v("Package manager '{}' not updated.".format(self.name))
+        if fix_unsatisfied == "simulate":
+            info("# [{}] would try to update package manager".
+                 format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to update '{}'.".format(self.name))
             try:
-- 
2.43.0


From a5932f6404ff9de393013de500addec5fc780e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 19/57] fix: make prerequisites checks of package manager
 installers work

---
 xylem/installers/package_manager_installer.py | 2 +-
 xylem/installers/plugins/apt.py               | 2 +-
 xylem/installers/plugins/homebrew.py          | 2 +-
 xylem/installers/plugins/macports.py          | 2 +-
 xylem/installers/plugins/pip.py               | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 0195832..612d87d 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -132,4 +132,4 @@ class PackageManagerInstaller(InstallerBase):
                 error("Installer plugin '{}' failed to update itself.".
                       format(self.name))
         warning("Package manager '{}' seems to be out-of-date. Please "
-                "consider updating for best results.")
+                "consider updating for best results.".format(self.name))
diff --git a/xylem/installers/plugins/apt.py b/xylem/installers/plugins/apt.py
index 67fa757..a67b0ee 100644
--- a/xylem/installers/plugins/apt.py
+++ b/xylem/installers/plugins/apt.py
@@ -53,7 +53,7 @@ class AptInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: raise UserInterventionRequiredError with instructions,
         # handle this error specially and print instructions
         raise NotImplementedError()
diff --git a/xylem/installers/plugins/homebrew.py b/xylem/installers/plugins/homebrew.py
index 66c78f2..c4349ef 100644
--- a/xylem/installers/plugins/homebrew.py
+++ b/xylem/installers/plugins/homebrew.py
@@ -57,7 +57,7 @@ class HomebrewInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/macports.py b/xylem/installers/plugins/macports.py
index 5a302cb..6cebe6b 100644
--- a/xylem/installers/plugins/macports.py
+++ b/xylem/installers/plugins/macports.py
@@ -53,7 +53,7 @@ class MacportsInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 3ad68e8..32b4725 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -63,7 +63,7 @@ class PipInstaller(PackageManagerInstaller):
         installed = [row.split("==")[0] for row in installed]
         return [r for r in resolved if r.package not in installed]
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
         raise NotImplementedError()
 
-- 
2.43.0


From e6b0a2eb06bd118a7545089fae0402f0bf8578cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 20/57] fix: return installer dict from lookup without compact

---
 xylem/lookup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index b4e4d50..7fc013e 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -37,7 +37,6 @@ def lookup(xylem_key, compact=False, config=None, sources_context=None,
 
     if compact:
         default_installer_name = ic.get_default_installer_name()
-        compacted = compact_installer_dict(installer_dict,
-                                           default_installer_name)
+        return compact_installer_dict(installer_dict, default_installer_name)
 
-    return compacted
+    return installer_dict
-- 
2.43.0


From 1dcb658f92e0dcf8059510bbe83a6ad156bdba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 21/57] fix: return the parser from create_command_parser

---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 2e3b342..33b295c 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -72,6 +72,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     command_defi['prepare_config'](get_config_description())
     add_config_arguments(parser)
     add_global_arguments(parser)
+    return parser
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From e51202b1a13816dcb0fa09c07d2c7182508ad7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 22/57] fix: print usage if no command is given

---
 xylem/commands/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 33b295c..b8aa1ec 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -140,9 +140,12 @@ def main(sysargs=None):
     handle_global_arguments(args)
     handle_config_arguments(args)
 
+    if getattr(args, 'func', None) is None:
+        print_usage()
+        sys.exit(1)
+
     # FIXME: the following logic and error handling
     try:
-        args.func
         result = args.func(args)
     except XylemError as e:
         if is_debug() or isinstance(e, XylemInternalError):
-- 
2.43.0


From fda7f65cc5627137704c0fa70680abd777c67821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 23/57] fix: keep options that are given before the command
 name

---
 xylem/commands/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index b8aa1ec..9abbf46 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -70,8 +70,14 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     parser = command_defi['prepare_arguments'](parser) or parser
     parser.set_defaults(func=command_defi['main'])
     command_defi['prepare_config'](get_config_description())
+    num_command_actions = len(parser._actions)
     add_config_arguments(parser)
     add_global_arguments(parser)
+    if parser_title:
+        # The main parser has the same config and global arguments; the
+        # default values of a sub-parser would overwrite what it parsed.
+        for action in parser._actions[num_command_actions:]:
+            action.default = argparse.SUPPRESS
     return parser
 
 
-- 
2.43.0


From e98a7c18f64ad00ef1a1383f840842353d421584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 24/57] fix: report invalid configuration as error without
 traceback

---
 xylem/commands/main.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 9abbf46..9b22072 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -144,14 +144,13 @@ def main(sysargs=None):
 
     args = parser.parse_args(sysargs)
     handle_global_arguments(args)
-    handle_config_arguments(args)
-
-    if getattr(args, 'func', None) is None:
-        print_usage()
-        sys.exit(1)
 
     # FIXME: the following logic and error handling
     try:
+        handle_config_arguments(args)
+        if getattr(args, 'func', None) is None:
+            print_usage()
+            sys.exit(1)
         result = args.func(args)
     except XylemError as e:
         if is_debug() or isinstance(e, XylemInternalError):
-- 
2.43.0


From a5f01c7a1a2377106cbc6c90e7762fd3c08864a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 25/57] fix: repair checking and clearing of cache files

---
 xylem/sources/database.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 151b507..9052bcc 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -168,9 +168,10 @@ class RulesSource(object):
             return True
         cache_data = _read_cache(self.cache_file_path())
         # here we could also check xylem version if needed in the future
-        if self.spec.name != cache_data('spec_name'):
+        if self.spec.name != cache_data['spec_name']:
             return True
-        return self.spec.is_data_outdated(cache_data['data'], self.arguments)
+        return self.spec.is_data_outdated(cache_data['data'], self.arguments,
+                                          cache_data['time_data_loaded'])
 
     def is_cache_available(self):
         path = self.cache_file_path()
@@ -183,14 +184,14 @@ class RulesSource(object):
 
         :raises OSError: if cache file cannot be removed
         """
-        path = self.cache_file_path(self.sources_context)
+        path = self.cache_file_path()
         if os.path.exists(path):
             if is_verbose():
-                info("Removing cache file '%s'.", path)
+                info("Removing cache file '%s'." % path)
             os.remove(path)
         else:
             if is_verbose():
-                info("Cache file '%s' already clear.", path)
+                info("Cache file '%s' already clear." % path)
 
     def lookup(self, xylem_key, installer_context):
         installer_dict = self.spec.lookup(
-- 
2.43.0


From 69cf2bc48cf3555fac9f03b9e03d848f6bedb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 26/57] fix: process os_override of dict configs in
 ensure_config

---
 xylem/config.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xylem/config.py b/xylem/config.py
index 12b63b0..70abf4e 100644
--- a/xylem/config.py
+++ b/xylem/config.py
@@ -289,6 +289,14 @@ def process_config(config, args):
             else:
                 config.sources_dir = sources_dir(
                     system_config_dir(args.prefix, XYLEM_TOOL_NAME))
+    process_os_override(config)
+
+
+def process_os_override(config):
+    """Parse ``"os_override"`` into (name, version) tuple.
+
+    Also handles the potential override of ``"os_options/features"``.
+    """
     if config.os_override is not None:
         name, version, features = parse_os_override(config.os_override)
         config.os_override = (name, version)
@@ -313,6 +321,8 @@ def ensure_config(config):
     if isinstance(config, ConfigDict):
         return config
     if isinstance(config, dict):
-        return config_from_parsed_yaml(
+        config = config_from_parsed_yaml(
             config, get_config_description(), use_defaults=True)
+        process_os_override(config)
+        return config
     raise ValueError("invalid config of type '{}'".format(type_name(config)))
-- 
2.43.0


From 899049e5abda3dcf00bc6f3bd232028486bafb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 27/57] fix: do not share mutable default values between config
 dicts

---
 xylem/config_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 0445646..75cc8c6 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1132,9 +1132,9 @@ def config_from_defaults(description):
             group, subname = split_group(name)
             if group not in result:
                 result[group] = ConfigDict()
-            result[group][subname] = item.default
+            result[group][subname] = deepcopy(item.default)
         else:
-            result[name] = item.default
+            result[name] = deepcopy(item.default)
     return result
 
 
-- 
2.43.0


From 97738c20220cad1bdda8a0a1b5c41b01043a0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 28/57] fix: return the result from ceorce_config_dict

---
 xylem/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 75cc8c6..12134d8 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -355,6 +355,7 @@ def ceorce_config_dict(config, copy=False):
     result = ConfigDict()
     for k, v in six.iteritems(config):
         result[k] = ceorce_config_dict(v, copy=copy)
+    return result
 
 
 def copy_to_dict(config):
-- 
2.43.0


From 01153994d5c42dbc768e51957b01461b28269310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 29/57] fix: handle null entries in install_from and
 installer_options

---
 xylem/installers/impl.py | 3 ++-
 xylem/resolve.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/impl.py b/xylem/installers/impl.py
index 2ab89df..eaec1b5 100644
--- a/xylem/installers/impl.py
+++ b/xylem/installers/impl.py
@@ -398,7 +398,8 @@ class InstallerContext(object):
 
         #  1. Go through all installers and set options from config
         for inst in self.installer_plugins:
-            inst.options = self.config.installer_options.get(inst.name, {})
+            # treat null like an empty dict
+            inst.options = self.config.installer_options.get(inst.name) or {}
 
         #  2. setup core installers from config or OS plugin
         if self.config.core_installers is not None:
diff --git a/xylem/resolve.py b/xylem/resolve.py
index f2a6716..3a9f19c 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -72,7 +72,7 @@ def resolve(xylem_keys,
     #       `install-from "pip: python-*"`
     install_from_map = dict()
     for inst, keys in six.iteritems(config.install_from):
-        for k in keys:
+        for k in keys or []:  # treat null like an empty list
             if k in install_from_map:
                 error("ignoring 'install from {}' for key '{}'; "
                       "already configured to install from '{}'".
-- 
2.43.0


From d13095452d26148c9ce8649eb9649272feff38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 30/57] fix: do not abort resolving all keys if lookup fails
 for one key

---
 xylem/sources/database.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 9052bcc..fc58bb2 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -23,6 +23,7 @@ import tempfile
 import six.moves.cPickle as pickle
 
 from xylem import __version__
+from xylem.exception import raise_from
 from xylem.log_utils import error
 from xylem.log_utils import warning
 from xylem.log_utils import info
@@ -330,9 +331,12 @@ class RulesDatabase(object):
         """Return rules for xylem key in current os."""
         installer_dict = {}
         # TODO: merge the other way round
-        # TODO: catch errors down the line and wrap in meaningful LookupError
         for source in reversed(self.sources):
-            new_rules = source.lookup(xylem_key, installer_context)
+            try:
+                new_rules = source.lookup(xylem_key, installer_context)
+            except ValueError as e:
+                raise_from(LookupError, "invalid rules for '{0}' in source "
+                           "'{1}'".format(xylem_key, source.unique_id()), e)
             merge_installer_dict(new_rules, installer_dict, None)
         return installer_dict
 
-- 
2.43.0


From 5f1b946d719f9814d06592924d2ce219dccbd3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 31/57] fix: stop OS detection at the first matching detector

---
 xylem/os_support/os_detect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index c0ede3a..43b254c 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -444,6 +444,7 @@ class OsDetect(object):
                     self._os_version = os_detector.get_version()
                     self._os_codename = os_detector.get_codename()
                     self._os_detector = os_detector
+                    break
 
         if self._os_name:
             return self._os_name, self._os_version, self._os_codename
-- 
2.43.0


From 1d9be45bd2e6961d041681c8ef58161d8b1888b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 32/57] fix: do not leak detectors added to one OsDetect into
 others

---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 43b254c..c57b815 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -394,7 +394,7 @@ class OsDetect(object):
 
     def __init__(self, os_list = None):
         if os_list is None:
-            os_list = OsDetect.default_os_list
+            os_list = OsDetect.default_os_list[:]
         self._os_list = os_list
         self._os_name = None
         self._os_version = None
-- 
2.43.0


From 36c7be204d97287966db7020c4eef40fbaf91600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 33/57] fix: raise YAMLError for any invalid YAML document

---
 xylem/yaml_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index b917ed0..72d9add 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -24,6 +24,8 @@ from __future__ import unicode_literals
 
 import yaml
 
+from xylem.exception import raise_from
+
 
 def load_yaml(data):
     """Parse a unicode string containing yaml.
@@ -43,7 +45,12 @@ def load_yaml(data):
     MyLoader.add_constructor(
         'tag:yaml.org,2002:str', MyLoader.construct_yaml_str)
 
-    return yaml.load(data, Loader=MyLoader)
+    try:
+        return yaml.load(data, Loader=MyLoader)
+    except (ValueError, AttributeError, TypeError) as e:
+        # the constructors for scalars raise these for malformed values,
+        # e.g. for the date `2014-02-30`
+        raise_from(yaml.YAMLError, "malformed scalar value", e)
 
 
 def dump_yaml(data, inline=False):
-- 
2.43.0


From bc8f3087edf6aa4cef1645b5e90f7ffc3fec2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 34/57] fix: raise YAMLError for malformed scalars that fail
 with other errors

---
 xylem/yaml_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index 72d9add..d672d72 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -47,7 +47,8 @@ def load_yaml(data):
 
     try:
         return yaml.load(data, Loader=MyLoader)
-    except (ValueError, AttributeError, TypeError) as e:
+    except (ValueError, AttributeError, TypeError, LookupError,
+            OverflowError) as e:
         # the constructors for scalars raise these for malformed values,
         # e.g. for the date `2014-02-30`
         raise_from(yaml.YAMLError, "malformed scalar value", e)
-- 
2.43.0


From a8be52080f7f4b14e63fb2cca3a16dbaabb84961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 35/57] fix: compact version dicts where only any_version
 remains

---
 xylem/specs/plugins/rules.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..616b0ac 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -497,11 +497,7 @@ def compact_version_dict(version_dict, default_installer):
     if has_any_version:
         any_version_installer_dict = compact_installer_dict(
             version_dict['any_version'], default_installer)
-        if len(version_dict) == 1 and \
-                not isinstance(any_version_installer_dict, dict):
-            return any_version_installer_dict
-        else:
-            new_version_dict['any_version'] = any_version_installer_dict
+        new_version_dict['any_version'] = any_version_installer_dict
 
     for version, installer_dict in version_dict.items():
 
@@ -511,6 +507,10 @@ def compact_version_dict(version_dict, default_installer):
             if not (has_any_version and
                     installer_dict == any_version_installer_dict):
                 new_version_dict[version] = installer_dict
+
+    if has_any_version and len(new_version_dict) == 1 and \
+            not isinstance(any_version_installer_dict, dict):
+        return any_version_installer_dict
     return new_version_dict
 
 
-- 
2.43.0


From 7387305f0ee4781f17619e61af11f60d30c76a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 36/57] Revert "fix: compact version dicts where only
 any_version remains"

This reverts commit a8be52080f7f4b14e63fb2cca3a16dbaabb84961.
---
 xylem/specs/plugins/rules.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 616b0ac..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -497,7 +497,11 @@ def compact_version_dict(version_dict, default_installer):
     if has_any_version:
         any_version_installer_dict = compact_installer_dict(
             version_dict['any_version'], default_installer)
-        new_version_dict['any_version'] = any_version_installer_dict
+        if len(version_dict) == 1 and \
+                not isinstance(any_version_installer_dict, dict):
+            return any_version_installer_dict
+        else:
+            new_version_dict['any_version'] = any_version_installer_dict
 
     for version, installer_dict in version_dict.items():
 
@@ -507,10 +511,6 @@ def compact_version_dict(version_dict, default_installer):
             if not (has_any_version and
                     installer_dict == any_version_installer_dict):
                 new_version_dict[version] = installer_dict
-
-    if has_any_version and len(new_version_dict) == 1 and \
-            not isinstance(any_version_installer_dict, dict):
-        return any_version_installer_dict
     return new_version_dict
 
 
-- 
2.43.0


From f110741641e6786f9672bb9bdca6b219404607f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 37/57] Revert "fix: raise SpecParsingError instead of failing
 in its constructor"

This reverts commit beacfacde153e0d0d65fe81d7c819c6aac5d5434.
---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..620f4fe 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        super(SpecParsingError, self).__init__(msg)
+        ValueError.__init__(self, msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From c9d1de576c96f26a73d424079c90cf9aca126302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 38/57] fix: raise DownloadFailure for invalid URLs and unknown
 charsets

---
 xylem/load_url.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index 2b00d28..038f838 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -64,8 +64,9 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
-        except (EnvironmentError, HTTPException) as e:
-            # e.g. timeout or broken connection while reading the response
+        except (EnvironmentError, HTTPException, ValueError) as e:
+            # e.g. timeout or broken connection while reading the response, or
+            # invalid URL
             if isinstance(e, socket.timeout) and retry:
                 retry -= 1
                 time.sleep(retry_period)
@@ -76,4 +77,8 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    return to_str(data, encoding=encoding)
+    try:
+        return to_str(data, encoding=encoding)
+    except LookupError as e:
+        raise_from(DownloadFailure, "Failed to decode data from url '{0}'.".
+                   format(url), e)
-- 
2.43.0


From 66caa3e5ce6e701a3e89079b3186e8c1afc89782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 39/57] fix: report config files that are not valid UTF-8

---
 xylem/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 12134d8..646254f 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -241,7 +241,7 @@ def load_config_file_yaml(path):
         if os.path.isfile(path):
             with open(path, 'rb') as f:
                 binary_data = f.read()
-            config = load_yaml(to_str(binary_data))
+            config = load_yaml(to_str(binary_data, errors='strict'))
         else:
             config = None
         return process_config_file_yaml(config)
-- 
2.43.0


From ebb4bce1c83d31cf27d763905086f35b856d02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 40/57] fix: raise YAMLError for too deeply nested documents

---
 xylem/yaml_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index d672d72..dd4284f 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -52,6 +52,9 @@ def load_yaml(data):
         # the constructors for scalars raise these for malformed values,
         # e.g. for the date `2014-02-30`
         raise_from(yaml.YAMLError, "malformed scalar value", e)
+    except RuntimeError as e:
+        # maximum recursion depth exceeded
+        raise_from(yaml.YAMLError, "too deeply nested structure", e)
 
 
 def dump_yaml(data, inline=False):
-- 
2.43.0


From 49929778b8a81412088b7382546f11367dd7fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 41/57] fix: report failing sw_vers as undetected OS X version

---
 xylem/os_support/os_detect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index c57b815..4d18595 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -238,6 +238,8 @@ class OSX(OsDetector):
     def get_codename(self):
         if self.is_os():
             version = self.get_version()
+            if version is None:
+                raise OsNotDetected("could not run %s" % self._sw_vers_file)
             import distutils.version # To parse version numbers
             try:
                 ver = distutils.version.StrictVersion(version).version
-- 
2.43.0


From ebad7e29db75f13a71571fafabf4c40af9daa39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 42/57] fix: report commands that cannot be executed as install
 errors

---
 xylem/install.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index a4f8eb6..8353b32 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -264,7 +264,15 @@ def install_resolutions(installer_name,
     # 2. else, run each install command set and collect errors
     for cmd in commands:
         info(fmt("@!executing command: %s@|") % ' '.join(cmd))
-        exitcode = subprocess.call(cmd)
+        try:
+            exitcode = subprocess.call(cmd)
+        except OSError as e:
+            errors.append(chain_exception(
+                InstallError, "command `{}` for installer '{}' could not be "
+                "executed".format(' '.join(cmd), installer_name), e))
+            if not continue_on_error:
+                return errors
+            continue
         info_v(fmt("@!command return code: %s@|") % exitcode)
         if exitcode != 0:
             errors.append(InstallError(
-- 
2.43.0


From 82f2aa3cb12c82e8b02b3bdafad67b1c35f3b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 43/57] fix: report missing cache and failing lookups without
 traceback

---
 xylem/commands/lookup.py | 5 +++++
 xylem/commands/main.py   | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/xylem/commands/lookup.py b/xylem/commands/lookup.py
index 3cf70c6..b8862ec 100644
--- a/xylem/commands/lookup.py
+++ b/xylem/commands/lookup.py
@@ -17,11 +17,13 @@ from __future__ import unicode_literals
 import sys
 
 from xylem.log_utils import info
+from xylem.log_utils import error
 from xylem.config import get_config
 from xylem.lookup import lookup
 from xylem.installers import InstallerContext
 from xylem.yaml_utils import dump_yaml
 from xylem.terminal_color import ansi
+from xylem.exception import exc_to_str
 
 from .main import command_handle_args
 
@@ -52,6 +54,9 @@ def main(args=None):
                  format(ansi('cyanf') + key + ansi('reset'),
                         ansi('cyanf') + ic.get_os_string() + ansi('reset'),
                         ansi('yellowf') + dump_yaml(result)[:-1]))
+    except LookupError as e:
+        error(exc_to_str(e))
+        sys.exit(1)
     except (KeyboardInterrupt, EOFError):
         # Note: @William why EOFError here?
         info('')
diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 9b22072..0db2b5b 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -158,6 +158,13 @@ def main(sysargs=None):
         else:
             error(exc_to_str(e, tb=False, chain=True))
         sys.exit(1)
+    except EnvironmentError as e:
+        # e.g. missing cache
+        if is_debug():
+            print_exc(exc_to_str(e, tb=True, chain=True))
+        else:
+            error(exc_to_str(e, tb=False, chain=True))
+        sys.exit(1)
     except (KeyboardInterrupt, EOFError):
         info('')
         sys.exit(1)
-- 
2.43.0


From abe4254d22a6037987cae84b19047ea331649232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 44/57] fix: dump text containing the next-line character such
 that it loads back

---
 xylem/yaml_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index dd4284f..879af5c 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -78,7 +78,13 @@ def dump_yaml(data, inline=False):
         def represent_none(self, data):
             return self.represent_scalar('tag:yaml.org,2002:null', '')
 
+        def represent_text(self, data):
+            # next-line characters are only preserved if they are escaped
+            style = '"' if '\x85' in data else None
+            return self.represent_scalar('tag:yaml.org,2002:str', data, style)
+
     MyDumper.add_representer(type(None), MyDumper.represent_none)
+    MyDumper.add_representer(type(''), MyDumper.represent_text)
     MyDumper.add_representer(ConfigDict, MyDumper.represent_dict)
 
     result = yaml.dump(data,
-- 
2.43.0


From a6aa3c110038ebcdd6d2da037b17a9876ee87426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 45/57] fix: restore working directory even if a temporary
 directory cannot be removed

---
 xylem/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/util.py b/xylem/util.py
index d55c77d..a0f6d1e 100644
--- a/xylem/util.py
+++ b/xylem/util.py
@@ -72,10 +72,10 @@ class temporary_directory(object):
         return self.temp_path
 
     def __exit__(self, exc_type, exc_value, traceback):
-        if self.temp_path and os.path.exists(self.temp_path):
-            shutil.rmtree(self.temp_path)
         if self.original_cwd and os.path.exists(self.original_cwd):
             os.chdir(self.original_cwd)
+        if self.temp_path and os.path.exists(self.temp_path):
+            shutil.rmtree(self.temp_path)
 
 
 # TODO: document this soft dependency on pygments, and also add unit
-- 
2.43.0


From 16efb8c19c6f3e3eaca9f1396bc5ac33bc273065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 46/57] fix: treat unreadable release files as no release files

---
 xylem/os_support/os_detect.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 4d18595..7100ba9 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -56,8 +56,11 @@ def read_issue(filename="/etc/issue"):
     :returns: list of strings in issue file, or None if issue file cannot be read/split
     """
     if os.path.exists(filename):
-        with codecs.open(filename, 'r', encoding=locale.getpreferredencoding()) as f:
-            return f.read().split()
+        try:
+            with codecs.open(filename, 'r', encoding=locale.getpreferredencoding()) as f:
+                return f.read().split()
+        except (IOError, UnicodeError):
+            pass
     return None
 
 class OsNotDetected(Exception):
-- 
2.43.0


From 93c16441492b9c5c23cdccb59691d6c7f26bcd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 47/57] fix: OS not detected instead of crash for incomplete
 release files

---
 xylem/os_support/os_detect.py | 37 ++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 7100ba9..af629cd 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -140,7 +140,7 @@ class OpenSuse(OsDetector):
                 os_list = fh.read().strip().split('\n')
                 if len(os_list) == 2:
                     os_list = os_list[1].split(' = ')
-                    if os_list[0] == "VERSION":
+                    if os_list[0] == "VERSION" and len(os_list) > 1:
                         return os_list[1]
         raise OsNotDetected('cannot get version on this OS')
 
@@ -150,7 +150,7 @@ class OpenSuse(OsDetector):
                 os_list = fh.read().strip().split('\n')
                 for line in os_list:
                    kv = line.split(' = ')
-                   if kv[0] == "CODENAME":
+                   if kv[0] == "CODENAME" and len(kv) > 1:
                      return kv[1]
         raise OsNotDetected('called in incorrect OS')
 
@@ -169,20 +169,20 @@ class Fedora(OsDetector):
     def get_version(self):
         if self.is_os():
             os_list = read_issue(self._issue_file)
-            idx = os_list.index('release')
-            if idx > 0:
+            if os_list and 'release' in os_list[1:-1]:
+                idx = os_list.index('release', 1)
                 return os_list[idx+1]
         raise OsNotDetected('cannot get version on this OS')
 
     def get_codename(self):
         if self.is_os():
             os_list = read_issue(self._release_file)
-            idx = os_list.index('release')
             matches = [x for x in os_list if x[0] == '(']
-            codename = matches[0][1:]
-            if codename[-1] == ')':
-                codename = codename[:-1]
-            return codename.lower()
+            if matches:
+                codename = matches[0][1:]
+                if codename.endswith(')'):
+                    codename = codename[:-1]
+                return codename.lower()
         raise OsNotDetected('called in incorrect OS')
 
 class Rhel(Fedora):
@@ -199,20 +199,21 @@ class Rhel(Fedora):
     def get_version(self):
         if self.is_os():
             os_list = read_issue(self._release_file)
-            idx = os_list.index('release')
-            return os_list[idx+1]
+            if 'release' in os_list[:-1]:
+                idx = os_list.index('release')
+                return os_list[idx+1]
         raise OsNotDetected('called in incorrect OS')
 
     def get_codename(self):
         # taroon, nahant, tikanga, santiago, pensacola
         if self.is_os():
             os_list = read_issue(self._release_file)
-            idx = os_list.index('release')
             matches = [x for x in os_list if x[0] == '(']
-            codename = matches[0][1:]
-            if codename[-1] == ')':
-                codename = codename[:-1]
-            return codename.lower()
+            if matches:
+                codename = matches[0][1:]
+                if codename.endswith(')'):
+                    codename = codename[:-1]
+                return codename.lower()
         raise OsNotDetected('called in incorrect OS')
 
 # Source: http://en.wikipedia.org/wiki/Mac_OS_X#Versions
@@ -334,12 +335,12 @@ class Gentoo(OsDetector):
 
     def is_os(self):
         os_list = read_issue(self._release_file)
-        return os_list and os_list[0] == "Gentoo" and os_list[1] == "Base"
+        return os_list and os_list[:2] == ["Gentoo", "Base"]
 
     def get_version(self):
         if self.is_os():
             os_list = read_issue(self._release_file)
-            if os_list[0] == "Gentoo" and os_list[1] == "Base":
+            if os_list[0] == "Gentoo" and os_list[1] == "Base" and len(os_list) > 4:
                 return os_list[4]
         raise OsNotDetected('called in incorrect OS')
 
-- 
2.43.0


From 7c8d7c02e672abed2329ee932a2be60d178bcdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 48/57] fix: OS not detected instead of crash if uname cannot
 be run

---
 xylem/os_support/os_detect.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index af629cd..142c909 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -274,7 +274,7 @@ class QNX(OsDetector):
     def is_os(self):
         if os.path.exists(self._uname_file):
             std_out = _read_stdout([self._uname_file])
-            return std_out.strip() == self._os_name_qnx
+            return std_out is not None and std_out.strip() == self._os_name_qnx
         else:
             return False
 
@@ -285,7 +285,9 @@ class QNX(OsDetector):
 
     def get_version(self):
         if self.is_os() and os.path.exists(self._uname_file):
-            return _read_stdout([self._uname_file, "-r"])
+            version = _read_stdout([self._uname_file, "-r"])
+            if version is not None:
+                return version
         raise OsNotDetected('called in incorrect OS')
 
 
@@ -318,7 +320,9 @@ class Cygwin(OsDetector):
 
     def get_version(self):
         if self.is_os():
-            return _read_stdout(['uname','-r'])
+            version = _read_stdout(['uname','-r'])
+            if version is not None:
+                return version
         raise OsNotDetected('called in incorrect OS')
 
     def get_codename(self):
@@ -359,13 +363,15 @@ class FreeBSD(OsDetector):
     def is_os(self):
         if os.path.exists(self._uname_file):
             std_out = _read_stdout([self._uname_file])
-            return std_out.strip() == "FreeBSD"
+            return std_out is not None and std_out.strip() == "FreeBSD"
         else:
             return False
 
     def get_version(self):
         if self.is_os() and os.path.exists(self._uname_file):
-            return _read_stdout([self._uname_file, "-r"])
+            version = _read_stdout([self._uname_file, "-r"])
+            if version is not None:
+                return version
         raise OsNotDetected('called in incorrect OS')
 
     def get_codename(self):
-- 
2.43.0


From 863db59463cacbb6441dec2d6f0012c038b24db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 49/57] fix: keep the rules file if writing the compacted rules
 fails

---
 xylem/commands/_compact_rules_file.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/xylem/commands/_compact_rules_file.py b/xylem/commands/_compact_rules_file.py
index 8b40355..f485677 100644
--- a/xylem/commands/_compact_rules_file.py
+++ b/xylem/commands/_compact_rules_file.py
@@ -14,8 +14,10 @@
 
 from __future__ import unicode_literals
 
-import sys
 import os
+import shutil
+import sys
+import tempfile
 
 from xylem.sources.rules_dict import verify_rules_dict
 
@@ -53,6 +55,25 @@ def prepare_config(description):
     pass
 
 
+def _replace_content(filepath, content):
+    # Write to a temporary file first, such that the rules are not lost
+    # if writing fails or is interrupted.
+    filepath = os.path.realpath(filepath)
+    fd, tmp_path = tempfile.mkstemp(
+        prefix=os.path.basename(filepath) + ".", suffix=".tmp",
+        dir=os.path.dirname(filepath))
+    try:
+        with os.fdopen(fd, 'wb') as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        shutil.copymode(filepath, tmp_path)
+        os.rename(tmp_path, filepath)
+    except BaseException:
+        os.remove(tmp_path)
+        raise
+
+
 def main(args=None):
     args = command_handle_args(args, definition)
     try:
@@ -73,8 +94,7 @@ def main(args=None):
         # output result
         dump = dump_yaml(compacted)
         if args.write:
-            with open(filepath, 'wb') as f:
-                f.write(to_bytes(dump))
+            _replace_content(filepath, to_bytes(dump))
         else:
             info(dump)
     except (KeyboardInterrupt, EOFError):
-- 
2.43.0


From 9cbc4028fc6f312ba283f278536e650d6b495305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 50/57] fix: reject rules files that are not UTF-8 when
 compacting

---
 xylem/commands/_compact_rules_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/commands/_compact_rules_file.py b/xylem/commands/_compact_rules_file.py
index f485677..adb4ba7 100644
--- a/xylem/commands/_compact_rules_file.py
+++ b/xylem/commands/_compact_rules_file.py
@@ -82,7 +82,7 @@ def main(args=None):
 
         # parse rules file
         with open(filepath, 'rb') as f:
-            data = to_str(f.read())
+            data = to_str(f.read(), errors='strict')
         rules = load_yaml(data)
         rules = expand_rules(rules)
         verify_rules_dict(rules)
-- 
2.43.0


From e221fd1b81b09b2cbbcf7f0091131a794ea2b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 51/57] fix: accept plain dicts as config for lookup and update

---
 xylem/lookup.py | 5 ++---
 xylem/update.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index 7fc013e..0030619 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -18,14 +18,13 @@ from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 from xylem.installers import InstallerContext
 from xylem.specs.plugins.rules import compact_installer_dict
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 def lookup(xylem_key, compact=False, config=None, sources_context=None,
            installer_context=None):
 
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
 
     sources_context = sources_context or SourcesContext(config)
     ic = installer_context or InstallerContext(config)
diff --git a/xylem/update.py b/xylem/update.py
index 63a1d4c..990dbbb 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -21,7 +21,7 @@ from __future__ import unicode_literals
 from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 # TODO: remove handle_spec_urls (move some logic into the accoring
@@ -75,8 +75,7 @@ def update(dry_run=False, config=None, sources_context=None):
         context from ``config`` is created
     :type sources_context: `SourcesContext` or `None`
     """
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
     sources_context = sources_context or SourcesContext(config)
     if not dry_run:
         sources_context.ensure_cache_dir()
-- 
2.43.0


From 1741a0e9256d42a6ff7b6052f0632d2b1deddde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 52/57] fix: list rule keys, options and installers in messages
 in a fixed order

The messages about unknown rule keys and options listed them in the
arbitrary order of a set, and those about the installers rules are
available for as 'dict_keys([...])' in the order of the rules file.
---
 xylem/config_utils.py              | 2 +-
 xylem/installers/installer_base.py | 7 ++++---
 xylem/os_support/os_base.py        | 4 ++--
 xylem/resolve.py                   | 5 +++--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 646254f..ff9a08d 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -672,7 +672,7 @@ class Dict(ConfigType):
                 raise ConfigValueError(
                     "Dicts defined via multiple command line arguments must "
                     "have unique keys. These keys occur more than once: `{}`.".
-                    format(existing_keys))
+                    format(to_str(sorted(existing_keys, key=to_str))))
             result.update(d)
         return self.from_yaml(result)
 
diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 6be1a43..722816f 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -162,8 +162,8 @@ class InstallerBase(six.with_metaclass(abc.ABCMeta, Installer)):
         if unused_keys:
             warning("ignoring the following unknown options for installer "
                     "'{}': {} -- known options are: {}".
-                    format(self.name, to_str(list(unused_keys)),
-                           to_str(self._options.keys())))
+                    format(self.name, to_str(sorted(unused_keys, key=to_str)),
+                           to_str(sorted(self._options.keys()))))
 
     def use_as_additional_installer(self, os_tuple):
         return False
@@ -183,7 +183,8 @@ class InstallerBase(six.with_metaclass(abc.ABCMeta, Installer)):
                     "installer '{}' while parsing installer rule with "
                     "packages {}: {}".format(self.name,
                                              to_str(parsed_rule.packages),
-                                             to_str(list(unused_keys))))
+                                             to_str(sorted(unused_keys,
+                                                           key=to_str))))
         return parsed_rule
 
     def get_depends(self, installer_rule):
diff --git a/xylem/os_support/os_base.py b/xylem/os_support/os_base.py
index a99ca63..89464c1 100644
--- a/xylem/os_support/os_base.py
+++ b/xylem/os_support/os_base.py
@@ -97,8 +97,8 @@ class OSBase(OS):
         if unused_keys:
             warning("ignoring the following unknown options for os plugin "
                     "'{}': {} -- known options are: {}".
-                    format(self.name, to_str(list(unused_keys)),
-                           to_str(self._options.keys())))
+                    format(self.name, to_str(sorted(unused_keys, key=to_str)),
+                           to_str(sorted(self._options.keys()))))
 
     @property
     def name(self):
diff --git a/xylem/resolve.py b/xylem/resolve.py
index 3a9f19c..2cd0a62 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -109,7 +109,8 @@ def resolve(xylem_keys,
                     "explicitly requested to install '{}' from '{}', but no "
                     "rule for that installer was found; found rules for "
                     "installers: `{}`".
-                    format(key, inst_name, to_str(installer_dict.keys())))))
+                    format(key, inst_name,
+                           to_str(sorted(installer_dict.keys()))))))
                 continue
             info_v("found rule for key '{}' for explicitly requested "
                    "installer '{}'".format(key, inst_name))
@@ -139,7 +140,7 @@ def resolve(xylem_keys,
                     format(key,
                            to_str(ic.core_installer_names),
                            to_str(ic.additional_installer_names),
-                           to_str(installer_dict.keys())))))
+                           to_str(sorted(installer_dict.keys()))))))
                 continue
 
         # 4.3.  Resolve with determined installer
-- 
2.43.0


From 61f7c500fe72c93188e11b3eec4bbdfb03438a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 53/57] fix: don't take an interrupt during OS detection for a
 failed program

---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 142c909..2ee07b5 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -42,7 +42,7 @@ def _read_stdout(cmd):
         if isinstance(std_out, str):
             return std_out.strip()
         return std_out.decode(encoding='UTF-8').strip()
-    except:
+    except Exception:
         return None
 
 def uname_get_machine():
-- 
2.43.0


From 57763145fc94b8a313168f9d2088f5183cb4b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:01 +0000
Subject: [PATCH 54/57] fix: help of options whose default value contains a
 percent sign

---
 xylem/config_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index ff9a08d..52127aa 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -810,7 +810,9 @@ class ConfigItem(object):
         info += ["type: {}".format(type_name(self.type))]
         if self.default != self.type.unset_value():
             info.append("default: {}".format(self.default))
-        help += "(" + ", ".join(info) + ")"
+        info = ", ".join(info)
+        # argparse expands the help text with the % operator
+        help += "(" + info.replace("%", "%%") + ")"
         return help
 
     def add_argument(self, parser):
-- 
2.43.0


From f66b6fb5334aa32ffc26231919050407276f959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:55 +0000
Subject: [PATCH 55/57] fix: name the installer in the error of a failed
 install command

---
 xylem/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 8353b32..1982887 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -277,7 +277,7 @@ def install_resolutions(installer_name,
         if exitcode != 0:
             errors.append(InstallError(
                 "command `{}` for installer '{}' failed with return code {}".
-                format(' '.join(cmd), installer, exitcode)))
+                format(' '.join(cmd), installer_name, exitcode)))
             if not continue_on_error:
                 return errors
 
-- 
2.43.0


From 08b202de9d73e71feaed9824c6120b5bda19554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:47 +0000
Subject: [PATCH 56/57] fix: show errors of commands run by their own program
 like xylem does

---
 xylem/commands/main.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 0db2b5b..c657753 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -85,9 +85,7 @@ def command_handle_args(args, definition):
     """Helper for commands."""
     if args is None:
         parser = create_command_parser(definition, argparse.ArgumentParser)
-        args = parser.parse_args()
-        handle_global_arguments(args)
-        handle_config_arguments(args)
+        run_command(parser.parse_args())
     return args
 
 
@@ -143,6 +141,14 @@ def main(sysargs=None):
     create_subparsers(parser, cmds)
 
     args = parser.parse_args(sysargs)
+    run_command(args)
+
+
+def run_command(args):
+    """Run the command selected by parsed arguments, and exit.
+
+    :param argparse.Namespace args: parsed arguments
+    """
     handle_global_arguments(args)
 
     # FIXME: the following logic and error handling
-- 
2.43.0


From f65e023069717547810954581dfaad2f27fcab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:41 +0000
Subject: [PATCH 57/57] fix: compact rules files in which keys are aliases of
 each other

---
 xylem/commands/_compact_rules_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xylem/commands/_compact_rules_file.py b/xylem/commands/_compact_rules_file.py
index adb4ba7..2e36b92 100644
--- a/xylem/commands/_compact_rules_file.py
+++ b/xylem/commands/_compact_rules_file.py
@@ -14,6 +14,7 @@
 
 from __future__ import unicode_literals
 
+import copy
 import os
 import shutil
 import sys
@@ -86,6 +87,9 @@ def main(args=None):
         rules = load_yaml(data)
         rules = expand_rules(rules)
         verify_rules_dict(rules)
+        # compacting modifies the rules of each key, which must not be shared
+        rules = dict((key, copy.deepcopy(os_dict))
+                     for key, os_dict in rules.items())
 
         # compact rules
         compacted = compact_rules(
-- 
2.43.0

