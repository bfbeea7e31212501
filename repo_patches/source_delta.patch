From 57e86765a8fff241756ad8f8851e210ed1d3e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 01/41] fix: writing string variables to SOFA files

stringtochar() encodes its input if the encoding is 'utf-8', which fails for
the byte strings passed by write_sofa with current versions of netCDF4.
---
 sofar/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 558622a..c1fe05d 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -2,7 +2,7 @@
 import contextlib
 import os
 import numpy as np
-from netCDF4 import Dataset, chartostring, stringtochar
+from netCDF4 import Dataset, chartostring
 import warnings
 import pathlib
 from packaging.version import parse
@@ -330,7 +330,9 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='utf-8')
+                # split strings into single characters
+                tmp_var[:] = np.ascontiguousarray(
+                    value)[..., np.newaxis].view("S1")
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
-- 
2.43.0


From 3526ab27f1aefd20a0d66b672c64143dafb76fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 02/41] fix: string length of multi-dimensional string
 variables

max() can not be used for multi-dimensional arrays. Verifying and writing
string variables with more than one column raised a ValueError.
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d629feb..0d53c66 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1779,7 +1779,7 @@ class Sofa():
             S = len(max(value, key=len))
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(len)(value))
+            S = np.max(np.vectorize(len)(value))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From aad1e5753624e5b11c6f572be54d4e68ab36851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 03/41] fix: writing and reading string variables with
 non-ASCII characters

Strings are encoded as UTF-8 and S is the length of the encoded strings.
---
 sofar/io.py   | 7 +++++--
 sofar/sofa.py | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index c1fe05d..24dce3d 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -378,7 +378,10 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = "f8"
     elif dtype == "string":
-        value = np.array(value, dtype=f"S{str(S)}")
+        value = np.asarray(value)
+        if value.dtype.kind == "U":
+            value = np.char.encode(value, "utf-8")
+        value = value.astype(f"S{str(S)}")
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = 'S1'
     else:
@@ -414,7 +417,7 @@ def _format_value_from_netcdf(value, key):
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
         if str(value.dtype)[1] == "S":
-            value = chartostring(value, encoding="ascii")
+            value = chartostring(value, encoding="utf-8")
         value = np.atleast_1d(value).astype("U")
     else:
         raise TypeError(
diff --git a/sofar/sofa.py b/sofar/sofa.py
index 0d53c66..cd6cfef 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1773,12 +1773,14 @@ class Sofa():
         """
 
         if isinstance(value, str):
-            S = len(value)
+            S = len(value.encode())
             shape = (1, 1)
         elif isinstance(value, list):
-            S = len(max(value, key=len))
+            S = max(len(v.encode()) for v in value)
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
+            if value.dtype.kind == "U":
+                value = np.char.encode(value, "utf-8")
             S = np.max(np.vectorize(len)(value))
             shape = value.shape
         else:
-- 
2.43.0


From 95e717e025c3f426f77a4c031ed1d4b855fa960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 04/41] fix: adding a custom entry again after deleting it

The deleted entry remained in Sofa._convention. Data added under the same name
was thus not registered as custom data and could not be verified or written.
---
 sofar/sofa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index cd6cfef..15d2c25 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -176,6 +176,7 @@ class Sofa():
             if hasattr(self, "_custom"):
                 if name in self._custom:
                     self._custom.pop(name)
+                    self._convention.pop(name, None)
         else:
             raise TypeError(
                 f"{name} is a mandatory attribute that can not be deleted")
-- 
2.43.0


From 114683711ed1d2df7437d6acbb476eef1a8ddf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 05/41] fix: adding custom attributes to Data variables

Sofa.add_attribute('Data_Real_Units', 'Pascal'), which is used as an example in
the documentation, raised a ValueError.
---
 sofar/sofa.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 15d2c25..ac7419d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -662,9 +662,12 @@ class Sofa():
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
         if dtype == "attribute":
-            if name.count("_") != 1 or \
-                    (name.startswith("Data_") and (name.count("_") == 0 or
-                                                   name.count("_") > 2)):
+            # attributes of Data variables have two underscores
+            # (e.g. Data_Real_Units)
+            is_data_attribute = name.startswith("Data_") and \
+                name.count("_") == 2 and \
+                name[:name.rindex("_")] in self._convention
+            if name.count("_") != 1 and not is_data_attribute:
                 raise ValueError((f"The name of {name} must have the "
                                   "form VariableName_AttributeName"))
             if not name.startswith("GLOBAL_") and \
-- 
2.43.0


From 344bb0c800fa07e2132a57007ca0822233d95484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 06/41] fix: detect attributes of variables that are not
 contained

Attributes of optional variables that were deleted passed the verification and
were silently lost when writing the SOFA object to disk.
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ac7419d..8ef6186 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1090,7 +1090,7 @@ class Sofa():
                     key.count("_") == 0:
                 continue
 
-            if (key[:key.rindex("_")] not in self._convention and
+            if (not hasattr(self, key[:key.rindex("_")]) and
                     not key.startswith("GLOBAL_")):
                 current_error += "- " + key + "\n"
 
-- 
2.43.0


From 887b4bfd7ff165a9ef50d04fcbe2ef0cb9e721de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 07/41] fix: return warnings in
 Sofa.verify(issue_handling='return')

Warnings were only returned if errors were detected as well.
---
 sofar/sofa.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8ef6186..369ce8b 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1419,14 +1419,11 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 9. handle warnings and errors
         if issue_handling != "ignore":
-            error_occurred, issues = self._verify_handle_issues(
+            _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-            if error_occurred:
-                if issue_handling == "print":
-                    return
-                elif issue_handling == "return":
-                    return issues
+            if issue_handling == "return":
+                return issues
 
     @staticmethod
     def _verify_value(test, ref, unit_aliases, key):
-- 
2.43.0


From e5d4ca36c1f2aef0540190dccdacc806d7c6b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 08/41] fix: verify variables whose names end with 'Units'

Only unit attributes must be lower case. Verifying numeric variables whose
names end with 'Units' raised an AttributeError.
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 369ce8b..c149fd8 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1379,7 +1379,7 @@ class Sofa():
         # message can be generated)
 
         if mode == "write":
-            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
+            keys = [k for k in self.__dict__.keys() if k.endswith("_Units")]
             for key in keys:
                 unit = getattr(self, key)
                 if unit.lower() != unit:
-- 
2.43.0


From d2f8d68cd79956e6c2728fe8d598456b43cebdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 09/41] fix: allow units that are separated by spaces

As documented, units can be separated by comma and space, comma, or space but
'degree degree metre' was rejected by Sofa.verify.
---
 sofar/sofa.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index c149fd8..9fd9b4d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1503,8 +1503,12 @@ class Sofa():
         # Following the SOFA standard AES69, units may be separated by
         # `, ` (comma and space), `,` (comma only), and ` ` (space only).
         # (regexp ', ?' matches ', ' and ',')
-        units_ref = re.split(', ?', ref[0])
-        units_test = re.split(', ?', test)
+        separator = ', ?'
+        if len(re.split(separator, ref[0])) > 1:
+            # multiple units (the space in 'cubic metre' is no separator)
+            separator = ', ?| '
+        units_ref = re.split(separator, ref[0])
+        units_test = re.split(separator, test)
 
         # check if number of units agree
         if len(units_ref) != len(units_test):
-- 
2.43.0


From f7287cf51782b57ddedaa0e0e0623f5447cdab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 10/41] fix: verify dependencies of case insensitive values

Values are verified case insensitive but their dependencies were not checked,
e.g., GLOBAL_RoomType = 'Reverberant' did not require a room description.
---
 sofar/sofa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 9fd9b4d..06a94df 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1301,9 +1301,10 @@ class Sofa():
                                   f"but must be {', '.join(ref)}\n")
 
             # get lower case value for of test for verifying specific
-            # dependencies
-            if isinstance(test, str) and test.lower() in \
-                    ["cartesian", "spherical", "spherical harmonics"]:
+            # dependencies (only data types and conventions are verified case
+            # sensitive)
+            if isinstance(test, str) and key_sofar not in \
+                    ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
                 test = test.lower()
 
             # check general dependencies
-- 
2.43.0


From a484406660c0d026a24ac24e9741a852da06ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 11/41] fix: detect excess dimensions of variables

Sofa.verify ignored dimensions that exceed the dimensions of a variable, e.g.,
for an array of shape (1, 3, 5) and dimensions IC, or (2, 3) and N. Writing such
data failed after the file was already overwritten. Excess singleton dimensions
are discarded when writing.
---
 sofar/io.py   |  3 +++
 sofar/sofa.py | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 24dce3d..b75d1cc 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -376,6 +376,9 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         netcdf_dtype = "attribute"
     elif dtype == "double":
         value = _atleast_nd(value, len(dimensions))
+        if len(dimensions) > 1:
+            # discard additional singleton dimensions
+            value = value.reshape(value.shape[:len(dimensions)])
         netcdf_dtype = "f8"
     elif dtype == "string":
         value = np.asarray(value)
diff --git a/sofar/sofa.py b/sofar/sofa.py
index 06a94df..1fda8bd 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1257,8 +1257,15 @@ class Sofa():
                 for _ in range(len(shape_ref) - len(shape_compare)):
                     shape_compare += (1, )
 
+                # discarded dimensions must be singleton dimensions
+                discarded = shape_act[len(shape_ref):]
+                if len(shape_ref) == 1 and dtype == "double":
+                    # vectors can be stored along any axis
+                    discarded = np.squeeze(value).shape[1:]
+
                 # check if the shapes match and write to API
-                if shape_compare == shape_ref:
+                if shape_compare == shape_ref and \
+                        all(d == 1 for d in discarded):
                     shape_matched = True
                     self._dimensions[key] = dim.upper()
                     break
@@ -1271,7 +1278,7 @@ class Sofa():
                         f"({', '.join([f'{d}={self._api[d]}' for d in dim])})")
 
                 current_error += (
-                    f"- {key} has shape {shape_compare} but must "
+                    f"- {key} has shape {np.shape(value)} but must "
                     f"have {', '.join(dimensions_verbose)}\n")
 
         if current_error:
-- 
2.43.0


From 1a097b899e3d560839543ca943e24141efde65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 12/41] fix: writing multi-dimensional string variables

Writing string variables with more than one dimension besides S, or variables
that only contain empty strings failed.
---
 sofar/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index b75d1cc..91edbfd 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -330,9 +330,10 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                # split strings into single characters
-                tmp_var[:] = np.ascontiguousarray(
-                    value)[..., np.newaxis].view("S1")
+                # split strings into single characters along dimension S
+                value = np.ascontiguousarray(value)[..., np.newaxis].view("S1")
+                tmp_var[:] = value.reshape(
+                    [sofa._api[dim] for dim in shape[:-1]] + [-1])
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
-- 
2.43.0


From fb337e60151aded8ed89d4ea834389a887e3dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 13/41] fix: verify string arrays of type 'S'

Arrays of type 'S' are allowed according to the documentation but were rejected
because their type is '|S' and not '<S'.
---
 sofar/sofa.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1fda8bd..44ccbbb 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1049,9 +1049,8 @@ class Sofa():
                     current_error += (f"- {key} must be string or numpy array "
                                       f"but is {type(value)}\n")
 
-                if isinstance(value, np.ndarray) and not (
-                        str(value.dtype).startswith('<U') or
-                        str(value.dtype).startswith('<S')):
+                if isinstance(value, np.ndarray) and \
+                        value.dtype.kind not in ["U", "S"]:
                     current_error += (f"- {key} must be U or S "
                                       f"but is {type(value.dtype)}\n")
 
-- 
2.43.0


From 4564240a45d10c13a7ac23960c442b61d08756e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 14/41] fix: upgrade data that does not contain optional data

Sofa.upgrade_convention raised an error and left a partially upgraded and
unprotected object if data that was to be moved or removed did not exist.
---
 sofar/sofa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 44ccbbb..be2e30b 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -843,6 +843,9 @@ class Sofa():
             # get info
             source_sofar = source.replace(".", '_').replace(":", "_")
             target_sofar = move["target"].replace(".", '_').replace(":", "_")
+            # optional data might not be contained
+            if not hasattr(self, source_sofar):
+                continue
             move_info = f"- Moving {source_sofar} to {target_sofar}."
             # get data
             data = getattr(self, source_sofar)
@@ -876,6 +879,9 @@ class Sofa():
         # remove data
         for target in upgrade["remove"]:
             target_sofar = target.replace(".", '_').replace(":", "_")
+            # optional data might not be contained
+            if not hasattr(self, target_sofar):
+                continue
             delattr(self, target_sofar)
             print(f"- Deleting {target_sofar}.")
 
-- 
2.43.0


From 66eb34240917264fdeed044ba6e14309e09f976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 15/41] fix: update read only data when upgrading conventions

The read only data of the old convention were protected after calling
Sofa.upgrade_convention.
---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index be2e30b..ff64b1a 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -835,6 +835,10 @@ class Sofa():
                 "GLOBAL_DataType"]
 
         self.protected = False
+        # update read only attributes
+        self._read_only_attr = [
+            key for key in self._convention.keys()
+            if self._read_only(self._convention[key]["flags"])]
         for key in keys:
             setattr(self, key, self._convention[key]["default"])
 
-- 
2.43.0


From 641155eb85e5bdf5605bc94ac4457238f7024704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 16/41] fix: upgrade of deprecated conventions without rule for
 the version

Sofa.upgrade_convention raised an UnboundLocalError if upgrade rules exist for
the convention but not for the current version.
---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ff64b1a..dbecb41 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -810,6 +810,10 @@ class Sofa():
                         print(upgrades)
                         return targets
                     break
+            else:
+                print((f"Convention {convention_current} v{version_current} is"
+                       " outdated but is missing upgrade rules"))
+                return
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-- 
2.43.0


From cc1a8e9fe2fabe4ef458cf6a3d1525c79c653c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 17/41] fix: do not add optional data if only mandatory data is
 requested

Sofa(convention, mandatory=True) always contained the optional attributes
GLOBAL_ApplicationName and GLOBAL_ApplicationVersion.
---
 sofar/sofa.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index dbecb41..ac9b01d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1780,11 +1780,14 @@ class Sofa():
         self.GLOBAL_DateModified = now
         self.GLOBAL_APIName = "sofar SOFA API for Python (pyfar.org)"
         self.GLOBAL_APIVersion = sf.version()
-        self.GLOBAL_ApplicationName = "Python"
-        self.GLOBAL_ApplicationVersion = (
-            f"{platform.python_version()} "
-            f"[{platform.python_implementation()} - "
-            f"{platform.python_compiler()}]")
+        # (optional data)
+        if hasattr(self, "GLOBAL_ApplicationName"):
+            self.GLOBAL_ApplicationName = "Python"
+        if hasattr(self, "GLOBAL_ApplicationVersion"):
+            self.GLOBAL_ApplicationVersion = (
+                f"{platform.python_version()} "
+                f"[{platform.python_implementation()} - "
+                f"{platform.python_compiler()}]")
         self.protected = True
 
     @staticmethod
-- 
2.43.0


From d8566e70177e5077c1e3df5b69b2c55e404e3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 18/41] fix: append .sofa to filenames that contain dots

As documented, '.sofa' is appended to the filename. Replacing an existing
suffix caused data written to 'hrir_v1.1' and 'hrir_v1.2' to end up in the same
file 'hrir_v1.sofa'.
---
 sofar/io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 91edbfd..469b94b 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -112,7 +112,7 @@ def read_sofa_as_netcdf(filename):
 def _read_netcdf(filename, verify, verbose, mode):
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = _append_suffix(filename)
     if not os.path.isfile(filename):
         raise ValueError(f"{filename} does not exist")
 
@@ -263,7 +263,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
     """
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = _append_suffix(filename)
 
     if verify:
         # check if the latest version is used for writing and warn otherwise
@@ -342,6 +342,14 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                         str(getattr(sofa, sub_key)))
 
 
+def _append_suffix(filename):
+    """Append '.sofa' to the filename, if it is not explicitly given."""
+    filename = pathlib.Path(filename)
+    if filename.suffix != '.sofa':
+        filename = filename.with_name(f"{filename.name}.sofa")
+    return filename
+
+
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     """
     Format value from SOFA object for saving in a NETCDF4 file.
-- 
2.43.0


From 3e7780d3d72fc12b8320e0512aeec32b1c02eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 19/41] fix: writing and reading attributes named like netCDF4
 properties

Attributes such as GLOBAL_name or Temperature_shape could not be written or
returned the property of the netCDF4 object when reading.
---
 sofar/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 469b94b..2b74bc7 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -145,7 +145,7 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load global attributes
         for attr in file.ncattrs():
 
-            value = getattr(file, attr)
+            value = file.getncattr(attr)
             all_attr.append(f"GLOBAL_{attr}")
 
             if not hasattr(sofa, f"GLOBAL_{attr}"):
@@ -176,7 +176,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
-                value = getattr(file[var], attr)
+                value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
                 if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
@@ -301,7 +301,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
         # write global attributes
         keys = [key for key in all_keys if key.startswith("GLOBAL_")]
         for key in keys:
-            setattr(file, key[7:], str(getattr(sofa, key)))
+            file.setncattr(key[7:], str(getattr(sofa, key)))
 
         # write data
         for key in all_keys:
@@ -338,8 +338,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
             for sub_key in sub_keys:
-                setattr(tmp_var, sub_key[len(key)+1:],
-                        str(getattr(sofa, sub_key)))
+                tmp_var.setncattr(sub_key[len(key)+1:],
+                                  str(getattr(sofa, sub_key)))
 
 
 def _append_suffix(filename):
-- 
2.43.0


From c8a0fb99a27b93c87f064165200af3b3c652c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 20/41] fix: access to data with SofaStream

- Attributes of variables that contain 'Data' (e.g. MetaData_Units) were not
  found
- GLOBAL attributes were not found if a variable of the same name exists
- Unknown names with more than one underscore raised a ValueError
- Names of missing attributes of variables could return netCDF4 properties
- Accessing data before entering the context caused an infinite recursion
---
 sofar/sofastream.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 72fdd45..1f5d0e3 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -88,25 +88,34 @@ class SofaStream():
         Executed when accessing data within a with statement
         (see documentation above).
         """
+        # private attributes are never contained in the file
+        if name.startswith("_"):
+            raise AttributeError(name)
+
         # get netCDF4-attributes and -variable-keys from SOFA-file
-        dset_variables = np.array(list(self._file.variables.keys()))
-        dset_attributes = np.asarray(self._file.ncattrs())
+        dset_variables = list(self._file.variables.keys())
+        dset_attributes = self._file.ncattrs()
 
         # remove delimiter from passed sofar-attribute
-        name_netcdf = name.replace(
-            'GLOBAL_', '').replace('Data_', 'Data.')
+        if name.startswith('GLOBAL_'):
+            dset_variables = []
+            name_netcdf = name[len('GLOBAL_'):]
+        elif name.startswith('Data_'):
+            name_netcdf = name.replace('Data_', 'Data.', 1)
+        else:
+            name_netcdf = name
 
         # Handle variable-attributes (e.g. '_Units' and '_Type')
-        var_attr = None
-        if "_" in name_netcdf:
-            name_netcdf, var_attr = name_netcdf.split('_')
+        var_name, _, var_attr = name_netcdf.rpartition('_')
 
         # get value if passed attribute points to a netCDF4-variable
         if name_netcdf in dset_variables:
-            # get variable from SOFA-file
             self._data = self._file.variables[name_netcdf]
-            if var_attr is not None:
-                self._data = getattr(self._data, var_attr)
+
+        # get value if passed attribute points to an attribute of a variable
+        elif var_name in dset_variables and \
+                var_attr in self._file.variables[var_name].ncattrs():
+            self._data = self._file.variables[var_name].getncattr(var_attr)
 
         # get value if passed attribute points to a netCDF4-attribute
         elif name_netcdf in dset_attributes:
-- 
2.43.0


From 136408b5c73c03540432b4086c1a43f4f55b1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 21/41] fix: conventions with multiple trailing tabs are always
 updated

Only one trailing tab was removed from the downloaded conventions. They thus
differed from the local conventions after every update.
---
 sofar/update_conventions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index df64108..bedf93c 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -108,7 +108,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             # download SOFA convention definitions to package directory
             data = requests.get(url)
             # remove windows style line breaks and trailing tabs
-            data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
+            data = _normalize_line_ends(data.content)
 
             # check if convention needs to be added or updated
             if is_standardized and not os.path.isfile(standardized_csv):
@@ -122,8 +122,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 # check for update of a standardized convention
                 with open(standardized_csv, "rb") as file:
                     data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = _normalize_line_ends(data_current)
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, convention), "wb") as file:
@@ -142,8 +141,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 # check for update of a deprecated convention
                 with open(deprecated_csv, "rb") as file:
                     data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = _normalize_line_ends(data_current)
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, 'deprecated', convention),
@@ -189,6 +187,11 @@ def update_conventions(conventions_path=None, assume_yes=False):
             print("... conventions already up to date.")
 
 
+def _normalize_line_ends(data):
+    """Remove windows style line breaks and trailing tabs from bytes."""
+    return re.sub(b"\t+\n", b"\n", data.replace(b"\r\n", b"\n"))
+
+
 def _compile_conventions(conventions_path=None):
     """
     Compile SOFA conventions (json files) from source conventions (csv files
-- 
2.43.0


From 13a041bf1006b00ba8c707fb94c20a152ff7231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 22/41] fix: comparing data of different shape with equals

Arrays of different shape were broadcast and could be considered identical or
raise a ValueError. Comparing non-ASCII strings failed as well.
---
 sofar/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index db70d72..33502f5 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -211,20 +211,21 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         # compare double variables
         elif type_a == "double" and type_b == "double":
 
+            # (shapes must match, because arrays are broadcast otherwise)
+            a, b = np.squeeze(a), np.squeeze(b)
             try:
-                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
+                assert a.shape == b.shape
+                npt.assert_allclose(a, b)
             except AssertionError:
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
 
         # compare string variables
         elif type_a == "string" and type_b == "string":
-            try:
-                assert np.all(
-                    np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
-            except AssertionError:
+            a, b = np.squeeze(a).astype("U"), np.squeeze(b).astype("U")
+            if not np.array_equal(a, b):
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
         else:
             is_identical = _equals_raise_warning(
                 (f"not identical: {key} has different data types "
-- 
2.43.0


From 8a65c457d34c3a152a077e6a3a6e61ea5518b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 23/41] fix: inspect string variables that contain a str

Sofa.inspect raised an AttributeError because str has no size.
---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ac9b01d..e151ab8 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -459,7 +459,8 @@ class Sofa():
             value = getattr(self, key)
 
             # information for attributes and scalars
-            if self._convention[key]["type"] == "attribute" or value.size == 1:
+            if self._convention[key]["type"] == "attribute" \
+                    or np.size(value) == 1:
                 info_str += str(value) + "\n"
             # information for variables
             else:
-- 
2.43.0


From 596f41b3a3bc38022d74fb957ec01da3cc13446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 24/41] fix: verifying custom data issues warnings of the
 default object

---
 sofar/sofa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index e151ab8..b13bfbf 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1171,9 +1171,10 @@ class Sofa():
         if hasattr(self, "_custom"):
 
             # get normative variables and attributes
-            normative = sf.Sofa(
+            # (without creating a SOFA object, which might issue warnings)
+            normative = self._load_convention(
                 self.GLOBAL_SOFAConventions,
-                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
+                self.GLOBAL_SOFAConventionsVersion).keys()
             normative = [n.replace("GLOBAL_", "") for n in normative]
 
             # compare against custom
-- 
2.43.0


From 0b6a24143676135b302657725f36f93c4bc0c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 25/41] fix: updating conventions saved the error pages of
 failed downloads as conventions

---
 sofar/update_conventions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index bedf93c..4900209 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -58,12 +58,12 @@ def update_conventions(conventions_path=None, assume_yes=False):
     print(f"Reading SOFA conventions from {urls[0]} ...")
 
     # get file names of conventions from sofaconventions.org
-    page = requests.get(urls[0]).text
+    page = _download(urls[0]).text
     soup = BeautifulSoup(page, 'html.parser')
     standardized = [os.path.split(node.get('href'))[1]
                     for node in soup.find_all('a')
                     if node.get('href').endswith(ext)]
-    page = requests.get(urls[1]).text
+    page = _download(urls[1]).text
     soup = BeautifulSoup(page, 'html.parser')
     deprecated = [os.path.split(node.get('href'))[1]
                   for node in soup.find_all('a')
@@ -106,7 +106,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             )
 
             # download SOFA convention definitions to package directory
-            data = requests.get(url)
+            data = _download(url)
             # remove windows style line breaks and trailing tabs
             data = _normalize_line_ends(data.content)
 
@@ -187,6 +187,13 @@ def update_conventions(conventions_path=None, assume_yes=False):
             print("... conventions already up to date.")
 
 
+def _download(url):
+    """Get URL and raise an error if this failed."""
+    response = requests.get(url)
+    response.raise_for_status()
+    return response
+
+
 def _normalize_line_ends(data):
     """Remove windows style line breaks and trailing tabs from bytes."""
     return re.sub(b"\t+\n", b"\n", data.replace(b"\r\n", b"\n"))
-- 
2.43.0


From 38ca6883490c9c33b288fa6834e3aa127164330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 26/41] fix: deprecating a convention failed if its compiled
 json file was missing

---
 sofar/update_conventions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 4900209..ab3f25e 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -175,8 +175,9 @@ def update_conventions(conventions_path=None, assume_yes=False):
                             os.path.join(conventions_path, convention))
             for convention in deprecate:
                 os.remove(os.path.join(conventions_path, convention))
-                os.remove(
-                    os.path.join(conventions_path, f"{convention[:-3]}json"))
+                with contextlib.suppress(FileNotFoundError):
+                    os.remove(os.path.join(
+                        conventions_path, f"{convention[:-3]}json"))
                 shutil.copy(
                     os.path.join(temp, 'deprecated', convention),
                     os.path.join(conventions_path, 'deprecated', convention))
-- 
2.43.0


From 7b6773d2642c36afee5a581a066a3cd80958f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 27/41] fix: numbers of an array in a convention could not be
 separated by a comma and a space or by several spaces

---
 sofar/update_conventions.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index ab3f25e..763911a 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -292,12 +292,9 @@ def _convention_csv2dict(file: str):
                 cell = cell[1:-1]
 
                 if ';' not in cell:
-                    # get rid of white spaces
-                    cell = cell.strip()
-                    cell = cell.replace(' ', ',')
-                    cell = cell.replace(' ', '')
-                    # create flat list of integers and floats
-                    numbers = cell.split(',')
+                    # create flat list of integers and floats separated by
+                    # commas and/or white spaces
+                    numbers = re.split(r'\s*,\s*|\s+', cell.strip())
                     cell = [float(n) if '.' in n else int(n) for n in numbers]
                 else:
                     # create a nested list of integers and floats
@@ -305,11 +302,8 @@ def _convention_csv2dict(file: str):
                     cell = cell.split(';')
                     cell_nd = [None] * len(cell)
                     for idx, cc in enumerate(cell):
-                        # get rid of white spaces
-                        cc = cc.strip()
-                        cc = cc.replace(' ', ',')
-                        cc = cc.replace(' ', '')
-                        numbers = cc.split(',')
+                        # separated by commas and/or white spaces
+                        numbers = re.split(r'\s*,\s*|\s+', cc.strip())
                         cell_nd[idx] = [float(n) if '.' in n else int(n)
                                         for n in numbers]
 
-- 
2.43.0


From 04798be541ab674f0d813a8e831a6c738aea6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 28/41] fix: Sofa.protected returns a bool that can be assigned
 again

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b13bfbf..5b00aa4 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -634,7 +634,7 @@ class Sofa():
         change this to ``False`` if you know what you are doing, e.g., if you
         need to repair corrupted SOFA data.
         """
-        return self._protected
+        return bool(self._protected)
 
     @protected.setter
     def protected(self, value: bool):
-- 
2.43.0


From 7d2bdd86f9ad1b138f87b85b5714ffe130c15d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 29/41] fix: adding data that can not be stored leaves the
 object as it was

---
 sofar/sofa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 5b00aa4..05d9c33 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -707,8 +707,15 @@ class Sofa():
         dtype : string
             double, string, or attribute
         """
-        # create custom API if it not exists
+        # add attribute to object (done first, because values that can not be
+        # converted to arrays raise an error and must not leave a trace)
+        protected = self.protected
         self.protected = False
+        try:
+            setattr(self, key, value)
+        except Exception:
+            self.protected = protected
+            raise
 
         # lower case letters to indicate custom dimensions
         if dimensions is not None:
@@ -729,8 +736,6 @@ class Sofa():
                 "comment": ""}
             self._convention[key] = self._custom[key]
 
-        # add attribute to object
-        setattr(self, key, value)
         self.protected = True
 
     def upgrade_convention(self, target=None, verify='auto'):
-- 
2.43.0


From 83775a34d07dbbccda90ace964487955e49f1cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 30/41] fix: listing dimensions failed for unknown data types

---
 sofar/sofa.py       | 2 ++
 sofar/sofastream.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 05d9c33..1c08d37 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -228,6 +228,8 @@ class Sofa():
             N_verbose = "frequencies"
         elif self.GLOBAL_DataType.startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, or SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = "receiver spherical harmonics coefficients" if \
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 1f5d0e3..a671792 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -167,6 +167,8 @@ class SofaStream():
             N_verbose = "frequencies"
         elif self._file.getncattr('DataType').startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, or SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = (
-- 
2.43.0


From 3c8fa3b59bf83814c003d02efde32758fd4ea8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 31/41] fix: congruency check skipped conventions next to
 removed ones

---
 sofar/update_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 763911a..7efe0c8 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -417,13 +417,13 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # check if lists are identical. Remove items not contained in both lists
     report = ""
-    for convention in sofaconventions:
+    for convention in list(sofaconventions):
         if convention.startswith(("General_", "GeneralString_")):
             sofaconventions.remove(convention)
         elif convention not in sofatoolbox:
             sofaconventions.remove(convention)
             report += (f"- {convention} is missing in SOFAtoolbox\n")
-    for convention in sofatoolbox:
+    for convention in list(sofatoolbox):
         if convention.startswith(("General_", "GeneralString_")):
             sofatoolbox.remove(convention)
         elif convention not in sofaconventions:
-- 
2.43.0


From b33dfe48e4bb146f4de63e9a92ee88efdc878314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 32/41] fix: congruency check took failed downloads for
 conventions

---
 sofar/update_conventions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 7efe0c8..279e730 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -397,7 +397,7 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # get file names of conventions from sofaconventions.org
     url = urls_check[0]
-    page = requests.get(url).text
+    page = _download(url).text
     soup = BeautifulSoup(page, 'html.parser')
     sofaconventions = [os.path.split(node.get('href'))[1]
                        for node in soup.find_all('a')
@@ -408,7 +408,7 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # get file names of conventions from github
     url = urls_check[1]
-    page = requests.get(url).text
+    page = _download(url).text
     sofatoolbox = re.findall(
         r'"SOFAtoolbox/conventions/([^"]+\.csv)"', page)
 
@@ -434,10 +434,9 @@ def _check_congruency(save_dir=None, branch="master"):
     for convention in sofaconventions:
 
         # download SOFA convention definitions to package directory
-        data = [requests.get(url + convention) for url in urls_load]
+        data = [_download(url + convention) for url in urls_load]
         # remove trailing tabs and windows style line breaks
-        data = [d.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
-                for d in data]
+        data = [_normalize_line_ends(d.content) for d in data]
 
         # check for equality
         if data[0] != data[1]:
-- 
2.43.0


From 771ef28b64b0c8ac3308e899bb9e43a6710771e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 33/41] fix: SofaStream.inspect failed for numeric attributes
 of variables and for attributes named like netCDF4 properties

---
 sofar/sofastream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index a671792..a341315 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -301,7 +301,7 @@ class SofaStream():
             # Add variable-attributes to info string (e.g. 'Type' or 'Units)
             for att_ in list(self._file[key].ncattrs()):
                 info_str += (key.replace('.', '_') + f'_{att_} : '
-                             + getattr(data, att_) + '\n')
+                             + str(data.getncattr(att_)) + '\n')
 
         # write to text file
         if file is not None:
-- 
2.43.0


From fad1d1335e42079f249331fad9fb778470c829ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 34/41] fix: variables without dimensions could not be read and
 inspected

---
 sofar/io.py         | 3 ++-
 sofar/sofastream.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 2b74bc7..091bc04 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -159,7 +159,8 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load data
         for var in file.variables.keys():
 
-            value = _format_value_from_netcdf(file[var][:], var)
+            value = _format_value_from_netcdf(
+                np.atleast_1d(file[var][:]), var)
             all_attr.append(var.replace(".", "_"))
 
             if hasattr(sofa, var.replace(".", "_")):
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index a341315..8c0268d 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -282,7 +282,7 @@ class SofaStream():
 
             # add value for scalars
             if data.size == 1:
-                info_str += str(data[:][0]) + '\n'
+                info_str += str(np.atleast_1d(data[:])[0]) + '\n'
 
             # Handle multidimensional data
             else:
-- 
2.43.0


From f05a7271b2d34f956a399c70dd042c0898190844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:26 +0000
Subject: [PATCH 35/41] fix: string variables added without the dimension S
 could not be written

---
 sofar/sofa.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1c08d37..d11ac00 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -562,7 +562,8 @@ class Sofa():
 
         dimensions : str
             The shape of the new entry as a string. See
-            :py:func:`~Sofa.list_dimensions`.
+            :py:func:`~Sofa.list_dimensions`. The dimension S is appended for
+            variables of type ``'string'`` if it is missing.
 
         Examples
         --------
@@ -682,6 +683,9 @@ class Sofa():
                               "dtype double and string"))
         if dimensions is not None:
             dimensions = dimensions.upper()
+            # strings are written as characters along the dimension S
+            if dtype == "string" and "S" not in dimensions:
+                dimensions += "S"
             for dimension in dimensions:
                 if dimension not in "ERMNCIS":
                     warnings.warn(
-- 
2.43.0


From 60edb57f542b21810ee43f87f46ac5b440a216e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 36/41] fix: mandatory data was added without a warning if data
 of wrong type was detected

---
 sofar/sofa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d11ac00..306ed32 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1093,11 +1093,11 @@ class Sofa():
             error_msg += current_error
 
         # if an error ocurred up to here, it has to be handled. Otherwise
-        # detecting the dimensions might fail. Warnings are not reported until
-        # the end
+        # detecting the dimensions might fail. Warnings are reported as well,
+        # because missing mandatory data might have been added
         if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
             _, issues = self._verify_handle_issues(
-                    "\nWARNINGS\n--------\n", error_msg, issue_handling)
+                    warning_msg, error_msg, issue_handling)
 
             if issue_handling == "print":
                 return
-- 
2.43.0


From db13587ab7cf005eae35105c8fa892086dbcc769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 37/41] fix: characters of variables were expected along the
 dimension S, empty characters were read as missing numbers

---
 sofar/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 091bc04..03070b9 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -159,6 +159,9 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load data
         for var in file.variables.keys():
 
+            # empty characters are not missing data
+            if file[var].datatype == "S1":
+                file[var].set_auto_mask(False)
             value = _format_value_from_netcdf(
                 np.atleast_1d(file[var][:]), var)
             all_attr.append(var.replace(".", "_"))
@@ -166,9 +169,13 @@ def _read_netcdf(filename, verify, verbose, mode):
             if hasattr(sofa, var.replace(".", "_")):
                 setattr(sofa, var.replace(".", "_"), value)
             else:
-                dimensions = "".join(list(file[var].dimensions))
+                dimensions = list(file[var].dimensions)
                 # SOFA only uses dtypes 'double' and 'S1' but netCDF has more
                 dtype = "string" if file[var].datatype == "S1" else "double"
+                # strings were joined along the last dimension
+                if dtype == "string":
+                    dimensions = dimensions[:-1] + ["S"]
+                dimensions = "".join(dimensions)
                 sofa._add_custom_api_entry(var.replace(".", "_"), value, None,
                                            dimensions, dtype)
                 custom.append(var.replace(".", "_"))
-- 
2.43.0


From 20914deec9cc0a4ce534f19f7fef2e62fcad29f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:12 +0000
Subject: [PATCH 38/41] fix: streams gave data of other files after they were
 left

---
 sofar/sofastream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 8c0268d..cbb57d3 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -82,6 +82,9 @@ class SofaStream():
         (see documentation above).
         """
         self._file.close()
+        # netCDF reuses the identifier of closed files, i.e., a closed file
+        # might give the data of another file that was opened later
+        del self._file
 
     def __getattr__(self, name):
         """
-- 
2.43.0


From 2bb693a04bc8e4c25b80aff8a20d00812aa51ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:12 +0000
Subject: [PATCH 39/41] fix: files were destroyed if writing failed, e.g., due
 to names or levels of compression that netCDF refuses

---
 sofar/io.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 03070b9..071acf9 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -1,6 +1,8 @@
 """Module for reading and writing Sofa files with sofar."""
 import contextlib
 import os
+import shutil
+import tempfile
 import numpy as np
 from netCDF4 import Dataset, chartostring
 import warnings
@@ -300,7 +302,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
     all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]
 
     # open new NETCDF4 file for writing
-    with Dataset(filename, "w", format="NETCDF4") as file:
+    with _replace_when_done(filename) as temporary, \
+            Dataset(temporary, "w", format="NETCDF4") as file:
 
         # write dimensions
         for dim in sofa._api:
@@ -350,6 +353,27 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                                   str(getattr(sofa, sub_key)))
 
 
+@contextlib.contextmanager
+def _replace_when_done(filename):
+    """
+    Context manager for writing a file completely or not at all.
+
+    Yields the path of a temporary file that replaces `filename` if nothing was
+    raised. If anything was raised, `filename` remains as it was.
+    """
+    filename = os.path.realpath(filename)
+    exists = os.path.isfile(filename)
+    if exists and not os.access(filename, os.W_OK):
+        raise PermissionError(f"{filename} can not be written")
+
+    with tempfile.TemporaryDirectory(dir=os.path.dirname(filename)) as folder:
+        temporary = os.path.join(folder, os.path.basename(filename))
+        yield temporary
+        if exists:
+            shutil.copymode(filename, temporary)
+        os.replace(temporary, filename)
+
+
 def _append_suffix(filename):
     """Append '.sofa' to the filename, if it is not explicitly given."""
     filename = pathlib.Path(filename)
-- 
2.43.0


From d6f609118f9dbef5bb36fa13afcdd094e0db12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:12 +0000
Subject: [PATCH 40/41] fix: variables with dots and slashes in their names
 could be added, but were lost or could not be verified after writing and
 reading

---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 306ed32..7f3162e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -665,6 +665,10 @@ class Sofa():
         if "_" in name and dtype != "attribute":
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
+        # SOFA objects and files use different separators in names
+        if ("." in name or "/" in name) and dtype != "attribute":
+            raise ValueError(("dots '.' and slashes '/' in the name are only "
+                              "allowed for attributes"))
         if dtype == "attribute":
             # attributes of Data variables have two underscores
             # (e.g. Data_Real_Units)
-- 
2.43.0


From d5ada0ab25a3b29ec62176afd5733fd92e561f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:13 +0000
Subject: [PATCH 41/41] fix: upgrading lost strings that should be moved and
 left the object without protection

---
 sofar/sofa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 7f3162e..b8a6520 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -878,6 +878,8 @@ class Sofa():
             # Check move axis
             moveaxis = upgrade["move"][source]["moveaxis"]
             if moveaxis is not None:
+                # single values and strings are not contained as arrays
+                data = np.asarray(data)
                 # add dimensions if required
                 # (sofar discards trailing singular dimensions)
                 while data.ndim < np.max(moveaxis) + 1:
-- 
2.43.0

