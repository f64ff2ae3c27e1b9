From b4ba3541867d93af7a64244230ce347ab1884c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 01/64] fix: apply fraction-digits and the decimal64 value
 space to range restricted decimals

A decimal64 with an inline range was built on plain Decimal, so it kept more
digits than fraction-digits allows, compared its bounds with floats, and raised
decimal.InvalidOperation instead of ValueError for malformed input.
---
 pyangbind/lib/yangtypes.py | 18 ++++++++++++++----
 pyangbind/plugin/pybind.py |  7 ++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7e67e27..3a66b9f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -27,7 +27,7 @@ import collections
 from collections import abc
 import copy
 import uuid
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 import regex
 
@@ -134,9 +134,11 @@ def safe_name(arg):
 def RestrictedPrecisionDecimalType(*args, **kwargs):
     """
     Function to return a new type that is based on decimal.Decimal with
-    an arbitrary restricted precision.
+    an arbitrary restricted precision. Values with fewer digits than the
+    precision are padded with zeros unless pad is set to False.
     """
     precision = kwargs.pop("precision", False)
+    pad = kwargs.pop("pad", True)
 
     class RestrictedPrecisionDecimal(Decimal):
         """
@@ -155,7 +157,15 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
             """
             if self._precision is not None:
                 if len(args):
-                    value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                    try:
+                        value = Decimal(args[0])
+                        if pad or value.as_tuple().exponent < -int(precision):
+                            value = value.quantize(Decimal(str(self._precision)))
+                    except (InvalidOperation, TypeError):
+                        raise ValueError("%s is not a valid decimal64 value" % (args[0],))
+                    # decimal64 is a scaled signed 64-bit integer
+                    if not value.is_finite() or not -(2**63) <= value.scaleb(int(precision)) < 2**63:
+                        raise ValueError("%s is outside of the decimal64 value space" % (args[0],))
                 else:
                     value = Decimal(0)
             elif len(args):
@@ -285,7 +295,7 @@ def RestrictedClassType(*args, **kwargs):
                             if check_tuple[1] is not None and value > check_tuple[1]:
                                 chk = False
                         elif len(check_tuple) == 1:
-                            if value != float(check_tuple[0]):
+                            if value != check_tuple[0]:
                                 chk = False
                         else:
                             raise AttributeError("Invalid check tuple length specified")
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f4606e7..28bdf04 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1261,9 +1261,14 @@ def build_elemtype(ctx, et, prefix=False):
             }
         elif "range" in restrictions:
             cls = "restricted-%s" % et.arg
+            base_native_type = class_map[et.arg]["native_type"]
+            fd_stmt = et.search_one("fraction-digits")
+            if fd_stmt is not None:
+                # the precision applies to the values of a range restricted decimal64
+                base_native_type = """RestrictedPrecisionDecimalType(precision=%s, pad=False)""" % fd_stmt.arg
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (base_native_type, repr(restrictions)),
                 "restriction_dict": restrictions,
                 "parent_type": et.arg,
                 "base_type": False,
-- 
2.43.0


From 056a35da39e9b6ba5789efa3aec9e6c101398fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 02/64] fix: do not replace a value that a restricted type
 refuses with the type's null value

A TypeError raised while building a value was taken to mean that the base type
takes no arguments: the object was then silently built without a value and
without any checks, so e.g. None became 0 and an out of range value of a type
derived over three levels was stored as 0. Whether the base type takes
arguments is now decided from the type itself, and every restriction is checked
against the value as it will be stored.
---
 pyangbind/lib/yangtypes.py | 57 +++++++++++++-------------------------
 1 file changed, 19 insertions(+), 38 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 3a66b9f..43cee38 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -219,14 +219,12 @@ def RestrictedClassType(*args, **kwargs):
             against the validation function - returns on instance of the base_type
             class, which can be manipulated as per a usual Python object.
             """
-            try:
+            if args:
                 self.__check(args[0])
-            except IndexError:
-                pass
-            try:
-                super(RestrictedClass, self).__init__(*args, **kwargs)
-            except TypeError:
+            if base_type.__init__ is object.__init__:
                 super(RestrictedClass, self).__init__()
+            else:
+                super(RestrictedClass, self).__init__(*args, **kwargs)
 
         def __new__(self, *args, **kwargs):
             self._restriction_dict = restriction_dict
@@ -315,11 +313,6 @@ def RestrictedClassType(*args, **kwargs):
             def in_dictionary_check(dictionary):
                 return lambda i: str(i) in dictionary
 
-            val = False
-            try:
-                val = args[0]
-            except IndexError:
-                pass
             if self._restriction_dict is None:
                 if restriction_type is not None and restriction_arg is not None:
                     self._restriction_dict = {restriction_type: restriction_arg}
@@ -334,11 +327,6 @@ def RestrictedClassType(*args, **kwargs):
                     for range_spec in rarg:
                         ranges.append(build_length_range_tuples(range_spec))
                     self._restriction_tests.append(in_range_check(ranges))
-                    if val:
-                        try:
-                            val = base_type(val)
-                        except Exception:
-                            raise TypeError("must specify a numeric type for a range " + "argument")
                 elif rtype == "length":
                     multiplier = 1
                     lengths = []
@@ -367,20 +355,15 @@ def RestrictedClassType(*args, **kwargs):
                 else:
                     raise TypeError("unsupported restriction type")
 
-            if val is not False:
+            if args:
+                # the tests apply to the value as it will be stored, and all of
+                # them must pass.
+                val = base_type(args[0])
                 for test in self._restriction_tests:
-                    passed = False
-                    if test(val) is not False:
-                        passed = True
-                        break
-                if not passed:
-                    raise ValueError("%s does not match a restricted type" % val)
+                    if not test(val):
+                        raise ValueError("%s does not match a restricted type" % val)
 
-            try:
-                obj = base_type.__new__(self, *args, **kwargs)
-            except TypeError:
-                obj = base_type.__new__(self)
-            return obj
+            return base_type.__new__(self, *args, **kwargs)
 
         def __check(self, v):
             """
@@ -1031,11 +1014,10 @@ def YANGDynClass(*args, **kwargs):
         _pybind_base_class = regex.sub("<(type|class) '(?P<class>.*)'>", r"\g<class>", str(base_type))
 
         def __new__(self, *args, **kwargs):
-            try:
-                obj = base_type.__new__(self, *args, **kwargs)
-            except TypeError:
-                obj = base_type.__new__(self)
-            return obj
+            if base_type.__new__ is object.__new__:
+                # the arguments are handled solely by __init__
+                return base_type.__new__(self)
+            return base_type.__new__(self, *args, **kwargs)
 
         def __init__(self, *args, **kwargs):
             self._default = False
@@ -1093,12 +1075,11 @@ def YANGDynClass(*args, **kwargs):
                 if load is not None:
                     kwargs["load"] = load
 
-            try:
-                super(YANGBaseClass, self).__init__(*args, **kwargs)
-            except TypeError:
+            if base_type.__init__ is object.__init__:
+                # the arguments have been handled solely by __new__
                 super(YANGBaseClass, self).__init__()
-            except Exception:
-                raise
+            else:
+                super(YANGBaseClass, self).__init__(*args, **kwargs)
 
         def _changed(self):
             return self._mchanged
-- 
2.43.0


From ade37ecb5245a76355a1b88dd8d284769f33377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 03/64] fix: match patterns against the whole value and apply
 every pattern of a type

A pattern was anchored with ^ and $, so a value with a trailing newline was
accepted, and in a pattern with alternatives only the outer ones were anchored.
Only the first pattern of a type was applied, and invert-match was ignored.
---
 pyangbind/lib/yangtypes.py | 37 +++++++++++++++++--------------------
 pyangbind/plugin/pybind.py | 14 ++++++++++----
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 43cee38..105ba28 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -239,24 +239,14 @@ def RestrictedClassType(*args, **kwargs):
             range_single_value_regex = regex.compile(r"(?P<value>\-?[0-9\.]+)")
 
             def convert_regexp(pattern):
-                # Some patterns include a $ character in them in some IANA modules, this
-                # is not escaped. Do some logic to escape them, whilst leaving one at the
-                # end of the string if it's there.
-                trimmed = False
-                if pattern[-1] == "$":
-                    tmp_pattern = pattern[:-1]
-                    trimmed = True
-                else:
-                    tmp_pattern = pattern
-                tmp_pattern = tmp_pattern.replace("$", r"\$")
-                pattern = tmp_pattern
-                if trimmed:
-                    pattern += "$"
-
-                if not pattern[0] == "^":
-                    pattern = "^%s" % pattern
-                if not pattern[len(pattern) - 1] == "$":
-                    pattern = "%s$" % pattern
+                # A pattern always applies to the whole value, a redundant leading ^ or
+                # trailing $ that some modules use to anchor it is dropped. Some patterns
+                # include a $ character in them in some IANA modules, this is not escaped,
+                # so do some logic to escape them.
+                if pattern.startswith("^"):
+                    pattern = pattern[1:]
+                pattern = regex.sub(r"(?s)(?<!\\)((?:\\.)*)\$$", r"\1", pattern)
+                pattern = regex.sub(r"(?s)\\.|\$", lambda m: r"\$" if m.group(0) == "$" else m.group(0), pattern)
 
                 return pattern
 
@@ -304,12 +294,15 @@ def RestrictedClassType(*args, **kwargs):
 
             def match_pattern_check(regexp):
                 def mp_check(value):
-                    if regex.match(convert_regexp(regexp), str(value)):
+                    if regex.fullmatch(convert_regexp(regexp), str(value)):
                         return True
                     return False
 
                 return mp_check
 
+            def invert_check(check):
+                return lambda value: not check(value)
+
             def in_dictionary_check(dictionary):
                 return lambda i: str(i) in dictionary
 
@@ -321,7 +314,11 @@ def RestrictedClassType(*args, **kwargs):
 
             for rtype, rarg in self._restriction_dict.items():
                 if rtype == "pattern":
-                    self._restriction_tests.append(match_pattern_check(rarg))
+                    for pattern in rarg if isinstance(rarg, list) else [rarg]:
+                        self._restriction_tests.append(match_pattern_check(pattern))
+                elif rtype == "invert_pattern":
+                    for pattern in rarg:
+                        self._restriction_tests.append(invert_check(match_pattern_check(pattern)))
                 elif rtype == "range":
                     ranges = []
                     for range_spec in rarg:
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 28bdf04..b4571c0 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1223,7 +1223,7 @@ def build_elemtype(ctx, et, prefix=False):
     # both in the case that a typedef needs to be built, as well as on per-list
     # basis.
     cls = None
-    pattern_stmt = et.search_one("pattern") if not et.search_one("pattern") is None else False
+    pattern_stmts = et.search("pattern")
     range_stmt = et.search_one("range") if not et.search_one("range") is None else False
     length_stmt = et.search_one("length") if not et.search_one("length") is None else False
 
@@ -1231,8 +1231,14 @@ def build_elemtype(ctx, et, prefix=False):
     # and build a dictionary of the different restrictions to be placed on the
     # type.
     restrictions = {}
-    if pattern_stmt:
-        restrictions["pattern"] = pattern_stmt.arg
+    if pattern_stmts:
+        # all of the patterns of a type apply
+        patterns = [i.arg for i in pattern_stmts if i.search_one("modifier") is None]
+        inverted = [i.arg for i in pattern_stmts if i.search_one("modifier") is not None]
+        if patterns:
+            restrictions["pattern"] = patterns if len(patterns) > 1 else patterns[0]
+        if inverted:
+            restrictions["invert_pattern"] = inverted
 
     if length_stmt:
         if "|" in length_stmt.arg:
@@ -1250,7 +1256,7 @@ def build_elemtype(ctx, et, prefix=False):
     # Build RestrictedClassTypes based on the compiled dictionary and the
     # underlying base type.
     if len(restrictions):
-        if "length" in restrictions or "pattern" in restrictions:
+        if "length" in restrictions or "pattern" in restrictions or "invert_pattern" in restrictions:
             cls = "restricted-%s" % (et.arg)
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-- 
2.43.0


From 19713a5444ef8340e4a49bbec07b8bf4542cab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 04/64] fix: compute enumeration values and bit positions as
 RFC 6020 9.6.4.2 and 9.7.4.2, accept bits in leaf-lists

Implicit bit positions crashed the plugin, explicit ones were ordered as
strings. Automatic enum values are one greater than the highest value so far.
A value that is not a string is refused by bits with a ValueError.
---
 pyangbind/lib/yangtypes.py | 28 +++++++++++++++-------------
 pyangbind/plugin/pybind.py |  4 ++--
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 105ba28..d8f7002 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -335,18 +335,14 @@ def RestrictedClassType(*args, **kwargs):
                     for k in rarg:
                         if k.startswith("@"):
                             new_rarg.pop(k, None)
-                    # populate enum values
-                    used_values = []
-                    for k in new_rarg:
-                        if "value" in new_rarg[k]:
-                            used_values.append(int(new_rarg[k]["value"]))
-                    c = 0
-                    for k in new_rarg:
-                        while c in used_values:
-                            c += 1
+                    # populate enum values - an enum without a value is assigned one
+                    # greater than the highest value of the enums before it
+                    highest = -1
+                    for n, k in enumerate(new_rarg):
                         if "value" not in new_rarg[k]:
-                            new_rarg[k]["value"] = c
-                        c += 1
+                            new_rarg[k]["value"] = highest + 1
+                        value = int(new_rarg[k]["value"])
+                        highest = value if n == 0 else max(highest, value)
                     self._restriction_tests.append(in_dictionary_check(new_rarg))
                     self._enumeration_dict = new_rarg
                 else:
@@ -439,7 +435,7 @@ def TypedListType(*args, **kwargs):
                             tmp = i(v)
                             passed = True
                             break
-                        elif attr == "RestrictedPrecisionDecimal":
+                        elif attr in ("RestrictedPrecisionDecimal", "YANGBits"):
                             tmp = i(v)
                             passed = True
                             break
@@ -1395,7 +1391,13 @@ def YANGBitsType(allowed_bits):
 
             if args:
                 value = args[0]
-                for bit in value.split():
+                if isinstance(value, (set, frozenset)):
+                    bits = value
+                elif isinstance(value, str):
+                    bits = value.split()
+                else:
+                    raise ValueError(f"{value!r} is not a valid bits value")
+                for bit in bits:
                     self.add(bit)
 
         def _add_bit_definition(self, bit, position):
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b4571c0..36d90f0 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1368,9 +1368,9 @@ def build_elemtype(ctx, et, prefix=False):
             for bit in et.search("bit"):
                 position = bit.search_one("position")
                 if position is not None:
-                    pos = position.arg
+                    pos = int(position.arg)
                 else:
-                    pos = 1 + max(allowed_bits)
+                    pos = 1 + max(allowed_bits.values(), default=-1)
                 allowed_bits[bit.arg] = pos
             cls = "restricted-bits"
             elemtype = {
-- 
2.43.0


From e4469fbf2f66a75c36975bb5f20c7cdbeae6b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 05/64] fix: support a union directly within a union

The plugin crashed on a union type statement with an inline union member.
---
 pyangbind/plugin/pybind.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 36d90f0..122ce50 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1322,6 +1322,10 @@ def build_elemtype(ctx, et, prefix=False):
             elemtype = []
             for uniontype in et.search("type"):
                 elemtype_s = copy.deepcopy(build_elemtype(ctx, uniontype))
+                if isinstance(elemtype_s[1], list):
+                    # a union directly within a union
+                    elemtype.extend(elemtype_s[1])
+                    continue
                 elemtype_s[1]["yang_type"] = uniontype.arg
                 elemtype.append(elemtype_s)
             cls = "union"
-- 
2.43.0


From 9f8038f60336f26bc2248d247f587dc20cbeaf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 06/64] fix: validate before marking ancestors as changed,
 switching choices and registering paths

A refused value, leaf-list edit or container assignment marked its ancestors as
changed, emptied the other cases of a choice and replaced the registered
object.
---
 pyangbind/lib/yangtypes.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d8f7002..e7d5746 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1049,6 +1049,13 @@ def YANGDynClass(*args, **kwargs):
 
             if default:
                 self._default = default
+
+            if not self._is_container == "container":
+                # the value of a leaf is validated before anything is told about it
+                self.__init_base(*args, **kwargs)
+            elif len(args) and not all(hasattr(args[0], e) for e in self._pyangbind_elements):
+                raise ValueError("Supplied object did not have the correct attributes")
+
             if len(args):
                 self._set()
 
@@ -1063,6 +1070,10 @@ def YANGDynClass(*args, **kwargs):
                         if self._register_paths:
                             self._path_helper.register(self._supplied_register_path, self)
 
+            if self._is_container == "container":
+                self.__init_base(*args, **kwargs)
+
+        def __init_base(self, *args, **kwargs):
             if self._is_container == "list" or self._is_container == "container":
                 kwargs["path_helper"] = self._path_helper
                 if load is not None:
@@ -1127,42 +1138,42 @@ def YANGDynClass(*args, **kwargs):
 
         # we need to overload the set methods
         def __setitem__(self, *args, **kwargs):
-            self._set()
             super(YANGBaseClass, self).__setitem__(*args, **kwargs)
+            self._set()
 
         def append(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "append"):
                 raise AttributeError("%s object has no attribute append" % base_type)
-            self._set()
             super(YANGBaseClass, self).append(*args, **kwargs)
+            self._set()
 
         def pop(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "pop"):
                 raise AttributeError("%s object has no attribute pop" % base_type)
-            self._set()
             item = super(YANGBaseClass, self).pop(*args, **kwargs)
+            self._set()
             return item
 
         def remove(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "remove"):
                 raise AttributeError("%s object has no attribute remove" % base_type)
-            self._set()
             if self._path_helper:
                 elem_index = super(YANGBaseClass, self).index(*args, **kwargs)
                 super(YANGBaseClass, self).__getitem__(elem_index)
             super(YANGBaseClass, self).remove(*args, **kwargs)
+            self._set()
 
         def extend(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "extend"):
                 raise AttributeError("%s object has no attribute extend" % base_type)
-            self._set()
             super(YANGBaseClass, self).extend(*args, **kwargs)
+            self._set()
 
         def insert(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "insert"):
                 raise AttributeError("%s object has no attribute insert" % base_type)
-            self._set()
             super(YANGBaseClass, self).insert(*args, **kwargs)
+            self._set()
 
         def _register_path(self):
             if self._supplied_register_path is not None:
@@ -1240,8 +1251,6 @@ def ReferenceType(*args, **kwargs):
 
             if len(args):
                 value = args[0]
-                if hasattr(self, "_set"):
-                    self._set()
             else:
                 value = None
 
-- 
2.43.0


From 4dee3a329e9df87ebd6f08f4a458049b1167cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 07/64] fix: compare leaf-list values after conversion and add
 several values all or none

Uniqueness was tested before conversion (1 and '1', references), extend()
stopped half way at a refused value, a leaf-list could not be assigned from
another leaf-list.
---
 pyangbind/lib/yangtypes.py | 32 +++++++++++++++++++-------------
 pyangbind/plugin/pybind.py |  2 +-
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index e7d5746..e5b9769 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -402,21 +402,23 @@ def TypedListType(*args, **kwargs):
             self._allowed_type = allowed_type
             self._list = list()
             if len(args):
-                if isinstance(args[0], list):
-                    tmp = []
-                    for i in args[0]:
-                        if not self._unique or i not in tmp:
-                            tmp.append(self.check(i))
-                    self._list.extend(tmp)
+                if isinstance(args[0], list) or is_yang_leaflist(args[0]):
+                    TypedList.extend(self, args[0])
                 else:
-                    tmp = self.check(args[0])
-                    self._list.append(tmp)
+                    self._list.append(self._cast(args[0]))
 
         def check(self, v):
-            # Short circuit uniqueness check
-            if self._unique and v in self._list:
+            val = self._cast(v)
+            if self._is_duplicate(val, self._list):
                 raise ValueError("Values in this list must be unique.")
+            return val
 
+        def _is_duplicate(self, val, members):
+            # references are equal when the values that they refer to are
+            value = [i._get() if hasattr(i, "_get") else i for i in [val] + list(members)]
+            return self._unique and value[0] in value[1:]
+
+        def _cast(self, v):
             passed = False
             count = 0
             for i in self._allowed_type:
@@ -479,9 +481,13 @@ def TypedListType(*args, **kwargs):
             self._list.insert(i, val)
 
         def append(self, v):
-            if not self._unique or v not in self._list:
-                val = self.check(v)
-                self._list.append(val)
+            TypedList.extend(self, [v])
+
+        def extend(self, values):
+            # either all of the values are added or none
+            for val in [self._cast(v) for v in values]:
+                if not self._is_duplicate(val, self._list):
+                    self._list.append(val)
 
         def __str__(self):
             return str(self._list)
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 122ce50..d429588 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -948,7 +948,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 # class to properly initialise.
                 class_str["name"] = "__%s" % (i["name"])
                 class_str["type"] = "YANGDynClass"
-                class_str["arg"] = "base=%s" % i["type"]["native_type"][0]
+                class_str["arg"] = "unique=True, base=%s" % i["type"]["native_type"][0]
                 class_str["arg"] += "(allowed_type=%s(referenced_path='%s'," % (
                     i["type"]["native_type"][1]["native_type"],
                     i["type"]["native_type"][1]["referenced_path"],
-- 
2.43.0


From 1bf104724f7cb1bc02ffc4865b2483fc45fe8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 08/64] fix: unset the other cases of exactly the choices that
 a node is a member of

---
 pyangbind/lib/yangtypes.py | 34 ++++++++++++++++++++--------------
 pyangbind/plugin/pybind.py | 21 ++++++++-------------
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index e5b9769..bd6a813 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -534,6 +534,7 @@ def YANGListType(*args, **kwargs):
     user_ordered = kwargs.pop("user_ordered", False)
     path_helper = kwargs.pop("path_helper", None)
     extensions = kwargs.pop("extensions", None)
+    choice = kwargs.pop("choice", False)
 
     class YANGList(object):
         __slots__ = ("_members", "_keyval", "_contained_class", "_path_helper", "_yang_keys", "_ordered")
@@ -684,6 +685,7 @@ def YANGListType(*args, **kwargs):
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
+                            choice=choice,
                         )
                     else:
                         # hand the value to the init, rather than simply creating an empty
@@ -699,6 +701,7 @@ def YANGListType(*args, **kwargs):
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
+                            choice=choice,
                         )
 
                     if keydict is not None:
@@ -722,6 +725,7 @@ def YANGListType(*args, **kwargs):
                     path_helper=path_helper,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
+                    choice=choice,
                 )
                 return k
 
@@ -1110,28 +1114,30 @@ def YANGDynClass(*args, **kwargs):
             return super(YANGBaseClass, self).__repr__()
 
         def _set(self, choice=False):
+            # choice describes the choices that the child which was set is a
+            # member of, the other cases of these choices are to be unset.
             if hasattr(self, "__choices__") and choice:
-                for ch in self.__choices__:
-                    if ch == choice[0]:
-                        for case in self.__choices__[ch]:
-                            if not case == choice[1]:
-                                for elem in self.__choices__[ch][case]:
-                                    method = "_unset_%s" % elem
-                                    if not hasattr(self, method):
-                                        raise AttributeError("unmapped choice!")
-                                    x = getattr(self, method)
-                                    x()
-
-            if self._choice and not choice:
-                choice = self._choice
+                if isinstance(choice[0], str):
+                    choice = (choice,)
+                for choice_name, set_case in choice:
+                    for case in self.__choices__.get(choice_name, {}):
+                        if not case == set_case:
+                            for elem in self.__choices__[choice_name][case]:
+                                method = "_unset_%s" % elem
+                                if not hasattr(self, method):
+                                    raise AttributeError("unmapped choice!")
+                                x = getattr(self, method)
+                                x()
 
             self._mchanged = True
 
             if self._presence:
                 self._cpresent = True
 
+            # only the choice that this node itself is a member of is relevant to
+            # the parent
             if self._parent and hasattr(self._parent, "_set"):
-                self._parent._set(choice=choice)
+                self._parent._set(choice=self._choice)
 
         def _add_metadata(self, k, v):
             self._metadata[k] = v
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index d429588..7f7fdae 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -665,7 +665,8 @@ def get_children_elements(
 
     for ch in i_children:
         if ch.keyword == "choice":
-            # These are cases
+            # These are cases - where choices are directly nested, an element is a
+            # member of a case of each of them, the outermost choice is first.
             for sub_choice_ch in ch.i_children:
                 get_children_elements(
                     ctx,
@@ -677,7 +678,7 @@ def get_children_elements(
                     imports,
                     path=path,
                     parent_cfg=parent_cfg,
-                    choice=(ch.arg, sub_choice_ch.arg),
+                    choice=(choice or ()) + ((ch.arg, sub_choice_ch.arg),),
                     register_paths=register_paths,
                 )
         else:
@@ -699,14 +700,13 @@ def get_children_elements(
                     imports.append(ch.arg)
 
 
-def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=True, choice=False, register_paths=True):
+def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=True, register_paths=True):
     # Iterative function that is called for all elements that have childen
     # data nodes in the tree. This function resolves those nodes into the
     # relevant leaf, or container/list configuration and outputs the python
     # code that corresponds to it to the relevant file. parent_cfg is used to
     # ensure that where a parent container was set to config false, this is
-    # inherited by all elements below it; and choice is used to store whether
-    # these leaves are within a choice or not.
+    # inherited by all elements below it.
     elements = []
     choices = False
 
@@ -779,7 +779,6 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         import_req,
         path=path,
         parent_cfg=parent_cfg,
-        choice=choice,
         register_paths=register_paths,
     )
 
@@ -913,7 +912,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 class_str["arg"] += ", yang_keys='%s'" % i["yang_keys"]
                 class_str["arg"] += ", extensions=%s" % i["extensions"]
                 if i["choice"]:
-                    class_str["arg"] += ", choice=%s" % repr(choice)
+                    class_str["arg"] += ", choice=%s" % repr(i["choice"])
                 class_str["arg"] += ")"
             elif i["class"] == "union" or i["class"] == "leaf-union":
                 # A special mapped type where there is a union that just includes
@@ -985,11 +984,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 if i["choice"]:
                     class_str["arg"] += ", choice=%s" % repr(i["choice"])
                     choice_attrs.append(i["name"])
-                    if not i["choice"][0] in choices:
-                        choices[i["choice"][0]] = {}
-                    if not i["choice"][1] in choices[i["choice"][0]]:
-                        choices[i["choice"][0]][i["choice"][1]] = []
-                    choices[i["choice"][0]][i["choice"][1]].append(i["name"])
+                    for choice_name, case_name in i["choice"]:
+                        choices.setdefault(choice_name, {}).setdefault(case_name, []).append(i["name"])
                 class_str["arg"] += ", path_helper=self._path_helper"
                 class_str["arg"] += ", extmethods=self._extmethods"
                 class_str["arg"] += ", register_paths=%s" % i["register_paths"]
@@ -1507,7 +1503,6 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 element,
                 npath,
                 parent_cfg=parent_cfg,
-                choice=choice,
                 register_paths=register_paths,
             )
 
-- 
2.43.0


From 001bf483df465daf16a906564b9a7010cdb7e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 09/64] fix: copy the entries of an assigned list, refuse
 anything else, and mark a list as changed when an entry is added

---
 pyangbind/lib/yangtypes.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index bd6a813..3c7967b 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -553,6 +553,25 @@ def YANGListType(*args, **kwargs):
             self._path_helper = path_helper
             self._yang_keys = yang_keys
 
+            if len(args):
+                self.__copy(args[0])
+
+        def __copy(self, value):
+            # a list that is assigned to another one has its entries copied
+            contained_class = getattr(value, "_contained_class", None)
+            if (
+                contained_class is None
+                or value._keyval != self._keyval
+                or list(contained_class._pyangbind_elements) != list(self._contained_class._pyangbind_elements)
+            ):
+                raise ValueError("a list can only be set to a list of the same type of entries")
+            for k, entry in value.items():
+                if self._keyval:
+                    keys = {kn: getattr(entry, "_get_%s" % kn)() for kn in self._keyval.split(" ")}
+                    self.__set(_named_set=True, _python_key=k, _v=entry, **keys)
+                else:
+                    self.__set(_k=k, _v=entry)
+
         def __str__(self):
             return str(self._members)
 
@@ -713,20 +732,24 @@ def YANGListType(*args, **kwargs):
                         k = k._referenced_object
 
                     self._members[k] = tmp
+                    self._set()
 
                 except ValueError as m:
                     raise KeyError("key value %s must be valid, %s" % (self._keyval, m))
             else:
                 self._members[k] = YANGDynClass(
+                    *([] if v is None else [v]),
                     base=self._contained_class,
                     parent=parent,
                     yang_name=yang_name,
                     is_container=is_container,
                     path_helper=path_helper,
+                    load=None if v is None else True,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
                     choice=choice,
                 )
+                self._set()
                 return k
 
         def __delitem__(self, k):
@@ -864,7 +887,7 @@ def YANGListType(*args, **kwargs):
                     d[i] = self._members[i]
             return d
 
-    return type(YANGList(*args, **kwargs))
+    return type(YANGList())
 
 
 class YANGBool(int):
-- 
2.43.0


From 3338721b3dd9b839e40cadb9fc36cbf87418abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 10/64] fix: attach a list entry to its parent and registry
 only once all of its keys are valid

---
 pyangbind/lib/yangtypes.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 3c7967b..bf1466b 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -694,14 +694,17 @@ def YANGListType(*args, **kwargs):
                         path_keystring = path_keystring[:-1]
                         path_keystring += "]"
 
+                    # the entry is attached to its parent only once all of its
+                    # keys were found to be valid.
+                    register_path = self._parent._path() + [self._yang_name + path_keystring]
                     if not update:
                         tmp = YANGDynClass(
                             base=self._contained_class,
-                            parent=parent,
+                            parent=False,
                             yang_name=yang_name,
                             is_container="container",
                             path_helper=path_helper,
-                            register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_path=register_path,
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
                             choice=choice,
@@ -712,11 +715,11 @@ def YANGListType(*args, **kwargs):
                         tmp = YANGDynClass(
                             v,
                             base=self._contained_class,
-                            parent=parent,
+                            parent=False,
                             yang_name=yang_name,
                             is_container="container",
                             path_helper=path_helper,
-                            register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_path=register_path,
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
@@ -724,9 +727,17 @@ def YANGListType(*args, **kwargs):
                         )
 
                     if keydict is not None:
-                        for kn in keydict:
-                            key = getattr(tmp, "_set_%s" % safe_name(kn))
-                            key(keydict[kn], load=True)
+                        try:
+                            for kn in keydict:
+                                key = getattr(tmp, "_set_%s" % safe_name(kn))
+                                key(keydict[kn], load=True)
+                        except ValueError:
+                            if path_helper and not update:
+                                path_helper.unregister(register_path)
+                            raise
+
+                    tmp._parent = parent
+                    tmp._set()
 
                     if hasattr(k, "_referenced_object") and k._referenced_object is not None:
                         k = k._referenced_object
-- 
2.43.0


From 88df7f75c16aeb8bc99e3a79b614ed2cdf2db50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 11/64] fix: keep the path registry in step with the tree, and
 support any key value within paths

---
 pyangbind/lib/xpathhelper.py | 117 ++++++++++++++++++++---------------
 pyangbind/lib/yangtypes.py   |  54 +++++++++-------
 2 files changed, 97 insertions(+), 74 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 02a5635..8064293 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -33,7 +33,7 @@ import regex
 from lxml import etree
 
 from .base import PybindBase
-from .yangtypes import safe_name
+from .yangtypes import safe_name, xpath_literal
 
 
 class YANGPathHelperException(Exception):
@@ -104,13 +104,21 @@ class FakeRoot(PybindBase):
         self._pyangbind_elements = OrderedDict()
 
 
+class _Expression(str):
+    """
+    A part of a predicate that is not a quoted string.
+    """
+
+
 class YANGPathHelper(PybindXpathHelper):
-    _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>(\[[^\]]+\])+)$")
+    # a term of a predicate - the name of a leaf that is compared to either a literal
+    # in single or double quotes, or anything else that does not contain spaces (such
+    # as an unquoted value, or an expression using current())
     _arg_re = regex.compile(
-        r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:]+)([ ]+)?"
-        + r"=([ ]+)?['\"]?(?P<arg>[^ ^'^\"]+)(['\"])?([ ]+)?"
-        + "(?P<remainder>.*)"
+        r"\s*((and|or)\s+)?@?(?P<cmd>[a-zA-Z0-9\-\_\.:]+)\s*=\s*"
+        + r"(?P<arg>'[^']*'|\"[^\"]*\"|concat\((\s*('[^']*'|\"[^\"]*\")\s*,?)+\)|[^\s'\"\]]+)\s*"
     )
+    _literal_re = regex.compile(r"'[^']*'|\"[^\"]*\"")
     _relative_path_re = regex.compile(r"^(\.|\.\.)")
 
     def __init__(self):
@@ -122,29 +130,25 @@ class YANGPathHelper(PybindXpathHelper):
         self._root.set("obj_ptr", "root")
 
     def _path_parts(self, path):
-        c = 0
         parts = []
         buf = ""
-        in_qstr, in_attr = False, False
-        while c < len(path):
-            if path[c] == "/" and not in_qstr and not in_attr:
+        quote, in_attr = None, False
+        for c in path:
+            if c == "/" and not in_attr:
                 parts.append(buf)
                 buf = ""
-            elif path[c] == '"' and in_qstr:
-                in_qstr = False
-                buf += path[c]
-            elif path[c] == '"':
-                in_qstr = True
-                buf += path[c]
-            elif path[c] == "[":
+                continue
+            if quote is not None:
+                # the quotes of a predicate hide anything other than their end
+                if c == quote:
+                    quote = None
+            elif in_attr and c in "'\"":
+                quote = c
+            elif c == "[":
                 in_attr = True
-                buf += path[c]
-            elif path[c] == "]":
+            elif c == "]":
                 in_attr = False
-                buf += path[c]
-            else:
-                buf += path[c]
-            c += 1
+            buf += c
         parts.append(buf)
         return parts
 
@@ -173,7 +177,7 @@ class YANGPathHelper(PybindXpathHelper):
                 epath += tagname + "["
                 for k, v in attributes.items():
                     # handling for rfc6020 current() specification
-                    if "current()" in v:
+                    if isinstance(v, _Expression) and "current()" in v:
                         remaining_path = regex.sub("current\(\)(?P<remaining>.*)", r"\g<remaining>", v).split("/")
                         # since the calling leaf may not exist, we need to do a
                         # lookup on a path that will do, which is the parent
@@ -186,8 +190,8 @@ class YANGPathHelper(PybindXpathHelper):
                             raise XPathError(
                                 "XPATH specified a current() expression that " + "returned a non-unique list"
                             )
-                        v = resolved_current_attr[0]
-                    epath += "@%s='%s' " % (k, v)
+                        v = str(resolved_current_attr[0])
+                    epath += "@%s=%s " % (k, xpath_literal(v))
                     if mode == "search":
                         epath += "and "
                 if mode == "search":
@@ -200,27 +204,32 @@ class YANGPathHelper(PybindXpathHelper):
         return epath
 
     def _tagname_attributes(self, tag, normalise_namespace=True):
-        tagname, attributes = tag, None
-        if self._attr_re.match(tag):
-            tagname, args = self._attr_re.sub(r"\g<tagname>||\g<args>", tag).split("||")
-            arg_parts = [i.strip("[") for i in args.split("]")]
-
-            attributes = {}
-            for arg in arg_parts:
-                tmp_arg = arg
-                while len(tmp_arg):
-                    if self._arg_re.match(tmp_arg):
-                        c, a, r = self._arg_re.sub(r"\g<cmd>||\g<arg>||\g<remainder>", tmp_arg).split("||")
-                        if ":" in c and normalise_namespace:
-                            c = c.split(":")[1]
-                        attributes[c] = a
-                        tmp_arg = r
-                    else:
-                        raise XPathError(
-                            "invalid attribute string specified"
-                            + "for %s" % tagname
-                            + "(err part: %s (%s))" % (arg, tmp_arg)
-                        )
+        if "[" not in tag:
+            return (tag, None)
+
+        tagname, args = tag.split("[", 1)
+        attributes = {}
+        pos = 0
+        while pos < len(args):
+            match = self._arg_re.match(args, pos)
+            if match is None:
+                raise XPathError(
+                    "invalid attribute string specified for %s (err part: %s (%s))" % (tagname, args, args[pos:])
+                )
+            cmd, arg = match.group("cmd"), match.group("arg")
+            if ":" in cmd and normalise_namespace:
+                cmd = cmd.split(":")[1]
+            if arg[0] in "'\"":
+                arg = arg[1:-1]
+            elif arg.startswith("concat("):
+                arg = "".join(i[1:-1] for i in self._literal_re.findall(arg))
+            else:
+                arg = _Expression(arg)
+            attributes[cmd] = arg
+            pos = match.end()
+            # the end of this predicate, and potentially the start of another one
+            while pos < len(args) and args[pos] in "[] ":
+                pos += 1
         return (tagname, attributes)
 
     def register(self, object_path, object_ptr, caller=False):
@@ -244,10 +253,14 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("duplicate objects in tree - %s" % object_path)
         if this_obj_existing is not None and not this_obj_existing == []:
             this_obj_existing = this_obj_existing[0]
-            if self._library[this_obj_existing.get("obj_ptr")] == object_ptr:
+            if self._library[this_obj_existing.get("obj_ptr")] is object_ptr:
                 return True
             else:
-                del self._library[this_obj_existing.get("obj_ptr")]
+                # the children of the object that is replaced are not in the tree
+                # any more, those of the new one register themselves
+                self._forget(this_obj_existing)
+                for child in list(this_obj_existing):
+                    this_obj_existing.remove(child)
                 new_uuid = str(uuid.uuid1())
                 self._library[new_uuid] = object_ptr
                 this_obj_existing.set("obj_ptr", new_uuid)
@@ -288,10 +301,14 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("object did not exist to unregister - %s" % object_path)
 
         for obj in existing_objs:
-            ref = obj.get("obj_ptr")
-            del self._library[ref]
+            self._forget(obj)
             obj.getparent().remove(obj)
 
+    def _forget(self, element):
+        # remove the objects of an element, and all those that are below it
+        for elem in element.iter():
+            del self._library[elem.get("obj_ptr")]
+
     def _get_etree(self, object_path, caller=False):
         fx_q = self._encode_path(object_path, caller=caller)
         if self._relative_path_re.match(fx_q) and caller:
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index bf1466b..256f1e7 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -108,6 +108,18 @@ def is_yang_leaflist(arg):
     return False
 
 
+def xpath_literal(value):
+    """
+    Quote a value such that it can be used as a string within an XPATH.
+    """
+    value = str(value)
+    if "'" not in value:
+        return "'%s'" % value
+    elif '"' not in value:
+        return '"%s"' % value
+    return "concat(%s)" % ", \"'\", ".join("'%s'" % i for i in value.split("'"))
+
+
 def remove_path_attributes(p):
     new_path = []
     for i in p:
@@ -555,6 +567,15 @@ def YANGListType(*args, **kwargs):
 
             if len(args):
                 self.__copy(args[0])
+            else:
+                self.__unregister_previous()
+
+        def __unregister_previous(self):
+            # a list object is not registered itself, the entries of an object that
+            # is replaced by this one are
+            if self._path_helper and getattr(self, "_register_paths", False):
+                if self._path_helper.get(self._path()):
+                    self._path_helper.unregister(self._path())
 
         def __copy(self, value):
             # a list that is assigned to another one has its entries copied
@@ -565,6 +586,7 @@ def YANGListType(*args, **kwargs):
                 or list(contained_class._pyangbind_elements) != list(self._contained_class._pyangbind_elements)
             ):
                 raise ValueError("a list can only be set to a list of the same type of entries")
+            self.__unregister_previous()
             for k, entry in value.items():
                 if self._keyval:
                     keys = {kn: getattr(entry, "_get_%s" % kn)() for kn in self._keyval.split(" ")}
@@ -683,14 +705,14 @@ def YANGListType(*args, **kwargs):
                             raise KeyError("Cannot set a null key for a list entry!")
                         keydict = {self._keyval: k}
                         kv_obj = getattr(tmp, self._keyval)
-                        path_keystring = "[%s='%s']" % (kv_obj.yang_name(), k)
+                        path_keystring = "[%s=%s]" % (kv_obj.yang_name(), xpath_literal(k))
 
                     if keydict is not None:
                         keys = self._keyval.split(" ")
                         path_keystring = "["
                         for kv in keys:
                             kv_obj = getattr(tmp, kv)
-                            path_keystring += "%s='%s' " % (kv_obj.yang_name(), keydict[kv])
+                            path_keystring += "%s=%s " % (kv_obj.yang_name(), xpath_literal(keydict[kv]))
                         path_keystring = path_keystring[:-1]
                         path_keystring += "]"
 
@@ -754,7 +776,8 @@ def YANGListType(*args, **kwargs):
                     parent=parent,
                     yang_name=yang_name,
                     is_container=is_container,
-                    path_helper=path_helper,
+                    # without a key, there is no path that an entry could have
+                    path_helper=False,
                     load=None if v is None else True,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
@@ -764,7 +787,9 @@ def YANGListType(*args, **kwargs):
                 return k
 
         def __delitem__(self, k):
-            del self._members[k]
+            entry = self._members.pop(k)
+            if self._path_helper and self._keyval:
+                self._path_helper.unregister(entry._path())
 
         def __len__(self):
             return len(self._members)
@@ -849,27 +874,8 @@ def YANGListType(*args, **kwargs):
         def delete(self, *args, **kwargs):
             (k, _) = self._generate_key(*args, **kwargs)
 
-            if self._path_helper:
-                current_item = self._members[k]
-                if " " in self._keyval:
-                    keyparts = self._keyval.split(" ")
-                    keyargs = k.split(" ")
-                    key_string = "["
-                    for key, val in zip(keyparts, keyargs):
-                        kv_o = getattr(current_item, key)
-                        key_string += "%s=%s " % (kv_o.yang_name(), val)
-                    key_string = key_string.rstrip(" ")
-                    key_string += "]"
-                else:
-                    kv_o = getattr(current_item, self._keyval)
-                    key_string = "[@%s=%s]" % (kv_o.yang_name(), k)
-
-                obj_path = self._parent._path() + [self._yang_name + key_string]
-
             try:
-                del self._members[k]
-                if self._path_helper:
-                    self._path_helper.unregister(obj_path)
+                self.__delitem__(k)
             except KeyError as m:
                 raise KeyError("key %s was not in list (%s)" % (k, m))
 
-- 
2.43.0


From b6c6e264a2437ba839a5fab5a2537f34ebc34101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 12/64] fix: validate and track every in-place modification of
 bits

---
 pyangbind/lib/yangtypes.py | 68 ++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 256f1e7..a8453c0 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1209,9 +1209,6 @@ def YANGDynClass(*args, **kwargs):
         def remove(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "remove"):
                 raise AttributeError("%s object has no attribute remove" % base_type)
-            if self._path_helper:
-                elem_index = super(YANGBaseClass, self).index(*args, **kwargs)
-                super(YANGBaseClass, self).__getitem__(elem_index)
             super(YANGBaseClass, self).remove(*args, **kwargs)
             self._set()
 
@@ -1459,36 +1456,81 @@ def YANGBitsType(allowed_bits):
                 else:
                     raise ValueError(f"{value!r} is not a valid bits value")
                 for bit in bits:
-                    self.add(bit)
+                    self._check_bit(bit)
+                super().update(bits)
 
         def _add_bit_definition(self, bit, position):
             self._allowed_bits[bit] = position
 
         # overwrite set methods to 1/ check for legal values and 2/ set the
         # changed flag
-        def add(self, bit):
+        def _check_bit(self, bit):
             if bit not in self._allowed_bits:
                 raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
-            super().add(bit)
+
+        def _modified(self):
             self._mchanged = True
+            # bits that are a leaf have a parent that needs to know too
+            if getattr(self, "_parent", False):
+                self._set()
+
+        def _replace(self, bits):
+            for bit in bits:
+                self._check_bit(bit)
+            super().clear()
+            super().update(bits)
+            self._modified()
+
+        def add(self, bit):
+            self._check_bit(bit)
+            super().add(bit)
+            self._modified()
 
         def clear(self):
             super().clear()
-            self._mchanged = True
+            self._modified()
 
         def discard(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            self._check_bit(bit)
             super().discard(bit)
-            self._mchanged = True
+            self._modified()
 
         def pop(self):
-            super().pop()
-            self._mchanged = True
+            bit = super().pop()
+            self._modified()
+            return bit
 
         def remove(self, bit):
             super().remove(bit)
-            self._mchanged = True
+            self._modified()
+
+        def update(self, *others):
+            self._replace(self.union(*others))
+
+        def intersection_update(self, *others):
+            self._replace(self.intersection(*others))
+
+        def difference_update(self, *others):
+            self._replace(self.difference(*others))
+
+        def symmetric_difference_update(self, other):
+            self._replace(self.symmetric_difference(other))
+
+        def __ior__(self, other):
+            self._replace(self | other)
+            return self
+
+        def __iand__(self, other):
+            self._replace(self & other)
+            return self
+
+        def __isub__(self, other):
+            self._replace(self - other)
+            return self
+
+        def __ixor__(self, other):
+            self._replace(self ^ other)
+            return self
 
         def __str__(self, encoding="ascii", errors="replace"):
             """Return bits as shown in JSON."""
-- 
2.43.0


From 6eb0ec0f33242ad71a3f4b564c8d3dc0dc51b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 13/64] fix: look values of a leaf-list up as what they are
 stored as

---
 pyangbind/lib/yangtypes.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index a8453c0..119541d 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -430,6 +430,22 @@ def TypedListType(*args, **kwargs):
             value = [i._get() if hasattr(i, "_get") else i for i in [val] + list(members)]
             return self._unique and value[0] in value[1:]
 
+        def index(self, v, *args):
+            # a value is looked up as what it would be stored as
+            if not any(getattr(i, "_pybind_generated_by", None) == "ReferencePathType" for i in self._allowed_type):
+                try:
+                    v = self._cast(v)
+                except ValueError:
+                    pass
+            return [i._get() if hasattr(i, "_get") else i for i in self._list].index(v, *args)
+
+        def __contains__(self, v):
+            try:
+                self.index(v)
+            except ValueError:
+                return False
+            return True
+
         def _cast(self, v):
             passed = False
             count = 0
-- 
2.43.0


From 48da6284627cb508304f047536f8663d2b4b0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 14/64] fix: a leaf's own default takes precedence, defaults
 are inherited along typedefs, keep falsy defaults

---
 pyangbind/lib/base.py      |  2 +-
 pyangbind/lib/yangtypes.py |  2 +-
 pyangbind/plugin/pybind.py | 48 +++++++++++++++++++++++---------------
 3 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/pyangbind/lib/base.py b/pyangbind/lib/base.py
index 5853f33..e62b3bb 100644
--- a/pyangbind/lib/base.py
+++ b/pyangbind/lib/base.py
@@ -86,7 +86,7 @@ class PybindBase(object):
                 # this is an attribute that does not have get()
                 # method
                 if filter is False and not element._changed() and not element._present() is True:
-                    if element._default is not False and element._default:
+                    if element._default is not False:
                         d[element_id] = element._default
                     else:
                         d[element_id] = element
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 119541d..716c725 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1113,7 +1113,7 @@ def YANGDynClass(*args, **kwargs):
                             if not hasattr(self, "_method"):
                                 setattr(self, "_" + method, self.__generate_extmethod(member))
 
-            if default:
+            if default is not False:
                 self._default = default
 
             if not self._is_container == "container":
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 7f7fdae..a4914c0 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -34,6 +34,7 @@ from pyang import plugin, statements, util
 
 import pyangbind.helpers.misc as misc_help
 from pyangbind.helpers.identity import IdentityStore
+from pyangbind.lib import yangtypes
 from pyangbind.lib.yangtypes import RestrictedClassType, YANGBool, safe_name, YANGBinary, YANGBitsType
 
 long = int
@@ -133,7 +134,7 @@ class_map = {
         ),
     },
     "string": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
-    "decimal64": {"native_type": "Decimal", "base_type": True, "pytype": decimal.Decimal},
+    "decimal64": {"native_type": "Decimal", "base_type": True, "quote_arg": True, "pytype": decimal.Decimal},
     "empty": {
         "native_type": "YANGBool",
         "map": class_bool_map,
@@ -597,6 +598,9 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["parent_type"] = yang_type
             if default_stmt is not None:
                 class_map[type_name]["default"] = default_stmt.arg
+            elif "default" in elemtype:
+                # a type that does not have a default inherits that of its parent
+                class_map[type_name]["default"] = elemtype["default"]
             if "referenced_path" in elemtype:
                 class_map[type_name]["referenced_path"] = elemtype["referenced_path"]
                 class_map[type_name]["class_override"] = "leafref"
@@ -880,7 +884,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # extension that were provided with the leaf, etc.).
             class_str = {}
             if "default" in i and not i["default"] is None:
-                default_arg = '"%s"' % (i["default"]) if i["quote_arg"] else "%s" % i["default"]
+                default_arg = repr(i["default"]) if i["quote_arg"] else "%s" % i["default"]
 
             if i["class"] == "leaf-list":
                 # Map a leaf-list to the type specified in the class map. This is a
@@ -1413,21 +1417,19 @@ def build_elemtype(ctx, et, prefix=False):
 
 
 def find_absolute_default_type(default_type, default_value, elemname):
-    if not isinstance(default_type, list):
-        return default_type
-
+    # The value of a default is interpreted as a value that is assigned is - by
+    # the first of the types of the union that accepts it.
     for i in default_type:
-        if not i[1]["base_type"]:
-            test_type = class_map[i[1]["parent_type"]]
-        else:
-            test_type = i[1]
-        try:
-            test_type["pytype"](default_value)
-            default_type = test_type
-            break
-        except (ValueError, TypeError):
-            pass
-    return find_absolute_default_type(default_type, default_value, elemname)
+        native_types = i[1]["native_type"]
+        for native_type in native_types if isinstance(native_types, list) else [native_types]:
+            if native_type == "ReferenceType":
+                continue
+            try:
+                eval(native_type, vars(yangtypes))(default_value)
+            except Exception:
+                continue
+            return {"native_type": native_type, "base_type": True, "quote_arg": True}
+    return class_map["string"]
 
 
 def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=False, register_paths=True):
@@ -1581,9 +1583,10 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
         default_type = False
         quote_arg = False
         if elemdefault is not None:
+            # a default of the leaf itself takes precedence over that of its type
             elemdefault = elemdefault.arg
             default_type = elemtype
-        if isinstance(elemtype, list):
+        elif isinstance(elemtype, list):
             # this is a union, we should check whether any of the types
             # immediately has a default
             for i in elemtype:
@@ -1646,6 +1649,9 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # the default was set at a level where there was not
             # a single option for the type. check the default
             # against each option, to get a to a single default_type
+            if not isinstance(default_type, list) and isinstance(default_type["native_type"], list):
+                # a typedef that is a union
+                default_type = [("leaf-union", default_type)]
             if isinstance(default_type, list):
                 default_type = find_absolute_default_type(default_type, elemdefault, element.arg)
 
@@ -1665,9 +1671,13 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                                 to_visit.extend(tmp_class_map[check]["parent_type"])
                             else:
                                 to_visit.append(tmp_class_map[check]["parent_type"])
-                default_type = tmp_class_map[checked.pop()]
-                if not default_type["base_type"]:
+                base_type = tmp_class_map[checked.pop()]
+                if not base_type["base_type"]:
                     raise TypeError("default type was not a base type")
+                if base_type is class_map["bits"]:
+                    # the bits are known to the derived type only
+                    base_type = dict(base_type, native_type=default_type["native_type"])
+                default_type = base_type
 
         # Set the default type based on what was determined above about the
         # correct value to set.
-- 
2.43.0


From 80b83b026db5f98ac2dcbe8de0e2adb4b352d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 15/64] fix: find list entries by any spelling of their key,
 never hold two entries with the same key

---
 pyangbind/lib/yangtypes.py | 121 ++++++++++++++++++++++++++-----------
 pyangbind/plugin/pybind.py |   4 +-
 2 files changed, 88 insertions(+), 37 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 716c725..e015e6b 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -565,7 +565,16 @@ def YANGListType(*args, **kwargs):
     choice = kwargs.pop("choice", False)
 
     class YANGList(object):
-        __slots__ = ("_members", "_keyval", "_contained_class", "_path_helper", "_yang_keys", "_ordered")
+        __slots__ = (
+            "_members",
+            "_keyval",
+            "_contained_class",
+            "_path_helper",
+            "_yang_keys",
+            "_ordered",
+            "_canonical_keys",
+            "_template",
+        )
         _pybind_generated_by = "YANGListType"
 
         def __init__(self, *args, **kwargs):
@@ -580,6 +589,9 @@ def YANGListType(*args, **kwargs):
             self._contained_class = listclass
             self._path_helper = path_helper
             self._yang_keys = yang_keys
+            # the keys of the members, by the values that their key leaves have
+            self._canonical_keys = {}
+            self._template = None
 
             if len(args):
                 self.__copy(args[0])
@@ -638,6 +650,40 @@ def YANGListType(*args, **kwargs):
                 return False
             return True
 
+        def __canonical_key(self, k, keydict=None):
+            # the values that the key leaves of an entry with the specified key
+            # have, None if there cannot be such an entry.
+            names = self._keyval.split(" ")
+            if keydict is None:
+                parts = k.split(" ") if len(names) > 1 and isinstance(k, str) else [k]
+                if len(parts) != len(names):
+                    return None
+                keydict = dict(zip(names, parts))
+            if self._template is None:
+                self._template = YANGDynClass(
+                    base=self._contained_class,
+                    parent=False,
+                    yang_name=yang_name,
+                    is_container="container",
+                    path_helper=False,
+                    register_path=[],
+                )
+            canonical = []
+            for kn in names:
+                try:
+                    getattr(self._template, "_set_%s" % safe_name(kn))(keydict[kn], load=True)
+                except (ValueError, TypeError):
+                    return None
+                canonical.append(str(getattr(self._template, "_get_%s" % safe_name(kn))()))
+            return tuple(canonical)
+
+        def __stored_key(self, k, keydict=None):
+            # the key which an entry is stored by, which may be another spelling of
+            # the one that is specified - e.g., "1" rather than 1.
+            if not self._keyval or k in self._members:
+                return k
+            return self._canonical_keys.get(self.__canonical_key(k, keydict), k)
+
         def iteritems(self):
             return self._members.items()
 
@@ -650,7 +696,7 @@ def YANGListType(*args, **kwargs):
             elif " " in self._keyval:
                 raise AttributeError("Multiple key, string type should be used")
             else:
-                member = self._members[k]
+                member = self[k]
                 getfn = getattr(member, "_get_%s" % self._keyval)
                 return getfn()
 
@@ -658,12 +704,12 @@ def YANGListType(*args, **kwargs):
             return iter(self._members)
 
         def __contains__(self, k):
-            if k in self._members:
+            if self.__stored_key(k) in self._members:
                 return True
             return False
 
         def __getitem__(self, k):
-            return self._members[k]
+            return self._members[self.__stored_key(k)]
 
         def __setitem__(self, k, v):
             self.__set(_k=k, _v=v)
@@ -688,18 +734,17 @@ def YANGListType(*args, **kwargs):
                 else:
                     update = True
 
+            if named_set:
+                k = kwargs.pop("_python_key", None)
+
+            if self._keyval:
+                k = self.__stored_key(k, copy.copy(kwargs) if named_set else None)
+
             if k in self._members:
                 update = True
 
             if self._keyval:
                 try:
-                    tmp = YANGDynClass(
-                        base=self._contained_class,
-                        parent=parent,
-                        yang_name=yang_name,
-                        is_container="container",
-                        path_helper=False,
-                    )
                     keydict = None
 
                     if " " in self._keyval and not named_set:
@@ -714,23 +759,20 @@ def YANGListType(*args, **kwargs):
                                 "YANGList key must contain all key elements (%s)" % (self._keyval.split(" "))
                             )
                     elif named_set:
-                        k = kwargs.pop("_python_key", None)
                         keydict = copy.copy(kwargs)
                     else:
                         if k == "":
                             raise KeyError("Cannot set a null key for a list entry!")
                         keydict = {self._keyval: k}
-                        kv_obj = getattr(tmp, self._keyval)
-                        path_keystring = "[%s=%s]" % (kv_obj.yang_name(), xpath_literal(k))
 
-                    if keydict is not None:
-                        keys = self._keyval.split(" ")
-                        path_keystring = "["
-                        for kv in keys:
-                            kv_obj = getattr(tmp, kv)
-                            path_keystring += "%s=%s " % (kv_obj.yang_name(), xpath_literal(keydict[kv]))
-                        path_keystring = path_keystring[:-1]
-                        path_keystring += "]"
+                    canonical = self.__canonical_key(k, keydict)
+                    keys = self._keyval.split(" ")
+                    path_keystring = "["
+                    for kv in keys:
+                        kv_obj = getattr(self._template, "_get_%s" % safe_name(kv))()
+                        path_keystring += "%s=%s " % (kv_obj.yang_name(), xpath_literal(keydict[kv]))
+                    path_keystring = path_keystring[:-1]
+                    path_keystring += "]"
 
                     # the entry is attached to its parent only once all of its
                     # keys were found to be valid.
@@ -764,15 +806,14 @@ def YANGListType(*args, **kwargs):
                             choice=choice,
                         )
 
-                    if keydict is not None:
-                        try:
-                            for kn in keydict:
-                                key = getattr(tmp, "_set_%s" % safe_name(kn))
-                                key(keydict[kn], load=True)
-                        except ValueError:
-                            if path_helper and not update:
-                                path_helper.unregister(register_path)
-                            raise
+                    try:
+                        for kn in keydict:
+                            key = getattr(tmp, "_set_%s" % safe_name(kn))
+                            key(keydict[kn], load=True)
+                    except ValueError:
+                        if path_helper and not update:
+                            path_helper.unregister(register_path)
+                        raise
 
                     tmp._parent = parent
                     tmp._set()
@@ -781,6 +822,8 @@ def YANGListType(*args, **kwargs):
                         k = k._referenced_object
 
                     self._members[k] = tmp
+                    if canonical is not None:
+                        self._canonical_keys[canonical] = k
                     self._set()
 
                 except ValueError as m:
@@ -803,7 +846,11 @@ def YANGListType(*args, **kwargs):
                 return k
 
         def __delitem__(self, k):
+            k = self.__stored_key(k)
             entry = self._members.pop(k)
+            if self._keyval:
+                values = [getattr(entry, "_get_%s" % safe_name(kn))() for kn in self._keyval.split(" ")]
+                self._canonical_keys.pop(tuple(str(v) for v in values), None)
             if self._path_helper and self._keyval:
                 self._path_helper.unregister(entry._path())
 
@@ -853,7 +900,9 @@ def YANGListType(*args, **kwargs):
                 kv = getattr(obj, "_get_%s" % safe_name(self._keyval), None)
                 if kv is None:
                     raise KeyError("Invalid key attribute specified for object: %s" % self._keyval)
-                return kv()
+                k = kv()
+                # bits are mutable, and hence cannot be a key themselves
+                return k if k.__hash__ is not None else str(k)
 
         def append(self, obj):
             self.__set(_k=self._extract_key(obj), _v=obj)
@@ -869,7 +918,7 @@ def YANGListType(*args, **kwargs):
 
             (k, keyargs) = self._generate_key(*args, **kwargs)
 
-            if k in self._members:
+            if self.__stored_key(k, keyargs) in self._members:
                 raise KeyError("%s is already defined as a list entry" % k)
             if self._keyval and keyargs is None:
                 if k is None:
@@ -888,10 +937,10 @@ def YANGListType(*args, **kwargs):
                 return k
 
         def delete(self, *args, **kwargs):
-            (k, _) = self._generate_key(*args, **kwargs)
+            (k, keyargs) = self._generate_key(*args, **kwargs)
 
             try:
-                self.__delitem__(k)
+                self.__delitem__(self.__stored_key(k, keyargs))
             except KeyError as m:
                 raise KeyError("key %s was not in list (%s)" % (k, m))
 
@@ -908,7 +957,7 @@ def YANGListType(*args, **kwargs):
                     raise KeyError("Must specify all keys to retrieve a list entry")
             keystr = keystr[:-1]
 
-            return self._members[keystr]
+            return self[keystr]
 
         def get(self, filter=False):
             d = collections.OrderedDict()
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index a4914c0..83a6e4a 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1551,7 +1551,9 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # ordered.
             if element.keyword == "list":
                 elemdict["key"] = (
-                    safe_name(element.search_one("key").arg) if element.search_one("key") is not None else False
+                    " ".join(safe_name(k) for k in element.search_one("key").arg.split())
+                    if element.search_one("key") is not None
+                    else False
                 )
                 elemdict["yang_keys"] = (
                     element.search_one("key").arg if element.search_one("key") is not None else False
-- 
2.43.0


From 3893cc7895a9b6fe4615597f6a671d187997caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 16/64] fix: values of different types in a leaf-list of unions
 are different values

---
 pyangbind/lib/yangtypes.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index e015e6b..d48e7d6 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -426,9 +426,14 @@ def TypedListType(*args, **kwargs):
             return val
 
         def _is_duplicate(self, val, members):
-            # references are equal when the values that they refer to are
-            value = [i._get() if hasattr(i, "_get") else i for i in [val] + list(members)]
-            return self._unique and value[0] in value[1:]
+            return self._unique and self._comparable(val) in [self._comparable(i) for i in members]
+
+        def _comparable(self, val):
+            # references are equal when the values that they refer to are, values of
+            # different types are not - even if Python considers 1, 1.0 and True equal
+            if hasattr(val, "_get"):
+                val = val._get()
+            return (isinstance(val, YANGBool), isinstance(val, Decimal), val)
 
         def index(self, v, *args):
             # a value is looked up as what it would be stored as
@@ -437,7 +442,7 @@ def TypedListType(*args, **kwargs):
                     v = self._cast(v)
                 except ValueError:
                     pass
-            return [i._get() if hasattr(i, "_get") else i for i in self._list].index(v, *args)
+            return [self._comparable(i) for i in self._list].index(self._comparable(v), *args)
 
         def __contains__(self, v):
             try:
-- 
2.43.0


From f4ca7750928c31564d79896b1bd69f834e7a1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 17/64] fix: enforce the choices at the top level of a module
 and in detached list entries

---
 pyangbind/lib/base.py      | 20 ++++++++++++++++++++
 pyangbind/lib/yangtypes.py | 16 ++--------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/pyangbind/lib/base.py b/pyangbind/lib/base.py
index e62b3bb..b0cc421 100644
--- a/pyangbind/lib/base.py
+++ b/pyangbind/lib/base.py
@@ -28,6 +28,26 @@ class PybindBase(object):
     def __str__(self):
         return str(self.elements())
 
+    def _set(self, choice=False):
+        # overloaded by all objects that are part of a tree, other than its root
+        if choice and hasattr(self, "__choices__"):
+            self._unset_other_cases(choice)
+
+    def _unset_other_cases(self, choice):
+        # choice describes the choices that the child which was set is a
+        # member of, the other cases of these choices are to be unset.
+        if isinstance(choice[0], str):
+            choice = (choice,)
+        for choice_name, set_case in choice:
+            for case in self.__choices__.get(choice_name, {}):
+                if not case == set_case:
+                    for elem in self.__choices__[choice_name][case]:
+                        method = "_unset_%s" % elem
+                        if not hasattr(self, method):
+                            raise AttributeError("unmapped choice!")
+                        x = getattr(self, method)
+                        x()
+
     def get(self, filter=False):
         def error():
             return NameError, "element does not exist"
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d48e7d6..ba496cd 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1224,20 +1224,8 @@ def YANGDynClass(*args, **kwargs):
             return super(YANGBaseClass, self).__repr__()
 
         def _set(self, choice=False):
-            # choice describes the choices that the child which was set is a
-            # member of, the other cases of these choices are to be unset.
-            if hasattr(self, "__choices__") and choice:
-                if isinstance(choice[0], str):
-                    choice = (choice,)
-                for choice_name, set_case in choice:
-                    for case in self.__choices__.get(choice_name, {}):
-                        if not case == set_case:
-                            for elem in self.__choices__[choice_name][case]:
-                                method = "_unset_%s" % elem
-                                if not hasattr(self, method):
-                                    raise AttributeError("unmapped choice!")
-                                x = getattr(self, method)
-                                x()
+            if choice and hasattr(self, "__choices__"):
+                self._unset_other_cases(choice)
 
             self._mchanged = True
 
-- 
2.43.0


From 42adc837057b00ef447c75227c3f07a8be080d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 18/64] fix: IETF JSON and XML must not contain leaf-lists
 whose values have all been removed

---
 pyangbind/lib/serialise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f1d4d78..3c01581 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -439,6 +439,9 @@ def make_generate_ietf_tree(yname_ns_func):
                 ]
                 if not len(d[yname]):
                     del d[yname]
+            elif generated_by == "TypedListType" and flt and not len(element):
+                # a leaf-list whose values have all been removed does not exist
+                continue
             else:
                 if with_defaults is None:
                     if flt and element._changed():
-- 
2.43.0


From 9b9e39cfe7aa4743628f838fd7b636de27b5b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 19/64] fix: booleans, decimals and binary values of a union
 must not become another type

---
 pyangbind/lib/yangtypes.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index ba496cd..8eada4e 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -395,6 +395,25 @@ def RestrictedClassType(*args, **kwargs):
     return type(RestrictedClass(*args, **kwargs))
 
 
+def union_candidates(types, value):
+    """
+    Return the member types of a union in the order in which they are to be tried
+    for the value. A boolean, decimal or binary value is first tried as that, such
+    that for example True is not stored as the integer 1. Values like 0 and 1, which
+    a boolean leaf accepts for convenience, are last tried as a boolean.
+    """
+
+    def is_a(candidate, base):
+        return isinstance(candidate, type) and issubclass(candidate, base)
+
+    for python_types, base in (((bool, YANGBool), YANGBool), (Decimal, Decimal), (bytes, YANGBinary)):
+        if isinstance(value, python_types):
+            return sorted(types, key=lambda t: not is_a(t, base))
+    if value in ("true", "false"):
+        return types
+    return sorted(types, key=lambda t: is_a(t, YANGBool))
+
+
 def TypedListType(*args, **kwargs):
     """
     Return a type that consists of a list object where only
@@ -454,7 +473,7 @@ def TypedListType(*args, **kwargs):
         def _cast(self, v):
             passed = False
             count = 0
-            for i in self._allowed_type:
+            for i in union_candidates(self._allowed_type, v):
                 if isinstance(v, i):
                     tmp = v
                     passed = True
@@ -1064,7 +1083,7 @@ def YANGDynClass(*args, **kwargs):
             base_type = base_type[0]
         else:
             type_test = False
-            for candidate_type in base_type:
+            for candidate_type in union_candidates(base_type, args[0]):
                 try:
                     type_test = candidate_type(args[0])  # does the slipper fit?
                     break
-- 
2.43.0


From 82fdfbd59a18c8ca74827ffdab710301fb2c9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 20/64] fix: decimal64 values must survive JSON, without loss
 of digits or exponents

---
 pyangbind/lib/serialise.py | 7 +++++--
 pyangbind/lib/yangtypes.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 3c01581..7015be3 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -215,7 +215,9 @@ class YangDataSerialiser(object):
         raise UnmappedItem
 
     def yangt_decimal(self, obj):
-        return float(obj)
+        # a decimal64 that a float does not represent exactly is encoded as a string
+        value = float(obj)
+        return value if Decimal(repr(value)) == obj else format(obj, "f")
 
     def yangt_empty(self, obj):
         return bool(obj)
@@ -244,7 +246,8 @@ class IETFYangDataSerialiser(YangDataSerialiser):
         return str(obj)
 
     def yangt_decimal(self, obj):
-        return str(obj)
+        # decimal64 values are not written with an exponent
+        return format(obj, "f")
 
     def yangt_empty(self, obj):
         return [None] if obj else False
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 8eada4e..8d2b786 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -170,7 +170,8 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
             if self._precision is not None:
                 if len(args):
                     try:
-                        value = Decimal(args[0])
+                        # a float stands for the shortest decimal that it is written as
+                        value = Decimal(repr(args[0]) if isinstance(args[0], float) else args[0])
                         if pad or value.as_tuple().exponent < -int(precision):
                             value = value.quantize(Decimal(str(self._precision)))
                     except (InvalidOperation, TypeError):
-- 
2.43.0


From 6ba8fe8de2d64b67e7ba904d160387a07c0fc004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 21/64] fix: booleans and binary values of leaf-lists must be
 encoded in JSON as what they are

---
 pyangbind/lib/serialise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 7015be3..3f071e6 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -162,8 +162,8 @@ class YangDataSerialiser(object):
             return str(obj)
         elif isinstance(obj, (int,)):
             return int(obj)
-        elif isinstance(obj, (YANGBool, bool)):
-            return bool(obj)
+        elif isinstance(obj, bytes):
+            return str(base64.b64encode(obj), "ascii")
         elif isinstance(obj, Decimal):
             return self.yangt_decimal(obj)
 
-- 
2.43.0


From cf0cddcfab81d93126a4df3af7ac39fa8798e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 22/64] fix: 64-bit integers that are further restricted must
 be encoded as strings in IETF JSON

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 8d2b786..18a592a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -224,7 +224,7 @@ def RestrictedClassType(*args, **kwargs):
         _pybind_generated_by = "RestrictedClassType"
 
         _restricted_class_base = restricted_class_hint
-        _restricted_int_size = int_size
+        _restricted_int_size = int_size if int_size is not None else getattr(base_type, "_restricted_int_size", None)
 
         def __init__(self, *args, **kwargs):
             """
-- 
2.43.0


From 5977028763418ddf001ca7147e387a65cede2fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 23/64] fix: loading a leaf-list from JSON must result in the
 values, and their order, of the document

---
 pyangbind/lib/serialise.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 3f071e6..323b8a2 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -679,21 +679,8 @@ class pybindJSONDecoder(object):
                         if child_key not in d[key]:
                             chobj.delete(child_key)
             elif pybind_attr in ["TypedListType"]:
-                if not overwrite:
-                    list_obj = getattr(obj, "_get_%s" % safe_name(key))()
-                    for item in d[key]:
-                        if item not in list_obj:
-                            list_obj.append(item)
-                    list_copy = []
-                    for elem in list_obj:
-                        list_copy.append(elem)
-                    for e in list_copy:
-                        if e not in d[key]:
-                            list_obj.remove(e)
-                    set_via_stdmethod = False
-                else:
-                    # use the set method
-                    pass
+                # the values in the document replace those in the tree - use the set method
+                pass
             elif pybind_attr in [
                 "RestrictedClassType",
                 "ReferencePathType",
-- 
2.43.0


From 1eff3b8e8b7faaaad396171adca0d2fbccca9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 24/64] fix: entries of lists must be found, written and read
 by the values of their keys for keys of all types

---
 pyangbind/lib/serialise.py | 61 +++++++++++++++-------------
 pyangbind/lib/yangtypes.py | 81 ++++++++++++++++++++++++++++++++------
 2 files changed, 103 insertions(+), 39 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 323b8a2..401873d 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -34,7 +34,7 @@ import base64
 from enum import IntEnum
 from lxml import objectify, etree
 
-from pyangbind.lib.yangtypes import YANGBool, safe_name
+from pyangbind.lib.yangtypes import YANGBool, is_identity, safe_name, strip_identity_prefix
 
 
 long = int
@@ -76,13 +76,14 @@ class YangDataSerialiser(object):
         nd = {}
         if isinstance(d, OrderedDict) or isinstance(d, dict):
             index = 0
-            for k in d:
-                if isinstance(d[k], dict) or isinstance(d[k], OrderedDict):
-                    nd[k] = self.preprocess_element(d[k])
+            for k, v in d.items():
+                k = self.member_name(k)
+                if isinstance(v, dict) or isinstance(v, OrderedDict):
+                    nd[k] = self.preprocess_element(v)
                     if getattr(d, "_user_ordered", False):
                         nd[k]["__yang_order"] = index
                 else:
-                    nd[k] = self.default(d[k])
+                    nd[k] = self.default(v)
                 # if we wanted to do this as per draft-ietf-netmod-yang-metadata
                 # then the encoding is like this
                 # if not "@%s" % k in nd:
@@ -96,6 +97,16 @@ class YangDataSerialiser(object):
             nd = d
         return nd
 
+    def member_name(self, key):
+        # the entries of a list are keyed by the values of their key leaf
+        if isinstance(key, (bool, YANGBool)):
+            return "true" if key else "false"
+        elif isinstance(key, bytes):
+            return str(base64.b64encode(key), "ascii")
+        elif isinstance(key, Decimal):
+            return format(key, "f")
+        return key
+
     def default(self, obj):
         pybc = getattr(obj, "_pybind_generated_by", None)
         elem_name = getattr(obj, "_yang_name", None)
@@ -520,16 +531,10 @@ class pybindIETFXMLDecoder(object):
                     raise NotImplementedError("keyless list?")
 
                 # we just need to find the key value to add it to the list
-                key_parts = []
                 add_kwargs = {}
                 for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
-                    add_kwargs[pkv] = child[ykv]
-                    key_parts.append(str(child[ykv]))
-                key_str = " ".join(map(str, key_parts))
-                if key_str not in chobj:
-                    nobj = chobj.add(**add_kwargs)
-                else:
-                    nobj = chobj[key_str]
+                    add_kwargs[pkv] = getattr(child, ykv).text or ""
+                nobj = chobj._entry(**add_kwargs)
 
                 # now we have created the nested object element, we add other members
                 pybindIETFXMLDecoder.load_xml(
@@ -662,9 +667,7 @@ class pybindJSONDecoder(object):
                     key_order = d[key].keys()
 
                 for child_key in key_order:
-                    if child_key not in chobj:
-                        chobj.add(child_key)
-                    parent = chobj[child_key]
+                    parent = pybindJSONDecoder._load_entry(chobj, child_key, d[key][child_key])
                     pybindJSONDecoder.load_json(
                         d[key][child_key],
                         parent,
@@ -701,6 +704,18 @@ class pybindJSONDecoder(object):
                 set_method(d[key], load=True)
         return obj
 
+    @staticmethod
+    def _load_entry(list_obj, name, values):
+        """
+        Return the entry of a list that has the specified name in a document, which
+        is added to the list if it does not exist.
+        """
+        yang_keys = (list_obj._yang_keys or "").split(" ")
+        if len(yang_keys) > 1 and len(name.split(" ")) != len(yang_keys) and all(k in values for k in yang_keys):
+            # key values that contain a space can only be told apart by the key leaves
+            return list_obj._entry(**dict(zip(list_obj._keyval.split(" "), (values[k] for k in yang_keys))))
+        return list_obj._entry(name)
+
     @staticmethod
     def check_metadata_add(key, data, obj):
         keys = [str(k) for k in data]
@@ -800,22 +815,12 @@ class pybindJSONDecoder(object):
                             k = this_attr.add()
                             nobj = this_attr[k]
                         elif " " in this_attr._keyval:
-                            keystr = ""
                             kwargs = {}
                             for pkv, ykv in zip(this_attr._keyval.split(" "), this_attr._yang_keys.split(" ")):
                                 kwargs[pkv] = elem[ykv]
-                                keystr += "%s " % elem[ykv]
-                            keystr = keystr.rstrip(" ")
-                            if keystr not in this_attr:
-                                nobj = this_attr.add(**kwargs)
-                            else:
-                                nobj = this_attr[keystr]
+                            nobj = this_attr._entry(**kwargs)
                         else:
-                            k = elem[this_attr._yang_keys]
-                            if k not in this_attr:
-                                nobj = this_attr.add(k)
-                            else:
-                                nobj = this_attr[k]
+                            nobj = this_attr._entry(elem[this_attr._yang_keys])
                         pybindJSONDecoder.load_ietf_json(
                             elem,
                             None,
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 18a592a..49ba5fa 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -120,6 +120,34 @@ def xpath_literal(value):
     return "concat(%s)" % ", \"'\", ".join("'%s'" % i for i in value.split("'"))
 
 
+def key_text(value):
+    """
+    Return how a value is written as a part of the key of an entry of a list that
+    has multiple keys.
+    """
+    return str(base64.b64encode(value), "ascii") if isinstance(value, bytes) else str(value)
+
+
+def is_identity(value):
+    """
+    Return whether a value - or the type of a leaf - is one of an identityref.
+    """
+    identities = getattr(value, "_enumeration_dict", {})
+    return any("@module" in identity for identity in identities.values())
+
+
+def strip_identity_prefix(types, value):
+    """
+    Return the name of an identity without the module name, or prefix, that it may
+    have in a document. Other values are returned as they are.
+    """
+    if isinstance(value, list):
+        return [strip_identity_prefix(types, i) for i in value]
+    if isinstance(value, str) and ":" in value and all(is_identity(t) for t in types):
+        return value.split(":", 1)[1]
+    return value
+
+
 def remove_path_attributes(p):
     new_path = []
     for i in p:
@@ -684,6 +712,16 @@ def YANGListType(*args, **kwargs):
                 if len(parts) != len(names):
                     return None
                 keydict = dict(zip(names, parts))
+            canonical = []
+            for kn in names:
+                try:
+                    getattr(self.__entry_template(), "_set_%s" % safe_name(kn))(keydict[kn], load=True)
+                except (ValueError, TypeError):
+                    return None
+                canonical.append(self.__canonical_value(self.__key_leaf(kn)))
+            return tuple(canonical)
+
+        def __entry_template(self):
             if self._template is None:
                 self._template = YANGDynClass(
                     base=self._contained_class,
@@ -693,14 +731,21 @@ def YANGListType(*args, **kwargs):
                     path_helper=False,
                     register_path=[],
                 )
-            canonical = []
-            for kn in names:
-                try:
-                    getattr(self._template, "_set_%s" % safe_name(kn))(keydict[kn], load=True)
-                except (ValueError, TypeError):
-                    return None
-                canonical.append(str(getattr(self._template, "_get_%s" % safe_name(kn))()))
-            return tuple(canonical)
+            return self._template
+
+        def __key_leaf(self, kn):
+            return getattr(self.__entry_template(), "_get_%s" % safe_name(kn))()
+
+        @staticmethod
+        def __canonical_value(value):
+            if isinstance(value, bytes):
+                return bytes(value)
+            if isinstance(value, Decimal):
+                return value.normalize()
+            if is_identity(value):
+                # the prefix that an identity is specified with does not matter
+                return str(value).split(":")[-1]
+            return str(value)
 
         def __stored_key(self, k, keydict=None):
             # the key which an entry is stored by, which may be another spelling of
@@ -875,7 +920,7 @@ def YANGListType(*args, **kwargs):
             entry = self._members.pop(k)
             if self._keyval:
                 values = [getattr(entry, "_get_%s" % safe_name(kn))() for kn in self._keyval.split(" ")]
-                self._canonical_keys.pop(tuple(str(v) for v in values), None)
+                self._canonical_keys.pop(tuple(self.__canonical_value(v) for v in values), None)
             if self._path_helper and self._keyval:
                 self._path_helper.unregister(entry._path())
 
@@ -905,7 +950,7 @@ def YANGListType(*args, **kwargs):
                         raise AttributeError(
                             "Keyword list add function must have all " + "keys specified - cannot find %s" % m
                         )
-                    k += "%s " % kwargs[kn]
+                    k += "%s " % key_text(kwargs[kn])
                 k = k[:-1]
             else:
                 k = None
@@ -919,7 +964,7 @@ def YANGListType(*args, **kwargs):
                     kv = getattr(obj, "_get_%s" % safe_name(k), None)
                     if kv is None:
                         raise KeyError("Invalid key attribute specified for object")
-                    ks += "%s " % str(kv())
+                    ks += "%s " % key_text(kv())
                 return ks.rstrip(" ")
             else:
                 kv = getattr(obj, "_get_%s" % safe_name(self._keyval), None)
@@ -961,6 +1006,20 @@ def YANGListType(*args, **kwargs):
                 k = self.__set()
                 return k
 
+        def _entry(self, *args, **kwargs):
+            """
+            Return the entry with the key that is specified in a document, which is
+            added to the list if there is none.
+            """
+            names = self._keyval.split(" ")
+            if len(args) and len(names) == 1:
+                k = str(args[0]).lower() if isinstance(args[0], bool) else args[0]
+                args = (strip_identity_prefix([self.__key_leaf(names[0])], k),)
+            kwargs = {kn: strip_identity_prefix([self.__key_leaf(kn)], v) for kn, v in kwargs.items()}
+            (k, keyargs) = self._generate_key(*args, **kwargs)
+            stored = self.__stored_key(k, keyargs)
+            return self._members[stored] if stored in self._members else self.add(*args, **kwargs)
+
         def delete(self, *args, **kwargs):
             (k, keyargs) = self._generate_key(*args, **kwargs)
 
-- 
2.43.0


From 30aa73d2a0e79b2c35e17ce6118610621b1ad5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 25/64] fix: identityref and empty must be encoded as such in
 typedefs, leaf-lists and unions

---
 pyangbind/lib/serialise.py | 71 ++++++++++++++++----------------------
 pyangbind/plugin/pybind.py | 12 ++++++-
 2 files changed, 41 insertions(+), 42 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 401873d..dff0ef7 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -131,7 +131,7 @@ class YangDataSerialiser(object):
             return self.default(obj._get()) if hasattr(obj, "_get") else str(obj)
         elif orig_yangt in ["int64", "uint64"]:
             return self.yangt_long(obj)
-        elif orig_yangt in ["identityref"]:
+        elif is_identity(obj):
             try:
                 return self.yangt_identityref(obj)
             except UnmappedItem:
@@ -221,7 +221,7 @@ class YangDataSerialiser(object):
         # don't need to special-case for PY3 because we assign `long = int` in the header
         return long(obj)
 
-    def yangt_identityref(self, obj):
+    def yangt_identityref(self, obj, module=None):
         # we don't want to do anything for non-IETF serialisation, this will fall-through
         raise UnmappedItem
 
@@ -245,13 +245,12 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_long(self, obj):
         return str(obj)
 
-    def yangt_identityref(self, obj):
+    def yangt_identityref(self, obj, module=None):
         try:
             emod = obj._enumeration_dict[obj]["@module"]
-            if emod != obj._defining_module:
-                # if not already prefixed with the type namespace
-                if not obj.startswith("%s" % emod):
-                    return "%s:%s" % (emod, obj)
+            if emod != (module or getattr(obj, "_defining_module", None)):
+                # the value may have been specified with a prefix
+                return "%s:%s" % (emod, obj.split(":")[-1])
         except KeyError:
             pass
         return str(obj)
@@ -263,6 +262,10 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_empty(self, obj):
         return [None] if obj else False
 
+    def yangt_typed_list(self, obj):
+        # the module of an identity is relative to that of the leaf-list
+        return [self.yangt_identityref(i, obj._defining_module) if is_identity(i) else self.default(i) for i in obj]
+
 
 class XmlYangDataSerialiser(IETFYangDataSerialiser):
     """
@@ -381,11 +384,13 @@ class pybindIETFXMLEncoder(object):
     def yname_ns_func(parent_namespace, element, yname):
         # to keeps things simple, we augment every key with a complete namespace map
         ns_map = [(None, element._namespace)]
-        if element._yang_type == "identityref" and element._changed():
-            # configured identityref (i.e. points to a valid identity)
-            ns_map.append(
-                (element._enumeration_dict[element]["@module"], element._enumeration_dict[element]["@namespace"])
-            )
+        values = element if getattr(element, "_pybind_generated_by", None) == "TypedListType" else [element]
+        for value in values:
+            if is_identity(value) and value in value._enumeration_dict:
+                # configured identityref (i.e. points to a valid identity)
+                identity = value._enumeration_dict[value]
+                if (identity["@module"], identity["@namespace"]) not in ns_map:
+                    ns_map.append((identity["@module"], identity["@namespace"]))
         return yname, tuple(ns_map)
 
     @classmethod
@@ -542,19 +547,8 @@ class pybindIETFXMLDecoder(object):
                 )
 
             elif hasattr(chobj, "_pybind_generated_by") and chobj._pybind_generated_by == "TypedListType":
-                # NOTE: this is a little curious, because we are relying on the coercion of types
-                #   i.e. lxml will "identify" the type based on its own internal model of Python
-                #   types, see: https://lxml.de/2.0/objectify.html#how-data-types-are-matched
-                # There are limitations which need to be addressed, e.g. hexadecimal strings.
-                # Already, we have a stringify-fallback: if we fail on the first attempt then
-                # try again as a pure string (if its allowed).
-                try:
-                    chobj.append(child.pyval)
-                except ValueError:
-                    if str in chobj._allowed_type:
-                        chobj.append(str(child.pyval))
-                    else:
-                        raise
+                # the text of the element is the lexical value of the entry, whatever it looks like
+                chobj.append(strip_identity_prefix(chobj._allowed_type, child.text or ""))
 
             else:
                 if chobj._is_keyval is True:
@@ -567,16 +561,13 @@ class pybindIETFXMLDecoder(object):
                         val = True
                     else:
                         raise ValueError("Invalid value for empty in input XML - key: %s, got: %s" % (ykey, val))
+                else:
+                    val = strip_identity_prefix([chobj], val)
 
-                elif chobj._yang_type == "identityref":
-                    if ":" in val:
-                        _, val = val.split(":", 1)
-
-                if val is not None:
-                    set_method = getattr(obj, "_set_%s" % safe_name(ykey), None)
-                    if set_method is None:
-                        raise AttributeError("Invalid attribute specified in XML - %s" % (ykey))
-                    set_method(val)
+                set_method = getattr(obj, "_set_%s" % safe_name(ykey), None)
+                if set_method is None:
+                    raise AttributeError("Invalid attribute specified in XML - %s" % (ykey))
+                set_method(val)
 
         return obj
 
@@ -857,13 +848,11 @@ class pybindJSONDecoder(object):
                         else:
                             raise ValueError("Invalid value for empty in input JSON " "key: %s, got: %s" % (ykey, val))
 
-                    if chk._yang_type == "identityref":
-                        # identityref values in IETF JSON may contain their module name, as a prefix,
-                        # but we don't build identities with these as valid values. If this is the
-                        # case then re-write the value to just be the name of the identity that we
-                        # should know about.
-                        if ":" in val:
-                            _, val = val.split(":", 1)
+                    # identityref values in IETF JSON may contain their module name, as a prefix,
+                    # but we don't build identities with these as valid values. If this is the
+                    # case then re-write the value to just be the name of the identity that we
+                    # should know about.
+                    val = strip_identity_prefix(getattr(chk, "_allowed_type", [chk]), val)
 
                     if val is not None:
                         set_method = getattr(obj, "_set_%s" % safe_name(ykey), None)
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 83a6e4a..359e338 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -999,7 +999,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     class_str["arg"] += ", is_keyval=True"
                 class_str["arg"] += ", namespace='%s'" % i["namespace"]
                 class_str["arg"] += ", defining_module='%s'" % i["defining_module"]
-                class_str["arg"] += ", yang_type='%s'" % i["origtype"]
+                class_str["arg"] += ", yang_type='%s'" % i.get("yang_type", i["origtype"])
                 class_str["arg"] += ", is_config=%s" % (i["config"] and parent_cfg)
                 classes[i["name"]] = class_str
 
@@ -1730,12 +1730,22 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 elemtype = {"class": cls, "native_type": ("UnionType", elemtype)}
             elemntype = elemtype["native_type"]
 
+        # The encodings of these types are specific to them, also when they are used
+        # through a typedef
+        yang_type = element.search_one("type").arg
+        builtin = element.search_one("type")
+        while getattr(builtin, "i_typedef", None) is not None:
+            builtin = builtin.i_typedef.search_one("type")
+        if builtin.arg in ["empty", "identityref"]:
+            yang_type = builtin.arg
+
         # Build the dictionary for the element with the relevant meta-data
         # specified within it.
         elemdict = {
             "name": elemname,
             "type": elemntype,
             "origtype": element.search_one("type").arg,
+            "yang_type": yang_type,
             "path": safe_name(path),
             "class": cls,
             "default": elemdefault,
-- 
2.43.0


From fa441fbc7261b4ceff00dcec4e8c5eda68add547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 26/64] fix: leaf-list and empty string values must be written
 to and read from XML by their text

---
 pyangbind/lib/serialise.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index dff0ef7..ff36f8f 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -171,6 +171,8 @@ class YangDataSerialiser(object):
             return ndict
         elif isinstance(obj, (str,)):
             return str(obj)
+        elif isinstance(obj, (YANGBool, bool)):
+            return bool(obj)
         elif isinstance(obj, (int,)):
             return int(obj)
         elif isinstance(obj, bytes):
@@ -275,7 +277,7 @@ class XmlYangDataSerialiser(IETFYangDataSerialiser):
     def yangt_typed_list(self, obj):
         # We have already used a standard list to denote a container, so we instead we use a custom list
         # type here in the serialised model
-        return SerialisedTypedList([self.default(i) for i in obj])
+        return SerialisedTypedList(super(XmlYangDataSerialiser, self).yangt_typed_list(obj))
 
     def yangt_empty(self, obj):
         return None
@@ -356,7 +358,7 @@ class pybindIETFXMLEncoder(object):
                 if isinstance(v, SerialisedTypedList):
                     # TypedList (e.g. leaf-list or union-list), process each element as a sibling
                     for i in v:
-                        el = E(k, str(i))
+                        el = E(k, str(i).lower() if isinstance(i, bool) else str(i))
                         parent.append(el)
                 elif isinstance(v, list):
                     # a container maps to a list, recursively process each element as a child element
@@ -555,7 +557,7 @@ class pybindIETFXMLDecoder(object):
                     # we've already added the key
                     continue
 
-                val = child.text
+                val = child.text or ""
                 if chobj._yang_type == "empty":
                     if child.text is None:
                         val = True
-- 
2.43.0


From 0c88f1a856ad9750648a4fe13a751601f3b80745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 27/64] fix: load the entries of lists without keys from JSON

---
 pyangbind/lib/serialise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index ff36f8f..dda18c1 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -703,7 +703,10 @@ class pybindJSONDecoder(object):
         Return the entry of a list that has the specified name in a document, which
         is added to the list if it does not exist.
         """
-        yang_keys = (list_obj._yang_keys or "").split(" ")
+        if list_obj._keyval is False:
+            # the names of the entries of a list without keys are of no significance
+            return list_obj[list_obj.add()]
+        yang_keys = list_obj._yang_keys.split(" ")
         if len(yang_keys) > 1 and len(name.split(" ")) != len(yang_keys) and all(k in values for k in yang_keys):
             # key values that contain a space can only be told apart by the key leaves
             return list_obj._entry(**dict(zip(list_obj._keyval.split(" "), (values[k] for k in yang_keys))))
-- 
2.43.0


From 52a3b25f5538f06bff3ede026373d3af04fb3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 28/64] fix: nodes of a choice that is config false are
 read-only

---
 pyangbind/plugin/pybind.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 359e338..484c44e 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1432,6 +1432,12 @@ def find_absolute_default_type(default_type, default_value, elemname):
     return class_map["string"]
 
 
+def inherited_config(element):
+    # The config status of an element that does not state it, which may be inherited
+    # from a choice, which has no representation in the generated code.
+    return getattr(element, "i_config", None) is not False
+
+
 def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=False, register_paths=True):
     # Handle mapping of an invidual element within the model. This function
     # produces a dictionary that can then be mapped into the relevant code that
@@ -1509,7 +1515,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             )
 
             elemconfigdef = element.search_one("config")
-            elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+            elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else inherited_config(element)
 
             elemdict = {
                 "name": safe_name(element.arg),
@@ -1688,7 +1694,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             default_type = default_type["native_type"]
 
         elemconfigdef = element.search_one("config")
-        elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+        elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else inherited_config(element)
 
         elemname = safe_name(element.arg)
 
-- 
2.43.0


From 72684230728cf91ba51a9ff266d013912c62b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 29/64] fix: containers without children and entries of lists
 without keys must not accept undefined attributes

---
 pyangbind/lib/yangtypes.py | 2 +-
 pyangbind/plugin/pybind.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 49ba5fa..ca700d4 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1200,7 +1200,7 @@ def YANGDynClass(*args, **kwargs):
         # also fixes an issue whereby we could set __slots__
         # and try and inherit a variable-length inbuilt such
         # as long, which is not allowed.
-        if yang_type in ["container", "list"] or is_container == "container":
+        if yang_type in ["container", "list"] or is_container in ["container", "list"]:
             __slots__ = tuple(clsslots)
 
         _pybind_base_class = regex.sub("<(type|class) '(?P<class>.*)'>", r"\g<class>", str(base_type))
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 484c44e..75dccaa 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -843,7 +843,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
 
     elements_str = ""
     if len(elements) == 0:
-        nfd.write("  _pyangbind_elements = {}")
+        nfd.write("  __slots__ = ()\n\n  _pyangbind_elements = {}")
     else:
         # We want to prevent a user from creating new attributes on a class that
         # are not allowed within the data model - this uses the __slots__ magic
-- 
2.43.0


From 8ce210a7f98c72f6a3fd1d1c24f8a851e1647a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 30/64] fix: lists accept entries by the elements that they
 have

---
 pyangbind/lib/yangtypes.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index ca700d4..fe87d8c 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -684,24 +684,8 @@ def YANGListType(*args, **kwargs):
         def __check__(self, v):
             if self._contained_class is None:
                 return False
-            try:
-                tmp = YANGDynClass(
-                    base=self._contained_class,
-                    parent=parent,
-                    yang_name=yang_name,
-                    is_container=is_container,
-                    path_helper=False,
-                )
-                valid = False
-                if not tmp.__slots__ == v.__slots__:
-                    valid = True
-                elif self._contained_class.__slots__ == v.__slots__:
-                    valid = True
-                if valid is False:
-                    return valid
-            except Exception:
-                return False
-            return True
+            elements = getattr(v, "_pyangbind_elements", None)
+            return elements is not None and all(e in elements for e in self._contained_class._pyangbind_elements)
 
         def __canonical_key(self, k, keydict=None):
             # the values that the key leaves of an entry with the specified key
-- 
2.43.0


From f3706f22bcd70aefd56a449518917916cc96dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 31/64] fix: loading with overwrite must replace the entries of
 a list by those of the document

---
 pyangbind/lib/serialise.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index dda18c1..a530298 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -659,6 +659,9 @@ class pybindJSONDecoder(object):
                 else:
                     key_order = d[key].keys()
 
+                if overwrite:
+                    for child_key in list(chobj):
+                        chobj.delete(child_key)
                 for child_key in key_order:
                     parent = pybindJSONDecoder._load_entry(chobj, child_key, d[key][child_key])
                     pybindJSONDecoder.load_json(
@@ -669,11 +672,7 @@ class pybindJSONDecoder(object):
                         path_helper=path_helper,
                         skip_unknown=skip_unknown,
                     )
-                    set_via_stdmethod = False
-                if overwrite:
-                    for child_key in chobj:
-                        if child_key not in d[key]:
-                            chobj.delete(child_key)
+                set_via_stdmethod = False
             elif pybind_attr in ["TypedListType"]:
                 # the values in the document replace those in the tree - use the set method
                 pass
@@ -794,6 +793,11 @@ class pybindJSONDecoder(object):
                     skip_unknown=skip_unknown,
                 )
             elif isinstance(d[key], list):
+                if overwrite:
+                    existing = getattr(obj, "_get_%s" % safe_name(ykey), dict)()
+                    if hasattr(existing, "_keyval"):
+                        for i in list(existing):
+                            existing.delete(i)
                 for elem in d[key]:
                     # if this is a list, then this is a YANG list
                     this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
@@ -801,10 +805,6 @@ class pybindJSONDecoder(object):
                         raise AttributeError("List specified that did not exist")
                     this_attr = this_attr()
                     if hasattr(this_attr, "_keyval"):
-                        if overwrite:
-                            existing_keys = this_attr.keys()
-                            for i in existing_keys:
-                                this_attr.delete(i)
                         #  this handles YANGLists
                         if this_attr._keyval is False:
                             # Keyless list, generate a key
-- 
2.43.0


From 488601d10c840955cf7c9c2740db58590bf91466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 32/64] fix: loading JSON must not remove the order of list
 entries from the document

---
 pyangbind/lib/serialise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index a530298..a268ad7 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -606,6 +606,9 @@ class pybindJSONDecoder(object):
             return obj
 
         for key in d:
+            if key == "__yang_order":
+                # the position of an entry within its list, rather than data
+                continue
             child = getattr(obj, "_get_%s" % safe_name(key), None)
             if child is None and skip_unknown is False:
                 raise AttributeError("JSON object contained a key that" + "did not exist (%s)" % (key))
@@ -650,8 +653,6 @@ class pybindJSONDecoder(object):
                             okeys.append(k)
                         else:
                             kdict[v["__yang_order"]] = k
-                            # Throw this metadata away
-                            v.pop("__yang_order", None)
                     okeys.reverse()
                     key_order = [kdict[k] for k in sorted(kdict)]
                     for add_element in okeys:
-- 
2.43.0


From cffe9ea419724de988f63ddc81f38cf41898ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 33/64] fix: nothing other than a container can be assigned to
 a container without children

---
 pyangbind/lib/yangtypes.py |  8 +++++++-
 pyangbind/plugin/pybind.py | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index fe87d8c..dc8efe6 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -31,6 +31,8 @@ from decimal import Decimal, InvalidOperation
 
 import regex
 
+from .base import PybindBase
+
 # Words that could turn up in YANG definition files that are actually
 # reserved names in Python, such as being builtin types. This list is
 # not complete, but will probably continue to grow.
@@ -1236,7 +1238,11 @@ def YANGDynClass(*args, **kwargs):
             if not self._is_container == "container":
                 # the value of a leaf is validated before anything is told about it
                 self.__init_base(*args, **kwargs)
-            elif len(args) and not all(hasattr(args[0], e) for e in self._pyangbind_elements):
+            elif len(args) and not (
+                all(hasattr(args[0], e) for e in self._pyangbind_elements)
+                # there are no elements to tell a container without children by
+                and (self._pyangbind_elements or isinstance(args[0], PybindBase))
+            ):
                 raise ValueError("Supplied object did not have the correct attributes")
 
             if len(args):
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 75dccaa..5d1aeba 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -843,7 +843,20 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
 
     elements_str = ""
     if len(elements) == 0:
-        nfd.write("  __slots__ = ()\n\n  _pyangbind_elements = {}")
+        # There is nothing to copy from the container that is assigned to such a
+        # container.
+        nfd.write(
+            """  __slots__ = ()
+
+  _pyangbind_elements = {}
+
+  _pybind_generated_by = 'container'
+
+  def __init__(self, *args, **kwargs):
+    if len(args) > 1:
+      raise TypeError("cannot create a YANG container with >1 argument")
+"""
+        )
     else:
         # We want to prevent a user from creating new attributes on a class that
         # are not allowed within the data model - this uses the __slots__ magic
-- 
2.43.0


From bdeb84b02244d87c9d3320d2f87c336bd93ffa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 34/64] fix: refuse elements within a leaf and text within a
 container when loading XML

---
 pyangbind/lib/serialise.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index a268ad7..513e227 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -524,6 +524,14 @@ class pybindIETFXMLDecoder(object):
                 raise AttributeError("Invalid attribute specified (%s)" % ykey)
             chobj = attr_get()
 
+            # there is either text or other elements within an element
+            if getattr(chobj, "_is_container", False):
+                invalid = bool((child.text or "").strip())
+            else:
+                invalid = child.countchildren() > 0
+            if invalid:
+                raise ValueError("Invalid content within the element for %s" % ykey)
+
             if chobj._yang_type == "container":
                 if hasattr(chobj, "_presence"):
                     if chobj._presence:
-- 
2.43.0


From 1e75bd250054859d63ef55f9e327ef64904932e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 35/64] fix: refuse values of the wrong kind of node in JSON,
 skip unknown lists when asked to

---
 pyangbind/lib/serialise.py | 115 +++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 51 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 513e227..5afc252 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -624,6 +624,7 @@ class pybindJSONDecoder(object):
                 # skip unknown elements if we are asked to by the user`
                 continue
             chobj = child()
+            pybindJSONDecoder._check_shape(key, d[key], chobj, dict)
 
             if hasattr(chobj, "_presence"):
                 if chobj._presence:
@@ -720,6 +721,28 @@ class pybindJSONDecoder(object):
             return list_obj._entry(**dict(zip(list_obj._keyval.split(" "), (values[k] for k in yang_keys))))
         return list_obj._entry(name)
 
+    @staticmethod
+    def _check_shape(key, value, obj, entries):
+        """
+        Raise an error if the value that a document has for obj cannot be that of a
+        node of its kind, entries is what the document has for a list.
+        """
+        pybind_attr = getattr(obj, "_pybind_generated_by", None)
+        if pybind_attr == "container":
+            valid = isinstance(value, dict)
+        elif pybind_attr == "YANGListType":
+            valid = isinstance(value, entries) and all(
+                isinstance(i, dict) for i in (value.values() if entries is dict else value)
+            )
+        elif pybind_attr == "TypedListType":
+            valid = not isinstance(value, dict) and not any(
+                isinstance(i, (dict, list)) for i in (value if isinstance(value, list) else [])
+            )
+        else:
+            valid = not isinstance(value, (dict, list))
+        if not valid:
+            raise pybindJSONDecodeError("Invalid value specified for %s: %r" % (key, value))
+
     @staticmethod
     def check_metadata_add(key, data, obj):
         keys = [str(k) for k in data]
@@ -774,18 +797,24 @@ class pybindJSONDecoder(object):
                 # will look up its own metadata
                 continue
 
+            attr_get = getattr(obj, "_get_%s" % safe_name(ykey), None)
+            if attr_get is None and skip_unknown is False:
+                raise AttributeError("JSON object contained a key that did not exist (%s)" % (ykey))
+            elif attr_get is None and skip_unknown is not False:
+                # Skip unknown JSON keys
+                continue
+            chobj = attr_get()
+            if hasattr(chobj, "_keyval") and isinstance(d[key], dict):
+                # none of the members of an object are known within a list
+                pass
+            elif d[key] != [None] or chobj._yang_type in ("container", "list"):
+                # [null] is the value of an empty leaf
+                pybindJSONDecoder._check_shape(key, d[key], chobj, list)
+
             std_method_set = False
             # Handle the case that this is a JSON object
             if isinstance(d[key], dict):
                 # Iterate through attributes and set to that value
-                attr_get = getattr(obj, "_get_%s" % safe_name(ykey), None)
-                if attr_get is None and skip_unknown is False:
-                    raise AttributeError("Invalid attribute specified (%s)" % ykey)
-                elif attr_get is None and skip_unknown is not False:
-                    # Skip unknown JSON keys
-                    continue
-
-                chobj = attr_get()
                 if hasattr(chobj, "_presence"):
                     if chobj._presence:
                         chobj._set_present()
@@ -801,55 +830,39 @@ class pybindJSONDecoder(object):
                     overwrite=overwrite,
                     skip_unknown=skip_unknown,
                 )
-            elif isinstance(d[key], list):
+            elif hasattr(chobj, "_keyval"):
                 if overwrite:
-                    existing = getattr(obj, "_get_%s" % safe_name(ykey), dict)()
-                    if hasattr(existing, "_keyval"):
-                        for i in list(existing):
-                            existing.delete(i)
+                    for i in list(chobj):
+                        chobj.delete(i)
                 for elem in d[key]:
-                    # if this is a list, then this is a YANG list
-                    this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
-                    if this_attr is None:
-                        raise AttributeError("List specified that did not exist")
-                    this_attr = this_attr()
-                    if hasattr(this_attr, "_keyval"):
-                        #  this handles YANGLists
-                        if this_attr._keyval is False:
-                            # Keyless list, generate a key
-                            k = this_attr.add()
-                            nobj = this_attr[k]
-                        elif " " in this_attr._keyval:
-                            kwargs = {}
-                            for pkv, ykv in zip(this_attr._keyval.split(" "), this_attr._yang_keys.split(" ")):
-                                kwargs[pkv] = elem[ykv]
-                            nobj = this_attr._entry(**kwargs)
-                        else:
-                            nobj = this_attr._entry(elem[this_attr._yang_keys])
-                        pybindJSONDecoder.load_ietf_json(
-                            elem,
-                            None,
-                            None,
-                            obj=nobj,
-                            path_helper=path_helper,
-                            extmethods=extmethods,
-                            overwrite=overwrite,
-                            skip_unknown=skip_unknown,
-                        )
-                        pybindJSONDecoder.check_metadata_add(key, d, nobj)
+                    #  this handles YANGLists
+                    if chobj._keyval is False:
+                        # Keyless list, generate a key
+                        k = chobj.add()
+                        nobj = chobj[k]
+                    elif " " in chobj._keyval:
+                        kwargs = {}
+                        for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
+                            kwargs[pkv] = elem[ykv]
+                        nobj = chobj._entry(**kwargs)
                     else:
-                        # this is a leaf-list
-                        std_method_set = True
+                        nobj = chobj._entry(elem[chobj._yang_keys])
+                    pybindJSONDecoder.load_ietf_json(
+                        elem,
+                        None,
+                        None,
+                        obj=nobj,
+                        path_helper=path_helper,
+                        extmethods=extmethods,
+                        overwrite=overwrite,
+                        skip_unknown=skip_unknown,
+                    )
+                    pybindJSONDecoder.check_metadata_add(key, d, nobj)
             else:
                 std_method_set = True
 
             if std_method_set:
-                get_method = getattr(obj, "_get_%s" % safe_name(ykey), None)
-                if get_method is None and skip_unknown is False:
-                    raise AttributeError("JSON object contained a key that " + "did not exist (%s)" % (ykey))
-                elif get_method is None and skip_unknown is not False:
-                    continue
-                chk = get_method()
+                chk = chobj
                 if chk._is_keyval is True:
                     pass
                 else:
@@ -873,5 +886,5 @@ class pybindJSONDecoder(object):
                         if set_method is None:
                             raise AttributeError("Invalid attribute specified in JSON - %s" % (ykey))
                         set_method(val)
-                pybindJSONDecoder.check_metadata_add(key, d, get_method())
+                pybindJSONDecoder.check_metadata_add(key, d, attr_get())
         return obj
-- 
2.43.0


From a4396a2b3790aac809a9bad6b1c831a3370250c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 36/64] fix: get() of a leaf-list returns a copy, not the list
 it keeps

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index dc8efe6..d1dfec5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -584,7 +584,7 @@ def TypedListType(*args, **kwargs):
             return False
 
         def get(self, filter=False):
-            return self._list
+            return list(self._list)
 
     return type(TypedList(*args, **kwargs))
 
-- 
2.43.0


From f12d6a7c0e673ad3a1c7e377666e93c743ab02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 37/64] fix: _path() of a list entry returns a copy of its
 registered path

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d1dfec5..392e002 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1281,7 +1281,7 @@ def YANGDynClass(*args, **kwargs):
             return self._extensionsd
 
         def _path(self):
-            return self._register_path()
+            return list(self._register_path())
 
         def _yang_path(self):
             return "/" + "/".join(self._register_path())
-- 
2.43.0


From d3cdcdc355f677a520b6573355eb3c39b1ed7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 38/64] fix: select the entries of a list by nodes of nested
 containers in IETF JSON

---
 pyangbind/lib/pybindJSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index cf0bfd8..a099a7e 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -98,7 +98,7 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
         if len(key) == 1:
             return unresolved_dict[key[0]]
         current = key.pop(0)
-        return lookup_subdict(dictionary[current], key)
+        return lookup_subdict(unresolved_dict[current], key)
 
     if not isinstance(skip_subtrees, list):
         raise AttributeError("the subtrees to be skipped should be a list")
-- 
2.43.0


From db40946424f2460884b05d8f0cab4eba89376e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 39/64] fix: skip subtrees in IETF JSON, and those below lists

---
 pyangbind/lib/pybindJSON.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index a099a7e..d354c4c 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -27,20 +27,27 @@ from collections import OrderedDict
 from pyangbind.lib.serialise import pybindIETFJSONEncoder, pybindJSONDecoder, pybindJSONEncoder, pybindJSONIOError
 
 
-def remove_path(tree, path):
-    this_part = path.pop(0)
-    if len(path) == 0:
-        try:
-            del tree[this_part]
-            return tree
-        except KeyError:
-            # ignore missing dictionary key
-            pass
-    else:
-        try:
-            tree[this_part] = remove_path(tree[this_part], path)
-        except KeyError:
-            pass
+def remove_path(obj, tree, path):
+    # tree is what obj is to be serialised as, and path is relative to obj.
+    if getattr(obj, "_pybind_generated_by", None) == "YANGListType":
+        # the path applies to each of the entries of a list.
+        entries = tree.values() if isinstance(tree, dict) else tree
+        for entry_obj, entry in zip(obj.values(), entries):
+            remove_path(entry_obj, entry, path)
+        return tree
+
+    for element_name in getattr(obj, "_pyangbind_elements", ()):
+        element = getattr(obj, element_name)
+        if not element.yang_name() == path[0]:
+            continue
+        # the members of IETF JSON may be qualified by their module's name.
+        for member in (path[0], "%s:%s" % (element._defining_module, path[0])):
+            if member not in tree:
+                continue
+            if len(path) == 1:
+                del tree[member]
+            else:
+                remove_path(element, tree[member], path[1:])
     return tree
 
 
@@ -124,7 +131,7 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
             trimmed_path.pop(0)
 
         if match and len(trimmed_path):
-            tree = remove_path(tree, trimmed_path)
+            tree = remove_path(obj, tree, trimmed_path)
 
     if select:
         key_del = []
-- 
2.43.0


From 5a6609a1013db60ca8c6b4ae40a868113f3db3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 40/64] fix: XML of a container or list entry that augments
 another module is in its own namespace

---
 pyangbind/lib/serialise.py | 4 +++-
 pyangbind/plugin/pybind.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 5afc252..b57958e 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -401,7 +401,9 @@ class pybindIETFXMLEncoder(object):
         ietf_tree_xml_func = make_generate_ietf_tree(pybindIETFXMLEncoder.yname_ns_func)
         tree = ietf_tree_xml_func(obj, flt=filter)
         preprocessed = XmlYangDataSerialiser().preprocess_element(tree)
-        return cls.generate_xml_tree(obj._yang_name, obj._yang_namespace, preprocessed)
+        # only classes that have children are generated with a namespace
+        namespace = getattr(obj, "_namespace", None) or obj._yang_namespace
+        return cls.generate_xml_tree(obj._yang_name, namespace, preprocessed)
 
     @classmethod
     def serialise(cls, obj, filter=True, pretty_print=True):
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 5d1aeba..145c83d 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -880,6 +880,9 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # Store the namespace URI for easier access during XML serialisation
         if module.keyword == "submodule":
             mod_location = next(v for k, v in ctx.modules.items() if k[0] == module.i_modulename)
+        elif parent is not module:
+            # a node that augments another module is in its own module's namespace
+            mod_location = parent.main_module()
         else:
             mod_location = module
         nfd.write("  _yang_namespace = '%s'\n" % (mod_location.search("namespace")[0].arg))
-- 
2.43.0


From 5a865abc2e6c10f003ffdcdc4d51cf7b3a86fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 41/64] fix: encode the values of a list that is dumped by
 itself in IETF JSON

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index b57958e..14e7c90 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -94,7 +94,7 @@ class YangDataSerialiser(object):
                 # exclude all elements that begin with "@"
                 index += 1
         else:
-            nd = d
+            nd = self.default(d) if isinstance(d, list) else d
         return nd
 
     def member_name(self, key):
-- 
2.43.0


From 29b050661b5f0c5805cac7836b252a79ed8e645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 42/64] fix: unset leaves have their default value in an
 unfiltered IETF JSON or XML document

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 14e7c90..1720208 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -470,7 +470,7 @@ def make_generate_ietf_tree(yname_ns_func):
                     if flt and element._changed():
                         d[yname] = element
                     elif not flt:
-                        d[yname] = element
+                        d[yname] = element if element._changed() or element._default is False else element._default
                 elif with_defaults == WithDefaults.IF_SET:
                     if element._changed() or element._default == element:
                         d[yname] = element
-- 
2.43.0


From 030f07c71298f22e668faf61ff7e2a8754d10eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 43/64] fix: WithDefaults.IF_SET only includes what was set,
 not unset leaves that equal their default

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 1720208..ed3e9d5 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -472,7 +472,7 @@ def make_generate_ietf_tree(yname_ns_func):
                     elif not flt:
                         d[yname] = element if element._changed() or element._default is False else element._default
                 elif with_defaults == WithDefaults.IF_SET:
-                    if element._changed() or element._default == element:
+                    if element._changed():
                         d[yname] = element
         return d
 
-- 
2.43.0


From f4bfa543dd28859866a9d836c92c610ed1c8254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 44/64] fix: load_ietf closes the file it reads

---
 pyangbind/lib/pybindJSON.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index d354c4c..4ba1981 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -84,7 +84,8 @@ def load(fn, parent_pymod, yang_module, path_helper=None, extmethods=None, overw
 
 def load_ietf(fn, parent_pymod, yang_module, path_helper=None, extmethods=None, overwrite=False):
     try:
-        f = json.load(open(fn, "r"), object_pairs_hook=OrderedDict)
+        with open(fn, "r") as fp:
+            f = json.load(fp, object_pairs_hook=OrderedDict)
     except IOError as m:
         raise pybindJSONIOError("Could not open file to read: %s" % m)
     return loads_ietf(f, parent_pymod, yang_module, path_helper, extmethods=extmethods, overwrite=overwrite)
-- 
2.43.0


From 112e5b9c1ece9834c7171f1831d79c36ebae1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 45/64] fix: dump serialises before it opens, and thereby
 empties, the file

---
 pyangbind/lib/pybindJSON.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index 4ba1981..0cfed8c 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -166,9 +166,12 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
 
 
 def dump(obj, fn, indent=4, filter=True, skip_subtrees=[], mode="default"):
+    # serialise before the file is opened, such that its content is not lost
+    # where this fails.
+    text = dumps(obj, indent=indent, filter=filter, skip_subtrees=skip_subtrees, mode=mode)
     try:
         fh = open(fn, "w")
     except IOError as m:
         raise pybindJSONIOError("could not open file for writing: %s" % m)
-    fh.write(dumps(obj, indent=indent, filter=filter, skip_subtrees=skip_subtrees, mode=mode))
-    fh.close()
+    with fh:
+        fh.write(text)
-- 
2.43.0


From f2738ca2b5d35b8c032fe605e57e19b8b1d2cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 46/64] fix: find the instance a leafref refers to in the
 leaf-lists of several list entries

---
 pyangbind/lib/yangtypes.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 392e002..fa2134d 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1466,20 +1466,13 @@ def ReferenceType(*args, **kwargs):
                         found = False
                         path_chk = self._path_helper.get(self._referenced_path, caller=self._caller)
 
-                        if len(path_chk) == 1 and is_yang_leaflist(path_chk[0]):
-                            index = 0
-                            for i in path_chk[0]:
-                                if str(i) == str(value):
-                                    found = True
-                                    self._referenced_object = path_chk[0][index]
-                                    break
-                                index += 1
-                        else:
-                            found = False
-                            for i in path_chk:
+                        for target in path_chk:
+                            # the path can lead to the leaf-lists of several list entries
+                            for i in target if is_yang_leaflist(target) else [target]:
                                 if str(i) == str(value):
                                     found = True
                                     self._referenced_object = i
+                                    break
 
                         if not found:
                             raise ValueError(
-- 
2.43.0


From 7cefa41ca915c36f6de320d7d42d908793a3986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 47/64] fix: compare the value of a leafref with its targets as
 one of their type rather than as text

---
 pyangbind/lib/yangtypes.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index fa2134d..107707a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -130,6 +130,22 @@ def key_text(value):
     return str(base64.b64encode(value), "ascii") if isinstance(value, bytes) else str(value)
 
 
+def same_value(target, value):
+    """
+    Return whether a value that is to be assigned is that of the target, when it is
+    taken as one of the target's type.
+    """
+    if hasattr(target, "_referenced_path"):
+        target = target._get()
+    target_type = getattr(target, "_base_type", type(target))
+    if hasattr(value, "_referenced_path"):
+        value = value._get()
+    try:
+        return target_type(value) == target
+    except Exception:
+        return False
+
+
 def is_identity(value):
     """
     Return whether a value - or the type of a leaf - is one of an identityref.
@@ -1469,7 +1485,7 @@ def ReferenceType(*args, **kwargs):
                         for target in path_chk:
                             # the path can lead to the leaf-lists of several list entries
                             for i in target if is_yang_leaflist(target) else [target]:
-                                if str(i) == str(value):
+                                if same_value(i, value):
                                     found = True
                                     self._referenced_object = i
                                     break
-- 
2.43.0


From 18bb4056ea8272413ac19201beb50dfa64f13cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 48/64] fix: look up entries of a leaf-list of leafrefs by the
 value of their targets

---
 pyangbind/lib/yangtypes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 107707a..4d7c9e1 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -503,11 +503,12 @@ def TypedListType(*args, **kwargs):
 
         def index(self, v, *args):
             # a value is looked up as what it would be stored as
-            if not any(getattr(i, "_pybind_generated_by", None) == "ReferencePathType" for i in self._allowed_type):
-                try:
-                    v = self._cast(v)
-                except ValueError:
-                    pass
+            if any(getattr(i, "_pybind_generated_by", None) == "ReferencePathType" for i in self._allowed_type):
+                return [same_value(i, v) for i in self._list].index(True, *args)
+            try:
+                v = self._cast(v)
+            except ValueError:
+                pass
             return [self._comparable(i) for i in self._list].index(self._comparable(v), *args)
 
         def __contains__(self, v):
-- 
2.43.0


From e086e35f2f0a604dc179935561f9c7cfdb324822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 49/64] fix: generate typedefs of unions that contain a leafref

---
 pyangbind/plugin/pybind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 145c83d..5a07794 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1629,6 +1629,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
         # is str
         tmp_class_map = copy.copy(class_map)
         tmp_class_map["enumeration"] = {"parent_type": "string"}
+        tmp_class_map["leafref"] = {"parent_type": "string"}
 
         if not default_type:
             if isinstance(elemtype, list):
-- 
2.43.0


From 6ea28f1e934158951c4dd61bdba59de5b30059fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 50/64] fix: generate usable bindings for unions that contain a
 leafref when using the xpathhelper

---
 pyangbind/plugin/pybind.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 5a07794..a21ec8b 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1342,6 +1342,14 @@ def build_elemtype(ctx, et, prefix=False):
                     # a union directly within a union
                     elemtype.extend(elemtype_s[1])
                     continue
+                if elemtype_s[1]["native_type"] == "ReferenceType":
+                    # the leaf that the union is used by is not known here, any child
+                    # of its parent leads to the same nodes
+                    elemtype_s[1]["native_type"] = (
+                        "ReferenceType(referenced_path='%s', caller=self._path() + ['*'], "
+                        "path_helper=self._path_helper, require_instance=%s)"
+                        % (elemtype_s[1]["referenced_path"], elemtype_s[1]["require_instance"])
+                    )
                 elemtype_s[1]["yang_type"] = uniontype.arg
                 elemtype.append(elemtype_s)
             cls = "union"
-- 
2.43.0


From ac5bbb135121fca154f5274a80ddb888294f8ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 51/64] fix: resolve identity and typedef names to the
 statements that define them

---
 pyangbind/helpers/identity.py |  13 +-
 pyangbind/plugin/pybind.py    | 381 +++++++++++++---------------------
 2 files changed, 153 insertions(+), 241 deletions(-)

diff --git a/pyangbind/helpers/identity.py b/pyangbind/helpers/identity.py
index e99b5b0..fa556e1 100644
--- a/pyangbind/helpers/identity.py
+++ b/pyangbind/helpers/identity.py
@@ -16,7 +16,6 @@ See the License for the specific language governing permissions and
 limitations under the License.
 """
 
-from pyang import util
 from .misc import module_import_prefixes
 
 
@@ -99,17 +98,11 @@ class IdentityStore(object):
             base_ids = []
             bases = iddef.search("base")
             for base in bases:
-                # Determine what the name of the base and the prefix for
-                # the base should be
-                if ":" in base.arg:
-                    base_pfx, base_name = base.arg.split(":")
-                else:
-                    base_pfx, base_name = prefix, base.arg
-
-                parent_module = util.prefix_to_module(defmod, base_pfx, base.pos, ctx.errors)
+                # The prefix of a base is specific to the module, or submodule
+                parent_module = base.i_identity.main_module()
 
                 # Find whether we have the base in the store
-                base_id = self.find_identity_by_source_name(parent_module.arg, base_name)
+                base_id = self.find_identity_by_source_name(parent_module.arg, base.i_identity.arg)
 
                 if base_id is None:
                     # and if not, then push this identity back onto the stack
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index a21ec8b..b7c885d 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -30,7 +30,7 @@ import os
 import sys
 from collections import OrderedDict
 
-from pyang import plugin, statements, util
+from pyang import plugin, statements
 
 import pyangbind.helpers.misc as misc_help
 from pyangbind.helpers.identity import IdentityStore
@@ -180,6 +180,9 @@ class_map = {
     },
 }
 
+# The identities that are known, by their module and name
+identity_map = {}
+
 # We have a set of types which support "range" statements in RFC6020. This
 # list determins types that should be allowed to have a "range" argument.
 INT_RANGE_TYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
@@ -384,21 +387,16 @@ long = int
             new_all_mods.append(mod)
     all_mods = new_all_mods
 
-    # Build a list of the 'typedef' and 'identity' statements that are included
-    # in the modules supplied.
+    # Build a list of the 'identity' statements that are included in the modules
+    # supplied. The prefixes of different modules may be the same, whereas their
+    # names are not.
     defn = OrderedDict()
-    for defnt in ["typedef", "identity"]:
-        defn[defnt] = OrderedDict()
-        for m in all_mods:
-            t = misc_help.find_definitions(defnt, ctx, m[1], m[0])
-            for k in t:
-                if k not in defn[defnt]:
-                    defn[defnt][k] = t[k]
-
-    # Build the identities and typedefs (these are added to the class_map which
-    # is globally referenced).
-    build_identities(ctx, defn["identity"])
-    build_typedefs(ctx, defn["typedef"])
+    for m in all_mods:
+        defn.update(misc_help.find_definitions("identity", ctx, m[1], m[1].arg))
+
+    # Build the identities - typedefs are built, and added to the class_map which
+    # is globally referenced, when they are used.
+    build_identities(ctx, defn)
 
     # Iterate through the tree which pyang has built, solely for the modules
     # that pyang was asked to build
@@ -444,209 +442,139 @@ def build_identities(ctx, defnd):
     idstore = IdentityStore()
     idstore.build_store_from_definitions(ctx, defnd)
 
-    identity_dict = {}
+    # Add entries to the identity_map such that this identity can be referenced by
+    # elements that use this identity ref.
     for identity in idstore:
-        for prefix in identity.prefixes():
-            ident = "%s:%s" % (prefix, identity.name)
-            identity_dict[ident] = {}
-            identity_dict["%s" % identity.name] = {}
-            for ch in identity.children:
-                d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
-                for cpfx in ch.prefixes() + [None]:
-                    if cpfx is not None:
-                        spfx = "%s:" % cpfx
-                    else:
-                        spfx = ""
-                    identity_dict[ident][ch.name] = d
-                    identity_dict[identity.name][ch.name] = d
-                    identity_dict[ident]["%s%s" % (spfx, ch.name)] = d
-                    identity_dict[identity.name]["%s%s" % (spfx, ch.name)] = d
+        identity_map[(identity.source_module, identity.name)] = identity
 
-        if identity.name not in identity_dict:
-            identity_dict[identity.name] = {}
 
-    # Add entries to the class_map such that this identity can be referenced by
-    # elements that use this identity ref.
-    for i in identity_dict:
-        id_type = {
-            "native_type": """RestrictedClassType(base_type=str, """
-            + """restriction_type="dict_key", """
-            + """restriction_arg=%s,)""" % identity_dict[i],
-            "restriction_argument": identity_dict[i],
-            "restriction_type": "dict_key",
-            "parent_type": "string",
-            "base_type": False,
-        }
-        class_map[i] = id_type
-
-
-def build_typedefs(ctx, defnd):
-    # Build the type definitions that are specified within a model. Since
-    # typedefs are essentially derived from existing types, order of processing
-    # is important - we need to go through and build the types in order where
-    # they have a known 'type'.
-    unresolved_tc = {}
-    for i in defnd:
-        unresolved_tc[i] = 0
-    unresolved_t = list(defnd.keys())
-    error_ids = []
+def build_identityref(base):
+    # Build the type of an identityref, whose values are the identities that are
+    # derived from its base. The name of a module takes precedence over a prefix
+    # that is the same.
+    identity_dict = {}
+    for ch in base.children:
+        d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
+        identity_dict[ch.name] = d
+        for prefix in ch.prefixes():
+            identity_dict["%s:%s" % (prefix, ch.name)] = d
+    for ch in base.children:
+        d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
+        identity_dict["%s:%s" % (ch.source_module, ch.name)] = d
+
+    return {
+        "native_type": """RestrictedClassType(base_type=str, """
+        + """restriction_type="dict_key", """
+        + """restriction_arg=%s,)""" % identity_dict,
+        "restriction_argument": identity_dict,
+        "restriction_type": "dict_key",
+        "parent_type": "string",
+        "base_type": False,
+    }
+
+
+def type_name(stmt):
+    # The name that a type has in the class_map. The names of typedefs are relative
+    # to the statements that define them.
+    typedef = getattr(stmt, "i_typedef", None)
+    if typedef is None:
+        return stmt.arg
+    name = typedef.arg
+    scope = typedef.parent
+    while scope.parent is not None:
+        name = "%s %s/%s" % (scope.keyword, scope.arg, name)
+        scope = scope.parent
+    return "%s:%s" % (scope.arg, name)
+
+
+def get_type(ctx, stmt):
+    # The entry of the class_map for a type - that of a typedef is built when it is
+    # first used, following those of the types that it is derived from.
+    name = type_name(stmt)
+    if name not in class_map and getattr(stmt, "i_typedef", None) is not None:
+        build_typedef(ctx, name, stmt.i_typedef)
+    return class_map[name]
+
+
+def build_typedef(ctx, name, item):
+    # Build the type definition that is specified by a typedef statement.
+    # Copy the class_map entry - this is done so that we do not alter the
+    # existing instance in memory as we add to it.
+    cls, elemtype = copy.deepcopy(build_elemtype(ctx, item.search_one("type")))
     known_types = list(class_map.keys())
+    # Enumeration is a native type, but is not natively supported
+    # in the class_map, and hence we append it here.
     known_types.append("enumeration")
     known_types.append("leafref")
     known_types.append("bits")
-    base_types = copy.deepcopy(known_types)
-    process_typedefs_ordered = []
-
-    while len(unresolved_t):
-        t = unresolved_t.pop(0)
-        base_t = defnd[t].search_one("type")
-        if base_t.arg == "union":
-            subtypes = []
-            for i in base_t.search("type"):
-                if i.arg == "identityref":
-                    subtypes.append(i.search_one("base"))
-                else:
-                    subtypes.append(i)
-        elif base_t.arg == "identityref":
-            subtypes = [base_t.search_one("base")]
-        else:
-            subtypes = [base_t]
-
-        any_unknown = False
-        for i in subtypes:
-            # Resolve this typedef to the module that it
-            # was defined by
-
-            if ":" in i.arg:
-                defining_module = util.prefix_to_module(
-                    defnd[t].i_module, i.arg.split(":")[0], defnd[t].pos, ctx.errors
-                )
-            else:
-                defining_module = defnd[t].i_module
-
-            belongs_to = defining_module.search_one("belongs-to")
-            if belongs_to is not None:
-                for mod in ctx.modules:
-                    if mod[0] == belongs_to.arg:
-                        defining_module = ctx.modules[mod]
-
-            real_pfx = defining_module.search_one("prefix").arg
-
-            if ":" in i.arg:
-                tn = "%s:%s" % (real_pfx, i.arg.split(":")[1])
-            elif i.arg not in base_types:
-                # If this was not a base type (defined in YANG) then resolve it
-                # to the module it belongs to.
-                tn = "%s:%s" % (real_pfx, i.arg)
-            else:
-                tn = i.arg
 
-            if tn not in known_types:
-                any_unknown = True
-
-        if not any_unknown:
-            process_typedefs_ordered.append((t, defnd[t]))
-            known_types.append(t)
+    default_stmt = item.search_one("default")
+
+    # 'elemtype' is a list when the type includes a union, so we need to go
+    # through and build a type definition that supports multiple types.
+    if not isinstance(elemtype, list):
+        # Map the original type to the new type, parsing the additional arguments
+        # that may be specified, for example, a new default, a pattern that must
+        # be matched, or a length (stored in the restriction_argument, and
+        # restriction_type class_map variables).
+        class_map[name] = {"base_type": False}
+        class_map[name]["native_type"] = elemtype["native_type"]
+        if "parent_type" in elemtype:
+            class_map[name]["parent_type"] = elemtype["parent_type"]
         else:
-            unresolved_tc[t] += 1
-            if unresolved_tc[t] > 1000:
-                # Take a similar approach to the resolution of identities. If we have a
-                # typedef that has a type in it that is not found after many iterations
-                # then we should bail.
-                error_ids.append(t)
-                sys.stderr.write("could not find a match for %s type -> %s\n" % (t, [i.arg for i in subtypes]))
-            else:
-                unresolved_t.append(t)
-
-    if error_ids:
-        raise TypeError("could not resolve typedefs %s" % error_ids)
-
-    # Process the types that we built above.
-    for i_tuple in process_typedefs_ordered:
-        item = i_tuple[1]
-        type_name = i_tuple[0]
-        # Copy the class_map entry - this is done so that we do not alter the
-        # existing instance in memory as we add to it.
-        cls, elemtype = copy.deepcopy(build_elemtype(ctx, item.search_one("type")))
-        known_types = list(class_map.keys())
-        # Enumeration is a native type, but is not natively supported
-        # in the class_map, and hence we append it here.
-        known_types.append("enumeration")
-        known_types.append("leafref")
-        known_types.append("bits")
-
-        # Don't allow duplicate definitions of types
-        if type_name in known_types:
-            raise TypeError("Duplicate definition of %s" % type_name)
-        default_stmt = item.search_one("default")
-
-        # 'elemtype' is a list when the type includes a union, so we need to go
-        # through and build a type definition that supports multiple types.
-        if not isinstance(elemtype, list):
-            # Map the original type to the new type, parsing the additional arguments
-            # that may be specified, for example, a new default, a pattern that must
-            # be matched, or a length (stored in the restriction_argument, and
-            # restriction_type class_map variables).
-            class_map[type_name] = {"base_type": False}
-            class_map[type_name]["native_type"] = elemtype["native_type"]
-            if "parent_type" in elemtype:
-                class_map[type_name]["parent_type"] = elemtype["parent_type"]
+            yang_type = type_name(item.search_one("type"))
+            if yang_type not in known_types:
+                raise TypeError("typedef specified a native type that was not " + "supported")
+            class_map[name]["parent_type"] = yang_type
+        if default_stmt is not None:
+            class_map[name]["default"] = default_stmt.arg
+        elif "default" in elemtype:
+            # a type that does not have a default inherits that of its parent
+            class_map[name]["default"] = elemtype["default"]
+        if "referenced_path" in elemtype:
+            class_map[name]["referenced_path"] = elemtype["referenced_path"]
+            class_map[name]["class_override"] = "leafref"
+        if "require_instance" in elemtype:
+            class_map[name]["require_instance"] = elemtype["require_instance"]
+        if "restriction_type" in elemtype:
+            class_map[name]["restriction_type"] = elemtype["restriction_type"]
+            class_map[name]["restriction_argument"] = elemtype["restriction_argument"]
+        if "quote_arg" in elemtype:
+            class_map[name]["quote_arg"] = elemtype["quote_arg"]
+    else:
+        # Handle a typedef that is a union - extended the class_map arguments
+        # to be a list that is parsed by the relevant dynamic type generation
+        # function.
+        native_type = []
+        parent_type = []
+        default = False if default_stmt is None else default_stmt.arg
+        for i in elemtype:
+            if isinstance(i[1]["native_type"], list):
+                native_type.extend(i[1]["native_type"])
             else:
-                yang_type = item.search_one("type").arg
-                if yang_type not in known_types:
-                    raise TypeError("typedef specified a native type that was not " + "supported")
-                class_map[type_name]["parent_type"] = yang_type
-            if default_stmt is not None:
-                class_map[type_name]["default"] = default_stmt.arg
-            elif "default" in elemtype:
-                # a type that does not have a default inherits that of its parent
-                class_map[type_name]["default"] = elemtype["default"]
-            if "referenced_path" in elemtype:
-                class_map[type_name]["referenced_path"] = elemtype["referenced_path"]
-                class_map[type_name]["class_override"] = "leafref"
-            if "require_instance" in elemtype:
-                class_map[type_name]["require_instance"] = elemtype["require_instance"]
-            if "restriction_type" in elemtype:
-                class_map[type_name]["restriction_type"] = elemtype["restriction_type"]
-                class_map[type_name]["restriction_argument"] = elemtype["restriction_argument"]
-            if "quote_arg" in elemtype:
-                class_map[type_name]["quote_arg"] = elemtype["quote_arg"]
-        else:
-            # Handle a typedef that is a union - extended the class_map arguments
-            # to be a list that is parsed by the relevant dynamic type generation
-            # function.
-            native_type = []
-            parent_type = []
-            default = False if default_stmt is None else default_stmt.arg
-            for i in elemtype:
-                if isinstance(i[1]["native_type"], list):
-                    native_type.extend(i[1]["native_type"])
-                else:
-                    native_type.append(i[1]["native_type"])
+                native_type.append(i[1]["native_type"])
 
-                if i[1]["yang_type"] in known_types:
-                    parent_type.append(i[1]["yang_type"])
-                elif i[1]["yang_type"] == "identityref":
-                    parent_type.append(i[1]["parent_type"])
-                else:
-                    msg = "typedef in a union specified a native type that was not"
-                    msg += " supported (%s in %s)" % (i[1]["yang_type"], item.arg)
-                    raise TypeError(msg)
-
-                if "default" in i[1] and not default:
-                    # When multiple 'default' values are specified within a union that
-                    # is within a typedef, then pyangbind will choose the first one.
-                    q = True if "quote_arg" in i[1] else False
-                    default = (i[1]["default"], q)
-            class_map[type_name] = {"native_type": native_type, "base_type": False, "parent_type": parent_type}
-            if default:
-                if not isinstance(default, tuple):
-                    q = True if "quote_arg" in i[1] else False
-                    default = (default, q)
-                class_map[type_name]["default"] = default[0]
-                class_map[type_name]["quote_default"] = default[1]
-
-        class_map[type_name.split(":")[1]] = class_map[type_name]
+            if i[1]["yang_type"] in known_types:
+                parent_type.append(i[1]["yang_type"])
+            elif i[1]["yang_type"] == "identityref":
+                parent_type.append(i[1]["parent_type"])
+            else:
+                msg = "typedef in a union specified a native type that was not"
+                msg += " supported (%s in %s)" % (i[1]["yang_type"], item.arg)
+                raise TypeError(msg)
+
+            if "default" in i[1] and not default:
+                # When multiple 'default' values are specified within a union that
+                # is within a typedef, then pyangbind will choose the first one.
+                q = True if "quote_arg" in i[1] else False
+                default = (i[1]["default"], q)
+        class_map[name] = {"native_type": native_type, "base_type": False, "parent_type": parent_type}
+        if default:
+            if not isinstance(default, tuple):
+                q = True if "quote_arg" in i[1] else False
+                default = (default, q)
+            class_map[name]["default"] = default[0]
+            class_map[name]["quote_default"] = default[1]
 
 
 def get_children_elements(
@@ -1234,7 +1162,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
-def build_elemtype(ctx, et, prefix=False):
+def build_elemtype(ctx, et):
     # Build a dictionary which defines the type for the element. This is used
     # both in the case that a typedef needs to be built, as well as on per-list
     # basis.
@@ -1276,14 +1204,14 @@ def build_elemtype(ctx, et, prefix=False):
             cls = "restricted-%s" % (et.arg)
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (get_type(ctx, et)["native_type"], repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name(et),
                 "base_type": False,
             }
         elif "range" in restrictions:
             cls = "restricted-%s" % et.arg
-            base_native_type = class_map[et.arg]["native_type"]
+            base_native_type = get_type(ctx, et)["native_type"]
             fd_stmt = et.search_one("fraction-digits")
             if fd_stmt is not None:
                 # the precision applies to the values of a range restricted decimal64
@@ -1292,7 +1220,7 @@ def build_elemtype(ctx, et, prefix=False):
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
                 % (base_native_type, repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name(et),
                 "base_type": False,
             }
 
@@ -1350,7 +1278,7 @@ def build_elemtype(ctx, et, prefix=False):
                         "path_helper=self._path_helper, require_instance=%s)"
                         % (elemtype_s[1]["referenced_path"], elemtype_s[1]["require_instance"])
                     )
-                elemtype_s[1]["yang_type"] = uniontype.arg
+                elemtype_s[1]["yang_type"] = type_name(uniontype)
                 elemtype.append(elemtype_s)
             cls = "union"
         # Map leafrefs to a ReferenceType, handling the referenced path, and
@@ -1383,11 +1311,12 @@ def build_elemtype(ctx, et, prefix=False):
             if base_stmt is None:
                 raise ValueError("identityref specified with no base statement")
             try:
-                elemtype = class_map[base_stmt.arg]
+                base = base_stmt.i_identity
+                elemtype = build_identityref(identity_map[(base.main_module().arg, base.arg)])
             except KeyError:
                 sys.stderr.write("FATAL: identityref with an unknown base\n")
                 if DEBUG:
-                    pp.pprint(class_map.keys())
+                    pp.pprint(identity_map.keys())
                     pp.pprint(et.arg)
                     pp.pprint(base_stmt.arg)
                 sys.exit(127)
@@ -1413,23 +1342,13 @@ def build_elemtype(ctx, et, prefix=False):
             # at this point. In the case that we are referencing a type that is a
             # typedef, then this has been added to the class_map.
             try:
-                elemtype = class_map[et.arg]
+                elemtype = get_type(ctx, et)
             except KeyError:
-                passed = False
-                if prefix:
-                    try:
-                        tmp_name = "%s:%s" % (prefix, et.arg)
-                        elemtype = class_map[tmp_name]
-                        passed = True
-                    except Exception:
-                        pass
-                if passed is False:
-                    sys.stderr.write("FATAL: unmapped type (%s)\n" % (et.arg))
-                    if DEBUG:
-                        pp.pprint(class_map.keys())
-                        pp.pprint(et.arg)
-                        pp.pprint(prefix)
-                    sys.exit(127)
+                sys.stderr.write("FATAL: unmapped type (%s)\n" % (et.arg))
+                if DEBUG:
+                    pp.pprint(class_map.keys())
+                    pp.pprint(et.arg)
+                sys.exit(127)
         if isinstance(elemtype, list):
             cls = "leaf-union"
         elif "class_override" in elemtype:
-- 
2.43.0


From 35a3a39acbf92db479b04b190b77c2cec97df868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 52/64] fix: write and read identities as those of their
 modules in IETF JSON

---
 pyangbind/lib/serialise.py | 2 +-
 pyangbind/lib/yangtypes.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index ed3e9d5..35970ac 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -250,7 +250,7 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_identityref(self, obj, module=None):
         try:
             emod = obj._enumeration_dict[obj]["@module"]
-            if emod != (module or getattr(obj, "_defining_module", None)):
+            if ":" in obj or emod != (module or getattr(obj, "_defining_module", None)):
                 # the value may have been specified with a prefix
                 return "%s:%s" % (emod, obj.split(":")[-1])
         except KeyError:
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 4d7c9e1..eaa9a38 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -157,12 +157,16 @@ def is_identity(value):
 def strip_identity_prefix(types, value):
     """
     Return the name of an identity without the module name, or prefix, that it may
-    have in a document. Other values are returned as they are.
+    have in a document, unless it is that of another identity then. Other values
+    are returned as they are.
     """
     if isinstance(value, list):
         return [strip_identity_prefix(types, i) for i in value]
     if isinstance(value, str) and ":" in value and all(is_identity(t) for t in types):
-        return value.split(":", 1)[1]
+        name = value.split(":", 1)[1]
+        identities = [t._enumeration_dict for t in types if value in t._enumeration_dict]
+        if all(i[value]["@module"] == i.get(name, {}).get("@module") for i in identities):
+            return name
     return value
 
 
-- 
2.43.0


From 4034f51770658fb841c8d0899c7967951e6dcc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 53/64] fix: reserve further names that have a meaning in the
 generated classes

---
 pyangbind/lib/yangtypes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index eaa9a38..92eb1fa 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -88,6 +88,14 @@ reserved_name = [
     "min",
     "max",
     "async",
+    "await",
+    "nonlocal",
+    "None",
+    "True",
+    "False",
+    "append",
+    "extend",
+    "OrderedDict",
 ]
 
 
-- 
2.43.0


From f3a268bbd17f4e8672f1ed415b5102f66ef71a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 54/64] fix: generate Python for texts, integers and paths of
 YANG modules that are no Python themselves

---
 pyangbind/plugin/pybind.py | 46 +++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b7c885d..4e7d99f 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -183,6 +183,9 @@ class_map = {
 # The identities that are known, by their module and name
 identity_map = {}
 
+# The path that the class of each name is generated for
+class_paths = {}
+
 # We have a set of types which support "range" statements in RFC6020. This
 # list determins types that should be allowed to have a "range" argument.
 INT_RANGE_TYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
@@ -632,6 +635,27 @@ def get_children_elements(
                     imports.append(ch.arg)
 
 
+def class_name(element, module, path):
+    # The name of the class of an element, different elements may be named alike
+    # when their paths are written as an identifier.
+    name = "yc_%s_%s_%s" % (safe_name(element.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
+    while class_paths.setdefault(name, (module.arg, path)) != (module.arg, path):
+        name += "_"
+    return name
+
+
+def integer(text):
+    # An integer of a YANG module, which may be written as hexadecimal or octal.
+    digits = text.lstrip("+-")
+    base = 16 if digits.lower().startswith("0x") else 8 if digits.startswith("0") else 10
+    return str(int(text, base))
+
+
+def docstring(text):
+    # Text as it is written within the (triple quoted) docstrings of the generated code.
+    return text.replace("\\", "\\\\").replace('"', '\\"')
+
+
 def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=True, register_paths=True):
     # Iterative function that is called for all elements that have childen
     # data nodes in the tree. This function resolves those nodes into the
@@ -730,10 +754,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
         else:
             if not path == "":
-                nfd.write(
-                    "class yc_%s_%s_%s(PybindBase):\n"
-                    % (safe_name(parent.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
-                )
+                nfd.write("class %s(PybindBase):\n" % class_name(parent, module, path))
             else:
                 nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
 
@@ -752,7 +773,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # code that is generated.
         parent_descr = parent.search_one("description")
         if parent_descr is not None:
-            parent_descr = "\n\n  YANG Description: %s" % parent_descr.arg
+            parent_descr = "\n\n  YANG Description: %s" % docstring(parent_descr.arg)
         else:
             parent_descr = ""
 
@@ -828,7 +849,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # extension that were provided with the leaf, etc.).
             class_str = {}
             if "default" in i and not i["default"] is None:
-                default_arg = repr(i["default"]) if i["quote_arg"] else "%s" % i["default"]
+                default_arg = repr(i["default"]) if i["quote_arg"] else integer(i["default"])
 
             if i["class"] == "leaf-list":
                 # Map a leaf-list to the type specified in the class map. This is a
@@ -1046,7 +1067,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             c_str = classes[i["name"]]
             description_str = ""
             if i["description"]:
-                description_str = "\n\n    YANG Description: %s" % i["description"]
+                description_str = "\n\n    YANG Description: %s" % docstring(i["description"])
             nfd.write(
                 '''
   def _get_%s(self):
@@ -1097,7 +1118,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 """      raise ValueError({
           'error-string': \"\"\"%s must be of a type compatible with %s\"\"\",
           'defined-type': "%s",
-          'generated-type': \"\"\"%s(%s)\"\"\",
+          'generated-type': %r,
         })\n\n"""
                 % (
                     i["name"],
@@ -1107,8 +1128,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                         if ":" not in i["origtype"] and not i["origtype"] in YANG_BUILTIN_TYPES
                         else i["origtype"]
                     ),
-                    c_str["type"],
-                    c_str["arg"],
+                    "%s(%s)" % (c_str["type"], c_str["arg"]),
                 )
             )
             nfd.write("    self.__%s = t\n" % (i["name"]))
@@ -1490,11 +1510,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-                elemdict["type"] = "yc_%s_%s_%s" % (
-                    safe_name(element.arg),
-                    safe_name(module.arg),
-                    safe_name(path.replace("/", "_")),
-                )
+                elemdict["type"] = class_name(element, module, path)
 
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
-- 
2.43.0


From ccee6dae53c60f3cf1a5cdbc48e8daf8885dc0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 55/64] fix: inherit the config status of a choice in nodes
 that augment its descendants

---
 pyangbind/plugin/pybind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 4e7d99f..b9b3076 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -717,6 +717,9 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             if parent_config.upper() == "FALSE":
                 # this container is config false
                 parent_cfg = False
+        elif not inherited_config(parent):
+            # a choice that this container is within is config false
+            parent_cfg = False
 
     # When we are asked to split the classes into modules, then we need to find
     # all elements that have their own class within this container, and make sure
-- 
2.43.0


From 7e66700fb8c6135d514ba073119d51ef40713b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 56/64] fix: name the packages of split classes such that they
 do not hide others

---
 pyangbind/plugin/pybind.py | 96 +++++++++++++++++++++++++++++---------
 1 file changed, 75 insertions(+), 21 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b9b3076..b21d252 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -186,6 +186,39 @@ identity_map = {}
 # The path that the class of each name is generated for
 class_paths = {}
 
+# The classes, and the packages (with the module that these are of), at the top level
+# when classes are split into directories.
+top_classes = []
+top_packages = {}
+
+# Names that have a meaning in the generated classes.
+split_reserved_names = [
+    "AttributeError",
+    "Decimal",
+    "PybindBase",
+    "ReferenceType",
+    "RestrictedClassType",
+    "RestrictedPrecisionDecimalType",
+    "TypeError",
+    "TypedListType",
+    "ValueError",
+    "YANGBinary",
+    "YANGBitsType",
+    "YANGBool",
+    "YANGDynClass",
+    "YANGListType",
+    "attrgetter",
+    "bool",
+    "dict",
+    "getattr",
+    "hasattr",
+    "isinstance",
+    "len",
+    "long",
+    "setattr",
+    "xpathhelper",
+]
+
 # We have a set of types which support "range" statements in RFC6020. This
 # list determins types that should be allowed to have a "range" argument.
 INT_RANGE_TYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
@@ -403,6 +436,10 @@ long = int
 
     # Iterate through the tree which pyang has built, solely for the modules
     # that pyang was asked to build
+    for module in module_d.values():
+        top_classes.append(safe_name(module.arg))
+        top_classes.extend(safe_name(i.arg) for i in module.search("include"))
+
     for modname in pyang_called_modules:
         module = module_d[modname]
         mods = [module]
@@ -644,6 +681,26 @@ def class_name(element, module, path):
     return name
 
 
+def split_class_name(name):
+    # The class of an element, when classes are split into directories.
+    name = safe_name(name)
+    return name + "_" if name in split_reserved_names else name
+
+
+def package_name(name, cls, module):
+    # The package of an element, when classes are split into directories. It must not be
+    # named as the class that is in the file it is imported in, i.e., that of its parent.
+    # At the top level these are the modules, which may have elements of the same name.
+    name = split_class_name(name)
+    while name in (top_classes if cls is None else [split_class_name(cls)]):
+        name += "_"
+    if cls is None:
+        owner = getattr(module, "i_modulename", None) or module.arg
+        while top_packages.setdefault(name, owner) != owner:
+            name += "_"
+    return name
+
+
 def integer(text):
     # An integer of a YANG module, which may be written as hexadecimal or octal.
     digits = text.lstrip("+-")
@@ -676,16 +733,16 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             pparts = path.split("/")
             npath = "/"
 
-            # Check that we don't have the problem of containers that are nested
-            # with the same name
-            for i in range(1, len(pparts)):
-                if i > 0 and pparts[i] == pparts[i - 1]:
-                    pname = safe_name(pparts[i]) + "_"
-                elif i == 1 and pparts[i] == module.arg:
-                    pname = safe_name(pparts[i]) + "_"
-                else:
-                    pname = safe_name(pparts[i])
-                npath += pname + "/"
+            # The classes of the files that these packages are imported in, RPCs
+            # and notifications are within a class that is named as the module.
+            classes = [None] + pparts[1:]
+            start = 1
+            if not register_paths:
+                npath += pparts[1] + "/"
+                classes[1] = module.arg
+                start = 2
+            for i in range(start, len(pparts)):
+                npath += package_name(pparts[i], classes[i - 1], module) + "/"
 
             bpath = ctx.pybind_split_basepath + npath
             if not os.path.exists(bpath):
@@ -745,16 +802,16 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     if ctx.opts.split_class_dir:
         if len(import_req):
             for im in import_req:
-                if im == parent.arg:
-                    im += "_"
-                # Relative import in PY2/PY3 compatible style
-                nfd.write("from . import {}\n".format(safe_name(im)))
+                # The packages have an alias, as their names may be those of variables
+                # in the classes.
+                im = package_name(im, None if path == "" else parent.arg, module)
+                nfd.write("from . import {} as yc_{}\n".format(im, im))
 
     # 'container', 'module', 'list' and 'submodule' all have their own classes
     # generated.
     if parent.keyword in ["container", "module", "list", "submodule", "input", "output", "rpc", "notification"]:
-        if ctx.opts.split_class_dir:
-            nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
+        if ctx.opts.split_class_dir and path != "":
+            nfd.write("class %s(PybindBase):\n" % split_class_name(parent.arg))
         else:
             if not path == "":
                 nfd.write("class %s(PybindBase):\n" % class_name(parent, module, path))
@@ -1505,11 +1562,8 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 # If we were dealing with split classes, then rather than naming the
                 # class based on a unique intra-file name - and rather we must import
                 # the relative path to the module.class
-                if element.arg == parent.arg:
-                    modname = safe_name(element.arg) + "_"
-                else:
-                    modname = safe_name(element.arg)
-                elemdict["type"] = "%s.%s" % (modname, safe_name(element.arg))
+                modname = package_name(element.arg, None if path.count("/") == 1 else parent.arg, module)
+                elemdict["type"] = "yc_%s.%s" % (modname, split_class_name(element.arg))
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-- 
2.43.0


From 1198d305c824eab97906aa217667849a958f010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 57/64] fix: keep the list entries of RPCs and notifications
 out of the path helper

---
 pyangbind/lib/yangtypes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 92eb1fa..d232864 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -862,6 +862,7 @@ def YANGListType(*args, **kwargs):
                     # the entry is attached to its parent only once all of its
                     # keys were found to be valid.
                     register_path = self._parent._path() + [self._yang_name + path_keystring]
+                    register_paths = getattr(self, "_register_paths", True)
                     if not update:
                         tmp = YANGDynClass(
                             base=self._contained_class,
@@ -870,6 +871,7 @@ def YANGListType(*args, **kwargs):
                             is_container="container",
                             path_helper=path_helper,
                             register_path=register_path,
+                            register_paths=register_paths,
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
                             choice=choice,
@@ -885,6 +887,7 @@ def YANGListType(*args, **kwargs):
                             is_container="container",
                             path_helper=path_helper,
                             register_path=register_path,
+                            register_paths=register_paths,
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
@@ -896,7 +899,7 @@ def YANGListType(*args, **kwargs):
                             key = getattr(tmp, "_set_%s" % safe_name(kn))
                             key(keydict[kn], load=True)
                     except ValueError:
-                        if path_helper and not update:
+                        if path_helper and register_paths and not update:
                             path_helper.unregister(register_path)
                         raise
 
@@ -936,7 +939,7 @@ def YANGListType(*args, **kwargs):
             if self._keyval:
                 values = [getattr(entry, "_get_%s" % safe_name(kn))() for kn in self._keyval.split(" ")]
                 self._canonical_keys.pop(tuple(self.__canonical_value(v) for v in values), None)
-            if self._path_helper and self._keyval:
+            if self._path_helper and self._keyval and getattr(self, "_register_paths", True):
                 self._path_helper.unregister(entry._path())
 
         def __len__(self):
-- 
2.43.0


From 39a7d541544fff66380991fb59649a8a334d4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 58/64] fix: append an entry of a list with several keys whose
 values have spaces

---
 pyangbind/lib/yangtypes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d232864..29470f1 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -983,7 +983,7 @@ def YANGListType(*args, **kwargs):
                     if kv is None:
                         raise KeyError("Invalid key attribute specified for object")
                     ks += "%s " % key_text(kv())
-                return ks.rstrip(" ")
+                return ks[:-1]
             else:
                 kv = getattr(obj, "_get_%s" % safe_name(self._keyval), None)
                 if kv is None:
@@ -993,7 +993,14 @@ def YANGListType(*args, **kwargs):
                 return k if k.__hash__ is not None else str(k)
 
         def append(self, obj):
-            self.__set(_k=self._extract_key(obj), _v=obj)
+            k = self._extract_key(obj)
+            keys = self._keyval.split(" ")
+            if len(keys) > 1:
+                # the values of the keys may have spaces, too
+                keyargs = {kn: key_text(getattr(obj, "_get_%s" % safe_name(kn))()) for kn in keys}
+                self.__set(_python_key=k, _named_set=True, _v=obj, **keyargs)
+            else:
+                self.__set(_k=k, _v=obj)
 
         def _new_item(self):
             return self._contained_class()
-- 
2.43.0


From bafa7d9d54166b5053fe448daed77c4e51c82ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 59/64] fix: names in a key statement may be separated by any
 whitespace

---
 pyangbind/plugin/pybind.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b21d252..683d8b8 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -823,8 +823,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         keyval = False
         if parent.keyword == "list":
             keyval = parent.search_one("key").arg if parent.search_one("key") is not None else False
-            if keyval and " " in keyval:
-                keyval = keyval.split(" ")
+            if keyval:
+                keyval = keyval.split()
             else:
                 keyval = [keyval]
 
@@ -1578,7 +1578,9 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                     else False
                 )
                 elemdict["yang_keys"] = (
-                    element.search_one("key").arg if element.search_one("key") is not None else False
+                    " ".join(element.search_one("key").arg.split())
+                    if element.search_one("key") is not None
+                    else False
                 )
                 user_ordered = element.search_one("ordered-by")
                 elemdict["user_ordered"] = (
-- 
2.43.0


From 6e5401b56a489004a84a4f1980324d9f2e6cdcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 60/64] fix: ranges and lengths with line breaks, and parts
 that are min or max alone

---
 pyangbind/plugin/pybind.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 683d8b8..13d9e5a 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1242,6 +1242,15 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def range_parts(text, spec):
+    # The parts of a range or length, which are separated by pipes. The keywords are
+    # replaced by their values where they are a part on their own.
+    while spec is not None and not hasattr(spec, "min"):
+        spec = getattr(spec, "base", None)
+    parts = ["".join(i.split()) for i in text.split("|")]
+    return [str(getattr(spec, i)) if i in ("min", "max") else i for i in parts]
+
+
 def build_elemtype(ctx, et):
     # Build a dictionary which defines the type for the element. This is used
     # both in the case that a typedef needs to be built, as well as on per-list
@@ -1265,17 +1274,10 @@ def build_elemtype(ctx, et):
             restrictions["invert_pattern"] = inverted
 
     if length_stmt:
-        if "|" in length_stmt.arg:
-            restrictions["length"] = [i.replace(" ", "") for i in length_stmt.arg.split("|")]
-        else:
-            restrictions["length"] = [length_stmt.arg]
+        restrictions["length"] = range_parts(length_stmt.arg, getattr(et, "i_type_spec", None))
 
     if range_stmt:
-        # Complex ranges are separated by pipes
-        if "|" in range_stmt.arg:
-            restrictions["range"] = [i.replace(" ", "") for i in range_stmt.arg.split("|")]
-        else:
-            restrictions["range"] = [range_stmt.arg]
+        restrictions["range"] = range_parts(range_stmt.arg, getattr(et, "i_type_spec", None))
 
     # Build RestrictedClassTypes based on the compiled dictionary and the
     # underlying base type.
-- 
2.43.0


From 4559e33b6ea75f83997030708bbd6af0d548bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 61/64] fix: an identity without a prefix is that of the module
 that has the type, whatever the order of files

---
 pyangbind/plugin/pybind.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 13d9e5a..61d6a99 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -488,17 +488,19 @@ def build_identities(ctx, defnd):
         identity_map[(identity.source_module, identity.name)] = identity
 
 
-def build_identityref(base):
+def build_identityref(base, module):
     # Build the type of an identityref, whose values are the identities that are
     # derived from its base. The name of a module takes precedence over a prefix
-    # that is the same.
+    # that is the same, and the module that specifies the type over the others that
+    # have an identity of the same name, whose order is not that they are read in.
     identity_dict = {}
-    for ch in base.children:
+    children = sorted(base.children, key=lambda ch: (ch.source_module == module, ch.source_module))
+    for ch in children:
         d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
         identity_dict[ch.name] = d
         for prefix in ch.prefixes():
             identity_dict["%s:%s" % (prefix, ch.name)] = d
-    for ch in base.children:
+    for ch in children:
         d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
         identity_dict["%s:%s" % (ch.source_module, ch.name)] = d
 
@@ -1394,7 +1396,7 @@ def build_elemtype(ctx, et):
                 raise ValueError("identityref specified with no base statement")
             try:
                 base = base_stmt.i_identity
-                elemtype = build_identityref(identity_map[(base.main_module().arg, base.arg)])
+                elemtype = build_identityref(identity_map[(base.main_module().arg, base.arg)], et.main_module().arg)
             except KeyError:
                 sys.stderr.write("FATAL: identityref with an unknown base\n")
                 if DEBUG:
-- 
2.43.0


From 3245086cd93b61339c378171515b47071cc82395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 62/64] fix: entries of lists in bindings that have extension
 methods

---
 pyangbind/lib/yangtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 29470f1..efe6cdb 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1208,7 +1208,7 @@ def YANGDynClass(*args, **kwargs):
         rpath = None
         if supplied_register_path is not None:
             rpath = supplied_register_path
-        if parent_instance is not None:
+        elif parent_instance is not None:
             rpath = parent_instance._path() + [yang_name]
         else:
             rpath = []
@@ -1304,6 +1304,9 @@ def YANGDynClass(*args, **kwargs):
         def __init_base(self, *args, **kwargs):
             if self._is_container == "list" or self._is_container == "container":
                 kwargs["path_helper"] = self._path_helper
+                if self._is_container == "container":
+                    # an entry of a list has no parent yet to take these from
+                    kwargs["extmethods"] = self._extmethods
                 if load is not None:
                     kwargs["load"] = load
 
-- 
2.43.0


From 1c5e13c58e986f817323da03ba326bba9fea98d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 63/64] fix: extension methods that follow one called method

---
 pyangbind/lib/yangtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index efe6cdb..c844b9c 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1268,8 +1268,7 @@ def YANGDynClass(*args, **kwargs):
                             continue
                         member = getattr(self._extmethods[chk_path], method)
                         if hasattr(member, "__call__"):
-                            if not hasattr(self, "_method"):
-                                setattr(self, "_" + method, self.__generate_extmethod(member))
+                            setattr(self, "_" + method, self.__generate_extmethod(member))
 
             if default is not False:
                 self._default = default
-- 
2.43.0


From b78080660e8d1bc6461e2dd92a608bf516e647b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 64/64] fix: extensions of a module whose name is the first
 letter of a statement

---
 pyangbind/plugin/pybind.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 61d6a99..50505b7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1502,7 +1502,8 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
     if element.substmts is not None and ctx.opts.pybind_interested_exts is not None:
         extensions = {}
         for ext in element.substmts:
-            if ext.keyword[0] in ctx.opts.pybind_interested_exts:
+            # the keyword of an extension is its module, and its name
+            if isinstance(ext.keyword, tuple) and ext.keyword[0] in ctx.opts.pybind_interested_exts:
                 if not ext.keyword[0] in extensions:
                     extensions[ext.keyword[0]] = {}
                 extensions[ext.keyword[0]][ext.keyword[1]] = ext.arg
-- 
2.43.0

