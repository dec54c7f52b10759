From d535be69838c90e43985ac5a632a3db71a36dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 01/47] fix: keep expanding macros after a string literal

When a string was matched m.end(N) is -1, so that everything up to the last
character of the line was copied without being expanded.
---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e80c324..dae7e60 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1126,7 +1126,8 @@ class CParser(object):
                 parts.append(exp)
 
             else:
-                start = m.end(N)
+                # m can be a literal, in which case the group N is not set
+                start = m.end()
                 parts.append(line[:start])
                 line = line[start:]
 
-- 
2.43.0


From 2e0ba7f8e80659f4442aa3da91c99c5fb3f45f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 02/47] fix: delimit string and character literals properly in
 macro expansion

A string ending with an escaped backslash swallowed the text following it, and
macros were expanded inside character literals.
---
 pyclibrary/c_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index dae7e60..df5834f 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1074,7 +1074,9 @@ class CParser(object):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
         args_str = "|".join(args)
-        arg_regex = re.compile(r'("(\\"|[^"])*")|(\b({})\b)'.format(args_str))
+        arg_regex = re.compile(
+            r"""("(\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(\b({})\b)""".format(args_str)
+        )
         start = 0
         parts = []
         arg_order = []
@@ -1095,7 +1097,9 @@ class CParser(object):
         Faulty calls to macro function are left untouched.
 
         """
-        reg = re.compile(r'("(\\"|[^"])*")|(\b(\w+)\b)')
+        reg = re.compile(
+            r"""("(\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(\b(\w+)\b)"""
+        )
         parts = []
         # The group number to check for macro names
         N = 3
-- 
2.43.0


From bd29610a81c73b841f3ed216702203e6e0fd69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 03/47] fix: support braces in the body of function macros

The compiled description is a format string, in which braces must be escaped.
---
 pyclibrary/c_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index df5834f..943aaa5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1072,6 +1072,11 @@ class CParser(object):
 
     def compile_fn_macro(self, text, args):
         """Turn a function macro spec into a compiled description."""
+
+        def escape(s):
+            # The description is a format string
+            return s.replace("{", "{{").replace("}", "}}")
+
         # Find all instances of each arg in text.
         args_str = "|".join(args)
         arg_regex = re.compile(
@@ -1085,10 +1090,10 @@ class CParser(object):
         for m in arg_regex.finditer(text):
             arg = m.groups()[N]
             if arg is not None:
-                parts.append(text[start : m.start(N)] + "{}")
+                parts.append(escape(text[start : m.start(N)]) + "{}")
                 start = m.end(N)
                 arg_order.append(args.index(arg))
-        parts.append(text[start:])
+        parts.append(escape(text[start:]))
         return ("".join(parts), arg_order)
 
     def expand_macros(self, line):
-- 
2.43.0


From e88aa455115288004349442865bd49a569387c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 04/47] fix: do not expand a function macro not followed by its
 arguments

The text found between the name of the macro and the next parenthesis was lost.
---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 943aaa5..f140116 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1150,7 +1150,9 @@ class CParser(object):
 
         try:
             args, end = text.split(")", 1)
-            _, args = args.split("(", 1)
+            before, args = args.split("(", 1)
+            if before.strip():
+                raise ValueError("the name is not followed by arguments")
             args = [a.strip() for a in args.split(",")]
         except Exception:
             mess = "Function macro {} argument analysis failed :\n{}"
-- 
2.43.0


From 72d66ae35c0ffd2ae0ae0f84611a9c2d6518884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 05/47] fix: make #undef apply to function macros

---
 pyclibrary/c_parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f140116..8775c7d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -961,12 +961,13 @@ class CParser(object):
                 elif d == "undef":
                     if not if_true[-1]:
                         continue
-                    try:
-                        self.rem_def("macros", macroName.strip())
-                    except Exception:
-                        if sys.exc_info()[0] is not KeyError:
-                            mess = "Error removing macro definition '{}'"
-                            logger.exception(mess.format(macroName.strip()))
+                    for k in ["macros", "fnmacros"]:
+                        try:
+                            self.rem_def(k, macroName.strip())
+                        except Exception:
+                            if sys.exc_info()[0] is not KeyError:
+                                mess = "Error removing macro definition '{}'"
+                                logger.exception(mess.format(macroName.strip()))
 
                 # Check for changes in structure packing
                 # Support only for #pragme pack (with all its variants
-- 
2.43.0


From e92cafb8135d47e8c809bb932392da06034ccfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 06/47] fix: forget a macro removed by another file than the
 one defining it

The definition was kept in file_defs, and hence was back in a parser loading
the cache or copying the definitions.
---
 pyclibrary/c_parser.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 8775c7d..51c4282 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1694,16 +1694,13 @@ class CParser(object):
         self.file_defs[base_name][typ][name] = val
 
     def rem_def(self, typ, name):
-        """Remove a definition of a specific type to both the definition set
-        for the current file and the global definition set.
+        """Remove a definition of a specific type to both the definition sets
+        of all the files and the global definition set.
 
         """
-        if self.current_file is None:
-            base_name = None
-        else:
-            base_name = os.path.basename(self.current_file)
         del self.defs[typ][name]
-        del self.file_defs[base_name][typ][name]
+        for file_defs in self.file_defs.values():
+            file_defs[typ].pop(name, None)
 
     def is_fund_type(self, typ):
         """Return True if this type is a fundamental C type, struct, or
-- 
2.43.0


From 8db2ea28a1a0a2f4104b42b50b5ce0595bdf7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 07/47] fix: keep the line numbers when preprocessing

The lines of ignored directives were dropped, so that the lines recorded for the
#pragma pack did not match the ones of the structures.
---
 pyclibrary/c_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 51c4282..66bce2e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -943,6 +943,7 @@ class CParser(object):
 
                 elif d == "define":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     logger.debug(
                         "  " * (len(if_true) - 1)
@@ -960,6 +961,7 @@ class CParser(object):
 
                 elif d == "undef":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     for k in ["macros", "fnmacros"]:
                         try:
@@ -979,9 +981,11 @@ class CParser(object):
                 # The current implementation follows the MSVC doc.
                 elif d == "pragma":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     m = re.match(r"\s+pack\s*\(([^\)]*)\)", rest)
                     if not m:
+                        result.append(new_line)
                         continue
                     if m.groups():
                         opts = [s.strip() for s in m.groups()[0].split(",")]
-- 
2.43.0


From 72ed7d95d2800ee2dd525bec0a81ef1b40fb9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 08/47] fix: do not apply a #pragma pack to the line preceding
 it

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 66bce2e..c4d59d0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1547,7 +1547,8 @@ class CParser(object):
         """Return the structure packing value at the given line number."""
         packing = None
         for p in self.pack_list[self.current_file]:
-            if p[0] <= line:
+            # Pragma lines are counted from 0, line is counted from 1
+            if p[0] < line:
                 packing = p[1]
             else:
                 break
-- 
2.43.0


From 23de62b01b3d02b2592597d7de69993d37ed148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 09/47] fix: do not fail on a #pragma pack(pop) without
 matching push

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c4d59d0..ce57dd5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1005,7 +1005,9 @@ class CParser(object):
                         pack_stack.append((packing, id))
                     elif opts[0] == "pop":
                         if id is None:
-                            pack_stack.pop()
+                            # Popping more than was pushed has no effect
+                            if len(pack_stack) > 1:
+                                pack_stack.pop()
                         else:
                             ind = None
                             for j, s in enumerate(pack_stack):
-- 
2.43.0


From b6d3c7eb847faebe647b1cc7ed505f5ccdf07111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:05 +0000
Subject: [PATCH 10/47] fix: evaluate != and suffixed or hexadecimal numbers in
 conditionals

The exclamation mark of != was turned into not, and the letters found in a
number were considered as an undefined identifier.
---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ce57dd5..399bbab 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1033,9 +1033,11 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            Literal("!").setParseAction(lambda: " not ")
+            Literal("!=")
+            | Literal("!").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
+            | number
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
         )
         expr2 = macro_diffs.transformString(expr).strip()
-- 
2.43.0


From ad479a978a242ebd903b1f98250d22f7b2d44e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 11/47] fix: do not alter the definitions when building a
 multidimensional array

The dimensions were merged in place in the definition held by the parser, such
that building the same type again gave a different result.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e9d6ebf..3404bb8 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -224,7 +224,7 @@ class CTypesCLibrary(CLibrary):
                 seen = mods[0]
                 for m in mods[1:]:
                     if isinstance(seen, list) and isinstance(m, list):
-                        seen += m
+                        seen = seen + m
                     else:
                         n_mods.append(seen)
                         seen = m
-- 
2.43.0


From 03a5ba0f757f6b7bfa274c5477f144e02fb91f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 12/47] fix: support pointers to functions without arguments

void has no ctypes equivalent and cannot be used as an argument type.
---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 3404bb8..6cd26b6 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -279,7 +279,8 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    args = [self._get_type(arg[1]) for arg in m]
+                    # (void) declares a function without arguments
+                    args = [self._get_type(a[1]) for a in m if a[1] != ("void",)]
                     cls = mkfn(cls, *args)
 
                 else:
-- 
2.43.0


From ec1602e67725c84b4385780983c6075ace42cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 13/47] fix: evaluate signed alone or between other words

'signed' was evaluated to an empty type and 'long signed int' to 'long  int'.
---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 399bbab..6716199 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -183,8 +183,9 @@ class Type(tuple):
 
         if self.is_fund_type():
             # Remove 'signed' before returning evaluated type
+            words = [w for w in self.type_spec.split() if w != "signed"]
             return Type(
-                re.sub(r"\bsigned\b", "", self.type_spec).strip(),
+                " ".join(words) or "int",
                 *self.declarators,
                 type_quals=self.type_quals,
             )
-- 
2.43.0


From 7eae5bf617f65e02c3f1f34177495118966b4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 14/47] fix: allow to derive a type from one ending with a
 calling convention

The qualifiers of a calling convention are None, which cannot be concatenated.
---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6716199..40e3bb9 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -207,7 +207,7 @@ class Type(tuple):
             type_quals=(
                 (
                     *pt.type_quals[:-1],
-                    pt.type_quals[-1] + self.type_quals[0],
+                    (pt.type_quals[-1] or ()) + self.type_quals[0],
                     *self.type_quals[1:],
                 )
             ),
@@ -1450,7 +1450,7 @@ class CParser(object):
             if n is not None:
                 name = n
             toks.extend(t)
-            quals = [*quals[:-1], quals[-1] + q[0], *list(q[1:])]
+            quals = [*quals[:-1], (quals[-1] or ()) + q[0], *list(q[1:])]
 
         if "name" in decl:
             name = decl["name"]
-- 
2.43.0


From f435a9f159ed12320da52be2c72e8ee7f0bad9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 15/47] fix: keep the qualifiers when removing the
 compatibility hack

---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 40e3bb9..9c6b981 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -242,7 +242,10 @@ class Type(tuple):
 
         """
         if len(self) == 2 and isinstance(self[0], Type):
-            return Type(*(self[0] + (self[1],)))
+            return Type(
+                *(self[0] + (self[1],)),
+                type_quals=(*self[0].type_quals, *self.type_quals[1:]),
+            )
         else:
             return self
 
-- 
2.43.0


From a1e3febb05a3f4029d5f6ffc719c69ea224b889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 16/47] fix: do not ignore the definition of an enum mentioned
 before it

This is the same rule as the one used for structures and unions.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9c6b981..0717bdf 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1515,7 +1515,7 @@ class CParser(object):
 
             logger.debug("  name: {}".format(name))
 
-            if name not in self.defs["enums"]:
+            if len(t.members) > 0 or name not in self.defs["enums"]:
                 i = 0
                 enum = {}
                 for v in t.members:
-- 
2.43.0


From 3da4486a1c019d8130726d779da0aca144c68b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 17/47] fix: use the bit width of the members of structures

The default value of a member was used in place of its width.
---
 pyclibrary/backends/ctypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 6cd26b6..1bebceb 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -340,8 +340,8 @@ class CTypesCLibrary(CLibrary):
             # fashion.
             s._fields_ = [
                 (m[0], self._get_type(m[1]))
-                if m[2] is None
-                else (m[0], self._get_type(m[1]), m[2])
+                if len(m) < 4
+                else (m[0], self._get_type(m[1]), m[3])
                 for m in defs
             ]
             s._defaults_ = [m[2] for m in defs]
-- 
2.43.0


From 8103f64dce7f8c9ce65e7df87aa08aab093b5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 18/47] fix: support unnamed bit fields

Only structures and unions can be declared as anonymous.
---
 pyclibrary/backends/ctypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 1bebceb..5f94995 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -329,7 +329,9 @@ class CTypesCLibrary(CLibrary):
                         if name not in members:
                             d = (name, *d[1:])
                             defs[i] = d
-                            anon.append(name)
+                            # Unnamed bit fields are only used for padding
+                            if len(d) < 4:
+                                anon.append(name)
                             break
                         c += 1
                 members.append(d[0])
-- 
2.43.0


From 95d7ce34afbbe2f796067c6b686b0a430d49d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 19/47] fix: build a single class per structure

Accessing a structure through an alias replaced the class already built, whose
instances could not be passed to the functions anymore.
---
 pyclibrary/backends/ctypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 5f94995..43c93c2 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -293,9 +293,8 @@ class CTypesCLibrary(CLibrary):
             raise
 
     def _get_struct(self, str_type, str_name):
+        str_name = self._resolve_struct_alias(str_type, str_name)
         if str_name not in self._structs_:
-            str_name = self._resolve_struct_alias(str_type, str_name)
-
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
-- 
2.43.0


From 874ced93254208fea4e611f69084f94a8be3aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 20/47] fix: access to an object already accessed with its
 prefix

self.objs does not exist, and an existing name must be preferred to the one
obtained by adding a prefix.
---
 pyclibrary/c_library.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c5fa7e9..3a5950a 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -264,16 +264,15 @@ class CLibrary(object, metaclass=CLibraryMeta):
         names = self._all_names_(name)
         objs = self._objs_[typ]
 
-        for n in names:
-            if n in objs:
-                return self.objs[n]
-
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
                 typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
             ):
                 continue
 
+            if n in objs:
+                return objs[n]
+
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-- 
2.43.0


From 11346ab47f495b3d05f105cf03b566a3d3c96d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 21/47] fix: use the right lock when lock_calls is set

---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 3a5950a..e321b27 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -489,7 +489,7 @@ class CFunction(object):
 
         try:
             if self.lock_call:
-                with self.lib.lock:
+                with self.lib._lock_:
                     res = self.func(*arg_list)
             else:
                 res = self.func(*arg_list)
-- 
2.43.0


From d41f3b23cd1c2c08f4498e7b0b75704cb15bdd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 22/47] fix: allow to bind functions declaring their calling
 convention

A Type is a tuple and has no remove method.
---
 pyclibrary/c_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index e321b27..4c2217a 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -18,7 +18,7 @@ from inspect import cleandoc
 from threading import RLock
 from weakref import WeakValueDictionary
 
-from .c_parser import CParser
+from .c_parser import CParser, Type
 from .utils import LibraryPath, find_library
 
 logger = logging.getLogger(__name__)
@@ -408,7 +408,7 @@ class CFunction(object):
         self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
         for conv in ["__stdcall", "__cdecl"]:
             if conv in self.sig[0]:
-                self.sig[0].remove(conv)
+                self.sig[0] = Type(*[m for m in self.sig[0] if m != conv])
         self.name = name
         self.res_type = lib._get_type(self.sig[0])
         self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
-- 
2.43.0


From f236be406e06b8841d718e0e862f7101687348ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 23/47] fix: do not alter the list of directories passed by the
 user

---
 pyclibrary/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index a3f92cd..1b0afe7 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -68,7 +68,7 @@ def find_header(h_name, dirs=None):
 
     """
     if dirs:
-        dirs += HEADER_DIRS[::-1]
+        dirs = dirs + HEADER_DIRS[::-1]
     else:
         dirs = HEADER_DIRS[::-1]
 
@@ -135,7 +135,7 @@ def find_library(name, dirs=None):
 
     """
     if dirs:
-        dirs += LIBRARY_DIRS[::-1]
+        dirs = dirs + LIBRARY_DIRS[::-1]
     else:
         dirs = LIBRARY_DIRS[::-1]
 
-- 
2.43.0


From 9a1c2e55e1d66bd6c1d95e25f15fd9a956a05e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 24/47] fix: look for headers in the standard locations on
 linux

sys.platform is linux since Python 3.3.
---
 pyclibrary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 1b0afe7..cf5f935 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -85,7 +85,7 @@ def find_header(h_name, dirs=None):
             )
         )
 
-    if sys.platform == "linux2":
+    if sys.platform.startswith("linux"):
         dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))
 
     for d in dirs:
-- 
2.43.0


From f035f7d04037c52d5f63c27aaab662a4ff791aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 25/47] fix: do not open twice a library accessed through
 different paths

---
 pyclibrary/c_library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 4c2217a..59e2639 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -75,6 +75,9 @@ class CLibraryMeta(type):
             backend_cls = cls.backends[backend]
             lib_path = get_library_path(lib, backend)
 
+        # A library can be accessed through different paths.
+        lib_path = os.path.realpath(lib_path)
+
         # Check whether or not this library has already been opened.
         if lib_path in cls.libs:
             return cls.libs[lib_path]
-- 
2.43.0


From 95929d0a67d64413c4a9bf3d31608cc8d4214297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 26/47] fix: do not alter the arguments of the initialisation
 functions

---
 pyclibrary/init.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index ef58c67..3ec40af 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -33,7 +33,7 @@ def init(extra_types=None, extra_modifiers=None):
     if CParser._init or CLibrary._init:
         raise RuntimeError("Can only initialise the parser once")
 
-    extra_types = extra_types if extra_types else {}
+    extra_types = dict(extra_types) if extra_types else {}
     extra_modifiers = extra_modifiers if extra_modifiers else []
 
     _init_cparser(extra_types.keys(), extra_modifiers)
@@ -71,8 +71,8 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
         identify the OS.
 
     """
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+    extra_types = dict(extra_types) if extra_types else {}
+    extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
         extra_types.update(WIN_TYPES)
-- 
2.43.0


From d16acc8074f4674bda5fa01eb117285b971fc66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 27/47] fix: do not load a cache written by a more recent
 version

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0717bdf..314aa90 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -678,7 +678,7 @@ class CParser(object):
                     logger.debug("Cache init opts are OK:")
                     logger.debug("{}".format(cache["opts"]))
 
-                if cache["version"] < self.cache_version:
+                if cache["version"] != self.cache_version:
                     mess = "Cache file is not valid--cache format has changed."
                     logger.debug(mess)
                     return False
-- 
2.43.0


From c4296dac26df914de48d139e0741a7eda2da08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 28/47] fix: allow to use a cache when the headers are missing

This is the documented use of the caches, and the way win_defs works.
---
 pyclibrary/c_parser.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 314aa90..99bb876 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -722,10 +722,12 @@ class CParser(object):
             if os.path.isfile(header):
                 hs.append(header)
             else:
-                h = find_header(header)
-                if not h:
-                    raise OSError("Cannot find header: {}".format(header))
-                hs.append(h)
+                try:
+                    hs.append(find_header(header))
+                except OSError:
+                    # A missing header is reported by process_all if there is
+                    # no cache to use in place of it.
+                    hs.append(header)
 
         return hs
 
@@ -750,6 +752,13 @@ class CParser(object):
         if encoding is None:
             encoding = self.default_encoding
 
+        self.file_order.append(path)
+        bn = os.path.basename(path)
+        self.init_opts["replace"][bn] = replace
+        # Only interested in the file names, the directory may change between
+        # systems.
+        self.init_opts["files"].append(bn)
+
         if not os.path.isfile(path):
             # Not a fatal error since we might be able to function properly if
             # there is a cache file.
@@ -765,12 +774,6 @@ class CParser(object):
             for s in replace:
                 self.files[path] = re.sub(s, replace[s], self.files[path])
 
-        self.file_order.append(path)
-        bn = os.path.basename(path)
-        self.init_opts["replace"][bn] = replace
-        # Only interested in the file names, the directory may change between
-        # systems.
-        self.init_opts["files"].append(bn)
         return True
 
     def _format_parsed_file(self, filename=None):
-- 
2.43.0


From 1bf25d1b937ffd2cc2050561968d86ac970aafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:21 +0000
Subject: [PATCH 29/47] fix: invalidate the cache when encoding or copy_from
 changes

The definitions depend on both.
---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 99bb876..61599fa 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -465,7 +465,8 @@ class CParser(object):
     #: Increment every time cache structure or parsing changes to invalidate
     #: old cache files.
     # 2 : add C99 integers
-    cache_version = 2
+    # 3 : store encoding and copy_from, fix macro expansion
+    cache_version = 3
 
     #: Private flag allowing to know if the parser has been initiliased.
     _init = False
@@ -497,6 +498,7 @@ class CParser(object):
         self.init_opts = kwargs.copy()
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
+        self.init_opts["encoding"] = encoding
 
         self.data_list = [
             "types",
@@ -539,6 +541,7 @@ class CParser(object):
         if copy_from is not None:
             if not isinstance(copy_from, (list, tuple)):
                 copy_from = [copy_from]
+            self.init_opts["copy_from"] = [p.init_opts for p in copy_from]
             for p in copy_from:
                 self.import_dict(p.file_defs)
 
-- 
2.43.0


From 8b95afa203aa13d8fc28a83531800555d955c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:21 +0000
Subject: [PATCH 30/47] fix: do not keep a structure whose members could not be
 built

The second access to it returned an empty structure.
---
 pyclibrary/backends/ctypes.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 43c93c2..47033a9 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -339,12 +339,17 @@ class CTypesCLibrary(CLibrary):
             # Handle bit field specifications, ctypes only supports bit fields
             # for integer but I am not sure how to test for it in a nice
             # fashion.
-            s._fields_ = [
-                (m[0], self._get_type(m[1]))
-                if len(m) < 4
-                else (m[0], self._get_type(m[1]), m[3])
-                for m in defs
-            ]
+            try:
+                s._fields_ = [
+                    (m[0], self._get_type(m[1]))
+                    if len(m) < 4
+                    else (m[0], self._get_type(m[1]), m[3])
+                    for m in defs
+                ]
+            except Exception:
+                # Do not keep a class without members
+                del self._structs_[str_name]
+                raise
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[str_name]
-- 
2.43.0


From 7a8e9754d1c2f127d24b846edbe8519c617f65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:21 +0000
Subject: [PATCH 31/47] fix: do not take a parenthesised value for the
 arguments of a macro

---
 pyclibrary/c_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 61599fa..d95c904 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -861,6 +861,9 @@ class CParser(object):
             + SkipTo(LineEnd())("value")
         )
         self.pp_define.setParseAction(self.process_macro_defn)
+        # Without a parenthesis right after the name, there are no arguments
+        self.pp_define_obj = name("macro") + SkipTo(LineEnd())("value")
+        self.pp_define_obj.setParseAction(self.process_macro_defn)
 
         # Comb through lines, process all directives
         lines = text.split("\n")
@@ -962,7 +965,10 @@ class CParser(object):
                     )
                     try:
                         # Macro is registered here
-                        self.pp_define.parseString(macroName + " " + rest)
+                        if rest.startswith("("):
+                            self.pp_define.parseString(macroName + " " + rest)
+                        else:
+                            self.pp_define_obj.parseString(macroName + " " + rest)
                     except Exception:
                         logger.exception(
                             "Error processing macro definition:"
-- 
2.43.0


From 95c8da47f5b2b987263fba6f85681e787d6d60d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:11 +0000
Subject: [PATCH 32/47] fix: do not give the class of a struct for a union of
 the same name

---
 pyclibrary/backends/ctypes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 47033a9..5d290c9 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -294,7 +294,8 @@ class CTypesCLibrary(CLibrary):
 
     def _get_struct(self, str_type, str_name):
         str_name = self._resolve_struct_alias(str_type, str_name)
-        if str_name not in self._structs_:
+        known = self._unions_ if str_type == "unions" else self._structs_
+        if str_name not in known:
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
@@ -312,7 +313,7 @@ class CTypesCLibrary(CLibrary):
                         return "<ctypes union '%s'>" % str_name
 
             # Must register struct here to allow recursive definitions.
-            self._structs_[str_name] = s
+            known[str_name] = s
 
             if defn["pack"] is not None:
                 s._pack_ = defn["pack"]
@@ -348,11 +349,11 @@ class CTypesCLibrary(CLibrary):
                 ]
             except Exception:
                 # Do not keep a class without members
-                del self._structs_[str_name]
+                del known[str_name]
                 raise
             s._defaults_ = [m[2] for m in defs]
 
-        return self._structs_[str_name]
+        return known[str_name]
 
     def _get_pointer(self, arg_type, sig):
         """Build an uninitialised pointer for the given type."""
-- 
2.43.0


From b62d2041825aa2fe65abdf911568d9813fbcbf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:14 +0000
Subject: [PATCH 33/47] fix: the bitness of a library is that of the file,
 whatever its path or links

---
 pyclibrary/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index cf5f935..987aaa4 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -207,7 +207,8 @@ def get_arch(filename):
     elif this_platform not in ("linux2", "linux3", "linux", "darwin"):
         raise OSError("")
 
-    out = check_output(["file", filename], stderr=subprocess.STDOUT)
+    # Only the description counts (not the path), and that of the linked file.
+    out = check_output(["file", "-bL", filename], stderr=subprocess.STDOUT)
     out = out.decode("ascii")
     ret = []
     if this_platform.startswith("linux"):
-- 
2.43.0


From 83eab9023092e9444a443cff89ddc2cebf27feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:12 +0000
Subject: [PATCH 34/47] fix: a parser restored from a valid cache kept initial
 definitions that had been removed

---
 pyclibrary/c_parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index d95c904..fa98a71 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -466,7 +466,8 @@ class CParser(object):
     #: old cache files.
     # 2 : add C99 integers
     # 3 : store encoding and copy_from, fix macro expansion
-    cache_version = 3
+    # 4 : store the definitions of all files too
+    cache_version = 4
 
     #: Private flag allowing to know if the parser has been initiliased.
     _init = False
@@ -687,7 +688,11 @@ class CParser(object):
                     return False
 
             # Import all parse results
-            self.import_dict(cache["file_defs"])
+            if check_validity:
+                # They include the initial definitions, unless removed since.
+                self.defs, self.file_defs = cache["defs"], cache["file_defs"]
+            else:
+                self.import_dict(cache["file_defs"])
             return True
 
         except Exception:
@@ -711,6 +716,7 @@ class CParser(object):
         """Store all parsed declarations to cache. Used internally."""
         cache = {}
         cache["opts"] = self.init_opts
+        cache["defs"] = self.defs
         cache["file_defs"] = self.file_defs
         cache["version"] = self.cache_version
         import pickle
-- 
2.43.0


From dc01e7f2c2fab3fd6b8ce26bd9cc4d2a64b89066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 35/47] fix: null directives, and malformed definitions in
 branches not selected, are skipped

---
 pyclibrary/c_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fa98a71..0cfdb58 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -876,7 +876,8 @@ class CParser(object):
 
         result = []
 
-        directive = re.compile(r"\s*#\s*([a-zA-Z]+)(.*)$")
+        # Without a name it is a null directive or a line marker
+        directive = re.compile(r"\s*#\s*([a-zA-Z]*)(.*)$")
         if_true = [True]
         if_hit = []
         for i, line in enumerate(lines):
@@ -916,7 +917,7 @@ class CParser(object):
                         .transformString(rest)
                     )
 
-                elif d in ["define", "undef"]:
+                elif d in ["define", "undef"] and if_true[-1]:
                     match = re.match(r"\s*([a-zA-Z_][a-zA-Z0-9_]*)(.*)$", rest)
                     macroName, rest = match.groups()
 
-- 
2.43.0


From c9a80d316172bc56c9d4700bac455725239a0773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:34 +0000
Subject: [PATCH 36/47] fix: #pragma pack(show) does not change the packing

---
 pyclibrary/c_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0cfdb58..3199b1f 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1022,6 +1022,11 @@ class CParser(object):
                         else:
                             id = o
 
+                    # pack(show) and unknown forms change nothing
+                    if pushpop is None and id:
+                        result.append(new_line)
+                        continue
+
                     packing = val
 
                     if pushpop == "push":
-- 
2.43.0


From 779b8d75af83035c8edb6beb1aa2e1cf6b9d8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:21 +0000
Subject: [PATCH 37/47] fix: do not keep the structures using one that could
 not be built

---
 pyclibrary/backends/ctypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 5d290c9..fc7a359 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -313,6 +313,7 @@ class CTypesCLibrary(CLibrary):
                         return "<ctypes union '%s'>" % str_name
 
             # Must register struct here to allow recursive definitions.
+            saved = dict(self._structs_), dict(self._unions_)
             known[str_name] = s
 
             if defn["pack"] is not None:
@@ -348,8 +349,8 @@ class CTypesCLibrary(CLibrary):
                     for m in defs
                 ]
             except Exception:
-                # Do not keep a class without members
-                del known[str_name]
+                # Do not keep a class without members, nor those using it
+                self._structs_, self._unions_ = saved
                 raise
             s._defaults_ = [m[2] for m in defs]
 
-- 
2.43.0


From 75a13f5d08eb7e592f3aabcca7f09373455f159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 38/47] fix: unnamed bit fields do not share names with unnamed
 members (ctypes crash)

---
 pyclibrary/backends/ctypes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index fc7a359..c157d6a 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -324,14 +324,16 @@ class CTypesCLibrary(CLibrary):
             anon = []
             for i, d in enumerate(defs):
                 if d[0] is None:
+                    # Unnamed bit fields are only used for padding. ctypes
+                    # crashes if an anonymous member has one of the same name
+                    padding = len(d) > 3
                     c = 0
                     while True:
-                        name = "anon_member%d" % c
+                        name = ("anon_padding%d" if padding else "anon_member%d") % c
                         if name not in members:
                             d = (name, *d[1:])
                             defs[i] = d
-                            # Unnamed bit fields are only used for padding
-                            if len(d) < 4:
+                            if not padding:
                                 anon.append(name)
                             break
                         c += 1
-- 
2.43.0


From 3456f24574b63a3a5fe68f43d2f4e76fe83f47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 39/47] fix: a pointer to a function pointer is not a function
 pointer

---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index c157d6a..2df6b7b 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -261,7 +261,7 @@ class CTypesCLibrary(CLibrary):
                     for i in [0, 1]:
                         if len(mods) < 1:
                             break
-                        if mods[0] == "*":
+                        if mods[0] == "*" and not is_ptr:
                             mods.pop(0)
                             is_ptr = True
                         elif mods[0] in ["__stdcall", "__cdecl"]:
-- 
2.43.0


From 258ed586d14608e64e08f88c4fc79a137ba03e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 40/47] fix: the latest #define replaces a macro of the other
 kind, f(x) g is not a copy of g

---
 pyclibrary/c_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3199b1f..c133df6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1082,7 +1082,14 @@ class CParser(object):
         """Parse a #define macro and register the definition."""
         logger.debug("Processing MACRO: {}".format(t))
         macro_val = t.value.strip()
-        if macro_val in self.defs["fnmacros"]:
+        is_copy = t.args == "" and macro_val in self.defs["fnmacros"]
+
+        # The latest definition replaces a macro of the other kind
+        other = "macros" if is_copy or t.args != "" else "fnmacros"
+        if t.macro in self.defs[other]:
+            self.rem_def(other, t.macro)
+
+        if is_copy:
             self.add_def("fnmacros", t.macro, self.defs["fnmacros"][macro_val])
             logger.debug("  Copy fn macro {} => {}".format(macro_val, t.macro))
 
-- 
2.43.0


From 190c175e41fe1f0e9c27d58b813578b2bc87c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 41/47] fix: function macros without parameters

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c133df6..fb6ab63 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -860,7 +860,7 @@ class CParser(object):
 
         # Define the structure of a macro definition
         name = Word(alphas + "_", alphanums + "_")("name")
-        deli_list = Optional(lparen + delimitedList(name) + rparen)
+        deli_list = Optional(lparen + Optional(delimitedList(name)) + rparen)
         self.pp_define = (
             name.setWhitespaceChars(" \t")("macro")
             + deli_list.setWhitespaceChars(" \t")("args")
@@ -1122,7 +1122,7 @@ class CParser(object):
             return s.replace("{", "{{").replace("}", "}}")
 
         # Find all instances of each arg in text.
-        args_str = "|".join(args)
+        args_str = "|".join(args) or "(?!)"
         arg_regex = re.compile(
             r"""("(\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(\b({})\b)""".format(args_str)
         )
-- 
2.43.0


From e04ea8549951b847f845f0caf2e9bdc87002d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 42/47] fix: abstract declarators in parentheses, unnamed
 function pointer parameters

---
 pyclibrary/c_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fb6ab63..171b19c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -20,6 +20,7 @@ from traceback import format_exc
 
 # Import parsing elements
 from pyparsing import (
+    FollowedBy,
     Forward,
     Group,
     Keyword,
@@ -1280,8 +1281,14 @@ class CParser(object):
             type_qualifier("first_typequal")
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
             + (
-                (Optional("&")("ref"))
-                | (lparen + self.abstract_declarator + rparen)("center")
+                # After a parenthesis anything else starts the arguments
+                (
+                    lparen
+                    + FollowedBy(oneOf("* & ( ["))
+                    + self.abstract_declarator
+                    + rparen
+                )("center")
+                | (Optional("&")("ref"))
             )
             + Optional(
                 lparen
-- 
2.43.0


From 9557c19f36c75ec0459461aee0fb774c67944621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:30 +0000
Subject: [PATCH 43/47] fix: named parameters of an unnamed function pointer
 parameter

---
 pyclibrary/c_parser.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 171b19c..33d0e05 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1269,6 +1269,7 @@ class CParser(object):
 
         self.declarator = Forward()
         self.abstract_declarator = Forward()
+        self.parameter = Forward()
 
         #  Abstract declarators look like:
         #     <empty string>
@@ -1293,15 +1294,7 @@ class CParser(object):
             + Optional(
                 lparen
                 + Optional(
-                    delimitedList(
-                        Group(
-                            self.type_spec("type")
-                            + self.abstract_declarator("decl")
-                            + Optional(
-                                Literal("=").suppress() + expression, default=None
-                            )("val")
-                        )
-                    ),
+                    delimitedList(Group(self.parameter)),
                     default=None,
                 )
                 + rparen
@@ -1329,15 +1322,7 @@ class CParser(object):
             + Optional(
                 lparen
                 + Optional(
-                    delimitedList(
-                        Group(
-                            self.type_spec("type")
-                            + (self.declarator | self.abstract_declarator)("decl")
-                            + Optional(
-                                Literal("=").suppress() + expression, default=None
-                            )("val")
-                        )
-                    ),
+                    delimitedList(Group(self.parameter)),
                     default=None,
                 )
                 + rparen
@@ -1346,6 +1331,12 @@ class CParser(object):
                 "arrays"
             )
         )
+        # Built last, so that both declarators are known to be groups
+        self.parameter << (
+            self.type_spec("type")
+            + (self.declarator | self.abstract_declarator)("decl")
+            + Optional(Literal("=").suppress() + expression, default=None)("val")
+        )
         self.declarator_list = Group(delimitedList(self.declarator))
 
         # Typedef
-- 
2.43.0


From c98573305def0866aa0527afc1932cf472e96b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 44/47] fix: a known constant in parentheses is not a cast

---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 33d0e05..3e3678c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1713,7 +1713,10 @@ class CParser(object):
     def eval(self, expr, *args):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
-        cast = (lparen + self.type_spec + self.abstract_declarator + rparen).suppress()
+        cast = lparen + self.type_spec + self.abstract_declarator + rparen
+        # A known constant in parentheses is not the name of a type
+        cast.addCondition(lambda t: t[0]["name"] not in self.defs["values"])
+        cast = cast.suppress()
         expr = (quotedString | number | cast).transformString(expr)
         if expr == "":
             return None
-- 
2.43.0


From 27fb87d8b4b1e47bd9b20ae8b49d6453198e3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:00 +0000
Subject: [PATCH 45/47] fix: keep the constants in parentheses of an expression

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3e3678c..c8ceeb8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1965,7 +1965,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     # Is there a better way to process expressions with cast operators??
     cast_atom = (
         ZeroOrMore(uni_left_operator)
-        + Optional("(" + ident + ")").suppress()
+        + Optional("(" + ident + ")")
         + (
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
-- 
2.43.0


From e1092c070d4be5d7776bbce80afa69f383358cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 46/47] fix: a C++ comment goes on with the next line after a
 backslash

The text of the second line was kept as code.
---
 pyclibrary/c_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c8ceeb8..d704efd 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -40,13 +40,13 @@ from pyparsing import (
     alphanums,
     alphas,
     cStyleComment,
+    dblSlashComment,
     delimitedList,
     hexnums,
     lineno,
     nestedExpr,
     oneOf,
     quotedString,
-    restOfLine,
 )
 
 from .errors import DefinitionError
@@ -823,10 +823,9 @@ class CParser(object):
 
         """
         text = self.files[path]
-        cplusplus_line_comment = Literal("//") + restOfLine
         # match quoted strings first to prevent matching comments inside quotes
         comment_remover = (
-            quotedString | cStyleComment.suppress() | cplusplus_line_comment.suppress()
+            quotedString | cStyleComment.suppress() | dblSlashComment.suppress()
         )
         self.files[path] = comment_remover.transformString(text)
 
-- 
2.43.0


From 417d2e4cdad2b4c6248240b13f5c4378aa618bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:19 +0000
Subject: [PATCH 47/47] fix: a class given for the extra type time_t was
 replaced by c_time_t

---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 2df6b7b..a767cb2 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -455,7 +455,7 @@ def init_clibrary(extra_types={}):
                 extra_types[k] = WIN_TYPES[k]
 
     if sys.version_info >= (3, 12):
-        extra_types["time_t"] = c_time_t
+        CTypesCLibrary._types_["time_t"] = c_time_t
 
     # Now complete the list with some more exotic types
     CTypesCLibrary._types_.update(extra_types)
-- 
2.43.0

