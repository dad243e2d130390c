From 835b4e6eb046631edbba97beb46829e5f6601468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 01/92] fix: acquire the library lock that exists when
 lock_calls is set

CFunction.__call__ looked up 'lib.lock', which is not an attribute of
CLibrary, so every call made through a library opened with
lock_calls=True failed with NameError instead of being serialised.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c5fa7e9..8cbb90b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -490,7 +490,7 @@ class CFunction(object):
 
         try:
             if self.lock_call:
-                with self.lib.lock:
+                with self.lib._lock_:
                     res = self.func(*arg_list)
             else:
                 res = self.func(*arg_list)
-- 
2.43.0


From d0a027afc2fb32ff6e9274db3db3d2e43ce09f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:31 +0000
Subject: [PATCH 02/92] fix: return the cached object when it was built under
 its full name

lib(kind, 'X') raised NameError if 'PREFIX_X' had been accessed before,
because the lookup went through the inexistent attribute 'objs'.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 8cbb90b..ba39a66 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -266,7 +266,7 @@ class CLibrary(object, metaclass=CLibraryMeta):
 
         for n in names:
             if n in objs:
-                return self.objs[n]
+                return objs[n]
 
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
-- 
2.43.0


From 5fe924016f1cbee6950a7af64553a6814264ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:43 +0000
Subject: [PATCH 03/92] fix: do not modify the parsed definitions when building
 array types

Merging consecutive array dimensions extended in place the list stored
in the parser definitions, so that the second use of a
multidimensional array type gained dimensions.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e9d6ebf..3404bb8 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -224,7 +224,7 @@ class CTypesCLibrary(CLibrary):
                 seen = mods[0]
                 for m in mods[1:]:
                     if isinstance(seen, list) and isinstance(m, list):
-                        seen += m
+                        seen = seen + m
                     else:
                         n_mods.append(seen)
                         seen = m
-- 
2.43.0


From d67bcfdc3b30fcb13f683805937969ae3c2f5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:06 +0000
Subject: [PATCH 04/92] fix: use the declared width of bit fields when building
 structures

Structure members are stored as (name, type, default[, width]), but the
ctypes backend took the default for the width: widths were ignored and
defaults used in their place. Unnamed bit fields, which only pad, were
declared as anonymous members, which ctypes refuses for integers.
---
 pyclibrary/backends/ctypes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 3404bb8..3175e2c 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -328,7 +328,9 @@ class CTypesCLibrary(CLibrary):
                         if name not in members:
                             d = (name, *d[1:])
                             defs[i] = d
-                            anon.append(name)
+                            # An unnamed bit field is only padding.
+                            if len(d) < 4:
+                                anon.append(name)
                             break
                         c += 1
                 members.append(d[0])
@@ -339,8 +341,8 @@ class CTypesCLibrary(CLibrary):
             # fashion.
             s._fields_ = [
                 (m[0], self._get_type(m[1]))
-                if m[2] is None
-                else (m[0], self._get_type(m[1]), m[2])
+                if len(m) < 4
+                else (m[0], self._get_type(m[1]), m[3])
                 for m in defs
             ]
             s._defaults_ = [m[2] for m in defs]
-- 
2.43.0


From bae7fe170f0336f53689d02f79cc43fdc3745053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:17 +0000
Subject: [PATCH 05/92] fix: build a single class per structure whatever alias
 is used

Accessing a structure through a typedef built a second ctypes class,
which the functions already bound did not accept.
---
 pyclibrary/backends/ctypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 3175e2c..59b5ea3 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -294,6 +294,8 @@ class CTypesCLibrary(CLibrary):
     def _get_struct(self, str_type, str_name):
         if str_name not in self._structs_:
             str_name = self._resolve_struct_alias(str_type, str_name)
+            if str_name in self._structs_:
+                return self._structs_[str_name]
 
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
-- 
2.43.0


From f55c7b869a062053af5c003abfca67c0c0135d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:53 +0000
Subject: [PATCH 06/92] fix: forget a structure whose fields could not be built

The class stayed registered without any field, so a second access
silently returned an empty structure instead of failing again.
---
 pyclibrary/backends/ctypes.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 59b5ea3..7cc9aa1 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -341,12 +341,17 @@ class CTypesCLibrary(CLibrary):
             # Handle bit field specifications, ctypes only supports bit fields
             # for integer but I am not sure how to test for it in a nice
             # fashion.
-            s._fields_ = [
-                (m[0], self._get_type(m[1]))
-                if len(m) < 4
-                else (m[0], self._get_type(m[1]), m[3])
-                for m in defs
-            ]
+            try:
+                s._fields_ = [
+                    (m[0], self._get_type(m[1]))
+                    if len(m) < 4
+                    else (m[0], self._get_type(m[1]), m[3])
+                    for m in defs
+                ]
+            except Exception:
+                # Do not leave behind a class with no fields.
+                del self._structs_[str_name]
+                raise
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[str_name]
-- 
2.43.0


From 028accb749c0239d958068b90026c1a194be15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:05 +0000
Subject: [PATCH 07/92] fix: support pointers to functions taking no arguments

'(void)' was taken for one argument of type void, which ctypes refuses.
---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 7cc9aa1..b42f487 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -279,7 +279,8 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    args = [self._get_type(arg[1]) for arg in m]
+                    # "(void)" means that there are no arguments
+                    args = [self._get_type(arg[1]) for arg in m if arg[1] != ("void",)]
                     cls = mkfn(cls, *args)
 
                 else:
-- 
2.43.0


From e2f7aac2da444b2178f4817bf04ef0877a8f836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 08/92] fix: allow binding functions declared with a calling
 convention

The return type is a tuple, from which the convention cannot be removed
in place: accessing such a function raised AttributeError.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index ba39a66..a7204bd 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -409,7 +409,7 @@ class CFunction(object):
         self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
         for conv in ["__stdcall", "__cdecl"]:
             if conv in self.sig[0]:
-                self.sig[0].remove(conv)
+                self.sig[0] = tuple(t for t in self.sig[0] if t != conv)
         self.name = name
         self.res_type = lib._get_type(self.sig[0])
         self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
-- 
2.43.0


From e613c83f9b0cb9dea4638883bc74b407e675e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:55 +0000
Subject: [PATCH 09/92] fix: evaluate 'signed' alone and inside a type name

Dropping the word left an empty name for 'signed' (which is int) and two
spaces in 'long signed int', neither of which can be bound.
---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e80c324..ff7de8d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -183,8 +183,9 @@ class Type(tuple):
 
         if self.is_fund_type():
             # Remove 'signed' before returning evaluated type
+            words = [w for w in self.type_spec.split() if w != "signed"]
             return Type(
-                re.sub(r"\bsigned\b", "", self.type_spec).strip(),
+                " ".join(words) or "int",
                 *self.declarators,
                 type_quals=self.type_quals,
             )
-- 
2.43.0


From 08cf48c9f322f54d828fd7f4e30fc83ed4696895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:06 +0000
Subject: [PATCH 10/92] fix: bind the unsigned types written size first

'short unsigned', 'long unsigned' and 'long long unsigned', with or
without int, are parsed but were not known to the ctypes backend (except
'long unsigned int').
---
 pyclibrary/backends/ctypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index b42f487..90d996f 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -421,6 +421,8 @@ def init_clibrary(extra_types={}):
         "short int": c_short,
         "unsigned short": c_ushort,
         "unsigned short int": c_ushort,
+        "short unsigned": c_ushort,
+        "short unsigned int": c_ushort,
         "int": c_int,
         "unsigned": c_uint,
         "unsigned int": c_uint,
@@ -428,11 +430,14 @@ def init_clibrary(extra_types={}):
         "long int": c_long,
         "unsigned long": c_ulong,
         "unsigned long int": c_ulong,
+        "long unsigned": c_ulong,
         "long unsigned int": c_ulong,
         "long long": c_longlong,
         "long long int": c_longlong,
         "unsigned long long": c_ulonglong,
         "unsigned long long int": c_ulonglong,
+        "long long unsigned": c_ulonglong,
+        "long long unsigned int": c_ulonglong,
         "float": c_float,
         "double": c_double,
         "long double": c_longdouble,
-- 
2.43.0


From 5a9e2dd810a42caf573177a0d31232a76c3114f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:35 +0000
Subject: [PATCH 11/92] fix: keep the order of the dimensions of arrays of
 arrays

Consecutive arrays are listed outermost dimension first, but an array of
a typedef naming an array, or an array declarator in parentheses, had
its dimensions appended after the inner ones: 'typedef int A[3]; A x[2];'
was bound as int[3][2].
---
 pyclibrary/c_parser.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ff7de8d..3ee3b05 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -59,6 +59,25 @@ logger = logging.getLogger(__name__)
 __all__ = ["CParser", "win_defs"]
 
 
+def _derive(base_decls, base_quals, decls, quals):
+    """Apply declarators (and their qualifiers) to an already derived type.
+
+    Consecutive arrays are listed outermost dimension first, so the dimensions
+    added by decls come before the ones which end base_decls.
+
+    """
+    i = len(base_decls)
+    while i > 0 and isinstance(base_decls[i - 1], list):
+        i -= 1
+    j = 0
+    while j < len(decls) and isinstance(decls[j], list):
+        j += 1
+    return (
+        (*base_decls[:i], *decls[:j], *base_decls[i:], *decls[j:]),
+        (*base_quals[: i + 1], *quals[:j], *base_quals[i + 1 :], *quals[j:]),
+    )
+
+
 class Type(tuple):
     """
     Representation of a C type. CParser uses this class to store the parsed
@@ -201,17 +220,13 @@ class Type(tuple):
             raise DefinitionError(m.format(parent, " -> ".join(used)))
 
         pt = type_map[parent]
-        evaled_type = Type(
-            pt.type_spec,
-            *(pt.declarators + self.declarators),
-            type_quals=(
-                (
-                    *pt.type_quals[:-1],
-                    pt.type_quals[-1] + self.type_quals[0],
-                    *self.type_quals[1:],
-                )
-            ),
+        declarators, type_quals = _derive(
+            pt.declarators,
+            (*pt.type_quals[:-1], pt.type_quals[-1] + self.type_quals[0]),
+            self.declarators,
+            self.type_quals[1:],
         )
+        evaled_type = Type(pt.type_spec, *declarators, type_quals=type_quals)
 
         return evaled_type.eval(type_map, used)
 
@@ -1428,8 +1443,7 @@ class CParser(object):
             (n, t, q) = self.process_declarator(decl["center"][0])
             if n is not None:
                 name = n
-            toks.extend(t)
-            quals = [*quals[:-1], quals[-1] + q[0], *list(q[1:])]
+            toks, quals = _derive(toks, [*quals[:-1], quals[-1] + q[0]], t, q[1:])
 
         if "name" in decl:
             name = decl["name"]
-- 
2.43.0


From 620639ccb5f750d70809d247e6199dd4a948680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 12/92] fix: keep the type qualifiers when removing the
 compatibility hack

add_compatibility_hack() keeps them, so the two were not inverse.
---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3ee3b05..5bbbc39 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -257,7 +257,10 @@ class Type(tuple):
 
         """
         if len(self) == 2 and isinstance(self[0], Type):
-            return Type(*(self[0] + (self[1],)))
+            return Type(
+                *(self[0] + (self[1],)),
+                type_quals=(*self[0].type_quals, self.type_quals[1]),
+            )
         else:
             return self
 
-- 
2.43.0


From bf310f7b64739ba4ff044dc5674938cc3b86c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:29 +0000
Subject: [PATCH 13/92] fix: parse the bit fields declared in a list

A structure containing 'int a:1, b:2;' was recorded without any member,
and 'int a, b:2;' gave a width to both.
---
 pyclibrary/c_parser.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 5bbbc39..43dee66 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1357,9 +1357,14 @@ class CParser(object):
             Group(
                 Group(
                     self.type_spec("type")
-                    + Optional(self.declarator_list("decl_list"))
-                    + colon
-                    + integer("bit")
+                    + Group(
+                        delimitedList(
+                            Group(
+                                Optional(self.declarator)("decl")
+                                + Optional(colon + integer("bit"))
+                            )
+                        )
+                    )("bit_list")
                     + semi
                 )
             )
@@ -1591,21 +1596,25 @@ class CParser(object):
                         "    member: {}, {}, {}".format(m, m[0].keys(), m[0].decl_list)
                     )
 
-                    if len(m[0].decl_list) == 0:  # anonymous member
-                        member = [None, Type(typ[0]), None]
-                        if m[0].bit:
-                            member.append(int(m[0].bit))
+                    # Members declared along with a bit field
+                    for b in m[0].bit_list:
+                        if b.decl:
+                            member = [*self.process_type(typ, b.decl[0]), None]
+                        else:
+                            member = [None, Type(typ["name"]), None]
+                        if b.bit:
+                            member.append(int(b.bit, 0))
                         struct.append(tuple(member))
+                        logger.debug("      {}".format(member))
+
+                    if len(m[0].decl_list) == 0 and not m[0].bit_list:
+                        # anonymous member
+                        struct.append((None, Type(typ[0]), None))
 
                     for d in m[0].decl_list:
                         (name, decl) = self.process_type(typ, d)
-                        member = [name, decl, val]
-                        if m[0].bit:
-                            member.append(int(m[0].bit))
-                        struct.append(tuple(member))
-                        logger.debug(
-                            "      {} {} {} {}".format(name, decl, val, m[0].bit)
-                        )
+                        struct.append((name, decl, val))
+                        logger.debug("      {} {} {}".format(name, decl, val))
 
                 str_cls = Struct if str_typ == "struct" else Union
                 self.add_def(str_typ + "s", sname, str_cls(*struct, pack=packing))
-- 
2.43.0


From e9b5b10ab19aacda2506f1a6ea4af9c2cc9c1ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 14/92] fix: apply #pragma pack to the structures which follow
 it

The directive was recorded with a 0-based line but compared to 1-based
ones, so it also applied to a structure on the line before it, and the
directives skipped while preprocessing (in a false branch, or pragmas
other than pack) were dropped from the text, which shifted the lines of
all the structures after them.
---
 pyclibrary/c_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 43dee66..2e3714d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -962,6 +962,7 @@ class CParser(object):
 
                 elif d == "define":
                     if not if_true[-1]:
+                        result.append("")
                         continue
                     logger.debug(
                         "  " * (len(if_true) - 1)
@@ -979,6 +980,7 @@ class CParser(object):
 
                 elif d == "undef":
                     if not if_true[-1]:
+                        result.append("")
                         continue
                     try:
                         self.rem_def("macros", macroName.strip())
@@ -997,9 +999,11 @@ class CParser(object):
                 # The current implementation follows the MSVC doc.
                 elif d == "pragma":
                     if not if_true[-1]:
+                        result.append("")
                         continue
                     m = re.match(r"\s+pack\s*\(([^\)]*)\)", rest)
                     if not m:
+                        result.append("")
                         continue
                     if m.groups():
                         opts = [s.strip() for s in m.groups()[0].split(",")]
@@ -1553,7 +1557,8 @@ class CParser(object):
         """Return the structure packing value at the given line number."""
         packing = None
         for p in self.pack_list[self.current_file]:
-            if p[0] <= line:
+            # Line numbers are 1-based, directives are recorded 0-based.
+            if p[0] < line:
                 packing = p[1]
             else:
                 break
-- 
2.43.0


From 503a7b3cee587b7d8f0ee913e1398af05c4ceddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 15/92] fix: keep the current packing on '#pragma pack(push)'

A push without a value reset the packing to the default.
---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2e3714d..ceaa46f 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1017,7 +1017,9 @@ class CParser(object):
                         else:
                             id = o
 
-                    packing = val
+                    # A push without a value keeps the current packing
+                    if val is not None or pushpop != "push":
+                        packing = val
 
                     if pushpop == "push":
                         pack_stack.append((packing, id))
-- 
2.43.0


From 58c63ba30a805e8980c343c3e3b5a84f9fa29740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 16/92] fix: do not fail on a '#pragma pack(pop)' without push

The stack was emptied and the parsing of the file stopped with
IndexError.
---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ceaa46f..c5080bb 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1025,7 +1025,9 @@ class CParser(object):
                         pack_stack.append((packing, id))
                     elif opts[0] == "pop":
                         if id is None:
-                            pack_stack.pop()
+                            # Ignore a pop without push, like compilers do
+                            if len(pack_stack) > 1:
+                                pack_stack.pop()
                         else:
                             ind = None
                             for j, s in enumerate(pack_stack):
-- 
2.43.0


From acc6cb14c8054778f7a6800ab3158da4fed02ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 17/92] fix: do not evaluate C constants in the namespace of
 the parser

A macro or initialiser naming a Python builtin or a global of the module
got it for value ('#define WORD int' had the class int, '#define G os' a
module, which made writing the cache fail), and calls found in a header
were executed.
---
 pyclibrary/c_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c5080bb..06314b3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1676,13 +1676,14 @@ class CParser(object):
         logger.debug("Eval: {}".format(toks))
         try:
             if isinstance(toks, str):
-                val = self.eval(toks, None, self.defs["values"])
+                val = self.eval(toks, {"__builtins__": {}}, self.defs["values"])
             elif toks.array_values != "":
                 val = [
-                    self.eval(x, None, self.defs["values"]) for x in toks.array_values
+                    self.eval(x, {"__builtins__": {}}, self.defs["values"])
+                    for x in toks.array_values
                 ]
             elif toks.value != "":
-                val = self.eval(toks.value, None, self.defs["values"])
+                val = self.eval(toks.value, {"__builtins__": {}}, self.defs["values"])
             else:
                 val = None
             return val
-- 
2.43.0


From d888000cadb01c435acdf2f7620b9f0af0f4b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 18/92] fix: evaluate all the forms of C numbers

Lower case suffixes, octal integers, suffixed floats and floats with
several digits before the point had no value, and the suffix letters
ending an identifier such as A1L were dropped from it.
---
 pyclibrary/c_parser.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 06314b3..87139c8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1828,13 +1828,19 @@ lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
 # Numbers
-int_strip = lambda t: t[0].rstrip("UL")  # noqa
-hexint = Regex(r"[+-]?\s*0[xX][{}]+[UL]*".format(hexnums)).setParseAction(int_strip)
-decint = Regex(r"[+-]?\s*[0-9]+[UL]*").setParseAction(int_strip)
-integer = hexint | decint
+# The word boundaries prevent from matching the digits ending an identifier.
+int_strip = lambda t: t[0].rstrip("ULul")  # noqa
+oct_strip = lambda t: re.sub(r"0+([0-7])", r"0o\1", int_strip(t), count=1)  # noqa
+hexint = Regex(r"[+-]?\s*\b0[xX][{}]+[ULul]*".format(hexnums)).setParseAction(int_strip)
+octint = Regex(r"[+-]?\s*\b0[0-7]+[ULul]*").setParseAction(oct_strip)
+decint = Regex(r"[+-]?\s*\b[0-9]+[ULul]*").setParseAction(int_strip)
+integer = hexint | octint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-floating = Regex(r"[+-]?\s*((((\d(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\d\.\d*)|(\.\d+)))")
+float_strip = lambda t: t[0].rstrip("FLfl")  # noqa
+floating = Regex(
+    r"[+-]?\s*((((\b\d+(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\b\d+\.\d*)|(\.\d+)))[FLfl]?"
+).setParseAction(float_strip)
 number = floating | integer
 
 # Miscelaneous
-- 
2.43.0


From 5b2d62c9f043a17d918d8fb25371950907415077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 19/92] fix: evaluate !=, integer constants and divisions in
 #if

'!=' became 'not =' (so the condition was always false), the letters of
hexadecimal digits and of suffixes were replaced by 0 like identifiers
(0x10 was 0, 2L was 20), and divisions gave floats.
---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 87139c8..30de7bf 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1053,7 +1053,10 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            Literal("!").setParseAction(lambda: " not ")
+            integer
+            | Literal("!=")
+            | Literal("!").setParseAction(lambda: " not ")
+            | Literal("/").setParseAction(lambda: "//")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
-- 
2.43.0


From 17ac4a570e38efd2d09452313e1b914731772b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 20/92] fix: make #undef remove all that a #define added

Function macros could not be undefined, the value of an undefined macro
stayed available, and a macro undefined in another file than the one
defining it stayed in the definitions of that file, from which it came
back when they were imported (from the cache or another parser).
---
 pyclibrary/c_parser.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 30de7bf..ed773ff 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -982,12 +982,12 @@ class CParser(object):
                     if not if_true[-1]:
                         result.append("")
                         continue
-                    try:
-                        self.rem_def("macros", macroName.strip())
-                    except Exception:
-                        if sys.exc_info()[0] is not KeyError:
-                            mess = "Error removing macro definition '{}'"
-                            logger.exception(mess.format(macroName.strip()))
+                    name_ = macroName.strip()
+                    if name_ in self.defs["macros"]:
+                        self.rem_def("macros", name_)
+                        self.rem_def("values", name_)
+                    if name_ in self.defs["fnmacros"]:
+                        self.rem_def("fnmacros", name_)
 
                 # Check for changes in structure packing
                 # Support only for #pragme pack (with all its variants
@@ -1721,16 +1721,13 @@ class CParser(object):
         self.file_defs[base_name][typ][name] = val
 
     def rem_def(self, typ, name):
-        """Remove a definition of a specific type to both the definition set
-        for the current file and the global definition set.
+        """Remove a definition of a specific type from the global definition
+        set and from the ones of all the files.
 
         """
-        if self.current_file is None:
-            base_name = None
-        else:
-            base_name = os.path.basename(self.current_file)
-        del self.defs[typ][name]
-        del self.file_defs[base_name][typ][name]
+        self.defs[typ].pop(name, None)
+        for file_defs in self.file_defs.values():
+            file_defs[typ].pop(name, None)
 
     def is_fund_type(self, typ):
         """Return True if this type is a fundamental C type, struct, or
-- 
2.43.0


From 0150d5bc1bbdcaae07d5129d3ec9cfa05aaa4c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 21/92] fix: do not take '#define A (B)' for a function macro

The parameters of a function macro directly follow its name; with a
space in between, a parenthesised name is the value of the macro.
---
 pyclibrary/c_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ed773ff..fb8da1b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -863,10 +863,12 @@ class CParser(object):
 
         # Define the structure of a macro definition
         name = Word(alphas + "_", alphanums + "_")("name")
-        deli_list = Optional(lparen + delimitedList(name) + rparen)
+        # The arguments of a function macro directly follow its name
+        args_start = Literal("(").leaveWhitespace().suppress()
+        deli_list = Optional(args_start + delimitedList(name) + rparen)
         self.pp_define = (
             name.setWhitespaceChars(" \t")("macro")
-            + deli_list.setWhitespaceChars(" \t")("args")
+            + deli_list("args")
             + SkipTo(LineEnd())("value")
         )
         self.pp_define.setParseAction(self.process_macro_defn)
@@ -971,7 +973,7 @@ class CParser(object):
                     )
                     try:
                         # Macro is registered here
-                        self.pp_define.parseString(macroName + " " + rest)
+                        self.pp_define.parseString(macroName + rest)
                     except Exception:
                         logger.exception(
                             "Error processing macro definition:"
-- 
2.43.0


From be5cbbc5083ca6e965b47107a37a06fad145296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 22/92] fix: replace C comments by a space

A comment between two words ('int/* width */x') merged them.
---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fb8da1b..6f3761b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -827,8 +827,11 @@ class CParser(object):
         text = self.files[path]
         cplusplus_line_comment = Literal("//") + restOfLine
         # match quoted strings first to prevent matching comments inside quotes
+        # (a C comment separates what is around it like a space does)
         comment_remover = (
-            quotedString | cStyleComment.suppress() | cplusplus_line_comment.suppress()
+            quotedString
+            | cStyleComment.copy().setParseAction(lambda: " ")
+            | cplusplus_line_comment.suppress()
         )
         self.files[path] = comment_remover.transformString(text)
 
-- 
2.43.0


From f732dad0c9279987158570b0263433ae5e573851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 23/92] fix: join the continued lines before removing the
 comments

The line following a line comment ended by a backslash is part of the
comment, but was parsed.
---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6f3761b..be1f48e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -824,7 +824,8 @@ class CParser(object):
         Operates in memory, does not alter the original files.
 
         """
-        text = self.files[path]
+        # A line comment includes the lines it is continued on
+        text = self.files[path].replace("\\\n", "")
         cplusplus_line_comment = Literal("//") + restOfLine
         # match quoted strings first to prevent matching comments inside quotes
         # (a C comment separates what is around it like a space does)
-- 
2.43.0


From 1fecceedbfce62ebc672362140c2342734daa136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:30 +0000
Subject: [PATCH 24/92] fix: find the arguments of function macros like C does

Parentheses or strings inside an argument were not taken into account
('F((1), 2)' was cut at the first closing parenthesis), and a name not
followed by arguments took the next parentheses found on the line.
---
 pyclibrary/c_parser.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index be1f48e..f7b5138 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1174,13 +1174,28 @@ class CParser(object):
         # defn looks like ('%s + %s / %s', (0, 0, 1))
         defn = self.defs["fnmacros"][name]
 
-        try:
-            args, end = text.split(")", 1)
-            _, args = args.split("(", 1)
-            args = [a.strip() for a in args.split(",")]
-        except Exception:
+        # Without arguments, this is not a call of the macro
+        if not text.lstrip().startswith("("):
+            return (name, text)
+
+        # Split the arguments on the commas at the first level of parentheses
+        args = []
+        depth = start = 0
+        for m in re.finditer(r'"(?:\\.|[^"\\])*"|[(),]', text):
+            if m.group() == "(":
+                depth += 1
+            if depth == 1 and m.group() in "(,)":
+                if m.group() != "(":
+                    args.append(text[start : m.start()].strip())
+                start = m.end()
+            if m.group() == ")":
+                depth -= 1
+                if depth == 0:
+                    break
+        else:
             mess = "Function macro {} argument analysis failed :\n{}"
-            raise DefinitionError(0, mess.format(name, format_exc()))
+            raise DefinitionError(0, mess.format(name, text))
+        end = text[start:]
 
         args = [self.expand_macros(arg) for arg in args]
         new_str = defn[0].format(*[args[i] for i in defn[1]])
-- 
2.43.0


From b0fc5b8ac066275cd49ca5ad2ceaa58a4ebb6714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 25/92] fix: allow braces in the value of function macros

They were taken for format fields, so that the macro was not expanded.
---
 pyclibrary/c_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f7b5138..3ad5b98 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1116,13 +1116,15 @@ class CParser(object):
         arg_order = []
         # The group number to check for macro names
         N = 3
+        # The result is a format string
+        escape = lambda s: s.replace("{", "{{").replace("}", "}}")  # noqa
         for m in arg_regex.finditer(text):
             arg = m.groups()[N]
             if arg is not None:
-                parts.append(text[start : m.start(N)] + "{}")
+                parts.append(escape(text[start : m.start(N)]) + "{}")
                 start = m.end(N)
                 arg_order.append(args.index(arg))
-        parts.append(text[start:])
+        parts.append(escape(text[start:]))
         return ("".join(parts), arg_order)
 
     def expand_macros(self, line):
-- 
2.43.0


From bdb6966fed579982bb8f716a2380c5504491e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 26/92] fix: expand the macros which follow a string

Nothing was expanded on a line after the first string it contains.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3ad5b98..097f14d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1164,7 +1164,7 @@ class CParser(object):
                 parts.append(exp)
 
             else:
-                start = m.end(N)
+                start = m.end()
                 parts.append(line[:start])
                 line = line[start:]
 
-- 
2.43.0


From 220335884a3d6d68249cba1fbfcaf5a19f4fc401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 27/92] fix: do not replace names inside character constants

---
 pyclibrary/c_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 097f14d..26773ab 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -58,6 +58,9 @@ logger = logging.getLogger(__name__)
 
 __all__ = ["CParser", "win_defs"]
 
+#: Strings and character constants, in which no name is replaced.
+QUOTED = r"""("(\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
+
 
 def _derive(base_decls, base_quals, decls, quals):
     """Apply declarators (and their qualifiers) to an already derived type.
@@ -1110,7 +1113,7 @@ class CParser(object):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
         args_str = "|".join(args)
-        arg_regex = re.compile(r'("(\\"|[^"])*")|(\b({})\b)'.format(args_str))
+        arg_regex = re.compile(QUOTED + r"|(\b({})\b)".format(args_str))
         start = 0
         parts = []
         arg_order = []
@@ -1133,7 +1136,7 @@ class CParser(object):
         Faulty calls to macro function are left untouched.
 
         """
-        reg = re.compile(r'("(\\"|[^"])*")|(\b(\w+)\b)')
+        reg = re.compile(QUOTED + r"|(\b(\w+)\b)")
         parts = []
         # The group number to check for macro names
         N = 3
@@ -1183,7 +1186,7 @@ class CParser(object):
         # Split the arguments on the commas at the first level of parentheses
         args = []
         depth = start = 0
-        for m in re.finditer(r'"(?:\\.|[^"\\])*"|[(),]', text):
+        for m in re.finditer(QUOTED + r"|[(),]", text):
             if m.group() == "(":
                 depth += 1
             if depth == 1 and m.group() in "(,)":
-- 
2.43.0


From a72d12065c4297db78546bad566cc927ac401c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:46 +0000
Subject: [PATCH 28/92] fix: do not modify the list of directories passed to
 find_header/find_library

---
 pyclibrary/utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index a3f92cd..10c4237 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -67,10 +67,7 @@ def find_header(h_name, dirs=None):
     OSError : if no matching file can be found.
 
     """
-    if dirs:
-        dirs += HEADER_DIRS[::-1]
-    else:
-        dirs = HEADER_DIRS[::-1]
+    dirs = [*(dirs or []), *HEADER_DIRS[::-1]]
 
     if sys.platform == "win32":
         pass
@@ -134,10 +131,7 @@ def find_library(name, dirs=None):
     OSError : if no matching file can be found.
 
     """
-    if dirs:
-        dirs += LIBRARY_DIRS[::-1]
-    else:
-        dirs = LIBRARY_DIRS[::-1]
+    dirs = [*(dirs or []), *LIBRARY_DIRS[::-1]]
 
     for d in dirs:
         path = os.path.join(d, name)
-- 
2.43.0


From b926c7dc402406e1cbed68936de33939a341df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:57 +0000
Subject: [PATCH 29/92] fix: look for headers in the standard directories on
 Linux

---
 pyclibrary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 10c4237..b24505f 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -82,7 +82,7 @@ def find_header(h_name, dirs=None):
             )
         )
 
-    if sys.platform == "linux2":
+    if sys.platform.startswith("linux"):
         dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))
 
     for d in dirs:
-- 
2.43.0


From 702192a58294df2ea7e5302e9d6c19b0c4276a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 30/92] fix: do not read the bitness of a library in its path

---
 pyclibrary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index b24505f..48b85ca 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -201,7 +201,7 @@ def get_arch(filename):
     elif this_platform not in ("linux2", "linux3", "linux", "darwin"):
         raise OSError("")
 
-    out = check_output(["file", filename], stderr=subprocess.STDOUT)
+    out = check_output(["file", "-b", filename], stderr=subprocess.STDOUT)
     out = out.decode("ascii")
     ret = []
     if this_platform.startswith("linux"):
-- 
2.43.0


From b70819cb624ad44e0e39a3c818433eb62e6dad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:48 +0000
Subject: [PATCH 31/92] fix: allow a cache to be used when the headers cannot
 be found

---
 pyclibrary/c_parser.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 26773ab..106ba2e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -740,10 +740,11 @@ class CParser(object):
             if os.path.isfile(header):
                 hs.append(header)
             else:
-                h = find_header(header)
-                if not h:
-                    raise OSError("Cannot find header: {}".format(header))
-                hs.append(h)
+                try:
+                    hs.append(find_header(header))
+                except OSError:
+                    # Not fatal if there is a cache file (see load_file).
+                    hs.append(header)
 
         return hs
 
@@ -768,6 +769,13 @@ class CParser(object):
         if encoding is None:
             encoding = self.default_encoding
 
+        self.file_order.append(path)
+        bn = os.path.basename(path)
+        self.init_opts["replace"][bn] = replace
+        # Only interested in the file names, the directory may change between
+        # systems.
+        self.init_opts["files"].append(bn)
+
         if not os.path.isfile(path):
             # Not a fatal error since we might be able to function properly if
             # there is a cache file.
@@ -783,12 +791,6 @@ class CParser(object):
             for s in replace:
                 self.files[path] = re.sub(s, replace[s], self.files[path])
 
-        self.file_order.append(path)
-        bn = os.path.basename(path)
-        self.init_opts["replace"][bn] = replace
-        # Only interested in the file names, the directory may change between
-        # systems.
-        self.init_opts["files"].append(bn)
         return True
 
     def _format_parsed_file(self, filename=None):
-- 
2.43.0


From 38fe9543516fcb0df841c68bc22862b1f57355ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 32/92] fix: take encoding and copy_from into account in the
 cache validity

---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 106ba2e..ee6f308 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -515,6 +515,8 @@ class CParser(object):
         self.init_opts = kwargs.copy()
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
+        if encoding != "utf-8":
+            self.init_opts["encoding"] = encoding
 
         self.data_list = [
             "types",
@@ -559,6 +561,7 @@ class CParser(object):
                 copy_from = [copy_from]
             for p in copy_from:
                 self.import_dict(p.file_defs)
+            self.init_opts["copy_from"] = [p.file_defs for p in copy_from]
 
         if process_all:
             self.process_all(cache=cache, check_cache_validity=check_cache_validity)
-- 
2.43.0


From 209905b2a00d407e1fc7b76f02c3fba60bc675e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 33/92] fix: identify the already opened libraries by their
 real path

---
 pyclibrary/backends/ctypes.py | 4 ++--
 pyclibrary/c_library.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 90d996f..93e4fda 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -471,6 +471,6 @@ def identify_library(lib):
 
 def get_library_path(lib):
     if os.path.isfile(lib._name):
-        return lib._name
+        return os.path.realpath(lib._name)
     else:
-        return find_library(lib._name).path
+        return os.path.realpath(find_library(lib._name).path)
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index a7204bd..f4e9560 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -55,7 +55,7 @@ class CLibraryMeta(type):
         # Identify the library path.
         if isinstance(lib, str):
             if os.sep not in lib:
-                lib_path = find_library(lib).path
+                lib_path = os.path.realpath(find_library(lib).path)
             else:
                 lib_path = os.path.realpath(lib)
                 assert os.path.isfile(lib_path), (
-- 
2.43.0


From fdc08b53660c12cdeaab17619ce29596f61b6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 34/92] fix: parse the parameters which are unnamed pointers to
 functions or arrays

---
 pyclibrary/c_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ee6f308..eb0d765 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1285,8 +1285,11 @@ class CParser(object):
             type_qualifier("first_typequal")
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
             + (
-                (Optional("&")("ref"))
-                | (lparen + self.abstract_declarator + rparen)("center")
+                # Empty parentheses are the ones of a function.
+                (~(lparen + rparen) + lparen + self.abstract_declarator + rparen)(
+                    "center"
+                )
+                | (Optional("&")("ref"))
             )
             + Optional(
                 lparen
-- 
2.43.0


From ce0efc756ffdcf0537c4b85e004fb6b36a7f3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 35/92] fix: parse the parameters of unnamed function pointers

---
 pyclibrary/c_parser.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index eb0d765..078f2a0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1273,6 +1273,8 @@ class CParser(object):
 
         self.declarator = Forward()
         self.abstract_declarator = Forward()
+        # Defined once the declarators are, which keeps their results grouped.
+        fn_arg = Forward()
 
         #  Abstract declarators look like:
         #     <empty string>
@@ -1294,15 +1296,7 @@ class CParser(object):
             + Optional(
                 lparen
                 + Optional(
-                    delimitedList(
-                        Group(
-                            self.type_spec("type")
-                            + self.abstract_declarator("decl")
-                            + Optional(
-                                Literal("=").suppress() + expression, default=None
-                            )("val")
-                        )
-                    ),
+                    delimitedList(fn_arg),
                     default=None,
                 )
                 + rparen
@@ -1330,15 +1324,7 @@ class CParser(object):
             + Optional(
                 lparen
                 + Optional(
-                    delimitedList(
-                        Group(
-                            self.type_spec("type")
-                            + (self.declarator | self.abstract_declarator)("decl")
-                            + Optional(
-                                Literal("=").suppress() + expression, default=None
-                            )("val")
-                        )
-                    ),
+                    delimitedList(fn_arg),
                     default=None,
                 )
                 + rparen
@@ -1347,6 +1333,11 @@ class CParser(object):
                 "arrays"
             )
         )
+        fn_arg << Group(
+            self.type_spec("type")
+            + (self.declarator | self.abstract_declarator)("decl")
+            + Optional(Literal("=").suppress() + expression, default=None)("val")
+        )
         self.declarator_list = Group(delimitedList(self.declarator))
 
         # Typedef
-- 
2.43.0


From dbea8a05095c6545db22b4c33bbc0846e4158d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:57 +0000
Subject: [PATCH 36/92] fix: parse expressions starting with ~ or !

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 078f2a0..982ec5b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1871,7 +1871,7 @@ number = floating | integer
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-uni_left_operator = oneOf("++ -- - + * sizeof new")
+uni_left_operator = oneOf("++ -- - + * ~ ! sizeof new")
 wordchars = alphanums + "_$"
 name = WordStart(wordchars) + Word(alphas + "_", alphanums + "_$") + WordEnd(wordchars)
 size_modifiers = ["short", "long"]
-- 
2.43.0


From d16e5338882affedfc01084370584e933341b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:54 +0000
Subject: [PATCH 37/92] fix: parse expressions casting to a fundamental type

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 982ec5b..df8ed6b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1978,7 +1978,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     # Is there a better way to process expressions with cast operators??
     cast_atom = (
         ZeroOrMore(uni_left_operator)
-        + Optional("(" + ident + ")").suppress()
+        + Optional("(" + (fund_type | ident) + ")").suppress()
         + (
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
-- 
2.43.0


From 62804f1eac80a1d0d9922113fc5af0c9b9e0b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:39 +0000
Subject: [PATCH 38/92] fix: do not take a constant between parentheses for a
 cast

---
 pyclibrary/c_parser.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index df8ed6b..f5323a9 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1723,8 +1723,10 @@ class CParser(object):
     def eval(self, expr, *args):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
-        cast = (lparen + self.type_spec + self.abstract_declarator + rparen).suppress()
-        expr = (quotedString | number | cast).transformString(expr)
+        cast = lparen + self.type_spec("type") + self.abstract_declarator + rparen
+        # A constant between parentheses is not a cast
+        cast.addCondition(lambda t: t["type"]["name"] not in self.defs["values"])
+        expr = (quotedString | number | cast.suppress()).transformString(expr)
         if expr == "":
             return None
         return eval(expr, *args)
@@ -1975,12 +1977,14 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         kwl(sign_modifiers + size_modifiers + base_types)
     ).setParseAction(lambda t: " ".join(t))
 
-    # Is there a better way to process expressions with cast operators??
-    cast_atom = (
+    # The casts are kept as only eval can tell them from constants between
+    # parentheses.
+    atom = Forward()
+    atom << (
         ZeroOrMore(uni_left_operator)
-        + Optional("(" + (fund_type | ident) + ")").suppress()
         + (
-            (
+            "(" + (fund_type | ident) + ")" + atom
+            | (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
@@ -1992,22 +1996,5 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         + ZeroOrMore(uni_right_operator)
     )
 
-    uncast_atom = (
-        ZeroOrMore(uni_left_operator)
-        + (
-            (
-                ident + "(" + Optional(delimitedList(expression)) + ")"
-                | ident + OneOrMore("[" + expression + "]")
-                | ident
-                | number
-                | quotedString
-            )
-            | ("(" + expression + ")")
-        )
-        + ZeroOrMore(uni_right_operator)
-    )
-
-    atom = cast_atom | uncast_atom
-
     expression << Group(atom + ZeroOrMore(bi_operator + atom))
     expression.setParseAction(recombine)
-- 
2.43.0


From a0c32f2a8ca24b3b25955e804b190e0416ea4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:35 +0000
Subject: [PATCH 39/92] fix: remove completely the __names from the types

The two underscores, and the parse tree of what follows them between
parentheses, were left among the type qualifiers.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f5323a9..a9c6219 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1959,7 +1959,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         + WordEnd(wordchars)
     ).setParseAction(lambda t: t[0])
     type_qualifier = ZeroOrMore(
-        (underscore_2_ident + Optional(nestedExpr())) | kwl(qualifiers)
+        (underscore_2_ident + Optional(nestedExpr())).suppress() | kwl(qualifiers)
     )
 
     storage_class_spec = Optional(kwl(storage_classes))
-- 
2.43.0


From 7a2aaa27012e5424187ac86bfcb555a9e69de05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 40/92] fix: parse the calling convention of unnamed function
 pointers

---
 pyclibrary/c_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a9c6219..12c2d4a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1285,6 +1285,7 @@ class CParser(object):
         #     ...etc...
         self.abstract_declarator << Group(
             type_qualifier("first_typequal")
+            + call_conv
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
             + (
                 # Empty parentheses are the ones of a function.
-- 
2.43.0


From a6a9b6496dbf75362aa03c860878a11d62d69b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:24 +0000
Subject: [PATCH 41/92] fix: find the type of the qualified anonymous members

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 12c2d4a..5d1cdef 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1647,7 +1647,7 @@ class CParser(object):
 
                     if len(m[0].decl_list) == 0 and not m[0].bit_list:
                         # anonymous member
-                        struct.append((None, Type(typ[0]), None))
+                        struct.append((None, Type(typ["name"]), None))
 
                     for d in m[0].decl_list:
                         (name, decl) = self.process_type(typ, d)
-- 
2.43.0


From 6bc5c26ab8113547e6e09802180b731ee1270f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:50 +0000
Subject: [PATCH 42/92] fix: undo the last '#pragma pack(push, name)' when a
 name is popped

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 5d1cdef..e843c68 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1044,10 +1044,10 @@ class CParser(object):
                                 pack_stack.pop()
                         else:
                             ind = None
+                            # The last push with this name is the one undone
                             for j, s in enumerate(pack_stack):
                                 if s[1] == id:
                                     ind = j
-                                    break
                             if ind is not None:
                                 pack_stack = pack_stack[:ind]
                         if val is None:
-- 
2.43.0


From 09a9ba98b0c0d65ead888a8f93a4af7e88690bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 43/92] fix: ignore the malformed directives instead of failing

A #define or #undef without name, or an #elif, #else or #endif without #if,
made the parsing of all the files fail.
---
 pyclibrary/c_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e843c68..a69fb56 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -916,6 +916,11 @@ class CParser(object):
                     d = "if"
                     rest = "!defined " + rest
 
+                if d in ["elif", "else", "endif"] and not if_hit:
+                    logger.debug("Ignored directive without #if: " + line)
+                    result.append("")
+                    continue
+
                 # Evaluate 'defined' operator before expanding macros
                 if d in ["if", "elif"]:
 
@@ -932,6 +937,10 @@ class CParser(object):
 
                 elif d in ["define", "undef"]:
                     match = re.match(r"\s*([a-zA-Z_][a-zA-Z0-9_]*)(.*)$", rest)
+                    if match is None:
+                        logger.debug("Ignored directive without name: " + line)
+                        result.append("")
+                        continue
                     macroName, rest = match.groups()
 
                 # Expand macros if needed
-- 
2.43.0


From 382901dd7d9ad7fe191f384c74938d327e97fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:54 +0000
Subject: [PATCH 44/92] fix: give no size to the flexible array members of
 structures

---
 pyclibrary/backends/ctypes.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 93e4fda..a852957 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -344,9 +344,9 @@ class CTypesCLibrary(CLibrary):
             # fashion.
             try:
                 s._fields_ = [
-                    (m[0], self._get_type(m[1]))
+                    (m[0], self._get_member_type(m[1]))
                     if len(m) < 4
-                    else (m[0], self._get_type(m[1]), m[3])
+                    else (m[0], self._get_member_type(m[1]), m[3])
                     for m in defs
                 ]
             except Exception:
@@ -357,6 +357,18 @@ class CTypesCLibrary(CLibrary):
 
         return self._structs_[str_name]
 
+    def _get_member_type(self, typ):
+        """Return a ctype object representing the type of a member."""
+        typ = list(self._headers_.eval_type(typ))
+        # Find the outermost dimension, if this is an array
+        i = len(typ)
+        while isinstance(typ[i - 1], list):
+            i -= 1
+        # A flexible array member takes no space (this is not a pointer)
+        if typ[i:] and typ[i] == [-1]:
+            typ[i] = [0]
+        return self._get_type(typ)
+
     def _get_pointer(self, arg_type, sig):
         """Build an uninitialised pointer for the given type."""
         # Must be 2-part type, second part must be '*' or '**'
-- 
2.43.0


From bc3787d91bb0ad5efdb16f6437af0f0978e2dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:45 +0000
Subject: [PATCH 45/92] fix: do not hide an anonymous member by an unnamed bit
 field

---
 pyclibrary/backends/ctypes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index a852957..d2ca78a 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -325,14 +325,16 @@ class CTypesCLibrary(CLibrary):
             anon = []
             for i, d in enumerate(defs):
                 if d[0] is None:
+                    # An unnamed bit field is only padding, whose name must not
+                    # hide an anonymous member of an enclosing structure.
+                    padding = len(d) >= 4
                     c = 0
                     while True:
-                        name = "anon_member%d" % c
+                        name = ("anon_padding%d" if padding else "anon_member%d") % c
                         if name not in members:
                             d = (name, *d[1:])
                             defs[i] = d
-                            # An unnamed bit field is only padding.
-                            if len(d) < 4:
+                            if not padding:
                                 anon.append(name)
                             break
                         c += 1
-- 
2.43.0


From f30021302600a4aba807342ca05f7a5906a64a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:22 +0000
Subject: [PATCH 46/92] fix: return the structures which have a member named
 value

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index d2ca78a..3ff587a 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -165,7 +165,8 @@ class CTypesCLibrary(CLibrary):
         it wrong (a pointer being often an array).
 
         """
-        if not hasattr(obj, "value"):
+        # Structures may have a member of this name.
+        if isinstance(obj, (Structure, Union)) or not hasattr(obj, "value"):
             return obj
 
         return obj.value
-- 
2.43.0


From 88189ae65c750fa1ba4b0364831a086059f9ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:24 +0000
Subject: [PATCH 47/92] fix: bind the types whatever the order of their words

---
 pyclibrary/backends/ctypes.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 3ff587a..eeb48f9 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -196,8 +196,8 @@ class CTypesCLibrary(CLibrary):
                 mods = typ[2:]
 
             # If the base type is in the list of existing ctypes:
-            elif typ[0] in self._types_:
-                cls = self._types_[typ[0]]
+            elif self._find_base_type(typ[0]) is not None:
+                cls = self._find_base_type(typ[0])
 
             # structs, unions, enums:
             elif typ[0][:7] == "struct ":
@@ -293,6 +293,20 @@ class CTypesCLibrary(CLibrary):
             logger.error("Error while processing type: {}".format(typ))
             raise
 
+    def _find_base_type(self, name):
+        """Return the ctype of a base type or None if there is none.
+
+        The words of a type can be written in any order (long unsigned int).
+
+        """
+        if name in self._types_:
+            return self._types_[name]
+        words = sorted(name.split())
+        for n, cls in self._types_.items():
+            if sorted(n.split()) == words:
+                return cls
+        return None
+
     def _get_struct(self, str_type, str_name):
         if str_name not in self._structs_:
             str_name = self._resolve_struct_alias(str_type, str_name)
-- 
2.43.0


From 4e33ab70fed1f44be6e266a1cff7e8241848c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 48/92] fix: bind 'signed char' to a signed integer

---
 pyclibrary/backends/ctypes.py | 2 ++
 pyclibrary/c_parser.py        | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index eeb48f9..fb91d38 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -21,6 +21,7 @@ from ctypes import (
     Structure,
     Union,
     c_bool,
+    c_byte,
     c_char,
     c_char_p,
     c_double,
@@ -445,6 +446,7 @@ def init_clibrary(extra_types={}):
         "char": c_char,
         "wchar": c_wchar,
         "wchar_t": c_wchar,
+        "signed char": c_byte,
         "unsigned char": c_ubyte,
         "short": c_short,
         "short int": c_short,
diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a69fb56..365aa0d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -204,8 +204,11 @@ class Type(tuple):
         used = used or []
 
         if self.is_fund_type():
-            # Remove 'signed' before returning evaluated type
-            words = [w for w in self.type_spec.split() if w != "signed"]
+            # Remove 'signed' before returning evaluated type (a char may be
+            # signed or not, this is an other type)
+            words = self.type_spec.split()
+            if "char" not in words:
+                words = [w for w in words if w != "signed"]
             return Type(
                 " ".join(words) or "int",
                 *self.declarators,
-- 
2.43.0


From 943c90965a835b74e8ec320ff3d3d527cf843bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 49/92] fix: keep the pointers to function pointers

A parameter or a member declared as a pointer to a function pointer was bound
as the function pointer itself.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index fb91d38..5137aae 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -263,7 +263,7 @@ class CTypesCLibrary(CLibrary):
                     for i in [0, 1]:
                         if len(mods) < 1:
                             break
-                        if mods[0] == "*":
+                        if mods[0] == "*" and not is_ptr:
                             mods.pop(0)
                             is_ptr = True
                         elif mods[0] in ["__stdcall", "__cdecl"]:
-- 
2.43.0


From 0ef52e8cd1d9c90b3f70225c3a277c1c8593dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 50/92] fix: accept a parameter named self by its name

---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index f4e9560..c6282c5 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -419,7 +419,7 @@ class CFunction(object):
 
         self.lib._init_function(self)
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         """Invoke the SO or dll function referenced, converting all arguments
         to the correct type.
 
-- 
2.43.0


From 305e9370fd180cfd5db91d286c870b9a8fb6eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 51/92] fix: let several threads ask for the same definition

Structures are registered before they are complete, so that a thread could get
a class without fields, or set its fields twice.
---
 pyclibrary/backends/ctypes.py | 5 +++++
 pyclibrary/c_library.py       | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 5137aae..c03acf8 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -309,6 +309,11 @@ class CTypesCLibrary(CLibrary):
         return None
 
     def _get_struct(self, str_type, str_name):
+        # The classes are registered before being complete.
+        with self._make_lock_:
+            return self._make_struct(str_type, str_name)
+
+    def _make_struct(self, str_type, str_name):
         if str_name not in self._structs_:
             str_name = self._resolve_struct_alias(str_type, str_name)
             if str_name in self._structs_:
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c6282c5..dd39d98 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -199,6 +199,8 @@ class CLibrary(object, metaclass=CLibraryMeta):
         if lock_calls:
             self._lock_ = RLock()
 
+        # Objects can be asked for by several threads, but are made by one.
+        self._make_lock_ = RLock()
         self._objs_ = {}
         for k in ["values", "functions", "types", "structs", "unions", "enums"]:
             self._objs_[k] = {}
@@ -211,8 +213,9 @@ class CLibrary(object, metaclass=CLibraryMeta):
             typs = self._objs_.keys()
             raise KeyError("Type must be one of {}".format(typs))
 
-        if name not in self._objs_[typ]:
-            self._objs_[typ][name] = self._make_obj_(typ, name)
+        with self._make_lock_:
+            if name not in self._objs_[typ]:
+                self._objs_[typ][name] = self._make_obj_(typ, name)
 
         return self._objs_[typ][name]
 
-- 
2.43.0


From c480d5b156231b2346457d446653c396d5073b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 52/92] fix: open a library only once whatever the threads

Two threads could each get their own wrapper of the same file, or a KeyError
when the wrapper was released between the two look-ups.
---
 pyclibrary/c_library.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index dd39d98..517ec66 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -36,6 +36,7 @@ class CLibraryMeta(type):
 
     backends: dict[str, type["CLibrary"]] = {}
     libs: WeakValueDictionary[str, "CLibrary"] = WeakValueDictionary()
+    open_lock = RLock()
 
     def __new__(meta, name, bases, dct):
         if name == "CLibrary":
@@ -76,12 +77,11 @@ class CLibraryMeta(type):
             lib_path = get_library_path(lib, backend)
 
         # Check whether or not this library has already been opened.
-        if lib_path in cls.libs:
-            return cls.libs[lib_path]
-
-        else:
-            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
-            cls.libs[lib_path] = obj
+        with cls.open_lock:
+            obj = cls.libs.get(lib_path)
+            if obj is None:
+                obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
+                cls.libs[lib_path] = obj
             return obj
 
 
-- 
2.43.0


From c3a705247f1ed1e4689be82b23462855e204f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:27 +0000
Subject: [PATCH 53/92] fix: do not modify the types and modifiers given to
 auto_init

---
 pyclibrary/init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index ef58c67..3dd52c7 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -71,8 +71,8 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
         identify the OS.
 
     """
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+    extra_types = dict(extra_types) if extra_types else {}
+    extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
         extra_types.update(WIN_TYPES)
-- 
2.43.0


From fccb581aa5190d1f702e0e1062ccb822e1913884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 54/92] fix: initialise once when several threads create the
 first parsers

---
 pyclibrary/c_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 365aa0d..aae5e99 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -16,6 +16,7 @@ import os
 import re
 import sys
 from inspect import cleandoc
+from threading import RLock
 from traceback import format_exc
 
 # Import parsing elements
@@ -490,6 +491,7 @@ class CParser(object):
 
     #: Private flag allowing to know if the parser has been initiliased.
     _init = False
+    _init_lock = RLock()
 
     def __init__(
         self,
@@ -502,11 +504,12 @@ class CParser(object):
         encoding="utf-8",
         **kwargs,
     ):
-        if not self._init:
-            logger.info("Automatic initialisation based on OS detection")
-            from .init import auto_init
+        with self._init_lock:
+            if not self._init:
+                logger.info("Automatic initialisation based on OS detection")
+                from .init import auto_init
 
-            auto_init()
+                auto_init()
 
         # Holds all definitions
         self.defs = {}
-- 
2.43.0


From 8dfb1f2af71eaaf737ed4e3dd9a1769c1e4afbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:21 +0000
Subject: [PATCH 55/92] fix: do not modify the types given at initialisation

The dictionary of the caller was given an entry for time_t, which also replaced
the one it may have had.
---
 pyclibrary/backends/ctypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index c03acf8..bc1173f 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -489,13 +489,15 @@ def init_clibrary(extra_types={}):
         "ssize_t": c_ssize_t,
     }
 
+    # The types given by the user are left as they are.
+    extra_types = dict(extra_types)
     if sys.platform == "win32":
         for k in extra_types:
             if k in WIN_TYPES:
                 extra_types[k] = WIN_TYPES[k]
 
     if sys.version_info >= (3, 12):
-        extra_types["time_t"] = c_time_t
+        extra_types.setdefault("time_t", c_time_t)
 
     # Now complete the list with some more exotic types
     CTypesCLibrary._types_.update(extra_types)
-- 
2.43.0


From 4defd613829d82de1a2844908809452499f91e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 56/92] fix: give the same object with and without prefix

The name without prefix gave another function object than the full name, or the
one of another prefix when it had been accessed before.
---
 pyclibrary/c_library.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 517ec66..1af2764 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -265,11 +265,6 @@ class CLibrary(object, metaclass=CLibraryMeta):
     def _make_obj_(self, typ, name):
         """Build the correct C-like object from the header definitions."""
         names = self._all_names_(name)
-        objs = self._objs_[typ]
-
-        for n in names:
-            if n in objs:
-                return objs[n]
 
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
@@ -277,6 +272,10 @@ class CLibrary(object, metaclass=CLibraryMeta):
             ):
                 continue
 
+            # The object is the one known under its full name
+            if n != name:
+                return self(typ, n)
+
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-- 
2.43.0


From 4dfe4289345ff9b3222b1c4805b08f2b76ead3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:38 +0000
Subject: [PATCH 57/92] fix: find the system libraries by the name of their
 file

find_library('libm.so.6') and CLibrary(CDLL('libm.so.6'), ...) found nothing.
---
 pyclibrary/thirdparty/find_library.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/thirdparty/find_library.py b/pyclibrary/thirdparty/find_library.py
index 1687c14..e363e7f 100644
--- a/pyclibrary/thirdparty/find_library.py
+++ b/pyclibrary/thirdparty/find_library.py
@@ -41,7 +41,9 @@ if os.name == "posix" and sys.platform.startswith("linux"):
 
         def _findlib_ldconfig(name):
             # XXX assuming GLIBC's ldconfig (with option -p)
-            expr = r"/[^\(\)\s]*lib%s\.[^\(\)\s]*" % re.escape(name)
+            # The name can be the one of the file (libx.so.1) or of the library (x)
+            expr = r"/[^\(\)\s]*(?:lib{0}\.[^\(\)\s]*|/{0}(?!\S))"
+            expr = expr.format(re.escape(name))
             res = re.search(expr, os.popen("/sbin/ldconfig -p 2>/dev/null").read())
             if not res:
                 # Hm, this works only for libs needed by the python executable.
-- 
2.43.0


From ca314e5e8b4bf959233732e025477595dd5cccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:47 +0000
Subject: [PATCH 58/92] fix: do not run the name of a library as a command

The name was given to the shell as it is: find_library('x; cmd') ran cmd.
---
 pyclibrary/thirdparty/find_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/thirdparty/find_library.py b/pyclibrary/thirdparty/find_library.py
index e363e7f..8dd96ba 100644
--- a/pyclibrary/thirdparty/find_library.py
+++ b/pyclibrary/thirdparty/find_library.py
@@ -13,6 +13,7 @@ if os.name == "posix" and sys.platform.startswith("linux"):
     def define_find_libary():
         import errno
         import re
+        import shlex
         import tempfile
 
         def _findlib_gcc(name):
@@ -21,7 +22,7 @@ if os.name == "posix" and sys.platform.startswith("linux"):
             os.close(fdout)
             cmd = (
                 "if type gcc >/dev/null 2>&1; then CC=gcc; else CC=cc; fi;"
-                "$CC -Wl,-t -o " + ccout + " 2>&1 -l" + name
+                "$CC -Wl,-t -o " + ccout + " 2>&1 -l" + shlex.quote(name)
             )
             trace = ""
             try:
-- 
2.43.0


From 7f28e3191751ca075bfada2858053fa59e32ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:49 +0000
Subject: [PATCH 59/92] fix: forget the libraries opened from the paths of
 their headers

The errors kept in the cache of pyparsing hold the stack of the constructor, so
that the wrapper stayed alive, and was given back for other headers, until
something else was parsed.
---
 pyclibrary/c_parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index aae5e99..a04be08 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1251,11 +1251,15 @@ class CParser(object):
         self.current_file = path
 
         parser = self.build_parser()
-        if return_unparsed:
-            text = parser.suppress().transformString(self.files[path])
-            return re.sub(r"\n\s*\n", "\n", text)
-        else:
-            return [x[0] for x in parser.scanString(self.files[path])]
+        try:
+            if return_unparsed:
+                text = parser.suppress().transformString(self.files[path])
+                return re.sub(r"\n\s*\n", "\n", text)
+            else:
+                return [x[0] for x in parser.scanString(self.files[path])]
+        finally:
+            # The errors kept in the cache refer to the callers of this method.
+            ParserElement.resetCache()
 
     def build_parser(self):
         """Builds the entire tree of parser elements for the C language (the
-- 
2.43.0


From ce04ebf63e6fb411a9f88489b26b497eebda390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 60/92] fix: lay out the structures which point to each other

---
 pyclibrary/backends/ctypes.py | 145 +++++++++++++++++++++-------------
 pyclibrary/c_library.py       |   2 +
 2 files changed, 94 insertions(+), 53 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index bc1173f..975b38d 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -172,17 +172,21 @@ class CTypesCLibrary(CLibrary):
 
         return obj.value
 
-    def _get_type(self, typ, pointers=True):  # noqa
+    def _get_type(self, typ, pointers=True, complete=True):  # noqa
         """Return a ctype object representing the named type.
 
         If pointers is True, the class returned includes all pointer/array
         specs provided. Otherwise, the class returned is just the base type
         with no pointers.
 
+        If complete is False, the size of a structure is not needed yet.
+
         """
         try:
             typ = list(self._headers_.eval_type(typ))
             mods = typ[1:][:]
+            # The structures pointed to can be completed later
+            complete = complete and all(isinstance(m, list) for m in mods)
 
             # Create the initial type
             # Some types like ['char', '*'] have a specific ctype (c_char_p)
@@ -202,9 +206,11 @@ class CTypesCLibrary(CLibrary):
 
             # structs, unions, enums:
             elif typ[0][:7] == "struct ":
-                cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])
+                name = self._defs_["types"][typ[0]][1]
+                cls = self._get_struct("structs", name, complete)
             elif typ[0][:6] == "union ":
-                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])
+                name = self._defs_["types"][typ[0]][1]
+                cls = self._get_struct("unions", name, complete)
             elif typ[0][:5] == "enum ":
                 cls = c_int
 
@@ -282,7 +288,11 @@ class CTypesCLibrary(CLibrary):
                         mkfn = CFUNCTYPE
 
                     # "(void)" means that there are no arguments
-                    args = [self._get_type(arg[1]) for arg in m if arg[1] != ("void",)]
+                    args = [
+                        self._get_type(arg[1], complete=False)
+                        for arg in m
+                        if arg[1] != ("void",)
+                    ]
                     cls = mkfn(cls, *args)
 
                 else:
@@ -308,22 +318,47 @@ class CTypesCLibrary(CLibrary):
                 return cls
         return None
 
-    def _get_struct(self, str_type, str_name):
-        # The classes are registered before being complete.
+    def _get_struct(self, str_type, str_name, complete=True):
+        """Return the class of a structure or union.
+
+        Structures can point to each other, hence the ones needed by others are
+        only completed at once if their size is needed.
+
+        """
         with self._make_lock_:
-            return self._make_struct(str_type, str_name)
+            if str_name not in self._structs_:
+                str_name = self._resolve_struct_alias(str_type, str_name)
 
-    def _make_struct(self, str_type, str_name):
-        if str_name not in self._structs_:
-            str_name = self._resolve_struct_alias(str_type, str_name)
-            if str_name in self._structs_:
-                return self._structs_[str_name]
+            if self._incomplete_ is not None:
+                cls = self._declare_struct(str_type, str_name)
+                if complete:
+                    self._complete_struct(str_name)
+                return cls
 
+            if str_name not in self._structs_:
+                known = set(self._structs_)
+                self._incomplete_ = {}
+                try:
+                    self._declare_struct(str_type, str_name)
+                    while self._incomplete_:
+                        self._complete_struct(next(iter(self._incomplete_)))
+                except Exception:
+                    # Do not leave behind classes with no fields.
+                    for n in set(self._structs_) - known:
+                        del self._structs_[n]
+                    raise
+                finally:
+                    self._incomplete_ = None
+
+            return self._structs_[str_name]
+
+    def _declare_struct(self, str_type, str_name):
+        """Return the class of a structure, whose fields may not be set yet."""
+        if str_name not in self._structs_:
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
             # create ctypes class
-            defs = defn["members"][:]
             if str_type == "structs":
 
                 class s(Structure):
@@ -337,49 +372,53 @@ class CTypesCLibrary(CLibrary):
 
             # Must register struct here to allow recursive definitions.
             self._structs_[str_name] = s
-
-            if defn["pack"] is not None:
-                s._pack_ = defn["pack"]
-
-            # Assign names to anonymous members
-            members = []
-            anon = []
-            for i, d in enumerate(defs):
-                if d[0] is None:
-                    # An unnamed bit field is only padding, whose name must not
-                    # hide an anonymous member of an enclosing structure.
-                    padding = len(d) >= 4
-                    c = 0
-                    while True:
-                        name = ("anon_padding%d" if padding else "anon_member%d") % c
-                        if name not in members:
-                            d = (name, *d[1:])
-                            defs[i] = d
-                            if not padding:
-                                anon.append(name)
-                            break
-                        c += 1
-                members.append(d[0])
-
-            s._anonymous_ = anon
-            # Handle bit field specifications, ctypes only supports bit fields
-            # for integer but I am not sure how to test for it in a nice
-            # fashion.
-            try:
-                s._fields_ = [
-                    (m[0], self._get_member_type(m[1]))
-                    if len(m) < 4
-                    else (m[0], self._get_member_type(m[1]), m[3])
-                    for m in defs
-                ]
-            except Exception:
-                # Do not leave behind a class with no fields.
-                del self._structs_[str_name]
-                raise
-            s._defaults_ = [m[2] for m in defs]
+            self._incomplete_[str_name] = defn
 
         return self._structs_[str_name]
 
+    def _complete_struct(self, str_name):
+        """Set the fields of a structure, if they are not."""
+        defn = self._incomplete_.pop(str_name, None)
+        if defn is None:
+            return
+
+        s = self._structs_[str_name]
+        defs = defn["members"][:]
+        if defn["pack"] is not None:
+            s._pack_ = defn["pack"]
+
+        # Assign names to anonymous members
+        members = []
+        anon = []
+        for i, d in enumerate(defs):
+            if d[0] is None:
+                # An unnamed bit field is only padding, whose name must not
+                # hide an anonymous member of an enclosing structure.
+                padding = len(d) >= 4
+                c = 0
+                while True:
+                    name = ("anon_padding%d" if padding else "anon_member%d") % c
+                    if name not in members:
+                        d = (name, *d[1:])
+                        defs[i] = d
+                        if not padding:
+                            anon.append(name)
+                        break
+                    c += 1
+            members.append(d[0])
+
+        s._anonymous_ = anon
+        # Handle bit field specifications, ctypes only supports bit fields
+        # for integer but I am not sure how to test for it in a nice
+        # fashion.
+        s._fields_ = [
+            (m[0], self._get_member_type(m[1]))
+            if len(m) < 4
+            else (m[0], self._get_member_type(m[1]), m[3])
+            for m in defs
+        ]
+        s._defaults_ = [m[2] for m in defs]
+
     def _get_member_type(self, typ):
         """Return a ctype object representing the type of a member."""
         typ = list(self._headers_.eval_type(typ))
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 1af2764..204ae0b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -206,6 +206,8 @@ class CLibrary(object, metaclass=CLibraryMeta):
             self._objs_[k] = {}
         self._all_objs_ = {}
         self._structs_ = {}
+        # Structures whose fields are still to be set, while one is made
+        self._incomplete_ = None
         self._unions_ = {}
 
     def __call__(self, typ, name):
-- 
2.43.0


From ec5070435279680e3386333ddce7bc77126f6643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 61/92] fix: tell the typedefs of structures from the ones of
 unions

---
 pyclibrary/backends/ctypes.py | 4 +---
 pyclibrary/c_library.py       | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 975b38d..be6ccfa 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -326,9 +326,7 @@ class CTypesCLibrary(CLibrary):
 
         """
         with self._make_lock_:
-            if str_name not in self._structs_:
-                str_name = self._resolve_struct_alias(str_type, str_name)
-
+            str_name = self._resolve_struct_alias(str_type, str_name)
             if self._incomplete_ is not None:
                 cls = self._declare_struct(str_type, str_name)
                 if complete:
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 204ae0b..cddf4b7 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -387,7 +387,7 @@ class CLibrary(object, metaclass=CLibraryMeta):
                 raise KeyError(mess.format(str_name))
 
             typ = self._headers_.eval_type([str_name])[0]
-            if typ[:7] != "struct " and typ[:6] != "union ":
+            if typ.partition(" ")[0] + "s" != str_type:
                 mess = 'No struct/union named "{}"'
                 raise KeyError(mess.format(str_name))
 
-- 
2.43.0


From 34d7f588b5e83ca777bbbbbf158e8d638f0208be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 62/92] fix: build arrays from any iterable of values

---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index be6ccfa..66c2b93 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -462,7 +462,7 @@ class CTypesCLibrary(CLibrary):
         for s in size[::-1]:
             new *= s
 
-        if vals:
+        if vals is not None:
             return new(*vals)
         else:
             return new()
-- 
2.43.0


From 96e43e05b6749fbbc070b999e3e86727bc517e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 63/92] fix: complete the structures of the arrays pointed to

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 66c2b93..34a12e2 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -186,7 +186,8 @@ class CTypesCLibrary(CLibrary):
             typ = list(self._headers_.eval_type(typ))
             mods = typ[1:][:]
             # The structures pointed to can be completed later
-            complete = complete and all(isinstance(m, list) for m in mods)
+            if mods:
+                complete = isinstance(mods[0], list) and mods != [[-1]]
 
             # Create the initial type
             # Some types like ['char', '*'] have a specific ctype (c_char_p)
-- 
2.43.0


From 1e21d86e396ca9721d459d85edccf3afe12d2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:21 +0000
Subject: [PATCH 64/92] fix: give the function pointers the address of the
 arrays

---
 pyclibrary/backends/ctypes.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 34a12e2..e13fee1 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -290,7 +290,7 @@ class CTypesCLibrary(CLibrary):
 
                     # "(void)" means that there are no arguments
                     args = [
-                        self._get_type(arg[1], complete=False)
+                        self._get_parameter_type(arg[1])
                         for arg in m
                         if arg[1] != ("void",)
                     ]
@@ -305,6 +305,26 @@ class CTypesCLibrary(CLibrary):
             logger.error("Error while processing type: {}".format(typ))
             raise
 
+    def _get_parameter_type(self, typ):
+        """Return a ctype object representing a parameter of a function pointer.
+
+        C passes the address of the arrays.
+
+        """
+        typ = list(self._headers_.eval_type(typ))
+        i = self._outer_dimension(typ)
+        if typ[i:]:
+            typ[i] = [-1]
+        return self._get_type(typ, complete=False)
+
+    @staticmethod
+    def _outer_dimension(typ):
+        """Return the index of the outermost dimension, if this is an array"""
+        i = len(typ)
+        while isinstance(typ[i - 1], list):
+            i -= 1
+        return i
+
     def _find_base_type(self, name):
         """Return the ctype of a base type or None if there is none.
 
@@ -421,10 +441,7 @@ class CTypesCLibrary(CLibrary):
     def _get_member_type(self, typ):
         """Return a ctype object representing the type of a member."""
         typ = list(self._headers_.eval_type(typ))
-        # Find the outermost dimension, if this is an array
-        i = len(typ)
-        while isinstance(typ[i - 1], list):
-            i -= 1
+        i = self._outer_dimension(typ)
         # A flexible array member takes no space (this is not a pointer)
         if typ[i:] and typ[i] == [-1]:
             typ[i] = [0]
-- 
2.43.0


From 8f91fc30a7613d623ee78d37109995b2e8b05a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:02 +0000
Subject: [PATCH 65/92] fix: accept the extra modifiers wherever qualifiers are

---
 pyclibrary/c_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a04be08..e3a7717 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1978,16 +1978,16 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         + Word(alphanums, alphanums + "_$")
         + WordEnd(wordchars)
     ).setParseAction(lambda t: t[0])
-    type_qualifier = ZeroOrMore(
-        (underscore_2_ident + Optional(nestedExpr())).suppress() | kwl(qualifiers)
-    )
+    type_qualifier = (underscore_2_ident + Optional(nestedExpr())).suppress()
+    if extra_modifiers:
+        extra_modifier = (kwl(extra_modifiers) + Optional(nestedExpr())).suppress()
+        type_qualifier = extra_modifier | type_qualifier
+    type_qualifier = ZeroOrMore(type_qualifier | kwl(qualifiers))
 
     storage_class_spec = Optional(kwl(storage_classes))
 
     if extra_modifiers:
-        extra_modifier = ZeroOrMore(
-            kwl(extra_modifiers) + Optional(nestedExpr())
-        ).suppress()
+        extra_modifier = ZeroOrMore(extra_modifier)
 
     else:
         extra_modifier = None
-- 
2.43.0


From 34e149dd61c213d4a01d1afcb7dabd8d119b5521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:32 +0000
Subject: [PATCH 66/92] fix: bind __int64 when initialised for Windows

---
 pyclibrary/backends/ctypes.py | 15 ++++++---------
 pyclibrary/init.py            |  3 ++-
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e13fee1..52f8fd0 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -491,12 +491,9 @@ class CTypesCLibrary(CLibrary):
         function.func.restype = function.res_type
 
 
+WIN_TYPES = {"__int64": c_longlong, "unsigned __int64": c_ulonglong}
 if sys.platform == "win32":
-    WIN_TYPES = {
-        "__int64": c_longlong,
-        "unsigned __int64": c_ulonglong,
-        "HRESULT": HRESULT,
-    }
+    WIN_TYPES["HRESULT"] = HRESULT
 
 
 def init_clibrary(extra_types={}):
@@ -546,10 +543,10 @@ def init_clibrary(extra_types={}):
 
     # The types given by the user are left as they are.
     extra_types = dict(extra_types)
-    if sys.platform == "win32":
-        for k in extra_types:
-            if k in WIN_TYPES:
-                extra_types[k] = WIN_TYPES[k]
+    if "__int64" in extra_types:
+        for k, cls in WIN_TYPES.items():
+            if extra_types.get(k) is None:
+                extra_types[k] = cls
 
     if sys.version_info >= (3, 12):
         extra_types.setdefault("time_t", c_time_t)
diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index 3dd52c7..b100327 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -43,6 +43,7 @@ def init(extra_types=None, extra_modifiers=None):
     CLibrary._init = True
 
 
+# The corresponding C types are known by the backends.
 WIN_TYPES = {"__int64": None}
 WIN_MODIFIERS = [
     "__based",
@@ -75,7 +76,7 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
     extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
-        extra_types.update(WIN_TYPES)
+        extra_types = {**WIN_TYPES, **extra_types}
         extra_modifiers += WIN_MODIFIERS
 
     init(extra_types, extra_modifiers)
-- 
2.43.0


From 20244dcbeb215a50131dbdd3474a55f424daf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:01 +0000
Subject: [PATCH 67/92] fix: initialise once when several threads do

---
 pyclibrary/init.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index b100327..d50f776 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -30,17 +30,18 @@ def init(extra_types=None, extra_modifiers=None):
         List of modifiers, such as '__stdcall'.
 
     """
-    if CParser._init or CLibrary._init:
-        raise RuntimeError("Can only initialise the parser once")
+    with CParser._init_lock:
+        if CParser._init or CLibrary._init:
+            raise RuntimeError("Can only initialise the parser once")
 
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+        extra_types = extra_types if extra_types else {}
+        extra_modifiers = extra_modifiers if extra_modifiers else []
 
-    _init_cparser(extra_types.keys(), extra_modifiers)
-    init_libraries(extra_types)
+        _init_cparser(extra_types.keys(), extra_modifiers)
+        init_libraries(extra_types)
 
-    CParser._init = True
-    CLibrary._init = True
+        CParser._init = True
+        CLibrary._init = True
 
 
 # The corresponding C types are known by the backends.
-- 
2.43.0


From 690e8d826213574a3f225a44e484e72dcd9b6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:18 +0000
Subject: [PATCH 68/92] fix: do not use the special pointers for the types
 redefined

---
 pyclibrary/backends/ctypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 52f8fd0..c10a40b 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -551,6 +551,13 @@ def init_clibrary(extra_types={}):
     if sys.version_info >= (3, 12):
         extra_types.setdefault("time_t", c_time_t)
 
+    # The special pointers do not point to the types the user redefines
+    CTypesCLibrary._ptr_types_ = {
+        k: cls
+        for k, cls in CTypesCLibrary._ptr_types_.items()
+        if extra_types.get(k) in (None, CTypesCLibrary._types_.get(k))
+    }
+
     # Now complete the list with some more exotic types
     CTypesCLibrary._types_.update(extra_types)
 
-- 
2.43.0


From 4c99e666d5d221fcd29b428a11950d4c4eb5e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:23 +0000
Subject: [PATCH 69/92] fix: let an enumerator be named self

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e3a7717..b202484 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -349,7 +349,7 @@ class Enum(dict):
 
     __slots__ = ()
 
-    def __init__(self, **args):
+    def __init__(self, /, **args):
         super(Enum, self).__init__(args)
 
     def __repr__(self):
-- 
2.43.0


From 37c657fe27fb60f967d44adf4181406c806ad5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:00 +0000
Subject: [PATCH 70/92] fix: print the packed structures without members

---
 pyclibrary/c_parser.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b202484..b14d3df 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -296,14 +296,10 @@ class Compound(dict):
         super(Compound, self).__init__({"members": members, "pack": pack})
 
     def __repr__(self):
-        packParam = ", pack=" + repr(self.pack) if self.pack is not None else ""
-        return (
-            type(self).__name__
-            + "("
-            + ", ".join(map(repr, self.members))
-            + packParam
-            + ")"
-        )
+        args = list(map(repr, self.members))
+        if self.pack is not None:
+            args.append("pack=" + repr(self.pack))
+        return type(self).__name__ + "(" + ", ".join(args) + ")"
 
     @property
     def members(self):
-- 
2.43.0


From e48ff7ef0d4981a08ed576afe5bbfc3f0c72d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:04 +0000
Subject: [PATCH 71/92] fix: only evaluate constant expressions

Any Python expression found in a header was evaluated, attribute accesses and
calls included.
---
 pyclibrary/c_parser.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b14d3df..eab041f 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -11,6 +11,7 @@ function signatures from C header files.
 
 """
 
+import ast
 import logging
 import os
 import re
@@ -62,6 +63,15 @@ __all__ = ["CParser", "win_defs"]
 #: Strings and character constants, in which no name is replaced.
 QUOTED = r"""("(\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
 
+#: What Python evaluates like C does, the rest is no constant expression.
+CONSTANT_NODES = (
+    *(ast.Expression, ast.Constant, ast.Name, ast.Load),
+    *(ast.UnaryOp, ast.unaryop, ast.BoolOp, ast.boolop),
+    *(ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod),
+    *(ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor),
+    *(ast.Compare, ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE),
+)
+
 
 def _derive(base_decls, base_quals, decls, quals):
     """Apply declarators (and their qualifiers) to an already derived type.
@@ -1742,10 +1752,18 @@ class CParser(object):
         cast = lparen + self.type_spec("type") + self.abstract_declarator + rparen
         # A constant between parentheses is not a cast
         cast.addCondition(lambda t: t["type"]["name"] not in self.defs["values"])
-        expr = (quotedString | number | cast.suppress()).transformString(expr)
+        expr = (quotedString | number | cast.suppress()).transformString(expr).strip()
         if expr == "":
             return None
-        return eval(expr, *args)
+        # Not everything Python understands is safe to evaluate
+        tree = ast.parse(expr, mode="eval")
+        for node in ast.walk(tree):
+            if not isinstance(node, CONSTANT_NODES) or (
+                isinstance(node, ast.Constant)
+                and type(node.value) not in (int, float, str)
+            ):
+                raise ValueError("Not a constant expression: " + expr)
+        return eval(compile(tree, "<constant>", "eval"), *args)
 
     def add_def(self, typ, name, val):
         """Add a definition of a specific type to both the definition set for
-- 
2.43.0


From 59a25b86a84c4ece8fb2fdf79104f7ee32882aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 72/92] fix: do not use the caches written before the
 corrections of the parser

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index eab041f..5feeb03 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -493,7 +493,8 @@ class CParser(object):
     #: Increment every time cache structure or parsing changes to invalidate
     #: old cache files.
     # 2 : add C99 integers
-    cache_version = 2
+    # 3 : many corrections of what is reported
+    cache_version = 3
 
     #: Private flag allowing to know if the parser has been initiliased.
     _init = False
-- 
2.43.0


From 22006ac7d17edb93e3767c6e653471fbe0a81342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 73/92] fix: keep the enumerators of an enumeration mentioned
 before, or defined again

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 5feeb03..750b274 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1576,7 +1576,7 @@ class CParser(object):
 
             logger.debug("  name: {}".format(name))
 
-            if name not in self.defs["enums"]:
+            if len(t.members) > 0 or name not in self.defs["enums"]:
                 i = 0
                 enum = {}
                 for v in t.members:
-- 
2.43.0


From 6da028cf0931a867d8a8cdb72f5a3f0bda70aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 74/92] fix: record in the cache the options used, whatever
 becomes of what was given

---
 pyclibrary/c_parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 750b274..52ded9e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -525,7 +525,8 @@ class CParser(object):
         # Description of the struct packing rules as defined by #pragma pack
         self.pack_list = {}
 
-        self.init_opts = kwargs.copy()
+        # What is given can change before the cache is written
+        self.init_opts = {t: dict(defs) for t, defs in kwargs.items()}
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
         if encoding != "utf-8":
@@ -574,7 +575,10 @@ class CParser(object):
                 copy_from = [copy_from]
             for p in copy_from:
                 self.import_dict(p.file_defs)
-            self.init_opts["copy_from"] = [p.file_defs for p in copy_from]
+            self.init_opts["copy_from"] = [
+                {f: {t: dict(fd[t]) for t in fd} for f, fd in p.file_defs.items()}
+                for p in copy_from
+            ]
 
         if process_all:
             self.process_all(cache=cache, check_cache_validity=check_cache_validity)
@@ -787,7 +791,12 @@ class CParser(object):
 
         self.file_order.append(path)
         bn = os.path.basename(path)
-        self.init_opts["replace"][bn] = replace
+        self.init_opts["replace"][bn] = None if replace is None else dict(replace)
+        # The order of the replacements matters
+        if replace:
+            self.init_opts.setdefault("replace_order", {})[bn] = list(replace)
+        if encoding != self.default_encoding:
+            self.init_opts.setdefault("encodings", {})[bn] = encoding
         # Only interested in the file names, the directory may change between
         # systems.
         self.init_opts["files"].append(bn)
-- 
2.43.0


From 19554847b1cb7fcda469bf91dbe82574894bf6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 75/92] fix: only evaluate constant expressions in the
 conditions

---
 pyclibrary/c_parser.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 52ded9e..40e8584 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -67,12 +67,27 @@ QUOTED = r"""("(\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
 CONSTANT_NODES = (
     *(ast.Expression, ast.Constant, ast.Name, ast.Load),
     *(ast.UnaryOp, ast.unaryop, ast.BoolOp, ast.boolop),
-    *(ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod),
+    *(ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod),
     *(ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor),
     *(ast.Compare, ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE),
 )
 
 
+def _eval_constant(expr, *args):
+    """Evaluate an expression, refusing what is no constant expression in C.
+
+    Not everything Python understands is safe to evaluate.
+
+    """
+    tree = ast.parse(expr, mode="eval")
+    for node in ast.walk(tree):
+        if not isinstance(node, CONSTANT_NODES) or (
+            isinstance(node, ast.Constant) and type(node.value) not in (int, float, str)
+        ):
+            raise ValueError("Not a constant expression: " + expr)
+    return eval(compile(tree, "<constant>", "eval"), *args)
+
+
 def _derive(base_decls, base_quals, decls, quals):
     """Apply declarators (and their qualifiers) to an already derived type.
 
@@ -1109,7 +1124,7 @@ class CParser(object):
         expr2 = macro_diffs.transformString(expr).strip()
 
         try:
-            ev = bool(eval(expr2))
+            ev = bool(_eval_constant(expr2))
         except Exception:
             mess = "Error evaluating preprocessor expression: {} [{}]\n{}"
             logger.debug(mess.format(expr, repr(expr2), format_exc()))
@@ -1765,15 +1780,7 @@ class CParser(object):
         expr = (quotedString | number | cast.suppress()).transformString(expr).strip()
         if expr == "":
             return None
-        # Not everything Python understands is safe to evaluate
-        tree = ast.parse(expr, mode="eval")
-        for node in ast.walk(tree):
-            if not isinstance(node, CONSTANT_NODES) or (
-                isinstance(node, ast.Constant)
-                and type(node.value) not in (int, float, str)
-            ):
-                raise ValueError("Not a constant expression: " + expr)
-        return eval(compile(tree, "<constant>", "eval"), *args)
+        return _eval_constant(expr, *args)
 
     def add_def(self, typ, name, val):
         """Add a definition of a specific type to both the definition set for
-- 
2.43.0


From b84f133cc6518ef22d8c988fa79f623ccdd90450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 76/92] fix: read the names made of a keyword and a dollar sign

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 40e8584..2d7552e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1860,7 +1860,7 @@ class CParser(object):
 
 def kwl(strs):
     """Generate a match-first list of keywords given a list of strings."""
-    return Regex(r"\b({})\b".format("|".join(strs)))
+    return Regex(r"\b({})(?![\w$])".format("|".join(strs)))
 
 
 def flatten(lst):
-- 
2.43.0


From 352bd4b9a65444a239ebaadbacb4a7afee2d03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 77/92] fix: write the caches at once, as others may read or
 write them

---
 pyclibrary/c_parser.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2d7552e..37146a2 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -17,7 +17,7 @@ import os
 import re
 import sys
 from inspect import cleandoc
-from threading import RLock
+from threading import RLock, get_ident
 from traceback import format_exc
 
 # Import parsing elements
@@ -765,8 +765,20 @@ class CParser(object):
         cache["version"] = self.cache_version
         import pickle
 
-        with open(cache_file, "wb") as f:
-            pickle.dump(cache, f)
+        data = pickle.dumps(cache)
+        # Replaced at once, as others may be reading or writing it
+        path = tmp = os.path.realpath(cache_file)
+        if os.path.isfile(path) or not os.path.exists(path):
+            tmp += ".{}-{}".format(os.getpid(), get_ident())
+        try:
+            with open(tmp, "wb") as f:
+                f.write(data)
+            if tmp != path:
+                os.replace(tmp, path)
+        except BaseException:
+            if tmp != path and os.path.isfile(tmp):
+                os.remove(tmp)
+            raise
 
     def find_headers(self, headers):
         """Try to find the specified headers."""
-- 
2.43.0


From a4f65c6556917a39f285a2131253e6700c4843ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 78/92] fix: do not write the cache of files edited while they
 were parsed

---
 pyclibrary/c_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 37146a2..c46dbe2 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -561,6 +561,8 @@ class CParser(object):
 
         self.file_order = []
         self.files = {}
+        # Modification times of the files when they were read
+        self.file_times = {}
 
         self.default_encoding = encoding
 
@@ -759,6 +761,12 @@ class CParser(object):
 
     def write_cache(self, cache_file):
         """Store all parsed declarations to cache. Used internally."""
+        # The cache would be newer than the files edited since they were read
+        for f, t in self.file_times.items():
+            if os.path.isfile(f) and os.stat(f).st_mtime != t:
+                logger.debug("File '{}' has changed: no cache written".format(f))
+                return
+
         cache = {}
         cache["opts"] = self.init_opts
         cache["file_defs"] = self.file_defs
@@ -836,6 +844,7 @@ class CParser(object):
             self.files[path] = None
             return False
 
+        self.file_times[path] = os.stat(path).st_mtime
         with open(path, "r", encoding=encoding) as fd:
             self.files[path] = fd.read()
 
-- 
2.43.0


From b5ad4e00ab6d93d40869a5229ffd69bbb58df71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:55 +0000
Subject: [PATCH 79/92] fix: evaluate expressions when the definitions come
 from a cache

---
 pyclibrary/c_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c46dbe2..465b99e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1795,6 +1795,8 @@ class CParser(object):
     def eval(self, expr, *args):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
+        # Not built yet when the definitions come from a cache
+        self.build_parser()
         cast = lparen + self.type_spec("type") + self.abstract_declarator + rparen
         # A constant between parentheses is not a cast
         cast.addCondition(lambda t: t["type"]["name"] not in self.defs["values"])
-- 
2.43.0


From 7be72cef7bd4c0d033d4ef3454464e8f9afa8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 80/92] fix: replace a macro by one of the same name with or
 without parameters

---
 pyclibrary/c_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 465b99e..6ec373f 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1156,6 +1156,13 @@ class CParser(object):
         """Parse a #define macro and register the definition."""
         logger.debug("Processing MACRO: {}".format(t))
         macro_val = t.value.strip()
+        # It also replaces a macro of the other form
+        is_fn = t.args != "" or macro_val in self.defs["fnmacros"]
+        old_kinds = ("macros", "values") if is_fn else ("fnmacros",)
+        if t.macro in self.defs[old_kinds[0]]:
+            for k in old_kinds:
+                self.rem_def(k, t.macro)
+
         if macro_val in self.defs["fnmacros"]:
             self.add_def("fnmacros", t.macro, self.defs["fnmacros"][macro_val])
             logger.debug("  Copy fn macro {} => {}".format(macro_val, t.macro))
-- 
2.43.0


From 9ee6f15a0351b891bdb33e3bcec10054f1f34f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 81/92] fix: concatenate the strings written one after the
 other in an expression

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6ec373f..32cc48a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2070,7 +2070,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
                 | number
-                | quotedString
+                | OneOrMore(quotedString)
             )
             | ("(" + expression + ")")
         )
-- 
2.43.0


From c5ed8eeb6c10de22b69cd36a4ff373028541a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 82/92] fix: report the variables initialised with an address

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 32cc48a..b7d2e92 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1954,7 +1954,7 @@ number = floating | integer
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-uni_left_operator = oneOf("++ -- - + * ~ ! sizeof new")
+uni_left_operator = oneOf("++ -- - + * & ~ ! sizeof new")
 wordchars = alphanums + "_$"
 name = WordStart(wordchars) + Word(alphas + "_", alphanums + "_$") + WordEnd(wordchars)
 size_modifiers = ["short", "long"]
-- 
2.43.0


From d18ace49af790004fd074a210015b197f6486f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:23 +0000
Subject: [PATCH 83/92] fix: understand casts to pointers and the size of a
 type in expressions

---
 pyclibrary/c_parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b7d2e92..32ea161 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2060,11 +2060,19 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
 
     # The casts are kept as only eval can tell them from constants between
     # parentheses.
+    type_name = (
+        type_qualifier
+        + Optional(kwl(["struct", "union", "enum"]))
+        + (fund_type | ident)
+        + type_qualifier
+        + ZeroOrMore("*" + type_qualifier)
+    )
     atom = Forward()
     atom << (
         ZeroOrMore(uni_left_operator)
         + (
-            "(" + (fund_type | ident) + ")" + atom
+            # The size of a type has nothing after the parentheses.
+            "(" + type_name + ")" + Optional(atom)
             | (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
                 | ident + OneOrMore("[" + expression + "]")
-- 
2.43.0


From c6583b0106d402873530f99d4fae77babc4c5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:10 +0000
Subject: [PATCH 84/92] fix: understand expressions as widths of bit fields

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 32ea161..62daf67 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1476,7 +1476,7 @@ class CParser(object):
                         delimitedList(
                             Group(
                                 Optional(self.declarator)("decl")
-                                + Optional(colon + integer("bit"))
+                                + Optional(colon + expression("bit"))
                             )
                         )
                     )("bit_list")
@@ -1719,7 +1719,7 @@ class CParser(object):
                         else:
                             member = [None, Type(typ["name"]), None]
                         if b.bit:
-                            member.append(int(b.bit, 0))
+                            member.append(self.eval_expr(b.bit))
                         struct.append(tuple(member))
                         logger.debug("      {}".format(member))
 
-- 
2.43.0


From 420b62154505f3455a8c89ec04a0d63b3aaf103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:39 +0000
Subject: [PATCH 85/92] fix: keep an enum with a value which is not known

---
 pyclibrary/c_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 62daf67..c7d5c1a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1639,7 +1639,11 @@ class CParser(object):
                             pass
                     enum[v.name] = i
                     self.add_def("values", v.name, i)
-                    i += 1
+                    try:
+                        i += 1
+                    except TypeError:
+                        # What follows an unknown value is unknown too
+                        i = None
                 logger.debug("  members: {}".format(enum))
                 self.add_def("enums", name, enum)
                 self.add_def("types", "enum " + name, Type("enum", name))
-- 
2.43.0


From 7c69164fac25b93547da3d583a97c0ba84be3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:08 +0000
Subject: [PATCH 86/92] fix: give no value to comparisons with what has none

---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c7d5c1a..7adccf8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -85,6 +85,9 @@ def _eval_constant(expr, *args):
             isinstance(node, ast.Constant) and type(node.value) not in (int, float, str)
         ):
             raise ValueError("Not a constant expression: " + expr)
+        # A name without value has none either when it is compared
+        if isinstance(node, ast.Name) and any(a.get(node.id, 0) is None for a in args):
+            raise ValueError("Not a constant expression: " + expr)
     return eval(compile(tree, "<constant>", "eval"), *args)
 
 
-- 
2.43.0


From 871632de960448f77e6eb7bc5f7e7f3ac3afe27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:16 +0000
Subject: [PATCH 87/92] fix: evaluate the character constants as numbers, like
 C

---
 pyclibrary/c_parser.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 7adccf8..ee3096d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1137,7 +1137,8 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            integer
+            char_const
+            | integer
             | Literal("!=")
             | Literal("!").setParseAction(lambda: " not ")
             | Literal("/").setParseAction(lambda: "//")
@@ -1814,7 +1815,10 @@ class CParser(object):
         cast = lparen + self.type_spec("type") + self.abstract_declarator + rparen
         # A constant between parentheses is not a cast
         cast.addCondition(lambda t: t["type"]["name"] not in self.defs["values"])
-        expr = (quotedString | number | cast.suppress()).transformString(expr).strip()
+        expr = (char_const | quotedString | number | cast.suppress()).transformString(
+            expr
+        )
+        expr = expr.strip()
         if expr == "":
             return None
         return _eval_constant(expr, *args)
@@ -1942,6 +1946,20 @@ rbrack = Literal("]").ignore(quotedString).suppress()
 lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
+
+# Character constants
+# They are numbers in C. Those of several characters depend on the compiler, so that
+# they are replaced by something which is no constant.
+def _char_value(t):
+    try:
+        (value,) = ast.literal_eval(t[0]).encode("ascii")
+    except (ValueError, SyntaxError):
+        return "None"
+    return str(value)
+
+
+char_const = Regex(r"'(\\.|[^'\\])+'").setParseAction(_char_value)
+
 # Numbers
 # The word boundaries prevent from matching the digits ending an identifier.
 int_strip = lambda t: t[0].rstrip("ULul")  # noqa
-- 
2.43.0


From ac329ec0f2bc0980fc68603a5458db6435fd57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:05 +0000
Subject: [PATCH 88/92] fix: evaluate the character constants with one
 hexadecimal digit

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ee3096d..0e0c9e6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1951,8 +1951,10 @@ rparen = Literal(")").ignore(quotedString).suppress()
 # They are numbers in C. Those of several characters depend on the compiler, so that
 # they are replaced by something which is no constant.
 def _char_value(t):
+    # Python wants two hexadecimal digits
+    text = re.sub(r"\\x([0-9a-fA-F]')", r"\\x0\1", t[0])
     try:
-        (value,) = ast.literal_eval(t[0]).encode("ascii")
+        (value,) = ast.literal_eval(text).encode("ascii")
     except (ValueError, SyntaxError):
         return "None"
     return str(value)
-- 
2.43.0


From 515939254b42c6b952e8ac1e132807718b34570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 89/92] fix: divide integers like C in constants and conditions

---
 pyclibrary/c_parser.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0e0c9e6..1281df5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -73,6 +73,35 @@ CONSTANT_NODES = (
 )
 
 
+def _c_div(a, b):
+    """Divide like C: integers give an integer, rounded towards zero."""
+    if not (isinstance(a, int) and isinstance(b, int)):
+        return a / b
+    quotient = abs(a) // abs(b)
+    return quotient if (a < 0) == (b < 0) else -quotient
+
+
+def _c_mod(a, b):
+    """Remainder of a division, which only integers have in C."""
+    if not (isinstance(a, int) and isinstance(b, int)):
+        raise TypeError("No remainder of {!r} and {!r}".format(a, b))
+    return a - b * _c_div(a, b)
+
+
+class _CDivisions(ast.NodeTransformer):
+    """Replace the divisions, whose result is not the same in C."""
+
+    #: Under names no expression can use
+    functions = {"/": _c_div, "%": _c_mod}
+
+    def visit_BinOp(self, node):
+        self.generic_visit(node)
+        if not isinstance(node.op, (ast.Div, ast.FloorDiv, ast.Mod)):
+            return node
+        name = ast.Name("%" if isinstance(node.op, ast.Mod) else "/", ast.Load())
+        return ast.Call(name, [node.left, node.right], [])
+
+
 def _eval_constant(expr, *args):
     """Evaluate an expression, refusing what is no constant expression in C.
 
@@ -88,7 +117,9 @@ def _eval_constant(expr, *args):
         # A name without value has none either when it is compared
         if isinstance(node, ast.Name) and any(a.get(node.id, 0) is None for a in args):
             raise ValueError("Not a constant expression: " + expr)
-    return eval(compile(tree, "<constant>", "eval"), *args)
+    tree = ast.fix_missing_locations(_CDivisions().visit(tree))
+    names = {"__builtins__": {}, **(args[0] if args else {}), **_CDivisions.functions}
+    return eval(compile(tree, "<constant>", "eval"), names, *args[1:])
 
 
 def _derive(base_decls, base_quals, decls, quals):
-- 
2.43.0


From bec2872088d507380e86d11152edf7793be221a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 90/92] fix: read the references of C++ at their place

---
 pyclibrary/c_parser.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1281df5..93cdac5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1400,12 +1400,10 @@ class CParser(object):
             type_qualifier("first_typequal")
             + call_conv
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
-            + (
-                # Empty parentheses are the ones of a function.
-                (~(lparen + rparen) + lparen + self.abstract_declarator + rparen)(
-                    "center"
-                )
-                | (Optional("&")("ref"))
+            + Optional("&")("ref")
+            # Empty parentheses are the ones of a function.
+            + Optional(~(lparen + rparen) + lparen + self.abstract_declarator + rparen)(
+                "center"
             )
             + Optional(
                 lparen
@@ -1431,10 +1429,8 @@ class CParser(object):
             type_qualifier("first_typequal")
             + call_conv
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
-            + (
-                (Optional("&")("ref") + ident("name"))
-                | (lparen + self.declarator + rparen)("center")
-            )
+            + Optional("&")("ref")
+            + (ident("name") | (lparen + self.declarator + rparen)("center"))
             + Optional(
                 lparen
                 + Optional(
@@ -1575,6 +1571,10 @@ class CParser(object):
             toks += ("*",) * len(decl["ptrs"])
             quals += map(tuple, decl["ptrs"])
 
+        if "ref" in decl:
+            toks.append("&")
+            quals.append(())
+
         if "arrays" in decl and len(decl["arrays"]) > 0:
             toks.extend([self.eval_expr(x)] for x in decl["arrays"])
             quals += [()] * len(decl["arrays"])
@@ -1593,10 +1593,6 @@ class CParser(object):
                     )
                 )
             quals.append(())
-        if "ref" in decl:
-            toks.append("&")
-            quals.append(())
-
         if "center" in decl:
             (n, t, q) = self.process_declarator(decl["center"][0])
             if n is not None:
-- 
2.43.0


From 4d129f75e6b7c574b0416a67a8269c27e783341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:47 +0000
Subject: [PATCH 91/92] fix: skip the inline and static functions of structures

---
 pyclibrary/c_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 93cdac5..be753a2 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1514,7 +1514,12 @@ class CParser(object):
                     + semi
                 )
             )
-            | (self.type_spec + self.declarator + nestedExpr("{", "}")).suppress()
+            | (
+                storage_class_spec
+                + self.type_spec
+                + self.declarator
+                + nestedExpr("{", "}")
+            ).suppress()
             | (self.declarator + nestedExpr("{", "}")).suppress()
         )
 
-- 
2.43.0


From ac2a1b1c86ae9f1fb706ff4b2f46a4cb4d56d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 92/92] fix: keep what was parsed when process_all is called
 again

---
 pyclibrary/c_parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index be753a2..c35d5b1 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -597,6 +597,8 @@ class CParser(object):
         self.files = {}
         # Modification times of the files when they were read
         self.file_times = {}
+        # Files which process_all has preprocessed
+        self.preprocessed = set()
 
         self.default_encoding = encoding
 
@@ -682,11 +684,14 @@ class CParser(object):
                 mess = 'Could not find header file "{}" or a cache file.'
                 raise IOError(mess.format(f))
 
-            logger.debug("Removing comments from file '{}'...".format(f))
-            self.remove_comments(f)
+            # Once preprocessed, a file has no directives left
+            if f not in self.preprocessed:
+                logger.debug("Removing comments from file '{}'...".format(f))
+                self.remove_comments(f)
 
-            logger.debug("Preprocessing file '{}'...".format(f))
-            self.preprocess(f)
+                logger.debug("Preprocessing file '{}'...".format(f))
+                self.preprocess(f)
+                self.preprocessed.add(f)
 
             if print_after_preprocess:
                 print("===== PREPROCSSED {} =======".format(f))
@@ -878,6 +883,7 @@ class CParser(object):
             self.files[path] = None
             return False
 
+        self.preprocessed.discard(path)
         self.file_times[path] = os.stat(path).st_mtime
         with open(path, "r", encoding=encoding) as fd:
             self.files[path] = fd.read()
-- 
2.43.0

