From 2c5daa57a2d61651af260627c359c9c6f20ab49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 01/35] fix: always save an error message if dlsym() returns
 NULL

---
 src/templates/c.c     | 6 +++++-
 src/templates/cxx.cpp | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index e9f57ca..e2a85f7 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -141,8 +141,12 @@ GDO_INLINE void _gdo_clear_error(void)
 /* save the last message provided by dlerror() */
 GDO_INLINE void _gdo_save_error(const gdo_char_t *msg)
 {
+    const char *err = dlerror();
+
     GDO_UNUSED_REF(msg);
-    _gdo_save_to_errbuf(dlerror());
+
+    /* there is no message if a symbol was found but its value is NULL */
+    _gdo_save_to_errbuf(err ? err : "unknown error");
 }
 
 /* sets the "no library was loaded" error message */
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 73b87e2..77783c5 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -339,7 +339,9 @@ void gdo::dl::clear_error()
 void gdo::dl::save_error(const std::string&)
 {
     const char *ptr = ::dlerror();
-    m_errmsg = ptr ? ptr : "";
+
+    /* there is no message if a symbol was found but its value is NULL */
+    m_errmsg = ptr ? ptr : "unknown error";
 }
 
 
-- 
2.43.0


From e82145da0706897014ed9c20000e6480dd5ea18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 02/35] fix: save an error message if the library path is too
 long

---
 src/templates/c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index e2a85f7..b6796e1 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -823,6 +823,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     size_t len = strlen(lm->l_name) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
@@ -862,6 +863,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
     size_t len = strlen(path) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
-- 
2.43.0


From 682668060a3f87c8657fdcc85a2b34ad6cc5993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 03/35] fix: don't use the default library name as part of a
 format string

---
 src/templates/c.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index b6796e1..f76731b 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -887,24 +887,22 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
 void _gdo_noop(void) {}
 #endif
 
-GDO_INLINE void _gdo_print_error(const gdo_char_t *fmt, const gdo_char_t *sym, const gdo_char_t *msg)
+GDO_INLINE void _gdo_print_error(const gdo_char_t *pfx, const gdo_char_t *sym, const gdo_char_t *msg)
 {
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
      * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, sym, msg);
+    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, _T("%s: %s: %s"), pfx, sym, msg);
     MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
 # else
-    _ftprintf_s(stderr, fmt, sym, msg);
-    _fputtc(_T('\n'), stderr);
+    _ftprintf_s(stderr, _T("%s: %s: %s\n"), pfx, sym, msg);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
 
-    fprintf(stderr, fmt, sym, msg);
-    fputc('\n', stderr);
+    fprintf(stderr, "%s: %s: %s\n", pfx, sym, msg);
 
 #endif //!_WIN32
 }
@@ -946,9 +944,9 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 
     if (_gdo_tcsstr(msg, GDO_DEFAULT_LIB)) {
         /* library name is already part of error message */
-        _gdo_print_error(_T("error: %s: %s"), sym, msg);
+        _gdo_print_error(_T("error"), sym, msg);
     } else {
-        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB, sym, msg);
     }
 
     gdo_force_free_lib();
@@ -965,7 +963,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     }
 
     GDO_UNUSED_REF(load);
-    _gdo_print_error(_T("fatal error: %s: %s"), sym, msg);
+    _gdo_print_error(_T("fatal error"), sym, msg);
 
     abort();
 
-- 
2.43.0


From bedaad4503296ab3fc7ca1ba56feab5d339246a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 04/35] fix: don't alias wrapped functions if
 GDO_WRAP_VISIBILITY is defined

---
 src/templates/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index f76731b..bad7593 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -979,7 +979,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     !defined(GDO_DISABLE_ALIASING)
 
 /* aliases to raw function pointers */
-#if !defined(GDO_WRAP_IS_VISIBLE)
+#if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
 #endif
 
-- 
2.43.0


From 704032edb1f1a4e552baff1deb662b259b9b2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 05/35] fix: check for allocation failures in the plugin loader

---
 src/templates/plugin.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/templates/plugin.c b/src/templates/plugin.c
index 449afa7..e2a18ed 100644
--- a/src/templates/plugin.c
+++ b/src/templates/plugin.c
@@ -2,6 +2,7 @@
 /*                            C plugin loader API                            */
 /*****************************************************************************/
 
+#include <stdlib.h>
 #include <string.h>
 
 #ifdef GDO_WINAPI
@@ -33,9 +34,19 @@ GDO_LINKAGE gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
 
     /* allocate struct */
     gdo_plugin_t *plug = (gdo_plugin_t *)malloc(sizeof(gdo_plugin_t));
+
+    if (!plug) {
+        return NULL;
+    }
+
     plug->num = num;
     plug->list = (gdo_handle_t *)calloc(num, sizeof(gdo_handle_t));
 
+    if (!plug->list) {
+        free(plug);
+        return NULL;
+    }
+
     for (size_t i = 0; i < num; i++) {
         if (!files[i] || *files[i] == 0) {
             /* empty filename */
@@ -45,6 +56,11 @@ GDO_LINKAGE gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
         /* copy filename first */
         plug->list[i].filename = GDO_STRDUP(files[i]);
 
+        if (!plug->list[i].filename) {
+            gdo_release_plugins(plug);
+            return NULL;
+        }
+
         /* load plugin */
         if ((plug->list[i].handle = GDO_LOAD_LIB(files[i])) == NULL) {
             continue;
-- 
2.43.0


From 15212f90d9f508f9a24b7c43d8fd8f19dcb00aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 06/35] fix: don't leak the library handle if the minimal
 loaders are used again

---
 src/templates/minimal.h         | 3 +++
 src/templates/minimal_cxxeh.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index ab29a3d..38269c3 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -68,6 +68,9 @@ GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
         return "filename is empty";
     }
 
+    /* free a previously loaded library */
+    gdo_free_library();
+
     /* load library */
 #ifdef GDO_WINAPI
     gdo_hndl.handle = LoadLibraryA(filename);
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index de7df4d..41d95cc 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -107,6 +107,9 @@ namespace gdo
             throw LibraryError("<EMPTY>");
         }
 
+        /* free a previously loaded library */
+        free_library();
+
         /* load library */
 #ifdef GDO_WINAPI
         handle = ::LoadLibraryA(filename);
-- 
2.43.0


From 012eb64ddfc35144c194bdb5c46c220924e8fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 07/35] fix: don't report the cached path of a library that was
 replaced through another object

---
 src/templates/cxx.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 77783c5..a0309fd 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -255,11 +255,7 @@ template<typename T>
 void gdo::dl::get_library_path(std::basic_string<T> &path)
 {
     clear_error();
-
-    /* was the library path already saved? */
-    if (!path.empty()) {
-        return;
-    }
+    path.clear();
 
     if (!lib_loaded()) {
         set_error_invalid_handle();
@@ -955,11 +951,6 @@ std::string gdo::dl::library_path()
         return {};
     }
 
-    /* was the library path already saved? */
-    if (!m_libpath.empty()) {
-        return m_libpath;
-    }
-
 #if defined(GDO_DLFCN_WIN32) || defined(_AIX)
     if (get_library_path()) {
         return m_libpath;
-- 
2.43.0


From ad3607ff428e2c613108f6eacdaa2fec3b3bacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 08/35] fix: minimal C header doesn't compile with GDO_STATIC

---
 src/templates/minimal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index 38269c3..b4c322f 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -7,8 +7,10 @@
 
 #ifdef GDO_STATIC
 # define GDO_LINKAGE  static inline
+# define GDO_OBJ_LINKAGE  static
 #else
 # define GDO_LINKAGE  /**/
+# define GDO_OBJ_LINKAGE  /**/
 #endif
 
 
@@ -29,7 +31,7 @@ typedef struct gdo_handle
 
 } gdo_handle_t;
 
-GDO_LINKAGE gdo_handle_t gdo_hndl;
+GDO_OBJ_LINKAGE gdo_handle_t gdo_hndl;
 
 
 /**
-- 
2.43.0


From 731bf58b32bf3e3c0db6183fd66e595dd3eb0218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 09/35] fix: alias variable arguments macros if
 GDO_WRAP_VISIBILITY is defined

---
 src/templates/c.c | 5 +++++
 src/templates/c.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index bad7593..bd035a6 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -981,6 +981,11 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 /* aliases to raw function pointers */
 #if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
+#elif !defined(GDO_BUILTIN_VA_ARG_PACK)
+/* variable arguments wrapped in a macro */
+# ifdef GDO_HAS_VA_ARGS_%%func_symbol%%@
+#  define %%func_symbol%% GDO_FUNC_ALIAS(%%func_symbol%%)@
+# endif
 #endif
 
 /* aliases to raw object pointers */
diff --git a/src/templates/c.h b/src/templates/c.h
index 2b2626f..65eae12 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -294,6 +294,11 @@ GDO_DECL void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *s
 /* function name aliases */
 #if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
+#elif !defined(GDO_BUILTIN_VA_ARG_PACK)
+/* variable arguments wrapped in a macro */
+# ifdef GDO_HAS_VA_ARGS_%%func_symbol%%@
+#  define %%func_symbol%% GDO_FUNC_ALIAS(%%func_symbol%%)@
+# endif
 #endif
 
 /* object name aliases */
-- 
2.43.0


From 8e0da744655a8871d63659b117e9f6690d4f4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 10/35] fix: C++ loader doesn't compile with const objects

---
 src/templates/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index a0309fd..d4e3e61 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -426,7 +426,7 @@ bool gdo::dl::get_library_path(void)
         auto info = reinterpret_cast<struct ld_info *>(buf);
 
         if (false
-            || aix_libpath(info, reinterpret_cast<uint8_t *>(GDO_RAWPTR_%%symbol%%))
+            || aix_libpath(info, (uint8_t *)GDO_RAWPTR_%%symbol%%)
         ) {
             return true;
         }
@@ -482,7 +482,7 @@ bool gdo::dl::get_library_path_dladdr(void)
     }
 
     if (false
-        || _gdo_call_dladdr(reinterpret_cast<void *>(GDO_RAWPTR_%%symbol%%), &info)
+        || _gdo_call_dladdr((const void *)GDO_RAWPTR_%%symbol%%, &info)
     ) {
         m_libpath = info.dli_fname;
         return true;
-- 
2.43.0


From 072ce7f3934b33c0bfc389ceb01e2f3dcb3091b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 11/35] fix: -param=create with variable arguments

---
 src/parameter_names.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5599122..28694d6 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -239,8 +239,7 @@ bool parse::create_parameter_names(proto_t &proto, std::string &msg)
 
         /* don't append anything to `...' */
         if (v.size() == 1 && v.front() == "...") {
-            proto.args += "... , ";
-            proto.param_names += "... , ";
+            proto.args += "..., ";
             continue;
         }
 
-- 
2.43.0


From 08c7c5b0cd3a45196cbd3059d80b7110ea9da70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 12/35] fix: report exceptions of the standard library instead
 of terminating

-force with -out naming a non-empty directory ended in std::terminate()
---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index cc032bf..2f8aec6 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <exception>
 #include <iostream>
 #include <string>
 #ifdef _WIN32
@@ -66,6 +67,11 @@ int main(int argc, char **argv)
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
         return 1;
     }
+    catch (const std::exception &e) {
+        /* thrown by the standard library (filesystem, regex, memory, etc.) */
+        std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 75cf511e313dc1f5422b9e31dda49cba5faeab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 13/35] fix: default library names beginning with n, e or a
 were silently dropped

format_libname() returned nothing if the name only shared its first letter
with a mode; an incomplete api: specification is an error now
---
 src/generate.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 277aa3a..6d17391 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -160,7 +160,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             lib_a = lib_w = str.substr(3);
             break;
         }
-        return {};
+        [[fallthrough]];
 
     case 'E':
     case 'e':
@@ -171,7 +171,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
             break;
         }
-        return {};
+        [[fallthrough]];
 
     case 'A':
     case 'a':
@@ -187,8 +187,10 @@ std::string format_libname(const std::string &str, const std::string &pfx)
                 lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
                 break;
             }
+
+            throw gendlopen::error("library name does not match `api:<number>:<name>': " + str);
         }
-        return {};
+        [[fallthrough]];
 
     default:
         /* quote string */
-- 
2.43.0


From d6acc311d31e7707f7b223df6a178a34b3298c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 14/35] fix: functions and objects of struct, union or enum
 type were silently dropped

Only skip definitions and forward declarations; report a block that is not closed
---
 src/tokenize.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index c3ae8a7..8d4c05e 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -58,6 +58,7 @@ namespace /* anonymous */
         vstring_t tokens;
         bool loop = true;
         bool block = false;
+        bool tagged = false;
         int curly_count = 0;
 
         while (loop)
@@ -91,6 +92,7 @@ namespace /* anonymous */
                 case LEX_SEMICOLON:
                     if (curly_count < 1) {
                         block = false;
+                        tagged = false;
                         tokens.clear();
                     }
                     break;
@@ -122,6 +124,12 @@ namespace /* anonymous */
                 case LEX_STRUCT:
                 case LEX_UNION:
                 case LEX_ENUM:
+                    /* a definition, a forward declaration or
+                     * the return type of a prototype */
+                    tagged |= tokens.empty();
+                    tokens.push_back(lex::text());
+                    break;
+
                 case LEX_TYPEDEF:
                     if (tokens.empty()) {
                         block = true;
@@ -134,6 +142,15 @@ namespace /* anonymous */
 
                 /* {}= */
                 case LEX_CURLY_OPEN:
+                    if (tagged) {
+                        /* struct, union or enum definition */
+                        block = true;
+                        curly_count = 1;
+                        tokens.clear();
+                        break;
+                    }
+                    [[fallthrough]];
+
                 case LEX_CURLY_CLOSE:
                 case LEX_EQUAL:
                     lex::set_illegal_char();
@@ -143,10 +160,12 @@ namespace /* anonymous */
 
                 /* end of prototype declaration */
                 case LEX_SEMICOLON:
-                    if (!tokens.empty()) {
+                    /* ignore forward declaration (`struct foo;') */
+                    if (!tokens.empty() && !(tagged && tokens.size() == 2)) {
                         vec.push_back(tokens);
-                        tokens.clear();
                     }
+                    tokens.clear();
+                    tagged = false;
                     break;
 
                 /* "%option" line */
@@ -164,8 +183,13 @@ namespace /* anonymous */
             }
         } /* end of loop body */
 
+        /* everything up to the end of the input would be ignored */
+        if (block && curly_count > 0 && rv != LEX_ERROR) {
+            throw gendlopen::error("unterminated struct, union, enum or typedef block");
+        }
+
         /* push back if last prototype didn't end on semicolon */
-        if (!tokens.empty()) {
+        if (!tokens.empty() && !(tagged && tokens.size() == 2)) {
             vec.push_back(tokens);
         }
 
-- 
2.43.0


From 242e48fb45afd48e4e400db0005df880ecec004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 15/35] fix: check for errors when writing files and standard
 output

A full disk or /dev/full went unnoticed and the exit status was 0
---
 src/cio_ofstream.cpp |  8 +++++++-
 src/cio_ofstream.hpp |  3 ++-
 src/data.cpp         |  4 ++++
 src/gendlopen.cpp    |  6 ++++++
 src/gendlopen.hpp    |  3 +++
 src/generate.cpp     | 12 +++++++++++-
 src/options.cpp      | 18 ++++++++++++++----
 7 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index a531de6..061187a 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -52,13 +52,19 @@ bool ofstream::open(const std::string &file)
     return open_path(file);
 }
 
-void ofstream::close()
+bool ofstream::close()
 {
+    /* flush STDOUT or the file */
+    bool ok = !m_optr->flush().fail();
+
     if (m_ofs.is_open()) {
         m_ofs.close();
+        ok = ok && !m_ofs.fail();
     }
 
     m_optr = &std::cout;
+
+    return ok;
 }
 
 } /* namespace cio */
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 400aebe..756ef98 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -64,7 +64,8 @@ public:
     bool open(const std::filesystem::path &path);
     bool open(const std::string &file);
 
-    void close();
+    /* returns false if not all data could be written */
+    bool close();
 
     /* overloading "<<" operator */
     template<class T>
diff --git a/src/data.cpp b/src/data.cpp
index c3d0dd3..2cf12bd 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -129,6 +129,10 @@ namespace /* anonymous */
                 ofs << '\n';
             }
         }
+
+        if (!ofs.close()) {
+            throw gendlopen::error(std::string("failed to write file: ") + path);
+        }
     }
 }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index cb8a80a..8db09ea 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -210,6 +210,8 @@ void gendlopen::process_custom_template()
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
+
+    save::close_ofstream(m_output);
 }
 
 
@@ -249,5 +251,9 @@ void gendlopen::print_symbols_to_stdout()
     }
 
     std::cout << "\n/***  " << (m_objects.size() + m_prototypes.size()) << " matches  ***/" << std::endl;
+
+    if (!out.close()) {
+        throw error("failed to write to standard output");
+    }
 }
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index e3052d2..60ba544 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -40,6 +40,9 @@ namespace save
 
     /* open output file stream for writing */
     void open_ofstream(const std::filesystem::path &opath, bool force);
+
+    /* close output file stream or flush STDOUT */
+    void close_ofstream(const std::filesystem::path &opath);
 }
 
 
diff --git a/src/generate.cpp b/src/generate.cpp
index 6d17391..87dbbff 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -372,6 +372,14 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 }
 
+/* close output file stream or flush STDOUT */
+void close_ofstream(const fs::path &opath)
+{
+    if (!ofs.close()) {
+        throw gendlopen::error("failed to write output: " + opath.string());
+    }
+}
+
 size_t line_directive(const size_t lines, bool line_directive, const std::string &header_name)
 {
     if (!line_directive) {
@@ -521,7 +529,7 @@ void gendlopen::generate()
     lines += save::line_directive(lines, m_line_directive, header_name);
     save::header_guard_end(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    save::ofs.close();
+    save::close_ofstream(use_stdout ? fs::path("-") : ofhdr);
 
 
     /**************** body data ****************/
@@ -533,6 +541,8 @@ void gendlopen::generate()
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
+
+        save::close_ofstream(ofbody);
     }
 }
 
diff --git a/src/options.cpp b/src/options.cpp
index ae2fa63..3ca9ba7 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -62,6 +62,16 @@ namespace /* anonymous */
         return NULL;
     }
 
+    /* exit after printing to STDOUT */
+    [[noreturn]] void exit_success()
+    {
+        if (std::cout.flush().fail()) {
+            throw gendlopen::error("failed to write to standard output");
+        }
+
+        std::exit(0);
+    }
+
     template<size_t N>
     bool get_option(const std::string &token, const char *&ptr, char const (&opt)[N])
     {
@@ -93,17 +103,17 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             }
         } else if (o.flag("?") || o.flag("help")) {
             help::print(argv[0]);
-            std::exit(0);
+            exit_success();
         } else if (o.flag("full-help")) {
             help::print_full(argv[0]);
-            std::exit(0);
+            exit_success();
         } else if (o.flag("ast-all-symbols")) {
             ast_all_symbols(true);
         } else if (o.arg(p, "D")) {
             add_def(p);
         } else if (o.arg(p, "dump-templates")) {
             dump_templates(p);
-            std::exit(0);
+            exit_success();
         } else if (o.arg(p, "format")) {
             format(p);
         } else if (o.flag("force")) {
@@ -140,7 +150,7 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             templates_path(p);
         } else if (o.flag("version")) {
             std::cout << "gendlopen " << gendlopen::version() << std::endl;
-            std::exit(0);
+            exit_success();
         } else {
             throw gendlopen::error_cmd(std::string("unknown option: ") + o.current());
         }
-- 
2.43.0


From d740a0746d921d515be587ec87c6ba1c7c1453c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 16/35] fix: report errors when reading template files

A directory given as template produced empty output
---
 src/data.cpp      | 4 ++++
 src/gendlopen.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index 2cf12bd..0e86384 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -95,6 +95,10 @@ namespace /* anonymous */
             data.push_back(entry);
         }
 
+        if (::ferror(fp)) {
+            throw gendlopen::error("failed to read file: " + path);
+        }
+
         entry = { {}, 0, 0 };
         data.push_back(entry);
     }
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 8db09ea..140a609 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -211,6 +211,10 @@ void gendlopen::process_custom_template()
         m_substitute_lineno += entry.line_count;
     }
 
+    if (::ferror(fp)) {
+        throw error("failed to read file: " + m_custom_template);
+    }
+
     save::close_ofstream(m_output);
 }
 
-- 
2.43.0


From b91229cc55ff1beb760f18f7bc84bc9888a558d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 17/35] fix: external license.h and filename_macros.h templates
 were not used

The pointer was evaluated before the templates were loaded; with separate output
files it was also left dangling when license.h was loaded again
---
 src/data.cpp      | 3 +++
 src/gendlopen.hpp | 2 +-
 src/generate.cpp  | 5 ++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index 0e86384..f1f2aac 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -74,6 +74,9 @@ namespace /* anonymous */
 
         FILE *fp = ofs.file_pointer();
 
+        /* a template may be loaded more than once */
+        data.clear();
+
         template_t entry;
         entry.maybe_keyword = false;
         entry.line_count = 1;
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index 60ba544..ef90b11 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -109,7 +109,7 @@ private:
     void dump_templates(const char *dir);
 
     /* generate.cpp */
-    size_t save_data(templates::name file, const template_t *list);
+    size_t save_data(templates::name file, const template_t *&ptr);
 
     /* substitute.cpp */
     size_t replace_function_prototypes(const std::string &entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index 87dbbff..6e22d30 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -397,12 +397,15 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
 
 /* save data, replace prefixes, return line count */
-size_t gendlopen::save_data(templates::name file, const template_t *list)
+size_t gendlopen::save_data(templates::name file, const template_t *&ptr)
 {
     size_t total_lines = 0;
 
+    /* may change the pointer */
     load_template(file);
 
+    const template_t *list = ptr;
+
     /* skip initial line directive */
     if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
         list++;
-- 
2.43.0


From bdca9365aaa182d0317330b35751535b7a75c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 18/35] fix: wrong line numbers in #line directives

Removed template lines were counted twice, the extra defines and headers
were attributed to the wrong file and external templates were off by one.
---
 src/data.cpp       | 2 +-
 src/generate.cpp   | 2 ++
 src/substitute.cpp | 8 ++++----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index f1f2aac..bf08831 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -86,7 +86,7 @@ namespace /* anonymous */
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
             } else {
-                entry.data = "#line 1 \"" + std::string(file) + "\"\n";
+                entry.data = "#line 1 \"" + std::string(file) + '"';
             }
 
             data.push_back(entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index 6e22d30..9c97d1e 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -523,6 +523,8 @@ void gendlopen::generate()
     lines += save::header_guard_begin(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
     lines += save_data(templates::file_filename_macros, templates::ptr_filename_macros);
+
+    lines += save::line_directive(lines, m_line_directive, header_name);
     lines += save::extra_defines(m_defines);
     lines += save::includes(m_includes, is_cxx);
     lines += save::typedefs(m_typedefs);
diff --git a/src/substitute.cpp b/src/substitute.cpp
index 7fd47a3..7ea4ac8 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -269,13 +269,13 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
     /* print #line directive to make sure the line count is on par */
     auto print_lineno = [&, this] () -> size_t
     {
-        const size_t entry_lines = utils::count_linefeed(buf);
-
         if (m_line_directive) {
-            save::ofs << "#line " << (m_substitute_lineno + entry_lines) << '\n';
+            /* number of the next template line */
+            save::ofs << "#line " << (m_substitute_lineno + line.line_count) << '\n';
+            return 1; /* 1 line */
         }
 
-        return entry_lines;
+        return 0; /* no line */
     };
 
     auto find_keyword = [&buf] (const list_t &list) -> char {
-- 
2.43.0


From a844aa0a6e411768c082d0e26975edd7f4624c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 19/35] fix: symbols matching both -P and -S

A symbol from a Clang AST that was selected by prefix was reported as not
found if it was on the symbol list too, and a regular input file didn't
keep the input order.
---
 src/clang_ast.cpp |  5 +++--
 src/parse.cpp     | 23 +++++++++++------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 26c8cee..0eebff3 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -184,8 +184,9 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
 
     case filter::pfx_list:
-        if (!utils::is_prefixed(proto.symbol, m_prefix_list) &&
-            std::erase(m_symbol_list, proto.symbol) == 0) /* erase from list if found */
+        /* erase from list if found, even if the prefix matches too */
+        if (std::erase(m_symbol_list, proto.symbol) == 0 &&
+            !utils::is_prefixed(proto.symbol, m_prefix_list))
         {
             return 0;
         }
diff --git a/src/parse.cpp b/src/parse.cpp
index 98cdea4..ac8d26b 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -334,22 +334,21 @@ void gendlopen::parse(std::vector<vstring_t> &vec_tokens, const std::string &inp
             save_symbol(e);
         }
     } else {
-        if (mode & filter::prefix) {
-            for (auto &e : vproto) {
-                if (utils::is_prefixed(e.symbol, m_prefix_list)) {
-                    save_symbol(e);
-                }
-            }
-        }
+        /* copy matching symbols in input order */
+        for (auto &e : vproto) {
+            bool found = (mode & filter::prefix) && utils::is_prefixed(e.symbol, m_prefix_list);
 
-        if (mode & filter::list) {
             /* erase from list if found */
-            for (auto &e : vproto) {
-                if (std::erase(m_symbol_list, e.symbol) > 0) {
-                    save_symbol(e);
-                }
+            if ((mode & filter::list) && std::erase(m_symbol_list, e.symbol) > 0) {
+                found = true;
             }
 
+            if (found) {
+                save_symbol(e);
+            }
+        }
+
+        if (mode & filter::list) {
             /* throw an error if not all symbols on the list were found */
             if (!m_symbol_list.empty()) {
                 std::string s;
-- 
2.43.0


From 0d9a992c51ab29ca226fa1f7b79294869bd12acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 20/35] fix: Clang AST variable arguments and macro definitions
 without name were silently dropped

---
 src/clang_ast.cpp | 22 ++++++++++++++++++++++
 src/gendlopen.cpp | 10 ++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 0eebff3..f2d45d4 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -129,6 +129,24 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     return true;
 }
 
+
+/* check for variable arguments: `(type, ...)' */
+bool is_variadic(const std::string &params)
+{
+    int scope = 0;
+    size_t pos = 0;
+
+    for ( ; pos < params.size(); pos++) {
+        if (params[pos] == '(') {
+            scope++;
+        } else if (params[pos] == ')' && --scope == 0) {
+            break;
+        }
+    }
+
+    return params.substr(0, pos).ends_with(", ...");
+}
+
 } /* end anonymous namespace */
 
 
@@ -220,6 +238,10 @@ int gendlopen::get_declarations(filter::mode mode)
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
+        if (is_variadic(m.str(2).substr(pos))) {
+            proto.args += ", ...";
+        }
+
         m_prototypes.push_back(std::move(proto));
 
         /* continue to analyze the current line stored in yytext buffer */
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 140a609..6ff6875 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -75,11 +75,13 @@ void gendlopen::add_def(const std::string &def)
 
     utils::strip_spaces(name);
 
-    if (!name.empty()) {
-        m_defines += "#ifndef "  + name + '\n';
-        m_defines += "# define " + name + value + '\n';
-        m_defines += "#endif\n";
+    if (name.empty()) {
+        throw error("macro name missing: " + def);
     }
+
+    m_defines += "#ifndef "  + name + '\n';
+    m_defines += "# define " + name + value + '\n';
+    m_defines += "#endif\n";
 }
 
 
-- 
2.43.0


From 03bc5311e8f0e92a7c8765fd1aa8b46232762685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 21/35] fix: use redeclared symbols from a Clang AST only once

---
 src/clang_ast.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index f2d45d4..9b17f24 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -54,6 +54,7 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 ***/
 
 #include <stddef.h>
+#include <algorithm>
 #include <regex>
 #include <string>
 #include <vector>
@@ -186,6 +187,17 @@ int gendlopen::get_declarations(filter::mode mode)
     proto.saved     = false;
     proto.symbol    = m.str(1);
 
+    /* a symbol may be declared more than once */
+    auto is_redeclared = [&proto] (const vproto_t &v) {
+        return std::any_of(v.begin(), v.end(), [&proto] (const proto_t &e) {
+            return e.symbol == proto.symbol;
+        });
+    };
+
+    if (is_redeclared(m_prototypes) || is_redeclared(m_objects)) {
+        return 0;
+    }
+
     switch (mode)
     {
     case filter::prefix:
-- 
2.43.0


From 48608d9e530be97beb36fd38689d287978507fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 22/35] fix: don't pass negative values to character
 classification functions

---
 src/lex.l     |  2 +-
 src/lex.yy.c  |  2 +-
 src/parse.hpp |  2 +-
 src/utils.cpp | 12 ++++++------
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 351f667..fa9c519 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -148,7 +148,7 @@ void set_illegal_char()
     const char *fmt = "illegal character [%c] at line %d";
     unsigned char c = (unsigned char)*yytext;
 
-    if (!isgraph((int)*yytext)) {
+    if (!isgraph(c)) {
         fmt = "illegal character [0x%02X] at line %d";
     }
 
diff --git a/src/lex.yy.c b/src/lex.yy.c
index f09ddf6..3f9058e 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -2215,7 +2215,7 @@ void set_illegal_char()
     const char *fmt = "illegal character [%c] at line %d";
     unsigned char c = (unsigned char)*yytext;
 
-    if (!isgraph((int)*yytext)) {
+    if (!isgraph(c)) {
         fmt = "illegal character [0x%02X] at line %d";
     }
 
diff --git a/src/parse.hpp b/src/parse.hpp
index 52f0118..5358756 100644
--- a/src/parse.hpp
+++ b/src/parse.hpp
@@ -52,7 +52,7 @@ namespace parse
     }
 
     inline bool is_ident(char c) {
-        return (::isalnum(c) || c == '_');
+        return (::isalnum(static_cast<unsigned char>(c)) || c == '_');
     }
 
     /* parameter_names.cpp */
diff --git a/src/utils.cpp b/src/utils.cpp
index ac86140..3ded087 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -74,7 +74,7 @@ std::string utils::to_upper(const std::string &str, bool underscores)
     std::string out;
 
     if (underscores) {
-        for (const char &c : str) {
+        for (const unsigned char c : str) {
             if (::isalnum(c)) {
                 out += static_cast<char>(::toupper(c));
             } else {
@@ -82,7 +82,7 @@ std::string utils::to_upper(const std::string &str, bool underscores)
             }
         }
     } else {
-        for (const char &c : str) {
+        for (const unsigned char c : str) {
             out += static_cast<char>(::toupper(c));
         }
     }
@@ -96,7 +96,7 @@ std::string utils::to_lower(const std::string &str, bool underscores)
     std::string out;
 
     if (underscores) {
-        for (const char &c : str) {
+        for (const unsigned char c : str) {
             if (::isalnum(c)) {
                 out += static_cast<char>(::tolower(c));
             } else {
@@ -104,7 +104,7 @@ std::string utils::to_lower(const std::string &str, bool underscores)
             }
         }
     } else {
-        for (const char &c : str) {
+        for (const unsigned char c : str) {
             out += static_cast<char>(::tolower(c));
         }
     }
@@ -131,12 +131,12 @@ bool utils::is_prefixed(const std::string &s, const vstring_t &list)
 void utils::strip_spaces(std::string &s)
 {
     /* remove from back */
-    while (!s.empty() && ::isspace(s.back())) {
+    while (!s.empty() && ::isspace(static_cast<unsigned char>(s.back()))) {
         s.pop_back();
     }
 
     /* remove from front */
-    while (!s.empty() && ::isspace(s.front())) {
+    while (!s.empty() && ::isspace(static_cast<unsigned char>(s.front()))) {
         s.erase(0, 1);
     }
 }
-- 
2.43.0


From f198900b8df360557420e076b732b4e0f435672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 23/35] fix: comments and line splits in preprocessor lines
 swallowed or leaked declarations

A C comment that spans several lines belongs to its preprocessor line, a
backslash only continues the very next line and string literals don't
start comments. The line after an empty %option line isn't part of it.
---
 src/lex.l    |  14 +-
 src/lex.yy.c | 528 ++++++++++++++++++++++++++-------------------------
 2 files changed, 280 insertions(+), 262 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index fa9c519..afa1261 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -43,16 +43,19 @@ void set_illegal_char();
 
 bom                 "\xEF\xBB\xBF"
 col                 [\x1B][\[][0-9;]*[m]
-split               "\\"[[:space:]]*?"\n"
+split               "\\"[ \t\v\f\r]*"\n"
 ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".*
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
 
-option              ^({bom})?"%option"[[:space:]]
+option              ^({bom})?"%option"/[[:space:]]
 optstr              [^[:space:]]+
 
 preproc             ^({bom})?[[:space:]]*?"#"
 
+string              ["]([^"\\\n]|{split}|"\\".)*["]
+character           [']([^'\\\n]|{split}|"\\".)*[']
+
 identifier          [a-zA-Z0-9_]+
 other               [*,()\[\]]
 
@@ -94,16 +97,17 @@ other               [*,()\[\]]
 
 {preproc}                   { BEGIN(PRE); }
 <PRE>"/*"                   { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
-<PRE>"/"{split}"*"          { BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+<PRE>"/"{split}"*"          { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
 <PRE>"/"{split}"/"          { BEGIN(COMMENT); /* simple comment */ }
+<PRE>{string}|{character}   { /* may contain slashes */ }
 <PRE>{split}                { /* line split */ }
 <PRE>\n                     { BEGIN(INITIAL); /* end */ }
 <PRE>.                      { }
 
 <PRE_COMMENT>"*/"           { BEGIN(PRE); /* continue PRE line */ }
-<PRE_COMMENT>"*"{split}"/"  { BEGIN(INITIAL); /* end */ }
-<PRE_COMMENT>\n             { BEGIN(C_COMMENT); /* C comment */ }
+<PRE_COMMENT>"*"{split}"/"  { BEGIN(PRE); /* continue PRE line */ }
+<PRE_COMMENT>\n             { /* the PRE line ends after the comment */ }
 <PRE_COMMENT>.              { }
 
 {bom}                       { /* UTF-8 byte order mark */ }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 3f9058e..09ade6d 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 49
-#define YY_END_OF_BUFFER 50
+#define YY_NUM_RULES 50
+#define YY_END_OF_BUFFER 51
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,37 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[262] =
+static const flex_int16_t yy_accept[271] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   50,   48,   35,   35,   42,   48,
-       48,   41,   47,   46,   41,   41,   41,   41,   44,   45,
-       48,   35,   35,   48,   22,   48,   41,   48,    5,    4,
+        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
+       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
+       49,   36,   36,   49,   22,   49,   42,   49,    5,    4,
         5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   29,   28,   29,   29,   33,   32,
-       33,    0,   16,   11,    0,   41,   41,   41,   41,   41,
-       41,    0,    0,   22,    0,    0,   41,    0,    0,    0,
-        0,    8,    0,    7,    0,   13,   18,    0,   23,   25,
-        0,    0,   27,   30,    0,   43,    0,    0,   41,   41,
-
-       41,   41,   41,   34,    0,    0,    0,   41,   34,    0,
+       15,   21,   20,   21,   30,   29,   30,   30,   30,   30,
+       34,   33,   34,    0,   16,   11,    0,   42,   42,   42,
+       42,   42,   42,    0,    0,   22,    0,    0,   42,    0,
+        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
+        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
+
+       31,    0,   44,    0,    0,   42,   42,   42,   42,   42,
+       35,    0,    0,    0,   42,   35,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,   17,   12,   39,   41,   41,   41,   41,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       19,   24,   26,   31,   41,   41,   41,   38,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,   36,   37,   41,
-        0,    0,   41,    0,    0,    0,    0,    0,   40,    0,
-        0,   41,    0,    0,    0,    0,    0,    0,    0,    6,
-       41,    0,    0,    0,    0,    0,    0,    0,   41,    0,
-        0,    0,    0,    0,   41,    0,    0,    0,    0,    0,
-
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-        2,    0,   41,    0,    0,    2,    0,   41,    0,    0,
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-       41,    0,    0,    0,   41,    0,    0,    3,    0,   41,
-        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
-        0
+       17,   12,   40,   42,   42,   42,   42,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   19,
+       24,   26,   32,   42,   42,   42,   39,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,   37,   38,   42,    0,
+        0,   42,    0,    0,    0,    0,    0,   41,    0,    0,
+       42,    0,    0,    0,    0,    0,    0,    0,    6,   42,
+        0,    0,    0,    0,    0,    0,    0,   42,    0,    0,
+
+        0,    0,    0,   42,    0,    0,    0,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,    2,
+        0,   42,    0,    0,    2,    0,   42,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,   42,
+        0,    0,    0,   42,    0,    0,    3,    0,   42,    0,
+        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -418,242 +418,247 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         2,    2,    2,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    4,    1,    1,    1,
-        1,    5,    1,    1,    6,    1,    7,    1,    1,    8,
-        8,    9,    1,    8,   10,   11,   12,   13,   14,   14,
-       14,   14,   14,   14,   14,   14,   14,    1,   15,    1,
-       16,    1,    1,    1,   17,   17,   17,   18,   17,   19,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   20,
-       17,   17,   17,   21,   22,   23,   17,   17,   17,   17,
-       24,   25,    8,    1,   17,   26,   27,   17,   28,   29,
-
-       30,   31,   17,   17,   32,   17,   17,   33,   34,   35,
-       36,   37,   17,   38,   39,   40,   41,   17,   17,   42,
-       43,   17,   44,   45,   46,    1,    1,    1,    1,    1,
+        1,    5,    1,    6,    7,    1,    8,    1,    9,   10,
+       10,   11,    1,   10,   12,   13,   14,   15,   16,   16,
+       16,   16,   16,   16,   16,   16,   16,    1,   17,    1,
+       18,    1,    1,    1,   19,   19,   19,   20,   19,   21,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   22,
+       19,   19,   19,   23,   24,   25,   19,   19,   19,   19,
+       26,   27,   10,    1,   19,   28,   29,   19,   30,   31,
+
+       32,   33,   19,   19,   34,   19,   19,   35,   36,   37,
+       38,   39,   19,   40,   41,   42,   43,   19,   19,   44,
+       45,   19,   46,   47,   48,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,   47,    1,    1,    1,
-       48,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    1,    1,    1,    1,    1,   49,    1,    1,    1,
+       50,    1,    1,    1,    1,    1,    1,    1,    1,    1,
 
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,   49,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,   51,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[50] =
+static const YY_CHAR yy_meta[52] =
     {   0,
         1,    2,    3,    1,    2,    1,    1,    1,    1,    1,
-        1,    1,    4,    4,    1,    1,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    4,    4,    4,    4,
+        1,    1,    1,    1,    4,    4,    1,    1,    4,    4,
+        4,    4,    4,    4,    4,    1,    1,    1,    4,    4,
         4,    4,    4,    4,    4,    4,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    1,    1,    1
+        4,    4,    4,    4,    4,    1,    1,    1,    1,    1,
+        1
     } ;
 
-static const flex_int16_t yy_base[273] =
+static const flex_int16_t yy_base[284] =
     {   0,
-        0,   48,  479,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  481,  483,  483,  483,  483,  469,
-       76,    0,  483,  483,   54,  439,  435,  442,  483,  483,
-      429,   97,  102,  451,  483,  438,  435,  425,  483,  483,
-      447,  465,  459,   85,    0,  483,  483,  107,  483,  483,
-      111,  483,  483,   94,  483,  483,  106,  118,  483,  483,
-       99,  457,  483,  483,  123,    0,  426,  426,  427,  427,
-      431,  414,  127,  483,  121,  424,  433,  411,  124,   96,
-      123,    0,  142,  146,  151,  157,  483,  161,  483,  483,
-      165,  169,  173,  483,  177,  483,  181,  185,  424,  427,
-
-      415,  425,  418,  483,  178,  432,  412,  416,  196,  191,
-      184,  440,  425,  407,  420,  206,  211,  216,  225,  230,
-      236,  483,  483,    0,  408,  417,  415,  408,  404,  409,
-      401,  415,  402,  432,  426,  147,   71,  229,  400,  396,
-      483,  483,  483,  483,  398,  392,  401,    0,  403,  393,
-      395,  403,  399,  232,  146,  397,  406,    0,    0,  392,
-      387,  386,  393,  236,  381,  394,  377,  386,    0,  376,
-      250,  374,  243,  157,  379,  246,  380,  383,  377,  483,
-      377,  384,  384,  254,  162,  370,  372,  377,  367,  258,
-      375,  366,  191,  359,  360,  261,  371,  349,  362,  346,
-
-      326,  334,  337,  268,  312,  317,  317,  321,  271,  260,
-        0,  315,  317,  320,  323,    0,  324,  304,  310,  276,
-      299,  315,  274,  283,  326,  298,  279,  263,  249,  214,
-      212,  286,  194,  213,  193,  293,  289,    0,  194,  299,
-      198,    0,  192,  191,  194,  298,  140,  301,  101,  308,
-      135,  314,  311,  324,    0,   93,    0,  323,  326,   87,
-      483,  360,  364,  368,  372,  376,  380,   73,  384,  388,
-      392,  396
+        0,   50,  494,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  496,  498,  498,  498,  498,  482,
+       85,    0,  498,  498,   35,  452,  448,  455,  498,  498,
+      442,  103,  111,  464,  498,  451,  448,  438,  498,  498,
+      460,  480,  472,   92,    0,  498,  498,  117,  498,  498,
+      121,  498,  498,   88,  498,  498,   94,  100,  114,  127,
+      498,  498,  117,  470,  498,  498,  131,    0,  439,  439,
+      440,  440,  444,  427,  135,  498,  130,  437,  446,  424,
+      133,   64,  131,    0,  152,  498,  156,  498,  498,  160,
+      133,  498,  165,  144,  170,  498,  498,  174,  178,  498,
+
+      498,  182,  498,  186,  179,  437,  440,  428,  438,  431,
+      498,  179,  445,  425,  429,  195,  189,  173,  453,  438,
+      420,  433,  205,  447,  211,  219,  224,  198,  228,  446,
+      498,  498,    0,  419,  428,  426,  419,  415,  420,  412,
+      426,  413,  445,  437,  227,  160,  219,  411,  407,  498,
+      498,  498,  498,  409,  403,  412,    0,  414,  404,  406,
+      414,  410,  225,  233,  408,  417,    0,    0,  403,  398,
+      397,  404,  228,  392,  405,  388,  397,    0,  387,  245,
+      385,  236,  170,  390,  250,  391,  394,  388,  498,  388,
+      395,  395,  253,  198,  381,  383,  388,  378,  258,  385,
+
+      373,  252,  364,  365,  261,  376,  354,  367,  351,  331,
+      339,  342,  264,  317,  322,  322,  326,  267,  255,    0,
+      320,  322,  325,  328,    0,  329,  310,  316,  275,  312,
+      321,  258,  289,  335,  304,  305,  309,  319,  290,  297,
+      292,  282,  304,  275,  297,  283,    0,  261,  291,  259,
+        0,  241,  223,  196,  300,  151,  303,  107,  306,  138,
+      294,  314,  297,    0,   91,    0,  328,  331,   76,  498,
+      367,  371,  375,  379,  383,  387,   71,  391,  395,  399,
+      403,  407,  411
     } ;
 
-static const flex_int16_t yy_def[273] =
+static const flex_int16_t yy_def[284] =
     {   0,
-      261,    1,  262,  262,  263,  263,  264,  264,  265,  265,
-      266,  266,  267,  267,  261,  261,  261,  261,  261,  261,
-      261,  268,  261,  261,  268,  268,  268,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  261,  261,  261,  269,  261,  261,  269,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  268,  268,  268,  268,  268,
-      268,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  269,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  268,  268,
-
-      268,  268,  268,  261,  261,  261,  261,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  268,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  268,  268,  268,
-      261,  261,  268,  261,  261,  261,  261,  261,  268,  261,
-      261,  268,  261,  261,  261,  261,  261,  261,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  268,  261,
-      261,  261,  261,  261,  268,  261,  261,  261,  261,  261,
-
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      270,  261,  268,  261,  261,  270,  261,  268,  261,  261,
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      268,  261,  261,  261,  268,  261,  261,  271,  261,  268,
-      261,  271,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  272,  261,  272,  261,  261,  261,
-        0,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      270,    1,  271,  271,  272,  272,  273,  273,  274,  274,
+      275,  275,  276,  276,  270,  270,  270,  270,  270,  270,
+      270,  277,  270,  270,  277,  277,  277,  277,  270,  270,
+      270,  270,  270,  270,  270,  270,  277,  270,  270,  270,
+      270,  270,  270,  270,  278,  270,  270,  278,  270,  270,
+      270,  270,  270,  270,  270,  270,  279,  280,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  277,  277,  277,
+      277,  277,  277,  270,  270,  270,  270,  270,  277,  270,
+      270,  270,  270,  278,  270,  270,  270,  270,  270,  270,
+      279,  270,  279,  280,  280,  270,  270,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  277,  277,  277,  277,  277,
+      270,  270,  270,  270,  277,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  279,  280,  270,  270,  270,  270,
+      270,  270,  277,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  277,  277,  277,  270,
+      270,  277,  270,  270,  270,  270,  270,  277,  270,  270,
+      277,  270,  270,  270,  270,  270,  270,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  277,  270,  270,
+
+      270,  270,  270,  277,  270,  270,  270,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  281,
+      270,  277,  270,  270,  281,  270,  277,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  277,
+      270,  270,  270,  277,  270,  270,  282,  270,  277,  270,
+      282,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  283,  270,  283,  270,  270,  270,    0,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270
     } ;
 
-static const flex_int16_t yy_nxt[533] =
+static const flex_int16_t yy_nxt[550] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
-       20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
-       22,   22,   22,   19,   16,   16,   22,   22,   22,   25,
-       22,   22,   22,   22,   22,   22,   22,   22,   26,   27,
-       28,   22,   22,   29,   16,   30,   16,   16,   31,   32,
-       33,   34,   32,   35,   36,   40,   41,   42,   46,   47,
-       50,   46,   46,   47,   50,   46,   53,   53,   37,   60,
-       56,   56,   54,   54,  152,   61,   66,   60,   43,   57,
-       57,   48,   51,   61,   63,   48,   51,   64,   67,   80,
-      153,  245,   58,   58,   81,   68,   38,   44,   73,   73,
-
-       65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
-       94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
-       93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  229,
-      112,  114,  255,   83,   84,  115,   83,   83,   84,  166,
-       83,   80,   85,   86,  106,   85,   81,  111,   85,   86,
-      182,   85,  116,  117,  114,  116,  118,  119,  115,  118,
-       92,   93,  252,   92,   92,   93,  153,   92,  120,  121,
-      114,  120,   97,   98,  115,   97,   97,   98,  134,   97,
-      105,  105,  105,  122,  199,  200,  123,   73,   73,  132,
-
-       73,   74,  133,  110,  110,  110,  249,  116,  117,  135,
-      116,  106,  116,  117,  248,  116,  129,  118,  119,  247,
-      118,  246,  141,  243,  111,  240,  118,  119,  136,  118,
-      239,  120,  121,  142,  120,  238,  143,  120,  121,  235,
-      120,  154,  154,  154,  154,  154,  154,  144,  173,  173,
-      173,  180,  180,  234,  180,  173,  173,  173,  184,  184,
-      184,  233,  155,  215,  200,  155,  184,  184,  184,  174,
-      196,  196,  196,  196,  196,  196,  174,  228,  229,  185,
-      209,  209,  209,  209,  209,  209,  232,  185,  224,  224,
-      224,  197,  241,  229,  197,  224,  224,  224,  236,  236,
-
-      236,  210,  244,  245,  210,  236,  236,  236,  231,  225,
-      250,  250,  250,  253,  253,  253,  225,  244,  245,  237,
-      250,  250,  250,  253,  253,  253,  237,  256,  245,  230,
-      200,  251,  227,  226,  254,  259,  259,  259,  259,  259,
-      259,  251,  223,  222,  254,  221,  220,  219,  218,  217,
-      214,  213,  212,  211,  208,  207,  260,  206,  205,  260,
-       39,   39,   39,   39,   45,   45,   45,   45,   49,   49,
-       49,   49,   52,   52,   52,   52,   55,   55,   55,   55,
-       59,   59,   59,   59,   82,  204,  203,   82,  216,  216,
-      153,  216,  242,  242,  202,  242,  257,  257,  201,  257,
-
-      157,  198,  195,  194,  193,  192,  191,  190,  189,  188,
-      187,  186,  183,  181,  179,  178,  177,  176,  175,  172,
-      171,  170,  169,  168,  167,  165,  164,  163,  162,  161,
-      160,  159,  158,  157,  156,   81,   80,   76,   75,  151,
-      150,  149,  148,  147,  146,  145,  140,  139,  138,  137,
-      131,  130,  129,  128,  127,  126,  125,  124,  109,  108,
-      107,  104,  103,  102,  101,  100,   99,   96,   81,   80,
-       79,   78,   77,   76,   75,   72,   71,   70,   69,   62,
-      261,   40,   15,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
+       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
+       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
+       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
+       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
+       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
+       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
+       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
+      254,   59,   56,   43,   62,   57,   48,   51,   58,   62,
+       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
+
+       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
+      119,   67,   75,   75,   90,   75,  267,   76,   85,   86,
+       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
+      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
+       98,   76,  238,  102,  112,  112,  112,  117,  117,  117,
+      264,  121,   92,   85,   86,  122,   85,   87,   88,   93,
+       87,  123,  124,  161,  123,  113,  125,   91,  118,  125,
+       95,  126,   94,  191,  126,  127,  128,  143,  127,   99,
+      100,  162,   99,  129,  130,  261,  129,  104,  105,  131,
+      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
+
+      144,   76,  142,  117,  117,  117,  123,  124,  151,  123,
+      258,  152,  125,   91,  113,  125,   92,  138,  121,  145,
+      126,   94,  122,  126,  118,  127,  128,   92,  127,  129,
+      130,   82,  129,  163,  163,  163,  175,   93,   83,  163,
+      163,  163,  182,  182,  182,   95,  189,  189,  257,  189,
+      182,  182,  182,  121,  164,  208,  209,  122,  224,  209,
+      164,  237,  238,  183,  193,  193,  193,  193,  193,  193,
+      256,  183,  205,  205,  205,  205,  205,  205,  218,  218,
+      218,  218,  218,  218,  255,  194,  250,  238,  194,  233,
+      233,  233,  252,  206,  253,  254,  206,  253,  254,  219,
+
+      265,  254,  219,  233,  233,  233,  245,  245,  245,  249,
+      234,  245,  245,  245,  259,  259,  259,  262,  262,  262,
+      259,  259,  259,  248,  234,  247,  244,  246,  262,  262,
+      262,  243,  246,  242,  241,  260,  240,  239,  263,  209,
+      236,  260,  268,  268,  268,  268,  268,  268,  235,  263,
+      232,  231,  230,  229,  228,  227,  226,  223,  222,  221,
+      220,  217,  216,  269,  215,  214,  269,   39,   39,   39,
+       39,   45,   45,   45,   45,   49,   49,   49,   49,   52,
+       52,   52,   52,   55,   55,   55,   55,   61,   61,   61,
+       61,   84,  213,  212,   84,   91,   91,  162,   91,   94,
+
+       94,  211,   94,  225,  225,  210,  225,  251,  251,  166,
+      251,  266,  266,  207,  266,  204,  203,  202,  201,  200,
+      199,  198,  197,  196,  195,  192,  190,  188,  187,  186,
+      185,  184,  181,  180,  179,  178,  177,  176,  174,  173,
+      172,  171,  170,  169,  168,  167,  166,  165,   83,   82,
+       78,   77,  160,  159,  158,  157,  156,  155,  154,  153,
+      150,  149,  148,  147,  146,  140,  139,  138,  137,  136,
+      135,  134,  133,  116,  115,  114,  111,  110,  109,  108,
+      107,  106,  103,   83,   82,   81,   80,   79,   78,   77,
+       74,   73,   72,   71,   64,  270,   40,   15,  270,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270
     } ;
 
-static const flex_int16_t yy_chk[533] =
+static const flex_int16_t yy_chk[550] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    2,
-        2,    2,    2,    2,    2,    4,    4,    4,    5,    5,
-        7,    5,    6,    6,    8,    6,    9,   10,    2,   13,
-       11,   12,    9,   10,  137,   13,  268,   14,    4,   11,
-       12,    5,    7,   14,   21,    6,    8,   21,   25,   44,
-      137,  260,   11,   12,   44,   25,    2,    4,   32,   32,
-
-       21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
-       61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
-       58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,  251,
-       80,   81,  249,   83,   83,   81,   83,   84,   84,  155,
-       84,  136,   85,   85,   75,   85,  136,   79,   86,   86,
-      174,   86,   88,   88,  155,   88,   91,   91,  155,   91,
-       92,   92,  247,   92,   93,   93,  174,   93,   95,   95,
-      185,   95,   97,   97,  185,   97,   98,   98,  111,   98,
-      105,  105,  105,   98,  193,  193,   98,  109,  109,  109,
-
-      109,  109,  109,  110,  110,  110,  245,  116,  116,  111,
-      116,  105,  117,  117,  244,  117,  109,  118,  118,  243,
-      118,  241,  117,  239,  110,  235,  119,  119,  111,  119,
-      234,  120,  120,  119,  120,  233,  119,  121,  121,  231,
-      121,  138,  138,  138,  154,  154,  154,  121,  164,  164,
-      164,  171,  171,  230,  171,  173,  173,  173,  176,  176,
-      176,  229,  138,  210,  210,  154,  184,  184,  184,  164,
-      190,  190,  190,  196,  196,  196,  173,  223,  223,  176,
-      204,  204,  204,  209,  209,  209,  228,  184,  220,  220,
-      220,  190,  237,  237,  196,  224,  224,  224,  232,  232,
-
-      232,  204,  240,  240,  209,  236,  236,  236,  227,  220,
-      246,  246,  246,  248,  248,  248,  224,  252,  252,  232,
-      250,  250,  250,  253,  253,  253,  236,  254,  254,  226,
-      225,  246,  222,  221,  248,  258,  258,  258,  259,  259,
-      259,  250,  219,  218,  253,  217,  215,  214,  213,  212,
-      208,  207,  206,  205,  203,  202,  258,  201,  200,  259,
-      262,  262,  262,  262,  263,  263,  263,  263,  264,  264,
-      264,  264,  265,  265,  265,  265,  266,  266,  266,  266,
-      267,  267,  267,  267,  269,  199,  198,  269,  270,  270,
-      197,  270,  271,  271,  195,  271,  272,  272,  194,  272,
-
-      192,  191,  189,  188,  187,  186,  183,  182,  181,  179,
-      178,  177,  175,  172,  170,  168,  167,  166,  165,  163,
-      162,  161,  160,  157,  156,  153,  152,  151,  150,  149,
-      147,  146,  145,  140,  139,  135,  134,  133,  132,  131,
-      130,  129,  128,  127,  126,  125,  115,  114,  113,  112,
-      108,  107,  106,  103,  102,  101,  100,   99,   78,   77,
-       76,   72,   71,   70,   69,   68,   67,   62,   43,   42,
-       41,   38,   37,   36,   34,   31,   28,   27,   26,   20,
-       15,    3,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
+        4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
+       11,   25,    2,   11,  277,    9,   11,   10,   25,    7,
+      269,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
+
+        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
+       82,   21,   33,   33,   54,   33,  265,   33,   48,   48,
+       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
+       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
+       59,   75,  260,   63,   77,   77,   77,   81,   81,   81,
+      258,   83,   94,   85,   85,   83,   85,   87,   87,   91,
+       87,   90,   90,  146,   90,   77,   93,   93,   81,   93,
+       94,   95,   95,  183,   95,   98,   98,  118,   98,   99,
+       99,  146,   99,  102,  102,  256,  102,  104,  104,  105,
+      104,  183,  105,  112,  112,  112,  116,  116,  116,  116,
+
+      118,  116,  116,  117,  117,  117,  123,  123,  128,  123,
+      254,  128,  125,  125,  112,  125,  125,  116,  194,  118,
+      126,  126,  194,  126,  117,  127,  127,  126,  127,  129,
+      129,  145,  129,  147,  147,  147,  164,  125,  145,  163,
+      163,  163,  173,  173,  173,  126,  180,  180,  253,  180,
+      182,  182,  182,  164,  147,  202,  202,  164,  219,  219,
+      163,  232,  232,  173,  185,  185,  185,  193,  193,  193,
+      252,  182,  199,  199,  199,  205,  205,  205,  213,  213,
+      213,  218,  218,  218,  250,  185,  246,  246,  193,  229,
+      229,  229,  248,  199,  249,  249,  205,  261,  261,  213,
+
+      263,  263,  218,  233,  233,  233,  241,  241,  241,  244,
+      229,  245,  245,  245,  255,  255,  255,  257,  257,  257,
+      259,  259,  259,  243,  233,  242,  240,  241,  262,  262,
+      262,  239,  245,  238,  237,  255,  236,  235,  257,  234,
+      231,  259,  267,  267,  267,  268,  268,  268,  230,  262,
+      228,  227,  226,  224,  223,  222,  221,  217,  216,  215,
+      214,  212,  211,  267,  210,  209,  268,  271,  271,  271,
+      271,  272,  272,  272,  272,  273,  273,  273,  273,  274,
+      274,  274,  274,  275,  275,  275,  275,  276,  276,  276,
+      276,  278,  208,  207,  278,  279,  279,  206,  279,  280,
+
+      280,  204,  280,  281,  281,  203,  281,  282,  282,  201,
+      282,  283,  283,  200,  283,  198,  197,  196,  195,  192,
+      191,  190,  188,  187,  186,  184,  181,  179,  177,  176,
+      175,  174,  172,  171,  170,  169,  166,  165,  162,  161,
+      160,  159,  158,  156,  155,  154,  149,  148,  144,  143,
+      142,  141,  140,  139,  138,  137,  136,  135,  134,  130,
+      124,  122,  121,  120,  119,  115,  114,  113,  110,  109,
+      108,  107,  106,   80,   79,   78,   74,   73,   72,   71,
+       70,   69,   64,   43,   42,   41,   38,   37,   36,   34,
+       31,   28,   27,   26,   20,   15,    3,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[50] =
+static const flex_int32_t yy_rule_can_match_eol[51] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -961,13 +966,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 262 )
+				if ( yy_current_state >= 271 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 261 );
+		while ( yy_current_state != 270 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1020,6 +1025,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 /* rule 6 can match eol */
+*yy_cp = (yy_hold_char); /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_cp - 1);
+(yy_c_buf_p) = yy_cp -= 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 { BEGIN(OPTION); /* %option line */ }
 	YY_BREAK
@@ -1103,7 +1112,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
@@ -1117,71 +1126,72 @@ YY_RULE_SETUP
 case 27:
 /* rule 27 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ /* may contain slashes */ }
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 29:
+/* rule 29 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 31:
-/* rule 31 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
+/* rule 33 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* the PRE line ends after the comment */ }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 35:
-/* rule 35 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
@@ -1189,26 +1199,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 50:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1515,7 +1529,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 262 )
+			if ( yy_current_state >= 271 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1543,11 +1557,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 262 )
+		if ( yy_current_state >= 271 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 261);
+	yy_is_jam = (yy_current_state == 270);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From d29239364234ebf3e14ed4d6203c4dee42e5d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 24/35] fix: full help mentioned an option that doesn't exist

---
 src/help.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/help.cpp b/src/help.cpp
index b866f69..bc23be2 100644
--- a/src/help.cpp
+++ b/src/help.cpp
@@ -351,7 +351,7 @@ namespace help
             "\n"
             "    Text substitution in the template file is done as following:\n"
             "\n"
-            "    If a prefix was set with `-name' then any instances of `GDO_' and `gdo_'\n"
+            "    If a prefix was set with `-prefix' then any instances of `GDO_' and `gdo_'\n"
             "    will be substituted with it, converted to uppercase and lowercase.\n"
             "\n"
             "    Any lines containing one or more of the following will be replaced multiple\n"
-- 
2.43.0


From fa8aa14f1597b6e8219267ca7c6f3245179fdf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 25/35] fix: declarations after a parameter list or array are
 swallowed, last word of the type is taken for the symbol

---
 src/check_pattern.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 src/parse.cpp         |  5 +++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/check_pattern.cpp b/src/check_pattern.cpp
index 941b545..eb92c73 100644
--- a/src/check_pattern.cpp
+++ b/src/check_pattern.cpp
@@ -48,6 +48,39 @@ typedef struct _seq {
 
 namespace /* anonymous */
 {
+    /* check if everything from `first' (opening bracket) to `last' is a single
+     * pair of matching brackets, or a sequence of pairs in case of arrays */
+    bool is_enclosed(const iter_t &first, const iter_t &last)
+    {
+        int depth = 0;
+
+        for (auto it = first; it != last; it++) {
+            switch (utils::str_front(*it))
+            {
+            case '(':
+            case '[':
+                depth++;
+                break;
+
+            case ')':
+            case ']':
+                depth--;
+                break;
+
+            default:
+                break;
+            }
+
+            /* closed before the end */
+            if (depth < 1 && !(*it == "]" && *(it+1) == "[")) {
+                return false;
+            }
+        }
+
+        return (depth == 1);
+    }
+
+
     /* compare vector elements to pattern sequence
      *
      * first element was already checked in `check_prototype()'
@@ -108,6 +141,12 @@ namespace /* anonymous */
             }
         }
 
+        /* parameter list or array: the opening bracket, which was the
+         * last one to match, must be closed by the end sequence */
+        if (*sq.middle != 0) {
+            return is_enclosed(it - 1, v.end() - (sq.end[1] == 0 ? 1 : 2));
+        }
+
         return true;
     }
 
diff --git a/src/parse.cpp b/src/parse.cpp
index ac8d26b..66cf06b 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -236,10 +236,11 @@ namespace /* anonymous */
         switch (utils::str_front(*it))
         {
         case '(':
-            return (check_function(v, p, it)                 || /* TYPE SYMBOL ( ) */
+            /* the type may consist of more than one identifier */
+            return (check_function_paren_pointer(v, p, it)   || /* TYPE ( * SYMBOL ( ) ) */
                     check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
                     check_function_paren(v, p, it)           || /* TYPE ( SYMBOL ) ( ) */
-                    check_function_paren_pointer(v, p, it));    /* TYPE ( * SYMBOL ( ) ) */
+                    check_function(v, p, it));                  /* TYPE SYMBOL ( ) */
 
         case '[':
             return check_array(v, p, it);
-- 
2.43.0


From 9b5e1df7a94815d4af43e2452beaa21a9de647cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 26/35] fix: a declarator following a struct, union or enum
 definition is silently dropped

---
 src/tokenize.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index 8d4c05e..c309e54 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -59,8 +59,18 @@ namespace /* anonymous */
         bool loop = true;
         bool block = false;
         bool tagged = false;
+        bool type_only = false;
         int curly_count = 0;
 
+        /* `struct foo {...} bar;' also declares `bar', which would be lost */
+        auto end_definition = [&tokens] ()
+        {
+            if (!tokens.empty() && !(tokens.front() == "__attribute__" && tokens.back() == ")")) {
+                throw gendlopen::error("declaration combined with a struct, union or enum"
+                                       " definition: " + tokens.front());
+            }
+        };
+
         while (loop)
         {
             rv = lex::lex();
@@ -77,7 +87,10 @@ namespace /* anonymous */
                 case LEX_ID:
                 case LEX_OTHER:
                 case LEX_EQUAL:
-                    /* ignore */
+                    /* ignore everything inside of the definition */
+                    if (!type_only && curly_count < 1) {
+                        tokens.push_back(lex::text());
+                    }
                     break;
 
                 case LEX_CURLY_OPEN:
@@ -91,6 +104,7 @@ namespace /* anonymous */
                 /* end of block? */
                 case LEX_SEMICOLON:
                     if (curly_count < 1) {
+                        end_definition();
                         block = false;
                         tagged = false;
                         tokens.clear();
@@ -133,6 +147,7 @@ namespace /* anonymous */
                 case LEX_TYPEDEF:
                     if (tokens.empty()) {
                         block = true;
+                        type_only = true;
                         curly_count = 0;
                     } else {
                         /* part of function parameter, etc. */
@@ -145,6 +160,7 @@ namespace /* anonymous */
                     if (tagged) {
                         /* struct, union or enum definition */
                         block = true;
+                        type_only = false;
                         curly_count = 1;
                         tokens.clear();
                         break;
@@ -188,6 +204,13 @@ namespace /* anonymous */
             throw gendlopen::error("unterminated struct, union, enum or typedef block");
         }
 
+        if (block) {
+            if (rv != LEX_ERROR) {
+                end_definition();
+            }
+            return rv;
+        }
+
         /* push back if last prototype didn't end on semicolon */
         if (!tokens.empty() && !(tagged && tokens.size() == 2)) {
             vec.push_back(tokens);
-- 
2.43.0


From c63a57b966b5e3d2e1855e0cfa7e4c244ab7eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 27/35] fix: functions declared through a typedef were dropped
 from a Clang AST

---
 src/clang_ast.cpp | 76 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 9b17f24..2ef9831 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -87,36 +87,24 @@ std::string strip_line(const char *line)
 }
 
 
-/* get function parameter declaration */
-bool get_parameters(std::string &args, std::string &param_names, int &param_count)
+/* add a parameter type and name */
+void append_parameter(const std::string &type, std::string &args, std::string &param_names, int &param_count)
 {
-    std::smatch m;
     size_t pos;
 
-    const std::regex reg(
-        "^[| ] [|`]-ParmVarDecl 0x.*?"
-        " '(.*?)'.*"  /* type */
-    );
-
-    const std::string line = strip_line(lex::text());
-
-    if (line.empty() || !std::regex_match(line, m, reg) || m.size() != 2) {
-        return false;
-    }
-
     const std::string name = "a" + std::to_string(param_count);
 
     param_names += name + ", ";
 
     /* search for function pointer */
-    if (utils::find(m.str(1), "(*)", pos)) {
+    if (utils::find(type, "(*)", pos)) {
         /* function pointer */
-        std::string str = m.str(1);
+        std::string str = type;
         str.insert(pos + 2, name);
         args += str + ", ";
     } else {
         /* regular parameter */
-        args += m.str(1);
+        args += type;
 
         if (!args.ends_with('*')) {
             args += ' ';
@@ -126,6 +114,26 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
 
     /* iterate counter */
     param_count++;
+}
+
+
+/* get function parameter declaration */
+bool get_parameters(std::string &args, std::string &param_names, int &param_count)
+{
+    std::smatch m;
+
+    const std::regex reg(
+        "^[| ] [|`]-ParmVarDecl 0x.*?"
+        " '(.*?)'.*"  /* type */
+    );
+
+    const std::string line = strip_line(lex::text());
+
+    if (line.empty() || !std::regex_match(line, m, reg) || m.size() != 2) {
+        return false;
+    }
+
+    append_parameter(m.str(1), args, param_names, param_count);
 
     return true;
 }
@@ -148,6 +156,35 @@ bool is_variadic(const std::string &params)
     return params.substr(0, pos).ends_with(", ...");
 }
 
+
+/* a function that was declared through a typedef has no parameter declarations;
+ * get its parameters from the type: `(type, type, ...)' */
+void get_parameters_from_type(const std::string &params, std::string &args, std::string &param_names)
+{
+    std::string type;
+    int scope = 0, param_count = 1;
+
+    for (const char c : params) {
+        if (c == '(' && scope++ == 0) {
+            continue;
+        } else if ((c == ')' && --scope == 0) || (c == ',' && scope == 1)) {
+            utils::strip_spaces(type);
+
+            if (!type.empty() && type != "void" && type != "...") {
+                append_parameter(type, args, param_names, param_count);
+            }
+
+            type.clear();
+
+            if (scope == 0) {
+                break;
+            }
+        } else {
+            type += c;
+        }
+    }
+}
+
 } /* end anonymous namespace */
 
 
@@ -159,6 +196,7 @@ int gendlopen::get_declarations(filter::mode mode)
     const std::regex reg_func(
         "^[|`]-FunctionDecl 0x.*?"
         " ([a-zA-Z0-9_]*?) "  /* symbol */
+        "(?:'[^']*':)?"       /* typedef */
         "'(.*?)'.*"           /* type */
     );
 
@@ -247,6 +285,10 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
+        if (param_count == 1) {
+            get_parameters_from_type(m.str(2).substr(pos), proto.args, proto.param_names);
+        }
+
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
-- 
2.43.0


From 0ac2b24283a8e00259b64b5e1dad25e4d3cdb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 28/35] fix: an object with an attribute was taken for a
 function named __attribute__

---
 src/parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 66cf06b..fe55872 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -261,7 +261,8 @@ namespace /* anonymous */
             proto.prototype = proto::function;
             proto.saved = false;
 
-            if (!check_prototype(v, proto)) {
+            /* `int obj __attribute__((..));' is not a function named `__attribute__' */
+            if (!check_prototype(v, proto) || proto.symbol == "__attribute__") {
                 print_tokens(v);
                 return false;
             }
-- 
2.43.0


From df9a82c0920a511ea9dfde7fd1296671748aa2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 29/35] fix: a long line of a Clang AST no longer overflows the
 stack

---
 src/clang_ast.cpp | 108 ++++++++++++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 36 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 2ef9831..6d92bd7 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -55,7 +55,6 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 
 #include <stddef.h>
 #include <algorithm>
-#include <regex>
 #include <string>
 #include <vector>
 #include "gendlopen.hpp"
@@ -76,14 +75,25 @@ constexpr const char *err_no_symbols =
 /* strip ANSI colors and Windows line endings from line */
 std::string strip_line(const char *line)
 {
-    const std::regex reg(R"(\x1B\[[0-9;]*m)");
-
-    std::string s = line;
+    std::string s = line, out;
 
     /* remains of Windows line endings */
     utils::delete_suffix(s, '\r');
 
-    return s.empty() ? "" : std::regex_replace(s, reg, "");
+    for (size_t i = 0; i < s.size(); i++) {
+        /* ESC [ <numbers> m */
+        if (s[i] == '\x1B' && utils::str_at(s, i + 1) == '[') {
+            size_t end = s.find_first_not_of("0123456789;", i + 2);
+
+            if (end != std::string::npos && s[end] == 'm') {
+                i = end;
+                continue;
+            }
+        }
+        out += s[i];
+    }
+
+    return out;
 }
 
 
@@ -120,25 +130,64 @@ void append_parameter(const std::string &type, std::string &args, std::string &p
 /* get function parameter declaration */
 bool get_parameters(std::string &args, std::string &param_names, int &param_count)
 {
-    std::smatch m;
-
-    const std::regex reg(
-        "^[| ] [|`]-ParmVarDecl 0x.*?"
-        " '(.*?)'.*"  /* type */
-    );
+    size_t pos, end;
 
     const std::string line = strip_line(lex::text());
 
-    if (line.empty() || !std::regex_match(line, m, reg) || m.size() != 2) {
+    /* 'type' */
+    if (!utils::find(line, " '", pos) || (end = line.find('\'', pos + 2)) == std::string::npos) {
         return false;
     }
 
-    append_parameter(m.str(1), args, param_names, param_count);
+    append_parameter(line.substr(pos + 2, end - pos - 2), args, param_names, param_count);
 
     return true;
 }
 
 
+/* get symbol and type from a function or variable declaration:
+ *   symbol 'type'
+ *   symbol 'typedef':'type'  (type of a function, typedef of a variable) */
+bool get_symbol_and_type(const std::string &line, bool is_function, std::string &symbol, std::string &type)
+{
+    const char *ident = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz";
+
+    /* begin after the address */
+    size_t pos = line.find(" 0x");
+
+    while (pos != std::string::npos && (pos = line.find(' ', pos + 1)) != std::string::npos) {
+        size_t end = line.find_first_not_of(ident, pos + 1);
+
+        if (end == std::string::npos || line.compare(end, 2, " '") != 0) {
+            continue;
+        }
+
+        size_t type_begin = end + 2;
+        size_t type_end = line.find('\'', type_begin);
+
+        if (type_end == std::string::npos) {
+            return false;
+        }
+
+        if (is_function && line.compare(type_end, 3, "':'") == 0) {
+            size_t n = line.find('\'', type_end + 3);
+
+            if (n != std::string::npos) {
+                type_begin = type_end + 3;
+                type_end = n;
+            }
+        }
+
+        symbol = line.substr(pos + 1, end - pos - 1);
+        type = line.substr(type_begin, type_end - type_begin);
+
+        return true;
+    }
+
+    return false;
+}
+
+
 /* check for variable arguments: `(type, ...)' */
 bool is_variadic(const std::string &params)
 {
@@ -191,20 +240,7 @@ void get_parameters_from_type(const std::string &params, std::string &args, std:
 /* get function or variable declaration (initialization of prototype structs) */
 int gendlopen::get_declarations(filter::mode mode)
 {
-    std::smatch m;
-
-    const std::regex reg_func(
-        "^[|`]-FunctionDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "(?:'[^']*':)?"       /* typedef */
-        "'(.*?)'.*"           /* type */
-    );
-
-    const std::regex reg_var(
-        "^[|`]-VarDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
+    std::string symbol, type;
 
     const std::string line = strip_line(lex::text());
 
@@ -214,7 +250,7 @@ int gendlopen::get_declarations(filter::mode mode)
 
     const bool is_function = (utils::str_at(line, 2) == 'F');
 
-    if (!std::regex_match(line, m, is_function ? reg_func : reg_var) || m.size() != 3) {
+    if (!get_symbol_and_type(line, is_function, symbol, type)) {
         return 0;
     }
 
@@ -223,7 +259,7 @@ int gendlopen::get_declarations(filter::mode mode)
 
     proto.prototype = proto::function;
     proto.saved     = false;
-    proto.symbol    = m.str(1);
+    proto.symbol    = symbol;
 
     /* a symbol may be declared more than once */
     auto is_redeclared = [&proto] (const vproto_t &v) {
@@ -269,13 +305,13 @@ int gendlopen::get_declarations(filter::mode mode)
         size_t pos;
         int rv, param_count = 1;
 
-        if (!utils::find(m.str(2), '(', pos)) {
+        if (!utils::find(type, '(', pos)) {
             return 0;
         }
 
         proto.prototype = proto::function;
 
-        proto.type = m.str(2).substr(0, pos);
+        proto.type = type.substr(0, pos);
         utils::strip_spaces(proto.type);
 
         /* read next lines for parameters */
@@ -286,13 +322,13 @@ int gendlopen::get_declarations(filter::mode mode)
         }
 
         if (param_count == 1) {
-            get_parameters_from_type(m.str(2).substr(pos), proto.args, proto.param_names);
+            get_parameters_from_type(type.substr(pos), proto.args, proto.param_names);
         }
 
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
-        if (is_variadic(m.str(2).substr(pos))) {
+        if (is_variadic(type.substr(pos))) {
             proto.args += ", ...";
         }
 
@@ -302,15 +338,15 @@ int gendlopen::get_declarations(filter::mode mode)
         return 1;
     } else {
         /* variable declaration */
-        if (utils::find(m.str(2), "(*)")) {
+        if (utils::find(type, "(*)")) {
             proto.prototype = proto::function_pointer;
-        } else if (utils::find(m.str(2), '[')) {
+        } else if (utils::find(type, '[')) {
             proto.prototype = proto::object_array;
         } else {
             proto.prototype = proto::object;
         }
 
-        proto.type = m.str(2);
+        proto.type = type;
         utils::strip_spaces(proto.type);
 
         m_objects.push_back(std::move(proto));
-- 
2.43.0


From 3b552f97f3bddd7323e95f252a864b6915396245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 30/35] fix: a long api: library name no longer overflows the
 stack

---
 src/generate.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 9c97d1e..c74bbec 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -34,7 +34,6 @@
 #include <locale>
 #include <iomanip>
 #include <iostream>
-#include <regex>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -177,14 +176,13 @@ std::string format_libname(const std::string &str, const std::string &pfx)
     case 'a':
         /* no quotes, API libname macro */
         if (utils::prefixed_and_longer_case(str, "api:")) {
-            const std::regex reg("(.*?):(.*)");
-            std::smatch m;
             auto sub = str.substr(4);
+            size_t pos;
 
-            if (std::regex_match(sub, m, reg) && m.size() == 3) {
+            if (utils::find(sub, ':', pos) && !utils::find(sub, '\n') && !utils::find(sub, '\r')) {
                 /* GDO_LIBNAMEA(xxx,0) */
-                lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
-                lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
+                lib_a = pfx + "_LIBNAMEA(" + sub.substr(pos + 1) + ',' + sub.substr(0, pos) + ')';
+                lib_w = pfx + "_LIBNAMEW(" + sub.substr(pos + 1) + ',' + sub.substr(0, pos) + ')';
                 break;
             }
 
-- 
2.43.0


From 30ad32dfb34d11cf369d51c4f49d0d86f817c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 31/35] fix: a Clang AST type that contains a placeholder no
 longer causes an endless loop

---
 src/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3ded087..e8b4cd1 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -146,7 +146,8 @@ void utils::replace(const std::string &from, const std::string &to, std::string
 {
     size_t pos = 0;
 
-    while (utils::find(str, from, pos)) {
+    /* don't search the replaced text again, it could contain `from' */
+    while ((pos = str.find(from, pos)) != std::string::npos) {
         str.replace(pos, from.size(), to);
         pos += to.size();
     }
-- 
2.43.0


From 60321387c94f7588e8ba7f7e87808d3a25685958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 32/35] fix: any nonzero result of FreeLibrary() means success

---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 90fa721..1a1ffb1 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -13,7 +13,7 @@ GDO_INLINE void *_gdo_call_dlsym(gdo_hmod_t handle, const char *symbol)
 GDO_INLINE bool _gdo_call_dlclose(gdo_hmod_t handle)
 {
 #ifdef GDO_WINAPI
-    return (FreeLibrary(handle) == TRUE);
+    return (FreeLibrary(handle) != 0);
 #else
     return (dlclose(handle) == 0);
 #endif
-- 
2.43.0


From 62df2f8dfe6fb868aaf87ffbb298d99536ea572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 33/35] fix: check the copied filename for a null pointer on
 Windows

---
 src/templates/c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index bd035a6..b670298 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -256,6 +256,11 @@ GDO_INLINE void _gdo_load_library(const gdo_char_t *filename, int flags, bool ne
     /* copy filename and replace path separators */
     gdo_char_t *copy = _tcsdup(filename);
 
+    if (!copy) {
+        SetLastError(ERROR_NOT_ENOUGH_MEMORY);
+        return;
+    }
+
     for (gdo_char_t *p = copy; *p != 0; p++) {
         if (*p == _T('/')) {
             *p = _T('\\');
-- 
2.43.0


From af729e4e14084039997e91bccb1a6be1cb51fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 34/35] fix: check the converted filename for a null pointer on
 Windows

---
 src/templates/c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index b670298..a5c5211 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -290,6 +290,10 @@ GDO_INLINE wchar_t *_gdo_mbstowcs(const char *filename)
     if (mbstowcs_s(&len, NULL, 0, filename, _TRUNCATE) == 0 && len > 1) {
         wcs = (wchar_t *)malloc(len * sizeof(wchar_t));
 
+        if (!wcs) {
+            return NULL;
+        }
+
         /* convert string */
         if (mbstowcs_s(&n, wcs, len, filename, _TRUNCATE) == 0 && n == len) {
             return wcs;
-- 
2.43.0


From 015376b553703a978e5b3ea12b962d79ff11982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 35/35] fix: report a filename conversion failure on Windows
 instead of a stale error code

---
 src/templates/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index a5c5211..fdc390e 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -318,8 +318,8 @@ GDO_INLINE HMODULE _gdo_load_library_ex(const gdo_char_t *filename, int flags)
         return handle;
     }
 
-    GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);
-    _gdo_save_to_errbuf("mbstowcs_s: failed to convert filename");
+    /* the caller saves this as the last error */
+    SetLastError(ERROR_INVALID_NAME);
     return NULL;
 # else
     return LoadLibraryEx(filename, NULL, flags);
-- 
2.43.0

