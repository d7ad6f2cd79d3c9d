From 88b8683e679e9385bc53dca3e3d96bf0d75018d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 01/32] fix: parenthesize object alias macros so that indexing,
 member access and ++ work

---
 src/templates/c.c               | 2 +-
 src/templates/c.h               | 2 +-
 src/templates/cxx.cpp           | 2 +-
 src/templates/cxx.hpp           | 2 +-
 src/templates/minimal.h         | 2 +-
 src/templates/minimal_cxxeh.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index e9f57ca..2e09dfe 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -980,7 +980,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 #endif
 
 /* aliases to raw object pointers */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //!GDO_SEPARATE
 
diff --git a/src/templates/c.h b/src/templates/c.h
index 2b2626f..ff99f12 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -297,7 +297,7 @@ GDO_DECL void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *s
 #endif
 
 /* object name aliases */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //GDO_SEPARATE ...
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 73b87e2..d83d613 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1080,7 +1080,7 @@ namespace gdo
 #endif
 
 /* aliases to raw object pointers */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //!GDO_SEPARATE
 
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 5808444..3c02fff 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -508,7 +508,7 @@ namespace gdo {
 #endif
 
 /* object name aliases */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //GDO_SEPARATE ...
 
diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index ab29a3d..638d506 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -109,7 +109,7 @@ GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
  * Aliases to raw symbol pointers
  */
 #define %%func_symbol_pad%%  gdo_hndl.GDO_PTR_%%func_symbol%%
-#define %%obj_symbol_pad%%  *gdo_hndl.GDO_PTR_%%obj_symbol%%
+#define %%obj_symbol_pad%%  (*gdo_hndl.GDO_PTR_%%obj_symbol%%)
 
 #endif // !GDO_DISABLE_ALIASING
 
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index de7df4d..f3248e5 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -149,7 +149,7 @@ namespace gdo
  * Aliases to raw symbol pointers
  */
 #define %%func_symbol_pad%%  gdo::GDO_PTR_%%func_symbol%%
-#define %%obj_symbol_pad%%  *gdo::GDO_PTR_%%obj_symbol%%
+#define %%obj_symbol_pad%%  (*gdo::GDO_PTR_%%obj_symbol%%)
 
 #endif // !GDO_DISABLE_ALIASING
 
-- 
2.43.0


From 283c0c7009cf51ba8500f2522dfda8cf0b9ef5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 02/32] fix: don't drop default library names that begin with
 the letters n, e or a

---
 src/generate.cpp | 56 +++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 277aa3a..fe3b3a1 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -151,50 +151,34 @@ std::string format_libname(const std::string &str, const std::string &pfx)
 {
     std::string lib_a, lib_w, out;
 
-    switch(str.front())
-    {
-    case 'N':
-    case 'n':
+    if (utils::prefixed_and_longer_case(str, "nq:")) {
         /* no quotes */
-        if (utils::prefixed_and_longer_case(str, "nq:")) {
-            lib_a = lib_w = str.substr(3);
-            break;
-        }
-        return {};
-
-    case 'E':
-    case 'e':
+        lib_a = lib_w = str.substr(3);
+    }
+    else if (utils::prefixed_and_longer_case(str, "ext:")) {
         /* quotes + file extension macro */
-        if (utils::prefixed_and_longer_case(str, "ext:")) {
-            auto sub = str.substr(4);
-            lib_a = quote_lib(sub, false) + ' ' + pfx + "_LIBEXTA";
-            lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
-            break;
-        }
-        return {};
-
-    case 'A':
-    case 'a':
+        auto sub = str.substr(4);
+        lib_a = quote_lib(sub, false) + ' ' + pfx + "_LIBEXTA";
+        lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
+    }
+    else if (utils::prefixed_and_longer_case(str, "api:")) {
         /* no quotes, API libname macro */
-        if (utils::prefixed_and_longer_case(str, "api:")) {
-            const std::regex reg("(.*?):(.*)");
-            std::smatch m;
-            auto sub = str.substr(4);
-
-            if (std::regex_match(sub, m, reg) && m.size() == 3) {
-                /* GDO_LIBNAMEA(xxx,0) */
-                lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
-                lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
-                break;
-            }
+        const std::regex reg("(.*?):(.*)");
+        std::smatch m;
+        auto sub = str.substr(4);
+
+        if (!std::regex_match(sub, m, reg) || m.size() != 3) {
+            return {};
         }
-        return {};
 
-    default:
+        /* GDO_LIBNAMEA(xxx,0) */
+        lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
+        lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
+    }
+    else {
         /* quote string */
         lib_a = quote_lib(str, false);
         lib_w = quote_lib(str, true);
-        break;
     }
 
     out = "#define " + pfx + "_HARDCODED_DEFAULT_LIBA " + lib_a + '\n' +
-- 
2.43.0


From 9b7625d034d9d048780b2b9579195c8eaa815353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 03/32] fix: don't alias functions that were made visible with
 GDO_WRAP_VISIBILITY in single header mode

---
 src/templates/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2e09dfe..2796997 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -975,7 +975,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     !defined(GDO_DISABLE_ALIASING)
 
 /* aliases to raw function pointers */
-#if !defined(GDO_WRAP_IS_VISIBLE)
+#if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
 #endif
 
-- 
2.43.0


From 4eb13b939169c1185013f2439b43e968781d1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 04/32] fix: -param=create: don't pass on `...' as a parameter
 name

---
 src/parameter_names.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5599122..64e1c75 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -240,7 +240,6 @@ bool parse::create_parameter_names(proto_t &proto, std::string &msg)
         /* don't append anything to `...' */
         if (v.size() == 1 && v.front() == "...") {
             proto.args += "... , ";
-            proto.param_names += "... , ";
             continue;
         }
 
-- 
2.43.0


From 37604c46b33c1e07a6137df1078b0d770492763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 05/32] fix: offset and device numbers in /proc/self/maps are
 hexadecimal

---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 90fa721..183b56d 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -157,7 +157,7 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
     while (getline(&line, &n, fp) != -1) {
         /* address start-end         mode offset   device inode      pathname */
         /* 7de29d200000-7de29d228000 r--p 00000000 103:01 2758110    /usr/lib/x86_64-linux-gnu/libc.so.6\n */
-        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*u %*u:%*u %*u %m[^\n]",
+        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*x %*x:%*x %*u %m[^\n]",
                         &start, &end, mode, &path);
 
         if (rv == 4 && lm->l_addr >= start && lm->l_addr < end) {
-- 
2.43.0


From 4d2c62c4e5c74c8c17eeab1f1e0c96d5c51a682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 06/32] fix: plugin loader: don't dereference NULL when out of
 memory

---
 src/templates/plugin.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/templates/plugin.c b/src/templates/plugin.c
index 449afa7..ae15fa9 100644
--- a/src/templates/plugin.c
+++ b/src/templates/plugin.c
@@ -33,9 +33,19 @@ GDO_LINKAGE gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
 
     /* allocate struct */
     gdo_plugin_t *plug = (gdo_plugin_t *)malloc(sizeof(gdo_plugin_t));
+
+    if (!plug) {
+        return NULL;
+    }
+
     plug->num = num;
     plug->list = (gdo_handle_t *)calloc(num, sizeof(gdo_handle_t));
 
+    if (!plug->list) {
+        free(plug);
+        return NULL;
+    }
+
     for (size_t i = 0; i < num; i++) {
         if (!files[i] || *files[i] == 0) {
             /* empty filename */
-- 
2.43.0


From dac79e1b990733daec1a39fed30abc358eb5402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 07/32] fix: minimal loaders: release a previously loaded
 library before loading another one

---
 src/templates/minimal.h         | 3 +++
 src/templates/minimal_cxxeh.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index 638d506..698720c 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -68,6 +68,9 @@ GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
         return "filename is empty";
     }
 
+    /* release a previously loaded library */
+    gdo_free_library();
+
     /* load library */
 #ifdef GDO_WINAPI
     gdo_hndl.handle = LoadLibraryA(filename);
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index f3248e5..fac00a0 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -107,6 +107,9 @@ namespace gdo
             throw LibraryError("<EMPTY>");
         }
 
+        /* release a previously loaded library */
+        free_library();
+
         /* load library */
 #ifdef GDO_WINAPI
         handle = ::LoadLibraryA(filename);
-- 
2.43.0


From 434aa6915b7284341ed254f69bc52acf3e286d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 08/32] fix: don't report "no error" if a failing call left no
 dlerror() message

---
 src/templates/c.c     | 5 ++++-
 src/templates/cxx.cpp | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2796997..8ff75b3 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -142,7 +142,10 @@ GDO_INLINE void _gdo_clear_error(void)
 GDO_INLINE void _gdo_save_error(const gdo_char_t *msg)
 {
     GDO_UNUSED_REF(msg);
-    _gdo_save_to_errbuf(dlerror());
+
+    /* dlerror() returns NULL if dlsym() has found a symbol whose value is NULL */
+    const char *err = dlerror();
+    _gdo_save_to_errbuf(err ? err : "unknown error");
 }
 
 /* sets the "no library was loaded" error message */
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index d83d613..9357ea3 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -339,7 +339,8 @@ void gdo::dl::clear_error()
 void gdo::dl::save_error(const std::string&)
 {
     const char *ptr = ::dlerror();
-    m_errmsg = ptr ? ptr : "";
+    /* dlerror() returns NULL if dlsym() has found a symbol whose value is NULL */
+    m_errmsg = ptr ? ptr : "unknown error";
 }
 
 
-- 
2.43.0


From 7b4fcd6fbda2526c521a816b4c5904387e484823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 09/32] fix: don't use the default library name as part of a
 format string

---
 src/templates/c.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 8ff75b3..3e0c71b 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -884,23 +884,25 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
 void _gdo_noop(void) {}
 #endif
 
-GDO_INLINE void _gdo_print_error(const gdo_char_t *fmt, const gdo_char_t *sym, const gdo_char_t *msg)
+GDO_INLINE void _gdo_print_error(const gdo_char_t *pfx, const gdo_char_t *sym, const gdo_char_t *msg)
 {
+    const gdo_char_t *fmt = _T("%s: %s: %s");
+
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
      * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, sym, msg);
+    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, pfx, sym, msg);
     MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
 # else
-    _ftprintf_s(stderr, fmt, sym, msg);
+    _ftprintf_s(stderr, fmt, pfx, sym, msg);
     _fputtc(_T('\n'), stderr);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
 
-    fprintf(stderr, fmt, sym, msg);
+    fprintf(stderr, fmt, pfx, sym, msg);
     fputc('\n', stderr);
 
 #endif //!_WIN32
@@ -943,9 +945,9 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 
     if (_gdo_tcsstr(msg, GDO_DEFAULT_LIB)) {
         /* library name is already part of error message */
-        _gdo_print_error(_T("error: %s: %s"), sym, msg);
+        _gdo_print_error(_T("error"), sym, msg);
     } else {
-        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB, sym, msg);
     }
 
     gdo_force_free_lib();
@@ -962,7 +964,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     }
 
     GDO_UNUSED_REF(load);
-    _gdo_print_error(_T("fatal error: %s: %s"), sym, msg);
+    _gdo_print_error(_T("fatal error"), sym, msg);
 
     abort();
 
-- 
2.43.0


From e42aa3e62b27508892fdc14a7d3a01b96c1defaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 10/32] fix: library path: set an error if the buffer is too
 small, clear the error of a failed dlinfo() if dladdr() succeeded

---
 src/templates/c.c     | 2 ++
 src/templates/cxx.cpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index 3e0c71b..3cbb637 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -822,6 +822,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     size_t len = strlen(lm->l_name) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
@@ -861,6 +862,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
     size_t len = strlen(path) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 9357ea3..b53bb76 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -447,6 +447,8 @@ bool gdo::dl::get_library_path_dlinfo(void)
     /* use dlinfo() to get a link map */
     struct link_map *lm = nullptr;
 
+    clear_error();
+
     if (::dlinfo(m_handle, RTLD_DI_LINKMAP, &lm) == -1) {
         save_error();
         return false;
@@ -479,6 +481,8 @@ bool gdo::dl::get_library_path_dladdr(void)
     /* use dladdr() to get the library path from a symbol pointer */
     Dl_info info;
 
+    clear_error();
+
     if (no_symbols_loaded()) {
         m_errmsg = "no symbols were loaded";
         return false;
-- 
2.43.0


From 6833c2ffaf84cdc4720d1af8c55e4400e63828b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 11/32] fix: library_path(): don't return the path of a library
 that was replaced through another object

---
 src/templates/cxx.cpp | 24 ++++++++++++++++++++++++
 src/templates/cxx.hpp |  7 +++++++
 2 files changed, 31 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index b53bb76..140e94c 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -38,6 +38,9 @@ gdo::dl::msgcb_t gdo::dl::m_message_callback = gdo::dl::default_message_callback
 /* library handle */
 gdo_hmod_t gdo::dl::m_handle = nullptr;
 
+/* counts how often a library was loaded or released */
+unsigned long gdo::dl::m_lib_count = 0;
+
 
 /* symbol pointers; symbol names must be prefixed to avoid macro expansion */
 %%type%% (*GDO_RAWPTR_%%func_symbol%%)(%%args%%) = nullptr;
@@ -504,6 +507,19 @@ bool gdo::dl::get_library_path_dladdr(void)
 #endif // !GDO_WINAPI
 
 
+/* the library could have been replaced through another object */
+void gdo::dl::clear_old_library_path()
+{
+    if (m_libpath_count != m_lib_count) {
+        m_libpath_count = m_lib_count;
+        m_libpath.clear();
+#ifdef GDO_WINAPI
+        m_wlibpath.clear();
+#endif
+    }
+}
+
+
 /* load symbol address */
 template<typename T>
 T gdo::dl::sym_load(const char *symbol)
@@ -543,6 +559,8 @@ bool gdo::dl::load_filename(const T &filename)
         return false;
     }
 
+    m_lib_count++;
+
     return true;
 }
 
@@ -838,6 +856,8 @@ bool gdo::dl::free(bool force)
     m_wlibpath.clear();
 #endif
 
+    m_lib_count++;
+
     /* set pointers back to NULL */
     m_handle = nullptr;
     GDO_RAWPTR_%%symbol%% = nullptr;
@@ -885,12 +905,14 @@ gdo::dl::msgcb_t gdo::dl::message_callback()
 /* get path of loaded library */
 std::string gdo::dl::library_path()
 {
+    clear_old_library_path();
     get_library_path<char>(m_libpath);
     return m_libpath;
 }
 
 std::wstring gdo::dl::library_path_w()
 {
+    clear_old_library_path();
     get_library_path<wchar_t>(m_wlibpath);
     return m_wlibpath;
 }
@@ -958,6 +980,8 @@ std::string gdo::dl::library_path()
         return {};
     }
 
+    clear_old_library_path();
+
     /* was the library path already saved? */
     if (!m_libpath.empty()) {
         return m_libpath;
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 3c02fff..2a07a4d 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -87,6 +87,11 @@ private:
 
     static gdo_hmod_t m_handle;
 
+    /* number of the currently loaded library and
+     * the one m_libpath/m_wlibpath belongs to */
+    static unsigned long m_lib_count;
+    unsigned long m_libpath_count = 0;
+
 #ifdef GDO_WINAPI
     bool m_convert_filename_to_wcs = false;
     std::string m_filename, m_libpath;
@@ -99,6 +104,8 @@ private:
     bool m_new_namespace = false;
     bool m_free_lib_in_dtor = true;
 
+    void clear_old_library_path();
+
     /* std::enable_if and std::is_same combined */
     template<typename T, typename U>
     using enable_if_same_bool = typename std::enable_if<std::is_same<T, U>::value, bool>::type;
-- 
2.43.0


From e3acc822bd812dfe04f9bd349a4625fccf6bcce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 12/32] fix: -templates-path: don't use a stale pointer to the
 license and filename macros templates

---
 src/data.cpp      | 3 +++
 src/gendlopen.hpp | 2 +-
 src/generate.cpp  | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index c3d0dd3..fef85c6 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -74,6 +74,9 @@ namespace /* anonymous */
 
         FILE *fp = ofs.file_pointer();
 
+        /* the template may have been loaded before */
+        data.clear();
+
         template_t entry;
         entry.maybe_keyword = false;
         entry.line_count = 1;
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index e3052d2..5a7fd57 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -106,7 +106,7 @@ private:
     void dump_templates(const char *dir);
 
     /* generate.cpp */
-    size_t save_data(templates::name file, const template_t *list);
+    size_t save_data(templates::name file, const template_t * const &ptr);
 
     /* substitute.cpp */
     size_t replace_function_prototypes(const std::string &entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index fe3b3a1..297ca48 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -371,11 +371,13 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
 
 /* save data, replace prefixes, return line count */
-size_t gendlopen::save_data(templates::name file, const template_t *list)
+size_t gendlopen::save_data(templates::name file, const template_t * const &ptr)
 {
     size_t total_lines = 0;
 
+    /* this may change the pointer */
     load_template(file);
+    const template_t *list = ptr;
 
     /* skip initial line directive */
     if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
-- 
2.43.0


From f9fa96b6e3735c73f2a76ad21929ece605833a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 13/32] fix: -templates-path: don't add extra lines to the
 loaded templates

---
 src/data.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index fef85c6..f5a3f5f 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -86,7 +86,7 @@ namespace /* anonymous */
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
             } else {
-                entry.data = "#line 1 \"" + std::string(file) + "\"\n";
+                entry.data = "#line 1 \"" + std::string(file) + '"';
             }
 
             data.push_back(entry);
@@ -95,7 +95,11 @@ namespace /* anonymous */
         /* read lines */
         while (rv) {
             rv = utils::get_lines(fp, entry);
-            data.push_back(entry);
+
+            /* don't add an empty line after the last linefeed */
+            if (rv || !entry.data.empty()) {
+                data.push_back(entry);
+            }
         }
 
         entry = { {}, 0, 0 };
-- 
2.43.0


From 0929f46e11fe35452f4a9699b6591a8c7fd091d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 14/32] fix: -dump-templates: don't save the built-in #line
 directive

---
 src/data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index f5a3f5f..7cf8e88 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -120,6 +120,11 @@ namespace /* anonymous */
 
         std::cout << "saving " << path << std::endl;
 
+        /* the initial line directive is not part of the template */
+        if (strncmp(list->data.c_str(), "#line", 5) == 0) {
+            list++;
+        }
+
         for ( ; list->line_count != 0; list++) {
             if (list->line_count == 1) {
                 ofs << list->data << '\n';
-- 
2.43.0


From bd574aa17a9a0d0c49c489241a154c3dd5eff1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 15/32] fix: report exceptions of the standard library instead
 of aborting

---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index cc032bf..206b522 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <exception>
 #include <iostream>
 #include <string>
 #ifdef _WIN32
@@ -66,6 +67,11 @@ int main(int argc, char **argv)
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
         return 1;
     }
+    catch (const std::exception &e) {
+        /* i.e. std::bad_alloc or std::filesystem::filesystem_error */
+        std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From d1da469c3e1b035adbeb48b2fb23756d3b72900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 16/32] fix: report an error if the output could not be written
 completely

---
 src/cio_ofstream.cpp | 11 ++++++++++-
 src/cio_ofstream.hpp |  2 +-
 src/data.cpp         |  4 ++++
 src/gendlopen.cpp    |  6 ++++++
 src/gendlopen.hpp    |  3 +++
 src/generate.cpp     | 13 ++++++++++++-
 src/options.cpp      | 18 ++++++++++++++----
 7 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index a531de6..3b9b53b 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -52,13 +52,22 @@ bool ofstream::open(const std::string &file)
     return open_path(file);
 }
 
-void ofstream::close()
+/* returns false if any of the output could not be written */
+bool ofstream::close()
 {
+    bool rv;
+
     if (m_ofs.is_open()) {
         m_ofs.close();
+        rv = !m_ofs.fail();
+    } else {
+        std::cout.flush();
+        rv = !std::cout.fail();
     }
 
     m_optr = &std::cout;
+
+    return rv;
 }
 
 } /* namespace cio */
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 400aebe..833fa50 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -64,7 +64,7 @@ public:
     bool open(const std::filesystem::path &path);
     bool open(const std::string &file);
 
-    void close();
+    bool close();
 
     /* overloading "<<" operator */
     template<class T>
diff --git a/src/data.cpp b/src/data.cpp
index 7cf8e88..5d4ec73 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -141,6 +141,10 @@ namespace /* anonymous */
                 ofs << '\n';
             }
         }
+
+        if (!ofs.close()) {
+            throw gendlopen::error(std::string("failed to write file: ") + path);
+        }
     }
 }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index cb8a80a..8db09ea 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -210,6 +210,8 @@ void gendlopen::process_custom_template()
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
+
+    save::close_ofstream(m_output);
 }
 
 
@@ -249,5 +251,9 @@ void gendlopen::print_symbols_to_stdout()
     }
 
     std::cout << "\n/***  " << (m_objects.size() + m_prototypes.size()) << " matches  ***/" << std::endl;
+
+    if (!out.close()) {
+        throw error("failed to write to standard output");
+    }
 }
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index 5a7fd57..c6bf6a9 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -40,6 +40,9 @@ namespace save
 
     /* open output file stream for writing */
     void open_ofstream(const std::filesystem::path &opath, bool force);
+
+    /* close output file stream; throws an error if the output is incomplete */
+    void close_ofstream(const std::filesystem::path &opath);
 }
 
 
diff --git a/src/generate.cpp b/src/generate.cpp
index 297ca48..6950fe2 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -192,6 +192,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
 size_t note(bool print_date)
 {
     std::stringstream strm;
+    strm.exceptions(std::ios_base::badbit | std::ios_base::failbit);
 
     strm << "// Do not edit this file!\n"
         "// It was automatically generated by gendlopen";
@@ -354,6 +355,14 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 }
 
+/* close output file stream; throws an error if the output is incomplete */
+void close_ofstream(const fs::path &opath)
+{
+    if (!ofs.close()) {
+        throw gendlopen::error("failed to write output: " + opath.string());
+    }
+}
+
 size_t line_directive(const size_t lines, bool line_directive, const std::string &header_name)
 {
     if (!line_directive) {
@@ -505,7 +514,7 @@ void gendlopen::generate()
     lines += save::line_directive(lines, m_line_directive, header_name);
     save::header_guard_end(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    save::ofs.close();
+    save::close_ofstream(ofhdr);
 
 
     /**************** body data ****************/
@@ -517,6 +526,8 @@ void gendlopen::generate()
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
+
+        save::close_ofstream(ofbody);
     }
 }
 
diff --git a/src/options.cpp b/src/options.cpp
index ae2fa63..f7860c0 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -67,6 +67,16 @@ namespace /* anonymous */
     {
         return ((ptr = get_option_len(token, opt, N-1)) != NULL);
     }
+
+    /* exit after output was printed to STDOUT */
+    [[noreturn]] void exit_success()
+    {
+        if (!std::cout.flush()) {
+            throw gendlopen::error("failed to write to standard output");
+        }
+
+        std::exit(0);
+    }
 }
 
 
@@ -93,17 +103,17 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             }
         } else if (o.flag("?") || o.flag("help")) {
             help::print(argv[0]);
-            std::exit(0);
+            exit_success();
         } else if (o.flag("full-help")) {
             help::print_full(argv[0]);
-            std::exit(0);
+            exit_success();
         } else if (o.flag("ast-all-symbols")) {
             ast_all_symbols(true);
         } else if (o.arg(p, "D")) {
             add_def(p);
         } else if (o.arg(p, "dump-templates")) {
             dump_templates(p);
-            std::exit(0);
+            exit_success();
         } else if (o.arg(p, "format")) {
             format(p);
         } else if (o.flag("force")) {
@@ -140,7 +150,7 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             templates_path(p);
         } else if (o.flag("version")) {
             std::cout << "gendlopen " << gendlopen::version() << std::endl;
-            std::exit(0);
+            exit_success();
         } else {
             throw gendlopen::error_cmd(std::string("unknown option: ") + o.current());
         }
-- 
2.43.0


From a47fccf781828c0d25dd2b309075cb07d3cff990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 17/32] fix: don't mistake a read error for the end of a
 template file

---
 src/data.cpp      | 4 ++++
 src/gendlopen.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index 5d4ec73..3b93a41 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -102,6 +102,10 @@ namespace /* anonymous */
             }
         }
 
+        if (::ferror(fp)) {
+            throw gendlopen::error("failed to read from file: " + path);
+        }
+
         entry = { {}, 0, 0 };
         data.push_back(entry);
     }
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 8db09ea..3062ce1 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -211,6 +211,10 @@ void gendlopen::process_custom_template()
         m_substitute_lineno += entry.line_count;
     }
 
+    if (::ferror(fp)) {
+        throw error("failed to read from file: " + m_custom_template);
+    }
+
     save::close_ofstream(m_output);
 }
 
-- 
2.43.0


From 326106462c0717eeec5931079510fd45e1f46331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 18/32] fix: gen_templates_data: check for read and write
 errors

---
 src/gen_templates_data.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index e55adcd..1948634 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -52,6 +52,12 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
     /* concat path */
     const size_t len = strlen(in_dir) + strlen(in_file) + 2;
     char *buf = malloc(len);
+
+    if (!buf) {
+        perror("malloc()");
+        exit(1);
+    }
+
     snprintf(buf, len, "%s/%s", in_dir, in_file);
 
     /* open input file */
@@ -61,8 +67,6 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
         exit(1);
     }
 
-    free(buf);
-
     /* write output */
     fprintf(fpOut, "/* %s */\n", in_file);
     fprintf(fpOut, "static const template_t %s[] = {\n", varName);
@@ -158,6 +162,12 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
     fprintf(fpOut, "%s", "};\n");
     fprintf(fpOut, "const template_t *ptr_%s = %s;\n\n", varName, varName);
 
+    if (ferror(fp)) {
+        fprintf(stderr, "error: failed to read from file\n-> %s\n", buf);
+        exit(1);
+    }
+
+    free(buf);
     fclose(fp);
 }
 
@@ -191,7 +201,14 @@ int main(int argc, char **argv)
 
     fprintf(fp, "%s\n", "} /* end namespace templates */");
 
-    fclose(fp);
+    /* check if everything was written */
+    const bool failed = (ferror(fp) != 0);
+
+    if (fclose(fp) != 0 || failed) {
+        perror("fclose()");
+        fprintf(stderr, "error: failed to write output\n[%s]\n", argv[2]);
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 1e027437ffe57a5b51fd0833af3f362cee7f77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 19/32] fix: don't overwrite an output file that was created
 after the check for existing files

---
 src/cio_ofstream.cpp |  4 ++--
 src/cio_ofstream.hpp | 16 +++++++++++++---
 src/generate.cpp     |  4 ++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index 3b9b53b..fc9308d 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -36,9 +36,9 @@ ofstream::~ofstream()
     close();
 }
 
-bool ofstream::open(const std::filesystem::path &path)
+bool ofstream::open(const std::filesystem::path &path, bool noreplace)
 {
-    return open_path(path);
+    return open_path(path, noreplace);
 }
 
 bool ofstream::open(const std::string &file)
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 833fa50..d2f225b 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -43,10 +43,20 @@ private:
     std::ostream *m_optr = &std::cout;
 
     template<class T>
-    bool open_path(const T &path)
+    bool open_path(const T &path, bool noreplace = false)
     {
+        auto mode = std::ios_base::out | std::ios_base::binary;
+
+#ifdef __cpp_lib_ios_noreplace
+        if (noreplace) {
+            mode |= std::ios_base::noreplace;
+        }
+#else
+        static_cast<void>(noreplace);
+#endif
+
         close();
-        m_ofs.open(path, std::ios_base::out | std::ios_base::binary);
+        m_ofs.open(path, mode);
 
         if (m_ofs.is_open()) {
             m_optr = dynamic_cast<std::ostream *>(&m_ofs);
@@ -61,7 +71,7 @@ public:
     ofstream();
     ~ofstream();
 
-    bool open(const std::filesystem::path &path);
+    bool open(const std::filesystem::path &path, bool noreplace = false);
     bool open(const std::string &file);
 
     bool close();
diff --git a/src/generate.cpp b/src/generate.cpp
index 6950fe2..9de1dbd 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -349,8 +349,8 @@ void open_ofstream(const fs::path &opath, bool force)
         throw gendlopen::error("file already exists: " + opath.string());
     }
 
-    /* open file for writing */
-    if (!ofs.open(opath)) {
+    /* open file for writing; don't overwrite a file that was created meanwhile */
+    if (!ofs.open(opath, true)) {
         throw gendlopen::error("failed to open file for writing: " + opath.string());
     }
 }
-- 
2.43.0


From f8da4e95e254986720dd06cbc61c688abcaeccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 20/32] fix: Clang AST: keep the `...' of variadic functions

---
 src/clang_ast.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 26c8cee..58136e1 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -129,6 +129,22 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     return true;
 }
 
+/* check if the parameter list that begins at `pos' ends with `...' */
+bool is_variadic(const std::string &type, size_t pos)
+{
+    int depth = 0;
+
+    for ( ; pos < type.size(); pos++) {
+        if (type[pos] == '(') {
+            depth++;
+        } else if (type[pos] == ')' && --depth == 0) {
+            return type.substr(0, pos).ends_with("...");
+        }
+    }
+
+    return false;
+}
+
 } /* end anonymous namespace */
 
 
@@ -216,6 +232,11 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
+        /* there's no ParmVarDecl line for `...' */
+        if (is_variadic(m.str(2), pos)) {
+            proto.args += "..., ";
+        }
+
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
-- 
2.43.0


From c5fd99574ff94e25b21e51cfc378761722519ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 21/32] fix: minimal template: don't declare the static handle
 as inline

---
 src/templates/minimal.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index 698720c..35ec681 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -6,9 +6,11 @@
 #endif
 
 #ifdef GDO_STATIC
-# define GDO_LINKAGE  static inline
+# define GDO_LINKAGE      static inline
+# define GDO_OBJ_LINKAGE  static
 #else
-# define GDO_LINKAGE  /**/
+# define GDO_LINKAGE      /**/
+# define GDO_OBJ_LINKAGE  /**/
 #endif
 
 
@@ -29,7 +31,7 @@ typedef struct gdo_handle
 
 } gdo_handle_t;
 
-GDO_LINKAGE gdo_handle_t gdo_hndl;
+GDO_OBJ_LINKAGE gdo_handle_t gdo_hndl;
 
 
 /**
-- 
2.43.0


From 29e0668ccab1b6ec6c26473c690fef8e215a89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 22/32] fix: C++ template failed to compile with const or
 volatile objects

---
 src/templates/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 140e94c..69944e6 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -432,7 +432,7 @@ bool gdo::dl::get_library_path(void)
         auto info = reinterpret_cast<struct ld_info *>(buf);
 
         if (false
-            || aix_libpath(info, reinterpret_cast<uint8_t *>(GDO_RAWPTR_%%symbol%%))
+            || aix_libpath(info, (uint8_t *)GDO_RAWPTR_%%symbol%%)
         ) {
             return true;
         }
@@ -492,7 +492,7 @@ bool gdo::dl::get_library_path_dladdr(void)
     }
 
     if (false
-        || _gdo_call_dladdr(reinterpret_cast<void *>(GDO_RAWPTR_%%symbol%%), &info)
+        || _gdo_call_dladdr((void *)GDO_RAWPTR_%%symbol%%, &info)
     ) {
         m_libpath = info.dli_fname;
         return true;
-- 
2.43.0


From d6559057b5169d6cd2a2dc1d64d40a29a5c0ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 23/32] fix: FreeLibrary() returns a nonzero value, not TRUE,
 on success

The release of a library was reported as failed (and the handle was kept)
whenever FreeLibrary() returned a nonzero value other than 1.
---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 183b56d..76954f4 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -13,7 +13,7 @@ GDO_INLINE void *_gdo_call_dlsym(gdo_hmod_t handle, const char *symbol)
 GDO_INLINE bool _gdo_call_dlclose(gdo_hmod_t handle)
 {
 #ifdef GDO_WINAPI
-    return (FreeLibrary(handle) == TRUE);
+    return (FreeLibrary(handle) != FALSE);
 #else
     return (dlclose(handle) == 0);
 #endif
-- 
2.43.0


From 4ec2222b603ffdecc1724b506995587af7818be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 24/32] fix: handle failures before calling LoadLibraryEx() in
 the C template

A failed allocation of the file name's copy was dereferenced, and the error
saved when the conversion of the file name fails was replaced with whatever
GetLastError() happened to return.
---
 src/templates/c.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 3cbb637..294c7a5 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -231,7 +231,10 @@ GDO_LINKAGE bool gdo_load_lib_args(const gdo_char_t *filename, int flags, bool n
     _gdo_load_library(filename, flags, new_namespace);
 
     if (!gdo_lib_is_loaded()) {
-        _gdo_save_error(filename);
+        /* keep an error that was saved before calling the system's loader */
+        if (gdo_hndl.errbuf[0] == 0) {
+            _gdo_save_error(filename);
+        }
         return false;
     }
 
@@ -255,6 +258,12 @@ GDO_INLINE void _gdo_load_library(const gdo_char_t *filename, int flags, bool ne
     /* copy filename and replace path separators */
     gdo_char_t *copy = _tcsdup(filename);
 
+    if (!copy) {
+        GDO_SET_LAST_ERRNO(ERROR_NOT_ENOUGH_MEMORY);
+        _gdo_save_to_errbuf(filename);
+        return;
+    }
+
     for (gdo_char_t *p = copy; *p != 0; p++) {
         if (*p == _T('/')) {
             *p = _T('\\');
@@ -285,7 +294,7 @@ GDO_INLINE wchar_t *_gdo_mbstowcs(const char *filename)
         wcs = (wchar_t *)malloc(len * sizeof(wchar_t));
 
         /* convert string */
-        if (mbstowcs_s(&n, wcs, len, filename, _TRUNCATE) == 0 && n == len) {
+        if (wcs && mbstowcs_s(&n, wcs, len, filename, _TRUNCATE) == 0 && n == len) {
             return wcs;
         }
 
-- 
2.43.0


From e67ba420fea2b7db3effc4c761a556f071e7f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 25/32] fix: keep the C++ template's error message on a failed
 file name conversion

It was replaced with whatever GetLastError() happened to return.
---
 src/templates/cxx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 69944e6..373422c 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -555,7 +555,10 @@ bool gdo::dl::load_filename(const T &filename)
     load_lib(filename);
 
     if (!lib_loaded()) {
-        save_error(filename);
+        /* keep an error that was saved before calling the system's loader */
+        if (m_errmsg.empty()) {
+            save_error(filename);
+        }
         return false;
     }
 
-- 
2.43.0


From 0627599c042a45b96f24a57d0a4455e0f4035fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 26/32] fix: strings converted between char and wchar_t had a
 trailing null character

It ended up within error messages and in the file names returned by the C++
template's filename() and filename_w().
---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 373422c..a7c4355 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -132,6 +132,8 @@ bool gdo::dl::convert_string(const std::basic_string<T_in> &str_in, std::basic_s
 
         /* convert string */
         if (mbs_wcs_conv(&n, buf, len, str_in.c_str()) && n == len) {
+            /* remove the null terminator */
+            str_out.resize(len - 1);
             return true;
         }
     }
-- 
2.43.0


From f2a54b42e39dde7b14ff8da8b0f48d067729d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 27/32] fix: C++ template with auto-loading failed to compile
 on Windows with _UNICODE

GDO_DEFAULT_LIB is a wide character string in this case and GDO_DEFAULT_LIBA
may be undefined.
---
 src/templates/cxx.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index a7c4355..5a0bc1e 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1070,13 +1070,14 @@ namespace gdo
             UNUSED_REF(load);
 # endif
 
-            std::string msg = _loader.error();
+            const std::string msg = _loader.error();
+            const std::string lib = _loader.filename();
 
-            if (msg.find(GDO_DEFAULT_LIBA) != std::string::npos) {
+            if (msg.find(lib) != std::string::npos) {
                 /* library name is already part of error message */
                 sstr << "error: " << sym << ": " << msg;
             } else {
-                sstr << "error: " GDO_DEFAULT_LIB ": " << sym << ": " << msg;
+                sstr << "error: " << lib << ": " << sym << ": " << msg;
             }
 
             msg_callback(sstr.str().c_str());
-- 
2.43.0


From ac79da81d31cd866d8a718a1a3788b93f5fdabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 28/32] fix: overlapping buffers when showing an error with
 GDO_USE_DLOPEN on Windows

The message box text was written to gdo_hndl.errbuf while being formatted
from gdo_hndl.errbuf.
---
 src/templates/c.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 294c7a5..2640d74 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -902,10 +902,10 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *pfx, const gdo_char_t *sym, c
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
-    /* we can safely use gdo_hndl.errbuf, the last error message
-     * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, pfx, sym, msg);
-    MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
+    /* don't use gdo_hndl.errbuf, with dlopen() it's where the last error
+     * message is; the path is not needed anymore */
+    _sntprintf_s(gdo_hndl.libpath, GDO_BUFLEN, _TRUNCATE, fmt, pfx, sym, msg);
+    MessageBox(NULL, gdo_hndl.libpath, _T("Error"), MB_OK | MB_ICONERROR);
 # else
     _ftprintf_s(stderr, fmt, pfx, sym, msg);
     _fputtc(_T('\n'), stderr);
-- 
2.43.0


From 2b0ed66b86efe7ca9b6429e23f6689bff201b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 29/32] fix: C template mixed narrow and wide strings with
 GDO_USE_DLOPEN and _UNICODE

gdo_char_t is always char with the dlopen() API, but on Windows the strings
and string functions were wide characters ones if _UNICODE was defined.
---
 src/templates/c.c | 19 ++++++++++++-------
 src/templates/c.h |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2640d74..f6c83ba 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -61,7 +61,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void);
 /* strstr() / wcsstr() */
 GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_char_t *needle)
 {
-#ifdef _WIN32
+#ifdef GDO_WINAPI
     return _tcsstr(haystack, needle);
 #else
     return strstr(haystack, needle);
@@ -70,7 +70,7 @@ GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_c
 
 
 /* snprintf() / snwprintf() */
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # define GDO_SNPRINTF(DEST, FORMAT, ...) \
     _sntprintf_s(DEST, _countof(DEST), _TRUNCATE, FORMAT, __VA_ARGS__)
 #else
@@ -899,24 +899,29 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *pfx, const gdo_char_t *sym, c
 {
     const gdo_char_t *fmt = _T("%s: %s: %s");
 
-#ifdef _WIN32
+#if defined(_WIN32) && defined(GDO_USE_MESSAGE_BOX)
 
-# ifdef GDO_USE_MESSAGE_BOX
     /* don't use gdo_hndl.errbuf, with dlopen() it's where the last error
      * message is; the path is not needed anymore */
+# ifdef GDO_WINAPI
     _sntprintf_s(gdo_hndl.libpath, GDO_BUFLEN, _TRUNCATE, fmt, pfx, sym, msg);
     MessageBox(NULL, gdo_hndl.libpath, _T("Error"), MB_OK | MB_ICONERROR);
 # else
+    snprintf(gdo_hndl.libpath, GDO_BUFLEN, fmt, pfx, sym, msg);
+    MessageBoxA(NULL, gdo_hndl.libpath, "Error", MB_OK | MB_ICONERROR);
+# endif
+
+#elif defined(GDO_WINAPI)
+
     _ftprintf_s(stderr, fmt, pfx, sym, msg);
     _fputtc(_T('\n'), stderr);
-# endif //GDO_USE_MESSAGE_BOX
 
-#else //!_WIN32
+#else //!GDO_WINAPI
 
     fprintf(stderr, fmt, pfx, sym, msg);
     fputc('\n', stderr);
 
-#endif //!_WIN32
+#endif //!GDO_WINAPI
 }
 
 /* used by wrapper functions */
diff --git a/src/templates/c.h b/src/templates/c.h
index ff99f12..2849315 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -2,7 +2,7 @@
 /*                                   C API                                   */
 /*****************************************************************************/
 
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # include <tchar.h>
 #else
 # undef _T
-- 
2.43.0


From 9620fca8b58e4e134b34d00fcda65e1a1a4b8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 30/32] fix: report why auto-loading could not open the library

---
 src/templates/c.c     | 27 +++++++++++++--------------
 src/templates/cxx.cpp | 27 +++++++++++++--------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index f6c83ba..d495c4c 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -938,24 +938,23 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     /* set auto-release, ignore errors */
     gdo_enable_autorelease();
 
-    /* load library */
-    if (!gdo_lib_is_loaded()) {
-        gdo_load_lib();
-    }
-
+    /* load library; don't try to load symbols if this fails,
+     * as it would overwrite the error message */
+    if (gdo_lib_is_loaded() || gdo_load_lib()) {
 # ifdef GDO_ENABLE_AUTOLOAD_LAZY
-    /* load a specific symbol */
-    if (gdo_load_symbol(load)) {
-        return;
-    }
+        /* load a specific symbol */
+        if (gdo_load_symbol(load)) {
+            return;
+        }
 # else
-    GDO_UNUSED_REF(load);
+        GDO_UNUSED_REF(load);
 
-    /* load all symbols */
-    if (gdo_load_all_symbols()) {
-        return;
-    }
+        /* load all symbols */
+        if (gdo_load_all_symbols()) {
+            return;
+        }
 # endif
+    }
 
     msg = gdo_last_error();
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 5a0bc1e..77b1ee0 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1051,24 +1051,23 @@ namespace gdo
 
 #ifdef GDO_ENABLE_AUTOLOAD
 
-            /* load library */
-            if (!_loader.lib_loaded()) {
-                _loader.load();
-            }
-
+            /* load library; don't try to load symbols if this fails,
+             * as it would overwrite the error message */
+            if (_loader.lib_loaded() || _loader.load()) {
 # ifdef GDO_ENABLE_AUTOLOAD_LAZY
-            /* load a specific symbol */
-            if (_loader.load_symbol(load)) {
-                return;
-            }
+                /* load a specific symbol */
+                if (_loader.load_symbol(load)) {
+                    return;
+                }
 # else
-            /* load all symbols */
-            if (_loader.load_all_symbols()) {
-                return;
-            }
+                /* load all symbols */
+                if (_loader.load_all_symbols()) {
+                    return;
+                }
 
-            UNUSED_REF(load);
+                UNUSED_REF(load);
 # endif
+            }
 
             const std::string msg = _loader.error();
             const std::string lib = _loader.filename();
-- 
2.43.0


From 1e73efae624f4b69ea83f8aa4a2c7b2a07a158ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 31/32] fix: -dump-templates failed if the directory was
 created by another process meanwhile

---
 src/data.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data.cpp b/src/data.cpp
index 3b93a41..232064c 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -239,7 +239,8 @@ void gendlopen::dump_templates(const char *dir)
 {
     auto st = fs::symlink_status(dir);
 
-    if (!fs::exists(st) && !fs::create_directories(dir)) {
+    /* the directory may have been created by someone else meanwhile */
+    if (!fs::exists(st) && !fs::create_directories(dir) && !fs::is_directory(dir)) {
         throw error(std::string("failed to create directory: ") + dir);
     }
 
-- 
2.43.0


From 654fac811e50aa5c68703d692a6af99ace4bf76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:29 +0000
Subject: [PATCH 32/32] fix: embedded templates were corrupted where a
 hexadecimal digit follows a non-ASCII or control character

The packer wrote such characters as \xNN, which swallows the digits that
follow: the text was changed or the generated file did not compile.
---
 src/gen_templates_data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index 1948634..ce38bf5 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -145,7 +145,8 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
 
         default:
             if (c < ' ' || c > '~') {
-                fprintf(fpOut, "\\x%02X", (unsigned char)c);
+                /* octal: a hexadecimal escape would swallow digits that follow */
+                fprintf(fpOut, "\\%03o", (unsigned char)c);
             } else {
                 fprintf(fpOut, "%c", (char)c);
             }
-- 
2.43.0

