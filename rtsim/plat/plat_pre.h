/* Simulated target platforms: every standard header the generated code uses is read first with the
 * host's own macros, then the macros are changed to those of the platform simulated (RT_PLAT_*).
 * The platform's own headers (windows.h, tchar.h, sys/ldr.h) are the stand-ins beside this file and
 * their functions are implemented by the simulator. */
#ifndef RT_PLAT_PRE_H
#define RT_PLAT_PRE_H
#ifndef _GNU_SOURCE
# define _GNU_SOURCE
#endif
#ifndef RT_PLAT_WINAPI
# include <dlfcn.h>
# include <link.h>
# include <linux/fs.h>
# include <sys/ioctl.h>
#endif
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <wchar.h>
#ifdef __cplusplus
# include <algorithm>
# include <cstdlib>
# include <cstring>
# include <iostream>
# include <iterator>
# include <sstream>
# include <stdexcept>
# include <string>
# include <type_traits>
# include <utility>
# include <vector>
#else
# include <stdbool.h>
#endif

#ifdef RT_PLAT_PMQ          /* Linux with glibc, newer kernel headers */
# ifndef PROCMAP_QUERY
struct procmap_query {
    __u64 size, query_flags, query_addr, vma_start, vma_end, vma_flags, vma_page_size, vma_offset, inode;
    __u32 dev_major, dev_minor, vma_name_size, build_id_size;
    __u64 vma_name_addr, build_id_addr;
};
enum { PROCMAP_QUERY_VMA_READABLE = 1, PROCMAP_QUERY_VMA_WRITABLE = 2, PROCMAP_QUERY_VMA_EXECUTABLE = 4, PROCMAP_QUERY_VMA_SHARED = 8,
       PROCMAP_QUERY_COVERING_OR_NEXT_VMA = 0x10, PROCMAP_QUERY_FILE_BACKED_VMA = 0x20 };
#  define PROCMAP_QUERY _IOWR('f', 17, struct procmap_query)
# endif
#else
# undef __GLIBC__
# undef __gnu_linux__
# if defined(RT_PLAT_MUSL) || defined(RT_PLAT_ANDROID)
#  define RT_KEEP_LINUX
# endif
# ifdef RT_PLAT_ANDROID
#  define __ANDROID__ 1
# endif
# ifndef RT_KEEP_LINUX
#  undef __linux__
#  undef __linux
#  undef linux
# endif
# ifdef RT_PLAT_BSD
#  define __FreeBSD__ 14
# endif
# ifdef RT_PLAT_SUN
#  define __sun 1
# endif
# ifdef RT_PLAT_MAC
#  define __APPLE__ 1
# endif
# ifdef RT_PLAT_AIX
#  define _AIX 1
#  undef RTLD_MEMBER
#  define RTLD_MEMBER 0x00040000
# endif
# ifdef RT_PLAT_WIN
#  define _WIN32 1
#  ifdef RT_PLAT_MINGW
#   define __MINGW32__ 1
#  endif
#  ifdef RT_PLAT_WIDE
#   define UNICODE 1
#   define _UNICODE 1
#  endif
/* part of the Windows C library's stdio.h, stdlib.h and string.h */
#  define _TRUNCATE ((size_t)-1)
#  define _countof(a) (sizeof(a) / sizeof((a)[0]))
#  ifdef __cplusplus
extern "C" {
#  endif
int _snprintf_s(char *, size_t, size_t, const char *, ...);
int _snwprintf_s(wchar_t *, size_t, size_t, const wchar_t *, ...);
int fprintf_s(FILE *, const char *, ...);
int fwprintf_s(FILE *, const wchar_t *, ...);
char *_strdup(const char *);
wchar_t *_wcsdup(const wchar_t *);
int mbstowcs_s(size_t *, wchar_t *, size_t, const char *, size_t);
int wcstombs_s(size_t *, char *, size_t, const wchar_t *, size_t);
int rt_fputwc(wchar_t, FILE *);
#  ifdef __cplusplus
}
#  endif
# endif
#endif
#endif
