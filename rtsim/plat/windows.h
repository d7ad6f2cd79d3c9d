/* stand-in for the parts of windows.h the generated code uses */
#ifndef RT_WINDOWS_H
#define RT_WINDOWS_H
#include <stdarg.h>
#include <stddef.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int BOOL;
typedef unsigned int DWORD;
typedef void *HANDLE;
typedef void *HLOCAL;
struct HWND__; typedef struct HWND__ *HWND;
struct HINSTANCE__ { int unused; };
typedef struct HINSTANCE__ *HINSTANCE;
typedef HINSTANCE HMODULE;
typedef long long (*FARPROC)(void);
#define TRUE 1
#define FALSE 0
#define WINAPI
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x00000100
#define FORMAT_MESSAGE_IGNORE_INSERTS  0x00000200
#define FORMAT_MESSAGE_FROM_SYSTEM     0x00001000
#define FORMAT_MESSAGE_MAX_WIDTH_MASK  0x000000FF
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((((unsigned short)(s)) << 10) | (unsigned short)(p))
#define ERROR_SUCCESS 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_OUTOFMEMORY 14
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_INVALID_NAME 123
#define ERROR_MOD_NOT_FOUND 126
#define ERROR_PROC_NOT_FOUND 127
#define ERROR_ALREADY_EXISTS 183
#define ERROR_NO_UNICODE_TRANSLATION 1113
#define ERROR_NOT_FOUND 1168
#define DONT_RESOLVE_DLL_REFERENCES 0x1
#define LOAD_LIBRARY_AS_DATAFILE 0x2
#define LOAD_WITH_ALTERED_SEARCH_PATH 0x8
#define LOAD_IGNORE_CODE_AUTHZ_LEVEL 0x10
#define LOAD_LIBRARY_SEARCH_DEFAULT_DIRS 0x1000
#define MB_OK 0
#define MB_ICONERROR 0x10
HMODULE LoadLibraryA(const char *);
HMODULE LoadLibraryW(const wchar_t *);
HMODULE LoadLibraryExA(const char *, HANDLE, DWORD);
HMODULE LoadLibraryExW(const wchar_t *, HANDLE, DWORD);
BOOL FreeLibrary(HMODULE);
FARPROC GetProcAddress(HMODULE, const char *);
DWORD GetLastError(void);
void SetLastError(DWORD);
DWORD FormatMessageA(DWORD, const void *, DWORD, DWORD, char *, DWORD, va_list *);
DWORD FormatMessageW(DWORD, const void *, DWORD, DWORD, wchar_t *, DWORD, va_list *);
HLOCAL LocalFree(HLOCAL);
DWORD GetModuleFileNameA(HMODULE, char *, DWORD);
DWORD GetModuleFileNameW(HMODULE, wchar_t *, DWORD);
int MessageBoxA(HWND, const char *, const char *, unsigned);
int MessageBoxW(HWND, const wchar_t *, const wchar_t *, unsigned);
#ifdef __cplusplus
}
#endif
#ifdef UNICODE
# define LoadLibrary LoadLibraryW
# define LoadLibraryEx LoadLibraryExW
# define FormatMessage FormatMessageW
# define GetModuleFileName GetModuleFileNameW
# define MessageBox MessageBoxW
#else
# define LoadLibrary LoadLibraryA
# define LoadLibraryEx LoadLibraryExA
# define FormatMessage FormatMessageA
# define GetModuleFileName GetModuleFileNameA
# define MessageBox MessageBoxA
#endif
#endif
