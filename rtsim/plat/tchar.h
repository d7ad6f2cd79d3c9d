/* stand-in for the parts of tchar.h the generated code uses */
#ifndef RT_TCHAR_H
#define RT_TCHAR_H
#ifdef _UNICODE
# define __T(x) L##x
# define _tcsdup _wcsdup
# define _tcschr wcschr
# define _tcsstr wcsstr
# define _tcslen wcslen
# define _tcscmp wcscmp
# define _sntprintf_s _snwprintf_s
# define _ftprintf_s fwprintf_s
# define _fputtc rt_fputwc
typedef wchar_t TCHAR;
#else
# define __T(x) x
# define _tcsdup _strdup
# define _tcschr strchr
# define _tcsstr strstr
# define _tcslen strlen
# define _tcscmp strcmp
# define _sntprintf_s _snprintf_s
# define _ftprintf_s fprintf_s
# define _fputtc fputc
typedef char TCHAR;
#endif
#define _T(x) __T(x)
#define _TEXT(x) __T(x)
#endif
