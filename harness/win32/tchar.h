#ifndef STUB_TCHAR_H
#define STUB_TCHAR_H
#include <wchar.h>
#include <string.h>
#include <stdio.h>
#ifdef _UNICODE
#define _T(x) L##x
#define _TEXT(x) _T(x)
#define _tcsstr wcsstr
#define _tcschr wcschr
#define _tcsrchr wcsrchr
#define _tcsdup _wcsdup
#define _tcslen wcslen
#define _tprintf wprintf
#define _ftprintf fwprintf
#define _fputts fputws
#define _sntprintf_s _snwprintf_s
#define _ftprintf_s fwprintf_s
#else
#define _T(x) x
#define _TEXT(x) _T(x)
#define _tcsstr strstr
#define _tcschr strchr
#define _tcsrchr strrchr
#define _tcsdup _strdup
#define _tcslen strlen
#define _tprintf printf
#define _ftprintf fprintf
#define _fputts fputs
#define _sntprintf_s _snprintf_s
#define _ftprintf_s fprintf_s
#endif
#endif
