/* stand-in declarations of the Windows API used by the templates (type checking only) */
#ifndef STUB_WINDOWS_H
#define STUB_WINDOWS_H
#include <stddef.h>
#include <wchar.h>
#include <stdlib.h>
#include <stdarg.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned int DWORD; typedef int BOOL; typedef unsigned int UINT; typedef unsigned short WORD;
typedef struct stub_HINSTANCE *HINSTANCE; typedef HINSTANCE HMODULE; typedef struct stub_HWND *HWND; typedef void *HLOCAL; typedef void *HANDLE;
typedef const char *LPCSTR; typedef char *LPSTR; typedef const wchar_t *LPCWSTR; typedef wchar_t *LPWSTR; typedef const void *LPCVOID;
typedef ptrdiff_t (*FARPROC)(void);
#ifdef UNICODE
typedef wchar_t TCHAR; typedef LPWSTR LPTSTR; typedef LPCWSTR LPCTSTR;
#else
typedef char TCHAR; typedef LPSTR LPTSTR; typedef LPCSTR LPCTSTR;
#endif
#define TRUE 1
#define FALSE 0
#define WINAPI
#define ERROR_SUCCESS 0u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_NOT_ENOUGH_MEMORY 8u
#define ERROR_INVALID_PARAMETER 87u
#define ERROR_INSUFFICIENT_BUFFER 122u
#define ERROR_INVALID_NAME 123u
#define ERROR_NOT_FOUND 1168u
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0xff
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((WORD)(((WORD)(s) << 10) | (WORD)(p)))
#define MB_OK 0u
#define MB_ICONERROR 0x10u
#define LOAD_WITH_ALTERED_SEARCH_PATH 8
#define LOAD_LIBRARY_SEARCH_DEFAULT_DIRS 0x1000
HMODULE LoadLibraryA(LPCSTR); HMODULE LoadLibraryW(LPCWSTR); HMODULE LoadLibraryExA(LPCSTR, HANDLE, DWORD); HMODULE LoadLibraryExW(LPCWSTR, HANDLE, DWORD);
FARPROC GetProcAddress(HMODULE, LPCSTR); BOOL FreeLibrary(HMODULE); DWORD GetLastError(void); void SetLastError(DWORD);
DWORD FormatMessageA(DWORD, LPCVOID, DWORD, DWORD, LPSTR, DWORD, va_list *) ;
DWORD FormatMessageW(DWORD, LPCVOID, DWORD, DWORD, LPWSTR, DWORD, va_list *);
DWORD GetModuleFileNameA(HMODULE, LPSTR, DWORD); DWORD GetModuleFileNameW(HMODULE, LPWSTR, DWORD);
HLOCAL LocalFree(HLOCAL); int MessageBoxA(HWND, LPCSTR, LPCSTR, UINT); int MessageBoxW(HWND, LPCWSTR, LPCWSTR, UINT);
typedef int errno_t;
errno_t mbstowcs_s(size_t *, wchar_t *, size_t, const char *, size_t); errno_t wcstombs_s(size_t *, char *, size_t, const wchar_t *, size_t);
int _snprintf_s(char *, size_t, size_t, const char *, ...); int _snwprintf_s(wchar_t *, size_t, size_t, const wchar_t *, ...);
int fprintf_s(FILE *, const char *, ...); int fwprintf_s(FILE *, const wchar_t *, ...);
char *_strdup(const char *); wchar_t *_wcsdup(const wchar_t *);
#ifdef __cplusplus
}
#endif
#define _TRUNCATE ((size_t)-1)
#define _countof(a) (sizeof(a) / sizeof((a)[0]))
#ifdef UNICODE
#define LoadLibrary LoadLibraryW
#define LoadLibraryEx LoadLibraryExW
#define FormatMessage FormatMessageW
#define GetModuleFileName GetModuleFileNameW
#define MessageBox MessageBoxW
#else
#define LoadLibrary LoadLibraryA
#define LoadLibraryEx LoadLibraryExA
#define FormatMessage FormatMessageA
#define GetModuleFileName GetModuleFileNameA
#define MessageBox MessageBoxA
#endif
#endif
