/* just enough of the Windows API to run the _WIN32 back end of randombytes.c against a scripted system */
#ifndef FAKE_WINDOWS_H
#define FAKE_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
typedef int BOOL;
typedef int WINBOOL;
typedef uint32_t DWORD;
typedef unsigned long ULONG;
typedef unsigned char BYTE;
typedef const char *LPCSTR;
typedef const char *LPCTSTR;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
DWORD GetLastError(void);
#endif
