/* Stand-in for <windows.h>: lets the Windows branch of gencpp (the only branch its build compiles) run natively
   under ASan/UBSan.  Files live in an in-memory file system; every system call is a fault-injection point.
   Implemented in ../winshim.cpp. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long  DWORD_compat_unused;
typedef uint32_t DWORD;
typedef int      BOOL;
typedef void*    HANDLE;
typedef void*    LPVOID;
typedef wchar_t  WCHAR;
typedef uint16_t WORD;
typedef size_t   SIZE_T;
typedef union _LARGE_INTEGER {
	struct { uint32_t LowPart; int32_t HighPart; };
	struct { uint32_t LowPart; int32_t HighPart; } u;
	int64_t QuadPart;
} LARGE_INTEGER;
typedef struct { void* BaseAddress; void* AllocationBase; DWORD AllocationProtect; size_t RegionSize; DWORD State, Protect, Type; } MEMORY_BASIC_INFORMATION;
typedef struct { DWORD dwOemId; DWORD dwPageSize; void* lpMinimumApplicationAddress; void* lpMaximumApplicationAddress; size_t dwActiveProcessorMask; DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity; } SYSTEM_INFO;
typedef struct { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define CP_UTF8 65001
#define MB_ERR_INVALID_CHARS 8
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define FILE_APPEND_DATA 4u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define CREATE_NEW 1u
#define CREATE_ALWAYS 2u
#define OPEN_EXISTING 3u
#define OPEN_ALWAYS 4u
#define TRUNCATE_EXISTING 5u
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define ERROR_FILE_NOT_FOUND 2u
#define ERROR_PATH_NOT_FOUND 3u
#define ERROR_ACCESS_DENIED 5u
#define ERROR_FILE_EXISTS 80u
#define ERROR_ALREADY_EXISTS 183u
#define FILE_BEGIN 0u
#define FILE_CURRENT 1u
#define FILE_END 2u
#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
#define MEM_COMMIT 0x1000u
#define MEM_RESERVE 0x2000u
#define MEM_RELEASE 0x8000u
#define MEM_RESET 0x80000u
#define PAGE_READWRITE 4u
int    MultiByteToWideChar(unsigned cp, DWORD flags, const char* s, int n, wchar_t* w, int wn);
HANDLE CreateFileW(const wchar_t* name, DWORD access, DWORD share, void* sa, DWORD disp, DWORD attr, HANDLE tmpl);
BOOL   ReadFile(HANDLE h, void* buf, DWORD n, DWORD* got, void* ov);
BOOL   WriteFile(HANDLE h, const void* buf, DWORD n, DWORD* put, void* ov);
BOOL   CloseHandle(HANDLE h);
BOOL   SetFilePointerEx(HANDLE h, LARGE_INTEGER off, LARGE_INTEGER* np, DWORD whence);
BOOL   GetFileSizeEx(HANDLE h, LARGE_INTEGER* sz);
BOOL   FlushFileBuffers(HANDLE h);
BOOL   SetEndOfFile(HANDLE h);
DWORD  GetLastError(void);
HANDLE GetStdHandle(DWORD n);
void   ExitProcess(unsigned code);
void*  VirtualAlloc(void* a, size_t n, DWORD t, DWORD p);
BOOL   VirtualFree(void* a, size_t n, DWORD t);
size_t VirtualQuery(const void* a, MEMORY_BASIC_INFORMATION* i, size_t n);
void   GetSystemInfo(SYSTEM_INFO* i);
BOOL   QueryPerformanceFrequency(LARGE_INTEGER*);
BOOL   QueryPerformanceCounter(LARGE_INTEGER*);
void*  _aligned_malloc(size_t n, size_t a);
void   _aligned_free(void* p);
#ifdef __cplusplus
}
#endif
