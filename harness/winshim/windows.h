#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned int   DWORD;
typedef int            BOOL;
typedef long long      LONGLONG;
typedef unsigned short WORD;
typedef void*          HANDLE;
typedef union { struct { DWORD LowPart; int HighPart; }; LONGLONG QuadPart; } LARGE_INTEGER;
#define CP_UTF8 65001
#define MB_ERR_INVALID_CHARS 8
#define GENERIC_READ  0x80000000u
#define GENERIC_WRITE 0x40000000u
#define OPEN_EXISTING 3
#define CREATE_ALWAYS 2
#define OPEN_ALWAYS   4
#define FILE_SHARE_READ 1
#define FILE_SHARE_DELETE 4
#define FILE_ATTRIBUTE_NORMAL 0x80
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_FILE_EXISTS 80
#define ERROR_ALREADY_EXISTS 183
#define ERROR_ACCESS_DENIED 5
#define STD_INPUT_HANDLE  ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE  ((DWORD)-12)
#define MEM_COMMIT  0x1000
#define MEM_RESERVE 0x2000
#define MEM_RELEASE 0x8000
#define MEM_RESET   0x80000
#define PAGE_READWRITE 4
typedef struct { void* BaseAddress; void* AllocationBase; size_t RegionSize; DWORD State; } MEMORY_BASIC_INFORMATION;
typedef struct { DWORD dwPageSize; DWORD dwAllocationGranularity; } SYSTEM_INFO;
int    MultiByteToWideChar(unsigned cp, DWORD flags, char const* s, int n, wchar_t* w, int wn);
HANDLE CreateFileW(wchar_t const* name, DWORD access, DWORD share, void* sec, DWORD disp, DWORD attr, HANDLE tmpl);
BOOL   SetFilePointerEx(HANDLE h, LARGE_INTEGER off, LARGE_INTEGER* out, DWORD whence);
BOOL   ReadFile(HANDLE h, void* buf, DWORD n, DWORD* got, void* ov);
BOOL   WriteFile(HANDLE h, void const* buf, DWORD n, DWORD* put, void* ov);
BOOL   CloseHandle(HANDLE h);
HANDLE GetStdHandle(DWORD which);
DWORD  GetLastError(void);
void   ExitProcess(DWORD code);
void*  VirtualAlloc(void* addr, size_t size, DWORD type, DWORD prot);
BOOL   VirtualFree(void* addr, size_t size, DWORD type);
size_t VirtualQuery(void const* addr, MEMORY_BASIC_INFORMATION* info, size_t n);
void   GetSystemInfo(SYSTEM_INFO* si);
void*  _aligned_malloc(size_t size, size_t align);
void   _aligned_free(void* p);
#ifdef __cplusplus
}
#endif
