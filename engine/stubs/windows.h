// Minimal Win32 declarations for analysing the Unix adapter (never linked).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#define WINAPI
#define CALLBACK
#define TRUE 1
#define FALSE 0
#define MAX_PATH 260
#define __declspec(x)
typedef int BOOL; typedef unsigned int DWORD; typedef int LONG; typedef unsigned int UINT; typedef unsigned short WORD; typedef unsigned char BYTE;
typedef wchar_t WCHAR; typedef const wchar_t *LPCWSTR; typedef wchar_t *LPWSTR; typedef const char *LPCSTR; typedef char *LPSTR;
typedef void *HANDLE; typedef void *LPVOID; typedef const void *LPCVOID; typedef DWORD *LPDWORD; typedef void VOID; typedef void *PVOID;
typedef HANDLE HLOCAL; typedef uint64_t UINT64; typedef unsigned long long ULONGLONG; typedef size_t SIZE_T; typedef HANDLE HMODULE; typedef HANDLE HINSTANCE;
typedef struct _SECURITY_ATTRIBUTES { DWORD nLength; LPVOID lpSecurityDescriptor; BOOL bInheritHandle; } SECURITY_ATTRIBUTES, *LPSECURITY_ATTRIBUTES;
typedef struct _OVERLAPPED { uintptr_t Internal, InternalHigh; DWORD Offset, OffsetHigh; HANDLE hEvent; } OVERLAPPED, *LPOVERLAPPED;
typedef struct _SYSTEMTIME { WORD wYear, wMonth, wDayOfWeek, wDay, wHour, wMinute, wSecond, wMilliseconds; } SYSTEMTIME;
typedef struct _FILETIME { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define OPEN_EXISTING 3
#define INFINITE 0xFFFFFFFFu
#define WAIT_OBJECT_0 0u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
#define ERROR_SUCCESS 0
#define ERROR_BROKEN_PIPE 109
#define ERROR_PIPE_BUSY 231
#define ERROR_MORE_DATA 234
#define ERROR_NO_DATA 232
#define ERROR_PIPE_NOT_CONNECTED 233
#define ERROR_IO_PENDING 997
#define NMPWAIT_USE_DEFAULT_WAIT 0
#define NMPWAIT_WAIT_FOREVER 0xFFFFFFFFu
#define NMPWAIT_NOWAIT 1
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((((DWORD)(s)) << 10) | (DWORD)(p))
#define SECURITY_SQOS_PRESENT 0x00100000u
#define SECURITY_IDENTIFICATION 0x00010000u
#define PIPE_READMODE_MESSAGE 2
extern "C" {
BOOL WaitNamedPipeW(LPCWSTR, DWORD); BOOL SetNamedPipeHandleState(HANDLE, LPDWORD, LPDWORD, LPDWORD);
BOOL TransactNamedPipe(HANDLE, LPVOID, DWORD, LPVOID, DWORD, LPDWORD, LPOVERLAPPED);
PVOID InterlockedCompareExchangePointer(PVOID volatile *, PVOID, PVOID);
DWORD GetLastError(); void SetLastError(DWORD);
HANDLE CreateFileW(LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE);
BOOL ReadFile(HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED); BOOL WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, LPOVERLAPPED);
BOOL CloseHandle(HANDLE); BOOL CancelIo(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD); DWORD WaitForMultipleObjects(DWORD, const HANDLE *, BOOL, DWORD);
BOOL GetExitCodeProcess(HANDLE, LPDWORD); BOOL TerminateProcess(HANDLE, UINT);
DWORD FormatMessageW(DWORD, LPCVOID, DWORD, DWORD, LPWSTR, DWORD, void *); HLOCAL LocalFree(HLOCAL);
BOOL SetEnvironmentVariableW(LPCWSTR, LPCWSTR); DWORD GetEnvironmentVariableA(LPCSTR, LPSTR, DWORD); DWORD GetEnvironmentVariableW(LPCWSTR, LPWSTR, DWORD);
BOOL CallNamedPipeA(LPCSTR, LPVOID, DWORD, LPVOID, DWORD, LPDWORD, DWORD); BOOL CallNamedPipeW(LPCWSTR, LPVOID, DWORD, LPVOID, DWORD, LPDWORD, DWORD);
DWORD GetCurrentProcessId(); DWORD GetCurrentThreadId(); DWORD GetTickCount(); HANDLE GetCurrentProcess();
DWORD GetModuleFileNameA(HMODULE, LPSTR, DWORD); DWORD GetModuleFileNameW(HMODULE, LPWSTR, DWORD);
void GetSystemTime(SYSTEMTIME *); void GetSystemTimeAsFileTime(FILETIME *);
BOOL DuplicateHandle(HANDLE, HANDLE, HANDLE, HANDLE *, DWORD, BOOL, DWORD);
void Sleep(DWORD); void OutputDebugStringA(LPCSTR);
}
#define CallNamedPipe CallNamedPipeW
