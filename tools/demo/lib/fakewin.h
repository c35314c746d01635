// Force-included into every libwinpty source: the Windows calls the library makes are redirected to a scripted stand-in.
#pragma once
#include <windows.h>
extern "C" {
HANDLE fk_CreateNamedPipeW(LPCWSTR, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES);
BOOL fk_ConnectNamedPipe(HANDLE, LPOVERLAPPED);
BOOL fk_ReadFile(HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED);
BOOL fk_WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, LPOVERLAPPED);
BOOL fk_GetOverlappedResult(HANDLE, LPOVERLAPPED, LPDWORD, BOOL);
BOOL fk_CancelIo(HANDLE);
DWORD fk_WaitForMultipleObjects(DWORD, const HANDLE *, BOOL, DWORD);
DWORD fk_WaitForSingleObject(HANDLE, DWORD);
HANDLE fk_CreateEventW(LPSECURITY_ATTRIBUTES, BOOL, BOOL, LPCWSTR);
BOOL fk_CloseHandle(HANDLE);
BOOL fk_DuplicateHandle(HANDLE, HANDLE, HANDLE, LPHANDLE, DWORD, BOOL, DWORD);
BOOL fk_CreateProcessW(LPCWSTR, LPWSTR, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL, DWORD, LPVOID, LPCWSTR, LPSTARTUPINFOW, LPPROCESS_INFORMATION);
FARPROC fk_GetProcAddress(HMODULE, LPCSTR);
DWORD fk_GetFileAttributesW(LPCWSTR);
HWINSTA fk_GetProcessWindowStation(void);
HWINSTA fk_CreateWindowStationW(LPCWSTR, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES);
BOOL fk_SetProcessWindowStation(HWINSTA);
BOOL fk_CloseWindowStation(HWINSTA);
HDESK fk_CreateDesktopW(LPCWSTR, LPCWSTR, DEVMODEW *, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES);
BOOL fk_CloseDesktop(HDESK);
HDESK fk_GetThreadDesktop(DWORD);
BOOL fk_GetUserObjectInformationW(HANDLE, int, PVOID, DWORD, LPDWORD);
DWORD fk_GetEnvironmentVariableA(LPCSTR, LPSTR, DWORD);
}
#ifndef FK_IMPL
#define CreateNamedPipeW fk_CreateNamedPipeW
#define ConnectNamedPipe fk_ConnectNamedPipe
#define ReadFile fk_ReadFile
#define WriteFile fk_WriteFile
#define GetOverlappedResult fk_GetOverlappedResult
#define CancelIo fk_CancelIo
#define WaitForMultipleObjects fk_WaitForMultipleObjects
#define WaitForSingleObject fk_WaitForSingleObject
#define CreateEventW fk_CreateEventW
#define CloseHandle fk_CloseHandle
#define DuplicateHandle fk_DuplicateHandle
#define CreateProcessW fk_CreateProcessW
#define GetProcAddress fk_GetProcAddress
#define GetFileAttributesW fk_GetFileAttributesW
#define GetProcessWindowStation fk_GetProcessWindowStation
#define CreateWindowStationW fk_CreateWindowStationW
#define SetProcessWindowStation fk_SetProcessWindowStation
#define CloseWindowStation fk_CloseWindowStation
#define CreateDesktopW fk_CreateDesktopW
#define CloseDesktop fk_CloseDesktop
#define GetThreadDesktop fk_GetThreadDesktop
#define GetUserObjectInformationW fk_GetUserObjectInformationW
#define GetEnvironmentVariableA fk_GetEnvironmentVariableA
#endif
