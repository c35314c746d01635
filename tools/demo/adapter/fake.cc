#include "adapter.h"
#include <windows.h>
#include <winpty.h>
#include <sys/socket.h>
#include <sys/cygwin.h>
#include <pty.h>

Script script;
int noteFd = -1;
static int conin[2], conout[2], conerr[2];
static DWORD lastError;
static int sessionEnds;

void note(const char *text) { __real_write(noteFd, text, strlen(text)); }

extern "C" {
ssize_t __wrap_write(int fd, const void *p, size_t n) { return script.onWrite ? script.onWrite(fd, p, n) : __real_write(fd, p, n); }
ssize_t __wrap_read(int fd, void *p, size_t n) { return script.onRead ? script.onRead(fd, p, n) : __real_read(fd, p, n); }
int __wrap_tcsetattr(int fd, int a, const struct termios *t) { if (script.onSetAttr) script.onSetAttr(fd, t); return __real_tcsetattr(fd, a, t); }
int __wrap_pthread_join(pthread_t t, void **v) { int r = __real_pthread_join(t, v); if (script.onJoin) script.onJoin(); return r; }

struct winpty_config_s { int cols, rows; };
struct winpty_s { int x; };
struct winpty_spawn_config_s { int x; };
struct winpty_error_s { int x; };

winpty_result_t winpty_error_code(winpty_error_ptr_t) { return script.spawnCode; }
LPCWSTR winpty_error_msg(winpty_error_ptr_t) { return L"scripted failure"; }
void winpty_error_free(winpty_error_ptr_t) {}
winpty_config_t *winpty_config_new(UINT64, winpty_error_ptr_t *) { return new winpty_config_s(); }
void winpty_config_free(winpty_config_t *) {}
void winpty_config_set_initial_size(winpty_config_t *, int c, int r) { char b[64]; sprintf(b, "initial %dx%d\n", c, r); note(b); }
void winpty_config_set_mouse_mode(winpty_config_t *, int) {}
winpty_t *winpty_open(const winpty_config_t *, winpty_error_ptr_t *) {
    if (script.openFails) return NULL;
    socketpair(AF_UNIX, SOCK_STREAM, 0, conin);
    socketpair(AF_UNIX, SOCK_STREAM, 0, conout);
    socketpair(AF_UNIX, SOCK_STREAM, 0, conerr);
    return new winpty_s();
}
LPCWSTR winpty_conin_name(winpty_t *) { return L"conin"; }
LPCWSTR winpty_conout_name(winpty_t *) { return L"conout"; }
LPCWSTR winpty_conerr_name(winpty_t *) { return L"conerr"; }
winpty_spawn_config_t *winpty_spawn_config_new(UINT64, LPCWSTR, LPCWSTR, LPCWSTR, LPCWSTR, winpty_error_ptr_t *) { return new winpty_spawn_config_s(); }
void winpty_spawn_config_free(winpty_spawn_config_t *) {}
static void *run(void *) {
    if (script.session) script.session(conin[1], conout[1], conerr[1]);
    shutdown(conout[1], SHUT_RDWR);
    shutdown(conerr[1], SHUT_RDWR);
    shutdown(conin[1], SHUT_RDWR);
    return NULL;
}
BOOL winpty_spawn(winpty_t *, const winpty_spawn_config_t *, HANDLE *process, HANDLE *, DWORD *err, winpty_error_ptr_t *) {
    if (script.spawnFails) { *err = 2; return FALSE; }
    *process = (HANDLE)0x77;
    pthread_t t;
    pthread_create(&t, NULL, run, NULL);
    return TRUE;
}
BOOL winpty_set_size(winpty_t *, int c, int r, winpty_error_ptr_t *) {
    char b[64];
    sprintf(b, "size %dx%d\n", c, r);
    note(b);
    if (script.onSetSize) script.onSetSize(c, r);
    return TRUE;
}
void winpty_free(winpty_t *) {
    shutdown(conin[1], SHUT_RDWR);
    shutdown(conout[1], SHUT_WR);
    shutdown(conerr[1], SHUT_WR);
}

DWORD GetLastError() { return lastError; }
void SetLastError(DWORD e) { lastError = e; }
HANDLE CreateFileW(LPCWSTR n, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE) {
    return (HANDLE)(intptr_t)(!wcscmp(n, L"conin") ? 1000 + conin[0] : !wcscmp(n, L"conout") ? 1000 + conout[0] : 1000 + conerr[0]);
}
BOOL ReadFile(HANDLE h, LPVOID p, DWORD n, LPDWORD got, LPOVERLAPPED) {
    ssize_t r = __real_read((int)(intptr_t)h - 1000, p, n);
    *got = r > 0 ? r : 0;
    if (r <= 0) { lastError = ERROR_BROKEN_PIPE; return FALSE; }
    return TRUE;
}
BOOL WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD put, LPOVERLAPPED) {
    ssize_t r = send((int)(intptr_t)h - 1000, p, n, MSG_NOSIGNAL);
    *put = r > 0 ? r : 0;
    if (r < 0) { lastError = ERROR_BROKEN_PIPE; return FALSE; }
    return TRUE;
}
BOOL CloseHandle(HANDLE h) { if (script.onClose) script.onClose(h); return TRUE; }
BOOL GetExitCodeProcess(HANDLE h, LPDWORD c) {
    note(h == (HANDLE)0x77 ? "exit code asked\n" : "exit code of something else asked\n");
    if (script.exitCodeFails) return FALSE;
    *c = script.exitCode;
    return TRUE;
}
DWORD FormatMessageW(DWORD, LPCVOID, DWORD, DWORD, LPWSTR, DWORD, void *) { return 0; }
HLOCAL LocalFree(HLOCAL) { return NULL; }
BOOL SetEnvironmentVariableW(LPCWSTR, LPCWSTR) { return TRUE; }
DWORD GetEnvironmentVariableA(LPCSTR, LPSTR, DWORD) { return 0; }
DWORD GetEnvironmentVariableW(LPCWSTR, LPWSTR, DWORD) { return 0; }
BOOL CallNamedPipeA(LPCSTR, LPVOID, DWORD, LPVOID, DWORD, LPDWORD, DWORD) { return FALSE; }
BOOL CallNamedPipeW(LPCWSTR, LPVOID, DWORD, LPVOID, DWORD, LPDWORD, DWORD) { return FALSE; }
HANDLE GetCurrentProcess() { return (HANDLE)-1; }
DWORD GetCurrentProcessId() { return 1; }
DWORD GetCurrentThreadId() { return 1; }
PVOID InterlockedCompareExchangePointer(PVOID volatile *p, PVOID a, PVOID b) { PVOID o = *p; if (o == b) *p = a; return o; }
DWORD GetTickCount() { return 1; }
DWORD GetModuleFileNameA(HMODULE, LPSTR p, DWORD) { strcpy(p, "winpty.exe"); return 10; }
DWORD GetModuleFileNameW(HMODULE, LPWSTR, DWORD) { return 0; }
void GetSystemTimeAsFileTime(FILETIME *t) { memset(t, 0, sizeof(*t)); }
void Sleep(DWORD) {}
BOOL WaitNamedPipeW(LPCWSTR, DWORD) { return FALSE; }
BOOL SetNamedPipeHandleState(HANDLE, LPDWORD, LPDWORD, LPDWORD) { return FALSE; }
BOOL TransactNamedPipe(HANDLE, LPVOID, DWORD, LPVOID, DWORD, LPDWORD, LPOVERLAPPED) { return FALSE; }
void OutputDebugStringA(LPCSTR) {}
ssize_t cygwin_conv_path(unsigned, const void *from, void *to, size_t n) {
    if (n) strncpy((char *)to, (const char *)from, n);
    return n ? 0 : strlen((const char *)from) + 1;
}
uintptr_t cygwin_internal(cygwin_getinfo_types, ...) { return 0; }
}

void start(Run &r, int argc, const char **argv, void (*setup)()) {
    int p[2];
    pipe(p);
    openpty(&r.master, &r.slave, NULL, NULL, NULL);
    winsize sz = { 25, 80, 0, 0 };
    ioctl(r.slave, TIOCSWINSZ, &sz);
    tcgetattr(r.slave, &r.before);
    fflush(NULL);
    r.pid = fork();
    if (r.pid == 0) {
        setsid();
        ioctl(r.slave, TIOCSCTTY, 0);
        dup2(r.slave, 0);
        dup2(r.slave, 1);
        dup2(r.slave, 2);
        close(r.master);
        close(p[0]);
        noteFd = p[1];
        signal(SIGHUP, SIG_IGN);
        setup();
        exit(adapter_main(argc, (char **)argv));
    }
    close(p[1]);
    r.note = p[0];
    fcntl(r.master, F_SETFL, O_NONBLOCK);
    fcntl(r.note, F_SETFL, O_NONBLOCK);
}

static void pump(Run &r) {
    char b[4096];
    ssize_t n;
    while ((n = __real_read(r.master, b, sizeof(b))) > 0) r.out.append(b, n);
    while ((n = __real_read(r.note, b, sizeof(b))) > 0) r.notes.append(b, n);
}

void say(Run &r, const char *text) { __real_write(r.master, text, strlen(text)); }

bool collect(Run &r, size_t n, int seconds) {
    for (int i = 0; i < seconds * 100; ++i) {
        pump(r);
        if (r.out.size() >= n) return true;
        usleep(10000);
    }
    return false;
}

bool finish(Run &r, int seconds) {
    for (int i = 0; i < seconds * 100; ++i) {
        pump(r);
        if (waitpid(r.pid, &r.status, WNOHANG) == r.pid) {
            pump(r);
            tcgetattr(r.slave, &r.after);
            return true;
        }
        usleep(10000);
    }
    kill(r.pid, SIGKILL);
    waitpid(r.pid, &r.status, 0);
    pump(r);
    tcgetattr(r.slave, &r.after);
    return false;
}

bool sameModes(const struct termios &a, const struct termios &b) {
    return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag &&
        a.c_cc[VMIN] == b.c_cc[VMIN] && a.c_cc[VTIME] == b.c_cc[VTIME];
}
