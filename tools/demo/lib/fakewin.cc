#define FK_IMPL
#include "fakewin.h"
#include "fake.h"

Fk fk;
int fkDupCalls;
static uintptr_t next = 0x10000000;
static HANDLE mk(const std::string &kind) {
    next += 4;
    HANDLE h = (HANDLE)next;
    fk.handles[h].kind = kind;
    return h;
}
static bool ours(HANDLE h) { return fk.handles.count(h) != 0; }
static void use(HANDLE h, const char *what) {
    if (!ours(h)) { fk.errors.push_back(std::string(what) + " on an unknown handle"); return; }
    if (fk.handles[h].closed) fk.errors.push_back(std::string(what) + " on a closed " + fk.handles[h].kind);
}
static void lg(const std::string &s) { fk.log.push_back(s); if (getenv("FK_VERBOSE")) { printf("  %s\n", s.c_str()); fflush(stdout); } }

void fkPut32(std::vector<char> &b, int32_t v) { b.push_back(0); b.insert(b.end(), (char *)&v, (char *)&v + 4); }
void fkPut64(std::vector<char> &b, int64_t v) { b.push_back(1); b.insert(b.end(), (char *)&v, (char *)&v + 8); }
void fkPutStr(std::vector<char> &b, const std::wstring &s) {
    b.push_back(2); uint64_t n = s.size(); b.insert(b.end(), (char *)&n, (char *)&n + 8);
    b.insert(b.end(), (char *)s.data(), (char *)(s.data() + s.size()));
}
void fkReply(const std::vector<char> &p) {
    uint64_t n = p.size() + 8;
    fk.replies.insert(fk.replies.end(), (char *)&n, (char *)&n + 8);
    fk.replies.insert(fk.replies.end(), p.begin(), p.end());
}
int fkOpenCount(const std::string &kind) {
    int n = 0;
    for (auto &h : fk.handles) if (!h.second.closed && (kind.empty() || h.second.kind == kind)) n++;
    return n;
}
winpty_t *fkOpen(UINT64 flags, DWORD timeout) {
    winpty_error_ptr_t e = nullptr;
    winpty_config_t *c = winpty_config_new(flags, &e);
    if (!c) return nullptr;
    winpty_config_set_agent_timeout(c, timeout);
    fk.conerr = (flags & WINPTY_FLAG_CONERR) != 0;
    std::vector<char> b;
    fkPutStr(b, L"\\\\.\\pipe\\fake-conin"); fkPutStr(b, L"\\\\.\\pipe\\fake-conout");
    if (fk.conerr) fkPutStr(b, L"\\\\.\\pipe\\fake-conerr");
    fkReply(b);
    winpty_t *wp = winpty_open(c, &e);
    if (!wp) printf("winpty_open: %ls\n", winpty_error_msg(e));
    winpty_config_free(c);
    return wp;
}

struct Pend { HANDLE h; LPOVERLAPPED o; LPVOID buf; DWORD len; int kind; FkMode mode; bool cancelled; };
static std::vector<Pend> pends;

static BOOL doRead(LPVOID buf, DWORD len, LPDWORD actual) {
    DWORD n = len < fk.replies.size() ? len : (DWORD)fk.replies.size();
    if (n > fk.readChunk) n = fk.readChunk;
    memcpy(buf, fk.replies.data(), n);
    fk.replies.erase(fk.replies.begin(), fk.replies.begin() + n);
    if (actual) *actual = n;
    return TRUE;
}
static void doWrite(LPCVOID buf, DWORD len) {
    fk.sent.insert(fk.sent.end(), (const char *)buf, (const char *)buf + len);
    while (fk.sent.size() >= 8) {
        uint64_t n; memcpy(&n, fk.sent.data(), 8);
        if (n < 8 || fk.sent.size() < n) break;
        std::vector<char> p(fk.sent.begin() + 8, fk.sent.begin() + n);
        fk.sent.erase(fk.sent.begin(), fk.sent.begin() + n);
        if (fk.onRequest) fk.onRequest(p);
    }
}
static BOOL io(HANDLE h, FkMode m, LPOVERLAPPED o, LPVOID buf, DWORD len, LPDWORD actual, int kind) {
    if (m == FAIL) { SetLastError(fk.failError); return FALSE; }
    if (m == NOW) {
        if (kind == 2) { SetLastError(ERROR_PIPE_CONNECTED); return FALSE; }
        if (kind == 1) { doWrite(buf, len); if (actual) *actual = len; return TRUE; }
        if (kind == 0 && fk.replies.empty()) m = PENDING_HANG;
        else return doRead(buf, len, actual);
    }
    Pend p = { h, o, buf, len, kind, m, false };
    pends.push_back(p);
    fk.pending++;
    SetLastError(ERROR_IO_PENDING);
    return FALSE;
}
extern "C" {
HANDLE fk_CreateNamedPipeW(LPCWSTR n, DWORD om, DWORD pm, DWORD inst, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES sa) {
    lg("CreateNamedPipe");
    if (fk.createPipeFail) { SetLastError(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    HANDLE h = mk("pipe");
    fk.handles[h].a = om; fk.handles[h].b = pm; fk.handles[h].c = inst;
    return h;
}
BOOL fk_ConnectNamedPipe(HANDLE h, LPOVERLAPPED o) { lg("ConnectNamedPipe"); use(h, "ConnectNamedPipe"); return io(h, fk.connect, o, 0, 0, 0, 2); }
BOOL fk_ReadFile(HANDLE h, LPVOID b, DWORD n, LPDWORD a, LPOVERLAPPED o) {
    lg("ReadFile"); use(h, "ReadFile"); fk.ioCount++; if (fk.onRead) fk.onRead();
    return io(h, fk.read, o, b, n, a, 0);
}
BOOL fk_WriteFile(HANDLE h, LPCVOID b, DWORD n, LPDWORD a, LPOVERLAPPED o) {
    lg("WriteFile"); use(h, "WriteFile"); fk.ioCount++; if (fk.onWrite) fk.onWrite();
    return io(h, fk.write, o, (LPVOID)b, n, a, 1);
}
BOOL fk_GetOverlappedResult(HANDLE h, LPOVERLAPPED o, LPDWORD a, BOOL wait) {
    lg(wait ? "GetOverlappedResult wait" : "GetOverlappedResult");
    use(h, "GetOverlappedResult");
    for (size_t i = 0; i < pends.size(); i++) {
        if (pends[i].h != h || pends[i].o != o) continue;
        Pend p = pends[i];
        if (p.mode == PENDING_HANG && !p.cancelled) {
            if (wait) { fk.errors.push_back("unbounded wait for an operation that was not cancelled"); ExitProcess(3); }
            SetLastError(ERROR_IO_INCOMPLETE);
            return FALSE;
        }
        pends.erase(pends.begin() + i);
        fk.pending--;
        if (p.cancelled) { if (a) *a = 0; SetLastError(ERROR_OPERATION_ABORTED); return FALSE; }
        if (fk.pendingError) { if (a) *a = 0; SetLastError(fk.pendingError); return FALSE; }
        if (p.kind == 2) { if (a) *a = 0; return TRUE; }
        if (p.kind == 1) { doWrite(p.buf, p.len); if (a) *a = p.len; return TRUE; }
        return doRead(p.buf, p.len, a);
    }
    SetLastError(ERROR_SUCCESS);
    return TRUE;
}
BOOL fk_CancelIo(HANDLE h) {
    lg("CancelIo"); use(h, "CancelIo");
    for (auto &p : pends) if (p.h == h) p.cancelled = true;
    if (fk.env.count("cancelfails")) { SetLastError(ERROR_NOT_FOUND); return FALSE; }
    return TRUE;
}
static DWORD waitOn() {
    for (auto &p : pends) if (p.mode == PENDING_HANG && !p.cancelled) return fk.hangResult;
    return WAIT_OBJECT_0;
}
DWORD fk_WaitForMultipleObjects(DWORD n, const HANDLE *h, BOOL all, DWORD ms) {
    lg("WaitForMultipleObjects");
    for (DWORD i = 0; i < n; i++) use(h[i], "WaitForMultipleObjects");
    fk.lastTimeout = ms; fk.lastWaitCount = n;
    DWORD r = waitOn();
    if (r == WAIT_OBJECT_0 + 1) {
        for (DWORD i = 0; i < n; i++) if (fk.handles[h[i]].kind == "process") return WAIT_OBJECT_0 + i;
        return WAIT_TIMEOUT;
    }
    if (r == WAIT_TIMEOUT && ms == INFINITE) { fk.errors.push_back("infinite wait"); printf("FAILED: infinite wait for the agent\n"); fflush(stdout); ExitProcess(3); }
    if (r == WAIT_FAILED) SetLastError(ERROR_INVALID_HANDLE);
    return r;
}
DWORD fk_WaitForSingleObject(HANDLE h, DWORD ms) {
    lg("WaitForSingleObject"); use(h, "WaitForSingleObject"); fk.lastTimeout = ms; fk.lastWaitCount = 1;
    DWORD r = waitOn();
    return r == WAIT_OBJECT_0 + 1 ? WAIT_TIMEOUT : r;
}
HANDLE fk_CreateEventW(LPSECURITY_ATTRIBUTES, BOOL, BOOL, LPCWSTR) {
    lg("CreateEvent"); if (fk.createEventFail) { SetLastError(ERROR_OUTOFMEMORY); return nullptr; } return mk("event");
}
BOOL fk_CloseHandle(HANDLE h) {
    if (!ours(h)) return TRUE;
    lg("CloseHandle " + fk.handles[h].kind);
    use(h, "CloseHandle");
    for (auto &p : pends) if (p.h == h) fk.errors.push_back("pipe closed with a pending operation");
    fk.handles[h].closed++;
    return TRUE;
}
BOOL fk_DuplicateHandle(HANDLE sp, HANDLE s, HANDLE tp, LPHANDLE t, DWORD acc, BOOL inh, DWORD opt) {
    char b[80]; sprintf(b, "DuplicateHandle %x opt=%x", (unsigned)(uintptr_t)s, (unsigned)opt); lg(b);
    use(sp, "DuplicateHandle");
    if (!fk.duplicateOk || fkDupCalls++ == fk.duplicateFailAt) { SetLastError(ERROR_ACCESS_DENIED); return FALSE; }
    *t = mk("dup");
    fk.handles[*t].a = (DWORD)(uintptr_t)s; fk.handles[*t].b = opt; fk.handles[*t].c = inh;
    return TRUE;
}
BOOL fk_CreateProcessW(LPCWSTR, LPWSTR, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL inh, DWORD, LPVOID, LPCWSTR, LPSTARTUPINFOW, LPPROCESS_INFORMATION pi) {
    lg("CreateProcess"); fk.lastInherit = inh;
    if (!fk.createProcessOk) { SetLastError(ERROR_FILE_NOT_FOUND); return FALSE; }
    pi->hProcess = mk("process"); pi->hThread = mk("thread"); pi->dwProcessId = fk.agentPid; pi->dwThreadId = 1;
    return TRUE;
}
static BOOL WINAPI clientPid(HANDLE h, PULONG pid) {
    lg("GetNamedPipeClientProcessId"); use(h, "GetNamedPipeClientProcessId");
    if (!fk.pidQueryOk) { SetLastError(ERROR_ACCESS_DENIED); return FALSE; }
    *pid = fk.clientPid; return TRUE;
}
FARPROC fk_GetProcAddress(HMODULE m, LPCSTR n) {
    if (!strcmp(n, "GetNamedPipeClientProcessId")) return (FARPROC)clientPid;
    return GetProcAddress(m, n);
}
DWORD fk_GetFileAttributesW(LPCWSTR) { return FILE_ATTRIBUTE_NORMAL; }
HWINSTA fk_GetProcessWindowStation(void) { if (!fk.station) fk.station = (HWINSTA)mk("origstation"); return fk.station; }
HWINSTA fk_CreateWindowStationW(LPCWSTR, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) { lg("CreateWindowStation"); return (HWINSTA)mk("station"); }
BOOL fk_SetProcessWindowStation(HWINSTA s) { use(s, "SetProcessWindowStation"); lg("SetProcessWindowStation " + fk.handles[s].kind); fk.station = s; return TRUE; }
BOOL fk_CloseWindowStation(HWINSTA s) { use(s, "CloseWindowStation"); lg("CloseWindowStation " + fk.handles[s].kind); fk.handles[s].closed++; return TRUE; }
HDESK fk_CreateDesktopW(LPCWSTR, LPCWSTR, DEVMODEW *, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) {
    lg("CreateDesktop");
    if (fk.env.count("FK_NO_DESKTOP")) { SetLastError(ERROR_ACCESS_DENIED); return nullptr; }
    return (HDESK)mk("desktop");
}
BOOL fk_CloseDesktop(HDESK d) { use(d, "CloseDesktop"); lg("CloseDesktop " + fk.handles[d].kind); fk.handles[d].closed++; return TRUE; }
HDESK fk_GetThreadDesktop(DWORD) { return (HDESK)mk("origdesktop"); }
BOOL fk_GetUserObjectInformationW(HANDLE, int, PVOID p, DWORD n, LPDWORD need) {
    const wchar_t s[] = L"FakeObj";
    *need = sizeof(s);
    if (n < sizeof(s)) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    memcpy(p, s, sizeof(s));
    return TRUE;
}
DWORD fk_GetEnvironmentVariableA(LPCSTR n, LPSTR b, DWORD sz) {
    auto i = fk.env.find(n);
    if (i == fk.env.end()) return 0;
    if (i->second.size() + 1 > sz) return i->second.size() + 1;
    strcpy(b, i->second.c_str());
    return i->second.size();
}
}
