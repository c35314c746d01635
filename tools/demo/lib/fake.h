// The scripted agent and the observations of a demonstration.
#pragma once
#include <windows.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "winpty.h"

struct FkHandle { std::string kind; int closed = 0; DWORD a = 0, b = 0, c = 0; std::string extra; };
enum FkMode { NOW, PENDING_OK, PENDING_HANG, FAIL };
struct Fk {
    std::map<HANDLE, FkHandle> handles;
    std::vector<std::string> log;
    std::vector<std::string> errors;         // misuse seen by the stand-in
    std::vector<char> sent, replies;         // bytes written by the library / waiting to be read
    std::function<void(const std::vector<char> &)> onRequest;
    std::function<void()> onRead, onWrite;   // called inside ReadFile / WriteFile
    FkMode read = NOW, write = NOW, connect = NOW;
    DWORD failError = ERROR_BROKEN_PIPE;     // for FAIL, and for GetOverlappedResult after PENDING_OK when pendingError is set
    DWORD pendingError = 0;
    DWORD hangResult = WAIT_TIMEOUT;         // what the wait on a hanging operation gives
    DWORD readChunk = 0xffffffff;
    DWORD agentPid = 4242, clientPid = 4242;
    BOOL pidQueryOk = TRUE;
    BOOL createProcessOk = TRUE, duplicateOk = TRUE;
    int duplicateFailAt = -1, createEventFail = 0, createPipeFail = 0;
    DWORD lastTimeout = 0; DWORD lastWaitCount = 0; BOOL lastInherit = -1;
    int pending = 0;                         // operations that may still write to their buffers
    std::map<std::string, std::string> env;
    bool started = false;                    // the agent has answered the start-up message
    bool conerr = false;
    HWINSTA station = 0;
    int ioCount = 0;
};
extern Fk fk;
void fkPut32(std::vector<char> &b, int32_t v);
void fkPut64(std::vector<char> &b, int64_t v);
void fkPutStr(std::vector<char> &b, const std::wstring &s);
void fkReply(const std::vector<char> &payload);
winpty_t *fkOpen(UINT64 flags = 0, DWORD timeout = 30000);
int fkOpenCount(const std::string &kind);    // handles of that kind still open
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); return 1; } } while (0)
