From 8e00a3380e8eba57b858b46b32eb962ace0b9c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 1/7] fix: keep exceptions from the error trace inside
 translateException

translateException runs inside the API functions' catch handlers and
converts the error message for the trace.  The conversion allocates, so
when memory is short it threw std::bad_alloc out of the extern "C"
function and lost the error object.
---
 src/libwinpty/winpty.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 3d97749..a8f9c62 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -130,9 +130,15 @@ static void translateException(winpty_error_ptr_t *&err) {
     } catch (...) {
         ret = const_cast<winpty_error_ptr_t>(&kUncaughtException);
     }
-    trace("libwinpty error: code=%u msg='%s'",
-        static_cast<unsigned>(ret->code),
-        utf8FromWide(winpty_error_msg(ret)).c_str());
+    try {
+        trace("libwinpty error: code=%u msg='%s'",
+            static_cast<unsigned>(ret->code),
+            utf8FromWide(winpty_error_msg(ret)).c_str());
+    } catch (...) {
+        // Converting the message allocates memory.  This function runs inside
+        // a catch handler, so an exception here would escape into the (C)
+        // caller.
+    }
     if (err != nullptr) {
         *err = ret;
     } else {
-- 
2.43.0


From 00978db9f2c9d7028a16366c3a1c4b9a58c0031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 2/7] fix: read every console process list entry even if the
 caller's array is small

---
 src/libwinpty/winpty.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index a8f9c62..9679142 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -956,9 +956,12 @@ winpty_get_console_process_list(winpty_t *wp, int *processList, const int proces
 
         auto actualProcessCount = reply.getInt32();
 
-        if (actualProcessCount <= processCount) {
-            for (auto i = 0; i < actualProcessCount; i++) {
-                processList[i] = reply.getInt32();
+        // Read every entry, even if the caller's array is too small to hold
+        // them.  (Otherwise, assertEof would fail.)
+        for (auto i = 0; i < actualProcessCount; i++) {
+            const auto pid = reply.getInt32();
+            if (actualProcessCount <= processCount) {
+                processList[i] = pid;
             }
         }
 
-- 
2.43.0


From 56521ec078c5d0919100df12668fb78c6f0270c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 3/7] fix: check a string's length against the message before
 allocating it

---
 src/shared/Buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/Buffer.cc b/src/shared/Buffer.cc
index 158a629..7b029a4 100644
--- a/src/shared/Buffer.cc
+++ b/src/shared/Buffer.cc
@@ -86,7 +86,7 @@ int64_t ReadBuffer::getInt64() {
 std::wstring ReadBuffer::getWString() {
     READ_BUFFER_CHECK(getRawValue<Piece>() == Piece::WString);
     const uint64_t charLen = getRawValue<uint64_t>();
-    READ_BUFFER_CHECK(charLen <= SIZE_MAX / sizeof(wchar_t));
+    READ_BUFFER_CHECK(charLen <= (m_buf.size() - m_off) / sizeof(wchar_t));
     // To be strictly conforming, we can't use the convenient wstring
     // constructor, because the string in m_buf mightn't be aligned.
     std::wstring ret;
-- 
2.43.0


From 5ba808ecb951544b8d1c78b82988786f35c3c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 4/7] fix: own the agent's process handle before anything can
 throw

---
 src/libwinpty/winpty.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 9679142..f5b68a2 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -518,12 +518,13 @@ static OwnedHandle startAgentProcess(
         throw LibWinptyException(
             WINPTY_ERROR_AGENT_CREATION_FAILED, errStr.c_str());
     }
+    OwnedHandle process(pi.hProcess);
     CloseHandle(pi.hThread);
     TRACE("Created agent successfully, pid=%u, cmdline=%s",
           static_cast<unsigned int>(pi.dwProcessId),
           utf8FromWide(cmdline).c_str());
     agentPid = pi.dwProcessId;
-    return OwnedHandle(pi.hProcess);
+    return process;
 }
 
 static void verifyPipeClientPid(HANDLE serverPipe, DWORD agentPid) {
-- 
2.43.0


From 2c8291e1bd1c0bb808f8a32620e89da962cb7836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 5/7] fix: remember across a terminal reset that the cursor is
 hidden

Terminal::reset forgot that a cursor-hide sequence had been sent.  The
sequences it sends itself do not show the cursor again, so a later
showTerminalCursor sent nothing and the cursor stayed hidden, for example
in a one-row terminal resized while the console cursor became visible.
---
 src/agent/Terminal.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index afa0a36..a8dbc44 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -311,7 +311,6 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
     m_remoteLine = newLine;
     m_remoteColumn = 0;
     m_lineData.clear();
-    m_cursorHidden = false;
     m_remoteColor = -1;
 }
 
-- 
2.43.0


From a3309034846d358c65d3f2a860800dca9d2195b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 6/7] fix: preserve errno in the SIGWINCH handler

---
 src/unix-adapter/main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 992cb70..832ade9 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -186,7 +186,11 @@ static void debugShowKey(bool allowNonTtys)
 
 static void terminalResized(int signo)
 {
+    // The handler can interrupt any thread between a system call and its check
+    // of errno.
+    const int savedErrno = errno;
     mainWakeup().set();
+    errno = savedErrno;
 }
 
 static void registerResizeSignalHandler()
-- 
2.43.0


From dc62bb059d922f595e0e043a9ec7be21394b4d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:36 +0000
Subject: [PATCH 7/7] fix: ignore the terminal size in the Unix adapter when it
 cannot be read

---
 src/unix-adapter/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 832ade9..c3444c9 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -691,8 +691,8 @@ int main(int argc, char *argv[])
         // Check for terminal resize.
         {
             winsize sz2;
-            ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2);
-            if (memcmp(&sz, &sz2, sizeof(sz)) != 0) {
+            if (ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2) == 0 &&
+                    memcmp(&sz, &sz2, sizeof(sz)) != 0) {
                 sz = sz2;
                 winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
             }
-- 
2.43.0

