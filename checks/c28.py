"""The error number that is reported is the one set by the operation that failed."""
import re
import ai
import core
from ai import A, C, ZERO, icmp, split
from checks.winio import WIN

QUIET = {'GetLastError', 'GetCurrentProcess', 'GetCurrentThread', 'GetCurrentProcessId', 'GetCurrentThreadId', 'GetSystemTimeAsFileTime', 'GetTickCount', 'GetTickCount64',
         'EnterCriticalSection', 'LeaveCriticalSection', 'InterlockedCompareExchangePointer', 'InterlockedIncrement', 'InterlockedDecrement', 'QueryPerformanceCounter', 'GetProcessHeap'}
CLEAN = {'CloseHandle', 'CancelIo', 'LocalFree', 'FreeLibrary', 'FreeSid', 'DisconnectNamedPipe', 'ResetEvent', 'SetEvent', 'CloseDesktop', 'CloseWindowStation', 'SetLastError',
         'SetProcessWindowStation', 'RevertToSelf', 'ReleaseMutex', 'FlushFileBuffers', 'Sleep', 'WideCharToMultiByte', 'MultiByteToWideChar', 'HeapFree', 'OutputDebugStringA', 'OutputDebugStringW'}
STATUS = {'GetSecurityInfo', 'SetEntriesInAclW', 'SetEntriesInAclA', 'RegOpenKeyExW', 'RegQueryValueExW', 'SetSecurityInfo', 'GetNamedSecurityInfoW'}
# Repository functions that call the system: what they do to the last error matters too.
CONVERT = ('utf8FromWide', 'winptyVersion', 'dumpWindowsVersion', 'dumpVersionToTrace')


def isapi(name):
    return name == '<indirect>' or bool(WIN.match(name)) and name not in QUIET


class M(core.Mon):
    """st.mon = (last, failed, stale): the latest system call (name, result, where[, error read]), the failed
    one before it whose error has not been read, and the values read at the wrong moment."""
    std_throws = False
    init = (None, None, ())
    opaque = ('translateException',)

    def __init__(self):
        self.interest = lambda name, short=None: isapi(name) or name == 'GetLastError'

    def compared(self, I, st, where, F):
        for x, why, op, lost in st.mon[2]:
            if any(f.k == 'cmp' and (f.a[1] is x or f.a[2] is x) for f in st.facts) and (self.verdict(st, op[1], op[0]) is True) == lost:
                I.report(st, where, 'the error number was read %s' % why, 'stale|%s' % F.short)

    def part(self, I, st):
        last, failed, stale = st.mon
        if stale:
            self.compared(I, st, '%s:%d (%s)' % (I.relfile(st.frames[-1].fn), st.frames[-1].fn.line, st.frames[-1].fn.short), st.frames[-1].fn)
        if last is None:
            return None
        live = None
        if stale:
            live = set(v for f in st.frames for v in f.env.values()) | set(c[1] for (b, o), c in st.mem.items() if b.k == 'L')
            stale = tuple(x for x in stale if x[0] in live)
        if type(last[1]) is ai.V:
            t = self.verdict(st, last[1], last[0])
            if t is False:
                last = ('the latest system call', False, '')
            elif t is None:
                if live is None:
                    live = set(v for f in st.frames for v in f.env.values()) | set(c[1] for (b, o), c in st.mem.items() if b.k == 'L')
                if last[1] not in live and not any(last[1] is x for x in live):
                    last = (last[0] if last[0] in CLEAN else 'the latest system call', None, '') + last[3:]
        if failed is not None and type(failed[1]) is ai.V:
            t = self.verdict(st, failed[1], failed[0])
            if t is True:
                failed = (failed[0], True, failed[2])
            elif t is False:
                failed = None
            else:
                if live is None:
                    live = set(v for f in st.frames for v in f.env.values()) | set(c[1] for (b, o), c in st.mem.items() if b.k == 'L')
                if failed[1] not in live:
                    failed = None
        if stale != st.mon[2] or failed != st.mon[1] or last != st.mon[0]:
            st.mon = (last, failed, stale)
        return None

    def verdict(self, st, v, name):
        """True: known to have failed, False: known not to have, None: not tested."""
        if v is None or v is False or v is True:
            return v
        if name in STATUS:
            t = st.truth(icmp('eq', v, ZERO, 32))
            return None if t is None else not t
        if name.startswith(('WaitFor', 'MsgWait', 'ResumeThread', 'SuspendThread', 'GetFileAttributes', 'SignalObjectAndWait')):
            return st.truth(icmp('eq', v, C(0xffffffff), 32))
        res = []
        for w, c in ((32, ZERO), (64, ZERO), (64, C(ai.M64)), (32, C(0xffffffff))):
            t = st.truth(icmp('eq', v, c, w))
            if t is True:
                return True
            res.append(t)
        if False in res[:2] and ((res[2] is False or res[3] is False) or not self.invalid(name)):
            return False
        return None

    def invalid(self, name):
        return name.startswith(('CreateFile', 'CreateNamedPipe', 'WaitFor', 'MsgWaitFor', 'CreateToolhelp', 'GetStdHandle', 'GetFileAttributes', 'SuspendThread', 'ResumeThread'))

    def call(self, I, st, name, short, args, site):
        last, failed, stale = st.mon
        if name in ('trace', '_Z5tracePKcz'):
            return ('ret', ZERO)            # checked by itself: it leaves the last error alone
        if stale:
            self.compared(I, st, I.where(site), site.fn)
        throws = short == 'throwWindowsError' or short.endswith('WindowsError::WindowsError')
        for x, why, op, lost in stale:
            if x in args and (self.verdict(st, op[1], op[0]) is True) == lost:
                I.report(st, site, 'the reported error number was read %s' % why, 'stale|%s' % site.fn.short)
        if throws:
            self.count('reported_numbers')
            return None
        if name == 'GetLastError':
            w = I.where(site)
            self.oblige('%s: reads the error of the call that failed' % w)
            self.count('reads')
            v = I.fresh(st, 'call', st.frames[-1].ctx, site.iid, 'GetLastError')
            bad, op, lost = None, last, False
            if last is None:
                bad = None          # an entry of its own: whatever came before is its caller's
            else:
                n, r, lw = last[:3]
                t = self.verdict(st, r, n)
                if t is False:
                    bad = 'after %s succeeded (%s)' % (n, lw)
                elif t is None and failed and n not in CLEAN:
                    bad = 'after %s (%s)' % (n, lw)
                if n in CLEAN and failed and self.verdict(st, failed[1], failed[0]) is not True:
                    bad, op, lost = 'after %s (%s), not right after %s' % (n, lw, failed[0]), failed, True
                elif n in CLEAN and failed:
                    I.report(st, site, 'the error of %s (%s) is read only after %s (%s)' % (failed[0], failed[2], n, lw), 'late|%s|%s' % (failed[0], site.fn.short))
                    bad = None
            st.mon = (last and (last[0], last[1], last[2], True), None, tuple(x for x in stale if x[0] is not v) + (((v, bad, op, lost),) if bad else ()))
            return ('ret', v)
        if isapi(name) or short in CONVERT:
            # the failure that is known by now and whose error nobody has read
            f = failed if name in CLEAN or short in CONVERT else None
            if last is not None:
                t = self.verdict(st, last[1], last[0])
                if t is True or t is None and last[1] is not None and (name in CLEAN or short in CONVERT) and last[0] not in CLEAN:
                    f = None if len(last) > 3 else last
            st.mon = (last, f, stale)
            if short in CONVERT:
                st.mon = (('WideCharToMultiByte', None, I.where(site)), f, stale)
        return None

    def after(self, I, st, name, short, args, site, ret):
        if isapi(name):
            last, failed, stale = st.mon
            st.mon = ((name, ret, I.where(site)), failed, stale)
        return None



class Keep(core.Mon):
    """Tracing: the last error on return is the one on entry."""
    std_throws = False
    walk_trace = True
    init = (True, None)

    def __init__(self):
        self.interest = lambda name, short=None: isapi(name) or name == 'GetLastError'

    def call(self, I, st, name, short, args, site):
        clean, e = st.mon
        if name == 'GetLastError':
            v = I.fresh(st, 'call', st.frames[-1].ctx, site.iid, 'GetLastError')
            if clean:
                st.mon = (clean, (e or frozenset()) | {v})
            return ('ret', v)
        if name == 'SetLastError':
            st.mon = (e is not None and args[0] in e, e)
            return ('ret', ZERO)
        return None

    def after(self, I, st, name, short, args, site, ret):
        if isapi(name):
            st.mon = (False, st.mon[1])
            self.count('system_calls')

    def finish(self, I, st, val):
        F = st.frames[0].fn
        self.oblige('%s leaves the last error as it found it' % F.short)
        if not st.mon[0]:
            I.report(st, '%s:%d (%s)' % (I.relfile(F), F.line, F.short), '%s changes the last error of the thread' % F.short, 'keep|%s' % F.short)


def reads(p, F):
    for b in p.raw['funcs'][F.name]['blocks']:
        for i in b:
            if i[1] in ('call', 'invoke') and 'GetLastError' in str(i[4]):
                return True
    return False


def check():
    c = core.Check('C28', 'at every read of the last error the latest system call on the path is the failed one; tracing restores the last error')
    p = core.program('libwinpty')
    ex = [F for F in core.exported(p)]
    c.need(len(ex) >= 18, 'only %d exported winpty_* functions found' % len(ex))
    c.run([('libwinpty', F, M, {}) for F in ex])
    ag = core.program('agent')
    es = [F for F in ag.fns.values() if F.repo and reads(ag, F) and F.short not in ('trace', 'hasDebugFlag', 'isTracingEnabled') and 'PreserveLastError' not in F.short]
    c.need(any('handleStartProcessPacket' in F.short for F in es), 'no reading of the last error in the agent\'s handling of StartProcess')
    c.run([('agent', F, M, {}) for F in es])
    tr = [core.fn(p, n) for n in ('trace', 'isTracingEnabled', 'hasDebugFlag')]
    c.run([('libwinpty', F, Keep, {}) for F in tr])
    return c.finish('Typestate of the thread\'s last error over every path of every exported function, and over the tracing functions.', 10)
