"""A model of overlapped Windows I/O and of the thread's last error, shared by several checks.

Monitor state is a sorted tuple of (key, value) pairs:
  le     value GetLastError returns next: a constant, 'other', or absent (unknown)
  pend   overlapped operations in flight: tuple of (OVERLAPPED address, state, kind)
         state: pend (issued), sig (its event was waited for), canc (cancelled)
"""
import re
import ai
import core
from ai import A, C, ZERO, icmp, split

IO_OPS = {'ReadFile': ('R', 4), 'WriteFile': ('W', 4), 'ConnectNamedPipe': ('C', 1), 'ReadFileEx': ('R', 3), 'WriteFileEx': ('W', 3),
          'TransactNamedPipe': ('T', 6)}
BROKEN = {'R': (109, 233), 'W': (232, 109, 233), 'C': (), 'T': (109, 232, 233)}
ERROR_IO_PENDING, ERROR_IO_INCOMPLETE, ERROR_PIPE_CONNECTED, ERROR_OPERATION_ABORTED = 997, 996, 535, 995
WIN = re.compile(r'^[A-Z][a-z]+[A-Z]?\w*$')


class IoMon(core.Mon):
    std_throws = True
    init = ()
    fork_errors = True

    # -- state access
    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        r = [x for x in st.mon if x[0] != k]
        if v is not None:
            r.append((k, v))
            r.sort(key=lambda x: x[0])
        st.mon = tuple(r)

    def pend(self, st):
        return self.g(st, 'pend', ())

    def setpend(self, st, p):
        self.s(st, 'pend', tuple(p) or None)

    # -- hooks for subclasses
    def io(self, I, st, op, args, site):
        """before an I/O call"""

    def failed(self, I, st, kind, code):
        """an I/O operation failed with this code (an int or 'other')"""

    def waited(self, I, st, over, site):
        """before an untimed wait for the completion of `over`"""

    def wait_outcome(self, I, st, name, args, out):
        pass

    def winapi(self, I, st, name, args, site):
        """before any other Windows call"""

    def after_other(self, I, st, name, short, args, site, ret):
        return None

    # -- model
    def call(self, I, st, name, short, args, site):
        if name in IO_OPS:
            self.io(I, st, name, args, site)
        elif name == 'GetLastError':
            le = self.g(st, 'le')
            if type(le) is int:
                return ('ret', C(le))
        elif name == 'GetOverlappedResult':
            if st.truth(icmp('eq', args[3], ZERO, 32)) is not True:
                self.waited(I, st, args[1], site)
        elif not name.startswith('_Z') and WIN.match(name):
            self.winapi(I, st, name, args, site)
        return None

    def _done(self, st, over):
        self.setpend(st, [x for x in self.pend(st) if x[0] is not over])

    def after(self, I, st, name, short, args, site, ret):
        if name in IO_OPS:
            kind, oi = IO_OPS[name]
            over = args[oi]
            nul = st.truth(icmp('eq', over, ZERO, 64))
            outs = []

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.s(s, 'le', None)
            outs.append(ok)

            def fail(code, kind=kind):
                def f(s):
                    if not s.assume(icmp('eq', ret, ZERO, 32), True):
                        return False
                    self.s(s, 'le', code)
                    if code == ERROR_IO_PENDING:
                        self.setpend(s, list(self.pend(s)) + [(over, 'pend', kind)])
                    else:
                        self.failed(I, s, kind, code)
                return f
            if nul is not True:
                outs.append(fail(ERROR_IO_PENDING))
            if kind == 'C':
                outs.append(fail(ERROR_PIPE_CONNECTED))
            for b in BROKEN[kind]:
                outs.append(fail(b))
            outs.append(fail('other'))
            return outs
        if name == 'GetOverlappedResult':
            over = args[1]
            mine = [x for x in self.pend(st) if x[0] is over]
            kind = mine[0][2] if mine else 'R'
            canc = bool(mine) and mine[0][1] == 'canc'
            wait = st.truth(icmp('eq', args[3], ZERO, 32)) is not True
            outs = []

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self._done(s, over)
                self.s(s, 'le', None)
            outs.append(ok)

            def fail(code):
                def f(s):
                    if not s.assume(icmp('eq', ret, ZERO, 32), True):
                        return False
                    self.s(s, 'le', code)
                    if code != ERROR_IO_INCOMPLETE:
                        self._done(s, over)
                        if not canc:
                            self.failed(I, s, kind, code)
                return f
            if not wait:
                outs.append(fail(ERROR_IO_INCOMPLETE))
            for b in (BROKEN[kind] if not canc else ()):
                outs.append(fail(b))
            outs.append(fail('other'))
            return outs
        if name in ('CancelIo', 'CancelIoEx'):
            self.s(st, 'le', None)
            self.setpend(st, [(o, 'canc', k) for o, s_, k in self.pend(st)])
            return None
        if name == 'GetLastError':
            if self.g(st, 'le') == 'other':
                for c in (109, 232, 233, 995, 996, 997, 535):
                    st.assume(icmp('eq', ret, C(c), 32), False)
            return None
        if name in ('WaitForMultipleObjects', 'WaitForMultipleObjectsEx', 'WaitForSingleObject', 'WaitForSingleObjectEx'):
            outs = []

            def oc(v):
                def f(s):
                    if not s.assume(icmp('eq', ret, C(v), 32), True):
                        return False
                    if v != 0xffffffff:
                        self.s(s, 'le', None)
                    self.wait_outcome(I, s, name, args, v)
                return f
            n = 1
            if 'Multiple' in name:
                k = st.known(args[0])
                n = k.a[0] if k.k == 'c' and k.a[0] <= 8 else None
            if n is None:
                return self.after_other(I, st, name, short, args, site, ret)
            for v in list(range(n)) + [258, 0xffffffff]:
                outs.append(oc(v))

            def rest(s):
                for v in list(range(n)) + [258, 0xffffffff]:
                    if not s.assume(icmp('eq', ret, C(v), 32), False):
                        return False
                self.s(s, 'le', None)
                self.wait_outcome(I, s, name, args, None)
            outs.append(rest)
            return outs
        if not name.startswith('_Z') and WIN.match(name) and self.g(st, 'le') is not None:
            self.s(st, 'le', None)
        return self.after_other(I, st, name, short, args, site, ret)


def err_codes():
    r = {}
    for l in open(core.REPO + '/src/include/winpty_constants.h'):
        m = re.match(r'#define\s+(WINPTY_ERROR_\w+)\s+(\d+)', l)
        if m:
            r[m.group(1)[13:]] = int(m.group(2))
    return r
