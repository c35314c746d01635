"""The library's side of the control pipe: one monitor, reports tagged with the property they belong to (C03-C06)."""
import ai
import core
from ai import A, C, ZERO, icmp, split
from checks.winio import IoMon, err_codes
from checks.c02 import err_arg


def session_arg(p, F):
    for i in range(F.nargs):
        if F.dty[i + 1:i + 2] in (['winpty_t *'], ['winpty_s *'], ['struct winpty_s *']):
            return i
    return None


class LibIo(IoMon):
    only = None

    def __init__(self):
        self.codes = err_codes()
        self.errobj = set()

    def rep(self, prop, I, st, site, msg, key):
        if self.only is None or self.only == prop:
            I.report(st, site, msg, key)

    def ob(self, prop, desc):
        if self.only is None or self.only == prop:
            self.oblige(desc)

    def start(self, st, I):
        self.p = I.prog
        F = st.frames[0].fn
        self.F = F
        self.ea = err_arg(F)
        self.wi = session_arg(self.p, F)
        self.off = {n: self.p.field('winpty_s', n)[0] for n in ('controlPipe', 'agentProcess', 'agentTimeoutMs', 'mutex', 'ioEvent')}
        self.rpc = self.wi is not None and F.short != 'winpty_free' and self.ea is not None
        self.wp = st.frames[0].env[self.wi] if self.wi is not None else None
        self.errsize = sum(self.p.field('winpty_error_s', 'msgDynamic'))
        self.h0 = None
        self.tmo = None
        if self.wp is not None:
            self.h0 = st.load(self.p, A(self.wp, self.off['controlPipe']), 8, 64)
            st.assume(icmp('eq', self.h0, C(ai.M64), 64), False)      # established by winpty_open, see finish
            self.tmo = st.load(self.p, A(self.wp, self.off['agentTimeoutMs']), 4, 32)
        else:
            self.cfg = st.frames[0].env[0]

    def part(self, I, st):
        if self.ea is None:
            return None
        F = st.frames[0].fn
        ea = st.frames[0].env[self.ea]
        c = st.mem.get((ea, 0))
        held = frozenset(v for f in st.frames for v in f.env.values() if v.k == 'g' and 'winpty_error_s' in I.prog.globals.get(v.a[0], {}).get('dty', ''))
        codes = frozenset((k[0], c2[1]) for k, c2 in st.mem.items() if c2[1].k == 'c' and (k[0].k == 'exn' or k[0].k == 'H' and k[1] == 0 and k[0] in self.errobj))
        return (st.truth(icmp('eq', ea, ZERO, 64)), c[1] if c and c[1].k in ('c', 'g', 'H') else None, held, codes)

    # -- events
    def is_pipe(self, st, h):
        if h is self.h0:
            return True
        return h in self.g(st, 'pipes', ())

    def io(self, I, st, name, args, site):
        where = I.where(site)
        h = args[0]
        if self.rpc:
            self.ob('C04', '%s: %s under the session lock' % (where, name))
            if not self.g(st, 'lock'):
                self.rep('C04', I, st, site, '%s on the control pipe without holding the session lock' % name, '%s|%s-unlocked' % (self.F.short, name))
            if self.g(st, 'x') and self.g(st, 'unlocked'):
                self.rep('C04', I, st, site, 'the session lock was released in the middle of an exchange', '%s|lock-gap' % self.F.short)
            self.ob('C03', '%s: %s only on an open control pipe' % (where, name))
            if st.truth(icmp('eq', h, ZERO, 64)) is not False or self.g(st, 'closed'):
                self.rep('C03', I, st, site, '%s although the control pipe may have been closed by an earlier failure' % name, '%s|closed-io' % self.F.short)
        over = args[4] if name in ('ReadFile', 'WriteFile') else args[1]
        self.ob('C06', '%s: %s with OVERLAPPED %s' % (where, name, ai.show(over)))
        if st.truth(icmp('eq', over, ZERO, 64)) is not False:
            self.rep('C05', I, st, site, '%s without an OVERLAPPED record waits without a time limit' % name, '%s|sync-io' % self.F.short)
        if self.pend(st):
            self.rep('C06', I, st, site, '%s issued while another operation is still pending' % name, '%s|two-pending' % self.F.short)
        if name != 'ConnectNamedPipe':
            x = self.g(st, 'x')
            self.s(st, 'x', 'io')
        ioh = self.g(st, 'ioh', ())
        if h not in ioh and not self.rpc:
            self.s(st, 'ioh', ioh + (h,))
        self.s(st, 'cause', None)

    def failed(self, I, st, kind, code):
        if kind in 'RW' and code in (109, 232, 233):
            self.s(st, 'cause', 'broken')

    def procs(self, st):
        r = set(self.g(st, 'proc', ()))
        if self.wp is not None:
            r.add(st.load(self.p, A(self.wp, self.off['agentProcess']), 8, 64))
        return r

    def winapi(self, I, st, name, args, site):
        where = I.where(site)
        if name == 'EnterCriticalSection':
            b, o = split(args[0])
            if self.wp is not None and (b is self.wp or b.k == 'g'):
                self.s(st, 'lock', self.g(st, 'lock', 0) + 1)
        elif name == 'LeaveCriticalSection':
            b, o = split(args[0])
            if self.wp is not None and (b is self.wp or b.k == 'g'):
                n = self.g(st, 'lock', 0)
                if not n:
                    self.rep('C04', I, st, site, 'the session lock is released without being held', '%s|unlock' % self.F.short)
                self.s(st, 'lock', n - 1 if n > 1 else None)
                if self.g(st, 'x'):
                    self.s(st, 'unlocked', True)
        elif name == 'CloseHandle':
            if self.is_pipe(st, args[0]):
                self.ob('C04', '%s: control pipe closed under the session lock' % where)
                if self.rpc and not self.g(st, 'lock'):
                    self.rep('C04', I, st, site, 'the control pipe is closed without holding the session lock', '%s|close-unlocked' % self.F.short)
                if self.pend(st):
                    self.rep('C06', I, st, site, 'the control pipe is closed while an operation on it is pending', '%s|close-pending' % self.F.short)
                if self.rpc:
                    self.s(st, 'closed', True)
                else:
                    self.s(st, 'closedh', self.g(st, 'closedh', ()) + (args[0],))
        elif name in ('WaitForMultipleObjects', 'WaitForMultipleObjectsEx', 'WaitForSingleObject', 'WaitForSingleObjectEx', 'MsgWaitForMultipleObjects'):
            self.check_wait(I, st, name, args, site)
        elif name in ('Sleep', 'SleepEx', 'WaitNamedPipeW', 'CallNamedPipeW', 'SignalObjectAndWait', 'WaitForInputIdle'):
            self.rep('C05', I, st, site, '%s waits without watching the agent process' % name, '%s|%s' % (self.F.short, name))

    def handles(self, st, args):
        n = st.known(args[0])
        if n.k != 'c' or n.a[0] > 8:
            return None
        return [st.load(self.p, A(args[1], 8 * i), 8, 64) for i in range(n.a[0])]

    def check_wait(self, I, st, name, args, site):
        where = I.where(site)
        if 'Multiple' in name:
            hs = self.handles(st, args)
            all_, tm = args[2], args[3]
        else:
            hs, all_, tm = [args[0]], ZERO, args[1]
        key = '%s|%s' % (self.F.short, site.fn.short)
        self.ob('C05', '%s: %s watches the agent process for at most the configured time' % (where, name))
        if hs is None or st.truth(icmp('eq', all_, ZERO, 32)) is not True:
            self.rep('C05', I, st, site, '%s waits for all of its handles or an undetermined set' % name, key + '|waitall')
            return
        if not any(h in self.procs(st) for h in hs):
            self.rep('C05', I, st, site, '%s does not watch the agent process' % name, key + '|noproc')
        want = self.tmo if self.wp is not None else st.load(self.p, A(self.cfg, self.p.field('winpty_config_s', 'timeoutMs')[0]), 4, 32)
        if st.known(tm) is not want:
            self.rep('C05', I, st, site, '%s uses the timeout %s instead of the configured one' % (name, ai.show(tm)), key + '|timeout')
        ev = [st.load(self.p, A(o, self.p.field('_OVERLAPPED', 'hEvent')[0]), 8, 64) for o, s_, k in self.pend(st)]
        if not ev or not any(e in hs for e in ev):
            self.rep('C05', I, st, site, '%s does not wait for the pending operation' % name, key + '|noevent')

    def wait_outcome(self, I, st, name, args, v):
        if 'Multiple' not in name:
            return
        hs = self.handles(st, args)
        if hs is None:
            return
        if v == 258:
            self.s(st, 'cause', 'timeout')
        elif v == 0xffffffff:
            self.s(st, 'cause', 'waitfail')
        elif v is not None and v < len(hs):
            if hs[v] in self.procs(st):
                self.s(st, 'cause', 'died')
            else:
                ho = self.p.field('_OVERLAPPED', 'hEvent')[0]
                self.setpend(st, [(o, 'sig' if s_ == 'pend' and st.load(self.p, A(o, ho), 8, 64) is hs[v] else s_, k) for o, s_, k in self.pend(st)])
                self.s(st, 'cause', None)
        else:
            self.s(st, 'cause', 'waitfail')

    def waited(self, I, st, over, site):
        where = I.where(site)
        self.ob('C05', '%s: untimed completion wait' % where)
        m = [x for x in self.pend(st) if x[0] is over]
        key = '%s|%s' % (self.F.short, site.fn.short)
        if m and m[0][1] == 'pend':
            self.rep('C05', I, st, site, 'untimed wait for an operation that was neither signalled nor cancelled', key + '|untimed')
        if over.k == 'L' and not any(f.ctx == over.a[0] for f in st.frames):
            self.rep('C06', I, st, site, 'completion awaited after the OVERLAPPED record went out of scope', key + '|dead-over')

    def after_other(self, I, st, name, short, args, site, ret):
        if name in ('_Znwy', '_Znwm') and args[0].k == 'c' and args[0].a[0] == self.errsize:
            self.errobj.add(ret)
        if name == 'CreateProcessW':
            v = st.load(self.p, A(args[9], self.p.field('_PROCESS_INFORMATION', 'hProcess')[0]), 8, 64)
            if v not in self.g(st, 'proc', ()):
                self.s(st, 'proc', self.g(st, 'proc', ()) + (v,))
        elif name == 'CreateNamedPipeW':
            self.s(st, 'pipes', self.g(st, 'pipes', ()) + (ret,))

            def good(s):
                return s.assume(icmp('eq', ret, C(ai.M64), 64), False) and s.assume(icmp('eq', ret, ZERO, 64), False)
            return [good, lambda s: s.assume(icmp('eq', ret, C(ai.M64), 64), True)]
        return None

    def returned(self, I, st, F, val, ctx):
        if F.short == 'ReadBuffer::assertEof' and self.g(st, 'x'):
            self.s(st, 'x', 'done')
        self.scope(I, st, F, ctx)

    def scope(self, I, st, F, ctx):
        for o, s_, k in self.pend(st):
            if o.k == 'L' and o.a[0] == ctx:
                self.rep('C06', I, st, '%s:%d (%s)' % (I.relfile(F), F.line, F.short), '%s returns while its overlapped operation is pending' % F.short, '%s|scope' % F.short)

    # -- ends
    def errcode(self, I, st):
        if self.ea is None:
            return None
        ea = st.frames[0].env[self.ea]
        if st.truth(icmp('eq', ea, ZERO, 64)) is not False:
            return 'noptr'
        c = st.mem.get((ea, 0))
        if c is None:
            return None
        e = c[1]
        if st.truth(icmp('eq', e, ZERO, 64)) is True:
            return 0
        b, o = split(e)
        if b.k == 'g':
            return 'static'
        c = st.mem.get((b, self.p.field('winpty_error_s', 'code')[0]))
        if c is None:
            return '?'
        k = st.known(c[1])
        return k.a[0] if k.k == 'c' else '?'

    def finish(self, I, st, val):
        F = self.F
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        code = self.errcode(I, st)
        failed = None
        if val is not None:
            z = st.truth(icmp('eq', val, ZERO, F.ret if isinstance(F.ret, int) else 64))
            if F.ret == 'p' or F.short == 'winpty_spawn' or F.short == 'winpty_set_size':
                failed = z
            elif val.k == 'c' and val.a[0] == 0:
                failed = True
            else:
                failed = False
        x = self.g(st, 'x')
        closed = self.g(st, 'closed', False)
        cd = self.codes
        if self.rpc:
            agentfail = code == cd['SPAWN_CREATE_PROCESS_FAILED']
            if x:
                self.ob('C03', '%s: exchange %s, result %s, pipe %s' % (F.short, x, 'failure' if failed else 'success', 'closed' if closed else 'open'))
                if not closed and x == 'io':
                    self.rep('C03', I, st, site, '%s returns with the control pipe open although the exchange was interrupted: the reply is not completely consumed' % F.short, '%s|unconsumed' % F.short)
                if closed and (failed is False or code != 'noptr' and agentfail):
                    self.rep('C03', I, st, site, '%s closes the control pipe although the exchange was completed' % F.short, '%s|closed' % F.short)
                if closed:
                    c = st.load(self.p, A(self.wp, self.off['controlPipe']), 8, 64)
                    if st.truth(icmp('eq', c, ZERO, 64)) is not True:
                        self.rep('C03', I, st, site, '%s closes the control pipe but leaves its handle in the session' % F.short, '%s|stale' % F.short)
            elif failed is False:
                self.rep('C03', I, st, site, '%s succeeds without talking to the agent' % F.short, '%s|noexchange' % F.short)
            self.ob('C04', '%s: lock not held at return' % F.short)
            if self.g(st, 'lock'):
                self.rep('C04', I, st, site, '%s returns with the session lock held' % F.short, '%s|lock-held' % F.short)
        elif self.ea is not None and failed and self.g(st, 'ioh'):
            for h in self.g(st, 'ioh'):
                self.ob('C03', '%s fails: control pipe %s closed' % (F.short, ai.show(h)))
                if h not in self.g(st, 'closedh', ()):
                    self.rep('C03', I, st, site, '%s fails and leaves a control pipe open' % F.short, '%s|open' % F.short)
        if self.pend(st):
            self.rep('C06', I, st, site, '%s returns while an overlapped operation may still be pending' % F.short, '%s|pending' % F.short)
        cause = self.g(st, 'cause')
        if cause:
            self.ob('C05', '%s: %s gives code %s' % (F.short, cause, code))
            if failed is False:
                self.rep('C05', I, st, site, '%s succeeds although %s' % (F.short, cause), '%s|%s-success' % (F.short, cause))
        want = {'died': 'AGENT_DIED', 'timeout': 'AGENT_TIMEOUT', 'broken': 'LOST_CONNECTION'}
        if failed and type(code) is int and self.ea is not None:
            for c_, n in want.items():
                if cause == c_ and code != cd[n]:
                    self.rep('C05', I, st, site, '%s: %s is reported as error code %s, not %s' % (F.short, c_, code, n), '%s|%s-code' % (F.short, c_))
                if cause != c_ and code == cd[n]:
                    self.rep('C05', I, st, site, '%s reports %s although the cause is %s' % (F.short, n, cause), '%s|false-%s' % (F.short, n))
        elif failed and cause in want and code == '?':
            self.rep('C05', I, st, site, '%s: %s gives an undetermined error code' % (F.short, cause), '%s|%s-code' % (F.short, cause))
        if failed is False and F.short == 'winpty_open':
            v = st.load(self.p, A(val, self.off['agentTimeoutMs']), 4, 32)
            h = st.load(self.p, A(val, self.off['controlPipe']), 8, 64)
            self.ob('C03', 'winpty_open returns a session whose control pipe is open')
            if h not in self.g(st, 'pipes', ()) or h in self.g(st, 'closedh', ()) or st.truth(icmp('eq', h, C(ai.M64), 64)) is not False:
                self.rep('C03', I, st, site, 'winpty_open returns a session whose control pipe is not known to be open', '%s|open-invalid' % F.short)
            if v is not st.load(self.p, A(self.cfg, self.p.field('winpty_config_s', 'timeoutMs')[0]), 4, 32):
                self.rep('C05', I, st, site, 'the session does not take over the configured timeout', '%s|cfgtimeout' % F.short)


def run(prop, rule, expl, minobl):
    c = core.Check(prop, rule)
    p = core.program('libwinpty')
    ex = core.exported(p)
    c.need(len(ex) >= 18, 'only %d exported functions found' % len(ex))

    class M(LibIo):
        only = prop
    c.run([('libwinpty', F, M, {}) for F in ex])
    return c.finish(expl, minobl)
