"""No byte is exchanged on a control pipe before its client is known to be the agent process that was started."""
import ai
import core
from ai import A, C, ZERO, icmp, split

API = 'GetNamedPipeClientProcessId'


class M(core.Mon):
    std_throws = False
    interest = core.calls('CreateNamedPipeW', 'CreateProcessW', 'CreateProcessA', 'ReadFile', 'WriteFile', 'ConnectNamedPipe', API,
                          'ReadFileEx', 'WriteFileEx', 'TransactNamedPipe', 'PeekNamedPipe')
    init = ()

    def g(self, st, k, d=()):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        st.mon = tuple(sorted([x for x in st.mon if x[0] != k] + ([(k, v)] if v else []), key=lambda x: x[0]))

    def add(self, st, k, v):
        if v not in self.g(st, k):
            self.s(st, k, self.g(st, k) + (v,))

    def verified(self, st, h):
        """None: fine; otherwise what is missing."""
        agents = self.g(st, 'agents')
        if self.g(st, 'nosup'):
            return None
        q = [x for x in self.g(st, 'q') if x[0] is h]
        if not q:
            return 'without having identified its client'
        for _, pid in q:
            for a in agents:
                if pid is a or st.truth(icmp('eq', pid, a, 32)) is True:
                    return None
        return 'although its client may not be the agent process that was created'

    def call(self, I, st, name, short, args, site):
        if name in ('ReadFile', 'WriteFile', 'ReadFileEx', 'WriteFileEx', 'TransactNamedPipe', 'PeekNamedPipe') and self.is_pipe(st, args[0]):
            w = I.where(site)
            self.oblige('%s: %s after the client was identified' % (w, name))
            m = self.verified(st, args[0])
            if m:
                I.report(st, site, '%s on a control pipe %s' % (name, m), '%s|%s' % (site.fn.short, name))
        elif name == 'ConnectNamedPipe':
            self.add(st, 'conn', args[0])
        elif name == 'CloseHandle' and self.is_pipe(st, args[0]):
            for k in ('pipes', 'conn'):
                self.s(st, k, tuple(x for x in self.g(st, k) if x is not args[0]))
            self.s(st, 'q', ())
        return None

    def is_pipe(self, st, h):
        return any(x is h for x in self.g(st, 'pipes'))

    def after(self, I, st, name, short, args, site, ret):
        p = I.prog
        if name == 'CreateNamedPipeW':
            self.add(st, 'pipes', ret)
            self.s(st, 'q', ())
        elif name == 'CreateProcessW':
            v = st.load(p, A(args[9], p.field('_PROCESS_INFORMATION', 'dwProcessId')[0]), 4, 32)

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.s(s, 'agents', (v,))
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        elif name == 'GetProcAddress':
            lit = p.literal(args[1])
            if lit is not None and str(lit) == API:
                def no(s):
                    self.s(s, 'nosup', True)
                    return s.assume(icmp('eq', ret, ZERO, 64), True)

                def yes(s):
                    self.s(s, 'nosup', False)
                    self.s(s, 'procs', (ret,))
                    return s.assume(icmp('eq', ret, ZERO, 64), False)
                return [no, yes]
        elif name == API or name == '<indirect>' and args[0] in self.g(st, 'procs'):
            if name != API:
                args = args[1:]
            v = st.load(p, args[1], 4, 32)

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.s(s, 'q', ())
                if not any(x is args[0] for x in self.g(s, 'conn')):
                    I.report(s, site, 'the pipe client is identified before a client was awaited', '%s|early' % site.fn.short)
                self.add(s, 'q', (args[0], v))
                self.count('identity_queries')
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        return None

    def finish(self, I, st, val):
        F = st.frames[0].fn
        if st.truth(icmp('eq', val, ZERO, 64)) is not False:
            return
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        off = I.prog.field('winpty_s', 'controlPipe')[0]
        h = st.load(I.prog, A(val, off), 8, 64)
        self.oblige('%s: the session returned has an identified client' % F.short)
        m = self.verified(st, h)
        if m:
            I.report(st, site, 'winpty_open returns a session %s' % m, 'open|unverified')


def check():
    c = core.Check('C10', 'on every path each read or write on a created control pipe, and the success of winpty_open, follows a client-identity query whose result equals the id of the process created')
    p = core.program('libwinpty')

    class Mx(M):
        interest_fn = staticmethod(lambda F: core.mentions(p, F, API))
    c.run([('libwinpty', core.fn(p, 'winpty_open'), Mx, {})])
    c.need(c.violations or c.counts.get('identity_queries'), 'the identity query is never reached')
    return c.finish('All paths of winpty_open (both agent sessions it may start), with the outcomes of process creation, query and system support kept apart.', 6)
