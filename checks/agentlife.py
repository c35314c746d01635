"""The whole life of the agent: construction, the event loop with any sequence of events, destruction (C17, C18)."""
import re
import ai
import core
from ai import A, C, ZERO, icmp, mk, split

GH = mk('ghost')
AUTO, EXIT = 1, 2
READING = 1
QUERY = {'isClosed': 'closed', 'isConnected': 'open', 'isConnecting': 'connecting'}
MODELLED = ('NamedPipe', 'Scraper', 'Terminal', 'ConsoleInput', 'Win32Console', 'Win32ConsoleBuffer', 'ReadBuffer', 'WriteBuffer')


class Life(core.Mon):
    """mon: pipe states 's:<role>', 'empty' (outputs found to have nothing left to send), 'req' (flags of the started
    process), 'ended' (its exit was seen after auto-shutdown was requested), 'scr'/'seen' (scrapers; scraped since), 'mouse'."""
    std_throws = False
    init = ()
    only = None
    interest = core.calls('NamedPipe::closePipe', 'NamedPipe::isClosed', 'NamedPipe::write', 'Scraper::scrapeBuffer', 'CreateProcessW', 'WaitForSingleObject', 'WaitForMultipleObjects', 'Sleep')

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        r = [x for x in st.mon if x[0] != k]
        if v is not None:
            r.append((k, v))
            r.sort(key=lambda x: x[0])
        st.mon = tuple(r)

    def start(self, st, I):
        self.p = I.prog
        self.pipes = {}          # object -> role
        self.ptrs = [o for nm, o, size, ty, sub in I.prog.classes['Agent']['m'] if size == 8 and re.search(r'HANDLE|void ?\*', ty)]
        self.flags = [o for nm, o, size, ty, sub in I.prog.classes['Agent']['m'] if size == 1]
        self.this = None

    def part(self, I, st):
        r = []
        for o in self.flags:
            c = st.mem.get((self.this, o))
            r.append(c[1] if c and c[1].k == 'c' else None)
        for o in self.ptrs:
            c = st.mem.get((self.this, o))
            r.append(st.truth(icmp('eq', c[1], ZERO, 64)) if c else None)
        return tuple(r)

    def walk(self, I, F):
        if F.repo and F.short.startswith(('Agent::', 'EventLoop::', 'vp_', 'OwnedHandle::')):
            return True
        if F.repo and F.short.startswith(('NamedPipe::', 'Scraper::', 'Terminal::', 'ConsoleInput::', 'Win32Console')):
            return False
        return None

    def rep(self, prop, I, st, site, msg, key):
        if self.only == prop:
            I.report(st, site, msg, key)

    def ob(self, prop, desc, cnt=None):
        if self.only == prop:
            self.oblige(desc)
            if cnt:
                self.count(cnt)

    def outs(self, st):
        return [k[2:] for k, v in st.mon if k.startswith('s:out')]

    def spoil(self, st, role=None):
        if 'out0' not in self.tracked:
            return
        e = tuple(x for x in self.g(st, 'empty', ()) if role and x != role)
        self.s(st, 'empty', e or None)

    def call(self, I, st, name, short, args, site):
        w = I.where(site)
        if name in ('_Znwy', '_Znwm') and args[0] is C(I.prog.classes['NamedPipe']['size']):
            n = self.g(st, 'n', 0)
            self.s(st, 'n', n + 1)
            return ('ret', I.fresh(st, 'H', -100 - n, site[3]))
        if short == 'Agent::Agent':
            self.this = args[0]
        c, _, m = short.rpartition('::')
        if c in MODELLED and name in I.prog.fns and I.prog.fns[name].sret:
            b = split(args[0])[0]
            st.havoc_base(b, I.fresh(st, 'hv', 0, site[3], m))
            return ('ret', ZERO)
        if c == 'NamedPipe':
            return self.pipe(I, st, m, args, site)
        if c == 'Scraper':
            if m == 'Scraper':
                self.s(st, 'scr', self.g(st, 'scr', 0) + 1)
            elif m == 'scrapeBuffer':
                self.spoil(st)
                seen = self.g(st, 'seen')
                if seen is not None and args[0] not in seen:
                    self.s(st, 'seen', tuple(sorted(seen + (args[0],), key=repr)))
            elif m == 'terminal':
                return ('ret', mk('pure', 'terminal', args[0]))
            return ('ret', I.fresh(st, 'call', 0, site[3], m))
        if c == 'Terminal':
            if m == 'enableMouseMode':
                self.spoil(st)
                off = any(st.truth(icmp('eq', args[1], ZERO, k)) is True for k in (1, 8))
                self.s(st, 'mouse', None if off else 'on')
            return ('ret', I.fresh(st, 'call', 0, site[3], m))
        if c == 'ConsoleInput':
            self.spoil(st)
            return ('ret', I.fresh(st, 'call', 0, site[3], m))
        if short == 'ReadBuffer::getInt64':
            return ('fork', [(C(v), lambda s, v=v: self.s(s, 'flags', v)) for v in self.asked])
        if m == 'empty' and 'wchar_t' in I.prog.dem(name):
            return ('ret', ZERO)
        if c in MODELLED:
            return ('ret', I.fresh(st, 'call', 0, site[3], m))
        if name in ('Sleep', 'WaitForMultipleObjects', 'WaitForMultipleObjectsEx', 'SleepEx'):
            self.wait(I, st, site)
        return None

    def pipe(self, I, st, m, args, site):
        w = I.where(site)
        th = args[0]
        r = lambda v: ('ret', v)
        if m == 'connectToServer':
            self.pipes[th] = 'control'
            if 'control' in self.tracked:
                self.s(st, 's:control', 'open')
            return r(ZERO)
        if m == 'openServerPipe':
            if args[2].k != 'c':
                raise core.Broken('%s: pipe opened in an unknown direction' % w)
            role = 'conin' if args[2].a[0] == READING else 'out%d' % len([x for x in self.pipes.values() if x.startswith('out') and x != self.pipes.get(th)])
            self.pipes[th] = role
            if role in self.tracked:
                self.s(st, 's:' + role, 'connecting')
            return r(ZERO)
        if m in ('NamedPipe', '~NamedPipe'):
            return r(ZERO)
        roles = self.roles(st, th)
        if len(roles) > 1:
            if m == 'serviceIo':
                return ('fork', [x for p, role in roles for x in self.service(I, st, p, role, th, site)])
            if not any(role in self.tracked for p, role in roles):
                role = roles[0][1]
            elif m not in QUERY:
                raise core.Broken('%s: NamedPipe::%s on an unknown pipe (%s)' % (w, m, ai.show(th)))
            else:
                return ('fork', [(C(v), self.is_(th, p)) for p, role in roles for v in (0, 1)
                                 if role not in self.tracked or v == (self.g(st, 's:' + role) == QUERY[m])])
        elif not roles:
            raise core.Broken('%s: NamedPipe::%s on a pipe that was never opened (%s)' % (w, m, ai.show(th)))
        else:
            role = roles[0][1]
        if m in ('peek', 'read') and split(args[1])[0].k == 'L':
            st.havoc_base(split(args[1])[0], I.fresh(st, 'hv', 0, site[3], m))
        if role not in self.tracked:
            if m == 'closePipe':
                self.closing(I, st, role, None, site)
            if m in QUERY and role == 'control' and self.tracked:
                return r(C(1 if m == 'isConnected' else 0))        # what follows its loss is C18's concern
            if m == 'serviceIo':
                return ('fork', [(C(0), self.is_(th, roles[0][0])), (C(1), self.is_(th, roles[0][0]))])
            return r(ZERO if m in ('write', 'closePipe') else I.fresh(st, 'call', 0, site[3], m))
        state = self.g(st, 's:' + role)
        if m == 'serviceIo':
            return ('fork', self.service(I, st, roles[0][0], role, th, site))
        if m in ('isClosed', 'isConnected', 'isConnecting'):
            return r(C(1 if state == QUERY[m] else 0))
        if m == 'bytesToSend':
            n = I.fresh(st, 'call', 0, site[3], m, role)

            def some(s):
                return s.assume(icmp('eq', n, ZERO, 64), False)

            def none(s):
                self.s(s, 'empty', tuple(sorted(set(self.g(s, 'empty', ())) | {role})))
            return ('fork', [(n, some), (ZERO, none)])
        if m == 'write':
            self.spoil(st, role)
            return r(ZERO)
        if m == 'closePipe':
            self.closing(I, st, role, state, site)
            self.s(st, 's:' + role, 'closed')
            return r(ZERO)
        return r(I.fresh(st, 'call', 0, site[3], m))

    def roles(self, st, p):
        if p in self.pipes:
            return [(p, self.pipes[p])]
        l = [(q, self.pipes[q]) for q in self.pipes if st.truth(icmp('eq', p, q, 64)) is not False]
        for q, role in l:
            if st.truth(icmp('eq', p, q, 64)) is True:
                return [(q, role)]
        return l

    def is_(self, p, q):
        """A filter: the pointer p is the pipe q."""
        def f(s):
            if p is not q:
                if not s.assume(icmp('eq', p, q, 64), True):
                    return False
                for o in [ZERO] + list(self.pipes):
                    if o is not q:
                        s.assume(icmp('eq', p, o, 64), False)
        return f

    def service(self, I, st, q, role, p, site):
        """What servicing a pipe may do to it."""
        if role not in self.tracked:
            return [(C(0), self.is_(p, q)), (C(1), self.is_(p, q))]
        state = self.g(st, 's:' + role)
        if role == 'control':
            self.ob('C18', '%s: the event loop services the control pipe' % I.where(site), 'service')

        def to(new, event):
            def f(s):
                if self.is_(p, q)(s) is False:
                    return False
                if new != state:
                    self.s(s, 's:' + role, new)
                if role == 'control' and new == 'closed' and event:
                    self.s(s, 'lost', True)
            return (C(1 if event else 0), f)
        if state == 'closed':
            return [to('closed', False)]
        r = [to(state, False), to('closed', True)]
        if state == 'connecting':
            r.append(to('open', True))
        else:
            r.append(to('open', True))
        return r

    def closing(self, I, st, role, state, site):
        w = I.where(site)
        if any('~' in f.fn.short for f in st.frames):
            return
        if not role.startswith('out'):
            if role == 'control':
                self.rep('C17', I, st, site, 'the agent closes its own control pipe', 'close|control')
            return
        self.ob('C17', '%s: an output pipe is closed for auto-shutdown' % w, 'close')
        bad = lambda m, k: self.rep('C17', I, st, site, m, 'close|%s' % k)
        if not self.g(st, 'ended'):
            bad('an output pipe is closed although %s' % ('auto-shutdown was not requested' if self.g(st, 'gone') else 'the child has not been seen to exit'), 'ended')
        elif self.g(st, 'seen') is not None and len(self.g(st, 'seen')) < self.g(st, 'scr', 0):
            bad('an output pipe is closed before all console output has been scraped after the exit of the child', 'scrape')
        if role == 'out0' and self.g(st, 'mouse'):
            bad('the output pipe is closed while the terminal\'s mouse mode may be on', 'mouse')
        if state == 'connecting':
            bad('an output pipe is closed before the client has connected to it', 'connect')
        if role not in self.g(st, 'empty', ()):
            bad('an output pipe is closed without establishing that everything has been sent', 'empty')

    def wait(self, I, st, site):
        if not any(f.fn.short == 'EventLoop::run' for f in st.frames):
            return
        w = I.where(site)
        self.ob('C18', '%s: the agent waits for its next event' % w, 'wait')
        if self.g(st, 'lost'):
            self.rep('C18', I, st, site, 'the agent waits for events although its control pipe is lost', 'lost|wait')
        self.ob('C17', '%s: the agent waits' % w, 'wait')
        if self.g(st, 'ended'):
            for r in self.outs(st):
                if self.g(st, 's:' + r) == 'open' and r in self.g(st, 'empty', ()):
                    self.rep('C17', I, st, site, 'the agent waits although auto-shutdown is due and everything has been sent', 'due|close')
            if self.g(st, 'ended') & EXIT and all(self.g(st, 's:' + r) == 'closed' for r in self.outs(st)):
                self.rep('C17', I, st, site, 'the agent waits although exit-after-shutdown is due', 'due|exit')
        self.s(st, 'empty', None)

    def after(self, I, st, name, short, args, site, ret):
        if name == 'CreateProcessW':
            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                h = I.fresh(s, 'call', 0, site[3], 'hProcess')
                s.store(args[9], h, 8)
                s.assume(icmp('eq', h, ZERO, 64), False)
                s.store(GH, h, 8)
                self.s(s, 'child', True)
                self.s(s, 'req', self.g(s, 'flags', 0))
                self.s(s, 'flags', None)
                self.s(s, 'gone', None)

            def fail(s):
                self.s(s, 'flags', None)
                return s.assume(icmp('eq', ret, ZERO, 32), True)
            return [ok, fail]
        if name in ('WaitForSingleObject', 'WaitForSingleObjectEx'):
            c = st.mem.get((GH, 0))
            if not self.g(st, 'child') or not c or c[1] is not args[0]:
                return None
            self.ob('C17', '%s: has the child exited?' % I.where(site), 'exit')

            def yes(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), True):
                    return False
                self.s(s, 'gone', True)
                req = self.g(s, 'req', 0)
                if req & AUTO:
                    self.s(s, 'ended', req)
                    self.s(s, 'seen', ())

            def no(s):
                return s.assume(icmp('eq', ret, ZERO, 32), False)
            return [yes, no]
        return None

    def returned(self, I, st, F, val, ctx):
        if F.short != 'EventLoop::run':
            return
        self.ob('C17', 'EventLoop::run ends', 'end')
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        lost = self.only == 'C18' and self.g(st, 's:control') == 'closed'
        done = self.g(st, 'ended', 0) & EXIT and all(self.g(st, 's:' + r) == 'closed' for r in self.outs(st))
        if self.only == 'C17' and not done:
            self.rep('C17', I, st, site, 'the agent ends although its control pipe is open and exit-after-shutdown is not due', 'end')
        if lost:
            self.ob('C18', 'EventLoop::run ends when the control pipe is lost', 'end')


class C17(Life):
    only = 'C17'
    tracked = ('out0', 'out1')
    asked = range(4)


class C18(Life):
    only = 'C18'
    tracked = ('control',)
    asked = range(1)


def jobs(cls, k=8):
    p = core.program('agent-life')
    split_ = [type(cls.__name__, (cls,), {'asked': (v,)}) for v in cls.asked]
    return [('agent-life', core.fn(p, x), m, {'klimit': k, 'klimit_loop': k}) for x in ('vp_agent_conerr', 'vp_agent') for m in split_]
