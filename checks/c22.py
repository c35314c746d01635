"""The console is frozen and unfrozen in pairs, and is never frozen while the agent waits or resizes the screen buffer."""
import ai
import core
from ai import A, C, ZERO, icmp, mk, split
from checks import agentlife

WM_SYSCOMMAND, WM_CHAR, ESCAPE = 0x112, 0x102, 27
MARK, SELECT_ALL = 0xFFF2, 0xFFF5
SEND = ('SendMessageW', 'SendMessageA', 'SendMessageTimeoutW', 'SendNotifyMessageW', 'PostMessageW', 'PostMessageA')
WAITS = ('Sleep', 'SleepEx', 'WaitForMultipleObjects', 'WaitForMultipleObjectsEx')


class Freeze(agentlife.Life):
    """mon: 'frozen'."""
    only = 'C22'
    tracked = ()
    asked = (0,)
    interest = core.calls(*SEND + WAITS + ('SetConsoleScreenBufferSize',))

    def start(self, st, I):
        agentlife.Life.start(self, st, I)
        self.cons = None
        for nm, o, size, ty, sub in I.prog.classes['Agent']['m']:
            if 'Win32Console' in ty and '*' not in ty and '&' not in ty and 'Buffer' not in ty:
                self.cons = o
        if self.cons is None:
            raise core.Broken('the agent has no Win32Console')
        self.bits = [self.cons + o for nm, o, size, ty, sub in I.prog.classes['Win32Console']['m'] if size == 1]
        self.own = [o for nm, o, size, ty, sub in I.prog.classes['Agent']['m'] if size == 8 and 'Scraper' in ty]

    def part(self, I, st):
        r = []
        if self.this is not None:
            b, o0 = split(self.this)
            for o in self.bits:
                c = st.mem.get((b, o0 + o))
                r.append(c[1] if c and c[1].k == 'c' else None)
            for o in self.own:
                c = st.mem.get((b, o0 + o))
                r.append(c[1] if c and c[1].k in ('c', 'H') else None)
        return tuple(r)

    def walk(self, I, F):
        if not F.repo:
            return None
        if F.short.startswith(('ConsoleInput::', 'NamedPipe::', 'Terminal::')):
            return False
        return F.name in I.rel or 'Win32Console&' in I.prog.dem(F.name) or F.short.startswith(('Win32Console::', 'FreezeGuard::', 'vp_', 'OwnedHandle::'))

    def after(self, I, st, name, short, args, site, ret):
        return None

    def call(self, I, st, name, short, args, site):
        c, _, m = short.rpartition('::')
        w = I.where(site)
        if name in SEND:
            self.message(I, st, args, site)
            return None
        if name == 'SetConsoleScreenBufferSize':
            self.ob('C22', '%s: the screen buffer is resized' % w, 'resize')
            if self.g(st, 'frozen'):
                self.rep('C22', I, st, site, 'the screen buffer is resized while the console is frozen', 'resize')
            return None
        if name in WAITS:
            if any(f.fn.short == 'EventLoop::run' for f in st.frames):
                self.ob('C22', '%s: the agent waits for its next event' % w, 'wait')
                if self.g(st, 'frozen'):
                    self.rep('C22', I, st, site, 'the agent waits for its next event with the console frozen', 'wait')
            return None
        F = I.prog.fns.get(name)
        if c == 'NamedPipe':
            for a in args[1:]:
                if split(a)[0].k == 'L' and split(a)[0] is not split(self.this)[0]:
                    st.havoc_base(split(a)[0], I.fresh(st, 'hv', 0, site[3], m))
            return ('fork', [(C(0), None), (C(1), None)]) if m == 'serviceIo' else ('ret', I.fresh(st, 'call', 0, site[3], m))
        if F is None or short == 'Agent::Agent' or 'wchar_t' in I.prog.dem(name):
            return agentlife.Life.call(self, I, st, name, short, args, site)
        if F.repo and not self.walk(I, F) and not m.startswith('~'):
            # it can reach no console message, so neither can it change whether the console is frozen
            me = split(self.this)[0] if self.this is not None else None
            for a in args:
                b = split(a)[0]
                if b.k in ('L', 'H') and b is not me:
                    keep = [(o, v) for (bb, o), (n, v) in st.mem.items() if bb is b and n == 8 and split(v)[0] is me]
                    st.havoc_base(b, I.fresh(st, 'hv', 0, site[3], m))
                    for o, v in keep:
                        st.store(A(b, o), v, 8)
            return ('ret', ZERO if F.sret else I.fresh(st, 'call', 0, site[3], m))
        return None

    def message(self, I, st, args, site):
        w = I.where(site)
        is_ = lambda v, k: any(st.truth(icmp('eq', v, C(k), n)) is True for n in (32, 64))
        not_ = lambda v, k: any(st.truth(icmp('eq', v, C(k), n)) is False for n in (32, 64))
        if is_(args[1], WM_SYSCOMMAND):
            if not_(args[2], MARK) and not_(args[2], SELECT_ALL):
                self.rep('C22', I, st, site, 'the console is sent a system command that does not start a selection', 'command')
                return
            self.ob('C22', '%s: the console is frozen' % w, 'freeze')
            if any(f.fn.short == 'Agent::onPipeIo' for f in st.frames):
                self.ob('C22', 'a resize request is handled', 'request')
            if self.g(st, 'frozen'):
                self.rep('C22', I, st, site, 'the console is frozen although it is frozen already', 'nested')
            self.s(st, 'frozen', True)
        elif is_(args[1], WM_CHAR) and is_(args[2], ESCAPE):
            self.ob('C22', '%s: the console is unfrozen' % w, 'unfreeze')
            if not self.g(st, 'frozen'):
                self.rep('C22', I, st, site, 'the console is sent an Escape key although it is not frozen', 'stray')
            self.s(st, 'frozen', None)

    def returned(self, I, st, F, val, ctx):
        if F.short == 'Agent::Agent':
            self.ob('C22', 'the agent is constructed', 'built')
            if self.g(st, 'frozen'):
                self.rep('C22', I, st, '%s:%d (%s)' % (I.relfile(F), F.line, F.short), 'the agent starts with the console frozen', 'built')


def check():
    c = core.Check('C22', 'freeze only when not frozen, unfreeze only when frozen; not frozen at a wait of the event loop and when the screen buffer is resized')
    c.run(agentlife.jobs(Freeze, 1))
    for k in ('freeze', 'unfreeze', 'wait', 'resize', 'built', 'request'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the life of an agent' % k)
    return c.finish('Every path through construction, scraping, resizing and title handling of one agent between two waits of its event loop, with and without a separate error buffer.', 10)
