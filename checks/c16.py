"""Leaving winpty_open with the process's own window station, and the temporary objects closed after that."""
import core
from ai import ZERO, icmp

MAKE = {'CreateDesktopW': ('desktop', 64), 'CreateDesktopExW': ('desktop', 64), 'OpenDesktopW': ('desktop', 64), 'CreateWindowStationW': ('window station', 64), 'OpenWindowStationW': ('window station', 64)}
CLOSE = {'CloseDesktop': 'desktop', 'CloseWindowStation': 'window station'}


class M(core.Mon):
    """own: stations that were current while the process had not been switched; cur: what it was switched to; made: temporary objects still open."""
    std_throws = True
    interest = core.calls(*(tuple(MAKE) + tuple(CLOSE) + ('SetProcessWindowStation', 'GetProcessWindowStation')))
    init = ()

    def g(self, st, k, d=()):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        st.mon = tuple(sorted([x for x in st.mon if x[0] != k] + ([(k, v)] if v else []), key=lambda x: x[0]))

    def own(self, st, v):
        return any(x is v for x in self.g(st, 'own'))

    def same(self, st, a, b):
        return a is b or st.truth(icmp('eq', a, b, 64)) is True

    def call(self, I, st, name, short, args, site):
        w = I.where(site)
        if name == 'SetProcessWindowStation':
            v = st.known(args[0])
            self.count('switches')
            if self.own(st, v):
                # a failing restore cannot be helped; the attempt counts
                self.s(st, 'cur', None)
                self.oblige('%s: restores the original window station' % w)
            else:
                self.s(st, 'try', (v,))
        elif name in CLOSE:
            v = st.known(args[0])
            cur = self.g(st, 'cur')
            self.count('closes')
            self.oblige('%s: closes a temporary %s, after the original station was restored' % (w, CLOSE[name]))
            if self.own(st, v):
                I.report(st, site, 'the original window station is closed', 'close|original')
            elif cur:
                I.report(st, site, 'the temporary %s is closed while the process is still switched to the temporary station' % CLOSE[name], 'close|early')
            elif not any(x is v for x, k in self.g(st, 'made') if k == CLOSE[name]):
                if v.k in ('call', 'ld', 'arg'):
                    I.report(st, site, '%s closes something that is not an open temporary %s' % (name, CLOSE[name]), 'close|foreign')
            self.s(st, 'made', tuple(x for x in self.g(st, 'made') if x[0] is not v))
        return None

    def after(self, I, st, name, short, args, site, ret):
        if name == 'GetProcessWindowStation':
            def got(s):
                if not s.assume(icmp('eq', ret, ZERO, 64), False):
                    return False
                if not self.g(s, 'cur') and not self.own(s, ret):
                    self.s(s, 'own', self.g(s, 'own') + (ret,))
            return [got, lambda s: s.assume(icmp('eq', ret, ZERO, 64), True)]
        if name in MAKE:
            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 64), False):
                    return False
                self.s(s, 'made', self.g(s, 'made') + ((ret, MAKE[name][0]),))
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 64), True)]
        if name == 'SetProcessWindowStation' and self.g(st, 'try'):
            v = self.g(st, 'try')[0]
            self.s(st, 'try', None)

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                if not self.g(s, 'own'):
                    I.report(s, site, 'the process is switched to another window station without remembering its own', 'switch|unsaved')
                self.s(s, 'cur', v)
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        return None

    def part(self, I, st):
        own = self.g(st, 'own')
        if own:
            keep = set(c[1] for c in st.mem.values()) | set(v for f in st.frames for v in f.env.values())
            k = tuple(x for x in own if x in keep)
            if len(k) != len(own):
                self.s(st, 'own', k)
        return None

    def end(self, I, st):
        F = st.frames[0].fn if st.frames else self.F
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        self.oblige('%s returns with the original window station' % F.short)
        if self.g(st, 'cur'):
            I.report(st, site, '%s returns with the process switched to the temporary window station' % F.short, 'end|switched')
        for _, k in self.g(st, 'made'):
            I.report(st, site, '%s returns without closing the temporary %s' % (F.short, k), 'end|%s' % k)

    def start(self, st, I):
        self.F = st.frames[0].fn

    def finish(self, I, st, val):
        self.end(I, st)

    def escape(self, I, st, exc):
        self.end(I, st)


def check():
    c = core.Check('C16', 'on every path of every exported function each switch of the window station is undone before it returns; temporary objects are closed after that, and the original never')
    p = core.program('libwinpty')
    eff = p.effects()
    rel = eff.relevant(lambda n, sh: n in MAKE or n == 'SetProcessWindowStation', None)
    jobs = [('libwinpty', F, M, {}) for F in core.exported(p) if F.name in rel]
    c.need(jobs, 'no exported function switches the window station')
    c.run(jobs)
    c.need(c.violations or c.counts.get('switches', 0) >= 2, 'window station switches are not reached')
    c.need(c.violations or c.counts.get('closes'), 'temporary objects are never closed')
    return c.finish('All paths of the exported functions that can switch the window station, every Windows call and C++ allocation failing or succeeding.', 4)
