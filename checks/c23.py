"""A size received from the client is at least 1x1 and at most the supported maximum wherever it is narrowed to 16 bits."""
import ai
import core
from ai import A, C, ZERO, icmp, mk, split
from checks import agentlife, c22

LIMIT = {'MAX_CONSOLE_WIDTH': 2500, 'MAX_CONSOLE_HEIGHT': 2000}
ONE = C(1)


class Size(c22.Freeze):
    only = 'C23'
    interest = core.calls('ReadBuffer::getInt32', 'GetLargestConsoleWindowSize', 'WaitForMultipleObjects', 'SendMessageW')

    def start(self, st, I):
        c22.Freeze.start(self, st, I)
        self.src = []
        lim = []
        for k in ('MAX_CONSOLE_WIDTH', 'MAX_CONSOLE_HEIGHT'):
            v = LIMIT[k]
            for nm, g in I.prog.globals.items():
                if nm.endswith(k) and g.get('const') and g.get('init') and g['init'][0][2][0] == 'c':
                    v = min(v, g['init'][0][2][1])
            lim.append(v)
        self.lim = lim

    def bounds(self, st, s):
        return tuple(st.truth(icmp('slt', s, ONE, 32) if m is None else icmp('slt', C(m), s, 32)) for m in [None] + self.lim)

    def part(self, I, st):
        return tuple(self.bounds(st, s) for s in self.src)

    def source(self, v):
        if v.k != 'c' and v not in self.src:
            self.src.append(v)

    def walk(self, I, F):
        if F.repo and F.short.startswith('Coord::'):
            return False
        if F.repo and F.short.startswith(('Scraper::', 'Win32Console', 'FreezeGuard', 'detectNew')):
            return False
        return c22.Freeze.walk(self, I, F)

    def message(self, I, st, args, site):
        pass

    def narrowed(self, I, st, v, limit, site, what):
        """v is a 16-bit value: if a requested size went into it, it did so within bounds."""
        if v.k == 'c':
            return
        for s in self.src:
            if not ai.contains(v, lambda x: x is s):
                continue
            w = I.where(site)
            self.ob('C23', '%s: a requested size becomes %s' % (w, what), 'start' if any(f.fn.short == 'Agent::Agent' for f in st.frames) else 'request')
            if st.truth(icmp('slt', s, ONE, 32)) is not False:
                self.rep('C23', I, st, site, 'a requested size may be zero or negative when it is narrowed to 16 bits', 'low')
            if st.truth(icmp('slt', C(limit), s, 32)) is not False:
                self.rep('C23', I, st, site, 'a requested size may exceed the supported maximum (%d) when it is narrowed to 16 bits' % limit, 'high')

    def stored(self, I, st, p, val, size, site):
        if size == 2:
            self.narrowed(I, st, val, max(self.lim), site, 'a 16-bit field')

    def call(self, I, st, name, short, args, site):
        if short == 'Agent::Agent':
            self.source(args[4])
            self.source(args[5])
        if short == 'ReadBuffer::getInt32':
            v = I.fresh(st, 'call', 0, site[3], 'getInt32')
            self.source(v)
            return ('ret', v)
        F = I.prog.fns.get(name)
        tys = I.prog.dem(name).rsplit('(', 1)[-1].rstrip(')').split(', ') if F is not None else []
        if F is not None and len(args) == len(tys) + 1:
            n = 0
            for a, t in zip(args[1:], tys):
                if t in ('short', 'unsigned short'):
                    lim = self.lim[n] if short == 'Coord::Coord' and len(tys) == 2 else max(self.lim)
                    if short == 'Coord::Coord' and a.k == 'c' and any(f.fn.short.startswith('Agent::') for f in st.frames[-1:]) and not 1 <= a.a[0] <= lim:
                        self.rep('C23', I, st, site, 'a size of %d is used in place of a requested size' % a.a[0], 'const')
                    self.narrowed(I, st, a, lim, site, 'a 16-bit argument')
                    n += 1
        r = core.minmax(I, st, short, I.prog.dem(name), args)
        if r is not None:
            return r
        return c22.Freeze.call(self, I, st, name, short, args, site)

    def returned(self, I, st, F, val, ctx):
        pass


def check():
    c = core.Check('C23', 'requested size -> 16 bits: 1 <= size <= supported maximum on every path')
    c.run(agentlife.jobs(Size, 2))
    for k in ('start', 'request'):
        c.need(c.violations or c.counts.get(k), 'no size from a %s found' % k)
    return c.finish('Every path from a size given at the start of the agent or in a resize request to its use as a 16-bit coordinate, for all 32-bit values.', 4)
