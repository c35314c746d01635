"""The agent notices the loss of its control pipe and leaves its event loop."""
import ai
import core
from ai import A, C, ZERO, icmp, mk, split
from checks import agentlife
from checks.c31 import C31, CONST, GH


class Notice(C31):
    """One pipe: an error or received data is reported as an event, and an open pipe with room for data is being read."""
    only = 'C18'

    def start(self, st, I):
        C31.start(self, st, I)
        self.nums = [o for nm, o, size, ty, sub in I.prog.classes['NamedPipe']['m'] if size == 8 and 'size_t' in ty]

    def transfer(self, I, st, kind, args, site):
        C31.transfer(self, I, st, kind, args, site)
        if kind == 'R':
            self.s(st, 'reads', True)

    def close(self, I, st, h, site):
        was = self.g(st, 'h')
        C31.close(self, I, st, h, site)
        if was is not None and self.g(st, 'h') is None:
            self.s(st, 'reads', None)
            if self.method(st)[0] == 'serviceIo':
                self.s(st, 'ev', 'closed')

    def completed(self, I, st, kind, buf, n, actualp, site):
        C31.completed(self, I, st, kind, buf, n, actualp, site)
        if kind == 'R' and self.method(st)[0] == 'serviceIo' and not self.g(st, 'ev'):
            self.s(st, 'ev', 'data')

    def between(self, I, st, site):
        C31.between(self, I, st, site)
        self.s(st, 'ev', None)
        self.s(st, 'full', None)

    def look(self, I, st):
        """The program has found that the queue has reached its limit; while the pipe is serviced it cannot shrink."""
        if self.pipe is None or self.g(st, 'h') is None or self.g(st, 'full') or any(x[1] == 'R' for x in self.pend(st)):
            return
        for q in self.qoff:
            c = st.mem.get((GH, 64 + q))
            for o in self.nums:
                if c and st.truth(icmp('ult', c[1], st.load(I.prog, A(self.pipe, o), 8, 64), 64)) is False:
                    self.s(st, 'full', True)
                    return

    def after_queue(self, I, st, name, short, args, site, ret):
        # the size of a queue as the program knows it, joined together with the program's own copy of it
        if args and self.q(args[0]) and name.startswith('_Z'):
            q = split(args[0])[1]
            m = short.split('::')[-1].split('[')[0]
            if m in ('size', 'length'):
                st.store(A(GH, 64 + q), ret, 8)
            elif m not in CONST:
                st.mem.pop((GH, 64 + q), None)
        return C31.after_queue(self, I, st, name, short, args, site, ret)

    def part(self, I, st):
        self.look(I, st)          # before the states meet, and the comparison is forgotten
        return C31.part(self, I, st)

    def returned(self, I, st, F, val, ctx):
        C31.returned(self, I, st, F, val, ctx)
        self.look(I, st)
        if F.short != 'NamedPipe::serviceIo' or len(st.frames) != self.depth(st) + 1:
            return
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        ev = self.g(st, 'ev')
        if ev:
            self.ob('C18', 'serviceIo reports %s' % ('the loss of the pipe' if ev == 'closed' else 'received data'), 'event-' + ev)
            if not any(st.truth(icmp('eq', val, ZERO, w)) is False for w in (1, 8)):
                self.rep('C18', I, st, site, '%s is not reported as an event of the pipe' % ('the loss of the pipe' if ev == 'closed' else 'the arrival of data'), 'event|%s' % ev)
        if self.g(st, 'h') is not None and self.g(st, 'reads'):
            self.ob('C18', 'an open pipe with room for data is being read', 'reading')
            if not any(x[1] == 'R' for x in self.pend(st)):
                if not self.g(st, 'full'):
                    self.rep('C18', I, st, site, 'the pipe is open and has room for data, but is not being read: its loss would go unnoticed', 'reading')


def check():
    c = core.Check('C18', 'control pipe lost -> reported as an event by the pipe, and no further wait of the event loop; open pipe with room for data -> a read is outstanding')
    p = core.program('agent-pipe')
    c.run(agentlife.jobs(agentlife.C18) + [('agent-pipe', core.fn(p, 'vp_queue'), Notice, {})])
    for k in ('wait', 'service', 'end', 'event-closed', 'event-data', 'reading'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the life of an agent' % k)
    return c.finish('Every history of pipe events, timeouts and requests of one agent, with and without a separate error pipe; every history of calls of one pipe with every outcome of every operation.', 10)
