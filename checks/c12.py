"""The agent answers each request exactly once, after its effect, and sends nothing else on the control pipe but its set-up message."""
import ai
import core
from ai import A, C, ZERO, icmp
from checks.c11 import Agent as Msg, Setup as SetupBase

EFFECT = {0: ('CreateProcessW', 'the process is started'), 1: ('Scraper::resizeWindow', 'the window is resized'), 2: ('GetConsoleProcessList', 'the process list is taken')}


class Find(SetupBase):
    """Which member holds the pipe connected to the library; how often it is written during construction."""

    def other(self, I, st, name, short, args, site):
        if short == 'NamedPipe::connectToServer':
            self.s(st, 'ctl', self.g(st, 'ctl') + (args[0],))
        if short == 'NamedPipe::write':
            if args[0] in self.g(st, 'ctl'):
                n = self.g(st, 'nsend', 0)
                self.oblige('%s: the set-up message' % I.where(site))
                if n:
                    I.report(st, site, 'a second message is sent on the control pipe while the agent starts', 'setup|twice')
                self.s(st, 'nsend', n + 1)
            return ('ret', ZERO)
        return None

    def finish(self, I, st, val):
        th = st.frames[0].env[0]
        offs = set()
        for pp in self.g(st, 'ctl'):
            offs |= {k[1] for k, c in st.mem.items() if k[0] is th and c[1] is pp and type(k[1]) is int}
        F = self.F
        if self.g(st, 'nsend', 0) != 1:
            I.report(st, '%s:%d (%s)' % (I.relfile(F), F.line, F.short), 'the agent starts without sending its set-up message', 'setup|none')
        if offs not in self.records:
            self.records.append(offs)


class Reply(Msg):
    """One request, from its decoding to its reply."""
    ctl = None

    def other(self, I, st, name, short, args, site):
        if short == 'NamedPipe::write':
            seq = self.g(st, 'seq')
            if args[0] is not st.load(I.prog, A(st.frames[0].env[0], self.ctl), 8, 64):
                return ('ret', ZERO)
            self.s(st, 'seq', seq + (('put', 'send', None, False),))
            t = self.typ(st)
            n = self.g(st, 'nsend', 0)
            if n >= 1:
                I.report(st, site, 'a second reply is sent for one request', '%s|twice' % t)
            if t in EFFECT:
                self.oblige('%s: %s before the reply' % (I.where(site), EFFECT[t][1]))
                if not self.g(st, 'eff', 0):
                    I.report(st, site, 'the reply is sent before %s' % EFFECT[t][1], '%s|early' % t)
            elif t is not None or self.notreq(st):
                I.report(st, site, 'a reply is sent for message type %s, which is no request' % ('unknown' if t is None else t), 'other|reply')
            self.s(st, 'nsend', min(n + 1, 2))
            return ('ret', ZERO)
        t = self.typ(st)
        if t in EFFECT and EFFECT[t][0] in (name, short):
            self.oblige('%s: %s' % (I.where(site), EFFECT[t][1]))
            if self.g(st, 'nsend', 0):
                I.report(st, site, '%s only after the reply was sent' % EFFECT[t][1], '%s|late' % t)
            if t == 0 and self.g(st, 'eff', 0):
                I.report(st, site, 'one request starts two processes', '%s|two' % t)
            self.s(st, 'eff', 1)
        return None

    after = core.Mon.after

    def notreq(self, st):
        t = [x for x in self.g(st, 'seq') if x[0] == 'get' and x[1] == 'i32']
        return bool(t) and t[0][2] is not None and all(st.truth(icmp('eq', t[0][2], C(k), 32)) is False for k in EFFECT)

    def typ(self, st):
        t = [x for x in self.g(st, 'seq') if x[0] == 'get' and x[1] == 'i32']
        k = st.known(t[0][2]) if t and t[0][2] is not None else None
        return k.a[0] if k is not None and k.k == 'c' else None

    def part(self, I, st):
        return (self.typ(st), self.g(st, 'nsend', 0))

    def finish(self, I, st, val):
        t = self.typ(st)
        F = self.F
        self.count('requests_followed')
        if t in EFFECT:
            self.records.append(t)
            self.oblige('%s: request %s answered once' % (F.short, t))
            if self.g(st, 'nsend', 0) != 1:
                I.report(st, '%s:%d (%s)' % (I.relfile(F), F.line, F.short), 'a request of type %s is handled without a reply' % t, '%s|none' % t)


TAKE = ('NamedPipe::read', 'NamedPipe::readToString', 'NamedPipe::readAllToString')


class Loop(core.Mon):
    """The event loop's callbacks: every packet taken off the control pipe is handled once; nothing else is sent."""
    std_throws = False
    opaque = ('Agent::handlePacket', 'Scraper::scrapeBuffer', 'Scraper::resizeWindow', 'ConsoleInput::writeInput')
    init = (0, 0)
    ctl = None
    interest = core.calls(*(TAKE + ('NamedPipe::write', 'Agent::handlePacket')))

    def start(self, st, I):
        self.F = st.frames[0].fn
        self.th = st.frames[0].env[0]

    def control(self, I, st):
        return st.load(I.prog, A(self.th, self.ctl), 8, 64)

    def call(self, I, st, name, short, args, site):
        if short in TAKE:
            sret = I.prog.fns[name].sret
            pipe = args[1 if sret else 0]
            if pipe is self.control(I, st):
                self.count('packets_taken')
                self.oblige('%s: bytes taken off the control pipe' % I.where(site))
                if st.mon[0]:
                    I.report(st, site, 'a packet taken off the control pipe is dropped without being handled', 'loop|dropped')
                st.mon = (1, 1)
            if short == 'NamedPipe::read':
                I.havoc_arg(st, args[1], (site.iid,))
                return ('ret', mk_n(args[2]))
            st.settok(args[0], ai.mk('taken'))
            return ('ret', ZERO)
        if short == 'Agent::handlePacket':
            self.oblige('%s: a packet is handled' % I.where(site))
            if not st.mon[0]:
                I.report(st, site, 'a packet is handled %s' % ('twice' if st.mon[1] else 'that was not taken off the control pipe'), 'loop|twice')
            st.mon = (0, st.mon[1])
            return ('ret', ZERO)
        if short == 'NamedPipe::write':
            self.oblige('%s: not the control pipe' % I.where(site))
            if args[0] is self.control(I, st):
                I.report(st, site, 'a message is sent on the control pipe outside the handling of a request', '%s|send' % self.F.short)
            return ('ret', ZERO)
        return None

    def finish(self, I, st, val):
        if st.mon[0]:
            I.report(st, '%s:%d (%s)' % (I.relfile(self.F), self.F.line, self.F.short), 'a packet taken off the control pipe is dropped without being handled', 'loop|dropped')


def mk_n(n):
    return n


def check():
    c = core.Check('C12', 'each path that handles a request sends exactly one message on the control pipe, after the effect; each packet taken off the pipe is handled once; no other path sends on it')
    p = core.program('agent')
    r = c.run([('agent', core.fn(p, 'Agent::Agent'), Find, {})])[0]
    offs = set.intersection(*r) if r else set()
    c.need(len(offs) == 1 or c.violations, 'the member that holds the control pipe was not identified: %s' % r)
    if not c.violations:
        off = list(offs)[0]

        class R(Reply):
            ctl = off

        class L(Loop):
            ctl = off
        jobs = [('agent', core.fn(p, 'Agent::handlePacket'), R, {})]
        for n in ('Agent::onPipeIo', 'Agent::onPollTimeout', 'Agent::sendDsr', 'Agent::~Agent'):
            jobs += [('agent', F, L, {}) for F in p.by_short.get(n, ())[:1]]
        out = c.run(jobs)
        c.need(c.violations or {0, 1, 2} <= set(out[0]), 'not all three requests were followed to their reply')
        c.need(c.violations or c.counts.get('packets_taken'), 'no packet is ever taken off the control pipe')
    return c.finish('The agent\'s constructor, the handling of one request of each type, and every callback of the event loop.', 12)
