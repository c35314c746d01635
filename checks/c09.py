"""Pipes are opened as a client with identification-level impersonation only."""
import ai
import core
from ai import A, C, ZERO, icmp
from checks.c08 import roots

SQOS, LEVEL, OVERLAPPED, OPEN_EXISTING = 0x00100000, 0x00030000, 0x40000000, 3
CONSOLE = ('CONOUT$', 'CONIN$')


class M(core.Mon):
    std_throws = False
    interest = core.calls('CreateFileW', 'CreateFileA', 'CreateFile2', 'CallNamedPipeW', 'CallNamedPipeA')

    def call(self, I, st, name, short, args, site):
        k = '%s|' % site.fn.short
        if name in ('CallNamedPipeW', 'CallNamedPipeA', 'CreateFile2'):
            I.report(st, site, '%s opens a pipe without limiting impersonation' % name, k + name)
        if name not in ('CreateFileW', 'CreateFileA'):
            return None
        p = I.prog
        w = I.where(site)
        lit = p.literal(args[0])
        if lit is not None and str(lit).upper() in CONSOLE:
            self.oblige('%s: opens the console %s' % (w, lit))
            return None
        self.count('client_opens')
        fl = st.known(args[5])
        self.oblige('%s: security quality of service (flags %s)' % (w, ai.show(fl)))
        if fl.k != 'c':
            I.report(st, site, 'a pipe is opened with undetermined flags %s' % ai.show(fl), k + 'flags')
            return None
        if not fl.a[0] & SQOS:
            I.report(st, site, 'a pipe is opened without SECURITY_SQOS_PRESENT: the server may impersonate the agent fully', k + 'sqos')
        elif (fl.a[0] & LEVEL) >> 16 > 1:
            I.report(st, site, 'a pipe is opened with impersonation level %d, above identification' % ((fl.a[0] & LEVEL) >> 16), k + 'level')
        self.oblige('%s: existing pipe only' % w)
        if st.known(args[4]) is not C(OPEN_EXISTING):
            I.report(st, site, 'the pipe is opened with disposition %s, not only when it exists' % ai.show(args[4]), k + 'disposition')
        self.oblige('%s: not shared' % w)
        if self.pipe and st.known(args[2]) is not ZERO:
            I.report(st, site, 'the pipe is opened with sharing', k + 'share')
        if self.pipe and not fl.a[0] & OVERLAPPED:
            I.report(st, site, 'the pipe is not opened in overlapped mode', k + 'overlapped')
        self.oblige('%s: not inheritable' % w)
        if st.truth(icmp('eq', args[3], ZERO, 64)) is not True:
            inh = st.load(p, A(args[3], p.field('_SECURITY_ATTRIBUTES', 'bInheritHandle')[0]), 4, 32)
            if st.truth(icmp('eq', inh, ZERO, 32)) is not True:
                I.report(st, site, 'the pipe handle is inheritable', k + 'inherit')
        return None


class Agent(M):
    pipe = True


class Trace(M):
    walk_trace = True
    pipe = False


def helper(F):
    """A wrapper that is handed the flags."""
    return F.link == 'internal' and any(t in ('DWORD', 'unsigned int', 'unsigned long', 'SECURITY_ATTRIBUTES *', 'LPSECURITY_ATTRIBUTES') for t in F.dty[1:])


def check():
    c = core.Check('C09', 'every CreateFileW on a name other than the console: SQOS present at identification level or below, OPEN_EXISTING, unshared, not inheritable')
    jobs = []
    for pn in ('agent', 'libwinpty'):
        p = core.program(pn)
        eff = p.effects()
        for api in ('CreateFileW', 'CreateFileA', 'CallNamedPipeW', 'CallNamedPipeA', 'CreateFile2'):
            work = [(F, 0) for F in roots(p, eff, api)]
            while work:
                F, d = work.pop()
                cs = sorted(n for n in eff.callers.get(F.name, ()) if p.fns[n].repo)
                if helper(F) and cs and d < 4:
                    work += [(p.fns[n], d + 1) for n in cs]
                    continue
                job = (pn, F, Trace if '/shared/DebugClient' in F.file else Agent, {})
                if job not in jobs:
                    jobs.append(job)
    c.need(len(jobs) >= 3, 'only %d functions opening files found' % len(jobs))
    c.run(jobs)
    c.need(c.violations or c.counts.get('client_opens', 0) >= 2, 'no pipe is opened as a client')
    return c.finish('All paths of every function of the agent and the library that opens a file or pipe by name, the debug client included.', 5)
