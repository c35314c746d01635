"""No handle is inheritable unless it is a console buffer meant for the child, and only a separate-stderr child inherits any."""
import ai
import core
from ai import A, C, ZERO, icmp, split

# argument that points to SECURITY_ATTRIBUTES / argument that is the inherit flag itself
SA = {'CreateNamedPipeW': 7, 'CreateNamedPipeA': 7, 'CreateEventW': 0, 'CreateEventA': 0, 'CreateEventExW': 0, 'CreateFileW': 3, 'CreateFileA': 3, 'CreateMutexW': 0, 'CreateMutexA': 0, 'CreateSemaphoreW': 0,
      'CreatePipe': 2, 'CreateThread': 0, 'CreateFileMappingW': 1, 'CreateConsoleScreenBuffer': 2, 'CreateWindowStationW': 3, 'CreateDesktopW': 5, 'CreateJobObjectW': 0, 'CreateWaitableTimerW': 0}
FLAG = {'DuplicateHandle': 5, 'OpenProcess': 1, 'OpenThread': 1, 'OpenEventW': 1, 'OpenMutexW': 1, 'OpenDesktopW': 2, 'OpenWindowStationW': 1}
MAY = {'CreateConsoleScreenBuffer'}
PROC = {'CreateProcessW': (2, 3, 4, 8), 'CreateProcessA': (2, 3, 4, 8), 'CreateProcessAsUserW': (3, 4, 5, 9)}
OTHER = {'SetHandleInformation'}
ALL = tuple(SA) + tuple(FLAG) + tuple(PROC) + tuple(OTHER)
USESTDHANDLES = 0x100
STD = {'hStdInput': 'GetStdHandle', 'hStdOutput': 'GetStdHandle', 'hStdError': None}


def own(v):
    """Does the value come from the entry function's parameters?"""
    return ai.contains(v, lambda x: x.k == 'arg')


class M(core.Mon):
    std_throws = False
    interest = core.calls(*ALL)
    init = ()
    agent = False

    def __init__(self):
        self.records = []

    def output(self):
        return self.records

    def start(self, st, I):
        self.F = st.frames[0].fn

    def climb(self, I, v, site):
        """The value is decided by the callers."""
        if own(v) and self.mayclimb:
            if self.F.name not in self.records:
                self.records.append(self.F.name)
            return True
        return False

    def inherit(self, I, st, name, sa, site, what):
        """True when the security attributes make the new handle inheritable."""
        null = st.truth(icmp('eq', sa, ZERO, 64))
        if null is True:
            return
        if self.climb(I, sa, site):
            return
        off = I.prog.field('_SECURITY_ATTRIBUTES', 'bInheritHandle')[0]
        v = st.load(I.prog, A(sa, off), 4, 32)
        if st.truth(icmp('eq', v, ZERO, 32)) is not True and not self.climb(I, v, site):
            I.report(st, site, '%s makes %s inheritable' % (name, what), '%s|%s|inherit' % (site.fn.short, name))

    def call(self, I, st, name, short, args, site):
        w = I.where(site)
        if name in SA:
            self.count('creations')
            self.oblige('%s: %s' % (w, name))
            if name not in MAY or not self.agent:
                self.inherit(I, st, name, args[SA[name]], site, 'the handle')
        elif name in FLAG:
            self.count('creations')
            self.oblige('%s: %s' % (w, name))
            v = args[FLAG[name]]
            if st.truth(icmp('eq', v, ZERO, 32)) is not True and not self.climb(I, v, site):
                I.report(st, site, '%s makes the handle inheritable' % name, '%s|%s|inherit' % (site.fn.short, name))
        elif name == 'SetHandleInformation':
            m, v = st.known(args[1]), st.known(args[2])
            if not (m.k == 'c' and not m.a[0] & 1) and not (v.k == 'c' and not v.a[0] & 1):
                I.report(st, site, 'a handle is made inheritable', '%s|SetHandleInformation' % site.fn.short)
        elif name in PROC:
            a, b, c, si = PROC[name]
            self.count('processes')
            self.oblige('%s: %s process and thread handles not inheritable' % (w, name))
            self.inherit(I, st, name, args[a], site, 'the process handle')
            self.inherit(I, st, name, args[b], site, 'the thread handle')
            v = st.known(args[c])
            z = st.truth(icmp('eq', v, ZERO, 32))
            if z is None and self.agent:
                # decided at run time: consider the two cases separately
                no, yes = st.copy(), st.copy()
                r = []
                if no.assume(icmp('eq', v, ZERO, 32), True):
                    r.append(no)
                if yes.assume(icmp('eq', v, ZERO, 32), False):
                    r.append(yes)
                for s in r:
                    self.process(I, s, name, args, site, s.truth(icmp('eq', v, ZERO, 32)))
            else:
                self.process(I, st, name, args, site, z)
        return None

    def process(self, I, st, name, args, site, none):
        w = I.where(site)
        p = I.prog
        self.oblige('%s: %s inherits %s' % (w, name, 'nothing' if none else 'handles'))
        if none is True:
            return
        if not self.agent:
            v = args[PROC[name][2]]
            if not self.climb(I, v, site):
                I.report(st, site, 'the agent is started with handle inheritance', '%s|process' % site.fn.short)
            return
        self.count('inheriting')
        bad = lambda m, k: I.report(st, site, 'the child inherits handles ' + m, '%s|%s' % (site.fn.short, k))
        if self.cond is not None:
            off = self.cond
            th = self.this(st)
            if th is None or st.truth(icmp('eq', st.load(p, A(th, off), 1, 8), ZERO, 8)) is not False:
                if st.truth(icmp('eq', ai.binop('and', 8, st.load(p, A(th, off), 1, 8), C(1)), ZERO, 8)) is not False:
                    bad('although the session has no separate stderr', 'mode')
        si = args[PROC[name][3]]
        fl = st.known(st.load(p, A(si, p.field('_STARTUPINFOW', 'dwFlags')[0]), 4, 32))
        if fl.k != 'c' or not fl.a[0] & USESTDHANDLES:
            bad('without naming its standard handles', 'flags')
        for f, src in STD.items():
            h = st.load(p, A(si, p.field('_STARTUPINFOW', f)[0]), 8, 64)
            if st.truth(icmp('eq', h, ZERO, 64)) is True:
                bad('with a null %s' % f, f)

    def this(self, st):
        for f in st.frames:
            if f.fn.dty[1:2] == ['Agent *']:
                return f.env[0]
        return None


def check():
    c = core.Check('C15', 'at every handle-creating call the inherit attribute is false (console buffers for the child excepted); at every process creation handles are inherited only with explicit standard handles in conerr mode')
    sites = {}
    for pn in ('libwinpty', 'agent'):
        p = core.program(pn)
        eff = p.effects()
        cond = None
        if pn == 'agent':
            m = [x for x in p.classes['Agent']['m'] if x[0] == 'm_useConerr']
            cond = m[0][1] if m else None
        work = sorted(F.name for F in p.fns.values() if F.repo and any(x in SA or x in FLAG or x in PROC or x in OTHER for x, _ in eff.sum[F.name].callees))
        c.need(work, 'no handle-creating calls in %s' % pn)
        seen = set(work)
        sites[pn] = len(work)
        rounds = 0
        while work:
            rounds += 1
            jobs = []
            for n in work:
                ups = [x for x in eff.callers.get(n, ()) if p.fns[x].repo and x != n]

                class X(M):
                    agent = pn == 'agent'
                    mayclimb = bool(ups) and rounds < 6
                X.cond = cond
                jobs.append((pn, p.fns[n], X, {}))
            up = set()
            for r in c.run(jobs):
                for n in r or ():
                    up |= set(x for x in eff.callers.get(n, ()) if p.fns[x].repo)
            work = sorted(up - seen)
            seen |= up
    c.need(c.violations or c.counts.get('processes', 0) >= 2, 'process creation is not reached')
    c.need(c.violations or c.counts.get('inheriting'), 'the inheriting process creation is never reached')
    c.need(c.violations or c.counts.get('creations', 0) >= 8, 'too few handle-creating calls')
    return c.finish('Every function of the library and the agent that creates a handle or a process, on all its paths; functions whose attributes come from a caller are analysed from there.', 20)
