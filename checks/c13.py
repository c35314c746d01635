"""Every handle libwinpty obtains has exactly one owner: closed once, stored in the session, or given to the caller."""
import ai
import core
from ai import A, C, ZERO, icmp, split
from checks.winio import WIN
from checks.libio import session_arg

INVALID = C(ai.M64)
RET = {'CreateEventW', 'CreateEventA', 'CreateEventExW', 'CreateNamedPipeW', 'CreateNamedPipeA', 'CreateFileW', 'CreateFileA', 'OpenProcess', 'CreateMutexW', 'CreateMutexA', 'CreateSemaphoreW',
       'CreateFileMappingW', 'CreateThread', 'CreateWaitableTimerW', 'OpenEventW', 'OpenThread', 'CreateJobObjectW', 'CreateToolhelp32Snapshot', 'CreateIoCompletionPort'}
NEG = {'CreateNamedPipeW', 'CreateNamedPipeA', 'CreateFileW', 'CreateFileA', 'CreateToolhelp32Snapshot'}
OUT = {'OpenProcessToken': (2,), 'OpenThreadToken': (3,), 'DuplicateHandle': (3,), 'DuplicateTokenEx': (5,), 'CreatePipe': (0, 1), 'CreateProcessW': None, 'CreateProcessA': None}
# calls that do not use their arguments as handles
PASSIVE = {'CloseHandle'}


class M(core.Mon):
    std_throws = True
    fork_errors = False
    interest = core.calls(*(tuple(RET) + tuple(OUT) + ('CloseHandle', 'ReadFile', 'WriteFile')))
    init = ()

    def g(self, st, k, d=()):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        st.mon = tuple(sorted([x for x in st.mon if x[0] != k] + ([(k, v)] if v else []), key=lambda x: x[0]))

    def start(self, st, I):
        self.p = p = I.prog
        self.F = F = st.frames[0].fn
        self.args = dict(st.frames[0].env)
        self.wi = session_arg(p, F)
        self.init_h = {}
        if self.wi is not None:
            wp = self.args[self.wi]
            for off, nm in self.fields:
                v = st.load(p, A(wp, off), 8, 64)
                self.init_h[v] = nm
                st.assume(icmp('eq', v, INVALID, 64), False)
                if F.short == 'winpty_free':
                    st.assume(icmp('eq', v, ZERO, 64), False)

    def site0(self, I):
        return '%s:%d (%s)' % (I.relfile(self.F), self.F.line, self.F.short)

    def part(self, I, st):
        # a closed handle that is stored nowhere any more can be forgotten
        cl = self.g(st, 'closed')
        if cl:
            keep = set(cl) & (set(c[1] for c in st.mem.values()) | set(v for f in st.frames for v in f.env.values()) | set(self.init_h))
            if len(keep) != len(cl):
                self.s(st, 'closed', tuple(x for x in cl if x in keep))
        return None

    def state(self, st, v):
        if any(x is v for x, _ in self.g(st, 'open')):
            return 'open'
        if any(x is v for x in self.g(st, 'closed')):
            return 'closed'
        if v in self.init_h:
            return 'session'
        return None

    def call(self, I, st, name, short, args, site):
        if name == 'CloseHandle':
            v = st.known(args[0])
            w = I.where(site)
            s = self.state(st, v)
            if v.k == 'c' and v.a[0] in (0, ai.M64):
                return None
            self.oblige('%s: closes a handle it owns' % w)
            self.count('closes')
            if s == 'closed':
                I.report(st, site, 'a handle is closed a second time', '%s|double' % self.F.short)
            elif s is None and st.truth(icmp('eq', v, ZERO, 64)) is not True and v.k != 'join' and not self.unsure(st, v):
                I.report(st, site, 'closes %s, which it did not open' % ai.show(v), '%s|foreign' % self.F.short)
            elif s == 'open':
                self.s(st, 'open', tuple(x for x in self.g(st, 'open') if x[0] is not v))
                self.s(st, 'closed', self.g(st, 'closed') + (v,))
            elif s == 'session':
                self.s(st, 'closed', self.g(st, 'closed') + (v,))
            return None
        if not name.startswith('_Z') and WIN.match(name):
            hs = list(args)
            if name in ('WaitForMultipleObjects', 'WaitForMultipleObjectsEx'):
                n = st.known(args[0])
                if n.k == 'c' and n.a[0] <= 8:
                    hs += [st.load(I.prog, A(args[1], 8 * i), 8, 64) for i in range(n.a[0])]
            for v in hs:
                if v is not None and v.k != 'c' and self.g(st, 'closed') and self.state(st, v) == 'closed':
                    I.report(st, site, '%s uses a handle that has been closed' % name, '%s|use-after-close' % self.F.short)
        return None

    def unsure(self, st, v):
        return v.k not in ('call', 'ld', 'arg', 'c')

    def acquire(self, s, I, v, what, site):
        self.count('acquisitions')
        self.s(s, 'closed', tuple(x for x in self.g(s, 'closed') if x is not v))
        self.s(s, 'open', tuple(x for x in self.g(s, 'open') if x[0] is not v) + ((v, '%s at %s' % (what, I.where(site))),))

    def after(self, I, st, name, short, args, site, ret):
        p = I.prog
        if name in RET:
            bad = INVALID if name in NEG else ZERO

            def ok(s):
                if not s.assume(icmp('eq', ret, bad, 64), False):
                    return False
                s.assume(icmp('eq', ret, ZERO, 64), False)
                s.assume(icmp('eq', ret, INVALID, 64), False)
                self.acquire(s, I, ret, name, site)
            return [ok, lambda s: s.assume(icmp('eq', ret, bad, 64), True)]
        if name in OUT:
            if name.startswith('CreateProcess'):
                outs = [A(args[9], p.field('_PROCESS_INFORMATION', f)[0]) for f in ('hProcess', 'hThread')]
            else:
                outs = [args[i] for i in OUT[name]]
            if name == 'DuplicateHandle' and args[2] is not INVALID:
                return None

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                for a in outs:
                    v = s.load(p, a, 8, 64)
                    if s.assume(icmp('eq', v, ZERO, 64), False):
                        s.assume(icmp('eq', v, INVALID, 64), False)
                        self.acquire(s, I, v, name, site)
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        return None

    def finish(self, I, st, val):
        self.end(I, st, val)

    def end(self, I, st, val):
        p, F = self.p, self.F
        homes = []
        if F.short == 'winpty_open' and val is not None:
            if st.truth(icmp('eq', val, ZERO, 64)) is not True:
                homes += [(A(val, off), nm) for off, nm in self.fields]
        elif self.wi is not None and F.short != 'winpty_free':
            homes += [(A(self.args[self.wi], off), nm) for off, nm in self.fields]
        if F.short == 'winpty_free' and st.truth(icmp('eq', self.args[self.wi], ZERO, 64)) is True:
            return
        held = {}
        for a, nm in homes:
            v = st.load(p, a, 8, 64)
            self.oblige('%s: session field %s is null or holds an open handle' % (F.short, nm))
            if self.state(st, v) == 'closed':
                I.report(st, self.site0(I), '%s returns with the session\'s %s holding a closed handle' % (F.short, nm), '%s|stale-%s' % (F.short, nm))
            if v in held:
                I.report(st, self.site0(I), 'session fields %s and %s own the same handle' % (nm, held[v]), '%s|twice-%s' % (F.short, nm))
            if not (v.k == 'c'):
                held[v] = nm
        gone = [nm for v, nm in self.init_h.items() if v not in held and self.state(st, v) != 'closed']
        for nm in gone:
            self.oblige('%s: handle of %s' % (F.short, nm))
            I.report(st, self.site0(I), '%s %s' % (F.short, 'does not close the session\'s %s' % nm if F.short == 'winpty_free' else 'drops the session\'s %s without closing it' % nm), '%s|drop-%s' % (F.short, nm))
        if F.short == 'winpty_free':
            for nm in self.init_h.values():
                self.oblige('winpty_free: %s is closed' % nm)
        outs = set()
        for i, a in self.args.items():
            if i < F.nargs and F.dty[i + 1:i + 2] in (['HANDLE *'], ['void **']):
                v = st.load(p, a, 8, 64)
                outs.add(v)
                if self.state(st, v) == 'closed':
                    I.report(st, self.site0(I), '%s gives the caller a handle that has been closed' % F.short, '%s|out-closed' % F.short)
        for v, what in self.g(st, 'open'):
            self.oblige('%s: the handle from %s has an owner at the end' % (F.short, what))
            if v not in held and v not in outs:
                I.report(st, self.site0(I), 'the handle from %s is leaked' % what, '%s|leak|%s' % (F.short, what.split(' ')[0]))

    def escape(self, I, st, exc):
        self.end(I, st, None)


def fields(p, cls='winpty_s', base=0, pre='', depth=0):
    """Handle-owning members of the session: (offset, name)."""
    r = []
    for m in p.classes[cls]['m']:
        nm, off, size, ty, sub = m
        if size == 8 and (ty in ('HANDLE', 'void *', 'PVOID') or sub == 'OwnedHandle'):
            r.append((base + off, pre + nm))
        elif sub in p.classes and not sub.startswith('std::') and depth < 3 and sub not in ('Mutex',):
            r += fields(p, sub, base + off, pre + (nm + '.' if nm and nm != '<base>' else ''), depth + 1)
    return r


def check():
    c = core.Check('C13', 'every handle acquired on a path is closed exactly once on it, or is held by the session or an output parameter when it ends; no closed handle is used')
    p = core.program('libwinpty')
    fs = fields(p)
    c.need(fs, 'the session owns no handles')
    M.fields = fs
    jobs = []
    for F in core.exported(p):
        if F.short == 'winpty_open' or session_arg(p, F) is not None:
            jobs.append(('libwinpty', F, M, {}))
    c.run(jobs)
    c.need(c.violations or c.counts.get('acquisitions'), 'no handle is ever acquired')
    c.need(c.violations or c.counts.get('closes'), 'no handle is ever closed')
    return c.finish('All paths of winpty_open, of every call on a session and of winpty_free, with every acquisition and every C++ allocation failing or succeeding; closing is assumed to succeed.', 20)
