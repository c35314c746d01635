"""What the adapter's signal handler may do."""
import ai
import core
from ai import A, C, ZERO, icmp, mk, split
from checks.c34 import flat

SAFE = {'_exit', 'raise', 'kill', 'sem_post', 'time', 'clock_gettime', 'getpid', 'fcntl', 'dup', 'dup2', 'strlen', 'memcpy', 'memmove', 'memset', 'memcmp', 'strcpy',
        'strncpy', 'getppid', 'sigemptyset', 'sigfillset', 'sigaddset', 'sigprocmask', 'pthread_sigmask', 'pthread_self', 'close', 'tcgetpgrp'}
SAFESTD = ('std::atomic', 'std::__atomic', 'std::min', 'std::max', 'std::forward', 'std::move', 'std::addressof', 'std::operator&')
EINTR, EAGAIN, O_NONBLOCK, F_GETFL, F_SETFL = 4, 11, 0x800, 3, 4
ERRNO = mk('errno')


class C33(core.Mon):
    """mon: 'armed' (the value of errno when the signal arrived), 'nb' (descriptors that do not block), 'full' (written to and full)."""
    std_throws = False
    init = ()
    unroll = True
    interest = core.calls('sigaction', 'signal', 'vp_arm', 'pipe', 'pipe2', 'fcntl', 'select', 'tcsetattr', 'pthread_join', 'close', 'exit')

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        r = [x for x in st.mon if x[0] != k]
        if v is not None:
            r.append((k, v))
            r.sort(key=lambda x: x[0])
        st.mon = tuple(r)

    def start(self, st, I):
        self.inside = reach(I.prog, handlers(I.prog))
        st.store(ai.G('_ZL10vp_handler'), ZERO, 8)

    def part(self, I, st):
        return None

    def walk(self, I, F):
        if not F.repo:
            return None
        if F.name in self.inside or '/engine/drivers/' in F.file:
            return True
        return F.name in I.rel or F.short.startswith('WakeupFd::')

    def call(self, I, st, name, short, args, site):
        if name == 'vp_arm':
            self.oblige('a signal arrives')
            self.count('signal')
            e = I.fresh(st, 'call', 0, site[3], 'errno')
            st.store(ERRNO, e, 4)
            self.s(st, 'armed', e)
            return ('ret', ZERO)
        if name == 'vp_disarm':
            e = self.g(st, 'armed')
            v = st.load(I.prog, ERRNO, 4, 32)
            self.oblige('the handler returns')
            self.count('returns')
            if v is not e and st.truth(icmp('eq', v, e, 32)) is not True:
                I.report(st, self.where, 'the signal handler does not leave errno as it was', 'errno')
            self.s(st, 'armed', None)
            self.s(st, 'full', None)
            return ('ret', ZERO)
        if name == '__errno_location':
            return ('ret', ERRNO)
        armed = self.g(st, 'armed') is not None
        if armed and name == 'vp_pointer' or name == 'vp_number':
            return None
        if name in ('pipe', 'pipe2') and not armed:
            r, w = I.fresh(st, 'call', 0, site[3], 'pipeR'), I.fresh(st, 'call', 0, site[3], 'pipeW')
            nb = name == 'pipe2' and args[1].k == 'c' and args[1].a[0] & O_NONBLOCK

            def ok(s):
                b, o = split(args[0])
                s.store(A(b, o), r, 4)
                s.store(A(b, o + 4), w, 4)
                if nb:
                    self.s(s, 'nb', self.g(s, 'nb', ()) + (r, w))
            return ('fork', [(ZERO, ok), (C(0xffffffff), None)])
        if name == 'fcntl' and not armed and len(args) > 1 and args[1].k == 'c':
            if args[1].a[0] == F_SETFL:
                fd = st.known(args[0])
                nb = tuple(x for x in self.g(st, 'nb', ()) if x is not fd)
                if has(args[2], O_NONBLOCK):
                    nb += (fd,)
                self.s(st, 'nb', nb or None)
                return ('ret', ZERO)
            return ('ret', I.fresh(st, 'call', 0, site[3], name))
        if name == 'vp_closed':
            fd = st.known(args[0])
            self.s(st, 'nb', tuple(x for x in self.g(st, 'nb', ()) if x is not fd) or None)
            return ('ret', ZERO)
        if not armed:
            return None
        # inside the handler
        w = I.where(site)
        F = I.prog.fns.get(name)
        if F is not None and F.name in self.inside:
            return None
        self.oblige('%s: %s in the signal handler' % (w, short))
        self.count('call')
        if name in ('write', 'read'):
            fd = st.known(args[0])
            if fd not in self.g(st, 'nb', ()):
                if not (fd.k == 'c' and fd.a[0] == 2):          # a message before it aborts, which is reported below
                    I.report(st, site, 'the signal handler uses a descriptor that was not made non-blocking before the handler was installed', 'blocks')
            if (name, fd) in self.g(st, 'full', ()):
                I.report(st, site, 'the signal handler goes on trying although the descriptor would block', 'spins')

            def err(e):
                def f(s):
                    s.store(ERRNO, C(e), 4)
                    if e == EAGAIN and (name, fd) not in self.g(s, 'full', ()):
                        self.s(s, 'full', self.g(s, 'full', ()) + ((name, fd),))
                return f
            v = I.fresh(st, 'call', 0, site[3], name)
            return ('fork', [(v, lambda s: s.assume(icmp('slt', v, ZERO, 64), False)), (C(0xffffffffffffffff), err(EINTR)), (C(0xffffffffffffffff), err(EAGAIN))])
        if name in SAFE or name.startswith(('llvm.', '__atomic')) or short.startswith(SAFESTD) or name in ('abort', '__assert_fail'):
            return None
        I.report(st, site, 'the signal handler calls %s, which is not async-signal-safe' % short, 'unsafe|%s' % short)
        return None

    def ended(self, I, st, how, site):
        if self.g(st, 'armed') is not None and how not in ('_exit',):
            I.report(st, site, 'the signal handler may end the program (%s): what it needs is not ready when it is installed' % how, 'ends|%s' % how)


def has(v, bit):
    if v.k == 'c':
        return bool(v.a[0] & bit)
    if v.k == 'E' and v.a[0] == 'or':
        return any(has(x, bit) for x in v.a[2:] if isinstance(x, ai.V))
    return False


def handlers(p):
    """The functions that are installed as signal handlers: those named in functions that install one."""
    r = []
    for F in sorted(p.fns.values(), key=lambda f: f.name):
        if not F.repo or '/engine/drivers/' in F.file:
            continue
        body = p.body(F)
        if not any(i[1] in ('call', 'invoke') and callee(i) in ('sigaction', 'signal') for b in body for i in b):
            continue
        for b in body:
            for i in b:
                for o in flat(i[3:]):
                    if getattr(o, 'k', None) == 'g' and o.a[0] in p.fns and not (i[1] in ('call', 'invoke') and o.a[0] == callee(i)) and p.fns[o.a[0]].repo and '/engine/drivers/' not in p.fns[o.a[0]].file:
                        r.append(o.a[0])
    return r


def callee(i):
    for o in flat(i[4:]):
        if getattr(o, 'k', None) == 'g':
            return o.a[0]
        if isinstance(o, str) and o in ('sigaction', 'signal'):
            return o
    return None


def reach(p, names):
    seen, todo = set(), list(names)
    while todo:
        n = todo.pop()
        F = p.fns.get(n)
        if n in seen or F is None or not F.repo or F.short in ai.DEFAULT_OPAQUE:
            continue
        seen.add(n)
        for b in p.body(F):
            for i in b:
                for o in flat(i[3:]):
                    if getattr(o, 'k', None) == 'g' and o.a[0] in p.fns:
                        todo.append(o.a[0])
                    elif isinstance(o, str) and o in p.fns:
                        todo.append(o)
    return seen


def check():
    c = core.Check('C33', 'from its installation on, the handler: only async-signal-safe calls, only on open non-blocking descriptors, no retry when full, errno unchanged, does not end the program')
    p = core.program('unixsignal')
    hs = handlers(p)
    c.need(hs, 'no signal handler found in the adapter')
    C33.where = '%s (%s)' % (p.fns[hs[0]].file.split('/repo/')[-1], p.fns[hs[0]].short) if hs else ''
    c.run([('unixsignal', core.fn(p, 'main'), C33, {'klimit': 200, 'klimit_loop': 200})])
    for k in ('signal', 'returns', 'call'):
        c.need(c.violations or c.counts.get(k), 'no %s found' % k)
    return c.finish('The signal handler, run at its installation and at every later wait, mode change, thread end and close of the main thread.', 4)
