"""The Unix adapter: its main function, its workers and its signal handler (C32 - C35)."""
import ai
import core
from ai import A, C, ONE, ZERO, icmp, mk, split

TERMIOS = 60
FDS = {0: 'standard input', 1: 'standard output', 2: 'standard error'}


def name_of(fd):
    return FDS.get(fd, 'descriptor %s' % fd)


class Main(core.Mon):
    """mon: 'raw:<fd>' (modes changed), 'gen:<fd>', 'tty:<fd>', 'threads', 'child' (where its handle is kept), 'started', 'failed', 'exit' (the code obtained), 'freed'."""
    std_throws = False
    init = ()
    only = None
    unroll = True
    interest = core.calls('tcsetattr', 'tcgetattr', 'pthread_create', 'pthread_join', 'sigaction', 'signal', 'winpty_spawn', 'winpty_open', 'winpty_free', 'GetExitCodeProcess', 'exit', 'isatty', 'select', 'poll', 'winpty_set_size')

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        r = [x for x in st.mon if x[0] != k]
        if v is not None:
            r.append((k, v))
            r.sort(key=lambda x: x[0])
        st.mon = tuple(r)

    def rep(self, prop, I, st, site, msg, key):
        if self.only == prop:
            I.report(st, site, msg, key)

    def ob(self, prop, msg, cnt):
        if self.only == prop:
            self.oblige(msg)
            self.count(cnt)

    def part(self, I, st):
        return None

    def walk(self, I, F):
        if not F.repo:
            return None
        return F.name in I.rel or F.short.startswith(('InputHandler::', 'OutputHandler::', 'WakeupFd::'))

    def fd(self, I, st, v, site):
        v = st.known(v)
        if v.k != 'c':
            raise core.Broken('%s: terminal modes of an unknown descriptor' % I.where(site))
        return v.a[0]

    def call(self, I, st, name, short, args, site):
        w = I.where(site)
        if name == 'isatty':
            fd = self.fd(I, st, args[0], site)
            return ('fork', [(C(1), lambda s: self.s(s, 'tty:%d' % fd, True)), (ZERO, None)])
        if name == 'tcgetattr':
            fd = self.fd(I, st, args[0], site)
            b, o = split(args[1])

            def ok(s):
                for i in range(0, TERMIOS, 4):
                    s.store(A(b, o + i), mk('tios', fd, self.g(s, 'gen', 0), i), 4)
            return ('fork', [(ZERO, ok), (C(0xffffffff), lambda s: self.s(s, 'bad', True))])
        if name == 'winpty_open':
            v = I.fresh(st, 'call', 0, site[3], name)

            def opened(s):
                return s.assume(icmp('eq', v, ZERO, 64), False)
            return ('fork', [(v, opened), (ZERO, lambda s: self.s(s, 'start', 'failed'))])
        if name == 'winpty_spawn':
            return self.spawn(I, st, args, site)
        if name == 'GetExitCodeProcess':
            return self.code(I, st, args, site)
        if name in ('fprintf', 'fputs', 'fwrite', 'perror', 'vfprintf') or name == 'write' and args[0] is C(2):
            self.s(st, 'said', True)
        if name == 'tcsetattr':
            return self.modes(I, st, args, site)
        if name == 'pthread_create':
            f = I.prog.fns.get(args[2].a[0]) if args[2].k == 'g' else None
            cls = f.short.rpartition('::')[0] if f else ''
            if cls not in I.prog.classes:
                raise core.Broken('%s: a thread is started with an unknown function' % w)
            self.s(st, 'threads', self.g(st, 'threads', 0) + 1)
            self.s(st, 'workers', self.g(st, 'workers', ()) + ((args[3], cls),))
            return ('ret', ZERO)
        if name in ('select', 'winpty_free', 'winpty_set_size'):
            # what a worker announces may have changed
            for p, cls in self.g(st, 'workers', ()):
                b, o = split(p)
                for nm, off, size, ty, sub in I.prog.classes[cls]['m']:
                    if 'volatile' in ty or 'atomic' in ty:
                        st.store(A(b, o + off), I.fresh(st, 'call', 0, site[3], nm, p), size)
            return None
        if name == 'pthread_join':
            self.s(st, 'threads', max(0, self.g(st, 'threads', 0) - 1))
            return ('ret', ZERO)
        return None

    def modes(self, I, st, args, site):
        w = I.where(site)
        fd = self.fd(I, st, args[0], site)
        b, o = split(args[2])
        vals = [st.load(I.prog, A(b, o + i), 4, 32) for i in range(0, TERMIOS, 4)]
        old = all(v is mk('tios', fd, 0, 4 * i) for i, v in enumerate(vals))
        self.ob('C32', '%s: the modes of %s are %s' % (w, name_of(fd), 'restored' if old else 'changed'), 'restored' if old else 'changed')
        if not self.g(st, 'tty:%d' % fd):
            self.rep('C32', I, st, site, 'the modes of %s are set although it is not known to be a terminal' % name_of(fd), 'tty')

        def ok(s):
            if old:
                self.s(s, 'raw:%d' % fd, None)
            else:
                self.s(s, 'raw:%d' % fd, True)
                self.s(s, 'gen', 1)       # other descriptors may be the same terminal
        if self.g(st, 'raw:%d' % fd):
            if not old:
                self.rep('C32', I, st, site, 'the modes of %s are restored to something else than was saved before they were changed' % name_of(fd), 'value')
            elif self.g(st, 'threads', 0):
                self.rep('C32', I, st, site, 'the modes of %s are restored while a worker thread may still use it' % name_of(fd), 'threads')
        return ('fork', [(ZERO, ok), (C(0xffffffff), lambda s: self.s(s, 'bad', True))])

    def spawn(self, I, st, args, site):
        self.ob('C35', '%s: the child is started' % I.where(site), 'spawn')
        h = I.fresh(st, 'call', 0, site[3], 'child')

        def ok(s):
            s.store(args[2], h, 8)
            self.s(s, 'child', h)
            self.s(s, 'start', 'done')
            return s.assume(icmp('eq', h, ZERO, 64), False)

        def no(s):
            self.s(s, 'start', 'failed')
            self.s(s, 'said', None)
        return ('fork', [(ONE, ok), (ZERO, no)])

    def code(self, I, st, args, site):
        w = I.where(site)
        self.ob('C35', '%s: the exit code is obtained' % w, 'code')
        h = self.g(st, 'child')
        if h is None or st.truth(icmp('eq', args[0], h, 64)) is not True:
            self.rep('C35', I, st, site, 'the exit code of something else than the child is obtained', 'handle')
        if self.g(st, 'threads', 0):
            self.rep('C35', I, st, site, 'the exit code is obtained before the output has been forwarded', 'early')
        v = I.fresh(st, 'call', 0, site[3], 'exitCode')

        def ok(s):
            s.store(args[1], v, 4)
            self.s(s, 'exit', v)
        return ('fork', [(ONE, ok), (ZERO, lambda s: self.s(s, 'exit', False))])

    def over(self, I, st, val, site, where):
        """The adapter ends with a status."""
        self.ob('C32', 'the adapter ends', 'end')
        for fd in sorted(FDS):
            if self.g(st, 'raw:%d' % fd) and not self.g(st, 'bad'):
                self.rep('C32', I, st, where, 'the adapter ends without restoring the modes of %s' % name_of(fd), 'end')
        self.ob('C35', 'the adapter ends with a status', 'status')
        start, code = self.g(st, 'start'), self.g(st, 'exit')
        fails = st.truth(icmp('eq', val, ZERO, 32)) is False
        if start == 'failed':
            self.ob('C35', 'the adapter ends because the session could not be started', 'failed')
            if not fails:
                self.rep('C35', I, st, where, 'a failed start does not end with a failure status', 'status')
            if not self.g(st, 'said'):
                self.rep('C35', I, st, where, 'a failed start is not reported', 'said')
            if any(k.startswith('gen:') for k, v in st.mon):
                self.rep('C35', I, st, where, 'the terminal modes were changed although the start failed', 'modes')
        elif start == 'done' and not self.g(st, 'bad'):
            if code is None:
                # leaving early with a failure is no status of the child
                if site is None or not fails:
                    self.rep('C35', I, st, where, 'the adapter ends without having obtained the exit code of the child', 'none')
            elif code is False:
                if not fails:
                    self.rep('C35', I, st, where, 'the exit code of the child could not be obtained but the adapter reports success', 'unknown')
            elif st.truth(icmp('eq', val, code, 32)) is not True:
                self.rep('C35', I, st, where, 'the adapter ends with another status than the exit code of the child', 'code')

    def ended(self, I, st, how, site):
        if how in ('exit', '_exit', '_Exit', 'quick_exit'):
            self.over(I, st, self.stopping[0], site, site)

    def finish(self, I, st, val):
        self.over(I, st, val, None, 'src/unix-adapter/main.cc (main)')
