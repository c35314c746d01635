"""The adapter's worker threads: everything read is passed on, and the end of a worker is announced."""
import ai
import core
import lin
from ai import A, C, ZERO, binop, cast, icmp, mk, split
from checks import adapter

GH = mk('ghost')
CELLS = {'next': 0, 'sent': 8, 'left': 16, 'n': 24}
EINTR, EAGAIN = 4, 11
ERRNO = mk('errno')


class C34(core.Mon):
    """One worker.  mon: 'pend' (buffer: its first byte), 'over' (why the worker may end), 'flag', 'woken', 'drained', 'cap'."""
    std_throws = False
    init = ()
    interest = core.calls('read', 'write', 'ReadFile', 'WriteFile', 'select', 'poll', '__errno_location', 'GetLastError')

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        r = [x for x in st.mon if x[0] != k]
        if v is not None:
            r.append((k, v))
            r.sort(key=lambda x: x[0])
        st.mon = tuple(r)

    def put(self, st, k, v):
        a = A(GH, CELLS[k]) if CELLS[k] else GH
        if v is None:
            st.mem.pop((GH, CELLS[k]), None)
        else:
            st.store(a, v, 8)

    def val(self, st, k):
        c = st.mem.get((GH, CELLS[k]))
        return c[1] if c else None

    def start(self, st, I):
        self.p = I.prog
        self.this = st.frames[0].env[0]
        cls = self.cls
        self.fds, self.handles, self.flags = [], [], []
        for nm, off, size, ty, sub in I.prog.classes[cls]['m']:
            if 'volatile' in ty or 'atomic' in ty:
                self.flags.append((off, size, nm))
            elif ty == 'int':
                self.fds.append(off)
            elif ty in ('HANDLE', 'void *') or size == 8 and 'void' in ty and '*' in ty:
                self.handles.append(off)
        if not self.fds or not self.handles:
            raise core.Broken('%s: no descriptor and session pipe found in the worker' % cls)
        self.own = dict((st.load(I.prog, A(self.this, o), 4, 32), o) for o in self.fds)
        self.pipes = [st.load(I.prog, A(self.this, o), 8, 64) for o in self.handles]

    def walk(self, I, F):
        if not F.repo:
            return None
        return F.name in I.rel or F.short.startswith('WakeupFd::')

    def flagof(self, p):
        b, o = split(p)
        if b is split(self.this)[0]:
            for off, size, nm in self.flags:
                if off == o:
                    return nm
        return None

    def loaded(self, I, st, p, val, size, site):
        nm = self.flagof(p)
        if nm and st.truth(icmp('eq', val, ZERO, size * 8)) is not True:
            self.s(st, 'asked', val)
            self.s(st, 'drained', None)

    def stored(self, I, st, p, val, size, site):
        nm = self.flagof(p)
        if nm and st.truth(icmp('eq', val, ZERO, size * 8)) is False:
            self.s(st, 'flag', nm)

    def volatile(self, I, st, site):
        for off, size, nm in self.flags:
            st.store(A(self.this, off), I.fresh(st, 'call', 0, site[3], nm), size)

    def kind(self, I, st, fd, site):
        """Which descriptor is this?"""
        v = st.known(fd)
        if v in self.own:
            return 'data'
        if v is C(2):
            return 'stderr'
        return 'wakeup'

    def err(self, e):
        def f(s):
            s.store(ERRNO, C(e), 4)
        return f

    def call(self, I, st, name, short, args, site):
        w = I.where(site)
        if name == '__errno_location':
            return ('ret', ERRNO)
        if name in ('read', 'recv'):
            return self.read(I, st, args, site)
        if name in ('write', 'send'):
            return self.write(I, st, args, site)
        if name == 'ReadFile':
            return self.source(I, st, args[0] in self.pipes, args, site)
        if name == 'WriteFile':
            return self.sinkfile(I, st, args, site)
        if name in ('select', 'poll', 'pselect'):
            if self.g(st, 'drained'):
                I.report(st, site, 'the worker waits although it has drained its wakeups without looking at what it was asked to do', 'lost')
            self.volatile(I, st, site)
            self.oblige('%s: the worker waits' % w)
            self.count('wait')
            self.s(st, 'waited', True)
            r = I.fresh(st, 'call', 0, site[3], name)
            return ('fork', [(r, lambda s: s.assume(icmp('slt', r, ZERO, 32), False)), (C(0xffffffff), self.err(EINTR))])
        if name == 'GetLastError':
            return ('ret', I.fresh(st, 'call', 0, site[3], name))
        m = short.split('::')[-1].split('[')[0]
        if m == 'vector' and len(args) >= 2 and args[1].k == 'c':
            self.s(st, 'cap', tuple(x for x in self.g(st, 'cap', ()) if x[0] is not args[0]) + ((args[0], args[1].a[0]),))
        return None

    def room(self, I, st, p):
        """How much fits at an address, as a linear form."""
        L = lin.Lin(st)
        a = p
        while a.k in ('A', 'gepv'):
            a = a.a[0]
        if a.k == 'elem':
            q = a.a[0]
            used = L.sub(L.form(p), L.form(mk('elem', q, ZERO)))
            for x, n in self.g(st, 'cap', ()):
                if x is q:
                    return L, L.sub({None: n}, used)
            return L, L.sub(L.form(mk('pure', 'size', st.tok(q))), used)
        n = I.lsize.get(a)
        if n is None:
            return L, None
        return L, {None: n - split(p)[1]}

    # where bytes come from
    def pending(self, I, st, site, what):
        """Everything that was read must have been passed on by now."""
        if self.g(st, 'pend') is None:
            return
        L = lin.Lin(st)
        left, n, sent = self.val(st, 'left'), self.val(st, 'n'), self.val(st, 'sent')
        done = left is not None and (st.truth(icmp('eq', left, ZERO, 64)) is True or L.eq(left, ZERO)) or \
            n is not None and sent is not None and (n is sent or L.eq(n, sent))
        if not done:
            I.report(st, site, '%s although not everything that was read before has been passed on' % what, 'dropped')
        self.s(st, 'pend', None)
        for k in CELLS:
            self.put(st, k, None)

    def got(self, st, p, n64):
        self.s(st, 'pend', True)
        self.put(st, 'next', p)
        self.s(st, 'base', p)
        self.put(st, 'sent', ZERO)
        self.put(st, 'left', n64)
        self.put(st, 'n', n64)
        st.assume(icmp('ult', n64, ZERO, 64), False)

    def fits(self, I, st, p, n, w, site):
        L, room = self.room(I, st, p)
        if room is None or not L.holds(L.sub(room, L.form(n, w))):
            I.report(st, site, 'more may be read than the buffer holds', 'room')

    def read(self, I, st, args, site):
        w = I.where(site)
        if self.kind(I, st, args[0], site) != 'data':
            r = cast('sext', 64, I.fresh(st, 'call', 0, site[3], 'drained'), 32)

            def some(s):
                return s.assume(icmp('slt', ZERO, r, 64), True)

            def none(s):
                self.err(EAGAIN)(s)
            self.s(st, 'drained', True)
            self.volatile(I, st, site)
            return ('fork', [(r, some), (C(0xffffffffffffffff), none)])
        self.oblige('%s: bytes are read' % w)
        self.count('read')
        self.pending(I, st, site, 'more is read')
        if self.g(st, 'broken'):
            I.report(st, site, 'more is read although what was read before could not be passed on', 'broken')
        self.fits(I, st, args[1], args[2], 64, site)
        if not self.g(st, 'waited'):
            I.report(st, site, 'the worker reads the terminal without having waited for input or for a request to stop', 'blocks')
        self.s(st, 'waited', None)
        self.volatile(I, st, site)
        v = I.fresh(st, 'call', 0, site[3], 'received')
        r = cast('sext', 64, v, 32)

        def ok(s):
            s.assume(icmp('slt', ZERO, v, 32), True)
            s.assume(icmp('ult', args[2], r, 64), False)
            self.got(s, args[1], r)

        def end(s):
            self.s(s, 'over', 'the end of input')

        def fail(s):
            self.err(5)(s)
            self.s(s, 'over', 'an error')
        return ('fork', [(r, ok), (ZERO, end), (C(0xffffffffffffffff), fail), (C(0xffffffffffffffff), self.err(EINTR))])

    def source(self, I, st, mine, args, site):
        w = I.where(site)
        if not mine:
            raise core.Broken('%s: ReadFile of an unknown handle' % w)
        self.oblige('%s: bytes are read' % w)
        self.count('read')
        self.pending(I, st, site, 'more is read')
        if self.g(st, 'broken'):
            I.report(st, site, 'more is read although what was read before could not be passed on', 'broken')
        self.fits(I, st, args[1], args[2], 32, site)
        self.volatile(I, st, site)
        v = I.fresh(st, 'call', 0, site[3], 'received')

        def ok(s):
            s.store(args[3], v, 4)
            s.assume(icmp('eq', v, ZERO, 32), False)
            s.assume(icmp('ult', args[2], v, 32), False)
            self.got(s, args[1], cast('zext', 64, v, 32))

        def end(s):
            s.store(args[3], ZERO, 4)
            self.s(s, 'over', 'the end of the output')

        def fail(s):
            s.store(args[3], ZERO, 4)
            self.s(s, 'over', 'an error')
        return ('fork', [(C(1), ok), (C(1), end), (ZERO, fail)])

    # where they go
    def passed(self, I, st, p, n, w, site):
        self.oblige('%s: bytes are passed on' % I.where(site))
        self.count('pass')
        if self.g(st, 'pend') is None:
            I.report(st, site, 'bytes are passed on that were not read', 'unread')
            return
        L = lin.Lin(st)
        nx, base, sent, left = self.val(st, 'next'), self.g(st, 'base'), self.val(st, 'sent'), self.val(st, 'left')
        at = L.form(p)
        good = nx is not None and (nx is p or zero(L, L.sub(at, L.form(nx)))) or \
            sent is not None and base is not None and zero(L, L.sub(L.sub(at, L.form(base)), L.form(sent)))
        if not good:
            I.report(st, site, 'bytes are passed on from another place than the first one not yet passed on', 'place')
        f = L.form(n, w)
        tot = self.val(st, 'n')
        if not (left is not None and L.holds(L.sub(L.form(left), f)) or
                tot is not None and sent is not None and L.holds(L.sub(L.sub(L.form(tot), L.form(sent)), f))):
            I.report(st, site, 'more bytes are passed on than were read', 'more')

    def lost(self, s):
        """Nothing can be passed on any more."""
        self.s(s, 'pend', None)
        self.s(s, 'broken', True)
        for k in CELLS:
            self.put(s, k, None)

    def advance(self, st, r):
        nx, sent, left, n = self.val(st, 'next'), self.val(st, 'sent'), self.val(st, 'left'), self.val(st, 'n')
        if left is not None:
            st.assume(icmp('ult', left, r, 64), False)
        if n is not None and sent is not None:
            st.assume(icmp('ult', binop('sub', 64, n, sent), r, 64), False)
        if nx is not None:
            self.put(st, 'next', self.plus(nx, r))
        if sent is not None:
            self.put(st, 'sent', binop('add', 64, sent, r))
        if left is not None:
            self.put(st, 'left', binop('sub', 64, left, r))
        n, sent = self.val(st, 'n'), self.val(st, 'sent')
        if n is not None and sent is not None:
            st.assume(icmp('ult', n, sent, 64), False)          # no more is passed on than is left

    def plus(self, p, r):
        b, o = split(p)
        if r.k == 'c':
            return A(b, o + r.a[0])
        if b.k == 'gepv' and b.a[2] == 1 and o == 0:
            return mk('gepv', b.a[0], binop('add', 64, b.a[1], r), 1)
        return mk('gepv', p, r, 1)

    def write(self, I, st, args, site):
        w = I.where(site)
        k = self.kind(I, st, args[0], site)
        if k == 'stderr':
            return None
        v = I.fresh(st, 'call', 0, site[3], 'written')
        r = cast('sext', 64, v, 32)
        if k == 'wakeup':
            one = st.truth(icmp('eq', args[2], ZERO, 64)) is False

            def woken(s):
                if one and self.g(s, 'flag'):
                    self.s(s, 'woken', True)

            def full(s):
                self.err(EAGAIN)(s)
                woken(s)
            return ('fork', [(C(1), woken), (C(0xffffffffffffffff), full), (C(0xffffffffffffffff), self.err(EINTR))])
        self.passed(I, st, args[1], args[2], 64, site)
        self.volatile(I, st, site)

        def ok(s):
            if s.assume(icmp('slt', ZERO, v, 32), True) is False or s.assume(icmp('ult', args[2], r, 64), False) is False:
                return False
            self.advance(s, r)

        def fail(s):
            self.err(5)(s)
            self.s(s, 'over', 'an error')
            self.lost(s)

        def full(s):
            self.err(EAGAIN)(s)
            self.s(s, 'over', 'an error')
            self.lost(s)

        def nothing(s):
            self.s(s, 'over', 'nothing could be written')
            self.lost(s)
        return ('fork', [(r, ok), (C(0xffffffffffffffff), fail), (C(0xffffffffffffffff), self.err(EINTR)), (ZERO, nothing)])

    def sinkfile(self, I, st, args, site):
        w = I.where(site)
        if args[0] not in self.pipes:
            raise core.Broken('%s: WriteFile to an unknown handle' % w)
        self.passed(I, st, args[1], args[2], 32, site)
        self.volatile(I, st, site)
        v = I.fresh(st, 'call', 0, site[3], 'written')

        def ok(s):
            s.store(args[3], args[2], 4)
            self.advance(s, cast('zext', 64, args[2], 32))

        def short(s):
            if s.assume(icmp('ult', v, args[2], 32), True) is False:
                return False
            s.store(args[3], v, 4)
            self.advance(s, cast('zext', 64, v, 32))
            self.s(s, 'short', True)

        def fail(s):
            s.store(args[3], ZERO, 4)
            self.s(s, 'over', 'an error')
            self.lost(s)
        return ('fork', [(C(1), ok), (C(1), short), (ZERO, fail)])

    def impossible(self, st):
        """The facts contradict each other: this path is never taken."""
        L = lin.Lin(st)
        return any(self.val(st, k) is not None and L.holds(L.plus(L.form(self.val(st, k)), -(1 << 70))) for k in ('n', 'sent', 'left'))

    def ended(self, I, st, how, site):
        if self.g(st, 'pend') is not None and not self.g(st, 'short') and not self.impossible(st):
            self.pending(I, st, site, 'the program is stopped')

    def part(self, I, st):
        return None

    def finish(self, I, st, val):
        where = self.where
        self.oblige('%s: the worker ends' % self.cls)
        self.count('end')
        if not self.g(st, 'short'):
            self.pending(I, st, where, 'the worker ends')
        asked = self.g(st, 'asked')
        if not self.g(st, 'over') and not self.g(st, 'short') and not (asked is not None and st.truth(icmp('eq', asked, ZERO, 32)) is False):
            I.report(st, where, 'the worker ends although nothing has ended or failed and it was not asked to', 'ends')
        if not self.g(st, 'flag'):
            I.report(st, where, 'the worker ends without recording that it has', 'flag')
        elif not self.g(st, 'woken'):
            I.report(st, where, 'the worker ends without waking the main thread after recording that it has ended', 'woken')


def zero(L, f):
    return L.holds(f) and L.holds(L.neg(f))


def threads(p):
    """The start routines given to pthread_create."""
    r = []
    for F in sorted(p.fns.values(), key=lambda f: f.name):
        if not F.repo:
            continue
        for b in p.body(F):
            for i in b:
                if i[1] in ('call', 'invoke') and 'pthread_create' in str(i):
                    for o in flat(i[4:]):
                        if getattr(o, 'k', None) == 'g' and o.a[0] in p.fns and o.a[0] != 'pthread_create' and p.fns[o.a[0]] not in r:
                            r.append(p.fns[o.a[0]])
    return r


def flat(x):
    for o in x:
        if isinstance(o, (list, tuple)):
            for y in flat(o):
                yield y
        else:
            yield o


def check():
    c = core.Check('C34', 'worker: read n -> exactly those bytes passed on, in order -> next read; ends only on end, error or request; then: flag stored -> wakeup written')
    p = core.program('unixadapter')
    ts = threads(p)
    c.need(len(ts) >= 2, 'fewer than two worker threads found in the adapter')
    jobs = []
    for F in ts:
        cls = F.short.rpartition('::')[0]
        M = type('C34_' + cls, (C34,), {'cls': cls, 'where': '%s (%s)' % (F.file.split('/repo/')[-1], F.short), '__module__': __name__})
        globals()['C34_' + cls] = M
        jobs.append(('unixadapter', F, M, {}))
    c.run(jobs)
    for k in ('read', 'pass', 'end', 'wait'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the workers' % k)
    return c.finish('Every path of every worker thread of the adapter, with every outcome of every transfer.', 8)
