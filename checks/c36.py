"""The adapter's main loop: no wakeup is lost, and every new terminal size reaches the session."""
import ai
import core
import lin
from ai import A, C, ZERO, cast, icmp, mk, split

TIOCGWINSZ = 0x5413
GH = mk('ghost')
CELLS = {'fwdc': 0, 'fwdr': 8, 'seenc': 16, 'seenr': 24}
EAGAIN = 11
ERRNO = mk('errno')


class C36(core.Mon):
    """mon: 'need' (what has to be looked at after a drain), 'workers' ((object, class)...), 'seen', 'wait' (whether it may be waiting)."""
    std_throws = False
    init = ()
    unroll = True
    interest = core.calls('read', 'ioctl', 'select', 'poll', 'pthread_create', 'winpty_set_size', 'winpty_config_set_initial_size', 'tcgetwinsize', 'winpty_free', 'sigaction', 'signal')

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        r = [x for x in st.mon if x[0] != k]
        if v is not None:
            r.append((k, v))
            r.sort(key=lambda x: x[0])
        st.mon = tuple(r)

    def put(self, st, k, v):
        a = A(GH, CELLS[k]) if CELLS[k] else GH
        if v is None:
            st.mem.pop((GH, CELLS[k]), None)
        else:
            st.store(a, v, 2)

    def val(self, st, k):
        c = st.mem.get((GH, CELLS[k]))
        return c[1] if c else None

    def part(self, I, st):
        self.settle(st)
        return None

    def settle(self, st):
        """Does the session know the size that was read last?"""
        if self.g(st, 'seen') == 'new' and self.eq(st, self.val(st, 'seenc'), self.val(st, 'fwdc')) and self.eq(st, self.val(st, 'seenr'), self.val(st, 'fwdr')):
            self.s(st, 'seen', 'told')

    def start(self, st, I):
        self.flags = {}

    def walk(self, I, F):
        if not F.repo:
            return None
        return F.name in I.rel or F.short.startswith(('InputHandler::', 'OutputHandler::', 'WakeupFd::'))

    def flagsof(self, I, cls):
        if cls not in self.flags:
            self.flags[cls] = [(off, size) for nm, off, size, ty, sub in I.prog.classes[cls]['m'] if 'volatile' in ty or 'atomic' in ty]
        return self.flags[cls]

    def done(self, st, what):
        n = self.g(st, 'need', ())
        if what in n:
            self.s(st, 'need', tuple(x for x in n if x is not what and x != what) or None)

    def loaded(self, I, st, p, val, size, site):
        n = self.g(st, 'need', ())
        if not n:
            return
        b, o = split(p)
        for w, cls in self.g(st, 'workers', ()):
            wb, wo = split(w)
            if b is wb and any(o == wo + off for off, sz in self.flagsof(I, cls)):
                self.done(st, w)

    def volatile(self, I, st, site):
        for p, cls in self.g(st, 'workers', ()):
            b, o = split(p)
            for off, size in self.flagsof(I, cls):
                st.store(A(b, o + off), I.fresh(st, 'call', 0, site[3], 'flag', p, off), size)

    def call(self, I, st, name, short, args, site):
        w = I.where(site)
        if name == '__errno_location':
            return ('ret', ERRNO)
        if name == 'pthread_create':
            f = I.prog.fns.get(args[2].a[0]) if args[2].k == 'g' else None
            cls = f.short.rpartition('::')[0] if f else ''
            if cls not in I.prog.classes:
                raise core.Broken('%s: a thread is started with an unknown function' % w)
            self.s(st, 'workers', self.g(st, 'workers', ()) + ((args[3], cls),))
            return ('ret', ZERO)
        if name in ('pthread_join', 'winpty_free'):
            # the session ends here: nothing is waited for any more
            self.s(st, 'need', None)
            self.s(st, 'over', True)
            return None
        if name == 'ioctl' and args[1].k == 'c' and args[1].a[0] == TIOCGWINSZ or name == 'tcgetwinsize':
            return self.size(I, st, args[-1], site)
        if name == 'read':
            fd = st.known(args[0])
            if fd.k == 'c':
                return None
            self.oblige('%s: the wakeups are consumed' % w)
            self.count('drain')
            self.s(st, 'waited', None)
            self.s(st, 'need', ('the size of the terminal',) + tuple(x for x, c in self.g(st, 'workers', ())))
            self.volatile(I, st, site)
            r = cast('sext', 64, I.fresh(st, 'call', 0, site[3], 'drained'), 32)
            return ('fork', [(r, lambda s: s.assume(icmp('slt', ZERO, r, 64), True)), (C(0xffffffffffffffff), lambda s: s.store(ERRNO, C(EAGAIN), 4))])
        if name in ('select', 'poll', 'pselect'):
            return self.wait(I, st, name, site)
        if name == 'winpty_config_set_initial_size':
            self.put(st, 'fwdc', cast('trunc', 16, args[1], 32))
            self.put(st, 'fwdr', cast('trunc', 16, args[2], 32))
            self.s(st, 'fwd', True)
            return None
        if name == 'winpty_set_size':
            self.oblige('%s: a new size is handed to the session' % w)
            self.count('forward')
            c, r = self.val(st, 'seenc'), self.val(st, 'seenr')
            if not self.g(st, 'seen'):
                I.report(st, site, 'the session is given a size that was not read from the terminal', 'unread')
            elif not (self.same(st, args[1], c) and self.same(st, args[2], r)):
                I.report(st, site, 'the session is given another size than was read from the terminal', 'other')
            self.put(st, 'fwdc', cast('trunc', 16, args[1], 32))
            self.put(st, 'fwdr', cast('trunc', 16, args[2], 32))
            self.volatile(I, st, site)
            return ('ret', I.fresh(st, 'call', 0, site[3], name))
        if name in ('memcmp', 'bcmp') and args[2].k == 'c' and args[2].a[0] in (4, 8):
            return self.compare(I, st, args, site)
        return None

    def same(self, st, arg, v):
        if v is None:
            return False
        for k in ('zext', 'sext'):
            x = cast(k, 32, v, 16)
            if arg is x or st.truth(icmp('eq', arg, x, 32)) is True:
                return True
        return False

    def eq(self, st, a, b):
        return a is not None and b is not None and (a is b or st.truth(icmp('eq', a, b, 16)) is True)

    def size(self, I, st, p, site):
        self.oblige('%s: the size of the terminal is read' % I.where(site))
        self.count('size')
        b, o = split(p)
        v = [I.fresh(st, 'call', 0, site[3], 'size', i) for i in range(4)]

        def ok(s):
            for i in range(4):
                s.store(A(b, o + 2 * i), v[i], 2)
            self.put(s, 'seenr', v[0])
            self.put(s, 'seenc', v[1])
            self.s(s, 'seen', 'new')
            self.done(s, 'the size of the terminal')

        def no(s):
            # there is no size to hand on
            self.s(s, 'seen', None)
            self.put(s, 'seenr', None)
            self.put(s, 'seenc', None)
            self.done(s, 'the size of the terminal')
        return ('fork', [(ZERO, ok), (C(0xffffffff), no)])

    def compare(self, I, st, args, site):
        (b, o), (c, q) = split(args[0]), split(args[1])
        pairs = [(st.load(I.prog, A(b, o + i), 2, 16), st.load(I.prog, A(c, q + i), 2, 16)) for i in range(0, args[2].a[0], 2)]

        def eq(s):
            for x, y in pairs:
                if s.assume(icmp('eq', x, y, 16), True) is False:
                    return False
        v = I.fresh(st, 'call', 0, site[3], 'memcmp')
        return ('fork', [(ZERO, eq), (v, lambda s: s.assume(icmp('eq', v, ZERO, 32), False))])

    def wait(self, I, st, name, site):
        if not self.g(st, 'workers') or self.g(st, 'over'):
            return None
        self.oblige('%s: the main thread waits' % I.where(site))
        self.count('wait')
        for x in self.g(st, 'need', ()):
            I.report(st, site, 'the main thread waits although it has consumed a wakeup without then looking at %s' %
                     (x if type(x) is str else 'whether %s has ended' % dict(self.g(st, 'workers', ()))[x]), 'lost|%s' % (x if type(x) is str else dict(self.g(st, 'workers', ()))[x]))
        if self.g(st, 'waited'):
            I.report(st, site, 'the main thread waits again without having consumed the wakeups', 'drain')
        self.s(st, 'waited', True)
        self.settle(st)
        if self.g(st, 'seen') == 'new':
            I.report(st, site, 'the main thread waits although the session was not told the size last read from the terminal', 'size')
        self.s(st, 'need', None)
        self.volatile(I, st, site)
        r = I.fresh(st, 'call', 0, site[3], name)
        return ('fork', [(r, lambda s: s.assume(icmp('slt', r, ZERO, 32), False)), (C(0xffffffff), lambda s: s.store(ERRNO, C(4), 4))])


def check():
    c = core.Check('C36', 'main loop: wait -> wakeups consumed -> size read and every worker looked at -> wait; the size handed to the session is the size last read')
    p = core.program('unixadapter')
    c.run([('unixadapter', core.fn(p, 'main'), C36, {'klimit': 32, 'klimit_loop': 32})])
    for k in ('drain', 'size', 'wait', 'forward'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the adapter' % k)
    return c.finish('Every path of the main thread, with every outcome of every call.', 4)
