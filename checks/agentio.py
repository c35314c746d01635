"""The life of one agent pipe: overlapped operations and the two queues, under every history of calls (C07, C31)."""
import re
import ai
import core
import lin
from ai import A, C, ZERO, icmp, mk, split

IO = {'ReadFile': ('R', 4), 'WriteFile': ('W', 4), 'ConnectNamedPipe': ('C', 1)}
PENDING, INCOMPLETE, CONNECTED = 997, 996, 535
NAMES = {'R': 'read', 'W': 'write', 'C': 'connect'}
SYNC = ('CancelIo', 'CancelIoEx', 'CancelSynchronousIo')


def member_of(p, cls, o):
    """(offset, size) of the innermost member of the class at an offset."""
    for nm, mo, size, ty, sub in p.classes[cls]['m']:
        if mo <= o < mo + size:
            return mo, size
    return None


class Pipe(core.Mon):
    """mon: pend ((over, kind, state, event, buf)...), le, h, got (buf, n), staged ..."""
    std_throws = False
    init = ()
    only = None
    interest = core.calls('ReadFile', 'WriteFile', 'GetOverlappedResult', 'CancelIo', 'CancelIoEx', 'ConnectNamedPipe', 'CloseHandle', 'ResetEvent')

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        r = [x for x in st.mon if x[0] != k]
        if v is not None:
            r.append((k, v))
            r.sort(key=lambda x: x[0])
        st.mon = tuple(r)

    def start(self, st, I):
        self.p = I.prog
        self.sizes = {}
        self.places = {}
        self.pipe = None
        self.ptrs = [o for nm, o, size, ty, sub in I.prog.classes['NamedPipe']['m'] if size == 8 and not re.search(r'size_t|long|int', ty)]

    def part(self, I, st):
        # which pointers and handles of the pipe are null, and which worker is which, is part of the state
        r = []
        for o in self.ptrs:
            c = st.mem.get((self.pipe, o))
            if c:
                z = st.truth(icmp('eq', c[1], ZERO, 64))
                r.append((o, c[1] if c[1] in self.sizes else z))
        return tuple(r)

    def depth(self, st):
        """How many frames at the bottom belong to the driver."""
        n = 0
        for f in st.frames:
            if '/engine/drivers/' not in f.fn.file:
                break
            n += 1
        return n

    def returned(self, I, st, F, val, ctx):
        if len(st.frames) <= self.depth(st) + 1:
            self.s(st, 'le', None)

    def canon(self, I, st, kind, site, *a):
        """One name for the objects created at one place in the code, whoever calls it."""
        k = self.places.setdefault(site[0], -1 - len(self.places))
        return I.fresh(st, kind, k, site[3], *a)

    def walk(self, I, F):
        if F.repo and F.short.startswith(('NamedPipe::', 'vp_')) and '~' not in F.short:
            return True
        return None

    def rep(self, prop, I, st, site, msg, key):
        if self.only == prop:
            I.report(st, site, msg, key)

    def ob(self, prop, desc, cnt=None):
        if self.only == prop:
            self.oblige(desc)
            if cnt:
                self.count(cnt)

    def pend(self, st):
        return self.g(st, 'pend', ())

    def setpend(self, st, l):
        self.s(st, 'pend', tuple(l) or None)

    def call(self, I, st, name, short, args, site):
        w = I.where(site)
        if args and name[:1].isupper() and args[0] is self.g(st, 'closed'):
            self.rep('C07', I, st, site, '%s uses the pipe\'s handle after it was closed' % name, '%s|closed' % name)
        if name in ('_Znwy', '_Znwm') and args[0].k == 'c':
            r = self.canon(I, st, 'H', site)
            self.sizes[r] = args[0].a[0]
            if self.pipe is None:
                self.pipe = r
            return ('ret', r)
        if name == 'CreateEventW':
            own = [f.env[0] for f in st.frames if 0 in f.env and f.env[0] in self.sizes]
            return ('ret', self.canon(I, st, 'call', site, name, own[-1] if own else None))
        if name in IO:
            kind, oi = IO[name]
            over = args[oi]
            pend = self.pend(st)
            self.ob('C07', '%s: %s' % (w, name), 'issue-' + kind)
            if self.g(st, 'h') is not None and args[0] is not self.g(st, 'h'):
                self.rep('C07', I, st, site, '%s is issued on %s, not on the open pipe' % (name, ai.show(args[0])), '%s|handle' % name)
            if st.truth(icmp('eq', over, ZERO, 64)) is not False:
                self.rep('C07', I, st, site, '%s without an OVERLAPPED record on an overlapped pipe' % name, '%s|sync' % name)
            for o, k, s_, ev, buf in pend:
                if k == kind or k == 'C' or kind == 'C':
                    self.rep('C07', I, st, site, 'a %s is issued while a %s is outstanding' % (NAMES[kind], NAMES[k]), '%s|two' % name)
                elif o is over:
                    self.rep('C07', I, st, site, 'the OVERLAPPED record of an outstanding operation is used again', '%s|reuse' % name)
            if kind != 'C':
                self.transfer(I, st, kind, args, site)
        elif name == 'GetLastError':
            le = self.g(st, 'le')
            if type(le) is int:
                return ('ret', C(le))
        elif name == 'GetOverlappedResult':
            mine = [x for x in self.pend(st) if x[0] is args[1]]
            self.ob('C07', '%s: result of an outstanding operation' % w, 'result')
            if not mine:
                how = dict(self.g(st, 'was', ())).get(args[1])
                if how != 'failed':
                    self.rep('C07', I, st, site, 'the result of an operation that %s is asked for' % ('has already been accounted for' if how else 'was never started'), '%s|result' % self.top(st))
            elif st.truth(icmp('eq', args[3], ZERO, 32)) is not True:
                if mine[0][2] != 'canc':
                    self.rep('C07', I, st, site, 'the agent waits for a %s without having cancelled it' % NAMES[mine[0][1]], '%s|uncancelled' % self.top(st))
        elif name == 'CloseHandle':
            self.close(I, st, args[0], site)
        elif name in ('_ZdlPv', '_ZdlPvy', '_ZdlPvm', '_ZdaPv', '_ZdaPvy', 'free'):
            b = split(args[0])[0]
            w0 = self.g(st, 'was', ())
            if any(split(x[0])[0] is b for x in w0):
                self.s(st, 'was', tuple(x for x in w0 if split(x[0])[0] is not b) or None)
            for o, k, s_, ev, buf in self.pend(st):
                self.ob('C07', '%s: memory freed' % w)
                if split(o)[0] is b or buf is not None and split(buf)[0] is b:
                    self.rep('C07', I, st, site, 'the memory of an outstanding %s is freed' % NAMES[k], 'free|%s' % k)
        elif name in ('Sleep', 'WaitForSingleObject', 'WaitForSingleObjectEx', 'WaitForMultipleObjects', 'WaitForMultipleObjectsEx') and self.pend(st):
            pass
        elif short == 'vp_between':
            self.between(I, st, site)
            return ('ret', ZERO)
        elif len(args) == 3 and short.split('::')[-1].split('[')[0] in ('copy', 'copy_n'):
            self.touch(I, st, args[2], site)
        return self.queue(I, st, name, short, args, site)

    def top(self, st):
        for f in reversed(st.frames):
            if f.fn.repo:
                return f.fn.short
        return '?'

    def close(self, I, st, h, site):
        pend = self.pend(st)
        if h is self.g(st, 'h'):
            self.ob('C07', '%s: pipe closed' % I.where(site), 'close')
            for o, k, s_, ev, buf in pend:
                self.rep('C07', I, st, site, 'the pipe is closed while a %s is outstanding' % NAMES[k], 'close|%s' % k)
            self.s(st, 'h', None)
            self.s(st, 'closed', h)
            self.ended_io(I, st)
        else:
            for o, k, s_, ev, buf in pend:
                if ev is h:
                    self.rep('C07', I, st, site, 'the event of an outstanding %s is closed' % NAMES[k], 'close-event|%s' % k)

    def ended_io(self, I, st):
        pass

    def stored(self, I, st, p, val, size, site):
        self.touch(I, st, p, site)

    def memset(self, I, st, args, site):
        self.touch(I, st, args[0], site)

    def memcpy(self, I, st, args, site):
        self.touch(I, st, args[0], site)

    def touch(self, I, st, p, site):
        pend = self.pend(st)
        if not pend:
            return
        b, off = split(p)
        if b.k == 'gepv':
            b, off = split(b.a[0])[0], None
        for o, k, s_, ev, buf in pend:
            ob, oo = split(o)
            if b is ob and off is not None and oo <= off < oo + 32:
                self.rep('C07', I, st, site, 'the OVERLAPPED record of an outstanding %s is written to' % NAMES[k], 'touch|%s' % k)
            if buf is not None and b is split(buf)[0] and off is not None:
                bo = split(buf)[1]
                if bo <= off < bo + self.room(buf):
                    self.rep('C07', I, st, site, 'the buffer of an outstanding %s is written to' % NAMES[k], 'touch-buf|%s' % k)

    def room(self, buf):
        """Bytes from this address to the end of its object."""
        b, o = split(buf)
        n = self.sizes.get(b)
        return n - o if n else 0

    def after(self, I, st, name, short, args, site, ret):
        if name in ('CreateNamedPipeW', 'CreateFileW', 'CreateNamedPipeA', 'CreateFileA'):
            self.s(st, 'h', ret)
            st.assume(icmp('eq', ret, ZERO, 64), False)
            self.s(st, 'closed', None)
            return None
        if name in IO:
            kind, oi = IO[name]
            over = args[oi]
            buf = args[1] if kind != 'C' else None

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.s(s, 'le', None)
                self.was(s, over, 'done')
                if kind != 'C':
                    self.completed(I, s, kind, buf, args[2], args[3], site)

            def pending(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), True):
                    return False
                self.s(s, 'le', PENDING)
                ev = s.load(I.prog, A(over, 24), 8, 64)
                self.was(s, over, None)
                self.setpend(s, self.pend(s) + ((over, kind, 'pend', ev, buf),))
                self.issued(s, kind, args)

            def fail(code):
                def f(s):
                    if not s.assume(icmp('eq', ret, ZERO, 32), True):
                        return False
                    self.s(s, 'le', code)
                    self.was(s, over, 'failed' if code == 'other' else 'done')
                return f
            return [ok, pending, fail('other')] + ([fail(CONNECTED)] if kind == 'C' else [])
        if name == 'GetOverlappedResult':
            over = args[1]
            mine = [x for x in self.pend(st) if x[0] is over]
            wait = st.truth(icmp('eq', args[3], ZERO, 32)) is not True
            if not mine:
                def over_and_done(s):
                    if not s.assume(icmp('eq', ret, ZERO, 32), True):
                        return False
                    self.s(s, 'le', 'other')
                return [over_and_done]
            kind, state, buf = mine[0][1], mine[0][2], mine[0][4]

            def done(s, how):
                self.setpend(s, [x for x in self.pend(s) if x[0] is not over])
                self.was(s, over, how)

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.s(s, 'le', None)
                done(s, 'done')
                if kind != 'C' and state != 'canc':
                    self.completed(I, s, kind, buf, self.amount(s, kind), args[2], site)

            def fail(code):
                def f(s):
                    if not s.assume(icmp('eq', ret, ZERO, 32), True):
                        return False
                    self.s(s, 'le', code)
                    if code != INCOMPLETE:
                        done(s, 'failed')
                return f
            # a call that fails for another reason still leaves the operation finished
            return [ok, fail('other')] + ([fail(INCOMPLETE)] if not wait else [])
        if name in ('CancelIo', 'CancelIoEx'):
            self.s(st, 'le', None)
            if args[0] is self.g(st, 'h'):
                one = name == 'CancelIoEx' and st.truth(icmp('eq', args[1], ZERO, 64)) is not True
                self.setpend(st, [(o, k, 'canc' if not one or o is args[1] else s_, ev, b) for o, k, s_, ev, b in self.pend(st)])
            return None
        if name == 'GetLastError':
            if self.g(st, 'le') == 'other':
                for c in (PENDING, INCOMPLETE, CONNECTED):
                    st.assume(icmp('eq', ret, C(c), 32), False)
            return None
        if name[:1].isupper() and not name.startswith('_') and self.g(st, 'le') is not None and I.prog.fns.get(name) is None:
            self.s(st, 'le', None)
        return self.after_queue(I, st, name, short, args, site, ret)

    # -- the queues, see C31
    def transfer(self, I, st, kind, args, site):
        pass

    def was(self, st, over, how):
        if self.only != 'C07':
            return
        l = [x for x in self.g(st, 'was', ()) if x[0] is not over]
        if how:
            l.append((over, how))
            l.sort(key=lambda x: repr(x[0]))
        self.s(st, 'was', tuple(l) or None)

    def issued(self, st, kind, args):
        pass

    def amount(self, st, kind):
        return None

    def completed(self, I, st, kind, buf, n, actualp, site):
        pass

    def queue(self, I, st, name, short, args, site):
        return None

    def after_queue(self, I, st, name, short, args, site, ret):
        return None

    def between(self, I, st, site):
        """Between two calls into the pipe."""

    def finish(self, I, st, val):
        F = st.frames[0].fn if st.frames else None
        for o, k, s_, ev, buf in self.pend(st):
            self.rep('C07', I, st, 'the end of the pipe\'s life', 'a %s is still outstanding when the pipe is gone' % NAMES[k], 'end|%s' % k)
