"""Received bytes are never read beyond their end, whatever they are."""
import re
import ai
import core
import lin
from ai import A, C, ZERO, icmp, mk, split
from checks.libio import session_arg

ALLOC = {'resize', 'reserve', 'assign', 'append', 'insert'}
WIDTH = {'char': 1, 'wchar_t': 2, 'unsigned char': 1, 'signed char': 1}


def elemsize(dem):
    m = re.search(r'(?:vector|basic_string)<(char|wchar_t|unsigned char|signed char)\b', dem)
    return WIDTH.get(m.group(1), 1) if m else 1


def exact(L, v, w=64):
    """Is no intermediate result of this count able to wrap around?"""
    if v.k != 'E':
        return True
    op = v.a[0]
    if op in ('add', 'sub', 'mul', 'shl'):
        f = L.form(v, v.a[1])
        if v in f:
            return False
        return exact(L, v.a[2]) and exact(L, v.a[3])
    if op in ('zext', 'sext', 'trunc'):
        return exact(L, v.a[2])
    return True


class Reader(core.Mon):
    """One decoding function, from any state in which the position lies within the buffer."""
    std_throws = False
    init = ()

    def __init__(self):
        self.records = []

    def output(self):
        return self.records

    def part(self, I, st):
        # positions reached in different ways are not merged (unless a loop keeps producing new ones)
        o = st.load(I.prog, self.offp, 8, 64)
        return o if o.d < 14 else None

    def members(self, p):
        buf = off = None
        for nm, o, size, ty, sub in p.classes['ReadBuffer']['m']:
            if sub.startswith('std::vector<char') or sub.startswith('std::__cxx11::basic_string<char'):
                buf = o
            elif size == 8 and buf is not None or size == 8 and 'size_t' in ty or ty == 'size_t':
                off = o
        return buf, off

    def start(self, st, I):
        p = I.prog
        F = st.frames[0].fn
        self.F = F
        b, o = self.members(p)
        th = st.frames[0].env[1 if F.sret else 0]
        self.buf, self.offp = A(th, b), A(th, o)
        t = st.tok(self.buf)
        self.tok = t
        self.size = mk('pure', 'size', t)
        self.o0 = st.load(p, self.offp, 8, 64)
        st.assume(icmp('ult', self.size, self.o0, 64), False)

    def into(self, v):
        return v is not None and ai.contains(v, lambda x: x.k == 'elem' and x.a[0] is self.buf)

    def inside(self, st, I, ptr, n, site, what):
        """[ptr, ptr+n) lies inside the received bytes."""
        self.oblige('%s: %s stays within the received bytes' % (I.where(site), what))
        self.count('accesses')
        L = lin.Lin(st)
        base = L.form(mk('elem', self.buf, ZERO))
        f = L.sub(L.form(ptr), base)
        lo = L.holds(f)
        hi = L.holds(L.sub(L.form(self.size), L.add(f, n if isinstance(n, dict) else L.form(n))))
        if not (lo and hi):
            I.report(st, site, '%s may read beyond the received bytes' % what, '%s|bounds' % self.F.short)

    def call(self, I, st, name, short, args, site):
        m = short.split('::')[-1].split('[')[0]
        dem = I.prog.dem(name)
        if name.startswith('_Z') and I.prog.fns.get(name) is not None and I.prog.fns[name].repo:
            return None
        if m == 'copy' and len(args) == 3 and self.into(args[0]):
            L = lin.Lin(st)
            self.inside(st, I, args[0], L.sub(L.form(args[1]), L.form(args[0])), site, 'a copy of %s bytes' % ai.show(self.diff(args[1], args[0])))
        elif m == 'copy_n' and self.into(args[0]):
            self.inside(st, I, args[0], args[1], site, 'a copy')
        elif name in ('memcpy', 'memmove') and self.into(args[1]):
            self.inside(st, I, args[1], args[2], site, 'a copy of %s bytes' % ai.show(args[2]))
        elif m in ('assign', 'append', 'insert') and any(self.into(a) for a in args[1:]):
            src = [a for a in args[1:] if self.into(a)]
            L = lin.Lin(st)
            if len(src) == 2:
                self.inside(st, I, src[0], L.sub(L.form(src[1]), L.form(src[0])), site, 'a copy')
            else:
                self.inside(st, I, src[0], args[-1], site, 'a copy')
        if m in ALLOC and m in ('resize', 'reserve') or re.search(r'(vector|basic_string)<.*>::(vector|basic_string)\(unsigned long long', dem):
            n = args[1]
            if args[0] is not self.buf and st.known(n).k != 'c':
                self.oblige('%s: allocation of a number of elements found in the message' % I.where(site))
                self.count('allocations')
                L = lin.Lin(st)
                k = elemsize(dem)
                if not L.holds(L.sub(L.form(self.size), {a: c * k for a, c in L.form(n).items()})):
                    I.report(st, site, 'memory for %s elements is allocated before the message is known to contain them' % ai.show(n), '%s|alloc' % self.F.short)
        return None

    def diff(self, a, b):
        b1, b2 = split(a), split(b)
        if a.k == 'gepv' and a.a[0] is b:
            return a.a[1]
        if b1[0] is b2[0]:
            return C(b1[1] - b2[1])
        return a

    def memcpy(self, I, st, args, site):
        if self.into(args[1]):
            self.inside(st, I, args[1], args[2], site, 'a copy of %s bytes' % ai.show(args[2]))
            if not st.mon and st.known(args[2]) is C(1):
                st.mon = (('tag', st.load(I.prog, args[1], 1, 8)),)

    def loaded(self, I, st, p, val, size, site):
        if self.into(p):
            self.inside(st, I, p, C(size), site, 'a load of %d bytes' % size)
            if size == 1 and not st.mon:
                L = lin.Lin(st)
                d = L.sub(L.sub(L.form(p), L.form(mk('elem', self.buf, ZERO))), L.form(self.o0))
                if not any(d.values()):
                    st.mon = (('tag', val),)

    def after(self, I, st, name, short, args, site, ret):
        m = short.split('::')[-1].split('[')[0]
        if m in ('copy', 'copy_n') and len(args) == 3 and self.into(args[0]) or name in ('memcpy', 'memmove') and self.into(args[1]):
            if name in ('memcpy', 'memmove'):
                dst, n = args[0], args[2]
            else:
                dst, n = args[2], self.diff(args[1], args[0]) if m == 'copy' else args[1]
            n = st.known(n)
            if not st.mon and n is C(1):
                st.mon = (('tag', st.load(I.prog, dst, 1, 8)),)
        return None

    def position(self, I, st, site):
        L = lin.Lin(st)
        o = st.load(I.prog, self.offp, 8, 64)
        t = st.tok(self.buf)
        self.oblige('%s: the read position stays within the buffer' % self.F.short)
        if t is not self.tok or not L.le(o, self.size):
            I.report(st, site, 'the read position may leave the buffer', '%s|position' % self.F.short)
        return L, o

    def finish(self, I, st, val):
        F = self.F
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        L, o = self.position(I, st, site)
        nm = F.short.split('::')[-1].split('[')[0]
        rec = [nm, None, L.le(self.size, o)]
        if st.mon:
            k = st.known(st.mon[0][1])
            rec[1] = k.a[0] if k.k == 'c' else 'unchecked'
        if tuple(rec) not in self.records:
            self.records.append(tuple(rec))

    def escape(self, I, st, exc):
        F = self.F
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        self.position(I, st, site)
        self.oblige('%s: only a decode error is thrown' % F.short)
        if 'DecodeError' not in exc:
            I.report(st, site, '%s throws %s instead of a decode error' % (F.short, exc), '%s|exception' % F.short)

    def ended(self, I, st, how, site):
        if how.startswith('__c') or how in ('abort',):
            return
        if how == 'agentAssertFail':
            self.count('asserts')


class Caller(core.Mon):
    """A function that receives packets."""
    std_throws = False
    init = ()
    interest = core.calls('ReadFile', 'NamedPipe::read', 'NamedPipe::peek', 'ReadBuffer::ReadBuffer', 'TransactNamedPipe')

    def start(self, st, I):
        self.F = st.frames[0].fn

    def g(self, st, k):
        return dict(st.mon).get(k)

    def room(self, I, st, ptr, n, site, what, w=64):
        """[ptr, ptr+n) lies inside one object of known size."""
        self.oblige('%s: %s stays inside its buffer' % (I.where(site), what))
        self.count('receives')
        L = lin.Lin(st)
        nn = st.known(n)
        core_n = nn
        while core_n.k == 'E' and core_n.a[0] in ('trunc', 'zext'):
            core_n = core_n.a[2]
        bound = None
        s = lin.loop_sum(I, ptr, core_n)
        if s is not None:
            ptr, nn = s
        f = L.form(nn)
        if nn.k == 'E' and nn.a[0] == 'trunc':
            f = L.form(nn.a[2], nn.a[3])      # a truncated amount is no larger
        cap = self.capacity(st, I, L, ptr)
        if cap is None:
            I.report(st, site, '%s writes to %s, whose size is unknown' % (what, ai.show(ptr)), '%s|buffer' % self.F.short)
        elif not L.holds(L.sub(cap, f)):
            I.report(st, site, '%s may write %s bytes to a buffer that is not that large' % (what, ai.show(nn)), '%s|overflow' % self.F.short)

    def capacity(self, st, I, L, ptr):
        for x in _walk(ptr):
            if x.k == 'elem':
                base = mk('elem', x.a[0], ZERO)
                off = L.sub(L.form(ptr), L.form(base))
                if L.holds(off):
                    return L.sub(L.form(mk('pure', 'size', st.tok(x.a[0]))), off)
        for x in _walk(ptr):
            if x.k == 'L' and I.lsize.get(x):
                off = L.sub(L.form(ptr), L.form(x))
                if x not in off and L.holds(off):
                    return L.sub({None: I.lsize.get(x)}, off)
        return None

    def call(self, I, st, name, short, args, site):
        m = short.split('::')[-1]
        dem = I.prog.dem(name)
        if self.g(st, 'decode') and (name in ('ReadFile', 'WriteFile') or short.startswith('NamedPipe::')):
            I.report(st, site, '%s goes on after a decode error' % self.F.short, '%s|goes-on' % self.F.short)
        if name == 'ReadFile':
            self.room(I, st, args[1], args[2], site, 'ReadFile')
        elif short in ('NamedPipe::read', 'NamedPipe::peek') and len(args) == 3:
            self.room(I, st, args[1], args[2], site, short)
            st.havoc_range(args[1], 1 << 16, I.fresh(st, 'hv', st.frames[-1].ctx, site.iid, args[1]))
            return ('ret', I.fresh(st, 'call', st.frames[-1].ctx, site.iid, short))
        elif name == '__cxa_begin_catch' and args[0].k == 'exn' and 'DecodeError' in str(args[0].a[0]):
            st.mon = (('decode', True),)
        if re.search(r'vector<char.*>::(vector\(unsigned long long|resize)', dem) or m == 'resize' and 'char' in dem:
            self.oblige('%s: the packet size is validated before it is used' % I.where(site))
            self.count('packets')
            if not exact(lin.Lin(st), args[1]):
                I.report(st, site, 'the packet size %s is used before it is validated' % ai.show(args[1]), '%s|size' % self.F.short)
        return None

    def finish(self, I, st, val):
        if self.g(st, 'decode'):
            F = self.F
            site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
            self.oblige('%s: a decode error is a failure' % F.short)
            if F.ret == 'v' or val is None:
                I.report(st, site, '%s goes on after a decode error' % F.short, '%s|goes-on' % F.short)
            elif st.truth(icmp('eq', val, ZERO, 64 if F.ret == 'p' else F.ret)) is not True:
                I.report(st, site, '%s reports success after a decode error' % F.short, '%s|success' % F.short)


def _walk(v):
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if type(y) is ai.V:
                todo.append(y)


def check():
    c = core.Check('C27', 'every read of received bytes and every allocation sized by them is preceded by a comparison with the bytes present; a decode error ends in failure')
    tags = {}
    jobs = []
    names = []
    for pn in ('libwinpty', 'agent'):
        p = core.program(pn)
        for F in sorted(p.fns.values(), key=lambda f: f.name):
            if F.short.startswith('ReadBuffer::') and not F.name.startswith('_ZN10ReadBufferC') and F.dty[1:2] in (['ReadBuffer *'], ['const ReadBuffer *']) or \
                    F.short.startswith('ReadBuffer::') and F.sret and F.short.count('::') == 1 and not F.short.endswith('::ReadBuffer'):
                if '~' in F.short or 'operator=' in F.short or F.short.split('::')[1].startswith('ReadBuffer'):
                    continue
                jobs.append((pn, F, Reader, {}))
                names.append((pn, F.short))
    c.need(len(jobs) >= 8, 'decoding functions not found')
    outs = c.run(jobs)
    for (pn, nm), recs in zip(names, outs):
        for k, tag, full in recs or ():
            c.oblige('%s: %s' % (pn, nm))
            if k in ('getInt32', 'getInt64', 'getWString'):
                if not isinstance(tag, int):
                    c.violate('%s|tag' % nm, '%s returns without having checked the type of the field' % nm)
                else:
                    tags.setdefault((pn, k), set()).add(tag)
            elif k == 'assertEof' and not full:
                c.violate('%s|eof' % nm, '%s returns although bytes are left' % nm)
    for pn in ('libwinpty', 'agent'):
        ts = [t for (q, k), s in tags.items() if q == pn for t in s]
        if len(ts) != len(set(ts)):
            c.violate('tags', 'two field types share a tag in %s: %s' % (pn, sorted((k, sorted(s)) for (q, k), s in tags.items() if q == pn)))
    lp, ap = core.program('libwinpty'), core.program('agent')
    eff = lp.effects()
    rel = eff.relevant(lambda n, sh: n == 'ReadFile', None)
    jobs = [('libwinpty', F, Caller, {}) for F in core.exported(lp) if F.name in rel]
    aeff = ap.effects()
    recv = [F for F in ap.fns.values() if F.repo and any(ap.short(x) == 'ReadBuffer::ReadBuffer' for x, _ in aeff.sum[F.name].callees) and not F.short.startswith('ReadBuffer')]
    c.need(recv, 'the agent never decodes a packet')
    jobs += [('agent', F, Caller, {}) for F in recv]
    c.run(jobs)
    c.need(c.violations or c.counts.get('accesses', 0) >= 2, 'no access to received bytes found')
    c.need(c.violations or c.counts.get('allocations', 0) >= 1, 'no message-sized allocation found')
    c.need(c.violations or c.counts.get('packets', 0) >= 2 and c.counts.get('receives', 0) >= 4, 'packet reception not found')
    return c.finish('Every decoding function of both programs from every position within a message of any length, and every function that receives a packet, on all paths.', 20)
