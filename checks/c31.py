"""Everything queued is written and everything received is handed on: once, in order, completely."""
import re
import ai
import core
import lin
from ai import A, C, ZERO, icmp, mk, split
from checks.agentio import Pipe

CONST = {'size', 'length', 'empty', 'data', 'c_str', 'operator[]', 'begin', 'end', 'cbegin', 'cend', 'capacity', 'substr', 'copy', 'at', 'front', 'back',
         'find', 'compare', '~basic_string', 'reserve', 'shrink_to_fit', 'basic_string', 'max_size', 'get_allocator', 'rbegin', 'rend'}


GH = mk('ghost')
CELLS = {'stn': 0, 'stw': 40, 'nW': 8, 'wn': 16, 'wv': 24, 'gn': 32}


class C31(Pipe):
    """mon: staged (buf, queue, n, written, erased), got (buf, n), actual (n, value), did (events of this call)"""
    only = 'C31'

    def start(self, st, I):
        Pipe.start(self, st, I)
        self.qoff = [o for nm, o, size, ty, sub in I.prog.classes['NamedPipe']['m'] if sub.startswith('std::__cxx11::basic_string<char,') or sub.startswith('std::vector<char,')]

    # values live in ghost memory, so that they are joined together with the program's own
    def put(self, st, k, v, w=8):
        if v is None:
            st.mem.pop((GH, CELLS[k]), None)
        else:
            st.store(A(GH, CELLS[k]) if CELLS[k] else GH, v, w)

    def putn(self, st, v):
        """The amount in the transfer buffer, also as the 32-bit number the Windows API takes."""
        self.put(st, 'stn', v)
        self.put(st, 'stw', v if v is None else ai.cast('trunc', 32, v, 64), 4)

    def val(self, st, k):
        c = st.mem.get((GH, CELLS[k]))
        return c[1] if c else None

    def q(self, a):
        """Is this one of the pipe's queues?"""
        b, o = split(a)
        return b is self.pipe and o in self.qoff

    def inq(self, a):
        """(queue, position) of an address inside a queue."""
        for x in _addr(a):
            if x.k == 'elem' and self.q(x.a[0]):
                return x.a[0]
        return None

    def pos(self, L, a, q):
        return L.sub(L.form(a), L.form(mk('elem', q, ZERO)))

    def isbuf(self, a):
        b, o = split(a)
        return b in self.sizes and b is not self.pipe

    def act(self, st):
        return self.g(st, 'did', ())

    def add(self, st, *x):
        if x not in self.act(st):
            self.s(st, 'did', self.act(st) + (x,))
        else:
            self.s(st, 'did', self.act(st) + (('repeated ' + x[0],) + x[1:],) if len(self.act(st)) < 6 else self.act(st))

    def method(self, st):
        """The pipe's method that was called from outside, its arguments, and its hidden result."""
        d = self.depth(st)
        if len(st.frames) <= d:
            return None, None
        f = st.frames[d]
        F = f.fn
        return F.short.split('::')[-1].split('[')[0], f

    def queue(self, I, st, name, short, args, site):
        dem = I.prog.dem(name)
        r = core.minmax(I, st, short, dem, args)
        if r is not None:
            return r
        m = short.split('::')[-1].split('[')[0]
        if 'operator[]' in short:
            m = 'operator[]'
        L = None
        if m in ('copy', 'copy_n') and len(args) == 3 and self.inq(args[0]) is not None and not self.q(args[0]):
            L = lin.Lin(st)
            q = self.inq(args[0])
            if m == 'copy':
                n = L.sub(L.form(args[1]), L.form(args[0]))
                v = self.value(args[0], args[1])
            else:
                n, v = L.form(args[1]), args[1]
            self.taken(I, st, L, q, self.pos(L, args[0], q), n, v, args[2], site)
        elif m == 'copy' and self.q(args[0]):
            L = lin.Lin(st)
            self.taken(I, st, L, args[0], L.form(args[3]) if len(args) > 3 else {}, L.form(args[2]), args[2], args[1], site)
        elif self.q(args[0] if args else ZERO) and m not in CONST:
            self.change(I, st, m, args, site)
        elif m == 'operator=' and len(args) == 2 and self.q(args[1]) and '&&' in dem or m == 'basic_string' and len(args) == 2 and self.q(args[1]):
            q = args[1]
            self.add(st, 'all', q, args[0])
            if '&&' in dem:
                self.add(st, 'clear', q)
        elif m == 'substr' and len(args) == 4 and self.q(args[1]) and args[3].k == 'c' and args[3].a[0] in (-1, 2 ** 64 - 1) and \
                (args[2] is not ZERO or lin.made(st.tok(args[1])) is ZERO):
            self.s(st, 'tail', (args[0], args[1], args[2]))           # everything but the first bytes
        elif m == 'substr' and len(args) == 4 and self.q(args[1]):
            L = lin.Lin(st)
            self.taken(I, st, L, args[1], L.form(args[2]), L.form(args[3]), args[3], args[0], site)
        elif m == 'basic_string' and len(args) >= 4 and self.q(args[1]):
            L = lin.Lin(st)
            self.taken(I, st, L, args[1], L.form(args[2]), L.form(args[3]), args[3], args[0], site)
        elif m == 'basic_string' and len(args) >= 3 and self.inq(args[1]) is not None:
            L = lin.Lin(st)
            q = self.inq(args[1])
            if self.inq(args[2]) is not None:
                n, v = L.sub(L.form(args[2]), L.form(args[1])), self.value(args[1], args[2])
            else:
                n, v = L.form(args[2]), args[2]
            self.taken(I, st, L, q, self.pos(L, args[1], q), n, v, args[0], site)
        elif m == 'swap' and len(args) == 2 and any(self.q(a) for a in args):
            q = [a for a in args if self.q(a)][0]
            o = [a for a in args if a is not q][0]
            self.add(st, 'all', q, o)
            self.add(st, 'clear', q)
        return None

    def memcpy(self, I, st, args, site):
        Pipe.memcpy(self, I, st, args, site)
        q = self.inq(args[1])
        if q is not None:
            L = lin.Lin(st)
            self.taken(I, st, L, q, self.pos(L, args[1], q), L.form(args[2]), args[2], args[0], site)

    def value(self, a, b):
        x, y = _addr(a)[-1], _addr(b)[-1]
        if x.k == 'elem' and y.k == 'elem' and x.a[1] is ZERO and a is x and b is y:
            return y.a[1]
        return None

    def taken(self, I, st, L, q, pos, n, v, dst, site):
        """n bytes are copied from the queue."""
        w = I.where(site)
        self.ob('C31', '%s: bytes are copied from the front of a queue' % w, 'copies')
        if not (L.holds(pos) and L.holds(L.neg(pos))):
            self.rep('C31', I, st, site, 'bytes are not taken from the front of the queue', '%s|front' % self.top(st))
        size = L.form(mk('pure', 'size', st.tok(q)))
        if not L.holds(L.sub(size, n)) and split(dst)[0].k not in ('L',):
            self.rep('C31', I, st, site, 'more bytes are copied from the queue than it holds', '%s|beyond' % self.top(st))
        if self.isbuf(dst):
            st0 = self.g(st, 'staged')
            if st0 is not None:
                self.rep('C31', I, st, site, 'bytes taken from the queue are %s' % ('sent twice' if st0[3] else 'overwritten before they are sent'), 'staged|again')
            if not L.holds(L.sub({None: self.room(dst)}, n)):
                self.rep('C31', I, st, site, 'more bytes are copied than the transfer buffer holds', 'staged|room')
            self.putn(st, v)
            self.s(st, 'staged', (dst, q, v is not None, False, False))
        else:
            self.add(st, 'take', q, v, dst)

    def same(self, st, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        L = lin.Lin(st)
        return L.eq(a, b)

    def change(self, I, st, m, args, site):
        w = I.where(site)
        q = args[0]
        meth, fr = self.method(st)
        self.ob('C31', '%s: a queue changes' % w, 'changes')
        tail = self.g(st, 'tail')
        if m == 'operator=' and len(args) == 2 and tail and args[1] is tail[0] and q is tail[1]:
            m, args = 'erase', [q, ZERO, tail[2]]
            self.s(st, 'tail', None)
        if m == 'erase' and len(args) == 3 and self.inq(args[1]) is None:
            n = args[2]
            st0 = self.g(st, 'staged')
            if meth == 'serviceIo' or st0 is not None:
                if st0 is None or st0[1] is not q or st0[4] or not self.same(st, self.val(st, 'stn'), n) or st.truth(icmp('eq', args[1], ZERO, 64)) is not True:
                    self.rep('C31', I, st, site, 'bytes are removed from the queue that were not copied to the transfer buffer', 'erase|staged')
                    return
                self.stage(st, st0[:4] + (True,))
                return
            self.add(st, 'erase', q, args[1], n)
            return
        elif m == 'erase' and len(args) >= 3 and self.inq(args[1]) is not None:
            L = lin.Lin(st)
            v = self.value(args[1], args[2])
            st0 = self.g(st, 'staged')
            if meth == 'serviceIo' or st0 is not None:
                if st0 is None or st0[1] is not q or st0[4] or not self.same(st, self.val(st, 'stn'), v):
                    self.rep('C31', I, st, site, 'bytes are removed from the queue that were not copied to the transfer buffer', 'erase|staged')
                    return
                self.stage(st, st0[:4] + (True,))
                return
            self.add(st, 'erase', q, ZERO, v)
            return
        elif m == 'clear':
            if meth == 'serviceIo':
                self.rep('C31', I, st, site, 'a queue is cleared while the pipe is serviced', 'clear')
                return
            self.add(st, 'clear', q)
            return
        elif m in ('append', 'assign', 'insert', 'operator+=', 'push_back', 'resize', 'operator='):
            if m == 'append' and len(args) == 3:
                p, n = args[1], args[2]
                if split(n)[0] is split(p)[0] and n.k != 'c':
                    n = C(split(n)[1] - split(p)[1])
                elif n.k == 'gepv' and n.a[0] is p:
                    n = n.a[1]
                if self.isbuf(p):
                    got = self.g(st, 'got')
                    if got is None:
                        self.rep('C31', I, st, site, 'bytes of the transfer buffer are queued that were not received, or were queued before', 'append|twice')
                    elif got[0] is not p or not self.same(st, self.val(st, 'gn'), n):
                        self.rep('C31', I, st, site, '%s bytes are queued; %s were received' % (ai.show(n), ai.show(self.val(st, 'gn'))), 'append|amount')
                    self.s(st, 'got', None)
                    self.put(st, 'gn', None)
                    return
                if meth != 'serviceIo':
                    self.add(st, 'append', q, p, n)
                    return
            if m == 'operator=' and len(args) == 2 and split(args[1])[0].k == 'L':
                self.add(st, 'set', q)
                return
        if meth == 'serviceIo':
            self.rep('C31', I, st, site, 'a queue is changed by %s() while the pipe is serviced' % m, 'service|%s' % m)
            if self.g(st, 'got') is not None:
                self.s(st, 'got', None)
                self.put(st, 'gn', None)
            return
        self.add(st, m, q)

    def transfer(self, I, st, kind, args, site):
        w = I.where(site)
        L = lin.Lin(st)
        self.settle(I, st, site)
        if kind == 'R':
            self.ob('C31', '%s: a read into the transfer buffer' % w, 'reads')
            if not L.holds(L.sub({None: self.room(args[1])}, L.form(args[2], 32))):
                self.rep('C31', I, st, site, 'a read may overflow the transfer buffer', 'read|room')
            return
        self.ob('C31', '%s: a write of what was taken from the queue' % w, 'writes')
        st0 = self.g(st, 'staged')
        if st0 is None or st0[3]:
            self.rep('C31', I, st, site, 'the transfer buffer is written %s' % ('twice' if st0 else 'although nothing was copied to it'), 'write|unstaged')
            return
        if st0[0] is not args[1]:
            self.rep('C31', I, st, site, 'a write of %s instead of the bytes taken from the queue' % ai.show(args[1]), 'write|buffer')
        f = L.form(args[2], 32)
        v = self.val(st, 'stw')
        if v is None or v is not args[2] and not (L.holds(L.sub(f, L.form(v, 32))) and L.holds(L.sub(L.form(v, 32), f))):
            self.rep('C31', I, st, site, '%s bytes are written; %s were taken from the queue' % (ai.show(args[2]), ai.show(v) if v is not None else 'an unknown number'), 'write|amount')
        self.stage(st, st0[:3] + (True, st0[4]))

    def stage(self, st, s):
        """Copied, removed from the queue and written: accounted for."""
        self.s(st, 'staged', None if s[3] and s[4] else s)
        if s[3] and s[4]:
            self.putn(st, None)

    def issued(self, st, kind, args):
        if kind == 'W':
            self.put(st, 'nW', args[2], 4)

    def amount(self, st, kind):
        if kind == 'R':
            return None
        n = self.val(st, 'nW')
        self.put(st, 'nW', None)
        return n

    def completed(self, I, st, kind, buf, n, actualp, site):
        v = st.load(I.prog, actualp, 4, 32)
        self.ob('C31', '%s: a completed %s' % (I.where(site), 'read' if kind == 'R' else 'write'), 'completed-' + kind)
        if kind == 'R':
            if self.g(st, 'got') is not None:
                self.rep('C31', I, st, site, 'received bytes are dropped', 'read|dropped')
            self.s(st, 'got', (buf,))
            self.put(st, 'gn', v, 4)
        else:
            self.s(st, 'wrote', True)
            self.put(st, 'wn', n, 4)
            self.put(st, 'wv', v, 4)

    def compared(self, I, st):
        """Forget a write as soon as the program has compared the amounts."""
        if self.g(st, 'wrote'):
            n, v = self.val(st, 'wn'), self.val(st, 'wv')
            if n is not None and v is not None and (n is v or st.truth(icmp('eq', n, v, 32)) is True):
                self.s(st, 'wrote', None)
                self.put(st, 'wn', None)
                self.put(st, 'wv', None)

    def stored(self, I, st, p, val, size, site):
        Pipe.stored(self, I, st, p, val, size, site)
        self.compared(I, st)

    def settle(self, I, st, site):
        if self.g(st, 'got') is not None:
            v = self.val(st, 'gn')
            if v is None or st.truth(icmp('eq', v, ZERO, 32)) is not True:
                self.rep('C31', I, st, site, 'received bytes are dropped', 'read|dropped')
            self.s(st, 'got', None)
            self.put(st, 'gn', None)
        self.compared(I, st)
        if self.g(st, 'wrote'):
            self.s(st, 'wrote', None)
            self.put(st, 'wn', None)
            self.put(st, 'wv', None)
            self.rep('C31', I, st, site, 'the amount written is not compared with the amount taken from the queue', 'write|short')

    def after_queue(self, I, st, name, short, args, site, ret):
        if args and self.q(args[0]) and short.split('::')[-1].split('[')[0] not in CONST and name.startswith('_Z') and 'operator[]' not in short:
            st.settok(args[0], self.canon(I, st, 'tokn', site, args[0]))      # some other content now
        return None

    def close(self, I, st, h, site):
        Pipe.close(self, I, st, h, site)
        if self.g(st, 'h') is None:
            self.s(st, 'staged', None)
            self.s(st, 'lost', None)
            self.putn(st, None)
            self.put(st, 'nW', None)

    def was(self, st, over, how):
        if how == 'failed' and self.g(st, 'h') is not None:
            self.s(st, 'lost', True)

    def between(self, I, st, site):
        self.settle(I, st, site)
        if self.g(st, 'staged') is not None:
            s0 = self.g(st, 'staged')
            self.rep('C31', I, st, site, 'bytes taken from the queue are %s' % ('sent again later' if s0[3] else 'never sent'), 'staged|left')
            self.s(st, 'staged', None)
            self.putn(st, None)
        if self.g(st, 'lost'):
            self.rep('C31', I, st, site, 'the pipe stays open although an operation on it has failed', 'error|open')
            self.s(st, 'lost', None)
        self.s(st, 'did', None)

    def returned(self, I, st, F, val, ctx):
        Pipe.returned(self, I, st, F, val, ctx)
        self.compared(I, st)
        if len(st.frames) != self.depth(st) + 1 or not F.short.startswith('NamedPipe::'):
            return
        self.settle(I, st, '%s:%d (%s)' % (I.relfile(F), F.line, F.short))
        did = self.act(st)
        self.s(st, 'did', None)
        m = F.short.split('::')[-1].split('[')[0]
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        fr = st.frames[-1]
        if m == 'write':
            self.ob('C31', '%s: exactly the given bytes are queued' % F.short, 'queued')
            if len(did) != 1 or did[0][0] != 'append' or did[0][2] is not fr.env[1] or did[0][3] is not fr.env[2]:
                self.rep('C31', I, st, site, 'write() does not queue exactly the given bytes', 'method|write')
            return
        takes = [x for x in did if x[0] in ('take', 'all')]
        removed = [x for x in did if x[0] in ('erase', 'clear', 'set')]
        other = [x for x in did if x not in takes and x not in removed]
        if not did:
            return
        self.ob('C31', '%s: what is removed from the queue is what is handed out' % F.short, 'handed')
        bad = None
        if other or len(takes) > 1 or len(removed) > 1:
            bad = 'changes the queue unexpectedly (%s)' % ', '.join(x[0] for x in did)
        elif removed and not takes:
            bad = 'removes bytes from the queue that it does not hand out'
        elif removed and did.index(removed[0]) < did.index(takes[0]):
            bad = 'removes bytes from the queue before handing them out'
        elif removed:
            t, e = takes[0], removed[0]
            if t[1] is not e[1]:
                bad = 'hands out bytes of one queue and removes bytes of another'
            elif t[0] == 'all' and e[0] != 'clear':
                bad = 'hands out the whole queue but does not clear it'
            elif t[0] == 'take' and e[0] == 'clear':
                if not self.same(st, t[2], mk('pure', 'size', st.tok(t[1]))):
                    bad = 'clears the queue although it hands out only a part'
            elif t[0] == 'take' and e[0] == 'erase':
                if st.truth(icmp('eq', e[2], ZERO, 64)) is not True or not self.same(st, t[2], e[3]):
                    bad = 'hands out %s bytes and removes %s' % (ai.show(t[2]) if t[2] is not None else '?', ai.show(e[3]) if e[3] is not None else '?')
        elif m != 'peek':
            bad = 'hands out bytes without removing them from the queue'
        t = takes[0] if takes else None
        if not bad and t and t[0] == 'take' and F.ret not in ('v',) and val is not None and not F.sret:
            if not self.same(st, t[2], val):
                bad = 'hands out %s bytes and returns %s' % (ai.show(t[2]) if t[2] is not None else '?', ai.show(val))
            elif t[3] is not fr.env[1]:
                bad = 'hands out bytes to %s instead of the caller\'s buffer' % ai.show(t[3])
            else:
                L = lin.Lin(st)
                if not L.le(t[2], fr.env[2]):
                    bad = 'hands out more bytes than the caller has room for'
        if bad:
            self.rep('C31', I, st, site, '%s %s' % (F.short, bad), 'method|%s' % m)

    def finish(self, I, st, val):
        pass


def _addr(a):
    r = [a]
    while True:
        x = r[-1]
        if x.k in ('A', 'gepv'):
            r.append(x.a[0])
        else:
            return r


def check():
    c = core.Check('C31', 'bytes copied from a queue = bytes removed = bytes written; bytes received = bytes queued = bytes handed out; nothing exceeds the transfer buffer')
    p = core.program('agent-pipe')
    c.run([('agent-pipe', core.fn(p, 'vp_queue'), C31, {})])
    for k in ('copies', 'changes', 'reads', 'writes', 'completed-R', 'completed-W', 'queued', 'handed'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the life of a pipe' % k)
    return c.finish('Every history of calls of one agent pipe, with every outcome of every operation.', 10)
