"""The message layer seen from both ends: which fields are written and read, in which order, and what they stand for."""
import ai
import core
from ai import A, C, ZERO, icmp, mk, split, contains

GH = mk('ghost')


def inloop(p, F, iid, _memo={}):
    """Is this instruction in a loop of its function?"""
    f = p.raw['funcs'][F.name]
    key = (id(p), F.name)
    m = _memo.get(key)
    if m is None:
        n = len(f['blocks'])
        succ = [list(p.succs(b)) for b in f['blocks']]
        cyc = set()
        for b in range(n):
            seen, work = set(), list(succ[b])
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                work += succ[x]
            if b in seen:
                cyc.add(b)
        m = _memo[key] = {i[0]: bi in cyc for bi, b in enumerate(f['blocks']) for i in b}
    return m.get(iid, False)


def kind_of(short, dem):
    m = short.rsplit('::', 1)[-1]
    m = m.split("<")[0].split("[")[0]
    for k, v in (('Int32', 'i32'), ('Int64', 'i64'), ('WString', 'str')):
        if m in ('put' + k, 'get' + k):
            return v
    return None


class MsgMon(core.Mon):
    """mon: sorted (key, value); 'seq' = tuple of items (dir, kind, value, star)."""
    std_throws = False
    init = ()
    EXTRA = ()
    key_kinds = ()

    def __init__(self):
        self.records = []

    def output(self):
        return self.records

    def g(self, st, k, d=()):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        st.mon = tuple(sorted([x for x in st.mon if x[0] != k] + ([(k, v)] if v or v == 0 and v is not False else []), key=lambda x: x[0]))

    def ghost(self, st):
        c = st.mem.get((GH, 0))
        return c[1] if c else ZERO

    def setghost(self, st, v):
        st.store(GH, v, 4)

    def item(self, I, st, d, kind, val, site):
        seq = self.g(st, 'seq')
        fr = st.frames[-1]
        loop = any(inloop(I.prog, f.fn, (site.iid if f is fr else f.ins[0])) for f in st.frames[-3:] if f is fr or f.ins is not None) and kind != 'raw'
        if loop:
            gh = self.ghost(st)
            cnts = [x[2] for x in seq if x[1] == 'i32' and not x[3] and x[0] == d]
            if seq and seq[-1][3] and seq[-1][0] == d and seq[-1][1] == kind:
                pass
            else:
                seq = seq + ((d, kind, None, True),)
            self.s(st, 'seq', seq)
            if cnts and st.truth(icmp('slt', gh, cnts[-1], 32)) is not True and st.truth(icmp('ult', gh, cnts[-1], 32)) is not True:
                self.s(st, 'unbounded', True)
            self.setghost(st, ai.binop('add', 32, gh, C(1)))
            return mk('fld', len(seq) - 1, '*')
        self.setghost(st, ZERO)
        n = len([x for x in seq if x[0] == d])
        v = val if d == 'put' else mk('fld', n, kind)
        self.s(st, 'seq', seq + ((d, kind, v, False),))
        return v

    def start(self, st, I):
        self.setghost(st, ZERO)

    def call(self, I, st, name, short, args, site):
        if short.startswith('WriteBuffer::') or short.startswith('ReadBuffer::'):
            dem = I.prog.dem(name)
            d = 'put' if short.startswith('W') else 'get'
            k = kind_of(short, dem)
            meth = short.split("::", 1)[1].split("<")[0].split("[")[0]
            F = I.prog.fns.get(name)
            if k:
                if d == 'put':
                    v = args[1]
                    self.grow(I, st, args[0])
                    if k == 'str':
                        v = self.strval(I, st, args[1])
                    else:
                        v = st.known(v)
                    self.item(I, st, d, k, v, site)
                    return ('ret', ZERO)
                if F is not None and F.sret:
                    v = self.item(I, st, d, k, None, site)
                    st.settok(args[0], v)
                    return ('ret', ZERO)
                return ('ret', self.item(I, st, d, k, None, site))
            if meth in ('putRawData', 'getRawData'):
                n = st.known(args[2])
                if d == 'put':
                    self.grow(I, st, args[0])
                self.item(I, st, d, 'raw', n, site)
                if d == 'get':
                    I.havoc_arg(st, args[1], st.frames[-1].fn and site_ins(I, st, site))
                return ('ret', ZERO)
            if meth == 'assertEof':
                self.eof(I, st, site)
                return ('ret', ZERO)
            if meth == 'replaceRawData':
                self.replaced(I, st, args, site)
                return ('ret', ZERO)
        return self.other(I, st, name, short, args, site)

    def grow(self, I, st, a):
        st.settok(a, mk('cons', mk('buf'), a, C(len(self.g(st, 'seq'))), self.ghost(st)))

    def framed(self, I, st, data, size, site):
        """What is sent is the whole buffer, and its first eight bytes hold its size."""
        db, do = split(data)
        if db.k != 'elem':
            return
        F = self.F
        self.oblige('%s: the whole message is sent' % I.where(site))
        hdr = self.g(st, 'hdr')
        if size.k == 'E' and size.a[0] == 'trunc':
            size = size.a[2]
        if not hdr or hdr[0] is not ZERO or hdr[2] is not C(8):
            I.report(st, site, 'a message is sent without its length in the first eight bytes', '%s|noframe' % F.short)
            return
        raw = [x for x in self.g(st, 'seq') if x[0] == 'put' and x[1] not in ('send',)]
        if raw and (raw[0][1] != 'raw' or raw[0][2] is not C(8)):
            I.report(st, site, 'a message does not start with room for its length', '%s|header' % F.short)
        if size is not hdr[1]:
            I.report(st, site, 'the length announced in the message (%s) is not the number of bytes sent (%s)' % (ai.show(hdr[1]), ai.show(size)), '%s|framelen' % F.short)
        if do != 0 or db.a[1:] and db.a[1] not in (0, ZERO):
            I.report(st, site, 'the bytes sent do not start at the beginning of the message', '%s|framestart' % F.short)

    def other(self, I, st, name, short, args, site):
        return None

    def replaced(self, I, st, args, site):
        self.s(st, 'hdr', (st.known(args[1]), st.load(I.prog, args[2], 8, 64), st.known(args[3])))

    def eof(self, I, st, site):
        seq = self.g(st, 'seq')
        self.s(st, 'seq', seq + (('get', 'eof', None, False),))

    def strval(self, I, st, a):
        b, o = split(a)
        if a.k == 'elem':
            return st.tok(a.a[0])
        return st.tok(a)

    def part(self, I, st):
        return self.rel(st)

    def rel(self, st):
        seq = self.g(st, 'seq')
        if not seq or not (seq[-1][3] or seq[-1][1] == 'i32'):
            return None
        cnt = [x[2] for x in seq if x[0] == seq[-1][0] and x[1] == 'i32' and not x[3]]
        return (st.truth(icmp('slt', self.ghost(st), cnt[-1], 32)), st.truth(icmp('ult', self.ghost(st), cnt[-1], 32))) if cnt else None

    # -- relations
    def counted(self, st, d):
        """(the count field, is the number of repeated fields known to reach it?, exit condition mentions the counter)"""
        seq = self.g(st, 'seq')
        fields = [x for x in seq if x[0] == d and x[1] not in ('eof', 'raw')]
        star = bool(fields) and fields[-1][3]
        cnt = [x[2] for x in fields if x[1] == 'i32' and not x[3]]
        if not cnt:
            return None
        gh = self.ghost(st)
        t = st.truth(icmp('slt', gh, cnt[-1], 32))
        u = st.truth(icmp('ult', gh, cnt[-1], 32))
        return (star, t is False or u is False, not self.g(st, 'unbounded', False))

    def shape(self, st, d):
        return tuple((x[1] + '*' if x[3] else x[1]) for x in self.g(st, 'seq') if x[0] == d)


def site_ins(I, st, site):
    return (site.iid,)


def origins(st, v, src=None, p=None):
    """Indexes of the received fields a value comes from."""
    r = set()
    if v is None:
        return r
    seen = set()
    work = [v]
    while work:
        x = work.pop()
        if x in seen or type(x) is not ai.V:
            continue
        seen.add(x)
        if x.k == 'fld':
            r.add(x.a[0])
            continue
        if src and (x.k in ('join', 'old') or x in src):
            y = x.a[0] if x.k == 'old' else x
            work += [z for z in src.get(y, ()) if z not in seen]
            continue
        if x.k == 'elem':
            work.append(st.tok(x.a[0]))
        for y in x.a:
            if type(y) is ai.V:
                work.append(y)
            elif type(y) is tuple:
                work += [z for z in y if type(z) is ai.V]
    return r
