"""What the agent writes to a terminal: any history of the Terminal class (C19, C21)."""
import re
import ai
import core
from ai import A, C, ZERO, icmp, mk, split

CLEAN = ('T', '', False)          # (inside an escape sequence?, what is wrong with it, private modes set and reset)
DEC = re.compile('\x1b\\[\\?([0-9;]+)([hl])')


class Term(core.Mon):
    """mon: 't:<string>' what a string contains, 'b:<array>' the worst byte stored in a local array, 'f:<array>' the format printed to it,
    'modes' (mouse modes switched on), 'hidden' (the cursor)."""
    std_throws = False
    init = ()
    conf = None
    only = None
    interest = core.calls('NamedPipe::write')

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        r = [x for x in st.mon if x[0] != k]
        if v is not None:
            r.append((k, v))
            r.sort(key=lambda x: x[0])
        st.mon = tuple(r)

    def start(self, st, I):
        self.names = {}
        self.term = None
        self.flags = [o for nm, o, size, ty, sub in I.prog.classes['Terminal']['m'] if size == 1]
        self.conf = I.prog.fns and st.frames[0].fn.name

    def part(self, I, st):
        r = []
        live = {f.ctx for f in st.frames}
        dead = {k for (_, p), k in self.names.items() if split(p)[0].k == 'L' and split(p)[0].a[0] not in live}
        if any(k in dead for k, v in st.mon):
            st.mon = tuple(x for x in st.mon if x[0] not in dead)
        if self.term is not None and self.only == 'C21':
            for o in self.flags:
                c = st.mem.get((self.term, o))
                r.append(c[1] if c and c[1].k == 'c' else None)
        return tuple(r)

    def walk(self, I, F):
        if not F.repo:
            return None
        if self.only == 'C21':
            return F.name in I.rel or F.short.startswith(('Terminal::', 'vp_'))
        return False if F.short.startswith('NamedPipe::') or F.short.split('(')[0].split('[')[0] in ai.DEFAULT_OPAQUE else True

    def name(self, kind, p):
        k = (kind, p)
        if k not in self.names:
            self.names[k] = '%s:%d' % (kind, sum(1 for x in self.names if x[0] == kind))
        return self.names[k]

    def rep(self, prop, I, st, site, msg, key):
        if self.only == prop:
            I.report(st, site, msg, key)

    def ob(self, prop, msg, cnt):
        if self.only == prop:
            self.oblige(msg)
            self.count(cnt)

    # ---- bytes
    def ne(self, I, st, v, c):
        """The byte v is provably not c."""
        if v.k == 'c':
            return v.a[0] & 255 != c
        if st.truth(icmp('eq', v, C(c), 8)) is False:
            return True
        if v.k == 'E' and v.a[0] == 'trunc' and type(v.a[3]) is int:
            lo, hi = st.range(v.a[2], v.a[3])
            if 0 <= lo and hi <= 255 and (c < lo or c > hi):
                return True
            x, w = v.a[2], v.a[3]
            while True:
                if st.truth(icmp('eq', x, C(c), w)) is False and (0 <= lo and hi <= 255 or st.truth(icmp('ult', x, C(256), w)) or st.truth(icmp('ult', x, C(128), w))):
                    return True
                if x.k == 'E' and x.a[0] in ('zext', 'sext', 'trunc') and type(x.a[3]) is int:
                    x, w = x.a[2], x.a[3]
                else:
                    break
        return False

    def source(self, v):
        """The local array a byte was loaded from."""
        if v.k == 'join' and v.a[0] == 'm' or v.k == 'ld':
            for a in v.a:
                while type(a) is ai.V and a.k in ('gepv', 'A'):
                    a = a.a[0]
                if type(a) is ai.V and a.k == 'L' and ('b', a) in self.names:
                    return a
        return None

    def kind(self, I, st, v):
        """'d' a digit (or the end of the text), 'c' some other character that is no escape, 'x' unknown."""
        if v.k == 'c':
            n = v.a[0] & 255
            return 'd' if n == 0 or 48 <= n <= 57 else 'x' if n == 27 else 'c'
        x, w = v, 8
        if v.k == 'E' and v.a[0] == 'trunc' and type(v.a[3]) is int:
            x, w = v.a[2], v.a[3]
        b = self.source(v)
        if b is not None:
            return {'a': 'd', 'c': 'c'}.get(self.g(st, self.name('b', b)), 'x')
        lo, hi = st.range(x, w)
        if 48 <= lo and hi <= 57:
            return 'd'
        return 'c' if self.ne(I, st, v, 27) else 'x'

    def stored(self, I, st, p, val, size, site):
        b, o = split(p)
        if self.only != 'C19':
            return
        if b.k == 'join':
            b = mk('L', b.a[0], -1, 'joined')
        if size == 1 and b.k == 'L':
            k = self.name('b', b)
            f = self.g(st, self.name('f', b))
            if f is not None and val.k == 'c' and val.a[0] & 255 == 0:
                return
            n = max(self.g(st, k, 'a'), {'d': 'a', 'c': 'c', 'x': 'x'}[self.kind(I, st, val)])
            if f is not None:
                t = self.format(CLEAN, f)
                n = max(n, 'x' if t[1] == 'raw' or '\x1b' in f else 'c' if f else 'a')
                self.s(st, self.name('f', b), None)
            self.s(st, k, n)

    def memcpy(self, I, st, args, site):
        b, o = split(args[0])
        if self.only != 'C19' or b.k != 'L':
            return
        s = self.lit(I, args[1])
        if s is not None and o == 0:
            self.s(st, self.name('b', b), None)
            self.s(st, self.name('f', b), s.split('\0')[0].replace('%', '%%'))
        elif s is None and ('b', b) in self.names:
            t = self.bytes_(I, st, CLEAN, args[1])
            self.s(st, self.name('b', b), max(self.g(st, self.name('b', b), 'a'), 'x' if t[1] else 'c'))
            self.s(st, self.name('f', b), None)

    # ---- strings
    def text(self, t, s):
        """Append known text to what a string contains."""
        state, bad, ops = t
        for ch in s:
            if ch == '\x1b':
                bad = max(bad, 'esc') if bad != 'raw' else bad
                state = 'E'
            elif state == 'E':
                state = 'S' if ch == '[' else 'T'
                if ch != '[' and bad in ('', 'esc'):
                    bad = 'seq'
            elif state == 'S' and not (ch.isdigit() or ch == ';'):
                if ch != 'm' and bad in ('', 'esc'):
                    bad = 'seq'
                state = 'T'
        m = tuple(DEC.findall(s))
        if m:
            ops = (ops or ()) + m
        return state, bad, ops

    def raw(self, t, kind):
        state, bad, ops = t
        if kind == 'x':
            return state, 'raw', ops
        if kind == 'c' and state != 'T':
            return 'T', bad if bad == 'raw' else 'seq', ops
        return t

    def bytes_(self, I, st, t, p, n=None):
        """Append the text at p."""
        s = self.lit(I, p)
        if s is not None:
            if n is None:
                return self.text(t, s)
            return self.text(t, s[:n.a[0]]) if n.k == 'c' else self.raw(self.text(t, s), 'c')
        b, o = split(p)
        f = self.g(st, self.name('f', b))
        if f is not None:
            return self.format(t, f)
        k = None
        if b.k == 'L':
            k = self.g(st, self.name('b', b))
        elif b.k == 'join' and self.g(st, self.name('b', mk('L', b.a[0], -1, 'joined'))):
            own = [self.g(st, n) for (kind, q), n in self.names.items() if kind == 'b' and q.k == 'L' and q.a[0] == b.a[0]]
            k = max(x for x in own if x)
        return self.raw(t, {'a': 'd', 'c': 'c'}.get(k, 'x'))

    def format(self, t, f):
        for i, piece in enumerate(re.split('(%[-+ 0-9.]*(?:l|ll|I64|z)?[a-zA-Z%])', f)):
            if i % 2 == 0:
                t = self.text(t, piece)
            elif piece[-1] in 'du':
                t = self.raw(t, 'd')
            elif piece == '%%':
                t = self.text(t, '%')
            else:
                t = self.raw(t, 'x')
        return t

    def lit(self, I, p):
        s = I.prog.literal(p)
        if s is None:
            return None
        return s if type(s) is str else bytes(s).decode('latin-1')

    def call(self, I, st, name, short, args, site):
        c, _, m = short.rpartition('::')
        if short == 'Terminal::Terminal' and self.term is None:
            self.term = split(args[0])[0]
        if short == 'NamedPipe::write' or (c == 'NamedPipe' and m.startswith('write')):
            self.written(I, st, args, site)
            return ('ret', ZERO)
        if 'snprintf' in name or 'snprintf' in short:
            fs = [self.lit(I, a) for a in args if a.k == 'g' or a.k == 'A']
            fs = [x for x in fs if x is not None]
            b = split(args[0])[0]
            st.havoc_base(b, I.fresh(st, 'hv', 0, site[3], 'snprintf')) if b.k == 'L' else None
            self.s(st, self.name('b', b), None)
            self.s(st, self.name('f', b), fs[0] if fs else '%s')
            return ('ret', I.fresh(st, 'call', 0, site[3], 'snprintf'))
        if self.only == 'C19' and args and name.startswith('_Z') and 'basic_string<char,' in I.prog.dem(name).split('(')[0]:
            return self.string(I, st, m.split('[')[0], args, site, name)
        if name == 'vp_mouse':
            self.mouse(I, st, args, site)
            return ('ret', ZERO)
        if name == 'vp_cursor':
            self.cursor(I, st, args, site)
            return ('ret', ZERO)
        return None

    def string(self, I, st, m, args, site, name):
        d = I.prog.dem(name)
        k = self.name('t', args[0])
        t = self.g(st, k, CLEAN)
        sig = d[d.rindex('('):] if '(' in d else ''
        sig = d[len(d.rsplit('(', 1)[0]):]
        if m in ('clear',):
            self.s(st, k, None)
            return None
        if m in ('size', 'length', 'empty', 'c_str', 'data', 'capacity', 'begin', 'end', 'cbegin', 'cend', 'reserve', '~basic_string', 'compare', 'find', 'shrink_to_fit', 'resize', 'erase', 'pop_back', 'back', 'front', 'substr'):
            if m in ('c_str', 'data'):
                return ('ret', mk('pure', 'text', args[0]))
            return None
        if m in ('assign', 'operator=', 'basic_string'):
            t = CLEAN
        if m in ('append', 'push_back', 'operator+=', 'assign', 'operator=', 'basic_string'):
            if len(args) == 1:
                n = t
            elif sig.startswith(('(char const*, char const*', '(char*, char*')):
                n = self.bytes_(I, st, t, args[1], mk('pure', 'some'))
            elif sig.startswith('(char const*, unsigned') and len(args) > 2:
                n = self.bytes_(I, st, t, args[1], st.known(args[2]))
            elif sig.startswith('(char const*'):
                n = self.bytes_(I, st, t, args[1])
            elif sig.startswith('(char)'):
                n = self.text(t, chr(args[1].a[0] & 255)) if args[1].k == 'c' else self.raw(t, self.kind(I, st, args[1]))
            elif sig.startswith('(unsigned') and len(args) > 2:
                n = self.text(t, chr(args[2].a[0] & 255)) if args[2].k == 'c' else self.raw(t, self.kind(I, st, args[2]))
            elif 'basic_string' in sig and len(args) == 2:
                o = self.g(st, self.name('t', args[1]), CLEAN)
                n = (o[0], max(t[1], o[1], key=('', 'esc', 'seq', 'raw').index), ((t[2] or ()) + (o[2] or ())) or False)
            else:
                n = (t[0], 'raw', t[2])
            self.s(st, k, n if n != CLEAN else None)
            return ('ret', args[0]) if m != 'basic_string' else None
        self.s(st, k, (t[0], 'raw', t[2]))
        return None

    # ---- the pipe
    def written(self, I, st, args, site):
        w = I.where(site)
        if args[1].k == 'pure' and args[1].a[0] == 'text':
            t = self.g(st, self.name('t', args[1].a[1]), CLEAN)
        else:
            t = self.bytes_(I, st, CLEAN, args[1], st.known(args[2]) if len(args) > 2 else None)
        self.ob('C19', '%s: text goes to the terminal' % w, 'write')
        if t[1] == 'raw':
            self.rep('C19', I, st, site, 'an escape character from a console cell may be sent to the terminal', 'raw')
        elif self.conf == 'vp_plain' and t[1]:
            self.rep('C19', I, st, site, 'an escape sequence is sent in a plain-output session', 'plain')
        elif self.conf == 'vp_color' and (t[1] == 'seq'):
            self.rep('C19', I, st, site, 'an escape sequence other than a colour is sent in a plain-output session', 'color')
        for nums, how in (t[2] or ()) if self.only == 'C21' else ():
            for n in nums.split(';'):
                self.mode(I, st, int(n), how == 'h', site)

    def mode(self, I, st, n, on, site):
        w = I.where(site)
        if self.conf != 'vp_normal':
            self.rep('C21', I, st, site, 'a terminal mode is changed in a plain-output session', 'plain')
            return
        if n == 25:
            self.ob('C21', '%s: the cursor is %s' % (w, 'shown' if on else 'hidden'), 'show' if on else 'hide')
            if not on and self.g(st, 'hidden'):
                self.rep('C21', I, st, site, 'the cursor is hidden although it is hidden already', 'cursor')
            if on and not self.g(st, 'hidden'):
                self.rep('C21', I, st, site, 'the cursor is shown although it was not hidden', 'cursor')
            self.s(st, 'hidden', None if on else True)
        else:
            modes = self.g(st, 'modes', ())
            self.ob('C21', '%s: mode %d is switched %s' % (w, n, 'on' if on else 'off'), 'on' if on else 'off')
            if on:
                if n in modes:
                    self.rep('C21', I, st, site, 'mode %d is switched on although it is on' % n, 'on')
                modes = tuple(sorted(set(modes) | {n}))
            else:
                if n not in modes and n != 1005:
                    self.rep('C21', I, st, site, 'mode %d is switched off although it was not switched on' % n, 'off')
                modes = tuple(x for x in modes if x != n)
            self.s(st, 'modes', modes or None)

    def mouse(self, I, st, args, site):
        on = args[0].k == 'c' and args[0].a[0] & 1
        modes = self.g(st, 'modes', ())
        self.ob('C21', 'mouse mode has been switched %s' % ('on' if on else 'off'), 'mouse')
        if self.conf == 'vp_normal':
            if on and not modes:
                self.rep('C21', I, st, site, 'mouse mode was requested but is not on', 'lost')
            if not on and modes:
                self.rep('C21', I, st, site, 'after mouse mode was switched off mode %s is still on' % ', '.join(map(str, modes)), 'left')

    def cursor(self, I, st, args, site):
        on = args[0].k == 'c' and args[0].a[0] & 1
        self.ob('C21', 'the cursor has been %s' % ('shown' if on else 'hidden'), 'cursor')
        if self.conf == 'vp_normal':
            if on and self.g(st, 'hidden'):
                self.rep('C21', I, st, site, 'the cursor is to be shown but the terminal was told to hide it', 'hidden')
            if not on and not self.g(st, 'hidden'):
                self.rep('C21', I, st, site, 'the cursor is to be hidden but the terminal was not told', 'shown')
