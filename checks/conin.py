"""The agent's input side: any history of received input and timeouts (C24, C25)."""
import ai
import core
from ai import A, C, ZERO, icmp, mk, split

KEYMSG = ('SendMessageW', 'SendMessageA', 'PostMessageW', 'PostMessageA', 'SendNotifyMessageW', 'SendInput')
GROW = ('push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'assign', 'operator=')
QUERY = ('size', 'length', 'empty')


class Input(core.Mon):
    """mon: 'r:<vector>' (pending, written), 'q' (empty, nonempty), 'dec' (the queue was decoded since it grew), 'out' (a request is unanswered)."""
    std_throws = False
    init = ()
    only = None
    interest = staticmethod(lambda n, sh: n in KEYMSG + ('WriteConsoleInputW', 'GenerateConsoleCtrlEvent') or sh.endswith('::sendDsr') or 'INPUT_RECORD' in n)

    g = lambda self, st, k, d=None: dict(st.mon).get(k, d)

    def s(self, st, k, v):
        d = dict(st.mon)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        st.mon = tuple(sorted(d.items(), key=lambda x: x[0]))

    def start(self, st, I):
        self.vec = {}
        m = [(o, size) for nm, o, size, ty, sub in I.prog.classes['ConsoleInput']['m'] if sub.startswith('std::__cxx11::basic_string<char,')]
        if len(m) != 1:
            raise core.Broken('no byte queue in ConsoleInput')
        self.queue = m[0][0]
        self.flags = [o for nm, o, size, ty, sub in I.prog.classes['ConsoleInput']['m'] if size == 1]
        self.ci = None

    def ob(self, prop, msg, cnt):
        if self.only == prop:
            self.oblige(msg)
            self.count(cnt)

    def rep(self, prop, I, st, site, msg, key):
        if self.only == prop:
            I.report(st, site, msg, key)

    def part(self, I, st):
        r = []
        if self.ci is not None and self.only == 'C24':
            for o in self.flags:
                c = st.mem.get((self.ci, o))
                r.append(c[1] if c and c[1].k == 'c' else None)
        return tuple(r)

    def walk(self, I, F):
        if F.repo and F.short.startswith(('ConsoleInput::', 'vp_')):
            return True
        return None

    def vkey(self, p):
        if p not in self.vec:
            self.vec[p] = 'r:%d' % len(self.vec)
        return self.vec[p]

    def call(self, I, st, name, short, args, site):
        w = I.where(site)
        c, _, m = short.rpartition('::')
        if short == 'ConsoleInput::ConsoleInput' and self.ci is None:
            self.ci = split(args[0])[0]
        d = I.prog.dem(name) if name.startswith('_Z') else ''
        if 'std::vector<_INPUT_RECORD' in d.split('(')[0] and args:
            return self.vector(I, st, m.split('[')[0], args, site)
        if self.ci is not None and args and args[0] is A(self.ci, self.queue) and 'basic_string<char' in d.split('(')[0]:
            return self.bytes_(I, st, m.split('[')[0], args, site)
        if name == 'WriteConsoleInputW':
            self.written(I, st, args, site)
            return None
        if name in KEYMSG or name == 'GenerateConsoleCtrlEvent':
            self.ob('C25', '%s: a key is delivered past the input queue' % w, 'direct')
            if any(v == 'pending' for k, v in st.mon if k.startswith('r:')):
                self.rep('C25', I, st, site, 'a key or an interrupt is delivered before input that was decoded earlier', 'order|' + name)
            return None
        if m == 'sendDsr' or m.startswith('sendDsr'):
            self.dsr(I, st, site)
            return ('ret', ZERO)
        if short.split('(')[0] == 'matchDsr':
            v = I.fresh(st, 'call', 0, site[3], 'matchDsr')
            st.store(args[0], st.load(I.prog, args[0], 1, 8), 1) if False else None

            def yes(s):
                if not s.assume(icmp('slt', ZERO, v, 32), True):
                    return False
                self.s(s, 'out', None)

            def no(s):
                return s.assume(icmp('slt', ZERO, v, 32), False)
            return ('fork', [(v, yes), (v, no)])
        if name == 'vp_between':
            self.between(I, st, site)
            return ('ret', ZERO)
        return None

    # ---- the list of decoded events
    def vector(self, I, st, m, args, site):
        k = self.vkey(args[0])
        v = self.g(st, k)
        w = I.where(site)
        if m in QUERY:
            if v is None:
                return ('ret', C(1 if m == 'empty' else 0))
            if m == 'empty':
                return ('ret', ZERO)
            n = I.fresh(st, 'call', 0, site[3], 'count', k)
            st.assume(icmp('eq', n, ZERO, 64), False)
            st.assume(icmp('eq', ai.cast('trunc', 32, n, 64), ZERO, 32), False)
            return ('ret', n)
        if m in ('data', 'begin', 'cbegin', 'front', 'operator'):
            return ('ret', mk('pure', 'records', C(self.vec[args[0]].__hash__() & 0xffff) if False else args[0]))
        if m in GROW:
            self.ob('C25', '%s: an input event is queued' % w, 'event')
            if v == 'written':
                self.rep('C25', I, st, site, 'events are added to a list that was delivered but not cleared: they would be delivered twice', 'twice')
            self.s(st, k, 'pending')
            return ('ret', I.fresh(st, 'call', 0, site[3], m))
        if m in ('clear', 'vector', '~vector', 'swap'):
            if v == 'pending' and m != 'vector':
                self.rep('C25', I, st, site, 'decoded input is dropped: its events are discarded before they are written to the console', 'dropped')
            self.s(st, k, None)
            return ('ret', ZERO)
        return ('ret', I.fresh(st, 'call', 0, site[3], m))

    def written(self, I, st, args, site):
        w = I.where(site)
        self.ob('C25', '%s: events are written to the console' % w, 'write')
        b = args[1]
        if not (b.k == 'pure' and b.a[0] == 'records'):
            return                     # not the decoded input (the agent's own size event)
        k = self.vkey(b.a[1])
        v = self.g(st, k)
        if v == 'written':
            self.rep('C25', I, st, site, 'events are written to the console twice', 'twice')
        n = args[2]
        if not ai.contains(n, lambda x: x.k == 'call' and x.a[-2:] == ('count', k)) or n.k == 'E' and n.a[0] not in ('trunc', 'zext'):
            self.rep('C25', I, st, site, 'the number of events written to the console is not the number of decoded events', 'count')
        self.s(st, k, 'written')

    # ---- the bytes not decoded yet
    def bytes_(self, I, st, m, args, site):
        q = self.g(st, 'q')
        if m in QUERY:
            if q is None:
                n = I.fresh(st, 'call', 0, site[3], 'bytes')

                def some(s):
                    self.s(s, 'q', 'nonempty')
                    return s.assume(icmp('eq', n, ZERO, 64), False)

                def none(s):
                    self.s(s, 'q', 'empty')
                if m == 'empty':
                    return ('fork', [(C(0), lambda s: self.s(s, 'q', 'nonempty')), (C(1), none)])
                return ('fork', [(n, some), (ZERO, none)])
            if m == 'empty':
                return ('ret', C(1 if q == 'empty' else 0))
            if q == 'empty':
                return ('ret', ZERO)
            n = I.fresh(st, 'call', 0, site[3], 'bytes')
            st.assume(icmp('eq', n, ZERO, 64), False)
            return ('ret', n)
        if m in ('data', 'c_str', 'operator', 'at', 'begin', 'end', 'front', 'back', 'find', 'substr', 'compare'):
            if m in ('substr',):
                return None
            return ('ret', I.fresh(st, 'call', 0, site[3], 'chars'))
        if m in ('append', 'operator+=', 'push_back', 'insert'):
            self.s(st, 'q', None)
            self.s(st, 'dec', None)
        elif m == 'clear':
            self.s(st, 'q', 'empty')
            self.s(st, 'dec', True)
        elif m in ('basic_string', '~basic_string'):
            self.s(st, 'q', 'empty')
        else:
            self.s(st, 'q', None)
            self.s(st, 'dec', True)
        return ('ret', args[0])

    # ---- status requests
    def dsr(self, I, st, site):
        w = I.where(site)
        self.ob('C24', '%s: a status request is sent' % w, 'dsr')
        if self.g(st, 'out'):
            self.rep('C24', I, st, site, 'a status request is sent while an earlier one is unanswered', 'second')
        if self.g(st, 'q') != 'nonempty' or not self.g(st, 'dec'):
            self.rep('C24', I, st, site, 'a status request is sent although no undecodable input is known to be waiting', 'needless')
        self.s(st, 'out', True)

    def returned(self, I, st, F, val, ctx):
        if F.short != 'ConsoleInput::writeInput' or not self.g(st, 'dec') or self.g(st, 'q') == 'empty':
            return
        self.ob('C24', 'undecodable input is waiting', 'waiting')
        if not self.g(st, 'out'):
            self.rep('C24', I, st, '%s:%d (%s)' % (I.relfile(F), F.line, F.short), 'undecodable input is waiting and no status request is outstanding, but none is sent', 'missing')

    def between(self, I, st, site):
        self.ob('C25', 'input processing returns', 'between')
        if any(v == 'pending' for k, v in st.mon if k.startswith('r:')):
            self.rep('C25', I, st, site, 'input processing returns with decoded input that was not written to the console', 'pending')
        self.s(st, 'dec', None)
        self.s(st, 'q', None)
