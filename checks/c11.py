"""Both ends of the protocol read and write the same fields with the same meaning."""
import re
import ai
import core
from ai import A, C, ZERO, icmp, mk, split
from checks.msg import MsgMon, origins
from checks.libio import session_arg

BUF = ('WriteBuffer::putInt32', 'WriteBuffer::putInt64', 'WriteBuffer::putWString', 'ReadBuffer::getInt32', 'ReadBuffer::getInt64', 'ReadBuffer::getWString', 'ReadBuffer::assertEof',
       'WriteBuffer::putRawData', 'ReadBuffer::getRawData')


def vecish(dem):
    return bool(re.match(r'std::vector<wchar_t.*> \w+<wchar_t>\(std::(__cxx11::)?basic_string<wchar_t', dem))


def builder(I, st, name, short, args):
    """String builders as sequences of what was put into them."""
    m = short.split('[')[0]
    if m == 'GStringBuilder::operator<<':
        a = args[1]
        lit = I.prog.literal(a)
        if lit is not None:
            v = mk('lit', str(lit))
        elif name in I.prog.fns and I.prog.fns[name].argt[1] not in ('p', 'ptr'):
            v = a
        else:
            v = mk('fn', 'obj', a, st.tok(a))
        st.settok(args[0], mk('cons', st.tok(args[0]), v))
        return ('ret', args[0])
    if m in ('GStringBuilder::str_moved', 'GStringBuilder::str'):
        st.settok(args[0], st.tok(args[1]))
        return ('ret', ZERO)
    if m in ('GStringBuilder::GStringBuilder',):
        st.settok(args[0], mk('lit', ''))
        return ('ret', ZERO)
    return None


class Lib(MsgMon):
    interest = core.calls(*(BUF + ('WriteFile', 'ReadFile', 'DuplicateHandle', 'CreateProcessW')))

    def start(self, st, I):
        MsgMon.start(self, st, I)
        self.p = I.prog
        self.F = st.frames[0].fn
        self.args = dict(st.frames[0].env)
        if self.F.short == 'winpty_open':
            self.flags0 = st.load(self.p, A(self.args[0], self.p.field('winpty_config_s', 'flags')[0]), 8, 64)

    def part(self, I, st):
        if self.F.short == 'winpty_spawn':
            return tuple(st.truth(icmp('eq', self.args[i], ZERO, 64)) for i in (2, 3, 4)) + (self.rel(st),)
        if self.F.short == 'winpty_open':
            return st.truth(icmp('eq', ai.binop('and', 64, self.flags0, C(1)), ZERO, 64))
        return self.rel(st)

    def other(self, I, st, name, short, args, site):
        if name == 'WriteFile':
            self.framed(I, st, args[1], args[2], site)
            self.s(st, 'seq', self.g(st, 'seq') + (('put', 'send', None, False),))
        elif name == 'DuplicateHandle':
            self.s(st, 'dupsrc', self.g(st, 'dupsrc') + ((args[1], args[3]),))
        elif name == 'CreateProcessW' and self.F.short == 'winpty_open':
            self.s(st, 'cmd', st.tok(args[1].a[0] if args[1].k == 'elem' else args[1]))
            if self.g(st, 'seq'):
                self.s(st, 'seq', ())
        r = builder(I, st, name, short, args)
        if r:
            return r
        dem = I.prog.dem(name)
        if vecish(dem):
            st.settok(args[0], mk('fn', 'vec', st.tok(args[1])))
            return ('ret', ZERO)
        return None

    def after(self, I, st, name, short, args, site, ret):
        if name == 'DuplicateHandle':
            v = st.load(I.prog, args[3], 8, 64)

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.s(s, 'dups', self.g(s, 'dups') + ((v, tuple(sorted(origins(s, args[1])))),))
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        return None

    def eof(self, I, st, site):
        c = self.counted(st, 'get')
        self.s(st, 'cnt', (c,))
        MsgMon.eof(self, I, st, site)

    def finish(self, I, st, val):
        F = self.F
        seq = self.g(st, 'seq')
        if not any(x[1] == 'eof' for x in seq):
            if any(x[0] == 'get' for x in seq) and st.truth(icmp('eq', val, ZERO, F.ret if isinstance(F.ret, int) else 64)) is not True:
                I.report(st, '%s:%d (%s)' % (I.relfile(F), F.line, F.short), '%s succeeds without having consumed its reply to the end' % F.short, '%s|noeof' % F.short)
            return
        names = {}
        rec = {'fn': F.short, 'put': self.shape(st, 'put'), 'get': self.shape(st, 'get'), 'cnt': self.g(st, 'cnt'), 'ok': st.truth(icmp('eq', val, ZERO, 32 if F.ret != 'p' else 64)) is not True}
        puts = [x for x in seq if x[0] == 'put' and x[1] not in ('raw', 'send')]
        p = I.prog
        mean = []
        for _, k, v, star in puts:
            mean.append(self.meaning(st, k, v))
        rec['mean'] = tuple(mean)
        rec['type'] = puts[0][2].a[0] if puts and puts[0][2] is not None and puts[0][2].k == 'c' else None
        gets = [x for x in seq if x[0] == 'get' and x[1] not in ('eof',)]
        if gets and gets[0][1] == 'i32':
            k = st.known(gets[0][2])
            rec['first'] = k.a[0] if k.k == 'c' else None
        if F.short == 'winpty_spawn':
            outs = {}
            for i, nm in ((2, 'process'), (3, 'thread')):
                if st.truth(icmp('eq', self.args[i], ZERO, 64)) is False:
                    v = st.load(p, self.args[i], 8, 64)
                    hit = [o for d, o in self.g(st, 'dups') if d is v]
                    outs[nm] = hit[0] if hit else ('zero' if st.truth(icmp('eq', v, ZERO, 64)) else '?')
            if st.truth(icmp('eq', self.args[4], ZERO, 64)) is False:
                v = st.load(p, self.args[4], 4, 32)
                outs['error'] = tuple(sorted(origins(st, v))) or 'const'
            rec['out'] = tuple(sorted(outs.items()))
        if F.short == 'winpty_open':
            fl = st.load(p, A(self.args[0], p.field('winpty_config_s', 'flags')[0]), 8, 64)
            rec['conerr'] = st.truth(icmp('eq', ai.binop('and', 64, fl, C(1)), ZERO, 64)) is False
            rec['cmd'] = self.operands(self.g(st, 'cmd', None))
            w = {}
            for f in ('coninPipeName', 'conoutPipeName', 'conerrPipeName'):
                o = origins(st, st.tok(A(val, p.field('winpty_s', f)[0])))
                w[f] = tuple(sorted(o))
            rec['names'] = tuple(sorted(w.items()))
        if F.short == 'winpty_get_console_process_list':
            rec['ret'] = tuple(sorted(origins(st, val)))
        self.oblige('%s: fields %s / %s' % (F.short, ' '.join(rec['put']), ' '.join(rec['get'])))
        if rec not in self.records:
            self.records.append(rec)

    def meaning(self, st, k, v):
        p = self.p
        if v is None:
            return '*'
        if self.F.short == 'winpty_spawn':
            cfg, wp = self.args[1], self.args[0]
            if k == 'str':
                for nm in ('appname', 'cmdline', 'cwd', 'env'):
                    if v is st.tok(A(cfg, p.field('winpty_spawn_config_s', nm)[0])):
                        return nm
                if v is st.tok(A(wp, p.field('winpty_s', 'spawnDesktopName')[0])):
                    return 'desktop'
                return '?'
            if v is st.load(p, A(cfg, p.field('winpty_spawn_config_s', 'winptyFlags')[0]), 8, 64):
                return 'flags'
            z = st.truth(icmp('eq', v, ZERO, 32))
            ph, th = (st.truth(icmp('eq', self.args[i], ZERO, 64)) for i in (2, 3))
            return ('want', z, ph, th)
        if self.F.short == 'winpty_set_size':
            if v is self.args[1]:
                return 'cols'
            if v is self.args[2]:
                return 'rows'
        return ('const', v.a[0]) if v.k == 'c' else '?'

    def operands(self, t):
        """The words of the agent's command line: for each the parameter it was built from."""
        if t is None:
            return None
        cfg = self.args[0]
        p = self.p
        offs = {p.field('winpty_config_s', n)[0]: n for n in ('flags', 'mouseMode', 'cols', 'rows')}
        pieces = []

        def go(x):
            if type(x) is not ai.V:
                return
            if x.k == 'lit':
                pieces.append(x.a[0])
            elif x.k == 'fn' and x.a[0] == 'obj':
                if x.a[2].k in ('cons', 'lit') or x.a[2].k == 'fn' and x.a[2].a[0] in ('vec', 'obj'):
                    go(x.a[2])
                else:
                    pieces.append(x)
            elif x.k == 'c' and 0 < x.a[0] < 128:
                pieces.append(chr(x.a[0]))
            elif x.k == 'g':
                l = p.literal(x)
                pieces.append(str(l) if l is not None else x)
            elif x.k in ('cat2', 'cons', 'fn', 'pure'):
                for y in x.a:
                    go(y)
            else:
                pieces.append(x)
        go(t)
        words, cur, q = [], [], False
        for x in pieces:
            if isinstance(x, str):
                for ch in x:
                    if ch == '"':
                        q = not q
                    elif ch == ' ' and not q:
                        if cur:
                            words.append(cur)
                        cur = []
            else:
                cur.append(x)
        if cur:
            words.append(cur)
        out = []
        for w in words:
            hit = set()

            def find(x):
                if type(x) is not ai.V:
                    return
                if x.k == 'ld' and x.a[0] is cfg and x.a[1] in offs:
                    hit.add(offs[x.a[1]])
                for y in x.a:
                    find(y)
            for x in w:
                find(x)
            out.append(tuple(sorted(hit)))
        return tuple(out)


class Setup(MsgMon):
    """The agent's start: which command line operand ends up where, and the message with the pipe names."""
    interest = core.calls(*(BUF + ('NamedPipe::write', 'Terminal::Terminal', 'Scraper::Scraper', 'ConsoleInput::ConsoleInput', 'NamedPipe::openServerPipe', 'NamedPipe::connectToServer')))
    opaque = ('Win32Console::setTitle', 'Scraper::scrapeBuffer')
    small = 60

    def start(self, st, I):
        MsgMon.start(self, st, I)
        self.p = I.prog
        self.F = st.frames[0].fn
        env = st.frames[0].env
        for i in range(1, self.F.nargs):
            env[i] = mk('fld', i, 'arg')
        self.flags0 = env[2]

    def part(self, I, st):
        return st.truth(icmp('eq', ai.binop('and', 64, self.flags0, C(1)), ZERO, 64))

    def o(self, I, st, v):
        return tuple(sorted(origins(st, v, I.src, I.prog)))

    def other(self, I, st, name, short, args, site):
        if short == 'NamedPipe::write' and len(args) > 2:
            self.framed(I, st, args[1], args[2], site)
            self.s(st, 'seq', self.g(st, 'seq') + (('put', 'send', None, False),))
            return ('ret', ZERO)
        if short == 'Terminal::Terminal' and len(args) > 3:
            self.s(st, 'term', (self.o(I, st, args[2]), masks(args[2], I.src), self.o(I, st, args[3]), masks(args[3], I.src)))
        if short == 'Scraper::Scraper':
            for a in args[1:]:
                if a.k == 'L' or a.k == 'ptr' or ai.isptr(a):
                    o = tuple(self.o(I, st, st.load(I.prog, A(a, d), 2, 16)) for d in (0, 2))
                    if o[0] and o[1]:
                        self.s(st, 'size', o)
        if short == 'ConsoleInput::ConsoleInput' and len(args) > 2:
            self.s(st, 'mouse', self.o(I, st, args[2]))
        if short == 'NamedPipe::openServerPipe' and len(args) > 2:
            d = st.known(args[2])
            self.s(st, 'servers', self.g(st, 'servers') + ((args[0], d.a[0] if d.k == 'c' else None),))
        if short == 'NamedPipe::connectToServer':
            self.s(st, 'control', self.o(I, st, st.tok(args[1])) + self.o(I, st, args[1]))
        return None

    def finish(self, I, st, val):
        puts = [x for x in self.g(st, 'seq') if x[0] == 'put' and x[1] not in ('raw', 'send')]
        th = st.frames[0].env[0]
        offs = tuple(tuple(sorted(k[1] for k, c in st.mem.items() if k[0] is th and c[1] is pp and type(k[1]) is int)) for pp, d in self.g(st, 'servers'))
        rec = {'offs': offs, 'put': self.shape(st, 'put'), 'conerr': st.truth(icmp('eq', ai.binop('and', 64, self.flags0, C(1)), ZERO, 64)) is False,
               'term': self.g(st, 'term'), 'size': self.g(st, 'size'), 'mouse': self.g(st, 'mouse'), 'control': self.g(st, 'control'),
               'dirs': tuple(d for _, d in self.g(st, 'servers'))}
        order = []
        for x in puts:
            v = x[2]
            hit = [i for i, (pp, d) in enumerate(self.g(st, 'servers')) if v is not None and v is st.tok(A(pp, I.prog.field('NamedPipe', 'm_name')[0]))]
            order.append(hit[0] if len(hit) == 1 else None)
        rec['order'] = tuple(order)
        self.oblige('Agent::Agent: setup message %s' % ' '.join(rec['put']))
        if rec not in self.records:
            self.records.append(rec)


class Main(core.Mon):
    std_throws = False
    interest = core.calls('Agent::Agent', 'CommandLineToArgvW')
    opaque = ('Agent::run', 'handleCreateDesktop', 'debugShowInput')
    init = ()

    def __init__(self):
        self.records = []
        self.argv = set()

    def output(self):
        return self.records

    def call(self, I, st, name, short, args, site):
        if short == 'Agent::Agent':
            self.records.append(tuple(tuple(sorted(argvs(st, a, self.argv))) for a in args[1:]))
            self.oblige('%s: operands of the agent' % I.where(site))
            return ('ret', ZERO)
        m = short.split('[')[0]
        if m in ('utf8FromWide',):
            st.settok(args[0], mk('fn', 'u8', st.tok(args[1]), args[1]))
            return ('ret', ZERO)
        if m in ('winpty_atoi64', 'atoi', 'strtol', 'strtoll', 'atol', 'atoll', '_wtoi', 'wcstol', 'wcstoll', '_wtoi64'):
            return ('ret', mk('fn', m, args[0], st.tok(args[0].a[0]) if args[0].k == 'elem' else ZERO))
        return None

    def after(self, I, st, name, short, args, site, ret):
        if name == 'CommandLineToArgvW':
            self.argv.add(ret)
        return None


def argvs(st, v, base):
    r, seen, work = set(), set(), [v]
    while work:
        x = work.pop()
        if type(x) is not ai.V or x in seen:
            continue
        seen.add(x)
        if x.k == 'ld' and x.a[0] in base:
            r.add(x.a[1] // 8)
            continue
        if x.k == 'elem':
            work.append(st.tok(x.a[0]))
        work += [y for y in x.a if type(y) is ai.V]
    return r


class Agent(MsgMon):
    interest = core.calls(*(BUF + ('NamedPipe::write', 'CreateProcessW', 'Coord::Coord', 'GetConsoleProcessList', 'Agent::writePacket')))
    opaque = ('Scraper::resizeWindow', 'ConsoleInput::setMouseWindowRect', 'Win32Console::setFrozen', 'Scraper::scrapeBuffer')
    small = 60

    def start(self, st, I):
        MsgMon.start(self, st, I)
        self.p = I.prog
        self.F = st.frames[0].fn

    def other(self, I, st, name, short, args, site):
        if short == 'NamedPipe::write' and len(args) > 2:
            self.framed(I, st, args[1], args[2], site)
            self.s(st, 'seq', self.g(st, 'seq') + (('put', 'send', None, False),))
            c = self.counted(st, 'put')
            self.s(st, 'cnt', (c,))
            return ('ret', ZERO)
        if short == 'Scraper::resizeWindow' and len(args) > 2:
            o = tuple(tuple(sorted(origins(st, st.load(I.prog, A(args[2], d), 2, 16), I.src, I.prog))) for d in (0, 2))
            self.s(st, 'coord', self.g(st, 'coord') + (o,))
        dem = I.prog.dem(name)
        if vecish(dem):
            st.settok(args[0], mk('fn', 'vec', st.tok(args[1])))
            return ('ret', ZERO)
        if name == 'CreateProcessW':
            p = I.prog
            sui = args[8]
            dk = st.load(p, A(sui, p.field('_STARTUPINFOW', 'lpDesktop')[0]), 8, 64)
            snk = {}
            for nm, v in (('appname', args[0]), ('cmdline', args[1]), ('env', args[6]), ('cwd', args[7]), ('desktop', dk)):
                z = st.truth(icmp('eq', v, ZERO, 64))
                snk[nm] = 'null' if z else tuple(sorted(origins(st, v, I.src, I.prog)))
            self.s(st, 'sink', tuple(sorted(snk.items())))
        return None

    def after(self, I, st, name, short, args, site, ret):
        p = I.prog
        if name == 'CreateProcessW':
            hp = st.load(p, A(args[9], p.field('_PROCESS_INFORMATION', 'hProcess')[0]), 8, 64)
            ht = st.load(p, A(args[9], p.field('_PROCESS_INFORMATION', 'hThread')[0]), 8, 64)

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.s(s, 'h', ((hp, 'process'), (ht, 'thread')))

            def bad(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), True):
                    return False
                self.s(s, 'h', (('fail', 'fail'),))
            return [ok, bad]
        if name == 'DuplicateHandle':
            v = st.load(p, args[3], 8, 64)
            src = [n for h, n in self.g(st, 'h') if h is args[1]]
            if src:
                def dup(s):
                    if not s.assume(icmp('eq', ret, ZERO, 32), False):
                        return False
                    self.s(s, 'dups', self.g(s, 'dups') + ((v, src[0]),))
                    s.assume(icmp('eq', v, ZERO, 64), False)
                return [dup, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        if name == 'GetLastError' and self.g(st, 'h') == (('fail', 'fail'),):
            self.s(st, 'err', ret)
        if name == 'GetConsoleProcessList':
            self.s(st, 'list', ret)
        return None

    def finish(self, I, st, val):
        seq = self.g(st, 'seq')
        F = self.F
        t = [x for x in seq if x[0] == 'get' and x[1] == 'i32']
        k = st.known(t[0][2]) if t else None
        rec = {'type': k.a[0] if k is not None and k.k == 'c' else None, 'get': self.shape(st, 'get'), 'put': self.shape(st, 'put'), 'cnt': self.g(st, 'cnt'),
               'coord': self.g(st, 'coord'), 'sink': self.g(st, 'sink')}
        gets = [x for x in seq if x[0] == 'get' and x[1] not in ('raw', 'eof')]
        nz = {}
        base = len([x for x in seq if x[0] == 'get' and x[1] == 'raw'])
        for _, kd, v, star in gets:
            if v is not None and kd == 'i32':
                nz[v.a[0]] = st.truth(icmp('eq', v, ZERO, 32))
        rec['zero'] = tuple(sorted(nz.items()))
        reply = []
        for x in seq:
            if x[0] == 'put' and x[1] not in ('raw', 'send'):
                v = x[2]
                if v is None:
                    reply.append('*')
                    continue
                d = [n for h, n in self.g(st, 'dups') if h is v]
                if d:
                    reply.append(d[0])
                elif v is self.g(st, 'err', None) and v is not None:
                    reply.append('lasterror')
                elif v is self.g(st, 'list', None):
                    reply.append('count')
                elif st.known(v).k == 'c':
                    reply.append(('const', st.known(v).a[0]))
                else:
                    reply.append('?')
        rec['reply'] = tuple(reply)
        th = st.frames[0].env[0]
        p = I.prog
        if rec['sink'] and ('fail', 'fail') not in self.g(st, 'h'):
            fl = []
            for fn_ in ('m_autoShutdown', 'm_exitAfterShutdown'):
                v = st.load(p, A(th, p.field('Agent', fn_)[0]), 1, 8)
                fl.append((tuple(sorted(origins(st, v))), masks(v)))
            rec['flags'] = tuple(fl)
        self.oblige('handlePacket type %s: reads %s, replies %s' % (rec['type'], ' '.join(rec['get']), ' '.join(rec['put'])))
        if rec not in self.records:
            self.records.append(rec)


def masks(v, src=None, seen=None):
    """The flag constants a value is masked with."""
    r = set()

    seen = set()

    def go(x):
        if type(x) is not ai.V or x in seen:
            return
        seen.add(x)
        for z in (src or {}).get(x, ()):
            go(z)
        if x.k == 'E' and x.a[0] == 'and':
            for y in x.a:
                if type(y) is ai.V and y.k == 'c' and y.a[0] > 0:
                    r.add(y.a[0])
        for y in x.a:
            go(y)
    go(v)
    return tuple(sorted(r))


def strip(shape):
    return tuple(x for x in shape if x not in ('raw', 'send', 'eof'))


def same(a, b):
    """Equal shapes, a trailing repetition being allowed to occur zero times."""
    a, b = strip(a), strip(b)
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if x and x[-1].endswith('*') and x[:-1] == y:
            return True
    return False


NAMES = {0: 'StartProcess', 1: 'SetSize', 2: 'GetConsoleProcessList'}


def check():
    c = core.Check('C11', 'for every message the fields written on one side equal those read on the other in number, width and order, and the value behind each field is the one the other side uses it for')
    lp, ap = core.program('libwinpty'), core.program('agent')

    jobs = [('libwinpty', core.fn(lp, n), Lib, {}) for n in ('winpty_spawn', 'winpty_set_size', 'winpty_get_console_process_list', 'winpty_open')]
    jobs += [('agent', core.fn(ap, 'Agent::handlePacket'), Agent, {}), ('agent', core.fn(ap, 'Agent::Agent'), Setup, {}), ('agent', core.fn(ap, 'main'), Main, {})]
    outs = c.run(jobs)
    lib = {n: o for n, o in zip(('spawn', 'size', 'list', 'open'), outs)}
    agent, setup, mains = outs[4], outs[5], outs[6]
    for n in lib:
        c.need(lib[n] or c.violations, 'no completed exchange found in the library for %s' % n)
    c.need(setup and mains, 'the start of the agent was not followed to its end')

    def bad(key, msg):
        c.violate(key, msg)

    def ob(msg):
        c.oblige(msg)

    # 1. requests and replies, per message
    for n, api in (('spawn', 'winpty_spawn'), ('size', 'winpty_set_size'), ('list', 'winpty_get_console_process_list')):
        types = {r['type'] for r in lib[n]}
        if None in types or len(types) != 1:
            continue
        t = types.pop()
        theirs = [r for r in agent if r['type'] == t and any(x == 'eof' for x in r['get'])]
        ob('%s: message type %s is handled by the agent' % (api, t))
        if not theirs:
            bad('%s|type' % api, '%s sends message type %s, which the agent never handles to the end' % (api, t))
            continue
        for r in lib[n]:
            for q in theirs:
                ob('%s: request %s = %s' % (api, ' '.join(strip(r['put'])), ' '.join(strip(q['get']))))
                if not same(r['put'], q['get']):
                    bad('%s|request' % api, '%s writes the fields (%s), the agent reads (%s)' % (api, ' '.join(strip(r['put'])), ' '.join(strip(q['get']))))
        for q in theirs:
            ok = [r for r in lib[n] if same(q['put'], r['get'])]
            ob('%s: reply %s is read' % (api, ' '.join(strip(q['put']))))
            if not ok:
                bad('%s|reply' % api, 'the agent replies to %s with the fields (%s); the library reads (%s)' % (
                    api, ' '.join(strip(q['put'])), ' or '.join(sorted({' '.join(strip(r['get'])) for r in lib[n]}))))
            elif q['reply'] and isinstance(q['reply'][0], tuple):
                k = q['reply'][0][1]
                if not any(r['first'] in (k, None) for r in ok):
                    bad('%s|result' % api, 'the agent sends result code %s with fields (%s); the library expects it with code %s' % (
                        k, ' '.join(strip(q['put'])), sorted({r['first'] for r in ok})))
        # the number of repeated fields
        for side, recs, d in (('library', lib[n], 'get'), ('agent', theirs, 'put')):
            cs = [(r, x) for r in recs for x in r['cnt'] if x is not None]
            stars = [x for r, x in cs if x[0]]
            if any(r['get' if d == 'get' else 'put'][-1:] and any(y.endswith('*') for y in r[d]) for r in recs):
                understood = [r for r, x in cs if any(y.endswith('*') for y in r[d]) and x[1] and x[2] and r.get('first') is None]
                if understood:
                    for r, x in cs:
                        ob('%s: the %s handles as many entries as announced' % (api, side))
                        if not (x[1] and x[2]):
                            bad('%s|count-%s' % (api, side), 'the %s %s a number of entries that can differ from the count field' % (side, 'reads' if d == 'get' else 'writes'))
    # 2. meanings
    sp = [r for r in lib['spawn']]
    aok = [r for r in agent if r['type'] == sp[0]['type'] and r['sink']] if sp else []
    if sp and aok:
        mean = sp[0]['mean']
        for i, m in enumerate(mean):
            if isinstance(m, str) and m in ('appname', 'cmdline', 'cwd', 'env', 'desktop'):
                ob('winpty_spawn: field %d (%s) reaches CreateProcess' % (i, m))
                got = {dict(r['sink'])[m] for r in aok} - {'null', ()}
                if got and any(g != (i,) for g in got):
                    bad('spawn|%s' % m, 'CreateProcess gets as its %s what the library sent in field %s; the library puts the %s in field %d' % (m, sorted(got), m, i))
                if all(dict(r['sink'])[m] == 'null' for r in aok):
                    bad('spawn|%s-lost' % m, 'the %s sent by the library never reaches CreateProcess' % m)
            if m == 'flags':
                for r in aok:
                    if r.get('flags'):
                        for (o, mk_), bit, nm in zip(r['flags'], (1, 2), ('auto-shutdown', 'exit-after-shutdown')):
                            ob('winpty_spawn: the %s flag' % nm)
                            if o != (i,) or mk_ and bit not in mk_:
                                bad('spawn|flag-%s' % nm, 'the %s setting is taken from field(s) %s masked with %s, not from bit %d of field %d' % (nm, o, mk_, bit, i))
        unknown = [m for m in mean if m == '?']
        want = {}
        for i, m in enumerate(mean):
            if isinstance(m, tuple) and m[0] == 'want' and i > 0:
                for nm, k in (('process', 2), ('thread', 3)):
                    if all(r['mean'][i][0] == 'want' and r['mean'][i][1] is not None and r['mean'][i][1] == r['mean'][i][k] for r in sp):
                        want[nm] = i
        outi = {}
        for r in sp:
            for nm, o in r['out']:
                if isinstance(o, tuple) and o and isinstance(o[0], int):
                    outi.setdefault(nm, set()).add(o)
        for nm in ('process', 'thread'):
            if len(outi.get(nm, ())) != 1 or len(list(outi[nm])[0]) != 1:
                if len(outi.get(nm, ())) > 1:
                    bad('spawn|%s-out' % nm, 'the %s handle is filled from different reply fields %s' % (nm, sorted(outi[nm])))
                continue
            j = list(outi[nm])[0][0]
            for r in aok:
                rep = r['reply']
                if not any(x in ('process', 'thread') for x in rep) and not (rep and all(isinstance(x, tuple) for x in rep)):
                    continue
                ob('winpty_spawn: reply field %d is the %s handle' % (j, nm))
                if j >= len(rep):
                    bad('spawn|%s-field' % nm, 'the library takes the %s handle from field %d of a reply of %d fields' % (nm, j, len(rep)))
                    continue
                other = {'process': 'thread', 'thread': 'process'}[nm]
                if rep[j] in (other, 'lasterror', 'count'):
                    bad('spawn|%s-swap' % nm, 'the library takes the %s handle from field %d, where the agent puts the %s' % (nm, j, rep[j]))
                if nm in want:
                    z = dict(r['zero']).get(want[nm])
                    if z is False and isinstance(rep[j], tuple):
                        bad('spawn|%s-missing' % nm, 'the caller asks for the %s handle (field %d), the agent sends none' % (nm, want[nm]))
                    if z is True and rep[j] == nm:
                        bad('spawn|%s-unasked' % nm, 'the agent duplicates the %s handle although field %d says it is not wanted' % (nm, want[nm]))
        for o in outi.get('error', ()):
            for r in aok:
                rep = r['reply']
                if 'lasterror' in rep:
                    ob('winpty_spawn: the error code is reply field %s' % (o,))
                    if len(o) != 1 or rep[o[0]:o[0] + 1] != ('lasterror',):
                        bad('spawn|error', 'the library takes the CreateProcess error from reply field(s) %s; the agent sends it in field %d' % (o, rep.index('lasterror')))
        good = {r['reply'][0][1] for r in aok if r['reply'] and isinstance(r['reply'][0], tuple) and ('process' in r['reply'] or 'thread' in r['reply'])}
        fail = {r['reply'][0][1] for r in aok if r['reply'] and isinstance(r['reply'][0], tuple) and 'lasterror' in r['reply']}
        for r in sp:
            ob('winpty_spawn: result code %s' % r['first'])
            if r['ok'] and r['first'] in fail:
                bad('spawn|fail-as-success', 'the library reports success for result code %s, which the agent sends when CreateProcess failed' % r['first'])
        for k in good:
            if not any(r['ok'] and r['first'] in (k, None) for r in sp):
                bad('spawn|success-code', 'the agent announces success with result code %s, which the library does not accept' % k)
    for r in lib['size']:
        pos = {m: i for i, m in enumerate(r['mean']) if m in ('cols', 'rows')}
        for q in agent:
            for co in q['coord'] if q['type'] == r['type'] else ():
                for k, nm in enumerate(('cols', 'rows')):
                    if nm in pos and co[k]:
                        ob('winpty_set_size: %s' % nm)
                        if co[k] != (pos[nm],):
                            bad('size|%s' % nm, 'the agent takes the %s from field %s; the library puts them in field %d' % (nm, co[k], pos[nm]))
    for r in lib['list']:
        for q in agent:
            if q['type'] == r['type'] and q['reply'] and r['ret']:
                ob('winpty_get_console_process_list: the count')
                if 'count' in q['reply'] and r['ret'] != (q['reply'].index('count'),):
                    bad('list|count', 'the number of processes is returned from field %s; the agent sends it in field %d' % (r['ret'], q['reply'].index('count')))
    # 3. setup
    opens = [r for r in lib['open'] if r['ok']]
    base = {}
    for q in setup:
        if not q['conerr']:
            for k, s in enumerate(q['order']):
                if s is not None and q['dirs'][s] == 2:
                    base['conout'] = q['offs'][s]
    for r in opens:
        for q in setup:
            if r['conerr'] != q['conerr']:
                continue
            ob('setup message%s' % (' with the error pipe' if q['conerr'] else ''))
            if not same(r['get'], q['put']):
                bad('setup|shape', 'the setup message of the agent has the fields (%s), the library reads (%s)' % (' '.join(strip(q['put'])), ' '.join(strip(r['get']))))
                continue
            for nm, o in r['names']:
                if len(o) != 1 or o[0] >= len(q['order']) or q['order'][o[0]] is None:
                    continue
                s = q['order'][o[0]]
                isin = q['dirs'][s] == 1
                ob('setup message: %s' % nm)
                if (nm == 'coninPipeName') != isin:
                    bad('setup|%s' % nm, 'the library takes field %d for %s; the agent puts the name of a pipe of the other direction there' % (o[0], nm))
                elif nm != 'coninPipeName' and q['conerr'] and base.get('conout'):
                    isout = q['offs'][s] == base['conout']
                    if isout != (nm == 'conoutPipeName'):
                        bad('setup|%s' % nm, 'the library takes field %d for %s; the agent puts the name of the other output pipe there' % (o[0], nm))
    # 4. the command line
    for r in opens:
        if not r['cmd'] or len(r['cmd']) < 6:
            continue
        for q in setup:
            par = {}
            for nm, v in (('cols', q['size'][0] if q['size'] else ()), ('rows', q['size'][1] if q['size'] else ()), ('mouseMode', q['mouse']), ('flags', q['term'][0] if q['term'] else ())):
                if len(v) == 1:
                    par[nm] = v[0]
            if q['term']:
                o1, m1, o2, m2 = q['term']
                ob('agent flags: plain mode and colour')
                if m1 and m1 != (2,) or m2 and 4 not in m2:
                    bad('setup|flags', 'the plain-output setting uses flag bits %s and its colour setting %s' % (m1, m2))
            for mrec in mains:
                for nm, ci in par.items():
                    if ci - 1 >= len(mrec) or len(mrec[ci - 1]) != 1:
                        continue
                    ai_ = mrec[ci - 1][0]
                    ob('command line operand %d: %s' % (ai_, nm))
                    w = r['cmd'][ai_] if ai_ < len(r['cmd']) else None
                    if w != (nm,):
                        bad('cmdline|%s' % nm, 'the agent uses operand %d as its %s; the library puts %s there' % (ai_, nm, w or 'something else'))
    return c.finish('Every completed exchange of the three requests, the setup message and the command line, on both sides: field kinds in order, and the origin or use of each field.', 25)
