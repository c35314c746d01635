"""Plain-output sessions never emit escape sequences."""
import ai
import core
from ai import C, ZERO, icmp, split
from checks import agentlife, c22, term


class C19(term.Term):
    only = 'C19'
    key_kinds = ()
    interest = staticmethod(lambda n, sh: sh.startswith('NamedPipe::write') or 'snprintf' in n or ('basic_string' in sh and sh.rpartition('::')[2] in ('append', 'push_back', 'operator+=', 'assign')))


class Plain(c22.Freeze):
    """The rest of the agent, in a plain-output session: how it sets up its terminals and what it writes itself."""
    only = 'C19'
    color = 0
    interest = staticmethod(lambda n, sh: sh.startswith(('NamedPipe::write', 'NamedPipe::connectToServer', 'NamedPipe::openServerPipe', 'Terminal::Terminal')))

    def start(self, st, I):
        c22.Freeze.start(self, st, I)
        self.color = 'color' in st.frames[0].fn.name

    def part(self, I, st):
        r = []
        for o in self.flags:
            c = st.mem.get((self.this, o))
            r.append(c[1] if c and c[1].k == 'c' else None)
        return tuple(r)

    def walk(self, I, F):
        if F.repo and F.short.startswith('Win32Console'):
            return False
        return c22.Freeze.walk(self, I, F)

    def returned(self, I, st, F, val, ctx):
        if F.short == 'Agent::Agent':
            self.count('built')

    def message(self, I, st, args, site):
        pass

    def call(self, I, st, name, short, args, site):
        c, _, m = short.rpartition('::')
        w = I.where(site)
        if c == 'NamedPipe' and m in ('connectToServer', 'openServerPipe'):
            agentlife.Life.pipe(self, I, st, m, args, site)
        if c == 'NamedPipe' and m.startswith('write'):
            roles = [r for p, r in self.roles(st, args[0])]
            self.ob('C19', '%s: the agent writes to a pipe' % w, 'agent')
            if roles != ['control']:
                t = I.prog.literal(args[1])
                if t is None:
                    self.rep('C19', I, st, site, 'text that may hold an escape sequence is written in a plain-output session', 'agent')
                elif '\x1b' in (t if type(t) is str else bytes(t).decode('latin-1')):
                    self.rep('C19', I, st, site, 'an escape sequence is sent in a plain-output session', 'plain')
            return ('ret', ZERO)
        if short == 'Terminal::Terminal':
            self.ob('C19', '%s: a terminal is set up' % w, 'terminal')
            v = [a.a[0] & 1 if a.k == 'c' else None for a in args[2:4]]
            if v[0] != 1:
                self.rep('C19', I, st, site, 'a terminal is not set up for plain output in a plain-output session', 'setup')
            if v[1] != int(self.color):
                self.rep('C19', I, st, site, 'a terminal is not set up for colour output exactly when colours were asked for', 'setup')
            return ('ret', ZERO)
        return c22.Freeze.call(self, I, st, name, short, args, site)


def check():
    c = core.Check('C19', 'every text written to a terminal: plain -> no escape character; plain with colour -> only SGR; always -> no byte of a console cell can be an escape character')
    p = core.program('agent-term')
    c.run([('agent-term', core.fn(p, e), C19, {'klimit': 16}) for e in ('vp_normal', 'vp_plain', 'vp_color')])
    p = core.program('agent-life')
    c.run([('agent-life', core.fn(p, e), Plain, {'klimit': 1, 'klimit_loop': 1}) for e in ('vp_agent_plain', 'vp_agent_color')])
    for k, n in (('terminal', 2), ('agent', 2), ('built', 1)):
        c.need(c.violations or c.counts.get(k, 0) >= n, 'no %s found in the agent' % k)
    c.need(c.violations or c.counts.get('write'), 'no output found in the terminal code')
    return c.finish('Any sequence of uses of a terminal, in each output mode, for any console contents.', 6)
