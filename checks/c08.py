"""Every pipe server is private: arguments of CreateNamedPipeW and the security descriptor it is given."""
import ai
import core
from ai import A, C, ZERO, icmp, split

FIRST, REJECT_REMOTE = 0x00080000, 8
CREATE_INSTANCE = 4
GENERIC = 0xF0000000
KNOWN = {(5, 18): 'system', (5, 32, 544): 'admins', (1, 0): 'everyone'}


class M(core.Mon):
    std_throws = False
    interest = core.calls('CreateNamedPipeW', 'CreateNamedPipeA', 'AllocateAndInitializeSid', 'GetTokenInformation', 'SetEntriesInAclW', 'SetSecurityDescriptorDacl',
                          'GetVersionExW', 'GetVersionExA', 'InitializeSecurityDescriptor', 'CreateWellKnownSid')
    init = ()
    unroll = 'counters'
    debugserver = False

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        st.mon = tuple(sorted([x for x in st.mon if x[0] != k] + [(k, v)], key=lambda x: x[0]))

    def add(self, st, k, v):
        self.s(st, k, self.g(st, k, ()) + (v,))

    def sid(self, st, v):
        for k, kind in self.g(st, 'sids', ()):
            if k is v:
                return kind
        if v.k == 'ld' and split(v.a[0])[0] in self.g(st, 'owners', ()) or v.k == 'ld' and v.a[0] in self.g(st, 'owners', ()):
            return 'owner'
        return None

    def after(self, I, st, name, short, args, site, ret):
        p = I.prog
        if name == 'AllocateAndInitializeSid':
            auth = st.load(p, A(args[0], 5), 1, 8)
            n = st.known(args[1])
            subs = [st.known(args[2 + i]) for i in range(n.a[0])] if n.k == 'c' and n.a[0] <= 8 else []
            key = None
            if auth.k == 'c' and subs and all(x.k == 'c' for x in subs):
                key = (auth.a[0],) + tuple(x.a[0] for x in subs)
            kind = KNOWN.get(key, 'other')
            v = st.load(p, args[10], 8, 64)

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.add(s, 'sids', (v, kind))
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        if name == 'GetTokenInformation':
            cls = st.known(args[1])
            b = split(args[2])[0]

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                if cls.k == 'c' and cls.a[0] in (4, 1):         # TokenOwner, TokenUser
                    self.add(s, 'owners', b)
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        if name == 'SetEntriesInAclW':
            n = st.known(args[0])
            kinds = []
            f = lambda q: p.field('_EXPLICIT_ACCESS_W', q)[0]
            size = 48
            if n.k != 'c' or n.a[0] > 16:
                I.report(st, site, 'the number of access entries is undetermined', '%s|aces' % site.fn.short)
                return None
            for i in range(n.a[0]):
                v = st.load(p, A(args[1], size * i + 40), 8, 64)
                k = self.sid(st, v)
                perm = st.load(p, A(args[1], size * i), 4, 32)
                mode = st.load(p, A(args[1], size * i + 4), 4, 32)
                self.oblige('%s: access entry %d grants to %s' % (I.where(site), i, k or ai.show(v)))
                if k not in ('system', 'admins', 'owner'):
                    if self.debugserver and k == 'everyone' and perm.k == 'c' and not perm.a[0] & (CREATE_INSTANCE | GENERIC | 0x000d0000):
                        k = 'everyone-write'
                    else:
                        I.report(st, site, 'access entry %d of a pipe security descriptor grants access to %s' % (i, k or 'an undetermined account ' + ai.show(v)), '%s|ace' % site.fn.short)
                kinds.append(k)
            if not st.truth(icmp('eq', args[2], ZERO, 64)):
                I.report(st, site, 'the access list is merged with an existing one', '%s|merge' % site.fn.short)
            v = st.load(p, args[3], 8, 64)

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), True):
                    return False
                self.add(s, 'acls', (v, tuple(kinds)))
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), False)]
        if name == 'SetSecurityDescriptorDacl':
            hit = [k for a, k in self.g(st, 'acls', ()) if a is args[2]]
            pres = st.truth(icmp('eq', args[1], ZERO, 32))

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                if hit and pres is False:
                    self.add(s, 'sds', (args[0], hit[0]))
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        if name in ('GetVersionExW', 'GetVersionExA'):
            self.s(st, 'major', st.load(p, A(args[0], 4), 4, 32))
        if self.debugserver and not short.startswith('winpty'):
            lits = [I.prog.literal(a) for a in args if a.k != 'c']
            if '--everyone' in [str(x) for x in lits if x is not None]:
                eq = short.rsplit('::', 1)[-1] in ('operator==',)
                w = 1 if eq or short.endswith('operator!=') else 32
                pos = eq      # true means equal

                def yes(s):
                    if not s.assume(icmp('eq', ret, ZERO, w), not pos):
                        return False
                    self.s(s, 'opt', True)
                return [yes, lambda s: s.assume(icmp('eq', ret, ZERO, w), pos)]
        return None

    def call(self, I, st, name, short, args, site):
        if name == 'CreateNamedPipeA':
            I.report(st, site, 'pipe created with the ANSI interface', '%s|ansi' % site.fn.short)
        if name != 'CreateNamedPipeW':
            return None
        p = I.prog
        w = I.where(site)
        self.count('pipe_servers')
        k = '%s|' % site.fn.short
        om = st.known(args[1])
        self.oblige('%s: first instance only' % w)
        if om.k != 'c' or not om.a[0] & FIRST:
            I.report(st, site, 'a pipe server is created without FILE_FLAG_FIRST_PIPE_INSTANCE (open mode %s)' % ai.show(om), k + 'first')
        if om.k == 'c' and om.a[0] & 0x000c0000 & ~FIRST:
            I.report(st, site, 'the pipe server is opened with WRITE_DAC/WRITE_OWNER access', k + 'dac')
        self.oblige('%s: one instance only' % w)
        if st.known(args[3]) is not C(1):
            I.report(st, site, 'the pipe server allows %s instances' % ai.show(args[3]), k + 'instances')
        pm = st.known(args[2])
        self.oblige('%s: remote clients rejected' % w)
        if pm.k != 'c' or not pm.a[0] & REJECT_REMOTE:
            mj = self.g(st, 'major')
            if mj is None or st.truth(icmp('ult', mj, C(6), 32)) is not True:
                I.report(st, site, 'a pipe server accepts remote clients on systems that could reject them (pipe mode %s)' % ai.show(pm), k + 'remote')
        sa = args[7]
        null = st.truth(icmp('eq', sa, ZERO, 64))
        self.oblige('%s: security descriptor %s' % (w, 'default' if null else 'explicit'))
        if null is not False:
            if not (self.debugserver and null):
                I.report(st, site, 'a pipe server is created without a security descriptor', k + 'nosa')
            return None
        sd = st.load(p, A(sa, p.field('_SECURITY_ATTRIBUTES', 'lpSecurityDescriptor')[0]), 8, 64)
        hit = [kinds for s_, kinds in self.g(st, 'sds', ()) if s_ is sd]
        if not hit:
            I.report(st, site, 'the security descriptor %s of a pipe server is not one whose access list was checked and installed' % ai.show(sd), k + 'sd')
        elif 'everyone-write' in hit[0] and not self.g(st, 'opt'):
            I.report(st, site, 'everyone may write to the pipe although the option was not given', k + 'everyone')
        inh = st.load(p, A(sa, p.field('_SECURITY_ATTRIBUTES', 'bInheritHandle')[0]), 4, 32)
        if st.truth(icmp('eq', inh, ZERO, 32)) is not True:
            I.report(st, site, 'the pipe server handle is inheritable', k + 'inherit')
        return None


class D(M):
    debugserver = True


def roots(p, eff, api):
    """Repository functions without a repository caller that reach `api`; and the functions containing the calls."""
    direct = [F for F in p.fns.values() if F.repo and any(c == api for c, _ in eff.sum[F.name].callees)]
    return sorted(direct, key=lambda f: f.name)


def check():
    c = core.Check('C08', 'at every CreateNamedPipeW: FIRST_PIPE_INSTANCE, one instance, remote clients rejected (unless pre-Vista), and a descriptor whose DACL grants only to owner, SYSTEM and Administrators')
    jobs = []
    sites = 0
    for pn, mon in (('libwinpty', M), ('agent', M), ('debugserver', D)):
        p = core.program(pn)
        eff = p.effects()
        for F in roots(p, eff, 'CreateNamedPipeW'):
            jobs.append((pn, entry(p, eff, F), mon, {'klimit': 64, 'klimit_loop': 64}))
            sites += 1
    c.need(sites >= 3, 'only %d functions that create pipe servers found' % sites)
    c.run(jobs)
    c.need(c.violations or c.counts.get('pipe_servers', 0) >= 3, 'pipe creation is not reached')
    return c.finish('All paths of every function that creates a pipe server, with the access list traced from the SIDs to the descriptor.', 12)


def entry(p, eff, F):
    """The function itself when its name parameter is its own; callers when it is an internal helper taking prepared arguments."""
    seen = {F.name}
    while True:
        cs = sorted(n for n in eff.callers.get(F.name, ()) if n not in seen and p.fns[n].repo)
        params = ' '.join(str(t) for t in F.dty[1:])
        if len(cs) >= 1 and ('SECURITY_ATTRIBUTES' in params or 'void *' in params.split(', ')):
            F = p.fns[cs[0]]
            seen.add(F.name)
            continue
        return F
