"""winpty_spawn's output parameters tell the truth on every path."""
import ai
import core
from ai import A, C, ZERO, icmp, split
from checks.c02 import err_arg
from checks.c11 import Lib, Agent, BUF, vecish, builder
from checks.libio import LibIo
from checks.msg import origins
from checks.winio import err_codes

OUT = {2: 'process', 3: 'thread'}


class Spawn(Lib):
    """dups: ((value, source field, alive), ...)"""
    errcode = LibIo.errcode
    interest = core.calls(*(BUF + ('WriteFile', 'ReadFile', 'DuplicateHandle', 'CloseHandle', '__cxa_rethrow')))

    def __init__(self):
        Lib.__init__(self)
        self.codes = err_codes()
        self.errobj = set()

    def start(self, st, I):
        Lib.start(self, st, I)
        self.ea = err_arg(self.F)
        self.errsize = sum(self.p.field('winpty_error_s', 'msgDynamic'))
        self.agentproc = st.load(self.p, A(self.args[0], self.p.field('winpty_s', 'agentProcess')[0]), 8, 64)

    def part(self, I, st):
        return tuple(st.truth(icmp('eq', self.args[i], ZERO, 64)) for i in (2, 3, 4)) + (self.rel(st), LibIo.part(self, I, st))

    def other(self, I, st, name, short, args, site):
        if name == 'CloseHandle':
            self.s(st, 'closed', self.g(st, 'closed') + (args[0],))
        if name == 'WriteFile':
            self.s(st, 'sent', True)
        if name == '__cxa_begin_catch':
            self.s(st, 'caught', True)
        if name == 'DuplicateHandle':
            return None
        dem = I.prog.dem(name)
        if vecish(dem):
            return ('ret', ZERO)
        return None

    def after(self, I, st, name, short, args, site, ret):
        if name in ('_Znwy', '_Znwm') and args[0].k == 'c' and args[0].a[0] == self.errsize:
            self.errobj.add(ret)
        if name == 'DuplicateHandle':
            p = I.prog
            v = st.load(p, args[3], 8, 64)
            o = origins(st, args[1], I.src, p)
            w = I.where(site)
            if o:
                self.oblige('%s: the duplicate is made in this process, with the same access, not inheritable' % w)
                self.count('duplications')
                if 'GetCurrentProcess' not in ai.show(args[2]) and args[2] is not C(ai.M64):
                    I.report(st, site, 'the child\'s handle is duplicated into %s, not into the calling process' % ai.show(args[2]), 'dup|target')
                if args[0] is not self.agentproc:
                    I.report(st, site, 'the handle sent by the agent is looked up in %s, not in the agent process' % ai.show(args[0]), 'dup|source')
                opt = st.known(args[6])
                if opt.k != 'c' or not opt.a[0] & 2:
                    I.report(st, site, 'the handle given to the caller does not have the access rights of the original', 'dup|access')
                if st.truth(icmp('eq', args[5], ZERO, 32)) is not True:
                    I.report(st, site, 'the handle given to the caller is inheritable', 'dup|inherit')

            def ok(s):
                if not s.assume(icmp('eq', ret, ZERO, 32), False):
                    return False
                self.s(s, 'dups', self.g(s, 'dups') + ((v, tuple(sorted(o))),))
            return [ok, lambda s: s.assume(icmp('eq', ret, ZERO, 32), True)]
        return None

    def eof(self, I, st, site):
        self.s(st, 'seq', self.g(st, 'seq') + (('get', 'eof', None, False),))

    def finish(self, I, st, val):
        F, p = self.F, self.p
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        failed = st.truth(icmp('eq', val, ZERO, 32))
        if failed is None:
            I.report(st, site, 'winpty_spawn returns an undetermined result', 'spawn|result')
            return
        code = self.errcode(I, st)
        gets = [x for x in self.g(st, 'seq') if x[0] == 'get' and x[1] != 'eof']
        res = st.known(gets[0][2]) if gets and gets[0][2] is not None else None
        rec = {'failed': failed, 'code': code, 'res': res.a[0] if res is not None and res.k == 'c' else None, 'shape': tuple(x[1] for x in gets), 'out': {}}
        for i, nm in OUT.items():
            ptr = self.args[i]
            if st.truth(icmp('eq', ptr, ZERO, 64)) is True:
                continue
            v = st.load(p, ptr, 8, 64)
            z = st.truth(icmp('eq', v, ZERO, 64))
            self.oblige('winpty_spawn %s: the %s handle' % ('fails' if failed else 'succeeds', nm))
            if failed:
                if z is not True:
                    I.report(st, site, 'winpty_spawn fails and leaves %s in the %s handle parameter' % (ai.show(v), nm), 'fail|%s' % nm)
                continue
            hit = [o for d, o in self.g(st, 'dups') if d is v]
            if hit:
                rec['out'][nm] = hit[0]
                if v in self.g(st, 'closed'):
                    I.report(st, site, 'the %s handle given to the caller has been closed' % nm, 'ok|%s-closed' % nm)
            elif z is True:
                zero = tuple(sorted(i2 for i2, x in enumerate(gets) if x[1] == 'i64' and x[2] is not None and st.truth(icmp('eq', x[2], ZERO, 64)) is True))
                rec['out'][nm] = ('null', zero)
            else:
                I.report(st, site, 'winpty_spawn succeeds with %s as the %s handle, which is no duplicate made for the caller' % (ai.show(v), nm), 'ok|%s' % nm)
        if st.truth(icmp('eq', self.args[4], ZERO, 64)) is not True:
            v = st.load(p, self.args[4], 4, 32)
            z = st.truth(icmp('eq', v, ZERO, 32))
            o = tuple(sorted(origins(st, v, I.src, p)))
            rec['err'] = 'zero' if z and not o else o
            self.oblige('winpty_spawn %s: the process creation error' % ('fails' if failed else 'succeeds'))
            if not failed and z is not True:
                I.report(st, site, 'winpty_spawn succeeds with a process creation error of %s' % ai.show(v), 'ok|error')
            if failed:
                spawnfail = self.codes['SPAWN_CREATE_PROCESS_FAILED']
                if z is not True and not o:
                    I.report(st, site, 'winpty_spawn fails with a process creation error %s that the agent did not report' % ai.show(v), 'fail|error-unset')
                if type(code) is int:
                    if o and code != spawnfail:
                        I.report(st, site, 'winpty_spawn sets the process creation error but reports error code %s' % code, 'fail|error-code')
                    if code == spawnfail and not o:
                        I.report(st, site, 'winpty_spawn reports that process creation failed without passing on its error', 'fail|error-lost')
        if rec not in self.records:
            self.records.append(rec)


def check():
    c = core.Check('C14', 'at every return of winpty_spawn each output parameter holds exactly what the result promises')
    lp, ap = core.program('libwinpty'), core.program('agent')
    recs, agent = c.run([('libwinpty', core.fn(lp, 'winpty_spawn'), Spawn, {}), ('agent', core.fn(ap, 'Agent::handlePacket'), Agent, {})])
    ok = [r for r in recs if not r['failed']]
    c.need(c.violations or ok, 'winpty_spawn never succeeds')
    c.need(c.violations or c.counts.get('duplications'), 'no handle is ever duplicated for the caller')
    # which field of the reply is which handle, and which result code means that creation failed
    pos, fail = {}, set()
    for q in agent:
        rep = q['reply']
        for nm in ('process', 'thread'):
            if nm in rep:
                pos.setdefault(nm, set()).add(rep.index(nm))
        if 'lasterror' in rep and isinstance(rep[0], tuple):
            fail.add((rep[0][1], rep.index('lasterror')))
    for r in ok:
        for nm, o in r['out'].items():
            c.oblige('winpty_spawn: the %s handle comes from the field the agent puts it in' % nm)
            if len(pos.get(nm, ())) == 1:
                j = list(pos[nm])[0]
                if o and o[0] == 'null':
                    if j not in o[1]:
                        c.violate('ok|%s-null' % nm, 'winpty_spawn succeeds with a null %s handle although the agent sent one' % nm)
                elif o != (j,):
                    c.violate('ok|%s-field' % nm, 'the %s handle given to the caller is taken from reply field %s; the agent sends it in field %d' % (nm, o, j))
    for r in recs:
        for k, j in fail:
            if r['res'] == k:
                c.oblige('winpty_spawn: creation failed in the agent')
                if not r['failed']:
                    c.violate('ok|failed', 'winpty_spawn succeeds although the agent reports that process creation failed')
                elif 'err' in r and r['shape'] == ('i32', 'i32') and r['err'] != (j,) and r['code'] == err_codes()['SPAWN_CREATE_PROCESS_FAILED']:
                    c.violate('fail|error-field', 'the process creation error is %s, not the error the agent reports' % (r['err'],))
            elif 'err' in r and r['err'] not in ('zero', ()) and r['res'] is not None:
                c.violate('fail|error-other', 'the process creation error is set for result code %s' % r['res'])
    return c.finish('Every path of winpty_spawn with each combination of null output parameters; the agent\'s reply to a start request.', 40)
