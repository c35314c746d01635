"""Failure return value <=> error object; error objects well-formed, released exactly when owned."""
import ai
import core
from ai import A, G, ZERO, icmp, split


def err_arg(F):
    for i in range(F.nargs):
        if F.dty[i + 1:i + 2] == ['winpty_error_ptr_t *']:
            return i
    return None


def reach(st, roots):
    """Heap objects reachable from a set of values through memory cells."""
    seen = set()
    work = [split(r)[0] for r in roots]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        for x in b.a:
            if type(x) is ai.V and x not in seen:
                work.append(split(x)[0])
        for (mb, o), c in st.mem.items():
            if mb is b:
                work.append(split(c[1])[0])
                work.extend(x for x in c[1].lv if x.k == 'H')
    return seen


class M(core.Mon):
    std_throws = True
    key_kinds = ('c', 'g', 'H')
    init = frozenset()          # heap objects allocated by operator new and not deleted

    def __init__(self):
        self.size = None
        self.errobj = set()
        self.statics = set()
        self.retkinds = set()

    def part(self, I, st):
        F = st.frames[0].fn
        ea = st.frames[0].env[err_arg(F)]
        c = st.mem.get((ea, 0))
        if self.size is None:
            self.size = sum(I.prog.field('winpty_error_s', 'msgDynamic'))
        # error objects held in local variables keep the states apart
        held = frozenset(v for f in st.frames for v in f.env.values() if v in self.errobj or v.k == 'g' and 'winpty_error_s' in I.prog.globals.get(v.a[0], {}).get('dty', ''))
        return (st.truth(icmp('eq', ea, ZERO, 64)), c[1] if c and c[1].k in self.key_kinds else None, held)

    def call(self, I, st, name, short, args, site):
        if short == 'std::shared_ptr::shared_ptr' and len(args) > 1 and args[1].k == 'H':
            st.mon = st.mon - {args[1]}     # owned by the shared_ptr from here on, also when its constructor throws
        return None

    def after(self, I, st, name, short, args, site, ret):
        if name in ('_Znwy', '_Znay', '_Znwm'):
            st.mon = st.mon | {ret}
            if args[0].k == 'c' and args[0].a[0] == self.size:
                self.errobj.add(ret)
        elif name in ai.DELETES:
            b, o = split(args[0])
            if b.k == 'H':
                if b not in st.mon and st.truth(icmp('eq', b, ZERO, 64)) is not True:
                    I.report(st, site, 'object deleted twice or not owned', '%s|delete' % site.fn.short)
                st.mon = st.mon - {b}

    def finish(self, I, st, val):
        F = st.frames[0].fn
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        ea = st.frames[0].env[err_arg(F)]
        isnull = st.truth(icmp('eq', ea, ZERO, 64))
        out = []
        if isnull is not True:
            c = st.mem.get((ea, 0))
            if c is None:
                I.report(st, site, '%s returns without writing *err' % F.short, '%s|err-unwritten' % F.short)
                return
            e = c[1]
            out.append(e)
            enull = st.truth(icmp('eq', e, ZERO, 64))
            rnull = None if val is None else st.truth(icmp('eq', val, ZERO, 64))
            self.oblige('%s: *err %s, returns %s' % (F.short, ai.show(e), ai.show(val)))
            isptr = F.ret == 'p'
            if enull is None:
                I.report(st, site, '%s may return with an undetermined *err (%s)' % (F.short, ai.show(e)), '%s|err-undetermined' % F.short)
            elif enull is False:
                if rnull is not True:
                    I.report(st, site, '%s stores an error object but returns a non-failure value %s' % (F.short, ai.show(val)), '%s|err-without-failure' % F.short)
                b, o = split(e)
                if b.k == 'g':
                    self.statics.add(b.a[0])
                elif b.k == 'H':
                    self.wellformed(I, st, F, b, site)
                else:
                    I.report(st, site, '%s: error object %s is neither a static object nor freshly allocated' % (F.short, ai.show(e)), '%s|err-object' % F.short)
            else:
                if val is not None and val.k == 'c' and val.a[0] == 0 or (isptr and rnull is not False):
                    I.report(st, site, '%s returns its failure value with *err null' % F.short, '%s|failure-without-err' % F.short)
        if val is not None:
            out.append(val)
        live = st.mon
        if live:
            roots = list(out)
            for i in range(F.nargs):
                roots.append(st.frames[0].env[i])
            r = reach(st, roots)
            for h in sorted(live, key=lambda x: x.uid):
                if h not in r:
                    I.report(st, site, '%s: heap object allocated at %s is neither returned nor released' % (F.short, ai.show(h)), '%s|leak' % F.short)

    def wellformed(self, I, st, F, b, site):
        p = I.prog
        off = {n: p.field('winpty_error_s', n)[0] for n in ('code', 'msgStatic', 'msgDynamic')}
        code = st.mem.get((b, off['code']))
        ms = st.mem.get((b, off['msgStatic']))
        md = st.mem.get((b, off['msgDynamic']))
        if code is None:
            I.report(st, site, '%s: error object without a code' % F.short, '%s|err-code' % F.short)
        elif code[1].k == 'c' and code[1].a[0] == 0:
            I.report(st, site, '%s: error object with the success code' % F.short, '%s|err-code0' % F.short)
        if ms is None or md is None:
            I.report(st, site, '%s: error object with an uninitialised message' % F.short, '%s|err-msg' % F.short)
            return
        sn = st.truth(icmp('eq', ms[1], ZERO, 64))
        dn = st.truth(icmp('eq', md[1], ZERO, 64))
        if not (sn is False or dn is False):
            I.report(st, site, '%s: error object without a message' % F.short, '%s|err-nomsg' % F.short)
        if dn is not False:
            I.report(st, site, '%s: allocated error object that winpty_error_free does not release' % F.short, '%s|err-unowned' % F.short)

    def escape(self, I, st, exc):
        pass

    def output(self):
        return sorted(self.statics)


class Free(core.Mon):
    """winpty_error_free on a static object must not delete; on an allocated one it must."""
    init = 0

    def __init__(self, static):
        self.static = static

    def call(self, I, st, name, short, args, site):
        if name in ai.DELETES:
            b, o = split(args[0])
            if b is st.frames[0].env[0]:
                if self.static:
                    I.report(st, site, 'winpty_error_free deletes a statically allocated error object', 'winpty_error_free|static-delete')
                st.mon = st.mon | 1
            elif b.k == 'ld' and b.a[0] is st.frames[0].env[0]:
                st.mon = st.mon | 2
        return None

    def finish(self, I, st, val):
        if self.static:
            self.oblige('winpty_error_free(static object)')
        else:
            self.oblige('winpty_error_free(allocated object) deletes %s' % st.mon)
            if st.mon != 3:
                I.report(st, 'winpty_error_free', 'winpty_error_free does not release an allocated error object completely', 'winpty_error_free|leak')


class Acc(core.Mon):
    def finish(self, I, st, val):
        F = st.frames[0].fn
        n = st.truth(icmp('eq', val, ZERO, F.ret if isinstance(F.ret, int) else 64))
        self.oblige('%s of a static error object is non-zero' % F.short)
        if n is not False:
            I.report(st, F.short, '%s of static object yields %s' % (F.short, ai.show(val)), '%s|static-null' % F.short)


def check():
    c = core.Check('C02', 'at every return of an API function: *err non-null iff the failure value is returned; owned objects reachable or released')
    p = core.program('libwinpty')
    ex = [F for F in core.exported(p) if err_arg(F) is not None and not F.short.startswith('winpty_error_')]
    c.need(len(ex) >= 6, 'only %d API functions with an err parameter' % len(ex))
    outs = c.run([('libwinpty', F, M, {}) for F in ex])
    statics = sorted({s for o in outs for s in o})
    free = core.fn(p, 'winpty_error_free')
    off = p.field('winpty_error_s', 'msgDynamic')[0]
    jobs = []
    for s in statics:
        jobs.append(('libwinpty', free, lambda: Free(True), {'args': {0: G(s)}}))
        for acc in ('winpty_error_msg', 'winpty_error_code'):
            jobs.append(('libwinpty', core.fn(p, acc), Acc, {'args': {0: G(s)}}))

    def own(st, fr):
        e = fr.env[0]
        st.assume(icmp('eq', e, ZERO, 64), False)
        st.assume(icmp('eq', ai.mk('ld', e, off, 8, 0), ZERO, 64), False)
    jobs.append(('libwinpty', free, lambda: Free(False), {'setup': own}))
    c.run(jobs)
    return c.finish('Path-sensitive abstract interpretation (all exceptional edges, allocation failures included) of every API function that takes an error '
                    'pointer; static error objects found in the results are then passed through the error accessors and winpty_error_free.', 20)
