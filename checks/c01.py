"""No C++ exception leaves an exported libwinpty function."""
import core


class M(core.Mon):
    std_throws = True

    def finish(self, I, st, val):
        self.count('normal_returns')

    def entered(self, I, st, F, ctx):
        pass

    def escape(self, I, st, exc):
        # a landing pad with a non-matching clause or a frame without any: the exception reaches the C caller
        F = st.frames[0].fn
        tr = st.trace[0] if st.trace else ''
        site = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        I.report(st, site, 'exception %s escapes from exported function %s; last throw: %s' % (exc, F.short, tr), '%s|escape|%s' % (F.short, exc))

    def ended(self, I, st, how, site):
        # noexcept violations end in __clang_call_terminate / std::terminate
        if how in ('__clang_call_terminate', '_ZSt9terminatev'):
            I.report(st, site, 'std::terminate is reached (exception in a noexcept context)', '%s|terminate|%s' % (st.frames[0].fn.short, site.fn.short))

    def after(self, I, st, name, short, args, site, ret):
        if name.startswith('_Z'):
            self.oblige('%s calls %s' % (I.where(site), short))


def check():
    c = core.Check('C01', 'an exported function has no unwinding exit: every throw site reachable from it is enclosed by a handler')
    p = core.program('libwinpty')
    ex = core.exported(p)
    c.need(len(ex) >= 18, 'only %d exported winpty_* functions found' % len(ex))
    c.run([('libwinpty', F, M, {}) for F in ex])
    return c.finish('Path-sensitive abstract interpretation of every exported function with an exceptional edge on every C++ library call that can throw '
                    '(allocation failure included) and on every throw expression; the unwinding exits of the entry points are the violations.', 40)
