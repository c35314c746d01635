"""Nothing the library keeps or returns points into memory it does not own for that long."""
import ai
import core
from ai import A, ZERO, icmp, split

SESSION, ERROR = 'winpty_t *', 'winpty_error_ptr_t'
OWN = {'winpty_t *', 'winpty_error_ptr_t', 'winpty_config_t *', 'winpty_spawn_config_t *'}


def decl(F, i):
    t = F.dty[i + 1:i + 2]
    return t[0].replace('const ', '').strip() if t else ''


def chain(v):
    """The values a pointer value is derived from, outermost first; 'ld' steps go through memory."""
    via = False
    n = 0
    while n < 64:
        n += 1
        b, o = split(v)
        yield b, via
        if b.k == 'ld':
            via = True
            v = b.a[0]
        elif b.k in ('elem', 'gepv', 'z', 'p2i', 'i2p') and b.a and type(b.a[0]) is ai.V:
            v = b.a[0]
        elif b.k == 'pure' and b.a and b.a[0] in ('data', 'c_str', 'begin', 'get'):
            for x in b.a[1:]:
                if type(x) is ai.V:
                    v = x
                    break
            else:
                return
        else:
            return


class M(core.Mon):
    std_throws = False
    fork_errors = False
    init = frozenset()
    msg = dyn = None

    def start(self, st, I):
        self.F = F = st.frames[0].fn
        self.p = I.prog
        self.args = {}
        self.errs = set()
        for i in range(F.nargs):
            if F.argt[i] == 'p':
                self.args[st.frames[0].env[i]] = i
        self.site0 = '%s:%d (%s)' % (I.relfile(F), F.line, F.short)
        self.names = []
        for a, i in self.args.items():
            if decl(F, i) == SESSION and 'free' not in F.short:
                for off, nm in self.strings:
                    self.names.append((a, off, nm, st.tok(A(a, off))))

    def stored(self, I, st, p, val, size, site):
        """st.mon: the cells that hold a pointer they must not hold when the call is over."""
        b, o = split(p)
        hb = [r for r, via in self.roots(b)][0]
        if hb.k == 'L':
            return
        live = frozenset(x for x in st.mon if x[0] is not b or x[1] + 8 <= o or o + size <= x[1])
        if size == 8 and val.k != 'c':
            what = None
            if I.store_ty == 'p' or split(val)[0] in self.args:
                i = self.borrowed(val, hb)
                if i is not None:
                    what = 'the memory passed as %s' % self.F.pn.get(str(i + 1), 'argument %d' % (i + 1))
                elif any(r.k == 'L' and not via for r, via in self.roots(val)):
                    what = 'a local object'
                elif self.msg is not None and I.store_ty == 'p' and o == self.msg and b.k == 'H' and b in self.errs and not self.static(val):
                    what = 'characters the error object does not own (%s)' % ai.show(val)
                elif self.dyn is not None and I.store_ty == 'p' and o == self.dyn and b in self.errs and any(r.k not in ('c', 'H') for r, via in self.roots(val)):
                    what = 'a message the error object does not own (%s)' % ai.show(val)
            if what:
                live = live | {(b, o, what, I.where(site))}
                self.count('suspicious_stores')
            self.count('pointer_stores')
        if live != st.mon:
            st.mon = live

    def static(self, v):
        return all(r.k == 'c' or r.k == 'g' and self.p.globals.get(r.a[0], {}).get('const') for r, via in self.roots(v))

    def after(self, I, st, name, short, args, site, ret):
        if name in ('_Znwy', '_Znay', '_Znwm') and args[0].k == 'c' and args[0].a[0] == self.errsize:
            self.errs.add(split(ret)[0])
        if name in ai.DELETES:
            b, o = split(args[0])
            live = frozenset(x for x in st.mon if x[0] is not b)
            if live != st.mon:
                st.mon = live

    def roots(self, v):
        """(kind, what) of the memory a pointer refers to."""
        for x in [v] + [l for l in v.lv if split(v)[0].k == 'join']:
            last = None
            for b, via in chain(x):
                last = (b, via)
            yield last

    def borrowed(self, v, holder):
        """The argument into whose memory v points (other than the object that holds it)."""
        for b, via in self.roots(v):
            if b in self.args and b is not holder:
                t = decl(self.F, self.args[b])
                if via and t == SESSION:
                    continue        # a handle kept in the session
                return self.args[b]
        return None

    def finish(self, I, st, val):
        F = self.F
        for b, o, what, w in sorted(st.mon, key=lambda x: (x[0].uid, x[1])):
            I.report(st, w, '%s leaves a pointer to %s behind (in %s, offset %d)' % (F.short, what, ai.show(b), o), '%s|keeps|%s' % (F.short, what))
        self.oblige('%s: nothing it leaves behind points into the caller\'s memory' % F.short)
        for a, off, nm, tok in self.names:
            self.oblige('%s: %s stays as it is' % (F.short, nm))
            if st.tok(A(a, off)) is not tok:
                I.report(st, self.site0, '%s changes %s, whose characters the caller may hold a pointer to' % (F.short, nm), '%s|changes|%s' % (F.short, nm))
        if val is not None and F.ret == 'p' and 'HANDLE' not in F.dty[0]:
            self.oblige('%s: what it returns lives as long as the object it came from' % F.short)
            for b, via in self.roots(val):
                w = None
                if b.k == 'L':
                    w = 'to a local object'
                elif b.k == 'g':
                    g = self.p.globals.get(b.a[0], {})
                    if not g.get('const'):
                        w = 'to the modifiable static object %s' % b.a[0]
                elif b in self.args and decl(F, self.args[b]) not in OWN:
                    w = 'into the memory passed as argument %d' % (self.args[b] + 1)
                elif b.k not in ('c', 'H', 'arg', 'join'):
                    w = 'to %s, which is not part of the object passed in' % ai.show(b)
                if w:
                    I.report(st, self.site0, '%s returns a pointer %s' % (F.short, w), '%s|returns' % F.short)


class N(M):
    """The accessors that return characters: returned values are kept apart."""
    key_kinds = ('c', 'elem', 'A', 'arg', 'ld', 'g', 'L')


def check():
    c = core.Check('C30', 'at every return of an exported function no surviving cell holds a pointer rooted in an argument; returned pointers are rooted in the object passed in')
    p = core.program('libwinpty')
    ex = core.exported(p)
    c.need(len(ex) >= 18, 'only %d exported winpty_* functions found' % len(ex))
    M.strings = [(p.field('winpty_s', n)[0], n) for n in ('coninPipeName', 'conoutPipeName', 'conerrPipeName')]
    M.msg = p.field('winpty_error_s', 'msgStatic')[0]
    M.dyn = p.field('winpty_error_s', 'msgDynamic')[0]
    M.errsize = sum(p.field('winpty_error_s', 'msgDynamic'))
    c.run([('libwinpty', F, N if F.ret == 'p' and F.dty[0] == 'LPCWSTR' else M, {}) for F in ex])
    return c.finish('Abstract interpretation of every exported function; each memory cell that outlives the call and was written as a pointer is traced back to '
                    'the memory it points into, and so is each returned pointer.', 30)
