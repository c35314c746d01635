"""Call graph, relevance and side-effect summaries over the IR dump.

A function that cannot reach anything a property is about does not have to be
entered: it is replaced by its effect summary, i.e. the memory it may write
(named by access path from its parameters or by global) and the exception
types it may raise.
"""
import sys
from models import NO_WRITE
from ai import C_MODELS_NAMES


def _is(o, k):
    return type(o) is list and o and o[0] == k or (type(o) is tuple and o and o[0] == k)


class Summary(object):
    __slots__ = ('callees', 'writes', 'throws', 'size', 'loops', 'ind')


class Effects(object):
    def __init__(self, prog):
        self.prog = prog
        self.raw = prog.raw['funcs']
        self.sum = {}
        self._reach = {}
        for n in self.raw:
            self.sum[n] = self.local(n)
        self.callers = {}
        for n, s in self.sum.items():
            for c, _ in s.callees:
                self.callers.setdefault(c, set()).add(n)
        self._fix()
        self._cost = {}
        self._noret()

    # ---- per function
    def local(self, name):
        f = self.raw[name]
        F = self.prog.fns[name]
        s = Summary()
        roots = {}
        for i in range(f['nargs']):
            roots[i] = frozenset((('a', i, 0),))
        allocs = {}
        ins_by_id = {}
        insns = [i for b in f['blocks'] for i in b]
        tt = {}
        for i in insns:
            ins_by_id[i[0]] = i
            if i[1] == 'call' and _is(i[4], 'g') and i[4][1] == 'llvm.type.test' and len(i) > 8 and i[8]:
                if type(i[5][0]) is int:
                    tt.setdefault(i[5][0], i[8])

        def val(o):
            if type(o) is int:
                return roots.get(o, frozenset())
            if _is(o, 'g'):
                return frozenset((('g', o[1], o[2]),))
            return frozenset()

        for _ in range(3):
            for i in insns:
                op = i[1]
                if op == 'alloca':
                    roots[i[0]] = frozenset((('l', i[0], 0),))
                elif op == 'getelementptr':
                    off = i[5] if not i[6] else None
                    r = set()
                    for k, b, o in val(i[4]):
                        r.add((k, b, None if off is None or o is None else o + off))
                    roots[i[0]] = frozenset(r)
                elif op == 'load':
                    if i[2] != 'p' and i[2] != 64:
                        continue
                    r = set()
                    for k, b, o in val(i[4]):
                        if k == 'l':
                            r |= allocs.get(b, frozenset())
                        elif k == 'a' or k == 'd':
                            r.add(('d', b, None))
                        elif k == 'g':
                            r.add(('dg', b, None))
                        elif k == 'dg':
                            r.add((k, b, None))
                    roots[i[0]] = frozenset(r)
                elif op == 'store':
                    v = val(i[4])
                    if v:
                        for k, b, o in val(i[5]):
                            if k == 'l':
                                allocs[b] = allocs.get(b, frozenset()) | v
                elif op == 'phi':
                    r = frozenset()
                    for b, o in i[4]:
                        r |= val(o)
                    roots[i[0]] = r
                elif op == 'select':
                    roots[i[0]] = val(i[5]) | val(i[6])
                elif op in ('bitcast', 'ptrtoint', 'inttoptr'):
                    roots[i[0]] = val(i[4])
                elif op in ('add', 'sub'):
                    roots[i[0]] = frozenset((k, b, None) for k, b, o in val(i[4]) | val(i[5]))
                elif op in ('call', 'invoke'):
                    # references returned by accessors point into their object
                    if i[2] == 'p' and i[5]:
                        nm = i[4][1] if _is(i[4], 'g') else ''
                        if nm.startswith('_Z') and nm not in ('_Znwy', '_Znwm', '_Znay', '_Znam'):
                            roots[i[0]] = frozenset((('d' if k == 'a' else 'dg' if k == 'g' else k), b, None) for k, b, o in val(i[5][0]))
        s.writes = set()
        s.callees = []
        s.throws = set()
        s.ind = 0
        s.size = len(insns)
        for i in insns:
            op = i[1]
            if op == 'store':
                for k, b, o in val(i[5]):
                    if k != 'l':
                        s.writes.add((k, b, o, i[6]))
            elif op in ('atomicrmw', 'cmpxchg'):
                pass
            elif op in ('call', 'invoke'):
                cv = i[4]
                args = [val(a) for a in i[5]]
                names = []
                if _is(cv, 'g'):
                    names = [cv[1]]
                elif type(cv) is int:
                    ld = ins_by_id.get(cv)
                    if ld and ld[1] == 'load':
                        src = ld[4]
                        off = 0
                        g = ins_by_id.get(src) if type(src) is int else None
                        if g and g[1] == 'getelementptr' and not g[6]:
                            off = g[5]
                            src = g[4]
                        if type(src) is int and src in tt:
                            names = self.prog.vtable_targets(tt[src], off)
                    if not names:
                        s.ind += 1
                for nm in names:
                    if nm.startswith('llvm.'):
                        if nm.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                            n = i[5][2]
                            sz = n[1] if _is(n, 'c') else None
                            for k, b, o in args[0]:
                                if k != 'l':
                                    s.writes.add((k, b, o, sz))
                        continue
                    if nm == '__cxa_throw':
                        s.throws.add(i[5][1][1] if _is(i[5][1], 'g') else '?')
                    if nm == '__cxa_rethrow':
                        s.throws.add('?')
                    s.callees.append((nm, tuple(args)))
        n = len(f['blocks'])
        s.loops = False
        color = [0] * n
        st = [(0, iter(self.prog.succs(f['blocks'][0])))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(self.prog.succs(f['blocks'][v]))))
                    break
                if color[v] == 1:
                    s.loops = True
            else:
                color[u] = 2
                st.pop()
        return s

    def ext_writes(self, nm, nargs):
        """Argument indexes an external function writes through."""
        if nm in C_MODELS_NAMES and nm not in ('memcpy', 'memmove'):
            return ()
        if nm in ('memcpy', 'memmove', 'memset'):
            return (0,)
        ro = NO_WRITE.get(nm)
        if ro is True:
            return ()
        if ro is not None:
            return ro
        if nm.startswith('_Z'):
            d = self.prog.dem(nm)
            if nm.startswith('_ZNK') or d.rstrip().endswith('const'):
                return ()
            if nm in ('_ZdlPv', '_ZdlPvy', '_ZdaPv', '_Znwy', '_Znay'):
                return ()
            return (0,)
        if nm.startswith('__cxa'):
            return ()
        return tuple(range(nargs))

    def _fix(self):
        changed = True
        rounds = 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for n, s in self.sum.items():
                for c, args in s.callees:
                    t = self.sum.get(c)
                    if t is None or self.prog.fns[c].std:
                        if rounds == 1:
                            d = self.prog.dem(c)
                            d = d[5:] if d.startswith('void ') else d
                            sz0 = 24 if d.startswith('std::vector<') else 32 if d.startswith('std::__cxx11::basic_string<') else None
                            for i in self.ext_writes(c, len(args)):
                                if i < len(args):
                                    for k, b, o in args[i]:
                                        if k != 'l' and (k, b, o, sz0 if i == 0 else None) not in s.writes:
                                            s.writes.add((k, b, o, sz0 if i == 0 else None))
                                            changed = True
                        if t is None:
                            continue
                        # a std template may call back into the repository: only its throws and globals matter
                        for w in list(t.writes):
                            if w[0] in ('g', 'dg') and w not in s.writes:
                                s.writes.add(w)
                                changed = True
                        continue
                    for k, b, o, sz in list(t.writes):
                        if k in ('g', 'dg'):
                            nw = {(k, b, o, sz)}
                        else:
                            if b >= len(args):
                                continue
                            nw = set()
                            for k2, b2, o2 in args[b]:
                                if k2 == 'l':
                                    continue
                                if k == 'd':
                                    nw.add(({'a': 'd', 'g': 'dg'}.get(k2, k2), b2, None, None))
                                else:
                                    nw.add((k2, b2, None if o is None or o2 is None else o + o2, sz))
                        if not nw <= s.writes:
                            s.writes |= nw
                            changed = True
                    if not t.throws <= s.throws:
                        s.throws |= t.throws
                        changed = True

    def _noret(self):
        """Functions that never return normally (they throw or stop the program on every path)."""
        from ai import STOP
        stop = {'__cxa_throw', '__cxa_rethrow', '_Unwind_Resume'}
        self.noret = set()
        changed = True
        while changed:
            changed = False
            for n, f in self.raw.items():
                if n in self.noret:
                    continue
                seen = {0}
                work = [0]
                rets = False
                while work and not rets:
                    b = work.pop()
                    cut = None
                    for i in f['blocks'][b]:
                        if i[1] in ('call', 'invoke') and _is(i[4], 'g'):
                            c = i[4][1]
                            if c in stop or c in self.noret or c in STOP or self.prog.short(c) in STOP:
                                cut = i
                                break
                        if i[1] == 'ret':
                            rets = True
                    if rets:
                        break
                    if cut is not None:
                        nxt = [cut[6][1]] if cut[1] == 'invoke' else []
                    else:
                        nxt = self.prog.succs(f['blocks'][b])
                    for v in nxt:
                        if v not in seen:
                            seen.add(v)
                            work.append(v)
                if not rets:
                    self.noret.add(n)
                    changed = True

    # ---- relevance
    def relevant(self, pred_ext, pred_fn, walk_trace=False):
        """Functions from which something interesting can be reached."""
        from ai import STOP, DEFAULT_OPAQUE
        rel = set()
        work = []
        for n, s in self.sum.items():
            F = self.prog.fns[n]
            if F.short in STOP or F.short in ('agentShutdown', 'assertTrace') or F.short in DEFAULT_OPAQUE and not walk_trace:
                continue
            hit = pred_fn(F) if pred_fn else False
            if not hit:
                for c, _ in s.callees:
                    if pred_ext(c, self.prog.short(c)):
                        hit = True
                        break
            if hit:
                rel.add(n)
                work.append(n)
        while work:
            x = work.pop()
            for c in self.callers.get(x, ()):
                if c not in rel:
                    rel.add(c)
                    work.append(c)
        return rel

    def cost(self, n, depth=0):
        """Size of a call tree; infinite when it loops or recurses."""
        from ai import DEFAULT_OPAQUE
        c = self._cost.get(n)
        if c is not None:
            return c
        self._cost[n] = 10 ** 9
        s = self.sum[n]
        t = s.size
        if s.loops or s.ind:
            t = 10 ** 9
        else:
            for c, _ in s.callees:
                if c in self.sum and (self.prog.fns[c].repo):
                    t += 1 if c in self.noret or self.prog.fns[c].short in DEFAULT_OPAQUE else self.cost(c, depth + 1)
        self._cost[n] = min(t, 10 ** 9)
        return self._cost[n]
