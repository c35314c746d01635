"""Linear inequalities over the terms of a state: the (rational) polyhedral reasoning used to show that
amounts stay within bounds.  Everything is interpreted as unsigned integers; a machine operation counts as
exact only where the facts of the path show that it cannot wrap."""
from fractions import Fraction
from ai import C, ZERO, mk, split

M = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64)}
SIZE_MAX = 1 << 62          # no object is larger


class Lin(object):
    def __init__(self, st, extra=(), maxfacts=60, I=None):
        self.st = st
        self.I = I
        self.memo = {}
        self.side = []              # inequalities that hold of the atoms (form >= 0)
        self.facts = []
        self.depth = 0
        self.maxfacts = maxfacts
        for a, b in extra:          # a <= b
            self.facts.append(self.sub(self.form(b), self.form(a)))
        todo = []
        for c, t in st.facts.items():
            if c.k == 'cmp':
                todo.append((c, t))
        # facts without arithmetic first: they justify the exactness of the rest
        todo.sort(key=lambda x: (x[0].a[1].d + x[0].a[2].d, x[0].uid))
        self.exact_pass(todo)
        self.memo = {}
        n = len(self.facts)
        self.exact_pass(todo)

    def exact_pass(self, todo):
        for c, t in todo:
            pred, x, y, w = c.a
            if w not in M:
                continue
            if pred == 'eq':
                if t:
                    d = self.sub(self.form(x, w), self.form(y, w))
                    self.add_fact(d)
                    self.add_fact(self.neg(d))
                elif x is ZERO or y is ZERO:
                    f = self.form(y if x is ZERO else x, w)
                    self.add_fact(self.plus(f, -1))
                else:
                    d = self.sub(self.form(x, w), self.form(y, w))
                    if self.holds(d):
                        self.add_fact(self.plus(d, -1))
                    elif self.holds(self.neg(d)):
                        self.add_fact(self.plus(self.neg(d), -1))
                continue
            if pred == 'slt':
                a, b = self.st.range(x, w), self.st.range(y, w)
                if a[0] < 0 or b[0] < 0:
                    continue
            elif pred != 'ult':
                continue
            fx, fy = self.form(x, w), self.form(y, w)
            if t:
                self.add_fact(self.plus(self.sub(fy, fx), -1))
            else:
                self.add_fact(self.sub(fx, fy))

    def add_fact(self, f):
        if f not in self.facts:
            self.facts.append(f)

    # -- forms: dict atom -> coefficient, None -> constant
    @staticmethod
    def neg(f):
        return {k: -v for k, v in f.items()}

    @staticmethod
    def plus(f, n):
        r = dict(f)
        r[None] = r.get(None, 0) + n
        return r

    @staticmethod
    def add(f, g, k=1):
        r = dict(f)
        for a, c in g.items():
            r[a] = r.get(a, 0) + k * c
            if r[a] == 0 and a is not None:
                del r[a]
        return r

    def sub(self, f, g):
        return self.add(f, g, -1)

    def atom(self, v, w):
        f = {v: 1, None: 0}
        if ('at', v) not in self.memo:
            self.memo[('at', v)] = True
            self.side.append({v: 1, None: 0})
            lo, hi = self.st.range(v, w)
            top = M.get(w, M[64])
            if lo >= 0:
                top = min(top, hi)
                if lo > 0:
                    self.side.append({v: 1, None: -lo})
            if v.k == 'pure' and v.a[0] in ('size', 'length', 'capacity'):
                top = min(top, SIZE_MAX)
            self.side.append({v: -1, None: top})
        return f

    def form(self, v, w=64):
        if w == 'p':
            w = 64
        v = self.st.known(v) if hasattr(self.st, 'known') else v
        key = (v, w)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = self.atom_of(v, w)      # cut recursion
            r = self.memo[key] = self.form0(v, w)
        return r

    def atom_of(self, v, w):
        if v.k == 'c':
            return {None: v.a[0] & M.get(w, M[64])}
        return {v: 1, None: 0}

    def form0(self, v, w):
        if v.k == 'c':
            return {None: v.a[0] & M.get(w, M[64])}
        if w not in M:
            return self.atom(v, w)
        if v.k in ('A', 'gepv', 'elem'):
            return self.pointer(v)
        if v.k == 'pure' and v.a[0] in ('size', 'length'):
            n = made(v.a[1])
            if n is not None:
                return self.form(n, 64)
        if v.k == 'E':
            op = v.a[0]
            if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'lshr', 'and'):
                x, y = v.a[2], v.a[3]
                if op == 'add':
                    if y.k == 'c' and y.a[0] & M[w] > M[w] >> 1:
                        k = (M[w] + 1) - (y.a[0] & M[w])
                        fx = self.form(x, w)
                        r = self.plus(fx, -k)
                        if self.holds(r):
                            return r
                        return self.atom(v, w)
                    r = self.add(self.form(x, w), self.form(y, w))
                    if self.holds(self.add({None: M[w]}, r, -1)):
                        return r
                elif op == 'sub':
                    r = self.sub(self.form(x, w), self.form(y, w))
                    if self.holds(r):
                        return r
                elif op in ('mul', 'shl') and y.k == 'c':
                    k = y.a[0] if op == 'mul' else 1 << y.a[0]
                    r = {a: c * k for a, c in self.form(x, w).items()}
                    if self.holds(self.add({None: M[w]}, r, -1)):
                        return r
                elif op in ('udiv', 'lshr') and y.k == 'c' and y.a[0] > 0:
                    k = y.a[0] if op == 'udiv' else 1 << y.a[0]
                    f = self.form(x, w)
                    r = self.atom(v, w)
                    kr = {a: c * k for a, c in r.items()}
                    self.side.append(self.sub(f, kr))
                    self.side.append(self.plus(self.sub(kr, f), k - 1))
                    return r
                elif op == 'and' and y.k == 'c':
                    f = self.form(x, w)
                    r = self.atom(v, w)
                    self.side.append(self.sub(f, r))
                    return r
            if op == 'zext':
                return self.form(v.a[2], v.a[3])
            if op == 'sext':
                f = self.form(v.a[2], v.a[3])
                if self.st.range(v.a[2], v.a[3])[0] >= 0 or self.holds(self.add({None: M[v.a[3]] >> 1}, f, -1)):
                    return f
            if op == 'trunc':
                f = self.form(v.a[2], v.a[3])
                if self.holds(self.add({None: M[w]}, f, -1)):
                    return f
            if op == 'select':
                pass
        return self.atom(v, w)

    def pointer(self, v):
        """Addresses as base + offset; in-object arithmetic does not wrap."""
        if v.k == 'A' or v.k not in ('gepv', 'elem'):
            b, o = split(v)
            if b is v:
                return self.atom(v, 64)
            return self.plus(self.form(b, 64), o)
        if v.k == 'gepv':
            b, i, s = v.a[0], v.a[1], v.a[2]
            f = self.form(i, 64)
            return self.add(self.form(b, 64), {a: c * s for a, c in f.items()})
        # element of a byte container
        base = mk('elem', v.a[0], ZERO)
        if v.a[1] is ZERO:
            return self.atom(v, 64)
        return self.add(self.atom(base, 64), self.form(v.a[1], 64))

    # -- entailment
    def holds(self, goal):
        """Do the facts imply goal >= 0?"""
        if not any(a is not None for a in goal):
            return goal.get(None, 0) >= 0
        if self.depth > 3:
            return False
        self.depth += 1
        try:
            return self.fm(goal)
        finally:
            self.depth -= 1

    def fm(self, goal):
        ineqs = self.facts + self.side
        # only what is connected to the goal
        atoms = {a for a in goal if a is not None}
        used = []
        for _ in range(4):
            more = set()
            for f in ineqs:
                fa = {a for a in f if a is not None}
                if fa & atoms and f not in used:
                    used.append(f)
                    if len(fa) <= 6:
                        more |= fa
            if more <= atoms:
                break
            atoms |= more
        if len(used) > self.maxfacts:
            used.sort(key=len)
            used = used[:self.maxfacts]
        rows = [{a: Fraction(c) for a, c in f.items() if c or a is None} for f in used]
        rows.append({a: Fraction(-c) for a, c in goal.items() if c or a is None})
        rows[-1][None] = rows[-1].get(None, Fraction(0)) - 1
        return infeasible(rows)

    def le(self, a, b, w=64, wb=None):
        return self.holds(self.sub(self.form(b, wb or w), self.form(a, w)))

    def eq(self, a, b, w=64):
        return self.le(a, b, w) and self.le(b, a, w)


def made(t):
    """The number of elements of a container whose content token says how it was made."""
    if t.k == 'empty':
        return ZERO
    if t.k == 'mod' and t.a[0] == 'resize' and len(t.a) >= 3:
        return t.a[2]
    if t.k == 'cons' and t.a[0] == 'vector' and len(t.a) in (2, 3) and t.a[1].k in ('c', 'E', 'join', 'ld', 'arg', 'call', 'pure', 'hv', 'ghost'):
        return t.a[1]
    return None


def infeasible(rows, cap=1500):
    """Fourier-Motzkin: can the inequalities (each form >= 0) not be satisfied together?"""
    def norm(r):
        k = None
        for a in r:
            if a is not None:
                k = abs(r[a]) if k is None else k
        if k is None:
            return None, r.get(None, 0)
        key = tuple(sorted(((a.uid, a, c / k) for a, c in r.items() if a is not None), key=lambda t: t[0]))
        return key, r.get(None, Fraction(0)) / k

    def reduce(rows):
        best = {}
        for r in rows:
            key, c = norm(r)
            if key is None:
                if c < 0:
                    return None
                continue
            if key not in best or c < best[key]:
                best[key] = c
        out = []
        for key, c in best.items():
            d = {a: k for _, a, k in key}
            d[None] = c
            out.append(d)
        return out
    rows = reduce(rows)
    while rows is not None:
        atoms = {}
        for r in rows:
            for a in r:
                if a is not None:
                    p = atoms.setdefault(a, [0, 0])
                    p[0 if r[a] > 0 else 1] += 1
        if not atoms:
            return False
        a = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1] - atoms[x][0] - atoms[x][1], x.uid))
        pos = [r for r in rows if r.get(a, 0) > 0]
        ng = [r for r in rows if r.get(a, 0) < 0]
        rest = [r for r in rows if not r.get(a, 0)]
        if len(pos) * len(ng) + len(rest) > cap:
            return False
        for p in pos:
            for q in ng:
                n = {}
                for k in set(p) | set(q):
                    if k is a:
                        continue
                    v = p.get(k, Fraction(0)) * -q[a] + q.get(k, Fraction(0)) * p[a]
                    if v or k is None:
                        n[k] = v
                n.setdefault(None, Fraction(0))
                rest.append(n)
        rows = reduce(rest)
    return True


def loop_sum(I, a, b):
    """When a and b are two variables of one loop whose sum never changes, the values they had on entry; else None.

    Coinductive: the sum is assumed equal at every join point and checked at every join."""
    if a.k != 'join' or b.k != 'join' or a.a[-1] != b.a[-1]:
        return None
    sa, sb = a.a[:-1], b.a[:-1]
    key = (sa, sb)
    memo = I.__dict__.setdefault('_sums', {})
    n = sum(len(v) for v in I.pairs.values())
    if key not in memo or memo[key][0] != n:
        memo[key] = (n, _sum(I, sa, sb))
    return memo[key][1].get(a.a[-1])


def strip(v):
    return v.a[0] if v.k == 'old' else v


def _sum(I, sa, sb):
    """For the join points of two variables: their values on entry where the sum is invariant."""
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    init = {}
    bad = set()
    tags = set()
    for tag, evs in I.pairs.items():
        for ev in evs:
            xa = [(v, c) for v, c in ev.items() if v.k == 'join' and v.a[:-1] == sa]
            xb = [(v, c) for v, c in ev.items() if v.k == 'join' and v.a[:-1] == sb]
            if not xa and not xb:
                continue
            tags.add(tag)
            if len(xa) != 1 or len(xb) != 1:
                bad.add(tag)
                continue
            for x, y in zip(xa[0][1], xb[0][1]):
                f = addf(linf(x), linf(y))
                js = [t for t in f if t is not None and strip(t).k == 'join' and strip(t).a[:-1] in (sa, sb)]
                if not js:
                    g = tuple(sorted(((t.uid if t is not None else 0), c) for t, c in f.items()))
                    init.setdefault(tag, []).append((g, (x, y)))
                    continue
                for t in js:
                    par[find(strip(t).a[-1])] = find(tag)
                if len(f) != 2 or len(js) != 2 or any(c != 1 for c in f.values()):
                    bad.add(tag)
                    continue
                p, q = sorted(js, key=lambda t: strip(t).a[:-1] != sa)
                if strip(p).a[:-1] != sa or strip(q).a[:-1] != sb or strip(p).a[-1] != strip(q).a[-1] or (p.k == 'old') != (q.k == 'old'):
                    bad.add(tag)
    comp = {}
    for t in tags:
        comp.setdefault(find(t), []).append(t)
    out = {}
    for ts in comp.values():
        if bad & set(ts):
            continue
        ins = [z for t in ts for z in init.get(t, ())]
        if ins and all(z[0] == ins[0][0] for z in ins):
            for t in ts:
                out[t] = ins[0][1]
    return out


def linf(v):
    """Modular linear form (no exactness needed: sums are compared modulo 2^64)."""
    if isinstance(v, dict):
        return {k: c for k, c in v.items() if c % (1 << 64)}
    if v.k == 'c':
        return {None: v.a[0]} if v.a[0] else {}
    if v.k == 'E' and v.a[0] in ('add', 'sub'):
        return addf(linf(v.a[2]), linf(v.a[3]), 1 if v.a[0] == 'add' else -1)
    if v.k == 'E' and v.a[0] == 'mul' and v.a[3].k == 'c':
        return {k: c * v.a[3].a[0] for k, c in linf(v.a[2]).items()}
    if v.k == 'A':
        b, o = split(v)
        return addf(linf(b), {None: o}) if b is not v else {v: 1}
    if v.k == 'gepv':
        return addf(linf(v.a[0]), {k: c * v.a[2] for k, c in linf(v.a[1]).items()})
    return {v: 1}


def addf(f, g, k=1):
    r = dict(f)
    for a, c in g.items():
        r[a] = (r.get(a, 0) + k * c) % (1 << 64)
        if not r[a]:
            del r[a]
    return r
