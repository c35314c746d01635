"""Path-sensitive abstract interpretation of the IR dumps, with typestate monitors.

The interpreter walks the inter-procedural control-flow graph of a program from
a chosen entry function.  Calls to functions of the repository are entered
(context sensitively); Windows and C/C++ library functions are modelled by
their effect on an abstract memory.  The abstract domain holds constants,
intervals, symbolic identities and the truth of branch conditions; states that
agree at a program point are merged, and are joined (losing facts) when too
many pile up, so that the walk reaches a fixed point.  Exceptional edges
(unwinding, landing pads, destructors) are followed like any other edge.

No constraint solver is involved and nothing of the program is executed.
"""
import heapq, re, sys, time
from collections import namedtuple

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- values
_tab = {}


class V(object):
    __slots__ = ('k', 'a', 'lv', 'd', 'uid')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (mk, (self.k,) + self.a)


FRESH = {'call', 'phi', 'out', 'hv', 'H', 'join', 'L', 'new', 'big', 'tokn', 'exn', 'nd', 'old'}
_EMPTY = frozenset()


def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is not None:
        return v
    v = V()
    v.k = k
    v.a = a
    d = 0
    lv = _EMPTY
    for x in a:
        if type(x) is V:
            if x.d > d:
                d = x.d
            if x.lv:
                lv = lv | x.lv if lv else x.lv
        elif type(x) is tuple:
            for y in x:
                if type(y) is V:
                    if y.d > d:
                        d = y.d
                    if y.lv:
                        lv = lv | y.lv
    v.d = d + 1
    if k == 'top':
        lv = frozenset((v,))
    if k in FRESH:
        lv = lv | frozenset((v,))
    v.lv = lv
    v.uid = len(_tab)
    _tab[key] = v
    return v


_cc = {}


def C(n):
    v = _cc.get(n)
    if v is None:
        v = _cc[n] = mk('c', n)
    return v


ZERO = C(0)
ONE = C(1)
UNDEF = mk('u')
TOP = mk('top')


def G(name):
    return mk('g', name)


def A(base, off):
    if off == 0:
        return base
    if base.k == 'A':
        return A(base.a[0], base.a[1] + off)
    if base.k == 'c':
        return C((base.a[0] + off) & M64)
    return mk('A', base, off)


def split(p):
    if p.k == 'A':
        return p.a[0], p.a[1]
    return p, 0


M64 = (1 << 64) - 1
MASK = {w: (1 << w) - 1 for w in range(1, 129)}


def sgn(n, w):
    n &= MASK[w]
    return n - (1 << w) if n >> (w - 1) else n


def show(v, depth=0):
    if type(v) is not V:
        return repr(v)
    if depth > 5:
        return '..'
    k, a = v.k, v.a
    if k == 'c':
        return hex(a[0]) if a[0] > 4096 else str(a[0])
    if k == 'g':
        return '@' + a[0]
    if k == 'A':
        return '%s+%d' % (show(a[0], depth + 1), a[1])
    if k == 'ld':
        return '[%s+%s]' % (show(a[0], depth + 1), a[1])
    if k == 'call':
        return '%s#%s' % (a[2], a[0])
    if k == 'arg':
        return a[1]
    return '%s(%s)' % (k, ','.join(show(x, depth + 1) if type(x) is V else
                                   ('(' + ','.join(show(y, depth + 1) for y in x) + ')' if type(x) is tuple else str(x)) for x in a))


def contains(v, pred):
    """Does any sub-term of v satisfy pred?"""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if type(x) is not V:
            if type(x) is tuple:
                st.extend(x)
            continue
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if pred(x):
            return True
        st.extend(x.a)
    return False


def rebuild(k, a):
    """mk() with the folding that a changed operand can enable."""
    for x in a:
        if x is TOP and k != 'cons':
            return TOP
    if k == 'cmp':
        return icmp(a[0], a[1], a[2], a[3])
    if k == 'not':
        return neg(a[0])
    if k == 'A':
        return A(a[0], a[1])
    if k == 'E' and a[0] in BINOPS:
        return binop(a[0], a[1], a[2], a[3])
    if k == 'E' and len(a) == 4 and a[0] in ('zext', 'sext', 'trunc'):
        return cast(a[0], a[1], a[2], a[3])
    return mk(k, *a)


BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}


def subst(v, m, memo=None):
    """Replace symbols by the map m (applied once, innermost terms are not revisited)."""
    if type(v) is V:
        if not v.lv or v.lv.isdisjoint(m):
            return v
        r = m.get(v)
        if r is not None:
            return r
        if memo is None:
            memo = {}
        r = memo.get(v)
        if r is None:
            r = memo[v] = rebuild(v.k, tuple(subst(x, m, memo) for x in v.a))
        return r
    if type(v) is tuple:
        return tuple(subst(x, m, memo) for x in v)
    if type(v) is frozenset:
        return frozenset(subst(x, m, memo) for x in v)
    return v


def replace(v, a, b):
    """Replace the (arbitrary) sub-term a of v by b."""
    if v is a:
        return b
    if type(v) is V:
        if v.d <= a.d or not (a.lv <= v.lv):
            return v
        return rebuild(v.k, tuple(replace(x, a, b) for x in v.a))
    if type(v) is tuple:
        return tuple(replace(x, a, b) for x in v)
    return v


# ---------------------------------------------------------------- expressions
def fold(op, w, x, y):
    m = MASK[w]
    if op == 'add':
        return (x + y) & m
    if op == 'sub':
        return (x - y) & m
    if op == 'mul':
        return (x * y) & m
    if op == 'and':
        return x & y
    if op == 'or':
        return x | y
    if op == 'xor':
        return (x ^ y) & m
    if op == 'shl':
        return (x << y) & m if y < w else 0
    if op == 'lshr':
        return (x & m) >> y if y < w else 0
    if op == 'ashr':
        return (sgn(x, w) >> min(y, w - 1)) & m
    if op == 'udiv':
        return (x // y) & m if y else None
    if op == 'urem':
        return (x % y) & m if y else None
    if op in ('sdiv', 'srem'):
        a, b = sgn(x, w), sgn(y, w)
        if b == 0:
            return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return (q if op == 'sdiv' else a - q * b) & m
    return None


MAXD = 14


def isptr(v):
    return v.k in ('A', 'g', 'L', 'H')


def binop(op, w, x, y):
    if x is TOP or y is TOP:
        return TOP
    if x.k == 'c' and y.k == 'c':
        r = fold(op, w, x.a[0], y.a[0])
        if r is not None:
            return C(r)
    if x.k == 'c' and op in ('add', 'mul', 'and', 'or', 'xor'):
        x, y = y, x
    if y.k == 'c':
        c = y.a[0]
        if c == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return x
        if c == 0 and op in ('and', 'mul'):
            return ZERO
        if c == 1 and op in ('mul', 'udiv', 'sdiv'):
            return x
        if w == 1:
            if op == 'xor':
                return neg(x)
            if op == 'and':
                return x
            if op == 'or':
                return ONE
        if op == 'sub':
            op, y, c = 'add', C((-c) & MASK[w]), (-c) & MASK[w]
        if op == 'add':
            if w == 64 and isptr(x):
                return A(x, sgn(c, 64))
            if x.k == 'E' and x.a[0] == 'add' and x.a[1] == w and x.a[3].k == 'c':
                return binop('add', w, x.a[2], C((x.a[3].a[0] + c) & MASK[w]))
        if op == 'and':
            if c == MASK[w]:
                return x
            if x.k == 'E' and x.a[0] == 'and' and x.a[3].k == 'c':
                return binop('and', w, x.a[2], C(x.a[3].a[0] & c))
            if x.k == 'E' and x.a[0] == 'zext' and x.a[2].k != 'c':
                pass
    if x is y:
        if op in ('sub', 'xor'):
            return ZERO
        if op in ('and', 'or'):
            return x
    if op == 'sub' and w == 64:
        bx, ox = split(x)
        by, oy = split(y)
        if bx is by:
            return C((ox - oy) & M64)
    if op == 'sub' and x.k == 'E' and x.a[0] == 'add' and x.a[1] == w:
        if x.a[2] is y:
            return x.a[3]
        if x.a[3] is y:
            return x.a[2]
    if op == 'add' and y.k == 'E' and y.a[0] == 'sub' and y.a[3] is x:
        return y.a[2]
    if op == 'add' and x.k == 'E' and x.a[0] == 'sub' and x.a[3] is y:
        return x.a[2]
    if op in ('add', 'mul', 'and', 'or', 'xor') and y.k != 'c' and x.uid > y.uid:
        x, y = y, x
    return mk('E', op, w, x, y)


def neg(x):
    if x is TOP:
        return TOP
    if x.k == 'c':
        return C(1 - (x.a[0] & 1))
    if x.k == 'not':
        return x.a[0]
    return mk('not', x)


def cast(op, w, x, w0):
    if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
        if op in ('ptrtoint', 'inttoptr') and isinstance(w, int) and isinstance(w0, int) and w != w0:
            pass
        return x
    if x is TOP:
        return TOP
    if not isinstance(w, int) or not isinstance(w0, int):
        return mk('E', op, 0, x)
    if x.k == 'c':
        n = x.a[0]
        if op == 'trunc':
            return C(n & MASK[w])
        if op == 'zext':
            return C(n & MASK[w0])
        if op == 'sext':
            return C(sgn(n, w0) & MASK[w])
    if x.k == 'E' and x.a[0] in ('zext', 'sext'):
        ow, inner, iw = x.a[1], x.a[2], x.a[3]
        if op == 'trunc':
            if iw == w:
                return inner
            if w < iw:
                return cast('trunc', w, inner, iw)
            return cast(x.a[0], w, inner, iw)
        if op == x.a[0]:
            return cast(op, w, inner, iw)
        if op == 'sext' and x.a[0] == 'zext':
            return cast('zext', w, inner, iw)
    if op == 'trunc' and x.k == 'E' and x.a[0] == 'trunc':
        return cast('trunc', w, x.a[2], x.a[3])
    if op == 'trunc' and x.k == 'ext':
        pass
    return mk('E', op, w, x, w0)


SWAP = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'ult': 'ugt', 'ule': 'uge', 'eq': 'eq', 'ne': 'ne'}


def icmp(pred, x, y, w):
    """Canonical condition: eq / slt / ult atoms and their negation."""
    if w == 'p':
        w = 64
    if TOP in x.lv or TOP in y.lv:
        return TOP
    if not isinstance(w, int):
        return mk('cmp', pred, x, y, 64)
    if x.k == 'c' and y.k == 'c':
        a, b = x.a[0] & MASK[w], y.a[0] & MASK[w]
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = pred[-2:]
        return C(int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]))
    if x is y:
        return C(int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')))
    if pred == 'ne':
        return neg(icmp('eq', x, y, w))
    if pred in ('sgt', 'ugt'):
        return icmp(SWAP[pred], y, x, w)
    if pred in ('sle', 'ule'):
        return neg(icmp(pred[0] + 'lt', y, x, w))
    if pred in ('sge', 'uge'):
        return neg(icmp(pred[0] + 'lt', x, y, w))
    if pred == 'eq':
        if x.k == 'c':
            x, y = y, x
        if y.k == 'c':
            if w == 1:
                return x if y.a[0] & 1 else neg(x)
            n = y.a[0]
            if x.k == 'E' and x.a[0] in ('zext', 'sext'):
                iw = x.a[3]
                if iw == 1:
                    if n == 0:
                        return neg(x.a[2])
                    if (n == 1 and x.a[0] == 'zext') or (n == MASK[w] and x.a[0] == 'sext'):
                        return x.a[2]
                    return ZERO
                nn = n & MASK[iw]
                ok = (nn == n) if x.a[0] == 'zext' else (sgn(nn, iw) & MASK[w]) == n
                return icmp('eq', x.a[2], C(nn), iw) if ok else ZERO
            if x.k == 'E' and x.a[0] == 'add' and x.a[3].k == 'c':
                return icmp('eq', x.a[2], C((n - x.a[3].a[0]) & MASK[w]), w)
            if x.k == 'g' and 0 < n < 4096:
                return ZERO
            if n == 0:
                bx, ox = split(x)
                if bx.k in ('L', 'H', 'g', 'elem', 'elems') or (x.k == 'A' and w == 64 and 0 < ox < 65536):
                    return ZERO
                if x.k == 'E' and x.a[0] in ('sub',):
                    return icmp('eq', x.a[2], x.a[3], w)
        else:
            bx, ox = split(x)
            by, oy = split(y)
            if bx is by and ox != oy:
                return ZERO
            if bx.k in ('L', 'H', 'g') and by.k in ('L', 'H', 'g') and bx is not by:
                return ZERO
            if x.k == 'E' and y.k == 'E' and x.a[0] in ('zext', 'sext') and x.a[0] == y.a[0] and x.a[3] == y.a[3] and x.a[3] > 1:
                return icmp('eq', x.a[2], y.a[2], x.a[3])
            if x.uid > y.uid:
                x, y = y, x
    if pred == 'ult' and y.k == 'c' and y.a[0] == 1:
        return icmp('eq', x, ZERO, w)
    if pred == 'ult' and x.k == 'c' and x.a[0] == 0:
        return neg(icmp('eq', y, ZERO, w))
    return mk('cmp', pred, x, y, w)


# ---------------------------------------------------------------- program
def short_name(dem):
    """'std::vector<char>::size() const' -> 'std::vector::size' ; drops templates, parameters, return type."""
    out = []
    depth = 0
    i = 0
    n = len(dem)
    s = dem
    # protect operator names
    s = s.replace('operator<<', 'operator\x01').replace('operator<=', 'operator\x02').replace('operator<', 'operator\x03')
    s = s.replace('operator>>', 'operator\x04').replace('operator>=', 'operator\x05').replace('operator->', 'operator\x06').replace('operator>', 'operator\x07')
    s = s.replace('operator()', 'operator\x08')
    s = s.replace('(anonymous namespace)', '\x0e')
    s = s.replace('{lambda(', '{lambda\x0f')
    while i < len(s):
        ch = s[i]
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            if ch in '(\x0f':
                # the parameters: of an enclosing function (a local class or a lambda follows), or the end
                d, j = 0, i
                while j < len(s):
                    d += (s[j] in '(\x0f') - (s[j] == ')')
                    j += 1
                    if d == 0:
                        break
                if ch == '(':
                    m = re.match(r'( const| volatile| &+)*::', s[j:])
                    if not m:
                        break
                    i = j + m.end() - 2
                else:
                    i = j
                continue
            out.append(ch)
        i += 1
    r = ''.join(out).strip()
    r = r.split(' ')[-1] if not re.search(r'operator (new|delete|\w)', r) else r[r.rfind('operator') if '::' not in r else 0:]
    for a, b in (('\x01', '<<'), ('\x02', '<='), ('\x03', '<'), ('\x04', '>>'), ('\x05', '>='), ('\x06', '->'), ('\x07', '>'), ('\x08', '()'), ('\x0e::', ''), ('\x0e', '')):
        r = r.replace(a, b)
    return r


class Fn(object):
    __slots__ = ('name', 'dem', 'short', 'file', 'line', 'repo', 'blocks', 'nargs', 'argn', 'argt', 'ret', 'sret', 'nounwind', 'noreturn',
                 'link', 'cls', 'dty', 'pn', 'preds', 'loophead', 'live', 'std', 'dllexport', 'mut', 'wto', 'itype', 'liveafter', 'choice')

    def width(self, k):
        w = self.itype.get(k)
        return w


WALK_STD = {'move.h', 'unique_ptr.h', 'tuple', 'stl_pair.h', 'stl_algobase.h', 'array', 'initializer_list', 'atomic_base.h',
            'invoke.h', 'utility', 'type_traits', 'ptr_traits.h'}
WALK_ALGO = {'std::min', 'std::max', 'std::swap', 'std::move', 'std::forward', 'std::addressof', 'std::__addressof', 'std::exchange', 'std::__exchange'}
TERMS = {'br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'}


class Program(object):
    def __init__(self, dump, repo='/repo'):
        self.raw = dump
        self.fns = {}
        self.by_short = {}
        self.globals = dump['globals']
        self.classes = dump['classes']
        self.enums = dump['enums']
        self.decls = dump['decls']
        self._short = {}
        for name, f in dump['funcs'].items():
            F = Fn()
            F.name = name
            F.dem = f['dem']
            F.short = short_name(f['dem'])
            F.file = f.get('file', '')
            F.line = f.get('line', 0)
            F.repo = F.file.startswith(repo + '/src/') or '/engine/drivers/' in F.file
            F.std = not F.repo
            F.nargs = f['nargs']
            F.argn = f['argn']
            F.argt = f['argt']
            F.ret = f['ret']
            F.sret = f['sret']
            F.nounwind = f['nounwind']
            F.noreturn = f['noreturn']
            F.link = f['link']
            F.dllexport = f['dllexport']
            F.cls = f.get('cls')
            F.dty = f.get('dty', [])
            F.pn = f.get('pn', {})
            F.blocks = None
            F.mut = f['blocks']
            F.live = None
            self.fns[name] = F
            self.by_short.setdefault(F.short, []).append(F)
            self._short[name] = F.short
        self._vt = None
        self.classinfo = {}

    # lazily decoded bodies
    def body(self, F):
        if F.blocks is None:
            F.blocks = [[self._dec(i) for i in b] for b in F.mut]
            n = len(F.blocks)
            F.preds = [set() for _ in range(n)]
            for bi, b in enumerate(F.blocks):
                for s in self.succs(b):
                    F.preds[s].add(bi)
            # loop heads: targets of back edges in DFS
            F.loophead = set()
            color = [0] * n
            st = [(0, iter(self.succs(F.blocks[0])))]
            color[0] = 1
            while st:
                u, it = st[-1]
                for s in it:
                    if color[s] == 0:
                        color[s] = 1
                        st.append((s, iter(self.succs(F.blocks[s]))))
                        break
                    elif color[s] == 1:
                        F.loophead.add(s)
                else:
                    color[u] = 2
                    st.pop()
            self._liveness(F)
            self._wto(F)
            F.itype = {}
            for k in range(F.nargs):
                F.itype[k] = F.argt[k]
            for b in F.blocks:
                for i in b:
                    F.itype[i[0]] = i[2]
            F.liveafter = {}
            F.mut = None
        return F.blocks

    def _wto(self, F):
        """Weak topological order: loop bodies come before what follows the loop."""
        n = len(F.blocks)
        succ = [self.succs(b) for b in F.blocks]
        order = []

        def comps(nodes, entry):
            # Tarjan; components are produced in reverse topological order
            idx, low, onst, stk, res = {}, {}, set(), [], []
            for root in entry:
                if root in idx or root not in nodes:
                    continue
                st = [(root, iter(succ[root]))]
                idx[root] = low[root] = len(idx)
                stk.append(root)
                onst.add(root)
                while st:
                    u, it = st[-1]
                    for v in it:
                        if v not in nodes:
                            continue
                        if v not in idx:
                            idx[v] = low[v] = len(idx)
                            stk.append(v)
                            onst.add(v)
                            st.append((v, iter(succ[v])))
                            break
                        elif v in onst:
                            low[u] = min(low[u], idx[v])
                    else:
                        st.pop()
                        if st:
                            low[st[-1][0]] = min(low[st[-1][0]], low[u])
                        if low[u] == idx[u]:
                            c = []
                            while True:
                                v = stk.pop()
                                onst.discard(v)
                                c.append(v)
                                if v == u:
                                    break
                            res.append((u, c))
            res.reverse()
            for u, c in res:
                if len(c) == 1:
                    order.append(u)
                else:
                    order.append(u)
                    sub = set(c)
                    sub.discard(u)
                    comps(sub, [v for v in succ[u] if v in sub] + sorted(sub))

        comps(set(range(n)), [0])
        F.wto = [n] * n
        for i, b in enumerate(order):
            F.wto[b] = i
        # heads of the components are the only blocks that need widening
    @staticmethod
    def succs(b):
        t = b[-1]
        op = t[1]
        if op == 'br':
            return [t[5]] if t[4] is None else [t[5], t[6]]
        if op == 'switch':
            return [t[5]] + [x[1] for x in t[6]]
        if op == 'invoke':
            return list(t[6])
        return []

    def _opd(self, o):
        if isinstance(o, int):
            return o
        if isinstance(o, list) and o and isinstance(o[0], str):
            k = o[0]
            if k == 'c':
                return C(o[1])
            if k == 'g':
                return A(G(o[1]), o[2])
            if k == 'z':
                return mk('zero')
            if k == 'u':
                return UNDEF
            return mk('const', k)
        return o

    def _dec(self, i):
        op = i[1]
        o = self._opd
        if op == 'alloca':
            return tuple(i)
        if op == 'load':
            return (i[0], op, i[2], i[3], o(i[4]), i[5])
        if op == 'store':
            return (i[0], op, i[2], i[3], o(i[4]), o(i[5]), i[6], i[7])
        if op == 'getelementptr':
            return (i[0], op, i[2], i[3], o(i[4]), i[5], tuple((o(x), s) for x, s in i[6]))
        if op in ('call', 'invoke'):
            return (i[0], op, i[2], i[3], o(i[4]), tuple(o(x) for x in i[5]), tuple(i[6]) if i[6] else None, i[7], i[8] if len(i) > 8 else None)
        if op == 'br':
            return (i[0], op, i[2], i[3], None if i[4] is None else o(i[4])) + tuple(i[5:])
        if op == 'switch':
            return (i[0], op, i[2], i[3], o(i[4]), i[5], tuple((a, b) for a, b in i[6]))
        if op == 'phi':
            return (i[0], op, i[2], i[3], {b: o(v) for v, b in i[4]})
        if op in ('icmp', 'fcmp'):
            return (i[0], op, i[2], i[3], i[4], o(i[5]), o(i[6]), i[7])
        if op == 'landingpad':
            return (i[0], op, i[2], i[3], i[4], tuple(o(x) for x in i[5]))
        if op == 'extractvalue':
            return (i[0], op, i[2], i[3], o(i[4]), tuple(i[5]))
        if op == 'insertvalue':
            return (i[0], op, i[2], i[3], o(i[4]), o(i[5]), tuple(i[6]))
        return (i[0], op, i[2], i[3]) + tuple(o(x) if not (isinstance(x, (str,)) and not isinstance(x, list)) else x for x in i[4:])

    def _uses(self, i):
        op = i[1]
        if op == 'call' or op == 'invoke':
            us = [i[4]] + list(i[5])
        elif op == 'phi':
            us = []
        elif op == 'getelementptr':
            us = [i[4]] + [x for x, s in i[6]]
        elif op == 'switch':
            us = [i[4]]
        elif op == 'br':
            us = [i[4]]
        elif op == 'alloca':
            us = []
        elif op == 'load':
            us = [i[4]]
        elif op == 'store':
            us = [i[4], i[5]]
        elif op in ('icmp', 'fcmp'):
            us = [i[5], i[6]]
        elif op == 'extractvalue':
            us = [i[4]]
        elif op == 'insertvalue':
            us = [i[4], i[5]]
        elif op == 'landingpad':
            us = []
        elif op in CASTS:
            us = [i[4]]
        else:
            us = i[4:]
        return [u for u in us if type(u) is int]

    def _liveness(self, F):
        n = len(F.blocks)
        use = []
        dfn = []
        for b in F.blocks:
            u, d = set(), set()
            for i in b:
                for x in self._uses(i):
                    if x not in d:
                        u.add(x)
                d.add(i[0])
            use.append(u)
            dfn.append(d)
        livein = [set() for _ in range(n)]
        changed = True
        succ = [self.succs(b) for b in F.blocks]
        while changed:
            changed = False
            for bi in range(n - 1, -1, -1):
                out = set()
                for s in succ[bi]:
                    t = set(livein[s])
                    come = set()
                    for i in F.blocks[s]:
                        if i[1] != 'phi':
                            break
                        v = i[4].get(bi)
                        if type(v) is int:
                            come.add(v)
                        t.discard(i[0])
                    out |= t | come
                ni = use[bi] | (out - dfn[bi])
                for i in F.blocks[bi]:
                    if i[1] == 'phi':
                        ni.add(i[0])      # phi results live-in (already evaluated on entry)
                    else:
                        break
                if ni != livein[bi]:
                    livein[bi] = ni
                    changed = True
        F.live = livein
        F.choice = self._choices(F)

    def _choices(self, F):
        """Blocks that only put together `a < b ? a : b` and the like: no merge there, the comparison stays known."""
        out = set()
        for bi, b in enumerate(F.blocks):
            if not b or b[0][1] != 'phi' or b[0][2] in (1, 8) or bi in F.loophead or len(F.preds[bi]) != 2 or len(b) > 1 and b[1][1] == 'phi':
                continue
            ups = []
            for p in F.preds[bi]:
                chain = [p]
                while len(F.preds[chain[-1]]) == 1 and len(chain) < 5 and chain[-1] not in F.loophead:
                    chain.append(list(F.preds[chain[-1]])[0])
                ups.append(chain)
            ds = [d for d in ups[0] if d in ups[1]]
            if not ds:
                continue
            br = F.blocks[ds[0]][-1]
            if br[1] != 'br' or br[4] is None or type(br[4]) is not int:
                continue
            for i in F.blocks[ds[0]]:
                if i[0] == br[4] and i[1] == 'icmp' and i[4] not in ('eq', 'ne') and i[7] != 'p':
                    out.add(bi)
        return out

    def effects(self):
        if getattr(self, '_eff', None) is None:
            from effects import Effects
            self._eff = Effects(self)
        return self._eff

    def short(self, name):
        s = self._short.get(name)
        if s is None:
            d = self.decls.get(name)
            s = self._short[name] = short_name(d['dem']) if d else name
        return s

    def dem(self, name):
        f = self.fns.get(name)
        if f:
            return f.dem
        d = self.decls.get(name)
        return d['dem'] if d else name

    def nounwind(self, name):
        f = self.fns.get(name)
        if f:
            return f.nounwind
        d = self.decls.get(name)
        return bool(d and d['nounwind'])

    def find(self, short):
        return self.by_short.get(short, [])

    # ---- class layouts
    def field(self, cls, path):
        """(offset, size) of a member path 'a.b' in class cls, looking into bases."""
        off = 0
        size = 0
        cur = cls
        for part in path.split('.'):
            r = self._member(cur, part)
            if r is None:
                raise KeyError('%s has no member %s' % (cur, part))
            off += r[0]
            size = r[1]
            cur = r[2]
        return off, size

    def _member(self, cls, name):
        c = self.classes.get(cls)
        if c is None:
            return None
        for m in c['m']:
            if m[0] == name:
                return m[1], m[2], m[4]
        for m in c['m']:
            if m[0] == '<base>' or m[0] == '':
                r = self._member(m[4], name)
                if r:
                    return m[1] + r[0], r[1], r[2]
        return None

    def field_at(self, cls, off):
        """Name of the member of cls at a byte offset (best effort)."""
        c = self.classes.get(cls)
        if c is None:
            return None
        for m in c['m']:
            if m[1] <= off < m[1] + max(m[2], 1):
                sub = None
                if m[4] and m[4] in self.classes and (off - m[1] > 0 or m[0] == '<base>'):
                    sub = self.field_at(m[4], off - m[1])
                if m[0] == '<base>':
                    if sub:
                        return sub
                    continue
                return m[0] + ('.' + sub if sub else '')
        return None

    # ---- virtual tables
    def vtable_targets(self, cls, slot_off):
        """Functions that a virtual call through class `cls` (mangled type id) can reach."""
        if self._vt is None:
            self._vt = {}
            for g, d in self.globals.items():
                for off, t in d.get('types', ()):
                    self._vt.setdefault(t, []).append((g, off))
        res = []
        for g, off in self._vt.get(cls, ()):
            for o, sz, val in self.globals[g].get('init', ()):
                if o == off + slot_off and val[0] == 'g':
                    n = val[1]
                    if n not in res and n != '__cxa_pure_virtual':
                        res.append(n)
        return res

    def ti_bases(self, ti):
        """Type-info object -> set of names of itself and its bases."""
        seen = set()
        st = [ti]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            for o, sz, val in self.globals.get(t, {}).get('init', ()):
                if o >= 16 and val[0] == 'g' and val[1].startswith('_ZTI'):
                    st.append(val[1])
        return seen

    def literal(self, v):
        """Text of a constant string, or None."""
        b, o = split(v)
        if b.k != 'g':
            return None
        g = self.globals.get(b.a[0])
        if not g or not g.get('const') or 'init' not in g:
            return None
        chars = {}
        zero = []
        sz = 1
        for off, s, val in g['init']:
            if val[0] == 'c':
                if s > 4:
                    return None
                chars[off] = val[1]
                sz = s
            elif val[0] == 'z':
                zero.append((off, s))
            else:
                return None
        if not chars:
            return '' if zero else None
        out = []
        i = o
        while i in chars and chars[i] != 0:
            out.append(chr(chars[i]))
            i += sz
        return ''.join(out)

    def ginit(self, g, off, size):
        d = self.globals.get(g)
        if not d or 'init' not in d:
            return None
        for o, s, val in d['init']:
            if o == off and (s == size):
                if val[0] == 'c':
                    return C(val[1])
                if val[0] == 'g':
                    return A(G(val[1]), val[2])
                if val[0] == 'z':
                    return ZERO
                return None
            if val[0] == 'z' and o <= off and off + size <= o + s:
                return ZERO
        return None


CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'freeze'}
BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}

# ---------------------------------------------------------------- state


class Frame(object):
    __slots__ = ('ctx', 'fn', 'blk', 'idx', 'env', 'prev', 'ins')

    def copy(self):
        f = Frame()
        f.ctx, f.fn, f.blk, f.idx, f.prev, f.ins = self.ctx, self.fn, self.blk, self.idx, self.prev, self.ins
        f.env = dict(self.env)
        return f


_ctx = {}
_ctxinfo = []


def ctx_id(parent, fname, iid):
    k = (parent, fname, iid)
    c = _ctx.get(k)
    if c is None:
        c = _ctx[k] = len(_ctxinfo)
        _ctxinfo.append(k)
    return c


class State(object):
    __slots__ = ('frames', 'mem', 'reg', 'facts', 'rng', 'mon', 'exc', 'caught', 'used', 'trace', 'vt', 'ep')

    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        s.mem = dict(self.mem)
        s.reg = dict(self.reg)
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.mon = self.mon
        s.exc = self.exc
        s.caught = self.caught
        s.used = set(self.used)
        s.trace = self.trace
        s.vt = dict(self.vt)
        s.ep = dict(self.ep)
        return s

    # --- ranges and truth ------------------------------------------------
    def range(self, v, w, depth=0):
        if v.k == 'c':
            n = sgn(v.a[0], w)
            return n, n
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        r = self.rng.get(v)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if depth < 6:
            l2 = h2 = None
            if v.k == 'E':
                op = v.a[0]
                if op == 'zext':
                    iw = v.a[3]
                    a, b = self.range(v.a[2], iw, depth + 1)
                    if a < 0:
                        l2, h2 = 0, MASK[iw]
                    else:
                        l2, h2 = a, b
                elif op == 'sext':
                    l2, h2 = self.range(v.a[2], v.a[3], depth + 1)
                elif op == 'trunc':
                    a, b = self.range(v.a[2], v.a[3], depth + 1)
                    if lo <= a and b <= hi:
                        l2, h2 = a, b
                elif op == 'add':
                    a, b = self.range(v.a[2], w, depth + 1)
                    c, d = self.range(v.a[3], w, depth + 1)
                    if a + c >= -(1 << (w - 1)) and b + d < (1 << (w - 1)):
                        l2, h2 = a + c, b + d
                elif op == 'sub':
                    a, b = self.range(v.a[2], w, depth + 1)
                    c, d = self.range(v.a[3], w, depth + 1)
                    if a - d >= -(1 << (w - 1)) and b - c < (1 << (w - 1)):
                        l2, h2 = a - d, b - c
                elif op == 'mul':
                    a, b = self.range(v.a[2], w, depth + 1)
                    c, d = self.range(v.a[3], w, depth + 1)
                    ps = (a * c, a * d, b * c, b * d)
                    if min(ps) >= -(1 << (w - 1)) and max(ps) < (1 << (w - 1)):
                        l2, h2 = min(ps), max(ps)
                elif op == 'and' and v.a[3].k == 'c' and v.a[3].a[0] < (1 << (w - 1)):
                    l2, h2 = 0, v.a[3].a[0]
                elif op in ('lshr', 'udiv') and v.a[3].k == 'c' and v.a[3].a[0] > 0:
                    a, b = self.range(v.a[2], w, depth + 1)
                    if op == 'lshr':
                        l2, h2 = (a >> v.a[3].a[0], b >> v.a[3].a[0]) if a >= 0 else (0, MASK[w] >> v.a[3].a[0])
                    else:
                        l2, h2 = (a // v.a[3].a[0], b // v.a[3].a[0]) if a >= 0 else (0, MASK[w] // v.a[3].a[0])
                elif op == 'srem' and v.a[3].k == 'c' and 0 < v.a[3].a[0] < (1 << (w - 1)):
                    l2, h2 = -v.a[3].a[0] + 1, v.a[3].a[0] - 1
                elif op == 'urem' and v.a[3].k == 'c' and 0 < v.a[3].a[0] < (1 << (w - 1)):
                    l2, h2 = 0, v.a[3].a[0] - 1
                elif op == 'or':
                    a, b = self.range(v.a[2], w, depth + 1)
                    c, d = self.range(v.a[3], w, depth + 1)
                    if a >= 0 and c >= 0:
                        l2, h2 = max(a, c), (1 << max(b.bit_length(), d.bit_length())) - 1
                elif op == 'select':
                    a, b = self.range(v.a[3], w, depth + 1)
                    c, d = self.range(v.a[4], w, depth + 1)
                    l2, h2 = min(a, c), max(b, d)
            elif v.k == 'pure' and v.a[0] in ('size', 'length', 'capacity'):
                l2, h2 = 0, (1 << 62)
            elif v.k == 'ext':
                pass
            if l2 is not None:
                lo, hi = max(lo, l2), min(hi, h2)
        return lo, hi

    def truth(self, v):
        k = v.k
        if k == 'c':
            return bool(v.a[0] & 1)
        if k == 'top':
            return None
        if k == 'not':
            t = self.truth(v.a[0])
            return None if t is None else not t
        t = self.facts.get(v)
        if t is not None:
            return t
        if k == 'cmp':
            pred, x, y, w = v.a
            if pred == 'eq':
                if w <= 64:
                    a = self.range(x, w)
                    b = self.range(y, w)
                    if a[1] < b[0] or b[1] < a[0]:
                        return False
                    if a[0] == a[1] == b[0] == b[1]:
                        return True
                    f = self.facts
                    if f.get(mk('cmp', 'ult', y, x, w)) or f.get(mk('cmp', 'ult', x, y, w)) or f.get(mk('cmp', 'slt', x, y, w)) or f.get(mk('cmp', 'slt', y, x, w)):
                        return False
                return None
            if pred == 'slt':
                a = self.range(x, w)
                b = self.range(y, w)
                if a[1] < b[0]:
                    return True
                if a[0] >= b[1]:
                    return False
                if self.facts.get(mk('cmp', 'slt', y, x, w)) or self.facts.get(icmp('eq', x, y, w)):
                    return False
                return None
            if pred == 'ult':
                a = self.range(x, w)
                b = self.range(y, w)
                if a[0] >= 0 and b[0] >= 0:
                    if a[1] < b[0]:
                        return True
                    if a[0] >= b[1]:
                        return False
                if self.facts.get(mk('cmp', 'ult', y, x, w)) or self.facts.get(icmp('eq', x, y, w)):
                    return False
                return None
        if k == 'E':
            op = v.a[0]
            if op == 'trunc' and v.a[1] == 1:
                x = v.a[2]
                r = self.rng.get(x)
                if r and r[0] == r[1]:
                    return bool(r[0] & 1)
                return None
            if op in ('and', 'or'):
                a, b = self.truth(v.a[2]), self.truth(v.a[3])
                if op == 'and':
                    if a is False or b is False:
                        return False
                    if a and b:
                        return True
                else:
                    if a or b:
                        return True
                    if a is False and b is False:
                        return False
                return None
            if op == 'select':
                c = self.truth(v.a[2])
                if c is not None:
                    return self.truth(v.a[3] if c else v.a[4])
                a, b = self.truth(v.a[3]), self.truth(v.a[4])
                if a is not None and a == b:
                    return a
        return None

    def setrange(self, v, w, lo, hi):
        """Intersect; False if empty.  Propagates through casts and constant additions."""
        if v.k == 'c':
            n = sgn(v.a[0], w)
            return lo <= n <= hi
        a, b = self.range(v, w)
        lo, hi = max(lo, a), min(hi, b)
        # trim disequalities at the ends
        while lo <= hi and self.facts.get(mk('cmp', 'eq', v, C(lo & MASK[w]), w)) is False:
            lo += 1
        while lo <= hi and self.facts.get(mk('cmp', 'eq', v, C(hi & MASK[w]), w)) is False:
            hi -= 1
        if lo > hi:
            return False
        if lo > a or hi < b:
            self.rng[v] = (lo, hi)
        if v.k == 'E':
            op = v.a[0]
            if op == 'zext':
                iw = v.a[3]
                if hi < (1 << (iw - 1)):
                    return self.setrange(v.a[2], iw, lo, hi)
            elif op == 'sext':
                return self.setrange(v.a[2], v.a[3], lo, hi)
            elif op == 'add' and v.a[3].k == 'c':
                c = sgn(v.a[3].a[0], w)
                xl, xh = self.range(v.a[2], w)
                if xl + c >= -(1 << (w - 1)) and xh + c < (1 << (w - 1)):
                    return self.setrange(v.a[2], w, lo - c, hi - c)
        return True

    def assume(self, v, t):
        """Record that condition v is t; returns False when that is impossible here."""
        if TOP in v.lv:
            return True
        cur = self.truth(v)
        if cur is not None:
            return cur == t
        while v.k == 'not':
            v = v.a[0]
            t = not t
        self.facts[v] = t
        if v.k == 'cmp':
            pred, x, y, w = v.a
            if pred == 'eq':
                if t:
                    if y.k == 'c':
                        n = sgn(y.a[0], w)
                        return self.setrange(x, w, n, n)
                    a, b = self.range(x, w)
                    c, d = self.range(y, w)
                    return self.setrange(x, w, max(a, c), min(b, d)) and self.setrange(y, w, max(a, c), min(b, d))
                if y.k == 'c':
                    a, b = self.range(x, w)
                    return self.setrange(x, w, a, b)
                return True
            if pred == 'slt':
                a, b = self.range(x, w)
                c, d = self.range(y, w)
                if t:
                    return self.setrange(x, w, a, d - 1) and self.setrange(y, w, a + 1, d)
                return self.setrange(x, w, c, b) and self.setrange(y, w, c, b)
            if pred == 'ult':
                a, b = self.range(x, w)
                c, d = self.range(y, w)
                if t:
                    if c >= 0:      # y nonneg => x in [0, y)
                        return self.setrange(x, w, max(a, 0), d - 1) and self.setrange(y, w, max(c, max(a, 0) + 1), d)
                else:               # x >=u y
                    if a >= 0 and c >= 0:
                        return self.setrange(x, w, max(a, c), b) and self.setrange(y, w, c, min(b, d))
                return True
        elif v.k == 'E':
            op = v.a[0]
            if op == 'trunc' and v.a[1] == 1:
                self.rng[v.a[2]] = (int(t), int(t))
                return True
            if op == 'and':
                if t:
                    return self.assume(v.a[2], True) and self.assume(v.a[3], True)
                if self.truth(v.a[2]) is True:
                    return self.assume(v.a[3], False)
                if self.truth(v.a[3]) is True:
                    return self.assume(v.a[2], False)
            elif op == 'or':
                if not t:
                    return self.assume(v.a[2], False) and self.assume(v.a[3], False)
                if self.truth(v.a[2]) is False:
                    return self.assume(v.a[3], True)
                if self.truth(v.a[3]) is False:
                    return self.assume(v.a[2], True)
        elif v.k == 'nonneg':
            pass
        return True

    def known(self, v):
        """Constant value of v if determined, else v."""
        if v.k == 'c':
            return v
        r = self.rng.get(v)
        if r and r[0] == r[1]:
            n = r[0]
            return C(n & M64) if n >= 0 else v
        return v

    # --- memory ----------------------------------------------------------
    def store(self, p, val, size):
        b, o = split(p)
        mem = self.mem
        if b.k == 'gepv':
            root = b.a[0]
            rb, ro = split(root)
            if rb.k == 'L':
                self.havoc_base(rb, mk('hv', 'gepv', b))
            else:
                mem[(b, o)] = (size, val)
            return
        for d in range(1, 16):
            c = mem.get((b, o - d))
            if c is not None and c[0] > d:
                del mem[(b, o - d)]
        if size > 1:
            for d in range(1, min(size, 64)):
                if (b, o + d) in mem:
                    del mem[(b, o + d)]
        mem[(b, o)] = (size, val)

    def load(self, prog, p, size, w, depth=0):
        b, o = split(p)
        mem = self.mem
        c = mem.get((b, o))
        if c is not None:
            if c[0] == size or c[0] == 0:
                return c[1]
            if c[0] > size and c[1].k == 'c':
                return C(c[1].a[0] & MASK[size * 8])
            if c[0] > size and c[1].k == 'zero':
                return ZERO
            if c[0] > size:
                return self._extract(c[1], 0, size)
        for d in range(1, 16):
            c = mem.get((b, o - d))
            if c is not None and c[0] >= d + size:
                if c[1].k == 'c':
                    return C((c[1].a[0] >> (8 * d)) & MASK[size * 8])
                if c[1].k == 'zero':
                    return ZERO
                return self._extract(c[1], d, size)
        # assembled from narrower cells
        if 1 < size <= 16:
            parts = []
            q = 0
            while q < size:
                c = mem.get((b, o + q))
                if c is None or c[0] == 0 or q + c[0] > size:
                    parts = None
                    break
                parts.append((q, c[0], c[1]))
                q += c[0]
            if parts:
                n = 0
                allc = True
                for q, s, val in parts:
                    if val.k == 'c':
                        n |= (val.a[0] & MASK[s * 8]) << (8 * q)
                    else:
                        allc = False
                if allc:
                    return C(n)
                return mk('cat', tuple(x for q, s, val in parts for x in (C(q), C(s), val)))
        for (ro, rn, kind, src) in self.reg.get(b, ()):
            if ro <= o and o + size <= ro + rn:
                if kind == 'zero':
                    return ZERO
                if kind == 'copy':
                    sb, so, ep = src
                    return mk('ld', sb, so + (o - ro), size, ep)
                if kind == 'hv':
                    return mk('ld', b, o, size, src)
        if b.k == 'g':
            g = prog.globals.get(b.a[0])
            if g and g.get('const'):
                v = prog.ginit(b.a[0], o, size)
                if v is not None:
                    return v
        if b.k == 'L' and b not in self.ep:
            return UNDEF if False else mk('ld', b, o, size, 0)
        return mk('ld', b, o, size, self.ep.get(b, 0))

    def _extract(self, v, off, size):
        if v.k == 'cat':
            a = v.a[0]
            for i in range(0, len(a), 3):
                q, s, val = a[i].a[0], a[i + 1].a[0], a[i + 2]
                if q == off and s == size:
                    return val
        if v.k == 'E' and v.a[0] in ('zext', 'sext') and off == 0 and v.a[3] == size * 8:
            return v.a[2]
        if v.k == 'agg' and False:
            pass
        return mk('ext', v, off, size)

    def copy_bytes(self, prog, dst, src, n):
        db, do = split(dst)
        sb, so = split(src)
        cells = [(o, c) for (b, o), c in self.mem.items() if b is sb and type(o) is int and so <= o < so + n]
        self.clear_range(db, do, n)
        extra = []
        for (ro, rn, kind, s2) in self.reg.get(sb, ()):
            lo, hi = max(ro, so), min(ro + rn, so + n)
            if lo < hi:
                if kind == 'copy':
                    extra.append((do + lo - so, hi - lo, 'copy', (s2[0], s2[1] + lo - ro, s2[2])))
                elif kind == 'zero':
                    extra.append((do + lo - so, hi - lo, 'zero', None))
                elif kind == 'hv':
                    extra.append((do + lo - so, hi - lo, 'copy', (sb, lo, s2)))
        extra.append((do, n, 'copy', (sb, so, self.ep.get(sb, 0))))
        gl = None
        if sb.k == 'g':
            g = prog.globals.get(sb.a[0])
            if g and g.get('const') and 'init' in g:
                for o, s, val in g['init']:
                    if so <= o < so + n:
                        if val[0] == 'c':
                            self.mem[(db, do + o - so)] = (s, C(val[1]))
                        elif val[0] == 'g':
                            self.mem[(db, do + o - so)] = (s, A(G(val[1]), val[2]))
                        elif val[0] == 'z':
                            extra.insert(0, (do + o - so, s, 'zero', None))
        self.reg[db] = tuple(extra) + self.reg.get(db, ())
        for o, c in cells:
            self.mem[(db, do + o - so)] = c
        # content tokens
        for key in [k for k in self.mem if k[0] is sb and type(k[1]) is tuple and so <= k[1][1] < so + n]:
            self.mem[(db, ('t', do + key[1][1] - so))] = self.mem[key]

    def clear_range(self, b, o, n):
        for k in [k for k in self.mem if k[0] is b]:
            oo = k[1] if type(k[1]) is int else k[1][1]
            if o <= oo < o + n:
                del self.mem[k]
        self.reg[b] = tuple(r for r in self.reg.get(b, ()) if not (o <= r[0] and r[0] + r[1] <= o + n))
        if not self.reg[b]:
            del self.reg[b]

    def zero_range(self, p, n):
        b, o = split(p)
        self.clear_range(b, o, n)
        self.reg[b] = ((o, n, 'zero', None),) + self.reg.get(b, ())

    def havoc_base(self, b, tag):
        for k in [k for k in self.mem if k[0] is b]:
            del self.mem[k]
        self.reg.pop(b, None)
        self.ep[b] = tag

    def havoc_range(self, p, n, tag):
        b, o = split(p)
        self.clear_range(b, o, n)
        self.reg[b] = ((o, n, 'hv', tag),) + self.reg.get(b, ())

    # content tokens of opaque objects (strings, vectors, ...)
    def tok(self, p):
        b, o = split(p)
        c = self.mem.get((b, ('t', o)))
        if c is not None:
            return c[1]
        for (ro, rn, kind, src) in self.reg.get(b, ()):
            if ro <= o < ro + rn:
                if kind == 'copy':
                    return mk('tok0', src[0], src[1] + o - ro, src[2])
                if kind == 'zero':
                    return mk('tok0', b, o, 0)
                if kind == 'hv':
                    return mk('tok0', b, o, src)
        return mk('tok0', b, o, self.ep.get(b, 0))

    def settok(self, p, t):
        b, o = split(p)
        self.mem[(b, ('t', o))] = (0, t)

    def hastok(self, p):
        b, o = split(p)
        return (b, ('t', o)) in self.mem


Site = namedtuple('Site', 'fn line ctx iid')


class Violation(object):
    def __init__(self, msg, where, trace, key=None):
        self.msg = msg
        self.where = where
        self.trace = trace
        self.key = key or (msg, where)


class Budget(Exception):
    pass


class Monitor(object):
    """Base class of property automata.  All state lives in st.mon (hashable)."""
    init = ()
    std_throws = False          # do opaque C++ library calls have an exceptional edge?
    walk_trace = False          # enter trace() and friends?
    opaque = ()                 # short names of repo functions not to enter
    interest = None             # predicate(name, short): calls the property is about (None: enter everything)
    interest_fn = None          # predicate(Fn): functions always entered
    key_kinds = ('c',)          # kinds of values of local variables that keep states apart
    unroll = False              # loop counters too (loops over small constant tables)
    small = 120                 # call trees up to this size are entered anyway (accessors)
    entry_facts = None

    def start(self, st, I):
        pass

    def part(self, I, st):
        """Extra partition key of a state (hashable): states with different keys are never joined."""
        return None

    def call(self, I, st, name, short, args, site):
        return None

    def after(self, I, st, name, short, args, site, ret):
        """After a library call.  May return a list of functions, one per possible outcome; each
        refines its own copy of the state (and returns False when that outcome is impossible)."""
        return None

    def stored(self, I, st, p, val, size, site):
        pass

    def loaded(self, I, st, p, val, size, site):
        pass

    def finish(self, I, st, val):
        pass

    def escape(self, I, st, exc):
        pass

    def ended(self, I, st, how, site):
        pass

    def walk(self, I, F):
        return None

    def returned(self, I, st, F, val, ctx):
        pass

    def entered(self, I, st, F, ctx):
        pass


DEFAULT_OPAQUE = {'trace', 'assertTrace', 'isTracingEnabled', 'hasDebugFlag', 'dumpWindowsVersion', 'dumpVersionToTrace', 'utf8FromWide', 'winpty_snprintf', 'sendToDebugServer'}
STOP = {'agentAssertFail', 'abort', 'exit', '_assert', '_wassert', '__assert_fail', '__clang_call_terminate', '_ZSt9terminatev', '_exit', 'ExitProcess', '__cxa_pure_virtual', 'longjmp', 'quick_exit'}


class Interp(object):
    def __init__(self, prog, monitor, max_states=400000, klimit=8, time_limit=240.0, klimit_loop=4):
        self.prog = prog
        self.mon = monitor
        self.max_states = max_states
        self.klimit = klimit
        self.klimit_loop = klimit_loop
        self.violations = {}
        self.steps = 0
        self.blocks = 0
        self.visited_fns = set()
        self.calls = 0
        self.summarised = set()
        self._extent = {}
        self.notes = set()
        self.time_limit = time_limit
        self.paths = 0
        self.joins = 0
        self.lsize = {}         # local variable -> size in bytes
        self.pairs = {}         # join point -> one dict per join: symbol -> (accumulated value, incoming value)
        self.src = {}           # join symbol -> every value that was merged into it
        self.truncated = None
        self.rel = None
        self.eff = None
        if monitor.interest is not None or monitor.interest_fn is not None:
            self.eff = prog.effects()
            i = monitor.interest
            f = monitor.interest_fn
            self.rel = self.eff.relevant(i if i else (lambda n, s: False), f, monitor.walk_trace)

    # ---- reporting
    def where(self, site):
        f = site.fn
        return '%s:%d (%s)' % (self.relfile(f), site.line or f.line, f.short)

    @staticmethod
    def relfile(f):
        i = f.file.find('/src/')
        fl = f.file[i + 1:] if i >= 0 else f.file
        parts = []
        for p in fl.split('/'):
            if p == '..':
                if parts:
                    parts.pop()
            else:
                parts.append(p)
        return '/'.join(parts)

    def note(self, st, text):
        st.trace = (text, st.trace)

    def report(self, st, site, msg, key=None):
        where = self.where(site) if isinstance(site, Site) else str(site)
        k = key or (msg, where)
        if k in self.violations:
            return
        tr = []
        t = st.trace
        while t:
            tr.append(t[0])
            t = t[1]
        tr.reverse()
        stack = []
        for fr in st.frames:
            stack.append('%s:%s' % (self.relfile(fr.fn), fr.fn.short))
        self.violations[k] = Violation(msg, where, tr[-60:], k)
        self.violations[k].stack = stack

    def here(self, st):
        fr = st.frames[-1]
        blk = self.prog.body(fr.fn)[fr.blk]
        ins = blk[min(fr.idx, len(blk) - 1)]
        return Site(fr.fn, ins[3], fr.ctx, ins[0])

    # ---- running
    def run(self, F, args=None, setup=None):
        t0 = time.time()
        prog = self.prog
        st = State()
        st.mem, st.reg, st.facts, st.rng = {}, {}, {}, {}
        st.mon = self.mon.init
        st.exc = None
        st.caught = ()
        st.used = set()
        st.trace = None
        st.vt = {}
        st.ep = {}
        prog.body(F)
        fr = Frame()
        fr.ctx = ctx_id(-1, F.name, 0)
        fr.fn = F
        fr.blk = 0
        fr.idx = 0
        fr.prev = -1
        fr.ins = None
        fr.env = {}
        for i in range(F.nargs):
            nm = F.argn[i] or 'a%d' % i
            if nm.endswith('.coerce'):
                nm = nm[:-7]
            fr.env[i] = mk('arg', F.short, nm, i)
            if F.argt[i] == 1:
                pass
        if args:
            for i, v in args.items():
                fr.env[i] = v
        st.frames = [fr]
        if F.cls and F.nargs:
            i = 1 if F.sret else 0
            if i < F.nargs and F.argn[i] == "this":
                st.assume(icmp('eq', fr.env[i], ZERO, 64), False)
        if setup:
            setup(st, fr)
        self.mon.start(st, self)
        self.visited_fns.add(F.name)
        self.drain([st], t0)
        return self

    def drain(self, work, t0=None):
        t0 = t0 or time.time()
        self.nodes = {}
        self.heap = []
        self.tags = []
        n = 0
        while work or self.heap:
            if work:
                st = work.pop()
            else:
                _, _, node = heapq.heappop(self.heap)
                node.queued = False
                st = node.acc.copy()
            n += 1
            if n & 255 == 0:
                if time.time() - t0 > self.time_limit:
                    self.truncated = 'time limit'
                    raise Budget('time limit of %ds reached (%d states)' % (self.time_limit, n))
            if n > self.max_states:
                self.truncated = 'state limit'
                raise Budget('state limit %d reached' % self.max_states)
            out = self.step_block(st)
            if out:
                work.extend(out)

    # ---- block entry: phi evaluation, merging
    def goto(self, st, blk):
        fr = st.frames[-1]
        F = fr.fn
        prev = fr.blk
        b = F.blocks[blk]
        new = {}
        for ins in b:
            if ins[1] != 'phi':
                break
            o = ins[4][prev]
            v = fr.env.get(o, UNDEF) if type(o) is int else o
            if ins[2] == 1 and type(o) is int and v.k in ('cmp', 'not', 'E'):
                # the outcome of a condition: decided here, so that it is not joined with others
                t = st.truth(v)
                if t is None:
                    out = []
                    for t in (True, False):
                        s2 = st.copy()
                        if s2.assume(v, t):
                            s2.frames[-1].env[o] = C(1) if t else ZERO
                            out.extend(self.goto(s2, blk))
                    return out
                v = C(1) if t else ZERO
            new[ins[0]] = v
        fr.env.update(new)
        fr.prev = prev
        fr.blk = blk
        fr.idx = 0
        live = F.live[blk]
        na = F.nargs
        fr.env = {k: v for k, v in fr.env.items() if k in live or k < na}
        if (len(F.preds[blk]) > 1 or blk in F.loophead) and blk not in F.choice:
            return self.arrive(st, blk in F.loophead)
        return [st]

    def gc(self, st):
        # roots
        roots = set()
        for f in st.frames:
            for v in f.env.values():
                if type(v) is V and v.lv:
                    roots |= v.lv
        for (b, o), c in st.mem.items():
            if c[1].lv:
                roots |= c[1].lv
            if b.lv:
                roots |= b.lv
        for b, rs in st.reg.items():
            roots |= b.lv
            for r in rs:
                if r[3] is not None:
                    roots |= mkleaves(r[3])
        roots |= mkleaves(st.mon)
        for b, t in st.ep.items():
            roots |= b.lv
            roots |= mkleaves(t)
        # a condition over a live symbol keeps the other symbols it relates
        st.facts = {k: v for k, v in st.facts.items() if not k.lv or k.lv <= roots}
        st.rng = {k: v for k, v in st.rng.items() if not k.lv or k.lv <= roots}
        st.vt = {k: v for k, v in st.vt.items() if not k.lv or k.lv <= roots}
        st.used &= roots          # a name nothing mentions any more is free

    # ---- program points: one abstract state per point and partition
    def point(self, st):
        return tuple((f.ctx, f.blk, f.idx) for f in st.frames)

    def order(self, st):
        r = []
        last = None
        for f in st.frames:
            if last is not None:
                r.append(f.ctx)
            r.append(f.fn.wto[f.blk])
            r.append(f.idx)
            last = f
        return tuple(r)

    def consts(self, st, loop):
        """Constants held by live local variables: part of the partition."""
        r = []
        kk = self.mon.key_kinds
        if self.mon.unroll is True:
            kk = kk + ('L', 'A')
        top = len(st.frames) - 1
        heads = ()
        if loop and not self.mon.unroll:
            f = st.frames[-1]
            heads = {i[0] for i in f.fn.blocks[f.blk] if i[1] == 'phi' and i[2] not in (1, 8)}
        for n, f in enumerate(st.frames):
            for k, v in f.env.items():
                if v.k in kk and k >= f.fn.nargs and not (n == top and k in heads):
                    r.append((n, k, v))
        for (b, o), c in st.mem.items():
            if b.k == 'L' and c[1].k in kk and not (loop and c[0] > 1 and not self.mon.unroll):
                r.append((b, o, c[1]))
        return frozenset(r)

    def arrive(self, st, loop):
        """A state reaches a merge point: join it with what is known there."""
        self.gc(st)
        pt = self.point(st)
        part = self.mon.part(self, st)
        hard = (st.mon, st.exc, st.caught, part)
        soft = self.consts(st, loop)
        P = self.nodes.setdefault((pt, hard), {})
        node = P.get(soft)
        if node is None:
            if len(P) >= (self.klimit_loop if loop else self.klimit):
                soft = None
                node = P.get(None)
        if node is None:
            node = P[soft] = Node()
            node.acc = st
            node.tag = (pt, len(self.tags))
            node.id = len(self.tags)
            self.tags.append(pt)
            node.queued = False
            node.joins = 0
            node.shared = {}
            self.enqueue(node)
            return []
        if self.join_into(node, st, loop) and not node.queued:
            self.enqueue(node)
        return []

    def enqueue(self, node):
        node.queued = True
        heapq.heappush(self.heap, (self.order(node.acc), node.id, node))

    def share(self, node, cells):
        groups = {}
        gh = [n for n, c in enumerate(cells) if c[0] == 1 and type(c[2][1]) is int and c[2][0].k == 'ghost' and c[3] is not TOP and c[4] is not TOP]
        for n, c in enumerate(cells):
            if c[3] is not TOP and c[4] is not TOP:
                groups.setdefault((c[3], c[4], 64 if c[6] == 'p' else c[6]), []).append(n)
        cells = list(cells)
        for (a, s, w), ns in groups.items():
            own = [cells[n][5] for n in ns]
            if len(ns) > 1:
                rep = a if a in own else cells[min(ns, key=lambda n: (cells[n][0], cells[n][1] if cells[n][0] == 0 else 0, repr(cells[n][2])))][5]
            else:
                rep = own[0]
            for n in ns:
                c = cells[n]
                key = (c[0], c[1] if c[0] == 0 else 0, c[2])
                if rep is not c[5]:
                    node.shared[key] = rep
                    cells[n] = c[:5] + (rep,) + c[6:]
                else:
                    node.shared.pop(key, None)
        # a monitor's counter and the program's own may differ by a constant
        for n in gh:
            c = cells[n]
            key = (1, 0, c[2])
            if key in node.shared:
                continue
            w = 64 if c[6] == 'p' else c[6]
            ba, oa = affine(c[3])
            bs, os_ = affine(c[4])
            best = None
            for m, d in enumerate(cells):
                if m != n and (64 if d[6] == 'p' else d[6]) == w and d[3] is not TOP and d[4] is not TOP and d[5].k == 'join':
                    da, xa = affine(d[3])
                    ds, xs = affine(d[4])
                    if da is ba and ds is bs and (os_ - oa - xs + xa) % (1 << w) == 0:
                        j = binop('add', w, d[5], C((oa - xa) & M64))
                        if j is c[3] or best is None:
                            best = j
                    elif best is None and w in (64, 'p') and d[3] is not c[3] and m not in gh:
                        best = self.apart(c[3], c[4], d[3], d[4], d[5])
            if best is not None:
                node.shared[key] = best
                cells[n] = c[:5] + (best,) + c[6:]
        return cells

    @staticmethod
    def apart(ga, gs, da, ds, j):
        """When a counter differs from a cell by one and the same amount in both states: the cell's new value and that amount."""
        from lin import linf, addf
        t = addf(linf(ga), linf(da), -1)
        if len(t) != 1 or None in t or t != addf(linf(gs), linf(ds), -1):
            return None
        (x, k), = t.items()
        if x.k in ('join', 'elem', 'L', 'H', 'A', 'gepv') or ga.k == 'gepv' and ga.a[2] != 1:
            return None
        if k == 1:
            return mk('gepv', j, x, 1) if ga.k == 'gepv' else binop('add', 64, j, x)
        if k == M64 and ga.k != 'gepv':
            return binop('sub', 64, j, x)
        return None

    def join_into(self, node, st, loop):
        acc = node.acc
        tag = node.id
        node.joins += 1
        self.joins += 1
        # 1. which joined symbols get a new value: in the incoming state their present meaning becomes 'old'
        cells = []          # (kind, container, key, accval, stval, sym, width)
        for i, (fa, fs) in enumerate(zip(acc.frames, st.frames)):
            if fa is fs or fa.env is fs.env:
                continue
            for k, a in fa.env.items():
                s = fs.env.get(k, TOP)
                if a is not s:
                    cells.append((0, i, k, a, s, mk('join', fa.ctx, k, tag), fa.fn.width(k)))
        for k in set(acc.mem) | set(st.mem) if acc.mem != st.mem else ():
            ca, cs = acc.mem.get(k), st.mem.get(k)
            if ca == cs:
                continue
            off = k[1] if type(k[1]) is int else k[1][1]
            j = mk('join', 'm' if type(k[1]) is int else 't', k[0], off, tag)
            if type(k[1]) is tuple:
                a = ca[1] if ca else acc.tok(A(k[0], off))
                s = cs[1] if cs else st.tok(A(k[0], off))
                if a is not s:
                    cells.append((1, 0, k, a, s, j, 0))
                elif not ca:
                    acc.mem[k] = cs
                continue
            sz = ca[0] if ca else cs[0]
            p = A(k[0], off)
            if ca and cs and ca[0] != cs[0]:
                sz = 0
            a = ca[1] if ca else acc.load(self.prog, p, sz, sz * 8)
            s = cs[1] if cs else st.load(self.prog, p, sz, sz * 8)
            if a is not s:
                cells.append((1, sz, k, a, s, j, sz * 8))
            elif not ca:
                acc.mem[k] = cs
        eps = []
        if acc.ep != st.ep or acc.reg != st.reg:
            for k in list(set(acc.ep) | set(st.ep) | set(acc.reg) | set(st.reg)):
                ra, rs = acc.reg.get(k, ()), st.reg.get(k, ())
                ea, es = acc.ep.get(k, 0), st.ep.get(k, 0)
                if ra != rs or ea != es:
                    eps.append((k, ea, es, ra, rs, mk('join', 'e', k, tag)))
        changed = False
        # cells that agree on both sides get one symbol: a relation such as 'i is the number of fields read' survives
        if len(cells) > 1 or node.shared:
            cells = self.share(node, cells)
        ren = {c[5] for c in cells if c[5] in st.used}
        if node.shared:
            more = []
            have = {(c[0], c[1] if c[0] == 0 else 0, c[2]) for c in cells}
            for key, j in list(node.shared.items()):
                if (j if j.k != 'E' else j.a[2]) in ren and key not in have:
                    kind, i, k = key
                    if kind == 0:
                        if i >= len(acc.frames) or acc.frames[i].env.get(k) is not j:
                            continue
                        more.append((0, i, k, j, st.frames[i].env.get(k, TOP), mk('join', acc.frames[i].ctx, k, tag), acc.frames[i].fn.width(k)))
                    else:
                        ca, cs = acc.mem.get(k), st.mem.get(k)
                        if not ca or ca[1] is not j:
                            continue
                        off = k[1] if type(k[1]) is int else k[1][1]
                        jj = mk('join', 'm' if type(k[1]) is int else 't', k[0], off, tag)
                        more.append((1, 0 if type(k[1]) is tuple else ca[0], k, j, cs[1] if cs else TOP, jj, 0 if type(k[1]) is tuple else ca[0] * 8))
            if more:
                for c in more:
                    node.shared.pop((c[0], c[1] if c[0] == 0 else 0, c[2]), None)
                cells += more
                ren |= {c[5] for c in more if c[5] in st.used}
        for e in eps:
            if e[5] in st.used:
                ren.add(e[5])
        ren = {x for x in ren if x is not TOP}
        # a symbol that the incoming state still holds in its own cell keeps its meaning
        if ren:
            rmap = rename_map(ren)
            self.apply(st, rmap)
            cells = [(a, b, c, d, subst(e, rmap) if d is not f or e is not f else e, f, w) for a, b, c, d, e, f, w in cells]
        else:
            rmap = None
        # 2. new symbols
        tr_s = {}
        newj = []
        if len(cells) > 1:
            ev = {}
            for kind, i, k, a, s, j, w in cells:
                if j.k != 'E':
                    ev[j] = (a, s)
            self.pairs.setdefault(tag, []).append(ev)
        for kind, i, k, a, s, j, w in cells:
            if a is TOP:
                continue
            if a is not j:
                changed = True
                if j.k != 'E':
                    newj.append((j, a, s, w))
                if kind == 0:
                    fa = acc.frames[i]
                    fa = fa.copy()
                    acc.frames = acc.frames[:i] + [fa] + acc.frames[i + 1:]
                    fa.env[k] = j
                else:
                    acc.mem[k] = (i, j)
            if j.k != 'E':
                tr_s[j] = s
                o = self.src.setdefault(j, set())
                if a is not j:
                    o.add(a)
                o.add(s)
        for k, ea, es, ra, rs, j in eps:
            rr = tuple(r for r in ra if r in rs)
            if rr != ra:
                changed = True
                if rr:
                    acc.reg[k] = rr
                else:
                    acc.reg.pop(k, None)
            if ea is not j and (ea != es or ra != rs):
                acc.ep[k] = j
                changed = True
            elif ea is j:
                pass
        # 3. facts that hold on both sides
        dirty = {j for j in tr_s}
        nf = {}
        for j, a, s, w in newj:
            if isinstance(w, int) and w > 0:
                ra, rs = acc.range(a, w), st.range(s, w)
                lo, hi = min(ra[0], rs[0]), max(ra[1], rs[1])
                if loop:
                    if rs[1] > ra[1]:
                        hi = (1 << (w - 1)) - 1
                    if rs[0] < ra[0]:
                        lo = -(1 << (w - 1))
                if lo > -(1 << (w - 1)) or hi < (1 << (w - 1)) - 1:
                    acc.rng[j] = (lo, hi)
                if w in (1, 8):
                    pass
            ww = 64 if w == 'p' else w
            if ww == 64:
                z = icmp('eq', a, ZERO, 64)
                if acc.truth(z) is False and st.truth(icmp('eq', s, ZERO, 64)) is False:
                    nf[icmp('eq', j, ZERO, 64)] = False
                va, vs = acc.vt.get(a), st.vt.get(s)
                if va and va == vs:
                    acc.vt[j] = va
            cands = []
            if a.k != 'c':
                for k, v in acc.facts.items():
                    if a.lv <= k.lv and a.d < k.d:
                        kj = replace(k, a, j)
                        if kj is not k and kj.k == 'cmp' and kj not in acc.facts:
                            if st.truth(replace(k, a, s)) == v:
                                nf[kj] = v
            if s.k != 'c':
                for k, v in st.facts.items():
                    if s.lv <= k.lv and s.d < k.d:
                        kj = replace(k, s, j)
                        if kj is not k and kj.k == 'cmp' and kj not in nf:
                            if acc.truth(replace(k, s, a)) == v:
                                nf[kj] = v
        if node.joins < 4:
            syms = {x[0] for x in newj}
            for k, v in st.facts.items():
                if k.k == 'cmp' and k.a[0] != 'eq' and k.a[1].k != 'c' and k.a[2].k != 'c' and k not in acc.facts and dirty.isdisjoint(k.lv) and syms.isdisjoint(k.lv) and acc.truth(k) == v:
                    nf[k] = v           # what the one side knows and the other's ranges imply
        drop = []
        for k, v in acc.facts.items():
            kk = k
            if not dirty.isdisjoint(k.lv):
                kk = subst(k, tr_s)
            if st.facts.get(kk) != v and st.truth(kk) != v:
                drop.append(k)
        for k in drop:
            v = acc.facts.pop(k)
            changed = True
            if v and k.k == 'cmp' and k.a[0] in ('ult', 'slt'):      # less than: at least different
                e = icmp('eq', k.a[1], k.a[2], k.a[3])
                if e.k == 'cmp' and e not in acc.facts and st.truth(subst(e, tr_s) if not dirty.isdisjoint(e.lv) else e) is False:
                    nf[e] = False
        acc.facts.update(nf)
        new_syms = {x[0] for x in newj}
        for k in list(acc.rng):
            if k in new_syms:
                continue
            r = acc.rng[k]
            kk = subst(k, tr_s) if not dirty.isdisjoint(k.lv) else k
            w = kwidth(k) or 64
            q = st.rng.get(kk) if kk.k != 'c' else (sgn(kk.a[0], w),) * 2
            if q is None:
                q = self.rangeof(st, kk, w)
            if q[0] >= r[0] and q[1] <= r[1]:
                continue
            lo, hi = r
            tmin, tmax = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if q[0] < lo:
                lo = q[0] if node.joins < 3 and not loop else tmin
                if kk.k == 'E' and kk.a[0] == 'add' and kk.a[3].k == 'c' and sgn(kk.a[3].a[0], w) > 0 and kk.a[2].k == 'old' and kk.a[2].a[0] is k:
                    lo = r[0]
            if q[1] > hi:
                hi = q[1] if node.joins < 3 and not loop else tmax
                if kk.k == 'E' and kk.a[0] == 'add' and kk.a[3].k == 'c' and sgn(kk.a[3].a[0], w) < 0 and kk.a[2].k == 'old' and kk.a[2].a[0] is k:
                    hi = r[1]
            if (lo, hi) == r:
                continue
            changed = True
            if kk.k not in ('c', 'old') and k in tr_s:      # values outside the old range that the new one excludes as well
                for e, v in st.facts.items():
                    if not v and e.k == 'cmp' and e.a[0] == 'eq' and (e.a[1] is kk and e.a[2].k == 'c' or e.a[2] is kk and e.a[1].k == 'c'):
                        c = e.a[1] if e.a[1].k == 'c' else e.a[2]
                        if not r[0] <= sgn(c.a[0], w) <= r[1]:
                            e = icmp('eq', k, c, e.a[3])
                            if e.k == 'cmp':
                                acc.facts[e] = False
            if lo == tmin and hi == tmax:
                del acc.rng[k]
            else:
                acc.rng[k] = (lo, hi)
        for k in list(acc.vt):
            if k not in new_syms and k not in dirty and st.vt.get(k) != acc.vt[k]:
                del acc.vt[k]
        acc.used |= st.used
        acc.used |= new_syms
        for e in eps:
            acc.used.add(e[5])
        return changed

    def rangeof(self, st, v, w):
        return st.range(v, w)

    # ---- fresh symbols
    def apply(self, st, m):
        """Rename symbols in every part of a state."""
        for i, f in enumerate(st.frames):
            ch = None
            for k, v in f.env.items():
                if v.lv and not v.lv.isdisjoint(m):
                    if ch is None:
                        ch = {}
                    ch[k] = subst(v, m)
            if ch:
                f = f.copy()
                f.env.update(ch)
                st.frames = st.frames[:i] + [f] + st.frames[i + 1:]
        m2 = {}
        for (b, off), c in st.mem.items():
            if b.lv and not b.lv.isdisjoint(m):
                b = subst(b, m)
                if b is TOP or TOP in b.lv:
                    continue
            if c[1].lv and not c[1].lv.isdisjoint(m):
                c = (c[0], subst(c[1], m))
            m2[(b, off)] = c
        st.mem = m2
        st.reg = {b: rs for b, rs in ((subst(b, m), tuple((r[0], r[1], r[2], subst(r[3], m)) for r in rs)) for b, rs in st.reg.items()) if TOP not in b.lv}
        st.ep = {b: t for b, t in ((subst(b, m), subst(t, m)) for b, t in st.ep.items()) if TOP not in b.lv}
        st.mon = subst(st.mon, m)
        for name in ('facts', 'rng', 'vt'):
            d = getattr(st, name)
            n = {}
            for k, v in d.items():
                if k.lv and not k.lv.isdisjoint(m):
                    k = subst(k, m)
                    if k.k == 'c' or TOP in k.lv:
                        continue
                    while k.k == 'not' and name == 'facts':
                        k = k.a[0]
                        v = not v
                n[k] = v
            setattr(st, name, n)
        for k in m:
            if k.k != 'old' and k in st.used:
                st.used.add(mk('old', k))

    def fresh(self, st, k, *a):
        s = mk(k, *a)
        self.freshen(st, s)
        return s

    def freshen(self, st, s):
        if s in st.used:
            self.apply(st, rename_map((s,)))
        st.used.add(s)

    # ---- operands
    def opv(self, fr, o):
        if type(o) is int:
            v = fr.env.get(o)
            return v if v is not None else UNDEF
        return o

    # ---- one block
    def step_block(self, st):
        prog = self.prog
        self.blocks += 1
        while True:
            fr = st.frames[-1]
            env = fr.env
            blk = fr.fn.blocks[fr.blk]
            ins = blk[fr.idx]
            op = ins[1]
            self.steps += 1
            if op == 'load':
                p = ins[4]
                p = env.get(p, UNDEF) if type(p) is int else p
                w = ins[2]
                if p.k == 'c' or (p.k == 'u'):
                    env[ins[0]] = mk('ld', p, 0, ins[5], 0)
                else:
                    v = st.load(prog, p, ins[5], w)
                    if v.k == 'ld' and v.a[0].k == 'join' and v.a[0] in self.src:
                        q = self.src.setdefault(v, set())
                        for z in self.src[v.a[0]]:
                            if z.k not in ('c', 'u') and z is not TOP:
                                q.add(st.load(prog, A(z, v.a[1]), ins[5], w))
                    if w == 1 and v.k == 'c':
                        v = C(v.a[0] & 1)
                    env[ins[0]] = v
                self.mon.loaded(self, st, p, env[ins[0]], ins[5], Site(fr.fn, ins[3], fr.ctx, ins[0]))
            elif op == 'store':
                v, p = ins[4], ins[5]
                v = env.get(v, UNDEF) if type(v) is int else v
                p = env.get(p, UNDEF) if type(p) is int else p
                if v.d > MAXD:
                    v = self.fresh(st, 'big', fr.ctx, ins[0])
                    env = st.frames[-1].env
                self.store_ty = ins[7]
                self.mon.stored(self, st, p, v, ins[6], Site(fr.fn, ins[3], fr.ctx, ins[0]))
                if p.k not in ('c', 'u'):
                    st.store(p, v, ins[6])
            elif op == 'getelementptr':
                p = ins[4]
                p = env.get(p, UNDEF) if type(p) is int else p
                off = ins[5]
                var = []
                for x, s in ins[6]:
                    x = env.get(x, UNDEF) if type(x) is int else x
                    x = st.known(x)
                    if x.k == 'c':
                        off += sgn(x.a[0], 64) * s
                    else:
                        var.append((x, s))
                if var:
                    b, o = split(p)
                    # fold nested symbolic indexing
                    x, s = var[0]
                    if b.k == 'gepv' and b.a[2] == s and len(var) == 1:
                        env[ins[0]] = A(self.gepv(b.a[0], binop('add', 64, b.a[1], x), s), o + off)
                    else:
                        q = self.gepv(b, x, s)
                        for x2, s2 in var[1:]:
                            q = self.gepv(q, x2, s2)
                        env[ins[0]] = A(q, o + off)
                else:
                    env[ins[0]] = self.ptr_add(p, off)
                if env[ins[0]].d > MAXD + 6:
                    env[ins[0]] = self.fresh(st, 'big', fr.ctx, ins[0])
            elif op == 'call' or op == 'invoke':
                r = self.do_call(st, ins)
                if r is not None:
                    return r
                if op == 'invoke':
                    return self.goto(st, ins[6][0])
                st.frames[-1].idx += 1
                continue
            elif op == 'br':
                c = ins[4]
                if c is None:
                    return self.goto(st, ins[5])
                c = env.get(c, UNDEF) if type(c) is int else c
                return self.branch(st, c, ins[5], ins[6], ins)
            elif op == 'icmp':
                x, y = ins[5], ins[6]
                x = env.get(x, UNDEF) if type(x) is int else x
                y = env.get(y, UNDEF) if type(y) is int else y
                env[ins[0]] = self.cmp_val(st, ins[4], x, y, ins[7])
            elif op == 'ret':
                v = None
                if len(ins) > 4:
                    v = self.opv(fr, ins[4])
                return self.do_return(st, v)
            elif op in BIN:
                x, y = self.opv(fr, ins[4]), self.opv(fr, ins[5])
                v = binop(op, ins[2] if isinstance(ins[2], int) else 64, x, y)
                if v.d > MAXD:
                    v = self.fresh(st, 'big', fr.ctx, ins[0])
                    env = st.frames[-1].env
                env[ins[0]] = v
            elif op in CASTS:
                x = self.opv(fr, ins[4])
                env[ins[0]] = cast(op, ins[2], x, ins[5])
                if op == 'trunc':
                    self.on_trunc(st, x, ins, fr)
            elif op == 'alloca':
                b = mk('L', fr.ctx, ins[0], ins[5])
                self.lsize[b] = ins[4]
                if any(k[0] is b for k in st.mem) or b in st.reg or b in st.ep:
                    for k in [k for k in st.mem if k[0] is b]:
                        del st.mem[k]
                    st.reg.pop(b, None)
                    st.ep.pop(b, None)
                st.facts = {k: v for k, v in st.facts.items() if b not in k.lv} if any(b in k.lv for k in st.facts) else st.facts
                env[ins[0]] = b
            elif op == 'phi':
                pass
            elif op == 'switch':
                v = st.known(self.opv(fr, ins[4]))
                w = 32
                if v.k == 'c':
                    for c, t in ins[6]:
                        if c == v.a[0]:
                            return self.goto(st, t)
                    return self.goto(st, ins[5])
                out = []
                d = st.copy()
                okd = True
                for c, t in ins[6]:
                    cond = icmp('eq', v, C(c), self.swwidth(fr, ins))
                    s2 = st.copy()
                    if s2.assume(cond, True):
                        out.extend(self.goto(s2, t))
                    if okd:
                        okd = d.assume(cond, False)
                if okd:
                    out.extend(self.goto(d, ins[5]))
                return out
            elif op == 'select':
                c = self.opv(fr, ins[4])
                x, y = self.opv(fr, ins[5]), self.opv(fr, ins[6])
                t = st.truth(c)
                if t is not None:
                    env[ins[0]] = x if t else y
                elif ins[2] == 1 and (x.k == 'c' or y.k == 'c'):
                    # logical and / or
                    if y.k == 'c' and y.a[0] == 0:
                        env[ins[0]] = binop('and', 1, c, x)
                    elif x.k == 'c' and x.a[0] == 1:
                        env[ins[0]] = binop('or', 1, c, y)
                    else:
                        env[ins[0]] = mk('E', 'select', 1, c, x, y)
                else:
                    # fork: keeps the domain simple
                    s2 = st.copy()
                    out = []
                    if st.assume(c, True):
                        env = st.frames[-1].env
                        env[ins[0]] = x
                        st.frames[-1].idx += 1
                        out.append(st)
                    if s2.assume(c, False):
                        s2.frames[-1].env[ins[0]] = y
                        s2.frames[-1].idx += 1
                        out.append(s2)
                    return out
            elif op == 'landingpad':
                env[ins[0]] = mk('lp', st.exc)
            elif op == 'extractvalue':
                x = self.opv(fr, ins[4])
                if x.k == 'lp':
                    env[ins[0]] = mk('exn', x.a[0]) if ins[5] == (0,) else mk('sel', x.a[0])
                elif x.k == 'agg':
                    d = dict((x.a[0][i], x.a[0][i + 1]) for i in range(0, len(x.a[0]), 2))
                    env[ins[0]] = d.get(ins[5], mk('xv', x, ins[5]))
                else:
                    env[ins[0]] = mk('xv', x, ins[5])
            elif op == 'insertvalue':
                x, y = self.opv(fr, ins[4]), self.opv(fr, ins[5])
                if x.k == 'agg':
                    items = dict((x.a[0][i], x.a[0][i + 1]) for i in range(0, len(x.a[0]), 2))
                else:
                    items = {}
                items[ins[6]] = y
                flat = []
                for k in sorted(items):
                    flat += [k, items[k]]
                if set(items) == {(0,), (1,)} and items[(0,)].k == 'exn':
                    env[ins[0]] = mk('lp', items[(0,)].a[0])
                else:
                    env[ins[0]] = mk('agg', tuple(flat))
            elif op == 'resume':
                x = self.opv(fr, ins[4])
                exc = x.a[0] if x.k == 'lp' else (st.exc or '?std')
                st.exc = exc
                return self.unwind_from_frame(st)
            elif op == 'unreachable':
                self.mon.ended(self, st, 'unreachable', Site(fr.fn, ins[3], fr.ctx, ins[0]))
                return []
            elif op == 'fcmp':
                env[ins[0]] = mk('nd', fr.ctx, ins[0])
            elif op in ('cmpxchg', 'atomicrmw', 'fence'):
                self.atomic(st, ins)
            else:
                env[ins[0]] = mk('E', op, 0, *[self.opv(fr, o) for o in ins[4:] if type(o) is int or type(o) is V])
            st.frames[-1].idx += 1

    def gepv(self, base, x, s):
        return mk('gepv', base, x, s)

    def ptr_add(self, p, off):
        if p.k == 'u':
            return p
        return A(p, off)

    def on_trunc(self, st, x, ins, fr):
        h = getattr(self.mon, 'trunc', None)
        if h:
            h(self, st, x, ins[5], ins[2], Site(fr.fn, ins[3], fr.ctx, ins[0]))

    def swwidth(self, fr, ins):
        o = ins[4]
        if type(o) is int:
            F = fr.fn
            if o < F.nargs:
                return F.argt[o] if isinstance(F.argt[o], int) else 64
            for b in F.blocks:
                for i in b:
                    if i[0] == o:
                        return i[2] if isinstance(i[2], int) else 64
        return 32

    def cmp_val(self, st, pred, x, y, w):
        if x.k == 'sel' or y.k == 'sel':
            s, t = (x, y) if x.k == 'sel' else (y, x)
            if t.k == 'tid':
                m = self.exc_matches(s.a[0], t.a[0])
                if m is None:
                    r = mk('selmatch', s.a[0], t.a[0])
                else:
                    r = C(int(m))
                return r if pred == 'eq' else neg(r)
        kx, ky = st.known(x), st.known(y)
        return icmp(pred, kx, ky, w)

    def branch(self, st, c, tb, fb, ins):
        t = st.truth(c)
        if t is not None:
            return self.goto(st, tb if t else fb)
        s2 = st.copy()
        out = []
        fr = st.frames[-1]
        if fr.fn.repo and ins[3]:
            pos = '%s:%d %s' % (self.relfile(fr.fn), ins[3], show(c)[:160])
        else:
            pos = None
        if st.assume(c, True):
            if pos:
                st.trace = (pos + ' is true', st.trace)
            out.extend(self.goto(st, tb))
        if s2.assume(c, False):
            if pos:
                s2.trace = (pos + ' is false', s2.trace)
            out.extend(self.goto(s2, fb))
        return out

    def atomic(self, st, ins):
        fr = st.frames[-1]
        fr.env[ins[0]] = mk('nd', fr.ctx, ins[0])

    # ---- exceptions
    def exc_matches(self, exc, ti):
        """Does exception type `exc` match catch type ti?  None = unknown."""
        if ti == '*':
            return True
        if exc == '?std':
            return None if ti.startswith('_ZTISt') else False
        if exc == '?':
            return None
        return ti in self.prog.ti_bases(exc)

    def throw(self, st, exc, ins):
        """Exception raised by the call instruction `ins` in the top frame."""
        st.exc = exc
        fr = st.frames[-1]
        if ins[1] == 'invoke':
            lpb = ins[6][1]
            lp = None
            for i in fr.fn.blocks[lpb]:
                if i[1] == 'landingpad':
                    lp = i
                    break
            enter = bool(lp[4])
            for cl in lp[5]:
                if cl.k == 'c' or cl.k == 'const':   # null = catch-all ; filter
                    enter = True
                elif cl.k == 'g':
                    m = self.exc_matches(exc, cl.a[0])
                    if m is None or m:
                        enter = True
            if enter:
                return self.goto(st, lpb)
        return self.unwind_from_frame(st)

    def unwind_from_frame(self, st):
        fr = st.frames[-1]
        if fr.fn.nounwind and not len(st.frames) == 1 and False:
            pass
        if len(st.frames) == 1:
            self.paths += 1
            self.mon.escape(self, st, st.exc)
            return []
        self.pop_cleanup(st, fr)
        st.frames = st.frames[:-1]
        top = st.frames[-1] = st.frames[-1].copy()
        ins = top.fn.blocks[top.blk][top.idx]
        return self.throw(st, st.exc, ins)

    def pop_cleanup(self, st, fr):
        c = fr.ctx
        dead = [k for k in st.mem if k[0].k == 'L' and k[0].a[0] == c]
        for k in dead:
            del st.mem[k]
        for b in [b for b in st.reg if b.k == 'L' and b.a[0] == c]:
            del st.reg[b]
        for b in [b for b in st.ep if b.k == 'L' and b.a[0] == c]:
            del st.ep[b]

    # ---- returns
    def do_return(self, st, v):
        fr = st.frames[-1]
        if len(st.frames) == 1:
            self.paths += 1
            self.mon.finish(self, st, v)
            return []
        self.mon.returned(self, st, fr.fn, v, fr.ctx)
        self.pop_cleanup(st, fr)
        st.frames = st.frames[:-1]
        top = st.frames[-1] = st.frames[-1].copy()
        ins = top.fn.blocks[top.blk][top.idx]
        if v is not None:
            top.env[ins[0]] = v
        if ins[1] == 'invoke':
            return self.goto(st, ins[6][0])
        top.idx += 1
        return self.merge_ret(st)

    def merge_ret(self, st):
        # calls return to the middle of a block: merge there as well
        return self.arrive(st, False)

    # ---- calls
    def push(self, st, F, args, ins):
        prog = self.prog
        prog.body(F)
        fr = st.frames[-1]
        n = Frame()
        n.ctx = ctx_id(fr.ctx, fr.fn.name, ins[0])
        if n.ctx is not None and F.name != fr.fn.name:
            pass
        n.ctx = ctx_id(n.ctx, F.name, -1)
        n.fn = F
        n.blk = 0
        n.idx = 0
        n.prev = -1
        n.ins = None
        n.env = {i: a for i, a in enumerate(args)}
        st.frames = st.frames + [n]
        self.visited_fns.add(F.name)
        self.mon.entered(self, st, F, n.ctx)
        if 0 in F.loophead:
            return self.arrive(st, True)
        return [st]

    def setret(self, st, ins, v):
        if ins[2] != 'v':
            st.frames[-1].env[ins[0]] = v

    def cont(self, st, ins):
        """State after a completed call."""
        if ins[1] == 'invoke':
            return self.goto(st, ins[6][0])
        st.frames[-1].idx += 1
        return [st]

    def callee_targets(self, st, cv):
        prog = self.prog
        if cv.k == 'g':
            return [cv.a[0]]
        if cv.k == 'ld':
            vt, off = cv.a[0], cv.a[1]
            b, o = split(vt) if vt.k == 'A' else (vt, 0)
            cls = st.vt.get(vt) or st.vt.get(b)
            if cls:
                r = prog.vtable_targets(cls, off)
                if r:
                    return r
        return None

    def do_call(self, st, ins):
        prog = self.prog
        fr = st.frames[-1]
        cv = self.opv(fr, ins[4])
        args = [self.opv(fr, a) for a in ins[5]]
        self.calls += 1
        targets = self.callee_targets(st, cv)
        if targets is None:
            return self.indirect(st, ins, cv, args)
        if len(targets) == 1:
            return self.call_named(st, ins, targets[0], args)
        out = []
        for i, t in enumerate(targets):
            s2 = st.copy() if i < len(targets) - 1 else st
            r = self.call_named(s2, ins, t, args)
            out.extend(self.cont(s2, ins) if r is None else r)
        return out

    def indirect(self, st, ins, cv, args):
        site = Site(st.frames[-1].fn, ins[3], st.frames[-1].ctx, ins[0])
        r = self.mon.call(self, st, '<indirect>', '<indirect>', [cv] + args, site)
        if r is not None:
            return self.directive(st, ins, r)
        self.setret(st, ins, self.fresh(st, 'call', st.frames[-1].ctx, ins[0], '<indirect>'))
        for a in args:
            self.havoc_arg(st, a, ins)
        ret = st.frames[-1].env.get(ins[0]) if ins[2] != 'v' else None
        fs = self.mon.after(self, st, '<indirect>', '<indirect>', [cv] + args, site, ret)
        if fs is not None:
            out = []
            for f in fs:
                s2 = st.copy()
                if f is not None and f(s2) is False:
                    continue
                out.extend(self.cont(s2, ins))
            return out
        return None

    def directive(self, st, ins, r):
        """('ret', V) | ('fork', [(V, fn(st))...]) | ('throw', type) | ('end',) | ('states', [...])"""
        if r[0] == 'ret':
            self.setret(st, ins, r[1])
            return None
        if r[0] == 'fork':
            out = []
            for val, f in r[1]:
                s2 = st.copy()
                if f is not None and f(s2) is False:
                    continue
                if isinstance(val, tuple) and val[0] == 'throw':
                    out.extend(self.throw(s2, val[1], ins))
                    continue
                self.setret(s2, ins, val)
                out.extend(self.cont(s2, ins))
            return out
        if r[0] == 'throw':
            return self.throw(st, r[1], ins)
        if r[0] == 'end':
            return []
        raise ValueError(r)

    def call_named(self, st, ins, name, args):
        prog = self.prog
        fr = st.frames[-1]
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name, args)
        short = prog.short(name)
        site = Site(fr.fn, ins[3], fr.ctx, ins[0])
        F = prog.fns.get(name)
        if name in STOP or short in STOP:
            self.mon.stopping = args
            self.mon.ended(self, st, short, site)
            self.paths += 1
            return []
        r = self.mon.call(self, st, name, short, args, site)
        if r is not None and r != 'walk':
            return self.directive(st, ins, r)
        # exception machinery
        h = EXC.get(name)
        if h is not None:
            return h(self, st, ins, args)
        if F is not None:
            w = r == 'walk' or self.should_walk(F)
            if w:
                depth = 0
                for f in st.frames:
                    if f.fn is F:
                        depth += 1
                if depth >= 2 or len(st.frames) > 40:
                    self.notes.add('recursion cut at ' + F.short)
                    w = False
            if w:
                return self.push(st, F, args, ins)
        return self.opaque_call(st, ins, name, short, args, F)

    def should_walk(self, F):
        d = self.mon.walk(self, F)
        if d is not None:
            return d
        if F.short in self.mon.opaque:
            return False
        if self.rel is not None:
            if F.name in self.rel:
                if F.repo and F.short in DEFAULT_OPAQUE and not self.mon.walk_trace:
                    return False
                return True
            if F.repo and self.eff.cost(F.name) > self.mon.small:
                return False
        if F.repo:
            if F.short in DEFAULT_OPAQUE and not self.mon.walk_trace:
                return False
            if F.file.endswith('/StringBuilder.h'):
                return False
            return True
        base = F.file.rsplit('/', 1)[-1]
        if base == 'stl_algobase.h':
            return F.short in WALK_ALGO
        return base in WALK_STD

    # ---- opaque functions
    def havoc_arg(self, st, a, ins):
        b, o = split(a)
        if b.k == 'L' and o == 0:
            st.havoc_base(b, self.fresh(st, 'hv', st.frames[-1].ctx, ins[0], b))
        elif b.k in ('L', 'A', 'arg', 'ld', 'H', 'call', 'gepv', 'g') and a.k != 'c':
            if b.k == 'g':
                g = self.prog.globals.get(b.a[0])
                if not g or g.get('const'):
                    return
            if a is b and b.k in ('arg', 'ld', 'call') and not any(k[0] is b for k in st.mem):
                return
            st.havoc_range(a, 8 if b.k != 'H' else 64, self.fresh(st, 'hv', st.frames[-1].ctx, ins[0], a))

    def summary_call(self, st, ins, name, short, args, F):
        """A repository function the property does not care about: apply its effect summary."""
        out = []
        self.summarised.add(F.short)
        s = self.eff.sum[name]
        if not (ins[7] & 1) and not F.nounwind:
            thr = sorted(s.throws)
            if self.mon.std_throws and '?std' not in thr:
                thr = thr + ['?std']
            for t in thr:
                s2 = st.copy()
                s2.clear_range(mk('exn', t), 0, 64)
                out.extend(self.throw(s2, t, ins))
        if name in self.eff.noret:
            return out
        ctx = st.frames[-1].ctx
        done = set()
        for k, b, o, sz in sorted(s.writes, key=str):
            if k == 'a':
                if b >= len(args):
                    continue
                a = args[b]
                base, off = split(a)
                if o is None:
                    if (b, None) in done:
                        continue
                    done.add((b, None))
                    n = self.extent(name, short, F, b, len(args)) if off else None
                    if n:                # a member of the object: the callee stays inside it
                        st.havoc_range(a, n, self.fresh(st, 'hv', ctx, ins[0], a))
                    else:
                        st.havoc_base(base, self.fresh(st, 'hv', ctx, ins[0], base))
                elif (b, None) not in done:
                    st.havoc_range(A(a, o), sz or 64, self.fresh(st, 'hv', ctx, ins[0], A(a, o)))
            elif k == 'd':
                if b >= len(args) or ('d', b) in done:
                    continue
                done.add(('d', b))
                base, off = split(args[b])
                self.havoc_reach(st, base, ins)
            elif k == 'g':
                g = G(b)
                if ('g', b) not in done and not self.prog.globals.get(b, {}).get('const'):
                    done.add(('g', b))
                    st.havoc_base(g, self.fresh(st, 'hv', ctx, ins[0], g))
            elif k == 'dg':
                if ('dg', b) not in done:
                    done.add(('dg', b))
                    self.havoc_reach(st, G(b), ins)
        self.setret(st, ins, self.fresh(st, 'call', ctx, ins[0], F.short))
        if not out:
            return None
        return out + self.cont(st, ins)

    def extent(self, name, short, F, i, nargs):
        """The size of the object that argument i of a repository function refers to, from its type."""
        key = (name, i)
        if key not in self._extent:
            d = self.prog.dem(name)
            ts = []
            depth = 0
            k = d.find('(', d.find(short.split('(')[0].rsplit('::', 1)[-1]))
            cur = ''
            for ch in d[k + 1:]:
                if ch in '<(':
                    depth += 1
                elif ch in '>)':
                    depth -= 1
                    if depth < 0:
                        break
                if ch == ',' and not depth:
                    ts.append(cur.strip())
                    cur = ''
                else:
                    cur += ch
            if cur.strip():
                ts.append(cur.strip())
            if nargs == len(ts) + 1:
                ts.insert(0, short.rpartition('::')[0] + '&')
            t = ts[i] if len(ts) == nargs and i < len(ts) else ''
            t = t.replace(' const&', '&').rstrip('&* ') if t.endswith('&') else ''
            self._extent[key] = self.prog.classes.get(t, {}).get('size') or (24 if t.startswith('std::vector<') else 32 if t.startswith('std::__cxx11::basic_string<') or t in ('std::string', 'std::wstring') else None)
        return self._extent[key]

    def havoc_reach(self, st, base, ins):
        """Forget the objects reachable through pointers stored in `base`."""
        ptrs = set()
        for (b, o), c in st.mem.items():
            if b is base and c[1].k != 'c':
                ptrs.add(split(c[1])[0])
        seen = set()
        for b in list(st.mem):
            bb = b[0]
            if bb in seen or bb is base:
                continue
            if (bb.k in ('ld', 'gepv') and contains(bb, lambda x: x is base)) or (bb in ptrs and bb.k in ('L', 'H', 'call', 'join', 'arg', 'ld')):
                seen.add(bb)
        for bb in sorted(seen, key=lambda x: x.uid):
            st.havoc_base(bb, self.fresh(st, 'hv', st.frames[-1].ctx, ins[0], bb))

    def opaque_call(self, st, ins, name, short, args, F):
        prog = self.prog
        if F is not None and F.repo and self.eff is not None and F.short not in DEFAULT_OPAQUE:
            return self.summary_call(st, ins, name, short, args, F)
        out = []
        fr = st.frames[-1]
        site = Site(fr.fn, ins[3], fr.ctx, ins[0])
        may_throw = self.may_throw(name, ins)
        if may_throw and self.mon.std_throws:
            s2 = st.copy()
            exc = '_ZTISt9bad_alloc' if name in ('_Znwy', '_Znay', '_Znwm', '_Znam') else '?std'
            self.note(s2, '%s: %s throws' % (self.where(site), short))
            out.extend(self.throw(s2, exc, ins))
        if name in ('_Znwy', '_Znay', '_Znwm', '_Znam'):
            H = self.fresh(st, 'H', st.frames[-1].ctx, ins[0])
            st.havoc_base(H, 0)
            st.ep.pop(H, None)
            self.setret(st, ins, H)
        elif name in DELETES:
            b, o = split(args[0])
            if b.k == 'H' and o == 0:
                for k in [k for k in st.mem if k[0] is b]:
                    del st.mem[k]
                st.reg.pop(b, None)
        elif name.startswith('_Z'):
            self.cxx_opaque(st, ins, name, short, args, F)
        else:
            self.c_opaque(st, ins, name, args)
        ret = st.frames[-1].env.get(ins[0]) if ins[2] != 'v' else None
        fs = self.mon.after(self, st, name, short, args, site, ret)
        if fs is not None:
            for f in fs:
                s2 = st.copy()
                if f is not None and f(s2) is False:
                    continue
                out.extend(self.cont(s2, ins))
            return out
        if not out:
            return None
        return out + self.cont(st, ins)

    def may_throw(self, name, ins):
        if ins[7] & 1:
            return False
        if not name.startswith('_Z'):
            return False
        F = self.prog.fns.get(name)
        if F is not None and F.repo and F.short in DEFAULT_OPAQUE:
            return F.short == 'utf8FromWide'
        return not self.prog.nounwind(name)

    def c_opaque(self, st, ins, name, args):
        from models import C_MODELS, NO_WRITE, OVERLAPPED_ARG
        h = C_MODELS.get(name)
        if h is not None:
            v = h(self, st, ins, args)
            if v is not None:
                self.setret(st, ins, v)
                return
        else:
            ro = NO_WRITE.get(name)
            if ro is not True:
                for i, a in enumerate(args):
                    if ro is not None and i not in ro:
                        continue
                    self.havoc_arg(st, a, ins)
            oi = OVERLAPPED_ARG.get(name)
            if oi is not None and args[oi].k != 'c':        # the system owns Internal and InternalHigh, not hEvent
                st.havoc_range(args[oi], 16, self.fresh(st, 'hv', st.frames[-1].ctx, ins[0], args[oi]))
        self.setret(st, ins, self.fresh(st, 'call', st.frames[-1].ctx, ins[0], name))

    def cxx_opaque(self, st, ins, name, short, args, F):
        from models import cxx_model
        cxx_model(self, st, ins, name, short, args, F)

    # ---- intrinsics
    def intrinsic(self, st, ins, name, args):
        fr = st.frames[-1]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = st.known(args[2])
            h = getattr(self.mon, 'memcpy', None)
            if h:
                h(self, st, args, Site(fr.fn, ins[3], fr.ctx, ins[0]))
            if n.k == 'c' and n.a[0] <= 1 << 20:
                st.copy_bytes(self.prog, args[0], args[1], n.a[0])
            else:
                self.havoc_arg(st, args[0], ins)
            return None
        if name.startswith('llvm.memset'):
            n = st.known(args[2])
            if n.k == 'c' and args[1].k == 'c' and args[1].a[0] == 0:
                st.zero_range(args[0], n.a[0])
            else:
                self.havoc_arg(st, args[0], ins)
            return None
        if name == 'llvm.type.test':
            if ins[8]:
                st.vt[args[0]] = ins[8]
            self.setret(st, ins, ONE)
            return None
        if name.startswith('llvm.eh.typeid.for'):
            v = args[0]
            self.setret(st, ins, mk('tid', v.a[0] if v.k == 'g' else '*'))
            return None
        if name == 'llvm.assume' or name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'):
            return None
        if name == 'llvm.trap':
            self.mon.ended(self, st, 'trap', Site(fr.fn, ins[3], fr.ctx, ins[0]))
            return []
        self.setret(st, ins, mk('E', name, 0, *args))
        return None


DELETES = {'_ZdlPv', '_ZdlPvy', '_ZdaPv', '_ZdlPvm', '_ZdaPvy', '_ZdaPvm'}


class Node(object):
    __slots__ = ('acc', 'tag', 'id', 'queued', 'joins', 'shared')

    def __lt__(self, o):
        return self.id < o.id


def affine(v):
    if v.k == 'c':
        return ZERO, v.a[0]
    if v.k == 'E' and v.a[0] == 'add' and v.a[3].k == 'c':
        return v.a[2], v.a[3].a[0]
    return v, 0


def rename_map(syms):
    """The present generation of each symbol becomes the old one; what was old is forgotten."""
    m = {}
    for s in syms:
        o = mk('old', s)
        m[s] = o
        m[o] = TOP
    return m


def kwidth(v):
    if v.k == 'E' and len(v.a) > 1 and isinstance(v.a[1], int) and v.a[0] in BINOPS or (v.k == 'E' and v.a[0] in ('zext', 'sext', 'trunc')):
        return v.a[1]
    return None


def mkleaves(t):
    if type(t) is V:
        return t.lv
    if type(t) in (tuple, frozenset):
        r = _EMPTY
        for x in t:
            y = mkleaves(x)
            if y:
                r = r | y
        return r
    return _EMPTY


C_MODELS_NAMES = {'memcpy', 'memmove', 'GetCurrentProcess', 'GetCurrentThread', 'GetCurrentThreadId', 'GetCurrentProcessId', 'wcslen', 'strlen', 'free'}


# ---- C++ ABI
def _cxa_allocate(I, st, ins, args):
    H = I.fresh(st, 'H', st.frames[-1].ctx, ins[0])
    I.setret(st, ins, H)
    return None


def _cxa_throw(I, st, ins, args):
    ti = args[1].a[0] if args[1].k == 'g' else '?'
    fr = st.frames[-1]
    st.trace = ('%s:%d throws %s' % (I.relfile(fr.fn), ins[3], ti), st.trace)
    # the handler sees the thrown object under the name exn(type): carry over its scalar constants
    E = mk('exn', ti)
    b, o = split(args[0])
    cells = [(k[1], c) for k, c in st.mem.items() if k[0] is b and type(k[1]) is int and o <= k[1] < o + 64]
    st.clear_range(E, 0, 64)
    for k, c in cells:
        if c[1].k == 'c':
            st.mem[(E, k - o)] = c
        del st.mem[(b, k)]
    return I.throw(st, ti, ins)


def _cxa_begin(I, st, ins, args):
    exc = args[0].a[0] if args[0].k == 'exn' else (st.exc or '?')
    st.caught = st.caught + (exc,)
    st.exc = None
    I.setret(st, ins, mk('exn', exc))
    return None


def _cxa_end(I, st, ins, args):
    st.caught = st.caught[:-1]
    return None


def _cxa_rethrow(I, st, ins, args):
    exc = st.caught[-1] if st.caught else '?'
    # the handler's end_catch pops it; the exception stays the same
    return I.throw(st, exc, ins)


def _guard_acquire(I, st, ins, args):
    # one-time initialisation: both the first and the later executions are possible
    s2 = st.copy()
    I.setret(s2, ins, ZERO)
    I.setret(st, ins, ONE)
    return I.cont(st, ins) + I.cont(s2, ins)


def _nop(I, st, ins, args):
    I.setret(st, ins, ZERO)
    return None


EXC = {
    '__cxa_allocate_exception': _cxa_allocate,
    '__cxa_throw': _cxa_throw,
    '__cxa_begin_catch': _cxa_begin,
    '__cxa_end_catch': _cxa_end,
    '__cxa_rethrow': _cxa_rethrow,
    '__cxa_free_exception': _nop,
    '__cxa_guard_acquire': _guard_acquire,
    '__cxa_guard_release': _nop,
    '__cxa_guard_abort': _nop,
    '__cxa_get_exception_ptr': lambda I, st, ins, args: I.setret(st, ins, args[0]),
}
