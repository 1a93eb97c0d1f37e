"""Constant folding of summary terms in machine numbers (floats with a tolerance), for abstract
counterexamples about floating point expressions.  Loop recurrences are folded by following the
recurrence; anything else the analysis does not know makes a candidate useless (Unk)."""
import math, random, struct
from terms import *
import terms as TM
from values import *


class Unk(Exception):
    pass


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


FN = {
    'log10': math.log10, 'tan': math.tan, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'sqrt': math.sqrt,
    'floor': math.floor, 'ceil': math.ceil, 'ln': math.log, 'log': math.log, 'log2': math.log2,
    'powf': math.pow, 'pow': math.pow, 'powi': math.pow, 'max': max, 'min': min,
    'maximum': max, 'minimum': min,
}


class Under(dict):
    """folded values, apart from those of terms that mention one of the given leaves"""

    def __init__(self, base, m):
        dict.__init__(self)
        self.base, self.m, self.dep = base, set(m), {}

    def get(self, t, d=None):
        v = dict.get(self, t)
        if v is None and t in self.base and not self.mentions(t):
            v = self.base[t]
        return d if v is None else v

    def mentions(self, t):
        r = self.dep.get(t)
        if r is None:
            r = False
            st, seen = [t], set()
            while st and not r:
                x = st.pop()
                if isinstance(x, (T, V)):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x in self.m:
                        r = True
                    st.extend(x.args if isinstance(x, T) else x.a)
                elif isinstance(x, tuple):
                    st.extend(x)
            self.dep[t] = r
        return r


_SORTS = {}


def sort_of(L):
    """the array a summarised sort works on"""
    if L not in _SORTS:
        r = None
        st, seen = list(L.nexts), set()
        while st and r is None:
            x = st.pop()
            if isinstance(x, T):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'sortel':
                    r = x.args[0]
                else:
                    st.extend(x.args)
            elif isinstance(x, tuple):
                st.extend(x)
        _SORTS[L] = r
    return _SORTS[L]


class NumEv:
    def __init__(self, leaf, budget=4000000):
        self.leaf = leaf          # function: T -> number
        self.val = {}
        self.memo = {}
        self.env = None
        self.muv = {}
        self.arv = {}
        self.trace = {}
        self.budget = budget

    def get(self, t):
        if t.op == 'int':
            return t.args[0]
        if t.op == 'flt':
            return fval(t)
        if t.op == 'bool':
            return t.args[0]
        if self.env is not None and t.free and not isinstance(self.memo, Under):
            m = self.env
        else:
            m = self.memo
        v = m.get(t)
        if v is None:
            self.budget -= 1
            if self.budget < 0:
                raise Unk('budget')
            v = self.one(t)
            m[t] = v
        if v is Unk:
            raise Unk(t.op)
        return v

    def leafv(self, t):
        v = self.val.get(t)
        if v is None:
            v = self.leaf(self, t)
            if v is None:
                raise Unk(t.op)
            self.val[t] = v
        return v

    def one(self, t):
        o, a = t.op, t.args
        if t in self.val:
            return self.val[t]
        if o == 'ite':
            # iterative along the chain
            while t.op == 'ite':
                t = t.args[1] if self.get(t.args[0]) else t.args[2]
            return self.get(t)
        if o == 'poly':
            r = 0
            for m, c in a:
                x = c
                for z in m:
                    x *= self.get(z)
                r += x
            return r
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.get(a[0]), self.get(a[1])
            try:
                if o == 'fadd':
                    return x + y
                if o == 'fsub':
                    return x - y
                if o == 'fmul':
                    return x * y
                if y == 0:
                    return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
                return x / y
            except OverflowError:
                raise Unk('overflow')
        if o == 'fneg':
            return -self.get(a[0])
        if o == 'fabs':
            return abs(self.get(a[0]))
        if o == 'frem':
            return math.fmod(self.get(a[0]), self.get(a[1]))
        if o in ('cflt', 'cfle', 'cfeq'):
            x, y = self.get(a[0]), self.get(a[1])
            return x < y if o == 'cflt' else x <= y if o == 'cfle' else x == y
        if o == 'cnan':
            x = self.get(a[0])
            return x != x
        if o == 'lt0':
            return self.get(a[0]) < 0
        if o == 'eq0':
            return self.get(a[0]) == 0
        if o == 'bit':
            return bool(self.get(a[0]) >> a[1] & 1)
        if o == 'div':
            y = self.get(a[1])
            if y == 0:
                raise Unk('div')
            x = self.get(a[0])
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if o in ('and', 'or', 'xor'):
            x, y = self.get(a[0]), self.get(a[1])
            return x & y if o == 'and' else x | y if o == 'or' else x ^ y
        if o == 'bnot':
            return ~self.get(a[0]) & ((1 << a[1]) - 1)
        if o == 'trunc':
            n = self.get(a[0]) & ((1 << a[1]) - 1)
            if a[2] and n >> (a[1] - 1):
                n -= 1 << a[1]
            return n
        if o == 'i2f':
            x = float(self.get(a[0]))
            return f32(x) if a[1] == 32 else x
        if o == 'f2f':
            x = self.get(a[0])
            return f32(x) if a[1] == 32 else x
        if o == 'f2i':
            x = self.get(a[0])
            if x != x:
                return 0
            lo, hi = RNG.get(t, (-INF, INF))
            x = lo if x < lo else hi if x > hi else int(x)
            return x
        if o == 'fcall':
            f = FN.get(a[0])
            if f is None:
                raise Unk(a[0])
            vs = [self.get(z) for z in a[1:]]
            if any(v != v for v in vs):
                return math.nan
            try:
                return float(f(*vs))
            except (ValueError, OverflowError, ZeroDivisionError):
                if a[0] in ('log10', 'ln', 'log') and vs[0] == 0:
                    return -math.inf
                if a[0] in ('log10', 'ln', 'log', 'sqrt') and vs[0] < 0:
                    return math.nan
                raise Unk(a[0])
        if o == 'sel' and isinstance(a[0], T) and a[0].op == 'tab':
            tb = TM.TABLES[a[0].args[0]]
            i = self.get(a[1])
            if 0 <= i < len(tb) and isinstance(tb[i], T):
                return self.get(tb[i])
            raise Unk('tab')
        if o == 'mu':
            return self.mu(a[0], a[1])
        if o == 'atph':
            return self.atph(*a)
        if o in ('tag', 'pos') and a[0].op == 'call' and a[0].args[0] in ('binary_search', 'position', 'rposition', 'partition_point'):
            r = self.search(a[0])
            return r[0] if o == 'tag' else r[1]
        if o == 'deref' and a[0].op == 'dqel':
            q, i = a[0].args
            k = mk('deref', (mk('dqel', (q, num(self.get(i))), 'o'),), t.sort)
            return self.leafv(k)
        if o == 'sel' and isinstance(a[0], T) and a[0].op == 'dqcont':
            return self.leafv(mk('deref', (mk('dqel', (a[0].args[0], num(self.get(a[1]))), 'o'),), t.sort))
        if o == 'sel' and isinstance(a[0], T) and a[0].op == 'sorted':
            l = self.sortedlist(a[0])
            i = self.get(a[1])
            if 0 <= i < len(l):
                return l[i]
            raise Unk('sorted')
        if o in ('sym', 'deref', 'proj', 'tag', 'len', 'isnull', 'allocok', 'dqsplit'):
            return self.leafv(t)
        if o == 'sel':
            b = a[0]
            i = self.get(a[1])
            # a concrete element of an opaque array
            k = mk('sel', (b, num(i)), t.sort)
            if t in RNG and k not in RNG:
                RNG[k] = RNG[t]
            return self.leafv(k)
        raise Unk(o)

    # ------------------------------------------------------------ array contents
    def outer(self, f):
        """fold something that mentions no loop placeholder"""
        e, self.env = self.env, None
        try:
            return f()
        finally:
            self.env = e

    def elem(self, ar, i, sort):
        k = (ar, i)
        r = self.arv.get(k)
        if r is None:
            r = self.outer(lambda: self.elem1(ar, i, sort))
            self.arv[k] = r
        return r

    def elem1(self, ar, i, sort):
        e, ln, base, ov = ar.a
        for o in reversed(ov):
            if o[0] == 'p':
                if self.get(o[1]) == i:
                    return self.get(o[2])
            else:
                lo, hi = self.get(o[1]), self.get(o[2])
                if lo <= i < hi:
                    self.env = {o[3]: i}
                    try:
                        return self.get(o[4])
                    finally:
                        self.env = None
        if base[0] == 'u':
            if base[1] is None:
                return self.get(base[2])
            self.env = {base[1]: i}
            try:
                return self.get(base[2])
            finally:
                self.env = None
        if base[0] == 'o':
            return self.get(mk('sel', (base[1], num(i)), sort))
        raise Unk('element')

    def atph(self, p, h, k):
        """a loop variable in the round in which the counter k was h"""
        while p.op == 'ite' and p.args[1] is TRUE and p.args[2] is FALSE:
            p = p.args[0]
        if p.op != 'mu' or k.op != 'mu' or p.args[0] is not k.args[0]:
            raise Unk('atph')
        L = p.args[0]
        n = self.get(h) - self.outer(lambda: self.get(L.inits[k.args[1]]))
        self.outer(lambda: self.mu(L, p.args[1]))
        tr = self.trace.get(L, ())
        if not 0 <= n < len(tr) or tr[n][p.args[1]] is None:
            raise Unk('atph')
        return tr[n][p.args[1]]

    def contents(self, ar, sort):
        n = self.outer(lambda: self.get(ar.a[1]))
        if n > 5000:
            raise Unk('length')
        return [self.elem(ar, i, sort) for i in range(n)]

    def with_leaves(self, m, t):
        """fold t with the given leaf values (nothing else about them is remembered)"""
        sv = self.val, self.memo, self.env
        self.val, self.memo, self.env = dict(self.val), Under(self.memo, m), None
        self.val.update(m)
        try:
            return self.get(t)
        finally:
            nv = self.val
            self.val, self.memo, self.env = sv
            for k, v in nv.items():
                if k not in m:
                    self.val.setdefault(k, v)

    def sortedlist(self, t):
        r = self.arv.get(t)
        if r is None:
            ar, c = t.args
            l = self.contents(ar, 'f')
            if any(x != x for x in l):
                raise Unk('sorting NaN')
            if c is ZERO:
                r = sorted(l)
            else:
                x, y = (self.derefs('sortel', (ar, k)) for k in (1, 2))

                def cmp(p, q):
                    return self.with_leaves({x: p, y: q}, c) - 1      # index of the Ordering
                import functools
                r = sorted(l, key=functools.cmp_to_key(cmp))
            self.arv[t] = r
        return r

    def derefs(self, op, args, sort='f'):
        return mk('deref', (mk(op, args, 'o'),), sort)

    def search(self, t):
        """(found, index) of a search in a slice"""
        r = self.arv.get(t)
        if r is not None:
            return r
        name, base, ar = t.args[:3]
        sl = base.a[1] if base.k == 'It' and base.a[0] == 'sl' else base
        if not (isinstance(ar, V) and ar.k == 'Ar') or sl.k != 'Sl':
            raise Unk(name)
        off, n = (self.outer(lambda z=z: self.get(z)) for z in (sl.a[2], sl.a[3]))
        if base.k == 'It' and len(base.a) > 2:
            c = base.a[2:]
            if name != 'rposition':
                off, n = off + self.outer(lambda: self.get(c[0])), n - self.outer(lambda: self.get(c[0]))
        if name == 'binary_search':
            x = self.outer(lambda: self.get(t.args[3]))
            l = [self.elem(ar, off + i, 'i') for i in range(n)]
            if any(p > q for p, q in zip(l, l[1:])):
                raise Unk('not sorted')
            import bisect
            i = bisect.bisect_left(l, x)
            r = (0, i) if i < n and l[i] == x else (1, i)
        else:
            pred = t.args[4]
            if pred == 0:
                raise Unk(name)
            v, t0 = pred
            r = (0, 0)
            for i in (range(n - 1, -1, -1) if name == 'rposition' else range(n)):
                x = self.elem(ar, off + i, 'i')
                m = {self.derefs('posel', (t0,), s): x for s in 'if'}
                if bool(self.with_leaves(m, v)) != (name == 'partition_point'):
                    r = (1, i)
                    break
            else:
                if name == 'partition_point':
                    r = (1, n)
        self.arv[t] = r
        return r

    def pairs(self, L, ar):
        """the recurrence of a sort: its comparisons of any two elements"""
        l = self.contents(ar, 'f')
        cur = [self.get(x) for x in L.inits]
        x, y = (self.derefs('sortel', (ar, k)) for k in (1, 2))
        for i, p in enumerate(l):
            for q in l[:i]:
                m = {x: p, y: q}
                for k, z in enumerate(L.inits):
                    m[mk('ph', (('L', L.h), k), z.sort)] = cur[k]
                cur = [self.with_leaves(m, z) for z in L.nexts]
        return cur

    def mu(self, L, i):
        if L.free and self.env is not None:
            raise Unk('mu')
        r = self.muv.get(L)
        if r is None:
            ar = sort_of(L)
            if ar is not None:
                r = self.outer(lambda: self.pairs(L, ar))
            elif L.trip is None:
                r = Unk
            else:
                r = self.outer(lambda: self.loop(L))
            self.muv[L] = r
        if r is Unk or r[i] is None:
            raise Unk('mu')
        return r[i]

    def loop(self, L):
        n = len(L.inits)
        cur = []
        for x in L.inits:
            try:
                cur.append(self.get(x) if isinstance(x, T) and x.sort != 'o' else None)
            except Unk:
                cur.append(None)
        nx = L.nexts
        tr = self.trace[L] = []
        for k in range(5000):
            tr.append(cur)
            self.env = {}
            try:
                for i in range(n):
                    if cur[i] is not None:
                        x = L.inits[i]
                        self.env[mk('ph', (('L', L.h), i), x.sort)] = cur[i]
                done = False
                for tc in L.trip:
                    if self.get(tc):
                        done = True
                if done:
                    return cur
                new = []
                for i in range(n):
                    try:
                        new.append(self.get(nx[i]) if cur[i] is not None and isinstance(nx[i], T) else None)
                    except Unk:
                        new.append(None)
                cur = new
            except Unk:
                return Unk
            finally:
                self.env = None
        return Unk


def close(x, y, tol=1e-9):
    if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, int) and isinstance(y, int):
        return x == y
    if x != x or y != y:
        return (x != x) == (y != y)
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= tol * max(abs(x), abs(y)) + 1e-250


INPUT = ('sym', 'deref', 'sel', 'proj')
_TIES = {}


def ties(*terms):
    """[(leaf, term)]: float leaves that are compared with something else"""
    if terms in _TIES:
        return _TIES[terms]
    out, seen, st = [], set(), list(terms)
    while st and len(seen) < 60000:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('cflt', 'cfle', 'cfeq'):
                p, q = x.args
                if p.op in INPUT and p is not q:
                    out.append((p, q, x.op == 'cfeq'))
                if q.op in INPUT and p is not q:
                    out.append((q, p, x.op == 'cfeq'))
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    out = list(dict.fromkeys(out))
    out = _TIES[terms] = [x for x in out if x[2]] + [x for x in out if not x[2]]
    out = _TIES[terms] = [x[:2] for x in out]
    return out


def tied(rng, tries, *terms):
    """for each try: the leaves to place next to what they are compared with"""
    l = ties(*terms)
    for k in range(tries):
        yield ()
        if k < len(l):
            # equality tests come first
            yield (l[k],)
        elif l and k % 4 == 0:
            yield [rng.choice(l) for j in range(3)]


class Pick:
    """random constants for input leaves; some of them next to what they are compared with"""

    def __init__(self, rng, fpool=None, ints=None, fix=None, tie=()):
        self.rng, self.fpool, self.ints, self.fix = rng, fpool, ints, fix or {}
        self.tie = dict(tie)

    def __call__(self, ev, t):
        if t in self.fix:
            return self.fix[t]
        r = self.rng
        if t in self.tie:
            y = self.tie.pop(t)
            try:
                v = ev.outer(lambda: ev.get(y))
            except (Unk, RecursionError):
                v = None
            if t in ev.val:
                return ev.val[t]
            if v is not None and v == v and not math.isinf(v):
                return v * r.choice((1, 1, 1, 1, 1 - 1e-3, 1 + 1e-3))
        if t.sort == 'f':
            if self.fpool is not None:
                return self.fpool(r, t) if callable(self.fpool) else r.choice(self.fpool)
            return r.uniform(-1, 1) if r.random() < .9 else r.choice((0.0, 1.0, -1.0, .5))
        if t.sort == 'b':
            return r.random() < .5
        if t.sort == 'i':
            lo, hi = RNG.get(t, (0, 100))
            if self.ints and t in self.ints:
                return r.choice(self.ints[t])
            lo = max(lo, -(1 << 63))
            hi = min(hi, 1 << 40)
            if hi - lo > 64 and r.random() < .6:
                c = [v for v in (lo, lo + 1, lo + 2, 0, 1, 2, 3, 5, 10, 100, 1000, hi, hi - 1) if lo <= v <= hi]
                return int(r.choice(c))
            return r.randint(int(lo), int(hi))
        return None


class Wit(dict):
    def __str__(self):
        return ', '.join('%s=%s' % (show(k), v) for k, v in list(self.items())[:12])


def ndiffer(a, b, cond=TRUE, tries=24, tol=1e-9, fpool=None, seed=1, ints=None, fix=None):
    """a witness under which cond holds and a, b differ; None if there is none among the tries; Unk if nothing could be folded"""
    rng = random.Random(seed)
    got = False
    for tie in tied(rng, tries, a, b, cond):
        ev = NumEv(Pick(rng, fpool, ints, fix, tie))
        try:
            if not ev.get(cond):
                continue
            x, y = ev.get(a), ev.get(b)
        except Unk:
            continue
        got = True
        if not close(x, y, tol):
            w = Wit(ev.val)
            w.xy = (x, y)
            return w
    return None if got else Unk


def nholds(cond, tries=24, fpool=None, seed=1, ints=None, fix=None):
    """a witness under which cond holds, or None"""
    rng = random.Random(seed)
    for tie in tied(rng, tries, cond):
        ev = NumEv(Pick(rng, fpool, ints, fix, tie))
        try:
            if ev.get(cond):
                return Wit(ev.val)
        except Unk:
            continue
    return None
