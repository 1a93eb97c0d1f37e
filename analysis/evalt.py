"""Constant propagation through summary terms.

A violation is only reported when the analysed condition folds to a constant under one consistent
choice of constants for the entry's inputs (arguments and initial state): the abstract counterexample
is replayed through the value-numbering rules, so that spurious path combinations of the abstraction
are never reported.  Terms whose value the analysis does not know (loop recurrences, cut calls,
unknowns) never fold, and therefore never support a report."""
import math, random
from terms import *
import terms as TM
from values import *

LEAF = {'sym', 'deref', 'proj', 'sel', 'tag', 'len', 'isnull', 'allocok'}
FN = {
    'log10': lambda x: math.log10(x), 'tan': math.tan, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp,
    'powf': lambda x, y: x ** y, 'pow': lambda x, y: x ** y, 'sqrt': math.sqrt, 'floor': math.floor,
    'log': math.log, 'ln': math.log, 'powi': lambda x, y: x ** y, 'ceil': math.ceil, 'round': lambda x: math.floor(x + .5) if x >= 0 else math.ceil(x - .5),
}


_pure = {}


def pure(x):
    """built from the entry's inputs only (no loop recurrence, cut call or unknown inside)"""
    if isinstance(x, tuple):
        return all(pure(a) for a in x)
    if not isinstance(x, T):
        return not isinstance(x, V)
    r = _pure.get(x)
    if r is None:
        r = x.op not in ('mu', 'cut', 'call', 'unk', 'ph', 'hole', 'atph', 'c') and pure(x.args)
        _pure[x] = r
    return r


class Ev:
    def __init__(self, val=None, choose=None, memo=None):
        self.val = dict(val or {})
        self.choose = choose
        self.memo = {}

    def set(self, t, v):
        self.val[t] = v
        self.memo = {}

    def isleaf(self, x):
        return x.op in LEAF and pure(x)

    def t(self, x):
        if not isinstance(x, T):
            if isinstance(x, V):
                return self.v(x)
            if isinstance(x, tuple):
                return tuple(self.t(a) for a in x)
            return x
        o = x.op
        if o in ('int', 'flt', 'bool', 'unk', 'mu', 'cut', 'call', 'hole', 'ph', 'c', 'atph', 'tab'):
            return self.val.get(x, x)
        r = self.memo.get(x)
        if r is not None:
            return r
        r = self.t1(x)
        self.memo[x] = r
        return r

    def t1(self, x):
        o = x.op
        if o == 'ite':
            a = self.atom(x.args[0])
            if a is TRUE:
                return self.t(x.args[1])
            if a is FALSE:
                return self.t(x.args[2])
            return ite(a, self.t(x.args[1]), self.t(x.args[2]))
        if o == 'poly':
            r = ZERO
            for m, c in x.args:
                y = num(c)
                for a in m:
                    y = mul(y, self.t(a))
                r = add(r, y)
            return r
        if x.sort == 'b':
            return self.atom(x)
        return self.leaf_or(x)

    def leaf_or(self, x):
        if x in self.val:
            return self.val[x]
        args = tuple(self.t(a) if isinstance(a, (T, tuple)) else a for a in x.args)
        if x.op == 'fcall':
            vs = [fval(a) if isinstance(a, T) and a.op == 'flt' else a.args[0] if isinstance(a, T) and a.op == 'int' else None for a in args[1:]]
            f = FN.get(args[0])
            if f and all(v is not None for v in vs):
                w = next((a.args[1] for a in args[1:] if a.op == 'flt'), 64)
                try:
                    return fconst(float(f(*vs)), w)
                except (ValueError, OverflowError, ZeroDivisionError):
                    if args[0] == 'log10' and vs[0] == 0:
                        return fconst(-math.inf, w)
        if any(isinstance(a, T) and a.op == 'ite' for a in args) and x.op in ('len', 'tag', 'sel', 'proj', 'deref'):
            return mk(x.op, args, x.sort) if args != x.args else x
        y = x if args == x.args else rebuild(x.op, args, x.sort, x)
        if isinstance(y, T) and y.op == 'ite' and y.sort != 'b':
            return y
        if isinstance(y, T) and y.sort == 'b':
            return y
        if y in self.val:
            return self.val[y]
        if self.isleaf(y) and self.choose:
            c = self.choose(self, y)
            if c is not None:
                self.val[y] = c
                return c
        return y

    def atom(self, a):
        """value of an atom as a diagram"""
        if a in self.val:
            return self.val[a]
        r = self.memo.get(('a', a))
        if r is not None:
            return r
        args = tuple(self.t(z) if isinstance(z, (T, tuple)) else z for z in a.args)
        r = batom(a) if args == a.args else rebuild(a.op, args, a.sort, a)
        if isinstance(r, T) and r.op == 'ite' and r.args[1] is TRUE and r.args[2] is FALSE:
            b = r.args[0]
            if b in self.val:
                r = self.val[b]
            elif not b.unk and (self.isleaf(b) or b.op in ('allocok', 'isnull', 'bit') and self.base(b)) and self.choose:
                c = self.choose(self, b)
                if c is not None:
                    self.val[b] = c
                    r = c
        self.memo[('a', a)] = r
        return r

    def base(self, b):
        return b.op in ('allocok', 'isnull')

    def v(self, x):
        if isinstance(x, T):
            return self.t(x)
        if isinstance(x, tuple):
            return tuple(self.v(a) for a in x)
        if not isinstance(x, V):
            return x
        r = self.memo.get(x)
        if r is not None:
            return r
        if x.k == 'Ch':
            c = self.t(x.a[0])
            r = self.v(x.a[1]) if c is TRUE else self.v(x.a[2]) if c is FALSE else Ch(c, self.v(x.a[1]), self.v(x.a[2]))
        elif x.k == 'En':
            tag = self.t(x.a[1])
            ps = x.a[2]
            if tag.op == 'int':
                ps = tuple(self.v(p) if i == tag.args[0] else None for i, p in enumerate(ps))
            else:
                ps = self.v(ps)
            r = mkv('En', x.a[0], tag, ps)
        elif x.k == 'Op':
            r = x
        else:
            r = mkv(x.k, *[self.v(a) for a in x.a])
        self.memo[x] = r
        return r


def ileaves(x, acc=None, seen=None, d=0):
    """input leaves occurring in a term"""
    if acc is None:
        acc, seen = [], set()
    if isinstance(x, T):
        if x in seen:
            return acc
        seen.add(x)
        if x.op in LEAF:
            acc.append(x)
            if x.op in ('sel', 'allocok'):
                for a in x.args:
                    ileaves(a, acc, seen, d + 1)
            return acc
        if x.op in ('mu', 'cut', 'call', 'unk'):
            acc.append(x)
            return acc
        for a in x.args:
            ileaves(a, acc, seen, d + 1)
    elif isinstance(x, tuple):
        for a in x:
            ileaves(a, acc, seen, d + 1)
    return acc


def consts(x, acc, seen, d=0):
    if isinstance(x, T):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'int':
            acc.add(x.args[0])
        elif x.op == 'poly':
            for m, c in x.args:
                if not m:
                    acc.add(c)
                for a in m:
                    consts(a, acc, seen, d + 1)
            return
        for a in x.args:
            consts(a, acc, seen, d + 1)
    elif isinstance(x, tuple):
        for a in x:
            consts(a, acc, seen, d + 1)


class Chooser:
    def __init__(self, rng, pool, fpool):
        self.rng, self.pool, self.fpool = rng, pool, fpool

    def __call__(self, ev, y):
        r = self.rng
        if y.sort == 'i':
            lo, hi = RNG.get(y, (-INF, INF))
            c = [p for p in self.pool if lo <= p <= hi]
            if lo > -INF:
                c += [lo]
            if hi < INF:
                c += [hi]
            if lo > -INF and hi < INF and hi - lo <= 64:
                c += list(range(lo, hi + 1))
            return num(r.choice(c)) if c else None
        if y.sort == 'f':
            return fconst(r.choice(self.fpool))
        if y.sort == 'b':
            return boolc(r.random() < .5)
        return None


def solve(ev, p, want_zero, rng, pool):
    """assign one unassigned linear leaf of polynomial p such that p == 0 / p < 0 / p >= 0"""
    d = P(p)
    cand = []
    for m, c in d.items():
        if len(m) == 1 and m[0].op in LEAF and not m[0].unk and m[0].sort == 'i' and m[0] not in ev.val:
            if not any(m[0] in m2 for m2 in d if m2 != m):
                cand.append((m[0], c))
    if not cand:
        return False
    rng.shuffle(cand)
    x, c = cand[0]
    # make every other leaf constant first
    ev2 = ev
    rest = ZERO
    for m, k in d.items():
        if m == (x,):
            continue
        y = num(k)
        for a in m:
            y = mul(y, ev2.t(a))
        rest = add(rest, y)
    if rest.op != 'int':
        return False
    r = rest.args[0]
    lo, hi = RNG.get(x, (-INF, INF))
    if want_zero == 'eq':
        vs = [-r // c] if r % c == 0 else []
    else:
        b = -r // c
        vs = [b - 1, b, b + 1, b - 2, b + 2]
        vs += [lo, hi]
        f = (lambda v: c * v + r < 0) if want_zero == 'lt' else (lambda v: c * v + r >= 0)
        vs = [v for v in vs if abs(v) != INF and f(v)]
    vs = [v for v in vs if lo <= v <= hi]
    if not vs:
        return False
    ev.set(x, num(int(rng.choice(vs))))
    return True


def seedpath(ev, cond, rng, pool):
    """follow a random path of the diagram to TRUE and choose constants satisfying the literals of it
    that constrain a single input leaf"""
    x = cond
    lo, hi, ne, bits, lits = {}, {}, {}, {}, []
    while x.op == 'ite':
        a = x.args[0]
        w = rng.choice([i for i in (1, 2) if x.args[i] is not FALSE])
        x = x.args[w]
        lits.append((a, w == 1))
    for a, v in lits:
        if a.op == 'bit' and a.args[0].op in LEAF and not a.unk:
            bits.setdefault(a.args[0], {})[a.args[1]] = v
        elif a.op in ('lt0', 'eq0'):
            d = P(a.args[0])
            ms = [m for m in d if m]
            if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0].op not in LEAF or ms[0][0].unk or ms[0][0].sort != 'i':
                continue
            y, c, k = ms[0][0], d[ms[0]], d.get((), 0)
            if a.op == 'eq0':
                if -k % c:
                    continue
                if v:
                    lo[y] = max(lo.get(y, -INF), -k // c)
                    hi[y] = min(hi.get(y, INF), -k // c)
                else:
                    ne.setdefault(y, set()).add(-k // c)
            elif v:                                        # c*y + k < 0
                if c > 0:
                    hi[y] = min(hi.get(y, INF), (-k - 1) // c)
                else:
                    lo[y] = max(lo.get(y, -INF), k // -c + 1)
            else:                                          # c*y + k >= 0
                if c > 0:
                    lo[y] = max(lo.get(y, -INF), -(k // c))
                else:
                    hi[y] = min(hi.get(y, INF), k // -c)
    for y in set(lo) | set(hi) | set(ne) | set(bits):
        if y in ev.val:
            continue
        l, h = RNG.get(y, (-INF, INF))
        l, h = max(l, lo.get(y, -INF)), min(h, hi.get(y, INF))
        if l > h:
            return
        if y in bits:
            if h > 1 << 16:
                h = max(l, 1 << 16)
            c = [v for v in range(max(int(l), 0), int(h) + 1) if all((v >> i & 1) == int(b) for i, b in bits[y].items())]
        else:
            c = [v for v in (l, h, l + 1, h - 1) if abs(v) != INF and l <= v <= h] * 2 + [p for p in pool if l <= p <= h]
        c = [v for v in c if v not in ne.get(y, ())]
        if not c:
            return
        ev.set(y, num(int(rng.choice(c))))


def search(cond, fixed=None, tries=200, seed=1, pool=(), fpool=()):
    """a choice of constants for the inputs under which cond folds to true (an Ev), or None"""
    cond = cond
    if cond is FALSE:
        return None
    rng = random.Random(seed)
    acc = set()
    consts(cond, acc, set())
    ps = set(pool) | {0, 1, 2, 3, 5, 48, 100, 400, 3000, 48000}
    for a in acc:
        if abs(a) < 1 << 70:
            ps |= {abs(a), abs(a) - 1, abs(a) + 1}
    fp = list(fpool) or [0.0, 0.25, 0.5, 1.0, 2.0, -0.5, 1e-9, 3.5]
    pool = sorted(ps)
    for k in range(tries):
        ev = Ev(fixed)
        ch = Chooser(rng, pool, fp)
        x = cond
        n = 0
        if k % 4:
            seedpath(ev, cond, rng, pool)
        while x.op == 'ite' and n < 3000:
            n += 1
            a = x.args[0]
            ev.choose = None
            ev.memo = {}
            b = ev.atom(a)
            if b is not TRUE and b is not FALSE:
                opts = [i for i in (1, 2) if x.args[i] is not FALSE]
                want = rng.choice(opts)
                ok = False
                if b.op == 'ite' and b.args[1] is TRUE and b.args[2] is FALSE:
                    at = b.args[0]
                    ev.choose = ch
                    if at.op == 'eq0' and want == 1:
                        ok = solve(ev, at.args[0], 'eq', rng, pool)
                    elif at.op == 'lt0':
                        ok = solve(ev, at.args[0], 'lt' if want == 1 else 'ge', rng, pool)
                    elif at.op in LEAF and not at.unk:
                        ev.set(at, boolc(want == 1))
                ev.choose = ch
                ev.memo = {}
                b = ev.atom(a)
            if b is TRUE:
                x = x.args[1]
            elif b is FALSE:
                x = x.args[2]
            else:
                break
        if x is TRUE:
            ev.choose = None
            ev.memo = {}
            if ev.t(cond) is TRUE:
                return ev
    return None


def isconst(t):
    return isinstance(t, T) and t.op in ('int', 'flt', 'bool')


def fdiff(a, b):
    """definitely different constants"""
    if a.op == 'flt' and b.op == 'flt':
        x, y = fval(a), fval(b)
        if x != x or y != y:
            return (x != x) != (y != y)
        if x == y:
            return False
        if math.isinf(x) or math.isinf(y):
            return True
        return abs(x - y) > 1e-7 * max(abs(x), abs(y), 1e-300)
    if a.op == 'flt' or b.op == 'flt':
        return a.op != b.op
    return a is not b


def show_val(ev, limit=12):
    return ', '.join('%s=%s' % (show(k), show(v)) for k, v in list(ev.val.items())[:limit])
