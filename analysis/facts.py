"""Must-facts of an abstract state: literals, intervals and linear inequalities; entailment by
interval evaluation plus bounded combination of linear facts (no solver)."""
from terms import *
import terms as TM


def _mulr(a, b):
    xs = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                xs.append(0)
            else:
                xs.append(x * y)
    return (min(xs), max(xs))


class Facts:
    __slots__ = ('lits', 'rng', 'lins', 'eqs', 'sub')

    def __init__(self):
        self.lits = {}
        self.rng = {}
        self.lins = ()      # tuple of poly terms p meaning p <= 0
        self.eqs = ()       # p == 0
        self.sub = {}       # atom -> term (equalities oriented)

    def copy(self):
        f = Facts()
        f.lits = dict(self.lits)
        f.rng = dict(self.rng)
        f.lins = self.lins
        f.eqs = self.eqs
        f.sub = self.sub
        return f

    # ---- adding
    def add_bool(self, c):
        """assume boolean diagram c; returns False if contradictory"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        ok = True
        done = False
        cur = c
        n = 0
        for a in forced(c):
            if self.add_lit(a[0], a[1]) is False:
                ok = False
        return ok

    def add_lit(self, a, val):
        old = self.lits.get(a)
        if old is not None:
            return old == val
        self.lits[a] = val
        if a.op == 'lt0':
            p = a.args[0]
            if val:
                self._le(add(p, ONE))
            else:
                self._le(neg(p))
        elif a.op == 'eq0':
            p = a.args[0]
            if val:
                self._le(p)
                self._le(neg(p))
                self._orient(p)
            else:
                d = P(p)
                if len(d) <= 2:
                    lo, hi = self.range(p)
                    if lo == 0:
                        self._le(sub(ONE, p))
                    elif hi == 0:
                        self._le(add(p, ONE))
        return True

    def _orient(self, p):
        """p == 0: remember atom -> rest when an atom occurs linearly with coefficient +-1"""
        d = P(p)
        best = None
        for m, c in d.items():
            if len(m) == 1 and abs(c) == 1:
                a = m[0]
                # a must not occur elsewhere
                if any(a in m2 for m2 in d if m2 != m):
                    continue
                if any(occurs(a, x) for m2 in d if m2 != m for x in m2):
                    ds = {x for m2 in d if m2 != m for x in m2 if occurs(a, x)}
                    if len(ds) == 1:
                        x, = ds
                        if x.op == 'div' and x.args[0] is a and not occurs(a, x.args[1]):
                            q = mk('quot', x.args, 'i')
                            RNG[q] = (0, INF)
                            r = ZERO
                            for m2, c2 in d.items():
                                if m2 == m:
                                    continue
                                y = num(-c2 if c == 1 else c2)
                                for z in m2:
                                    y = mul(y, q if z is x else z)
                                r = add(r, y)
                            if a not in self.sub:
                                self.sub = dict(self.sub)
                                self.sub[a] = r
                            return
                    continue
                k = (a.op in ('ph', 'mu', 'div'), a.id)
                if best is None or k > best[0]:
                    best = (k, a, c)
        if best:
            _, a, c = best
            r = fromP({m: (-x if c == 1 else x) for m, x in d.items() if m != (a,)})
            if a not in self.sub:
                self.sub = dict(self.sub)
                self.sub[a] = r

    def _le(self, p):
        d = P(p)
        ms = [m for m in d if m]
        if len(ms) == 1:
            m = ms[0]
            c = d[m]
            k = -d.get((), 0)
            if len(m) == 1:
                lo, hi = self.rng.get(m[0], (-INF, INF))
                if c > 0:
                    hi = min(hi, k // c)
                else:
                    lo = max(lo, -(k // -c))
                self.rng[m[0]] = (lo, hi)
                if m[0].op not in ('div', 'ite'):
                    return
        if p not in self.lins:
            self.lins = self.lins + (p,)

    def assume_le(self, p):
        self._le(p)

    # ---- ranges
    def range(self, t, depth=0, memo=None):
        """interval of an integer term"""
        if memo is None:
            memo = {}
        d = P(t)
        lo = hi = 0
        for m, c in d.items():
            r = (1, 1)
            for a in m:
                r = _mulr(r, self.arange(a, depth, memo))
            if m == ():
                r = (1, 1)
            x, y = (r[0] * c if r[0] else 0, r[1] * c if r[1] else 0)
            lo += min(x, y)
            hi += max(x, y)
        return lo, hi

    def arange(self, a, depth=0, memo=None):
        if memo is None:
            return self._arange(a, depth, {})
        r = memo.get((a, depth))
        if r is None:
            r = memo[(a, depth)] = self._arange(a, depth, memo)
        return r

    def _arange(self, a, depth, memo):
        lo, hi = RNG.get(a, (-INF, INF))
        l2, h2 = self.rng.get(a, (-INF, INF))
        lo, hi = max(lo, l2), min(hi, h2)
        if depth > 6:
            return lo, hi
        o = a.op
        if o == 'div':
            x = self.range(a.args[0], depth + 1, memo)
            y = self.range(a.args[1], depth + 1, memo)
            if x[0] >= 0 and y[0] >= 0:
                y0 = max(y[0], 1)
                l = x[0] // y[1] if y[1] < INF and x[0] < INF else 0
                h = x[1] // y0 if x[1] < INF and y0 < INF else (INF if x[1] == INF else 0)
                lo, hi = max(lo, l), min(hi, h)
        elif o == 'and':
            for z in a.args:
                r = self.range(z, depth + 1, memo)
                if r[0] >= 0:
                    lo = max(lo, 0)
                    hi = min(hi, r[1])
        elif o in ('or', 'xor'):
            rs = [self.range(z, depth + 1, memo) for z in a.args]
            if all(r[0] >= 0 for r in rs):
                lo = max(lo, 0)
                h = max(r[1] for r in rs)
                if h < INF:
                    hi = min(hi, (1 << int(h).bit_length()) - 1)
        elif o == 'trunc':
            r = self.range(a.args[0], depth + 1, memo)
            if r[0] >= lo and r[1] <= hi:
                lo, hi = r
        elif o == 'ite':
            rs = [self.range(z, depth + 1, memo) for z in leaves(a)[:8]]
            lo = max(lo, min(r[0] for r in rs))
            hi = min(hi, max(r[1] for r in rs))
        elif o == 'len':
            lo = max(lo, 0)
        elif o == 'b2i':
            lo, hi = max(lo, 0), min(hi, 1)
        return lo, hi

    # ---- entailment
    def norm(self, t):
        """apply oriented equalities"""
        if not self.sub:
            return t
        for _ in range(4):
            d = P(t)
            ch = False
            r = ZERO
            for m, c in d.items():
                x = num(c)
                for a in m:
                    s = self.sub.get(a)
                    if s is None and a.op == 'div':
                        n0, n1 = self.norm(a.args[0]), self.norm(a.args[1])
                        if n0 is not a.args[0] or n1 is not a.args[1]:
                            s = div(n0, n1)
                            if s is a:
                                s = None
                    if s is not None:
                        ch = True
                        x = mul(x, s)
                    else:
                        x = mul(x, a)
                r = add(r, x)
            if not ch or r.op == 'ite':
                return r if r.op != 'ite' else t
            t = r
        return t

    def le0(self, t):
        """is t <= 0 entailed?"""
        if t.op == 'ite':
            return all(self.le0(x) for x in leaves(t))
        if self._le0(P(t), 3, ()):
            return True
        n = self.norm(t)
        if n is not t:
            return self._le0(P(n), 3, ())
        return False

    def _ub(self, d):
        hi = 0
        for m, c in d.items():
            if m == ():
                hi += c
                continue
            r = (1, 1)
            for a in m:
                r = _mulr(r, self.arange(a))
            x = max(r[0] * c if r[0] else 0, r[1] * c if r[1] else 0)
            hi += x
        return hi

    def lemmas(self, d):
        out = []
        seen = set()

        def at(a, k):
            if a in seen or k > 3:
                return
            seen.add(a)
            if a.op == 'div':
                x, y = a.args
                if self.range(x)[0] >= 0 and self.range(y)[0] >= 1 and x.op != 'ite' and y.op != 'ite':
                    q = mul(y, a)
                    out.append(sub(q, x))
                    out.append(add(sub(sub(x, q), y), ONE))
                    for z in (x, y):
                        for m in P(z):
                            for b in m:
                                at(b, k + 1)
            elif a.op == 'ite':
                pass
        for m in d:
            for a in m:
                at(a, 0)
        return out

    def _le0(self, d, depth, used):
        if self._ub(d) <= 0:
            return True
        if depth == 0:
            return False
        cands = list(self.lins) + self.lemmas(d)
        for q in cands:
            if q in used:
                continue
            e = P(q)
            # cancel some monomial of d with positive contribution
            for m, c in d.items():
                if m == ():
                    continue
                ce = e.get(m)
                if ce is None or (ce > 0) != (c > 0):
                    continue
                g = math.gcd(abs(c), abs(ce))
                r = padd({k: v * (abs(ce) // g) for k, v in d.items()}, e, -(abs(c) // g))
                if len(r) > len(d) + 3:
                    continue
                if self._le0(r, depth - 1, used + (q,)):
                    return True
            # product facts: multiply e by a nonneg atom
            if depth >= 2:
                for m, c in d.items():
                    if len(m) < 2:
                        continue
                    for i, a in enumerate(m):
                        m1 = m[:i] + m[i + 1:]
                        ce = e.get(m1)
                        if ce is None or (ce > 0) != (c > 0):
                            continue
                        if self.arange(a)[0] < 0:
                            continue
                        e2 = pmul(e, {(a,): 1})
                        g = math.gcd(abs(c), abs(ce))
                        r = padd({k: v * (abs(ce) // g) for k, v in d.items()}, e2, -(abs(c) // g))
                        if len(r) > len(d) + 3:
                            continue
                        if self._le0(r, depth - 2, used + (q,)):
                            return True
        return False

    def decide(self, a):
        """truth of atom a under the facts: True/False/None"""
        v = self.lits.get(a)
        if v is not None:
            return v
        if a.op == 'lt0':
            p = a.args[0]
            if p.op == 'ite':
                return None
            lo, hi = self.range(p)
            if hi < 0:
                return True
            if lo >= 0:
                return False
            if self.lins or self.sub or has_div(p):
                if self.le0(add(p, ONE)):
                    return True
                if self.le0(neg(p)):
                    return False
        elif a.op == 'eq0':
            p = a.args[0]
            lo, hi = self.range(p)
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            n = self.norm(p)
            if n is not p:
                if n is ZERO:
                    return True
                if n.op == 'int':
                    return False
            if self.lins or has_div(p):
                if self.le0(add(p, ONE)) or self.le0(add(neg(p), ONE)):
                    return False
                if self.le0(p) and self.le0(neg(p)):
                    return True
            l = batom(a)
            na = n if n is not p else None
            if na is not None:
                e = eq(na, ZERO)
                if e is TRUE:
                    return True
                if e is FALSE:
                    return False
        elif a.op == 'bit':
            t, i = a.args
            lo, hi = self.range(t)
            if lo == hi and lo not in (INF, -INF):
                return bool((int(lo) >> i) & 1)
            if lo >= 0 and hi < (1 << i):
                return False
        elif a.op == 'cnan':
            for l, v in self.lits.items():
                if v is True and l.op in ('cflt', 'cfle', 'cfeq') and (numof(l.args[0]) is a.args[0] or numof(l.args[1]) is a.args[0]):
                    return False
        elif a.op in ('cflt', 'cfle'):
            x, y = a.args
            if a.op == 'cflt' and self.lits.get(mk('cfle', (y, x), 'b')) is True:
                return False
            if a.op == 'cflt' and self.lits.get(mk('cflt', (y, x), 'b')) is True:
                return False
            if a.op == 'cfle' and self.lits.get(mk('cflt', (x, y), 'b')) is True:
                return True
            if a.op == 'cfle' and self.lits.get(mk('cflt', (y, x), 'b')) is True:
                return False
        return None

    def simp(self, t, memo=None):
        """simplify a diagram under the facts"""
        if t.op != 'ite':
            return t
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        a = t.args[0]
        v = self.decide(a)
        if v is True:
            r = self.simp(t.args[1], memo)
        elif v is False:
            r = self.simp(t.args[2], memo)
        else:
            r = node(a, self.simp(t.args[1], memo), self.simp(t.args[2], memo))
        memo[t] = r
        return r

    def subst(self, mp):
        f = Facts()
        f.lits = {}
        keys = mp.keys()
        memo = {}
        for a, v in self.lits.items():
            if a.free.isdisjoint(keys):
                f.lits[a] = v
            else:
                b = TM.subst(a, mp, memo)
                if b.op == 'ite':
                    for x, w in forced(b if v else bnot(b)):
                        f.add_lit(x, w)
        for a, r in self.rng.items():
            if a.free.isdisjoint(keys):
                o = f.rng.get(a, (-INF, INF))
                f.rng[a] = (max(o[0], r[0]), min(o[1], r[1]))
            else:
                b = TM.subst(a, mp, memo)
                if b.op != 'ite':
                    if r[1] < INF:
                        f._le(sub(b, num(r[1])))
                    if r[0] > -INF:
                        f._le(sub(num(r[0]), b))
        l = []
        for p in self.lins:
            if not p.free.isdisjoint(keys):
                p = TM.subst(p, mp, memo)
                if p.op == 'ite' or p.op == 'int':
                    continue
                f._le(p)
            elif p not in f.lins:
                f.lins = f.lins + (p,)
        for a, r in self.sub.items():
            x, y = TM.subst(a, mp, memo), TM.subst(r, mp, memo)
            if x is y or x.op == 'ite' or y.op == 'ite':
                continue
            if x is a:
                f.sub = dict(f.sub)
                f.sub[a] = y
            else:
                f._orient(sub(x, y))
        return f

    def drop(self, keys):
        """forget facts mentioning the placeholders in keys"""
        f = Facts()
        f.lits = {a: v for a, v in self.lits.items() if a.free.isdisjoint(keys)}
        f.rng = {a: v for a, v in self.rng.items() if a.free.isdisjoint(keys)}
        f.lins = tuple(p for p in self.lins if p.free.isdisjoint(keys))
        f.sub = {a: r for a, r in self.sub.items() if a.free.isdisjoint(keys) and r.free.isdisjoint(keys)}
        return f


def has_div(p):
    for m in P(p):
        for a in m:
            if a.op == 'div':
                return True
    return False


def occurs(a, x, d=0):
    if x is a:
        return True
    if d > 6 or not isinstance(x, T):
        return isinstance(x, T) and False
    for y in x.args:
        if isinstance(y, T):
            if occurs(a, y, d + 1):
                return True
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, T) and occurs(a, z, d + 1):
                    return True
                if isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, T) and occurs(a, w, d + 1):
                            return True
    return False


_forced = {}


def forced(c):
    """literals implied by diagram c (spine walk + per-atom test for small diagrams)"""
    r = _forced.get(c)
    if r is not None:
        return r
    out = []
    x = c
    while x.op == 'ite':
        if x.args[2] is FALSE:
            out.append((x.args[0], True))
            x = x.args[1]
        elif x.args[1] is FALSE:
            out.append((x.args[0], False))
            x = x.args[2]
        else:
            break
    if x.op == 'ite' and x.w <= 64:
        for a in support(x):
            hi, lo = assign(x, a, True), assign(x, a, False)
            if hi is FALSE:
                out.append((a, False))
            elif lo is FALSE:
                out.append((a, True))
    r = tuple(out)
    _forced[c] = r
    return r


_asg = {}


def assign(t, a, v):
    if t.op != 'ite' or top(t) > a.id:
        return t
    k = (t, a, v)
    r = _asg.get(k)
    if r is None:
        if t.args[0] is a:
            r = t.args[1] if v else t.args[2]
        else:
            r = node(t.args[0], assign(t.args[1], a, v), assign(t.args[2], a, v))
        _asg[k] = r
    return r


def meet(a, b):
    """facts holding in both"""
    if a is b:
        return a
    f = Facts()
    f.lits = {k: v for k, v in a.lits.items() if b.lits.get(k) == v}
    f.rng = {}
    for k, r in a.rng.items():
        s = b.rng.get(k)
        if s:
            lo, hi = min(r[0], s[0]), max(r[1], s[1])
            if lo > -INF or hi < INF:
                f.rng[k] = (lo, hi)
    bl = set(b.lins)
    f.lins = tuple(p for p in a.lins if p in bl)
    f.sub = {k: v for k, v in a.sub.items() if b.sub.get(k) is v}
    return f
