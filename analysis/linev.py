"""Case analysis of histogram summaries.

The bin counts stay symbolic: integers and sums are linear forms over them (Lin), means are quotients of linear forms
(Quot), and everything above is a formula (Fx).  The only other input of such a summary is where the threshold (a
quotient) or the energy lies among the constants it is compared with: Quot and Rank values are compared by the place
chosen for the case at hand.  A summary folded for every place is decided for every histogram, up to the order in which
sums are rounded."""
import math
from numev import NumEv, Unk
from terms import *
import terms as TM
from values import *


class Lin:
    """sum c[i]*H[i] + k; a sum of two forms is kept as such until its coefficients are needed"""
    __slots__ = ('cc', 'k', 'parts', 'pos')

    def __init__(self, c, k=0, parts=None, pos=None):
        self.cc, self.k, self.parts = c, k, parts
        self.pos = all(x > 0 for x in c.values()) if pos is None else pos

    @property
    def c(self):
        if self.cc is None:
            r, st = {}, [self]
            while st:
                l = st.pop()
                if l.cc is None:
                    st.extend(l.parts)
                else:
                    for i, x in l.cc.items():
                        y = r.get(i, 0) + x
                        if y:
                            r[i] = y
                        else:
                            del r[i]
            self.cc, self.parts = r, None
        return self.cc

    def __add__(self, o):
        if isinstance(o, Lin):
            r = Lin(None, self.k + o.k, (self, o), self.pos and o.pos)
            return r if r.pos else simp(r)
        if isinstance(o, Pc):
            return o + self
        if isinstance(o, (int, float)):
            return self if o == 0 else simp(Lin(self.c, self.k + o))
        raise Unk('lin')

    __radd__ = __add__

    def __neg__(self):
        return Lin({i: -x for i, x in self.c.items()}, -self.k)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            if o == 0:
                return 0 * o
            return Lin({i: x * o for i, x in self.c.items()}, self.k * o)
        raise Unk('lin')

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)):
            return self * (1.0 / o)
        if isinstance(o, Lin):
            return Quot(self, o)
        raise Unk('lin')

    def same(self, o, tol=1e-12):
        if not isinstance(o, Lin) or self.c.keys() != o.c.keys():
            return False
        return abs(self.k - o.k) <= tol * (abs(self.k) + 1) and all(abs(x - o.c[i]) <= tol * abs(x) for i, x in self.c.items())

    def __repr__(self):
        ks = sorted(self.c, key=str)
        return 'H[%s%s..%s] (%d bins)%+g' % ('' if all(x == 1 for x in self.c.values()) else '*', ks[0] if ks else '', ks[-1] if ks else '', len(ks), self.k)


def simp(l):
    return l if l.c else l.k


class Quot:
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __mul__(self, o):
        if isinstance(o, (int, float)) and o:
            return Quot(self.n * o, self.d)
        raise Unk('quot')

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o:
            return Quot(self.n * (1.0 / o), self.d)
        raise Unk('quot')

    def same(self, o, tol=1e-12):
        if not isinstance(o, Quot) or not isinstance(self.n, Lin) or not isinstance(self.d, Lin):
            return False
        # up to a common factor of numerator and denominator
        i = next(iter(self.d.c))
        if i not in o.d.c:
            return False
        f = self.d.c[i] / o.d.c[i]
        return self.d.same(o.d * f, tol) and isinstance(o.n, Lin) and self.n.same(o.n * f, tol)

    def __repr__(self):
        return '(%r)/(%r)' % (self.n, self.d)


class Fx:
    """f(args) over the reals"""
    __slots__ = ('op', 'a')

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __add__(self, o):
        return Fx('add', self, o)

    def __radd__(self, o):
        return Fx('add', self, o)

    def __sub__(self, o):
        return Fx('add', self, -o)

    def __rsub__(self, o):
        return Fx('add', -self, o)

    def __neg__(self):
        return Fx('mul', self, -1.0)

    def __mul__(self, o):
        return Fx('mul', self, o)

    __rmul__ = __mul__

    def same(self, o, tol=1e-12):
        return isinstance(o, Fx) and self.op == o.op and len(self.a) == len(o.a) and all(samev(x, y, tol) for x, y in zip(self.a, o.a))

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))


def samev(x, y, tol=1e-12):
    for z, w in ((x, y), (y, x)):
        if isinstance(z, (Lin, Quot, Fx)):
            return z.same(w, tol)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x == y or abs(x - y) <= tol * max(abs(x), abs(y), 1e-300)
    return x is y


def lufsx(x):
    return Fx('add', Fx('mul', Fx('log10', x), 10.0), -0.691)


class Pc:
    """co * (a percentile rank: that of `of` blocks) + lin + k"""
    __slots__ = ('co', 'q', 'lin', 'k')

    def __init__(self, co, q, lin=None, k=0):
        self.co, self.q, self.lin, self.k = co, q, lin or Lin({}), k

    def __add__(self, o):
        if isinstance(o, Lin):
            l = self.lin + o
            l = l if isinstance(l, Lin) else Lin({}, l)
            return Pc(self.co, self.q, Lin(l.c), self.k + l.k)
        if isinstance(o, int):
            return Pc(self.co, self.q, self.lin, self.k + o)
        raise Unk('percentile')

    __radd__ = __add__

    def __neg__(self):
        l = -self.lin
        return Pc(-self.co, self.q, l, -self.k)

    def __mul__(self, o):
        if o == 1:
            return self
        if o == -1:
            return -self
        raise Unk('percentile')

    __rmul__ = __mul__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return -self + o


class Case:
    """where the percentile ranks of the case lie among the running totals of the bins.
    first: first bin not gated; J: {share: bin that holds the rank}; found: offset of an equal total, or None"""

    def __init__(self, first, J, found=None):
        self.first, self.J, self.found = first, J, found

    def rank(self, x):
        """the share of a percentile rank of the gated bins"""
        ks = set(x.c.values())
        if len(ks) != 1 or sorted(x.c) != list(range(self.first, NB)):
            raise Unk('percentile of other bins')
        q = ks.pop()
        if abs(x.k - (.5 - q)) > 1e-12:
            raise Unk('percentile rounding')
        for s in self.J:
            if abs(s - q) < 1e-12:
                return s
        raise Unk('percentile share')

    def prefix(self, l):
        """i for the total of the bins up to i, from a form that has the gated-away bins taken off"""
        n = len(l)
        if sorted(l) != list(range(self.first, self.first + n)):
            raise Unk('total')
        return self.first + n - 1

    def neg(self, x):
        """x < 0?"""
        if x.co == 1:
            # rank + k < total of the bins first..i
            l = -x.lin
        else:
            l = x.lin
        c = dict(l.c)
        i = None
        if any(y != 1 for y in c.values()):
            # before - total(i): the bins up to i < first remain with the other sign
            if all(y == -1 for y in c.values()):
                t = sorted(c)
                if t != list(range(t[0], self.first)):
                    raise Unk('total')
                i = t[0] - 1
            else:
                raise Unk('total')
        else:
            i = self.prefix(c) if c else self.first - 1
        J = self.J[x.q]
        if x.co == 1 and x.k == 0:
            return i >= J           # rank < total(i)
        if x.co == -1 and x.k == -1:
            return i < J            # total(i) <= rank  <=> total - rank - 1 < 0
        if x.co == 1 and x.k == 1:
            # rank + 1 < total(i)
            if i < J:
                return False
            if i > J + (self.found or 0):
                return True
            return self.found is None
        if x.co == -1 and x.k == 0:
            # total(i) < rank: an equal one is the last one below the bin
            if i >= J:
                return False
            raise Unk('equal totals')
        raise Unk('rank')


NB = 1000


class LinEv(NumEv):
    """bins: {base term: offset of its bins in the linear forms}; place: value of the threshold for comparisons;
    thr: the threshold expected (or None: any quotient is compared by place); zero: Lin -> bool for equality with 0"""

    def __init__(self, leaf, bins, thr=None, place=None, zero=None, fx=None, case=None):
        NumEv.__init__(self, leaf, budget=1 << 40)
        self.bins, self.thr, self.place, self.zero, self.fx = bins, thr, place, zero or (lambda l: False), fx or {}
        self.case = case
        self.seen = self.totals = None

    def at(self, place, case=None):
        """this evaluator, for a place; what does not depend on it is kept"""
        r = LinEv(self.leaf, self.bins, self.thr, place, self.zero, self.fx, case)
        r.memo, r.val = dict(self.memo), dict(self.val)
        r.muv = {L: v for L, v in self.muv.items() if v is not Unk and not any(x is None for x in v)}
        r.trace = {L: v for L, v in self.trace.items() if L in r.muv}
        return r

    def prepare(self, t):
        try:
            self.get(t)
        except Unk:
            pass
        return self

    def num(self, x):
        """number for comparisons"""
        if isinstance(x, Quot):
            if self.place is None:
                raise Unk('place')
            if self.seen is not x and self.thr is not None and not x.same(self.thr):
                raise Unk('another quotient is compared: %r' % x)
            self.seen = x
            return self.place
        if isinstance(x, (Lin, Fx, Pc)):
            raise Unk('compared')
        return x

    def one(self, t):
        o, a = t.op, t.args
        if t in self.fx:
            return self.fx[t]
        if o in ('cflt', 'cfle', 'cfeq'):
            x, y = self.num(self.get(a[0])), self.num(self.get(a[1]))
            return x < y if o == 'cflt' else x <= y if o == 'cfle' else x == y
        if o == 'cnan':
            x = self.get(a[0])
            return x != x if isinstance(x, (int, float)) else False
        if o == 'eq0':
            x = self.get(a[0])
            if isinstance(x, Pc):
                raise Unk('equal')
            return self.zero(x) if isinstance(x, Lin) else x == 0
        if o == 'f2i':
            x = self.get(a[0])
            if isinstance(x, Lin) and self.case:
                return Pc(1, self.case.rank(x))
            if not isinstance(x, (int, float)):
                raise Unk('f2i')
            return NumEv.one(self, t)
        if o == 'lt0':
            x = self.get(a[0])
            if isinstance(x, Pc):
                return self.case.neg(x)
            if isinstance(x, Lin):
                if not x.c or min(x.c.values()) < 0:
                    raise Unk('sign')
                if x.k >= 0:
                    return False
                # at least one block is counted unless the form is zero
                if x.k == -1:
                    return self.zero(Lin(x.c))
                raise Unk('sign')
            return x < 0
        if o == 'fdiv':
            x, y = self.get(a[0]), self.get(a[1])
            if isinstance(x, (Lin, Quot)) or isinstance(y, Lin):
                if isinstance(y, (int, float)) and y == 0:
                    raise Unk('division')
                return x / y if not isinstance(x, (int, float)) else Quot(x, y)
        if o == 'i2f':
            x = self.get(a[0])
            if isinstance(x, Lin):
                return x
        if o == 'fcall':
            vs = [self.get(z) for z in a[1:]]
            if any(isinstance(v, (Lin, Quot, Fx)) for v in vs):
                return Fx(a[0], *vs)
        if o == 'sel' and a[0] in self.bins:
            return Lin({self.bins[a[0]] + self.get(a[1]): 1})
        if o == 'fneg':
            return -self.get(a[0])
        return NumEv.one(self, t)

    def leafv(self, t):
        if t.op == 'sel' and t.args[0] in self.bins:
            return Lin({self.bins[t.args[0]] + t.args[1].args[0]: 1})
        return NumEv.leafv(self, t)

    def search(self, t):
        r = self.arv.get(t)
        if r is None and t.args[0] == 'binary_search':
            x = self.outer(lambda: self.get(t.args[3]))
            if isinstance(x, Pc):
                base = t.args[1]
                sl = base.a[1] if base.k == 'It' and base.a[0] == 'sl' else base
                if sl.k != 'Sl' or len(base.a) > 2 and base.k == 'It' or x.co != 1 or x.k != 1:
                    raise Unk('search')
                off, n = (self.outer(lambda z=z: self.get(z)) for z in (sl.a[2], sl.a[3]))
                if off != self.case.first or off + n != NB:
                    raise Unk('search')
                self.running(t.args[2])
                j = self.case.J[x.q] - off
                f = self.case.found
                r = self.arv[t] = (1, j) if f is None else (0, min(j + f, n - 1))
                return r
        return NumEv.search(self, t)

    def running(self, ar):
        """the array holds the running totals of the bins"""
        if self.totals is ar:
            return
        for i in (0, 1, 2, 500, 997, 998, 999):
            x = self.elem(ar, i, 'i')
            if not isinstance(x, Lin) or x.k or sorted(x.c) != list(range(i + 1)) or set(x.c.values()) != {1}:
                raise Unk('not running totals')
        self.totals = ar
