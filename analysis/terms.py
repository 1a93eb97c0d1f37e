"""Hash-consed value numbers (terms) used by the abstract interpreter.

Sorts: 'i' integers (mathematical, polynomial normal form), 'f' floats (uninterpreted, only
constant folding of exact cases), 'b' booleans (reduced ordered decision diagrams over atoms),
'o' opaque objects.  Gated values (joins) are decision diagrams whose inner nodes are atoms and whose
leaves are ordinary terms: op 'ite', args (atom, hi, lo).
"""
import math, struct, sys
from functools import reduce
sys.setrecursionlimit(200000)
INF = float('inf')


class T:
    __slots__ = ('op', 'args', 'id', 'sort', 'free', 'unk', 'w')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
E0 = frozenset()
RNG = {}      # static ranges of opaque integer atoms


def collect_free(a, acc, depth=0):
    if isinstance(a, T):
        if a.free:
            acc |= a.free
        return a.unk
    if isinstance(a, tuple):
        u = False
        for x in a:
            u = collect_free(x, acc) or u
        return u
    f = getattr(a, 'free', None)
    if f:
        acc |= f
    return bool(getattr(a, 'unk', False))


def mk(op, args=(), sort='o'):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _n[0] += 1
        t.id = _n[0]
        acc = set()
        u = collect_free(args, acc)
        if op in ('ph', 'hole'):
            acc = {t}
        t.free = frozenset(acc) if acc else E0
        t.unk = u or op == 'unk'
        t.w = 1
        if op == 'ite':
            t.w = args[1].w + args[2].w
        _tab[k] = t
    return t


TRUE = mk('bool', (True,), 'b')
FALSE = mk('bool', (False,), 'b')


def boolc(b):
    return TRUE if b else FALSE


def num(n):
    return mk('int', (int(n),), 'i')


ZERO = num(0)
ONE = num(1)


def flt(bits, width=64):
    return mk('flt', (bits, width), 'f')


def fval(t):
    if t.op != 'flt':
        return None
    b, w = t.args
    return struct.unpack('<d', struct.pack('<Q', b))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', b))[0]


def fconst(x, w=64):
    return flt(struct.unpack('<Q', struct.pack('<d', x))[0], 64) if w == 64 else flt(struct.unpack('<I', struct.pack('<f', x))[0], 32)


_unk = [0]


def unk(sort, why=''):
    _unk[0] += 1
    return mk('unk', (_unk[0], why), sort)


def sym(name, sort='i', lo=-INF, hi=INF):
    t = mk('sym', (name,), sort)
    if sort == 'i':
        have = RNG.get(t)
        if have is None:
            RNG[t] = (lo, hi)
        elif have != (lo, hi) and (lo, hi) != (-INF, INF):
            # another quantity of this name: never the same symbol
            return sym("%s'%x" % (name, hi), sort, lo, hi)
    return t


_h = [0]


def hole():
    _h[0] += 1
    return mk('hole', (_h[0],), 'i')


# ------------------------------------------------------------------ decision diagrams
LIFT = 96


def is_ite(t):
    return t.op == 'ite'


def node(a, hi, lo):
    if hi is lo:
        return hi
    return mk('ite', (a, hi, lo), hi.sort)


def batom(a):
    return mk('ite', (a, TRUE, FALSE), 'b')


def top(t):
    return t.args[0].id if t.op == 'ite' else 1 << 60


def cof(t, a, val):
    if t.op == 'ite' and t.args[0] is a:
        return t.args[1] if val else t.args[2]
    return t


_ite = {}


def ite(c, a, b):
    """MTBDD if-then-else; c is a boolean diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is None:
        m = min(top(c), top(a), top(b))
        for t in (c, a, b):
            if top(t) == m:
                at = t.args[0]
                break
        r = node(at, ite(cof(c, at, 1), cof(a, at, 1), cof(b, at, 1)),
                 ite(cof(c, at, 0), cof(a, at, 0), cof(b, at, 0)))
        _ite[k] = r
    return r


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bxor(a, b):
    return ite(a, bnot(b), b)


_restrict = {}


def restrict(f, c):
    """Coudert-Madre: simplify f assuming c."""
    if c is TRUE or c is FALSE or f.op != 'ite':
        return f
    k = (f, c)
    r = _restrict.get(k)
    if r is not None:
        return r
    tf, tc = top(f), top(c)
    if tc < tf:
        r = restrict(f, bor(c.args[1], c.args[2]))
    else:
        a = f.args[0]
        ch, cl = cof(c, a, 1), cof(c, a, 0)
        if ch is FALSE:
            r = restrict(f.args[2], cl)
        elif cl is FALSE:
            r = restrict(f.args[1], ch)
        else:
            r = node(a, restrict(f.args[1], ch), restrict(f.args[2], cl))
    _restrict[k] = r
    return r


def support(t, acc=None):
    """atoms of the diagram t"""
    seen = set()
    out = []

    def go(x):
        if x.op != 'ite' or x in seen:
            return
        seen.add(x)
        if x.args[0] not in out:
            out.append(x.args[0])
        go(x.args[1])
        go(x.args[2])
    go(t)
    return out


def leaves(t):
    """list of distinct leaf terms of a diagram"""
    seen = set()
    out = []

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'ite':
            go(x.args[1])
            go(x.args[2])
        else:
            out.append(x)
    go(t)
    return out


def paths(t, limit=4096):
    """[(dict atom->bool, leaf)]"""
    out = []

    def go(x, lits):
        if len(out) >= limit:
            return
        if x.op != 'ite':
            out.append((dict(lits), x))
            return
        a = x.args[0]
        go(x.args[1], lits + [(a, True)])
        go(x.args[2], lits + [(a, False)])
    go(t, [])
    return out


_lift = {}


def lift1(name, fn, a):
    if a.op != 'ite':
        return fn(a)
    k = (name, a)
    r = _lift.get(k)
    if r is None:
        at = a.args[0]
        r = ite(batom(at), lift1(name, fn, a.args[1]), lift1(name, fn, a.args[2]))
        _lift[k] = r
    return r


def lift2(name, fn, a, b):
    if a.op != 'ite' and b.op != 'ite':
        return fn(a, b)
    if a.w * b.w > LIFT:
        return fn(a, b)
    k = (name, a, b)
    r = _lift.get(k)
    if r is None:
        at = a.args[0] if top(a) <= top(b) else b.args[0]
        r = ite(batom(at), lift2(name, fn, cof(a, at, 1), cof(b, at, 1)),
                lift2(name, fn, cof(a, at, 0), cof(b, at, 0)))
        _lift[k] = r
    return r


# ------------------------------------------------------------------ integers
def P(t):
    """polynomial as dict mono->coef (mono: tuple of atoms sorted by id)"""
    if t.op == 'int':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args)
    return {(t,): 1}


def fromP(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk('poly', tuple(sorted(d.items(), key=lambda x: tuple(a.id for a in x[0]))), 'i')


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=lambda a: a.id))
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def add(a, b):
    return lift2('add', lambda x, y: fromP(padd(P(x), P(y))), a, b)


def sub(a, b):
    return lift2('sub', lambda x, y: fromP(padd(P(x), P(y), -1)), a, b)


def mul(a, b):
    return lift2('mul', lambda x, y: fromP(pmul(P(x), P(y))), a, b)


def neg(a):
    return sub(ZERO, a)


def _div(x, y):
    if y.op == 'int':
        d = y.args[0]
        if d == 0:
            return mk('div', (x, y), 'i')
        if d == 1:
            return x
        if x.op == 'int':
            n = x.args[0]
            return num(n // d if (n >= 0) == (d > 0) else -((-n) // d) if d > 0 else -(n // -d))
        p = P(x)
        if d > 0 and all(c % d == 0 for c in p.values()):
            return fromP({m: c // d for m, c in p.items()})
        if x.op == 'div' and x.args[1].op == 'int' and d > 0 and x.args[1].args[0] > 0:
            return _div(x.args[0], num(d * x.args[1].args[0]))
        return mk('div', (x, y), 'i')
    if x is ZERO:
        return ZERO
    if x is y:
        return ONE
    p = P(x)
    if y.op not in ('poly',):
        # every monomial contains y
        if p and all(y in m for m in p):
            r = {}
            for m, c in p.items():
                l = list(m)
                l.remove(y)
                r[tuple(l)] = c
            return fromP(r)
    else:
        q = P(y)
        if len(q) == 1:
            (m2, c2), = q.items()
            r = {}
            ok = True
            for m, c in p.items():
                l = list(m)
                try:
                    for z in m2:
                        l.remove(z)
                except ValueError:
                    ok = False
                    break
                if c % c2:
                    ok = False
                    break
                r[tuple(l)] = c // c2
            if ok:
                return fromP(r)
        elif len(p) == len(q):
            ks = list(q)
            if set(ks) == set(p):
                r0 = p[ks[0]] / q[ks[0]]
                if r0 == int(r0) and all(p[k] == q[k] * r0 for k in ks):
                    return num(int(r0))
    return mk('div', (x, y), 'i')


def div(a, b):
    return lift2('div', _div, a, b)


def rem(a, b):
    return lift2('rem', lambda x, y: num(x.args[0] % y.args[0]) if x.op == 'int' and y.op == 'int' and y.args[0] > 0 and x.args[0] >= 0
                 else sub(x, mul(y, _div(x, y))), a, b)


def lead(p):
    ks = [m for m in p if m]
    if not ks:
        return None
    return min(ks, key=lambda m: (-len(m), tuple(-a.id for a in m)))


def _lt0(p):
    """boolean for p<0, p dict"""
    l = lead(p)
    if l is None:
        return boolc(p.get((), 0) < 0)
    g = 0
    for m, c in p.items():
        if m:
            g = math.gcd(g, c)
    c0 = p.get((), 0)
    if g > 1:
        # g*q + c0 < 0  <=>  q < -c0/g <=> q <= ceil(-c0/g)-1
        k = -(c0 // g)          # ceil(-c0/g)
        q = {m: c // g for m, c in p.items() if m}
        if k:
            q[()] = -k
        p = q
        c0 = p.get((), 0)
    if p[l] < 0:
        n = {m: -c for m, c in p.items()}
        # p<0 <=> -p>0 <=> not(-p<=0) <=> not(-p-1<0)
        n[()] = n.get((), 0) - 1
        if not n[()]:
            n.pop(())
        return bnot(batom(mk('lt0', (fromP(n),), 'b')))
    return batom(mk('lt0', (fromP(p),), 'b'))


BITOPS = ('and', 'or', 'xor', 'trunc', 'shr', 'bnot')


def bit(t, i):
    """boolean: bit i of integer t"""
    if t.op == 'int':
        return boolc((t.args[0] >> i) & 1)
    if t.op == 'ite':
        return lift1(('bit', i), lambda x: bit(x, i), t)
    if t.op == 'and':
        return band(bit(t.args[0], i), bit(t.args[1], i))
    if t.op == 'or':
        return bor(bit(t.args[0], i), bit(t.args[1], i))
    if t.op == 'xor':
        return bxor(bit(t.args[0], i), bit(t.args[1], i))
    if t.op == 'bnot':
        return bnot(bit(t.args[0], i)) if i < t.args[1] else FALSE
    if t.op == 'trunc':
        return bit(t.args[0], i) if i < t.args[1] else FALSE
    if t.op == 'b2i':
        return t.args[0] if i == 0 else FALSE
    lo, hi = RNG.get(t, (-INF, INF))
    if lo >= 0 and hi < (1 << i):
        return FALSE
    return batom(mk('bit', (t, i), 'b'))


def width_of(t):
    if t.op == 'int':
        return max(1, t.args[0].bit_length()) if t.args[0] >= 0 else 64
    if t.op in ('and',):
        return min(width_of(t.args[0]), width_of(t.args[1]))
    if t.op in ('or', 'xor'):
        return max(width_of(t.args[0]), width_of(t.args[1]))
    if t.op in ('trunc', 'bnot'):
        return t.args[1]
    if t.op == 'ite':
        return max(width_of(t.args[1]), width_of(t.args[2]))
    lo, hi = RNG.get(t, (-INF, INF))
    if lo >= 0 and hi < INF:
        return int(hi).bit_length()
    return 64


def _eq(x, y):
    if x is y:
        return TRUE
    if x.op in BITOPS or y.op in BITOPS:
        w = max(width_of(x), width_of(y))
        if w <= 16:
            r = TRUE
            for i in range(w):
                r = band(r, bnot(bxor(bit(x, i), bit(y, i))))
                if r is FALSE:
                    break
            return r
        if x.op == 'b2i' or y.op == 'b2i':
            pass
    p = padd(P(x), P(y), -1)
    l = lead(p)
    if l is None:
        return boolc(p.get((), 0) == 0)
    g = 0
    for m, c in p.items():
        if m:
            g = math.gcd(g, c)
    c0 = p.get((), 0)
    if c0 % g:
        return FALSE
    if p[l] < 0:
        g = -g
    if g != 1:
        p = {m: c // g for m, c in p.items()}
    # range check for single atoms
    if len(p) <= 2 and len(l) == 1 and p[l] == 1:
        lo, hi = RNG.get(l[0], (-INF, INF))
        v = -p.get((), 0)
        if len(p) == (2 if () in p else 1) and (v < lo or v > hi):
            return FALSE
    return batom(mk('eq0', (fromP(p),), 'b'))


def lt(a, b):
    return lift2('lt', lambda x, y: _lt0(padd(P(x), P(y), -1)), a, b)


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    if a.sort == 'b':
        return bnot(bxor(a, b))
    if a.sort == 'f':
        return lift2('feq', lambda x, y: fcmp('feq', x, y), a, b)
    if a.sort == 'o' or b.sort == 'o':
        if a is b:
            return TRUE
        return batom(mk('oeq', tuple(sorted((a, b), key=lambda z: z.id)), 'b'))
    return lift2('eq', _eq, a, b)


def b2i(c):
    return ite(c, ONE, ZERO)


def tmax(a, b):
    return ite(lt(a, b), b, a)


def tmin(a, b):
    return ite(lt(b, a), b, a)


def _bitop(op):
    def f(x, y):
        if x.op == 'int' and y.op == 'int':
            a, b = x.args[0], y.args[0]
            return num(a & b if op == 'and' else a | b if op == 'or' else a ^ b)
        if x.op == 'int':
            x, y = y, x
        if y.op == 'int':
            c = y.args[0]
            if c == 0:
                return ZERO if op == 'and' else x
            if op == 'and':
                lo, hi = RNG.get(x, (-INF, INF))
                if lo >= 0 and hi < INF and (int(hi) | ((1 << int(hi).bit_length()) - 1)) & ~c == 0:
                    return x
                if x.op == 'and' and x.args[1].op == 'int':
                    return f(x.args[0], num(x.args[1].args[0] & c))
            if op == 'or' and x.op == 'or' and x.args[1].op == 'int':
                return f(x.args[0], num(x.args[1].args[0] | c))
        else:
            if x is y:
                return ZERO if op == 'xor' else x
            if x.id > y.id:
                x, y = y, x
        return mk(op, (x, y), 'i')
    return f


def bitop(op, a, b):
    return lift2(op, _bitop(op), a, b)


# ------------------------------------------------------------------ floats
def fop(op, *a):
    if len(a) == 1:
        return lift1('f' + op, lambda x: _fop(op, x), a[0])
    if len(a) == 2:
        return lift2('f' + op, lambda x, y: _fop(op, x, y), a[0], a[1])
    return mk('f' + op, tuple(a), 'f')


_NN0 = {}


def notneg0(x):
    """never the number -0.0"""
    st = [x]
    while st:
        y = st[-1]
        if y in _NN0:
            st.pop()
            continue
        v = fval(y)
        r = None
        if v is not None:
            r = v != 0 or math.copysign(1, v) > 0
        elif y.op in ('fabs', 'i2f'):
            r = True
        elif y.op == 'f2f':
            r = _NN0.get(y.args[0])
            if r is None:
                st.append(y.args[0])
                continue
        elif y.op == 'fadd':
            # the sum of two numbers is -0.0 only if both are
            for z in y.args:
                q = _NN0.get(z)
                if q is None:
                    st.append(z)
                    break
                if q:
                    r = True
                    break
            else:
                r = False
            if r is None:
                continue
        else:
            r = False
        _NN0[y] = r
        st.pop()
    return _NN0[x]


def _fop(op, *a):
    vs = [fval(x) for x in a]
    if op == 'add' and len(a) == 2:
        for i in (0, 1):
            if vs[i] == 0.0 and math.copysign(1, vs[i]) > 0 and notneg0(a[1 - i]):
                return a[1 - i]       # adding zero is exact
    w = next((x.args[1] for x in a if x.op == 'flt'), 64)
    if all(v is not None for v in vs) and all(x.args[1] == w for x in a):
        try:
            r = None
            if op == 'add':
                r = vs[0] + vs[1]
            elif op == 'sub':
                r = vs[0] - vs[1]
            elif op == 'mul':
                r = vs[0] * vs[1]
            elif op == 'div' and vs[1] != 0:
                r = vs[0] / vs[1]
            elif op == 'neg':
                r = -vs[0]
            elif op == 'abs':
                r = abs(vs[0])
            if r is not None:
                return fconst(r, w)
        except (OverflowError, ValueError):
            pass
    if op in ('add', 'mul'):
        a = tuple(sorted(a, key=lambda z: z.id))
    if op == 'div' and vs[1] == 1.0 and a[1].args[1] == 64:
        return a[0]           # exact for every value, NaN included
    if op == 'abs' and a[0].op == 'fabs':
        return a[0]
    if op == 'abs' and a[0].op == 'fdiv' and (fval(a[0].args[1]) or 0) > 0:
        return mk('fdiv', (fop('abs', a[0].args[0]), a[0].args[1]), 'f')
    return mk('f' + op, tuple(a), 'f')


def fcmp(op, x, y):
    """'flt' '<', 'fle' '<=', 'feq' '=='"""
    a, b = fval(x), fval(y)
    if a is not None and b is not None:
        return boolc(a < b if op == 'flt' else a <= b if op == 'fle' else a == b)
    p, q = intscaled(x), intscaled(y)
    if p and q and p[1] == q[1]:
        return fcmp(op, p[0], q[0])
    if p and b == 0:
        return fcmp(op, p[0], y)
    if q and a == 0:
        return fcmp(op, x, q[0])
    if op == 'feq' and x.id > y.id:
        x, y = y, x
    if op == 'flt' and (x is y or b is not None and b <= 0 and nonneg(x)):
        return FALSE          # also when the value is NaN
    return batom(mk('c' + op, (x, y), 'b'))


def intscaled(x):
    """(integer-valued float, k) for i/k with k a power of two: division is exact"""
    if x.op == 'fdiv':
        k = fval(x.args[1])
        y = x.args[0]
        z = y.args[0] if y.op == 'fabs' else y
        if k and k >= 1 and k <= 2.0 ** 60 and math.frexp(k)[0] == .5 and z.op == 'i2f':
            return y, k
    return None


def nonneg(x):
    """never a number below zero"""
    while True:
        if x.op == 'fabs':
            return True
        if x.op == 'f2f':
            x = x.args[0]
        elif x.op == 'fdiv' and (fval(x.args[1]) or 0) > 0:
            x = x.args[0]
        elif x.op == 'fmul' and x.args[0] is x.args[1]:
            return True
        else:
            return False


def fcomp(op, a, b):
    return lift2('c' + op, lambda x, y: fcmp(op, x, y), a, b)


def numof(x):
    """the term that is not a number exactly when x is not"""
    while fval(x) is None and (x.op in ('fabs', 'fneg', 'f2f') or x.op == 'fdiv' and 0 < (fval(x.args[1]) or 0) < math.inf):
        x = x.args[0]
    return x


def isnan(a):
    def f(x):
        x = numof(x)
        v = fval(x)
        if v is not None:
            return boolc(v != v)
        if x.op == 'i2f':
            return FALSE
        return batom(mk('cnan', (x,), 'b'))
    return lift1('cnan', f, a)


def fmaxmin(n, a, b):
    """f64::max, f64::min: the other operand when one is not a number"""
    return ite(bor(fcomp('flt', a, b) if n == 'max' else fcomp('flt', b, a), isnan(a)), b, a)


# ------------------------------------------------------------------ substitution
def rebuild(op, args, sort, old=None):
    if op == 'poly':
        r = ZERO
        for m, c in args:
            x = num(c)
            for a in m:
                x = mul(x, a)
            r = add(r, x)
        return r
    if op == 'ite':
        return ite(args[0], args[1], args[2])
    if op == 'lt0':
        return lt(args[0], ZERO)
    if op == 'eq0':
        return eq(args[0], ZERO)
    if op == 'bit':
        return bit(args[0], args[1])
    if op == 'div':
        return div(args[0], args[1])
    if op in ('and', 'or', 'xor'):
        return bitop(op, args[0], args[1])
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs'):
        return fop(op[1:], *args)
    if op in ('cflt', 'cfle', 'cfeq'):
        return fcomp(op[1:], *args)
    if op == 'cnan':
        return isnan(args[0])
    if op == 'trunc':
        return trunc(args[0], args[1], args[2])
    if op == 'i2f':
        return i2f(args[0], args[1])
    if op == 'f2f':
        return f2f(args[0], args[1])
    if op == 'sel':
        return sel(args[0], args[1], sort)
    if op in ('oeq',):
        return eq(args[0], args[1])
    r = mk(op, args, sort)
    if old is not None and sort == 'i' and old in RNG and r not in RNG:
        RNG[r] = RNG[old]
    if sort == 'b' and op not in ('bool', 'ite'):
        return batom(r)
    return r


ATOMIC_BOOL = ('lt0', 'eq0', 'bit', 'cflt', 'cfle', 'cfeq', 'cnan', 'oeq')
SUBST_HOOK = []      # functions for non-term args (loop objects, values)


def subst(t, mp, memo=None):
    """replace placeholders; mp: dict T->T"""
    if memo is None:
        memo = {}
    keys = mp.keys()

    def go(x):
        if isinstance(x, T):
            if not x.free or x.free.isdisjoint(keys):
                return x
            r = memo.get(x)
            if r is None:
                if x in mp:
                    r = mp[x]
                elif x.op == 'ite':
                    a = x.args[0]
                    r = ite(go_atom(a), go(x.args[1]), go(x.args[2]))
                elif x.op == 'poly':
                    r = ZERO
                    for m, c in x.args:
                        y = num(c)
                        for a in m:
                            y = mul(y, go(a))
                        r = add(r, y)
                else:
                    r = rebuild(x.op, tuple(go(a) for a in x.args), x.sort, x)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if getattr(x, 'free', None) and not x.free.isdisjoint(keys):
            return x.subst(mp, go, memo)
        return x

    def go_atom(a):
        if not a.free or a.free.isdisjoint(keys):
            return batom(a)
        if a in mp:
            return mp[a]
        return rebuild(a.op, tuple(go(z) for z in a.args), a.sort, a)
    if isinstance(t, T) and t.sort == 'b' and t.op not in ('ite', 'bool'):
        return go_atom(t)
    return go(t)


def gsubst(t, mp, memo=None):
    """replace any atoms (not only placeholders) by equal terms; parts inside opaque values stay"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if hasattr(x, 'nexts'):
            return x.subst(mp, go, memo)
        if not isinstance(x, T) or x.op in ('int', 'flt', 'bool'):
            return x
        r = memo.get(x)
        if r is None:
            if x in mp:
                r = mp[x]
            elif x.op == 'ite':
                r = ite(go_atom(x.args[0]), go(x.args[1]), go(x.args[2]))
            elif x.op == 'poly':
                r = ZERO
                for m, c in x.args:
                    y = num(c)
                    for a in m:
                        y = mul(y, go(a))
                    r = add(r, y)
            elif x.op == 'sym' or not x.args:
                r = x
            else:
                ar = tuple(go(a) for a in x.args)
                r = x if all(a is b for a, b in zip(ar, x.args)) else rebuild(x.op, ar, x.sort, x)
            memo[x] = r
        return r

    def go_atom(a):
        ar = tuple(go(z) for z in a.args)
        if a in mp:
            return mp[a]
        if all(p is q for p, q in zip(ar, a.args)):
            return batom(a)
        return rebuild(a.op, ar, a.sort, a)
    if isinstance(t, T) and t.sort == 'b' and t.op not in ('ite', 'bool'):
        return go_atom(t)
    return go(t)


def trunc(t, bits, signed):
    def f(x):
        if x.op == 'int':
            n = x.args[0] & ((1 << bits) - 1)
            if signed and n >> (bits - 1):
                n -= 1 << bits
            return num(n)
        if x.op == 'trunc' and x.args[1] >= bits:
            return f(x.args[0])
        lo, hi = RNG.get(x, (-INF, INF))
        l2, h2 = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if lo >= l2 and hi <= h2:
            return x
        if x.op == 'and' and x.args[1].op == 'int' and 0 <= x.args[1].args[0] <= h2:
            return x
        r = mk('trunc', (x, bits, signed), 'i')
        RNG[r] = (l2, h2)
        return r
    return lift1(('trunc', bits, signed), f, t)


def i2f(t, w):
    def f(x):
        if x.op == 'int' and abs(x.args[0]) < 1 << (53 if w == 64 else 24):
            return fconst(float(x.args[0]), w)
        return mk('i2f', (x, w), 'f')
    return lift1(('i2f', w), f, t)


def f2f(t, w):
    """conversion between float widths"""
    def f(x):
        if x.op == 'flt':
            try:
                return fconst(fval(x), w)
            except OverflowError:
                return fconst(math.copysign(math.inf, fval(x)), w)
        if x.op == 'f2f' and x.args[1] == 64 and w == 32:
            return x.args[0]          # widening is exact
        if x.op == 'fabs':
            return fop('abs', f2f(x.args[0], w))
        if x.op == 'i2f' and w == 32 and x.args[1] == 64:
            lo, hi = RNG.get(x.args[0], (-INF, INF))
            if lo > -(1 << 53) and hi < 1 << 53:
                return i2f(x.args[0], 32)
        if w == 32 and x.op == 'fdiv' and x.args[0].op == 'i2f':
            k = fval(x.args[1])
            if k and 1 <= k <= 2.0 ** 60 and math.frexp(k)[0] == .5:
                return fop('div', f2f(x.args[0], 32), fconst(k))
        return mk('f2f', (x, w), 'f')
    return lift1(('f2f', w), f, t)


TABLES = {}   # id -> list of terms (constant arrays)


def sel(base, idx, sort='o'):
    if base.op == 'tab' and idx.op == 'int':
        tb = TABLES[base.args[0]]
        if 0 <= idx.args[0] < len(tb):
            return tb[idx.args[0]]
    return mk('sel', (base, idx), sort)


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return repr(t) if not hasattr(t, 'free') else str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.args
    if o == 'bool':
        return 'T' if a[0] else 'F'
    if o == 'int':
        return str(a[0])
    if o == 'flt':
        return repr(fval(t)) + ('' if a[1] == 64 else 'f32')
    if o == 'sym':
        return str(a[0])
    if o == 'unk':
        return '?%s' % (a[1] or a[0])
    if o == 'poly':
        r = []
        for m, c in a:
            s = '*'.join(show(x, d + 1) for x in m)
            r.append((('%d*' % c if c not in (1, -1) else '-' if c == -1 else '') + s) if m else str(c))
        return '(' + '+'.join(r).replace('+-', '-') + ')'
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d + 1)
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + show(a[0], d + 1)
        if a[1] is FALSE:
            return '!%s&%s' % (show(a[0], d + 1), show(a[2], d + 1))
        if a[2] is FALSE:
            return '%s&%s' % (show(a[0], d + 1), show(a[1], d + 1))
        return '[%s ? %s : %s]' % (show(a[0], d + 1), show(a[1], d + 1), show(a[2], d + 1))
    if o == 'lt0':
        return '{%s<0}' % show(a[0], d + 1)
    if o == 'eq0':
        return '{%s==0}' % show(a[0], d + 1)
    if o == 'bit':
        return '%s.%d' % (show(a[0], d + 1), a[1])
    if o == 'cflt':
        return '{%s <. %s}' % (show(a[0], d + 1), show(a[1], d + 1))
    if o == 'cfle':
        return '{%s <=. %s}' % (show(a[0], d + 1), show(a[1], d + 1))
    if o == 'proj':
        return '%s.%s' % (show(a[0], d + 1), show(a[1]) if isinstance(a[1], T) else '.'.join(map(str, a[1:])))
    if o == 'sel':
        return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if o == 'deref':
        return '*%s' % show(a[0], d + 1)
    if o == 'mu':
        return 'mu%d.%d' % (a[0].id, a[1])
    return '%s(%s)' % (o, ','.join(show(x, d + 1) for x in a))
