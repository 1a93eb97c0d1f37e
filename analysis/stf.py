"""Specialised transfer functions: the summary of a public call with the configuration (channels,
rate, mode, channel types, number of frames) fixed and every sample a symbol.  With the trip counts
known, the loops of the summary are opened, so the result is one exact dataflow expression per state
leaf and per query."""
from ctx import *
from ctx import differ
from compare import *
from rules_exit import *
from numev import *

FMT = {'i16': 'i', 'i32': 'i', 'f32': 'f', 'f64': 'f'}
BITS = {'i16': 16, 'i32': 32}
UNROLL = 4000


def xsym(fmt, t, ch):
    """sample of channel ch in frame t"""
    n = 'x%s_%d_%d' % (fmt if fmt != 'f64' else '', t, ch)
    if fmt in BITS:
        b = BITS[fmt]
        return sym(n, 'i', -(1 << (b - 1)), (1 << (b - 1)) - 1)
    return mk('sym', (n,), 'f')


def frames(fmt, a, b, C):
    return [[xsym(fmt, t, c) for c in range(C)] for t in range(a, b)]


class An:
    """an analyzer and its state"""

    def __init__(self, c, ref, st, C):
        self.c, self.ref, self.st, self.C = c, ref, st, C
        self.events = []
        self.pc0 = st.pc

    def copy(self):
        a = An(self.c, self.ref, self.st.copy(), self.C)
        a.events = list(self.events)
        return a

    def call(self, name, args, unroll=UNROLL, pathq=None):
        """apply a public method; returns the summary"""
        f = self.c.method(name)
        r = self.c.run(f, [self.ref] + args, self.st, unroll=unroll, pathq=pathq)
        if r.st is None:
            raise Undecided('%s has no exit here' % name)
        ty = self.c.E.ty(f['locals'][1])
        if ty['k'] == 'ref' and ty['m']:
            self.st = r.st
            self.events = r.events
        return r

    def must(self, name, args):
        """apply a public method and go on under the condition that it succeeded"""
        r = self.call(name, args)
        tag, okv, _ = self.c.result(r.v)
        k = self.st.facts.simp(eq(tag, ZERO))
        if k is FALSE:
            raise Undecided('%s fails here' % name)
        if k is not TRUE:
            st = self.st.copy()
            st.facts = st.facts.copy()
            st.facts.add_bool(k)
            for reg in list(st.mem):
                st.mem[reg] = self.c.clean(st.mem[reg], st, k)
            st.pc = TRUE
            self.st = st
        return r

    def feed(self, fs, fmt='f64', planar=False, seed=False, pathq=None):
        c, E = self.c, self.c.E
        name = '%s_frames_%s%s' % ('seed' if seed else 'add', 'planar_' if planar else '', fmt)
        f = c.method(name)
        st = self.st.copy()
        n = len(fs)
        key = (name, tuple(tuple(x) for x in fs))
        if planar:
            it = E.ty(E.ty(f['locals'][2])['t'])['t']       # &[T]
            et = E.ty(E.ty(it)['t'])['t']
            vals = []
            for k in range(self.C):
                reg = region(('in', key, k), None, None, 'plane%d' % k)
                st.mem[reg] = E.mkarr(et, [x[k] for x in fs])
                vals.append(Sl(reg, (), ZERO, num(n)))
            reg = region(('in', key), None, None, 'planes')
            st.mem[reg] = E.mkarr(it, vals)
            a = Sl(reg, (), ZERO, num(self.C))
        else:
            et = E.ty(E.ty(f['locals'][2])['t'])['t']
            reg = region(('in', key), None, None, 'frames')
            st.mem[reg] = E.mkarr(et, [v for x in fs for v in x])
            a = Sl(reg, (), ZERO, num(n * self.C))
        old = self.st
        self.st = st
        return self.call(name, [a], pathq=pathq)

    def types(self, ts):
        """set channel types by discriminant tag"""
        f = self.c.method('set_channel')
        t = f['locals'][3]
        for i, k in enumerate(ts):
            if k is None:
                continue
            self.call('set_channel', [num(i), En(t, num(k), [() for _ in self.c.E.ty(t)['v']])])
        return self

    def q(self, name, args=()):
        """(ok condition, value) of a query"""
        r = self.c.run(self.c.method(name), [self.ref] + list(args), self.st, unroll=getattr(self, "unroll", UNROLL))
        if r.st is None:
            raise Undecided('%s has no exit here' % name)
        if isinstance(r.v, T):
            return TRUE, r.v
        tag, ok, et = self.c.result(r.v)
        return eq(tag, ZERO), ok

    def val(self):
        return self.c.exp(self.c.E.readloc(self.c.E.deref(self.ref, self.st), self.st))


def analyzer(c, C, rate, mode, types=None, fresh=True, name='s'):
    ref, st, info = c.selfval(ch=C, rate=rate, mode=mode, fresh=fresh, name=name)
    a = An(c, ref, st, C)
    if types is not None:
        a.types(types)
    a.info = info
    return a


def energy(t):
    """(the argument of the loudness conversion, condition under which it is used) inside a loudness term"""
    out = []

    def go(x, k):
        if x.op == 'ite':
            at = batom(x.args[0])
            go(x.args[1], band(k, at))
            go(x.args[2], band(k, bnot(at)))
            return
        l = find_log(x)
        if l is not None:
            out.append((l, k))
    go(t, TRUE)
    es = {e for e, k in out}
    return es


def find_log(x, d=0):
    if not isinstance(x, T) or d > 6:
        return None
    if x.op == 'fcall' and x.args[0] in ('log10', 'ln', 'log2', 'log'):
        return x.args[1]
    for a in x.args:
        r = find_log(a, d + 1)
        if r is not None:
            return r
    return None


# ---------------------------------------------------------------- real normal form of sums
def linsum(t, k=1.0, acc=None, depth=0):
    """flatten sums and constant factors: dict addend -> coefficient"""
    if acc is None:
        acc = {}
    o, a = t.op, t.args
    v = fval(t) if o == 'flt' else None
    if v is not None:
        acc[None] = acc.get(None, 0.0) + k * v
        return acc
    if o == 'fadd':
        linsum(a[0], k, acc)
        linsum(a[1], k, acc)
        return acc
    if o == 'fsub':
        linsum(a[0], k, acc)
        linsum(a[1], -k, acc)
        return acc
    if o == 'fneg':
        linsum(a[0], -k, acc)
        return acc
    if o == 'fmul':
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            v = fval(x)
            if v is not None:
                linsum(y, k * v, acc)
                return acc
    if o == 'fdiv':
        v = fval(a[1])
        if v:
            linsum(a[0], k / v, acc)
            return acc
    acc[t] = acc.get(t, 0.0) + k
    return acc


def linsame(a, b, tol=1e-12):
    x, y = linsum(a), linsum(b)
    x = {k: v for k, v in x.items() if v}
    y = {k: v for k, v in y.items() if v}
    return set(x) == set(y) and all(abs(v - y[k]) <= tol * abs(v) for k, v in x.items())


def gated(t, fn):
    """apply fn to the leaves of a diagram"""
    if t.op == 'ite':
        return ite(batom(t.args[0]), gated(t.args[1], fn), gated(t.args[2], fn))
    return fn(t)


def same(c, rep, text, where, a, b, cond=TRUE, tries=16, tol=1e-9, fpool=None, ints=None, detail=''):
    """obligation: the expressions a and b are equal whenever cond holds"""
    if a is b or cond is FALSE:
        return rep.ob(text, 'proved', where)
    if a is None or b is None:
        return rep.ob(text, 'undecided', where)
    if isinstance(a, T) and isinstance(b, T):
        k = differ(cond, a, b) if a.sort == b.sort else None
        if k is FALSE:
            return rep.ob(text, 'proved', where)
        w = ndiffer(a, b, cond, tries, tol, fpool, ints=ints)
        if w is not None and w is not Unk:
            return rep.ob(text, 'refuted', where, '%s: %s, expected %s %s' % ('', w.xy[0], w.xy[1], detail), w)
        if w is None and k is not None and eqpaths(c, cond, a, b):
            return rep.ob(text, 'proved', where)
    return rep.ob(text, 'undecided', where, 'is %s, expected %s' % (show(a)[:200], show(b)[:200]))


def eqpaths(c, cond, a, b, limit=400):
    """equal on every path: as sums, or the path contradicts the order of the reals"""
    def go(k, x, y):
        # pairs of leaves reached together
        return pairs(k, x, y, limit)
    try:
        for lits, x, y in go(cond, a, b):
            if x is y:
                continue
            if x.sort == 'f' and linsame(x, y):
                continue
            if order_contradiction(lits, x, y):
                continue
            return False
    except OverflowError:
        return False
    return True


def pairs(k, a, b, limit):
    out = []

    def go(k, a, b, lits):
        if len(out) > limit:
            raise OverflowError
        if k is FALSE:
            return
        if a is b and a.op != 'ite':
            return
        if k.op != 'ite' and a.op != 'ite' and b.op != 'ite':
            out.append((dict(lits), a, b))
            return
        t = min(top(k), top(a), top(b))
        at = next(z.args[0] for z in (k, a, b) if z.op == 'ite' and top(z) == t)
        go(cof(k, at, 1), cof(a, at, 1), cof(b, at, 1), lits + [(at, True)])
        go(cof(k, at, 0), cof(a, at, 0), cof(b, at, 0), lits + [(at, False)])
    go(k, a, b, [])
    return out


def simpf(t):
    """x/1.0, |c*x| and the like"""
    while t.op == 'fdiv' and fval(t.args[1]) == 1.0 or t.op == 'f2f' and t.args[1] == 64:
        t = t.args[0]         # widening is exact
    return t


def order_graph(lits, extra=()):
    """edges u -> v (u <= v), strict flag, assuming the values are numbers"""
    E = {}

    def edge(u, v, s):
        u, v = simpf(u), simpf(v)
        E.setdefault(u, []).append((v, s))
        E.setdefault(v, [])
    for a, v in lits.items():
        if a.op == 'cflt':
            if v:
                edge(a.args[0], a.args[1], True)
            else:
                edge(a.args[1], a.args[0], False)
        elif a.op == 'cfle':
            if v:
                edge(a.args[0], a.args[1], False)
            else:
                edge(a.args[1], a.args[0], True)
        elif a.op == 'cfeq' and v:
            edge(a.args[0], a.args[1], False)
            edge(a.args[1], a.args[0], False)
        elif a.op == 'cnan' and v:
            return None
    for x in extra:
        E.setdefault(simpf(x), [])
    for n in list(E):
        if n.op == 'fdiv' and (fval(n.args[1]) or 0) > 0:
            E.setdefault(simpf(n.args[0]), [])
    if any(isabs(n) for n in E):
        E.setdefault(fconst(0.0), [])
    ns = list(E)
    cs = [n for n in ns if fval(n) is not None]
    for i in cs:
        for j in cs:
            if fval(i) < fval(j):
                E[i].append((j, True))
            elif i is not j and fval(i) == fval(j):
                E[i].append((j, False))
    zero = next((n for n in cs if fval(n) == 0), None)
    for n in ns:
        x = n
        if zero is not None and isabs(n):
            E[zero].append((n, False))
    # division by a positive constant is monotone
    ds = [n for n in ns if n.op == 'fdiv' and (fval(n.args[1]) or 0) > 0]
    for d in ds:
        x = simpf(d.args[0])
        if zero is not None and reach(E, x, zero):
            E[d].append((zero, False))
        for e in ds:
            if e is not d and e.args[1] is d.args[1] and reach(E, x, simpf(e.args[0])):
                E[d].append((e, False))
    return E


def reach(E, u, v):
    """None, 'le' or 'lt': u <= v derivable"""
    u, v = simpf(u), simpf(v)
    if u is v:
        return 'le'
    seen = {}
    st = [(u, False)]
    best = None
    while st:
        x, s = st.pop()
        if seen.get(x, -1) >= int(s):
            continue
        seen[x] = int(s)
        for y, s2 in E.get(x, ()):
            z = s or s2
            if y is v:
                if z:
                    return 'lt'
                best = 'le'
            st.append((y, z))
    return best


def eq_contradiction(lits, rounds=4):
    """the integer equalities on the path contradict its other literals"""
    ls = [(batom(a), v) for a, v in lits.items()]
    done = set()
    for _ in range(rounds):
        pick = None
        for a, v in ls:
            if not v or a.op != 'ite' or a.args[0].op != 'eq0' or a in done:
                continue
            p = P(a.args[0].args[0])
            for m, k in p.items():
                if len(m) == 1 and k in (1, -1):
                    rest = fromP({n: -c * k for n, c in p.items() if n != m})
                    if m[0].op != 'int' and not occurs(m[0], rest):
                        if pick is None or m[0].id > pick[0].id:
                            pick = (m[0], rest, a)
            if pick:
                break
        if pick is None:
            return False
        mp = {pick[0]: pick[1]}
        new = []
        for a, v in ls:
            b = a if a is pick[2] else gsubst(a, mp)
            if b is TRUE and not v or b is FALSE and v:
                return True
            if b is TRUE or b is FALSE:
                continue
            if b.op != 'ite' or a is pick[2]:
                new.append((b, v))
            elif b.args[1] is TRUE and b.args[2] is FALSE:
                new.append((b, v))
            elif b.args[1] is FALSE and b.args[2] is TRUE:
                new.append((batom(b.args[0]), not v))
        pos = {}
        for a, v in new:
            if pos.setdefault(a, v) != v:
                return True
        ls = new
        done.add(pick[2])
    return False


def order_contradiction(lits, x=None, y=None):
    """the comparisons on the path are contradictory, or force x == y (numbers only)"""
    if eq_contradiction(lits):
        return True
    E = order_graph(lits, [z for z in (x, y) if z is not None and z.sort == 'f'])
    if E is None:
        return True          # NaN: outside of the claim
    for n in E:
        for m, s in E[n]:
            if s and reach(E, m, n):
                return True
    if x is not None and x.sort == 'f':
        if reach(E, x, y) and reach(E, y, x):
            return True
    return False


def maxof(t, limit=6000):
    """the set of terms whose maximum t is on every path, or None (numbers only)"""
    ps = []
    try:
        for lits, x, y in pairs(TRUE, t, fconst(-12345.678), limit):
            ps.append((lits, x))
    except OverflowError:
        return None
    live = []
    for lits, x in ps:
        if eq_contradiction(lits):
            continue
        live.append((lits, simpf(x)))
    S = {x for g, x in live}
    live = [(order_graph(l, S), x) for l, x in live]
    live = [(g, x) for g, x in live if g is not None and not cyc(g)]
    S = {x for g, x in live}
    for g, x in live:
        for s in S:
            if s is not x and not reach(g, s, x):
                if not (fval(s) == 0.0 and isabs(x)):
                    return None
    if any(isabs(s) for s in S):
        S = {s for s in S if not (fval(s) is not None and fval(s) <= 0)}
    return frozenset(S)


def isabs(x):
    while x.op in ('fdiv', 'f2f') and (x.op == 'f2f' or (fval(x.args[1]) or 0) > 0):
        x = x.args[0]
    return x.op == 'fabs'


def cyc(E):
    for n in E:
        for m, s in E[n]:
            if s and reach(E, m, n):
                return True
    return False


def never_num(c, rep, text, where, cond, detail='', tries=40, fpool=None, ints=None, fix=None):
    """obligation: cond never holds (over the numbers)"""
    if cond is FALSE:
        return rep.ob(text, 'proved', where)
    w = nholds(cond, tries, fpool, ints=ints, fix=fix)
    if w is not None:
        return rep.ob(text, 'refuted', where, detail, w)
    try:
        ps = pairs(cond, TRUE, FALSE, 2000)
    except OverflowError:
        return rep.ob(text, 'undecided', where, detail)
    if all(order_contradiction(l) for l, x, y in ps):
        return rep.ob(text, 'proved', where)
    return rep.ob(text, 'undecided', where, detail)


def at(c, C, rate, mode, T, types=None, tag=''):
    """an analyzer after T frames: positions and counters as the code leaves them after T frames, every
    sample, filter memory, peak and history arbitrary"""
    E = c.E
    key = ('at', C, rate, mode, T)
    if key not in c.cache:
        # the interpolation is left out of long skips (its position then stays arbitrary)
        a0 = analyzer(c, C, rate, mode & ~0x20 if T > 16 else mode, [0] * C)
        if T:
            z = fconst(0.0)
            a0.feed([[z] * C for _ in range(T)])
        c.cache[key] = a0
    a0 = c.cache[key]
    ref, st, info = c.selfval(ch=C, rate=rate, mode=mode)
    mem = {}
    seen = set()

    def go(x, y):
        """y with the integer scalars of x"""
        if isinstance(y, T_):
            if y.sort == 'i' and isinstance(x, T_) and y.op == 'sym' and x.op == 'int':
                return x
            return y
        if not isinstance(x, V) or not isinstance(y, V):
            return y
        x, y = c.exp(x), c.exp(y)
        if x.k != y.k:
            return y
        if x.k == 'En' and x.a[0] != y.a[0]:
            return y
        if x.k == 'St' and len(x.a[1]) == len(y.a[1]):
            return St(y.a[0], [go(p, q) for p, q in zip(x.a[1], y.a[1])])
        if x.k == 'En':
            if y.a[1] is not x.a[1] and y.a[1].op != 'int':
                return y
            return En(y.a[0], y.a[1], [q if p is None or q is None else tuple(go(u, v) for u, v in zip(p, q)) for p, q in zip(x.a[2], y.a[2])])
        if x.k == 'Rf' and not x.a[1] and not y.a[1] and y.a[0] not in seen:
            seen.add(y.a[0])
            st.mem[y.a[0]] = go(a0.st.get(x.a[0]), st.get(y.a[0]))
            return y
        return y
    v = go(a0.val(), c.exp(E.readloc(E.deref(ref, st), st)))
    st.mem[ref.a[0]] = v
    # nothing that only configures (settings kept from construction)
    a = An(c, ref, st, C)
    a.info = info
    if types is not None:
        a.types(types)
    a.pc0 = a.st.pc
    return a


T_ = T
