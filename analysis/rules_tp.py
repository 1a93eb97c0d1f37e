"""Oversampling (C28): which factor at which rate, and what is measured."""
import math, random
from rules_audio import *
from rules_misc import SIZED

REPS = (('below 96 kHz', 48000, 16, 95999), ('from 96 kHz to below 192 kHz', 100000, 96000, 191999), ('from 192 kHz', 300000, 192000, 2822400))


def hann(j, F):
    """the interpolation filter: a sinc for the factor under a 49 point Hann window (last point zero)"""
    m = j - 24
    w = 0.5 * (1 - math.cos(2 * math.pi * j / 48))
    return w if m == 0 else w * math.sin(m * math.pi / F) / (m * math.pi / F)


def build(c, C, rate, R=None):
    """a constructed analyzer at a (symbolic or fixed) rate"""
    ref, st, info = c.selfval(ch=C, rate=rate, mode=0x31, fresh=True)
    return c.exp(c.E.readloc(c.E.deref(ref, st), st)), st


def walk(c, st, x, y, path, out, seen, want):
    """variants and scalars of y next to those of x: out gets (path, x, y); want: only below this path"""
    x, y = (c.exp(z) if isinstance(z, V) else z for z in (x, y))
    if isinstance(x, T) and isinstance(y, T):
        out.append((path, x, y))
    elif isinstance(x, V) and isinstance(y, V):
        if x.k == 'Ch' or y.k == 'Ch' or x.k != y.k:
            out.append((path, x, y))
        elif x.k == 'St' and len(x.a[1]) == len(y.a[1]):
            t = c.E.ty(x.a[0])
            for i, (p, q) in enumerate(zip(x.a[1], y.a[1])):
                n = t['v'][0]['f'][i][0] if t['k'] == 'adt' and t.get('v') else str(i)
                walk(c, st, p, q, path + (n,), out, seen, want)
        elif x.k == 'En':
            out.append((path + ('#',), x.a[1], y.a[1]))
            for i, (p, q) in enumerate(zip(x.a[2], y.a[2])):
                for j, (u, v) in enumerate(zip(p or (), q or ())):
                    walk(c, st, u, v, path + (i, j), out, seen, want)
        elif x.k == 'Rf' and not x.a[1] and not y.a[1] and (x.a[0], y.a[0]) not in seen:
            seen.add((x.a[0], y.a[0]))
            walk(c, st, c.exp(st[0].get(x.a[0])), c.exp(st[1].get(y.a[0])), path, out, seen, want)
        elif x.k == 'Sl' and want and x.a[3].op == 'int' and x.a[3] is y.a[3] and x.a[3].args[0] <= 64:
            for i in range(x.a[3].args[0]):
                p, q = (c.E.readloc(c.E.deref(Rf(z.a[0], z.a[1] + (('x', add(z.a[2], num(i))),)), s), s) for z, s in ((x, st[0]), (y, st[1])))
                walk(c, st, p, q, path + ('[%d]' % i,), out, seen, want)


def taglist(c, v, st):
    """{path: discriminant} of the enums of a value"""
    out = []
    walk(c, (st, st), v, v, (), out, set(), None)
    return {p: x for p, x, y in out if p and p[-1] == '#'}


def c28_rates(C):
    def run(c, rep, tier):
        wh = where(c, 'new')
        c.newunroll = 64
        R = sym('rate', 'i', 16, 2822400)
        vs, ss_ = build(c, C, None)
        R = [s for s in allsyms_(vs, ss_, c) if s.args[0] in ('R', 's.rate')]
        reps = [(build(c, C, r), lo, hi, n) for n, r, lo, hi in REPS]
        tags = [taglist(c, v, s) for (v, s), _, _, _ in reps]
        # the enums that distinguish the classes
        vary = [p for p in set(tags[0]) | set(tags[1]) | set(tags[2]) if len({t.get(p) for t in tags}) > 1]
        tops = {p[:-1] for p in vary}
        tops = {p for p in tops if not any(q != p and p[:len(q)] == q for q in tops)}
        if len(R) != 1 or not tops:
            return rep.ob('%d channels: the interpolator for every rate' % C, 'undecided', wh, '%d rates, %d choices' % (len(R), len(tops)))
        R = R[0]
        st_tags = taglist(c, vs, ss_)
        for (v, s), lo, hi, n in reps:
            within = band(bnot(lt(R, num(lo))), lt(R, num(hi + 1)))
            t0 = taglist(c, v, s)
            status, why, ev, cnt = 'proved', '', None, 0
            # outer choices first: below a variant that is not taken nothing is compared
            for p in sorted((p for p in set(st_tags) | set(t0) if any(p[:len(q)] == q for q in tops)), key=lambda p: (len(p), str(p))):
                if not alive(p, t0):
                    continue
                cnt += 1
                if p not in st_tags or p not in t0:
                    status, why = 'undecided', '%s is not a plain choice' % (p,)
                    break
                k = band(within, bnot(eq(st_tags[p], t0[p])))
                s_, ev = c.never(k, ss_.facts, (16, 95999, 96000, 191999, 192000, 88200, 44100, 176400, 48000, 2822400))
                if s_ != 'proved':
                    status, why = s_, 'differs from %d Hz at %s' % (dict((a, b) for a, b, _, _ in REPS)[n], '.'.join(str(x) for x in p[:-1]))
                    break
            rep.ob('%d channels: every rate %s uses the same interpolator' % (C, n), status, wh, why, ev)
    return run


def alive(p, tags):
    """the variants on the path are the ones taken"""
    for i, x in enumerate(p):
        if isinstance(x, int) and i + 1 < len(p) and isinstance(p[i + 1], int):
            t = tags.get(p[:i] + ('#',))
            if t is not None and t.op == 'int' and t.args[0] != x:
                return False
    return True


def allsyms_(v, st, c):
    from rules_state import allsyms
    out = list(allsyms(v))
    for t in taglist(c, v, st).values():
        out += allsyms(t)
    return list(dict.fromkeys(out))


LIN = ('fadd', 'fsub', 'fneg', 'fmul', 'fdiv', 'f2f', 'fcall')


class Canon:
    """linear combinations in a normal form: constants evaluated, widths left out, |-x| = |x|"""

    def __init__(self):
        self.memo = {}

    def lin(self, t):
        """{term: factor}; None is the constant"""
        o, a = t.op, t.args
        v = fval(t)
        if v is not None:
            return {None: v} if v else {}
        if o == 'f2f':
            return self.lin(a[0])
        if o == 'fcall':
            try:
                return {None: NumEv(Pick(random.Random(0), loud)).get(t)} if not syms(t) else {t: 1.0}
            except Unk:
                return {t: 1.0}
        if o == 'fneg':
            return {k: -q for k, q in self.lin(a[0]).items()}
        if o in ('fadd', 'fsub'):
            d = dict(self.lin(a[0]))
            for k, q in self.lin(a[1]).items():
                d[k] = d.get(k, 0.0) + (q if o == 'fadd' else -q)
            return {k: q for k, q in d.items() if abs(q) > 1e-12}
        if o in ('fmul', 'fdiv'):
            x, y = self.lin(a[0]), self.lin(a[1])
            if o == 'fmul':
                for u, w in ((x, y), (y, x)):
                    if not set(u) - {None}:
                        q = u.get(None, 0.0)
                        return {k: q * z for k, z in w.items() if q * z}
            elif not set(y) - {None} and y.get(None):
                return {k: z / y[None] for k, z in x.items()}
            return {mk(o, (self.go(a[0]), self.go(a[1])), 'f'): 1.0}
        return {self.go(t): 1.0}

    def term(self, d, absolute=False):
        d = {k: float('%.7g' % q) for k, q in d.items() if abs(q) > 1e-9}
        if absolute and d and d[min(d, key=lambda k: 0 if k is None else k.id)] < 0:
            d = {k: -q for k, q in d.items()}
        if not set(d) - {None}:
            return fconst(abs(d.get(None, 0.0)) if absolute else d.get(None, 0.0))
        r = None
        for k in sorted(d, key=lambda k: 0 if k is None else k.id):
            x = fconst(d[k]) if k is None else k if d[k] == 1.0 else mk('fmul', (fconst(d[k]), k), 'f')
            r = x if r is None else mk('fadd', (r, x), 'f')
        return mk('fabs', (r,), 'f') if absolute else r

    def go(self, t):
        r = self.memo.get(t)
        if r is None:
            o, a = t.op, t.args
            if o == 'ite':
                r = ite(self.atom(a[0]), self.go(a[1]), self.go(a[2]))
            elif o in LIN or o == 'flt':
                r = self.term(self.lin(t))
            elif o == 'fabs':
                r = self.term(self.lin(a[0]), True)
            else:
                r = t
            self.memo[t] = r
        return r

    def atom(self, t):
        if t.op in ('cflt', 'cfle', 'cfeq'):
            return fcomp(t.op[1:], self.go(t.args[0]), self.go(t.args[1]))
        return batom(t)


def linear(t):
    """a linear combination of samples, conversions between float widths left out"""
    acc = {}
    def go(x, k):
        for a, q in linsum(x, k).items():
            if a is not None and a.op == 'f2f':
                go(a.args[0], q)
            elif a is not None and a.op in ('fadd', 'fsub', 'fneg', 'fmul', 'fdiv'):
                b = linsum(a, q)
                if set(b) == {a}:
                    raise Undecided('not linear: %s' % show(a)[:80])
                for z, w in b.items():
                    go_leaf(z, w)
            else:
                go_leaf(a, q)
    def go_leaf(a, q):
        if a is not None and a.op == 'f2f':
            go(a.args[0], q)
        else:
            acc[a] = acc.get(a, 0.0) + q
    go(t, 1.0)
    return {k: v for k, v in acc.items() if abs(v) > 1e-9}


def c28_measure(C, rate, F, n=None, fmt='f64', planar=False, per=1, ks=None, reset=False):
    """prev_true_peak of the last call after a fresh start: the interpolated samples of the last frames"""
    def run(c, rep, tier):
        c.newunroll = 64
        a = analyzer(c, C, rate, 0x31)
        N = n or (48 // F + 1 if F else 2)
        wh = where(c, 'prev_true_peak')
        T = 0
        text0 = '%d Hz, %d channels%s' % (rate, C, ', %d frames a call' % per if per > 1 else '')
        only = ks if ks is not None else range(C)
        X = lambda t, k: xsym(fmt, t, k) if k in only else fconst(0.0)
        if reset:
            for t in range(5):
                a.feed([[xsym(fmt, 900 + t, k) if k in only else fconst(0.0) for k in range(C)]], fmt, planar)
            a.call('reset', [])
            text0 += ', after reset'
        while T < N:
            a.feed([[X(t, k) for k in range(C)] for t in range(T, T + per)], fmt, planar)
            T += per
        for k in only:
            v = a.q('prev_true_peak', [num(k)])[1]
            exp = []
            for t in range(T - per, T):
                exp.append({(t,): 1.0})
                for j in range(F):
                    d = {t - i: hann(j + F * i, F) for i in range(48 // F) if t - i >= 0}
                    exp.append({i: w for i, w in d.items() if abs(w) > 1e-9})
            exp = [{(i[0] if isinstance(i, tuple) else i): w for i, w in d.items()} for d in exp]
            text = '%s: the true peak of channel %d is measured with %s' % (text0, k, '%dx oversampling' % F if F else 'no oversampling')
            S = maxof(Canon().go(v), 20000)
            if S is None:
                rep.ob(text, 'undecided', wh, 'not a maximum')
                continue
            names = {xsym(fmt, t, k): t for t in range(T)}
            got = []
            for s in S:
                while s.op == 'f2f' or s.op == 'fabs':
                    s = s.args[0]
                d = linear(s)
                if any(x not in names for x in d):
                    got = None
                    break
                got.append({names[x]: q for x, q in d.items()})
            if got is None:
                rep.ob(text, 'undecided', wh, 'depends on something else')
                continue
            got = [d for d in got if d]
            extra = [d for d in got if not any(near(d, e) for e in exp)]
            lack = [e for e in exp if e and not any(near(d, e) for d in got)]
            if extra or lack:
                # a concrete input that shows it
                w = impulse(v, exp, names)
                rep.ob(text, 'refuted' if w else 'undecided', wh, 'measured %s' % (extra or lack)[:1], w)
            else:
                rep.ob(text, 'proved', wh)
    return run


def near(d, e):
    for s in (1, -1):
        if set(d) | set(e) and all(abs(d.get(i, 0.0) - s * e.get(i, 0.0)) < 2e-6 for i in set(d) | set(e)):
            return True
    return False


def impulse(v, exp, names):
    import random
    for k in range(40):
        rng = random.Random(k)
        xs = {x: (rng.uniform(-1, 1) if k >= len(names) else (1.0 if t == k else 0.0)) for x, t in names.items()}
        e = NumEv(Pick(rng, loud))
        e.leaf.fix = xs
        try:
            y = e.get(v)
        except Unk:
            continue
        by = {t: xs[x] for x, t in names.items()}
        want = max([abs(sum(q * by[t] for t, q in d.items())) for d in exp] + [0.0])
        if abs(y - want) > 1e-4 * max(1.0, abs(want)):
            return 'input %s: true peak %s, expected %s' % (['%.3g' % by[t] for t in sorted(by)], y, want)
    return None


C28 = [('rates, %d channels' % C, c28_rates(C)) for C in (1, 2, 3, 4, 5, 6, 7, 8, 9, 64)] + [
    ('measure %d Hz, %d channels' % (r, C), c28_measure(C, r, F, ks=None if C < 3 else sorted({0, C // 2, C - 1}))) for C in (1, 2, 3, 4, 5, 6, 7, 8) for r, F in ((95999, 4), (96000, 2), (192000, 0))] + [
    ('measure %s %d Hz, %d channels, 2 frames' % ('planar ' + fmt if p else fmt, r, C), several([c28_measure(C, r, F, fmt=fmt, planar=p, per=2, ks=[C - 1], n=4)], 40000)) for C, fmt, p in ((1, 'f64', True), (2, 'f32', False), (3, 'f64', False), (6, 'f64', True), (5, 'f64', True))
    for r, F in ((44100, 4), (176400, 2))] + [
    ('measure %d Hz, %d channels, after reset' % (r, C), c28_measure(C, r, F, ks=[C - 1], n=7, reset=True)) for C in (1, 2, 3, 4, 6, 8) for r, F in ((44100, 4), (191999, 2))]
