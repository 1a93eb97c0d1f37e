"""Loudness histories: C20 (what they hold), C21 (gating), C22 (nothing above the gates), C26 (histogram bins).

Queue form: the summary of each query is taken at every length up to a bound with free contents and compared with the
formula as a term (equal for every content when the diagrams coincide).  Histogram form: the loops stay recurrences;
a recurrence is recognised as a sum over bins, or folded on given bin counts to look for a difference."""
from rules_audio import *
from rules_capi import CObj, multi_run, MULTI, getval
from engine import Loop
import numev, random

F10 = fconst(10.0)


# ---------------------------------------------------------------- analyzers with given histories
def histval(a, which):
    """the history value of an analyzer"""
    v = a.val()
    names = [x[0] for x in a.c.E.ty(v.a[0])['v'][0]['f']]
    return v.a[1][names.index(which)]


class Ob:
    """what hist() needs"""

    def __init__(self, c, ref, st):
        self.c, self.ref, self.st = c, ref, st

    val = An.val


def withq(c, ref, st, lens, name='hist'):
    """st with histories of the given lengths ({BLOCK: n, ...}, numbers or terms) and free contents; {which: symbol}"""
    o = Ob(c, ref, st)
    st = st.copy()
    want, syms = {}, {}
    for w, n in lens.items():
        h = hist(o, w)
        if h[0] != 'q':
            raise Undecided('not a queue')
        syms[w] = sym('%s_%s' % (name, w), 'o')
        want[h[1]] = Dq(syms[w], n if isinstance(n, T_) else num(n))
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, V):
            return x
        r = memo.get(x)
        if r is None:
            if x.k == 'Dq' and x.a[0] in want:
                r = want[x.a[0]]
            elif x.k == 'Op':
                y = c.exp(x)
                r = go(y) if y is not x and isinstance(y, V) and y.k != 'Op' else x
            else:
                r = mkv(x.k, *[go(y) for y in x.a])
            memo[x] = r
        return r
    for reg in list(st.mem):
        st.mem[reg] = go(st.mem[reg])
    return st, syms


def lengths(a, lens):
    a = a.copy()
    a.st, syms = withq(a.c, a.ref, a.st, lens)
    return a, syms


def el(s, i):
    return mk('deref', (mk('dqel', (s, num(i)), 'o'),), 'f')


def lufs(e):
    return fop('sub', fop('mul', F10, lift1(('fcall', 'log10'), lambda x: mk('fcall', ('log10', x), 'f'), e)), fconst(0.691))


# ---------------------------------------------------------------- oracle over contents
def o_gate(es, db=10.0):
    """(count, sum) of the blocks at or above the gate, relative to the mean"""
    if not es:
        return 0, 0.0
    thr = sum(es) / len(es) * 10 ** (-db / 10)
    l = [e for e in es if e >= thr]
    return len(l), sum(l)


def o_lufs(e):
    return -math.inf if e <= 0 else 10 * math.log10(e) - 0.691


def o_global(es):
    n, s = o_gate(es)
    return -math.inf if n == 0 else o_lufs(s / n)


def o_thr(es):
    return -70.0 if not es else o_lufs(sum(es) / len(es) * .1)


def o_range(es):
    if not es:
        return 0.0
    thr = sum(es) / len(es) * .01
    l = sorted(e for e in es if e >= thr)
    if not l:
        return 0.0
    n = len(l) - 1
    return o_lufs(l[int(n * .95 + .5)]) - o_lufs(l[int(n * .1 + .5)])


def o_count(es):
    return o_gate(es)[0]


def o_energy(es):
    return o_gate(es)[1]


def contents(rng, n):
    """energies above the absolute gate that exercise the relative gates"""
    k = rng.random()
    if k < .3:
        return [10 ** rng.uniform(-6.5, 2) for _ in range(n)]
    if k < .5:
        return [10 ** rng.uniform(-1, 0.3) for _ in range(n)]
    if k < .6:
        return [rng.uniform(.5, .6)] * n
    # near a gate: some a little above and below a tenth or a hundredth of the mean
    g = rng.choice((.1, .01))
    out = [rng.uniform(.8, 1.2) for _ in range(n)]
    for i in range(n // 2):
        out[i] = rng.choice((g * .7, g * .95, g * 1.05, g * 1.3)) * rng.choice((1, .5, .75))
    rng.shuffle(out)
    return out


class Leaves:
    """leaf values: the given sequences, bin counts, anything else at random"""

    def __init__(self, seqs, bins=None, seed=0):
        self.seqs, self.bins, self.rng = seqs, bins or {}, random.Random(seed)

    def __call__(self, ev, t):
        if t.op == 'deref' and t.args[0].op == 'dqel':
            q, i = t.args[0].args
            l = self.seqs.get(q)
            i = i.args[0]
            if l is None or not 0 <= i < len(l):
                raise numev.Unk('element')
            return l[i]
        if t.op == 'dqsplit':
            return self.rng.randint(0, len(self.seqs.get(t.args[0], ())))
        if t.op == 'sel' and t.args[0] in self.bins:
            return self.bins[t.args[0]][t.args[1].args[0]]
        if t.sort == 'f':
            return self.rng.uniform(-1, 1)
        if t.sort == 'b':
            return self.rng.random() < .5
        if t.sort == 'i':
            lo, hi = RNG.get(t, (0, 100))
            return self.rng.randint(max(int(lo), -1000) if lo > -INF else -1000, min(int(hi), 1000) if hi < INF else 1000)
        return None


def same(x, y, tol=1e-9):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    return close(x, y, tol) or abs(x - y) <= tol if not (math.isinf(x) or math.isinf(y) or x != x or y != y) else close(x, y)


def folded(rep, text, wh, got, cases, oracle, want=None, cond=TRUE):
    """obligation: got is oracle(case) for every content.  cases: [(Leaves, energies)]; want: the formula as a term"""
    n = 0
    why = ''
    for lv, es in cases:
        ev = numev.NumEv(lv)
        try:
            x = ev.get(got)
        except numev.Unk as e:
            why = str(e)
            continue
        except RecursionError:
            why = 'depth'
            continue
        n += 1
        y = oracle(es)
        if not same(x, y):
            return rep.ob(text, 'refuted', wh, 'is %r, expected %r' % (x, y), 'block energies ' + brief(es))
    if want is not None and n:
        if want is True or got is want or got.sort == want.sort and differ(cond, got, want) is FALSE:
            return rep.ob(text, 'proved', wh)
    return rep.ob(text, 'undecided', wh, 'no difference in %d contents; %s %s' % (n, why, show(got)[:300]))


def brief(es):
    if isinstance(es, dict):
        return ', '.join('%d x %.4g' % (k, e) for e, k in list(es.items())[:12])
    es = list(es)
    return ', '.join('%.6g' % e for e in es[:12]) + (' ... (%d)' % len(es) if len(es) > 12 else '')


def payload(v, path):
    """a component of Some((..)) / a plain value"""
    for p in path:
        if not isinstance(v, V):
            return None
        if v.k == 'En':
            v = (v.a[2][1] or (None,))[p] if len(v.a[2]) > 1 else None
        elif v.k == 'St':
            v = v.a[1][p]
        else:
            return None
    return v if isinstance(v, T_) else None


def count_energy(c, a):
    """(availability, is some, count, energy) of gating_block_count_and_energy"""
    f = c.method('gating_block_count_and_energy')
    r = c.run(f, [a.ref], a.st, unroll=unroll_of(a))
    if r.st is None:
        raise Undecided('no exit')
    v = r.v
    if isinstance(v, V) and v.k == 'Ch':
        v = c.exp(v)
    if not isinstance(v, V) or v.k != 'En':
        raise Undecided('result of gating_block_count_and_energy')
    name = c.E.ty(v.a[0])['n'].split('::')[-1]
    if name == 'Option':
        return TRUE, eq(v.a[1], ONE), payload(v, (0, 0)), payload(v, (0, 1))
    # Result<Option<..>>
    o = (v.a[2][0] or (None,))[0]
    if not isinstance(o, V):
        raise Undecided('result of gating_block_count_and_energy')
    return eq(v.a[1], ZERO), eq(o.a[1], ONE), payload(o, (0, 0)), payload(o, (0, 1))


def unroll_of(a):
    return getattr(a, 'unroll', UNROLL)


# ---------------------------------------------------------------- formula as terms, for n blocks
def t_sum(ts):
    return fsum(ts)


def t_thr(ss, n, factor):
    """threshold from the sum"""
    m = fop('div', ss, fconst(float(n)))
    return fop('mul', m, fconst(factor))


def t_gated(es, thr):
    """(count, sum) diagrams"""
    n, s = ZERO, fconst(0.0)
    for e in es:
        k = fcomp('fle', thr, e)
        n, s = ite(k, add(n, ONE), n), ite(k, fop('add', s, e), s)
    return n, s


def t_global(es, ss):
    if not es:
        return fconst(-math.inf)
    n, s = t_gated(es, t_thr(ss, len(es), .1))
    return ite(eq(n, ZERO), fconst(-math.inf), lufs(fop('div', s, lift1(('i2f', 64), lambda x: i2f(x, 64), n))))


def t_range(st, n):
    """loudness range of the sorted contents st[i]"""
    if n == 0:
        return fconst(0.0)
    es = [sel(st, num(i), 'f') for i in range(n)]
    thr = t_thr(t_sum(es), n, .01)
    r = fconst(0.0)
    for k in range(n - 1, -1, -1):
        m = n - k - 1
        v = fop('sub', lufs(es[k + int(m * .95 + .5)]), lufs(es[k + int(m * .1 + .5)]))
        r = ite(fcomp('flt', es[k], thr), r, v)
    return r


def sorted_of(t):
    """the sorted arrays a term reads"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T_):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'sorted':
                out.append(x)
            st.extend(x.args)
        elif isinstance(x, V):
            if x not in seen:
                seen.add(x)
                st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def nonan(t):
    """condition: no NaN is met (tests for NaN in t all fail)"""
    r = TRUE
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T_) and x not in seen:
            seen.add(x)
            if x.op == 'cnan':
                r = band(r, bnot(batom(x)))
            if x.op == 'mu' and x.sort == 'b' and numev.sort_of(x.args[0]) is not None:
                r = band(r, bnot(batom(x)))
            st.extend(y for y in x.args if isinstance(y, T_))
    return r


# ---------------------------------------------------------------- C21
def seqcases(rng, syms, ns, k):
    """[(leaves, all energies)] for the queues syms with ns elements"""
    out = []
    for i in range(k):
        l = contents(rng, sum(ns))
        seqs, p = {}, 0
        for s, n in zip(syms, ns):
            seqs[s] = l[p:p + n]
            p += n
        out.append((Leaves(seqs, seed=i), l))
    return out


def c21_queue(c, rep, tier):
    """gating of queue histories of every length up to a bound"""
    old = TM.LIFT
    pre = [analyzer(c, 1, 16, m, [1], fresh=False) for m in (5, 15)]
    TM.LIFT = 3000
    try:
        N = 12 if tier == "thorough" else 8
        rng = random.Random(21)
        for mode, a0 in zip((5, 15), pre):
            for n in range(N + 1):
                lens = {BLOCK: n}
                if mode == 15:
                    lens[SHORT] = n
                a, s = lengths(a0, lens)
                es = [el(s[BLOCK], i) for i in range(n)]
                ss = t_sum(es)
                cases = seqcases(rng, [s[BLOCK]], [n], 60 if n else 1)
                base = 'mode %d, %d blocks: ' % (mode, n)
                ok, v = a.q('loudness_global')
                wh = where(c, 'loudness_global')
                never(c, rep, base + 'loudness_global is available', wh, bnot(ok))
                folded(rep, base + 'loudness_global is the mean of the blocks at or above a tenth of the mean', wh, v, cases, o_global, t_global(es, ss), nonan(v))
                ok, v = a.q('relative_threshold')
                wh = where(c, 'relative_threshold')
                never(c, rep, base + 'relative_threshold is available', wh, bnot(ok))
                folded(rep, base + 'relative_threshold is 10 LU below the mean', wh, v, cases, o_thr, lufs(t_thr(ss, n, .1)) if n else fconst(-70.0), nonan(v))
                if c.method('gating_block_count_and_energy', False):
                    wh = where(c, 'gating_block_count_and_energy')
                    ok, some, k, e = count_energy(c, a)
                    never(c, rep, base + 'gating_block_count_and_energy is available', wh, bnot(ok))
                    tn, ts = t_gated(es, t_thr(ss, n, .1)) if n else (ZERO, fconst(0.0))
                    folded(rep, base + 'blocks are counted unless all are gated', wh, some, cases, lambda l: bool(o_count(l)), bnot(eq(tn, ZERO)), nonan(some))
                    if k is not None and n:
                        nn = band(nonan(some), some)
                        folded(rep, base + 'the blocks at or above the relative gate are counted', wh, k, cases, o_count, tn, nn)
                        folded(rep, base + 'the energy of the blocks at or above the relative gate is summed', wh, e, cases, o_energy, ts, nn)
                if mode == 15:
                    ok, v = a.q('loudness_range')
                    wh = where(c, 'loudness_range')
                    never(c, rep, base + 'loudness_range is available', wh, bnot(ok))
                    sc = seqcases(rng, [s[SHORT]], [n], 60 if n else 1)
                    st = sorted_of(v)
                    folded(rep, base + 'loudness_range spans the 10 % and 95 % percentiles of the blocks above a hundredth of the mean', wh, v, sc, o_range,
                           t_range(st[0], n) if len(st) == 1 else None if n else fconst(0.0), nonan(v))
    finally:
        TM.LIFT = old


def mobjs(c, mode, lens):
    """C states with queues of the given lengths: [(object, {which: symbol})]"""
    out = []
    for i, n in enumerate(lens):
        nm = 'abcdef'[i] if i < 6 else 'a%d' % i
        o = CObj(c, name=nm, ch=1, rate=16, mode=mode)
        q = {BLOCK: n}
        if mode & 8:
            q[SHORT] = n
        o.st, s = withq(c, o.ref, o.st, q, nm)
        out.append((o, s))
    return out


def c21_multi(c, rep, tier):
    """gating over several instances: as over the concatenated histories"""
    old = TM.LIFT
    mobjs(c, 15, (0,) * 4)
    TM.LIFT = 3000
    rng = random.Random(22)
    try:
        shapes = [(), (0,), (3,), (0, 0), (0, 2), (2, 0), (1, 1), (2, 1), (1, 3), (1, 1, 1), (2, 0, 1), (0, 1) * 8 + (1,), (1,) + (0,) * 32 + (1,)] + ([(3, 3), (4, 2), (2, 2, 2), (1, 0, 2, 1)] if tier == 'thorough' else [])
        for lens in shapes:
            for name, which, oracle, mode in (('ebur128_loudness_global_multiple', BLOCK, o_global, 15), ('ebur128_loudness_range_multiple', SHORT, o_range, 15)):
                if not lens:
                    continue
                ob = mobjs(c, mode, lens)
                f, r, oreg, x0, st = multi_run(c, name, [o for o, s in ob], 64)
                wh = '%s (%s)' % (f['path'], span(f))
                if r.st is None:
                    raise Undecided('%s has no exit' % name)
                v = r.st.mem[oreg]
                ss = [s[which] for o, s in ob]
                cases = seqcases(rng, ss, lens, 40 if sum(lens) else 1)
                base = '%s over histories of %s blocks' % (name, ' and '.join(map(str, lens)))
                n = sum(lens)
                if which == BLOCK:
                    es = [el(s, i) for s, k in zip(ss, lens) for i in range(k)]
                    tot = fsum([fsum([el(s, i) for i in range(k)]) for s, k in zip(ss, lens)])
                    want = t_global(es, tot)
                else:
                    z = sorted_of(v)
                    want = t_range(z[0], n) if len(z) == 1 else None if n else fconst(0.0)
                folded(rep, base + ' is that over all of them together', wh, v, cases, oracle, want, band(nonan(v), r.st.pc) if r.st.pc is not TRUE else nonan(v))
    finally:
        TM.LIFT = old


def recorded(c, a, before, after):
    """condition under which the history changes"""
    if before[0] == 'q':
        return changed(c, a, before, after)
    r = FALSE
    for o in after[1].a[3]:
        if o in before[1].a[3]:
            continue
        if o[0] != 'p':
            raise Undecided('histogram bins')
        x, y = c.E.arr_get(before[1], o[1], a.st.facts), c.E.arr_get(after[1], o[1], a.st.facts)
        r = bor(r, differ(TRUE, x, y))
    return r


def decided(k):
    """truth value of a condition, or None"""
    for want in (True, False):
        try:
            ps = [l for l, x, y in pairs(k if not want else bnot(k), TRUE, FALSE, 500)]
        except OverflowError:
            return None
        if all(order_contradiction(l) for l in ps):
            return want
    return None


def c21_absolute(rate, C, mode, types):
    """a due block is recorded exactly when its energy is at least -70 LUFS"""
    def run(c, rep, tier):
        ss = ss_of(rate)
        base = '%d Hz, %d channels, mode %d' % (rate, C, mode)
        for which, T1, q, on in ((BLOCK, 5 * ss, 'loudness_momentary', 4), (SHORT, 40 * ss, 'loudness_shortterm', 8)):
            if not mode & on:
                continue
            a = at(c, C, rate, mode, T1 - 1, types)
            h0 = hist(a, which)
            a.feed(frames('f64', T1 - 1, T1, C))
            h1 = hist(a, which)
            wh = where(c, 'add_frames_f64')
            ok, e, v = loudness(a, q)
            if e is None:
                rep.ob('%s: energy of the %s block' % (base, which), 'undecided', wh)
                continue
            rec = recorded(c, a, h0, h1)
            # the energy enters through comparisons: find the compared term
            x = sym('blockenergy', 'f')
            k = gsubst(rec, {e: x})
            text = '%s: a block enters %s exactly when it is at or above -70 LUFS' % (base, which)
            res = []
            for val, want in ((GATE * (1 + 1e-6), True), (GATE * (1 - 1e-6), False), (GATE * 2, True), (GATE / 2, False), (0.0, False), (1.0, True), (1e4, True), (GATE * 1.1, True), (GATE * .9, False), (1e-9, False), (1e-6, True)):
                kk = gsubst(k, {x: fconst(val)})
                if kk is TRUE or kk is FALSE:
                    res.append((val, want, kk is TRUE))
                else:
                    res.append((val, want, decided(kk)))
            bad = [(z, w) for z, w, g in res if g is not None and g != w]
            if bad:
                rep.ob(text, 'refuted', wh, 'a block of energy %.9g is %s' % (bad[0][0], 'dropped' if bad[0][1] else 'recorded'), 'energy %r' % bad[0][0])
            elif any(g is None for z, w, g in res):
                rep.ob(text, 'undecided', wh, show(rec)[:200])
            else:
                rep.ob(text, 'proved', wh)
    return run


C21 = [('queues', c21_queue), ('several instances', c21_multi)] + [
    ('absolute gate, mode %d' % m, c21_absolute(16, 1, m, [1])) for m in (15, 0x4f)]


# ---------------------------------------------------------------- histograms
import linev as LV
from linev import Lin, Quot, Fx, lufsx, samev

NBINS = 1000


def bound(i):
    return 10 ** ((i / 10 - 70 + .691) / 10)


def centre(i):
    return 10 ** ((i / 10 + .05 - 70 + .691) / 10)


def bins_of(a, which):
    h = hist(a, which)
    if h[0] == 'q':
        raise Undecided('not a histogram')
    ar = h[1]
    if ar.a[3] or ar.a[2][0] != 'o':
        raise Undecided('bins')
    return ar.a[2][1]


def consts_of(t):
    """float constants (and those of constant tables) a term mentions"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, Loop):
            if x.id not in seen:
                seen.add(x.id)
                st.extend(x.inits)
                st.extend(x.nexts)
                st.append(x.trip)
        elif isinstance(x, (T_, V)):
            if x in seen:
                continue
            seen.add(x)
            if isinstance(x, T_) and x.op == 'flt':
                out.add(fval(x))
            if isinstance(x, T_) and x.op == 'tab':
                st.extend(TM.TABLES[x.args[0]])
            st.extend(x.args if isinstance(x, T_) else x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return {x for x in out if x == x and not math.isinf(x)}


def places(cs, lo=None):
    """one value for every order a value can have with respect to the constants"""
    cs = sorted(x for x in cs if x > 0)
    out = []
    p = 0.0
    for x in cs:
        m = p + (x - p) / 2
        if p < m < x:
            out.append(m)
        out.append(x)
        p = x
    out.append(p * 2)
    return out


def noleaf(ev, t):
    raise LV.Unk('leaf ' + show(t)[:80])


BINTOL = 1e-9     # relative difference of a bin energy from the nominal one that is rounding


def gated_lin(offs, thr):
    """(count, sum) of the bins at or above thr"""
    n, s = {}, {}
    for off in offs:
        for i in range(NBINS):
            if centre(i) >= thr * (1 - BINTOL):
                n[off + i], s[off + i] = 1, centre(i)
    return Lin(n), Lin(s)


def all_lin(offs):
    return gated_lin(offs, 0.0)


def by_case(rep, wh, items, bins, offs, chunk, of, every=1):
    """items: [(obligation, term, expect(n, s))]: the term over symbolic bins is as expected for the gated count n and
    sum s wherever the gate lies"""
    n0, s0 = all_lin(offs)
    thr = Quot(s0 * .1, n0)
    vs = tuple(v for t, v, e in items)
    ps = places(consts_of(vs))[chunk::of][::every]
    ev0 = LV.LinEv(noleaf, bins, thr)
    for v in vs:
        ev0.prepare(v)
    left = list(items)
    for p in ps:
        n, s = gated_lin(offs, p)
        ev = ev0.at(p)
        for it in list(left):
            text, v, expect = it
            want = expect(n, s) if n.c else expect(None, None)
            try:
                x = ev.get(v)
                why = 'gate at %r: %r, expected %r' % (p, x, want)
                good = samev(x, want, BINTOL)
            except LV.Unk as e:
                good, why = False, str(e)[:300]
            if not good:
                rep.ob(text, 'undecided', wh, why)
                left.remove(it)
        if not left:
            return
    for text, v, e in left:
        rep.ob(text, 'proved', wh)


def counts(rng, k):
    """bin counts"""
    l = [0] * NBINS
    m = rng.choice((1, 2, 3, 5, 9, 40))
    top = rng.choice((999, 999, 800, 700))
    span_ = rng.choice((1000, 300, 120, 30))
    for i in range(m):
        l[max(0, min(999, top - rng.randrange(span_)))] += rng.choice((1, 1, 1, 2, 3, 10, 100))
    if k % 4 == 1:
        # a bin at the gate of a single loud one
        j = rng.randrange(400, 1000)
        l = [0] * NBINS
        l[j] = rng.choice((1, 5))
        for d in (-101, -100, -99, -201, -200, -199):
            if rng.random() < .5:
                l[j + d] += rng.choice((1, 2, 7))
    return l


def halves(rng, db, lower):
    """bin counts whose gate lies in the lower (upper) half of an occupied bin"""
    while True:
        L, m, n = rng.randrange(350, 1000), rng.choice((1, 1, 2, 5)), rng.choice((1, 2, 3, 5, 10, 20, 40, 80))
        for q in range(L - 1, L - 340, -1):
            t = (m * centre(L) + n * centre(q)) / (m + n) * 10 ** (-db / 10)
            if bound(q) < t < centre(q) if lower else centre(q) < t < bound(q + 1):
                l = [0] * NBINS
                l[L], l[q] = m, n
                return l


def h_expand(cs):
    return [(centre(i), k) for c in cs for i, k in enumerate(c) if k]


def hgate(es, db):
    n = sum(k for e, k in es)
    if not n:
        return [], 0
    thr = sum(e * k for e, k in es) / n * 10 ** (-db / 10)
    return [(e, k) for e, k in es if e >= thr], thr


def h_global(es):
    g, _ = hgate(es, 10)
    return -math.inf if not g else o_lufs(sum(e * k for e, k in g) / sum(k for e, k in g))


def h_thr(es):
    g, t = hgate(es, 10)
    return o_lufs(t) if es else -70.0


def h_range(es):
    g, _ = hgate(es, 20)
    if not g:
        return 0.0
    l = sorted(g)
    n = sum(k for e, k in l) - 1

    def at_(i):
        for e, k in l:
            if i < k:
                return e
            i -= k
    return o_lufs(at_(int(n * .95 + .5))) - o_lufs(at_(int(n * .1 + .5)))


def h_count(es):
    return sum(k for e, k in hgate(es, 10)[0])


def h_energy(es):
    return float(sum(e * k for e, k in hgate(es, 10)[0]))


def close_gate(es, db):
    """a bin within rounding of the gate"""
    g, t = hgate(es, db)
    return any(abs(e - t) <= 1e-7 * t for e, k in es)


def hcases(rng, bases, k, dbs=(10, 20)):
    out = []
    while len(out) < k:
        cs = [counts(rng, len(out)) for b in bases]
        if len(out) % 5 == 2:
            cs[0] = halves(rng, dbs[len(out) // 5 % len(dbs)], rng.random() < .5)
            cs[1:] = [[0] * NBINS if rng.random() < .5 else cs[0] for x in cs[1:]]
        if len(bases) > 1 and len(out) % 2:
            # bins used by several of them
            for l in cs[1:]:
                for i, x in enumerate(cs[0]):
                    if x and rng.random() < .7:
                        l[i] = rng.choice((1, 1, 2, 3, 30))
        es = h_expand(cs)
        if any(close_gate(es, d) for d in dbs):
            continue
        out.append((Leaves({}, dict(zip(bases, cs)), seed=len(out)), es))
    return out


def hbrief(es):
    return ', '.join('%d x %.6g' % (k, e) for e, k in es[:10])


def hfolded(rep, text, wh, got, cases, oracle, prove=None):
    """refuted when got differs from the oracle for given bin counts, else what prove() says"""
    n, why = 0, ''
    for lv, es in cases:
        ev = numev.NumEv(lv)
        try:
            x = ev.get(got)
        except numev.Unk as e:
            why = str(e)
            continue
        except RecursionError:
            why = 'depth'
            continue
        n += 1
        y = oracle(es)
        if not same(x, y, 1e-7):
            return rep.ob(text, 'refuted', wh, 'is %r, expected %r' % (x, y), 'bins ' + hbrief(es))
    if prove:
        return prove()
    rep.ob(text, 'undecided', wh, 'no difference for %d histograms; %s %s' % (n, why, show(got)[:200]))


def harr(c, mode=79):
    a = analyzer(c, 1, 16, mode, [1], fresh=False)
    a.unroll = 8
    return a


def hquery(a, name):
    if name == 'count':
        ok, some, k, e = count_energy(a.c, a)
        return ok, some, k, e
    return a.q(name)


def c21_hist(chunk, of):
    def run(c, rep, tier):
        rng = random.Random(2100 + chunk)
        a = harr(c)
        b = bins_of(a, BLOCK)
        bins = {b: 0}
        base = 'histogram: '
        part = ' (part %d of %d of the places of the gate)' % (chunk + 1, of)
        ok, v = a.q('loudness_global')
        wh = where(c, 'loudness_global')
        if chunk == 0:
            never(c, rep, base + 'loudness_global is available', wh, bnot(ok))
        cs = hcases(rng, [b], 40)

        def check(its):
            """[(text, term, oracle, cases, expect, proof term)]"""
            good = []
            for t, v, orc, cc, exp, pv in its:
                n = len(rep.obs)
                hfolded(rep, t, wh, v, cc, orc, lambda: good.append((t, pv, exp)))
            by_case(rep, wh, good, bins, [0], chunk, of)
        check([(base + 'loudness_global is the mean of the bins at or above a tenth of the mean' + part, v, h_global, cs,
                lambda n, s: -math.inf if n is None else lufsx(Quot(s, n)), v)])
        if c.method('gating_block_count_and_energy', False):
            wh = where(c, 'gating_block_count_and_energy')
            ok, some, k, e = count_energy(c, a)
            cp = [x for x in cs if h_count(x[1])]
            check([(base + nm + part, t, orc, cp, exp, ite(some, t, ZERO if t.sort == 'i' else fconst(0.0)))
                   for nm, t, orc, exp in (('the number of blocks in bins at or above the relative gate is counted', k, h_count, lambda n, s: 0 if n is None else n),
                                           ('the energy of the bins at or above the relative gate is summed', e, h_energy, lambda n, s: 0 if n is None else s))])
        if chunk == 0:
            ok, v = a.q('relative_threshold')
            wh = where(c, 'relative_threshold')
            text3 = base + 'relative_threshold is 10 LU below the mean'
            never(c, rep, base + 'relative_threshold is available', wh, bnot(ok))

            def prove():
                n0, s0 = all_lin([0])
                try:
                    x = LV.LinEv(noleaf, bins).get(v)
                except LV.Unk as e:
                    return rep.ob(text3, 'undecided', wh, str(e))
                if samev(x, lufsx(Quot(s0 * .1, n0)), BINTOL):
                    return rep.ob(text3, 'proved', wh)
                rep.ob(text3, 'undecided', wh, repr(x))
            hfolded(rep, text3, wh, v, cs, h_thr, prove)
    return run


def c21_hrange(chunk, of):
    def run(c, rep, tier):
        rng = random.Random(2150 + chunk)
        a = harr(c)
        b = bins_of(a, SHORT)
        ok, v = a.q('loudness_range')
        wh = where(c, 'loudness_range')
        if chunk == 0:
            never(c, rep, 'histogram: loudness_range is available', wh, bnot(ok))
        text = 'histogram: loudness_range spans the 10 %% and 95 %% percentiles of the bins above a hundredth of the mean (part %d of %d)' % (chunk + 1, of)

        def prove():
            n0, s0 = all_lin([0])
            ev0 = LV.LinEv(noleaf, {b: 0}, Quot(s0 * .01, n0), None).prepare(v)
            ps = places(consts_of(v))
            rng = random.Random(5)
            todo = []
            # every place of the gate with some percentile bins, and every percentile bin with some gates
            for p in ps:
                f = next((i for i in range(NBINS) if centre(i) >= p * (1 - BINTOL)), None)
                if f is None:
                    todo.append((p, None))
                    continue
                l = sorted((rng.randint(f, 999), rng.randint(f, 999)))
                todo.append((p, LV.Case(f, {.1: l[0], .95: l[1]}, rng.choice((None, 0, 1)))))
            for j in range(0, NBINS):
                f = rng.choice((0, j // 2, j))
                p = centre(f)
                k = rng.randint(j, 999)
                for fd in (None, 0, 1):
                    todo.append((p, LV.Case(f, {.1: j, .95: k}, fd)))
                    g = f if f <= 999 - k else 0
                    todo.append((centre(g), LV.Case(g, {.1: 999 - k, .95: 999 - j}, fd)))
            todo = todo[chunk::of]
            for p, cs in todo:
                if cs is not None:
                    p = max(q for q in consts_of(v) if abs(q - p) <= BINTOL * p) if p == centre(cs.first) else p
                    want = o_lufs(centre(cs.J[.95])) - o_lufs(centre(cs.J[.1]))
                else:
                    want = 0.0
                try:
                    x = ev0.at(p, cs).get(v)
                except LV.Unk as e:
                    return rep.ob(text, 'undecided', wh, str(e)[:300])
                if not isinstance(x, float) or not same(x, want, 1e-7):
                    return rep.ob(text, 'undecided', wh, 'gate at %r, percentiles in bins %s: %r, expected %r' % (p, cs and cs.J, x, want))
            rep.ob(text, 'proved', wh)
        hfolded(rep, text, wh, v, hcases(rng, [b], 60), h_range, prove)
    return run


def c21_hmulti(c, rep, tier):
    """several histogram instances: as over the added histograms"""
    rng = random.Random(2200)
    for k in (2, 3) if tier == 'thorough' else (2,):
        obs = [CObj(c, name='abcdef'[i], ch=1, rate=16, mode=79) for i in range(k)]
        for name, which, orc in (('ebur128_loudness_global_multiple', BLOCK, h_global), ('ebur128_loudness_range_multiple', SHORT, h_range)):
            bs = [bins_of(Ob(c, o.ref, o.st), which) for o in obs]
            f, r, oreg, x0, st = multi_run(c, name, obs, 8)
            wh = '%s (%s)' % (f['path'], span(f))
            v = r.st.mem[oreg]
            text = '%s over %d histograms is that over all of them together' % (name, k)
            if which == SHORT:
                hfolded(rep, text, wh, v, hcases(rng, bs, 40), orc)
                continue
            offs = [i * NBINS for i in range(k)]
            every = 1 if tier == 'thorough' else 40
            text += ', wherever the gate lies' if every == 1 else ', at every %dth place of the gate' % every
            hfolded(rep, text, wh, v, hcases(rng, bs, 40), orc, lambda: by_case(rep, wh, [(text, v, lambda n, s: -math.inf if n is None else lufsx(Quot(s, n)))], dict(zip(bs, offs)), offs, 0, 1, every))


C21 += [('histograms %d' % i, c21_hist(i, 8)) for i in range(8)] + [('histogram range %d' % i, c21_hrange(i, 3)) for i in range(3)] + [('several histograms', c21_hmulti)]


# ---------------------------------------------------------------- C20
def listing(t, n, k=TRUE, facts=None, depth=0):
    """[(condition, [elements oldest first])] of a queue content of concrete length in each case"""
    if depth > 40:
        raise Undecided('queue content')
    for x, which in ((t, 0), (n, 1)):
        if x.op == 'ite':
            at_ = batom(x.args[0])
            out = []
            for j, c in ((1, at_), (2, bnot(at_))):
                kk = band(k, c)
                if kk is FALSE:
                    continue
                y, z = (restrict(w, x.args[0], j == 1) for w in (t, n))
                out += listing(y, z, kk, facts, depth + 1)
            return out
    if n.op != 'int':
        raise Undecided('queue length ' + show(n)[:100])
    n = n.args[0]
    o = t.op
    if n == 0 or o == 'dq0':
        return [(k, [])] if n == 0 else [(k, None)]
    if o == 'dqpush':
        return [(kk, None if l is None else l + [t.args[1]]) for kk, l in listing(t.args[0], num(n - 1), k, facts, depth + 1)]
    if o == 'dqpushf':
        return [(kk, None if l is None else [t.args[1]] + l) for kk, l in listing(t.args[0], num(n - 1), k, facts, depth + 1)]
    if o == 'dqdrop':
        cnt = t.args[2]
        if cnt.op != 'int':
            raise Undecided('dropped count')
        cnt = cnt.args[0]
        return [(kk, None if l is None else (l[cnt:] if t.args[1] == 'f' else l[:n])) for kk, l in listing(t.args[0], num(n + cnt), k, facts, depth + 1)]
    if o == 'dqcut':
        a, b = t.args[1:]
        if a.op != 'int' or b.op != 'int':
            raise Undecided('cut')
        a, b = a.args[0], b.args[0]
        return [(kk, None if l is None else l[:a] + l[b:]) for kk, l in listing(t.args[0], num(n + b - a), k, facts, depth + 1)]
    if o == 'dqext':
        c = t.args[2]
        if c.op != 'int':
            raise Undecided('extension')
        return [(kk, None if l is None else l + [t.args[1]] * c.args[0]) for kk, l in listing(t.args[0], num(n - c.args[0]), k, facts, depth + 1)]
    if o == 'sym':
        return [(k, [el(t, i) for i in range(n)])]
    raise Undecided('queue content ' + o)


def restrict(t, atom, val):
    """t under atom = val, at the top of the diagram"""
    if isinstance(t, T_) and t.op == 'ite' and t.args[0] is atom:
        return restrict(t.args[1 if val else 2], atom, val)
    return t


def lists_agree(c, rep, text, wh, got, want, cond):
    """never, under cond: got ([(k, list)]) is another list than want"""
    bad = FALSE
    what = ''
    for k, l in got:
        kk = band(k, cond)
        if kk is FALSE:
            continue
        if l is None or len(l) != len(want):
            bad = bor(bad, kk)
            what = 'holds %s entries, expected %d' % (None if l is None else len(l), len(want))
            continue
        for i, (x, y) in enumerate(zip(l, want)):
            if x is y:
                continue
            d = differ(kk, x, y)
            if d is not FALSE:
                bad = bor(bad, d)
                what = 'entry %d is %s, expected %s' % (i, show(x)[:120], show(y)[:120])
    never(c, rep, text, wh, bad, what)


def caps(K):
    """entries kept for a maximum history of K ms"""
    return {BLOCK: K // 100, SHORT: K // 3000}


def c20_push(mode, K, T1, which, ns):
    """a due block joins the history as its newest entry; the oldest leaves exactly when the history is full"""
    def run(c, rep, tier):
        N = caps(K)[which]
        q = 'loudness_momentary' if which == BLOCK else 'loudness_shortterm'
        a0 = at(c, 1, 16, mode, T1 - 1, [1])
        wh = where(c, 'add_frames_f64')
        for n in ns(N):
            for first in (True, False):
                # the maximum set before or after the history was filled
                if first:
                    a = a0.copy()
                    a.must('set_max_history', [num(K)])
                    a, s = lengths(a, {which: n})
                    base = [el(s[which], i) for i in range(n)]
                else:
                    a, s = lengths(a0, {which: n + 2})
                    a.must('set_max_history', [num(K)])
                    base = [el(s[which], i) for i in range(n + 2)][max(0, n + 2 - N):]
                a.feed(frames('f64', T1 - 1, T1, 1))
                ok, e, v = loudness(a, q)
                text = 'mode %d, at most %d ms, %d entries %s: ' % (mode, K, n if first else n + 2, 'then' if first else 'before the maximum is set')
                if e is None:
                    rep.ob(text + 'energy', 'undecided', wh)
                    continue
                h = hist(a, which)
                got = listing(h[1], h[2])
                above = fcomp('fle', fconst(GATE * 1.000001), e)
                below = fcomp('flt', e, fconst(GATE * .999999))
                lists_agree(c, rep, text + 'a block is added as the newest entry, only a full history loses its oldest', wh, got, (base + [e])[-N:] if N else [], above)
                lists_agree(c, rep, text + 'a block below the absolute gate changes nothing', wh, got, base, below)
    return run


def c20_two(c, rep, tier):
    """two blocks in one call: two entries"""
    for mode, T0, T1, which in ((5, 9, 12, BLOCK), (15, 59, 60, SHORT)):
        a = at(c, 1, 16, mode, T0, [1])
        a, s = lengths(a, {BLOCK: 2} if mode == 5 else {BLOCK: 2, SHORT: 2})
        b = a.copy()
        a.feed(frames('f64', T0, T1, 1))
        es = []
        for t in range(T0, T1):
            b.feed(frames('f64', t, t + 1, 1))
            if due(t + 1, 2) if which == BLOCK else sdue(t + 1, 2):
                es.append(loudness(b, 'loudness_momentary' if which == BLOCK else 'loudness_shortterm')[1])
        wh = where(c, 'add_frames_f64')
        if any(e is None for e in es):
            rep.ob('several blocks at once: energies', 'undecided', wh)
            continue
        h = hist(a, which)
        got = listing(h[1], h[2])
        k = TRUE
        for e in es:
            k = band(k, fcomp('fle', fconst(GATE * 1.000001), e))
        lists_agree(c, rep, 'mode %d, %d frames at once: each of the %d blocks is one entry, in order' % (mode, T1 - T0, len(es)), wh, got, [el(s[which], i) for i in range(2)] + es, k)


def c20_shrink(c, rep, tier):
    """set_max_history keeps the most recent entries and adds nothing"""
    wh = where(c, 'set_max_history')
    top = 14 if tier == 'thorough' else 8
    for mode, Ks in ((5, (400, 401, 500, 799, 1000, 100000)), (15, (3000, 5999, 6000, 9000, 12345))):
        a0 = analyzer(c, 1, 16, mode, [1], fresh=False)
        # any maximum above the lengths used, as left by earlier calls
        for K in Ks:
            for n in range(0, top):
                lens = {BLOCK: n, SHORT: n} if mode == 15 else {BLOCK: n}
                a, s = lengths(a0, lens)
                a.st.facts = a.st.facts.copy()
                r = a.must('set_max_history', [num(K)])
                # from another maximum: the same one leaves everything as it is (C09)
                for w in lens:
                    N = caps(K)[w]
                    h = hist(a, w)
                    old = [el(s[w], i) for i in range(n)]
                    g = getval(c, 'max_history', a0.ref, a0.st)
                    cond = bnot(eq(g, num(K))) if isinstance(g, T_) else TRUE
                    lists_agree(c, rep, 'mode %d: set_max_history(%d) on %d entries of %s keeps the newest %d' % (mode, K, n, w, min(n, N)), wh, listing(h[1], h[2]), old[max(0, n - N):], cond)
                    lists_agree(c, rep, 'mode %d: set_max_history(%d) when that is the maximum leaves %d entries of %s' % (mode, K, n, w), wh,
                                listing(h[1], h[2]), old, eq(g, num(K)) if n <= N else FALSE)


def c20_others(c, rep, tier):
    """every other operation leaves a history as it is or empties it"""
    for mode in (5, 15, 79):
        for name, f in sorted(c.mutators().items()):
            if name == 'set_max_history' or name.startswith('add_frames'):
                continue
            if name.startswith('seed_frames'):
                a = at(c, 1, 16, mode, 59, [1])
            else:
                a = analyzer(c, 1, 16, mode, [1], fresh=False)
            if mode != 79:
                a, s = lengths(a, {BLOCK: 3, SHORT: 2})
            b = a.copy()
            wh = where(c, name)
            try:
                if name.startswith('seed_frames'):
                    fmt, pl = name.split('_')[-1], '_planar_' in name
                    b.feed(frames(fmt, 59, 60, 1), fmt, pl, True)
                else:
                    args = []
                    for i in range(2, f['nargs'] + 1):
                        args.append(c.E.opq('sym', ('arg%d' % i,), f['locals'][i]))
                    b.call(name, args, unroll=8)
            except (Undecided, Missing) as e:
                rep.ob('mode %d: %s leaves the histories or empties them' % (mode, name), 'undecided', wh, str(e))
                continue
            for w in (BLOCK, SHORT):
                text = 'mode %d: %s leaves %s or empties it' % (mode, name, w)
                h0, h1 = hist(a, w), hist(b, w)
                if h0[0] == 'q':
                    try:
                        got = listing(h1[1], h1[2])
                    except Undecided as e:
                        rep.ob(text, 'undecided', wh, str(e))
                        continue
                    n = {BLOCK: 3, SHORT: 2}[w]
                    old = [el(s[w], i) for i in range(n)]
                    bad = FALSE
                    for k, l in got:
                        if l != [] and l != old:
                            bad = bor(bad, k)
                    never(c, rep, text, wh, bad)
                else:
                    j = sym('bin', 'i', 0, 999)
                    x, y = c.E.arr_get(h0[1], j, a.st.facts), c.E.arr_get(h1[1], j, b.st.facts)
                    if not isinstance(x, T_) or not isinstance(y, T_):
                        rep.ob(text, 'undecided', wh)
                        continue
                    never(c, rep, text, wh, band(differ(TRUE, x, y), differ(TRUE, y, ZERO)), tries=60)


def c20_hist(mode, T1, which):
    """a due block is one more count in one bin"""
    def run(c, rep, tier):
        q = 'loudness_momentary' if which == BLOCK else 'loudness_shortterm'
        b4 = at(c, 1, 16, mode, T1 - 1, [1])
        a = b4.copy()
        a.feed(frames('f64', T1 - 1, T1, 1))
        wh = where(c, 'add_frames_f64')
        ok, e, v = loudness(a, q)
        text = 'a block counts once in one bin of %s, below the absolute gate nowhere' % which
        if e is None:
            return rep.ob(text, 'undecided', wh)
        bin_cases(c, rep, wh, [(text, lambda p, got: list(got.values()) == [1] if p >= GATE * (1 + 1e-9) else not got)], a, hist(b4, which), hist(a, which), e, 1 if tier == 'thorough' else 3)
    return run


# ---------------------------------------------------------------- C26
class Place(float):
    """an energy known by its place among constants: only comparable"""

    def bad(self, *a):
        raise LV.Unk('computed from the energy')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = bad


def bin_cases(c, rep, wh, items, a, before, after, e, every=1):
    """items: [(obligation, good(place, {bin: change}))] for every place of the energy e among the constants it meets"""
    if before[0] != 'h' or after[0] != 'h':
        raise Undecided('not a histogram')
    b = before[1].a[2]
    if before[1].a[3] or b[0] != 'o':
        raise Undecided('bins')
    b = b[1]
    x = sym('blockenergy', 'f')

    def sub_(t):
        return gsubst(t, {e: x})
    new = [o for o in after[1].a[3]]
    if any(o[0] != 'p' for o in new) or after[1].a[2] != before[1].a[2]:
        raise Undecided('bins')
    ar = mkv('Ar', after[1].a[0], after[1].a[1], after[1].a[2], tuple(('p', sub_(o[1]), sub_(o[2])) for o in new))
    ps = places(consts_of(tuple(y for o in ar.a[3] for y in o[1:])))
    for sure in (True, False):
        left = list(items)
        for p in (ps[::every] if sure else ps):
            ev = LV.LinEv(noleaf, {b: 0}, fx={x: Place(p) if sure else p})
            got = {}
            try:
                for o in ar.a[3]:
                    i = ev.get(o[1])
                    if not 0 <= i < NBINS:
                        raise LV.Unk('bin %d' % i)
                    y = ev.elem(ar, i, 'i')
                    d = y - Lin({i: 1})
                    if d != 0 or isinstance(d, Lin):
                        got[i] = d
            except LV.Unk as ex:
                if sure:
                    break
                continue
            for it in list(left):
                if not it[1](p, got):
                    left.remove(it)
                    rep.ob(it[0], 'refuted', wh, 'counts %s' % got, 'a block of energy %r' % p)
        else:
            for it in left:
                rep.ob(it[0], 'proved' if sure else 'undecided', wh)
            return


def c26_bin(mode, T1, which):
    def run(c, rep, tier):
        q = 'loudness_momentary' if which == BLOCK else 'loudness_shortterm'
        b4 = at(c, 1, 16, mode, T1 - 1, [1])
        a = b4.copy()
        a.feed(frames('f64', T1 - 1, T1, 1))
        wh = where(c, 'add_frames_f64')
        ok, e, v = loudness(a, q)
        if e is None:
            return rep.ob('energy of %s' % which, 'undecided', wh)

        def expected(p):
            if p < GATE * (1 - BINTOL):
                return None
            i = int(math.floor((10 * math.log10(p) - .691 + 70) * 10))
            for j in (i + 1, i, i - 1):
                if j >= 0 and p >= bound(j) * (1 - BINTOL):
                    return min(j, 999)
            return 0

        h0, h1 = hist(b4, which), hist(a, which)

        def inbin(lo, hi):
            def good(p, got):
                j = expected(p)
                return j is None or not lo <= j < hi or list(got) == [j]
            return good
        items = [('%s: an energy of bin %d to %d (of 0.1 LU from -70 LUFS) counts in that bin' % (which, k, k + 99), inbin(k, k + 100)) for k in range(0, 900, 100)]
        items.append(('%s: an energy of bin 900 to 999 counts in that bin, one above the top in the last' % which, inbin(900, 1000)))
        items.append(('%s: an energy below -70 LUFS counts in no bin' % which, lambda p, got: expected(p) is not None or not got))
        ln = h0[1].a[1]
        rep.ob('%s has 1000 bins' % which, 'proved' if ln is num(NBINS) else 'refuted' if ln.op == 'int' else 'undecided', wh, show(ln)[:100])
        bin_cases(c, rep, wh, items, a, h0, h1, e)
    return run


def c26_energy(c, rep, tier):
    """the energy a bin stands for is that of its centre"""
    a = harr(c)
    b = bins_of(a, BLOCK)
    ok, v = a.q('relative_threshold')
    wh = where(c, 'relative_threshold')
    try:
        x = LV.LinEv(noleaf, {b: 0}).get(v)
        while isinstance(x, Fx):
            x = x.a[0]
        if not isinstance(x, Quot) or not isinstance(x.d, Lin):
            raise LV.Unk('form of relative_threshold')
        k = x.d.c[0]
        for lo in range(0, NBINS, 100):
            text = 'bins %d to %d stand for the energy at their centre' % (lo, lo + 99)
            bad = [i for i in range(lo, lo + 100) if not same(x.n.c.get(i, 0) / k * 10, centre(i), BINTOL) or not abs(x.n.c.get(i, 0) / k * 10 - centre(i)) <= BINTOL * centre(i)]
            if bad:
                i = bad[0]
                rep.ob(text, 'refuted', wh, 'bin %d stands for %r, its centre is %r' % (i, x.n.c.get(i, 0) / k * 10, centre(i)), 'bin %d' % i)
            else:
                rep.ob(text, 'proved', wh)
    except LV.Unk as ex:
        rep.ob('bins stand for the energy at their centre', 'undecided', wh, str(ex))
    # the range uses the same energies: one block in each of two bins
    for which, name in ((BLOCK, 'loudness_global'), (SHORT, 'loudness_range')):
        bb = bins_of(a, which)
        ok, v = a.q(name)
        wh = where(c, name)
        text = '%s takes the energy at the centre of each bin' % name
        bad = why = None
        for i in range(NBINS):
            l = [0] * NBINS
            l[i] = 1
            m = max(0, i - 150)
            if which == SHORT:
                l[m] += 1
            try:
                y = numev.NumEv(Leaves({}, {bb: l})).get(v)
            except numev.Unk as ex:
                why = str(ex)
                break
            want = o_lufs(centre(i)) if which == BLOCK else o_lufs(centre(i)) - o_lufs(centre(m))
            if not same(y, want, 1e-8):
                bad = (i, y, want)
                break
        if bad:
            rep.ob(text, 'refuted', wh, 'is %r, expected %r' % bad[1:], 'a block in bin %d' % bad[0])
        else:
            rep.ob(text, 'undecided' if why else 'proved', wh, why or '')


# ---------------------------------------------------------------- C22
def zero_const(bases, v):
    """the value of a term when the bins over the given bases are all zero; None if it has other inputs"""
    def leaf(ev, t):
        if t.op == 'sel' and t.args[0] in bases:
            return 0
        raise numev.Unk(show(t)[:60])
    try:
        return numev.NumEv(leaf).get(v)
    except numev.Unk as e:
        return None


def emptied(a):
    """(the analyzer with empty queues, bases of its histogram bins)"""
    lens, zb = {}, []
    for w in (BLOCK, SHORT):
        h = hist(a, w)
        if h[0] == 'q':
            lens[w] = 0
        elif h[1].a[3] or h[1].a[2][0] != 'o':
            raise Undecided('bins')
        else:
            zb.append(h[1].a[2][1])
    if lens:
        a, s = lengths(a, lens)
    return a, zb


EMPTY = (('loudness_global', 4, -math.inf), ('relative_threshold', 4, -70.0), ('loudness_range', 8, 0.0))
QUIET = (('loudness_momentary', 1, []), ('loudness_shortterm', 2, []), ('loudness_window', 1, [num(100)]))


def isval(c, rep, text, wh, ok, v, want, zb=()):
    never(c, rep, text + ' is available', wh, bnot(ok))
    if v.op == 'flt':
        x = fval(v)
        rep.ob(text, 'proved' if same(x, want) else 'refuted', wh, 'is %r, expected %r' % (x, want), 'no blocks')
        return
    x = zero_const(zb, v)
    if x is not None:
        rep.ob(text, 'proved' if same(x, want) else 'refuted', wh, 'is %r, expected %r' % (x, want), 'no blocks')
        return
    d = differ(TRUE, v, fconst(want))
    never(c, rep, text, wh, d, show(v)[:200])


def c22_empty(modes, chans):
    def run(c, rep, tier):
        for mode in modes:
            for C in chans:
                for fresh in (True, False):
                    a = analyzer(c, C, 16, mode, None, fresh=fresh)
                    a.unroll = 8
                    zb = ()
                    if not fresh:
                        a, zb = emptied(a)
                        a.unroll = 8
                    base = 'mode 0x%x, %d channels, %s: ' % (mode, C, 'new' if fresh else 'any state without blocks')
                    for q, m, want in EMPTY:
                        if mode & m:
                            ok, v = a.q(q)
                            isval(c, rep, base + q + ' is %r' % want, where(c, q), ok, v, want, zb)
                    if mode & 4 and c.method('gating_block_count_and_energy', False):
                        wh = where(c, 'gating_block_count_and_energy')
                        ok, some, k, e = count_energy(c, a)
                        never(c, rep, base + 'gating_block_count_and_energy is available', wh, bnot(ok))
                        text = base + 'gating_block_count_and_energy gives nothing'
                        x = zero_const(zb, some)
                        if some is FALSE or x is not None:
                            rep.ob(text, 'refuted' if x else 'proved', wh, '', 'no blocks')
                        else:
                            never(c, rep, text, wh, some)
                    if fresh:
                        for q, m, args in QUIET:
                            if mode & m == m:
                                ok, v = a.q(q, args)
                                isval(c, rep, base + q + ' is -inf', where(c, q), ok, v, -math.inf)
    return run


def c22_energy(c, rep, tier):
    """the loudness of a measured energy: minus infinity at zero, defined above"""
    for C, T, mode in ((1, 9, 3), (2, 10, 3), (3, 65, 3)):
        a = at(c, C, 16, mode, T, [1, 2, 4][:C])
        for q, m, args in QUIET:
            ok, e, v = loudness(a, q, args)
            wh = where(c, q)
            base = '%d channels, %d frames: %s ' % (C, T, q)
            if e is None:
                rep.ob(base + 'of an energy', 'undecided', wh)
                continue
            x = sym('energy', 'f')
            w = gsubst(v, {e: x})
            z = gsubst(v, {e: fconst(0.0)})
            isval(c, rep, base + 'of zero energy is -inf', wh, ok, z, -math.inf)
            equalv(c, rep, base + 'of a positive energy is 10 log10(energy) - 0.691', wh, w, lufs(x), fcomp('flt', fconst(0.0), x))


def c22_multi(c, rep, tier):
    for mode in (15, 79):
        for n in (0, 1, 2, 3):
            obs, zb = [], []
            for i in range(max(n, 1)):
                o = CObj(c, name='abc'[i], ch=1, rate=16, mode=mode)
                z, b = emptied(An(c, o.ref, o.st, 1))
                zb += b
                o.st = z.st
                obs.append(o)
            for name, want in (('ebur128_loudness_global_multiple', -math.inf), ('ebur128_loudness_range_multiple', 0.0)):
                text = '%s over %d instances without blocks (mode 0x%x) is %r' % (name, n, mode, want)
                if n == 0:
                    f, r, oreg = multi_none(c, name, obs[0])
                else:
                    f, r, oreg, x0, st = multi_run(c, name, obs, 8)
                wh = '%s (%s)' % (f['path'], span(f))
                if r.st is None:
                    rep.ob(text, 'undecided', wh, 'no exit')
                    continue
                code = r.v
                never(c, rep, text + ': succeeds', wh, bnot(eq(code, ZERO)))
                isval(c, rep, text, wh, TRUE, r.st.mem[oreg], want, zb)


def multi_none(c, name, o):
    """the query over an empty list"""
    from rules_capi import outptr
    f = c.cfn(name)
    E = c.E
    st = o.st.copy()
    pt = E.pointee(f['locals'][1])
    reg = region(('cstates', 0, (o.reg,)), None, None, 'states')
    st.mem[reg] = E.mkarr(pt, [o.ptr])
    op, oreg, x0 = outptr(c, st, f['locals'][3])
    r = c.run(f, [Rf(reg, (('x', ZERO),)), ZERO, op], st, unroll=8)
    return f, r, oreg


few = lambda N: sorted({0, 1, max(0, N - 1), N})
every_n = lambda N: range(0, min(N, 12) + 1)
C20 = [('entries, mode 5, 400 ms', tiered(c20_push(5, 400, 10, BLOCK, few), c20_push(5, 400, 10, BLOCK, every_n))),
       ('entries, mode 5, 750 ms', tiered(c20_push(5, 750, 12, BLOCK, few), c20_push(5, 750, 12, BLOCK, every_n))),
       ('entries, mode 15, 3000 ms', c20_push(15, 3000, 60, SHORT, few)),
       ('entries, mode 15, 7000 ms', c20_push(15, 7000, 80, SHORT, few)),
       ('several blocks at once', c20_two), ('smaller maximum', c20_shrink), ('other operations', c20_others),
       ('histogram blocks', c20_hist(79, 10, BLOCK)), ('histogram short-term blocks', c20_hist(79, 60, SHORT))]
C22 = [('modes %s' % (ms,), tiered(c22_empty(ms, (1, 2)), c22_empty(ms, (1, 2, 3, 6)))) for ms in ((5, 15), (0x7f, 0x3f), (0x4f, 0x45), (1, 3, 0x33, 0x11))] + [
    ('energies', c22_energy), ('several instances', c22_multi)]
C26 = [('bins of blocks', c26_bin(79, 10, BLOCK)), ('bins of short-term blocks', c26_bin(79, 60, SHORT)), ('bin energies', c26_energy)]
