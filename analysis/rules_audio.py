"""Processing rules over specialised transfer functions (see stf.py): C05, C07, C10, C11, C18-C22, C24, C25.

The oracle is built from the public interface itself: W(t), the energy `loudness_window` reports over a window
of one frame right after frame t, is the contribution of that frame.  A window energy over n frames has to be the
mean of the last n of them, a measured block has to be the window energy at the time it is taken, and so on."""
from stf import *

GATE = 10.0 ** ((-70.0 + 0.691) / 10.0)
BLOCK, SHORT = 'block_energy_history', 'short_term_block_energy_history'


def ss_of(rate):
    return (rate + 5) // 10


def one_frame_ms(rate):
    ms = -(-1000 // rate)
    return ms if ms * rate // 1000 == 1 else None


def where(c, name):
    f = c.method(name)
    return '%s (%s)' % (f['path'], span(f))


# ---------------------------------------------------------------- histories
def hist(a, which):
    """('q', content, length) or ('h', counts array) of a history of the analyzer"""
    c = a.c
    v = a.val()
    t = c.E.ty(v.a[0])['v'][0]['f']
    names = [x[0] for x in t]
    if which in names:
        h = v.a[1][names.index(which)]
    else:
        hs = [x for x, (n, tt) in zip(v.a[1], t) if c.E.ty(tt)['k'] == 'adt' and c.E.ty(tt)['n'].endswith('History')]
        if len(hs) != 2:
            raise Undecided('history fields')
        h = hs[0 if which == BLOCK else 1]
    h = c.exp(h)
    found = []

    def go(x, d=0):
        if isinstance(x, T_) or x is None or d > 8:
            return
        x = c.exp(x)
        if x.k == 'Dq':
            found.append(('q', x.a[0], x.a[1]))
        elif x.k == 'Ar':
            found.append(('h', x))
        elif x.k == 'St':
            for y in x.a[1]:
                go(y, d + 1)
        elif x.k == 'En':
            if x.a[1].op == 'int':
                for y in x.a[2][x.a[1].args[0]] or ():
                    go(y, d + 1)
            else:
                raise Undecided('history form depends on the state')
        elif x.k == 'Rf':
            go(c.E.readloc(c.E.deref(x, a.st), a.st), d + 1)
        elif x.k == 'Vc':
            go(a.st.get(x.a[0]), d + 1)
        elif x.k == 'Sl':
            go(a.st.get(x.a[0]), d + 1)
        else:
            raise Undecided('history value %s' % x.k)
    go(h)
    if len(found) != 1:
        raise Undecided('history content')
    return found[0]


def chain(t, base):
    """values appended to the sequence base to give t (oldest first), or None"""
    out = []
    n = 0
    while t is not base:
        n += 1
        if n > 64:
            return None
        if t.op == 'dqpush':
            out.append(t.args[1])
            t = t.args[0]
        elif t.op == 'dqdrop' and t.args[1] == 'f':
            t = t.args[0]
        else:
            return None
    return out[::-1]


def pushed(before, after):
    """[(condition, [values])] leading from one queue content to the next"""
    if before[0] != 'q' or after[0] != 'q':
        raise Undecided('not a queue')
    out = []
    b, t = before[1], after[1]
    if b.op == 'ite':
        raise Undecided('queue content before the call')

    def go(x, k):
        if x.op == 'ite':
            at = batom(x.args[0])
            go(x.args[1], band(k, at))
            go(x.args[2], band(k, bnot(at)))
            return
        l = chain(x, b)
        if l is None:
            raise Undecided('queue content %s' % show(x)[:100])
        out.append((k, l))
    go(t, TRUE)
    r = {}
    for k, l in out:
        r[tuple(l)] = bor(r.get(tuple(l), FALSE), k)
    return [(k, list(l)) for l, k in r.items()]


def changed(c, a, before, after):
    """condition (over a free bin index j) under which the history changed"""
    if before[0] == 'q':
        return bor(differ(TRUE, before[1], after[1]) if before[1] is not after[1] else FALSE, differ(TRUE, before[2], after[2]))
    if before[1] is after[1]:
        return FALSE
    j = sym('bin', 'i', 0, 999)
    x, y = c.E.arr_get(before[1], j, a.st.facts), c.E.arr_get(after[1], j, a.st.facts)
    if not isinstance(x, T_) or not isinstance(y, T_):
        raise Undecided('histogram bins')
    return differ(TRUE, x, y)


# ---------------------------------------------------------------- sample values that pass or miss the gates
def loud(r, t):
    return r.choice((1, -1)) * r.uniform(.05, 1.)


def quiet(r, t):
    return r.uniform(-1, 1) * 1e-6


def tiny(r, t):
    return r.choice((1, -1)) * r.uniform(.3, 1.) * 10.0 ** -r.choice((8, 12, 12, 15, 15, 20, 40))


def mixed(r, t):
    return loud(r, t) if r.random() < .5 else quiet(r, t)


def pools(k):
    return (loud, quiet, mixed)[k % 3]


def anypool():
    """samples of one of several magnitudes per trial"""
    st = {}

    def f(r, t):
        if st.get('r') is not r or r.random() < 0:
            st['r'] = r
        return r.choice((1, -1)) * r.uniform(.3, 1.) * st.setdefault('m', r.choice((1., 1e-1, 1e-2, 1e-4)))
    return f


def nwit(cond, tries=24, **kw):
    """a witness for cond at different signal levels"""
    for k, p in enumerate((loud, mixed, quiet, tiny)):
        w = nholds(cond, tries // 4 + 1, p, seed=1 + k, **kw)
        if w is not None:
            return w
    return None


def nodiff(a, b, cond=TRUE, tries=12, tol=1e-9, **kw):
    """(witness, folded at least once)"""
    got = False
    for k, p in enumerate((loud, mixed, quiet, tiny)):
        w = ndiffer(a, b, cond, tries // 4 + 1, tol, p, seed=1 + k, **kw)
        if w is Unk:
            continue
        got = True
        if w is not None:
            return w, True
    return None, got


def equalv(c, rep, text, wh, a, b, cond=TRUE, tol=1e-9, tries=12, detail=''):
    """obligation: a and b are equal numbers whenever cond holds"""
    if a is b or cond is FALSE:
        return rep.ob(text, 'proved', wh)
    if not isinstance(a, T_) or not isinstance(b, T_):
        return rep.ob(text, 'undecided', wh)
    if a.sort == b.sort and differ(cond, a, b) is FALSE:
        return rep.ob(text, 'proved', wh)
    w, got = nodiff(a, b, cond, tries, tol)
    if w is not None:
        return rep.ob(text, 'refuted', wh, 'is %r, expected %r %s' % (w.xy[0], w.xy[1], detail), w)
    if got and (samemax(a, b) or eqpaths(c, cond, a, b)):
        return rep.ob(text, 'proved', wh)
    return rep.ob(text, 'undecided', wh, 'is %s, expected %s %s' % (show(a)[:200], show(b)[:200], detail))


def samemax(a, b):
    """both are the maximum of the same terms"""
    if a.op != 'ite' or b.op != 'ite' or a.sort != 'f':
        return False
    x = maxof(a)
    return x is not None and x == maxof(b)


def never(c, rep, text, wh, cond, detail='', tries=24, tolerant=None):
    """tolerant: a slightly stronger condition that a violation has to meet (rounding)"""
    if cond is FALSE:
        return rep.ob(text, 'proved', wh)
    w = nwit(cond if tolerant is None else tolerant, tries)
    if w is not None:
        return rep.ob(text, 'refuted', wh, detail, w)
    try:
        ps = pairs(cond, TRUE, FALSE, 2000)
    except OverflowError:
        return rep.ob(text, 'undecided', wh, detail)
    if all(order_contradiction(l) for l, x, y in ps):
        return rep.ob(text, 'proved', wh)
    return rep.ob(text, 'undecided', wh, detail or show(cond)[:200])


def fsum(ts):
    r = fconst(0.0)
    for t in ts:
        r = fop('add', r, t)
    return r


def scaled(t, k):
    return fop('mul', t, fconst(float(k)))


def mean(ts, n):
    return fop('div', fsum(ts), fconst(float(n)))


def loudness(a, name, args=()):
    """(ok condition, energy inside, loudness value)"""
    ok, v = a.q(name, args)
    es = energy(v)
    if len(es) > 1:
        es = {e for e in es if fval(e) is None}
    return ok, (list(es)[0] if len(es) == 1 else None), v


def win(a, ms, C=None):
    """energy of the last frames: loudness_window(ms), as energy"""
    ok, e, v = loudness(a, 'loudness_window', [num(ms)])
    if ok is not TRUE:
        raise Undecided('loudness_window refuses %d ms' % ms)
    if e is None:
        # the energy is zero for certain
        if fval(v) == float('-inf'):
            return fconst(0.0)
        raise Undecided('energy inside loudness_window')
    return e


def due(now, ss):
    return now >= 4 * ss and now % ss == 0


def sdue(now, ss):
    return now >= 30 * ss and now % (10 * ss) == 0


# ---------------------------------------------------------------- C19
def c19_windows(rate, C, mode, T0, steps, fresh=False, types=None):
    """momentary, short-term and window loudness are means of the last frames' contributions"""
    def run(c, rep, tier):
        ss = ss_of(rate)
        ty = types or [1] * C
        ms1 = one_frame_ms(rate)
        if ms1 is None:
            raise Undecided('no window of one frame at %d Hz' % rate)
        a = analyzer(c, C, rate, mode, ty) if fresh else at(c, C, rate, mode, T0, ty)
        W = {}
        S = mode & 2
        base = '%d Hz, %d channels, mode %d' % (rate, C, mode)
        ws = [(4 * ss, 'loudness_momentary', [])] + ([(30 * ss, 'loudness_shortterm', [])] if S else [])
        cap = (30 if S else 4) * ss
        for ms in (100, 250, 400) + ((1000, 2999, 3000) if S else ()):
            n = rate * ms // 1000
            if 0 < n <= cap:
                ws.append((n, 'loudness_window', [num(ms)]))
        last = T0 + steps
        for t in range(T0, last):
            a.feed(frames('f64', t, t + 1, C))
            W[t + 1] = win(a, ms1)
            now = t + 1
            for n, q, args in ws:
                full = now - n >= T0
                if not full and not fresh:
                    continue
                if fresh and tier != 'thorough' and not (now <= 2 or now - 4 * ss in (-1, 0, 1) or now - 30 * ss in (-1, 0, 1) or now == last):
                    continue
                if not (now == last or now % 7 == 0 or now - T0 <= 4 or now % ss == 0 and now < 6 * ss):
                    continue
                ok, e, v = loudness(a, q, args)
                wh = where(c, q)
                what = '%s%s' % (q, '(%d)' % args[0].args[0] if args else '')
                never(c, rep, '%s: %s is available after %d frames' % (base, what, now), wh, bnot(ok))
                if e is None:
                    rep.ob('%s: energy of %s' % (base, what), 'undecided', wh)
                    continue
                want = mean([W[k] for k in range(max(now - n, T0) + 1, now + 1)], n)
                equalv(c, rep, '%s: %s after %d frames covers the last %d frames' % (base, what, now, n), wh, e, want)
        # beyond the buffer
        big = [(cap * 1000) // rate + 500, 4294967295]
        for ms in big:
            ok, v = a.q('loudness_window', [num(ms)])
            never(c, rep, '%s: a window of %d ms is refused' % (base, ms), where(c, 'loudness_window'), ok)
    return run


def c19_limit(rate, C, mode):
    """loudness_window is available exactly up to the length of the buffer"""
    def run(c, rep, tier):
        c.E.steps = 0
        a = analyzer(c, C, rate, mode, [1] * C, fresh=False)
        w = sym('window_ms', 'i', 0, U32_MAX)
        cap = (30 if mode & 2 else 4) * ss_of(rate)
        f = c.method('loudness_window')
        r = c.run(f, [a.ref, w], a.st, unroll=C + 2)
        if r.st is None:
            raise Undecided('loudness_window has no exit')
        wh = where(c, 'loudness_window')
        base = '%d Hz, %d channels, mode 0x%x: ' % (rate, C, mode)
        tag, ok, et = c.result(r.v)
        ok = eq(tag, ZERO)
        n = div(mul(num(rate), w), num(1000))
        pool = [x for f_ in (cap, cap + 1, cap - 1, cap + ss_of(rate)) for x in (f_ * 1000 // rate, f_ * 1000 // rate + 1)] + [0, 1, U32_MAX, 400, 3000]
        pc = r.st.pc
        for text, k in (('a window longer than %d frames is refused' % cap, band(ok, lt(num(cap), n))), ('a window of at most %d frames is not refused' % cap, band(bnot(ok), le(n, num(cap))))):
            s, ev = c.never(band(pc, k), r.st.facts, pool, 150)
            if s == 'undecided':
                # without the conditions of not panicking, which may be about loop states (a panic is no answer either)
                ev = search(band(a.st.pc, k), None, 150, 1, pool)
                s = 'refuted' if ev is not None else s
            rep.ob(base + text, s, wh, '', ev)
    return run


def c19_schedule(rate, C, mode, Ts, types=None):
    """blocks are measured exactly when due, over exactly the due window"""
    def run(c, rep, tier):
        ss = ss_of(rate)
        ty = types or [1] * C
        base = '%d Hz, %d channels, mode %d' % (rate, C, mode)
        wh = where(c, 'add_frames_f64')
        for T0 in Ts:
            a = at(c, C, rate, mode, T0, ty)
            h0 = {w: hist(a, w) for w in (BLOCK, SHORT)}
            a.feed(frames('f64', T0, T0 + 1, C))
            now = T0 + 1
            for w, d, on, q, wn in ((BLOCK, due(now, ss), mode & 4, 'loudness_momentary', 'gating'), (SHORT, sdue(now, ss), mode & 8, 'loudness_shortterm', 'short-term')):
                h1 = hist(a, w)
                ch = changed(c, a, h0[w], h1)
                if not d or not on:
                    never(c, rep, '%s: no %s block is taken after frame %d' % (base, wn, now), wh, ch)
                    continue
                ok, e, v = loudness(a, q)
                if e is None:
                    rep.ob('%s: energy of the %s block at frame %d' % (base, wn, now), 'undecided', wh)
                    continue
                above = fcomp('fle', fconst(GATE * 1.000001), e)
                below = fcomp('flt', e, fconst(GATE * 0.999999))
                if h0[w][0] == 'h':
                    histo(c, rep, a, h0[w][1], h1[1], e, above, below, '%s: %s block after frame %d' % (base, wn, now), wh)
                    continue
                ps = pushed(h0[w], h1)
                for k, l in ps:
                    if not l:
                        never(c, rep, '%s: a %s block is taken after frame %d' % (base, wn, now), wh, band(k, above), 'no block is taken')
                    elif len(l) > 1:
                        never(c, rep, '%s: one %s block is taken after frame %d' % (base, wn, now), wh, k, '%d blocks are taken' % len(l))
                    else:
                        equalv(c, rep, '%s: the %s block taken after frame %d has the energy %s then reports' % (base, wn, now, q), wh, l[0], e, k)
                        never(c, rep, '%s: a %s block below -70 LUFS is not recorded (frame %d)' % (base, wn, now), wh, band(k, below), 'recorded')
    return run


def histo(c, rep, a, before, after, e, above, below, base, wh):
    j = sym('bin', 'i', 0, 999)
    x, y = c.E.arr_get(before, j, a.st.facts), c.E.arr_get(after, j, a.st.facts)
    if not isinstance(x, T_) or not isinstance(y, T_):
        raise Undecided('histogram bins')
    ch = differ(TRUE, x, y)
    up = differ(TRUE, y, add(x, ONE))
    never(c, rep, base + ': no bin changes by anything but one', wh, band(ch, up), tries=60)
    never(c, rep, base + ': below -70 LUFS nothing is counted', wh, band(ch, below), tries=60)
    # some bin takes the count
    ovs = after.a[3]
    if not ovs:
        return never(c, rep, base + ' is counted', wh, above, 'no bin changes')
    hits = FALSE
    for o in ovs:
        if o[0] == 'p':
            ix = o[1]
            p, q = c.E.arr_get(before, ix, a.st.facts), c.E.arr_get(after, ix, a.st.facts)
            hits = bor(hits, bnot(differ(TRUE, q, add(p, ONE))) if isinstance(p, T_) and isinstance(q, T_) else FALSE)
    never(c, rep, base + ' is counted', wh, band(above, bnot(hits)), 'no bin counts it')


def c19_tasks():
    out = []
    for what, a in (('16 Hz stereo', (16, 2, 15)), ('25 Hz', (25, 1, 15)), ('16 Hz histogram', (16, 1, 0x4f)), ('16 Hz without short-term', (16, 1, 5)), ('32 Hz', (32, 1, 15)), ('41 Hz', (41, 1, 15))):
        ss = ss_of(a[0])
        # every residue of the block interval, around the first blocks, the first short-term block and its next ones
        q = sorted(set(list(range(0, 5 * ss)) + list(range(30 * ss - 3, 30 * ss + 2)) + list(range(31 * ss - 1, 31 * ss + 1)) + list(range(40 * ss - 2, 40 * ss + 1))
                       + list(range(60 * ss - 1, 60 * ss + 1))))
        if a[0] > 25:
            q = [x for x in q if x % ss in (ss - 1, 0, 1)]
        t = list(range(0, 71 * ss)) if a[0] <= 25 else q
        if what.startswith('16 Hz hist'):
            q = [x for x in q if x % ss in (ss - 1, 0)]
        out.append(('schedule, %s' % what, tiered(c19_schedule(*a, q), c19_schedule(*a, t))))
    out.append(('length of windows', several([c19_limit(*x) for x in ((16, 1, 1), (1000, 3, 3), (44100, 2, 5), (48000, 1, 15), (48000, 6, 0x41), (192000, 2, 1), (2822400, 1, 7), (11025, 2, 1), (25, 1, 3))])))
    out.append(('windows, 16 Hz from the start', tiered(c19_windows(16, 1, 7, 0, 66, True), c19_windows(16, 1, 7, 0, 140, True))))
    out.append(('windows, 16 Hz stereo', tiered(c19_windows(16, 2, 5, 9, 14), c19_windows(16, 2, 5, 9, 40))))
    out.append(('windows, 25 Hz', tiered(c19_windows(25, 1, 1, 5, 20), c19_windows(25, 1, 1, 5, 60))))
    out.append(('windows, 16 Hz with types', tiered(c19_windows(16, 3, 1, 5, 14, types=[1, 0, 4]), c19_windows(16, 3, 1, 5, 40, types=[1, 0, 4]))))
    return out


# ---------------------------------------------------------------- C18
def prev_leaves(a):
    """symbols (initial contents) that the prev_* queries read: they cover one call only"""
    c = a.c
    out = set()
    for q in ('prev_sample_peak', 'prev_true_peak'):
        for k in range(a.C):
            try:
                ok, v = a.q(q, [num(k)])
            except Undecided:
                continue
            if ok is not FALSE:
                for l in leaves(v):
                    out |= syms(l)
    return out


def syms(t, acc=None, memo=None):
    """input symbols inside a term"""
    if memo is None:
        memo = set()
        acc = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T_):
            if isinstance(x, V):
                st.extend(x.a)
            continue
        if x in memo:
            continue
        memo.add(x)
        if x.op == 'sym':
            acc.add(x)
        else:
            st.extend(x.args)
    return acc


def leafname(l):
    return l.name


def prevnames(c, C, rate, mode, types):
    """names of the leaves read by prev_* queries"""
    mode |= 0x31
    key = ('prevn', C, rate, mode)
    if key in c.cache:
        return c.cache[key]
    ref, st, info = c.selfval(ch=C, rate=rate, mode=mode)
    a = An(c, ref, st, C)
    ss = {s.args[0] for s in prev_leaves(a)}
    o = {s.args[0] for q in ('sample_peak', 'true_peak') for k in range(C) for s in syms_q(a, q, k)}
    c.cache[key] = {n.split('.', 1)[1] for n in ss - o if '.' in n}
    return c.cache[key]


def syms_q(a, q, k):
    ok, v = a.q(q, [num(k)])
    return syms(v) if ok is not FALSE else ()


def isprev(l, names):
    n = l.name
    return any(n == p or n.startswith(p + '.') or n.startswith(p + '[') for p in names)


def cmpstate(c, rep, a, b, text, wh, skip=(), cond=TRUE, tol=1e-9):
    """every leaf of the two analyzers agrees"""
    ls = objdiff(c, a.ref, a.st, b.ref, b.st, cond)
    bad = 0
    for l in ls:
        if isprev(l, skip):
            continue
        if l.cond is FALSE:
            rep.ob('%s: %s' % (text, l.name), 'proved', wh)
            continue
        if l.cond is None:
            r = seqcmp(l.x, l.y)
            rep.ob('%s: %s' % (text, l.name), r or 'undecided', wh, 'is %s, expected %s' % (str(l.x)[:200], str(l.y)[:200]))
            continue
        w = None
        if isinstance(l.x, T_) and isinstance(l.y, T_):
            w, got = nodiff(l.x, l.y, cond, 9, tol(l.y) if callable(tol) else tol)
            if w is None and got and (samemax(l.x, l.y) or eqpaths(c, cond, l.x, l.y)):
                rep.ob('%s: %s' % (text, l.name), 'proved', wh)
                continue
        else:
            w = nwit(l.cond)
        rep.ob('%s: %s' % (text, l.name), 'refuted' if w is not None else 'undecided', wh,
               'is %s, expected %s' % (str(l.x)[:200], str(l.y)[:200]), w)
    return ls


def seqcmp(x, y):
    """contents of two queues: the same sequence of pushes on every path?"""
    if not isinstance(x, T_) or not isinstance(y, T_):
        return None
    if x is y:
        return 'proved'
    for lits, p, q in pairs(TRUE, x, y, 400):
        if p is q or order_contradiction(lits):
            continue
        bases = [root(p), root(q)]
        if bases[0] is not bases[1]:
            return None
        l1, l2 = chain(p, bases[0]), chain(q, bases[1])
        if l1 is None or l2 is None:
            return None
        if len(l1) != len(l2):
            k = TRUE
            for at, v in lits.items():
                k = band(k, batom(at) if v else bnot(batom(at)))
            w = nwit(k)
            if w is not None:
                return 'refuted'
            return None
        for u, v in zip(l1, l2):
            if u is v or linsame(u, v):
                continue
            w, got = nodiff(u, v)
            return 'refuted' if w is not None else None
    return 'proved'


def root(t):
    while t.op in ('dqpush', 'dqdrop'):
        t = t.args[0]
    return t


def c18_split(rate, C, mode, Ts, ns, fmt='f64', planar=False, types=None, seed=False):
    """one call with n frames = n calls with one frame"""
    def run(c, rep, tier):
        ty = types or [1] * C
        name = '%s_frames_%s%s' % ('seed' if seed else 'add', 'planar_' if planar else '', fmt)
        wh = where(c, name)
        base = '%s, %d Hz, %d channels, mode %d' % (name, rate, C, mode)
        pn = prevnames(c, C, rate, mode, ty)
        for T0 in Ts:
            a0 = at(c, C, rate, mode, T0, ty)
            for n in ns:
                one = a0.copy()
                for t in range(T0, T0 + n):
                    one.feed(frames(fmt, t, t + 1, C), fmt, planar, seed)
                many = a0.copy()
                many.feed(frames(fmt, T0, T0 + n, C), fmt, planar, seed)
                cmpstate(c, rep, many, one, '%s: %d frames from frame %d at once or one by one' % (base, n, T0), wh, pn)
                if n > 2:
                    two = a0.copy()
                    two.feed(frames(fmt, T0, T0 + n - 1, C), fmt, planar, seed)
                    two.feed(frames(fmt, T0 + n - 1, T0 + n, C), fmt, planar, seed)
                    cmpstate(c, rep, many, two, '%s: %d frames from frame %d at once or %d and then 1' % (base, n, T0, n - 1), wh, pn)
            # no frames: nothing changes
            z = a0.copy()
            z.feed([], fmt, planar, seed)
            cmpstate(c, rep, z, a0, '%s: a call without frames at frame %d' % (base, T0), wh, pn)
    return run


def tiered(quick, thorough):
    """arguments by tier"""
    def run(c, rep, tier):
        (thorough if tier == 'thorough' else quick)(c, rep, tier)
    return run


def c18_tasks():
    out = []
    Q = [0, 2, 5, 6, 7, 8, 57, 58, 59, 78, 79]
    for mode, C in ((15, 2), (7, 1), (0x4f, 1), (0x1b, 3)):
        out.append(('mode 0x%x, %d channels' % (mode, C), tiered(c18_split(16, C, mode, Q, [2, 3]), c18_split(16, C, mode, range(0, 122), [2, 3]))))
    out.append(('25 Hz', tiered(c18_split(25, 1, 15, [0, 10, 11, 88, 89, 90], [2, 3]), c18_split(25, 1, 15, range(0, 122), [2, 3]))))
    out.append(('sample peaks', tiered(c18_split(16, 2, 0x11, [0, 7], [2, 3]), c18_split(16, 2, 0x15, range(0, 20), [2, 3]))))
    out.append(('true peaks', tiered(c18_split(16, 1, 0x31, [3], [2]), several([c18_split(16, 1, 0x31, [3, 7], [2]), c18_split(100000, 2, 0x31, [3], [2]), c18_split(200000, 1, 0x31, [3], [2])]))))
    for fmt in FMT:
        fs = [c18_split(16, 2, 7, [0, 7, 14], [2, 3], fmt, planar, None, seed) for planar in (False, True) for seed in (False, True)]
        out.append(('formats, %s' % fmt, several(fs)))
    out.append(('unused channels', several([c18_split(16, 3, 15, [6, 58], [2, 3], 'f64', False, [1, 0, 4]), c18_split(16, 1, 15, [6, 58], [2], 'f64', False, [6])])))
    return out


# ---------------------------------------------------------------- C05
ALLMODES = [1, 3, 5, 7, 11, 15, 0x11, 0x31, 0x15, 0x35, 0x1b, 0x3f, 0x41, 0x45, 0x4b, 0x4f, 0x7f]


def reconfigured(c, C, rate, mode, types=None, C0=2, rate0=25, T0=13):
    """an analyzer in the middle of other audio after change_parameters"""
    a = at(c, C0, rate0, mode, T0)
    r = a.must('change_parameters', [num(C), num(rate)])
    if types is not None:
        a.types(types)
    a.C = C
    return a


def c05_mode(mode, how):
    def run(c, rep, tier):
        C, rate = 1, 16
        ss = ss_of(rate)
        base = 'mode 0x%x after %s' % (mode, how)
        wh = where(c, 'add_frames_f64')

        def start(m):
            return analyzer(c, C, rate, m, [1]) if how == 'new' else reconfigured(c, C, rate, m, [1])
        a = start(mode)
        for w in (BLOCK, SHORT):
            h = hist(a, w)
            rep.ob('%s: the %s is a %s' % (base, w, 'histogram' if mode & 0x40 else 'queue'), 'proved' if (h[0] == 'h') == bool(mode & 0x40) else 'refuted', where(c, how))
        for now, w, on, q, wn in ((4 * ss, BLOCK, mode & 4, 'loudness_momentary', 'gating'), (30 * ss, SHORT, mode & 8, 'loudness_shortterm', 'short-term')):
            if how == 'new':
                b = at(c, C, rate, mode, now - 1, [1])
            elif mode & 0x20 and now > 4 * ss:
                continue
            else:
                b = start(mode)
                b.types([0] * C)
                b.feed([[fconst(0.0)] * C for t in range(now - 1)])
                b.types([1] * C)
            h0 = hist(b, w)
            b.feed(frames('f64', now - 1, now, C))
            h1 = hist(b, w)
            if not on:
                never(c, rep, '%s: no %s blocks' % (base, wn), wh, changed(c, b, h0, h1))
                continue
            ok, e, v = loudness(b, q)
            if e is None:
                rep.ob('%s: %s energy' % (base, wn), 'undecided', wh)
                continue
            above = fcomp('fle', fconst(GATE * 1.000001), e)
            if h1[0] == 'q':
                never(c, rep, '%s: the %s block is recorded' % (base, wn), wh, band(above, notpushed(h0, h1)), 'it is not')
            else:
                below = fcomp('flt', e, fconst(GATE * 0.999999))
                histo(c, rep, b, h0[1], h1[1], e, above, below, '%s: the %s block' % (base, wn), wh)
        # peaks
        n = 1 if mode & 0x20 else 2
        a.feed(frames('f64', 0, n, C))
        xs = [xsym('f64', t, 0) for t in range(n)]
        for q, bits, wn in (('sample_peak', 0x11, 'sample'), ('prev_sample_peak', 0x11, 'sample'), ('true_peak', 0x31, 'true'), ('prev_true_peak', 0x31, 'true')):
            if mode & bits != bits:
                continue
            ok, v = a.q(q, [ZERO])
            never(c, rep, '%s: %s answers' % (base, q), where(c, q), bnot(ok))
            for x in xs:
                ax = fop('abs', x)
                never(c, rep, '%s: %s is at least the magnitude of a sample' % (base, q), where(c, q), fcomp('flt', v, ax), 'the peak of the samples is missing',
                      tolerant=fcomp('flt', fop('mul', v, fconst(1.000001)), ax))
            if wn == 'true':
                inter = [l for l in leaves(v) if not any(simpf(l) is fop('abs', x) for x in xs) and syms(l) & set(xs)]
                rep.ob('%s: %s looks between the samples' % (base, q), 'proved' if inter else 'refuted', where(c, q), 'no interpolated value enters it')
        for leafn, bits in (('sample_peak', 0x11), ('true_peak', 0x31)):
            v = a.val()
            names = [x[0] for x in c.E.ty(v.a[0])['v'][0]['f']]
            if leafn in names and mode & bits != bits:
                x = v.a[1][names.index(leafn)]
                x = c.E.readloc(c.E.step(c.E.deref(x, a.st), ('x', ZERO)), a.st) if isinstance(x, V) and x.k == 'Sl' else None
                if isinstance(x, T_):
                    never(c, rep, '%s: no %s is tracked' % (base, leafn), wh, differ(TRUE, x, fconst(0.0)))
    return run


def notpushed(h0, h1):
    k = FALSE
    for cond, l in pushed(h0, h1):
        if not l:
            k = bor(k, cond)
    return k


def several(fs, lift=None):
    def run(c, rep, tier):
        if lift:
            TM.LIFT = lift
        for f in fs:
            f(c, rep, tier)
    return run


C18 = c18_tasks()
C19 = c19_tasks()
C05 = [('modes %s after %s' % (' '.join('0x%x' % m for m in ms), h), several([c05_mode(m, h) for m in ms])) for h in ('new', 'change_parameters')
       for ms in ([1, 3, 5, 7], [11, 15], [0x11, 0x15], [0x1b, 0x41, 0x45], [0x4b, 0x4f], [0x31, 0x35], [0x3f], [0x7f])]


# ---------------------------------------------------------------- C07
WEIGHTS = {'Unused': 0.0, 'LeftSurround': 1.41, 'RightSurround': 1.41, 'Mp060': 1.41, 'Mm060': 1.41, 'Mp090': 1.41, 'Mm090': 1.41, 'DualMono': 2.0}


def chtypes(c):
    """{name: tag} of the channel types"""
    t = c.E.ty(c.method('set_channel')['locals'][3])
    return {v['n']: i for i, v in enumerate(t['v'])}


def tags_of(c):
    t = c.method('set_channel')['locals'][3]
    return [v['n'] for v in c.E.ty(t)['v']]


def c07_weights(q, mode, steps):
    """the energy of a frame block with the types of the channels changed"""
    def run(c, rep, tier):
        names = tags_of(c)
        left = names.index('Left')
        rate = 16
        wh = where(c, q)

        def energy_of(C, types, n=1):
            a = at(c, C, rate, mode, 9, types)
            a.feed(frames('f64', 9, 9 + n, C))
            ok, e, v = loudness(a, q, [num(63)] if q == 'loudness_window' else [])
            if e is None:
                if fval(v) == float('-inf'):
                    return fconst(0.0)
                raise Undecided('energy of %s' % q)
            return e
        one = energy_of(1, [left])
        if 'DualMono' in names:
            equalv(c, rep, '%s: a DualMono channel weighs 2' % q, wh, energy_of(1, [names.index('DualMono')]), scaled(one, 2.0))
        unused = names.index('Unused')
        l0 = energy_of(2, [left, unused])
        l1 = energy_of(2, [unused, left])
        for i, n in enumerate(names):
            if n == 'DualMono':
                continue
            w = WEIGHTS.get(n, 1.0)
            equalv(c, rep, '%s: a channel of type %s weighs %s' % (q, n, w), wh, energy_of(2, [i, unused]), scaled(l0, w))
            if q != 'loudness_window' and not steps:
                continue
            equalv(c, rep, '%s: a second channel of type %s weighs %s' % (q, n, w), wh, energy_of(2, [left, i]), fop('add', l0, scaled(l1, w)))
        # mixed
        ix = lambda *ns: [names.index(n) for n in ns if n in names]
        mix = ix('LeftSurround', 'Center', 'Unused', 'Mp090', 'Right')
        if len(mix) == 5:
            ws = [1.41, 1.0, 0.0, 1.41, 1.0]
            solo = [energy_of(5, [left if j == k else unused for j in range(5)]) for k in range(5)]
            equalv(c, rep, '%s: the channels of a mix add up with their own weights' % q, wh, energy_of(5, mix), fsum([scaled(e, w) for e, w in zip(solo, ws)]))
    return run


def c07_block(c, rep, tier):
    """the energy recorded for a gating block weighs the same way"""
    names = tags_of(c)
    left, unused = names.index('Left'), names.index('Unused')
    wh = where(c, 'add_frames_f64')
    for w, mode, T0 in ((BLOCK, 5, 7), (SHORT, 15, 59)):
        def val(C, types):
            a = at(c, C, 16, mode, T0, types)
            h0 = hist(a, w)
            a.feed(frames('f64', T0, T0 + 1, C))
            ps = [l[0] for k, l in pushed(h0, hist(a, w)) if len(l) == 1]
            if not ps and all(t == unused for t in types):
                return fconst(0.0)
            if len(ps) != 1:
                raise Undecided('%d pushes' % len(ps))
            return ps[0]
        one = val(1, [left])
        if 'DualMono' in names:
            equalv(c, rep, '%s: a DualMono channel weighs 2' % w, wh, val(1, [names.index('DualMono')]), scaled(one, 2.0))
        l0, l1 = val(2, [left, unused]), val(2, [unused, left])
        for i, n in enumerate(names):
            if n == 'DualMono':
                continue
            k = WEIGHTS.get(n, 1.0)
            equalv(c, rep, '%s: a channel of type %s weighs %s' % (w, n, k), wh, val(2, [left, i]), fop('add', l0, scaled(l1, k)))


DEFMAP = ['Left', 'Right', 'Center', 'Unused', 'LeftSurround', 'RightSurround']


def c07_default(c, rep, tier):
    """the channel map of a new analyzer"""
    names = tags_of(c)
    for how in ('new', 'change_parameters'):
        for C in range(1, 65):
            if how != 'new' and C not in (1, 2, 3, 4, 5, 6, 7, 8, 24, 64):
                continue
            want = (['Left', 'Right', 'LeftSurround', 'RightSurround'] if C == 4 else ['Left', 'Right', 'Center', 'LeftSurround', 'RightSurround'] if C == 5
                    else [DEFMAP[i] if i < 6 else 'Unused' for i in range(C)])
            if how == 'new':
                a = analyzer(c, C, 48000, 5)
            else:
                ref, st, info = c.selfval(ch=63, rate=44100, mode=5)
                a = An(c, ref, st, 63)
                a.must('change_parameters', [num(C), num(48000)])
            r = c.run(c.method('channel_map'), [a.ref], a.st, unroll=UNROLL)
            wh = where(c, how)
            s = r.v
            if not isinstance(s, V) or s.k != 'Sl':
                rep.ob('default channel map of %d channels after %s' % (C, how), 'undecided', wh)
                continue
            k = differ(TRUE, s.a[3], num(C))
            if k is not FALSE:
                rep.ob('default channel map of %d channels after %s: length' % (C, how), 'refuted' if k is TRUE else 'undecided', wh, 'is %s' % show(s.a[3]))
                continue
            for i in range(C):
                x = c.E.readloc(c.E.step(c.E.deref(s, r.st), ('x', num(i))), r.st)
                t = c.entag(x) if isinstance(x, V) else None
                want_t = names.index(want[i])
                ok = t is not None and t.op == 'int'
                rep.ob('default type of channel %d of %d after %s is %s' % (i, C, how, want[i]),
                       'undecided' if not ok else 'proved' if t.args[0] == want_t else 'refuted', wh, 'is %s' % (names[t.args[0]] if ok and t.args[0] < len(names) else show(t) if t is not None else x))


C07 = [('window', c07_weights('loudness_window', 3, True)), ('momentary', c07_weights('loudness_momentary', 1, False)),
       ('short-term', c07_weights('loudness_shortterm', 3, False)), ('recorded blocks', c07_block), ('default map', c07_default)]


# ---------------------------------------------------------------- C10
def maxt(ts):
    r = ts[0]
    for t in ts[1:]:
        r = ite(fcomp('flt', r, t), t, r)
    return r


def c10_sample(fmt, C, n, mode, T0=9):
    def run(c, rep, tier):
        a = at(c, C, 16, mode, T0, [1] * C)
        old = [a.q('sample_peak', [num(k)])[1] for k in range(C)]
        a.feed(frames(fmt, T0, T0 + n, C), fmt)
        base = '%s, %d frames, mode 0x%x' % (fmt, n, mode)
        full = float(1 << (BITS[fmt] - 1)) if fmt in BITS else 1.0
        for k in range(C):
            mag = []
            for t in range(T0, T0 + n):
                x = xsym(fmt, t, k)
                x = i2f(x, 64) if fmt in BITS else f2f(x, 64) if fmt == 'f32' else x
                mag.append(fop('div', fop('abs', x), fconst(full)))
            ok, v = a.q('prev_sample_peak', [num(k)])
            equalv(c, rep, '%s: prev_sample_peak(%d) is the largest magnitude of the call' % (base, k), where(c, 'prev_sample_peak'), v, maxt(mag), tries=30, tol=1e-6)
            ok, w = a.q('sample_peak', [num(k)])
            equalv(c, rep, '%s: sample_peak(%d) is the larger of the peak before and of the call' % (base, k), where(c, 'sample_peak'), w, maxt([old[k]] + mag), cond=nonnegs(old), tries=30, tol=1e-6)
            never(c, rep, '%s: sample_peak(%d) does not decrease' % (base, k), where(c, 'sample_peak'), fcomp('flt', w, old[k]))
            never(c, rep, '%s: sample_peak(%d) is at least that of the call' % (base, k), where(c, 'sample_peak'), fcomp('flt', w, v))
            b = a.copy()
            b.feed([], fmt)
            for q, x in (('prev_sample_peak', v), ('sample_peak', w)):
                equalv(c, rep, '%s: %s(%d) after a call without frames' % (base, q, k), where(c, q), b.q(q, [num(k)])[1], x)
    return run


def nonnegs(ts):
    k = TRUE
    for t in ts:
        k = band(k, fcomp('fle', fconst(0.0), t))
    return k


def c10_true(C, n, rate, T0=3, mode=0x31, calls=1):
    def run(c, rep, tier):
        a = at(c, C, rate, mode, T0, [1] * C)
        base = '%d Hz, %d channels, %d frames' % (rate, C, n)
        for j in range(calls):
            old = [a.q('true_peak', [num(k)])[1] for k in range(C)]
            sp0 = [a.q('sample_peak', [num(k)])[1] for k in range(C)]
            t0 = T0 + j * n
            a.feed(frames('f64', t0, t0 + n, C))
            for k in range(C):
                tp, sp = a.q('true_peak', [num(k)])[1], a.q('sample_peak', [num(k)])[1]
                ptp, psp = a.q('prev_true_peak', [num(k)])[1], a.q('prev_sample_peak', [num(k)])[1]
                # peaks are kept as numbers that are at least zero
                inv = nonnegs(old + sp0)
                tol = lambda x, y: band(inv, fcomp('flt', fop('mul', x, fconst(1.000001)), y))
                lt_ = lambda x, y: band(inv, fcomp('flt', x, y))
                wh = where(c, 'true_peak')
                never(c, rep, '%s: true_peak(%d) does not decrease' % (base, k), wh, lt_(tp, old[k]), tolerant=tol(tp, old[k]))
                never(c, rep, '%s: true_peak(%d) is at least that of the call' % (base, k), wh, lt_(tp, ptp), tolerant=tol(tp, ptp))
                never(c, rep, '%s: true_peak(%d) is at least the sample peak' % (base, k), wh, lt_(tp, sp), tolerant=tol(tp, sp))
                never(c, rep, '%s: prev_true_peak(%d) is at least the sample peak of the call' % (base, k), where(c, 'prev_true_peak'), lt_(ptp, psp), tolerant=tol(ptp, psp))
                stale = {s for s in syms(ptp) if 'peak' in s.args[0] and s.args[0].startswith('s.')}
                dep = depends(ptp, stale)
                rep.ob('%s: prev_true_peak(%d) covers only the last call' % (base, k), 'proved' if not stale else 'refuted' if dep else 'undecided', where(c, 'prev_true_peak'),
                       'depends on %s' % ', '.join(sorted(s.args[0] for s in stale)), dep or None)
    return run


def depends(t, ss, tries=6):
    """two inputs that differ only in ss and give different values"""
    import random
    for k in range(tries):
        rng = random.Random(k)
        e1 = NumEv(Pick(rng, loud))
        try:
            x = e1.get(t)
        except Unk:
            continue
        fix = {u: v for u, v in e1.val.items() if u.op == 'sym' and u not in ss}
        for j in range(3):
            e2 = NumEv(Pick(random.Random(100 + k + j), lambda r, z: r.uniform(2, 10)), )
            e2.leaf.fix = fix
            try:
                y = e2.get(t)
            except Unk:
                continue
            if not close(x, y):
                w = Wit(e2.val)
                w.xy = (x, y)
                return w
    return None


C10 = ([('sample %s' % f, several([c10_sample(f, 2, n, m) for n in (1, 2) for m in (0x11, 0x15)])) for f in FMT]
       + [('true peak %d Hz' % r, several([c10_true(1, 1, r), c10_true(2, 1, r)], 40000)) for r in (16, 100000, 200000)])


# ---------------------------------------------------------------- C11
def convmap(fmt, T0, n, C):
    """samples of the f64 run -> the value the other format stands for"""
    mp = {}
    for t in range(T0, T0 + n):
        for k in range(C):
            x = xsym(fmt, t, k)
            if fmt in BITS:
                y = fop('div', i2f(x, 64), fconst(float(1 << (BITS[fmt] - 1))))
            elif fmt == 'f32':
                y = f2f(x, 64)
            else:
                y = x
            mp[(t, k)] = y
    return mp


_SINGLE = {}


def exactness(t):
    """tolerance for a value expected to be t: single precision if it goes through single precision"""
    r = _SINGLE.get(t)
    if r is None:
        r, seen, st = 1e-12, set(), [t]
        while st:
            x = st.pop()
            if isinstance(x, T_):
                if x in seen:
                    continue
                seen.add(x)
                if x.op in ('f2f', 'i2f') and x.args[1] == 32:
                    r = 2e-6
                    break
                st.extend(x.args)
            elif isinstance(x, tuple):
                st.extend(x)
        _SINGLE[t] = r
    return r


def c11_fmt(fmt, planar, seed, mode, C=2, n=3, T0=6, rate=16):
    """the entry point does what add_frames_f64 / seed_frames_f64 does with the same samples at full scale 1"""
    def run(c, rep, tier):
        name = '%s_frames_%s%s' % ('seed' if seed else 'add', 'planar_' if planar else '', fmt)
        wh = where(c, name)
        a0 = at(c, C, rate, mode, T0, [1] * C)
        a = a0.copy()
        mp = convmap(fmt, T0, n, C)
        a.feed([[mp[(t, k)] for k in range(C)] for t in range(T0, T0 + n)], 'f64', False, seed)
        b = a0.copy()
        b.feed(frames(fmt, T0, T0 + n, C), fmt, planar, seed)
        base = '%s (mode 0x%x) against %s_frames_f64' % (name, mode, 'seed' if seed else 'add')
        # every query, every block recorded, every leaf
        for q in ('sample_peak', 'prev_sample_peak', 'true_peak', 'prev_true_peak'):
            for k in range(C):
                o1, v1 = a.q(q, [num(k)])
                o2, v2 = b.q(q, [num(k)])
                if o1 is FALSE or o2 is FALSE:
                    continue
                equalv(c, rep, '%s: %s(%d)' % (base, q, k), wh, v2, v1, tol=exactness(v1))
        cmpstate(c, rep, b, a, base, wh, tol=exactness)
    return run


def c11_tasks():
    out = []
    for fmt in FMT:
        for seed in (False, True):
            fs = []
            for planar in (False, True):
                for mode, C, n in ((15, 2, 3), (0x1b, 3, 2), (0x35, 1, 1), (0x31, 2, 1), (0x11, 5, 2)):
                    fs.append(c11_fmt(fmt, planar, seed, mode, C, n))
                # a call that is cut at a block boundary, for every interpolator
                for C in (1, 2, 3, 4, 6, 8):
                    fs.append(c11_fmt(fmt, planar, seed, 0x31, C, 2, 7))
            out.append(('%s %s' % ('seed' if seed else 'add', fmt), several(fs)))
    return out


C11 = c11_tasks()


# ---------------------------------------------------------------- C24
def c24_seed(fmt, planar, mode, C=2, n=3, T0=6, rate=16, types=None):
    def run(c, rep, tier):
        ty = types or [1] * C
        name = 'seed_frames_%s%s' % ('planar_' if planar else '', fmt)
        wh = where(c, name)
        base = '%s (mode 0x%x, %d channels)' % (name, mode, C)
        a0 = at(c, C, rate, mode, T0, ty)
        s = a0.copy()
        s.feed(frames(fmt, T0, T0 + n, C), fmt, planar, True)
        a = a0.copy()
        a.feed(frames(fmt, T0, T0 + n, C), fmt, planar, False)
        pn = prevnames(c, C, rate, mode, ty)
        # nothing outside of the filter memory changes
        for l in objdiff(c, s.ref, s.st, a0.ref, a0.st):
            inside = 'Filter' in l.adts and not isprev(l, pn)
            if inside or l.cond is FALSE:
                if not inside:
                    rep.ob('%s: %s keeps its value' % (base, l.name), 'proved', wh)
                continue
            if l.cond is None:
                rep.ob('%s: %s keeps its value' % (base, l.name), 'refuted' if isinstance(l.x, T_) and isinstance(l.y, T_) and seqcmp(l.x, l.y) == 'refuted' else 'undecided', wh)
                continue
            never(c, rep, '%s: %s keeps its value' % (base, l.name), wh, l.cond, 'is %s' % show(l.x)[:200] if isinstance(l.x, T_) else '')
        # the memory is what add_frames leaves
        for l in objdiff(c, s.ref, s.st, a.ref, a.st):
            if 'Filter' not in l.adts or isprev(l, pn):
                continue
            text = '%s: %s is warmed like add_frames does' % (base, l.name)
            if l.cond is FALSE:
                rep.ob(text, 'proved', wh)
            elif l.cond is None or not isinstance(l.x, T_):
                rep.ob(text, 'undecided', wh)
            else:
                equalv(c, rep, text, wh, l.x, l.y, tol=2e-6)
        for q, args in queries(c, C, mode):
            o1, v1 = s.q(q, args)
            o0, v0 = a0.q(q, args)
            if not isinstance(v0, T_) or o0 is FALSE:
                continue
            equalv(c, rep, '%s: %s(%s) answers as before' % (base, q, ','.join(str(x.args[0]) for x in args)), wh, v1, v0)
    return run


def queries(c, C, mode):
    out = [('loudness_momentary', [])]
    if mode & 2:
        out.append(('loudness_shortterm', []))
    for q, m in (('sample_peak', 0x11), ('prev_sample_peak', 0x11), ('true_peak', 0x31), ('prev_true_peak', 0x31)):
        if mode & m == m:
            out += [(q, [num(k)]) for k in range(C)]
    return out


C24 = [('%s%s' % ('planar ' if p else '', f), several([c24_seed(f, p, m, C, n, types=ty) for m, C, n, ty in
        ((15, 2, 3, None), (0x1b, 3, 2, [1, 0, 4]), (0x35, 1, 1, None), (0x31, 2, 2, None), (5, 8, 1, None), (0x4f, 2, 2, None), (0x31, 1, 2, [0]), (0x31, 3, 1, [0, 0, 0]))])) for f in FMT for p in (False, True)]


# ---------------------------------------------------------------- C25
def c25_leak(fmt, planar, mode, C, rate=16, T0=6, n=1, seed=False, calls=None):
    """what a query answers about one channel depends on that channel's input only"""
    def run(c, rep, tier):
        name = '%s_frames_%s%s' % ('seed' if seed else 'add', 'planar_' if planar else '', fmt)
        wh = where(c, name)
        base = '%s (mode 0x%x, %d channels, %d Hz)' % (name, mode, C, rate)
        names = tags_of(c)
        left, unused = names.index('Left'), names.index('Unused')
        a = at(c, C, rate, mode, T0, [left] * C)
        # three calls, so that what one call leaves behind shows in the next
        t = T0
        for sd in ((True, False, False) if seed else (False, False))[:calls]:
            a.feed(frames(fmt, t, t + n, C), fmt, planar, sd)
            t += n
        xs = [{xsym(fmt, u, k) for u in range(T0, t)} for k in range(C)]

        def dep(text, w, v, k):
            other = set().union(*(xs[j] for j in range(C) if j != k)) if C > 1 else set()
            ss = set()
            for l in [v]:
                ss |= syms(l)
            bad = ss & other
            if not bad:
                rep.ob(text, 'proved', w)
                if not ss & xs[k] and rate == 16:
                    rep.ob(text + ' (and depends on it)', 'undecided', w)
                return
            d = depends(v, bad)
            rep.ob(text, 'refuted' if d else 'undecided', w, 'depends on %s' % ', '.join(sorted(x.args[0] for x in bad)[:4]), d or None)
        for q, m in (('sample_peak', 0x11), ('prev_sample_peak', 0x11), ('true_peak', 0x31), ('prev_true_peak', 0x31)):
            if mode & m != m:
                continue
            for k in range(C):
                ok, v = a.q(q, [num(k)])
                dep('%s: %s(%d) depends on its channel only' % (base, q, k), where(c, q), v, k)
        for k in range(C):
            b = a.copy()
            b.types([left if j == k else unused for j in range(C)])
            ok, e, v = loudness(b, 'loudness_momentary')
            if e is None:
                rep.ob('%s: energy of channel %d' % (base, k), 'undecided', wh)
                continue
            dep('%s: the energy of channel %d depends on it only' % (base, k), where(c, 'loudness_momentary'), e, k)
    return run


def c25_tasks():
    out = []
    for fmt in FMT:
        fs = []
        for planar in (False, True):
            fs += [c25_leak(fmt, planar, 15, 3), c25_leak(fmt, planar, 0x11, 4), c25_leak(fmt, planar, 5, 7), c25_leak(fmt, planar, 1, 3, seed=True)]
        out.append(('filters and sample peaks, %s' % fmt, several(fs)))
    for C in (2, 3, 4, 6, 8):
        out.append(('true peaks, %d channels' % C, several([c25_leak('f64', False, 0x31, C, r) for r in (16, 100000)] + [c25_leak('f32', True, 0x31, C, 16, seed=True)])))
    # more channels than bits of a word
    out.append(('33 channels', several([c25_leak('f64', False, 0x11, 33, calls=1), c25_leak('f32', True, 0x11, 63, calls=1)])))
    for C, r in ((17, 100000),):
        out.append(('true peaks, %d channels' % C, c25_leak('f64', False, 0x31, C, r, calls=1)))
    return out


C25 = c25_tasks()
