"""Input shapes (C31), allocation (C29), buffer sizes (C30), oversampling (C28), memory safety (C17), floating-point environment (C16)."""
from rules_audio import *
from rules_exit import *
from rules_state import unchanged, allsyms

FORMATS = ('i16', 'i32', 'f32', 'f64')


def sizes(tier):
    return (2, 3, 6, None) if tier != 'thorough' else (2, 3, 4, 5, 6, 7, 8, 12, 63, 64, None)


def shape_verdict(c, rep, text, f, r, bad, pool):
    """no exit, panic or processing loop may be reached with input of the wrong shape unless it is an error"""
    wh = '%s (%s)' % (f['path'], span(f))
    st = 'proved'
    why = ''
    todo = []
    if r.st is not None and r.v is not None:
        okc = exits(c, r)[0]
        todo.append(('is accepted', band(band(bad, r.st.pc), okc), r.st.facts, wh))
    for e in r.events:
        if e.kind == 'panic':
            todo.append(('panics: %s' % e.msg, band(band(bad, e.pc), e.cond), e.facts, '%s (%s)' % (e.fn, e.span)))
        elif e.kind == 'loop':
            todo.append(('is processed', band(bad, e.pc), e.facts, '%s (%s)' % (e.fn, e.span)))
        elif e.kind == 'cut':
            pass
    for what, k, facts, at in todo:
        s, ev = c.never(k, facts, pool)
        if s == 'refuted':
            return rep.ob(text, 'refuted', at, what, ev)
        if s != 'proved':
            st, why = 'undecided', what
    rep.ob(text, st, wh, why)


def stays(c, rep, text, f, ref, r, st):
    if r.st is None or r.v is None:
        return rep.ob(text, 'undecided', '%s (%s)' % (f['path'], span(f)), 'no exit')
    okc = exits(c, r)[0]
    unchanged(c, rep, text, f, ref, r.st, st, band(bnot(okc), r.st.pc), 'an error', (0, 1, 2, 3, 5, 64, 1000))


def nopanic(events):
    return [e for e in events if e.kind == 'panic']


def c31_inter(fmt, seed, still=False):
    name = '%s_frames_%s' % ('seed' if seed else 'add', fmt)

    def run(c, rep, tier):
        E = c.E
        for C in sizes(tier) if not still else (2, 3) if tier != 'thorough' else (2, 3, 4, 6):
            E.steps = 0
            f = c.method(name)
            ref, st, info = c.selfval(ch=C)
            Ct = num(C) if C else sym('C', 'i', 1, 64)
            a = c.exp(c.opaque_args(f, 1)[0])
            ln = a.a[3]
            bad = bnot(eq(rem(ln, Ct), ZERO))
            st.facts.add_bool(bad)
            pc = band(st.pc, bad)
            st.pc = pc
            E.stoploops = True
            try:
                r = c.run(f, [ref, a], st, unroll=C + 2 if C and C < 9 else 0)
            finally:
                E.stoploops = False
            text = '%s, %s channels: a number of samples that is no multiple of the channel count is an error' % (name, C or 'any number of')
            if still:
                stays(c, rep, '%s, %d channels, a part of a frame' % (name, C), f, ref, r, st)
                continue
            shape_verdict(c, rep, text, f, r, bad, (1, 2, 3, 5, 7, 64, 65537, 100001, 1000003, 1 << 32))
    return run


def c31_planar(fmt, seed, still=False):
    name = '%s_frames_planar_%s' % ('seed' if seed else 'add', fmt)

    def run(c, rep, tier):
        E = c.E
        for C in (1, 2) if still else (1, 2, 3) if tier != 'thorough' else (1, 2, 3, 4, 5, 6, 8):
            for k in sorted({0, 1, 2, 3, C + 1, C}):
                for i, less in [(i, l) for i in range(1, C) for l in (True, False)] if k == C else [(None, None)]:
                    f = c.method(name)
                    E.steps = 0
                    ref, st, info = c.selfval(ch=C)
                    it = E.ty(E.ty(f['locals'][2])['t'])['t']       # &[T]
                    et = E.ty(E.ty(it)['t'])['t']
                    vals = []
                    lens = []
                    for j in range(k):
                        n = sym('n%d' % j, 'i', 0, 1 << 40)
                        lens.append(n)
                        reg = region(('c31', name, C, k, j), None, Ar(et, n, ('o', mk('sym', ('plane%d' % j,), 'o'))), 'plane%d' % j)
                        vals.append(Sl(reg, (), ZERO, n))
                    reg = region(('c31', name, C, k), None, None, 'planes')
                    st.mem[reg] = E.mkarr(it, vals)
                    if i is None:
                        bad = TRUE
                        what = '%d planes are' % k
                    else:
                        bad = lt(lens[i], lens[0]) if less else lt(lens[0], lens[i])
                        what = 'a channel %d that is %s than the first is' % (i, 'shorter' if less else 'longer')
                    st.facts.add_bool(bad)
                    st.pc = band(st.pc, bad)
                    E.stoploops = True
                    try:
                        r = c.run(f, [ref, Sl(reg, (), ZERO, num(k))], st, unroll=max(C, k) + 2)
                    finally:
                        E.stoploops = False
                    if still:
                        stays(c, rep, '%s, %d channels, %s not accepted' % (name, C, what), f, ref, r, st)
                        continue
                    shape_verdict(c, rep, '%s, %d channels: %s an error' % (name, C, what), f, r, bad, (0, 1, 2, 3, 5, 64, 1000))
    return run


C31 = [('%s %s%s' % ('seed' if s else 'add', 'planar ' if p else '', f), (c31_planar if p else c31_inter)(f, s)) for s in (False, True) for p in (False, True) for f in FORMATS]
C03 = [('rejected input, %s %s%s' % ('seed' if s else 'add', 'planar ' if p else '', f), (c31_planar if p else c31_inter)(f, s, True)) for s in (False, True) for p in (False, True) for f in FORMATS]


# ---------------------------------------------------------------- C29
ALLOC_MAX = 1 << 21        # elements: what 64 channels need besides the audio


def outcome(c, rep, name, f, r, what, pool=(0, 400, 3000, U32_MAX, 1 << 31)):
    """no panic, no overflow, no failing allocation that is not an error"""
    wh = '%s (%s)' % (f['path'], span(f))

    def group(text, items):
        """one obligation per kind: items [(condition, facts, where, detail)]"""
        st, at, why = 'proved', wh, ''
        for k, facts, w, d in items:
            s, ev = c.never(k, facts, pool)
            if s == 'refuted':
                return rep.ob('%s: %s' % (name, text), 'refuted', w, d, ev)
            if s != 'proved':
                st, at, why = s, w, d
        rep.ob('%s: %s' % (name, text), st, at, why)
    at = lambda e: '%s (%s)' % (e.fn, e.span)
    group('no panic is reached', [(band(e.pc, e.cond), e.facts, at(e), e.msg) for e in r.events if e.kind == 'panic'])
    group('no integer overflow', [(band(e.pc, bor(lt(e.term, num(e.lo)), lt(num(e.hi), e.term))), e.facts, at(e), '%s: %s' % (e.op, show(e.term)[:100]))
                                  for e in r.events if e.kind == 'wrap?' and isinstance(e.term, T) and e.term.sort == 'i'])
    group('only allocations that can fail gracefully depend on the duration', [
        (band(e.pc, lt(num(ALLOC_MAX), e.size)), e.facts, at(e), 'allocates %s elements' % show(e.size)[:100])
        for e in r.events if e.kind == 'alloc' and not e.fallible and not e.resize and isinstance(e.size, T)])
    fall = [e for e in r.events if e.kind == 'alloc' and e.fallible]
    return fall


def c29(name, mode=None):
    def run(c, rep, tier):
        errs = c.err_tags()
        f = c.method(name)
        new = name == 'new'
        if new:
            st = State()
            a = c.opaque_args(f, 0)
            C, R, m, args = c.fresh_args()
            a = [sym('channels', 'i', 0, U32_MAX), sym('rate', 'i', 0, U32_MAX), args[2]]
            r = c.run(f, a, st)
        else:
            ref, st, info = c.selfval(ch=None if mode is None else 2, mode=mode, fresh=mode is not None)
            a = [ref] + c.opaque_args(f, 1)
            r = c.run(f, a, st)
        outcome(c, rep, name, f, r, '')
        okc, et, ok, facts, pc = exits(c, r)
        if name in ('change_parameters', 'set_max_window'):
            contract(c, rep, name, r, band(bnot(okc), bnot(iserr(okc, et, errs['NoMem']))), 'the only error is NoMem', (0, 400, 3000, U32_MAX, 64, 65))
            unchanged(c, rep, name, f, ref, r.st, st, band(bnot(okc), r.st.pc), 'an error', (0, 6, 400, 3000, U32_MAX, 64, 65))
    return run


C29 = [(n, c29(n)) for n in ('new', 'change_parameters', 'set_max_window', 'set_max_history')] + [
    ('loudness_window, mode %d' % m, c29('loudness_window', m)) for m in (M, S_)]


# ---------------------------------------------------------------- C30
def pycode(t, names, memo):
    """python expression for an integer or condition term over the given symbols"""
    r = memo.get(t)
    if r is None:
        o, a = t.op, t.args
        if o in ('int', 'bool'):
            r = repr(a[0])
        elif t in names:
            r = names[t]
        elif o == 'poly':
            r = '(' + '+'.join('*'.join([str(k)] + [pycode(x, names, memo) for x in m]) for m, k in a) + ')'
        elif o == 'div':
            r = '(%s//%s)' % (pycode(a[0], names, memo), pycode(a[1], names, memo))
        elif o == 'ite':
            r = '(%s if %s else %s)' % (pycode(a[1], names, memo), pycode(a[0], names, memo), pycode(a[2], names, memo))
        elif o == 'lt0':
            r = '(%s<0)' % pycode(a[0], names, memo)
        elif o == 'eq0':
            r = '(%s==0)' % pycode(a[0], names, memo)
        elif o == 'allocok':
            r = 'True'
        else:
            raise Undecided('cannot evaluate %s' % show(t)[:80])
        if len(r) > 100000:
            raise Undecided('long expression')
        memo[t] = r
    return r


def buffers(c, val, R):
    """lengths (terms) of the analyzer's buffers whose size depends on the sample rate"""
    E = c.E
    out = []
    v = c.exp(val)
    t = E.ty(v.a[0])
    for i, x in enumerate(v.a[1]):
        n = extent(c, x)
        if n is not None and occurs_in(R, n):
            out.append((t['v'][0]['f'][i][0] if t['k'] == 'adt' else str(i), n))
    return out


def extent(c, x):
    """the length of a slice that may be one of several"""
    x = c.exp(x) if isinstance(x, V) else x
    if isinstance(x, V) and x.k == 'Sl' and isinstance(x.a[3], T):
        return x.a[3]
    if isinstance(x, V) and x.k == 'Ch':
        p, q = extent(c, x.a[1]), extent(c, x.a[2])
        if p is not None and q is not None:
            return ite(x.a[0], p, q)
    return None


def occurs_in(s, t):
    return s in set(allsyms(t))


def rates(tier):
    """all accepted rates (thorough) or all low ones, the usual ones and a sample of every residue"""
    if tier == 'thorough':
        return range(16, 2822401)
    rng = random.Random(30)
    return sorted(set(range(16, 60000)) | {rng.randrange(60000, 2822401) for _ in range(60000)} | set(range(2822400 - 3000, 2822401)) |
                  {x + d for x in (88200, 96000, 176400, 192000, 352800, 384000, 705600, 768000, 1411200, 2822400) for d in range(-50, 51) if x + d <= 2822400})


def windows(tier):
    base = [400, 3000, 0, 2, 399, 401, 449, 450, 451, 499, 500, 999, 1000, 2999, 3001, 3050, 5000, 10000, 60000, 3600000]
    return base if tier != 'thorough' else sorted(set(base + list(range(400, 1200, 7)) + list(range(3000, 4000, 9))))


def sized(c, rep, text, wh, length, C, R, other, need, tier, rs):
    """length(R, C=1) >= need * ss and a multiple of ss, and length is C times that, for all rates"""
    names = {R: 'R'}
    if isinstance(C, T):
        names[C] = 'C'
    for t, v in other.items():
        names[t] = str(v)
    code = pycode(length, names, {})
    f = eval('lambda R, C: ' + code, {})
    if (code, need, tier) in SIZED:
        return rep.ob(text, 'proved', wh)
    for k in (1, 2, 5, 64):
        for r in rs if k == 1 else rs[::997] if isinstance(rs, list) else rs[::99991]:
            ss = (r + 5) // 10
            n = f(r, k)
            if n < need * ss * k:
                return rep.ob(text, 'refuted', wh, 'the buffer holds %s frames, %d 100 ms blocks are %d' % (n / k, need, need * ss), 'rate %d, %d channels' % (r, k))
            if n % (ss * k):
                return rep.ob(text, 'refuted', wh, 'the buffer of %s frames does not hold a whole number of 100 ms blocks of %d' % (n / k, ss), 'rate %d, %d channels' % (r, k))
    SIZED.add((code, need, tier))
    rep.ob(text, 'proved', wh)


SIZED = set()
# every mode that has the bits the mode constants imply
ALLMODES = [m | s | i | p | h for m in (1,) for s in (0, 3, 11) for i in (0, 5) for p in (0, 0x11, 0x31) for h in (0, 0x40)]


def c30_new(mode, ask=True):
    def run(c, rep, tier):
        wh = where(c, 'new')
        val, st, okc = c.construct(mode=mode)
        C, R, m, _ = c.fresh_args(mode=mode)
        bs = buffers(c, val, R)
        if len(bs) != 1:
            return rep.ob('new, mode %d: the sample buffer' % mode, 'undecided', wh, '%d buffers depend on the rate' % len(bs))
        need = 30 if mode & 2 else 4
        sized(c, rep, 'new, mode 0x%x: the buffer holds %d whole 100 ms blocks at every rate' % (mode, need), wh, bs[0][1], C, R, {}, need, tier, rates(tier))
        if not ask:
            return
        # the queries at any time
        ref, st, info = c.selfval(mode=mode)
        for q, on in (('loudness_momentary', True), ('loudness_shortterm', mode & 2)):
            if on:
                f = c.method(q)
                r = c.run(f, [ref], st)
                if r.st is None:
                    rep.ob('new, mode 0x%x: %s is available' % (mode, q), 'undecided', wh)
                    continue
                okc, et, ok, facts, pc = exits(c, r)
                bad = band(bnot(okc), r.st.pc)
                # the refusal is a condition on rate and channel count
                names = {R: 'R', C: 'C'}
                text = 'new, mode 0x%x: %s is available' % (mode, q)
                s, ev = c.never(bad, r.st.facts, (16, 17, 25, 44100))
                if s == 'undecided':
                    try:
                        g = eval('lambda R, C: ' + pycode(bad, names, {}), {})
                        s, ev = 'proved', None
                        for x in rates(tier):
                            if g(x, 1) or g(x, 64):
                                s, ev = 'refuted', 'rate %d' % x
                                break
                    except Undecided:
                        pass
                rep.ob(text, s, '%s (%s)' % (f['path'], span(f)), '', ev)
    return run


def c30_window(ch, mode, rest):
    """after set_max_window or change_parameters: the buffer for the new window and rate"""
    def run(c, rep, tier):
        f = c.method('set_max_window' if not ch else 'change_parameters')
        wh = '%s (%s)' % (f['path'], span(f))
        ref, st, info = c.selfval(mode=mode)
        C, R, m, _ = c.fresh_args(mode=mode)
        a = c.opaque_args(f, 1)
        r = c.run(f, [ref] + a, st)
        okc, et, ok, facts, pc = exits(c, r)
        v = c.exp(c.E.readloc(c.E.deref(ref, r.st), r.st))
        R2 = a[1] if ch else R
        nm = [n for n, _ in buffers(c, c.construct(mode=mode)[0], R)]
        bs = [x for n, x in buffers(c, v, R2) if n in nm]
        if len(bs) != 1:
            return rep.ob('%s: the sample buffer' % f['path'], 'undecided', wh, '%d buffers depend on the rate' % len(bs))
        need = 30 if mode & 2 else 4
        ln = bs[0]
        deps = set(allsyms(ln))
        if ch:
            win_ = [s for s in deps if s not in (C, R) and s not in a]
            if len(win_) != 1:
                return rep.ob('%s: the sample buffer' % f['path'], 'undecided', wh, 'depends on %s' % ', '.join(show(s) for s in win_))
        rs = rates('quick')[::7] if tier != 'thorough' else rates('quick')
        for w in windows(tier)[rest::4]:
            if ch and w < (3000 if mode & 2 else 400):
                continue
            text = '%s, mode 0x%x, window %d: the buffer holds %d whole 100 ms blocks at every rate' % ('change_parameters' if ch else 'set_max_window', mode, w, need)
            if ch:
                # from another rate and channel count
                sized(c, rep, text, wh, ln, a[0], R2, {win_[0]: w, C: 63, R: 15}, need, tier, rs)
            else:
                # from another window
                other = {s: 1 for s in deps if s not in (C, R)}
                other[a[0]] = w
                sized(c, rep, text, wh, ln, C, R, other, need, tier, rs)
    return run


def c30_modes(modes):
    def run(c, rep, tier):
        for m in modes:
            c30_new(m, False)(c, rep, tier)
    return run


def c30_feed(rate, C, mode, fmt='f64', planar=False):
    """silence until the buffer has wrapped, then arbitrary samples: every call succeeds, no panic"""
    def run(c, rep, tier):
        name = 'add_frames_%s%s' % ('planar_' if planar else '', fmt)
        wh = where(c, name)
        a = analyzer(c, C, rate, mode)
        zero = num(0) if fmt in BITS else fconst(0.0)
        blk = 30 if mode & 2 else 4
        ss = (rate + 5) // 10
        total = blk * ss + 2 * ss + 1
        T = 0
        sizes_ = [1, ss, 4 * ss, 0, 2, total]
        while T < total:
            n = min(sizes_[0], total - T)
            sizes_ = sizes_[1:] + sizes_[:1]
            fed(c, rep, a, '%s, rate %d, %d channels, mode 0x%x, %d frames after %d' % (name, rate, C, mode, n, T), wh, [[zero] * C] * n, fmt, planar)
            T += n
        if mode & 0x40 and C > 2:
            return
        for n in (1, ss):
            fed(c, rep, a, '%s, rate %d, %d channels, mode 0x%x, %d arbitrary frames after %d' % (name, rate, C, mode, n, T), wh, frames(fmt, T, T + n, C), fmt, planar)
            T += n
    return run


def fed(c, rep, a, text, wh, fs, fmt, planar):
    r = a.feed(fs, fmt, planar)
    tag, okv, et = c.result(r.v)
    bad = band(r.st.pc, bnot(eq(tag, ZERO)))
    st, ev, at_ = 'proved', None, wh
    for k, w in [(bad, wh)] + [(band(e.pc, e.cond), '%s (%s)' % (e.fn, e.span)) for e in r.events if e.kind == 'panic']:
        if k is not FALSE:
            s, ev = c.never(k, r.st.facts, (0, 1))
            if s == 'undecided':
                s = 'proved' if nwit(k) is None and not usable(k) else s
            if s != 'proved':
                st, at_ = s, w
                break
    rep.ob('%s: succeeds' % text, st, at_, '', ev)


def usable(k):
    """the condition is satisfiable as far as the comparison of its literals shows"""
    try:
        return not all(order_contradiction(l) for l, x, y in pairs(k, TRUE, FALSE, 500))
    except OverflowError:
        return True


C30 = [('new, mode 0x%x' % m, c30_new(m)) for m in (1, 5, 15, 3, 7, 0x7f, 0x45)] + [('new, modes', c30_modes(ALLMODES[:18])), ('new, more modes', c30_modes(ALLMODES[18:]))] + [
    ('%s, mode 0x%x, %d' % ('change_parameters' if ch else 'set_max_window', m, i), c30_window(ch, m, i)) for ch in (0, 1) for m in (5, 7, 0x2f | 0x11) for i in range(4)] + [
    ('adding, rate %d, %d channels, mode 0x%x' % (r, C, m), c30_feed(r, C, m, f, p)) for r, C, m, f, p in (
        (16, 1, 5, 'f64', False), (16, 2, 15, 'f32', False), (16, 1, 0x35, 'i16', False), (16, 2, 0x31, 'f64', True), (25, 2, 0x15, 'i32', True), (16, 7, 0x35, 'f64', False), (44, 1, 3, 'f64', False),
        (16, 64, 5, 'f32', False), (17, 8, 0x31, 'f64', False), (26, 5, 0x31, 'f32', True), (95, 1, 5, 'f64', False))]
