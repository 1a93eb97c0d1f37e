"""Rules over the exits of the public entry points: C04, C06, C08, C09."""
from ctx import *


def has(m, mask):
    c = TRUE
    for i in range(8):
        if mask >> i & 1:
            c = band(c, bit(m, i) if m.op != 'int' else boolc(m.args[0] >> i & 1))
    return c


QUERIES_MODE = {
    'loudness_global': I, 'relative_threshold': I, 'loudness_range': LRA,
    'sample_peak': SP, 'prev_sample_peak': SP, 'true_peak': TP, 'prev_true_peak': TP,
}


def span(fn):
    return fn.get('span', '')


def exits(c, r):
    """(ok condition, err-tag term, ok value, facts, pc)"""
    tag, ok, et = c.result(r.v)
    return eq(tag, ZERO), et, ok, r.st.facts, r.st.pc


def iserr(okc, et, code):
    e = eq(et, num(code)) if et is not None else FALSE
    return band(bnot(okc), e)


def contract(c, rep, name, r, bad, what, pool=(), tries=150):
    """the violation condition `bad` must be impossible at the exits of entry r"""
    bad = band(bad, r.st.pc)
    s, ev = c.never(bad, r.st.facts, pool, tries)
    return rep.ob('%s: %s' % (name, what), s, '%s (%s)' % (r.fn['path'], span(r.fn)), '', ev)


def c04(c, rep, tier):
    errs = c.err_tags()
    IM = errs['InvalidMode']
    m = None
    for name, mask in QUERIES_MODE.items():
        f = c.method(name)
        ref, st, info = c.selfval()
        m = sym('mode', 'i', 0, 255)
        r = c.run(f, [ref] + c.opaque_args(f, 1), st)
        okc, et, ok, facts, pc = exits(c, r)
        on = has(m, mask)
        contract(c, rep, name, r, band(bnot(on), bnot(iserr(okc, et, IM))), 'without its mode answers Err(InvalidMode)')
        contract(c, rep, name, r, band(on, iserr(okc, et, IM)), 'with its mode is never refused as InvalidMode')


def c06(c, rep, tier):
    errs = c.err_tags()
    IX, IM = errs['InvalidChannelIndex'], errs['InvalidMode']
    C = sym('C', 'i', 1, 64)
    m = sym('mode', 'i', 0, 255)
    for name in ('sample_peak', 'prev_sample_peak', 'true_peak', 'prev_true_peak'):
        f = c.method(name)
        ref, st, info = c.selfval()
        a = c.opaque_args(f, 1)
        r = c.run(f, [ref] + a, st)
        okc, et, ok, facts, pc = exits(c, r)
        on = has(m, QUERIES_MODE[name])
        inr = lt(a[0], C)
        contract(c, rep, name, r, band(on, band(bnot(inr), bnot(iserr(okc, et, IX)))), 'channel >= count is Err(InvalidChannelIndex)', (1, 2, 6, 63, 64))
        contract(c, rep, name, r, band(on, band(inr, bnot(okc))), 'every channel below the count is accepted', (1, 2, 6, 63, 64))
        contract(c, rep, name, r, iserr(okc, et, IX) if False else band(bnot(on), iserr(okc, et, IX)), 'mode is checked before the channel')
    # set_channel
    f = c.method('set_channel')
    dm = chan_tags(c)['DualMono']
    ref, st, info = c.selfval()
    a = c.opaque_args(f, 1)
    v = c.exp(a[1])
    r = c.run(f, [ref, a[0], v], st)
    okc, et, ok, facts, pc = exits(c, r)
    t = v.a[1]
    good = band(lt(a[0], C), bor(bnot(eq(t, num(dm))), eq(C, ONE)))
    contract(c, rep, 'set_channel', r, band(good, bnot(okc)), 'every valid channel/type is accepted', range(0, 32))
    contract(c, rep, 'set_channel', r, band(bnot(good), bnot(iserr(okc, et, IX))), 'invalid channel or DualMono outside mono is Err(InvalidChannelIndex)', range(0, 32))
    # stored at exactly the requested position: read back through the public getter
    stored(c, rep, 'set_channel', r, ref, okc, lambda i: (eq(i, a[0]), t))


def c06_map(c, rep, tier):
    errs = c.err_tags()
    IX = errs['InvalidChannelIndex']
    C = sym('C', 'i', 1, 64)
    chans = chan_tags(c)
    dm = chans['DualMono']
    # set_channel_map
    f = c.method('set_channel_map')
    ref, st, info = c.selfval()
    a = c.opaque_args(f, 1)
    r = c.run(f, [ref] + a, st)
    okc, et, ok, facts, pc = exits(c, r)
    ln = c.exp(a[0]).a[3]
    contract(c, rep, 'set_channel_map', r, band(bnot(eq(ln, C)), bnot(iserr(okc, et, IX))), 'a map of another length is Err(InvalidChannelIndex)')
    contract(c, rep, 'set_channel_map', r, band(bnot(okc), bnot(iserr(okc, et, IX))), 'only error is InvalidChannelIndex')
    # one entry per channel, per channel count partition, concrete type classes
    for n in (1, 2, 3):
        for pos in range(n):
            for ty in sorted(set(chans.values())):
                if n > 1 and ty not in (dm, 0, 1, 31, dm - 1, dm + 1) and pos != n - 1:
                    continue
                setmap(c, rep, f, n, pos, ty, dm, IX)
    E = c.E


def setmap(c, rep, f, n, pos, ty, dm, IX):
    E = c.E
    ref, st, info = c.selfval(ch=n)
    sty = E.ty(f['locals'][2])
    et_ = E.ty(sty['t'])['t']
    def en(k):
        return En(et_, num(k), [() if True else None for _ in E.ty(et_)['v']])
    vals = [en(1)] * n
    vals[pos] = en(ty)
    reg = region(('cm', n, pos, ty), None, None, 'map')
    st.mem[reg] = Ar(et_, num(n), ('u', hole(), en(1)), ((('p', num(pos), en(ty)),)))
    r = c.run(f, [ref, Sl(reg, (), ZERO, num(n))], st, unroll=n + 2)
    okc, et, ok, facts, pc = exits(c, r)
    good = ty != dm or n == 1
    nm = 'set_channel_map of %d channels, type %d at %d' % (n, ty, pos)
    if good:
        contract(c, rep, nm, r, bnot(okc), 'is accepted')
        stored(c, rep, nm, r, ref, okc, lambda i: (eq(i, num(pos)), num(ty)), other=num(1))
    else:
        contract(c, rep, nm, r, bnot(iserr(okc, et, IX)), 'DualMono outside mono is Err(InvalidChannelIndex)')


def stored(c, rep, name, r, ref, okc, spec, other=None):
    """channel_map() read back: spec(i) = (condition, tag) and unchanged (or `other`) elsewhere"""
    E = c.E
    g = c.method('channel_map')
    r2 = c.run(g, [ref], r.st)
    r0st = State()
    i = sym('i', 'i', 0, 63)
    s2 = r2.st
    v = E.readloc(E.step(E.deref(r2.v, s2), ('x', i)), s2)
    tag = c.entag(v)
    if tag is None:
        rep.ob('%s: stored types' % name, 'undecided', r.fn['path'])
        return
    C = c.exp(r2.v).a[3] if c.exp(r2.v).k == 'Sl' else None
    cond, want = spec(i)
    bad = differ(band(band(okc, r2.st.pc), cond), tag, want)
    if C is not None:
        bad = band(bad, lt(i, C))
    s, ev = c.never(bad, s2.facts, range(0, 32))
    rep.ob('%s: requested type is stored at the requested position' % name, s, r.fn['path'], '', ev)
    # elsewhere
    st0 = State()
    if other is None:
        ref0, st0, _ = c.selfval()
        v0 = E.readloc(E.step(E.deref(c.run(g, [ref0], st0).v, st0), ('x', i)), st0)
        other = c.entag(v0)
    bad = differ(band(band(okc, r2.st.pc), bnot(cond)), tag, other)
    if C is not None:
        bad = band(bad, lt(i, C))
    s, ev = c.never(bad, s2.facts, range(0, 32))
    rep.ob('%s: other positions keep their type' % name, s, r.fn['path'], '', ev)


def chan_tags(c):
    for t in c.E.tt:
        if t['k'] == 'adt' and t['a'] == 'enum' and t['n'].split('::')[-1] == 'Channel' and t['n'].startswith('ebur128'):
            return {v['n']: i for i, v in enumerate(t['v'])}
    raise Missing('enum Channel')


def getter(c, name, ref, st):
    r = c.run(c.method(name), [ref], st)
    return c.intof(r.v) if isinstance(r.v, V) else r.v


def c08(c, rep, tier):
    errs = c.err_tags()
    NM, IM = errs['NoMem'], errs['InvalidMode']
    # new
    f = c.method('new')
    ch, rate = c.opaque_args(f)[:2]
    m = sym('mode', 'i', 0, 255)
    r = c.run(f, [ch, rate, c.intval(f['locals'][3], m)], State())
    okc, et, ok, facts, pc = exits(c, r)
    rng = band(band(lt(ZERO, ch), le(ch, num(64))), band(le(num(16), rate), le(rate, num(2822400))))
    pool = (0, 1, 2, 6, 63, 64, 65, 66, 15, 16, 17, 44100, 48000, 2822399, 2822400, 2822401, U32_MAX, 1 << 31)
    mm = has(m, M)
    contract(c, rep, 'new', r, band(bnot(rng), bnot(iserr(okc, et, NM))), 'channels or rate out of range is Err(NoMem)', pool, 400)
    contract(c, rep, 'new', r, band(band(rng, bnot(mm)), bnot(iserr(okc, et, IM))), 'mode without M is Err(InvalidMode)', pool, 400)
    contract(c, rep, 'new', r, band(band(rng, mm), iserr(okc, et, IM)), 'mode with M is never Err(InvalidMode)', pool, 400)
    allocs = alloc_ok(r)
    contract(c, rep, 'new', r, band(band(band(rng, mm), allocs), bnot(okc)), 'documented parameters are accepted (when memory is available)', pool, 400)
    # getters on the new object
    ref, st, info = c.selfval(fresh=True)
    C, R = sym('C', 'i', 1, 64), sym('R', 'i', 16, 2822400)
    for g, want in (('channels', C), ('rate', R), ('mode', m), ('max_history', num(USIZE_MAX))):
        x = getter(c, g, ref, st)
        equal(c, rep, 'new then %s()' % g, x, want, st, c.method(g))
    x = getter(c, 'max_window', ref, st)
    equal(c, rep, 'new then max_window()', x, ite(has(m, S_), num(3000), num(400)), st, c.method('max_window'))
    # change_parameters
    f = c.method('change_parameters')
    ref, st, info = c.selfval()
    a = c.opaque_args(f, 1)
    r = c.run(f, [ref] + a, st)
    okc, et, ok, facts, pc = exits(c, r)
    ch, rate = a
    rng = band(band(lt(ZERO, ch), le(ch, num(64))), band(le(num(16), rate), le(rate, num(2822400))))
    contract(c, rep, 'change_parameters', r, band(bnot(rng), bnot(iserr(okc, et, NM))), 'channels or rate out of range is Err(NoMem)', pool, 400)
    small = lt(getter(c, 'max_window', ref, st), num(1 << 32))
    contract(c, rep, 'change_parameters', r, band(band(band(rng, small), alloc_ok(r)), bnot(okc)), 'documented parameters are accepted (when memory is available)', pool, 400)
    x = getter(c, 'channels', ref, r.st)
    equal(c, rep, 'change_parameters then channels()', x, ch, r.st, r.fn, okc)
    x = getter(c, 'rate', ref, r.st)
    equal(c, rep, 'change_parameters then rate()', x, rate, r.st, r.fn, okc)
    equal(c, rep, 'failed change_parameters keeps channels()', getter(c, 'channels', ref, r.st), C, r.st, r.fn, bnot(okc))
    equal(c, rep, 'failed change_parameters keeps rate()', getter(c, 'rate', ref, r.st), R, r.st, r.fn, bnot(okc))
    equal(c, rep, 'change_parameters keeps mode()', getter(c, 'mode', ref, r.st), m, r.st, r.fn)
    # getters elsewhere are unaffected
    for name, f in sorted(c.mutators().items()):
        if name.startswith(('add_frames', 'seed_frames')) and not name.endswith('_i16'):
            continue
        if name.startswith(('add_frames', 'seed_frames')):
            continue
        if name == 'change_parameters':
            continue
        ref, st, info = c.selfval()
        r = c.run(f, [ref] + c.opaque_args(f, 1), st)
        for g in ('channels', 'rate', 'mode', 'max_window', 'max_history'):
            if (name, g) in (('set_max_window', 'max_window'), ('set_max_history', 'max_history')):
                continue
            x0, x1 = getter(c, g, ref, st), getter(c, g, ref, r.st)
            equal(c, rep, '%s keeps %s()' % (name, g), x1, x0, r.st, f)


def alloc_ok(r):
    """every allocation of the entry succeeds"""
    c = TRUE
    seen = set()

    def walk(t):
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == 'allocok':
            acc.append(t)
        for a in t.args:
            if isinstance(a, T):
                walk(a)
    acc = []
    from engine import V as _V
    def wv(v, d=0):
        if isinstance(v, T):
            walk(v)
        elif isinstance(v, _V) and d < 6:
            for a in v.a:
                wv(a, d + 1)
        elif isinstance(v, tuple):
            for a in v:
                wv(a, d + 1)
    wv(r.v)
    walk(r.st.pc)
    for a in acc:
        c = band(c, batom(a))
    return c


def equal(c, rep, name, x, want, st, fn, cond=TRUE, pool=(), tries=150):
    """x == want under cond at the exit state st"""
    if not isinstance(x, T):
        return rep.ob(name, 'undecided', fn['path'])
    x = st.facts.simp(x)
    bad = differ(band(cond, st.pc), x, want)
    s, ev = c.never(bad, st.facts, tuple(pool) + (0, 1, 399, 400, 401, 2999, 3000, 3001, U32_MAX), tries)
    return rep.ob(name, s, '%s (%s)' % (fn['path'], span(fn)), '' if s == 'proved' else 'got %s, expected %s' % (show(x)[:200], show(want)[:200]), ev)


def c09(c, rep, tier):
    m = sym('mode', 'i', 0, 255)
    for name, get in (('set_max_window', 'max_window'), ('set_max_history', 'max_history')):
        f = c.method(name)
        ref, st, info = c.selfval()
        a = c.opaque_args(f, 1)
        r = c.run(f, [ref] + a, st)
        okc, et, ok, facts, pc = exits(c, r)
        w = a[0]
        want = ite(has(m, S_), ite(lt(w, num(3000)), num(3000), w), ite(lt(w, num(400)), num(400), w))
        equal(c, rep, '%s stores the requested duration raised to its minimum' % name, getter(c, get, ref, r.st), want, r.st, f, okc)
        equal(c, rep, 'failed %s keeps the setting' % name, getter(c, get, ref, r.st), getter(c, get, ref, st), r.st, f, bnot(okc))
        if name == 'set_max_history':
            contract(c, rep, name, r, bnot(okc), 'never fails')
    ref, st, info = c.selfval(fresh=True)
    equal(c, rep, 'new window', getter(c, 'max_window', ref, st), ite(has(m, S_), num(3000), num(400)), st, c.method('new'))
    equal(c, rep, 'new history', getter(c, 'max_history', ref, st), num(USIZE_MAX), st, c.method('new'))


C04 = [('single-instance queries', c04)]
C06 = [('queries and set_channel', c06), ('set_channel_map', c06_map)]
C08 = [('new / change_parameters / getters', c08)]
C09 = [('stored settings', c09)]
