"""Unchecked accesses (C17), floating-point environment (C16)."""
from rules_audio import *
from rules_state import allsyms
from engine import Budget

# what a field of the analyzer that is only bounded by its own invariant is called
OWN = 's.'


def accesses(r):
    """[(event, index term, bound term or None)]: index must be below the bound"""
    out = []
    for e in r.events:
        if e.kind == 'unchecked':
            out.append((e, e.idx, e.ln))
        elif e.kind == 'elem-to-array':
            n = e.ln if isinstance(e.ln, T) else num(e.ln)
            out.append((e, None if e.idx is None else sub(add(e.idx, n), ONE), e.cap))
    return out


def inbounds(c, rep, text, wh, r, own=False):
    """own: the analyzer is concrete, so nothing about its fields is assumed"""
    st, at_, why, ev = 'proved', wh, '', None
    for e, i, n in accesses(r):
        w = '%s (%s)' % (e.fn, e.span)
        if i is None or n is None:
            st, at_, why = 'undecided', w, 'extent not known'
            continue
        k = band(e.pc, bor(lt(i, ZERO), bnot(lt(i, n))))
        s, x = c.never(k, e.facts, (0, 1, 2, 63, 64, 1 << 40))
        if s == 'refuted' and not own and any(y.args and str(y.args[0]).startswith(OWN) for y in allsyms(i)):
            s = 'undecided'         # the bound on the field is decided on the concrete analyzers
        if s == 'refuted':
            return rep.ob(text, 'refuted', w, 'accesses element %s of %s' % (show(i)[:80], show(n)[:80]), x)
        if s != 'proved':
            st, at_, why = 'undecided', w, 'element %s of %s' % (show(i)[:80], show(n)[:80])
    rep.ob(text, st, at_, why, ev)


def sites(r):
    return {(e.fn, e.span) for e, i, n in accesses(r)}


def c17_method(name):
    def run(c, rep, tier):
        f = c.method(name)
        t = c.E.ty(f['locals'][1]) if f['nargs'] else None
        own = t is not None and t['k'] == 'ref'
        if own:
            if 'frames' in name:
                return          # opened for fixed sizes below
            ref, st, info = c.selfval()
            r = c.run(f, [ref] + c.opaque_args(f, 1), st)
        else:
            r = c.run(f, c.opaque_args(f, 0), State())
        inbounds(c, rep, '%s, any arguments, any state: unchecked accesses are in bounds' % name, '%s (%s)' % (f['path'], span(f)), r)
    return run


def position(c, a):
    """the integers of the analyzer's state below the interpolator: {path: value}"""
    from rules_tp import walk
    out = []
    v = a.val()
    walk(c, (a.st, a.st), v, v, (), out, set(), True)
    return {p: x for p, x, y in out if isinstance(x, T) and x.sort == 'i' and x.op == 'int' and len(p) > 2}


def c17_cycle(C, rate):
    """every position of the ring: one frame per call until the integers of the state repeat, with a
    reset, a seed and longer calls at every point"""
    def run(c, rep, tier):
        wh = where(c, 'add_frames_f64')
        a = analyzer(c, C, rate, 0x31)
        z = fconst(0.0)
        seen = {}
        base = '%d Hz, %d channels' % (rate, C)
        for k in range(64):
            c.E.steps = 0
            b = a.copy()
            r = b.call('reset', [])
            inbounds(c, rep, '%s: reset after %d frames' % (base, k), wh, r, True)
            if k in (0, 1, 5, 11, 12, 13, 23, 24, 25) or tier == 'thorough':
                for n in (1, 2, 3):
                    r = b.feed([[z] * C] * n)
                    inbounds(c, rep, '%s: %d frames after a reset after %d frames' % (base, n, k), wh, r, True)
                b = a.copy()
                r = b.feed([[z] * C] * 2, 'f32', False, True)
                inbounds(c, rep, '%s: seeding after %d frames' % (base, k), wh, r, True)
                r = b.feed([[num(0)] * C] * 3, 'i16', True)
                inbounds(c, rep, '%s: seeding and a planar call after %d frames' % (base, k), wh, r, True)
            r = a.feed([[z] * C])
            inbounds(c, rep, '%s: frame %d' % (base, k), wh, r, True)
            p = {q: x for q, x in position(c, a).items() if any('tp' == y or 'interp' in str(y) or 'position' in str(y) for y in q)}
            key = tuple(sorted((str(q), x.args[0]) for q, x in p.items()))
            if key in seen and k - seen[key] > 1:
                rep.ob('%s: the positions of the ring repeat every %d frames' % (base, k - seen[key]), 'proved', wh)
                return
            seen.setdefault(key, k)
        rep.ob('%s: the positions of the ring repeat' % base, 'undecided', wh)
    return run


def c17_feed(fmt, planar, seed):
    """every entry point, small sizes, across block boundaries, every interpolator"""
    def run(c, rep, tier):
        name = '%s_frames_%s%s' % ('seed' if seed else 'add', 'planar_' if planar else '', fmt)
        for C in (1, 3, 6) if tier != 'thorough' else (1, 2, 3, 4, 5, 6, 8):
            for rate, mode in ((16, 0x3f), (100000, 0x31)) if tier != 'thorough' else ((16, 0x3f), (100000, 0x31), (200000, 0x35)):
                c.E.steps = 0
                a = analyzer(c, C, rate, mode)
                z = num(0) if fmt in BITS else fconst(0.0)
                for n in (1, 9, 2) if tier != 'thorough' else (0, 1, 5, 9, 2):
                    r = a.feed([[z] * C] * n, fmt, planar, seed)
                    inbounds(c, rep, '%s, %d Hz, %d channels, %d frames: unchecked accesses are in bounds' % (name, rate, C, n), where(c, name), r, True)
    return run


C17 = [('cycle %d Hz, %d channels' % (r, C), c17_cycle(C, r)) for C in (1, 2, 3, 4, 6, 8) for r in (44100, 100000)] + [
    ('%s %s%s' % ('seed' if s else 'add', 'planar ' if p else '', f), c17_feed(f, p, s)) for s in (False, True) for p in (False, True) for f in FMT]


def c17_all(c, rep, tier):
    for name in sorted(c.methods()):
        try:
            c17_method(name)(c, rep, tier)
        except Budget:
            rep.ob('%s: unchecked accesses' % name, 'undecided', name)


C17.append(('methods', c17_all))


# ---------------------------------------------------------------- C16
def setsenv(c, fid, depth=0, seen=None):
    """the function may set the floating-point environment"""
    memo = c.cache.setdefault('setsenv', {})
    if fid in memo:
        return memo[fid]
    memo[fid] = False
    f = c.E.fns.get(fid)
    r = False
    for stmts, t in (f or {}).get('blocks') or ():
        if t[0] == 'call':
            if str(t[2]).split('::')[-1] == '_mm_setcsr' or t[1] is not None and setsenv(c, t[1]):
                r = True
        elif t[0] == 'drop' and restores(c, t[4]):
            r = True
        elif t[0] == 'asm':
            r = True
    memo[fid] = r
    return r


def restores(c, ty, depth=0):
    """dropping a value of the type sets the floating-point environment"""
    if ty is None or depth > 6:
        return False
    d = c.E.models.drops.get(ty)
    if d is not None and setsenv(c, d['id']):
        return True
    t = c.E.ty(ty)
    if t['k'] == 'adt' and t.get('v'):
        return any(restores(c, f[1] if isinstance(f, list) else f, depth + 1) for v in t['v'] for f in v['f'])
    return False


def cleanup(c, fid, bb):
    """what unwinding through the terminator of a block does: 'restores', 'leaves' or None (does not unwind)"""
    f = c.E.fns[fid]
    t = f['blocks'][bb][1]
    u = {'call': 8, 'assert': 5, 'drop': 3}.get(t[0])
    if u is None:
        return None
    if not isinstance(t[u], int):
        return None if t[u] == 'unreachable' else 'leaves'
    seen, todo = set(), [t[u]]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        x = f['blocks'][b][1]
        if x[0] == 'drop':
            if restores(c, x[4]):
                return 'restores'
            todo.append(x[2])
        elif x[0] == 'goto':
            todo.append(x[1])
        elif x[0] == 'switch':
            todo += [y for _, y in x[2]] + [x[3]]
        elif x[0] == 'call':
            if str(x[2]).split('::')[-1] == '_mm_setcsr' or x[1] is not None and setsenv(c, x[1]):
                return 'restores'
            if x[7] is not None:
                todo.append(x[7])
        elif x[0] == 'assert':
            todo.append(x[4])
    return 'leaves'


def guarded(c, frames):
    """unwinding from the innermost of the frames restores the environment in one of them"""
    return any(cleanup(c, f, b) == 'restores' for f, b in frames)


def restoring(c, frames):
    """the call is itself part of setting it back"""
    for f, b in frames:
        t = c.E.fns[f]['blocks'][b][1]
        if t[0] == 'drop' and restores(c, t[4]) or t[0] == 'call' and (str(t[2]).split('::')[-1] in ('_mm_setcsr', '_mm_getcsr') or t[1] is not None and setsenv(c, t[1]) and f == frames[-1][0]):
            return True
    return False


def sitename(c, frames):
    f, b = frames[-1]
    g = c.E.fns[f]
    t = g['blocks'][b][1]
    sp = next((x for x in reversed(t) if isinstance(x, str) and ':' in x and x.split(':')[-1].isdigit()), g.get('span', ''))
    return '%s (%s)' % (g['path'], sp)


def envkept(c, rep, text, wh, r, dirty):
    init = c.E.models.mxcsr.init
    if r.st is not None:
        now = r.st.get(c.E.models.mxcsr)
        if now is init:
            rep.ob('%s: returns with the caller\'s floating-point environment' % text, 'proved', wh)
        else:
            s, ev = ('undecided', None)
            if isinstance(now, T):
                s, ev = c.never(band(r.st.pc, bnot(eq(now, init))), r.st.facts, (0, 0x1f80, 0x9f80, 0x8040, 0xffff))
            rep.ob('%s: returns with the caller\'s floating-point environment' % text, s, wh, 'returns with %s' % (show(now)[:100] if isinstance(now, T) else '?'), ev)
    st, at_, why, ev = 'proved', wh, '', None
    for e in r.events:
        if e.kind in ('panic', 'loop') and e.dirty and not guarded(c, e.dirty):
            s, x = c.never(band(e.pc, e.cond) if e.kind == 'panic' else e.pc, e.facts, (0, 1, 2, 64)) if e.kind == 'panic' else ('undecided', None)
            if s == 'proved':
                continue
            st, at_, why, ev = s, '%s (%s)' % (e.fn, e.span), 'a panic here leaves the changed environment', x
            if s == 'refuted':
                break
    rep.ob('%s: a panic leaves the caller\'s floating-point environment' % text, st, at_, why, ev)


def unwinding(c, rep, dirty):
    """every call made while the environment is changed"""
    sites = {}
    for fr in dirty:
        if restoring(c, fr):
            continue
        n = sitename(c, fr)
        ok = guarded(c, fr) or all(cleanup(c, f, b) is None for f, b in fr)
        sites[n] = sites.get(n, True) and ok
    for n, ok in sorted(sites.items()):
        rep.ob('unwinding from %s restores the floating-point environment' % n, 'proved' if ok else 'undecided', n)


def c16_feed(fmt, planar, seed):
    def run(c, rep, tier):
        name = '%s_frames_%s%s' % ('seed' if seed else 'add', 'planar_' if planar else '', fmt)
        c.E.dirty = set()
        for C, rate, mode in ((1, 16, 0x3f), (3, 100000, 0x31), (6, 48000, 0x35)):
            a = analyzer(c, C, rate, mode, None if C == 1 else [1, 0, 2, 1, 1, 1][:C])
            for n in (0, 1, 9):
                r = a.feed(frames(fmt, 0, n, C) if n < 2 and C < 3 else [[num(0) if fmt in BITS else fconst(0.0)] * C] * n, fmt, planar, seed)
                envkept(c, rep, '%s of %d frames, %d Hz, %d channels, mode 0x%x' % (name, n, rate, C, mode), where(c, name), r, c.E.dirty)
        unwinding(c, rep, c.E.dirty)
    return run


def c16_methods(c, rep, tier):
    for name, f in sorted(c.methods().items()):
        if 'frames' in name:
            continue
        c.E.steps = 0
        t = c.E.ty(f['locals'][1]) if f['nargs'] else None
        if t is not None and t['k'] == 'ref':
            ref, st, info = c.selfval()
            r = c.run(f, [ref] + c.opaque_args(f, 1), st)
        else:
            r = c.run(f, c.opaque_args(f, 0), State())
        envkept(c, rep, name, '%s (%s)' % (f['path'], span(f)), r, ())


def c16_wrong(c, rep, tier):
    """calls that are refused"""
    for name in ('add_frames_f32', 'seed_frames_i16', 'add_frames_i32', 'seed_frames_f64'):
        f = c.method(name)
        C = 3
        ref, st, info = c.selfval(ch=C)
        a = c.exp(c.opaque_args(f, 1)[0])
        bad = bnot(eq(rem(a.a[3], num(C)), ZERO))
        st.facts.add_bool(bad)
        st.pc = band(st.pc, bad)
        c.E.stoploops = True
        try:
            r = c.run(f, [ref, a], st, unroll=C + 2)
        finally:
            c.E.stoploops = False
        envkept(c, rep, '%s of an incomplete frame' % name, where(c, name), r, ())


C16 = [('%s %s%s' % ('seed' if s else 'add', 'planar ' if p else '', f), c16_feed(f, p, s)) for s in (False, True) for p in (False, True) for f in FMT] + [
    ('other calls', c16_methods), ('refused calls', c16_wrong)]
