"""The C interface against its header and its callers: C13 (ABI), C14 (ownership), C15 (argument ranges)."""
import json, os, re, subprocess
from rules_capi import *
import terms as TM

# ---------------------------------------------------------------- C15
WIDE = ('ebur128_change_parameters', 'ebur128_set_max_window', 'ebur128_set_max_history', 'ebur128_loudness_window')


def wh(f):
    return '%s (%s)' % (f['path'], span(f))


def iszero(v):
    return eq(v, ZERO) if isinstance(v, T) else None


def c15_init(c, rep, tier):
    i = init_run(c)
    f, r = i['f'], i['r']
    over = lt(num(U32_MAX), i['args'][1])
    for v, k in i['cases']:
        if v.k == 'Null':
            continue
        if v.k != 'Rf':
            rep.ob('ebur128_init result', 'undecided', wh(f))
            continue
        s, ev = c.never(band(k, over), r.st.facts, POOL, 200)
        rep.ob('ebur128_init answers NULL to a sample rate that does not fit', s, wh(f), 'a state is returned', ev)


def bandall(*xs):
    k = TRUE
    for x in xs:
        k = band(k, x)
    return k


def c15_wide(c, rep, name):
    E = c.E
    E.steps = 0
    meth, kind = PLAIN[name]
    f = c.cfn(name)
    o = CObj(c)
    st = o.st.copy()
    n = f['nargs'] - 1 - (kind == 'q')
    args = [sym('c%d' % i, 'i', *E.int_range(f['locals'][i + 2])) for i in range(n)]
    big = [a for i, a in enumerate(args) if E.int_range(f['locals'][i + 2])[1] > U32_MAX]
    if not big:
        # the parameter is not wider than the Rust one
        return rep.ob('%s takes no wider integers than EbuR128::%s' % (name, meth), 'proved', wh(f))
    out = []
    if kind == 'q':
        p, reg, x0 = outptr(c, st, f['locals'][f['nargs']])
        out = [p]
    r = c.run(f, [o.ptr] + args + out, st)
    over = FALSE
    for a in big:
        over = bor(over, lt(num(U32_MAX), a))
    cond = band(r.st.pc, over)
    ok = iszero(r.v)
    if ok is None:
        return rep.ob('%s result' % name, 'undecided', wh(f))
    s, ev = c.never(band(cond, ok), r.st.facts, POOL, 300)
    if s == 'undecided':
        # a panic is not an error code either: without the conditions of not panicking, which are about loop states
        ev = search(bandall(o.st.pc, over, ok), None, 300, 1, POOL)
        s = 'refuted' if ev is not None else s
    rep.ob('%s answers an error to a number that does not fit' % name, s, wh(f), 'returns %s' % show(r.v)[:200], ev)
    for l in objdiff(c, o.ref, r.st, o.ref, st, cond):
        leafob(c, rep, l, r.st.facts, '%s with a number that does not fit leaves %s alone' % (name, l.name), wh(f))
    if kind == 'q':
        s, ev = c.never(band(cond, differ(TRUE, r.st.get(reg), x0)), r.st.facts, POOL, 200)
        rep.ob('%s with a number that does not fit writes nothing' % name, s, wh(f), 'writes %s' % show(r.st.get(reg))[:200], ev)


def c15_numbers(c, rep, tier):
    TM.LIFT = 4000
    c15_init(c, rep, tier)
    for n in WIDE:
        c15_wide(c, rep, n)


def c15_frames(c, rep, tier):
    E = c.E
    for name in FRAMES:
        E.steps = 0
        f = c.cfn(name)
        o = CObj(c)
        src = E.opq('sym', ('src',), f['locals'][2])
        n = sym('frames', 'i', 0, USIZE_MAX)
        r = c.run(f, [o.ptr, src, n], o.st.copy(), pathq=frames_cut(c))
        over = lt(num(USIZE_MAX), mul(n, o.C))
        ok = iszero(r.v)
        if ok is None:
            rep.ob('%s result' % name, 'undecided', wh(f))
        else:
            s, ev = c.never(band(band(r.st.pc, over), ok), r.st.facts, POOL + ((1 << 63), 1 << 62, (1 << 64) - 1, 1 << 61), 400)
            rep.ob('%s answers an error to a frame count that cannot be' % name, s, wh(f), 'returns %s' % show(r.v)[:200], ev)
        for e in r.events:
            if e['kind'] == 'cut':
                s, ev = c.never(band(e['pc'], over), e['facts'], POOL + ((1 << 63), 1 << 62, (1 << 64) - 1, 1 << 61), 400)
                rep.ob('%s passes no samples for a frame count that cannot be' % name, s, e['span'], 'reaches EbuR128::%s' % e['fnname'], ev)
        # an empty input given as NULL
        nullslices(c, rep, name, r, eq(n, ZERO), 'an empty input')
        r = c.run(f, [o.ptr, mkv('Null'), ZERO], o.st.copy(), pathq=frames_cut(c))
        nullslices(c, rep, name, r, TRUE, 'no frames at NULL')


def nullslices(c, rep, name, r, cond, what):
    k = 0
    for e in r.events:
        if e['kind'] == 'from_raw_parts':
            k += 1
            null = e['null']
            if null is None:
                rep.ob('%s: slice for %s' % (name, what), 'undecided', e['span'])
                continue
            s, ev = c.never(band(band(e['pc'], null), cond), e['facts'], POOL, 100)
            rep.ob('%s makes no slice from NULL for %s' % (name, what), s, e['span'], 'std::slice::from_raw_parts(NULL, %s)' % show(e['len'])[:60], ev)
        elif e['kind'] == 'nullderef':
            s, ev = c.never(band(e['pc'], cond), e['facts'], POOL, 100)
            rep.ob('%s reads nothing at NULL for %s' % (name, what), s, e['span'], 'NULL is dereferenced', ev)
    if not k:
        rep.ob('%s: no slice is made for %s' % (name, what), 'proved', '')


def c15_multi(c, rep, tier):
    E = c.E
    for name in MULTI:
        E.steps = 0
        f = c.cfn(name)
        for what, p in (('NULL', mkv('Null')), ('a pointer', E.opq('sym', ('states',), f['locals'][1]))):
            st = State()
            op, oreg, x0 = outptr(c, st, f['locals'][3])
            r = c.run(f, [p, ZERO, op], st, unroll=2)
            nullslices(c, rep, name, r, TRUE, 'no states at %s' % what)


def c15_channel(c, rep, tier):
    name = 'ebur128_set_channel'
    E = c.E
    f, g = c.cfn(name), c.method('set_channel')
    t = E.ty(g['locals'][3])
    ds = sorted(int(v['d']) for v in t['v'])
    o = CObj(c)
    st = o.st.copy()
    a, x = sym('c0', 'i', *E.int_range(f['locals'][2])), sym('c1', 'i', *E.int_range(f['locals'][3]))
    r = c.run(f, [o.ptr, a, x], st)
    ins = FALSE
    for d in ds:
        ins = bor(ins, eq(x, num(d)))
    if ds == list(range(ds[0], ds[-1] + 1)):
        ins = band(le(num(ds[0]), x), le(x, num(ds[-1])))
    pool = POOL + (-1, ds[-1], ds[-1] + 1, ds[0], -(1 << 31), (1 << 31) - 1, 255, 256, 256 + ds[0])
    ok = iszero(r.v)
    where = wh(f)
    cond = band(r.st.pc, bnot(ins))
    if ok is None:
        rep.ob('%s result' % name, 'undecided', where)
    else:
        s, ev = c.never(band(cond, ok), r.st.facts, pool, 300)
        rep.ob('%s answers an error to a type that is not in the enumeration' % name, s, where, 'returns %s' % show(r.v)[:200], ev)
    for l in objdiff(c, o.ref, r.st, o.ref, st, cond):
        leafob(c, rep, l, r.st.facts, '%s with a type that is not in the enumeration leaves %s alone' % (name, l.name), where)
    for e in r.events:
        if e['kind'] != 'enum-transmute':
            continue
        tt = E.ty(e['to'])
        if tt['k'] == 'bool':
            dd = [0, 1]
        else:
            dd = sorted(int(v['d']) for v in tt['v'])
        y = e['term']
        out = TRUE
        if dd == list(range(dd[0], dd[-1] + 1)):
            out = bor(lt(y, num(dd[0])), lt(num(dd[-1]), y))
        else:
            for d in dd:
                out = band(out, bnot(eq(y, num(d))))
        s, ev = c.never(band(e['pc'], out), e['facts'], pool, 300)
        rep.ob('%s reinterprets only discriminants as %s' % (name, tt.get('n', 'bool').split('::')[-1]), s, e['span'], 'the integer %s' % show(y)[:100], ev)


# ---------------------------------------------------------------- C14
OWN = re.compile(r'(^|::)(from_raw|into_raw|leak|forget|drop_in_place|dealloc|ManuallyDrop.*|drop|swap|replace|from_raw_in|into_raw_with_allocator|read)$')


def ownedregs(c, o):
    return {o.reg: 'the state', o.ref.a[0]: 'the analyzer'}


def relname(c, v, regs):
    v = c.exp(v) if isinstance(v, V) else v
    if isinstance(v, V) and v.k == 'Rf' and not v.a[1]:
        return regs.get(v.a[0])
    return None


def c14_init(c, rep, tier):
    i = init_run(c)
    f, r, E = i['f'], i['r'], c.E
    where = wh(f)
    raws = {}
    for e in r.events:
        if e['kind'] == 'into_raw':
            v = c.exp(e['val'])
            if v.k == 'Rf' and not v.a[1]:
                raws.setdefault(v.a[0], []).append(e)
            else:
                rep.ob('ebur128_init: what is handed out', 'undecided', e['span'])
    gone = [e for e in r.events if e['kind'] in ('from_raw', 'drop', 'dropval', 'forget')]
    null = FALSE
    given = {}
    for v, k in i['cases']:
        if v.k == 'Null':
            null = bor(null, k)
        elif v.k == 'Rf':
            s = c.exp(E.readloc(E.deref(v, r.st), r.st))
            d = [x for x in (s.a[1] if isinstance(s, V) and s.k == 'St' else ()) if isinstance(x, V) and c.exp(x).k == 'Rf']
            mine = [('the state', v)] + [('the analyzer', c.exp(x)) for x in d]
            if len(mine) != 2 or v.a[1] or mine[1][1].a[1] or mine[0][1].a[0] is mine[1][1].a[0]:
                rep.ob('ebur128_init: allocations of the state', 'undecided', where)
                continue
            for what, p in mine:
                reg = p.a[0]
                given[reg] = what
                es = raws.get(reg, [])
                if not es:
                    heap = 'heap' in str(reg.name if hasattr(reg, 'name') else reg)
                    rep.ob('ebur128_init hands out %s' % what, 'undecided' if heap else 'refuted', where, 'not a heap allocation of its own')
                    continue
                got = FALSE
                for e in es:
                    q, ev = c.never(band(band(k, got), e['pc']), r.st.facts, POOL, 60)
                    rep.ob('ebur128_init hands out %s once' % what, q, e['span'], '', ev)
                    got = bor(got, e['pc'])
                q, ev = c.never(band(k, bnot(got)), r.st.facts, POOL, 100)
                rep.ob('ebur128_init gives away the ownership of %s it returns' % what, q, where, 'still owned by the function', ev)
                for e in gone:
                    w = c.exp(e['val']) if isinstance(e['val'], V) else None
                    if w is not None and w.k == 'Rf' and w.a[0] is reg and not w.a[1] and e['kind'] != 'forget':
                        q, ev = c.never(band(k, e['pc']), r.st.facts, POOL, 60)
                        rep.ob('ebur128_init keeps %s it returns alive' % what, q, e['span'], e['kind'], ev)
        else:
            rep.ob('ebur128_init result', 'undecided', where)
    # nothing is given away when NULL is returned
    n = 0
    for reg, es in raws.items():
        for e in es:
            n += 1
            back = FALSE
            for g in gone:
                w = c.exp(g['val']) if isinstance(g['val'], V) else None
                if g['kind'] == 'from_raw' and w is not None and w.k == 'Rf' and w.a[0] is reg:
                    back = bor(back, g['pc'])
            q, ev = c.never(band(band(null, e['pc']), bnot(back)), r.st.facts, POOL, 100)
            rep.ob('ebur128_init leaks nothing when it returns NULL', q, e['span'], 'NULL is returned after Box::into_raw', ev)
            if reg not in given:
                q, ev = c.never(band(e['pc'], bnot(back)), e['facts'], POOL, 60)
                rep.ob('ebur128_init gives away nothing else', q, e['span'], 'an allocation nobody owns', ev)
    for e in gone:
        if e['kind'] == 'forget':
            rep.ob('ebur128_init forgets nothing', 'undecided', e['span'])
    if not n:
        rep.ob('ebur128_init: Box::into_raw', 'undecided', where)


def c14_destroy(c, rep, tier):
    f, E = c.cfn('ebur128_destroy'), c.E
    where = wh(f)
    o = CObj(c)
    regs = ownedregs(c, o)
    pt = E.pointee(f['locals'][1])
    st = o.st.copy()
    reg = region(('cptr',), pt, None, 'pp')
    st.mem[reg] = o.ptr
    r = c.run(f, [Rf(reg)], st)
    if not r.ok if hasattr(r, 'ok') else r.st is None:
        return rep.ob('ebur128_destroy', 'undecided', where)
    unk = [e for e in r.events if e['kind'] in ('unmodelled', 'imprecise')]
    # released in a way that is not followed: moved out of its box, inside another type
    unk += [e for e in r.events if e['kind'] == 'dropother' or e['kind'] in ('drop', 'dropval') and not (isinstance(e['val'], V) and c.exp(e['val']).k == 'Rf')]
    for x, what in regs.items():
        taken, released, kept = FALSE, FALSE, FALSE
        for e in r.events:
            if e['kind'] not in ('from_raw', 'drop', 'dropval', 'forget', 'into_raw', 'dealloc'):
                continue
            v = c.exp(e['val']) if isinstance(e['val'], V) else None
            if v is None or v.k != 'Rf' or v.a[0] is not x:
                continue
            if v.a[1]:
                continue
            if e['kind'] == 'from_raw':
                q, ev = c.never(band(taken, e['pc']), e['facts'], POOL, 60)
                rep.ob('ebur128_destroy takes %s back once' % what, q, e['span'], 'Box::from_raw twice', ev)
                taken = bor(taken, e['pc'])
            elif e['kind'] in ('drop', 'dropval'):
                q, ev = c.never(band(released, e['pc']), e['facts'], POOL, 60)
                rep.ob('ebur128_destroy releases %s once' % what, q, e['span'], 'released twice', ev)
                released = bor(released, e['pc'])
            else:
                kept = bor(kept, e['pc'])
        for s_, text in ((taken, 'takes %s back'), (released, 'releases %s')):
            q, ev = c.never(band(r.st.pc, bnot(s_)), r.st.facts, POOL, 100)
            if q == 'refuted' and unk:
                q = 'undecided'
            rep.ob('ebur128_destroy ' + text % what, q, where, 'it is leaked', ev)
    v = r.st.get(reg)
    n = isnull(c, v)
    if n is None:
        rep.ob('ebur128_destroy sets the pointer of the caller to NULL', 'undecided', where)
    else:
        q, ev = c.never(band(r.st.pc, bnot(n)), r.st.facts, POOL, 60)
        rep.ob('ebur128_destroy sets the pointer of the caller to NULL', q, where, 'it is %s' % show(v)[:80], ev)
    # NULL and an already destroyed state
    s1 = State()
    s1.mem[reg] = mkv('Null')
    for what, p, s0 in (('NULL', mkv('Null'), State()), ('a pointer to NULL', Rf(reg), s1)):
        r = c.run(f, [p], s0)
        bad = 0
        for e in r.events:
            if e['kind'] in ('from_raw', 'drop', 'dropval', 'nullderef', 'panic'):
                bad += 1
                k = band(e['pc'], e['cond']) if e['kind'] == 'panic' else e['pc']
                q, ev = c.never(k, e['facts'], POOL, 60)
                if e['kind'] in ('drop', 'dropval') and q == 'refuted':
                    q = 'undecided'
                rep.ob('ebur128_destroy of %s does nothing' % what, q, e['span'], {'from_raw': 'Box::from_raw(NULL)', 'nullderef': 'NULL is dereferenced'}.get(e['kind'], e['kind']), ev)
        if r.st is None:
            rep.ob('ebur128_destroy of %s returns' % what, 'undecided', where)
        elif not bad:
            rep.ob('ebur128_destroy of %s does nothing' % what, 'proved', where)
        if p.k == 'Rf' and r.st is not None:
            n = isnull(c, r.st.get(reg))
            rep.ob('ebur128_destroy leaves a NULL pointer alone', 'proved' if n is TRUE else 'undecided' if n is None else 'refuted', where)


def isnull(c, v):
    v = c.exp(v) if isinstance(v, V) else v
    return c.E.models.isnull(v)


def reach(c, f, stop):
    """local functions of the C module reachable from f"""
    seen, todo, calls = set(), [f['id']], []
    while todo:
        i = todo.pop()
        if i in seen or i in stop:
            continue
        seen.add(i)
        g = c.E.fns[i]
        if not g or not g.get('blocks'):
            continue
        for b in g['blocks']:
            t = b['t'] if isinstance(b, dict) else b[1]
            if t[0] == 'call':
                calls.append((g, t))
                if t[1] is not None and c.E.fns[t[1]] and c.E.fns[t[1]].get('local'):
                    todo.append(t[1])
    return seen, calls


def c14_others(c, rep, tier):
    """no other C function takes or gives ownership of a state"""
    E = c.E
    skip = ('ebur128_init', 'ebur128_destroy', 'ebur128_get_version')
    methods = {f['id'] for f in c.methods().values()}
    for name, f in sorted(c.cfns().items()):
        if name in skip:
            continue
        _, calls = reach(c, f, methods)
        hits = []
        for g, t in calls:
            p = str(t[2] or '')
            if OWN.search(re.sub(r'<.*?>', '', p)):
                hits.append((g, t, p))
        if not hits:
            rep.ob('%s neither takes nor gives ownership' % name, 'proved', wh(f))
            continue
        # judge what the calls do
        E.steps = 0
        try:
            o, r = runany(c, name, f)
        except Exception as x:
            if type(x).__name__ not in ('Budget', 'KeyError', 'TypeError', 'IndexError', 'AttributeError'):
                raise
            rep.ob('%s neither takes nor gives ownership' % name, 'undecided', wh(f))
            continue
        regs = ownedregs(c, o)
        for x, what in regs.items():
            took, back = [], FALSE
            for e in r.events:
                if e['kind'] not in ('from_raw', 'drop', 'dropval', 'forget', 'into_raw'):
                    continue
                v = c.exp(e['val']) if isinstance(e['val'], V) else None
                if v is None or v.k != 'Rf' or v.a[0] is not x or v.a[1]:
                    continue
                if e['kind'] == 'from_raw':
                    took.append(e)
                elif e['kind'] in ('forget', 'into_raw'):
                    back = bor(back, e['pc'])
                else:
                    q, ev = c.never(e['pc'], e['facts'], POOL, 60)
                    rep.ob('%s does not release %s' % (name, what), q, e['span'], 'it is dropped', ev)
            for e in took:
                q, ev = c.never(band(e['pc'], bnot(back)), e['facts'], POOL, 60)
                if q == 'refuted':
                    q = 'undecided'
                rep.ob('%s gives %s back' % (name, what), q, e['span'], '', ev)
        keeps(c, rep, name, f, o, r)
        rep.ob('%s: calls that concern ownership examined' % name, 'proved', wh(f), ', '.join(h[2][-30:] for h in hits)[:100])


def mayown(E, t, what, seen=None):
    """may a value of type t own (a box of) `what`"""
    seen = set() if seen is None else seen
    if t is None or t == what:
        return True
    if t in seen:
        return False
    seen.add(t)
    d = E.ty(t)
    k = d['k']
    if k in ('int', 'float', 'bool', 'char', 'str', 'ref', 'ptr', 'fndef', 'fnptr', 'never'):
        return False
    if k in ('slice', 'array'):
        return mayown(E, d['t'], what, seen)
    if k == 'tuple':
        return any(mayown(E, x, what, seen) for x in E.fields(t) or ())
    if k == 'adt' and d.get('v') is not None:
        g = [x for x in d.get('args', ()) if isinstance(x, int)]
        if any(mayown(E, x, what, seen) for x in g):
            return True
        return any(mayown(E, f[1], what, seen) for v in d['v'] for f in v['f'])
    return not str(d.get('n', '')).startswith('Pat(')    # a pointer or number with a niche: the owner has the type as an argument


def keeps(c, rep, name, f, o, r):
    """the analyzer of the state stays its analyzer, or is released when another takes its place"""
    d = [i for i, w in init_run(c)['fields'].items() if w == 'd']
    if r.st is None or len(d) != 1:
        return
    v = r.st.get(o.reg)
    v = c.exp(v) if isinstance(v, V) else v
    if v is None or v.k != 'St':
        return rep.ob('%s keeps the analyzer of the state' % name, 'undecided', wh(f))
    gone, unk = FALSE, False
    for e in r.events:
        if e['kind'] in ('drop', 'dropval'):
            x = c.exp(e['val']) if isinstance(e['val'], V) else None
            if x is not None and x.k == 'Rf' and x.a[0] is o.ref.a[0] and not x.a[1]:
                gone = bor(gone, e['pc'])
            elif x is None or x.k != 'Rf':
                unk = unk or mayown(c.E, e.get('ty') and int(e['ty']), c.E.pointee(c.method('mode')['locals'][1]))
        elif e['kind'] == 'dropother':
            unk = unk or mayown(c.E, int(e['ty']), c.E.pointee(c.method('mode')['locals'][1]))
        elif e['kind'] in ('unmodelled', 'dealloc'):
            unk = True
    lost = []

    def go(x, k):
        x = c.exp(x) if isinstance(x, V) else x
        if k is FALSE:
            return
        if x is not None and x.k == 'Ch':
            go(x.a[1], band(k, x.a[0]))
            go(x.a[2], band(k, bnot(x.a[0])))
        elif x is not None and x.k in ('Rf', 'Null'):
            if not (x.k == 'Rf' and x.a[0] is o.ref.a[0]):
                lost.append(k)
        else:
            lost.append(None)
    go(v.a[1][d[0]], r.st.pc)
    text = '%s keeps the analyzer of the state, or releases it' % name
    if not lost:
        return rep.ob(text, 'proved', wh(f))
    if None in lost:
        return rep.ob(text, 'undecided', wh(f))
    k = FALSE
    for x in lost:
        k = bor(k, x)
    q, ev = c.never(band(k, bnot(gone)), r.st.facts, POOL, 150)
    if q == 'refuted' and unk:
        q = 'undecided'
    rep.ob(text, q, wh(f), 'another takes its place and it is leaked', ev)


def runany(c, name, f):
    E = c.E
    o = CObj(c)
    st = o.st.copy()
    if name in MULTI:
        f, r, _, _, _ = multi_run(c, name, [o])
        return o, r
    args = [o.ptr]
    for i in range(2, f['nargs'] + 1):
        t = E.ty(f['locals'][i])
        if t['k'] == 'ptr' and E.ty(t['t'])['k'] == 'float' and i == f['nargs'] and name not in FRAMES:
            args.append(outptr(c, st, f['locals'][i])[0])
        elif t['k'] == 'int':
            args.append(sym('c%d' % (i - 2), 'i', *E.int_range(f['locals'][i])))
        else:
            args.append(E.opq('sym', ('src',), f['locals'][i]))
    return o, c.run(f, args, st, pathq=frames_cut(c))


# ---------------------------------------------------------------- C13
def norm(s):
    return s.replace('EBUR128_', '').replace('ERROR_', '').replace('MODE_', '').replace('_', '').lower()


class Header:
    def __init__(self, path):
        self.path = path
        p = subprocess.run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-x', 'c', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise RuntimeError('the header does not parse: ' + p.stderr[:300])
        d = json.loads(p.stdout)
        self.fns, self.enums, self.structs, self.typedefs = {}, {}, {}, {}
        last = None
        for x in d['inner']:
            k = x['kind']
            if k == 'FunctionDecl':
                q = x['type'].get('desugaredQualType', x['type']['qualType'])
                self.fns[x['name']] = (q.split('(')[0].strip(), [self.tyof(y) for y in x.get('inner', ()) if y['kind'] == 'ParmVarDecl'])
            elif k == 'EnumDecl':
                out, cur = [], -1
                for y in x.get('inner', ()):
                    if y['kind'] == 'EnumConstantDecl':
                        val = constval(y)
                        cur = cur + 1 if val is None else val
                        out.append((y['name'], cur))
                self.enums[x.get('name', '')] = out
            elif k == 'RecordDecl' and x.get('completeDefinition'):
                last = [(y['name'], self.tyof(y)) for y in x.get('inner', ()) if y['kind'] == 'FieldDecl']
                self.structs[x.get('name') or x['id']] = last
            elif k == 'TypedefDecl':
                q = x['type']['qualType']
                self.typedefs[x['name']] = x['type'].get('desugaredQualType', q)
                if last is not None and q.replace('struct ', '') == x['name'] or q.startswith('struct ') and 'unnamed' in q:
                    self.structs[x['name']] = last
        m = subprocess.run(['clang', '-dM', '-E', '-x', 'c', path], stdout=subprocess.PIPE, text=True).stdout
        self.macros = dict(re.findall(r'#define (EBUR128_VERSION_\w+) (\d+)', m))

    @staticmethod
    def tyof(y):
        return y['type'].get('desugaredQualType', y['type']['qualType'])


def constval(y):
    for z in y.get('inner', ()):
        if z.get('kind') == 'ConstantExpr' and 'value' in z:
            return int(z['value'])
        v = constval(z) if z.get('kind', '').endswith('Expr') else None
        if v is not None:
            return v
    return None


CT = {'int': ('i', 4), 'unsigned int': ('u', 4), 'unsigned': ('u', 4), 'long': ('i', 8), 'unsigned long': ('u', 8), 'size_t': ('u', 8), 'short': ('i', 2),
      'unsigned short': ('u', 2), 'float': ('f', 4), 'double': ('f', 8), 'void': ('v', 0), 'char': ('i', 1), 'signed char': ('i', 1), 'unsigned char': ('u', 1),
      'long long': ('i', 8), 'unsigned long long': ('u', 8), '_Bool': ('b', 1), 'uint32_t': ('u', 4), 'int32_t': ('i', 4)}


def cty(h, s):
    s = s.replace('const ', '').replace('volatile ', '').strip()
    if s.endswith('*'):
        return ('p', cty(h, s[:-1]))
    if s in CT:
        return CT[s]
    if s in h.typedefs and h.typedefs[s] != s:
        t = h.typedefs[s]
        if t in CT:
            return CT[t]
    if s.startswith('enum '):
        return ('u', 4)
    return ('s', s.replace('struct ', ''))


def rty(c, t, d=0):
    E = c.E
    x = E.ty(t)
    k = x['k']
    if k == 'int':
        lo, hi = E.int_range(t)
        return ('i' if lo < 0 else 'u', x['sz'][0])
    if k == 'float':
        return ('f', x['sz'][0])
    if k == 'bool':
        return ('b', 1)
    if k == 'tuple' and not x['f']:
        return ('v', 0)
    if k in ('ptr', 'ref'):
        return ('p', rty(c, x['t'], d + 1) if d < 3 else None)
    if k == 'adt':
        n = x['n'].split('::')[-1]
        if n in ('Option',) and x['sz'][0] == 8:
            a = [y for y in x['args'] if isinstance(y, int)]
            r = rty(c, a[0], d + 1) if a else None
            return r if r and r[0] == 'p' else ('p', None)
        if x.get('box') or n == 'NonNull':
            a = [y for y in x['args'] if isinstance(y, int)]
            return ('p', rty(c, a[0], d + 1) if a else None)
        if n in ('c_void',):
            return None
        if x['a'] == 'enum' and all(not v['f'] for v in x['v']):
            return ('e', x['sz'][0])
        if x['a'] == 'struct' and 'is_transparent: true' in str(x.get('repr')):
            f = [y for y in E.fields(t) if E.ty(y).get('sz', [0])[0]]
            if len(f) == 1:
                return rty(c, f[0], d + 1)
        return ('s', t)
    return None


def match(a, b):
    """C type a against Rust type b: True / False / None"""
    if b is None or a is None:
        return True
    if a[0] == 'p' and b[0] == 'p':
        x, y = a[1], b[1]
        if x and y and x[0] == 'v' or y is None:
            return True
        return match(x, y)
    if a[0] == 's' or b[0] == 's':
        return a[0] == b[0]
    if b[0] == 'e':
        return a[0] in 'iu' and a[1] == b[1]
    return a == b


def tyname(a):
    if a is None:
        return '?'
    return {'i': 'int%d', 'u': 'uint%d', 'f': 'float%d', 'e': 'enum%d', 'b': 'bool%d'}[a[0]] % (8 * a[1]) if a[0] in 'iufeb' else \
        'void' if a[0] == 'v' else 'struct' if a[0] == 's' else tyname(a[1]) + '*'


def header(c):
    if 'header' not in c.cache:
        p = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'assets/ebur128.h')
        if not os.path.exists(p):
            raise Missing('assets/ebur128.h')
        c.cache['header'] = Header(p)
    return c.cache['header']


def c13_functions(c, rep, tier):
    h = header(c)
    E = c.E
    exp = {f['sym']: f for f in E.fns.values() if f and f.get('local') and str(f.get('sym') or '').startswith('ebur128_')}
    for n, (ret, args) in sorted(h.fns.items()):
        where = 'assets/ebur128.h: ' + n
        f = exp.get(n)
        if f is None:
            rep.ob('%s is exported' % n, 'refuted', where, 'declared in the header, no symbol of the library has this name')
            continue
        where += ', ' + wh(f)
        conv = str(f['abi']['conv'])
        rep.ob('%s has the C calling convention' % n, 'proved' if conv.startswith('C') else 'refuted', where, conv)
        ra = f['abi']['args']
        if len(ra) != len(args):
            rep.ob('%s has the declared parameters' % n, 'refuted', where, '%d in the library, %d in the header' % (len(ra), len(args)))
        for i, (x, y) in enumerate(zip(args, ra)):
            a, b = cty(h, x), rty(c, y)
            m = match(a, b)
            rep.ob('%s: parameter %d has the declared type' % (n, i + 1), 'proved' if m else 'refuted', where, '%s in the header, %s in the library' % (x, tyname(b)))
        a, b = cty(h, ret), rty(c, f['abi']['ret'])
        m = match(a, b)
        rep.ob('%s has the declared result' % n, 'proved' if m else 'refuted', where, '%s in the header, %s in the library' % (ret, tyname(b)))
    for n, f in sorted(exp.items()):
        rep.ob('%s is declared' % n, 'proved' if n in h.fns else 'refuted', wh(f), 'exported, but missing from the header')


def c13_layout(c, rep, tier):
    h = header(c)
    E = c.E
    tid = state_tid(c)
    t = E.ty(tid)
    fs = h.structs.get('ebur128_state')
    where = 'ebur128_state / %s' % t['n']
    if not fs:
        raise Missing('ebur128_state in the header')
    off, pos, al = [], 0, 1
    for n, x in fs:
        a = cty(h, x)
        z = 8 if a[0] == 'p' else a[1]
        if a[0] == 's':
            return rep.ob('layout of ebur128_state', 'undecided', where)
        pos = (pos + z - 1) // z * z
        off.append((n, pos, a))
        pos += z
        al = max(al, z)
    size = (pos + al - 1) // al * al
    rep.ob('ebur128_state has the declared size', 'proved' if t['sz'][0] == size and t['sz'][1] == al else 'refuted', where, '%s in the library, %d in the header' % (t['sz'], size))
    rf = t['v'][0]['f']
    lib = sorted((t['off'][i], i) for i in range(len(rf)) if E.ty(rf[i][1]).get('sz', [1])[0])
    if len(lib) != len(off):
        rep.ob('ebur128_state has the declared fields', 'refuted', where, '%d in the library, %d in the header' % (len(lib), len(off)))
    roles = init_run(c)['fields']
    want = {'mode': 'm', 'channels': 'C', 'samplerate': 'R', 'd': 'd'}
    for (n, p, a), (q, i) in zip(off, lib):
        b = rty(c, rf[i][1])
        ok = p == q and (match(a, b) or a[0] == 'p' and b and b[0] == 'p')
        rep.ob('field %s of ebur128_state is where the header says' % n, 'proved' if ok else 'refuted', where, 'header: offset %d, %s; library: %s, offset %d, %s' % (p, tyname(a), rf[i][0], q, tyname(b)))
        if n in want:
            g = roles.get(i)
            if g is None:
                # set to something else, or to a value that init_run does not recognise
                rep.ob('field %s of ebur128_state holds what the header says' % n, 'undecided', where)
            else:
                rep.ob('field %s of ebur128_state holds what the header says' % n, 'proved' if g == want[n] else 'refuted', where, 'ebur128_init stores the %s there' % g)


def c13_enums(c, rep, tier):
    h = header(c)
    E = c.E
    g = c.method('set_channel')
    t = E.ty(g['locals'][3])
    have = {norm(v['n']): int(v['d']) for v in t['v']}
    vals = set(have.values())
    consts = {norm(i['name'].split('::')[-1]): int(i['val']) for i in c.E.items if i['kind'] == 'const' and i.get('val') is not None and i['name'].startswith(t['n'] + '::') and i['name'].count('::') == t['n'].count('::') + 1}
    # names of the header for the same number
    alias = {}
    for n, v in h.enums.get('channel', ()):
        alias.setdefault(v, []).append(n)
    for n, v in h.enums.get('channel', ()):
        k = norm(n)
        where = 'assets/ebur128.h: %s / %s' % (n, t['n'])
        if v not in vals:
            rep.ob('%s is a channel type of the library' % n, 'refuted', where, 'the value %d is none' % v)
        elif k in have or k in consts:
            w = have.get(k, consts.get(k))
            rep.ob('%s has the value of the library' % n, 'proved' if w == v else 'refuted', where, '%d in the header, %d in the library' % (v, w))
        else:
            q = [x for x in alias[v] if norm(x) in have]
            rep.ob('%s is an alias of a channel type' % n, 'proved' if q else 'undecided', where)
    named = set(norm(n) for n, _ in h.enums.get('channel', ()))
    for k, v in sorted(have.items()):
        ok = k in named or v in alias
        rep.ob('channel type %d of the library is in the header' % v, 'proved' if ok else 'refuted', t['n'], k)
    if 'channel' not in h.enums or 'mode' not in h.enums or 'error' not in h.enums:
        raise Missing('enumerations of the header')
    # modes
    mt = E.ty(c.method('new')['locals'][3])
    pre = mt['n'] + '::'
    mc = {norm(i['name'].split('::')[-1]): int(i['val']) for i in c.E.items if i['kind'] == 'const' and i.get('val') is not None and i['name'].startswith(pre) and i['name'].count('::') == pre.count('::')}
    for n, v in h.enums['mode']:
        k = norm(n)
        where = 'assets/ebur128.h: %s / %s' % (n, mt['n'])
        if k in mc:
            rep.ob('%s has the value of the library' % n, 'proved' if mc[k] == v else 'refuted', where, '%d in the header, %d in the library' % (v, mc[k]))
        else:
            rep.ob('%s is a mode of the library' % n, 'undecided' if v in mc.values() or not mc else 'refuted', where)
    # the mode the analyzer gets
    i = init_run(c)
    for v, k in i['cases']:
        if v.k != 'Rf':
            continue
        s = c.exp(E.readloc(E.deref(v, i['r'].st), i['r'].st))
        d = [j for j, x in i['fields'].items() if x == 'd']
        if not d:
            continue
        m = getval(c, 'mode', s.a[1][d[0]], i['r'].st)
        m = c.intof(m)
        s_, ev = c.never(band(k, differ(TRUE, m, i['args'][2])), i['r'].st.facts, tuple(range(128)), 200)
        rep.ob('the analyzer gets the mode of the caller', s_, wh(i['f']), 'it gets %s' % show(m)[:80], ev)


def c13_errors(c, rep, tier):
    TM.LIFT = 4000
    h = header(c)
    E = c.E
    codes = dict((norm(n), v) for n, v in h.enums.get('error', ()))
    errs = c.err_tags()
    for name in ('ebur128_set_channel', 'ebur128_change_parameters', 'ebur128_loudness_range', 'ebur128_sample_peak', 'ebur128_loudness_shortterm'):
        E.steps = 0
        meth, kind = PLAIN[name]
        f, g = c.cfn(name), c.method(meth)
        o = CObj(c)
        st = o.st.copy()
        n = f['nargs'] - 1 - (kind == 'q')
        args = [sym('c%d' % i, 'i', *E.int_range(f['locals'][i + 2])) for i in range(n)]
        ra, inr = rustargs(c, g, args)
        st.facts.add_bool(inr)
        st.pc = band(st.pc, inr)
        out = [outptr(c, st, f['locals'][f['nargs']])[0]] if kind == 'q' else []
        r1 = c.run(g, [o.ref] + ra, st)
        r2 = c.run(f, [o.ptr] + args + out, st)
        okc, et, okv, facts, pc = exits(c, r1)
        both = band(r1.st.pc, r2.st.pc)
        same = band(eq(args[0], o.C), eq(args[1], o.R)) if meth == 'change_parameters' else FALSE
        for nm, tag in errs.items():
            if norm(nm) not in codes:
                rep.ob('%s is in the header' % nm, 'undecided', 'assets/ebur128.h')
                continue
            if et is None:
                continue
            k = band(band(both, bnot(same)), band(bnot(okc), eq(et, num(tag))))
            s, ev = c.never(band(k, differ(TRUE, r2.v, num(codes[norm(nm)]))), r2.st.facts, POOL, 150)
            rep.ob('%s answers the code of the header for %s' % (name, nm), s, wh(f), 'returns %s, the header says %d' % (show(r2.v)[:150], codes[norm(nm)]), ev)
        k = band(band(both, bnot(same)), okc)
        s, ev = c.never(band(k, differ(TRUE, r2.v, num(codes.get('success', 0)))), r2.st.facts, POOL, 150)
        rep.ob('%s answers the code of the header for success' % name, s, wh(f), '', ev)
        if meth == 'change_parameters':
            s, ev = c.never(band(band(both, same), differ(TRUE, r2.v, num(codes.get('nochange', -1)))), r2.st.facts, POOL, 150)
            rep.ob('%s answers the code of the header for no change' % name, s, wh(f), '', ev)


def c13_version(c, rep, tier):
    h = header(c)
    E = c.E
    f = c.cfn('ebur128_get_version')
    st = State()
    regs = []
    ptrs = []
    for i in range(3):
        p = E.pointee(f['locals'][i + 1])
        reg = region(('ver', i), p, None, 'v%d' % i)
        st.mem[reg] = sym('v%d' % i, 'i', -(1 << 31), (1 << 31) - 1)
        regs.append(reg)
        ptrs.append(Rf(reg))
    r = c.run(f, ptrs, st)
    for reg, n in zip(regs, ('MAJOR', 'MINOR', 'PATCH')):
        v = r.st.get(reg)
        w = h.macros.get('EBUR128_VERSION_' + n)
        if w is None:
            rep.ob('EBUR128_VERSION_%s' % n, 'undecided', 'assets/ebur128.h')
        elif isinstance(v, T):
            s, ev = c.never(band(r.st.pc, differ(TRUE, v, num(int(w)))), r.st.facts, (0, 1, 2, 6), 50)
            rep.ob('ebur128_get_version answers EBUR128_VERSION_%s' % n, s, wh(f), '%s, %s in the header' % (show(v), w), ev)
        else:
            rep.ob('ebur128_get_version answers EBUR128_VERSION_%s' % n, 'undecided', wh(f))


C13 = [('functions', c13_functions), ('layout', c13_layout), ('enumerations', c13_enums), ('error codes', c13_errors), ('version', c13_version)]
C14 = [('ebur128_init', c14_init), ('ebur128_destroy', c14_destroy), ('other functions', c14_others)]
C15 = [('numbers', c15_numbers), ('frames', c15_frames), ('empty arrays', c15_multi), ('channel types', c15_channel)]
