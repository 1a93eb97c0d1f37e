"""The C interface: C12 (faithful wrapper), C14 (ownership), C15 (argument ranges), C27 (one instance = many)."""
from ctx import *
from ctx import differ
import terms as TM
from compare import *
from rules_exit import *

CODES = {'NoMem': 1, 'InvalidMode': 2, 'InvalidChannelIndex': 3}
NOCHANGE = 4
# C name -> (Rust method, kind); kind: q = query with out pointer, s = setter
PLAIN = {
    'ebur128_set_channel': ('set_channel', 's'),
    'ebur128_change_parameters': ('change_parameters', 's'),
    'ebur128_set_max_window': ('set_max_window', 's'),
    'ebur128_set_max_history': ('set_max_history', 's'),
    'ebur128_loudness_global': ('loudness_global', 'q'),
    'ebur128_loudness_momentary': ('loudness_momentary', 'q'),
    'ebur128_loudness_shortterm': ('loudness_shortterm', 'q'),
    'ebur128_loudness_window': ('loudness_window', 'q'),
    'ebur128_loudness_range': ('loudness_range', 'q'),
    'ebur128_sample_peak': ('sample_peak', 'q'),
    'ebur128_prev_sample_peak': ('prev_sample_peak', 'q'),
    'ebur128_true_peak': ('true_peak', 'q'),
    'ebur128_prev_true_peak': ('prev_true_peak', 'q'),
    'ebur128_relative_threshold': ('relative_threshold', 'q'),
}
FRAMES = {'ebur128_add_frames_short': 'add_frames_i16', 'ebur128_add_frames_int': 'add_frames_i32',
          'ebur128_add_frames_float': 'add_frames_f32', 'ebur128_add_frames_double': 'add_frames_f64'}
MULTI = {'ebur128_loudness_global_multiple': 'loudness_global', 'ebur128_loudness_range_multiple': 'loudness_range'}
POOL = (0, 1, 2, 3, 4, 5, 6, 31, 32, 63, 64, 65, 400, 3000, U32_MAX, U32_MAX + 1, 16, 44100, 48000)


def state_tid(c):
    for i, t in enumerate(c.E.tt):
        if t['k'] == 'adt' and t['n'] == 'ebur128::capi::State':
            return i
    # the struct init() returns a pointer to
    f = c.cfn('ebur128_init')
    p = c.E.pointee(f['locals'][0])
    if p is None or c.E.ty(p)['k'] != 'adt':
        raise Missing('struct behind ebur128_init')
    return p


class CObj:
    """a C state over a canonical analyzer"""

    def __init__(self, c, name='s', ch=None, rate=None, mode=None):
        E = c.E
        self.c = c
        self.ref, self.st, self.info = c.selfval(name=name, ch=ch, rate=rate, mode=mode)
        self.tid = state_tid(c)
        t = E.ty(self.tid)
        fn = [x[0] for x in t['v'][0]['f']]
        ft = E.fields(self.tid)
        self.names = fn
        self.C = num(ch) if ch else sym('C', 'i', 1, 64)
        self.R = num(rate) if rate else sym('R', 'i', 16, 2822400)
        self.m = num(mode) if mode is not None else sym('mode', 'i', 0, 255)
        # what new() and the setters maintain (C09): the settings are never below the minimum of the mode
        lo = ite(has(self.m, S_), num(3000), num(400))
        for q in ('max_window', 'max_history'):
            if c.method(q, False):
                x = getval(c, q, self.ref, self.st)
                if isinstance(x, T):
                    k = le(lo, x)
                    self.st.facts.add_bool(k)
                    self.st.pc = band(self.st.pc, k)
        known = self.roles(c, fn, ft)
        vals = []
        for i, n in enumerate(fn):
            vals.append(known.get(i, E.opq('sym', ('%s.c.%s' % (name, n),), ft[i])))
        self.val = St(self.tid, vals)
        self.reg = region(('cstate', name, ch, rate, mode), self.tid, None, 'state')
        self.st.mem[self.reg] = self.val
        self.ptr = Rf(self.reg)

    def roles(self, c, fn, ft):
        """which field mirrors what: by what ebur128_init stores there"""
        i = init_run(c)
        out = {}
        for k, what in i['fields'].items():
            out[k] = {'C': self.C, 'R': self.R, 'm': self.m, 'd': self.ref}[what]
        if 'd' not in i['fields'].values():
            raise Missing('pointer to the analyzer in the C state')
        return out


def init_run(c):
    """summary of ebur128_init: result, events, and which state field holds which argument"""
    if 'init' in c.cache:
        return c.cache['init']
    f = c.cfn('ebur128_init')
    E = c.E
    a = [sym('ic', 'i', 0, U32_MAX), sym('ir', 'i', 0, USIZE_MAX), sym('im', 'i', 0, 127)]
    r = c.run(f, a)
    cases = []

    def go(v, k):
        if k is FALSE:
            return
        v = c.exp(v)
        if v.k == 'Ch':
            go(v.a[1], band(k, v.a[0]))
            go(v.a[2], band(k, bnot(v.a[0])))
        else:
            cases.append((v, k))
    go(r.v, r.st.pc)
    fields = {}
    for v, k in cases:
        if v.k != 'Rf':
            continue
        s = c.exp(E.readloc(E.deref(v, r.st), r.st))
        if isinstance(s, V) and s.k == 'St':
            for i, x in enumerate(s.a[1]):
                if x is a[0]:
                    fields[i] = 'C'
                elif x is a[1]:
                    fields[i] = 'R'
                elif x is a[2]:
                    fields[i] = 'm'
                elif isinstance(x, V) and c.exp(x).k == 'Rf':
                    fields[i] = 'd'
    out = {'args': a, 'r': r, 'cases': cases, 'fields': fields, 'f': f}
    c.cache['init'] = out
    return out


def outptr(c, st, tid):
    """a caller's variable of the pointee type"""
    E = c.E
    p = E.pointee(tid)
    x = E.opq('sym', ('out',), p)
    reg = region(('out', p), p, None, 'out')
    st.mem[reg] = x
    return Rf(reg), reg, x


def expect(c, okc, et):
    """C code of a Result"""
    errs = c.err_tags()
    out = num(-1)
    for n, t in errs.items():
        out = ite(eq(et, num(t)), num(CODES.get(n, -1)), out) if et is not None else out
    return ite(okc, ZERO, out)


def tagarg(c, v):
    v = c.exp(v)
    return v.a[1] if isinstance(v, V) and v.k == 'En' else c.intof(v)


def rustargs(c, f, args):
    """the caller's integers as arguments of the Rust method (enums by discriminant); (args, in-range condition)"""
    E = c.E
    out, ok = [], TRUE
    for k, x in enumerate(args):
        t = f['locals'][k + 2]
        ty = E.ty(t)
        if ty['k'] == 'adt' and ty['a'] == 'enum':
            ds = [v['d'] for v in ty['v']]
            tag = num(0)
            for i, d in enumerate(ds):
                tag = ite(eq(x, num(d)), num(i), tag)
            if ds == list(range(len(ds))):
                tag = x
            out.append(En(t, tag, [() for _ in ds]))
            inr = FALSE
            if ds == list(range(ds[0], ds[0] + len(ds))):
                inr = band(le(num(ds[0]), x), le(x, num(ds[-1])))
            else:
                for d in ds:
                    inr = bor(inr, eq(x, num(d)))
            ok = band(ok, inr)
        else:
            lo, hi = E.int_range(t)
            out.append(x)
            ok = band(ok, band(le(num(lo), x), le(x, num(hi))))
    return out, ok


def getval(c, name, ref, st):
    r = c.run(c.method(name), [ref], st)
    return r.v


def holdsat(ev, k):
    """the condition folds to true for the constants chosen by ev"""
    ev.choose = None
    ev.memo = {}
    return ev.t(k) is TRUE


def c12_one(c, rep, name):
    meth, kind = PLAIN[name]
    f, g = c.cfn(name), c.method(meth)
    E = c.E
    o = CObj(c)
    st = o.st.copy()
    n = f['nargs'] - 1 - (kind == 'q')
    args = [sym('c%d' % i, 'i', *E.int_range(f['locals'][i + 2])) for i in range(n)]
    ra, inr = rustargs(c, g, args)
    st.facts.add_bool(inr)
    st.pc = band(st.pc, inr)
    out = []
    if kind == 'q':
        p, reg, x0 = outptr(c, st, f['locals'][f['nargs']])
        out = [p]
    r1 = c.run(g, [o.ref] + ra, st)
    r2 = c.run(f, [o.ptr] + args + out, st)
    okc, et, okv, facts, pc = exits(c, r1)
    where = '%s (%s)' % (f['path'], span(f))
    both = band(r1.st.pc, r2.st.pc)
    exp = expect(c, okc, et)
    same = None
    if kind == 's':
        if meth == 'change_parameters':
            same = band(eq(args[0], o.C), eq(args[1], o.R))
        elif meth != 'set_channel':
            q = {'set_max_window': 'max_window', 'set_max_history': 'max_history'}[meth]
            same = eq(getval(c, q, o.ref, st), getval(c, q, o.ref, r1.st))
        if same is not None:
            exp = ite(band(okc, same), num(NOCHANGE), exp)
    s, ev = c.never(band(both, differ(TRUE, r2.v, exp)), r2.st.facts, POOL, 200)
    if s == 'undecided':
        # without the conditions of not panicking, which may be about loop states
        ev = search(band(st.pc, differ(TRUE, r2.v, exp)), None, 200, 1, POOL)
        if ev is not None and not any(e['kind'] in ('panic', 'nullderef') and holdsat(ev, band(e['pc'], e.get('cond') or TRUE)) for e in r1.events):
            s = 'refuted'
    rep.ob('%s returns the code of EbuR128::%s' % (name, meth), s, where, 'returns %s, expected %s' % (show(r2.v)[:200], show(exp)[:200]), ev)
    nonzero = r1.st.facts
    if kind == 'q':
        x1 = r2.st.get(reg)
        k = band(both, differ(okc, x1, okv)) if okv is not None else FALSE
        s, ev = c.never(k, r2.st.facts, POOL, 200)
        rep.ob('%s writes the result of EbuR128::%s' % (name, meth), s, where, 'writes %s' % show(x1)[:200], ev)
        s, ev = c.never(band(both, differ(bnot(okc), x1, x0)), r2.st.facts, POOL, 200)
        rep.ob('%s writes nothing on an error' % name, s, where, '', ev)
    asmeth = both if same is None else band(both, bnot(same))
    for l in objdiff(c, o.ref, r2.st, o.ref, r1.st, asmeth):
        leafob(c, rep, l, r2.st.facts, '%s leaves %s as EbuR128::%s does' % (name, l.name, meth), where)
    if same is not None:
        for l in objdiff(c, o.ref, r2.st, o.ref, st, band(both, same)):
            leafob(c, rep, l, r2.st.facts, '%s with the current setting leaves %s alone' % (name, l.name), where)
    mirror(c, rep, name, o, r2, both, where)


def leafob(c, rep, l, facts, text, where):
    if l.cond is FALSE:
        s, ev = 'proved', None
    elif l.cond is None:
        s, ev = 'undecided', None
    else:
        s, ev = c.never(l.cond, facts, POOL, 120)
    rep.ob(text, s, where, '', ev)


def mirror(c, rep, name, o, r2, cond, where, readback=True):
    E = c.E
    s2 = c.exp(r2.st.get(o.reg))
    if not isinstance(s2, V) or s2.k != 'St':
        return rep.ob('%s: public state' % name, 'undecided', where)
    rt = init_run(c)['fields']
    for i, n in enumerate(o.names):
        x = s2.a[1][i]
        role = rt.get(i)
        if role in ('C', 'R') and readback:
            want = getval(c, {'C': 'channels', 'R': 'rate'}[role], o.ref, r2.st)
        else:
            want = o.val.a[1][i]
        if isinstance(x, T) and isinstance(want, T):
            s, ev = c.never(differ(cond, x, want), r2.st.facts, POOL, 120)
        else:
            s, ev = ('proved', None) if x is want else ('undecided', None)
        rep.ob('%s: state field %s mirrors the analyzer' % (name, n), s, where, 'is %s, expected %s' % (x, want), ev)


def frames_cut(c):
    pub = {f['id']: n for n, f in c.methods().items() if n.startswith(('add_frames', 'seed_frames'))}

    def q(e, fn, vals, st, dty, site):
        if fn['id'] not in pub:
            return None
        out = cuts.summarise(e, fn, vals, st, dty, pub[fn['id']])
        e.ev('cut', fnname=pub[fn['id']], vals=vals, ret=out[0][0], st=st)
        return out
    return q


def c12_frames(c, rep, name):
    want = FRAMES[name]
    f = c.cfn(name)
    c.method(want)
    E = c.E
    o = CObj(c)
    st = o.st.copy()
    src = E.opq('sym', ('src',), f['locals'][2])
    n = sym('frames', 'i', 0, USIZE_MAX)
    fits = le(mul(n, o.C), num((1 << 63) - 1))
    r = c.run(f, [o.ptr, src, n], st, pathq=frames_cut(c))
    where = '%s (%s)' % (f['path'], span(f))
    calls = [e for e in r.events if e['kind'] == 'cut']
    got = FALSE
    ret = None
    for e in calls:
        k = e['pc']
        if e['fnname'] != want:
            # which entry point the frames go to
            s, ev = c.never(k, e['facts'], POOL, 60)
            rep.ob('%s passes frames to EbuR128::%s' % (name, want), s, e['span'], 'calls %s' % e['fnname'], ev)
            continue
        s, ev = c.never(band(got, k), e['facts'], POOL, 60)
        rep.ob('%s passes frames once' % name, s, e['span'], '', ev)
        got = bor(got, k)
        v = e['vals']
        ok = isinstance(v[0], V) and c.exp(v[0]) is o.ref
        rep.ob('%s works on the analyzer of the state' % name, 'proved' if ok else 'undecided', e['span'])
        a = c.exp(v[1])
        if a.k == 'Ch':
            # the empty slice made for zero elements
            for z in (a.a[1], a.a[2]):
                z = c.exp(z)
                if z.k == 'Sl' and z.a[3].op != 'int':
                    ln = a
        lens = slens(c, a, k)
        for ln, kk in lens:
            s, ev = c.never(band(kk, differ(fits, ln, mul(n, o.C))), e['facts'], POOL, 120)
            rep.ob('%s passes frames * channels samples' % name, s, e['span'], 'passes %s' % show(ln)[:120], ev)
        for z, kk in sregs(c, a, k):
            if z is None:
                continue
            rep.ob('%s passes the caller\'s samples' % name, 'proved' if z else 'undecided', e['span'])
    allow = [e for e in calls if e['fnname'] == want]
    cond = band(band(st.pc, fits), bnot(got))
    s, ev = c.never(cond, r.st.facts, POOL, 120) if allow else c.never(band(st.pc, fits), st.facts, POOL, 60)
    rep.ob('%s reaches EbuR128::%s for every representable frame count' % (name, want), s, where, '', ev)
    # return code
    if len(allow) == 1 and isinstance(r.v, T):
        e = allow[0]
        tag, okv, et = c.result(e['ret'])
        exp = expect(c, eq(tag, ZERO), et)
        s, ev = c.never(band(band(r.st.pc, e['pc']), differ(TRUE, r.v, exp)), r.st.facts, POOL, 120)
        rep.ob('%s returns the code of EbuR128::%s' % (name, want), s, where, 'returns %s' % show(r.v)[:200], ev)
    mirror(c, rep, name, o, r, r.st.pc, where, False)


def slens(c, a, k):
    a = c.exp(a)
    if a.k == 'Ch':
        return slens(c, a.a[1], band(k, a.a[0])) + slens(c, a.a[2], band(k, bnot(a.a[0])))
    if a.k == 'Sl':
        return [(a.a[3], k)]
    return []


def sregs(c, a, k):
    a = c.exp(a)
    if a.k == 'Ch':
        return sregs(c, a.a[1], band(k, a.a[0])) + sregs(c, a.a[2], band(k, bnot(a.a[0])))
    if a.k == 'Sl':
        if a.a[3] is ZERO:
            return [(None, k)]
        return [('src' in str(a.a[0].name if hasattr(a.a[0], 'name') else a.a[0]), k)]
    return [(False, k)]


def multi_run(c, name, objs, unroll=None):
    """ebur128_*_multiple over the given C states (concrete list)"""
    f = c.cfn(name)
    E = c.E
    st = objs[0].st.copy()
    for o in objs[1:]:
        for r, v in o.st.mem.items():
            st.mem.setdefault(r, v)
    pt = E.pointee(f['locals'][1])
    reg = region(('cstates', len(objs), tuple(o.reg for o in objs)), None, None, 'states')
    st.mem[reg] = E.mkarr(pt, [o.ptr for o in objs])
    p = Rf(reg, (('x', ZERO),)) if objs else Rf(reg)
    op, oreg, x0 = outptr(c, st, f['locals'][3])
    r = c.run(f, [p, num(len(objs)), op], st, unroll=unroll or len(objs) + 1)
    return f, r, oreg, x0, st


def c27(c, rep, tier):
    """multi-instance queries over one instance"""
    for name, meth in MULTI.items():
        o = CObj(c)
        f, r2, oreg, x0, st = multi_run(c, name, [o])
        g = c.method(meth)
        r1 = c.run(g, [o.ref], st)
        okc, et, okv, facts, pc = exits(c, r1)
        where = '%s (%s)' % (f['path'], span(f))
        exp = expect(c, okc, et)
        both = band(r1.st.pc, r2.st.pc)
        s, ev = c.never(band(both, differ(TRUE, r2.v, exp)), r2.st.facts, POOL, 200)
        rep.ob('%s over one instance answers like %s' % (name, meth), s, where, 'code %s, expected %s' % (show(r2.v)[:200], show(exp)[:200]), ev)
        x1 = r2.st.mem[oreg]
        s, ev = c.never(band(both, differ(okc, x1, okv)), r2.st.facts, POOL, 200)
        rep.ob('%s over one instance gives the value of %s' % (name, meth), s, where, 'gives %s, expected %s' % (show(x1)[:500], show(okv)[:500]), ev)


def c04_multi(c, rep, tier):
    """multi-instance queries need their mode on every instance, at every place of the list"""
    M = (1, 3, 5, 0xb, 0xf, 0x45, 0x4f, 0x33, 0x3b)
    IM = num(CODES['InvalidMode'])
    for name, need in (('ebur128_loudness_global_multiple', I), ('ebur128_loudness_range_multiple', LRA)):
        combos = [(a,) for a in M] + [(a, b) for a in M for b in M] + [(0xf, 0xf, a) for a in M] + [(0xf,) * 17 + (a,) for a in M if a & need != need]
        bad = [{}, {}]
        for ms in combos:
            if any('refuted' in b for b in bad):
                break
            obs = [CObj(c, name='abcdefghijklmnopqrstuvwxyz'[i], ch=1, rate=16, mode=m) for i, m in enumerate(ms)]
            c.E.steps = 0
            f, r, oreg, x0, st = multi_run(c, name, obs)
            where = '%s (%s)' % (f['path'], span(f))
            on = all(m & need == need for m in ms)
            mixed = len({m & 0x40 for m in ms}) > 1
            k = bor(r.st.pc, FALSE)
            if not on:
                want = differ(k, r.v, IM)
                what = 0
                text = 'modes %s: one without the mode, not answered with InvalidMode' % ' '.join(map(hex, ms))
            elif need == LRA and mixed:
                continue
            else:
                want = band(k, eq(r.v, IM))
                what = 1
                text = 'modes %s: refused as InvalidMode' % ' '.join(map(hex, ms))
            q, ev = c.never(want, r.st.facts, POOL, 60)
            if q == 'refuted':
                bad[what].setdefault('refuted', (text, ev))
            elif q != 'proved':
                bad[what].setdefault('undecided', (text, ev))
            if not on:
                q, ev = c.never(differ(k, r.st.mem[oreg], x0), r.st.facts, POOL, 60)
                if q == 'refuted':
                    bad[0].setdefault('refuted', ('a number is stored for modes %s' % ' '.join(map(hex, ms)), ev))
        for what, text in ((0, 'answers InvalidMode and no number when any instance is without the mode'), (1, 'is never refused as InvalidMode with the mode on every instance')):
            b = bad[what]
            q = 'refuted' if 'refuted' in b else 'undecided' if b else 'proved'
            d = b.get(q, ('%d lists of modes' % len(combos), None))
            rep.ob('%s %s' % (name, text), q, where, d[0], d[1])


# ---------------------------------------------------------------- C12
def c12_init(c, rep, tier):
    i = init_run(c)
    f = i['f']
    E = c.E
    where = '%s (%s)' % (f['path'], span(f))
    a = i['args']
    new = c.method('new')
    st = State()
    inr = le(a[1], num(U32_MAX))
    st.facts.add_bool(inr)
    st.pc = inr
    # the mode argument by its low bits
    t3 = new['locals'][3]
    ival = a[2]
    r1 = c.run(new, [a[0], a[1], c.intval(t3, ival)], st)
    tag, ok, et = c.result(r1.v)
    okc = eq(tag, ZERO)
    r = i['r']
    for v, k in i['cases']:
        k2 = band(k, r1.st.pc)
        if v.k == 'Null':
            s, ev = c.never(band(k2, okc), r1.st.facts, POOL, 200)
            rep.ob('ebur128_init answers NULL only when EbuR128::new fails', s, where, '', ev)
            continue
        if v.k != 'Rf':
            rep.ob('ebur128_init result', 'undecided', where)
            continue
        s, ev = c.never(band(k2, bnot(okc)), r1.st.facts, POOL, 200)
        rep.ob('ebur128_init answers a state only when EbuR128::new succeeds', s, where, '', ev)
        s = c.exp(E.readloc(E.deref(v, r.st), r.st))
        t = E.ty(s.a[0])
        fn = [x[0] for x in t['v'][0]['f']]
        for j, role in enumerate(('m', 'C', 'R', 'd')):
            if role in i['fields'].values():
                rep.ob('ebur128_init: a state field mirrors %s' % {'m': 'mode', 'C': 'channels', 'R': 'samplerate', 'd': 'the analyzer'}[role], 'proved', where)
            else:
                # is any field of that shape certainly different from the argument?
                at = {'m': a[2], 'C': a[0], 'R': a[1]}.get(role)
                if at is None:
                    rep.ob('ebur128_init: analyzer pointer', 'undecided', where)
                    continue
                res = []
                for x in s.a[1]:
                    if isinstance(x, T):
                        res.append(c.never(band(k, differ(TRUE, x, at)), r.st.facts, POOL, 100)[0])
                stt = 'proved' if 'proved' in res else 'refuted' if res and all(z == 'refuted' for z in res) else 'undecided'
                rep.ob('ebur128_init: a state field mirrors %s' % {'m': 'mode', 'C': 'channels', 'R': 'samplerate'}[role], stt, where)
        d = [j for j, x in i['fields'].items() if x == 'd']
        if d:
            p = s.a[1][d[0]]
            reg = region(('newref', 'c12'), None, None, 'new')
            s1 = r1.st.copy()
            s1.mem[reg] = ok
            for l in objdiff(c, p, r.st, Rf(reg), s1, band(k2, okc)):
                if l.cond is FALSE:
                    q, ev = 'proved', None
                elif l.cond is None:
                    q, ev = 'undecided', None
                else:
                    q, ev = c.never(l.cond, r.st.facts, POOL, 100)
                rep.ob('ebur128_init: analyzer field %s as EbuR128::new makes it' % l.name, q, where, '', ev)


def each(fn, names):
    def mk_(n):
        def run(c, rep, tier):
            fn(c, rep, n)
        return run
    return [(n, mk_(n)) for n in names]


def c12_group(names, fn):
    def run(c, rep, tier):
        TM.LIFT = 4000
        for n in names:
            fn(c, rep, n)
    return run


Q = [n for n, k in PLAIN.items() if k[1] == 'q']
S = [n for n, k in PLAIN.items() if k[1] == 's']
C12 = [('ebur128_init', c12_init), ('queries 1', c12_group(Q[:4], c12_one)), ('queries 2', c12_group(Q[4:], c12_one)),
       ('setters', c12_group(S, c12_one)), ('frames', c12_group(list(FRAMES), c12_frames))]
C27 = [('one instance', c27)]
