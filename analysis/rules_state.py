"""Whole-state rules: reset (C01), reconfiguration (C02), failing calls (C03), pure queries (C23)."""
import re
from ctx import *
from compare import *
from rules_exit import *


class byname:
    """leaves by name; a coarser leaf (of an array whose elements were not opened) stands for its parts"""

    def __init__(self, ls):
        self.d = {}
        for l in ls:
            self.d.setdefault(l.path, []).append(l)

    def get(self, l):
        out = []
        for k in range(len(l.path), 0, -1):
            out += self.d.get(l.path[:k], [])
            if out and k == len(l.path):
                break
        if not out:
            # opened further here than there
            out = [x for q, xs in self.d.items() if q[:len(l.path)] == l.path for x in xs]
        return out


def decide(c, l, st, pool=(), tries=80):
    """('proved'|'refuted'|'undecided', witness) that the two objects agree at leaf l"""
    if l.cond is None:
        return 'undecided', None
    if l.cond is FALSE:
        return 'proved', None
    return c.never(band(l.cond, st.pc), st.facts, pool, tries)


def nofloat(l):
    return isinstance(l.x, T) and l.x.sort == 'i'


def circular(c, ref, st):
    """names of integer leaves that only say where a uniform array starts (rotations of it are the same)"""
    return ()


def c01(c, rep, tier):
    f = c.method('reset')
    ref, st, info = c.selfval()
    r = c.run(f, [ref], st)
    ref0, st0, _ = c.selfval(fresh=True)
    proc = [g for n, g in c.mutators().items() if n.startswith(('add_frames', 'seed_frames'))]
    if not proc:
        raise Missing('add_frames_*')
    written, _ = c.written_fields(proc)
    new = objdiff(c, ref, r.st, ref0, st0)
    old = byname(objdiff(c, ref, r.st, ref, st))
    if not r.st.pc is FALSE:
        lost = c.never(band(st.pc, bnot(r.st.pc)), st.facts)
    n = 0
    for l in new:
        s, ev = decide(c, l, r.st)
        where = '%s (%s)' % (f['path'], span(f))
        if s == 'proved':
            rep.ob('reset: %s is as in a new analyzer' % l.name, 'proved', where)
            n += 1
            continue
        if l.field is not None and (l.field[0], l.field[1], l.field[2]) not in written or config(c, l):
            # configuration: nothing but setters writes it; it has to stay
            res = [decide(c, o, r.st) for o in old.get(l)]
            if res and all(x[0] == 'proved' for x in res):
                rep.ob('reset: %s (configuration) is kept' % l.name, 'proved', where)
                continue
            bad = next((x for x in res if x[0] == 'refuted'), None)
            rep.ob('reset: %s (configuration) is kept' % l.name, 'refuted' if bad else 'undecided', where, 'leaf %s' % l.name, bad[1] if bad else None)
            continue
        if s == 'refuted' and rotation(c, l, new):
            s = 'undecided'
        rep.ob('reset: %s is as in a new analyzer' % l.name, s, where, 'after reset %s, in a new analyzer %s' % (showv(l.x), showv(l.y)), ev)


def config(c, l):
    return False


SHOWN = 200


def showv(v):
    return (show(v) if isinstance(v, T) else str(v))[:SHOWN]


def rotation(c, l, ls):
    """the start position of a ring whose elements are all the same: any value of it means the same contents"""
    if not nofloat(l) or l.field is None:
        return False
    pre = l.path[:-1]
    sib = [x for x in ls if x.path[:len(pre)] == pre and x is not l and x.field and x.field[0] == l.field[0]]
    arr = [x for x in sib if isinstance(x.x, T) and x.x.sort == 'f']
    if not (bool(arr) and all(x.cond is FALSE and x.x.op == 'flt' for x in arr)):
        return False
    ints = {x.path for x in sib if nofloat(x) and len(x.path) == len(l.path)}
    if len(l.path) > 1:
        return not ints
    # among the analyzer's own positions, the one the momentary loudness is read around
    if 'ringpos' not in c.cache:
        try:
            ref, st, _ = c.selfval()
            r = c.run(c.method('loudness_momentary'), [ref], st)
            c.cache['ringpos'] = roots(c, c.result(r.v)[1])
        except Missing:
            c.cache['ringpos'] = set()
    return l.path[0] in c.cache['ringpos']


def roots(c, t):
    """input symbols (first field names) a getter's value is read from"""
    out = set()
    for x in allsyms(t):
        if x.args and isinstance(x.args[0], str) and x.args[0].startswith('s.'):
            out.add(x.args[0].split('.')[1])
    return out


def allsyms(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if isinstance(t, T):
        if t in seen:
            return acc
        seen.add(t)
        if t.op == 'sym':
            acc.append(t)
        for a in t.args:
            allsyms(a, acc, seen)
    elif isinstance(t, tuple):
        for a in t:
            allsyms(a, acc, seen)
    elif isinstance(t, V):
        if t in seen:
            return acc
        seen.add(t)
        for a in t.a:
            allsyms(a, acc, seen)
    return acc


def substate(c, val, st, mp):
    """replace symbols in a state"""
    s = c.E.subst_state(st, mp)
    return s


def settings_roots(c):
    """field names behind the public getters: channel_map, sample_peak, true_peak (read from the canonical object)"""
    if 'sroots' in c.cache:
        return c.cache['sroots']
    out = {}
    for g, a in (('sample_peak', 1), ('true_peak', 1), ('max_window', 0), ('max_history', 0)):
        ref, st, _ = c.selfval()
        f = c.method(g)
        r = c.run(f, [ref] + c.opaque_args(f, 1), st)
        out[g] = roots(c, r.v if not a else c.result(r.v)[1])
    ref, st, _ = c.selfval()
    f = c.method('channel_map')
    r = c.run(f, [ref], st)
    v = c.E.readloc(c.E.step(c.E.deref(r.v, r.st), ('x', sym('i', 'i', 0, 63))), r.st)
    out['channel_map'] = roots(c, v if isinstance(v, T) else c.entag(v))
    c.cache['sroots'] = out
    return out


def isadt(l, name):
    return name in l.adts


def hasfloats(c, adt, d=0):
    """does the type contain floating-point state"""
    E = c.E
    seen = set()

    def go(t):
        if t is None or t in seen:
            return False
        seen.add(t)
        ty = E.ty(t)
        if ty['k'] == 'float':
            return True
        if ty['k'] in ('ref', 'ptr', 'slice', 'array'):
            return go(ty['t'])
        if ty['k'] == 'adt':
            n = E.pointee(t)
            if n is not None and go(n):
                return True
            if any(isinstance(x, int) and go(x) for x in ty.get('args', [])):
                return True
            return any(go(f) for i in range(len(ty['v'])) for f in (E.fields(t, i) or []))
        if ty['k'] == 'tuple':
            return any(go(x) for x in ty['f'])
        return False
    for t in range(len(E.tt)):
        if E.ty(t)['k'] == 'adt' and E.ty(t)['n'] == adt:
            return go(t)
    return False


def nested(c, l):
    """the type owning the leaf: the type directly below the analyzer that holds floating-point state, if any"""
    for a in l.adts[1:]:
        for t in c.E.tt:
            if t['k'] == 'adt' and t['n'].split('::')[-1] == a and t['n'].startswith('ebur128'):
                if hasfloats(c, t['n']):
                    return a
    return None


def reference(c, ch, rate, m, w, name):
    """a new analyzer with other settings and window w: (ref, state, ok condition)"""
    E = c.E
    f = c.method('new')
    st = c.start(m)
    r = c.run(f, [ch, rate, c.intval(f['locals'][3], m)], st)
    tag, ok, et = c.result(r.v)
    s = r.st.copy()
    okc = s.facts.simp(eq(tag, ZERO))
    s.facts.add_bool(okc)
    val = c.clean(ok, s, okc)
    for reg in list(s.mem):
        s.mem[reg] = c.clean(s.mem[reg], s, okc)
    reg = region(('ref', name), None, None, name)
    s.mem[reg] = val
    ref = Rf(reg)
    g = c.method('set_max_window')
    r2 = c.run(g, [ref, w], s)
    t2, _, _ = c.result(r2.v)
    return ref, r2.st, band(okc, eq(t2, ZERO))


def c02_change(c, rep, tier):
    f = c.method('change_parameters')
    m = sym('mode', 'i', 0, 255)
    C, R = sym('C', 'i', 1, 64), sym('R', 'i', 16, 2822400)
    a1, a2 = c.opaque_args(f, 1)
    ref, st, info = c.selfval()
    w = getter(c, 'max_window', ref, st)
    smin = bor(lt(w, num(400)), band(has(m, S_), lt(w, num(3000))))
    st.facts.add_bool(bnot(smin))
    st.pc = band(st.pc, bnot(smin))
    r = c.run(f, [ref, a1, a2], st)
    okc, et, ok, facts, pc = exits(c, r)
    rref, rst, rok = reference(c, a1, a2, m, w, 'refc')
    changed = bor(bnot(eq(a1, C)), bnot(eq(a2, R)))
    cond = band(band(okc, changed), band(rok, bnot(smin)))
    rng = band(band(lt(ZERO, a1), le(a1, num(64))), band(le(num(16), a2), le(a2, num(2822400))))
    cond = band(cond, rng)
    cond = band(cond, r.st.pc)
    rt = settings_roots(c)
    perch = rt['channel_map'] | rt['sample_peak'] | rt['true_peak']
    same_ch = eq(a1, C)
    ref0, st0, _ = c.selfval()
    rep_reconf(c, rep, 'change_parameters', f, ref, r.st, rref, rst, ref0, st0, cond, perch, same_ch,
               keep=lambda l: 'History' in l.adts, setting=rt['max_history'] | rt['max_window'],
               pool=(1, 2, 3, 4, 5, 6, 8, 64, 16, 44100, 48000, 96000, 192000, 400, 3000, 401, 3001, 10000))


def E_sub(c, v, mp):
    return c.E.vsubst(v, mp) if isinstance(v, V) else TM.subst(v, mp, {}) if isinstance(v, T) else v


def rep_reconf(c, rep, name, f, ref, st1, rref, rst, ref0, st0, cond, perch, same_ch, keep, setting, pool):
    where = '%s (%s)' % (f['path'], span(f))
    news = objdiff(c, ref, st1, rref, rst, cond)
    olds = byname(objdiff(c, ref, st1, ref0, st0, cond))
    merged = State()
    merged.facts = st1.facts
    merged.pc = TRUE

    def check(what, l, extra=TRUE):
        if l.cond is None:
            return rep.ob(what, 'undecided', where)
        k = band(l.cond, extra)
        s, ev = ('proved', None) if k is FALSE else c.never(k, st1.facts, pool, 120)
        return rep.ob(what, s, where, 'is %s, expected %s' % (showv(l.x), showv(l.y)), ev)
    for l in news:
        top_ = l.path[0] if l.path else ''
        if keep(l):
            for o in olds.get(l):
                check('%s keeps %s' % (name, l.name), o)
            continue
        if top_ in setting:
            for o in olds.get(l):
                check('%s keeps the setting %s' % (name, l.name), o)
            continue
        if top_ in perch:
            if same_ch is not None:
                check('%s with another channel count: %s is as in a new analyzer' % (name, l.name), l, bnot(same_ch))
                for o in olds.get(l):
                    check('%s with the same channel count keeps %s' % (name, l.name), o, same_ch)
            else:
                for o in olds.get(l):
                    check('%s keeps %s' % (name, l.name), o)
            continue
        check('%s: %s is as in a new analyzer with these settings' % (name, l.name), l)


def c02_window(c, rep, tier):
    f = c.method('set_max_window')
    m = sym('mode', 'i', 0, 255)
    C, R = sym('C', 'i', 1, 64), sym('R', 'i', 16, 2822400)
    a, = c.opaque_args(f, 1)
    ref, st, info = c.selfval()
    win = getter(c, 'max_window', ref, st)
    r = c.run(f, [ref, a], st)
    okc, et, ok, facts, pc = exits(c, r)
    win2 = getter(c, 'max_window', ref, r.st)
    rref, rst, rok = reference(c, C, R, m, a, 'refw')
    wmin = ite(has(m, S_), num(3000), num(400))
    cond = band(band(band(okc, bnot(eq(win, win2))), rok), r.st.pc)
    cond = band(cond, le(wmin, win))
    # the reference keeps its own buffer when the window is the default one
    rt = settings_roots(c)
    perch = rt['channel_map'] | rt['sample_peak'] | rt['true_peak']
    ref0, st0, _ = c.selfval()
    rep_reconf(c, rep, 'set_max_window', f, ref, r.st, rref, rst, ref0, st0, cond, perch, None,
               keep=lambda l: nested(c, l) is not None, setting=rt['max_history'],
               pool=(0, 400, 401, 2999, 3000, 3001, 10000, 44100, 48000))


C01 = [('reset against new', c01)]
C02 = [('change_parameters', c02_change), ('set_max_window', c02_window)]


# ------------------------------------------------------------------ failing calls
def unchanged(c, rep, name, f, ref, st1, st0, cond, what, pool=()):
    where = '%s (%s)' % (f['path'], span(f))
    for l in objdiff(c, ref, st1, ref, st0, cond):
        s, ev = ('proved', None) if l.cond is FALSE else ('undecided', None) if l.cond is None else c.never(l.cond, st1.facts, pool, 120)
        rep.ob('%s: %s leaves %s unchanged' % (name, what, l.name), s, where, 'is %s, was %s' % (showv(l.x), showv(l.y)), ev)


def c03(c, rep, tier):
    for name in ('set_channel', 'set_channel_map', 'change_parameters', 'set_max_window', 'set_max_history'):
        f = c.method(name)
        ref, st, info = c.selfval()
        r = c.run(f, [ref] + c.opaque_args(f, 1), st)
        okc, et, ok, facts, pc = exits(c, r)
        unchanged(c, rep, name, f, ref, r.st, st, band(bnot(okc), r.st.pc), 'an error', (0, 6, 400, 3000, U32_MAX, 64, 65))


def c03_map(c, rep, tier):
    """set_channel_map over concrete small maps: rejected maps store nothing"""
    f = c.method('set_channel_map')
    E = c.E
    dm = chan_tags(c)['DualMono']
    for n in (2, 3):
        for pos in range(n):
            ref, st, info = c.selfval(ch=n)
            sty = E.ty(f['locals'][2])
            et_ = E.ty(sty['t'])['t']
            en = lambda k: En(et_, num(k), [() for _ in E.ty(et_)['v']])
            reg = region(('cm3', n, pos), None, None, 'map')
            vals = [en(9)] * n
            vals[pos] = en(dm)
            st.mem[reg] = E.mkarr(et_, vals)
            r = c.run(f, [ref, Sl(reg, (), ZERO, num(n))], st, unroll=n + 2)
            okc, et, ok, facts, pc = exits(c, r)
            unchanged(c, rep, 'set_channel_map of %d with DualMono at %d' % (n, pos), f, ref, r.st, st, band(bnot(okc), r.st.pc), 'an error', range(0, 32))


C03 = [('setters', c03), ('channel maps', c03_map)]


# ------------------------------------------------------------------ queries
def c23_pure(c, rep, tier):
    muts = c.mutators()
    n = 0
    for name, f in sorted(c.methods().items()):
        if name in muts or f['nargs'] < 1:
            continue
        t = c.E.ty(f['locals'][1])
        if t['k'] != 'ref' or c.E.ty(t['t'])['k'] != 'adt' or c.E.ty(t['t'])['n'].split('::')[-1] != 'EbuR128':
            continue
        ref, st, info = c.selfval()
        r = c.run(f, [ref] + c.opaque_args(f, 1), st)
        unchanged(c, rep, name, f, ref, r.st, st, r.st.pc, 'the query')


C23 = [('queries change nothing', c23_pure)]


AMBIENT = ('std::env::', 'std::time::', 'std::fs::', 'std::net::', 'std::thread::current', 'std::thread::available_parallelism', 'std::process::id', 'std::io::stdin',
           'hash::random::RandomState::new', 'std::thread::Thread::', 'std::random::')


def calls(f):
    for b in f.get('blocks') or ():
        t = b['t'] if isinstance(b, dict) else b[1]
        if t[0] == 'call':
            yield t


def interior(E, tid, seen=None, d=0):
    """name of the interior-mutable type inside a type, or None"""
    seen = seen if seen is not None else set()
    if tid is None or tid in seen or d > 12:
        return None
    seen.add(tid)
    t = E.ty(tid)
    k = t['k']
    if k == 'adt':
        n = t['n'].split('::')[-1]
        if n in ('UnsafeCell', 'Cell', 'RefCell', 'OnceCell', 'OnceLock', 'LazyLock', 'LazyCell', 'Once', 'Mutex', 'RwLock', 'SyncUnsafeCell', 'LocalKey') or n.startswith('Atomic'):
            return n
        subs = [x for v in t['v'] for _, x in v['f']] + [a for a in t['args'] if isinstance(a, int)]
    elif k in ('tuple',):
        subs = t['f']
    elif k in ('array', 'slice', 'ref', 'ptr'):
        subs = [t['t']]
    else:
        subs = []
    for s in subs:
        r = interior(E, s, seen, d + 1)
        if r:
            return r
    return None


def c23_shared(c, rep, tier):
    """no state outside of the analyzers"""
    E = c.E
    st = {}
    for i in E.items:
        if i['kind'] == 'static':
            st[i['name']] = i
    once = any(interior(E, i.get('ty')) == 'Once' for i in st.values())
    inits = []
    for f in E.fns.values():
        if f and f.get('local'):
            for t in calls(f):
                p = str(t[2])
                if ('OnceLock' in p or 'OnceCell' in p) and p.split('::')[-1] in ('get_or_init', 'set', 'get_or_try_init', 'get_mut_or_init'):
                    inits.append((f, t, p))
    n = 0
    for name, i in sorted(st.items()):
        n += 1
        text = 'static %s is not state that analyzers share' % name
        where = i['span']
        if i.get('tls'):
            rep.ob(text, 'refuted', where, 'a thread-local: results can depend on the calling thread')
        elif i.get('mut'):
            rep.ob(text, 'undecided' if once else 'refuted', where, 'static mut')
        else:
            m = interior(E, i.get('ty'))
            if m is None:
                rep.ob(text, 'proved', where, 'immutable')
            elif m in ('LazyLock', 'Once'):
                rep.ob(text, 'proved', where, 'initialised once, by a function without inputs')
            elif m in ('OnceLock', 'OnceCell'):
                bad = [(f, t, p) for f, t, p in inits if p.split('::')[-1] != 'get_or_init' or captures(c, t)]
                if not bad:
                    rep.ob(text, 'proved', where, 'initialised once, by a function without inputs')
                for f, t, p in bad:
                    rep.ob(text, 'refuted' if p.endswith('get_or_init') else 'undecided', '%s in %s' % (t[10] if len(t) > 10 else '', f['path']), 'the first caller decides the value for all')
            else:
                rep.ob(text, 'refuted', where, 'interior mutability: %s' % m)
    rep.ob('statics of the crate examined', 'proved', '', '%d' % n)


def captures(c, t):
    """does the closure handed to a call capture anything"""
    E = c.E
    for ty in list(t[5] or ()):
        if isinstance(ty, int):
            x = E.ty(ty)
            if x['k'] == 'closure' and x['up']:
                return True
            if x['k'] in ('fnptr', 'dyn'):
                return True
    return False


def c23_ambient(c, rep, tier):
    """no input besides arguments and configuration"""
    n = k = 0
    for f in c.E.fns.values():
        if not f or not f.get('local') or not f.get('blocks'):
            continue
        n += 1
        bad = []
        for t in calls(f):
            k += 1
            p = str(t[2])
            if any(a in p for a in AMBIENT):
                bad.append((t, p))
        for t, p in bad:
            rep.ob('%s has no input besides its arguments' % f['path'], 'refuted', '%s in %s' % (t[10] if len(t) > 10 else '', f['path']), 'calls ' + p)
        if not bad:
            rep.ob('%s has no input besides its arguments' % f['path'], 'proved', f.get('span', ''))
    return n, k


CELLW = re.compile(r'(Mutex.*::(lock|try_lock)|RwLock.*::(write|try_write)|RefCell.*::(borrow_mut|try_borrow_mut|replace|take|swap)|Cell.*::(set|replace|take|swap|update)|Atomic\w*.*::(store|swap|fetch_\w+|compare_\w+)|UnsafeCell.*::get|Once(Lock|Cell).*::(set|get_or_init))$')


def c23_interior(c, rep, tier):
    """queries write nothing behind a shared reference"""
    E = c.E
    muts = c.mutators()
    for name, f in sorted(c.methods().items()):
        if name in muts or f['nargs'] < 1:
            continue
        seen, todo, bad = set(), [f['id']], []
        while todo:
            i = todo.pop()
            g = E.fns.get(i)
            if i in seen or not g or not g.get('local') or not g.get('blocks'):
                continue
            seen.add(i)
            for t in calls(g):
                p = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', str(t[2])))
                if CELLW.search(p) and ('cell::' in p or 'sync::' in p):
                    bad.append((g, t, p))
                if t[1] is not None:
                    todo.append(t[1])
        if not bad:
            rep.ob('%s writes nothing through a shared reference' % name, 'proved', f.get('span', ''), '%d functions' % len(seen))
        for g, t, p in bad:
            once = 'Once' in p and not captures(c, t) and p.endswith('get_or_init')
            rep.ob('%s writes nothing through a shared reference' % name, 'undecided' if once else 'refuted', '%s in %s' % (t[10] if len(t) > 10 else '', g['path']), 'calls ' + p)


WITNESS = """use ebur128::EbuR128;
fn threads<T: Send + Sync + 'static>() {}
pub fn witness() { threads::<EbuR128>(); }
"""


def c23_threads(c, rep, tier):
    """type-level witness: a program that needs EbuR128: Send + Sync compiles"""
    import os, subprocess, tempfile, shutil
    repo = os.environ.get('VERIF_REPO', '/repo')
    w = tempfile.mkdtemp(prefix='wit', dir=os.environ.get('VERIF_TMP') or None)
    try:
        os.makedirs(w + '/src')
        open(w + '/src/lib.rs', 'w').write(WITNESS)
        open(w + '/Cargo.toml', 'w').write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2018"\n[workspace]\n[dependencies]\nebur128 = { path = "%s" }\n' % repo)
        lock = repo + '/Cargo.lock'
        env = dict(os.environ, CARGO_TARGET_DIR=w + '/t')
        for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(k, None)
        p = subprocess.run(['cargo', 'check', '--offline', '-q'], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = p.stdout
        text = 'EbuR128: Send + Sync (can be moved to and queried from other threads)'
        if p.returncode == 0:
            rep.ob(text, 'proved', 'src/ebur128.rs: struct EbuR128', 'the witness program type-checks')
        elif 'cannot be s' in o and 'between threads safely' in o:
            rep.ob(text, 'refuted', 'src/ebur128.rs: struct EbuR128', next((l for l in o.splitlines() if 'between threads safely' in l), '')[:200])
        else:
            rep.ob(text, 'undecided', 'src/ebur128.rs: struct EbuR128', o[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


C23 += [('interior mutability', c23_interior), ('shared state', c23_shared), ('other inputs', c23_ambient), ('threads', c23_threads)]
