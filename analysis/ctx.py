"""Analysis context: public entry points, canonical abstract analyzers, path feasibility and verdicts."""
import json, sys, time
sys.setrecursionlimit(200000)
from engine import *
import evalt, cuts
from evalt import Ev, search, pure, fdiff, isconst

M, S_, I, LRA, SP, TP, HIST = 1, 3, 5, 11, 0x11, 0x31, 0x40
USIZE_MAX = (1 << 64) - 1
U32_MAX = (1 << 32) - 1


class Missing(Exception):
    """a public anchor of the property is gone"""


class Undecided(Exception):
    pass


_neq = {}


def differ(cond, x, y, facts=None):
    """the condition under which cond holds and the gated terms x and y differ"""
    if facts is not None:
        x, y = facts.simp(x), facts.simp(y)

    def go(k, a, b):
        if k is FALSE or a is b:
            return FALSE
        key = (k, a, b)
        r = _neq.get(key)
        if r is not None:
            return r
        if a.op != 'ite' and b.op != 'ite':
            r = band(k, bnot(eq(a, b))) if a.sort != 'f' else band(k, bnot(fcomp('feq', a, b)))
        else:
            t = min(top(k), top(a), top(b))
            at = next(z.args[0] for z in (a, b, k) if z.op == 'ite' and top(z) == t)
            r = ite(batom(at), go(cof(k, at, 1), cof(a, at, 1), cof(b, at, 1)), go(cof(k, at, 0), cof(a, at, 0), cof(b, at, 0)))
        _neq[key] = r
        return r
    return go(cond, x, y)


class Res:
    """summary of one entry point"""
    __slots__ = ('v', 'st', 'events', 'fn', 'pre', 'secs', 'mem0')


class Ctx:
    def __init__(self, dump):
        self.d = dump
        self.E = Engine(dump)
        self.log = []
        self.api = {}
        for it in dump['items']:
            if it['kind'] == 'fn' and it['fn'] is not None:
                self.api[it['name']] = it
        self.cache = {}
        self.counts = {}
        self.mode_tid = None

    # ---------------------------------------------------------------- entries
    def method(self, name, need=True):
        """the public inherent method EbuR128::name"""
        out = [f for p, fs in self.E.byname.items() if p.split('::')[-2:] == ['EbuR128', name] for f in fs if f.get('local') and f.get('blocks')]
        if not out:
            if need:
                raise Missing('public function EbuR128::%s' % name)
            return None
        return out[0]

    def methods(self):
        """all public inherent non-generic methods of EbuR128: name -> fn"""
        out = {}
        for n, it in self.api.items():
            p = n.split('::')
            if len(p) >= 2 and p[-2] == 'EbuR128' and it['vis'] == 'pub' and it['reach'] and not n.startswith('<'):
                f = self.E.fns.get(it['fn'])
                if f and f.get('blocks'):
                    out[p[-1]] = f
        return out

    def mutators(self):
        out = {}
        for n, f in self.methods().items():
            t = self.E.ty(f['locals'][1]) if f['nargs'] else None
            if t and t['k'] == 'ref' and t['m']:
                out[n] = f
        return out

    def cfn(self, name, need=True):
        """exported C function"""
        out = [f for p, fs in self.E.byname.items() if p.split('::')[-1] == name for f in fs if f.get('local') and f.get('blocks') and '{closure' not in p]
        if not out:
            if need:
                raise Missing('C function %s' % name)
            return None
        return out[0]

    def cfns(self):
        out = {}
        for p, fs in self.E.byname.items():
            n = p.split('::')[-1]
            if n.startswith('ebur128_') and '{closure' not in p:
                for f in fs:
                    if f.get('local') and f.get('blocks') and 'C' in str(f.get('abi', '')):
                        out[n] = f
        return out

    # ---------------------------------------------------------------- running
    def run(self, fn, args, st=None, pathq=None, limit=None, unroll=0):
        E = self.E
        E.events = []
        E.stack = []
        E.pathq = pathq
        E.unroll = unroll
        old = E.max_steps
        if limit:
            E.steps = 0
            E.max_steps = limit
        t = time.time()
        r = Res()
        r.fn = fn
        try:
            r.v, r.st = E.run_fn(fn, args, st or State())
        finally:
            E.max_steps = old
            E.pathq = None
            E.unroll = 0
            r.events = E.events
            r.secs = time.time() - t
        self.log.append((fn['path'], round(r.secs, 2)))
        return r

    def opaque_args(self, fn, start=0, pre='a'):
        return [self.E.opq('sym', ('%s%d' % (pre, k),), fn['locals'][k + 1]) for k in range(start, fn['nargs'])]

    # ---------------------------------------------------------------- values
    def intval(self, tid, term):
        """value of a (transparently wrapped) integer type"""
        t = self.E.ty(tid)
        if t['k'] in ('int', 'char'):
            return term
        f = self.E.fields(tid)
        return St(tid, [self.intval(f[0], term)])

    def intof(self, v):
        """the integer inside transparent wrappers"""
        while isinstance(v, V):
            if v.k == 'Op':
                v = self.E.expand(v)
            if v.k == 'St' and len(v.a[1]) == 1:
                v = v.a[1][0]
            else:
                return None
        return v

    def result(self, v):
        """(tag term, ok value, err tag term) of a Result value; Ok is variant 0"""
        v = self.exp(v)
        if v.k == 'Ch':
            a, b = self.result(v.a[1]), self.result(v.a[2])
            c = v.a[0]
            return (ite(c, a[0], b[0]), self.E.merge(c, a[1], b[1]) if a[1] is not None or b[1] is not None else None,
                    ite(c, a[2], b[2]) if a[2] is not None and b[2] is not None else a[2] if b[2] is None else b[2])
        tag = v.a[1]
        ok = v.a[2][0]
        er = v.a[2][1]
        okv = ok[0] if ok else None
        et = None
        if er and er[0] is not None:
            e = self.exp(er[0])
            et = self.entag(e)
        return tag, okv, et

    def entag(self, e):
        e = self.exp(e)
        if isinstance(e, V) and e.k == 'En':
            return e.a[1]
        if isinstance(e, V) and e.k == 'Ch':
            return ite(e.a[0], self.entag(e.a[1]), self.entag(e.a[2]))
        return None

    def exp(self, v):
        return self.E.expand(v) if isinstance(v, V) else v

    def err_tags(self):
        """variant names of the Error enum: name -> tag"""
        for t in self.E.tt:
            if t['k'] == 'adt' and t['a'] == 'enum' and t['n'].split('::')[-1] == 'Error' and t['n'].startswith('ebur128'):
                return {v['n']: i for i, v in enumerate(t['v'])}
        raise Missing('enum Error')

    # ---------------------------------------------------------------- canonical analyzer
    def fresh_args(self, ch=None, rate=None, mode=None):
        """arguments of new(): symbols over the documented ranges or constants"""
        f = self.method('new')
        if f['nargs'] != 3:
            raise Missing('EbuR128::new(channels, rate, mode)')
        C = num(ch) if isinstance(ch, int) else sym('C', 'i', 1, 64)
        R = num(rate) if isinstance(rate, int) else sym('R', 'i', 16, 2822400)
        if isinstance(mode, int):
            m = num(mode)
        else:
            m = sym('mode', 'i', 0, 255)
        return C, R, m, [C, R, self.intval(f['locals'][3], m)]

    def start(self, m):
        """initial state of a run over a valid analyzer: the mode includes M"""
        st = State()
        c = bit(m, 0)
        st.facts.add_bool(c)
        st.pc = c
        return st

    newunroll = 0        # loops of the constructor are opened up to this length

    def construct(self, ch=None, rate=None, mode=None):
        """(struct value, state) of a freshly created analyzer"""
        k = ('new', ch, rate, mode, self.newunroll)
        if k in self.cache:
            return self.cache[k]
        f = self.method('new')
        C, R, m, args = self.fresh_args(ch, rate, mode)
        st = self.start(m)
        r = self.run(f, args, st, unroll=self.newunroll)
        if r.v is None:
            raise Undecided('new() has no exit')
        tag, ok, _ = self.result(r.v)
        s = r.st.copy()
        c = s.facts.simp(eq(tag, ZERO))
        s.facts.add_bool(c)
        out = (self.clean(ok, s, c), s, c)
        for reg in list(s.mem):
            s.mem[reg] = self.clean(s.mem[reg], s, c)
        self.cache[k] = out
        return out

    def clean(self, v, s, c=TRUE):
        """simplify a value under the facts and the condition c"""
        memo = {}

        def go(x):
            if isinstance(x, T):
                y = restrict(x, c) if x.op == 'ite' and c is not TRUE and c.op == 'ite' else x
                return s.facts.simp(y)
            if isinstance(x, tuple):
                return tuple(go(a) for a in x)
            if not isinstance(x, V):
                return x
            r = memo.get(x)
            if r is None:
                if x.k == 'Ch':
                    k = s.facts.simp(restrict(x.a[0], c) if c is not TRUE and c.op == 'ite' else x.a[0])
                    r = go(x.a[1]) if k is TRUE else go(x.a[2]) if k is FALSE else Ch(k, go(x.a[1]), go(x.a[2]))
                elif x.k == 'Op':
                    r = x
                else:
                    r = mkv(x.k, *[go(a) for a in x.a])
                memo[x] = r
            return r
        return go(v)

    def written_fields(self, fns):
        """(adt name, field) pairs assigned or mutably borrowed through a place in functions reachable from fns"""
        E = self.E
        seen, todo, out = set(), [f['id'] for f in fns], set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            f = E.fns.get(i)
            if not f or not f.get('blocks'):
                continue
            for stmts, term in f['blocks']:
                for s in stmts:
                    if s[0] == '=':
                        self._wf(f, s[1], out)
                        rv = s[2]
                        if rv[0] in ('ref', 'addr') and (rv[1] is True or 'mut' in str(rv[1]).lower()):
                            for q in rv[1:]:
                                if isinstance(q, list) and len(q) == 2 and isinstance(q[0], int) and isinstance(q[1], list):
                                    self._wf(f, q, out)
                if term[0] == 'call':
                    self._wf(f, term[6], out)
                    if isinstance(term[1], int):
                        todo.append(term[1])
            for x in self.refs(f):
                todo.append(x)
        return out, seen

    def refs(self, f):
        """function ids referenced by f (callees, closures)"""
        out = set()
        for stmts, term in f['blocks']:
            if term[0] == 'call' and isinstance(term[1], int):
                out.add(term[1])
            elif term[0] == 'call' and isinstance(term[1], dict):
                for v in term[1].values():
                    if isinstance(v, int):
                        out.add(v)
        for t in f['locals']:
            ty = self.E.ty(t)
            if ty['k'] == 'closure' and isinstance(ty.get('inst'), int):
                out.add(ty['inst'])
            elif ty['k'] == 'closure' and isinstance(ty.get('inst'), dict):
                for v in ty['inst'].values():
                    if isinstance(v, int):
                        out.add(v)
        return out

    def _wf(self, f, place, out):
        tid = f['locals'][place[0]]
        var = 0
        for q in place[1]:
            t = self.E.ty(tid)
            if q[0] == '*':
                p = self.E.pointee(tid)
                if p is None:
                    return
                tid = p
                var = 0
            elif q[0] == 'f':
                if t['k'] == 'adt':
                    out.add((t['n'], var, q[1]))
                fs = self.E.fields(tid, var)
                if not fs or q[1] >= len(fs):
                    return
                tid = fs[q[1]]
                var = 0
            elif q[0] == 'v':
                var = q[1]
            else:
                e = self.E.elem(tid)
                if e is None:
                    return
                tid = e
                var = 0

    def selfval(self, ch=None, rate=None, mode=None, name='s', keep=None, fresh=False):
        """(reference to a canonical reachable analyzer, state, info).

        The object is the one `new` returns with everything that processing may change replaced by
        unknowns of the same shape (keep: predicate on the field path deciding what stays)."""
        ok, s0, okc = self.construct(ch, rate, mode)
        E = self.E
        st = self.start(self.fresh_args(ch, rate, mode)[2])
        st.facts = s0.facts.copy()
        info = {'leaf': {}, 'C': None, 'R': None}
        if fresh:
            st.mem = dict(s0.mem)
            tid = self.method('new')['locals'][0]
            reg = region(('self', name, ch, rate, mode, 'new'), None, None, name)
            st.mem[reg] = ok
            return Rf(reg), st, info
        wr = self.volatile()

        def gen(v, path, tid, vol):
            nm = name + ''.join('.%s' % p for p in path)
            if v is None:
                return None
            if isinstance(v, T):
                k = E.ty(tid)['k'] if tid is not None else None
                if v.sort == 'i':
                    if not vol:
                        return v
                    x = mk('sym', (nm,), 'i')
                    RNG[x] = E.int_range(tid) if k == 'int' else (0, INF)
                    info['leaf'][x] = path
                    return x
                if v.sort == 'b':
                    return v if not vol else batom(mk('sym', (nm,), 'b'))
                x = mk('sym', (nm,), 'f')
                info['leaf'][x] = path
                return x
            k = v.k
            if k == 'Op':
                return v if not vol else E.opq('sym', (nm,), v.a[1])
            if k == 'St':
                t = v.a[0]
                fs = E.fields(t) if t is not None else None
                n = E.ty(t)['n'] if t is not None and E.ty(t)['k'] == 'adt' else None
                fn_ = [x[0] for x in E.ty(t)['v'][0]['f']] if n else None
                return St(t, [gen(x, path + ((fn_[i] if fn_ else i),), fs[i] if fs else None, vol or (n is not None and (n, 0, i) in wr and (isinstance(x, T) or isinstance(x, V) and x.k == 'Ar')))
                              for i, x in enumerate(v.a[1])])
            if k == 'En':
                t = v.a[0]
                tag = v.a[1]
                live = set()
                for l in leaves(tag):
                    if l.op == 'int':
                        live.add(l.args[0])
                    else:
                        live = set(range(len(v.a[2])))
                        break
                vs = E.ty(t)['v']
                return En(t, tag, [None if p is None or i not in live else tuple(
                    gen(x, path + (vs[i]['n'], j), E.fields(t, i)[j], vol) for j, x in enumerate(p)) for i, p in enumerate(v.a[2])])
            if k == 'Ch':
                a, b = gen(v.a[1], path, tid, vol), gen(v.a[2], path, tid, vol)
                if a is b:
                    return a
                if isinstance(a, V) and isinstance(b, V) and a.k == 'Sl' and b.k == 'Sl':
                    return sl(a.a[3], b.a[3], v.a[0], nm, path, a.a[0])
                return Ch(v.a[0], a, b)
            if k == 'Sl':
                ar = s0.get(v.a[0])
                ar = E.rd(ar, v.a[1], s0)
                e = elemtid(ar)
                if e is None:
                    return E.unknown(tid, 'slice')
                ln = st.facts.simp(v.a[3])
                r = region(('in', nm, ch, rate, mode), None, Ar(e, ln, ('o', mk('sym', (nm,), 'o'))), nm)
                info['leaf'][mk('sym', (nm,), 'o')] = path
                return Sl(r, (), ZERO, ln)
            if k in ('Rf', 'Vc'):
                x = s0.get(v.a[0])
                x = E.rd(x, v.a[1] if k == 'Rf' else (), s0)
                r = region(('in', nm, ch, rate, mode), v.a[0].tid, gen(x, path, None, True), nm)
                return Rf(r) if k == 'Rf' else Vc(r)
            if k == 'Ar':
                if not vol:
                    return v        # coefficients: nothing writes them after construction
                return Ar(v.a[0], v.a[1], ('o', mk('sym', (nm,), 'o')))
            if k == 'Dq':
                t = mk('sym', (nm,), 'o')
                ln = mk('len', (t,), 'i')
                RNG[ln] = (0, 1 << 40)
                info['leaf'][t] = path
                info['leaf'][ln] = path
                return Dq(t, ln)
            return E.unknown(tid, 'shape') if tid is not None else Un('shape')

        def elemtid(ar):
            if isinstance(ar, V) and ar.k == 'Ar':
                return ar.a[0]
            if isinstance(ar, V) and ar.k == 'Ch':
                return elemtid(ar.a[1]) or elemtid(ar.a[2])
            return None

        def sl(l1, l2, c, nm, path, r1):
            # one region whose length is the gated length (simplified by cases)
            ln = ite(c, l1, l2)
            ls = leaves(ln)
            for cand in ls:
                if self.same_by_cases(ln, cand, st.facts):
                    ln = cand
                    break
            e = r1.init.a[0]
            r = region(('in', nm, ch, rate, mode), None, Ar(e, ln, ('o', mk('sym', (nm,), 'o'))), nm)
            VV._rt.pop(('in', nm, ch, rate, mode), None)
            r = region(('in', nm, ch, rate, mode), None, Ar(e, ln, ('o', mk('sym', (nm,), 'o'))), nm)
            return Sl(r, (), ZERO, ln)
        val = gen(ok, (), None, False)
        reg = region(('self', name, ch, rate, mode), None, val, name)
        st.mem[reg] = val
        info['val'] = val
        info['reg'] = reg
        return Rf(reg), st, info

    def volatile(self):
        """scalar fields that audio processing / reset may write, from the MIR of everything reachable"""
        if 'vol' not in self.cache:
            fs = [f for n, f in self.mutators().items() if n not in ('change_parameters',)]
            self.cache['vol'], self.cache['volfns'] = self.written_fields(fs)
        return self.cache['vol']

    def same_by_cases(self, a, b, facts):
        for lits, leaf in paths(a, 64):
            f = facts.copy()
            ok = True
            for at, v in lits.items():
                if f.decide(at) is (not v) or f.add_lit(at, v) is False:
                    ok = False
                    break
            if not ok:
                continue
            if leaf is b:
                continue
            d = sub(leaf, b)
            if d is ZERO or (f.le0(d) and f.le0(neg(d))) or f.norm(d) is ZERO:
                continue
            return False
        return True

    # ---------------------------------------------------------------- verdicts
    def infeasible(self, c, facts, limit=600):
        """True if the analysis refutes every path of condition c"""
        c = facts.simp(c)
        if c is FALSE:
            return True
        ps = paths(c, limit)
        if len(ps) >= limit:
            return False
        for lits, leaf in ps:
            if leaf is FALSE:
                continue
            if not self.path_infeasible(lits, facts):
                return False
        return True

    def path_infeasible(self, lits, facts):
        f = facts.copy()
        for a, v in lits.items():
            if f.add_lit(a, v) is False:
                return True
        for a, v in lits.items():
            g = f
            del_ = g.lits.pop(a, None)
            r = g.decide(a)
            g.lits[a] = v
            if r is not None and r != v:
                return True
        for p in f.lins:
            lo, hi = f.range(p)
            if lo > 0:
                return True
        for a, (lo, hi) in f.rng.items():
            if lo > hi:
                return True
            l2, h2 = RNG.get(a, (-INF, INF))
            if lo > h2 or hi < l2:
                return True
        return self.eq_infeasible(lits, facts)

    def eq_infeasible(self, lits, facts):
        """substitute what the path's equations determine and look for a literal that contradicts it"""
        mp = {}
        for a, v in lits.items():
            if not v or a.op != 'eq0':
                continue
            p = TM.gsubst(a.args[0], mp) if mp else a.args[0]
            if p.sort != 'i' or p.op == 'ite':
                continue
            d = P(p)
            for m in sorted(d, key=lambda m: (len(m), tuple(x.id for x in m))):
                if len(m) == 1 and m[0].op == 'sym' and abs(d[m]) == 1 and not any(
                        m[0] in n or any(occurs(m[0], x) for x in n) for n in d if n != m):
                    rest = {n: -k * d[m] for n, k in d.items() if n != m}
                    e = TM.fromP(rest)
                    lo, hi = RNG.get(m[0], (-INF, INF))
                    if e.op == 'int' and not lo <= e.args[0] <= hi:
                        return True
                    mp = {k: TM.gsubst(x, {m[0]: e}) for k, x in mp.items()}
                    mp[m[0]] = e
                    break
        if not mp:
            return False
        f = facts.copy()
        memo = {}
        for a, v in lits.items():
            b = f.simp(TM.gsubst(batom(a), mp, memo))
            if b is FALSE and v or b is TRUE and not v:
                return True
            if b.op == 'ite' and {b.args[1], b.args[2]} == {TRUE, FALSE}:
                w = v if b.args[1] is TRUE else not v
                d = f.decide(b.args[0])
                if d is not None and d != w or f.add_lit(b.args[0], w) is False:
                    return True
        return False

    def never(self, c, facts, pool=(), tries=150, fixed=None, seed=1):
        """('proved',None) / ('refuted', Ev) / ('undecided',None) for 'condition c never holds'"""
        raw = c
        c = facts.simp(c)
        if c is FALSE:
            return 'proved', None
        if self.infeasible(c, facts):
            return 'proved', None
        ev = search(raw, fixed, tries, seed, pool)
        if ev is not None:
            return 'refuted', ev
        return 'undecided', None


def occurs(s, t, seen=None):
    if seen is None:
        seen = set()
    if t is s:
        return True
    if isinstance(t, tuple):
        return any(occurs(s, x, seen) for x in t)
    if not isinstance(t, T) or t in seen:
        return False
    seen.add(t)
    return any(occurs(s, x, seen) for x in t.args)


def load(path):
    return Ctx(json.load(open(path)))
