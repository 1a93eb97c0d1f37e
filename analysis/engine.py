"""Abstract interpreter over the dumped MIR: gated value numbering with loop summaries.

States are merged at every control-flow join (values become decision diagrams over branch atoms), loops
are brought to a fixpoint over `mu` placeholders, calls to functions with a body are inlined and the
remaining library functions are modelled (models.py).  Nothing of the analysed program is executed.
"""
import json, re
from collections import defaultdict
from terms import *
import terms as TM
from facts import Facts, forced, meet, assign
from values import *
import values as VV

U64 = (1 << 64) - 1
LENMAX = 1 << 60


class Budget(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'pc', 'own')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.pc = TRUE
        self.own = True

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.pc = self.pc
        s.own = True
        return s

    def branch(self, c):
        """copy of the state assuming boolean c; None if infeasible"""
        c = self.facts.simp(c)
        if c is FALSE:
            return None
        s = self.copy()
        if c is TRUE:
            return s
        if not s.facts.add_bool(c):
            return None
        s.pc = band(s.pc, c)
        return s

    def assume(self, c):
        """add c as a fact without recording it as a branch decision"""
        self.facts.add_bool(self.facts.simp(c))

    def get(self, reg):
        v = self.mem.get(reg)
        return reg.init if v is None else v


class Loop:
    """closed loop summary: mu symbol i has initial value inits[i] and next value nexts[i] (over bound
    placeholders ph(('L',h),i))"""
    __slots__ = ('inits', 'nexts', 'h', 'free', 'unk', 'id', 'site', 'trip')
    tab = {}

    @staticmethod
    def make(inits, nexts, h, site, trip=None):
        k = (inits, nexts, h, trip)
        l = Loop.tab.get(k)
        if l is None:
            l = Loop()
            l.inits, l.nexts, l.h, l.site, l.trip = inits, nexts, h, site, trip
            acc = set()
            l.unk = collect_free((inits, nexts, trip), acc)
            l.free = frozenset(x for x in acc if not (x.op == 'ph' and x.args[0] == ('L', h)))
            l.id = len(Loop.tab)
            Loop.tab[k] = l
        return l

    def subst(self, mp, go, memo):
        r = memo.get(self)
        if r is None:
            r = Loop.make(tuple(go(x) for x in self.inits), tuple(go(x) for x in self.nexts), self.h, self.site,
                          go(self.trip) if self.trip is not None else None)
            memo[self] = r
        return r

    def __repr__(self):
        return 'L%d' % self.id


def lheight(x, seen=None):
    """max loop height inside x"""
    if seen is None:
        seen = set()
    m = 0
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if isinstance(y, T):
            if y.id in seen:
                continue
            seen.add(y.id)
            st.extend(y.args)
        elif isinstance(y, V):
            if ('v', y.id) in seen:
                continue
            seen.add(('v', y.id))
            st.extend(y.a)
        elif isinstance(y, Loop):
            m = max(m, y.h)
    return m


class CFG:
    def __init__(self, fn):
        bl = fn['blocks']
        n = len(bl)
        self.succ = [self.succs(b[1]) for b in bl]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        preds = defaultdict(list)
        for b in self.rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for y in ps[1:]:
                    a, c = x, y
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dom = dom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.idx[s] <= self.idx[b] and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        # order per region
        self.order = {}
        for h, body in list(self.loops.items()) + [(None, set(self.rpo))]:
            inner = [(h2, b2) for h2, b2 in self.loops.items() if h2 != h and h2 in body]
            skip = set()
            for h2, b2 in inner:
                skip |= b2 - {h2}
            for h2, b2 in inner:
                if any(h2 in b3 and h3 != h2 for h3, b3 in inner):
                    skip.add(h2)
            self.order[h] = [b for b in self.rpo if b in body and b not in skip]
        self.live = self.liveness(fn)

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = []
            for v, b in t[2]:
                if b not in r:
                    r.append(b)
            if t[3] is not None and t[3] not in r:
                r.append(t[3])
            return r
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[7]] if t[7] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def liveness(self, fn):
        """locals possibly live at loop heads (borrowed locals are always live)"""
        bl = fn['blocks']
        borrowed = set()
        for s, t in bl:
            for x in s:
                if x[0] == '=' and x[2][0] in ('ref', 'addr'):
                    p = x[2][2]
                    if not any(q[0] == '*' for q in p[1]):
                        borrowed.add(p[0])
        use, de = {}, {}

        def opu(o, u, d):
            if o[0] in ('copy', 'move'):
                plu(o[1], u, d)

        def plu(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for q in p[1]:
                if q[0] == 'i' and q[1] not in d:
                    u.add(q[1])
        for b in self.rpo:
            u, d = set(), set()
            for x in bl[b][0]:
                if x[0] == '=':
                    rv = x[2]
                    k = rv[0]
                    if k in ('use', 'repeat'):
                        opu(rv[1], u, d)
                    elif k in ('ref', 'addr'):
                        plu(rv[2], u, d)
                    elif k in ('bin', 'cbin'):
                        opu(rv[2], u, d)
                        opu(rv[3], u, d)
                    elif k == 'un':
                        opu(rv[2], u, d)
                    elif k == 'cast':
                        opu(rv[2], u, d)
                    elif k in ('discr', 'len'):
                        plu(rv[1], u, d)
                    elif k == 'agg':
                        for o in rv[3]:
                            opu(o, u, d)
                    p = x[1]
                    if p[1]:
                        plu(p, u, d)
                    elif p[0] not in u:
                        d.add(p[0])
                elif x[0] == 'dead':
                    if x[1] not in u:
                        d.add(x[1])
                elif x[0] == 'setd':
                    pass
                elif x[0] == 'assume':
                    opu(x[1], u, d)
                elif x[0] == 'cno':
                    for o in x[1:4]:
                        opu(o, u, d)
            t = bl[b][1]
            k = t[0]
            if k == 'switch':
                opu(t[1], u, d)
            elif k == 'call':
                for o in t[4]:
                    opu(o, u, d)
                if t[9] is not None:
                    if isinstance(t[9], list):
                        opu(t[9], u, d)
                p = t[6]
                if p[1]:
                    plu(p, u, d)
            elif k == 'assert':
                opu(t[1], u, d)
            elif k == 'drop':
                plu(t[1], u, d)
            elif k == 'ret':
                if 0 not in d:
                    u.add(0)
            use[b], de[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - de[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        return {h: live[h] | borrowed for h in self.loops}


class Frame:
    __slots__ = ('fn', 'ctx', 'regs', 'cfg', 'site', 'cur')


class Plan:
    def __init__(self):
        self.leaf = {}       # (reg, path) -> ('s', tid|None) | ('a',) | ('top', tid)
        self.seg = {}        # (reg, path) -> [k leaf key, offset term, hole, val]
        self.cands = None
        self.dead = set()
        self.order = []
        self.noseg = set()


class Event(dict):
    __getattr__ = dict.get


class Engine:
    def __init__(self, dump):
        self.d = dump
        self.tt = dump['types']
        self.fns = {f['id']: f for f in dump['fns']}
        self.items = dump.get('items', [])
        self.cfgs = {}
        self.ctxs = {}
        self.plans = {}
        self.opq_calls = {}      # fn id or path predicate -> handler
        self.events = []
        self.stack = []
        self.depth = 0
        self.steps = 0
        self.max_steps = 3000000
        self.analysed = set()
        self.unmodelled = defaultdict(int)
        self.pathq = None
        self._regc = {}
        self.statics = {}
        VV.REGION_D_HOOK[0] = self.region_d
        import models
        self.models = models.Models(self)
        self.dirty = set()      # call sites reached while the floating-point environment is changed
        self.byname = defaultdict(list)
        for f in dump['fns']:
            self.byname[f['path']].append(f)
        self.u_tid = next(i for i, t in enumerate(self.tt) if t['k'] == 'int' and t['n'] == 'u64')
        self.f64 = next(i for i, t in enumerate(self.tt) if t['k'] == 'float' and t['n'] == 'f64')
        self.tab_terms = {}

    # ------------------------------------------------------------ types
    def ty(self, tid):
        return self.tt[tid]

    def tname(self, tid):
        t = self.tt[tid]
        k = t['k']
        if k in ('int', 'float'):
            return t['n']
        if k == 'adt':
            return t['n'].split('::')[-1] + ('<%s>' % ','.join(self.tname(a) if isinstance(a, int) else str(a) for a in t['args']) if t['args'] else '')
        if k in ('ref', 'ptr'):
            return ('&' if k == 'ref' else '*') + ('mut ' if t['m'] else '') + self.tname(t['t'])
        if k == 'slice':
            return '[%s]' % self.tname(t['t'])
        if k == 'array':
            return '[%s;%s]' % (self.tname(t['t']), t['len'])
        if k == 'tuple':
            return '(%s)' % ','.join(self.tname(a) for a in t['f'])
        return k

    def int_range(self, tid):
        t = self.tt[tid]
        n = t['n']
        if n in ('usize', 'isize'):
            n = n[0] + '64'
        b = int(n[1:])
        if n[0] == 'u':
            return 0, (1 << b) - 1
        return -(1 << (b - 1)), (1 << (b - 1)) - 1

    def bits(self, tid):
        t = self.tt[tid]
        if t['k'] == 'bool':
            return 1, False
        if t['k'] == 'char':
            return 32, False
        n = t['n']
        return int(n[1:]), n[0] == 'i'

    def is_adt(self, tid, suffix):
        t = self.tt[tid]
        return t['k'] == 'adt' and t['n'].split('::')[-1] == suffix

    def fwidth(self, tid):
        return 32 if self.tt[tid]['n'] == 'f32' else 64

    def pointee(self, tid):
        t = self.tt[tid]
        if t['k'] in ('ref', 'ptr'):
            return t['t']
        if t['k'] == 'adt':
            if t.get('box') or t['n'].split('::')[-1] in ('Unique', 'NonNull'):
                return t['args'][0]
        return None

    def fields(self, tid, variant=0):
        t = self.tt[tid]
        k = t['k']
        if k == 'tuple':
            return t['f']
        if k == 'closure':
            return t['up']
        if k == 'adt':
            return [f[1] for f in t['v'][variant]['f']]
        return None

    def elem(self, tid):
        t = self.tt[tid]
        if t['k'] in ('array', 'slice'):
            return t['t']
        return None

    # ------------------------------------------------------------ opaque values
    def opq(self, op, args, tid):
        """opaque value of type tid denoted by term op(args)"""
        t = self.tt[tid]
        k = t['k']
        if k in ('int', 'char'):
            x = mk(op, args, 'i')
            if x not in RNG:
                RNG[x] = self.int_range(tid) if k == 'int' else (0, 0x10ffff)
                if op in ('proj', 'deref', 'sel') and False:
                    pass
            return x
        if k == 'float':
            return mk(op, args, 'f')
        if k == 'bool':
            return batom(mk(op, args, 'b'))
        if k == 'tuple' and not t['f']:
            return UNIT
        if k == 'fndef' or (k == 'closure' and not t['up']):
            return Fn(tid)
        return Op(mk(op, args, 'o'), tid)

    def region_d(self, t, tid):
        key = ('d', t, tid)
        r = VV._rt.get(key)
        if r is None:
            tt = self.tt[tid]
            if tt['k'] == 'slice':
                ln = mk('len', (t,), 'i')
                RNG[ln] = (0, LENMAX)
                init = Ar(tt['t'], ln, ('o', mk('deref', (t,), 'o')))
            elif tt['k'] == 'str':
                init = Op(mk('deref', (t,), 'o'), tid)
            else:
                init = self.opq('deref', (t,), tid)
            r = region(key, tid, init, '*' + TM.show(t))
        return r

    def pointer(self, t, pt):
        """value of an opaque pointer t to pointee type pt"""
        k = self.tt[pt]['k']
        if k == 'slice' or k == 'str':
            ln = mk('len', (t,), 'i')
            RNG.setdefault(ln, (0, LENMAX))
            return Sl(self.region_d(t, pt), (), ZERO, ln)
        return Rf(self.region_d(t, pt))

    def expand(self, v):
        """one-level expansion of an opaque aggregate"""
        if not isinstance(v, V) or v.k != 'Op':
            return v
        t, tid = v.a
        ty = self.tt[tid]
        k = ty['k']
        if k in ('ref', 'ptr'):
            return self.pointer(t, ty['t'])
        if k == 'tuple' or k == 'closure':
            return St(tid, [self.opq('proj', (t, i), f) for i, f in enumerate(self.fields(tid))])
        if k == 'array':
            return Ar(ty['t'], num(ty['len']), ('o', t))
        if k == 'adt':
            n = ty['n'].split('::')[-1]
            p = self.pointee(tid)
            if p is not None:
                return self.pointer(t, p)
            if n in ('Vec', 'SmallVec'):
                key = ('v', t, tid)
                r = VV._rt.get(key)
                if r is None:
                    ln = mk('len', (t,), 'i')
                    RNG[ln] = (0, LENMAX)
                    et = ty['args'][0]
                    if n == 'SmallVec':
                        et = self.elem(et)
                    r = region(key, None, Ar(et, ln, ('o', mk('deref', (t,), 'o'))), '*' + TM.show(t))
                return Vc(r)
            if n == 'VecDeque':
                ln = mk('len', (t,), 'i')
                RNG[ln] = (0, LENMAX)
                return Dq(t, ln)
            if ty['a'] == 'struct':
                return St(tid, [self.opq('proj', (t, i), f) for i, f in enumerate(self.fields(tid))])
            if ty['a'] == 'enum':
                nv = len(ty['v'])
                if nv == 1:
                    tag = ZERO
                else:
                    tag = mk('tag', (t,), 'i')
                    RNG[tag] = (0, nv - 1)
                return En(tid, tag, [tuple(self.opq('proj', (t, (i, j)), f) for j, f in enumerate(self.fields(tid, i))) for i in range(nv)])
        return v

    def unknown(self, tid, why=''):
        """fuzzy value of a type"""
        t = self.tt[tid]
        k = t['k']
        if k in ('int', 'char'):
            u = unk('i', why)
            RNG[u] = self.int_range(tid) if k == 'int' else (0, 0x10ffff)
            return u
        if k == 'float':
            return unk('f', why)
        if k == 'bool':
            return batom(unk('b', why))
        if k == 'tuple' and not t['f']:
            return UNIT
        if k == 'fndef' or (k == 'closure' and not t['up']):
            return Fn(tid)
        return Op(unk('o', why), tid)

    # ------------------------------------------------------------ merging values
    def merge(self, c, a, b, st=None):
        """value a if c else b"""
        if a is b or c is TRUE or b is None:
            return a
        if c is FALSE or a is None:
            return b
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, T) or isinstance(b, T):
            return Ch(c, a, b)
        ka, kb = a.k, b.k
        if ka == 'Op' and kb != 'Op':
            a = self.expand(a)
            ka = a.k
        elif kb == 'Op' and ka != 'Op':
            b = self.expand(b)
            kb = b.k
        if ka == kb:
            x, y = a.a, b.a
            if ka == 'Op':
                a2, b2 = self.expand(a), self.expand(b)
                if a2 is not a and b2 is not b and x[1] == y[1]:
                    return self.merge(c, a2, b2)
                return Ch(c, a, b)
            if ka == 'St' and len(x[1]) == len(y[1]):
                return St(x[0], [self.merge(c, p, q) for p, q in zip(x[1], y[1])])
            if ka == 'En' and len(x[2]) == len(y[2]):
                ps = []
                for p, q in zip(x[2], y[2]):
                    if p is None or q is None:
                        ps.append(p if q is None else q)
                    else:
                        ps.append(tuple(self.merge(c, m, n) for m, n in zip(p, q)))
                return En(x[0], ite(c, x[1], y[1]), ps)
            if ka == 'It' and x[0] == y[0] and len(x) == len(y):
                return It(x[0], *[self.merge(c, p, q) if isinstance(p, (T, V)) else p for p, q in zip(x[1:], y[1:])])
            if ka == 'Sl' and x[0] is y[0] and x[1] == y[1]:
                return Sl(x[0], x[1], ite(c, x[2], y[2]), ite(c, x[3], y[3]))
            if ka == 'Rf' and x[0] is y[0] and len(x[1]) == len(y[1]):
                pth = []
                for p, q in zip(x[1], y[1]):
                    if p == q:
                        pth.append(p)
                    elif p[0] == q[0] == 'x':
                        pth.append(('x', ite(c, p[1], q[1])))
                    else:
                        break
                else:
                    return Rf(x[0], pth)
            if ka == 'Dq':
                return Dq(ite(c, x[0], y[0]), ite(c, x[1], y[1]))
            if ka == 'Ar':
                r = self.merge_ar(c, a, b)
                if r is not None:
                    return r
            if ka == 'Un':
                return a
        return Ch(c, a, b)

    def merge_ar(self, c, a, b):
        e, ln, base, ov = a.a
        e2, ln2, base2, ov2 = b.a
        if base != base2:
            if base == ('n',) or base2 == ('n',):
                pass
            if not (ln is ln2 and ln.op == 'int' and ln.args[0] <= 16):
                if base[0] == 'u' == base2[0] and not ov and not ov2 and ln is ln2:
                    h = base[1]
                    v2 = self.sub1(base2[2], base2[1], h)
                    return Ar(e, ln, ('u', h, self.merge(c, base[2], v2)))
                return None
            return self.mkarr(e, [self.merge(c, self.arr_get(a, num(i), None), self.arr_get(b, num(i), None)) for i in range(ln.args[0])])
        n = 0
        while n < len(ov) and n < len(ov2) and ov[n] == ov2[n]:
            n += 1
        ra, rb = ov[n:], ov2[n:]
        pre = Ar(e, ln, base, ov[:n])
        if any(o[0] != 'p' for o in ra + rb):
            # same segments with different values?
            if len(ra) == len(rb) == 1 and ra[0][0] == rb[0][0] == 's' and ra[0][1:3] == rb[0][1:3]:
                h = ra[0][3]
                v2 = self.sub1(rb[0][4], rb[0][3], h)
                return Ar(e, ite(c, ln, ln2), base, ov[:n] + (('s', ra[0][1], ra[0][2], h, self.merge(c, ra[0][4], v2)),))
            return None
        idxs = []
        for o in ra + rb:
            if o[1] not in idxs:
                idxs.append(o[1])
        if len(idxs) > 1 and any(i.op != 'int' for i in idxs):
            # order of symbolic points matters unless both sides write the same sequence
            if [o[1] for o in ra] != [o[1] for o in rb] and ra and rb:
                return None
        r = Ar(e, ite(c, ln, ln2), base, ov[:n])
        for i in idxs:
            va = next((o[2] for o in reversed(ra) if o[1] is i), None)
            vb = next((o[2] for o in reversed(rb) if o[1] is i), None)
            if va is None:
                va = self.arr_get(pre, i, None)
            if vb is None:
                vb = self.arr_get(pre, i, None)
            r = self.arr_set(r, i, self.merge(c, va, vb), None)
        return r

    def sub1(self, v, a, b):
        if a is b:
            return v
        return self.vsubst(v, {a: b})

    def vsubst(self, v, mp, memo=None):
        if memo is None:
            memo = {}
        if isinstance(v, T):
            return TM.subst(v, mp, memo)
        if v is None:
            return None
        if isinstance(v, tuple):
            return tuple(self.vsubst(x, mp, memo) for x in v)
        f = getattr(v, 'free', None)
        if not f or f.isdisjoint(mp.keys()):
            return v
        keys = mp.keys()

        def go(x):
            if isinstance(x, T):
                return TM.subst(x, mp, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if getattr(x, 'free', None) and not x.free.isdisjoint(keys):
                return x.subst(mp, go, memo)
            return x
        r = v.subst(mp, go, memo)
        return self.fix_op(r)

    def fix_op(self, v):
        return v

    # ------------------------------------------------------------ arrays
    def mkarr(self, eid, vals):
        return Ar(eid, num(len(vals)), ('n',), [('p', num(i), v) for i, v in enumerate(vals)])

    def base_get(self, ar, idx):
        e, ln, base, ov = ar.a
        if base[0] == 'u':
            return self.sub1(base[2], base[1], idx) if base[1] is not None else base[2]
        if base[0] == 'o':
            return self.opq('sel', (base[1], idx), e) if base[1].op != 'tab' else self.tabsel(base[1], idx, e)
        return None

    def tabsel(self, t, idx, e):
        if idx.op == 'int':
            tb = TABLES[t.args[0]]
            if 0 <= idx.args[0] < len(tb):
                return tb[idx.args[0]]
        return self.opq('sel', (t, idx), e)

    def arr_get(self, ar, idx, facts):
        if not (isinstance(ar, V) and ar.k == 'Ar'):
            return None
        if idx.op == 'ite' and idx.w <= 16:
            r = None
            at = batom(idx.args[0])
            return self.merge(at, self.arr_get(ar, idx.args[1], facts), self.arr_get(ar, idx.args[2], facts))
        e, ln, base, ov = ar.a
        conds = []
        res = None
        for o in reversed(ov):
            if o[0] == 'p':
                c = eq(o[1], idx)
                if facts is not None:
                    c = facts.simp(c)
                if c is TRUE:
                    res = o[2]
                    break
                if c is FALSE:
                    continue
                conds.append((c, o[2]))
            else:
                c = band(le(o[1], idx), lt(idx, o[2]))
                if facts is not None:
                    c = facts.simp(c)
                if c is FALSE:
                    continue
                v = self.sub1(o[4], o[3], idx)
                if c is TRUE:
                    res = v
                    break
                conds.append((c, v))
        else:
            res = self.base_get(ar, idx)
            if res is None and base == ('n',) and not conds:
                return None
        for c, v in reversed(conds):
            res = self.merge(c, v, res)
        return res

    def arr_set(self, ar, idx, val, facts):
        e, ln, base, ov = ar.a
        if idx.op == 'ite' and idx.w <= 8:
            r = ar
            for lf in leaves(idx):
                c = eq(idx, lf)
                if facts is not None:
                    c = facts.simp(c)
                r = self.arr_set(r, lf, self.merge(c, val, self.arr_get(r, lf, facts)), facts)
            return r
        if all(o[0] == 'p' for o in ov):
            if idx.op == 'int' and all(o[1].op == 'int' for o in ov):
                l = [o for o in ov if o[1] is not idx]
                if not (base[0] == 'u' and base[2] is val):
                    l.append(('p', idx, val))
                l.sort(key=lambda o: o[1].args[0])
                if ln.op == 'int' and len(l) == ln.args[0] and base != ('n',):
                    base = ('n',)
                return Ar(e, ln, base, l)
        if ov and ov[-1][0] == 'p' and ov[-1][1] is idx:
            return Ar(e, ln, base, ov[:-1] + (('p', idx, val),))
        # a point equal to an older one can replace it if nothing between may alias
        for i in range(len(ov) - 1, -1, -1):
            o = ov[i]
            if o[0] == 'p' and o[1] is idx:
                return Ar(e, ln, base, ov[:i] + (('p', idx, val),) + ov[i + 1:])
            if o[0] != 'p':
                break
            c = eq(o[1], idx)
            if facts is not None:
                c = facts.simp(c)
            if c is not FALSE:
                break
        return Ar(e, ln, base, ov + (('p', idx, val),))

    def canon_hole(self, val, h):
        """rename hole h in val to the canonical hole of its nesting height"""
        m = 0
        for f in getattr(val, 'free', ()):
            if f.op == 'hole' and f is not h and isinstance(f.args[0], str):
                m = max(m, int(f.args[0][1:]))
        n = mk('hole', ('h%d' % (m + 1),), 'i')
        RNG.setdefault(n, (0, LENMAX))
        return n, self.sub1(val, h, n)

    def arr_fill(self, ar, lo, hi, h, val, facts):
        """write val(h) to indices lo <= h < hi"""
        e, ln, base, ov = ar.a
        h, val = self.canon_hole(val, h) if h is not None else (None, val)
        if h is None:
            h = mk('hole', ('h1',), 'i')
        f = facts or Facts()
        if f.le0(lo) and f.le0(sub(ln, hi)):
            return Ar(e, ln, ('u', h, val))
        if ln.op == 'int' and ln.args[0] <= 8 and lo.op == 'int' and hi.op == 'int':
            r = ar
            for i in range(lo.args[0], hi.args[0]):
                r = self.arr_set(r, num(i), self.sub1(val, h, num(i)), facts)
            return r
        keep = []
        for o in ov:
            if o[0] == 's' and f.le0(sub(lo, o[1])) and f.le0(sub(o[2], hi)):
                continue
            if o[0] == 'p' and f.le0(sub(lo, o[1])) and f.le0(sub(add(o[1], ONE), hi)):
                continue
            keep.append(o)
        # adjacent segment with the same content
        if keep and keep[-1][0] == 's' and keep[-1][2] is lo and keep[-1][4] is self.sub1(val, h, keep[-1][3]):
            o = keep.pop()
            return self.arr_fill(Ar(e, ln, base, keep), o[1], hi, o[3], o[4], facts)
        return Ar(e, ln, base, keep + [('s', lo, hi, h, val)])

    def arr_norm(self, ar, facts):
        e, ln, base, ov = ar.a
        if ov and ov[-1][0] == 's':
            o = ov[-1]
            if facts.le0(o[1]) and facts.le0(sub(ln, o[2])):
                return Ar(e, ln, ('u', o[3], o[4]))
        return ar

    # ------------------------------------------------------------ tree access
    def rd(self, v, path, st):
        for i, s in enumerate(path):
            if v is None:
                return None
            if isinstance(v, T):
                if s[0] in ('f',) and s[1] == 0:
                    continue        # transparent wrapper
                return None
            if v.k == 'Op':
                v = self.expand(v)
            k = v.k
            if k == 'Ch':
                c = st.facts.simp(v.a[0])
                if c is TRUE:
                    return self.rd(v.a[1], path[i:], st)
                if c is FALSE:
                    return self.rd(v.a[2], path[i:], st)
                return self.merge(c, self.rd(v.a[1], path[i:], st), self.rd(v.a[2], path[i:], st))
            if s[0] == 'f':
                if k == 'St':
                    if s[1] >= len(v.a[1]):
                        return None
                    v = v.a[1][s[1]]
                elif k in ('Rf', 'Sl', 'Fn', 'Ar', 'Vc', 'Null'):
                    continue        # Box / Unique / NonNull / MaybeUninit wrappers
                else:
                    return Un('field of ' + k)
            elif s[0] == 'v':
                if k == 'En':
                    p = v.a[2][s[1]]
                    if p is None:
                        return None
                    v = St(None, p)
                else:
                    return Un('variant of ' + k)
            elif s[0] == 'x':
                if k == 'Ar':
                    v = self.arr_get(v, s[1], st.facts)
                else:
                    return Un('index of ' + k)
            else:
                return Un('step')
        return v

    def wr(self, v, path, new, st, tid=None):
        if not path:
            return new
        s = path[0]
        if v is None:
            if tid is None:
                return Un('partial init')
            t = self.tt[tid]
            if t['k'] == 'adt' and (t['a'] == 'union' or t['n'].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop')):
                return self.wr(None, path[1:], new, st, tid)
            if s[0] == 'f' and t['k'] == 'array':
                return self.wr(None, path[1:], new, st, tid)
            v = self.expand(self.unknown(tid, 'uninit')) if t['k'] != 'adt' or t['a'] == 'struct' else En(tid, unk('i', 'uninit'), [None] * len(t['v']))
            if isinstance(v, T):
                return new
        if isinstance(v, T):
            return new if s == ('f', 0) else Un('write into scalar')
        if v.k == 'Op':
            v = self.expand(v)
        k = v.k
        if k == 'Ch':
            return Ch(v.a[0], self.wr(v.a[1], path, new, st), self.wr(v.a[2], path, new, st)) if True else None
        if s[0] == 'f':
            if k == 'St':
                f = list(v.a[1])
                ft = self.fields(v.a[0])[s[1]] if v.a[0] is not None and self.fields(v.a[0]) else None
                f[s[1]] = self.wr(f[s[1]], path[1:], new, st, ft)
                return St(v.a[0], f)
            if k in ('Rf', 'Sl') and len(path) > 1:
                return self.wr(v, path[1:], new, st)
            return Un('write field of ' + k)
        if s[0] == 'v':
            if k == 'En':
                p = v.a[2][s[1]]
                if p is None:
                    p = tuple(None for _ in self.fields(v.a[0], s[1]))
                x = self.wr(St(None, p), path[1:], new, st)
                ps = list(v.a[2])
                ps[s[1]] = x.a[1] if isinstance(x, V) and x.k == 'St' else None
                return En(v.a[0], v.a[1], ps)
            return Un('write variant of ' + k)
        if s[0] == 'x':
            if k == 'Ar':
                if len(path) > 1:
                    old = self.arr_get(v, s[1], st.facts)
                    new = self.wr(old, path[1:], new, st, v.a[0])
                return self.arr_set(v, s[1], new, st.facts)
            return Un('write index of ' + k)
        return Un('write step')

    # locations: ('L', reg, path) ('S', reg, path, start, len) ('C', c, l1, l2) ('U', why)
    def deref(self, v, st):
        if v is None:
            return ('U', 'deref of uninit')
        if isinstance(v, T):
            return ('U', 'deref of scalar')
        if v.k == 'Op':
            v = self.expand(v)
        if v.k == 'Rf':
            return ('L', v.a[0], v.a[1])
        if v.k == 'Sl':
            return ('S',) + v.a
        if v.k == 'Ch':
            c = st.facts.simp(v.a[0])
            if c is TRUE:
                return self.deref(v.a[1], st)
            if c is FALSE:
                return self.deref(v.a[2], st)
            return ('C', c, self.deref(v.a[1], st), self.deref(v.a[2], st))
        if v.k == 'Vc':
            return ('L', v.a[0], ())
        if v.k == 'Null':
            self.ev('nullderef', st=st)
        return ('U', 'deref of ' + v.k)

    def readloc(self, loc, st):
        if loc[0] == 'L':
            return self.rd(st.get(loc[1]), loc[2], st)
        if loc[0] == 'C':
            return self.merge(loc[1], self.readloc(loc[2], st), self.readloc(loc[3], st))
        return Un('read of ' + loc[0])

    def writeloc(self, loc, val, st):
        if loc[0] == 'L':
            r = loc[1]
            st.mem[r] = self.wr(st.get(r), loc[2], val, st, r.tid)
        elif loc[0] == 'C':
            o1 = self.readloc(loc[2], st)
            self.writeloc(loc[2], self.merge(loc[1], val, o1), st)
            o2 = self.readloc(loc[3], st)
            self.writeloc(loc[3], self.merge(bnot(loc[1]), val, o2), st)
        else:
            self.ev('imprecise', why='write through %s' % (loc[1],), st=st)

    def refof(self, loc):
        if loc[0] == 'L':
            return Rf(loc[1], loc[2])
        if loc[0] == 'S':
            return Sl(*loc[1:])
        if loc[0] == 'C':
            return self.merge(loc[1], self.refof(loc[2]), self.refof(loc[3]))
        return Un('ref of ' + str(loc[1]))

    def step(self, loc, s):
        if loc[0] == 'L':
            return ('L', loc[1], loc[2] + (s,))
        if loc[0] == 'S':
            if s[0] == 'x':
                return ('L', loc[1], loc[2] + (('x', add(loc[3], s[1])),))
            return ('U', 'field of slice')
        if loc[0] == 'C':
            return ('C', loc[1], self.step(loc[2], s), self.step(loc[3], s))
        return loc

    def place(self, fr, p, st):
        loc = ('L', self.lreg(fr, p[0]), ())
        for q in p[1]:
            k = q[0]
            if k == '*':
                loc = self.deref(self.readloc(loc, st), st)
            elif k == 'f':
                loc = self.step(loc, ('f', q[1]))
            elif k == 'v':
                loc = self.step(loc, ('v', q[1]))
            elif k == 'i':
                i = st.get(self.lreg(fr, q[1]))
                if isinstance(i, T):
                    loc = self.step(loc, ('x', st.facts.simp(i)))
                else:
                    loc = ('U', 'index')
            elif k == 'ci':
                if q[3]:
                    ln = self.loclen(loc, st)
                    loc = self.step(loc, ('x', sub(ln, num(q[1])))) if ln is not None else ('U', 'ci')
                else:
                    loc = self.step(loc, ('x', num(q[1])))
            elif k == 'ss':
                ln = self.loclen(loc, st)
                fr_, to, fe = q[1], q[2], q[3]
                if ln is None:
                    loc = ('U', 'subslice')
                else:
                    loc = self.subslice(loc, num(fr_), sub(ln, num(to)) if fe else num(to))
            else:
                loc = ('U', 'proj ' + k)
        return loc

    def loclen(self, loc, st):
        if loc[0] == 'S':
            return loc[4]
        if loc[0] == 'L':
            v = self.readloc(loc, st)
            if isinstance(v, V):
                v = self.expand(v)
                if v.k == 'Ar':
                    return v.a[1]
        return None

    def subslice(self, loc, a, b):
        if loc[0] == 'S':
            return ('S', loc[1], loc[2], add(loc[3], a), sub(b, a))
        if loc[0] == 'L':
            return ('S', loc[1], loc[2], a, sub(b, a))
        return ('U', 'subslice')

    def lreg(self, fr, l):
        r = fr.regs.get(l)
        if r is None:
            r = region(('l', fr.ctx, l), fr.fn['locals'][l], None, '%s_%d' % (fr.fn['path'].split('::')[-1], l))
            fr.regs[l] = r
        return r

    # ------------------------------------------------------------ constants
    def const(self, tid, c):
        t = self.tt[tid]
        k = t['k']
        if 'b' in c:
            return boolc(c['b'])
        if 'i' in c:
            if k in ('ref', 'ptr') or self.pointee(tid) is not None:
                return Un('addr const')
            if k == 'adt':
                # transparent newtype const
                return num(c['i'])
            return num(int(c['i']))
        if 'f' in c:
            return flt(int(c['f'], 16), self.fwidth(tid))
        if 'z' in c:
            if k == 'fndef' or k == 'closure':
                return Fn(tid)
            if k == 'array':
                return Ar(t['t'], ZERO if t['len'] == 0 else num(t['len']), ('u', None, self.const(t['t'], {'z': 1})) if t['len'] else ('n',))
            if k == 'adt' and t['a'] == 'enum':
                # single inhabited variant
                i = next((i for i, v in enumerate(t['v'])), 0)
                return En(tid, num(i), [tuple(self.const(f[1], {'z': 1}) for f in v['f']) if j == i else None for j, v in enumerate(t['v'])])
            if k == 'adt' or k == 'tuple':
                fs = self.fields(tid)
                if not fs:
                    return UNIT if k == 'tuple' else St(tid, ())
                return St(tid, [self.const(f, {'z': 1}) for f in fs])
            return UNIT
        if 'e' in c:
            vi = c['e']
            return En(tid, num(vi), [tuple(self.const(f[1], x) for f, x in zip(v['f'], c.get('s', []))) if j == vi else None for j, v in enumerate(t['v'])])
        if 's' in c:
            fs = self.fields(tid)
            if fs is not None:
                return St(tid, [self.const(f, x) for f, x in zip(fs, c['s'])])
        if 'a' in c:
            et = self.elem(tid)
            vals = [self.const(et, x) for x in c['a']]
            return self.const_array(et, vals)
        if 'str' in c:
            return Str(c['str'])
        if 'ref' in c or 'static' in c:
            pt = self.pointee(tid)
            inner = c['ref'] if 'ref' in c else (c.get('p') or {}).get('ref') if isinstance(c.get('p'), dict) else None
            if pt is None or inner is None:
                return Un('const ref')
            if self.tt[pt]['k'] == 'str' or (isinstance(inner, dict) and 'str' in inner):
                return Str(str(inner))
            if self.tt[pt]['k'] == 'slice':
                et = self.tt[pt]['t']
                vals = [self.const(et, x) for x in inner.get('a', [])]
                v = self.const_array(et, vals)
                r = region(('k', v), None, v, 'const')
                return Sl(r, (), ZERO, num(len(vals)))
            v = self.const(pt, inner)
            nm = c.get('static')
            r = region(('k', v) if nm is None else ('static', nm), pt, v, nm or 'const')
            return Rf(r)
        if 'fn' in c:
            return mkv('FnPtr', c['fn'])
        return self.unknown(tid, 'const')

    def const_array(self, et, vals):
        if len(vals) > 24 and all(isinstance(v, T) for v in vals):
            key = tuple(vals)
            t = self.tab_terms.get(key)
            if t is None:
                i = len(TABLES)
                TABLES[i] = list(vals)
                t = mk('tab', (i,), 'o')
                self.tab_terms[key] = t
            return Ar(et, num(len(vals)), ('o', t))
        if vals and all(v is vals[0] for v in vals):
            return Ar(et, num(len(vals)), ('u', mk('hole', ('h1',), 'i'), vals[0]))
        return self.mkarr(et, vals)

    def operand(self, fr, o, st):
        if o[0] == 'const':
            return self.const(o[1], o[2])
        if o[0] in ('copy', 'move'):
            v = self.readloc(self.place(fr, o[1], st), st)
            if isinstance(v, T):
                if v.op == 'ite':
                    v = st.facts.simp(v)
            elif isinstance(v, V) and v.k == 'Ch':
                c = st.facts.simp(v.a[0])
                if c is TRUE:
                    v = v.a[1]
                elif c is FALSE:
                    v = v.a[2]
            return v
        return boolc(False)     # runtime checks

    # ------------------------------------------------------------ rvalues
    def as_t(self, v, tid=None):
        """scalar term of a value (through transparent newtypes)"""
        while isinstance(v, V) and v.k == 'St' and len(v.a[1]) == 1:
            v = v.a[1][0]
        if isinstance(v, T):
            return v
        if isinstance(v, V) and v.k == 'En':
            return self.discr(v)
        return None

    def discr(self, v):
        tid, tag, _ = v.a
        ds = [x['d'] for x in self.tt[tid]['v']]
        ds = [int(d) for d in ds]
        if all(d == i for i, d in enumerate(ds)):
            return tag
        off = ds[0]
        if all(d == i + off for i, d in enumerate(ds)):
            return add(tag, num(off))
        r = num(ds[-1])
        for i in range(len(ds) - 2, -1, -1):
            r = ite(eq(tag, num(i)), num(ds[i]), r)
        return r

    def binop(self, op, a, b, tid, st):
        t = self.tt[tid] if tid is not None else None
        A, B = self.as_t(a), self.as_t(b)
        if A is None or B is None:
            if op in ('Eq', 'Ne'):
                e = self.ptr_eq(a, b)
                if e is not None:
                    return e if op == 'Eq' else bnot(e)
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return batom(unk('b', 'cmp'))
            if op == 'Offset':
                return Un('ptr offset')
            return unk('i', op)
        if A.sort == 'f' or B.sort == 'f':
            if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
                return fop(op.lower(), A, B)
            if op == 'Lt':
                return fcomp('flt', A, B)
            if op == 'Gt':
                return fcomp('flt', B, A)
            if op == 'Le':
                return fcomp('fle', A, B)
            if op == 'Ge':
                return fcomp('fle', B, A)
            e = eq(A, B)
            return e if op == 'Eq' else bnot(e)
        if A.sort == 'b' and B.sort == 'b':
            if op == 'BitAnd':
                return band(A, B)
            if op == 'BitOr':
                return bor(A, B)
            if op in ('BitXor', 'Ne'):
                return bxor(A, B)
            if op == 'Eq':
                return bnot(bxor(A, B))
            A, B = b2i(A), b2i(B)
        if op.startswith('Add'):
            return add(A, B)
        if op.startswith('Sub'):
            return sub(A, B)
        if op.startswith('Mul'):
            return mul(A, B)
        if op == 'Div':
            return div(A, B)
        if op == 'Rem':
            return rem(A, B)
        if op == 'Eq':
            return eq(A, B)
        if op == 'Ne':
            return bnot(eq(A, B))
        if op == 'Lt':
            return lt(A, B)
        if op == 'Le':
            return le(A, B)
        if op == 'Gt':
            return lt(B, A)
        if op == 'Ge':
            return le(B, A)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return bitop({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], A, B)
        if op.startswith('Shl') and B.op == 'int':
            r = mul(A, num(1 << B.args[0]))
            if t and t['k'] == 'int' and r.op == 'int':
                return trunc(r, *self.bits(tid))
            return r
        if op.startswith('Shr') and B.op == 'int':
            return div(A, num(1 << B.args[0]))
        if op == 'Cmp':
            return ite(lt(A, B), num(-1), ite(eq(A, B), ZERO, ONE))
        r = mk('b' + op, (A, B), 'i')
        if t and t['k'] == 'int':
            RNG.setdefault(r, self.int_range(tid))
        return r

    def ptr_eq(self, a, b):
        na, nb = self.models.isnull(a), self.models.isnull(b)
        if na is TRUE and nb is not None:
            return nb
        if nb is TRUE and na is not None:
            return na
        if a is b:
            return TRUE
        return None

    def cast(self, kind, v, f, t, st):
        ft, tt = self.tt[f], self.tt[t]
        if kind == 'IntToInt':
            A = self.as_t(v)
            if A is None:
                return self.unknown(t, 'cast')
            if A.sort == 'b':
                return b2i(A)
            bits, sg = self.bits(t)
            fb, fs = self.bits(f) if ft['k'] in ('int', 'bool', 'char') else (64, True)
            lo, hi = st.facts.range(A)
            l2, h2 = self.int_range(t) if tt['k'] == 'int' else (0, 0x10ffff)
            if lo >= l2 and hi <= h2:
                return A
            if not fs and bits > fb or (fs == sg and bits >= fb):
                return A            # widening
            if st.facts.le0(sub(num(l2), A)) and st.facts.le0(sub(A, num(h2))):
                return A
            self.ev('narrow', term=A, to=t, st=st)
            return trunc(A, bits, sg)
        if kind == 'IntToFloat':
            A = self.as_t(v)
            return i2f(A, self.fwidth(t)) if A is not None else self.unknown(t, 'cast')
        if kind == 'FloatToFloat':
            A = self.as_t(v)
            if A is None:
                return self.unknown(t, 'cast')
            if f == t or ft['n'] == tt['n']:
                return A
            w = self.fwidth(t)
            return f2f(A, w)
        if kind == 'FloatToInt':
            A = self.as_t(v)
            if A is None:
                return self.unknown(t, 'cast')

            def g(x):
                c = fval(x)
                lo, hi = self.int_range(t)
                if c is not None:
                    return num(0 if c != c else lo if c < lo else hi if c > hi else int(c))
                r = mk('f2i', (x, t), 'i')
                RNG.setdefault(r, (lo, hi))
                return r
            return lift1(('f2i', t), g, A)
        if kind == 'CoerceUnsize':
            if isinstance(v, V):
                if v.k == 'Op':
                    v = self.expand(v)
                if v.k == 'Rf':
                    pt = self.pointee(f)
                    if pt is not None and self.tt[pt]['k'] == 'array':
                        return Sl(v.a[0], v.a[1], ZERO, num(self.tt[pt]['len']))
                    return v
                if v.k == 'Ch':
                    return Ch(v.a[0], self.cast(kind, v.a[1], f, t, st), self.cast(kind, v.a[2], f, t, st))
            return v
        if kind == 'BoxDerefTransmute':
            return v
        if kind == 'Transmute':
            if isinstance(v, T):
                if v.sort == 'i' and tt['k'] == 'adt' and tt['a'] == 'enum':
                    ds = [int(x['d']) for x in tt['v']]
                    self.ev('enum-transmute', term=v, to=t, st=st)
                    if all(d == i + ds[0] for i, d in enumerate(ds)):
                        return En(t, sub(v, num(ds[0])), [() if not x['f'] else None for x in tt['v']])
                    return self.unknown(t, 'transmute')
                if v.sort == 'i' and tt['k'] == 'bool':
                    self.ev('enum-transmute', term=v, to=t, st=st)
                    return eq(v, ONE)
                if tt['k'] == 'adt' and tt['a'] == 'struct' and tt['sz'] == ft['sz'] and len(self.fields(t)) == 1:
                    return self.wrap(v, t)
                if v.sort == 'i' and tt['k'] == 'int' and tt['sz'] == ft['sz']:
                    return trunc(v, *self.bits(t)) if not self.fits(v, t, st) else v
                if v.sort == 'b' and tt['k'] == 'int':
                    return b2i(v)
                if tt['k'] == 'float' and v.sort == 'f' and ft['n'] == tt['n']:
                    return v
            if isinstance(v, V):
                if v.k == 'En' and tt['k'] == 'int':
                    return self.discr(v)
                if v.k in ('Rf', 'Sl', 'Ch') and (tt['k'] in ('ref', 'ptr') or self.pointee(t) is not None):
                    return v
                if f == t:
                    return v
                if v.k in ('St', 'En', 'Rf', 'Sl', 'Vc', 'Op', 'Dq', 'It', 'Ar') and self.wrappers(f, t):
                    return v
                if v.k == 'Ar' and tt['k'] == 'array' and ft['k'] == 'array' and ft['len'] == tt['len']:
                    return v
            if self.tt[f] == self.tt[t]:
                return v
            if isinstance(v, V) and v.k == 'Op' and v.a[1] == t:
                return v
            return self.unknown(t, 'transmute')
        if kind in ('PtrToPtr',):
            # pointer reinterpretation: keep when pointees have the same layout shape
            p, q = self.pointee(f), self.pointee(t)
            if isinstance(v, V) and p is not None and q is not None:
                if p == q:
                    return v
                if v.k == 'Op':
                    v = self.expand(v)
                tp, tq = self.tt[p], self.tt[q]
                if v.k == 'Rf' and tq['k'] == 'array' and tq['t'] == p and v.a[1] and v.a[1][-1][0] == 'x':
                    # *const T -> *const [T; N]
                    self.ev('elem-to-array', ln=tq['len'], idx=v.a[1][-1][1], cap=self.arrlen(v.a[0], v.a[1][:-1], st), st=st)
                    return self.arr_view(v, tq, q, st)
                if v.k == 'Rf' and tp['k'] == 'array' and tq['k'] != 'array' and tp['t'] == q:
                    return Rf(v.a[0], v.a[1] + (('x', ZERO),))
                if v.k == 'Sl' and tq['k'] not in ('slice', 'str'):
                    return Rf(v.a[0], v.a[1] + (('x', v.a[2]),))
                if tp['k'] == 'adt' and tp['n'].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'UnsafeCell'):
                    return v
                if tq['k'] == 'adt' and tq['n'].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'UnsafeCell'):
                    return v
            if isinstance(v, V):
                self.ev('ptrcast', frm=f, to=t, st=st)
                return v
            return self.unknown(t, 'ptr cast')
        if kind in ('ReifyFnPointer', 'ClosureFnPointer', 'UnsafeFnPointer', 'MutToConstPointer', 'ArrayToPointer') or 'Pointer' in kind:
            return v
        return self.unknown(t, 'cast ' + kind)

    def arr_view(self, v, tq, q, st):
        """&buf[i] as *const [T; N]: a view region holding N consecutive elements"""
        reg, path = v.a[0], v.a[1][:-1]
        i = v.a[1][-1][1]
        return Sl(reg, path, i, num(tq['len']))

    def wrap(self, v, tid):
        fs = self.fields(tid)
        if not fs:
            return self.unknown(tid, 'wrap')
        if self.tt[fs[0]]['k'] == 'adt':
            return St(tid, [self.wrap(v, fs[0])])
        return St(tid, [v])

    def wrappers(self, f, t):
        names = ('MaybeUninit', 'ManuallyDrop', 'UnsafeCell', 'Unique', 'NonNull')
        for a, b in ((f, t), (t, f)):
            x = self.tt[a]
            if x['k'] == 'adt' and x['n'].split('::')[-1] in names and x['args'] and x['args'][0] == b:
                return True
        return False

    def fits(self, v, t, st):
        lo, hi = st.facts.range(v)
        l2, h2 = self.int_range(t)
        return lo >= l2 and hi <= h2

    def rvalue(self, fr, rv, dest, st):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, rv[1], st)
        if k in ('ref', 'addr'):
            return self.refof(self.place(fr, rv[2], st))
        if k == 'bin':
            a, b = self.operand(fr, rv[2], st), self.operand(fr, rv[3], st)
            r = self.binop(rv[1], a, b, rv[4], st)
            if rv[1] == 'Cmp':
                tid = self.place_ty(fr, dest)
                if tid is not None and self.tt[tid]['k'] == 'adt':
                    A = r
                    return En(tid, add(A, ONE), [()] * len(self.tt[tid]['v'])) if isinstance(A, T) else self.unknown(tid)
            if rv[1] in ('Mul', 'Add', 'Sub') and isinstance(r, T) and r.sort == 'i':
                self.check_wrap(rv[1], a, b, r, rv[4], st)
            if rv[1] in ('Div', 'Rem') and isinstance(r, T) and r.sort == 'i':
                pass
            return r
        if k == 'cbin':
            a, b = self.operand(fr, rv[2], st), self.operand(fr, rv[3], st)
            r = self.binop(rv[1], a, b, rv[4], st)
            return mkv('St', None, (r, FALSE))
        if k == 'un':
            v = self.operand(fr, rv[2], st)
            if rv[1] == 'PtrMetadata':
                if isinstance(v, V):
                    if v.k == 'Op':
                        v = self.expand(v)
                    if v.k == 'Sl':
                        return v.a[3]
                    if v.k == 'Ch':
                        return self.models.slen(v, st)
                return unk('i', 'ptrmeta')
            A = self.as_t(v)
            if A is None:
                return Un('un')
            if rv[1] == 'Not':
                if A.sort == 'b':
                    return bnot(A)
                b, s = self.bits(rv[3])
                if A.op == 'int':
                    return trunc(num(~A.args[0]), b, s)
                return mk('bnot', (A, b), 'i')
            if rv[1] == 'Neg':
                return fop('neg', A) if A.sort == 'f' else neg(A)
        if k == 'cast':
            return self.cast(rv[1], self.operand(fr, rv[2], st), rv[3], rv[4], st)
        if k == 'discr':
            v = self.readloc(self.place(fr, rv[1], st), st)
            return self.discr_of(v, st)
        if k == 'len':
            l = self.loclen(self.place(fr, rv[1], st), st)
            return l if l is not None else unk('i', 'len')
        if k == 'repeat':
            v = self.operand(fr, rv[1], st)
            tid = self.place_ty(fr, dest)
            et = self.elem(tid) if tid is not None else None
            n = rv[2]
            return Ar(et, num(n), ('u', mk('hole', ('h1',), 'i'), v) if n else ('n',))
        if k == 'agg':
            vals = [self.operand(fr, o, st) for o in rv[3]]
            if rv[1] == 'tuple':
                if not vals:
                    return UNIT
                tid = self.place_ty(fr, dest)
                return St(tid, vals)
            if rv[1] == 'array':
                return self.mkarr(rv[2], vals) if len(vals) <= 64 else Un('big array')
            if rv[1] == 'adt':
                tid = rv[2]
                t = self.tt[tid]
                if t['a'] == 'enum':
                    return En(tid, num(rv[4]), [tuple(vals) if j == rv[4] else (() if not v['f'] else None) for j, v in enumerate(t['v'])])
                if t['a'] == 'union':
                    return vals[0]
                return St(tid, vals)
            if rv[1] == 'closure':
                return St(rv[2], vals) if vals else Fn(rv[2])
            if rv[1] == 'rawptr':
                p, n = vals[0], vals[1]
                if isinstance(p, V) and p.k == 'Op':
                    p = self.expand(p)
                if isinstance(p, V) and p.k == 'Rf' and isinstance(n, T):
                    if p.a[1] and p.a[1][-1][0] == 'x':
                        return Sl(p.a[0], p.a[1][:-1], p.a[1][-1][1], n)
                return Un('rawptr')
        return Un('rvalue ' + k)

    def check_wrap(self, op, a, b, r, tid, st):
        if self.tt[tid]['k'] != 'int':
            return
        l, h = self.int_range(tid)
        if r.op == 'ite':
            return
        lo, hi = st.facts.range(r)
        if hi > h or lo < l:
            self.ev('wrap?', op=op, term=r, lo=lo, hi=hi, tid=tid, st=st)

    def discr_of(self, v, st):
        if isinstance(v, V):
            if v.k == 'Op':
                v = self.expand(v)
            if v.k == 'En':
                return st.facts.simp(self.discr(v))
            if v.k == 'Ch':
                return ite(v.a[0], self.discr_of(v.a[1], st), self.discr_of(v.a[2], st))
        return unk('i', 'discr')

    def place_ty(self, fr, p):
        tid = fr.fn['locals'][p[0]]
        for q in p[1]:
            if tid is None:
                return None
            if q[0] == '*':
                tid = self.pointee(tid)
            elif q[0] == 'f':
                tid = q[2] if len(q) > 2 else None
            elif q[0] in ('i', 'ci'):
                tid = self.elem(tid)
            elif q[0] == 'v':
                pass
            else:
                return None
        return tid

    # ------------------------------------------------------------ events
    def ev(self, kind, st=None, **kw):
        e = Event(kind=kind, span=self.span, fn=self.stack[-1].fn['path'] if self.stack else '', pc=st.pc if st else TRUE,
                  facts=st.facts.copy() if st else None, stack=tuple(f.fn['path'] for f in self.stack), **kw)
        if st is not None and kind in ('panic', 'loop') and st.get(self.models.mxcsr) is not self.models.mxcsr.init:
            e['dirty'] = tuple((f.fn['id'], f.cur) for f in self.stack)
        self.events.append(e)

    span = ''

    # ------------------------------------------------------------ merging states
    def merge_states(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        care = bor(a.pc, b.pc)
        c = restrict(a.pc, care)
        if c is TRUE or c is FALSE:
            # not distinguishable by recorded branch conditions
            c = a.pc if a.pc not in (TRUE, FALSE) else batom(unk('b', 'join'))
        r = State()
        r.pc = care
        r.facts = meet(a.facts, b.facts)
        m = {}
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is None:
                w = k.init
                if w is None:
                    m[k] = v
                    continue
            m[k] = v if v is w else self.merge(c, v, w)
        for k, w in b.mem.items():
            if k not in m:
                v = k.init
                m[k] = w if v is None or v is w else self.merge(c, v, w)
        r.mem = m
        return r

    # ------------------------------------------------------------ control flow
    def cfg(self, fn):
        c = self.cfgs.get(fn['id'])
        if c is None:
            c = CFG(fn)
            self.cfgs[fn['id']] = c
        return c

    def ctx(self, parent, site, fid):
        k = (parent, site, fid)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[k] = c
        return c

    def run_fn(self, fn, args, st, site='top'):
        """inline fn; returns (value, state) or (None, None) if it cannot return"""
        if len(self.stack) > 60:
            raise Budget('call depth')
        fr = Frame()
        fr.fn = fn
        fr.ctx = self.ctx(self.stack[-1].ctx if self.stack else 0, site, fn['id'])
        fr.regs = {}
        fr.cfg = self.cfg(fn)
        fr.site = site
        self.analysed.add(fn['id'])
        st = st.copy()
        n = fn['nargs']
        if fn.get('spread') is not None and len(args) != n:
            # rust-call ABI: trailing arguments collected into the spread tuple
            sp = fn['spread']
            args = list(args[:sp - 1]) + [St(fn['locals'][sp], args[sp - 1:])]
        if len(args) != n:
            self.ev('imprecise', why='arg count %s' % fn['path'], st=st)
            return self.unknown(fn['locals'][0], 'argcount'), st
        for i, a in enumerate(args):
            st.mem[self.lreg(fr, i + 1)] = a
        self.stack.append(fr)
        sp = self.span
        try:
            exits, _ = self.run_region(fr, {0: [st]}, None)
        finally:
            self.stack.pop()
            self.span = sp
        outs = [s for t, s in exits if t == 'ret']
        if not outs:
            return None, None
        s = self.merge_states(outs)
        v = s.get(self.lreg(fr, 0))
        if v is None and self.tt[fn['locals'][0]]['k'] == 'tuple':
            v = UNIT
        for r in fr.regs.values():
            s.mem.pop(r, None)
        return v, s

    def run_region(self, fr, pend, loop):
        order = fr.cfg.order[loop]
        blocks = fr.cfg.loops[loop] if loop is not None else None
        exits, backs = [], []
        first = True
        for bb in order:
            sts = pend.pop(bb, None)
            if not sts:
                continue
            s = self.merge_states(sts)
            if bb in fr.cfg.loops and not (first and bb == loop):
                outs = self.run_loop(fr, bb, s)
            else:
                outs = self.run_block(fr, bb, s)
            first = False
            for tgt, s2 in outs:
                if s2 is None:
                    continue
                if tgt == 'ret':
                    exits.append((tgt, s2))
                elif loop is not None and tgt == loop:
                    backs.append(s2)
                elif blocks is not None and tgt not in blocks:
                    exits.append((tgt, s2))
                else:
                    pend.setdefault(tgt, []).append(s2)
        return exits, backs

    def run_loop(self, fr, head, s0):
        key = (fr.ctx, head)
        live = fr.cfg.live[head]
        s0 = s0.copy()
        for l, r in fr.regs.items():
            if l not in live and r in s0.mem and l > fr.fn['nargs']:
                del s0.mem[r]

        def body(hs):
            exits, backs = self.run_region(fr, {head: [hs]}, head)
            return backs, exits
        return self.fix(key, s0, body)

    # ------------------------------------------------------------ loop fixpoint
    def leaf_get(self, v, path):
        for s in path:
            if v is None:
                return None
            if isinstance(v, T):
                return None
            if v.k == 'Op':
                v = self.expand(v)
            k = v.k
            if s[0] == 'f' and k == 'St':
                v = v.a[1][s[1]]
            elif s[0] == 'v' and k == 'En':
                p = v.a[2][s[1]]
                v = None if p is None else St(None, p)
            elif s[0] == 't' and k == 'En':
                v = v.a[1]
            elif s[0] == 'g' and k == 'It':
                v = v.a[s[1]]
            elif s[0] == 's' and k == 'Sl':
                v = v.a[2]
            elif s[0] == 'n' and k == 'Sl':
                v = v.a[3]
            elif s[0] == 'r' and k == 'Rf':
                v = v.a[1][s[1]][1]
            elif s[0] == 'x' and k == 'Ar':
                v = self.arr_get(v, s[1], None)
            elif s[0] == 'ln' and k == 'Ar':
                v = v.a[1]
            elif s[0] == 'dq' and k == 'Dq':
                v = v.a[s[1]]
            elif s[0] == 'c' and k == 'Ch':
                v = v.a[s[1]]
            else:
                return None
        return v

    def leaf_set(self, v, path, new):
        if not path:
            return new
        s = path[0]
        if isinstance(v, V) and v.k == 'Op':
            v = self.expand(v)
        if v is None or isinstance(v, T):
            return v
        k = v.k
        if s[0] == 'f' and k == 'St':
            f = list(v.a[1])
            f[s[1]] = self.leaf_set(f[s[1]], path[1:], new)
            return St(v.a[0], f)
        if s[0] == 'v' and k == 'En':
            ps = list(v.a[2])
            p = ps[s[1]]
            if p is None:
                p = tuple(None for _ in self.fields(v.a[0], s[1]))
            x = self.leaf_set(St(None, p), path[1:], new)
            ps[s[1]] = x.a[1]
            return En(v.a[0], v.a[1], ps)
        if s[0] == 't' and k == 'En':
            return En(v.a[0], new, v.a[2])
        if s[0] == 'g' and k == 'It':
            a = list(v.a)
            a[s[1]] = self.leaf_set(a[s[1]], path[1:], new)
            return It(*a)
        if s[0] == 's' and k == 'Sl':
            return Sl(v.a[0], v.a[1], new, v.a[3])
        if s[0] == 'n' and k == 'Sl':
            return Sl(v.a[0], v.a[1], v.a[2], new)
        if s[0] == 'r' and k == 'Rf':
            p = list(v.a[1])
            p[s[1]] = ('x', new)
            return Rf(v.a[0], p)
        if s[0] == 'x' and k == 'Ar':
            old = self.arr_get(v, s[1], None)
            return self.arr_set(v, s[1], self.leaf_set(old, path[1:], new), None)
        if s[0] == 'ln' and k == 'Ar':
            return Ar(v.a[0], new, v.a[2], v.a[3])
        if s[0] == 'dq' and k == 'Dq':
            a = list(v.a)
            a[s[1]] = new
            return Dq(*a)
        if s[0] == 'c' and k == 'Ch':
            a = list(v.a)
            a[s[1]] = self.leaf_set(a[s[1]], path[1:], new)
            return Ch(*a)
        return v

    def ph_for(self, key, i, old, tid):
        """placeholder value for leaf i"""
        if isinstance(old, T):
            t = mk('ph', (key, i), old.sort)
            if old.sort == 'b':
                return batom(t)
            if old.sort == 'i':
                if tid is not None and self.tt[tid]['k'] == 'int':
                    RNG[t] = self.int_range(tid)
                elif t not in RNG:
                    RNG[t] = (-INF, INF)
            return t
        if tid is not None:
            return self.opq('ph', (key, i), tid)
        return mkv('Un', ('ph', key, i), 'loop-varying')

    def raw_ph(self, v):
        if isinstance(v, T):
            return v.args[0] if v.op == 'ite' else v
        if isinstance(v, V) and v.k == 'Op':
            return v.a[0]
        return None

    def apply_plan(self, key, s0, plan):
        h = s0.copy()
        phs = {}
        for i, lk in enumerate(plan.order):
            reg, path = lk
            kind = plan.leaf[lk]
            cur = h.get(reg)
            old = self.leaf_get(cur, path)
            if kind[0] == 'a':
                ph = mk('ph', (key, i), 'o')
                if isinstance(old, V) and old.k == 'Op':
                    old = self.expand(old)
                if isinstance(old, V) and old.k == 'Ar':
                    new = Ar(old.a[0], old.a[1], ('o', ph))
                else:
                    new = Un('array')
                h.mem[reg] = self.leaf_set(cur, path, new)
                phs[lk] = ph
                continue
            v = self.ph_for(key, i, old if kind[0] == 's' and isinstance(old, T) else kind[2] if kind[0] == 'u' else old, kind[1])
            h.mem[reg] = self.leaf_set(cur, path, v) if path else v
            phs[lk] = self.raw_ph(v)
        for lk, sg in plan.seg.items():
            reg, path = lk
            kk, off, ho, val = sg
            cur = h.get(reg)
            ar = self.leaf_get(cur, path)
            k = phs.get(kk)
            if not (isinstance(ar, V) and ar.k == 'Ar') or k is None:
                continue
            k0 = self.leaf_get(s0.get(kk[0]), kk[1])
            lo, hi = add(k0, off), add(k, off)
            ar2 = self.arr_fill_seg(ar, lo, hi, ho, val)
            h.mem[reg] = self.leaf_set(cur, path, ar2)
        return h, phs

    def arr_fill_seg(self, ar, lo, hi, h, val):
        e, ln, base, ov = ar.a
        if ov and ov[-1][0] == 's' and ov[-1][2] is lo and ov[-1][4] is self.sub1(val, h, ov[-1][3]):
            return Ar(e, ln, base, ov[:-1] + (('s', ov[-1][1], hi, h, val),))
        return Ar(e, ln, base, ov + (('s', lo, hi, h, val),))

    def leaf_tid(self, reg, path):
        """type of a leaf, where derivable"""
        tid = reg.tid
        i = 0
        while i < len(path):
            s = path[i]
            if tid is None:
                return None
            t = self.tt[tid]
            if s[0] == 'f':
                fs = self.fields(tid)
                if not fs or s[1] >= len(fs):
                    return None
                tid = fs[s[1]]
            elif s[0] == 'v':
                if i + 1 < len(path) and path[i + 1][0] == 'f' and t['k'] == 'adt':
                    tid = self.fields(tid, s[1])[path[i + 1][1]]
                    i += 1
                else:
                    return None
            elif s[0] == 'x':
                tid = self.elem(tid)
            elif s[0] in ('s', 'n', 'r', 'ln', 't'):
                return self.u_tid
            elif s[0] == 'dq':
                return self.u_tid if s[1] == 1 else None
            else:
                return None
            i += 1
        return tid

    def dv(self, reg, path, h, b, plan, phs, new):
        """structural difference between loop-head value h and back-edge value b"""
        if h is b:
            return
        lk = (reg, path)
        if lk in plan.leaf:
            return
        if isinstance(h, T) and isinstance(b, T):
            new.append((lk, ('s', self.leaf_tid(reg, path) if h.sort == 'i' or True else None)))
            return
        if isinstance(h, V) and isinstance(b, V):
            if h.k == 'Op' and b.k != 'Op':
                h = self.expand(h)
            elif b.k == 'Op' and h.k != 'Op':
                b = self.expand(b)
            if h.k == b.k:
                k, x, y = h.k, h.a, b.a
                if k == 'St' and len(x[1]) == len(y[1]):
                    for i, (p, q) in enumerate(zip(x[1], y[1])):
                        self.dv(reg, path + (('f', i),), p, q, plan, phs, new)
                    return
                if k == 'En' and len(x[2]) == len(y[2]):
                    self.dv(reg, path + (('t',),), x[1], y[1], plan, phs, new)
                    for i, (p, q) in enumerate(zip(x[2], y[2])):
                        if q is None:
                            continue
                        if p is None:
                            p = tuple(None for _ in q)
                        for j, (m, n) in enumerate(zip(p, q)):
                            self.dv(reg, path + (('v', i), ('f', j)), m, n, plan, phs, new)
                    return
                if k == 'It' and x[0] == y[0] and len(x) == len(y):
                    for i, (p, q) in enumerate(zip(x, y)):
                        if p is not q and isinstance(p, (T, V)):
                            self.dv(reg, path + (('g', i),), p, q, plan, phs, new)
                    return
                if k == 'Sl' and x[0] is y[0] and x[1] == y[1]:
                    self.dv(reg, path + (('s',),), x[2], y[2], plan, phs, new)
                    self.dv(reg, path + (('n',),), x[3], y[3], plan, phs, new)
                    return
                if k == 'Rf' and x[0] is y[0] and len(x[1]) == len(y[1]) and all(p == q or p[0] == q[0] == 'x' for p, q in zip(x[1], y[1])):
                    for i, (p, q) in enumerate(zip(x[1], y[1])):
                        if p != q:
                            self.dv(reg, path + (('r', i),), p[1], q[1], plan, phs, new)
                    return
                if k == 'Dq':
                    self.dv(reg, path + (('dq', 0),), x[0], y[0], plan, phs, new)
                    self.dv(reg, path + (('dq', 1),), x[1], y[1], plan, phs, new)
                    return
                if k == 'Ar':
                    self.dv_ar(reg, path, h, b, plan, phs, new)
                    return
                if k == 'Ch' and x[0] is y[0]:
                    self.dv(reg, path + (('c', 1),), x[1], y[1], plan, phs, new)
                    self.dv(reg, path + (('c', 2),), x[2], y[2], plan, phs, new)
                    return
        if h is None:
            # undefined before the loop
            if isinstance(b, V) and b.k in ('Rf', 'Sl', 'Un', 'Ch', 'It', 'Vc', 'Fn', 'St', 'En', 'Ar', 'Dq'):
                if not path:
                    new.append((lk, ('top', reg.tid)))
                    return
            new.append((lk, ('u', self.leaf_tid(reg, path), b)))
            return
        new.append((lk, ('top', self.leaf_tid(reg, path))))

    def dv_ar(self, reg, path, h, b, plan, phs, new):
        e, ln, base, ov = h.a
        e2, ln2, base2, ov2 = b.a
        lk = (reg, path)
        if lk in plan.leaf and plan.leaf[lk][0] == 'a':
            if ln is not ln2:
                self.dv(reg, path + (('ln',),), ln, ln2, plan, phs, new)
            return
        if ln is not ln2:
            self.dv(reg, path + (('ln',),), ln, ln2, plan, phs, new)
        if base != base2:
            new.append((lk, ('a',)))
            return
        D = [o for o in ov2 if o not in ov]
        miss = [o for o in ov if o not in ov2]
        mine = set(phs.values())
        if any(o[0] == 's' for o in D):
            new.append((lk, ('a',)))
            return
        for o in miss:
            if o[0] == 's' or not any(d[1] is o[1] for d in D):
                if not (o[0] == 'p' and o[1].free & mine):
                    new.append((lk, ('a',)))
                    return
        varying = [o for o in D if o[1].free & mine]
        fixed = [o for o in D if not (o[1].free & mine)]
        if varying:
            if len(varying) == 1 and not fixed and lk not in plan.noseg and lk not in plan.seg:
                new.append((lk, ('seg', varying[0])))
                return
            if lk in plan.seg and len(varying) == 1 and not fixed:
                return      # verified by check_segs
            new.append((lk, ('a',)))
            return
        for o in fixed:
            old = self.arr_get(h, o[1], None)
            self.dv(reg, path + (('x', o[1]),), old, o[2], plan, phs, new)

    def find_counter(self, idx, phs, plan, h, b):
        """idx = k + off with k a planned scalar leaf stepping by one"""
        d = P(idx)
        for lk, ph in phs.items():
            if d.get((ph,)) == 1:
                off = sub(idx, ph)
                if ph in off.free:
                    continue
                if off.free & set(phs.values()):
                    continue
                nx = self.leaf_get(b.get(lk[0]), lk[1])
                if isinstance(nx, T) and b.facts.simp(nx) is add(ph, ONE):
                    return lk, off
        return None

    def seg_val(self, v, ph, off, phs, key):
        """generalise the value written at index k+off to a function of the index"""
        h = mk('hole', ('tmp', 0), 'i')
        mp = {ph: sub(h, off)}
        for p in phs.values():
            if p is not ph and p is not None:
                if p.sort == 'b':
                    mp[p] = batom(mk('atph', (batom(p), sub(h, off), ph), 'b'))
                else:
                    mp[p] = mk('atph', (p, sub(h, off), ph), p.sort)
                    if p.sort == 'i' and p in RNG:
                        RNG.setdefault(mp[p], RNG[p])
        val = self.vsubst(v, mp)
        return self.canon_hole(val, h)

    def arrlen(self, reg, path, st):
        """length of the array an element pointer points into, if known"""
        try:
            v = self.rd(st.get(reg), path, st)
        except Exception:
            return None
        if isinstance(v, V) and v.k == 'Op':
            v = self.expand(v)
        return v.a[1] if isinstance(v, V) and v.k == 'Ar' and isinstance(v.a[1], T) else None

    unroll = 0
    stoploops = False       # a loop of unknown length ends the path with an event
    peelw = 24

    def peel(self, s0, body):
        """exact exits of a loop that provably leaves within `unroll` iterations, else None"""
        ev0 = len(self.events)
        out = []
        s = s0
        for k in range(self.unroll):
            backs, exits = body(s)
            out += [x for x in exits if x[1] is not None]
            b = self.merge_states([x for x in backs if x is not None])
            if b is None:
                return out
            if k > 2 and any(isinstance(v, T) and v.op == 'ite' and v.w > self.peelw and v is not s.mem.get(r) for r, v in b.mem.items()):
                break               # data dependent search: leave it to the loop summary
            s = b
        del self.events[ev0:]
        return None

    def fix(self, key, s0, body, note=None):
        if self.unroll:
            r = self.peel(s0, body)
            if r is not None:
                return r
        if self.stoploops:
            self.ev('loop', st=s0)
            return []
        plan = self.plans.get(key)
        if plan is None:
            plan = self.plans[key] = Plan()
        # a cached plan may mention leaves that do not exist now
        for lk in list(plan.order):
            if any(x[0] in 'xc' for x in lk[1]):
                self.drop_leaf(plan, lk)
                continue
            if s0.get(lk[0]) is None and not (plan.leaf[lk][0] in ('u', 'top')):
                self.drop_leaf(plan, lk)
        ev0 = len(self.events)
        failed = set()
        for rnd in range(40):
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('steps')
            del self.events[ev0:]
            h, phs = self.apply_plan(key, s0, plan)
            cands = plan.cands or []
            inits = {lk: self.leaf_get(s0.get(lk[0]), lk[1]) for lk in plan.order}
            act = []
            for c in cands:
                p = self.inst(c, phs)
                if p is None or c in failed:
                    continue
                i = self.inst(c, inits)
                if i is None or not s0.facts.le0(i):
                    continue
                act.append((c, p))
                h.facts.assume_le(p)
            hh = h.copy()
            hh.pc = s0.pc
            backs, exits = body(hh)
            b = self.merge_states([x for x in backs if x is not None])
            if b is None:
                if not plan.order and not plan.seg:
                    return exits
                self.plans[key] = plan = Plan()
                continue
            new = []
            for r, bv in b.mem.items():
                hv = h.get(r)
                if hv is bv:
                    continue
                if hv is None and r not in s0.mem:
                    continue
                self.dv(r, (), hv, bv, plan, phs, new)
            ch = False
            # scalars first: until the counters are known, element writes look like fixed indices
            sc = [(lk, kind) for lk, kind in new if kind[0] in 's' and not any(x[0] == 'x' for x in lk[1])]
            if sc and len(sc) < len(new):
                new = sc
            for lk, kind in new:
                if kind[0] == 'seg':
                    o = kind[1]
                    fc = self.find_counter(o[1], phs, plan, h, b)
                    if fc is None:
                        # maybe the counter is not yet planned in this round
                        if any(k2[0] in ('s', 'u') for _, k2 in new):
                            continue
                        plan.noseg.add(lk)
                        self.add_leaf(plan, lk, ('a',))
                    else:
                        kk, off = fc
                        ho, val = self.seg_val(o[2], phs[kk], off, phs, key)
                        plan.seg[lk] = (kk, off, ho, val)
                    ch = True
                else:
                    self.add_leaf(plan, lk, kind)
                    ch = True
            if ch:
                continue
            # verify segments
            for lk, (kk, off, ho, val) in list(plan.seg.items()):
                bar = self.leaf_get(b.get(lk[0]), lk[1])
                har = self.leaf_get(h.get(lk[0]), lk[1])
                ok = False
                D = []
                if isinstance(bar, V) and bar.k == 'Ar' and isinstance(har, V) and har.k == 'Ar' and kk in phs:
                    D = [o for o in bar.a[3] if o not in har.a[3]]
                    D = [o for o in D if o[0] == 'p']
                    if not D and bar is har:
                        ok = False
                    elif len(D) == 1 and D[0][1] is add(phs[kk], off):
                        nx = self.leaf_get(b.get(kk[0]), kk[1])
                        if isinstance(nx, T) and b.facts.simp(nx) is add(phs[kk], ONE):
                            ho2, val2 = self.seg_val(D[0][2], phs[kk], off, phs, key)
                            if val2 is val and ho2 is ho:
                                ok = True
                            elif rnd < 12:
                                plan.seg[lk] = (kk, off, ho2, val2)
                                ch = True
                                ok = True
                if not ok:
                    del plan.seg[lk]
                    plan.noseg.add(lk)
                    self.add_leaf(plan, lk, ('a',))
                    ch = True
            if ch:
                continue
            nexts = {lk: self.leaf_get(b.get(lk[0]), lk[1]) for lk in plan.order}
            # leaves that turn out invariant need no placeholder
            # candidate invariants
            bad = False
            for c, p in act:
                n = self.inst(c, {lk: (b.facts.simp(v) if isinstance(v, T) else v) for lk, v in nexts.items()})
                if n is None or not self.le0_ite(n, b.facts):
                    failed.add(c)
                    bad = True
            if plan.cands is None:
                plan.cands = self.candidates(plan, phs, inits, nexts, s0, b)
                if plan.cands:
                    continue
            if bad:
                continue
            return self.close(key, s0, h, phs, plan, inits, nexts, b, exits, act)
        self.ev('imprecise', why='no loop fixpoint', st=s0)
        raise Budget('loop fixpoint')

    def le0_ite(self, t, facts, d=0):
        t = facts.simp(t)
        if t.op != 'ite':
            return facts.le0(t)
        if d > 6:
            return False
        a = batom(t.args[0])
        for c, x in ((a, t.args[1]), (bnot(a), t.args[2])):
            f = facts.copy()
            if not f.add_bool(c):
                continue
            if not self.le0_ite(x, f, d + 1):
                return False
        return True

    def add_leaf(self, plan, lk, kind):
        reg, path = lk
        # drop descendants
        for o in list(plan.order):
            if o[0] is reg and o[1][:len(path)] == path and o != lk:
                self.drop_leaf(plan, o)
        for o in list(plan.seg):
            if o[0] is reg and o[1][:len(path)] == path:
                del plan.seg[o]
        if lk not in plan.leaf:
            plan.order.append(lk)
        plan.leaf[lk] = kind
        if plan.cands is not None:
            plan.cands = None

    def drop_leaf(self, plan, lk):
        plan.leaf.pop(lk, None)
        if lk in plan.order:
            plan.order.remove(lk)
        plan.cands = None

    # candidate: (coef list ((lk,c)...), rest term) meaning sum c*leaf + rest <= 0
    def inst(self, c, vals):
        r = c[1]
        for lk, k in c[0]:
            v = vals.get(lk)
            if not isinstance(v, T) or v.sort != 'i':
                return None
            r = add(r, mul(num(k), v))
        return r

    def candidates(self, plan, phs, inits, nexts, s0, b):
        out = []
        ints = [lk for lk in plan.order if isinstance(phs[lk], T) and phs[lk].sort == 'i' and phs[lk].op == 'ph']
        delta = {}
        back = {phs[lk]: lk for lk in ints}
        for lk in ints:
            i, n = inits[lk], nexts[lk]
            if not isinstance(n, T):
                continue
            ns = b.facts.simp(n)
            dlt = sub(ns, phs[lk])
            delta[lk] = dlt
            if isinstance(i, T):
                if i.op != 'ite':
                    out.append((((lk, -1),), i))           # init <= k
                    out.append((((lk, 1),), neg(i)))       # k <= init
                lo, hi = s0.facts.range(i)
                if lo > -INF:
                    out.append((((lk, -1),), num(lo)))
                if hi < INF and hi < LENMAX:
                    out.append((((lk, 1),), num(-hi)))
        lks = list(delta)
        for x in range(len(lks)):
            for y in range(x + 1, len(lks)):
                a, c = lks[x], lks[y]
                if delta[a].op == 'ite' or delta[c].op == 'ite' or delta[a] is ZERO or delta[c] is ZERO:
                    continue
                if not (isinstance(inits[a], T) and isinstance(inits[c], T)) or inits[a].op == 'ite' or inits[c].op == 'ite':
                    continue
                if delta[a] is delta[c]:
                    r = sub(inits[c], inits[a])
                    out.append((((a, 1), (c, -1)), r))
                    out.append((((a, -1), (c, 1)), neg(r)))
                elif add(delta[a], delta[c]) is ZERO:
                    r = add(inits[c], inits[a])
                    out.append((((a, 1), (c, 1)), neg(r)))
                    out.append((((a, -1), (c, -1)), r))
        # bounds suggested by literals holding at the back edge
        for lit, val in list(b.facts.lits.items()):
            if lit.op not in ('lt0', 'eq0'):
                continue
            p = lit.args[0]
            if p.op == 'ite':
                continue
            d = P(p)
            hit = [ph for ph in back if ph in p.free]
            if not hit:
                continue
            co, rest, bad = [], {}, False
            for m, c in d.items():
                if len(m) == 1 and m[0] in back:
                    co.append((back[m[0]], c))
                else:
                    rest[m] = c
                    if any(a.free & set(back) for a in m):
                        bad = True
            if bad or not co:
                continue
            rest = fromP(rest)
            if lit.op == 'lt0':
                if val:     # p < 0 : propose p <= 0
                    out.append((tuple(co), rest))
                else:       # p >= 0 : propose -p - 1 <= 0
                    out.append((tuple((l, -c) for l, c in co), sub(neg(rest), ONE)))
                    out.append((tuple((l, -c) for l, c in co), neg(rest)))
            else:
                if not val:
                    out.append((tuple(co), rest))
                    out.append((tuple((l, -c) for l, c in co), neg(rest)))
        res = []
        for c in out:
            if c not in res:
                i = self.inst(c, inits)
                if i is not None and s0.facts.le0(i):
                    res.append(c)
        return res

    def close(self, key, s0, h, phs, plan, inits, nexts, b, exits, act):
        order = plan.order
        mp0 = {}
        # bound placeholders of the summary
        iv, nv = [], []
        for lk in order:
            i = inits[lk]
            n = nexts[lk]
            if isinstance(n, T) and n.op == 'ite':
                n = b.facts.simp(n)
            iv.append(i)
            nv.append(n)
        trip = tuple(restrict(s.pc, s0.pc) for tgt, s in exits)
        hh = 1 + lheight((tuple(iv), tuple(nv), trip))
        bound = {}
        for i, lk in enumerate(order):
            p = phs[lk]
            if p is None:
                continue
            q = mk('ph', (('L', hh), i), p.sort)
            if p in RNG:
                RNG[q] = RNG[p]
            bound[p] = batom(q) if p.sort == 'b' else q
        memo = {}
        nv = tuple(self.vsubst(x, bound, memo) if x is not None else None for x in nv)
        # trip description: exit conditions
        trip = tuple(self.vsubst(x, bound, memo) for x in trip)
        L = Loop.make(tuple(iv), nv, hh, (self.stack[-1].fn['path'] if self.stack else '', self.span), trip)
        counters = [lk for lk in order if isinstance(phs[lk], T) and phs[lk].sort == 'i' and isinstance(nexts[lk], T)
                    and b.facts.simp(nexts[lk]) is add(phs[lk], ONE)]
        mine = set(p for p in phs.values() if p is not None)
        outs = []
        base = {}
        for i, lk in enumerate(order):
            p = phs[lk]
            if p is None:
                continue
            m = mk('mu', (L, i), p.sort)
            if p in RNG:
                RNG.setdefault(m, RNG[p])
            base[p] = batom(m) if p.sort == 'b' else m
        for tgt, s in exits:
            mp = dict(base)
            for lk in order:
                p = phs[lk]
                if p is None or p.sort != 'i':
                    continue
                n = self.exit_value(p, s, mine)
                if n is not None:
                    mp[p] = n
            outs.append((tgt, self.subst_state(s, mp)))
        # substitute placeholders in recorded events
        self.loops_closed = getattr(self, 'loops_closed', 0) + 1
        return outs

    def exit_value(self, p, s, mine):
        """exact value of placeholder p in exit state s, if the facts pin it"""
        for lit, val in s.facts.lits.items():
            if p not in lit.free or lit.op not in ('lt0', 'eq0'):
                continue
            d = P(lit.args[0])
            c = d.get((p,))
            if c not in (1, -1):
                continue
            rest = fromP({m: v for m, v in d.items() if m != (p,)})
            if rest.free & mine:
                continue
            if lit.op == 'eq0':
                if val:
                    return neg(rest) if c == 1 else rest
                continue
            # lt0: val True: c*p + rest <= -1 ; False: c*p + rest >= 0
            if val:
                # c=1: p <= -rest-1 ; c=-1: p >= rest+1
                n = sub(neg(rest), ONE) if c == 1 else add(rest, ONE)
            else:
                n = neg(rest) if c == 1 else rest
            if s.facts.le0(sub(p, n)) and s.facts.le0(sub(n, p)):
                return n
        return None

    def subst_state(self, s, mp):
        r = State()
        memo = {}
        keys = set(mp)
        r.pc = TM.subst(s.pc, mp, memo)
        r.facts = s.facts.subst(mp)
        for k, v in s.mem.items():
            if isinstance(v, (T, V)) and v.free and not v.free.isdisjoint(keys):
                v = self.vsubst(v, mp, memo)
                v = self.norm_val(v, r.facts)
            r.mem[k] = v
        return r

    def norm_val(self, v, facts):
        """normalise full segments after loop exit"""
        if not isinstance(v, V):
            return v
        if v.k == 'Ar':
            return self.arr_norm(v, facts)
        if v.k == 'St':
            f = [self.norm_val(x, facts) for x in v.a[1]]
            if any(p is not q for p, q in zip(f, v.a[1])):
                return St(v.a[0], f)
        if v.k == 'En':
            ps = [tuple(self.norm_val(x, facts) for x in p) if p else p for p in v.a[2]]
            return En(v.a[0], v.a[1], ps)
        return v

    # ------------------------------------------------------------ blocks
    def run_block(self, fr, bb, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('steps')
        stmts, term = fr.fn['blocks'][bb]
        st = st.copy()
        for x in stmts:
            k = x[0]
            if k == '=':
                if len(x) > 3:
                    self.span = x[3]
                v = self.rvalue(fr, x[2], x[1], st)
                self.writeloc(self.place(fr, x[1], st), v, st)
            elif k == 'dead':
                st.mem.pop(self.lreg(fr, x[1]), None)
            elif k == 'setd':
                loc = self.place(fr, x[1], st)
                v = self.readloc(loc, st)
                if isinstance(v, V) and v.k == 'Op':
                    v = self.expand(v)
                if isinstance(v, V) and v.k == 'En':
                    self.writeloc(loc, En(v.a[0], num(x[2]), v.a[2]), st)
            elif k == 'assume':
                v = self.operand(fr, x[1], st)
                if isinstance(v, T) and v.sort == 'b':
                    st.assume(v)
        return self.terminator(fr, bb, term, st)

    def terminator(self, fr, bb, t, st):
        k = t[0]
        fr.cur = bb
        if k in ('call', 'assert', 'drop') and st.get(self.models.mxcsr) is not self.models.mxcsr.init:
            self.dirty.add(tuple((f.fn['id'], f.cur) for f in self.stack))
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'switch':
            self.span = t[5] or self.span if len(t) > 5 else self.span
            v = self.operand(fr, t[1], st)
            v = self.as_t(v)
            if v is None:
                v = unk('i', 'switch')
            outs = []
            if v.sort == 'b':
                rest = TRUE
                for val, b in t[2]:
                    c = v if int(val) else bnot(v)
                    outs.append((b, c))
                    rest = band(rest, bnot(c))
                outs.append((t[3], rest))
            else:
                rest = TRUE
                groups = {}
                for val, b in t[2]:
                    c = eq(v, num(int(val)))
                    groups[b] = bor(groups.get(b, FALSE), c)
                    rest = band(rest, bnot(c))
                if t[3] is not None:
                    groups[t[3]] = bor(groups.get(t[3], FALSE), rest)
                outs = list(groups.items())
            res = []
            for b, c in outs:
                if b is None:
                    continue
                s2 = st.branch(c)
                if s2 is not None:
                    if fr.fn['blocks'][b][1][0] == 'unreachable' and not fr.fn['blocks'][b][0]:
                        continue
                    res.append((b, s2))
            return res
        if k == 'drop':
            st = self.models.drop(fr, t, st)
            return [(t[2], st)] if st is not None else []
        if k == 'assert':
            if len(t) > 6 and t[6]:
                self.span = t[6]
            c = self.as_t(self.operand(fr, t[1], st))
            if c is None or c.sort != 'b':
                return [(t[4], st)]
            if not t[2]:
                c = bnot(c)
            c = st.facts.simp(c)
            if c is not TRUE:
                self.ev('panic', cond=bnot(c), msg=t[3] if isinstance(t[3], str) else str(t[3])[:60], st=st)
            if c is FALSE:
                return []
            st.assume(c)
            return [(t[4], st)]
        if k == 'call':
            return self.call(fr, bb, t, st)
        return []

    def call(self, fr, bb, t, st):
        _, inst, dpath, gargs, args, argtys, dest, tgt, unw, fnop, span = t
        if span:
            self.span = span
        vals = [self.operand(fr, a, st) for a in args]
        dty = self.place_ty(fr, dest)
        outs = self.dispatch(inst, dpath, gargs, vals, argtys, dty, st, bb, fnop and self.operand(fr, fnop, st) if isinstance(fnop, list) else None, tgt is None)
        if tgt is None:
            return []
        res = []
        for v, s in outs:
            if s is None:
                continue
            if v is None and dty is not None and self.tt[dty]['k'] == 'tuple':
                v = UNIT
            if v is not None:
                self.writeloc(self.place(fr, dest, s), v, s)
            res.append((tgt, s))
        if len(res) > 1:
            res = [(tgt, self.merge_states([s for _, s in res]))]
        return res

    def dispatch(self, inst, dpath, gargs, vals, argtys, dty, st, site, fnval=None, diverges=False):
        """returns list of (value, state)"""
        fn = self.fns.get(inst) if inst is not None else None
        path = fn['path'] if fn else dpath
        if fn is not None and self.pathq:
            r = self.pathq(self, fn, vals, st, dty, site)
            if r is not None:
                return r
        m = self.models.lookup(fn, path, dpath)
        if m is not None:
            r = m(path, vals, argtys, dty, st, site, fn, gargs)
            if r is not None:
                return r
            r = self.split_call(m, path, vals, argtys, dty, st, site, fn, gargs)
            if r is not None:
                return r
        if diverges and (fn is None or not fn.get('blocks')):
            self.ev('panic', cond=TRUE, msg=path or 'diverges', st=st)
            return []
        if fn is not None and fn.get('blocks'):
            v, s = self.run_fn(fn, vals, st, site)
            return [(v, s)] if s is not None else []
        return self.havoc(path or '?', vals, dty, st)

    def split_call(self, m, path, vals, argtys, dty, st, site, fn, gargs, d=0):
        """a model that needs one definite container, given a gated one: apply it on both sides"""
        if d > 6:
            return None
        for i, v in enumerate(vals):
            loc = None
            x = v
            n = 0
            while isinstance(x, V) and x.k in ('Rf', 'Vc') and n < 4:
                n += 1
                if x.k == 'Rf':
                    loc = (x.a[0], x.a[1])
                    x = self.rd(st.get(x.a[0]), x.a[1], st)
                else:
                    loc = (x.a[0], ())
                    x = st.get(x.a[0])
            if not (isinstance(x, V) and x.k == 'Ch'):
                continue
            c = x.a[0]
            out = []
            for cond, side in ((c, x.a[1]), (bnot(c), x.a[2])):
                s = st.branch(cond)
                if s is None:
                    continue
                vs = list(vals)
                if loc is None:
                    vs[i] = side
                else:
                    s = s.copy()
                    s.mem[loc[0]] = self.wr(s.get(loc[0]), loc[1], side, s) if loc[1] else side
                r = m(path, vs, argtys, dty, s, site, fn, gargs)
                if r is None:
                    r = self.split_call(m, path, vs, argtys, dty, s, site, fn, gargs, d + 1)
                if r is None:
                    return None
                out += r
            return out
        return None

    def havoc(self, path, vals, dty, st):
        self.unmodelled[path] += 1
        self.ev('unmodelled', path=path, st=st)
        st = st.copy()
        for v in vals:
            self.havoc_val(v, st, path, 0)
        return [(self.unknown(dty, path.split('::')[-1]) if dty is not None else UNIT, st)]

    def cut_target(self, v, t, st):
        if isinstance(v, V) and v.k == 'Op':
            v = self.expand(v)
        if isinstance(v, V) and v.k == 'Rf':
            old = self.rd(st.get(v.a[0]), v.a[1], st)
            if isinstance(old, V) and old.k in ('Vc', 'Sl'):
                self.cut_target(Sl(old.a[0], (), ZERO, st.get(old.a[0]).a[1]) if old.k == 'Vc' and st.get(old.a[0]).k == 'Ar' else old, t, st)
                return
            tid = old.a[0] if isinstance(old, V) and old.k in ('St', 'En') else old.a[1] if isinstance(old, V) and old.k == 'Op' else self.leaf_tid(v.a[0], v.a[1])
            if isinstance(old, V) and old.k == 'Ar':
                new = Ar(old.a[0], old.a[1], ('o', t))
            elif tid is not None:
                new = Op(t, tid)
            else:
                new = Un('cut')
            st.mem[v.a[0]] = self.wr(st.get(v.a[0]), v.a[1], new, st, v.a[0].tid) if v.a[1] else new
        elif isinstance(v, V) and v.k == 'Sl':
            old = self.rd(st.get(v.a[0]), v.a[1], st)
            if isinstance(old, V) and old.k == 'Op':
                old = self.expand(old)
            if isinstance(old, V) and old.k == 'Ar':
                if v.a[2] is ZERO and v.a[3] is old.a[1]:
                    new = Ar(old.a[0], old.a[1], ('o', t))
                else:
                    h = hole()
                    new = self.arr_fill(old, v.a[2], add(v.a[2], v.a[3]), h, sel(t, sub(h, v.a[2]), 'f' if old.a[0] is None or self.ty(old.a[0])['k'] == 'float' else 'o'), st.facts)
                st.mem[v.a[0]] = self.wr(st.get(v.a[0]), v.a[1], new, st, v.a[0].tid) if v.a[1] else new

    def havoc_val(self, v, st, why, d):
        if not isinstance(v, V) or d > 4:
            return
        if v.k == 'Op':
            v = self.expand(v)
        if v.k == 'Rf':
            old = self.rd(st.get(v.a[0]), v.a[1], st)
            st.mem[v.a[0]] = self.wr(st.get(v.a[0]), v.a[1], Un(why), st, v.a[0].tid)
            self.havoc_val(old, st, why, d + 1)
        elif v.k == 'Sl':
            old = self.rd(st.get(v.a[0]), v.a[1], st)
            if isinstance(old, V) and old.k == 'Ar':
                st.mem[v.a[0]] = self.wr(st.get(v.a[0]), v.a[1], Ar(old.a[0], old.a[1], ('o', unk('o', why))), st)
        elif v.k in ('St',):
            for x in v.a[1]:
                self.havoc_val(x, st, why, d + 1)
        elif v.k == 'Ch':
            self.havoc_val(v.a[1], st, why, d + 1)
            self.havoc_val(v.a[2], st, why, d + 1)
