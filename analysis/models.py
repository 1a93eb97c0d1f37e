"""Models of library functions that are not inlined."""
import re, math
from terms import *
import terms as TM
from values import *
from facts import Facts


def dqel(t, i):
    """place of element i of a queue content"""
    while t.op == 'dqdrop' and t.args[1] == 'f':
        i = add(i, t.args[2])
        t = t.args[0]
    return mk('dqel', (t, i), 'o')

LENMAX = 1 << 60


def last(p):
    p = re.sub(r'::<[^<>]*(<[^<>]*>[^<>]*)*>$', '', p)
    return p.rsplit('::', 1)[-1]


class Models:
    def __init__(self, eng):
        self.e = eng
        self.cache = {}
        self.drops = {}
        for f in eng.d['fns']:
            if f.get('local') and f['path'].endswith('Drop>::drop') and f.get('blocks'):
                t = eng.pointee(f['locals'][1])
                if t is not None:
                    self.drops[t] = f
        self.has_drop = {}
        self.mxcsr = region(('mxcsr',), None, None, 'MXCSR')
        m = sym('MXCSR', 'i', 0, (1 << 32) - 1)
        self.mxcsr.init = m

    # ------------------------------------------------------------ lookup
    def lookup(self, fn, path, dpath):
        k = (path, dpath)
        if k in self.cache:
            return self.cache[k]
        r = self._lookup(fn, path or '', dpath or '')
        self.cache[k] = r
        return r

    def _lookup(self, fn, p, d):
        n = last(p)
        local = bool(fn and fn.get('local'))
        dl = last(d)
        if d.startswith('core::ops::function::Fn') and dl in ('call_once', 'call_mut', 'call'):
            return self.m_call
        if local:
            return None
        if fn is not None and fn.get('intr'):
            return getattr(self, 'i_' + re.sub(r'\W', '_', str(fn['intr'])), None)
        if 'Iterator' in p or 'iter::' in p or 'iter::traits' in d:
            f = getattr(self, 'it_' + n, None)
            if f is not None and ('iterator::Iterator' in p or 'Iterator>' in p or 'IntoIterator' in p or 'DoubleEndedIterator' in p or 'ExactSizeIterator' in p):
                return f
            if n == 'zip':
                return self.it_zip
        if ('slice::' in p and '<impl [T]>' in p) or p.startswith('core::slice::<impl') or p.startswith('alloc::slice::<impl') or p.startswith('core::array::<impl [T; N]>'):
            f = getattr(self, 's_' + n, None)
            if f:
                return f
        if 'ops::index::Index' in p and n in ('index', 'index_mut'):
            return self.s_index
        if 'VecDeque' in p:
            return getattr(self, 'dq_' + n, None)
        if '::vec::Vec' in p or 'SmallVec' in p or p.startswith('alloc::vec::'):
            f = getattr(self, 'v_' + n, None)
            if f:
                return f
        if 'boxed::' in p:
            f = getattr(self, 'b_' + n, None)
            if f:
                return f
        if n in ('as_ref', 'as_mut') and 'core::ptr::' in p and '_ptr::' in p:
            return self.m_ptr_as_ref
        if n in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'as_slice', 'as_mut_slice') and 'Option' not in p and 'Result' not in p:
            return self.m_deref
        if p.startswith('core::num::') or p.startswith('core::cmp::') or 'core::cmp::' in p:
            f = getattr(self, 'n_' + n, None)
            if f:
                return f
        if 'f64' in p or 'f32' in p:
            if '<impl f64>' in p or '<impl f32>' in p:
                return self.f_any
        if n in ('_mm_getcsr', '_mm_setcsr'):
            return getattr(self, 'x' + n)
        if 'dasp_sample' in p and n in ('to_sample', 'from_sample', 'to_sample_'):
            return self.d_to_sample
        if 'dasp_frame::Frame' in p:
            f = getattr(self, 'd_' + n, None)
            if f:
                return f
        if n == 'clone' and ('core::array' in p or 'core::clone::impls' in p or 'clone::Clone for [' in p):
            return self.m_clone
        if n == 'default' and 'core::array' in p:
            return self.m_default_arr
        f = getattr(self, 'm_' + n, None)
        if f and (p.startswith('core::mem::') or p.startswith('core::ptr::') or p.startswith('core::slice::raw') or p.startswith('core::hint') or p.startswith('core::intrinsics') or 'RangeInclusive' in p or 'core::array::' in p or 'core::ops::range' in p):
            return f
        if n in ('equivalent',):
            return None
        return None

    # ------------------------------------------------------------ helpers
    def tmp(self, site, tag):
        fr = self.e.stack[-1]
        return region(('tmp', fr.ctx, site, tag), None, None, 'tmp')

    def sl(self, v, st):
        """view a pointer-like value as a slice"""
        e = self.e
        if not isinstance(v, V):
            return None
        if v.k == 'Op':
            v = e.expand(v)
        if v.k == 'Sl':
            return v
        if v.k == 'Rf':
            x = e.rd(st.get(v.a[0]), v.a[1], st)
            if isinstance(x, V) and x.k == 'Op':
                x = e.expand(x)
            if isinstance(x, V):
                if x.k == 'Ar':
                    return Sl(v.a[0], v.a[1], ZERO, x.a[1])
                if x.k == 'Vc':
                    c = st.get(x.a[0])
                    if isinstance(c, V) and c.k == 'Ar':
                        return Sl(x.a[0], (), ZERO, c.a[1])
                if x.k == 'Sl':
                    return x
                if x.k == 'Rf':
                    return self.sl(x, st)
                if x.k == 'Ch':
                    return self.sl(x, st)
            return None
        if v.k == 'Vc':
            c = st.get(v.a[0])
            if isinstance(c, V) and c.k == 'Ar':
                return Sl(v.a[0], (), ZERO, c.a[1])
        if v.k == 'Ch':
            c = st.facts.simp(v.a[0])
            if c is TRUE:
                return self.sl(v.a[1], st)
            if c is FALSE:
                return self.sl(v.a[2], st)
            a, b = self.sl(v.a[1], st), self.sl(v.a[2], st)
            if a is None or b is None:
                return None
            # a choice involving an empty slice keeps only the other one
            if a.a[3] is ZERO:
                return Sl(b.a[0], b.a[1], b.a[2], ite(c, ZERO, b.a[3]))
            if b.a[3] is ZERO:
                return Sl(a.a[0], a.a[1], a.a[2], ite(c, a.a[3], ZERO))
            return e.merge(c, a, b)
        return None

    def slen(self, v, st):
        s = self.sl(v, st)
        if s is not None and s.k == 'Sl':
            return s.a[3]
        if s is not None and s.k == 'Ch':
            return ite(s.a[0], self.slen(s.a[1], st), self.slen(s.a[2], st))
        u = unk('i', 'len')
        RNG[u] = (0, LENMAX)
        return u

    def content(self, s, st):
        """Ar value behind a slice"""
        v = self.e.rd(st.get(s.a[0]), s.a[1], st)
        if isinstance(v, V) and v.k == 'Op':
            v = self.e.expand(v)
        return v if isinstance(v, V) and v.k == 'Ar' else None

    def set_content(self, s, ar, st):
        r = s.a[0]
        st.mem[r] = self.e.wr(st.get(r), s.a[1], ar, st, r.tid)

    def opt(self, dty, cond, item):
        """Option: Some(item) iff cond"""
        return En(dty, b2i(cond), [(), (item,)])

    def isnull(self, v):
        if isinstance(v, V):
            if v.k == 'Null':
                return TRUE
            if v.k == 'Op':
                tid = v.a[1]
                v = self.e.expand(v)
            if v.k in ('Rf', 'Sl'):
                r = v.a[0]
                if r.key[0] == 'd' and not v.a[1]:
                    return batom(mk('isnull', (r.key[1],), 'b'))
                if r.key[0] == 'raw':
                    return batom(mk('isnull', (r.key[1],), 'b'))
                return FALSE
            if v.k == 'Ch':
                a, b = self.isnull(v.a[1]), self.isnull(v.a[2])
                if a is not None and b is not None:
                    return ite(v.a[0], a, b)
        return None

    def tid_of(self, v):
        if isinstance(v, V):
            if v.k == 'St' or v.k == 'En':
                return v.a[0]
            if v.k == 'Fn':
                return v.a[0]
            if v.k == 'Op':
                return v.a[1]
        return None

    # ------------------------------------------------------------ closures
    def call_val(self, f, args, st, site):
        """call a function value; returns [(value, state)]"""
        e = self.e
        self_ref = None
        g = f
        n = 0
        while isinstance(g, V) and n < 6:
            n += 1
            if g.k == 'Op':
                t = e.ty(g.a[1])
                if t['k'] == 'closure':
                    g = e.expand(g)
                    break
                if t['k'] in ('ref', 'ptr'):
                    g = e.expand(g)
                    continue
                break
            if g.k == 'Rf':
                self_ref = g
                g = e.rd(st.get(g.a[0]), g.a[1], st)
                continue
            break
        if isinstance(g, V) and g.k in ('St', 'Fn'):
            tid = g.a[0]
            t = e.ty(tid) if tid is not None else None
            if t and t['k'] == 'closure':
                fn = e.fns.get(t['inst'])
                if fn and fn.get('blocks'):
                    t1 = e.ty(fn['locals'][1])
                    if t1['k'] in ('ref', 'ptr'):
                        if self_ref is None:
                            r = self.tmp(site, 'clo')
                            st = st.copy()
                            st.mem[r] = g
                            self_ref = Rf(r)
                        a0 = self_ref
                    else:
                        a0 = g
                    v, s = e.run_fn(fn, [a0] + list(args), st, (site, 'clo'))
                    return [(v, s)] if s is not None else []
            if t and t['k'] == 'fndef':
                fn = e.fns.get(t.get('inst'))
                dty = None
                if fn and fn.get('locals'):
                    dty = fn['locals'][0]
                elif fn and fn.get('abi'):
                    dty = fn['abi'].get('ret')
                return e.dispatch(t.get('inst'), fn['path'] if fn else '?', t.get('args') or [], list(args), [None] * len(args), dty, st, (site, 'fnd'))
        if isinstance(g, V) and g.k == 'FnPtr':
            fn = e.fns.get(g.a[0])
            if fn and fn.get('blocks'):
                v, s = e.run_fn(fn, list(args), st, (site, 'fnp'))
                return [(v, s)] if s is not None else []
        e.ev('imprecise', why='unknown function value', st=st)
        s = st.copy()
        for a in args:
            e.havoc_val(a, s, 'closure', 0)
        return [(Un('closure'), s)]

    def m_call(self, path, vals, argtys, dty, st, site, fn, gargs):
        tup = vals[1] if len(vals) > 1 else UNIT
        if isinstance(tup, V) and tup.k == 'Op':
            tup = self.e.expand(tup)
        if not (isinstance(tup, V) and tup.k == 'St'):
            return None
        f = vals[0]
        if isinstance(f, V) and f.k == 'Un':
            return None
        return self.call_val(f, list(tup.a[1]), st, site)

    def call1(self, f, args, st, site):
        """call and merge outcomes"""
        r = self.call_val(f, args, st, site)
        r = [(v, s) for v, s in r if s is not None]
        if not r:
            return None, None
        if len(r) == 1:
            return r[0]
        t = self.tmp(site, 'ret')
        ss = []
        for v, s in r:
            s.mem[t] = v
            ss.append(s)
        s = self.e.merge_states(ss)
        return s.mem.pop(t, None), s

    # ------------------------------------------------------------ simple iterators
    def simple(self, it, st):
        """(has, item, it') for pull iterators, or None"""
        e = self.e
        if not isinstance(it, V):
            return None
        if it.k == 'Op':
            it = e.expand(it)
        if it.k == 'Rf':        # &mut I
            inner = e.rd(st.get(it.a[0]), it.a[1], st)
            return None
        if it.k == 'St':
            tid = it.a[0]
            n = e.ty(tid)['n'].split('::')[-1] if tid is not None and e.ty(tid)['k'] == 'adt' else ''
            if n == 'Range' and all(isinstance(x, T) for x in it.a[1]):
                a, b = it.a[1]
                has = lt(a, b)
                return has, a, St(tid, (add(a, ONE), b))
            if n == 'RangeInclusive' and len(it.a[1]) == 3 and all(isinstance(x, T) for x in it.a[1]):
                a, b, ex = it.a[1]
                has = band(bnot(ex), le(a, b))
                more = lt(a, b)
                return has, a, St(tid, (ite(more, add(a, ONE), a), b, bnot(more)))
            if n == 'RangeFrom' and isinstance(it.a[1][0], T):
                a = it.a[1][0]
                return TRUE, a, St(tid, (add(a, ONE),))
            return None
        if it.k != 'It':
            return None
        k = it.a[0]
        if len(it.a) > 1 and isinstance(it.a[1], V) and it.a[1].k == 'Ch':
            g = it.a[1]
            a = self.simple(It(k, g.a[1], *it.a[2:]), st)
            b = self.simple(It(k, g.a[2], *it.a[2:]), st)
            if a is None or b is None:
                return None
            return ite(g.a[0], a[0], b[0]), e.merge(g.a[0], a[1], b[1]), e.merge(g.a[0], a[2], b[2])
        if k == 'sl':
            s, c = it.a[1], it.a[2]
            return lt(c, s.a[3]), Rf(s.a[0], s.a[1] + (('x', add(s.a[2], c)),)), It('sl', s, add(c, ONE))
        if k == 'rsl':
            s, c = it.a[1], it.a[2]
            return lt(c, s.a[3]), Rf(s.a[0], s.a[1] + (('x', sub(sub(add(s.a[2], s.a[3]), c), ONE)),)), It('rsl', s, add(c, ONE))
        if k == 'ck':
            s, n, c = it.a[1], it.a[2], it.a[3]
            return lt(c, div(s.a[3], n)), Sl(s.a[0], s.a[1], add(s.a[2], mul(c, n)), n), It('ck', s, n, add(c, ONE))
        if k == 'chk':
            s, n, c = it.a[1], it.a[2], it.a[3]
            rest = sub(s.a[3], mul(c, n))
            return lt(ZERO, rest), Sl(s.a[0], s.a[1], add(s.a[2], mul(c, n)), tmin(n, rest)), It('chk', s, n, add(c, ONE))
        if k == 'win':
            s, n, c = it.a[1], it.a[2], it.a[3]
            return le(add(c, n), s.a[3]), Sl(s.a[0], s.a[1], add(s.a[2], c), n), It('win', s, n, add(c, ONE))
        if k == 'fa':
            s, f, n, c, site = it.a[1:6]
            inner = self.flat_item(s, None if f is UNIT else f, div(c, n), st, site)
            if inner is None:
                return None
            return lt(c, mul(s.a[3], n)), Rf(inner.a[0], inner.a[1] + (('x', add(inner.a[2], rem(c, n))),)), It('fa', s, f, n, add(c, ONE), site)
        if k == 'rr':
            a, b = it.a[1], it.a[2]
            return lt(a, b), sub(b, ONE), It('rr', a, sub(b, ONE))
        if k == 'dq':
            t, n, c = it.a[1], it.a[2], it.a[3]
            return lt(c, n), Rf(e.region_d(dqel(t, c), e.f64)), It('dq', t, n, add(c, ONE))
        if k == 'av':
            r, n, c = it.a[1], it.a[2], it.a[3]
            item = e.rd(st.get(r), (('x', c),), st)
            return lt(c, n), item, It('av', r, n, add(c, ONE))
        if k == 'zip':
            a, b = self.simple(it.a[1], st), self.simple(it.a[2], st)
            if a is None or b is None:
                return None
            return band(a[0], b[0]), St(None, (a[1], b[1])), It('zip', a[2], b[2])
        if k == 'enum':
            a = self.simple(it.a[1], st)
            if a is None:
                return None
            return a[0], St(None, (it.a[2], a[1])), It('enum', a[2], add(it.a[2], ONE))
        if k == 'copied':
            a = self.simple(it.a[1], st)
            if a is None:
                return None
            v = e.readloc(e.deref(a[1], st), st)
            return a[0], v, It('copied', a[2])
        if k == 'opt':
            o = it.a[1]
            if o.k == 'En':
                p = o.a[2][1]
                return eq(o.a[1], ONE), p[0] if p else None, It('opt', En(o.a[0], ZERO, [(), None]))
        if k == 'takek':
            a = self.simple(it.a[1], st)
            if a is None:
                return None
            return band(a[0], lt(ZERO, it.a[2])), a[1], It('takek', a[2], sub(it.a[2], ONE))
        if k == 'by':
            return None
        return None

    def into(self, v, st, site):
        """IntoIterator::into_iter"""
        e = self.e
        if isinstance(v, V) and v.k == 'Op':
            v = e.expand(v)
        if not isinstance(v, V):
            return None
        if v.k == 'It':
            return v
        if v.k == 'St':
            tid = v.a[0]
            n = e.ty(tid)['n'].split('::')[-1] if tid is not None and e.ty(tid)['k'] == 'adt' else ''
            if n.startswith('Range'):
                return v
            return None
        if v.k in ('Sl',):
            return It('sl', v, ZERO)
        if v.k == 'Rf':
            x = e.rd(st.get(v.a[0]), v.a[1], st)
            if isinstance(x, V) and x.k == 'Op':
                x = e.expand(x)
            if isinstance(x, V):
                if x.k in ('Ar', 'Vc', 'Sl'):
                    s = self.sl(v, st)
                    return It('sl', s, ZERO) if s is not None and s.k == 'Sl' else None
                if x.k == 'Dq':
                    return It('dq', x.a[0], x.a[1], ZERO)
                if x.k == 'It':
                    return It('by', v)
                if x.k == 'En':
                    # &Option
                    pass
        if v.k == 'Vc':
            c = st.get(v.a[0])
            if isinstance(c, V) and c.k == 'Ar':
                return It('av', v.a[0], c.a[1], ZERO)
        if v.k == 'Ar':
            r = self.tmp(site, 'arr')
            st.mem[r] = v
            return It('av', r, v.a[1], ZERO)
        if v.k == 'En' and e.is_adt(v.a[0], 'Option'):
            return It('opt', v)
        if v.k == 'Ch':
            s = self.sl(v, st)
            if s is not None and s.k == 'Sl':
                return It('sl', s, ZERO)
        return None

    def it_into_iter(self, path, vals, argtys, dty, st, site, fn, gargs):
        st = st.copy()
        r = self.into(vals[0], st, site)
        if r is None:
            return None
        return [(r, st)]

    def it_iter(self, *a):
        return self.it_into_iter(*a)

    def as_iter(self, v, st):
        if isinstance(v, V) and v.k == 'Op':
            v = self.e.expand(v)
        if isinstance(v, V) and v.k in ('It', 'St'):
            return v
        return self.into(v, st, 'x')

    def it_next(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        ref = vals[0]
        loc = e.deref(ref, st)
        it = e.readloc(loc, st)
        if isinstance(it, V) and it.k == 'Rf':      # &mut &mut I
            loc = e.deref(it, st)
            it = e.readloc(loc, st)
        s = self.simple(it, st)
        if s is None:
            return self.next_complex(loc, it, dty, st, site)
        has, item, it2 = s
        st = st.copy()
        has = st.facts.simp(has)
        e.writeloc(loc, e.merge(has, it2, it), st)
        return [(self.opt(dty, has, item), st)]

    def next_complex(self, loc, it, dty, st, site):
        """next() on an adapter calling closures: only map over a simple iterator"""
        e = self.e
        if isinstance(it, V) and it.k == 'It' and it.a[0] == 'map':
            s = self.simple(it.a[1], st)
            if s is not None:
                has, item, it2 = s
                t, f = st.branch(has), st.branch(bnot(has))
                outs = []
                if t is not None:
                    v, t = self.call1(it.a[2], [item], t, (site, 'nx'))
                    if t is not None:
                        e.writeloc(loc, It('map', it2, it.a[2]), t)
                        outs.append((En(dty, ONE, [(), (v,)]), t))
                if f is not None:
                    outs.append((En(dty, ZERO, [(), None]), f))
                return outs
        return None

    # ------------------------------------------------------------ adapters
    def adapter(kind, nargs):
        def f(self, path, vals, argtys, dty, st, site, fn, gargs):
            it = self.as_iter(vals[0], st)
            if it is None:
                return None
            return [(It(kind, it, *vals[1:1 + nargs]), st)]
        return f
    it_map = adapter('map', 1)
    it_filter_map = adapter('fmap', 1)
    it_filter = adapter('filter', 1)
    def it_flat_map(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.as_iter(vals[0], st)
        if it is None:
            return None
        r = self.flat_array(it, vals[1], st, site)
        return [(r if r is not None else It('flatmap', it, vals[1]), st)]

    def it_flatten(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.as_iter(vals[0], st)
        if it is None:
            return None
        r = self.flat_array(it, None, st, site)
        return [(r if r is not None else It('flat', it), st)]

    def flat_item(self, s, f, q, st, site):
        """the inner slice produced for outer element q of slice s"""
        e = self.e
        item = Rf(s.a[0], s.a[1] + (('x', add(s.a[2], q)),))
        n0 = len(e.events)
        if f is not None:
            if isinstance(f, V) and f.k != 'Fn':
                return None
            v, s2 = self.call1(f, [item], st.copy(), (site, 'fl'))
            if s2 is None or len(e.events) != n0:
                del e.events[n0:]
                return None
            item = v
        if not (isinstance(item, V) and item.k == 'It'):
            item = self.into(item, st, site) if isinstance(item, V) else None
        if isinstance(item, V) and item.k == 'It' and item.a[0] == 'sl' and item.a[2] is ZERO:
            return item.a[1]
        return None

    def flat_array(self, it, f, st, site):
        """flattening of a slice of arrays of one constant length: a two-dimensional array iterator"""
        if not (isinstance(it, V) and it.k == 'It' and it.a[0] == 'sl' and it.a[2] is ZERO):
            return None
        q = sym('flatq', 'i', 0, LENMAX)
        try:
            s = self.flat_item(it.a[1], f, q, st, site)
        except Exception:
            return None
        if s is None or s.a[3].op != "int":
            return None
        return It('fa', it.a[1], f if f is not None else UNIT, s.a[3], ZERO, site)
    it_take_while = adapter('tw', 1)
    it_inspect = adapter('insp', 1)
    it_copied = adapter('copied', 0)
    it_cloned = adapter('copied', 0)
    it_fuse = adapter('fuse', 0)

    def it_by_ref(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(vals[0], st)]

    def it_enumerate(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.as_iter(vals[0], st)
        return [(It('enum', it, ZERO), st)] if it is not None else None

    def it_zip(self, path, vals, argtys, dty, st, site, fn, gargs):
        a = self.as_iter(vals[0], st)
        st = st.copy()
        b = self.into(vals[1], st, (site, 'z'))
        if a is None or b is None:
            if a is None:
                a = self.into(vals[0], st, (site, 'z0'))
            if a is None or b is None:
                return None
        return [(It('zip', a, b), st)]

    def it_chain(self, path, vals, argtys, dty, st, site, fn, gargs):
        a = self.as_iter(vals[0], st)
        st = st.copy()
        b = self.into(vals[1], st, (site, 'c'))
        return [(It('chain', a, b), st)] if a is not None and b is not None else None

    def it_rev(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.as_iter(vals[0], st)
        if it is None:
            return None
        if it.k == 'It' and it.a[0] == 'sl' and it.a[2] is ZERO:
            return [(It('rsl', it.a[1], ZERO), st)]
        if it.k == 'It' and it.a[0] == 'rsl' and it.a[2] is ZERO:
            return [(It('sl', it.a[1], ZERO), st)]
        if it.k == 'St' and self.e.is_adt(it.a[0], 'Range'):
            return [(It('rr', *it.a[1]), st)]
        return [(It('revx', it), st)]

    def it_skip(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.as_iter(vals[0], st)
        n = vals[1]
        if it is not None and it.k == 'It' and it.a[0] == 'sl' and it.a[2] is ZERO and isinstance(n, T):
            s = it.a[1]
            m = st.facts.simp(tmin(n, s.a[3]))
            return [(It('sl', Sl(s.a[0], s.a[1], add(s.a[2], m), sub(s.a[3], m)), ZERO), st)]
        if it is not None and it.k == 'St' and self.e.is_adt(it.a[0], 'Range'):
            a, b = it.a[1]
            return [(St(it.a[0], (add(a, n), b)), st)]
        return None

    def it_take(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.as_iter(vals[0], st)
        n = vals[1]
        if it is not None and it.k == 'It' and it.a[0] == 'sl' and it.a[2] is ZERO and isinstance(n, T):
            s = it.a[1]
            return [(It('sl', Sl(s.a[0], s.a[1], s.a[2], st.facts.simp(tmin(n, s.a[3]))), ZERO), st)]
        if it is not None and isinstance(n, T):
            return [(It('takek', it, n), st)]
        return None

    def it_len(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = vals[0]
        if isinstance(it, V) and it.k == 'Rf':
            it = self.e.rd(st.get(it.a[0]), it.a[1], st)
        if isinstance(it, V) and it.k == 'It' and it.a[0] == 'sl':
            return [(sub(it.a[1].a[3], it.a[2]), st)]
        if isinstance(it, V) and it.k == 'It' and it.a[0] == 'dq':
            return [(sub(it.a[2], it.a[3]), st)]
        if isinstance(it, V) and it.k == 'It' and it.a[0] == 'ck':
            return [(sub(div(it.a[1].a[3], it.a[2]), it.a[3]), st)]
        if isinstance(it, V) and it.k == 'St' and self.e.is_adt(it.a[0], 'Range'):
            return [(sub(it.a[1][1], it.a[1][0]), st)]
        return None

    # ------------------------------------------------------------ push-style driving
    def drive(self, it, st, site, consume):
        """run consume(state, item) -> [(ctrl, state)] for every item; ctrl 'cont' or 'brk'.
        returns [(ctrl, state)] with ctrl 'end' or 'brk', or None if the iterator is not understood"""
        e = self.e
        if isinstance(it, V) and it.k == 'Op':
            it = e.expand(it)
        if isinstance(it, V) and it.k == 'Rf':
            inner = e.rd(st.get(it.a[0]), it.a[1], st)
            it = It('by', it)
        if isinstance(it, V) and it.k == 'It':
            k = it.a[0]
            if k == 'by':
                loc = e.deref(it.a[1], st)
                inner = e.readloc(loc, st)
                return self.drive_loc(loc, inner, st, site, consume)
            if k in ('map', 'insp', 'fmap', 'filter', 'tw', 'flatmap'):
                f = it.a[2]
                rf = self.tmp(site, k)
                st = st.copy()
                st.mem[rf] = f
                fr = Rf(rf)
                if isinstance(f, V) and f.k == 'Fn':
                    fr = f

                def cons(s, item, k=k):
                    if k == 'map':
                        v, s2 = self.call1(fr, [item], s, (site, k))
                        return consume(s2, v) if s2 is not None else []
                    if k == 'fmap':
                        v, s2 = self.call1(fr, [item], s, (site, k))
                        return self.on_opt(v, s2, consume) if s2 is not None else []
                    if k == 'flatmap':
                        v, s2 = self.call1(fr, [item], s, (site, k))
                        if s2 is None:
                            return []
                        s2 = s2.copy()
                        i2 = self.into(v, s2, (site, 'fi'))
                        return self.nest(i2, s2, (site, 'fl'), consume)
                    ri = self.tmp(site, k + 'i')
                    s = s.copy()
                    s.mem[ri] = item
                    v, s2 = self.call1(fr, [Rf(ri)], s, (site, k))
                    if s2 is None:
                        return []
                    if k == 'insp':
                        return consume(s2, item)
                    if not (isinstance(v, T) and v.sort == 'b'):
                        v = batom(unk('b', 'pred'))
                    a, b = s2.branch(v), s2.branch(bnot(v))
                    out = consume(a, item) if a is not None else []
                    if b is not None:
                        out = out + [('cont' if k == 'filter' else 'stop', b)]
                    return out
                return self.drive(it.a[1], st, (site, 'd' + k), cons)
            if k == 'flat':
                def cons2(s, item):
                    s = s.copy()
                    i2 = self.into(item, s, (site, 'fi'))
                    return self.nest(i2, s, (site, 'fl'), consume)
                return self.drive(it.a[1], st, (site, 'dflat'), cons2)
            if k == 'fuse':
                return self.drive(it.a[1], st, site, consume)
            if k == 'chain':
                r = self.drive(it.a[1], st, (site, 'c1'), consume)
                if r is None:
                    return None
                ends = [s for c, s in r if c == 'end']
                out = [(c, s) for c, s in r if c != 'end']
                s = e.merge_states(ends)
                if s is not None:
                    r2 = self.drive(it.a[2], s, (site, 'c2'), consume)
                    if r2 is None:
                        return None
                    out += r2
                return out
            if k in ('enum', 'copied') and self.simple(it, st) is None:
                rc = self.tmp(site, 'cnt')
                st = st.copy()
                st.mem[rc] = it.a[2] if k == 'enum' else ZERO

                def cons3(s, item):
                    if k == 'copied':
                        return consume(s, e.readloc(e.deref(item, s), s))
                    s = s.copy()
                    c = s.mem[rc]
                    s.mem[rc] = add(c, ONE)
                    return consume(s, St(None, (c, item)))
                return self.drive(it.a[1], st, (site, 'd' + k), cons3)
        if self.simple(it, st) is None:
            return None
        r = self.tmp(site, 'it')
        st = st.copy()
        st.mem[r] = it
        out = self.drive_loc(('L', r, ()), it, st, site, consume)
        if out:
            for c, s in out:
                s.mem.pop(r, None)
        return out

    def nest(self, i2, s, site, consume):
        if i2 is None:
            self.e.ev('imprecise', why='inner iterator', st=s)
            return [('cont', s)]
        r = self.drive(i2, s, site, consume)
        if r is None:
            self.e.ev('imprecise', why='inner iterator', st=s)
            return [('cont', s)]
        return [('cont' if c == 'end' else c, x) for c, x in r]

    def on_opt(self, v, s, consume):
        if isinstance(v, V) and v.k == 'Op':
            v = self.e.expand(v)
        if isinstance(v, V) and v.k == 'En':
            c = eq(v.a[1], ONE)
            a, b = s.branch(c), s.branch(bnot(c))
            out = []
            if a is not None:
                p = v.a[2][1]
                out += consume(a, p[0] if p else None)
            if b is not None:
                out.append(('cont', b))
            return out
        self.e.ev('imprecise', why='option', st=s)
        return consume(s, Un('opt')) + [('cont', s)]

    def drive_loc(self, loc, it, st, site, consume):
        e = self.e
        if isinstance(it, V) and it.k == 'Op':
            it = e.expand(it)
        if isinstance(it, V) and it.k == 'Rf':
            loc = e.deref(it, st)
            it = e.readloc(loc, st)
        if self.simple(it, st) is None:
            return None
        key = (e.stack[-1].ctx if e.stack else 0, 'drive', site)

        def body(h):
            cur = e.readloc(loc, h)
            sm = self.simple(cur, h)
            if sm is None:
                e.ev('imprecise', why='iterator lost', st=h)
                return [h], [('end', h)]
            has, item, it2 = sm
            backs, exits = [], []
            f = h.branch(bnot(has))
            if f is not None:
                exits.append(('end', f))
            t = h.branch(has)
            if t is not None:
                e.writeloc(loc, it2, t)
                for c, s in consume(t, item):
                    if s is None:
                        continue
                    if c == 'cont':
                        backs.append(s)
                    elif c == 'stop':
                        exits.append(('end', s))
                    else:
                        exits.append((c, s))
            return backs, exits
        outs = e.fix(key, st, body)
        res = []
        groups = {}
        for c, s in outs:
            groups.setdefault(c, []).append(s)
        for c, ss in groups.items():
            m = e.merge_states(ss)
            if m is not None:
                res.append((c, m))
        return res

    def fold_like(self, it, init, step, st, site, brk=None):
        """generic fold with accumulator region; step(state, acc, item) -> [(acc', ctrl, state)]"""
        e = self.e
        r = self.tmp(site, 'acc')
        st = st.copy()
        st.mem[r] = init

        def consume(s, item):
            acc = s.mem.get(r)
            out = []
            for a2, c, s2 in step(s, acc, item):
                if s2 is None:
                    continue
                s2 = s2.copy()
                s2.mem[r] = a2
                out.append((c, s2))
            return out
        outs = self.drive(it, st, site, consume)
        if outs is None:
            return None
        s = e.merge_states([x for _, x in outs])
        if s is None:
            return []
        v = s.mem.pop(r, None)
        return [(v, s)]

    def get_it(self, v, st):
        """iterator argument by value or by reference"""
        if isinstance(v, V) and v.k == 'Rf':
            return It('by', v)
        return self.as_iter(v, st)

    def it_fold(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.get_it(vals[0], st)
        f = vals[2]
        rf = self.tmp(site, 'foldf')
        st = st.copy()
        st.mem[rf] = f
        fr = Rf(rf) if not (isinstance(f, V) and f.k == 'Fn') else f

        def step(s, acc, item):
            v, s2 = self.call1(fr, [acc, item], s, (site, 'fold'))
            return [(v, 'cont', s2)] if s2 is not None else []
        return self.fold_like(it, vals[1], step, st, site)

    def it_for_each(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.get_it(vals[0], st)
        f = vals[1]
        rf = self.tmp(site, 'fef')
        st = st.copy()
        st.mem[rf] = f
        fr = Rf(rf) if not (isinstance(f, V) and f.k == 'Fn') else f

        def consume(s, item):
            v, s2 = self.call1(fr, [item], s, (site, 'fe'))
            return [('cont', s2)] if s2 is not None else []
        outs = self.drive(it, st, site, consume)
        if outs is None:
            return None
        s = self.e.merge_states([x for _, x in outs])
        return [(UNIT, s)] if s is not None else []

    def it_sum(self, path, vals, argtys, dty, st, site, fn, gargs):
        it = self.get_it(vals[0], st)
        fl = dty is not None and self.e.ty(dty)['k'] == 'float'
        init = fconst(0.0, self.e.fwidth(dty)) if fl else ZERO

        def step(s, acc, item):
            v = item
            if isinstance(v, V) and v.k in ('Rf', 'Op'):
                v = self.e.readloc(self.e.deref(v, s), s)
            if not isinstance(v, T):
                return [(self.e.unknown(dty, 'sum'), 'cont', s)]
            return [(fop('add', acc, v) if fl else add(acc, v), 'cont', s)]
        return self.fold_like(it, init, step, st, site)

    def it_count(self, path, vals, argtys, dty, st, site, fn, gargs):
        return self.fold_like(self.get_it(vals[0], st), ZERO, lambda s, a, i: [(add(a, ONE), 'cont', s)], st, site)

    def bool_search(self, vals, st, site, on, off):
        """any/all: result `on` when the predicate hits"""
        it = self.get_it(vals[0], st)
        f = vals[1]
        rf = self.tmp(site, 'prf')
        st = st.copy()
        st.mem[rf] = f
        fr = Rf(rf) if not (isinstance(f, V) and f.k == 'Fn') else f

        def step(s, acc, item):
            v, s2 = self.call1(fr, [item], s, (site, 'pr'))
            if s2 is None:
                return []
            if not (isinstance(v, T) and v.sort == 'b'):
                v = batom(unk('b', 'pred'))
            hit = v if on else bnot(v)
            a, b = s2.branch(hit), s2.branch(bnot(hit))
            return [(boolc(on), 'brk', a), (boolc(off), 'cont', b)]
        return self.fold_like(it, boolc(off), step, st, site)

    def it_any(self, path, vals, argtys, dty, st, site, fn, gargs):
        return self.bool_search(vals, st, site, True, False)

    def it_all(self, path, vals, argtys, dty, st, site, fn, gargs):
        return self.bool_search(vals, st, site, False, True)

    def pos_like(self, vals, st, site, dty, name):
        """position/rposition/find...: run the predicate for effects, result opaque but deterministic"""
        it = self.get_it(vals[0], st)
        base = it
        if isinstance(it, V) and it.k == 'It' and it.a[0] == 'by':
            base = self.e.readloc(self.e.deref(it.a[1], st), st)
        n = None
        cont = None
        if isinstance(base, V) and base.k == 'It' and base.a[0] == 'sl':
            n = base.a[1].a[3]
            cont = self.content(base.a[1], st)
        f = vals[1]
        pred = 0
        if cont is not None:
            # the condition on one element, for folding
            t0 = mk('call', (name, base, cont, f), 'o')
            x = Rf(self.e.region_d(mk('posel', (t0,), 'o'), cont.a[0]))
            n0 = len(self.e.events)
            v, _ = self.call1(f, [x], st.copy(), (site, 'pred'))
            del self.e.events[n0:]
            if isinstance(v, T) and v.sort == 'b':
                pred = (v, t0)
        t = mk('call', (name, base if base is not None else 0, cont if cont is not None else 0, f, pred), 'o')
        i = mk('pos', (t,), 'i')
        RNG[i] = (0, LENMAX)
        st = st.copy()
        tag = mk('tag', (t,), 'i')
        RNG[tag] = (0, 1)
        if n is not None and n.op != 'ite':
            st.facts.assume_le(add(sub(i, n), ONE))
        return [(En(dty, tag, [(), (i,)]), st)]

    def it_position(self, path, vals, argtys, dty, st, site, fn, gargs):
        return self.pos_like(vals, st, site, dty, 'position')

    def it_rposition(self, path, vals, argtys, dty, st, site, fn, gargs):
        return self.pos_like(vals, st, site, dty, 'rposition')

    def s_partition_point(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        if s is None or s.k != 'Sl':
            return None
        rt = self.tmp(site, 'pp')
        st = st.copy()
        st.mem[rt] = It('sl', s)
        r = self.pos_like([Rf(rt), vals[1]], st, site, None, 'partition_point')
        v, st = r[0]
        return [(v.a[2][1][0], st)]

    def it_last(self, path, vals, argtys, dty, st, site, fn, gargs):
        return None

    def it_collect(self, path, vals, argtys, dty, st, site, fn, gargs):
        """collect into Vec/SmallVec/Box<[T]> or Result/Option thereof"""
        e = self.e
        it = self.get_it(vals[0], st)
        t = e.ty(dty)
        res = None
        cty = dty
        if t['k'] == 'adt' and t['n'].split('::')[-1] in ('Result', 'Option'):
            res = t['n'].split('::')[-1]
            cty = e.fields(dty, 0 if res == 'Result' else 1)[0]
        ct = e.ty(cty)
        if ct['k'] != 'adt' or ct['n'].split('::')[-1] not in ('Vec', 'SmallVec'):
            if not (ct['k'] == 'adt' and ct.get('box')):
                return None
        et = ct['args'][0]
        if ct['n'].endswith('SmallVec'):
            et = e.elem(et)
        if ct.get('box'):
            et = e.elem(et)
        r = region(('h', e.stack[-1].ctx, site, 'collect'), None, None, 'collected')
        st = st.copy()
        st.mem[r] = Ar(et, ZERO, ('n',))
        out = self.tmp(site, 'early')
        st.mem[out] = None

        def push(s, v):
            s = s.copy()
            s.mem[r] = self.push(s.mem[r], v)
            return s

        def consume(s, item):
            if res is None:
                return [('cont', push(s, item))]
            v = item
            if isinstance(v, V) and v.k == 'Op':
                v = e.expand(v)
            if not (isinstance(v, V) and v.k == 'En'):
                e.ev('imprecise', why='collect item', st=s)
                return [('cont', push(s, Un('item')))]
            ok = eq(v.a[1], ZERO if res == 'Result' else ONE)
            a, b = s.branch(ok), s.branch(bnot(ok))
            o = []
            if a is not None:
                p = v.a[2][0 if res == 'Result' else 1]
                o.append(('cont', push(a, p[0] if p else None)))
            if b is not None:
                p = v.a[2][1 if res == 'Result' else 0]
                b.mem[out] = p[0] if p else None
                o.append(('brk', b))
            return o
        if it is None:
            return None
        outs = self.drive(it, st, site, consume)
        if outs is None:
            return None
        rs = []
        for c, s in outs:
            s = s.copy()
            s.mem[r] = e.norm_val(s.mem[r], s.facts)
            err = s.mem.pop(out, None)
            val = Vc(r)
            if ct.get('box'):
                val = Sl(r, (), ZERO, s.mem[r].a[1])
            if c == 'brk':
                if res == 'Result':
                    rs.append((En(dty, ONE, [None, (err,)]), s))
                else:
                    rs.append((En(dty, ZERO, [(), None]), s))
            elif res == 'Result':
                rs.append((En(dty, ZERO, [(val,), None]), s))
            elif res == 'Option':
                rs.append((En(dty, ONE, [(), (val,)]), s))
            else:
                rs.append((val, s))
        return rs

    def push(self, ar, v):
        return Ar(ar.a[0], add(ar.a[1], ONE), ar.a[2], ar.a[3] + (('p', ar.a[1], v),))

    def minmax(self, vals, st, site, dty, name):
        return None

    # ------------------------------------------------------------ slices
    def s_len(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(st.facts.simp(self.slen(vals[0], st)), st)]

    def s_is_empty(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(eq(self.slen(vals[0], st), ZERO), st)]

    def s_iter(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        return [(It('sl', s, ZERO), st)] if s is not None and s.k == 'Sl' else None
    s_iter_mut = s_iter

    def chunks(kind):
        def f(self, path, vals, argtys, dty, st, site, fn, gargs):
            s = self.sl(vals[0], st)
            n = vals[1]
            if s is None or s.k != 'Sl' or not isinstance(n, T):
                return None
            z = st.facts.simp(eq(n, ZERO))
            if z is not FALSE:
                self.e.ev('panic', cond=z, msg='chunk size zero', st=st)
                st = st.copy()
                st.assume(bnot(z))
            return [(It(kind, s, n, ZERO), st)]
        return f
    s_chunks_exact = chunks('ck')
    s_chunks_exact_mut = chunks('ck')
    s_chunks = chunks('chk')
    s_chunks_mut = chunks('chk')
    s_windows = chunks('win')

    def s_fill(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        if s is None or s.k != 'Sl':
            return None
        ar = self.content(s, st)
        if ar is None:
            return None
        st = st.copy()
        self.set_content(s, self.e.arr_fill(ar, s.a[2], add(s.a[2], s.a[3]), None, vals[1], st.facts), st)
        return [(UNIT, st)]

    def s_copy_from_slice(self, path, vals, argtys, dty, st, site, fn, gargs):
        d, s = self.sl(vals[0], st), self.sl(vals[1], st)
        if d is None or s is None or d.k != 'Sl' or s.k != 'Sl':
            return None
        da, sa = self.content(d, st), self.content(s, st)
        if da is None or sa is None:
            return None
        st = st.copy()
        c = st.facts.simp(eq(d.a[3], s.a[3]))
        if c is not TRUE:
            self.e.ev('panic', cond=bnot(c), msg='copy_from_slice lengths', st=st)
            if c is FALSE:
                return []
            st.assume(c)
        if d.a[3].op == 'ite' or s.a[2].op == 'ite':
            pass
        h = mk('hole', ('tmp', 1), 'i')
        RNG.setdefault(h, (0, LENMAX))
        if sa.a[3] or sa.a[2][0] == 'n':
            # overridden source: element-wise value at symbolic index under the segment bounds
            f = st.facts.copy()
            src_i = add(sub(h, d.a[2]), s.a[2])
            f.assume_le(sub(s.a[2], src_i))
            f.assume_le(add(sub(src_i, add(s.a[2], s.a[3])), ONE))
            v = self.e.arr_get(sa, src_i, f)
        else:
            v = self.e.base_get(sa, add(sub(h, d.a[2]), s.a[2]))
        self.set_content(d, self.e.arr_fill(da, d.a[2], add(d.a[2], d.a[3]), h, v, st.facts), st)
        return [(UNIT, st)]
    s_clone_from_slice = s_copy_from_slice

    def s_split_at(self, path, vals, argtys, dty, st, site, fn, gargs):
        s, m = self.sl(vals[0], st), vals[1]
        if s is None or s.k != 'Sl' or not isinstance(m, T):
            return None
        st = self.bound(le(m, s.a[3]), 'split_at', st)
        if st is None:
            return []
        return [(St(dty, (Sl(s.a[0], s.a[1], s.a[2], m), Sl(s.a[0], s.a[1], add(s.a[2], m), sub(s.a[3], m)))), st)]
    s_split_at_mut = s_split_at

    def bound(self, c, msg, st):
        c = st.facts.simp(c)
        if c is not TRUE:
            self.e.ev('panic', cond=bnot(c), msg=msg, st=st)
            if c is FALSE:
                return None
            st = st.copy()
            st.assume(c)
        return st

    def s_index(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        s = self.sl(vals[0], st)
        if s is None or s.k != 'Sl':
            return None
        i = vals[1]
        if isinstance(i, V) and i.k == 'Op':
            i = e.expand(i)
        n = s.a[3]
        if isinstance(i, T):
            st = self.bound(lt(i, n), 'index', st)
            return [(Rf(s.a[0], s.a[1] + (('x', add(s.a[2], i)),)), st)] if st is not None else []
        if isinstance(i, V) and i.k in ('St', 'Fn'):
            name = e.ty(i.a[0])['n'].split('::')[-1] if i.a[0] is not None and e.ty(i.a[0])['k'] == 'adt' else ''
            f = i.a[1] if i.k == 'St' else ()
            if name == 'Range':
                a, b = f
            elif name == 'RangeTo':
                a, b = ZERO, f[0]
            elif name == 'RangeFrom':
                a, b = f[0], n
            elif name == 'RangeFull':
                a, b = ZERO, n
            elif name == 'RangeInclusive':
                a, b = f[0], add(f[1], ONE)
            elif name == 'RangeToInclusive':
                a, b = ZERO, add(f[0], ONE)
            else:
                return None
            st = self.bound(le(a, b), 'slice index order', st)
            if st is None:
                return []
            st = self.bound(le(b, n), 'slice index end', st)
            if st is None:
                return []
            return [(Sl(s.a[0], s.a[1], add(s.a[2], a), st.facts.simp(sub(b, a))), st)]
        return None

    def s_get(self, path, vals, argtys, dty, st, site, fn, gargs):
        s, i = self.sl(vals[0], st), vals[1]
        if s is None or s.k != 'Sl' or not isinstance(i, T):
            return None
        return [(self.opt(dty, lt(i, s.a[3]), Rf(s.a[0], s.a[1] + (('x', add(s.a[2], i)),))), st)]
    s_get_mut = s_get

    def s_first(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        if s is None or s.k != 'Sl':
            return None
        return [(self.opt(dty, lt(ZERO, s.a[3]), Rf(s.a[0], s.a[1] + (('x', s.a[2]),))), st)]

    def s_last(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        if s is None or s.k != 'Sl':
            return None
        return [(self.opt(dty, lt(ZERO, s.a[3]), Rf(s.a[0], s.a[1] + (('x', sub(add(s.a[2], s.a[3]), ONE)),))), st)]

    def s_get_unchecked(self, path, vals, argtys, dty, st, site, fn, gargs):
        s, i = self.sl(vals[0], st), vals[1]
        if s is None or s.k != 'Sl' or not isinstance(i, T):
            self.e.ev('unchecked', idx=None, ln=None, st=st)
            return None
        self.e.ev('unchecked', idx=i, ln=s.a[3], st=st)
        return [(Rf(s.a[0], s.a[1] + (('x', add(s.a[2], i)),)), st)]
    s_get_unchecked_mut = s_get_unchecked

    def s_swap(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        if s is None or s.k != 'Sl' or not all(isinstance(x, T) for x in vals[1:3]):
            return None
        e = self.e
        st = st.copy()
        a, b = [('L', s.a[0], s.a[1] + (('x', add(s.a[2], x)),)) for x in vals[1:3]]
        x, y = e.readloc(a, st), e.readloc(b, st)
        e.writeloc(a, y, st)
        e.writeloc(b, x, st)
        return [(UNIT, st)]

    def s_copy_within(self, path, vals, argtys, dty, st, site, fn, gargs):
        s, d = self.sl(vals[0], st), vals[2]
        r = self.s_index(path, vals[:2], argtys, dty, st, site, fn, gargs)
        if s is None or s.k != 'Sl' or not isinstance(d, T) or not r:
            return r
        (v, st), = r
        if not isinstance(v, V) or v.k != 'Sl' or v.a[3].op != 'int' or v.a[3].args[0] > 64:
            return None
        n = v.a[3].args[0]
        st = self.bound(le(add(d, num(n)), s.a[3]), 'copy_within', st)
        if st is None:
            return []
        e = self.e
        st = st.copy()
        xs = [e.readloc(('L', v.a[0], v.a[1] + (('x', add(v.a[2], num(i))),)), st) for i in range(n)]
        for i, x in enumerate(xs):
            e.writeloc(('L', s.a[0], s.a[1] + (('x', add(s.a[2], add(d, num(i)))),)), x, st)
        return [(UNIT, st)]

    def s_binary_search(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        if s is None or s.k != 'Sl':
            return None
        needle = vals[1]
        if isinstance(needle, V):
            needle = self.e.readloc(self.e.deref(needle, st), st)
        t = mk('call', ('binary_search', s, self.content(s, st) or 0, needle if needle is not None else 0), 'o')
        i = mk('pos', (t,), 'i')
        RNG[i] = (0, LENMAX)
        tag = mk('tag', (t,), 'i')
        RNG[tag] = (0, 1)
        st = st.copy()
        if s.a[3].op != 'ite':
            st.facts.assume_le(sub(i, s.a[3]))
        return [(En(dty, tag, [(i,), (i,)]), st)]
    

    def s_sort_unstable_by(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        s = self.sl(vals[0], st)
        if s is None or s.k != 'Sl':
            return None
        ar = self.content(s, st)
        if ar is None:
            return None
        st = st.copy()
        f = vals[1] if len(vals) > 1 else None
        cmpt = [ZERO]
        if f is not None:
            rf = self.tmp(site, 'sortf')
            st.mem[rf] = f
            fr = Rf(rf)
            a = Rf(e.region_d(mk('sortel', (ar, 1), 'o'), ar.a[0]))
            b = Rf(e.region_d(mk('sortel', (ar, 2), 'o'), ar.a[0]))
            more = batom(mk('sortmore', (ar,), 'b'))

            def body(h):
                t, n = h.branch(more), h.branch(bnot(more))
                backs = []
                if t is not None:
                    t.facts.lits.pop(more.args[0], None)
                    v, t2 = self.call1(fr, [a, b], t, (site, 'cmp'))
                    cmpt[0] = v.a[1] if isinstance(v, V) and v.k == 'En' and not any(z.op == 'ph' for z in v.a[1].free) else mk('cmpunk', (site,), 'i')
                    if t2 is not None:
                        t2.pc = h.pc
                        backs.append(t2)
                x = h.copy()
                return backs, [('end', x)]
            u, e.unroll = e.unroll, 0        # the comparisons a sort makes are not known
            outs = e.fix((e.stack[-1].ctx, 'sort', site), st, body)
            e.unroll = u
            st = e.merge_states([x for _, x in outs])
        self.set_content(s, Ar(ar.a[0], ar.a[1], ('o', mk('sorted', (ar, cmpt[0]), 'o'))), st)
        return [(UNIT, st)]
    s_sort_by = s_sort_unstable_by
    s_sort_unstable = s_sort_unstable_by
    s_sort = s_sort_unstable_by

    def s_as_ptr(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        return [(Rf(s.a[0], s.a[1] + (('x', s.a[2]),)), st)] if s is not None and s.k == 'Sl' else None
    s_as_mut_ptr = s_as_ptr

    def s_as_slice(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        return [(s, st)] if s is not None else None
    s_as_mut_slice = s_as_slice

    def s_map(self, path, vals, argtys, dty, st, site, fn, gargs):
        """[T; N]::map"""
        a = vals[0]
        if isinstance(a, V) and a.k == 'Op':
            a = self.e.expand(a)
        if isinstance(a, V) and a.k == 'Ar' and a.a[1].op == 'int' and a.a[1].args[0] <= 16:
            return self.map_arr(a, vals[1], dty, st, site)
        return None

    def map_arr(self, a, f, dty, st, site):
        e = self.e
        rf = self.tmp(site, 'mapf')
        st = st.copy()
        st.mem[rf] = f
        fr = Rf(rf) if not (isinstance(f, V) and f.k == 'Fn') else f
        out = []
        for i in range(a.a[1].args[0]):
            v, st = self.call1(fr, [e.arr_get(a, num(i), st.facts)], st, (site, 'am'))
            if st is None:
                return []
            out.append(v)
        et = e.elem(dty) if dty is not None else a.a[0]
        return [(e.mkarr(et, out), st)]

    # ------------------------------------------------------------ deref family
    def m_deref(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        if dty is not None:
            p = self.e.pointee(dty)
            if p is not None and self.e.ty(p)['k'] == 'slice' and s is not None:
                return [(s, st)]
            if p is not None and self.e.ty(p)['k'] == 'str':
                return None
        if isinstance(vals[0], V) and vals[0].k == 'Rf':
            x = self.e.rd(st.get(vals[0].a[0]), vals[0].a[1], st)
            if isinstance(x, V) and x.k == 'Op':
                x = self.e.expand(x)
            if isinstance(x, V) and x.k in ('Rf',):
                return [(x, st)]
        return None

    # ------------------------------------------------------------ Vec / SmallVec / Box
    def heap(self, site, tag=''):
        fr = self.e.stack[-1]
        return region(('h', fr.ctx, site, tag), None, None, 'heap@%s' % fr.fn['path'].split('::')[-1])

    def elem_ty(self, dty, argtys=None):
        e = self.e
        t = e.ty(dty)
        if t['k'] == 'adt' and t['args']:
            a = t['args'][0]
            if e.ty(a)['k'] in ('array', 'slice') and not t['n'].endswith('::Vec'):
                return e.elem(a)
            return a
        return None

    def vec_of(self, v, st):
        """region of the Vec behind &mut Vec / Vec"""
        e = self.e
        if isinstance(v, V) and v.k == 'Op':
            v = e.expand(v)
        if isinstance(v, V) and v.k == 'Rf':
            v = e.rd(st.get(v.a[0]), v.a[1], st)
            if isinstance(v, V) and v.k == 'Op':
                v = e.expand(v)
        if isinstance(v, V) and v.k == 'Vc':
            c = st.get(v.a[0])
            if isinstance(c, V) and c.k == 'Ar':
                return v.a[0], c
        return None, None

    def v_from_elem(self, path, vals, argtys, dty, st, site, fn, gargs):
        r = self.heap(site)
        st = st.copy()
        n = vals[1]
        if not isinstance(n, T):
            return None
        self.e.ev('alloc', fallible=False, size=n, st=st)
        st.mem[r] = Ar(self.elem_ty(dty), n, ('u', mk('hole', ('h1',), 'i'), vals[0]) if n is not ZERO else ('n',))
        if isinstance(vals[0], V) and vals[0].free and any(f.op == 'hole' for f in vals[0].free):
            h, v = self.e.canon_hole(vals[0], mk('hole', ('none',), 'i'))
            st.mem[r] = Ar(self.elem_ty(dty), n, ('u', h, v))
        return [(Vc(r), st)]

    def v_new(self, path, vals, argtys, dty, st, site, fn, gargs):
        r = self.heap(site)
        st = st.copy()
        st.mem[r] = Ar(self.elem_ty(dty), ZERO, ('n',))
        if vals and isinstance(vals[0], T):
            self.e.ev('alloc', fallible=False, size=vals[0], st=st)
        return [(Vc(r), st)]
    v_with_capacity = v_new

    def v_try_reserve_exact(self, path, vals, argtys, dty, st, site, fn, gargs):
        n = vals[1]
        self.e.ev('alloc', fallible=True, size=n, st=st)
        ok = batom(mk('allocok', (n if isinstance(n, T) else 0,), 'b'))
        return [(En(dty, ite(ok, ZERO, ONE), [(UNIT,), (self.e.opq('allocerr', (n,), self.e.fields(dty, 1)[0]),)]), st)]
    v_try_reserve = v_try_reserve_exact

    def v_reserve(self, path, vals, argtys, dty, st, site, fn, gargs):
        self.e.ev('alloc', fallible=False, size=vals[1], st=st)
        return [(UNIT, st)]
    v_reserve_exact = v_reserve

    def v_shrink_to_fit(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(UNIT, st)]

    def v_resize(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        if r is None or not isinstance(vals[1], T):
            return None
        st = st.copy()
        n = vals[1]
        self.e.ev('alloc', fallible=False, resize=True, size=n, st=st)
        if c.a[1] is ZERO:
            st.mem[r] = Ar(c.a[0], n, ('u', mk('hole', ('h1',), 'i'), vals[2]))
        else:
            grow = st.facts.simp(lt(c.a[1], n))
            ar = Ar(c.a[0], n, c.a[2], c.a[3])
            if grow is TRUE:
                ar = self.e.arr_fill(ar, c.a[1], n, None, vals[2], st.facts)
            elif grow is not FALSE:
                ar = Ar(c.a[0], n, ('o', unk('o', 'resize')))
            st.mem[r] = ar
        return [(UNIT, st)]

    def v_push(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        if r is None:
            return None
        st = st.copy()
        st.mem[r] = self.push(c, vals[1])
        return [(UNIT, st)]

    def v_clear(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        if r is None:
            return None
        st = st.copy()
        st.mem[r] = Ar(c.a[0], ZERO, ('n',))
        return [(UNIT, st)]

    def v_extend_from_slice(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        s = self.sl(vals[1], st)
        if r is None or s is None or s.k != 'Sl':
            return None
        sa = self.content(s, st)
        st = st.copy()
        h = mk('hole', ('tmp', 1), 'i')
        RNG.setdefault(h, (0, LENMAX))
        n = add(c.a[1], s.a[3])
        if sa is None:
            st.mem[r] = Ar(c.a[0], n, ('o', unk('o', 'extend')))
            return [(UNIT, st)]
        v = self.e.arr_get(sa, add(sub(h, c.a[1]), s.a[2]), None)
        ar = Ar(c.a[0], n, c.a[2], c.a[3])
        hh, v = self.e.canon_hole(v, h)
        st.mem[r] = Ar(c.a[0], n, c.a[2], c.a[3] + (('s', c.a[1], n, hh, v),))
        return [(UNIT, st)]

    def v_extend(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        if r is None:
            return None
        st = st.copy()
        it = self.into(vals[1], st, (site, 'ext'))
        if it is None:
            return None

        def consume(s, item):
            s = s.copy()
            v = item
            if c.a[0] is not None and self.e.ty(c.a[0])['k'] in ('float', 'int') and isinstance(v, V):
                v = self.e.readloc(self.e.deref(v, s), s)
            s.mem[r] = self.push(s.mem[r], v)
            return [('cont', s)]
        outs = self.drive(it, st, site, consume)
        if outs is None:
            return None
        s = self.e.merge_states([x for _, x in outs])
        return [(UNIT, s)] if s is not None else []

    def v_into_boxed_slice(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        if r is None:
            return None
        return [(Sl(r, (), ZERO, c.a[1]), st)]

    def v_from(self, path, vals, argtys, dty, st, site, fn, gargs):
        return None

    def v_len(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        return [(c.a[1], st)] if r is not None else None

    def v_is_empty(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        return [(eq(c.a[1], ZERO), st)] if r is not None else None

    def v_deref(self, path, vals, argtys, dty, st, site, fn, gargs):
        s = self.sl(vals[0], st)
        return [(s, st)] if s is not None else None
    v_deref_mut = v_deref
    v_as_slice = v_deref
    v_as_mut_slice = v_deref

    def v_index(self, *a):
        return self.s_index(*a)
    v_index_mut = v_index

    def v_truncate(self, path, vals, argtys, dty, st, site, fn, gargs):
        r, c = self.vec_of(vals[0], st)
        if r is None or not isinstance(vals[1], T):
            return None
        st = st.copy()
        st.mem[r] = Ar(c.a[0], st.facts.simp(tmin(vals[1], c.a[1])), c.a[2], c.a[3])
        return [(UNIT, st)]

    def b_new(self, path, vals, argtys, dty, st, site, fn, gargs):
        if 'Box' not in path:
            return None
        r = self.heap(site, 'box')
        pt = self.e.pointee(dty) if dty is not None else None
        r.tid = pt
        st = st.copy()
        st.mem[r] = vals[0]
        self.e.ev('box', reg=r, st=st)
        return [(Rf(r), st)]

    def b_new_uninit(self, path, vals, argtys, dty, st, site, fn, gargs):
        r = self.heap(site, 'box')
        pt = self.e.pointee(dty) if dty is not None else None
        t = self.e.ty(pt) if pt is not None else None
        if t and t['k'] == 'adt' and t['n'].endswith('MaybeUninit'):
            pt = t['args'][0]
        r.tid = pt
        st = st.copy()
        st.mem.pop(r, None)
        return [(Rf(r), st)]

    def b_box_assume_init_into_vec_unsafe(self, path, vals, argtys, dty, st, site, fn, gargs):
        v = vals[0]
        if isinstance(v, V) and v.k == 'Rf' and not v.a[1]:
            c = st.get(v.a[0])
            if isinstance(c, V) and c.k == 'Ar':
                return [(Vc(v.a[0]), st)]
        return None

    def b_write(self, path, vals, argtys, dty, st, site, fn, gargs):
        return None

    def b_into_raw(self, path, vals, argtys, dty, st, site, fn, gargs):
        self.e.ev('into_raw', val=vals[0], st=st)
        return [(vals[0], st)]

    b_leak = b_into_raw

    def b_from_raw(self, path, vals, argtys, dty, st, site, fn, gargs):
        v = vals[0]
        if isinstance(v, V) and v.k == 'Op':
            v = self.e.expand(v)
        self.e.ev('from_raw', val=v, st=st)
        return [(v, st)]

    v_box_assume_init_into_vec_unsafe = b_box_assume_init_into_vec_unsafe

    # ------------------------------------------------------------ VecDeque
    def dq(self, v, st):
        e = self.e
        loc = e.deref(v, st)
        q = e.readloc(loc, st)
        if isinstance(q, V) and q.k == 'Op':
            q = e.expand(q)
        if isinstance(q, V) and q.k == 'Dq':
            return loc, q
        return None, None

    def dq_with_capacity(self, path, vals, argtys, dty, st, site, fn, gargs):
        if vals:
            self.e.ev('alloc', fallible=False, size=vals[0], st=st)
        return [(Dq(mk('dq0', (), 'o'), ZERO), st)]
    dq_new = dq_with_capacity

    def dq_len(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        return [(q.a[1], st)] if q is not None else None

    def dq_is_empty(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        return [(eq(q.a[1], ZERO), st)] if q is not None else None

    def dq_push_back(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        if q is None:
            return None
        st = st.copy()
        self.e.ev('dq', opn='push_back', val=vals[1], st=st)
        self.e.writeloc(loc, Dq(mk('dqpush', (q.a[0], vals[1]), 'o'), add(q.a[1], ONE)), st)
        return [(UNIT, st)]

    def dq_push_front(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        if q is None:
            return None
        st = st.copy()
        self.e.ev('dq', opn='push_front', val=vals[1], st=st)
        self.e.writeloc(loc, Dq(mk('dqpushf', (q.a[0], vals[1]), 'o'), add(q.a[1], ONE)), st)
        return [(UNIT, st)]

    def dq_drop(self, t, frm, cnt):
        """content t with cnt elements removed from the front ('f') or back ('b')"""
        if t.op == 'dqdrop' and t.args[1] == frm:
            return mk('dqdrop', (t.args[0], frm, add(t.args[2], cnt)), 'o')
        return mk('dqdrop', (t, frm, cnt), 'o')

    def pop(side):
        def f(self, path, vals, argtys, dty, st, site, fn, gargs):
            loc, q = self.dq(vals[0], st)
            if q is None:
                return None
            st = st.copy()
            e = self.e
            empty = st.facts.simp(eq(q.a[1], ZERO))
            self.e.ev('dq', opn='pop_' + side, st=st)
            t2 = self.dq_drop(q.a[0], side, ONE)
            at = ZERO if side == 'f' else sub(q.a[1], ONE)
            if e.fields(dty, 1)[0] == e.f64:
                item = mk('deref', (dqel(q.a[0], at),), 'f')
            else:
                item = e.opq('dqel', (q.a[0], at), e.fields(dty, 1)[0])
            e.writeloc(loc, Dq(ite(empty, q.a[0], t2), ite(empty, ZERO, sub(q.a[1], ONE))), st)
            return [(self.opt(dty, bnot(empty), item), st)]
        return f
    dq_pop_front = pop('f')
    dq_pop_back = pop('b')

    def dq_clear(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        if q is None:
            return None
        st = st.copy()
        self.e.writeloc(loc, Dq(mk('dq0', (), 'o'), ZERO), st)
        return [(UNIT, st)]

    def dq_shrink_to_fit(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(UNIT, st)]
    dq_reserve = dq_shrink_to_fit
    dq_shrink_to = dq_shrink_to_fit


    def dq_truncate(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        if q is None:
            return None
        st = st.copy()
        n = vals[1]
        c = st.facts.simp(lt(n, q.a[1]))
        self.e.ev('dq', opn='truncate', st=st)
        self.e.writeloc(loc, Dq(ite(c, self.dq_drop(q.a[0], 'b', sub(q.a[1], n)), q.a[0]), ite(c, n, q.a[1])), st)
        return [(UNIT, st)]

    def dq_resize(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        if q is None:
            return None
        st = st.copy()
        n = vals[1]
        c = st.facts.simp(lt(n, q.a[1]))
        c2 = st.facts.simp(lt(q.a[1], n))
        t = ite(c, self.dq_drop(q.a[0], 'b', sub(q.a[1], n)), ite(c2, mk('dqext', (q.a[0], vals[2], sub(n, q.a[1])), 'o'), q.a[0]))
        self.e.ev('dq', opn='resize', st=st)
        self.e.writeloc(loc, Dq(t, n), st)
        return [(UNIT, st)]

    def dq_drain(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        loc, q = self.dq(vals[0], st)
        r = vals[1]
        if isinstance(r, V) and r.k == 'Op':
            r = e.expand(r)
        if q is None or not isinstance(r, V):
            return None
        name = e.ty(r.a[0])['n'].split('::')[-1] if r.k in ('St', 'Fn') and r.a[0] is not None else ''
        n = q.a[1]
        f = r.a[1] if r.k == 'St' else ()
        if name == 'RangeTo':
            a, b = ZERO, f[0]
        elif name == 'Range':
            a, b = f
        elif name == 'RangeFrom':
            a, b = f[0], n
        elif name == 'RangeFull':
            a, b = ZERO, n
        else:
            return None
        st = self.bound(le(b, n), 'drain range', st)
        if st is None:
            return []
        st = st.copy()
        self.e.ev('dq', opn='drain', a=a, b=b, n=n, st=st)
        if a is ZERO:
            t = self.dq_drop(q.a[0], 'f', b)
        elif b is n:
            t = self.dq_drop(q.a[0], 'b', sub(n, a))
        else:
            t = mk('dqcut', (q.a[0], a, b), 'o')
        e.writeloc(loc, Dq(t, sub(n, sub(b, a))), st)
        return [(It('drained', q.a[0], a, b), st)]

    def dq_iter(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        return [(It('dq', q.a[0], q.a[1], ZERO), st)] if q is not None else None

    def dq_as_slices(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        loc, q = self.dq(vals[0], st)
        if q is None:
            return None
        t, n = q.a
        m = mk('dqsplit', (t,), 'i')
        RNG[m] = (0, LENMAX)
        st = st.copy()
        if n.op != 'ite':
            st.facts.assume_le(sub(m, n))
        r = region(('dqc', t), None, Ar(e.f64, n, ('o', mk('dqcont', (t,), 'o'))), 'dq')
        return [(St(dty, (Sl(r, (), ZERO, m), Sl(r, (), m, sub(n, m)))), st)]

    def dq_front(self, path, vals, argtys, dty, st, site, fn, gargs):
        loc, q = self.dq(vals[0], st)
        if q is None:
            return None
        return [(self.opt(dty, lt(ZERO, q.a[1]), Rf(self.e.region_d(dqel(q.a[0], ZERO), self.e.f64))), st)]

    def dq_extend(self, *a):
        return None

    # ------------------------------------------------------------ numbers
    def n_max(self, path, vals, argtys, dty, st, site, fn, gargs):
        if all(isinstance(v, T) and v.sort == 'i' for v in vals):
            return [(st.facts.simp(tmax(*vals)), st)]
        return None

    def n_min(self, path, vals, argtys, dty, st, site, fn, gargs):
        if all(isinstance(v, T) and v.sort == 'i' for v in vals):
            return [(st.facts.simp(tmin(*vals)), st)]
        return None

    def checked(op):
        def f(self, path, vals, argtys, dty, st, site, fn, gargs):
            a, b = vals
            if not (isinstance(a, T) and isinstance(b, T)):
                return None
            e = self.e
            it = e.fields(dty, 1)[0]
            lo, hi = e.int_range(it)
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b) if op == 'mul' else div(a, b)
            if op == 'div':
                ok = bnot(eq(b, ZERO))
            else:
                ok = TRUE
                rl, rh = st.facts.range(r) if r.op != 'ite' else (-INF, INF)
                if rh > hi:
                    ok = band(ok, le(r, num(hi)))
                if rl < lo:
                    ok = band(ok, le(num(lo), r))
            ok = st.facts.simp(ok)
            return [(self.opt(dty, ok, r), st)]
        return f
    n_checked_add = checked('add')
    n_checked_sub = checked('sub')
    n_checked_mul = checked('mul')
    n_checked_div = checked('div')

    def n_saturating_sub(self, path, vals, argtys, dty, st, site, fn, gargs):
        a, b = vals
        if not (isinstance(a, T) and isinstance(b, T)):
            return None
        lo, hi = self.e.int_range(dty)
        if lo < 0:
            return None
        return [(st.facts.simp(ite(lt(a, b), ZERO, sub(a, b))), st)]

    def sat(op):
        def f(self, path, vals, argtys, dty, st, site, fn, gargs):
            a, b = vals
            if not (isinstance(a, T) and isinstance(b, T)):
                return None
            lo, hi = self.e.int_range(dty)
            r = add(a, b) if op == 'add' else mul(a, b)
            self.e.ev('saturate', term=r, st=st)
            return [(st.facts.simp(ite(lt(num(hi), r), num(hi), r)), st)]
        return f
    n_saturating_add = sat('add')
    n_saturating_mul = sat('mul')

    def wrapping(op):
        def f(self, path, vals, argtys, dty, st, site, fn, gargs):
            a, b = vals
            if not (isinstance(a, T) and isinstance(b, T)):
                return None
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            lo, hi = self.e.int_range(dty)
            l, h = st.facts.range(r) if r.op != 'ite' else (lo, hi)
            if l >= lo and h <= hi:
                return [(r, st)]
            return [(trunc(r, *self.e.bits(dty)), st)]
        return f
    n_wrapping_add = wrapping('add')
    n_wrapping_sub = wrapping('sub')
    n_wrapping_mul = wrapping('mul')

    def n_div_ceil(self, path, vals, argtys, dty, st, site, fn, gargs):
        a, b = vals
        if isinstance(a, T) and isinstance(b, T):
            d = div(a, b)
            return [(ite(eq(rem(a, b), ZERO), d, add(d, ONE)), st)]

    def n_next_multiple_of(self, path, vals, argtys, dty, st, site, fn, gargs):
        a, b = vals
        if isinstance(a, T) and isinstance(b, T):
            r = rem(a, b)
            return [(ite(eq(r, ZERO), a, add(a, sub(b, r))), st)]

    def n_is_multiple_of(self, path, vals, argtys, dty, st, site, fn, gargs):
        a, b = vals
        if isinstance(a, T) and isinstance(b, T):
            return [(eq(rem(a, b), ZERO), st)]

    def n_is_power_of_two(self, *a):
        return None

    def n_abs_diff(self, path, vals, argtys, dty, st, site, fn, gargs):
        a, b = vals
        if isinstance(a, T) and isinstance(b, T) and a.sort == 'i':
            return [(ite(lt(a, b), sub(b, a), sub(a, b)), st)]

    def n_pow(self, path, vals, argtys, dty, st, site, fn, gargs):
        a, b = vals
        if isinstance(a, T) and isinstance(b, T) and b.op == 'int' and 0 <= b.args[0] <= 4:
            r = ONE
            for _ in range(b.args[0]):
                r = mul(r, a)
            return [(r, st)]

    def f_any(self, path, vals, argtys, dty, st, site, fn, gargs):
        n = last(path)
        a = [self.e.as_t(v) for v in vals]
        if any(x is None for x in a):
            return None
        if n == 'abs':
            return [(fop('abs', a[0]), st)]
        if n == 'is_nan':
            return [(isnan(a[0]), st)]
        if n in ('to_bits', 'from_bits', 'total_cmp'):
            return None
        t = self.e.ty(dty) if dty is not None else None
        if t and t['k'] == 'float':
            if n in ('max', 'min') and len(a) == 2:
                return [(fmaxmin(n, a[0], a[1]), st)]
            w = self.e.fwidth(dty)

            def g(*xs):
                cs = [fval(x) for x in xs]
                if n in ('powf', 'powi') and None not in cs and w == 64 and cs[0] > 0:
                    try:
                        return fconst(math.pow(*cs))
                    except (OverflowError, ValueError):
                        pass
                return mk('fcall', (n,) + xs, 'f')
            if len(a) == 1:
                return [(lift1(('fcall', n), g, a[0]), st)]
            if len(a) == 2:
                return [(lift2(('fcall', n), g, a[0], a[1]), st)]
            return [(mk('fcall', (n,) + tuple(a), 'f'), st)]
        if t and t['k'] == 'bool':
            return [(batom(mk('fpred', (n,) + tuple(a), 'b')), st)]
        return None

    # ------------------------------------------------------------ dasp
    def d_to_sample(self, path, vals, argtys, dty, st, site, fn, gargs):
        a = self.e.as_t(vals[0])
        if a is None:
            return None
        frm = argtys[0] if argtys and argtys[0] is not None else (fn['locals'][1] if fn and fn.get('locals') else None)
        nf = self.e.tname(frm) if frm is not None else '?'
        nt = self.e.tname(dty)
        if nf == nt:
            return [(a, st)]
        full = {'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63}.get(nf)
        if nt in ('f32', 'f64'):
            # dasp_sample::conv
            w = int(nt[1:])
            if full:
                return [(fop('div', i2f(a, w), fconst(float(1 << full))), st)]
            if nf in ('f32', 'f64'):
                return [(f2f(a, w), st)]
        return [(lift1(('smp', nf, nt), lambda x: mk('smp', (x, nf, nt), 'f' if nt.startswith('f') else 'i'), a), st)]

    def d_from_fn(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        t = e.ty(dty)
        if t['k'] != 'array' or t['len'] > 16:
            return None
        f = vals[0]
        rf = self.tmp(site, 'ff')
        st = st.copy()
        st.mem[rf] = f
        fr = Rf(rf) if not (isinstance(f, V) and f.k == 'Fn') else f
        out = []
        for i in range(t['len']):
            v, st = self.call1(fr, [num(i)], st, (site, 'ff'))
            if st is None:
                return []
            out.append(v)
        return [(e.mkarr(t['t'], out), st)]
    m_from_fn = d_from_fn

    def d_map(self, path, vals, argtys, dty, st, site, fn, gargs):
        a = vals[0]
        if isinstance(a, V) and a.k == 'Op':
            a = self.e.expand(a)
        if isinstance(a, V) and a.k == 'Ar' and a.a[1].op == 'int':
            return self.map_arr(a, vals[1], dty, st, site)
        return None

    def d_from_samples(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        at = e.fields(dty, 1)[0]
        t = e.ty(at)
        if t['k'] != 'array':
            return None
        loc = e.deref(vals[0], st)
        it = e.readloc(loc, st)
        st = st.copy()
        out = []
        ok = TRUE
        for i in range(t['len']):
            s = self.simple(it, st)
            if s is None:
                return None
            ok = band(ok, st.facts.simp(s[0]))
            out.append(s[1])
            it = s[2]
        e.writeloc(loc, it, st)
        return [(self.opt(dty, st.facts.simp(ok), e.mkarr(t['t'], out)), st)]

    # ------------------------------------------------------------ misc
    def m_clone(self, path, vals, argtys, dty, st, site, fn, gargs):
        v = self.e.readloc(self.e.deref(vals[0], st), st)
        if v is None or (isinstance(v, V) and v.k in ('Un',)):
            return None
        return [(v, st)]

    def m_default_arr(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        t = e.ty(dty)
        et = e.ty(t['t'])
        if et['k'] == 'float':
            z = fconst(0.0, e.fwidth(t['t']))
        elif et['k'] == 'int':
            z = ZERO
        else:
            return None
        return [(Ar(t['t'], num(t['len']), ('u', mk('hole', ('h1',), 'i'), z)), st)]

    def m_is_null(self, path, vals, argtys, dty, st, site, fn, gargs):
        n = self.isnull(vals[0])
        return [(n, st)] if n is not None else None

    def m_ptr_as_ref(self, path, vals, argtys, dty, st, site, fn, gargs):
        n = self.isnull(vals[0])
        if n is None:
            return None
        v = vals[0]
        return [(self.opt(dty, bnot(n), v), st)]

    def m_dangling(self, path, vals, argtys, dty, st, site, fn, gargs):
        pt = self.e.ty(dty)['args'][0] if dty is not None and self.e.ty(dty)['k'] == 'adt' and self.e.ty(dty).get('args') else None
        return [(Rf(region(('dangling', pt), None, None, 'dangling')), st)]

    def m_as_ptr(self, path, vals, argtys, dty, st, site, fn, gargs):
        v = vals[0]
        if 'NonNull' in path and isinstance(v, V) and v.k in ('Rf', 'Sl'):
            return [(v, st)]
        return None

    def m_null_mut(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(mkv('Null'), st)]
    m_null = m_null_mut

    def m_from_raw_parts(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        p, n = vals
        if isinstance(p, V) and p.k == 'Op':
            p = e.expand(p)
        null = self.isnull(p)
        e.ev('from_raw_parts', ptr=p, len=n, null=null, st=st)
        if isinstance(p, V) and p.k == 'Rf' and isinstance(n, T):
            if p.a[1] and p.a[1][-1][0] == 'x':
                return [(Sl(p.a[0], p.a[1][:-1], p.a[1][-1][1], n), st)]
            key = p.a[0].key
            if key[0] == 'd':
                et = e.pointee(argtys[0]) if argtys and argtys[0] is not None else key[2]
                r = region(('raw', key[1], et), None, Ar(et, num(LENMAX), ('o', mk('deref', (key[1],), 'o'))), '*' + TM.show(key[1]))
                return [(Sl(r, (), ZERO, n), st)]
        return None
    m_from_raw_parts_mut = m_from_raw_parts


    def m_drop(self, path, vals, argtys, dty, st, site, fn, gargs):
        if path == 'core::mem::drop' or path.startswith('core::mem::drop'):
            e = self.e
            ty = argtys[0] if argtys else None
            e.ev('dropval', val=vals[0], ty=ty, st=st)
            if ty is not None and isinstance(vals[0], V) and self.needs(ty):
                r = self.tmp(site, 'drop')
                r.tid = ty
                st = st.copy()
                st.mem[r] = vals[0]
                st = self.drop_loc(('L', r, ()), ty, st)
                if st is None:
                    return []
            return [(UNIT, st)]
        return None

    def m_forget(self, path, vals, argtys, dty, st, site, fn, gargs):
        self.e.ev('forget', val=vals[0], ty=argtys[0] if argtys else None, st=st)
        return [(UNIT, st)]

    def m_swap(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        st = st.copy()
        a, b = e.deref(vals[0], st), e.deref(vals[1], st)
        x, y = e.readloc(a, st), e.readloc(b, st)
        e.writeloc(a, y, st)
        e.writeloc(b, x, st)
        return [(UNIT, st)]

    def m_replace(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        st = st.copy()
        a = e.deref(vals[0], st)
        x = e.readloc(a, st)
        e.writeloc(a, vals[1], st)
        return [(x, st)]

    def m_read(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(self.e.readloc(self.e.deref(vals[0], st), st), st)]

    def m_write(self, path, vals, argtys, dty, st, site, fn, gargs):
        st = st.copy()
        self.e.writeloc(self.e.deref(vals[0], st), vals[1], st)
        return [(UNIT, st)]

    def m_black_box(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(vals[0], st)]

    def m_contains(self, path, vals, argtys, dty, st, site, fn, gargs):
        e = self.e
        r = e.readloc(e.deref(vals[0], st), st)
        x = e.readloc(e.deref(vals[1], st), st)
        if isinstance(r, V) and r.k == 'Op':
            r = e.expand(r)
        if isinstance(r, V) and r.k == 'St' and isinstance(x, T) and x.sort == 'i':
            n = e.ty(r.a[0])['n'].split('::')[-1]
            f = r.a[1]
            if n == 'RangeInclusive' and isinstance(f[0], T):
                return [(band(le(f[0], x), le(x, f[1])), st)]
            if n == 'Range':
                return [(band(le(f[0], x), lt(x, f[1])), st)]
            if n == 'RangeFrom':
                return [(le(f[0], x), st)]
            if n == 'RangeTo':
                return [(lt(x, f[0]), st)]
            if n == 'RangeToInclusive':
                return [(le(x, f[0]), st)]
        return None

    def x_mm_getcsr(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(st.get(self.mxcsr), st)]

    def x_mm_setcsr(self, path, vals, argtys, dty, st, site, fn, gargs):
        st = st.copy()
        v = self.e.as_t(vals[0])
        st.mem[self.mxcsr] = v if v is not None else unk('i', 'csr')
        self.e.ev('setcsr', val=v, st=st)
        return [(UNIT, st)]

    # ------------------------------------------------------------ intrinsics
    def i_size_of(self, path, vals, argtys, dty, st, site, fn, gargs):
        if gargs and isinstance(gargs[0], int) and self.e.ty(gargs[0]).get('sz'):
            return [(num(self.e.ty(gargs[0])['sz'][0]), st)]

    def i_black_box(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(vals[0], st)]

    def i_assert_inhabited(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(UNIT, st)]

    def i_assume(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(UNIT, st)]

    def i_cold_path(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(UNIT, st)]

    def i_fabsf64(self, path, vals, argtys, dty, st, site, fn, gargs):
        return [(fop('abs', vals[0]), st)]
    i_fabsf32 = i_fabsf64
    i_fabs = i_fabsf64

    def i_three_way_compare(self, path, vals, argtys, dty, st, site, fn, gargs):
        a, b = vals
        if isinstance(a, T) and isinstance(b, T):
            r = ite(lt(a, b), ZERO, ite(eq(a, b), ONE, num(2)))
            return [(En(dty, r, [(), (), ()]), st)]

    # ------------------------------------------------------------ drop
    def needs(self, tid, d=0):
        """does dropping a value of this type run a Drop impl of the crate?"""
        if tid in self.has_drop:
            return self.has_drop[tid]
        self.has_drop[tid] = False
        e = self.e
        t = e.ty(tid)
        r = tid in self.drops
        if not r and d < 12:
            k = t['k']
            subs = []
            if k == 'tuple':
                subs = t['f']
            elif k == 'closure':
                subs = t['up']
            elif k in ('array', 'slice'):
                subs = [t['t']]
            elif k == 'adt':
                if t.get('box') or t['n'].split('::')[-1] in ('Vec', 'VecDeque', 'SmallVec'):
                    subs = [a for a in t['args'] if isinstance(a, int)][:1]
                elif not t['n'].startswith('std::fmt'):
                    for v in t['v']:
                        subs += [f[1] for f in v['f']]
            r = any(self.needs(s, d + 1) for s in subs)
        self.has_drop[tid] = r
        return r

    def drop(self, fr, t, st):
        e = self.e
        ty = t[4]
        if len(t) > 6 and t[6]:
            e.span = t[6]
        if ty is None:
            return st
        if fr.fn.get('local'):
            tt = e.ty(ty)
            if tt['k'] == 'adt' and (tt.get('box') or tt['n'].startswith('ebur128::ebur128::EbuR128') or tt['n'].startswith('ebur128::capi::State')):
                v = e.readloc(e.place(fr, t[1], st), st)
                e.ev('drop', val=v, ty=ty, st=st)
            else:
                e.ev('dropother', ty=ty, st=st)
        if not self.needs(ty):
            return st
        return self.drop_loc(e.place(fr, t[1], st), ty, st)

    def drop_loc(self, loc, ty, st):
        e = self.e
        if ty in self.drops:
            v, s = e.run_fn(self.drops[ty], [e.refof(loc)], st, ('drop', str(loc[1:2])))
            return s
        t = e.ty(ty)
        if t['k'] in ('tuple', 'closure') or (t['k'] == 'adt' and t['a'] == 'struct' and not t.get('box')):
            for i, f in enumerate(e.fields(ty)):
                if self.needs(f):
                    st = self.drop_loc(e.step(loc, ('f', i)), f, st)
                    if st is None:
                        return None
            return st
        if t.get('box'):
            v = e.readloc(loc, st)
            pt = [a for a in t['args'] if isinstance(a, int)][:1]
            if isinstance(v, V) and v.k == 'Op':
                v = e.expand(v)
            if pt and isinstance(v, V) and v.k == 'Rf':
                return self.drop_loc(e.deref(v, st), pt[0], st)
        e.ev('imprecise', why='drop of ' + e.tname(ty), st=st)
        return st
