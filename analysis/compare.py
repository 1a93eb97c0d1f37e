"""Leaf-by-leaf comparison of two abstract objects, through boxes, slices, enums and arrays."""
from ctx import *
from ctx import differ


class Leaf:
    """path: field names; cond: diagram under which the two objects differ there; None: cannot be compared"""
    __slots__ = ('path', 'cond', 'x', 'y', 'adts', 'idx', 'field')

    def __init__(self, path, cond, x, y, adts, idx):
        self.path, self.cond, self.x, self.y, self.idx = path, cond, x, y, idx
        self.adts = [a[0].split('::')[-1] for a in adts]      # nominal types on the way
        self.field = adts[-1] if adts else None               # innermost (type, variant, field)

    @property
    def name(self):
        return '.'.join(str(p) for p in self.path) or 'self'


def walk(c, v1, st1, v2, st2, cond, tid=None, path=(), adts=(), idx=(), out=None, d=0):
    E = c.E
    if out is None:
        out = []

    def leaf(k, x=None, y=None):
        if k is None and c.infeasible(cond, st1.facts):
            k = FALSE
        out.append(Leaf(path, k, x, y, adts, idx))
        return out
    if cond is FALSE:
        return out
    if d > 60:
        return leaf(None)
    if v1 is None and v2 is None:
        return out
    if v1 is None or v2 is None:
        return leaf(None, v1, v2)
    if isinstance(v1, T) and isinstance(v2, T):
        a, b = st1.facts.simp(v1), st2.facts.simp(v2)
        if a is b:
            return leaf(FALSE, a, b)
        return leaf(differ(cond, a, b), a, b)
    if isinstance(v1, T) or isinstance(v2, T):
        # transparent wrapper around a scalar
        x, y = v1, v2
        while isinstance(x, V) and E.expand(x).k == 'St' and len(E.expand(x).a[1]) == 1:
            x = E.expand(x).a[1][0]
        while isinstance(y, V) and E.expand(y).k == 'St' and len(E.expand(y).a[1]) == 1:
            y = E.expand(y).a[1][0]
        if isinstance(x, T) and isinstance(y, T):
            return walk(c, x, st1, y, st2, cond, tid, path, adts, idx, out, d + 1)
        return leaf(None, v1, v2)
    if v1.k == 'Ch':
        k = st1.facts.simp(v1.a[0])
        walk(c, v1.a[1], st1, v2, st2, band(cond, k), tid, path, adts, idx, out, d + 1)
        return walk(c, v1.a[2], st1, v2, st2, band(cond, bnot(k)), tid, path, adts, idx, out, d + 1)
    if v2.k == 'Ch':
        k = st2.facts.simp(v2.a[0])
        walk(c, v1, st1, v2.a[1], st2, band(cond, k), tid, path, adts, idx, out, d + 1)
        return walk(c, v1, st1, v2.a[2], st2, band(cond, bnot(k)), tid, path, adts, idx, out, d + 1)
    if v1 is v2 and v1.k in ('Op', 'Fn', 'Str', 'Null'):
        return leaf(FALSE, v1, v2)
    v1, v2 = E.expand(v1), E.expand(v2)
    k1, k2 = v1.k, v2.k
    if k1 == 'Vc':
        v1, k1 = Rf(v1.a[0]), 'Rf'
    if k2 == 'Vc':
        v2, k2 = Rf(v2.a[0]), 'Rf'
    if k1 != k2:
        if {k1, k2} == {'Rf', 'Sl'}:
            # a boxed array against a slice of it
            def asl(v, st):
                if v.k == 'Sl':
                    return v
                ln = E.loclen(E.deref(v, st), st)
                return Sl(v.a[0], v.a[1], ZERO, ln) if ln is not None else None
            a, b = asl(v1, st1), asl(v2, st2)
            if a is not None and b is not None:
                return walk(c, a, st1, b, st2, cond, tid, path, adts, idx, out, d + 1)
        return leaf(None, v1, v2)
    if k1 == 'St':
        f1, f2 = v1.a[1], v2.a[1]
        if len(f1) != len(f2):
            return leaf(None, v1, v2)
        t = v1.a[0]
        names = None
        nm = None
        if t is not None and E.ty(t)['k'] == 'adt':
            nm = E.ty(t)['n']
            names = [x[0] for x in E.ty(t)['v'][0]['f']]
        ft = E.fields(t) if t is not None else None
        for i, (a, b) in enumerate(zip(f1, f2)):
            walk(c, a, st1, b, st2, cond, ft[i] if ft else None, path + ((names[i] if names and i < len(names) else i),), adts + ((nm, 0, i),) if nm else adts, idx, out, d + 1)
        return out
    if k1 == 'En':
        t1, t2 = st1.facts.simp(v1.a[1]), st2.facts.simp(v2.a[1])
        nm = None
        vs = None
        if v1.a[0] is not None and E.ty(v1.a[0])['k'] == 'adt':
            nm = E.ty(v1.a[0])['n']
            vs = E.ty(v1.a[0])['v']
        out.append(Leaf(path + ('tag',), differ(cond, t1, t2) if t1 is not t2 else FALSE, t1, t2, adts, idx))
        for i, (p, q) in enumerate(zip(v1.a[2], v2.a[2])):
            k = band(cond, band(eq(t1, num(i)), eq(t2, num(i))))
            if k is FALSE or (p is None and q is None):
                continue
            if p is None or q is None:
                out.append(Leaf(path + (i,), None, p, q, adts, idx))
                continue
            for j, (a, b) in enumerate(zip(p, q)):
                walk(c, a, st1, b, st2, k, None, path + ((vs[i]['n'] if vs else i), j), adts + ((nm, i, j),) if nm else adts, idx, out, d + 1)
        return out
    if k1 == 'Rf':
        if v1 is v2 and st1 is st2:
            return leaf(FALSE, v1, v2)
        a, b = E.readloc(E.deref(v1, st1), st1), E.readloc(E.deref(v2, st2), st2)
        return walk(c, a, st1, b, st2, cond, None, path, adts, idx, out, d + 1)
    if k1 in ('Sl', 'Ar'):
        if k1 == 'Sl':
            l1, l2 = v1.a[3], v2.a[3]
        else:
            l1, l2 = v1.a[1], v2.a[1]
        l1, l2 = st1.facts.simp(l1), st2.facts.simp(l2)
        lc = FALSE if l1 is l2 else differ(cond, l1, l2)
        out.append(Leaf(path + ('len',), lc, l1, l2, adts, idx))
        i = sym('i%d' % len(idx), 'i', 0, 1 << 40)
        if l1.op == 'int' and l1.args[0] == 0 or l2.op == 'int' and l2.args[0] == 0:
            return out
        if l1.op == 'int' and 0 < l1.args[0] <= 8:
            ixs = [num(j) for j in range(l1.args[0])]
            k = cond
        else:
            ixs = [i]
            k = band(cond, band(lt(i, l1), lt(i, l2)))
        for ix in ixs:
            if k1 == 'Sl':
                a = E.readloc(E.step(E.deref(v1, st1), ('x', ix)), st1)
                b = E.readloc(E.step(E.deref(v2, st2), ('x', ix)), st2)
            else:
                a, b = E.arr_get(v1, ix, st1.facts), E.arr_get(v2, ix, st2.facts)
            walk(c, a, st1, b, st2, k, None, path + (('[%s]' % show(ix)),), adts, idx + (ix,), out, d + 1)
        return out
    if k1 == 'Dq':
        if v1 is v2:
            return leaf(FALSE, v1, v2)
        lc = differ(cond, v1.a[1], v2.a[1]) if v1.a[1] is not v2.a[1] else FALSE
        out.append(Leaf(path + ('len',), lc, v1.a[1], v2.a[1], adts, idx))
        if v1.a[0] is not v2.a[0]:
            # the same sequence when both are empty
            z = band(cond, bnot(band(eq(v1.a[1], ZERO), eq(v2.a[1], ZERO))))
            z = st1.facts.simp(z)
            if z is not FALSE and sameseq(c, v1.a[0], v2.a[0], z, st1.facts):
                z = FALSE
            out.append(Leaf(path + ('elements',), FALSE if z is FALSE else None if not (seqdiff(v1.a[0], v2.a[0])) else z, v1.a[0], v2.a[0], adts, idx))
        return out
    if v1 is v2:
        return leaf(FALSE, v1, v2)
    return leaf(None, v1, v2)


def sameseq(c, a, b, cond, facts, depth=0):
    """the terms a and b are the same wherever cond holds"""
    if a is b or cond is FALSE:
        return True
    if depth > 60 or not isinstance(a, T) or not isinstance(b, T):
        return False
    if a.op != 'ite':
        if b.op != 'ite':
            return c.infeasible(cond, facts)
        return sameseq(c, b, a, cond, facts, depth + 1)
    k = batom(a.args[0]) if a.args[0].sort != 'b' or a.args[0].op not in ('ite', 'bool') else a.args[0]
    for x, z in ((a.args[1], band(cond, k)), (a.args[2], band(cond, bnot(k)))):
        z = facts.simp(z)
        if x is not b and not sameseq(c, x, b, z, facts, depth + 1):
            return False
    return True


def seqdiff(a, b):
    """terms of different queue contents (opaque sequences) that differ for certain: never claimed"""
    return False


def objdiff(c, ref1, st1, ref2, st2, cond=TRUE):
    """leaves of *ref1 in st1 against *ref2 in st2"""
    E = c.E
    return walk(c, E.readloc(E.deref(ref1, st1), st1), st1, E.readloc(E.deref(ref2, st2), st2), st2, cond)
