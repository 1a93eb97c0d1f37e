"""Abstract values: trees over terms.  Every value is interned, so identity is structural equality."""
from terms import *
import terms as TM

_vt = {}


class V:
    __slots__ = ('k', 'a', 'free', 'unk', 'id')

    def __repr__(self):
        return vshow(self)

    def subst(self, mp, go, memo):
        r = memo.get(self)
        if r is None:
            r = vmap(self, go)
            memo[self] = r
        return r


_vid = [0]


def mkv(k, *a):
    key = (k, a)
    v = _vt.get(key)
    if v is None:
        v = V()
        v.k, v.a = k, a
        acc = set()
        v.unk = collect_free(a, acc) or k == 'Un'
        v.free = frozenset(acc) if acc else E0
        _vid[0] += 1
        v.id = _vid[0]
        _vt[key] = v
    return v


class Region:
    __slots__ = ('key', 'tid', 'init', 'free', 'unk', 'id', 'name')

    def __repr__(self):
        return self.name

    def subst(self, mp, go, memo):
        # regions parameterised by terms (targets of opaque references)
        if self.key[0] == 'd':
            return REGION_D(go(self.key[1]), self.key[2])
        return self


_rt = {}
REGION_D_HOOK = [None]


def region(key, tid=None, init=None, name=None):
    r = _rt.get(key)
    if r is None:
        r = Region()
        r.key, r.tid, r.init = key, tid, init
        acc = set()
        r.unk = collect_free(key, acc)
        r.free = frozenset(acc) if acc else E0
        r.id = len(_rt)
        r.name = name or 'R%d' % r.id
        _rt[key] = r
    return r


def REGION_D(t, tid):
    return REGION_D_HOOK[0](t, tid)


def vmap(v, go):
    return mkv(v.k, *[go(x) for x in v.a])


# constructors ------------------------------------------------------------
def St(tid, fields):
    return mkv('St', tid, tuple(fields))


def En(tid, tag, pays):
    return mkv('En', tid, tag, tuple(pays))


def Op(t, tid):
    return mkv('Op', t, tid)


def Ar(eid, ln, base, ovs=()):
    return mkv('Ar', eid, ln, base, tuple(ovs))


def Rf(reg, path=()):
    return mkv('Rf', reg, tuple(path))


def Sl(reg, path, start, ln):
    return mkv('Sl', reg, tuple(path), start, ln)


def It(kind, *f):
    return mkv('It', kind, *f)


def Vc(reg):
    return mkv('Vc', reg)


def Dq(t, ln):
    return mkv('Dq', t, ln)


def Ch(c, a, b):
    return mkv('Ch', c, a, b)


def Un(why=''):
    TM._unk[0] += 1
    return mkv('Un', TM._unk[0], why)


def Fn(tid):
    return mkv('Fn', tid)


def Str(s):
    return mkv('Str', s)


UNIT = mkv('St', None, ())


def vshow(v, d=0):
    if isinstance(v, T):
        return TM.show(v)
    if v is None:
        return '-'
    if isinstance(v, tuple):
        return '(' + ', '.join(vshow(x, d + 1) for x in v) + ')'
    if not isinstance(v, V):
        return str(v)
    if d > 8:
        return '…'
    k, a = v.k, v.a
    if k == 'St':
        return '{' + ', '.join(vshow(x, d + 1) for x in a[1]) + '}'
    if k == 'En':
        return 'En<%s>[%s]' % (vshow(a[1]), ' | '.join(vshow(p, d + 1) for p in a[2]))
    if k == 'Op':
        return '<%s>' % vshow(a[0])
    if k == 'Ar':
        return 'Ar(len=%s, %s%s)' % (vshow(a[1]), vshow(a[2], d + 1), ''.join(' ' + vshow(o, d + 1) for o in a[3]))
    if k == 'Rf':
        return '&%r%s' % (a[0], ''.join('.' + vshow(p) for p in a[1]))
    if k == 'Sl':
        return '&%r%s[%s;+%s]' % (a[0], ''.join('.' + vshow(p) for p in a[1]), vshow(a[2]), vshow(a[3]))
    return '%s(%s)' % (k, ', '.join(vshow(x, d + 1) for x in a))
