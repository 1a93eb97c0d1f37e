"""Cut points: calls that are summarised as uninterpreted updates of their &mut arguments."""
from terms import *
from values import *


def callkey(e, fn, vals, st):
    """what the result of the call may depend on"""
    key = []
    for v in vals:
        key.append(v)
        x = v
        n = 0
        while isinstance(x, V) and x.k in ('Rf', 'Sl', 'Vc') and n < 3:
            n += 1
            x = e.rd(st.get(x.a[0]), x.a[1] if x.k != 'Vc' else (), st)
            key.append(x)
    return tuple(key)


def summarise(e, fn, vals, st, dty, name, weak=False):
    """effect: every &mut argument's target becomes an uninterpreted function of the inputs"""
    key = callkey(e, fn, vals, st)
    st = st.copy()
    for i, v in enumerate(vals):
        t = fn['locals'][i + 1]
        ty = e.ty(t)
        if ty['k'] in ('ref', 'ptr') and ty.get('m'):
            e.cut_target(v, mk('cut', (name, i, key), 'o'), st)
    if dty is None or e.ty(dty)['k'] == 'tuple' and not e.ty(dty).get('f'):
        r = UNIT
    else:
        r = e.opq('cut', (name, 'ret', key), dty)
    return [(r, st)]


def tp_cut(e, fn, vals, st, dty, site):
    """true peak measurement of some samples: methods on the interpolator state with further arguments"""
    if not fn.get('local') or fn['nargs'] < 2 or not fn.get('blocks'):
        return None
    p = e.pointee(fn['locals'][1])
    t = e.ty(fn['locals'][1])
    if p is None or e.ty(p)['k'] != 'adt' or not t.get('m'):
        return None
    if e.ty(p)['n'].split('::')[-1] not in ('TruePeak', 'UpsamplingScanner'):
        return None
    e.ev('cut', fnname=fn['path'], vals=vals, st=st)
    return summarise(e, fn, vals, st, dty, fn['path'])
