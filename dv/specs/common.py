"""Shared vocabulary of the contracts."""
from spec import *
import spec

n, k = var('n'), var('k')

# ------------------------------------------------------------ assumed / separately proved contracts
def h_nop(ex, st, this, a, node):
    return VOID
def h_false(ex, st, this, a, node):
    return ZERO

TELEGRAM = {('ITelegram', 'stop'): h_false, ('ITelegram', 'print'): h_nop, ('ITelegram', 'progress'): h_nop, ('Logger', 'stop'): h_false}

def sw_obj(name='mSpatialWeight', nd=None, bw=None):
    """spatial weight = (identity of the prepared distance, number of data points, kernel bandwidth object)"""
    w = bw or Obj('BandwidthWeight', {'mBandwidth': var(name + '.bw', 'R'), 'mAdaptive': bapp(name + '.adaptive'), 'mKernel': var(name + '.kernel')}, name + '.w')
    return Obj('SpatialWeight', {'d': Obj('Distance', {'did': app(name + '.did', sort='O'), 'nd': nd if nd is not None else n, 'type': var(name + '.dtype')}, name + '.d'), 'w': w}, name)

def wterm(sw, i, j):
    w = sw.f['w']
    return app('wv', sw.f['d'].f['did'], w.f['mBandwidth'], w.f['mAdaptive'], w.f['mKernel'], i, j)
def wvec(sw, i):
    if isinstance(sw, (list, tuple)):
        """several weightings at once: their product"""
        body = ONE
        for s in sw:
            body = body * wterm(s, i, VR)
        return Mat(sw[0].f['d'].f['nd'], ONE, body)
    return Mat(sw.f['d'].f['nd'], ONE, wterm(sw, i, VR))

def h_weightVector(ex, st, this, a, node):
    sw = ex.read(st, this)
    return wvec(sw, ex.scalar(a[0].val()))
def h_weight(ex, st, this, a, node):
    return Ptr(this + ('f', 'w'))
def h_distance(ex, st, this, a, node):
    return Ptr(this + ('f', 'd'))
def _val(ex, st, v):
    while isinstance(v, Ptr):
        v = ex.read(st, v.lv)
    return v
def h_swcopy(ex, st, this, a, node):
    return ex.read(st, a[0].lv()) if a[0].lv() is not None else a[0].val()
def h_swassign(ex, st, this, a, node):
    ex.write(st, this, _val(ex, st, a if not isinstance(a, list) else a[0].val()))
    return ex.read(st, this)
def h_swctor(ex, st, this, a, node):
    """SpatialWeight(weight, distance): clones both"""
    if not a:
        return sw_obj('sw%d' % next(ex.symid))
    return Obj('SpatialWeight', {'w': _val(ex, st, a[0].val()), 'd': _val(ex, st, a[1].val())}, 'sw%d' % next(ex.symid))
def h_setWeight(ex, st, this, a, node):
    ex.write(st, this + ('f', 'w'), _val(ex, st, a[0].val()))
    return VOID
def h_setDistance(ex, st, this, a, node):
    ex.write(st, this + ('f', 'd'), _val(ex, st, a[0].val()))
    return VOID
def h_ddistance(ex, st, this, a, node):
    d = ex.read(st, this)
    return Mat(d.f['nd'], ONE, app('dv', d.f['did'], ex.scalar(a[0].val()), VR))
def h_wweight(ex, st, this, a, node):
    """kernel weights of a distance vector; of one of the spatial weight's own distance vectors: the same symbol as weightVector"""
    w = ex.read(st, this)
    d = a[0].val()
    at = d.body.atom()
    if at is not None and at.op == 'app' and at.args[0] == 'dv' and at.args[1][2] == VR and at.args[1][1].fv.isdisjoint({R_, C_}):
        return Mat(d.nr, ONE, app('wv', at.args[1][0], w.f['mBandwidth'], w.f['mAdaptive'], w.f['mKernel'], at.args[1][1], VR))
    return Mat(d.nr, ONE, app('kw', lam([R_], d.body), d.nr, w.f['mBandwidth'], w.f['mAdaptive'], w.f['mKernel'], VR))
def h_dtype(ex, st, this, a, node):
    return ex.read(st, this).f['type']
def h_maxdist(ex, st, this, a, node):
    return app('maxDistance', ex.read(st, this).f['did'])
def h_mindist(ex, st, this, a, node):
    return app('minDistance', ex.read(st, this).f['did'])
def argid(v):
    if isinstance(v, Mat):
        return (lam([R_, C_], v.body), v.nr, v.nc)
    if isinstance(v, P):
        return (v,)
    if isinstance(v, (LSeq,)):
        return tuple(x for e in v.els for x in argid(e))
    raise Unsupported('distance parameter %s' % type(v).__name__)
def h_makeParameter(ex, st, this, a, node):
    d = ex.read(st, this)
    v = a[0].val()
    base = d.f.get('base', d.f['did'])
    els = v.els if isinstance(v, LSeq) else None
    if els is None:
        raise Unsupported('makeParameter argument')
    nd = els[1].nr if len(els) > 1 and isinstance(els[1], Mat) else d.f['nd']
    ex.write(st, this, Obj(d.cls, dict(d.f, base=base, did=app('prepared', base, *argid(v), sort='O'), nd=nd), d.sym))
    return VOID

SWHOOKS = {('SpatialWeight', 'weightVector'): h_weightVector, ('SpatialWeight', 'weight'): h_weight, ('SpatialWeight', 'distance'): h_distance,
           ('SpatialWeight', 'copy'): h_swcopy, ('SpatialWeight', 'assign'): h_swassign, ('SpatialWeight', 'ctor'): h_swctor,
           ('SpatialWeight', 'setWeight'): h_setWeight, ('SpatialWeight', 'setDistance'): h_setDistance,
           ('Distance', 'distance'): h_ddistance, ('BandwidthWeight', 'weight'): h_wweight,
           ('Distance', 'type'): h_dtype, ('Distance', 'makeParameter'): h_makeParameter, ('Distance', 'maxDistance'): h_maxdist, ('Distance', 'minDistance'): h_mindist}
BASEHOOKS = dict(TELEGRAM)
BASEHOOKS.update(SWHOOKS)
ASSUMED = {'ITelegram::stop': 'cancellation not requested during the call (cancellation has its own property)',
           'ITelegram::print/progress/error': 'logging has no effect on results',
           'SpatialWeight::weightVector': 'value is a function of (prepared distance, bandwidth, adaptive, kernel, focus index); its own contract is a separate property'}

SAMPLERS = {'wv': lambda u, ins, *a: 0.15 + 0.85 * u,
            'n': lambda u, ins: 4 + int(u * 2), 'k': lambda u, ins: 2 + int(u * 1.5),
            'pi': lambda u, ins: 3.141592653589793, 'DBL_MAX': lambda u, ins: 1e300,
            'mOmpThreadNum': lambda u, ins: 1 + int(u * 3)}

# ------------------------------------------------------------ specification functions
def wls_c(x, w):
    """C_i = (X' W_i X)^-1 X' W_i"""
    xtw = transpose(ebin(lambda p, q: p * q, x, Mat(x.nr, x.nc, w.body)))
    return matmul(inv(matmul(xtw, x)), xtw)
def wls(x, y, w):
    return matmul(wls_c(x, w), y)

def byrow(nr, nc, f):
    """matrix whose row i is the column vector f(i)"""
    q = fresh('q')
    return Mat(nr, nc, subst(f(var(q)).body, {R_: VC, q: VR}))
def bycell(nr, nc, f):
    q, r = fresh('q'), fresh('r')
    return Mat(nr, nc, subst(f(var(q), var(r)), {q: VR, r: VC}))
def sumover(m, f):
    q = fresh('q')
    return ssum(q, m, f(var(q)))
def none_range():
    return Obj('optional', {'has': ZERO, 'val': Obj('pair', {'first': ZERO, 'second': ZERO})})
def some_range(a, b):
    return Obj('optional', {'has': ONE, 'val': Obj('pair', {'first': a, 'second': b})})
def const(tu_or_ex, enum, name):
    ex = tu_or_ex
    return num(ex.enum_names()[enum][name])
