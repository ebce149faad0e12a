from specs.common import *

a_, b_ = var('a#'), var('b#')

def setup_core(c):
    ex = c.ex
    v = c.var
    ex.fact(lt(0, n)); ex.fact(lt(0, k))
    ex.fact(lt(0, var('mOmpThreadNum')))
    c.F['mX'] = symmat('X', n, k)
    c.F['mY'] = symmat('Y', n, 1)
    c.F['mCoords'] = symmat('mCoords', n, 2)
    if v.get('range') == 'part':
        ex.fact(le(0, a_)); ex.fact(le(a_, b_)); ex.fact(le(b_, n))
        c.F['mWorkRange'] = some_range(a_, b_)
        c.lo, c.hi = a_, b_
    else:
        c.F['mWorkRange'] = none_range()
        c.lo, c.hi = ZERO, n
    if 'store' in v:
        c.F['mStoreS'] = num(v['store']); c.F['mStoreC'] = num(v['store']); c.F['mHasHatMatrix'] = num(v['store'])
    c.x, c.y = symmat('x', n, k), symmat('y', n, 1)
    c.argvals[0], c.argvals[1] = c.x, c.y
    c.F['mSpatialWeight'] = sw_obj()
    c.sw = sw_obj() if c.name.startswith(('fitCoreSerial', 'fitCoreOmp', 'predict')) else sw_obj('sw')
    c.argvals[2] = c.sw

def inrange(c, i):
    return le(c.lo, i) * lt(i, c.hi)

def betas_of(c):
    return byrow(n, k, lambda i: Mat(k, ONE, inrange(c, i) * wls(c.x, c.y, wvec(c.sw, i)).body))
def srow(x, sw, i):
    """row i of the hat matrix as Mat 1 x n"""
    return matmul(Mat(ONE, x.nc, subst(x.body, {R_: i})), wls_c(x, wvec(sw, i)))
def trS(c):
    t = var('t#') + c.lo
    return ssum('t#', c.hi - c.lo, srow(c.x, c.sw, t).get(0, t))
def trStS(c):
    t = var('t#') + c.lo
    return ssum('t#', c.hi - c.lo, ssum('u#', n, power(srow(c.x, c.sw, t).get(0, var('u#')), 2)))
def qdiag(c):
    return bycell(n, ONE, lambda j, _: ssum('t#', c.hi - c.lo, power(eq(j, var('t#') + c.lo) - srow(c.x, c.sw, var('t#') + c.lo).get(0, j), 2)))
def sebase(c):
    return byrow(n, k, lambda i: Mat(k, ONE, inrange(c, i) * ssum('t#', n, power(wls_c(c.x, wvec(c.sw, i)).get(VR, var('t#')), 2))))

def ens_core(c, E):
    E.mat('local coefficients', c.result, betas_of(c))
    E.eq('trace of S', E.field('mSHat').lin(ZERO), trS(c))
    E.eq("trace of S'S", E.field('mSHat').lin(ONE), trStS(c))
    E.mat('coefficient variance factors', E.field('mBetasSE'), sebase(c))
    E.mat("diagonal of (I-S)'(I-S)", E.field('mQDiag'), qdiag(c))
    if c.var.get('store'):
        E.mat('stored hat matrix', E.field('mS'), bycell(c.hi - c.lo, n, lambda i, j: srow(c.x, c.sw, i + c.lo).get(0, j)))
    for f in ('mX', 'mY', 'mCoords', 'mSpatialWeight'):
        if E.unchanged(f):
            E.ok('frame: %s not modified' % f)
        else:
            E.fail('frame: %s not modified' % f, 'assigned')
def ens_cv(c, E):
    def f(i):
        w = wvec(c.sw, i)
        w = Mat(n, ONE, w.body * ne(VR, i))
        return Mat(k, ONE, inrange(c, i) * wls(c.x, c.y, w).body)
    E.mat('leave-one-out coefficients', c.result, byrow(n, k, f))
def ens_shat(c, E):
    E.mat('local coefficients', c.result, betas_of(c))
    E.eq('trace of S', E.arg(3).lin(ZERO), trS(c))
    E.eq("trace of S'S", E.arg(3).lin(ONE), trStS(c))

R2 = [{'range': 'all'}, {'range': 'part'}]
CORE = []
for sfx in ('Serial', 'Omp'):
    CORE.append(Contract('GWRBasic', 'fitCore' + sfx, setup_core, ens_core, samp=SAMPLERS,
                         variants=[{'range': 'all', 'store': 1}, {'range': 'part', 'store': 1}, {'range': 'all', 'store': 0}]))
    CORE.append(Contract('GWRBasic', 'fitCoreCV' + sfx, setup_core, ens_cv, samp=SAMPLERS, variants=R2))
    CORE.append(Contract('GWRBasic', 'fitCoreSHat' + sfx, setup_core, ens_shat, samp=SAMPLERS, variants=R2))
