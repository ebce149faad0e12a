"""Geographically weighted principal components at the public interface."""
from specs.gwr import *
CLIENTS = ['clients/gwpca.cpp']
GWPCA_SRC = ['src/gwmodelpp/GWPCA.cpp', 'src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp']
p_, keep = var('p'), var('keep')

def centred(x, sw, i):
    """observations centred at the weighted mean of location i and scaled by the square root of the weights"""
    tot = ssum('t#', n, wterm(sw, i, var('t#')))
    mean = lambda j: ssum('u#', n, x.get(var('u#'), j) * wterm(sw, i, var('u#'))) * recip(tot)
    return Mat(n, p_, (x.get(VR, VC) - mean(VC)) * T.sqrt(wterm(sw, i, VR)))
def setup(c):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(lt(0, p_)); ex.fact(le(p_, n)); ex.fact(lt(0, keep)); ex.fact(le(keep, p_))
    c.x, c.co, sw = symmat('x', n, p_), symmat('coords', n, 2), sw_obj('sw', n)
    crs(c, sw)
    c.sw = prepared(sw, c.co, c.co)
    a = {0: c.x, 1: c.co, 2: sw, 3: keep}
    c.o = 4
    if c.name == 'gwpcaReuse':
        n0, p0, k0 = var('n0'), var('p0'), var('keep0')
        for f in (lt(0, n0), lt(0, p0), le(p0, n0), lt(0, k0), le(k0, p0)):
            ex.fact(f)
        sw0 = sw_obj('sw0', n0)
        crs(c, sw0)
        a = {**{0: symmat('x0', n0, p0), 1: symmat('coords0', n0, 2), 2: sw0, 3: k0}, **{k + 4: v for k, v in a.items()}}
        c.o = 8
    c.argvals.update(a)
def ens(c, E):
    x, sw = c.x, c.sw
    i, j, q = var('i#'), var('j#'), var('q#')
    M = lambda i: mlam(centred(x, sw, i))
    sv = lambda i, j: app('svd_s', M(i), n, p_, j)
    V = lambda i, a, b: app('svd_V', M(i), n, p_, a, b)
    tot = lambda i: ssum('t#', n, wterm(sw, i, var('t#')))
    lv = lambda i, j: power(sv(i, j), 2) * recip(power(T.sqrt(tot(i)), 2))
    E.mat('local standard deviation of every component', E.arg(c.o + 2), bycell(n, p_, lambda i, j: T.sqrt(lv(i, j))))
    E.mat('local percentage of variance of the kept components', E.arg(c.o), bycell(n, keep, lambda i, j: 100 * lv(i, j) / ssum('v#', p_, lv(i, var('v#')))))
    L = E.arg(c.o + 1)
    E.eq('loadings: locations', L.nr, n); E.eq('loadings: variables', L.nc, p_); E.eq('loadings: components', L.ns, keep)
    E.eq('loadings', L.get(i, j, q), V(i, j, q), [le(0, i), lt(i, n), le(0, j), lt(j, p_), le(0, q), lt(q, keep)])
PCA = [Contract('', f, setup, ens, samp=SAMPLERS) for f in ('gwpcaRun', 'gwpcaReuse')]
