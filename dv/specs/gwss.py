"""Geographically weighted summary statistics at the public interface."""
from specs.gwr import *
CLIENTS = ['clients/gwss.cpp']
GWSS_SRC = ['src/gwmodelpp/GWSS.cpp', 'src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp']
p_ = var('p')

def wn(sw, i):
    """normalised weights at location i, as a function of the observation"""
    tot = ssum('t#', n, wterm(sw, i, var('t#')))
    return lambda j: wterm(sw, i, j) * recip(tot)
def s_mean(x, sw):
    return bycell(n, x.nc, lambda i, j: ssum('t#', n, wn(sw, i)(var('t#')) * x.get(var('t#'), j)))
def s_mom(x, sw, e):
    mu = s_mean(x, sw)
    return bycell(n, x.nc, lambda i, j: ssum('t#', n, wn(sw, i)(var('t#')) * power(x.get(var('t#'), j) - mu.get(i, j), e)))
def s_cov(x, sw, i, j, q):
    w = wn(sw, i)
    t = var('t#')
    mj = ssum('u#', n, w(var('u#')) * x.get(var('u#'), j))
    mq = ssum('u#', n, w(var('u#')) * x.get(var('u#'), q))
    s = ssum('t#', n, w(t) * (x.get(t, j) - mj) * (x.get(t, q) - mq))
    return s * recip(1 - ssum('u#', n, power(w(var('u#')), 2)))

def s_quant(x, sw, j, k):
    """weighted quantile at location i: the last observation (in ascending order) whose cumulated weight does not exceed
    k, the smallest one if there is none"""
    col = Mat(n, ONE, x.get(VR, j))
    xs, ix = sortv(col), sort_index(col)
    def at(i):
        w = wn(sw, i)
        over = lambda t: lt(k, ssum('c#', t + 1, w(ix.get(var('c#'), 0))))
        none = forall('t#', n, ONE - over(var('t#')))
        f = app('first', T.lam(['t#'], over(var('t#'))), n, sort='I')
        return xs.get(ite(none, n - 1, ite(lt(0, f), f - 1, ZERO)), 0)
    return at
def s_rank(x):
    return bycell(n, x.nc, lambda t, j: 1 + app('below', T.lam(['v#'], x.get(var('v#'), j)), n, t, sort='I'))   # 1 + number of smaller values

def setup_base(c, nv_=None):
    ex = c.ex
    nc = nv_ if nv_ is not None else p_
    ex.fact(lt(0, n)); ex.fact(lt(0, TH))
    if nv_ is None:
        ex.fact(lt(0, p_))
    c.x, c.co, sw = symmat('x', n, nc), symmat('coords', n, 2), sw_obj('sw', n)
    crs(c, sw)
    c.sw0 = sw
    c.sw = prepared(sw, c.co, c.co)
    # kernel weights are never negative
def setup_avg(c):
    setup_base(c)
    c.argvals.update({0: c.x, 1: c.co, 2: c.sw0, 3: num(c.var.get('q', 0)), 4: par(c), 5: TH})
    c.o = 6
def setup_reuse(c):
    setup_base(c)
    n0, p0 = var('n0'), var('p0')
    c.ex.fact(lt(0, n0)); c.ex.fact(lt(0, p0))
    sw0 = sw_obj('sw0', n0)
    crs(c, sw0)
    c.argvals.update({0: symmat('x0', n0, p0), 1: symmat('coords0', n0, 2), 2: sw0, 3: c.x, 4: c.co, 5: c.sw0, 6: par(c), 7: TH})
    c.o = 8
def ens_avg(c, E):
    x, sw = c.x, c.sw
    mean, v, s3 = s_mean(x, sw), s_mom(x, sw, 2), s_mom(x, sw, 3)
    E.mat('local mean', E.arg(c.o), mean)
    E.mat('local variance', E.arg(c.o + 1), v)
    E.mat('local standard deviation', E.arg(c.o + 2), emap(T.sqrt, v))
    E.mat('local skewness', E.arg(c.o + 3), bycell(n, x.nc, lambda i, j: s3.get(i, j) / (v.get(i, j) * T.sqrt(v.get(i, j)))))
    E.mat('local coefficient of variation', E.arg(c.o + 4), bycell(n, x.nc, lambda i, j: T.sqrt(v.get(i, j)) / mean.get(i, j)))
    if c.var.get('q'):
        Q = [bycell(n, x.nc, lambda i, j, k=k: s_quant(x, sw, j, num(F(k, 4)))(i)) for k in (1, 2, 3)]
        med, iqr, qi = E.arg(c.o + 5), E.arg(c.o + 6), E.arg(c.o + 7)
        E.mat('local median', med, Q[1])
        E.mat('local interquartile range', iqr, bycell(n, x.nc, lambda i, j: Q[2].get(i, j) - Q[0].get(i, j)))
        E.mat('local quantile imbalance', qi, bycell(n, x.nc, lambda i, j: (2 * Q[1].get(i, j) - Q[2].get(i, j) - Q[0].get(i, j)) / iqr.get(i, j)))   # iqr: the returned one, proved above
QV = [dict(v, q=q) for v in PV for q in (0, 1)]
AVG = [Contract('', 'gwssAverage', setup_avg, ens_avg, variants=QV, samp=SAMPLERS),
       Contract('', 'gwssReuse', setup_reuse, ens_avg, variants=PV, samp=SAMPLERS)]

def setup_corr(c):
    setup_base(c, num(c.var['p']) if c.var.get('p') else None)
    if not c.var.get('p'):
        c.ex.fact(le(2, p_))
    c.argvals.update({0: c.x, 1: c.co, 2: c.sw0, 3: num(c.var['first']), 4: par(c), 5: TH})
    c.o = 6
def ens_corr(c, E):
    x, sw = c.x, c.sw
    E.mat('local mean', E.arg(c.o), s_mean(x, sw))
    E.mat('local variance', E.arg(c.o + 1), s_mom(x, sw, 2))
    i, q = var('i#'), var('q#')
    cov, corr, scorr = E.arg(c.o + 2), E.arg(c.o + 3), E.arg(c.o + 4)
    def pair(j, q, pos, facts):
        cv = s_cov(x, sw, i, j, q)
        E.eq('local covariance of each pair', cov.get(i, pos), cv, facts)
        E.eq('local rank correlation of each pair', scorr.get(i, pos), s_cov(rk, sw, i, j, q) * recip(T.sqrt(s_cov(rk, sw, i, j, j) * s_cov(rk, sw, i, q, q))), facts)
        E.eq('local correlation of each pair', corr.get(i, pos), cv * recip(T.sqrt(s_cov(x, sw, i, j, j) * s_cov(x, sw, i, q, q))), facts)
    rng = [le(0, i), lt(i, n)]
    rk = s_rank(x)
    if c.var.get('p'):
        P_ = c.var['p']
        pos = 0
        for j in range(1 if c.var['first'] else P_ - 1):
            for q_ in range(j + 1, P_):
                pair(num(j), num(q_), num(pos), rng)
                pos += 1
        E.eq('number of pairs', cov.nc, num(pos))
    else:
        pair(ZERO, q, q - 1, rng + [le(1, q), lt(q, p_)])
        E.eq('number of pairs', cov.nc, p_ - 1)
    E.eq('rows', cov.nr, n)
CORR = [Contract('', 'gwssCorrelation', setup_corr, ens_corr, variants=[dict(v, **w) for v in PV for w in ({'first': 1}, {'first': 0, 'p': 2}, {'first': 0, 'p': 3}, {'first': 0, 'p': 4})], samp=SAMPLERS)]
