"""Local collinearity GWR (locally compensated ridge) at its public interface."""
from specs.gwr import *
import specs.common as CM
CLIENTS = ['clients/lcr.cpp']
LC_SRC = ['src/gwmodelpp/GWRLocalCollinearity.cpp', 'src/gwmodelpp/GWRBase.cpp', 'src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp']
LAM, THR = var('lambda', 'R'), var('threshold', 'R')
def sd(col, m_):
    """sample standard deviation of col(j), j < m"""
    mean = ssum('s#', m_, col(var('s#'))) * recip(m_)
    return T.sqrt(ssum('t#', m_, power(col(var('t#')) - mean, 2)) * recip(m_ - 1))
def s_lambda(c, w):
    """the ridge parameter of one local system: lambda, or the one that brings its condition number down to the threshold"""
    x = c.x
    xw = lambda i, j: x.get(i, j) * w.get(i, 0)
    nrm = lambda j: T.sqrt(ssum('t#', n, power(xw(var('t#'), j), 2)))
    M = Mat(n, k, xw(VR, VC) * recip(nrm(VC)))
    s = lambda j: app('svd_s', mlam(M), n, k, j)
    if not c.var['adjust']:
        return LAM
    return ite(lt(THR, s(ZERO) * recip(s(k - 1))), (s(ZERO) - THR * s(k - 1)) * recip(THR - 1), LAM)
def s_ridge(c, w):
    """the ridge estimate of one weighted system, as the contract of ridgelm names it"""
    return ridge(c.x, c.y, w, s_lambda(c, w))
def ridge(x, y, w, lm):
    return Mat(k, ONE, app('ridge', *CM.argid(x), *CM.argid(y), lam([R_], w.body), lm, VR))
def h_ridge(ex, st, this, a, node):
    o = ex.read(st, this)
    fld = lambda q: o.f[q] if q in o.f else ex.default_field(o, q)
    return ridge(fld('mX'), fld('mY'), a[0].val(), ex.scalar(a[1].val()))
def s_ridgelm(x, y, w, lm):
    rw = T.sqrt(w.body)
    xsd = lambda j: ite(eq(j, 0), ONE, sd(lambda i: x.get(i, j), n))
    ysd = sd(lambda i: y.get(i, 0) * subst(rw, {R_: i}), n)
    xs = Mat(n, k, x.body * rw * recip(xsd(VC)))
    ys = Mat(n, ONE, y.body * rw * recip(ysd))
    g = matmul(transpose(xs), xs)
    A = Mat(k, k, g.body + lm * eq(VR, VC))
    b = matmul(matmul(inv(A), transpose(xs)), ys)
    return Mat(k, ONE, b.body * ysd * recip(xsd(VR)))
def setup_lc(c):
    ex = c.ex
    c.x, c.y, c.co, sw = data(c)
    ex.fact(lt(1, k)); ex.fact(le(k, n))
    crs(c, sw)
    c.sw = prepared(sw, c.co, c.co)
    a = [c.x, c.y, c.co, sw, LAM, num(c.var['adjust']), THR, par(c), TH]
    c.argvals.update(dict(enumerate(a)))
    c.o = len(a)
    if c.name == 'lcRefit':
        n0 = var('n0')
        ex.fact(lt(0, n0)); ex.fact(le(k, n0))
        x0, y0, co0, sw0 = data(c, ('x0', 'y0', 'coords0', 'sw0'), n0)
        crs(c, sw0)
        c.argvals.update({12: x0, 13: y0, 14: co0, 15: sw0})
    if c.name == 'lcCriterion':
        bw = Obj('BandwidthWeight', {'mBandwidth': var('bw', 'R'), 'mAdaptive': bapp('bw.adaptive'), 'mKernel': var('bw.kernel')}, 'bw')
        c.sw = with_bw(sw, bw)
        c.argvals[9] = bw
    if c.name == 'lcPredict':
        ex.fact(lt(0, m))
        c.loc = symmat('locations', m, 2)
        c.sw = prepared(sw, c.loc, c.co)
        c.argvals[9] = c.loc
def ens_lc(c, E):
    x, y, sw = c.x, c.y, c.sw
    b = byrow(n, k, lambda i: s_ridge(c, wvec(sw, i)))
    E.mat('returned coefficients', E.arg(c.o), b)
    E.mat('stored coefficients', E.arg(c.o + 1), b)
def ens_lcdiag(c, E):
    x, y, sw = c.x, c.y, c.sw
    b = E.arg(c.o)
    h = lambda i, j: wterm(sw, i, i) * s_row(x, sw, i).get(0, j)
    t0 = ssum('t#', n, h(var('t#'), var('t#')))
    t1 = ssum('t#', n, ssum('u#', n, power(h(var('t#'), var('u#')), 2)))
    d = E.arg(c.o + 2)
    rss = s_rss(x, y, b)
    enp = 2 * t0 - t1
    edf = n - enp
    s2 = rss * recip(edf)
    E.eq('diagnostic RSS', d.f['RSS'], rss)
    E.eq('diagnostic ENP', d.f['ENP'], enp)
    E.eq('diagnostic EDF', d.f['EDF'], edf)
    E.eq('diagnostic AIC', d.f['AIC'], n * (logp(2 * PI * s2) + 1) + 2 * (enp + 1))
    E.eq('diagnostic AICc', d.f['AICc'], n * logp(2 * PI * s2) + n * (1 + enp * recip(n)) * recip(1 - (enp + 2) * recip(n)))
    r2 = 1 - rss * recip(s_yss(y))
    E.eq('diagnostic R2', d.f['RSquare'], r2)
    E.eq('diagnostic adjusted R2', d.f['RSquareAdjust'], 1 - (1 - r2) * (n - 1) * recip(edf))
def ens_lccrit(c, E):
    def loo(i):
        w = wvec(c.sw, i)
        return s_ridge(c, Mat(n, ONE, w.body * ne(VR, i)))
    E.eq('leave-one-out cross-validation score', c.result, finite_or_worst(s_rss(c.x, c.y, byrow(n, k, loo))))
def ens_lcpred(c, E):
    E.mat('coefficients at the locations', c.result, byrow(m, k, lambda i: s_ridge(c, wvec(c.sw, i))))
LV2 = [{'par': p, 'adjust': a} for p in (SERIAL, OMP) for a in (0, 1)]
RHOOKS = {('GWRLocalCollinearity', 'ridgelm'): h_ridge}
def setup_ridge(c):
    c.x, c.y = data(c)[:2]
    c.ex.fact(lt(1, k)); c.ex.fact(le(k, n))
    c.w = symmat('w', n, 1)
    c.F.update({'mX': c.x, 'mY': c.y})
    c.argvals.update({0: c.w, 1: LAM})
def ens_ridge(c, E):
    E.mat('ridge estimate of the standardised weighted system, scaled back', c.result, s_ridgelm(c.x, c.y, c.w, LAM))
    for f in ('mX', 'mY', 'mSpatialWeight'):
        E.ok('frame: %s not modified' % f) if E.unchanged(f) else E.fail('frame: %s not modified' % f, 'assigned')
RIDGE = [Contract('GWRLocalCollinearity', 'ridgelm', setup_ridge, ens_ridge, samp=dict(SAMPLERS, w=lambda u, ins, *a: 0.1 + u))]
LCR = [Contract('', 'lcFit', setup_lc, ens_lc, variants=LV2, samp=SAMPLERS, hooks=RHOOKS),
       Contract('', 'lcRefit', setup_lc, ens_lc, variants=LV2[1:3], samp=SAMPLERS, hooks=RHOOKS),
       Contract('', 'lcPredict', setup_lc, ens_lcpred, variants=LV2, samp=SAMPLERS, hooks=RHOOKS)]
LCRD = [Contract('', 'lcFit', setup_lc, ens_lcdiag, variants=LV2, samp=SAMPLERS, hooks=RHOOKS, tag='diagnostic'),
        Contract('', 'lcRefit', setup_lc, ens_lcdiag, variants=LV2[1:3], samp=SAMPLERS, hooks=RHOOKS, tag='diagnostic')]
LCRC = [Contract('', 'lcCriterion', setup_lc, ens_lccrit, variants=LV2, samp=SAMPLERS, hooks=RHOOKS)]
