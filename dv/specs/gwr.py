"""Basic GWR at its public interface."""
from specs.common import *
CLIENTS = ['clients/gwr.cpp']
GWR_SRC = ['src/gwmodelpp/GWRBasic.cpp', 'src/gwmodelpp/GWRBase.cpp', 'src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp']
TH = var('threads')
SERIAL, OMP = 1, 2
l_ = var('l')

def prepared(sw, *mats):
    """the spatial weight after its distance was prepared with the given points"""
    d = sw.f['d']
    base = d.f.get('base', d.f['did'])
    nd = mats[1].nr if len(mats) > 1 else d.f['nd']
    from specs.common import argid
    ids = tuple(x for mm in mats for x in argid(mm))
    return Obj('SpatialWeight', dict(sw.f, d=Obj(d.cls, dict(d.f, base=base, did=app('prepared', base, *ids, sort='O'), nd=nd), d.sym)), sw.sym)

def data(c, names=('x', 'y', 'coords', 'sw'), size=None):
    ex = c.ex
    nn = size or n
    ex.fact(lt(0, n)); ex.fact(lt(0, k)); ex.fact(lt(0, TH))
    return symmat(names[0], nn, k), symmat(names[1], nn, 1), symmat(names[2], nn, 2), sw_obj(names[3], nn)
def par(c):
    return num(c.var['par'])
def crs(c, sw):
    """planar, geographic or Minkowski distance"""
    t = sw.f['d'].f['type']
    c.ex.fact(bor(eq(t, 0), eq(t, 1)))

# ---------------- specification
def s_row(x, sw, i):
    return matmul(Mat(ONE, x.nc, subst(x.body, {R_: i})), wls_c(x, wvec(sw, i)))
def s_betas(x, y, sw):
    return byrow(x.nr, x.nc, lambda i: wls(x, y, wvec(sw, i)))
def s_trS(x, sw):
    return ssum('t#', x.nr, s_row(x, sw, var('t#')).get(0, var('t#')))
def s_trStS(x, sw):
    return ssum('t#', x.nr, ssum('u#', x.nr, power(s_row(x, sw, var('t#')).get(0, var('u#')), 2)))
def s_q(x, sw):
    return bycell(x.nr, ONE, lambda j, _: ssum('t#', x.nr, power(eq(j, var('t#')) - s_row(x, sw, var('t#')).get(0, j), 2)))
def s_hat(x, sw):
    return bycell(x.nr, x.nr, lambda i, j: s_row(x, sw, i).get(0, j))
def s_fitted(x, betas):
    return bycell(x.nr, ONE, lambda i, _: ssum('v#', x.nc, x.get(i, var('v#')) * betas.get(i, var('v#'))))
def s_rss(x, y, betas):
    f = s_fitted(x, betas)
    return ssum('t#', x.nr, power(y.get(var('t#'), 0) - f.get(var('t#'), 0), 2))
def s_yss(y):
    mean = ssum('t#', y.nr, y.get(var('t#'), 0)) * recip(y.nr)
    return ssum('t#', y.nr, power(y.get(var('t#'), 0) - mean, 2))
def s_se(x, y, sw, betas):
    s2 = s_rss(x, y, betas) * recip(x.nr - 2 * s_trS(x, sw) + s_trStS(x, sw))
    return byrow(x.nr, x.nc, lambda i: Mat(x.nc, ONE, T.sqrt(s2 * ssum('t#', x.nr, power(wls_c(x, wvec(sw, i)).get(VR, var('t#')), 2)))))
def s_aicc(nn, rss, trs):
    return nn * logp(rss * recip(nn)) + nn * logp(2 * PI) + nn * (nn + trs) * recip(nn - 2 - trs)
def s_aic(nn, rss, trs):
    return nn * logp(rss * recip(nn)) + nn * logp(2 * PI) + nn + trs

def ens_diag(E, d, nn, rss, yss, trs, trss):
    E.eq('diagnostic RSS', d.f['RSS'], rss)
    E.eq('diagnostic AIC', d.f['AIC'], s_aic(nn, rss, trs))
    E.eq('diagnostic AICc', d.f['AICc'], s_aicc(nn, rss, trs))
    E.eq('diagnostic ENP', d.f['ENP'], 2 * trs - trss)
    edf = nn - 2 * trs + trss
    E.eq('diagnostic EDF', d.f['EDF'], edf)
    r2 = 1 - rss * recip(yss)
    E.eq('diagnostic R2', d.f['RSquare'], r2)
    E.eq('diagnostic adjusted R2', d.f['RSquareAdjust'], 1 - (1 - r2) * (nn - 1) * recip(edf - 1))

def setup_fit(c):
    c.x, c.y, c.co, sw = data(c)
    crs(c, sw)
    c.sw = prepared(sw, c.co, c.co)
    c.ex.fact(le(8192, n) if c.var['big'] else lt(n, 8192))
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: sw, 4: num(c.var.get('hat', 1)), 5: par(c), 6: TH})
    c.o = 7
def setup_refit(c):
    c.x, c.y, c.co, sw = data(c)
    crs(c, sw)
    c.sw = prepared(sw, c.co, c.co)
    n0 = var('n0')
    c.ex.fact(lt(0, n0))
    x0, y0, co0, sw0 = data(c, ('x0', 'y0', 'coords0', 'sw0'), n0)
    crs(c, sw0)
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: sw, 4: x0, 5: y0, 6: co0, 7: sw0, 8: par(c), 9: TH})
    c.o = 10
def ens_fit(c, E):
    b = s_betas(c.x, c.y, c.sw)
    E.mat('returned coefficients', E.arg(c.o), b)
    E.mat('stored coefficients', E.arg(c.o + 1), b)
    E.mat('coefficient standard errors', E.arg(c.o + 2), s_se(c.x, c.y, c.sw, b))
    E.eq('trace of S', E.arg(c.o + 3).lin(ZERO), s_trS(c.x, c.sw))
    E.eq("trace of S'S", E.arg(c.o + 3).lin(ONE), s_trStS(c.x, c.sw))
    E.mat("diagonal of (I-S)'(I-S)", E.arg(c.o + 4), s_q(c.x, c.sw))
    if c.name == 'gwrFit' and c.var['hat'] and not c.var['big']:
        E.mat('hat matrix', E.arg(c.o + 5), s_hat(c.x, c.sw))
def ens_fitdiag(c, E):
    b = s_betas(c.x, c.y, c.sw)
    ens_diag(E, E.arg(c.o + (6 if c.name == 'gwrFit' else 5)), n, s_rss(c.x, c.y, b), s_yss(c.y), s_trS(c.x, c.sw), s_trStS(c.x, c.sw))
FV = [{'par': p, 'hat': h, 'big': b} for p in (SERIAL, OMP) for h, b in ((1, 0), (0, 0), (1, 1))]
PV = [{'par': p} for p in (SERIAL, OMP)]
FIT = [Contract('', 'gwrFit', setup_fit, ens_fit, variants=FV, samp=SAMPLERS),
       Contract('', 'gwrRefit', setup_refit, ens_fit, variants=PV, samp=SAMPLERS)]
DIAG = [Contract('', 'gwrFit', setup_fit, ens_fitdiag, variants=FV[:4:3], samp=SAMPLERS)]

# ---------------- prediction
m = var('m')
def setup_pred(c):
    c.x, c.y, c.co, sw = data(c)
    c.ex.fact(lt(0, m))
    crs(c, sw)
    loc = symmat('locations', m, 2)
    c.sw = prepared(sw, loc, c.co)
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: sw, 4: loc, 5: par(c), 6: TH})
def ens_pred(c, E):
    E.mat('coefficients at the locations', c.result, byrow(m, k, lambda i: wls(c.x, c.y, wvec(c.sw, i))))
PRED = [Contract('', 'gwrPredict', setup_pred, ens_pred, variants=PV, samp=SAMPLERS)]

# ---------------- criteria
def with_bw(sw, w):
    return Obj('SpatialWeight', dict(sw.f, w=w), sw.sym)
def s_loo(x, y, sw):
    def f(i):
        w = wvec(sw, i)
        return wls(x, y, Mat(w.nr, ONE, w.body * ne(VR, i)))
    return byrow(x.nr, x.nc, f)
def finite_or_worst(v):
    fin = bapp('isfinite', v)
    return fin * v + (1 - fin) * DBLMAX
def setup_crit(c):
    c.x, c.y, c.co, sw = data(c)
    bw = Obj('BandwidthWeight', {'mBandwidth': var('bw', 'R'), 'mAdaptive': bapp('bw.adaptive'), 'mKernel': var('bw.kernel')}, 'bw')
    c.sw = with_bw(sw, bw)
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: sw, 4: bw, 5: num(c.var['crit']), 6: par(c), 7: TH})
def ens_crit(c, E):
    if c.var['crit'] == CV:
        b = s_loo(c.x, c.y, c.sw)
        E.eq('leave-one-out cross-validation score', c.result, finite_or_worst(s_rss(c.x, c.y, b)))
    else:
        b = s_betas(c.x, c.y, c.sw)
        E.eq('corrected AIC', c.result, finite_or_worst(s_aicc(n, s_rss(c.x, c.y, b), s_trS(c.x, c.sw))))
AICT, CV = 0, 1
CRIT = [Contract('', 'gwrCriterion', setup_crit, ens_crit, variants=[{'par': p, 'crit': c} for p in (SERIAL, OMP) for c in (AICT, CV)], samp=SAMPLERS)]

nv = var('nv')
def setup_varc(c):
    c.x, c.y, c.co, sw = data(c)
    c.ex.fact(le(0, nv))
    t = var('i')
    c.ex.fact(forall('i', nv, le(0, app('vars', t, sort='I')) * lt(app('vars', t, sort='I'), k)))
    prove.AXIOMS['vars'] = lambda i: [bor(ONE - le(0, i) * lt(i, nv), le(0, app('vars', i, sort='I')) * lt(app('vars', i, sort='I'), k))]
    c.vars = Seq(nv, app('vars', var('@k'), sort='I'))
    w = dict(sw.f['w'].f, mBandwidth=DBLMAX)
    c.sw = with_bw(sw, Obj('BandwidthWeight', w, sw.f['w'].sym))
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: sw, 4: c.vars, 5: par(c), 6: TH})
def ens_varc(c, E):
    col = lambda j: ite(eq(j, 0), ZERO, app('vars', j - 1, sort='I'))
    x = Mat(n, 1 + nv, c.x.get(VR, col(VC)))
    b = s_betas(x, c.y, c.sw)
    E.eq('corrected AIC of the chosen columns', c.result, s_aicc(n, s_rss(x, c.y, b), s_trS(x, c.sw)))
VARC = [Contract('', 'gwrVarCriterion', setup_varc, ens_varc, variants=PV, samp=SAMPLERS)]

# ---------------- failure: a local system that cannot be inverted
def gram(x, w):
    return matmul(transpose(ebin(lambda p, q: p * q, x, Mat(x.nr, x.nc, w.body))), x)
def sing(m_):
    return bapp('singular', mlam(m_), m_.nr)
def ens_critfail(c, E):
    i = var('i')
    if c.var['crit'] == CV:
        w = wvec(c.sw, i)
        fail = exists('i', n, sing(gram(c.x, Mat(n, ONE, w.body * ne(VR, i)))))
        v = s_rss(c.x, c.y, s_loo(c.x, c.y, c.sw))
    else:
        fail = exists('i', n, sing(gram(c.x, wvec(c.sw, i))))
        v = s_aicc(n, s_rss(c.x, c.y, s_betas(c.x, c.y, c.sw)), s_trS(c.x, c.sw))
    E.eq('criterion; the worst value when a local system is singular', c.result, ite(fail, DBLMAX, finite_or_worst(v)))
CRITF = [Contract('', 'gwrCriterion', setup_crit, ens_critfail, variants=CRIT[0].variants, samp=SAMPLERS, numfail='fork', tag='singular', nothrow=True)]

SINGULAR = 'a local system is singular'
def tw_fit(c):
    return SINGULAR, exists('i', n, sing(gram(c.x, wvec(c.sw, var('i')))))
def tw_pred(c):
    return SINGULAR, exists('i', m, sing(gram(c.x, wvec(c.sw, var('i')))))
def ens_fitf(c, E):
    E.mat('returned coefficients', E.arg(c.o), s_betas(c.x, c.y, c.sw))
FITF = [Contract('', 'gwrFit', setup_fit, ens_fitf, variants=[{'par': p, 'hat': 1, 'big': 0} for p in (SERIAL, OMP)], samp=SAMPLERS, numfail='fork', tag='singular', throwswhen=tw_fit)]
PREDF = [Contract('', 'gwrPredict', setup_pred, ens_pred, variants=PV, samp=SAMPLERS, numfail='fork', tag='singular', throwswhen=tw_pred)]

# ---------------- the formulas themselves, on arbitrary coefficients and traces
def setup_form(c):
    c.ex.fact(lt(0, n)); c.ex.fact(lt(0, k))
    c.x, c.y, c.b, c.sh = symmat('x', n, k), symmat('y', n, 1), symmat('betas', n, k), symmat('shat', 2, 1)
    c.argvals.update({0: c.x, 1: c.y, 2: c.b, 3: c.sh})
def ens_form(c, E):
    rss = s_rss(c.x, c.y, c.b)
    E.mat('fitted values', E.arg(4), s_fitted(c.x, c.b))
    E.eq('residual sum of squares', E.arg(5), rss)
    E.eq('corrected AIC', E.arg(6), s_aicc(n, rss, c.sh.lin(ZERO)))
FORM = [Contract('', 'diagFormulas', setup_form, ens_form, samp=SAMPLERS)]
