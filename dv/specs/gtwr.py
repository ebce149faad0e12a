"""Geographically and temporally weighted regression at its public interface."""
from specs.gwr import *
CLIENTS = ['clients/gtwr.cpp']
GTWR_SRC = ['src/gwmodelpp/GTWR.cpp', 'src/gwmodelpp/GWRBase.cpp', 'src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp']
CRSST = 4
def setup_tfit(c):
    c.x, c.y, c.co, sw = data(c)
    c.t = symmat('times', n, 1)
    c.ex.fact(eq(sw.f['d'].f['type'], CRSST))
    c.sw = prepared(sw, c.co, c.co, c.t, c.t)
    c.ex.fact(le(8192, n) if c.var['big'] else lt(n, 8192))
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: c.t, 4: sw, 5: num(c.var['hat']), 6: par(c), 7: TH})
    c.o = 8
def setup_trefit(c):
    c.x, c.y, c.co, sw = data(c)
    c.t = symmat('times', n, 1)
    c.ex.fact(eq(sw.f['d'].f['type'], CRSST))
    c.sw = prepared(sw, c.co, c.co, c.t, c.t)
    n0 = var('n0')
    c.ex.fact(lt(0, n0))
    x0, y0, co0, sw0 = data(c, ('x0', 'y0', 'coords0', 'sw0'), n0)
    c.ex.fact(eq(sw0.f['d'].f['type'], CRSST))
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: c.t, 4: sw, 5: x0, 6: y0, 7: co0, 8: symmat('times0', n0, 1), 9: sw0, 10: par(c), 11: TH})
    c.o = 12
def ens_tfit(c, E):
    b = s_betas(c.x, c.y, c.sw)
    E.mat('returned coefficients', E.arg(c.o), b)
    E.mat('stored coefficients', E.arg(c.o + 1), b)
    E.mat('coefficient standard errors', E.arg(c.o + 2), s_se(c.x, c.y, c.sw, b))
    E.eq('trace of S', E.arg(c.o + 3).lin(ZERO), s_trS(c.x, c.sw))
    E.eq("trace of S'S", E.arg(c.o + 3).lin(ONE), s_trStS(c.x, c.sw))
    E.mat("diagonal of (I-S)'(I-S)", E.arg(c.o + 4), s_q(c.x, c.sw))
    if c.name == 'gtwrFit':
        if c.var['hat'] and not c.var['big']:
            E.mat('hat matrix', E.arg(c.o + 5), s_hat(c.x, c.sw))
        ens_diag(E, E.arg(c.o + 6), n, s_rss(c.x, c.y, b), s_yss(c.y), s_trS(c.x, c.sw), s_trStS(c.x, c.sw))
TFIT = [Contract('', 'gtwrFit', setup_tfit, ens_tfit, variants=FV, samp=SAMPLERS),
        Contract('', 'gtwrRefit', setup_trefit, ens_tfit, variants=PV, samp=SAMPLERS)]
TCRIT = [Contract('', 'gtwrCriterion', setup_crit, ens_crit, variants=CRIT[0].variants, samp=SAMPLERS),
         Contract('', 'gtwrCriterion', setup_crit, ens_critfail, variants=CRIT[0].variants, samp=SAMPLERS, numfail='fork', tag='singular', nothrow=True)]
def tw_tfit(c):
    return SINGULAR, exists('i', n, sing(gram(c.x, wvec(c.sw, var('i')))))
def ens_tfitf(c, E):
    E.mat('returned coefficients', E.arg(c.o), s_betas(c.x, c.y, c.sw))
TFITF = [Contract('', 'gtwrFit', setup_tfit, ens_tfitf, variants=FITF[0].variants, samp=SAMPLERS, numfail='fork', tag='singular', throwswhen=tw_tfit)]
