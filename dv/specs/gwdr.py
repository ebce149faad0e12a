"""Density regression (GWDR) at its public interface: one weighting per coordinate column, multiplied together."""
from specs.gwr import *
import specs.gwr as G
CLIENTS = ['clients/gwdr.cpp']
SRC = ['src/gwmodelpp/GWDR.cpp', 'src/gwmodelpp/VariableForwardSelector.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp']

def ddata(c, suf='', size=None):
    ex = c.ex
    nn = size or n
    D = c.var['dims']
    ex.fact(lt(0, nn)); ex.fact(lt(0, k)); ex.fact(lt(0, TH))
    x, y, co = symmat('x' + suf, nn, k), symmat('y' + suf, nn, 1), symmat('coords' + suf, nn, D)
    return x, y, co, [sw_obj('sw%s_%d' % (suf, m), nn) for m in range(D)]
def col(co, m):
    return Mat(co.nr, ONE, subst(co.body, {C_: num(m)}))
def prep(sws, co):
    return tuple(prepared(s, col(co, m), col(co, m)) for m, s in enumerate(sws))

def setup_fit(c):
    c.x, c.y, c.co, sws = ddata(c)
    c.sw = prep(sws, c.co)
    c.ex.fact(le(8192, n) if c.var['big'] else lt(n, 8192))
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: LSeq(sws), 4: num(c.var['hat']), 5: par(c), 6: TH})
    c.o = 7
def setup_refit(c):
    c.x, c.y, c.co, sws = ddata(c)
    c.sw = prep(sws, c.co)
    x0, y0, co0, sws0 = ddata(c, '0', var('n0'))
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: LSeq(sws), 4: x0, 5: y0, 6: co0, 7: LSeq(sws0), 8: par(c), 9: TH})
    c.o = 10
def ens_fit(c, E):
    G.ens_fit(c, E)
    if c.name == 'gwdrFit' and c.var['hat'] and not c.var['big']:
        E.mat('hat matrix', E.arg(c.o + 5), s_hat(c.x, c.sw))
    b = s_betas(c.x, c.y, c.sw)
    ens_diag(E, E.arg(c.o + (6 if c.name == 'gwdrFit' else 5)), n, s_rss(c.x, c.y, b), s_yss(c.y), s_trS(c.x, c.sw), s_trStS(c.x, c.sw))
DIMS = (1, 2, 3)
FVD = [{'par': p, 'hat': h, 'big': b, 'dims': d} for d in DIMS for p in (SERIAL, OMP) for h, b in (((1, 0), (0, 0), (1, 1)) if d == 2 else ((1, 0),))]
PVD = [{'par': p, 'dims': d} for d in (1, 2) for p in (SERIAL, OMP)]
FIT = [Contract('', 'gwdrFit', setup_fit, ens_fit, variants=FVD, samp=SAMPLERS),
       Contract('', 'gwdrRefit', setup_refit, ens_fit, variants=PVD[2:], samp=SAMPLERS)]

DCV, DAIC = 0, 1
def setup_crit(c):
    c.x, c.y, c.co, sws = ddata(c)
    trial = [sw_obj('trial_%d' % m, n) for m in range(c.var['dims'])]
    c.sw = tuple(with_bw(s, t.f['w']) for s, t in zip(sws, trial))
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: LSeq(sws), 4: LSeq(trial), 5: num(c.var['crit']), 6: par(c), 7: TH})
def s_crit(c):
    if c.var['crit'] == DCV:
        return 'leave-one-out cross-validation score', s_rss(c.x, c.y, s_loo(c.x, c.y, c.sw))
    return 'corrected AIC', s_aicc(n, s_rss(c.x, c.y, s_betas(c.x, c.y, c.sw)), s_trS(c.x, c.sw))
def ens_crit(c, E):
    nm, v = s_crit(c)
    E.eq(nm, c.result, finite_or_worst(v))
def ens_critfail(c, E):
    w = wvec(c.sw, var('i'))
    if c.var['crit'] == DCV:
        w = Mat(n, ONE, w.body * ne(VR, var('i')))
    E.eq('criterion; the worst value when a local system is singular', c.result, ite(exists('i', n, sing(gram(c.x, w))), DBLMAX, finite_or_worst(s_crit(c)[1])))
CV_ = [{'par': p, 'crit': c, 'dims': d} for d in DIMS for p in (SERIAL, OMP) for c in (DCV, DAIC)]
CRIT = [Contract('', 'gwdrCriterion', setup_crit, ens_crit, variants=CV_, samp=SAMPLERS)]
CRITF = [Contract('', 'gwdrCriterion', setup_crit, ens_critfail, variants=[v for v in CV_ if v['dims'] == 2], samp=SAMPLERS, numfail='fork', tag='singular', nothrow=True)]

def setup_varc(c):
    c.x, c.y, c.co, sws = ddata(c)
    c.ex.fact(le(0, nv))
    t = var('i')
    c.ex.fact(forall('i', nv, le(0, app('vars', t, sort='I')) * lt(app('vars', t, sort='I'), k)))
    prove.AXIOMS['vars'] = lambda i: [bor(ONE - le(0, i) * lt(i, nv), le(0, app('vars', i, sort='I')) * lt(app('vars', i, sort='I'), k))]
    c.vars = Seq(nv, app('vars', var('@k'), sort='I'))
    glob = c.var.get('zero')
    for m, s in enumerate(sws):
        if glob and m == 0:
            sws[m] = s = with_bw(s, Obj('BandwidthWeight', dict(s.f['w'].f, mBandwidth=ZERO), s.f['w'].sym))
        else:
            c.ex.fact(ne(s.f['w'].f['mBandwidth'], 0))
    c.sw = tuple(sws)
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: LSeq(sws), 4: c.vars, 5: par(c), 6: TH})
def ens_varc(c, E):
    colf = lambda j: ite(eq(j, 0), ZERO, app('vars', j - 1, sort='I'))
    x = Mat(n, 1 + nv, c.x.get(VR, colf(VC)))
    if c.var.get('zero'):
        C = wls_c(x, Mat(n, ONE, ONE))
        b = matmul(C, c.y)
        betas = Mat(n, x.nc, subst(b.body, {R_: VC}))
        t = var('t#')
        trs = ssum('t#', n, matmul(Mat(ONE, x.nc, subst(x.body, {R_: t})), C).get(0, t))
        v = s_aicc(n, s_rss(x, c.y, betas), trs)
    else:
        v = s_aicc(n, s_rss(x, c.y, s_betas(x, c.y, c.sw)), s_trS(x, c.sw))
    E.eq('corrected AIC of the chosen columns', c.result, finite_or_worst(v))
VARC = [Contract('', 'gwdrVarCriterion', setup_varc, ens_varc, variants=[{'par': p, 'dims': d, 'zero': z} for p in (SERIAL, OMP) for d, z in ((1, 0), (2, 0), (2, 1))], samp=SAMPLERS)]

FITF = [Contract('', 'gwdrFit', setup_fit, G.ens_fitf, variants=[{'par': p, 'hat': 1, 'big': 0, 'dims': 2} for p in (SERIAL, OMP)], samp=SAMPLERS, numfail='fork', tag='singular', throwswhen=tw_fit)]
