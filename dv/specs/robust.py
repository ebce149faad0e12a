"""Robust GWR at its public interface."""
from specs.gwr import *
import specs.gwr as G, specs.common as CM
CLIENTS = ['clients/robust.cpp']
ROB_SRC = ['src/gwmodelpp/GWRRobust.cpp'] + GWR_SRC

class Masked:
    """the spatial weight multiplied by a second weight vector"""
    def __init__(self, sw, mask):
        self.sw, self.mask = sw, mask
def wvec(sw, i):
    if isinstance(sw, Masked):
        w = CM.wvec(sw.sw, i)
        return Mat(w.nr, ONE, w.body * sw.mask.body)
    return CM.wvec(sw, i)
G.wvec = wvec          # the specification functions of basic GWR over masked weights
# ---------------- one weighted pass: fitSerial / fitOmp under contract
class Pass:
    """what one pass with the given second weights computes, as uninterpreted functions of the data and weights"""
    def __init__(self, x, y, sw, mask):
        self.x, self.y = x, y
        w = sw.f['w'].f
        # the mask: a term of the row formal
        self.ids = CM.argid(x) + CM.argid(y) + (sw.f['d'].f['did'], w['mBandwidth'], w['mAdaptive'], w['mKernel'], lam([R_], mask.body))
        self.n, self.k = x.nr, x.nc
    def f(self, name, *a):
        return app('pass.' + name, *self.ids, *a)
    def betas(self):
        return Mat(self.n, self.k, self.f('betas', VR, VC))
    def var(self):
        return Mat(self.n, self.k, self.f('variance', VR, VC))
    def shat(self):
        return Mat(num(2), ONE, self.f('traces', VR))
    def q(self):
        return Mat(self.n, ONE, self.f('q', VR))
    def S(self, stored):
        return Mat(ite(stored, self.n, ONE), self.n, ite(stored, self.f('S', VR, VC), self.f('unusedS', VR, VC)))
def h_fit(ex, st, this, a, node):
    o = ex.read(st, this)
    fld = lambda k: o.f[k] if k in o.f else ex.default_field(o, k)
    x, y = a[0].val(), a[1].val()
    p = Pass(x, y, fld('mSpatialWeight'), fld('mWeightMask'))
    stored = bor(fld('mStoreS'), fld('mHasHatMatrix') * lt(fld('mCoords').nr, 8192))
    for i, v in ((2, p.var()), (3, p.shat()), (4, p.q()), (5, p.S(stored))):
        ex.write(st, a[i].lv(), v)
    return p.betas()
def setup_pass(c):
    c.x, c.y, c.co, sw = data(c)
    c.mask = symmat('mask', n, 1)
    c.F.update({'mCoords': c.co, 'mSpatialWeight': sw, 'mWeightMask': c.mask, 'mOmpThreadNum': TH, 'mHasHatMatrix': num(c.var['hat']), 'mStoreS': num(c.var['always'])})
    c.ex.fact(le(8192, n) if c.var['big'] else lt(n, 8192))
    c.argvals.update({0: c.x, 1: c.y})
    c.w = Masked(sw, c.mask)
def ens_pass(c, E):
    x, y, w = c.x, c.y, c.w
    E.mat('local coefficients', c.result, s_betas(x, y, w))
    E.mat('coefficient variance factors', E.arg(2), byrow(n, k, lambda i: Mat(k, ONE, ssum('t#', n, power(wls_c(x, wvec(w, i)).get(VR, var('t#')), 2)))))
    E.eq('trace of S', E.arg(3).lin(ZERO), s_trS(x, w))
    E.eq("trace of S'S", E.arg(3).lin(ONE), s_trStS(x, w))
    E.mat("diagonal of (I-S)'(I-S)", E.arg(4), s_q(x, w))
    stored = num(c.var['always'] or c.var['hat'] and not c.var['big'])
    E.eq('rows of the stored hat matrix', E.arg(5).nr, ite(stored, n, ONE))
    if stored == ONE:
        E.mat('stored hat matrix', E.arg(5), s_hat(x, w))
    for f in ('mX', 'mY', 'mCoords', 'mSpatialWeight', 'mWeightMask'):
        E.ok('frame: %s not modified' % f) if E.unchanged(f) else E.fail('frame: %s not modified' % f, 'assigned')
PASS = [Contract('GWRRobust', f, setup_pass, ens_pass, samp=SAMPLERS, variants=[{'always': a, 'hat': h, 'big': b} for a, h, b in ((0, 1, 0), (0, 0, 0), (0, 1, 1), (1, 0, 1))]) for f in ('fitSerial', 'fitOmp')]
def s_residual(x, y, b):
    return Mat(x.nr, ONE, y.body - s_fitted(x, b).body)
def s_mse(x, y, b):
    return s_rss(x, y, b) * recip(x.nr)
def ratio(res, mse):
    return absp(res.body * recip(T.sqrt(mse)))
def s_filt(x, y, b):
    """second weights from the residuals: the down-weighting of |residual| / root mean square error"""
    return Mat(x.nr, ONE, app('downweight', ratio(s_residual(x, y, b), s_mse(x, y, b))))
def h_filt(ex, st, this, a, node):
    r = a[0].val()
    return Mat(r.nr, ONE, app('downweight', ratio(r, ex.scalar(a[1].val()))))
def setup_filt(c):
    c.ex.fact(lt(0, n)); c.ex.fact(lt(0, var('mse', 'R')))
    c.r = symmat('residual', n, 1)
    c.argvals.update({0: c.r, 1: var('mse', 'R')})
def ens_filt(c, E):
    r = ratio(c.r, var('mse', 'R'))
    f = r - 2
    E.mat('1 up to 2, (1-(r-2)^2)^2 between 2 and 3, 0 from 3', c.result, Mat(n, ONE, ite(le(r, 2), ONE, ite(lt(r, 3), power(1 - f * f, 2), ZERO))))
FILT = [Contract('GWRRobust', 'filtWeight', setup_filt, ens_filt, samp={'residual': lambda u, ins, *a: 8 * u - 4, 'mse': lambda u, ins: 0.5 + u})]
PASSHOOKS = {('GWRRobust', 'filtWeight'): h_filt, ('GWRRobust', 'fitSerial'): h_fit, ('GWRRobust', 'fitOmp'): h_fit}
PASSES = var('passes', 'R')
class Passes:
    """coefficients, weights and change of the mean squared error after the t-th reweighted pass, recursively from pass 0 = basic GWR"""
    def __init__(self, x, y, sw):
        self.x, self.y, self.sw = x, y, sw
        self.memo = {}
    def step(self, t):
        c = t.t.get((), 0)
        return c >= 1 and t.const() is None
    def mask(self, t):
        """second weights used by pass t >= 1"""
        return s_filt(self.x, self.y, self.betas(t - 1))
    def betas(self, t):
        t = as_p(t)
        if t.key not in self.memo:
            if t == ZERO:
                b = Pass(self.x, self.y, self.sw, Mat(n, ONE, ONE)).betas()
            elif self.step(t):
                b = Pass(self.x, self.y, self.sw, self.mask(t)).betas()
            else:
                b = Mat(self.x.nr, self.x.nc, app('coefficientsAfter', t, VR, VC))
            self.memo[t.key] = b
        return self.memo[t.key]
    def mse(self, t):
        return s_mse(self.x, self.y, self.betas(t))
    def change(self, t):
        t = as_p(t)
        if t == ZERO:
            return ONE
        if self.step(t):
            return absp(self.mse(t - 1) - self.mse(t)) * recip(self.mse(t))
        return app('change', t)
def as_p(t):
    return t if isinstance(t, P) else num(t)
def setup_rfit(c):
    c.x, c.y, c.co, sw = data(c)
    crs(c, sw)
    c.sw = prepared(sw, c.co, c.co)
    v = c.var
    c.ex.fact(le(8192, n) if v['big'] else lt(n, 8192))
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: sw})
    c.o = 4
    if c.name == 'robustFit':
        c.argvals.update({4: num(v['hat']), 5: num(v['filtered']), 6: par(c), 7: TH})
        c.o = 8
    p = c.p = Passes(c.x, c.y, c.sw)
    def heads(key, init, sort):
        return 'passes' if init == ZERO and sort in 'IR' else None
    def scal(ex, leaves):
        out = []
        cnt = [i for i, l in enumerate(leaves) if l[3] == ZERO]
        for i, l in enumerate(leaves):
            for t in cnt:
                if i != t:
                    out.append(('mean squared error after the current pass', lambda g, i=i, t=t: (g[i], p.mse(g[t]))))
                    out.append(('change of the mean squared error', lambda g, i=i, t=t: (g[i], p.change(g[t]))))
        return out
    def arr(ex, scalars, arrays):
        out = []
        for key, fm, init in arrays:
            for t, sort, i0 in scalars:
                if i0 == ZERO:
                    if len(fm) == 2:
                        out.append(('coefficients of the current pass', key, lambda g, t=t: p.betas(g[t]).body))
                    if len(fm) == 1:
                        out.append(('fitted values of the current pass', key, lambda g, t=t: s_fitted(c.x, p.betas(g[t])).body))
                        out.append(('residuals of the current pass', key, lambda g, t=t: s_residual(c.x, c.y, p.betas(g[t])).body))
                        out.append(('weights of the next pass', key, lambda g, t=t: p.mask(g[t] + 1).body))
        return out
    c.ex.templates, c.ex.arrtemplates, c.ex.headnames = scal, arr, heads
def ens_rfit(c, E):
    x, y, sw, p = c.x, c.y, c.sw, c.p
    if c.var['filtered']:
        q = Pass(x, y, sw, Mat(n, ONE, ONE))
        b0, t = q.betas(), q.shat()
        s2 = s_rss(x, y, b0) * recip(n - 2 * t.lin(ZERO) + t.lin(ONE))
        stu = s_residual(x, y, b0).body * recip(T.sqrt(s2 * q.q().body))
        mask = Mat(n, ONE, ite(lt(3, absp(stu)), ZERO, ONE))
    else:
        t = PASSES + 1
        mask = p.mask(t)
        E.eq('iteration ends by convergence or after 20 passes', bor(le(p.change(t), num(F(1, 100000))), le(20, t)), ONE)
    f = Pass(x, y, sw, mask)
    b = f.betas()
    E.mat('returned coefficients', E.arg(c.o), b)
    if c.name == 'robustDefault':
        return
    t0, t1 = f.shat().lin(ZERO), f.shat().lin(ONE)
    rss = s_rss(x, y, b)
    E.mat('stored coefficients', E.arg(c.o + 1), b)
    E.mat('coefficient standard errors', E.arg(c.o + 2), Mat(n, k, T.sqrt(rss * recip(n - 2 * t0 + t1) * f.var().body)))
    E.eq('trace of S', E.arg(c.o + 3).lin(ZERO), t0)
    E.eq("trace of S'S", E.arg(c.o + 3).lin(ONE), t1)
    E.mat("diagonal of (I-S)'(I-S)", E.arg(c.o + 4), f.q())
    if c.var['hat'] and not c.var['big']:
        E.mat('hat matrix', E.arg(c.o + 5), Mat(n, n, f.f('S', VR, VC)))
    ens_diag(E, E.arg(c.o + 6), n, rss, s_yss(y), t0, t1)
RV = [{'par': p, 'filtered': f, 'hat': h, 'big': b} for p in (SERIAL, OMP) for f in (1, 0) for h, b in ((1, 0), (0, 1))]
RFIT = [Contract('', 'robustFit', setup_rfit, ens_rfit, variants=RV, samp=SAMPLERS, hooks=PASSHOOKS),
        Contract('', 'robustDefault', setup_rfit, ens_rfit, variants=[{'filtered': 0, 'hat': 1, 'big': 0}], samp=SAMPLERS, hooks=PASSHOOKS),
        Contract('', 'robustPredict', lambda c: setup_rpred(c), ens_pred, samp=SAMPLERS)]
def setup_rpred(c):
    c.x, c.y, c.co, sw = data(c)
    c.ex.fact(lt(0, m))
    crs(c, sw)
    loc = symmat('locations', m, 2)
    c.sw = prepared(sw, loc, c.co)
    c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: sw, 4: loc})
def tw_pass(c):
    return SINGULAR, exists('i', n, sing(gram(c.x, wvec(c.w, var('i')))))
def ens_passf(c, E):
    E.mat('local coefficients', c.result, s_betas(c.x, c.y, c.w))
PASSF = [Contract('GWRRobust', f, setup_pass, ens_passf, samp=SAMPLERS, variants=[{'always': 0, 'hat': 1, 'big': 0}], numfail='fork', tag='singular', throwswhen=tw_pass) for f in ('fitSerial', 'fitOmp')]
