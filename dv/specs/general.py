"""Generalised GWR (Poisson, binomial) at its public interface."""
from specs.gwr import *
import specs.common as CM
CLIENTS = ['clients/general.cpp']
GG_SRC = ['src/gwmodelpp/GWRGeneralized.cpp', 'src/gwmodelpp/GeneralizedLinearModel.cpp', 'src/gwmodelpp/PoissonModel.cpp', 'src/gwmodelpp/BinomialModel.cpp',
          'src/gwmodelpp/GWRBase.cpp', 'src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp']
POISSON, BINOMIAL = 0, 1
TOL, MAXIT = var('tol', 'R'), var('maxiter')
def wmul(w, v):
    return Mat(w.nr, ONE, w.body * v.body)
# ---------------- the calibration of the working weights under contract
class Irls:
    """result of the iteratively reweighted calibration with the given weight matrix (one column per location), uninterpreted"""
    def __init__(self, fam, x, y, wt, tol, maxit):
        ids = (num(fam),) + CM.argid(x) + CM.argid(y) + (mlam(wt), wt.nr, wt.nc) + (tol, maxit)
        v = lambda nm: Mat(x.nr, ONE, app('irls.' + nm, *ids, VR))
        self.adj, self.wt2, self.mu, self.ll = v('adjusted'), v('weights'), v('mean'), app('irls.loglik', *ids)
def h_irls(fam):
    def f(ex, st, this, a, node):
        o = ex.read(st, this)
        fld = lambda q: o.f[q] if q in o.f else ex.default_field(o, q)
        wt = ex.inrange(st, a[2].val())
        r = Irls(fam, a[0].val(), a[1].val(), wt, fld('mTol'), fld('mMaxiter'))
        for q, v in (('myAdj', r.adj), ('mWt2', r.wt2), ('mLLik', r.ll)):
            ex.write(st, this + ('f', q), v)
        return r.mu
    return f
def glm(fam, x, y):
    ids = (fam,) + CM.argid(x) + CM.argid(y)
    return app('glm.nulldev', *ids), app('glm.dev', *ids)
def h_glmfit(ex, st, this, a, node):
    o = ex.read(st, this)
    nd, dv = glm(o.f['mFamily'], o.f['mX'], o.f['mY'])
    ex.write(st, this + ('f', 'mNullDev'), nd)
    ex.write(st, this + ('f', 'mDev'), dv)
    return VOID
IRLS = {('GWRGeneralized', '%sWt%s' % (f, p)): h_irls(i) for i, f in enumerate(('Poisson', 'Binomial')) for p in ('Serial', 'Omp')}
GHOOKS = dict(IRLS)
GHOOKS[('GeneralizedLinearModel', 'fit')] = h_glmfit
# ---------------- the iteration itself
def s_dpois(y, mu):
    return -mu + y * logp(mu) - lgammap(y + 1)
def s_dbin(y, mu):
    """log-likelihood of one trial per observation"""
    return lgammap(num(2)) - lgammap(2 - y) - lgammap(y + 1) + (1 - y) * logp(1 - mu) + y * logp(mu)
def wlsapp(x, y, w):
    """weighted least squares coefficients, uninterpreted (gwPredict has a contract of its own)"""
    return Mat(x.nc, ONE, app('wls', *(CM.argid(x) + CM.argid(y) + CM.argid(w) + (VR,))))
def h_predict(ex, st, this, a, node):
    return wlsapp(a[0].val(), a[1].val(), ex.inrange(st, a[2].val()))
def setup_gwp(c):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(lt(0, k))
    c.x, c.y, c.w = symmat('x', n, k), symmat('y', n, 1), symmat('w', n, 1)
    c.argvals.update({0: c.x, 1: c.y, 2: c.w} if c.name == 'gwPredict' else {0: c.x, 1: c.w})
def ens_gwp(c, E):
    if c.name == 'gwPredict':
        E.mat('weighted least squares coefficients', c.result, wls(c.x, c.y, c.w))
    else:
        E.mat('coefficient operator (X^T W X)^-1 X^T W', c.result, wls_c(c.x, c.w))
class Steps:
    """linear predictor, mean, working weights and log-likelihood after t steps, recursively"""
    def __init__(self, fam, x, y, wt):
        self.fam, self.x, self.y, self.wt = fam, x, y, wt
        self.memo = {}
    def rec(self, name, t, init, step, sort='R', vec=True):
        t = t if isinstance(t, P) else num(t)
        key = (name, t.key)
        if key not in self.memo:
            c = t.t.get((), 0)
            if t == ZERO:
                r = init()
            elif c >= 1 and t.const() is None:
                r = step(t)
            else:
                r = Mat(n, ONE, app(name + 'After', t, VR)) if vec else app(name + 'After', t)
            self.memo[key] = r
        return self.memo[key]
    def V(self, p):
        return Mat(n, ONE, p)
    def mu(self, t):
        init = lambda: self.V(self.y.body + num(F(1, 10))) if self.fam == POISSON else self.V(num(F(1, 2)))
        def step(t):
            e = expp(self.nu(t).body)
            return self.V(e if self.fam == POISSON else e * recip(1 + e))
        return self.rec('mean', t, init, step)
    def nu(self, t):
        return self.rec('predictor', t, lambda: self.V(logp(self.mu(0).body) if self.fam == POISSON else ZERO), lambda t: s_fitted(self.x, self.betas(t)))
    def w(self, t):
        def step(t):
            m_ = self.mu(t).body
            return self.V(m_ if self.fam == POISSON else m_ * (1 - m_))
        return self.rec('weight', t, lambda: self.V(ONE), step)
    def adj(self, t):
        """adjusted response used by step t >= 1"""
        m_, nu = self.mu(t - 1).body, self.nu(t - 1).body
        d = m_ if self.fam == POISSON else m_ * (1 - m_)
        return self.V(nu + (self.y.body - m_) * recip(d))
    def betas(self, t):
        a, w = self.adj(t), self.w(t - 1)
        return byrow(n, k, lambda i: wlsapp(self.x, a, Mat(n, ONE, subst(self.wt.body, {C_: i}) * w.body)))
    def ll(self, t):
        f = s_dpois if self.fam == POISSON else s_dbin
        return self.rec('loglik', t, lambda: ZERO, lambda t: ssum('t#', n, f(self.y.get(var('t#'), 0), self.mu(t).get(var('t#'), 0))), vec=False)
    def change(self, t):
        return absp((self.ll(t - 1) - self.ll(t)) * recip(self.ll(t)))
STEP = var('steps', 'I')
def setup_irls(c):
    c.x, c.y = data(c)[:2]
    c.wt = symmat('wt', n, n)
    c.ex.fact(lt(0, MAXIT))
    c.F.update({'mTol': TOL, 'mMaxiter': MAXIT, 'mLLik': var('previous.loglik', 'R'),
                'myAdj': symmat('previous.adjusted', var('na'), var('nb')), 'mWt2': symmat('previous.weights', var('nc'), var('nd'))})
    c.argvals.update({0: c.x, 1: c.y, 2: c.wt})
    s = c.s = Steps(POISSON if c.name.startswith('Poisson') else BINOMIAL, c.x, c.y, c.wt)
    def heads(key, init, sort):
        return 'steps' if init == ZERO and sort == 'I' and not (key[1] and key[1][-1] in ('nr', 'nc')) else None
    def scal(ex, leaves):
        out = []
        for i, l in enumerate(leaves):
            for t, q in enumerate(leaves):
                if i != t and q[3] == ZERO and q[2] == 'I':
                    out.append(('log-likelihood of the current step', lambda g, i=i, t=t: (g[i], s.ll(g[t]))))
            if l[3] == ZERO and l[2] == 'I':
                out.append(('step count below the maximum', lambda g, i=i: le(g[i], MAXIT)))
        return out
    def arr(ex, scalars, arrays):
        out = []
        for key, fm, init in arrays:
            for t, sort, i0 in scalars:
                if i0 == ZERO and sort == 'I':
                    for lab, f in (('means of the current step', s.mu), ('linear predictors of the current step', s.nu), ('working weights of the current step', s.w)):
                        out.append((lab, key, lambda g, t=t, f=f: f(g[t]).body))
        return out
    c.ex.templates, c.ex.arrtemplates, c.ex.headnames = scal, arr, heads
def ens_irls(c, E):
    s, t = c.s, STEP + 1
    conv = lt(s.change(t), TOL)
    E.mat('means of the last step', c.result, s.mu(t))
    E.mat('adjusted response of the last step', E.field('myAdj'), s.adj(t))
    E.eq('log-likelihood of the last step', E.field('mLLik'), s.ll(t))
    E.mat('working weights: of the last step, or its means when it did not converge', E.field('mWt2'), Mat(n, ONE, ite(conv, s.w(t - 1).body, s.w(t).body)))
    E.eq('the iteration ends by convergence or at the maximal number of steps', bor(conv, eq(t, MAXIT)), ONE)
    E.eq('no more than the maximal number of steps', le(t, MAXIT), ONE)
    for f in ('mX', 'mY', 'mSpatialWeight', 'mTol', 'mMaxiter'):
        E.ok('frame: %s not modified' % f) if E.unchanged(f) else E.fail('frame: %s not modified' % f, 'assigned')
WT = [Contract('GWRGeneralized', '%sWt%s' % (f, p), setup_irls, ens_irls, samp=SAMPLERS, hooks={('GWRGeneralized', 'gwPredict'): h_predict}) for f in ('Poisson', 'Binomial') for p in ('Serial', 'Omp')]
WT += [Contract('GWRGeneralized', f, setup_gwp, ens_gwp, samp=SAMPLERS) for f in ('gwPredict', 'CiMat')]
# ---------------- public interface
def setup_gg(c):
    ex = c.ex
    c.x, c.y, c.co, sw = data(c)
    ex.fact(lt(0, MAXIT))
    crs(c, sw)
    ex.fact(le(8193, n) if c.var.get('big') else le(n, 8192))
    c.sw = prepared(sw, c.co, c.co)
    c.fam = c.var['fam']
    c.argvals.update(dict(enumerate([c.x, c.y, c.co, sw, num(c.fam), num(c.var.get('hat', 1)), par(c), TH, TOL, MAXIT])))
    c.o = 10
    if c.name == 'ggwrRefit':
        n0 = var('n0')
        ex.fact(lt(0, n0))
        x0, y0, co0, sw0 = data(c, ('x0', 'y0', 'coords0', 'sw0'), n0)
        crs(c, sw0)
        c.argvals.update({14: x0, 15: y0, 16: co0, 17: sw0})
    if c.name == 'ggwrCriterion':
        bw = Obj('BandwidthWeight', {'mBandwidth': var('bw', 'R'), 'mAdaptive': bapp('bw.adaptive'), 'mKernel': var('bw.kernel')}, 'bw')
        c.sw = with_bw(sw, bw)
        c.argvals.update({10: bw, 11: num(c.var['crit'])})
    if c.name == 'ggwrPredict':
        ex.fact(lt(0, m))
        c.loc = symmat('locations', m, 2)
        c.swl = prepared(sw, c.loc, c.co)
        c.argvals[10] = c.loc
def irls_of(c, f):
    return Irls(c.fam, c.x, c.y, Mat(n, n, f(wterm(c.sw, VC, VR))), TOL, MAXIT)
def s_mean(c, eta):
    e = expp(eta)
    return e if c.fam == POISSON else e * recip(1 + e)
def ens_gg(c, E):
    x, y, sw = c.x, c.y, c.sw
    r = irls_of(c, lambda w: w)
    b = byrow(n, k, lambda i: wls(x, r.adj, wmul(wvec(sw, i), r.wt2)))
    E.mat('returned coefficients', E.arg(c.o), b)
    E.mat('stored coefficients', E.arg(c.o + 1), b)
    nd, dv = glm(num(c.fam), x, y)
    g = E.arg(c.o + 3)
    E.eq('null deviance', g.f['NullDev'], nd)
    E.eq('deviance of the global model', g.f['Dev'], dv)
    E.eq('pseudo R2 of the global model', g.f['RSquare'], 1 - dv * recip(nd))
    E.eq('AIC of the global model', g.f['AIC'], dv + 2 * k)
    E.eq('AICc of the global model', g.f['AICc'], dv + 2 * k + 2 * k * (k + 1) * recip(n - k - 1))
    if not c.var['hat']:
        return
    trS = s_trace(c, r)
    if c.fam == POISSON:
        yy, mm = (lambda i: y.get(i, 0)), (lambda i: r.mu.get(i, 0))
        dev = ssum('t#', n, (lambda i: ite(eq(yy(i), 0), 2 * mm(i), 2 * (yy(i) * (logp(yy(i) * recip(mm(i))) - 1) + mm(i))))(var('t#')))
    else:
        f = s_fitted(x, b)
        q = lambda i: y.get(i, 0) - 1 + s_mean(c, f.get(i, 0))
        dev = ssum('t#', n, logp(recip(power(q(var('t#')), 2))))
    d = E.arg(c.o + 2)
    E.eq('deviance', d.f['RSS'], dev)
    E.eq('AIC', d.f['AIC'], dev + 2 * trS)
    E.eq('AICc', d.f['AICc'], dev + 2 * trS + 2 * trS * (trS + 1) * recip(n - trS - 1))
    E.eq('pseudo R2', d.f['RSquare'], 1 - dev * recip(nd))
def s_trace(c, r):
    return ssum('t#', n, matmul(Mat(ONE, k, subst(c.x.body, {R_: var('t#')})), wls_c(c.x, wmul(wvec(c.sw, var('t#')), r.wt2))).get(0, var('t#')))
def ens_ggcrit(c, E):
    x, y, sw = c.x, c.y, c.sw
    if c.var['crit'] == CV:
        loo = lambda w: w * ne(VR, VC)
        r = irls_of(c, loo)
        def res(i):
            w = wvec(sw, i)
            b = wls(x, r.adj, wmul(Mat(n, ONE, w.body * ne(VR, i)), r.wt2))
            return y.get(i, 0) - s_mean(c, ssum('v#', k, x.get(i, var('v#')) * b.get(var('v#'), 0)))
        E.eq('leave-one-out squared prediction error', c.result, finite_or_worst(ssum('t#', n, power(res(var('t#')), 2))))
    else:
        r = irls_of(c, lambda w: w)
        t = s_trace(c, r)
        a = -2 * r.ll + 2 * t + 2 * t * (t + 1) * recip(n - t - 1)
        row = lambda i: matmul(Mat(ONE, k, subst(x.body, {R_: i})), wls_c(x, wmul(wvec(sw, i), r.wt2)))
        fin = bapp('finite', mlam(Mat(n, n, subst(row(var('q#')).get(0, VC), {'q#': VR}))), n, n)
        E.eq('corrected AIC', c.result, fin * a + (1 - fin) * DBLMAX)
def ens_ggpred(c, E):
    r = irls_of(c, lambda w: w)
    E.mat('coefficients at the locations', c.result, byrow(m, k, lambda i: wls(c.x, r.adj, wmul(wvec(c.swl, i), r.wt2))))
GV = [{'par': p, 'fam': f, 'hat': h, 'big': b} for p in (SERIAL, OMP) for f in (POISSON, BINOMIAL) for h, b in ((1, 0), (0, 0), (1, 1))]
CVV = [{'par': p, 'fam': f, 'crit': q} for p in (SERIAL, OMP) for f in (POISSON, BINOMIAL) for q in (CV, AICT)]
GG = [Contract('', 'ggwrFit', setup_gg, ens_gg, variants=GV, samp=SAMPLERS, hooks=GHOOKS),
      Contract('', 'ggwrRefit', setup_gg, ens_gg, variants=GV[:1] + GV[3:4] + GV[6:8] + GV[9:10], samp=SAMPLERS, hooks=GHOOKS)]
GGC = [Contract('', 'ggwrCriterion', setup_gg, ens_ggcrit, variants=CVV, samp=SAMPLERS, hooks=GHOOKS)]
GGP = [Contract('', 'ggwrPredict', setup_gg, ens_ggpred, variants=[dict(v, hat=h) for v in CVV[::2] for h in (0, 1)], samp=SAMPLERS, hooks=GHOOKS)]
