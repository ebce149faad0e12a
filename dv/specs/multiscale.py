"""Multiscale GWR (back-fitting with one bandwidth per variable)."""
from specs.gwr import *
import specs.common as CM
CLIENTS = ['clients/multiscale.cpp']
MS_SRC = ['src/gwmodelpp/GWRMultiscale.cpp', 'src/gwmodelpp/SpatialMultiscaleAlgorithm.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp', 'src/gwmodelpp/BandwidthSelector.cpp'] + GWR_SRC[:3]
MCV, MAIC = 0, 1
# ---------------- one variable
def setup_core(c):
    c.ex.fact(lt(0, n)); c.ex.fact(lt(0, TH))
    c.x, c.y, c.sw = symmat('xi', n, 1), symmat('yi', n, 1), sw_obj('sw', n)
    c.F.update({'mCoords': symmat('coords', n, 2), 'mOmpThreadNum': TH, 'mHasHatMatrix': num(c.var.get('hat', 1)), 'mWorkRange': none_range(), 'mStatus': ZERO})
    c.argvals.update({0: c.x, 1: c.y, 2: c.sw})
def col1(b):
    return Mat(n, ONE, b.body)
def ens_core(c, E):
    if 'CV' in c.name:
        E.mat('leave-one-out coefficients of the variable', c.result, s_loo(c.x, c.y, c.sw))
        return
    E.mat('local coefficients of the variable', c.result, s_betas(c.x, c.y, c.sw))
    if 'SHat' in c.name:
        E.eq('trace of S', E.arg(3).lin(ZERO), s_trS(c.x, c.sw))
        E.eq("trace of S'S", E.arg(3).lin(ONE), s_trStS(c.x, c.sw))
    elif c.var['hat']:
        E.mat('hat matrix of the variable', E.arg(3), s_hat(c.x, c.sw))
def frame(E, *fs):
    for f in fs:
        E.ok('frame: %s not modified' % f) if E.unchanged(f) else E.fail('frame: %s not modified' % f, 'assigned')
def tw_core(c):
    w = CM.wvec(c.sw, var('i'))
    if 'CV' in c.name:
        w = Mat(n, ONE, w.body * ne(VR, var('i')))
    return SINGULAR, exists('i', n, sing(gram(c.x, w)))
CORE = [Contract('GWRMultiscale', 'fitVarCore%s%s' % (q, p), setup_core, ens_core, variants=[{'hat': 1}, {'hat': 0}] if not q else [{}], samp=SAMPLERS) for q in ('', 'CV', 'SHat') for p in ('Serial', 'Omp')]
COREF = [Contract('GWRMultiscale', 'fitVarCore%s%s' % (q, p), setup_core, ens_core, variants=[{'hat': 0}] if not q else [{}], samp=SAMPLERS, numfail='fork', tag='singular', throwswhen=tw_core) for q in ('', 'CV', 'SHat') for p in ('Serial', 'Omp')]
def swid(sw):
    w = sw.f['w'].f
    return (sw.f['d'].f['did'], w['mBandwidth'], w['mAdaptive'], w['mKernel'])
def v_beta(x, y, sw):
    return Mat(n, ONE, app('variable.coefficients', *(CM.argid(x) + CM.argid(y) + swid(sw) + (VR,))))
def v_S(x, sw):
    return Mat(n, n, app('variable.S', *(CM.argid(x) + swid(sw) + (VR, VC))))
def fldr(ex, o):
    return lambda q: o.f[q] if q in o.f else ex.default_field(o, q)
def h_core(ex, st, this, a, node):
    x, y, sw = a[0].val(), a[1].val(), CM._val(ex, st, a[2].val())
    if fldr(ex, ex.read(st, this))('mHasHatMatrix') == ONE:
        ex.write(st, a[3].lv(), v_S(x, sw))
    return v_beta(x, y, sw)
def v_loo(x, y, sw):
    return Mat(n, ONE, app('variable.leaveoneout', *(CM.argid(x) + CM.argid(y) + swid(sw) + (VR,))))
def v_tr(x, sw):
    return Mat(num(2), ONE, app('variable.traces', *(CM.argid(x) + swid(sw) + (VR,))))
def h_corecv(ex, st, this, a, node):
    return v_loo(a[0].val(), a[1].val(), CM._val(ex, st, a[2].val()))
def h_coreshat(ex, st, this, a, node):
    x, y, sw = a[0].val(), a[1].val(), CM._val(ex, st, a[2].val())
    ex.write(st, a[3].lv(), v_tr(x, sw))
    return v_beta(x, y, sw)
COREHOOKS = {}
for p_ in ('Serial', 'Omp'):
    COREHOOKS[('GWRMultiscale', 'fitVarCore' + p_)] = h_core
    COREHOOKS[('GWRMultiscale', 'fitVarCoreCV' + p_)] = h_corecv
    COREHOOKS[('GWRMultiscale', 'fitVarCoreSHat' + p_)] = h_coreshat
def pointers(par):
    """the function pointers setParallelType installs (checked through the public interface)"""
    f = lambda nm: Fn([(ONE, 'GWRMultiscale', nm)])
    p = 'Serial' if par == SERIAL else 'Omp'
    return {'mFitVar': f('fitVarBase'), 'mFitVarCore': f('fitVarCore' + p), 'mFitVarCoreCV': f('fitVarCoreCV' + p), 'mFitVarCoreSHat': f('fitVarCoreSHat' + p)}
# ---------------- bandwidth criteria of one variable
def trial():
    return Obj('BandwidthWeight', {'mBandwidth': var('bw', 'R'), 'mAdaptive': bapp('bw.adaptive'), 'mKernel': var('bw.kernel')}, 'bw')
def setup_vcrit(c):
    setup_core(c)
    other = sw_obj('other', n)
    at = c.var['at']
    c.st.store[('h', 'trial')] = trial()
    c.argvals.clear()
    c.argvals[0] = Ptr(LV(('h', 'trial')))
    c.F.update({'mXi': c.x, 'mYi': c.y, 'mSpatialWeights': LSeq([other, c.sw] if at else [c.sw, other]), 'mBandwidthSelectionCurrentIndex': num(at)})
    c.F.update(pointers(c.var['par']))
    c.sw = with_bw(c.sw, trial())
def ens_vcrit(c, E):
    E.eq('criterion of the variable', c.result, s_vcrit('CV' in c.name, c.x, c.y, c.sw))
def s_vcrit(cv, x, y, sw):
    if cv:
        return finite_or_worst(s_rss(x, y, v_loo(x, y, sw)))
    return finite_or_worst(s_aicc(n, s_rss(x, y, v_beta(x, y, sw)), v_tr(x, sw).lin(ZERO)))
VCRIT = [Contract('GWRMultiscale', 'bandwidthSizeCriterionVar%sBase' % q, setup_vcrit, ens_vcrit, variants=[{'at': a, 'par': p} for a, p in ((0, SERIAL), (1, OMP))], samp=SAMPLERS, hooks=COREHOOKS) for q in ('CV', 'AIC')]
# ---------------- back-fitting
def bound(q, given=True):
    return Obj('optional', {'has': bapp('golden%s.given' % q), 'val': var('golden' + q, 'R')} if given else {'has': ZERO, 'val': ZERO})
NULL, INITIAL, SPECIFIED = 0, 1, 2
CVR, DCVR = 0, 1
THRESH, MAXIT = var('threshold', 'R'), var('maxiter')
class Back:
    """state of the back-fitting when the given number of sweeps plus one is reached, recursively"""
    def __init__(self, x, y, sws, b0, s0, sa, dcvr, hat, sel=None):
        self.x, self.y, self.sws, self.b0, self.s0, self.sa, self.dcvr, self.hat, self.sel = x, y, sws, b0, s0, sa, dcvr, hat, sel
        self.K = len(sws)
        self.memo = {}
    def state(self, g):
        g = g if isinstance(g, P) else num(g)
        if g.key not in self.memo:
            if g == ONE:
                r = (self.b0, self.s0, self.sa, self.sel.start() if self.sel else ())
            elif g.t.get((), 0) >= 1 and g.const() is None:
                r = self.sweep(*self.state(g - 1))
            else:
                r = (Mat(n, self.K, app('backfit.betas', g, VR, VC)), Mat(n, n, app('backfit.S', g, VR, VC)), Cube(n, n, self.K, app('backfit.SArray', g, VR, VC, var(S_))), self.sel.after(g) if self.sel else ())
            self.memo[g.key] = r
        return self.memo[g.key]
    def sweep(self, b, s0, sa, bws):
        bws = list(bws)
        cols = [Mat(n, ONE, subst(b.body, {C_: num(i)})) for i in range(self.K)]
        xs = [Mat(n, ONE, subst(self.x.body, {C_: num(i)})) for i in range(self.K)]
        sl = [sa.slice(i) for i in range(self.K)]
        for i in range(self.K):
            part = self.y.body
            for j in range(self.K):
                if j != i:
                    part = part - xs[j].body * cols[j].body
            sw = self.sws[i]
            if self.sel:
                bws[i] = self.sel.step(i, bws[i], xs[i], Mat(n, ONE, part))
                sw = atbw(sw, bws[i][0])
            cols[i] = v_beta(xs[i], Mat(n, ONE, part), sw)
            if self.hat:
                S = v_S(xs[i], sw)
                D = Mat(n, n, sl[i].body - s0.body)
                sl[i] = Mat(n, n, matmul(S, D).body + S.body)
                s0 = Mat(n, n, sl[i].body - D.body)
        return (Mat(n, self.K, pick(VC, [c_.body for c_ in cols])), s0, Cube(n, n, self.K, pick(var(S_), [q.body for q in sl])), tuple(bws))
    def rss(self, g):
        return s_rss(self.x, self.y, self.state(g)[0])
    def change(self, g):
        g = g if isinstance(g, P) else num(g)
        if g == ONE:
            return DBLMAX
        if g.t.get((), 0) >= 1 and g.const() is None:
            d = absp(self.rss(g) - self.rss(g - 1))
            return T.sqrt(d * recip(self.rss(g))) if self.dcvr else d
        return app('backfit.change', g)
def atbw(sw, b):
    return with_bw(sw, Obj('BandwidthWeight', dict(sw.f['w'].f, mBandwidth=b), sw.f['w'].sym))
RETRY, LOWER = var('retries'), var('adaptiveLower')
def orelse(s, q, v):
    return v if not s.given else ite(bapp('golden%s.given' % q), var('golden' + q, 'R'), v)
class Selection:
    """the bandwidths during back-fitting: (bandwidth, number of selections without change, whether settled) per variable"""
    def __init__(self, sws, crits, given):
        self.sws, self.crits, self.given = sws, crits, given
        self.kind = lambda i: app('initial%d' % i, sort='I')
    def start(self):
        return tuple((s.f['w'].f['mBandwidth'], ZERO, self.kind(i)) for i, s in enumerate(self.sws))
    def after(self, g):
        return tuple((app('backfit.bandwidth%d' % i, g), app('backfit.unchanged%d' % i, g, sort='I'), app('backfit.kind%d' % i, g, sort='I')) for i in range(len(self.sws)))
    def step(self, i, cur, x, y):
        bw, cnt, kind = cur
        w = self.sws[i].f['w'].f
        cand = fresh('cand')
        crit = v_crit(self.crits[i] == MCV, x, y, atbw(self.sws[i], var(cand, 'R')))
        lo, up = self.bounds(i)
        new = app('golden', lam([cand], crit), lo, up)
        changed = lt(app('selectThreshold%d' % i), absp(new - bw))
        c2 = ite(changed, ZERO, cnt + 1)
        settled = eq(kind, SPECIFIED)
        return (ite(settled, bw, new), ite(settled, cnt, c2), ite(bor(settled, (1 - changed) * le(RETRY, cnt + 1)), num(SPECIFIED), kind))
    def bounds(self, i):
        ad = self.sws[i].f['w'].f['mAdaptive']
        return orelse(self, 'Lower', ite(ad, LOWER, app('minDist%d' % i))), orelse(self, 'Upper', ite(ad, n, app('maxDist%d' % i)))
def h_golden(ex, st, this, a, node):
    """contract of BandwidthSelector::optimize: a bandwidth that depends only on the criterion as a function of the candidate and on the bounds"""
    import specs.select as SEL
    sel = ex.read(st, this)
    w0 = ex.read(st, sel.f['mBandwidth'].lv)
    root = ('h', 'candidate')
    s2 = st.copy()
    cand = fresh('cand')
    s2.store[root] = Obj('BandwidthWeight', dict(w0.f, mBandwidth=var(cand, 'R')), None)
    val, path = SEL.probe(ex, s2, a[0].val().lv, 'getCriterion', 'BandwidthWeight', VArg(Ptr(LV(root))))
    res = ('h', 'new%d' % next(ex.symid), 'BandwidthWeight')
    st.store[res] = Obj('BandwidthWeight', dict(w0.f, mBandwidth=app('golden', lam([cand], val), sel.f['mLower'], sel.f['mUpper'])), None)
    return Ptr(LV(res))
def v_crit(cv, x, y, sw):
    return app('variable.' + ('cv' if cv else 'aicc'), *(CM.argid(x) + CM.argid(y) + swid(sw)))
def h_vcrit(cv):
    def f(ex, st, this, a, node):
        o = ex.read(st, this)
        i = o.f['mBandwidthSelectionCurrentIndex'].const()
        sw = o.f['mSpatialWeights'].els[int(i)]
        return v_crit(cv, o.f['mXi'], o.f['mYi'], with_bw(sw, CM._val(ex, st, a[0].val())))
    return f
SELHOOKS = dict(COREHOOKS)
SELHOOKS[('GWRMultiscale', 'bandwidthSizeCriterionVarCVBase')] = h_vcrit(1)
SELHOOKS[('GWRMultiscale', 'bandwidthSizeCriterionVarAICBase')] = h_vcrit(0)
SELHOOKS[('BandwidthSelector', 'optimize')] = h_golden
def pick(ix, els):
    r = ZERO
    for i, e in enumerate(els):
        r = r + eq(ix, i) * e
    return r
def setup_back(c):
    ex, K = c.ex, c.var['K']
    ex.fact(lt(0, n)); ex.fact(lt(0, TH)); ex.fact(le(0, MAXIT))
    hat = c.var['hat']
    c.x, c.y, co = symmat('x', n, K), symmat('y', n, 1), symmat('coords', n, 2)
    c.sws = [sw_obj('sw%d' % i, n) for i in range(K)]
    b0, s0 = symmat('betas0', n, K), symmat('S0', n, n)
    sa = Cube(n, n, num(K), app('SArray0', VR, VC, var(S_)))
    c.F.update({'mX': c.x, 'mY': c.y, 'mCoords': co, 'mOmpThreadNum': TH, 'mHasHatMatrix': num(hat), 'mStatus': ZERO, 'mSpatialWeights': LSeq(c.sws),
                'mBandwidthInitilize': LSeq([num(SPECIFIED)] * K), 'mMaxIteration': MAXIT, 'mCriterionThreshold': THRESH, 'mCriterionType': num(c.var['type']), 'mWorkRange': none_range(),
                'mXi': symmat('previous.xi', var('na'), 1), 'mYi': symmat('previous.yi', var('nb'), 1), 'mS0': s0, 'mSArray': sa, 'mRSS0': var('previous.rss', 'R')})
    c.F.update(pointers(SERIAL))
    c.argvals[0] = b0
    sel = None
    if c.var.get('sel'):
        crits = [MCV, MAIC, MCV][:K]
        sel = Selection(c.sws, crits, not hat)
        c.F.update({'mBandwidthInitilize': LSeq([sel.kind(i) for i in range(K)]), 'mBandwidthSelectionApproach': LSeq([num(q) for q in crits]), 'mBandwidthSelectRetryTimes': RETRY, 'mAdaptiveLower': LOWER,
                    'mBandwidthSelectThreshold': LSeq([app('selectThreshold%d' % i) for i in range(K)]), 'mMaxDistances': LSeq([app('maxDist%d' % i) for i in range(K)]), 'mMinDistances': LSeq([app('minDist%d' % i) for i in range(K)]),
                    'mBandwidthSelectionCurrentIndex': ZERO, 'mParallelType': num(SERIAL), 'mGoldenLowerBounds': bound('Lower', sel.given), 'mGoldenUpperBounds': bound('Upper', sel.given), 'mBandwidthLastCriterion': var('last', 'R')})
    s = c.s = Back(c.x, c.y, c.sws, b0, s0, sa, c.var['type'] == DCVR, hat, sel)
    def heads(key, init, sort):
        return 'sweeps' if init == ONE and sort == 'I' and not (key[1] and key[1][-1] in ('nr', 'nc', 'ns')) else None
    def scal(ex, leaves):
        out = []
        for t, q in enumerate(leaves):
            if q[3] == ONE and q[2] == 'I':
                for i, l in enumerate(leaves):
                    if i != t:
                        out.append(('residual sum of squares of the current sweep', lambda g, i=i, t=t: (g[i], s.rss(g[t]))))
                        out.append(('change of the residual sum of squares', lambda g, i=i, t=t: (g[i], s.change(g[t]))))
                if sel:
                    for i, l in enumerate(leaves):
                        for v_ in range(K):
                            for w_, lab in ((0, 'bandwidth'), (1, 'selections without change'), (2, 'kind')):
                                out.append(('%s of variable %d' % (lab, v_), lambda g, i=i, t=t, v_=v_, w_=w_: (g[i], s.state(g[t])[3][v_][w_])))
                out.append(('no more than the maximal number of sweeps', lambda g, t=t: le(g[t], MAXIT + 1)))
        return out
    def arr(ex, scalars, arrays):
        out = []
        for key, fm, init in arrays:
            for t, sort, i0 in scalars:
                if i0 == ONE and sort == 'I':
                    if len(fm) == 1:
                        out.append(('residuals of the current sweep', key, lambda g, t=t: c.y.body - s_fitted(c.x, s.state(g[t])[0]).body))
                        if sel:
                            out.append(('selections without change of each variable', key, lambda g, t=t: pick(VR, [q[1] for q in s.state(g[t])[3]])))
                    if len(fm) == 2:
                        out.append(('coefficients of the current sweep', key, lambda g, t=t: s.state(g[t])[0].body))
                        if hat:
                            out.append(('hat matrix of the current sweep', key, lambda g, t=t: s.state(g[t])[1].body))
                    if len(fm) == 3 and hat:
                        out.append(('hat matrices of the variables', key, lambda g, t=t: s.state(g[t])[2].body))
        return out
    ex.templates, ex.arrtemplates, ex.headnames = scal, arr, heads
SW = var('sweeps', 'I')
def ens_back(c, E):
    s, ran = c.s, getattr(c.ex, 'ran', ONE)          # whether there was a first sweep
    (b1, s1, _, w1), (b0, s0, _, w0) = s.state(SW + 1), s.state(ONE)
    either = lambda p, q: ran * p + (1 - ran) * q
    E.mat('coefficients of the last sweep', c.result, Mat(n, s.K, either(b1.body, b0.body)))
    E.eq('residual sum of squares of the last sweep', E.field('mRSS0'), either(s.rss(SW + 1), s.rss(ONE)))
    E.eq('the sweeps end by convergence or at the maximal number', either(bor(le(s.change(SW + 1), THRESH), eq(SW, MAXIT)), bor(eq(MAXIT, 0), le(DBLMAX, THRESH))), ONE)
    if c.var['hat']:
        E.mat('hat matrix of the last sweep', E.field('mS0'), Mat(n, n, either(s1.body, s0.body)))
    if c.var.get('sel'):
        ws = E.field('mSpatialWeights').els
        for i in range(s.K):
            E.eq('bandwidth of variable %d after the last sweep' % i, ws[i].f['w'].f['mBandwidth'], either(w1[i][0], w0[i][0]))
    frame(E, 'mX', 'mY', 'mCoords', 'mCriterionThreshold', 'mMaxIteration')
BACK = [Contract('GWRMultiscale', 'backfitting', setup_back, ens_back, samp=SAMPLERS, hooks=COREHOOKS, variants=[{'K': k_, 'type': t, 'hat': h} for k_ in (2, 3) for t, h in ((DCVR, 1), (CVR, 0))])]
SELB = [Contract('GWRMultiscale', 'backfitting', setup_back, ens_back, samp=SAMPLERS, hooks=SELHOOKS, tag='selecting', variants=[{'K': 2, 'type': DCVR, 'hat': h, 'sel': 1} for h in (0, 1)])]
# ---------------- the whole fit: what back-fitting starts from, and what is reported
def h_gwr(ex, st, this, a, node):
    """contract of GWRBasic::fit (R01, R04): coefficients, standard errors and hat matrices that depend only on the configuration, recorded here and compared with the one required"""
    o = fldr(ex, ex.read(st, this))
    ex.initial = {q: o(q) for q in ('mX', 'mY', 'mCoords', 'mSpatialWeight', 'mIsAutoselectBandwidth', 'mHasHatMatrix', 'mStoreS', 'mStoreC', 'mGoldenLowerBounds', 'mGoldenUpperBounds', 'mBandwidthSelectionCriterion', 'mParallelType')}
    x = ex.initial['mX']
    N, K = x.nr, x.nc
    for f, v in (('mBetas', Mat(N, K, app('initial.betas', VR, VC))), ('mBetasSE', Mat(N, K, app('initial.se', VR, VC))), ('mS', Mat(N, N, app('initial.S', VR, VC))), ('mC', Cube(K, N, N, app('initial.C', VR, VC, var(S_))))):
        ex.write(st, this + ('f', f), v)
    return Mat(N, K, app('initial.betas', VR, VC))
def h_back(ex, st, this, a, node):
    o = fldr(ex, ex.read(st, this))
    ex.started = {q: o(q) for q in ('mX', 'mY', 'mCoords', 'mSpatialWeights', 'mBandwidthInitilize', 'mHasHatMatrix', 'mMaxDistances', 'mMinDistances', 'mS0', 'mSArray') + tuple(POINTERS)}
    ex.started['betas'] = a[0].val()
    N, K = ex.started['mX'].nr, ex.started['mX'].nc
    ex.write(st, this + ('f', 'mRSS0'), app('backfit.rss'))
    ex.write(st, this + ('f', 'mS0'), Mat(N, N, app('backfit.hat', VR, VC)))
    return Mat(N, K, app('backfit.result', VR, VC))
POINTERS = ('mFitVar', 'mFitVarCore', 'mFitVarCoreCV', 'mFitVarCoreSHat')
FITHOOKS = dict(SELHOOKS)
FITHOOKS[('GWRBasic', 'fit')] = h_gwr
FITHOOKS[('GWRMultiscale', 'backfitting')] = h_back
def setup_mfit(c):
    ex, v = c.ex, c.var
    K = len(v['init'])
    ex.fact(lt(0, n)); ex.fact(lt(0, TH))
    c.x, c.y, c.co = symmat('x', n, K), symmat('y', n, 1), symmat('coords', n, 2)
    c.sws = [sw_obj('sw%d' % i, n) for i in range(K)]
    for s in c.sws:
        crs(c, s)
    a = [c.x, c.y, c.co, LSeq(c.sws), LSeq([num(q) for q in v['init']]), LSeq([num(q) for q in v['crit']]), LSeq([num(q) for q in v['cent']]), LSeq([app('selectThreshold%d' % i) for i in range(K)])]
    a += [num(v.get('ic', 1)), num(v['hat']), par(c), TH] if c.name == 'mgwrFit' else [LO, UP, TH]
    c.argvals.update(dict(enumerate(a)))
    c.o = len(a)
LO, UP = var('lower', 'R'), var('upper', 'R')
def elem(s, i):
    return s.els[i] if isinstance(s, LSeq) else subst(s.el, {'@k': num(i)})
def ens_mfit(c, E):
    ex, v = c.ex, c.var
    K, hat = len(v['init']), v['hat']
    bounds = c.name == 'mgwrBounds'
    i0, b0 = getattr(ex, 'initial', None), getattr(ex, 'started', None)
    if i0 is None or b0 is None:
        E.fail('initial fit and back-fitting take place', 'not called')
        return
    cols = []
    for i in range(K):
        x_ = subst(c.x.body, {C_: num(i)})
        if v['cent'][i] and i >= v.get('ic', 1):
            x_ = x_ - ssum('t#', n, c.x.get(var('t#'), num(i))) * recip(n)
        cols.append(x_)
    X = Mat(n, K, pick(VC, cols))
    # initial fit
    def same(nm, got, want):
        g, w = CM.argid(got) if isinstance(got, Mat) else swid(got), CM.argid(want) if isinstance(want, Mat) else swid(want)
        if isinstance(got, Mat):
            E.mat(nm, got, want)
        else:
            for p, q, u in zip(g, w, ('distance', 'bandwidth', 'kind', 'kernel')):
                E.eq('%s: %s' % (nm, u), p, q)
    same('initial fit: centred variables', i0['mX'], X)
    same('initial fit: response', i0['mY'], c.y)
    same('initial fit: coordinates', i0['mCoords'], c.co)
    same('initial fit: weighting of the first variable', i0['mSpatialWeight'], c.sws[0])
    E.eq('initial fit: selects its bandwidth', i0['mIsAutoselectBandwidth'], ONE)
    E.eq('initial fit: criterion', i0['mBandwidthSelectionCriterion'], num(1 if v['crit'][0] == MCV else 0))
    E.eq('initial fit: parallel type', i0['mParallelType'], num(v.get('par', OMP)))
    if hat:
        E.eq('initial fit: hat matrices', i0['mHasHatMatrix'] * i0['mStoreS'] * i0['mStoreC'], ONE)
    for q, w in (('Lower', LO), ('Upper', UP)):
        E.eq('initial fit: %s bound given' % q, i0['mGolden%sBounds' % q].f['has'], num(bounds))
        if bounds:
            E.eq('initial fit: %s bound' % q, i0['mGolden%sBounds' % q].f['val'], w)
    # what back-fitting starts from
    same('back-fitting: variables', b0['mX'], X)
    same('back-fitting: response', b0['mY'], c.y)
    same('back-fitting: coordinates', b0['mCoords'], c.co)
    E.mat('back-fitting: initial coefficients', b0['betas'], Mat(n, K, app('initial.betas', VR, VC)))
    p = pointers(v.get('par', OMP))
    for q in POINTERS:
        (E.ok if repr(b0[q]) == repr(p[q]) else lambda nm: E.fail(nm, '%r' % (b0[q],)))('back-fitting: %s of the parallel type' % q)
    for i in range(K):
        sw = prepared(c.sws[i], c.co, c.co)
        did = sw.f['d'].f['did']
        ad = sw.f['w'].f['mAdaptive']
        xi = Mat(n, ONE, cols[i])
        if v['init'][i] == NULL:
            cand = fresh('cand')
            crit = v_crit(v['crit'][i] == MCV, xi, c.y, atbw(sw, var(cand, 'R')))
            lo, up = (LO, UP) if bounds else (ite(ad, num(10), app('minDistance', did)), ite(ad, n, app('maxDistance', did)))
            sw = atbw(sw, app('golden', lam([cand], crit), lo, up))
        same('back-fitting: weighting of variable %d' % i, b0['mSpatialWeights'].els[i], sw)
        E.eq('back-fitting: kind of variable %d' % i, b0['mBandwidthInitilize'].els[i], num(v['init'][i]))
        if v['init'][i] != SPECIFIED:
            E.eq('back-fitting: maximal distance of variable %d' % i, elem(b0['mMaxDistances'], i), app('maxDistance', did))
            E.eq('back-fitting: minimal distance of variable %d' % i, elem(b0['mMinDistances'], i), app('minDistance', did))
        if hat:
            E.mat('back-fitting: initial hat matrix of variable %d' % i, b0['mSArray'].slice(i), Mat(n, n, cols[i] * app('initial.C', num(i), VC, VR)))
    E.eq('back-fitting: hat matrix wanted', b0['mHasHatMatrix'], num(hat))
    if hat:
        E.mat('back-fitting: initial hat matrix', b0['mS0'], Mat(n, n, app('initial.S', VR, VC)))
    # what is reported
    B = Mat(n, K, app('backfit.result', VR, VC))
    E.mat('coefficients returned', E.arg(c.o), B)
    E.mat('coefficients reported', E.arg(c.o + 1), B)
    t, u = var('t#'), var('u#')
    trs = ssum('t#', n, app('backfit.hat', t, t)) if hat else ZERO
    trss = ssum('t#', n, ssum('u#', n, power(app('backfit.hat', t, u), 2))) if hat else ZERO
    ens_diag(E, E.arg(c.o + 2), n, app('backfit.rss'), s_yss(c.y), trs, trss)
FVM = [{'init': (2, 2), 'crit': (0, 1), 'cent': (0, 0), 'hat': 1, 'par': SERIAL}, {'init': (0, 1, 2), 'crit': (1, 0, 1), 'cent': (1, 1, 0), 'hat': 1, 'par': OMP},
       {'init': (1, 0), 'crit': (0, 1), 'cent': (1, 1), 'ic': 0, 'hat': 0, 'par': SERIAL}, {'init': (0,), 'crit': (0,), 'cent': (1,), 'hat': 1, 'par': SERIAL}]
FITM = [Contract('', 'mgwrFit', setup_mfit, ens_mfit, samp=SAMPLERS, hooks=FITHOOKS, variants=FVM),
        Contract('', 'mgwrBounds', setup_mfit, ens_mfit, samp=SAMPLERS, hooks=FITHOOKS, variants=[{'init': (0, 1), 'crit': (1, 0), 'cent': (0, 1), 'hat': 1}])]
