"""Bandwidth selection (golden section) and forward variable selection."""
from specs.gwr import *
CLIENTS = ['clients/select.cpp']
SELECT_SRC = ['src/gwmodelpp/BandwidthSelector.cpp', 'src/gwmodelpp/VariableForwardSelector.cpp']
LO, UP = var('lower', 'R'), var('upper', 'R')
BEST, CNT, ALLOK = LV(('g', 'best')), LV(('g', 'evaluations')), LV(('g', 'allcompleted'))

def crit(w):
    return app('crit', w.f['mBandwidth'], w.f['mAdaptive'], w.f['mKernel'])
def h_criterion(cancel):
    """contract of IBandwidthSelectable::getCriterion: with Success the criterion of the bandwidth given, otherwise the worst value"""
    def h(ex, st, this, a, node):
        w = ex.read(st, a[0].val().lv)
        cnt, best = ex.read(st, CNT), ex.read(st, BEST)
        ok = bapp('completes', cnt) if cancel else ONE
        f = crit(w)
        ex.fact(le(f, DBLMAX)) if not (f.fv) else None
        f = ite(ok, f, DBLMAX)
        ex.write(st, a[1].lv(), f)
        ex.write(st, BEST, ite(eq(cnt, 0), f, min2(best, f)))
        ex.write(st, CNT, cnt + 1)
        if cancel:
            ex.write(st, ALLOK, ex.read(st, ALLOK) * ok)
        return ONE - ok      # Status::Success = 0, Terminated = 1
    return h
def templates(ex, leaves):
    """candidate loop invariants; which of them hold is decided by proof"""
    cancelled = ex.cancelled
    R = [i for i, (nm, path, sort, init) in enumerate(leaves) if sort == 'R']
    I = [i for i, (nm, path, sort, init) in enumerate(leaves) if sort == 'I']
    out = []
    nm = lambda i: '.'.join([leaves[i][0].split(',')[-1].strip(" ')")] + [str(x) for x in leaves[i][1]])
    for i in I:
        for j in I:
            if i != j:
                for d in (0, 1, 2):
                    out.append(('%s == %s + %d' % (nm(i), nm(j), d), lambda g, i=i, j=j, d=d: (g[i], g[j] + d)))
        out.append(('0 <= %s' % nm(i), lambda g, i=i: le(0, g[i])))
        for b in (100,):
            out.append(('%s <= %d' % (nm(i), b), lambda g, i=i, b=b: le(g[i], b)))
    for b in I if cancelled else ():
        for i in I:
            for j in I:
                if i < j and b not in (i, j):
                    out.append(('%s == both succeeded' % nm(b), lambda g, b=b, i=i, j=j: (g[b], eq(g[i], 0) * eq(g[j], 0))))
    cr = ex.crit
    if cancelled:
        R = ()
    for i in R:
        for j in R:
            if i != j:
                out.append(('%s is the criterion of %s' % (nm(i), nm(j)), lambda g, i=i, j=j: (g[i], cr(g[j]))))
                for q in R:
                    if q > j and q != i:
                        out.append(('%s = min(%s, %s)' % (nm(i), nm(j), nm(q)), lambda g, i=i, j=j, q=q: (g[i], min2(g[j], g[q]))))
        out.append(('lower <= %s' % nm(i), lambda g, i=i: le(LO, g[i])))
        out.append(('%s <= upper' % nm(i), lambda g, i=i: le(g[i], UP)))
    return out
def mapinv(ex, key, val):
    return [('every recorded criterion is that of its bandwidth', eq(val, ex.crit(key)))]

def setup_bw(c):
    ex = c.ex
    ex.fact(le(LO, UP))
    ad, ke = num(c.var['adaptive']), var('kernel')
    ex.fact(le(0, ke)); ex.fact(lt(ke, 5))
    c.ad, c.ke = ad, ke
    ex.crit = lambda x: app('crit', x, ad, ke)
    ex.cancelled = c.var['cancel']
    ex.templates, ex.mapinv = templates, mapinv
    st = c.st
    st.store[('g', 'best')], st.store[('g', 'evaluations')] = var('best0', 'R'), ZERO
    if c.var['cancel']:
        st.store[('g', 'allcompleted')] = ONE
    st.store[('h', 'initial')] = Obj('BandwidthWeight', {'mBandwidth': var('bw0', 'R'), 'mAdaptive': ad, 'mKernel': ke}, None)
    st.store[('h', 'model')] = Obj('IBandwidthSelectable', {}, None)
    c.argvals.update({0: Ptr(LV(('h', 'model'))), 1: Ptr(LV(('h', 'initial'))), 2: LO, 3: UP})
def ens_bw(c, E):
    bw = E.arg(4)
    ev, best = c.ex.read(c.post, CNT), c.ex.read(c.post, BEST)
    E.eq('kernel preserved', E.arg(6), c.ke)
    E.eq('kind of bandwidth preserved', E.arg(5), c.ad)
    if c.var['cancel']:
        E.holds('after an evaluation that did not complete the bandwidth given stays in force', bor(c.ex.read(c.post, ALLOK), eq(bw, var('bw0', 'R'))))
        return
    E.eq('criterion of the chosen bandwidth is the smallest evaluated', c.ex.crit(bw), best)
    E.holds('chosen bandwidth at least the lower bound', le(LO, bw))
    E.holds('chosen bandwidth at most the upper bound', le(bw, UP))
    E.holds('at most 102 evaluations', le(ev, 102))
BWSEL = [Contract('', 'selectBandwidth', setup_bw, ens_bw, variants=[{'adaptive': a, 'cancel': 0} for a in (0, 1)], samp=SAMPLERS, nothrow=False,
                  hooks={('IBandwidthSelectable', 'getCriterion'): h_criterion(0)}, base=TELEGRAM),
         Contract('', 'selectBandwidth', setup_bw, ens_bw, variants=[{'adaptive': a, 'cancel': 1} for a in (0, 1)], samp=SAMPLERS, nothrow=False, tag='cancel',
                  hooks={('IBandwidthSelectable', 'getCriterion'): h_criterion(1)}, base=TELEGRAM)]

# ---------------- fits that select their bandwidth: the selection itself by its contract
CAND = var('candidate', 'R')
def probe(ex, st, model, method, argtype, arg):
    """value the model's getCriterion gives for an arbitrary candidate in the current state"""
    m = ex.read(st, model)
    for cls in ex.mro(ex.frames[-1].tu, m.cls):
        for t in [ex.frames[-1].tu] + list(ex.prog.tus.values()):
            for fn in t.methods.get((cls, method), []):
                if argtype in fn['type']['qualType']:
                    s2 = st.copy()
                    out = LV(('l', 'probe%d' % next(ex.symid), 0))
                    s2.store[out.root] = ZERO
                    n = len(ex.obls)
                    ex.inline(fn, t, model, [arg, RefArg(ex, s2, out)], s2, cls)
                    return ex.read(s2, out), s2.path
    raise Unsupported('%s::%s not found' % (m.cls, method))
class RefArg:
    default = False
    def __init__(self, ex, st, l):
        self.ex, self.st, self.l = ex, st, l
    def lv(self):
        return self.l
    def val(self):
        return self.ex.read(self.st, self.l)
def h_optimize(ex, st, this, a, node):
    """contract of BandwidthSelector::optimize: some bandwidth between the bounds, same kernel and kind (its optimality is selectBandwidth)"""
    sel = ex.read(st, this)
    w0 = ex.read(st, sel.f['mBandwidth'].lv)
    ex.selected = (sel.f['mLower'], sel.f['mUpper'], w0)
    root = ('h', 'candidate')
    s2 = st.copy()
    s2.store[root] = Obj('BandwidthWeight', dict(w0.f, mBandwidth=CAND), None)
    ex.probed = probe(ex, s2, a[0].val().lv, 'getCriterion', 'BandwidthWeight', VArg(Ptr(LV(root))))
    res = ('h', 'new%d' % next(ex.symid), 'BandwidthWeight')
    st.store[res] = Obj('BandwidthWeight', dict(w0.f, mBandwidth=var('chosen', 'R')), None)
    return Ptr(LV(res))
def h_list(ex, st, this, a, node):
    return Opq(app('criteria', sort='O'), 'list')
AUTOHOOKS = {('BandwidthSelector', 'optimize'): h_optimize, ('BandwidthSelector', 'bandwidthCriterion'): h_list}
def setup_auto(c):
    c.x, c.y, c.co, sw = data(c)
    v = c.var
    gt = c.name.startswith('gtwr')
    a = [c.x, c.y, c.co]
    if gt:
        c.t = symmat('times', n, 1)
        a.append(c.t)
        c.ex.fact(eq(sw.f['d'].f['type'], 4))
        c.sw = prepared(sw, c.co, c.co, c.t, c.t)
    else:
        crs(c, sw)
        c.sw = prepared(sw, c.co, c.co)
    a.append(sw)
    if 'crit' in v:
        a += [num(v['crit']), par(c), TH]
        if not gt:
            a += [num(v.get('bounds', 0)), LO, UP]
    c.argvals.update(dict(enumerate(a)))
    c.o = len(a)
    c.ad = sw.f['w'].f['mAdaptive']
def ens_auto(c, E):
    w = c.sw.f['w'].f
    swof = lambda b: with_bw(c.sw, Obj('BandwidthWeight', dict(w, mBandwidth=b), None))
    if getattr(c.ex, 'selected', None) is None:
        E.fail('the bandwidth is selected', 'the selector is not called')
        return
    lo, up, w0 = c.ex.selected
    if c.var.get('bounds'):
        E.eq('lower bound of the search', lo, LO); E.eq('upper bound of the search', up, UP)
    else:
        E.eq('lower bound of the search', lo, 20 * c.ad)
        E.eq('upper bound of the search', up, ite(c.ad, n, app('maxDistance', c.sw.f['d'].f['did'])))
    E.eq('initial bandwidth kind', w0.f['mAdaptive'], c.ad)
    E.eq('initial bandwidth kernel', w0.f['mKernel'], w['mKernel'])
    # what is minimised: the criterion chosen (or reported), of the candidate bandwidth, on the prepared data
    val, path = c.ex.probed
    s = swof(CAND)
    cv = finite_or_worst(s_rss(c.x, c.y, s_loo(c.x, c.y, s)))
    aic = finite_or_worst(s_aicc(n, s_rss(c.x, c.y, s_betas(c.x, c.y, s)), s_trS(c.x, s)))
    k = num(c.var['crit']) if 'crit' in c.var else E.arg(c.o + 2)
    E.eq('the criterion minimised is the one chosen', val, ite(eq(k, CV), cv, aic), path)
    E.eq('bandwidth in force afterwards', E.arg(c.o + 1), var('chosen', 'R'))
    E.mat('coefficients are those of the selected bandwidth', E.arg(c.o), s_betas(c.x, c.y, swof(var('chosen', 'R'))))
AUTO = [Contract('', 'gwrAuto', setup_auto, ens_auto, variants=[{'par': p, 'crit': q, 'bounds': b} for p, q, b in ((1, 0, 0), (1, 1, 1), (2, 0, 1), (2, 1, 0))], samp=SAMPLERS, hooks=AUTOHOOKS),
        Contract('', 'gwrAutoDefault', setup_auto, ens_auto, samp=SAMPLERS, hooks=AUTOHOOKS),
        Contract('', 'gtwrAuto', setup_auto, ens_auto, variants=[{'par': p, 'crit': q} for p in (1, 2) for q in (0, 1)], samp=SAMPLERS, hooks=AUTOHOOKS),
        Contract('', 'gtwrAutoDefault', setup_auto, ens_auto, samp=SAMPLERS, hooks=AUTOHOOKS)]

# ---------------- forward variable selection
NV = var('nv'); NM = var('models')
def setup_select(c):
    ex = c.ex
    ex.fact(lt(0, NM))
    K = var('@k')
    c.F['mThreshold'] = var('threshold', 'R')
    c.models = Seq(NM, Obj('pair', {'first': Seq(app('len', K, sort='I'), app('member', K, var('@j'), sort='I')), 'second': app('criterion', K)}))
    c.argvals[0] = c.models
def ens_select(c, E):
    t = fresh('t')
    cr = lambda i: app('criterion', i)
    enough = le(var('threshold', 'R'), cr(NM - 2 - var(t)) - cr(NM - 1 - var(t)))      # drop reached at the t-th model from the end
    none = forall(t, NM - 1, ONE - enough)
    # the last model whose criterion drops by at least the threshold from the one before; the last model when there is none
    idx = ite(none, NM - 1, NM - 1 - app('first', lam([t], enough), NM - 1, sort='I'))
    E.eq('criterion of the model selected', c.result.f['second'], ite(none, cr(NM - 1), cr(NM - 1 - app('first', lam([t], enough), NM - 1, sort='I'))))
    E.eq('number of variables of the model selected', c.result.f['first'].n, app('len', idx, sort='I'))
    E.eq('variables of the model selected', c.result.f['first'].el, app('member', idx, var('@j'), sort='I'))
def setup_convert(c):
    c.ex.fact(le(0, NV)); c.ex.fact(le(0, m))
    c.F['mVariables'] = Seq(NV, app('vars', var('@k'), sort='I'))
    at = lambda i: app('idx', i, sort='I')
    prove.AXIOMS['idx'] = lambda i: [bor(ONE - le(0, i) * lt(i, m), le(0, at(i)) * lt(at(i), NV))]
    c.ex.fact(forall('i', m, le(0, at(var('i'))) * lt(at(var('i')), NV)))
    c.argvals[0] = Seq(m, at(var('@k')))
def ens_convert(c, E):
    j = var('j#')
    E.eq('number of variables', c.result.n, m)
    E.eq('variables named by the indices', c.result.at(j), app('vars', app('idx', j, sort='I'), sort='I'), [le(0, j), lt(j, m)])
def setup_idx2(c):
    c.ex.fact(le(0, m))
    c.argvals.update({0: Seq(m, app('idx', var('@k'), sort='I')), 1: num(c.var['intercept'])})
def ens_idx2(c, E):
    o = c.var['intercept']
    E.mat('columns: the intercept if present, then the variables given in order', c.result, colv(m + o, lambda i: ite(lt(i, o), ZERO, app('idx', i - o, sort='I'))))
VSEL = [Contract('VariableForwardSelector', 'select', setup_select, ens_select, samp=SAMPLERS, base=TELEGRAM, public=True),
        Contract('VariableForwardSelector', 'convertIndexToVariables', setup_convert, ens_convert, samp=SAMPLERS, base=TELEGRAM, public=True),
        Contract('VariableForwardSelector', 'index2uvec', setup_idx2, ens_idx2, samp=SAMPLERS, base=TELEGRAM, public=True, variants=[{'intercept': 0}, {'intercept': 1}])]

# ---------------- the whole greedy search, for a number of variables fixed per obligation
def vcrit(els):
    return app('vcrit', *els)
def h_vcriterion(ex, st, this, a, node):
    """contract of IVarialbeSelectable::getCriterion: the criterion of the variables given, in order"""
    v = a[0].val()
    if not isinstance(v, LSeq):
        raise Unsupported('criterion of a list of unknown length')
    els = [ex.scalar(e) for e in v.els]
    ex.evaluated.append((list(st.path), els))
    ok = ONE
    if ex.cancel_at is not None:
        ok = num(1 if len(ex.evaluated) - 1 != ex.cancel_at else 0)
    f = vcrit(els)
    ex.fact(le(f, DBLMAX))
    ex.write(st, a[1].lv(), f if ok.t else DBLMAX)
    return ONE - ok
def setup_vars(c):
    ex = c.ex
    K = c.var['K']
    ex.expand_min = 4
    ex.evaluated = []
    ex.cancel_at = c.var.get('cancel')
    c.vs = [var('v%d#' % k) for k in range(K)]
    for i in range(K):
        for j in range(i):
            ex.fact(bor(lt(c.vs[i], c.vs[j]), lt(c.vs[j], c.vs[i])))
    c.st.store[('h', 'model')] = Obj('IVarialbeSelectable', {}, None)
    c.argvals.update({0: Ptr(LV(('h', 'model'))), 1: LSeq(c.vs), 2: var('threshold', 'R'), 3: LSeq([]), 4: LSeq([])})
def ens_vars(c, E):
    K, ev = c.var['K'], c.ex.evaluated
    out = E.arg(3)
    if c.var.get('cancel') is not None:
        E.eq('number of models evaluated', num(len(ev)), num(c.var['cancel'] + 1))
        E.eq('after a cancellation the variables given are kept', out.n if isinstance(out, Seq) else num(len(out.els)), num(K))
        for k in range(K):
            E.eq('after a cancellation the variables given are kept', vals.to_seq(out).at(num(k)), c.vs[k])
        return
    # the greedy path: every model of a level is the current one extended by a remaining variable; the best is kept
    E.eq('number of models evaluated', num(len(ev)), num(K * (K + 1) // 2))
    rec = E.arg(4)
    E.eq('number of models recorded', num(len(rec.els)) if isinstance(rec, LSeq) else rec.n, num(K * (K + 1) // 2))
    if len(ev) != K * (K + 1) // 2 or not isinstance(rec, LSeq) or len(rec.els) != len(ev):
        return
    cur, rest, pos = [], list(c.vs), 0
    RC = lambda i: rec.els[i].f['second']
    def conj(l):
        r = ONE
        for x in l:
            r = r * x
        return r
    for lev in range(K):
        models = [cur + [r] for r in rest]
        for j, mod in enumerate(models):
            E.holds('every remaining variable extends the current model exactly once',
                    _any([conj([eq(a, b) for a, b in zip(ev[pos + i][1], mod)]) for i in range(len(models)) if len(ev[pos + i][1]) == len(mod)] or [ZERO]))
        N = len(models)
        block = [vals.to_seq(rec.els[pos + j].f['first']) for j in range(N)]
        same = lambda b, mod: [eq(b.n, lev + 1)] + [eq(b.at(num(q)), mod[q]) for q in range(lev + 1)]
        for j in range(N):
            E.holds('recorded: every evaluated model', _any([conj(same(block[i], models[j])) for i in range(N)]))
            E.holds('recorded: with its own criterion', _any([conj(same(block[i], models[j]) + [eq(RC(pos + i), vcrit(models[j]))]) for i in range(N)]))
            if j:
                E.holds('recorded from the worst to the best', le(RC(pos + j), RC(pos + j - 1)))
        best = ZERO
        for k in range(1, N):
            bv = vcrit(models[0])
            for q in range(1, k):
                bv = min2(bv, vcrit(models[q]))
            best = ite(lt(vcrit(models[k]), bv), num(k), best)
        pick = rest[-1]
        for k in range(N - 2, -1, -1):
            pick = ite(eq(best, k), rest[k], pick)
        cur = cur + [pick]
        rest = [ite(lt(num(k), best), rest[k], rest[k + 1]) for k in range(N - 1)]
        pos += N
    # the model chosen: the last whose criterion drops by at least the threshold from the one before, the last when there is none
    M_ = len(rec.els)
    sel = vals.to_seq(rec.els[M_ - 1].f['first'])
    for i in range(1, M_):
        w = le(var('threshold', 'R'), RC(i - 1) - RC(i))
        sel = vmerge(w, vals.to_seq(rec.els[i].f['first']), sel)
    o = vals.to_seq(out)
    E.eq('number of variables selected', o.n, sel.n)
    for q in range(K):
        E.eq('variables selected', o.at(num(q)), sel.at(num(q)), [lt(num(q), sel.n)])
def _any(l):
    r = l[0]
    for x in l[1:]:
        r = bor(r, x)
    return r
VOPT = [Contract('', 'selectVariables', setup_vars, ens_vars, variants=[{'K': k} for k in (1, 2, 3)] + [{'K': k, 'cancel': i} for k in (1, 2, 3) for i in range(k * (k + 1) // 2)], samp=SAMPLERS,
                 hooks={('IVarialbeSelectable', 'getCriterion'): h_vcriterion}, base=TELEGRAM)]
