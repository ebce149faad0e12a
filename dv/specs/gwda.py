"""Geographically weighted discriminant analysis at the public interface."""
from specs.gwr import *
CLIENTS = ['clients/gwda.cpp']
SRC = ['src/gwmodelpp/GWDA.cpp', 'src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp', 'src/gwmodelpp/SpatialAlgorithm.cpp']
p_ = var('p')

# Names of groups are only compared with each other: without loss of generality the g-th level (in order of appearance) is the
# value g, and the name of an observation is one of these values.
def groups(nm, nn):
    return Seq(nn, app('grp', var(nm + '$id'), var('@k'), sort='I'))
def levels_of(m):
    return LSeq([num(g) for g in range(m)])
def s_wcov(x, w):
    """weighted covariance matrix (GWDA::covwtmat, under its own contract)"""
    return Mat(x.nc, x.nc, app('wcov', mlam(x), x.nr, x.nc, vlam(w), VR, VC))
def s_entropy(p):
    """Shannon entropy (GWDA::shannonEntropy, under its own contract)"""
    return app('entropy', vlam(p), vlen(p))
def hooks(m):
    def h_levels(ex, st, this, a, node):
        return levels_of(m)
    def h_table(ex, st, this, a, node):
        y = a[0].val()
        return LSeq([Obj('pair', {'first': num(g), 'second': ssum('j#', y.n, eq(y.at(var('j#')), g))}) for g in range(m)])
    def h_cov(ex, st, this, a, node):
        x, w = a[0].val(), a[1].val()
        ex.req(st)(eq(x.nr, vlen(w)), 'covwtmat: one weight per row')
        return s_wcov(x, w)
    def h_entropy(ex, st, this, a, node):
        return s_entropy(a[0].val())
    return {('GWDA', 'shannonEntropy'): h_entropy, ('GWDA', 'covwtmat'): h_cov, ('GWDA', 'levels'): h_levels, ('GWDA', 'ytable'): h_table}

# ---------------- specification
def s_scores(c):
    x, y, sw, m = c.x, c.y, c.sw, c.m
    t, u = var('t#'), var('u#')
    local = c.flags
    def w(kind, i, j):
        """weight of observation j at location i: the observation itself is left out"""
        return wterm(sw, i, j) * ne(i, j) if local[kind] else ONE
    def inn(g, j):
        return eq(y.at(j), g)
    def mean(kind, g, i, col):
        tot = ssum('u#', n, inn(g, u) * w(kind, i, u))
        return ssum('u#', n, inn(g, u) * w(kind, i, u) * x.get(u, col)) * recip(tot)
    def covm(g, i):
        """covariance matrix of the members of a group under their normalised weights"""
        tot = ssum('u#', n, inn(g, u) * w('cov', i, u))
        member = app('sel', T.lam(['u#'], inn(g, u)), n, VR, sort='I')
        cnt = ssum('u#', n, inn(g, u))
        return s_wcov(Mat(cnt, x.nc, x.get(member, VC)), Mat(cnt, ONE, w('cov', i, member) * recip(tot)))
    def prior(g, i):
        tot = ssum('u#', n, ssum('t#', n, w('prior', u, t)))
        return ssum('u#', n, inn(g, u) * w('prior', i, u)) * recip(tot)
    cnt = [ssum('u#', n, inn(g, u)) for g in range(m)]
    def cov(g, i):
        if c.quad:
            return covm(g, i)
        tot = ZERO
        acc = Mat(x.nc, x.nc, ZERO)
        for h in range(m):
            q = covm(h, i)
            acc = Mat(x.nc, x.nc, acc.body + cnt[h] * q.body)
            tot = tot + cnt[h]
        return Mat(x.nc, x.nc, acc.body * recip(tot))
    def score(i, g):
        S = cov(g, i)
        d = Mat(x.nc, ONE, x.get(i, VR) - mean('mean', g, i, VR))
        q = matmul(Mat(ONE, x.nc, subst(d.body, {R_: VC})), matmul(inv(S), d)).get(0, 0)
        return num(F(m, 2)) * logp(app('norm2', mlam(S), S.nr, S.nc)) + q * num(F(1, 2)) - logp(prior(g, i))
    return score

def setup(c):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(lt(0, TH)); ex.fact(le(2, p_))
    c.m = c.var['m']
    c.x, c.co, sw = symmat('x', n, p_), symmat('coords', n, 2), sw_obj('sw', n)
    c.y = groups('y', n)
    crs(c, sw)
    c.sw = prepared(sw, c.co, c.co)
    v = c.var
    if c.name == 'gwda':
        c.quad, c.flags = v['quad'], {'cov': v['cov'], 'mean': v['mean'], 'prior': v['prior']}
        c.argvals.update({0: c.x, 1: c.y, 2: c.co, 3: sw, 4: num(v['quad']), 5: num(v['cov']), 6: num(v['mean']), 7: num(v['prior']), 8: par(c), 9: TH})
        c.o = 10
    else:
        c.quad, c.flags = 0, {'cov': 1, 'mean': 1, 'prior': 1}
        n0, p0 = var('n0'), var('p0')
        ex.fact(lt(0, n0)); ex.fact(le(2, p0))
        sw0 = sw_obj('sw0', n0)
        crs(c, sw0)
        c.argvals.update({0: symmat('x0', n0, p0), 1: groups('y0', n0), 2: symmat('coords0', n0, 2), 3: sw0, 4: c.x, 5: c.y, 6: c.co, 7: sw, 8: par(c), 9: TH})
        c.o = 10
def setup_mom(c):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(lt(0, p_))
    c.x, c.w, c.a, c.b = symmat('x', n, p_), symmat('w', n, 1), symmat('a', n, 1), symmat('b', n, 1)
    c.argvals.update({0: c.x, 1: c.w, 2: c.a, 3: c.b})
def ens_mom(c, E):
    t, u = var('t#'), var('u#')
    w = lambda j: c.w.get(j, 0)
    ws, w2 = ssum('u#', n, w(u)), ssum('u#', n, w(u) * w(u))
    mu = lambda col: ssum('u#', n, w(u) * c.x.get(u, col)) * recip(ws)
    E.mat('weighted covariance matrix', E.arg(4), bycell(p_, p_, lambda i, j: ws * recip(ws * ws - w2) * ssum('t#', n, w(t) * (c.x.get(t, i) - mu(i)) * (c.x.get(t, j) - mu(j)))))
    m = lambda v: ssum('u#', n, v.get(u, 0) * w(u))
    cw = lambda p, q: ssum('t#', n, w(t) * (p.get(t, 0) - m(p)) * (q.get(t, 0) - m(q))) * recip(1 - w2)
    E.eq('weighted covariance', E.arg(5), cw(c.a, c.b))
    E.eq('weighted correlation', E.arg(6), cw(c.a, c.b) * recip(T.sqrt(cw(c.a, c.a) * cw(c.b, c.b))))
def setup_ent(c):
    c.ex.fact(lt(0, n))
    c.p = symmat('q', n, 1)
    c.argvals.update({0: c.p})
def ens_ent(c, E):
    p = lambda j: c.p.get(j, 0)
    t = var('t#')
    tot = ssum('u#', n, p(var('u#')))
    v = -ssum('t#', n, lt(0, p(t)) * log2p(p(t) * recip(tot)) * p(t) * recip(tot))
    E.eq('entropy of the normalised positive entries; none without mass', c.result, ite(bor(lt(vmin(c.p), 0), le(tot, 0)), ZERO, v))
MOM = [Contract('', 'gwdaEntropy', setup_ent, ens_ent, samp=SAMPLERS), Contract('', 'gwdaMoments', setup_mom, ens_mom, samp=SAMPLERS)]
def ens(c, E):
    m, o = c.m, c.o
    score = s_scores(c)
    i = var('i#')
    rng = [le(0, i), lt(i, n)]
    S = E.arg(o)
    E.eq('one score per observation', S.nr, n)
    E.eq('one score per group', S.nc, num(m))
    for g in range(m):
        E.eq('discriminant score', S.get(i, num(g)), score(i, num(g)), rng)
    # the results below are functions of the scores returned, which are the ones specified above
    row = lambda i: Mat(ONE, num(m), subst(S.body, {R_: i}))
    best = lambda i: vals.to_seq(levels_of(m)).at(app('index_min', vlam(row(i)), num(m), sort='I'))
    G = E.arg(o + 1)
    E.eq('one group per observation', G.n, n)
    E.eq('group of the smallest score', G.at(i), best(i), rng)
    E.eq('rate of observations put into their own group', E.arg(o + 2), ssum('j#', n, eq(best(var('j#')), c.y.at(var('j#')))) * recip(n))
    P_ = E.arg(o + 3)
    tot = ZERO
    for g in range(m):
        tot = tot + expp(-S.get(i, num(g)))
    for g in range(m):
        E.eq('probability of each group', P_.get(i, num(g)), expp(-S.get(i, num(g))) * recip(tot), rng)
    p = lambda i, g: P_.get(i, num(g))
    mx = E.arg(o + 4)
    isin = ZERO
    for g in range(m):
        E.holds('largest probability: not exceeded', le(p(i, g), mx.get(i, 0)), rng)
        isin = bor(isin, eq(p(i, g), mx.get(i, 0)))
    E.holds('largest probability: attained', isin, rng)
    prow = Mat(num(m), ONE, subst(P_.body, {R_: i, C_: VR}))
    E.eq('entropy relative to equal probabilities', E.arg(o + 5).get(i, 0), s_entropy(prow) * recip(s_entropy(Mat(num(m), ONE, num(F(1, m))))), rng)
FL = [(1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)]
GSAMP = dict(SAMPLERS, n=lambda u, ins: 9 + int(u * 2), p=lambda u, ins: 2, grp=lambda u, ins, y, j: int(j) % 3)
GSAMP2 = dict(GSAMP, grp=lambda u, ins, y, j: int(j) % 2)
# three groups, linear: 200 s of z3, thorough tier only
import os, sys
THOROUGH = 'thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
GV = [{'m': m, 'quad': q, 'cov': a, 'mean': b, 'prior': d, 'par': p} for m, q, (a, b, d), p in
      [(2, q, f, p) for q in (0, 1) for f in FL for p in ((SERIAL, OMP) if f == FL[0] else (SERIAL,))] + [(3, q, FL[0], SERIAL) for q in ((0, 1) if THOROUGH else (1,))]]
DA = [Contract('', 'gwda', setup, ens, variants=[v for v in GV if v['m'] == m], samp=GSAMP if m == 3 else GSAMP2, hooks=hooks(m), budget=240 if m == 2 else 450) for m in (3, 2)] + \
     [Contract('', 'gwdaReuse', setup, ens, variants=[{'m': 2, 'par': p} for p in (SERIAL, OMP)], samp=GSAMP2, hooks=hooks(2), budget=240)]
