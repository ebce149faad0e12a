from specs.common import *
import itertools
CLIENTS = ['clients/spatial.cpp']

m = var('m')      # number of data points
f_ = var('f')     # number of focus points
# ------------------------------------------------------------ kernels: specification functions
def k_gaussian(d, b):
    return expp(-(d * d) * recip(2 * b * b))
def k_exponential(d, b):
    return expp(-d * recip(b))
def k_bisquare(d, b):
    return lt(d, b) * power(1 - d * d * recip(b * b), 2)
def k_tricube(d, b):
    return lt(d, b) * power(1 - d * d * d * recip(b * b * b), 3)
def k_boxcar(d, b):
    return lt(d, b)
KERNELS = [('Gaussian', k_gaussian), ('Exponential', k_exponential), ('Bisquare', k_bisquare), ('Tricube', k_tricube), ('Boxcar', k_boxcar)]

def kernel_of(kidx, d, b):
    return sum((eq(kidx, num(q)) * f(d, b) for q, (nm, f) in enumerate(KERNELS)), ZERO)

KI = var('kernel')
bw = var('bw', 'R')
def eff_bw(dist, bw, adaptive):
    """bandwidth in force: fixed, or interpolated between neighbouring order statistics, or a multiple of the maximum"""
    s = sortv(dist)
    b0 = floorp(bw)
    frac = bw - b0
    inner = s.get(b0 - 1, 0) + (s.get(b0, 0) - s.get(b0 - 1, 0)) * frac
    outer = bw * recip(dist.nr) * vmax(dist)
    return ite(adaptive, ite(lt(bw, dist.nr), inner, outer), bw)

def setup_kw(c):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(le(1, bw))
    ad = num(c.var['adaptive'])
    c.dist = symmat('dist', n, 1)
    c.kidx = num(c.var['kernel'])
    c.ad = ad
    if c.var.get('many') is not None:
        ex.fact(lt(bw, n) if c.var['many'] == 0 else le(n, bw))
    c.argvals.update({0: bw, 1: ad, 2: c.kidx, 3: c.dist})
def ens_kw(c, E):
    b = eff_bw(c.dist, bw, c.ad)
    E.mat('weight of every observation', c.result, colv(n, lambda i: KERNELS[c.var['kernel']][1](c.dist.get(i, 0), b)))
KWV = [dict(kernel=q, adaptive=a, **({'many': mm} if a else {})) for q in range(5) for a in (0, 1) for mm in ((0, 1) if a else (0,))]
KW = [Contract('', 'kernelWeight', setup_kw, ens_kw, variants=KWV, samp=SAMPLERS, base=TELEGRAM),
      Contract('', 'kernelWeightSetters', setup_kw, ens_kw, variants=KWV, samp=SAMPLERS, base=TELEGRAM)]

# ------------------------------------------------------------ distances
def absr(p): return absp(p)
def gc_dist(lon1, lon2, lat1, lat2):
    """Andoyer-Lambert great-circle distance on the WGS84 ellipsoid, km"""
    r = PI / 180
    a, f = num(F('6378.137')), ONE / num(F('298.257223563'))
    eps = num(F('1e-8'))
    Fm, G, L = (lat1 * r + lat2 * r) / 2, (lat1 * r - lat2 * r) / 2, (lon1 * r - lon2 * r) / 2
    sG, cG, sF, cF, sL, cL = [power(g(q), 2) for g, q in ((sinp, G), (cosp, G), (sinp, Fm), (cosp, Fm), (sinp, L), (cosp, L))]
    S = sG * cL + cF * sL
    C = cG * cL + sF * sL
    w = atanp(T.sqrt(S * recip(C)))
    R = T.sqrt(S * C) * recip(w)
    D = 2 * w * a
    same = lt(absr(lat1 - lat2), eps) * bor(lt(absr(lon1 - lon2), eps), lt(absr(absr(lon1) + absr(lon2) - 360), eps))
    v = D * (1 + f * (3 * R - 1) * recip(2 * C) * sF * cG - f * (3 * R + 1) * recip(2 * S) * cF * sG)
    return ite(same, ZERO, v)
def euclid(a, i, b, j):
    return T.sqrt(power(b.get(j, 0) - a.get(i, 0), 2) + power(b.get(j, 1) - a.get(i, 1), 2))
def gcrow(a, i, b, j):
    return gc_dist(b.get(j, 0), a.get(i, 0), b.get(j, 1), a.get(i, 1))
FO = var('focus')
def setup_crs(c, base=1, focus=True):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(lt(0, f_))
    c.geo = num(c.var['geographic'])
    c.fp, c.dp = symmat('fp', f_, 2), symmat('dp', n, 2)
    c.argvals.update({0: c.geo, 1: c.fp, 2: c.dp})
    if focus:
        ex.fact(le(0, FO)); ex.fact(lt(FO, f_))
        c.argvals[3] = FO
def dist_of(c, i, j):
    return gcrow(c.fp, i, c.dp, j) if c.var.get('geographic') else euclid(c.fp, i, c.dp, j)
def ens_crs(c, E):
    E.mat('distance from the focus point to every data point', c.result, colv(n, lambda j: dist_of(c, FO, j)))
def ext2(op, c, rows, cols, dist, start):
    a, b = fresh('i'), fresh('j')
    inner = T.rext('r' + op, b, cols, dist(var(a), var(b)))
    return (max2 if op == 'max' else min2)(start, T.rext('r' + op, a, rows, inner))
def ens_crsmax(c, E):
    E.eq('maximum over all pairs', c.result, ext2('max', c, f_, n, lambda i, j: dist_of(c, i, j), ZERO))
def ens_crsmin(c, E):
    E.eq('minimum over all pairs', c.result, ext2('min', c, f_, n, lambda i, j: dist_of(c, i, j), DBLMAX))
G2 = [{'geographic': 0}, {'geographic': 1}]
DIST = [Contract('', 'crsDistance', setup_crs, ens_crs, variants=G2, samp=SAMPLERS, base=TELEGRAM),
        Contract('', 'crsDistanceCopy', setup_crs, ens_crs, variants=G2, samp=SAMPLERS, base=TELEGRAM),
        Contract('', 'crsMax', lambda c: setup_crs(c, focus=False), ens_crsmax, variants=G2, samp=SAMPLERS, base=TELEGRAM),
        Contract('', 'crsMin', lambda c: setup_crs(c, focus=False), ens_crsmin, variants=G2, samp=SAMPLERS, base=TELEGRAM)]

# Minkowski
PO, TH = var('p', 'R'), var('theta', 'R')
def setup_mk(c, focus=True):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(lt(0, f_))
    c.p = num(c.var['p']) if c.var['p'] != 'any' else PO
    c.th = ZERO if c.var['theta'] == 0 else TH
    if c.p is PO:
        ex.fact(lt(1, PO)); ex.fact(ne(PO, 2))
    if c.th is TH:
        ex.fact(ne(TH, 0))
    c.fp, c.dp = symmat('fp', f_, 2), symmat('dp', n, 2)
    c.argvals.update({0: c.p, 1: c.th, 2: c.fp, 3: c.dp})
    if focus:
        ex.fact(le(0, FO)); ex.fact(lt(FO, f_))
        c.argvals[4] = FO
def mk_dist(c, i, j):
    a = (c.dp.get(j, 0) - c.fp.get(i, 0), c.dp.get(j, 1) - c.fp.get(i, 1))
    if c.var['theta'] != 0 and c.var['p'] != 2:
        a = (a[0] * cosp(TH) - a[1] * sinp(TH), a[0] * sinp(TH) + a[1] * cosp(TH))
    if c.var['p'] == 1:
        return absp(a[0]) + absp(a[1])
    if c.var['p'] == -1:
        return max2(absp(a[0]), absp(a[1]))
    if c.var['p'] == 2:
        return T.sqrt(a[0] * a[0] + a[1] * a[1])
    return powp(powp(absp(a[0]), PO) + powp(absp(a[1]), PO), recip(PO))
def ens_mk(c, E):
    E.mat('Minkowski distance to every data point', c.result, colv(n, lambda j: mk_dist(c, FO, j)))
def ens_mkmax(c, E):
    E.eq('maximum Minkowski distance', c.result, ext2('max', c, f_, n, lambda i, j: mk_dist(c, i, j), ZERO))
MV = [{'p': p, 'theta': t} for p in (1, -1, 2, 'any') for t in (0, 'any')]
MINK = [Contract('', 'minkDistance', setup_mk, ens_mk, variants=MV, samp=SAMPLERS, base=TELEGRAM),
        Contract('', 'minkMax', lambda c: setup_mk(c, False), ens_mkmax, variants=[v for v in MV if v['theta'] == 0], samp=SAMPLERS, base=TELEGRAM)]

# one-dimensional and space-time
def setup_1d(c, focus=True):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(lt(0, f_))
    c.fp, c.dp = symmat('fp', f_, 1), symmat('dp', n, 1)
    c.argvals.update({0: c.fp, 1: c.dp})
    if focus:
        ex.fact(le(0, FO)); ex.fact(lt(FO, f_))
        c.argvals[2] = FO
def d1(c, i, j):
    return absp(c.dp.get(j, 0) - c.fp.get(i, 0))
ONED = [Contract('', 'oneDimDistance', setup_1d, lambda c, E: E.mat('|t_j - t_i|', c.result, colv(n, lambda j: d1(c, FO, j))), samp=SAMPLERS, base=TELEGRAM),
        Contract('', 'oneDimMax', lambda c: setup_1d(c, False), lambda c, E: E.eq('maximum', c.result, ext2('max', c, f_, n, lambda i, j: d1(c, i, j), ZERO)), samp=SAMPLERS, base=TELEGRAM),
        Contract('', 'oneDimMin', lambda c: setup_1d(c, False), lambda c, E: E.eq('minimum', c.result, ext2('min', c, f_, n, lambda i, j: d1(c, i, j), DBLMAX)), samp=SAMPLERS, base=TELEGRAM)]
LA, AN = var('lambda', 'R'), var('angle', 'R')
def setup_st(c):
    ex = c.ex
    ex.fact(lt(0, n))
    c.sfp, c.sdp, c.tfp, c.tdp = symmat('sfp', n, 2), symmat('sdp', n, 2), symmat('tfp', n, 1), symmat('tdp', n, 1)
    c.la = {'0': ZERO, '1': ONE, 'mid': LA}[c.var['lambda']]
    if c.la is LA:
        ex.fact(lt(0, LA)); ex.fact(lt(LA, num(F('0.999'))))
    ex.fact(le(0, FO)); ex.fact(lt(FO, n))
    c.argvals.update({0: c.sfp, 1: c.sdp, 2: c.tfp, 3: c.tdp, 4: c.la})
    if c.name == 'stDistanceAngle':
        c.argvals[5] = AN
        c.argvals[6] = FO
        ex.fact(lt(ZERO, AN)); ex.fact(lt(AN, num(F('1.5'))))
    else:
        c.argvals[5] = FO
def ens_st(c, E):
    def f(j):
        s = euclid(c.sfp, FO, c.sdp, j)
        t = c.tfp.get(FO, 0) - c.tdp.get(j, 0)
        if c.var['lambda'] == '1':
            return s
        cross = 2 * T.sqrt(c.la * (1 - c.la) * s * t)
        if c.name == 'stDistanceAngle':
            xi = atanp(tanp(AN))
            cross = cross * ite(lt(absp(xi - PI / 2), num(F('1e-15'))), ONE, cosp(xi))
        return ite(lt(t, 0), num(10) ** 13 if False else num(10000000000000), c.la * s + (1 - c.la) * t + cross)
    E.mat('space-time distance', c.result, colv(n, f))
LV3 = [{'lambda': l} for l in ('0', '1', 'mid')]
ST = [Contract('', 'stDistance', setup_st, ens_st, variants=LV3, samp=SAMPLERS, base=TELEGRAM),
      Contract('', 'stDistanceAngle', setup_st, ens_st, variants=LV3, samp=SAMPLERS, base=TELEGRAM)]

# ------------------------------------------------------------ composition
def setup_sw(c):
    ex = c.ex
    ex.fact(lt(0, n)); ex.fact(lt(0, f_)); ex.fact(le(1, bw)); ex.fact(le(0, FO)); ex.fact(lt(FO, f_))
    c.ad, c.kidx = num(c.var['adaptive']), num(c.var['kernel'])
    if c.var['adaptive']:
        ex.fact(lt(bw, n))
    c.fp, c.dp = symmat('fp', f_, 2), symmat('dp', n, 2)
    c.fp2, c.dp2 = symmat('fp2', var('f2'), 2), symmat('dp2', var('n2'), 2)
    b2 = var('bw2', 'R')
    A = {'swVector': [bw, c.ad, c.kidx, num(c.var.get('geographic', 0)), c.fp, c.dp, FO],
         'swCopyIndependent': [bw, b2, c.ad, c.kidx, c.fp, c.dp, c.fp2, c.dp2, FO],
         'swAssign': [bw, b2, c.ad, c.kidx, c.fp, c.dp, c.fp2, c.dp2, FO],
         'swMove': [bw, c.ad, c.kidx, c.fp, c.dp, FO],
         'swSetPointer': [bw, b2, c.ad, c.kidx, c.fp, c.dp, FO],
         'swSet': [bw, b2, c.ad, c.kidx, c.fp, c.dp, FO]}[c.name]
    c.argvals.update(dict(enumerate(A)))
def ens_sw(c, E):
    d = colv(n, lambda j: dist_of(c, FO, j))
    b = eff_bw(d, bw, c.ad)
    E.mat('weights of the configured kernel, bandwidth and distance', c.result, colv(n, lambda j: KERNELS[c.var['kernel']][1](d.get(j, 0), b)))
SV = [{'kernel': q, 'adaptive': a} for q in (0, 2, 4) for a in (0, 1)]
SW = [Contract('', nm, setup_sw, ens_sw, variants=SV + ([{'kernel': 0, 'adaptive': 0, 'geographic': 1}] if nm == 'swVector' else []), samp=SAMPLERS, base=TELEGRAM)
      for nm in ('swVector', 'swCopyIndependent', 'swAssign', 'swSet', 'swMove', 'swSetPointer')]

def setup_rep(c):
    setup_crs(c)
    c.argvals.pop(3)
    c.argvals.update({3: symmat('fp2', var('f2'), 2), 4: symmat('dp2', var('n2'), 2), 5: FO})
def setup_badf(c):
    c.ex.fact(lt(0, n)); c.ex.fact(lt(0, f_)); c.ex.fact(le(f_, FO))
    if c.name == 'badFocus':
        c.argvals.update({0: num(c.var['geographic']), 1: symmat('fp', f_, 2), 2: symmat('dp', n, 2), 3: FO})
    elif c.name == 'badFocus1d':
        c.argvals.update({0: symmat('fp', f_, 1), 1: symmat('dp', n, 1), 2: FO})
    else:
        c.argvals.update({0: num(c.var['geographic']), 1: FO})
DIST += [Contract('', 'reprepared', setup_rep, ens_crs, variants=G2, samp=SAMPLERS, base=TELEGRAM),
         Contract('', 'setGeographic', setup_crs, ens_crs, variants=G2, samp=SAMPLERS, base=TELEGRAM),
         Contract('', 'badFocus', setup_badf, lambda c, E: E.throws('out-of-range focus is rejected'), variants=G2, samp=SAMPLERS, base=TELEGRAM),
         Contract('', 'unprepared', setup_badf, lambda c, E: E.throws('unprepared distance is rejected'), variants=G2, samp=SAMPLERS, base=TELEGRAM),
         Contract('', 'badFocus1d', setup_badf, lambda c, E: E.throws('out-of-range focus is rejected'), samp=SAMPLERS, base=TELEGRAM)]
ONED += [Contract('', 'oneDimCopy', setup_1d, lambda c, E: E.mat('|t_j - t_i| of a copy', c.result, colv(n, lambda j: d1(c, FO, j))), samp=SAMPLERS, base=TELEGRAM)]
ST += [Contract('', 'stCopy', setup_st, ens_st, variants=LV3, samp=SAMPLERS, base=TELEGRAM)]
MINK += [Contract('', 'minkCopy', setup_mk, ens_mk, variants=MV, samp=SAMPLERS, base=TELEGRAM),
         Contract('', 'minkMin', lambda c: setup_mk(c, False), lambda c, E: E.eq('minimum Minkowski distance', c.result, ext2('min', c, f_, n, lambda i, j: mk_dist(c, i, j), DBLMAX)),
                  variants=[v for v in MV if v['theta'] == 0], samp=SAMPLERS, base=TELEGRAM)]
# ------------------------------------------------------------ laws of the kernels (lemmas over the specification functions)

for c_ in KW + DIST + MINK + ONED + ST + SW:
    c_.nothrow = c_.func not in ('badFocus', 'unprepared', 'badFocus1d')
