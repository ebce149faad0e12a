// Density regression (GWDR): one weighting per coordinate column, multiplied together.
#include "common.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
using namespace hx;
struct DD { mat x, coords; vec y; uword n, k, dims; std::vector<int> kernel; std::vector<char> adaptive; std::vector<double> bw; std::string text; };
static double span(const mat& c, uword m) { return c.col(m).max() - c.col(m).min(); }
static double genBw(const DD& d, uword m)
{
    if (d.adaptive[m]) return B(0.2) ? d.n * U(1.0, 1.5) : (double)I(d.n - 3, d.n - 1);
    return span(d.coords, m) * ((d.kernel[m] == GAU || d.kernel[m] == EXPO) ? U(0.35, 1.5) : U(1.05, 2));
}
static DD genD(uword nlo = 16, uword nhi = 34)
{
    Data b = gen(nlo, nhi, 2, 4); DD d; d.x = b.x; d.y = b.y; d.n = b.n; d.k = b.k; d.dims = I(1, 3);
    d.coords = mat(d.n, d.dims); double sc = B(0.3) ? 0.01 : 1;
    for (uword m = 0; m < d.dims; m++) for (uword i = 0; i < d.n; i++) d.coords(i, m) = sc * (m < 2 ? b.coords(i, m) : U(0, 20));
    std::ostringstream o; o << "n=" << d.n << " k=" << d.k;
    for (uword m = 0; m < d.dims; m++) { d.kernel.push_back(I(0, 4)); d.adaptive.push_back(B()); d.bw.push_back(genBw(d, m)); o << " [kernel=" << d.kernel[m] << " adaptive=" << (int)d.adaptive[m] << " bw=" << d.bw[m] << "]"; }
    d.text = o.str(); return d;
}
static vec wOf(const DD& d, uword i, const std::vector<double>& bw)
{
    vec w(d.n, arma::fill::ones);
    for (uword m = 0; m < d.dims; m++) { vec q(d.n); for (uword j = 0; j < d.n; j++) q(j) = std::fabs(d.coords(j, m) - d.coords(i, m)); vec v = refWeight(q, bw[m], d.adaptive[m], d.kernel[m]); for (uword j = 0; j < d.n; j++) w(j) *= v(j); }
    return w;
}
static std::vector<SpatialWeight> sws(const DD& d, const std::vector<double>& bw)
{
    std::vector<SpatialWeight> r;
    for (uword m = 0; m < d.dims; m++) { OneDimDistance q; BandwidthWeight b(bw[m], d.adaptive[m], (BandwidthWeight::KernelFunctionType)d.kernel[m]); r.push_back(SpatialWeight(&b, &q)); }
    return r;
}
static void setup(GWDR& g, const DD& d, bool hat, int th) { g.setCoords(d.coords); g.setDependentVariable(d.y); g.setIndependentVariables(d.x); g.setSpatialWeights(sws(d, d.bw)); g.setHasHatMatrix(hat); par(g, th); }
static void check(GWDR& g, const mat& b, const mat& x, const vec& y, const Fit& f, bool hat, const std::string& what)
{
    if (!expectMat("betas", b, f.betas, what + " returned coefficients", 1e-5)) return;
    expectMat("betas", g.betas(), f.betas, what + " stored coefficients", 1e-5);
    uword n = x.n_rows, k = x.n_cols; double s2 = f.rss / (n - 2 * f.trS + f.trStS);
    if (n - 2 * f.trS + f.trStS > 0.05) { mat se(n, k); for (uword i = 0; i < n; i++) for (uword a = 0; a < k; a++) se(i, a) = std::sqrt(s2 * f.c2(i, a)); expectMat("se", g.betasSE(), se, what + " standard errors", 1e-5); }
    expectNear("shat", g.sHat()(0), f.trS, what + " trace of S", 1e-5); expectNear("shat", g.sHat()(1), f.trStS, what + " trace of S'S", 1e-5);
    expectMat("q", mat(g.qDiag()), mat(f.q), what + " diagonal of (I-S)'(I-S)", 1e-5);
    if (hat) expectMat("hat", g.s(), f.S, what + " hat matrix", 1e-5);
    if (n - 2 * f.trS + f.trStS > 1.05 && std::fabs(n - 2 - f.trS) > 0.05) expectDiag("diagnostic", g.diagnostic(), refDiag(y, f.rss, f.trS, f.trStS), 1e-5);
}
static void fit(long it)
{
    DD d = genD(); sample(d.text); at("fit " + d.text); Fit f = refFit(d.x, d.y, [&](uword i) { return wOf(d, i, d.bw); }); if (!f.ok) return;
    DD d0 = genD(); bool ok0 = refFit(d0.x, d0.y, [&](uword i) { return wOf(d0, i, d0.bw); }).ok;
    for (int th : {0, 1, 4}) for (bool hat : {true, false})
    {
        at("fit threads=" + std::to_string(th) + " hat=" + std::to_string(hat) + " " + d.text);
        GWDR g; if (B() && ok0) { setup(g, d0, B(), B() ? 0 : 2); try { g.fit(); } catch (...) {} }
        setup(g, d, hat, th); mat b = g.fit(); check(g, b, d.x, d.y, f, hat, "fit"); b = g.fit(); check(g, b, d.x, d.y, f, hat, "refit");
    }
}
static void criterion(long it)
{
    DD d = genD(); std::vector<double> tr; for (uword m = 0; m < d.dims; m++) tr.push_back(genBw(d, m));
    at("criterion " + d.text);
    double cv = 0; for (uword i = 0; i < d.n; i++) { vec w = wOf(d, i, tr), b; w(i) = 0; if (!refWls(d.x, d.y, w, b)) return; double v = 0; for (uword a = 0; a < d.k; a++) v += d.x(i, a) * b(a); cv += std::pow(d.y(i) - v, 2); }
    Fit f = refFit(d.x, d.y, [&](uword i) { return wOf(d, i, tr); }); if (!f.ok) return;
    for (int th : {0, 1, 4})
    {
        auto sw = sws(d, d.bw), ts = sws(d, tr); for (uword m = 0; m < d.dims; m++) sw[m].distance()->makeParameter({ vec(d.coords.col(m)), vec(d.coords.col(m)) });
        GWDR g(d.x, d.y, d.coords, sw); par(g, th); std::vector<BandwidthWeight*> bws; for (auto& s : ts) bws.push_back(s.weight<BandwidthWeight>());
        if (B()) expectNear("CV", g.bandwidthCriterion(bws), cv, "default criterion is CV, threads=" + std::to_string(th), 1e-5, 1e-5);
        g.setBandwidthCriterionType(GWDR::AIC); if (std::fabs(d.n - 2 - f.trS) > 0.05) expectNear("AIC", g.bandwidthCriterion(bws), refDiag(d.y, f.rss, f.trS, f.trStS).AICc, "corrected AIC, threads=" + std::to_string(th), 1e-5, 1e-5);
        g.setBandwidthCriterionType(GWDR::CV); expectNear("CV", g.bandwidthCriterion(bws), cv, "cross-validation score, threads=" + std::to_string(th), 1e-5, 1e-5);
        // variable criterion with the configured bandwidths
        std::vector<size_t> vars; for (uword a = 1; a < d.k; a++) if (B(0.6)) vars.push_back(a); if (vars.size() > 1 && B()) std::swap(vars[0], vars[1]);
        mat x(d.n, vars.size() + 1); x.col(0) = d.x.col(0); for (size_t a = 0; a < vars.size(); a++) x.col(a + 1) = d.x.col(vars[a]);
        bool glob = B(0.3); GWDR h(d.x, d.y, d.coords, sw); par(h, th); if (glob) h.setEnableBandwidthOptimize(true);
        Fit fv = refFit(x, d.y, [&](uword i) { return glob ? vec(d.n, arma::fill::ones) : wOf(d, i, d.bw); });
        double c = 0; h.getCriterion(vars, c); if (fv.ok && std::fabs(d.n - 2 - fv.trS) > 0.05) expectNear("variables", c, refDiag(d.y, fv.rss, fv.trS, fv.trStS).AICc, "variable criterion, threads=" + std::to_string(th), 1e-5, 1e-5);
    }
}
// a location without enough neighbours: the fit must fail, the criteria must be the worst value
static void singular(long it)
{
    DD d = genD(); d.dims = 1; d.coords = mat(d.coords.col(0)); d.kernel = {BOX}; d.adaptive = {0}; d.bw = {span(d.coords, 0) * 10};
    uword q = I(0, d.n - 1); d.coords(q, 0) = d.coords.col(0).max() + span(d.coords, 0) * 100; for (uword a = 1; a < d.k; a++) d.x(q, a) = B() ? 2 : -0.5;      // exactly singular, rounding included
    at("singular at " + std::to_string(q) + " " + d.text);
    for (int th : {0, 1, 4})
    {
        GWDR g; setup(g, d, B(), th); bool threw = false; try { g.fit(); } catch (const std::exception&) { threw = true; }
        expect("failure", threw, "a singular local system makes the fit fail, threads=" + std::to_string(th));
        auto sw = sws(d, d.bw); sw[0].distance()->makeParameter({ vec(d.coords.col(0)), vec(d.coords.col(0)) });
        GWDR h(d.x, d.y, d.coords, sw); par(h, th); for (auto c : {GWDR::CV, GWDR::AIC}) { h.setBandwidthCriterionType(c); expect("failure", h.bandwidthCriterion({sw[0].weight<BandwidthWeight>()}) == DBL_MAX, "criterion of a singular system is the worst value, threads=" + std::to_string(th)); }
    }
}
// a value that is not finite is no score
static void nonfinite(long it)
{
    uword n = I(6, 20); bool huge = it % 2; mat x(n, 1, arma::fill::ones), c(n, 1); c.col(0) = arma::linspace(0, 100, n); vec y(n); for (double& v : y) v = N01(); if (huge) y *= 1e200;
    at(std::string("nonfinite ") + (huge ? "huge" : "interpolating") + " n=" + std::to_string(n));
    BandwidthWeight q(huge ? 80 : 50.0 / n, false, huge ? BandwidthWeight::Gaussian : it % 4 ? BandwidthWeight::Boxcar : BandwidthWeight::Bisquare); OneDimDistance od; od.makeParameter({ vec(c.col(0)), vec(c.col(0)) });
    SpatialWeight sw(&q, &od);
    for (int th : {0, 1, 4})
    {
        GWDR h(x, y, c, { sw }); par(h, th);
        for (auto k : {GWDR::CV, GWDR::AIC}) { h.setBandwidthCriterionType(k); expect("nonfinite", h.bandwidthCriterion({&q}) == DBL_MAX, std::string(k == GWDR::CV ? "CV" : "AICc") + " that is not finite is the worst value, threads=" + std::to_string(th)); }
        double v = 0; h.getCriterion({}, v);
        if (huge) expect("nonfinite", v == DBL_MAX, "variable criterion that is not finite, threads=" + std::to_string(th));
    }
}
static void optimise(long it)
{
    if (it % 3) return;
    DD d = genD(); at("optimise " + d.text); int th = (int[]){0, 1, 4}[it % 9 / 3]; auto crit = B() ? GWDR::CV : GWDR::AIC;
    GWDR g; setup(g, d, true, th); g.setBandwidthCriterionType(crit); g.setEnableBandwidthOptimize(true); g.setBandwidthOptimizeEps(1e-3); g.setBandwidthOptimizeMaxIter(60);
    mat b; try { b = g.fit(); } catch (const std::exception&) { return; }
    std::vector<double> bw; bool fixed = true; for (uword m = 0; m < d.dims; m++) { bw.push_back(g.spatialWeights()[m].weight<BandwidthWeight>()->bandwidth()); if (d.adaptive[m]) { fixed = false; expect("optimise", bw[m] == std::round(bw[m]), "an optimised adaptive bandwidth is a whole number"); } }
    Fit f = refFit(d.x, d.y, [&](uword i) { return wOf(d, i, bw); }); if (f.ok) check(g, b, d.x, d.y, f, true, "optimised bandwidths");
    if (!fixed) return;
    auto sw = sws(d, d.bw), ts = sws(d, bw); std::vector<BandwidthWeight*> b0, b1; for (auto& s : sw) b0.push_back(s.weight<BandwidthWeight>()); for (auto& s : ts) b1.push_back(s.weight<BandwidthWeight>());
    for (uword m = 0; m < d.dims; m++) { double lo = DBL_MAX; for (uword i = 0; i < d.n; i++) for (uword j = 0; j < i; j++) lo = std::min(lo, std::fabs(d.coords(i, m) - d.coords(j, m))); sw[m].distance()->makeParameter({ vec(d.coords.col(m)), vec(d.coords.col(m)) }); if (d.bw[m] <= 0 || d.bw[m] >= span(d.coords, m)) b0[m]->setBandwidth(span(d.coords, m) * 0.618); }
    GWDR h(d.x, d.y, d.coords, sw); h.setBandwidthCriterionType(crit);
    double c1 = h.bandwidthCriterion(b1), c0 = h.bandwidthCriterion(b0); expect("optimise", c1 <= c0 + 1e-6 * std::fabs(c0), "criterion of the optimised fixed bandwidths " + num(c1) + " is no worse than that of the initial ones " + num(c0));
}
int main(int argc, char** argv) { return run(argc, argv, {{"fit", fit}, {"criterion", criterion}, {"singular", singular}, {"optimise", optimise}, {"nonfinite", nonfinite}}); }
