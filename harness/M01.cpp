// Robust GWR: filtered and iterative down-weighting of outlying residuals around the basic local fits.
#include "common.h"
#include "gwmodelpp/GWRRobust.h"
using namespace hx;
static Fit masked(const Data& d, const std::function<vec(uword)>& w, const vec& m) { return refFit(d.x, d.y, [&](uword i) { vec v = w(i); for (uword j = 0; j < v.n_elem; j++) v(j) *= m(j); return v; }); }
// the specified robust fit; ok=false when singular or when a decision lies too near its threshold
static Fit robust(const Data& d, const std::function<vec(uword)>& w, bool filtered, int& passes)
{
    uword n = d.n; vec m(n, arma::fill::ones); Fit f = masked(d, w, m); if (!f.ok) return f;
    passes = 1;
    if (filtered)
    {
        double s2 = f.rss / (n - 2 * f.trS + f.trStS);
        for (uword i = 0; i < n; i++) { double t = std::fabs((d.y(i) - f.fitted(i)) / std::sqrt(s2 * f.q(i))); if (std::fabs(t - 3) < 1e-3 || std::isnan(t)) f.ok = false; m(i) = t > 3 ? 0 : 1; }
        if (!f.ok) return f;
        passes = 1 + (arma::accu(m) < n);
        return masked(d, w, m);
    }
    double mse = f.rss / n, diff = 1;
    for (int it = 0; diff > 1e-5 && it < 20; it++)
    {
        for (uword i = 0; i < n; i++) { double r = std::fabs((d.y(i) - f.fitted(i)) / std::sqrt(mse)), q = r - 2; m(i) = r <= 2 ? 1 : r < 3 ? (1 - q * q) * (1 - q * q) : 0; }
        f = masked(d, w, m); if (!f.ok || !std::isfinite(f.rss) || f.rss < 1e-12) { f.ok = false; return f; }
        double old = mse; mse = f.rss / n; diff = std::fabs(old - mse) / mse; passes++;
        if (std::fabs(diff - 1e-5) < 2e-7) { f.ok = false; return f; }
    }
    return f;
}
static void setup(GWRRobust& g, const Data& d, bool hat, bool filtered, int th)
{
    g.setCoords(d.coords); g.setDependentVariable(d.y); g.setIndependentVariables(d.x); g.setSpatialWeight(d.sw());
    g.setHasHatMatrix(hat); g.setFiltered(filtered); par(g, th);
}
static Data genO()
{
    Data d = gen(18, 40, 2, 3);
    for (int q = I(0, 3); q-- > 0;) d.y(I(0, d.n - 1)) += (B() ? 1 : -1) * U(3, 25);
    return d;
}
static void check(GWRRobust& g, const mat& r, const Data& d, const Fit& f, const std::string& what)
{
    if (!expectMat("betas", r, f.betas, what + " returned coefficients", 1e-5)) return;
    expectMat("betas", g.betas(), f.betas, what + " stored coefficients", 1e-5);
    expectNear("trace", g.sHat()(0), f.trS, what + " tr(S)", 1e-5); expectNear("trace", g.sHat()(1), f.trStS, what + " tr(S'S)", 1e-5);
    expectMat("qdiag", mat(g.qDiag()), mat(f.q), what + " diag((I-S)'(I-S))", 1e-5);
    double s2 = f.rss / (d.n - 2 * f.trS + f.trStS);
    if (s2 > 0) expectMat("se", g.betasSE(), arma::sqrt(s2 * f.c2), what + " standard errors", 1e-4);
    expectDiag("diagnostic", g.diagnostic(), refDiag(d.y, f.rss, f.trS, f.trStS), 1e-5);
}
static void fit(long it)
{
    Data d = genO(); bool filtered = B(); at("fit filtered=" + std::to_string(filtered) + " " + d.text); sample(d.text);
    int passes; Fit f = robust(d, [&](uword i) { return d.w(i); }, filtered, passes); if (!f.ok || !std::isfinite(f.rss)) return;
    count("passes" + std::to_string(std::min(passes, 21)));
    for (int th : {0, 1, 3})
    {
        bool hat = B(0.7); at("fit threads=" + std::to_string(th) + " filtered=" + std::to_string(filtered) + " " + d.text);
        GWRRobust g; setup(g, d, hat, filtered, th);
        for (int again = 0; again < 2; again++)
        {
            mat r; try { r = g.fit(); } catch (const std::exception& e) { fail("fit", std::string("throws ") + e.what()); break; }
            check(g, r, d, f, again ? "refit" : "fit");
            if (hat) expectMat("hat", g.s(), f.S, "hat matrix", 1e-5);
        }
        // the other mode on the same object
        int p2; Fit f2 = robust(d, [&](uword i) { return d.w(i); }, !filtered, p2);
        if (f2.ok && std::isfinite(f2.rss)) { g.setFiltered(!filtered); mat r = g.fit(); check(g, r, d, f2, "other mode"); }
        // prediction ignores the mask
        mat loc = d.coords.rows(0, I(0, d.n - 1)); mat w(loc.n_rows, d.k); bool ok = true;
        for (uword i = 0; i < loc.n_rows && ok; i++) { vec be; ok = refWls(d.x, d.y, d.wAt(loc, i), be); if (ok) w.row(i) = be.t(); }
        if (ok) expectMat("predict", g.predict(loc), w, "prediction", 1e-6);
    }
    { GWRRobust g; g.setCoords(d.coords); g.setDependentVariable(d.y); g.setIndependentVariables(d.x); g.setSpatialWeight(d.sw());
      expect("default", !g.filtered(), "the algorithm is iterative by default"); }
}
static void select(long it)
{
    if (it % 5) return;
    Data d = genO(); bool filtered = B(); d.adaptive = true; at("select " + d.text);
    GWRRobust g; setup(g, d, true, filtered, it % 2 ? 2 : 0); g.setIsAutoselectBandwidth(true); g.setBandwidthSelectionCriterion(B() ? GWRBasic::CV : GWRBasic::AIC);
    mat r; try { r = g.fit(); } catch (const std::exception&) { count("select failed"); return; }
    SpatialWeight sw = g.spatialWeight(); int passes;
    Fit f = robust(d, [&](uword i) { return sw.weightVector(i); }, filtered, passes); if (!f.ok || !std::isfinite(f.rss)) return;
    check(g, r, d, f, "selected bandwidth");
}
static void singular(long it)
{
    if (it % 3) return;
    Data d = genO(); d.adaptive = false; d.geo = false; d.kernel = B() ? BISQ : BOX; d.bw = 400; uword lone = I(0, d.n - 1); d.coords(lone, 0) = 1e6;
    at("singular " + d.text);
    for (int th : {0, 2}) for (bool f : {false, true}) { GWRRobust g; setup(g, d, true, f, th); expect("singular", throwsAny([&] { g.fit(); }), "fit with a singular local system must throw, threads=" + std::to_string(th)); }
}
int main(int argc, char** argv) { return run(argc, argv, {{"fit", fit}, {"select", select}, {"singular", singular}}); }
