// Generalised GWR: Poisson and binomial families.
#include "common.h"
#include "gwmodelpp/GWRGeneralized.h"
using namespace hx;
typedef GWRGeneralized::Family Fam;
static double lmean(bool pois, double e) { return pois ? std::exp(e) : 1 / (1 + std::exp(-e)); }
struct Irls { bool ok = true; vec adj, wt2, mu; double ll = 0; };
// iteratively reweighted local calibration; wt(j, i) is the weight of observation j at location i
static Irls irls(const Data& d, bool pois, const mat& wt, double tol, uword maxit)
{
    uword n = d.n; Irls o; vec mu(n), nu(n); o.wt2 = vec(n, arma::fill::ones);
    for (uword j = 0; j < n; j++) { mu(j) = pois ? d.y(j) + 0.1 : 0.5; nu(j) = pois ? std::log(mu(j)) : 0; }
    for (uword t = 0; t < maxit; t++)
    {
        o.adj = vec(n);
        for (uword j = 0; j < n; j++) o.adj(j) = nu(j) + (d.y(j) - mu(j)) / (pois ? mu(j) : mu(j) * (1 - mu(j)));
        vec nnu(n);
        for (uword i = 0; i < n; i++)
        {
            vec w(n), b; for (uword j = 0; j < n; j++) w(j) = wt(j, i) * o.wt2(j);
            if (!refWls(d.x, o.adj, w, b)) { o.ok = false; return o; }
            nnu(i) = 0; for (uword a = 0; a < d.k; a++) nnu(i) += d.x(i, a) * b(a);
            if (!(std::fabs(nnu(i)) < 12)) { o.ok = false; return o; }
        }
        nu = nnu; double ll = 0;
        for (uword j = 0; j < n; j++) { mu(j) = lmean(pois, nu(j)); ll += pois ? -mu(j) + d.y(j) * std::log(mu(j)) - std::lgamma(d.y(j) + 1) : d.y(j) * std::log(mu(j)) + (1 - d.y(j)) * std::log(1 - mu(j)); }
        double ch = std::fabs((o.ll - ll) / ll); o.ll = ll; o.mu = mu;
        if (std::fabs(ch - tol) < 1e-3 * tol + 1e-11) { o.ok = false; return o; }     // too near the convergence threshold to compare
        if (ch < tol) return o;
        for (uword j = 0; j < n; j++) o.wt2(j) = pois ? mu(j) : mu(j) * (1 - mu(j));
    }
    return o;
}
static bool calib(const Data& d, const Irls& r, const vec& wi, vec& b) { vec w(d.n); for (uword j = 0; j < d.n; j++) w(j) = wi(j) * r.wt2(j); return refWls(d.x, r.adj, w, b); }
static bool hat(const Data& d, const Irls& r, const vec& wi, uword i, double& s) { vec w(d.n); for (uword j = 0; j < d.n; j++) w(j) = wi(j) * r.wt2(j); mat c; if (!refC(d.x, w, c)) return false; s = 0; for (uword a = 0; a < d.k; a++) s += d.x(i, a) * c(a, i); return true; }
static double dev1(bool pois, double y, double m) { if (pois) return y != 0 ? 2 * (y * std::log(y / m) - (y - m)) : 2 * m; return -2 * (y != 0 ? std::log(m) : std::log(1 - m)); }
// deviance of the global model at the maximum of its likelihood
static bool glm(const Data& d, bool pois, double& nd, double& dv)
{
    vec eta(d.n), b; double mean = arma::mean(d.y); nd = 0; for (uword j = 0; j < d.n; j++) { nd += dev1(pois, d.y(j), mean); eta(j) = pois ? std::log(d.y(j) + 0.1) : 0; }
    double old = 0;
    for (int t = 0; t < 100; t++)
    {
        vec z(d.n), w(d.n); for (uword j = 0; j < d.n; j++) { double m = lmean(pois, eta(j)); w(j) = pois ? m : m * (1 - m); z(j) = eta(j) + (d.y(j) - m) / w(j); }
        if (!refWls(d.x, z, w, b)) return false;
        dv = 0; for (uword j = 0; j < d.n; j++) { eta(j) = 0; for (uword a = 0; a < d.k; a++) eta(j) += d.x(j, a) * b(a); if (!(std::fabs(eta(j)) < 12)) return false; dv += dev1(pois, d.y(j), lmean(pois, eta(j))); }
        if (t && std::fabs(dv - old) < 1e-13 * (1 + dv)) return true;
        old = dv;
    }
    return false;
}
static Data genG(bool pois, uword lo, uword hi)
{
    Data d = gen(lo, hi, 2, 3);
    for (uword j = 0; j < d.n; j++)
    {
        for (uword a = 1; a < d.k; a++) d.x(j, a) = U(-1, 1);
        double e = 0.4; for (uword a = 1; a < d.k; a++) e += d.x(j, a) * (a == 1 ? 0.8 : -0.5);
        if (pois) d.y(j) = (double)std::poisson_distribution<int>(std::exp(e))(rng()); else d.y(j) = B(lmean(false, e)) ? 1 : 0;
    }
    if (B(0.8)) { d.kernel = B() ? GAU : EXPO; d.adaptive = true; d.bw = std::max(3.0, d.n * U(0.6, 0.95)); d.bw = std::floor(d.bw); }
    d.text += pois ? " Poisson" : " binomial";
    return d;
}
static mat wall(const Data& d, double bw = -1) { mat w(d.n, d.n); for (uword i = 0; i < d.n; i++) w.col(i) = bw < 0 ? d.w(i) : d.w(i, bw); return w; }
static void setup(GWRGeneralized& g, const Data& d, bool pois, double tol, uword maxit, int th)
{
    g.setCoords(d.coords); g.setDependentVariable(d.y); g.setIndependentVariables(d.x); g.setSpatialWeight(d.sw());
    bool first = B(); if (first) par(g, th);
    g.setFamily(pois ? Fam::Poisson : Fam::Binomial); g.setTol(tol); g.setMaxiter(maxit); if (!first) par(g, th);
}
static void check(GWRGeneralized& g, const mat& ret, const Data& d, bool pois, const Irls& r, const mat& wt, bool hasHat, const std::string& what)
{
    mat b(d.n, d.k); double tr = 0;
    for (uword i = 0; i < d.n; i++) { vec q; double s; if (!calib(d, r, wt.col(i), q) || !hat(d, r, wt.col(i), i, s)) return; b.row(i) = q.t(); tr += s; }
    if (!expectMat("betas", ret, b, what + " returned coefficients", 1e-5)) return;
    expectMat("betas", g.betas(), b, what + " stored coefficients", 1e-5);
    double nd, dv, n = d.n, k = d.k; bool ok = glm(d, pois, nd, dv);
    if (ok)
    {
        GLMDiagnostic q = g.getGLMDiagnostic();
        expectNear("global", q.NullDev, nd, what + " null deviance", 1e-5); expectNear("global", q.Dev, dv, what + " deviance of the global model", 1e-5);
        expectNear("global", q.AIC, dv + 2 * k, what + " AIC of the global model", 1e-5); expectNear("global", q.AICc, dv + 2 * k + 2 * k * (k + 1) / (n - k - 1), what + " AICc of the global model", 1e-5);
        expectNear("global", q.RSquare, 1 - dv / nd, what + " pseudo R2 of the global model", 1e-4);
    }
    if (!hasHat) return;
    double dev = 0;
    for (uword j = 0; j < d.n; j++)
    {
        if (pois) { dev += dev1(true, d.y(j), r.mu(j)); continue; }
        double e = 0; for (uword a = 0; a < d.k; a++) e += d.x(j, a) * b(j, a);
        dev += dev1(false, d.y(j), lmean(false, e));
    }
    GWRGeneralizedDiagnostic q = g.getDiagnostic();
    expectNear("diagnostic", q.RSS, dev, what + " deviance", 1e-5); expectNear("diagnostic", q.AIC, dev + 2 * tr, what + " AIC", 1e-5);
    if (std::fabs(n - tr - 1) > 0.5) expectNear("diagnostic", q.AICc, dev + 2 * tr + 2 * tr * (tr + 1) / (n - tr - 1), what + " AICc", 1e-5);
    if (ok) expectNear("diagnostic", q.RSquare, 1 - dev / nd, what + " pseudo R2", 1e-4);
}
static void fit(long it)
{
    bool pois = B(), h = B(0.7); Data d = genG(pois, 14, 30); double tol = B() ? 1e-5 : std::pow(10, -U(2, 8)); uword maxit = B(0.6) ? 20 : I(1, 6);
    std::string t = d.text + " tol=" + num(tol) + " maxiter=" + std::to_string(maxit) + " hat=" + std::to_string(h);
    at("fit " + t); sample(t);
    mat wt = wall(d); Irls r = irls(d, pois, wt, tol, maxit); if (!r.ok) return;
    for (int th : {0, 1, 3})
    {
        at("fit threads=" + std::to_string(th) + " " + t);
        GWRGeneralized g;
        if (B(0.4)) { bool p0 = B(); Data d0 = genG(p0, 12, 20); setup(g, d0, p0, 1e-5, 20, B() ? 0 : 2); try { g.fit(); } catch (...) {} }
        setup(g, d, pois, tol, maxit, th); g.setHasHatMatrix(h);
        if (th == 0 && B(0.3))
        {
            Data d0 = genG(pois, 12, 20);
            mat loc(I(1, 2 * d.n), 2); for (uword i = 0; i < loc.n_rows; i++) { uword q = I(0, d.n - 1); loc.row(i) = d.coords.row(q); loc(i, 0) += U(-1, 1); }
            mat w(loc.n_rows, d.k); bool ok = true;
            for (uword i = 0; i < loc.n_rows && ok; i++) { vec b; ok = calib(d, r, d.wAt(loc, i), b); if (ok) w.row(i) = b.t(); }
            if (ok) expectMat("predict", g.predict(loc), w, "prediction before any fit", 1e-5);
            setup(g, d, pois, tol, maxit, th); g.setHasHatMatrix(h);
        }
        check(g, g.fit(), d, pois, r, wt, h, "fit"); check(g, g.fit(), d, pois, r, wt, h, "refit");
        mat loc(I(1, 2 * d.n), 2); for (uword i = 0; i < loc.n_rows; i++) { uword q = I(0, d.n - 1); loc.row(i) = d.coords.row(q); loc(i, 0) += U(-1, 1); }
        mat w(loc.n_rows, d.k); bool ok = true;
        for (uword i = 0; i < loc.n_rows && ok; i++) { vec b; ok = calib(d, r, d.wAt(loc, i), b); if (ok) w.row(i) = b.t(); }
        if (ok) expectMat("predict", g.predict(loc), w, "prediction", 1e-5);
    }
}
static bool crit(const Data& d, bool pois, bool cv, const mat& wt0, double tol, uword maxit, double& v)
{
    mat wt = wt0; if (cv) for (uword i = 0; i < d.n; i++) wt(i, i) = 0;
    Irls r = irls(d, pois, wt, tol, maxit); if (!r.ok) return false;
    double s = 0, tr = 0, n = d.n;
    for (uword i = 0; i < d.n; i++)
    {
        if (cv) { vec b; if (!calib(d, r, wt.col(i), b)) return false; double e = 0; for (uword a = 0; a < d.k; a++) e += d.x(i, a) * b(a); s += std::pow(d.y(i) - lmean(pois, e), 2); }
        else { double q; if (!hat(d, r, wt.col(i), i, q)) return false; tr += q; }
    }
    v = cv ? s : -2 * r.ll + 2 * tr + 2 * tr * (tr + 1) / (n - tr - 1);
    return std::fabs(n - tr - 1) > 0.5;
}
static void criterion(long it)
{
    bool pois = B(), cv = B(); Data d = genG(pois, 14, 30); double bw = d.bw * U(0.95, 1.2); at("criterion trial=" + num(bw) + (cv ? " CV " : " AIC ") + d.text);
    double want; if (!crit(d, pois, cv, wall(d, bw), 1e-5, 20, want)) return;
    for (int th : {0, 1, 3})
    {
        GWRGeneralized g; setup(g, d, pois, 1e-5, 20, th); SpatialWeight sw = d.sw(); sw.distance()->makeParameter({d.coords, d.coords}); g.setSpatialWeight(sw);
        g.setBandwidthSelectionCriterionType(cv ? GWRGeneralized::CV : GWRGeneralized::AIC); if (B()) par(g, th);
        BandwidthWeight q = d.weight(bw); double c = 0; g.getCriterion(&q, c);
        expectNear("criterion", c, want, std::string(cv ? "cross-validation" : "AICc") + " score, threads=" + std::to_string(th), 1e-5, 1e-5);
    }
}
static void select(long it)
{
    if (it % 4) return;
    bool pois = B(), cv = B(); Data d = genG(pois, 26, 40); d.adaptive = true; d.kernel = B() ? GAU : EXPO; at("select " + d.text);
    GWRGeneralized g; setup(g, d, pois, 1e-5, 20, it % 3); g.setIsAutoselectBandwidth(true); g.setBandwidthSelectionCriterionType(cv ? GWRGeneralized::CV : GWRGeneralized::AIC);
    mat b; try { b = g.fit(); } catch (...) { return; }
    SpatialWeight sw = g.spatialWeight();
    double chosen = sw.weight<BandwidthWeight>()->bandwidth(); expect("select", chosen >= 20 && chosen <= (double)d.n, "selected bandwidth " + num(chosen) + " within 20 and n");
    expect("select", g.bandwidthSelectorCriterions().size() > 0, "the evaluated bandwidths are recorded");
    double best = DBL_MAX; for (auto& p : g.bandwidthSelectorCriterions()) best = std::min(best, p.second);
    double c = 0; g.getCriterion(sw.weight<BandwidthWeight>(), c); expectNear("select", c, best, "criterion of the selected bandwidth is the smallest recorded", 1e-9);
    mat wt(d.n, d.n); for (uword i = 0; i < d.n; i++) wt.col(i) = sw.weightVector(i);
    Irls r = irls(d, pois, wt, 1e-5, 20); if (r.ok) check(g, b, d, pois, r, wt, true, "selected bandwidth");
}
int main(int argc, char** argv) { return run(argc, argv, {{"fit", fit}, {"criterion", criterion}, {"select", select}}); }
